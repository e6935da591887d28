"""P01: isotropic stacks of every kind through both solvers."""
import numpy as np

import elli
from rec import call, main, q
from stacklib import decay_ok, jones_obs, nk_mat, near, rand_index, rand_lbda, rand_thickness

SOLVERS = [
    ("2x2", dict(solver=elli.Solver2x2)),
    ("4x4", dict(solver=elli.Solver4x4)),
]


def one(rec, name, n0, layers, n1, lbda, theta, via="structure", scalar=False, extra=(), whole=False, solvers=SOLVERS):
    """layers: [(index array, thickness)]"""
    lbda = np.asarray(lbda, float)
    nw = len(lbda)
    front, back = nk_mat(lbda, n0), nk_mat(lbda, n1)
    ls = [elli.Layer(nk_mat(lbda, n), d) for n, d in layers]
    arg = float(lbda[0]) if scalar else lbda
    if whole:
        arg = int(arg) if scalar else arg.astype(int)
    obs = []
    for by, kw in list(solvers) + list(extra):
        kw = dict(kw)
        if via == "structure":
            res, err = call(lambda: elli.Structure(front, ls, back).evaluate(arg, theta, **kw))
        else:
            solver = kw.pop("solver")
            res, err = call(lambda: elli.Experiment(elli.Structure(front, ls, back), arg, theta).evaluate(solver, **kw))
        obs.append((by, res, err))
    for i in range(nw):
        ev = [{"ev": "start", "n": q(n0[i]), "theta": q(theta), "lbda": q(lbda[i])}]
        for n, d in layers:
            ev.append({"ev": "layer", "n": q(n[i]), "d": q(d)})
        ev.append({"ev": "exit", "n": q(n1[i]), "obs": [jones_obs(by, res, err, i, nw) for by, res, err in obs]})
        rec.case(f"{name}#{i}", ev)


def run(a, rng, rec):
    # behaviours of the specification: exact media, every layer sequence of the model
    kz = {1: 4, 2: 1, 3: 1.5, 4: 12, 5: 2j, 6: 1j / 3, 7: 7}
    lam = 500.0
    s0 = np.rad2deg(np.arcsin(0.6))
    for bi, b in enumerate(a.beh):
        layers = []
        for med, e in b["layers"]:
            n = np.sqrt(9 + kz[med] ** 2 + 0j)
            re, im = ([eval_frac(x) for x in e.split("|")] + [0])[:2]
            ph = np.log(complex(re, im)) / (1j * kz[med])
            d = ph.real * lam / (2 * np.pi)
            if d < 0:
                d += abs(lam / kz[med])
            layers.append((np.array([n]), float(d)))
        n1 = np.sqrt(9 + kz[b["exit"]] ** 2 + 0j)
        one(rec, f"beh{bi}", np.array([5 + 0j]), layers, np.array([n1]), [lam], s0, scalar=bi % 2 == 0)

    # seeded workload
    kinds = ["diel", "weak", "abs", "metal", "vac"]
    total = 1500 if a.thorough else 330
    for c in range(total):
        nw = rng.choice([1, 1, 2, 3])
        lbda = sorted(rand_lbda(rng) for _ in range(nw))
        if rng.random() < 0.3:
            lbda = lbda[::-1]
        whole = rng.random() < 0.12  # whole numbers of nanometres, given as integers
        if whole:
            lbda = [int(x) for x in lbda]
        theta = rng.choice([0.0, 0, 10 ** rng.uniform(-3, -1), 30.0, 45, 60.0, 70, 89.0, rng.uniform(0, 89.5), rng.uniform(0, 89.5), rng.uniform(0, 89.5)])
        n0 = np.array([rand_index(rng, rng.choice(["vac", "vac", "diel"]))] * nw)
        if rng.random() < 0.3:
            n0 = np.array([rand_index(rng, "diel") for _ in range(nw)])
        nl = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 8])
        layers = []
        budget = 9.0
        for _ in range(nl):
            for _try in range(50):
                kind = rng.choice(kinds)
                n = np.array([rand_index(rng, kind) for _ in range(nw)])
                if rng.random() < 0.5:
                    n = np.array([n[0]] * nw)
                d = rand_thickness(rng)
                need = max(abs(np.sqrt(n[i] ** 2 - (n0[i] * np.sin(np.deg2rad(theta))) ** 2).imag) * d * 2 * np.pi / lbda[i] for i in range(nw))
                if need < budget and all(decay_ok(n[i], n0[i] * np.sin(np.deg2rad(theta)), d, lbda[i]) for i in range(nw)):
                    budget -= need
                    layers.append((n, d))
                    break
        n1 = np.array([rand_index(rng, rng.choice(kinds))] * nw)
        if rng.random() < 0.3:
            n1 = np.array([rand_index(rng, rng.choice(kinds)) for _ in range(nw)])
        kx0 = n0[0].real * np.sin(np.deg2rad(theta))
        if kx0 > 0.7 and rng.random() < 0.12:  # next to the critical angle
            n1 = np.array([near(rng, kx0)] * nw)
        if any(abs(np.sqrt(n1[i] ** 2 - (n0[i] * np.sin(np.deg2rad(theta))) ** 2)) < 1e-4 for i in range(nw)):
            continue
        extra = []
        if c % 3 == 0:
            extra = [("4x4-eig", dict(solver=elli.Solver4x4, propagator=elli.PropagatorEig()))]
        if c % 3 == 1:
            extra = [("4x4-scipy", dict(solver=elli.Solver4x4, propagator=elli.PropagatorExpm(backend="scipy")))]
        one(rec, f"rnd{c}", n0, layers, n1, lbda, theta, via=rng.choice(["structure", "experiment"]),
            scalar=nw == 1 and rng.random() < 0.5, extra=extra, whole=whole)


    # opaque layers: nothing arrives behind them, and what they reflect does not depend on how thick they are
    for c in range(200 if a.thorough else 30):
        nw = rng.choice([1, 2])
        lbda = np.array(sorted(rand_lbda(rng) for _ in range(nw)))
        theta = rng.choice([0.0, rng.uniform(0, 89)])
        n0 = np.array([rand_index(rng, rng.choice(["vac", "diel"]))] * nw)
        layers, total = [], 0.0
        for _ in range(rng.choice([1, 1, 2, 3])):
            n = np.array([rand_index(rng, rng.choice(["abs", "metal", "diel"]))] * nw)
            d = rng.choice([rng.uniform(20, 500), 10 ** rng.uniform(3, 6)])
            kz = np.sqrt(n**2 - (n0 * np.sin(np.deg2rad(theta))) ** 2)
            if np.abs(kz).min() < 0.02:
                continue
            total += np.abs(kz.imag * d * 2 * np.pi / lbda).max()
            layers.append((n, d))
        n1 = np.array([rand_index(rng, rng.choice(["diel", "metal", "vac"]))] * nw)
        if np.abs(np.sqrt(n1**2 - (n0 * np.sin(np.deg2rad(theta))) ** 2)).min() < 1e-3:
            continue
        one(rec, f"opaque{c}", n0, layers, n1, lbda, theta, solvers=SOLVERS if total < 150 else SOLVERS[:1])
    one(rec, "opaque-gold-30um", np.array([1 + 0j]), [(np.array([0.2 + 3.5j]), 30000.0)], np.array([1.5 + 0j]), [500.0], 60.0)


def eval_frac(s):
    from fractions import Fraction

    return float(Fraction(s))


if __name__ == "__main__":
    main(run)

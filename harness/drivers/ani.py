"""P03: anisotropic structures through the 4x4 solver and every propagator."""
import numpy as np

import elli
from rec import call, main, q
from stacklib import elli_rot, eps_mat, mats_obs, np_delta, np_rot, np_tensor, rand_eps, rand_index, rand_rot, nk_mat, rand_lbda, rand_thickness, rec_rot

ROUTES = [
    ("default", {}),
    ("eig", dict(propagator=elli.PropagatorEig())),
    ("torch", dict(propagator=elli.PropagatorExpm(backend="torch"))),
    ("scipy", dict(propagator=elli.PropagatorExpm(backend="scipy"))),
]


def diag_of(rng, nw):
    kind = rng.choice(["diel", "diel", "weak", "abs", "mixed"])
    sym = rng.choice(["uni", "uni", "bi", "bi", "iso"])
    disp = rng.random() < 0.4

    def one():
        ks = [kind if kind != "mixed" else rng.choice(["diel", "abs", "weak"]) for _ in range(3)]
        v = [rand_eps(rng, k) for k in ks]
        if sym == "uni":
            v[1] = v[0]
        if sym == "iso":
            v[1] = v[2] = v[0]
        return v

    first = one()
    return np.array([one() if disp and i else first for i in range(nw)])


class Magnetised(elli.Material):
    """a user's material class: principal values, a rotation, and a gyration vector g (eps_ij - i e_ijk g_k)"""

    def __init__(self, full):
        self.full = np.array(full, complex)

    def get_tensor(self, lbda):
        return np.array([self.full] * np.size(lbda)) if self.full.ndim == 2 else self.full.copy()


def gyrate(rng, e):
    g = np.array([rng.choice([0, 1, 1]) * rng.uniform(-0.8, 0.8) for _ in range(3)])
    if rng.random() < 0.3:
        g = g * (1 + 0.2j)
    return e + 1j * np.array([[0, g[2], -g[1]], [-g[2], 0, g[0]], [g[1], -g[0], 0]])


def degenerate(q4, gap=1e-4):
    """eigenvalue method is meaningless where Delta is (nearly) defective"""
    return min(abs(q4[i] - q4[j]) for i in range(4) for j in range(i)) < gap


def run(a, rng, rec):
    total = 3000 if a.thorough else 300
    opaque(rec)
    c = 0
    while c < total:
        nw = rng.choice([1, 1, 2])
        lbda = [rand_lbda(rng) for _ in range(nw)]
        theta = rng.choice([0.0, 10 ** rng.uniform(-3, -1), 30, 45, 60.0, 85, rng.uniform(0.0, 88), rng.uniform(0, 88)])
        n0 = rng.choice([1.0, 1.0, rng.uniform(1.0, 2.2)])
        kx = n0 * np.sin(np.deg2rad(theta))
        linear = rng.random() < 0.15
        nl = rng.choice([0, 1, 1, 2, 2, 3, 5]) if not linear else rng.choice([1, 1, 2, 3])
        layers, budget, eig_ok = [], rng.choice([8.0, 8.0, 13.0]), True
        gap = 1e-4 if budget < 10 else 3e-2
        for _ in range(nl):
            for _try in range(40):
                dg, rot = diag_of(rng, nw), rand_rot(rng)
                if kx > 0.6 and rng.random() < 0.08:  # almost grazing inside the layer
                    v = complex(kx**2 + rng.choice([1, 1, -1]) * 10 ** rng.uniform(-6, -2))
                    dg = np.array([[v, v, v]] * nw)
                d = rand_thickness(rng, 3000.0)
                if linear:
                    d = rng.uniform(0.0, 40)
                need, ok, deg = 0.0, True, False
                gyro, full = rng.random() < 0.15, None
                for i in range(nw):
                    if full is not None and i:
                        e = full
                    else:
                        e = np_tensor(dg[i], rot)
                        if gyro:
                            e = full = gyrate(rng, e)
                    if abs(e[2, 2]) < 0.3:
                        ok = False
                        break
                    q4 = np.linalg.eigvals(np_delta(e, kx))
                    need = max(need, np.abs(q4.imag).max() * d * 2 * np.pi / lbda[i])
                    deg = deg or degenerate(q4, gap)
                if ok and need < budget:
                    budget -= need
                    eig_ok = eig_ok and not deg
                    layers.append((dg, rot, d, full))
                    break
        # exit
        iso_exit = rng.random() < 0.5
        if iso_exit:
            n1 = rand_index(rng, rng.choice(["diel", "weak", "abs", "metal", "vac"]))
            if abs(np.sqrt(n1**2 - kx**2)) < 0.05:
                continue
            back = nk_mat(lbda, np.array([n1] * nw))
        else:
            dg1, rot1 = diag_of(rng, nw), rand_rot(rng)
            good = True
            for i in range(nw):
                e = np_tensor(dg1[i], rot1)
                if abs(e[2, 2]) < 0.3:
                    good = False
                    break
                q4 = np.linalg.eigvals(np_delta(e, kx))
                z = q4 * np.exp(-1j * np.pi / 8)
                fwd = [(x.imag > 1e-9 or (abs(x.imag) <= 1e-9 and x.real > 0)) for x in q4]
                # two forward waves, clearly separated from the backward ones
                if sum(fwd) != 2 or [bool(x.real > 0) for x in z] != fwd or np.abs(z.real).min() < 0.03:
                    good = False
            if not good:
                continue
            back = eps_mat(lbda, dg1, rot1, form=rng.choice(["uni", "bi"]) if np.array_equal(dg1[:, 0], dg1[:, 1]) else "bi")
        front = nk_mat(lbda, np.array([complex(n0)] * nw))
        st = elli.Structure(front, [elli.Layer(eps_mat(lbda, dg, rot) if f is None else Magnetised(f), d) for dg, rot, d, f in layers], back)
        routes = ROUTES if not linear else [("linear", dict(propagator=elli.PropagatorLinear()))]
        obs = []
        for by, kw in routes:
            if by == "eig" and not eig_ok:
                continue
            arg = lbda[0] if nw == 1 and c % 2 else np.array(lbda)
            obs.append((by,) + call(lambda: st.evaluate(arg, theta, solver=elli.Solver4x4, **kw)))
        for i in range(nw):
            ev = [{"ev": "start", "n": q(n0), "theta": q(theta), "lbda": q(lbda[i]), "linear": linear}]
            for dg, rot, d, full in layers:
                if full is not None:
                    ev.append({"ev": "slab", "eps": [[q(complex(x)) for x in row] for row in full], "d": q(d)})
                    continue
                ev.append({"ev": "layer", "diag": [q(x) for x in dg[i]], "rot": rec_rot(rot), "d": q(d)})
            if iso_exit:
                ev.append({"ev": "iso", "n": q(n1), "obs": [mats_obs(by, r, e, i, nw) for by, r, e in obs]})
            else:
                ev.append({"ev": "any", "diag": [q(x) for x in dg1[i]], "rot": rec_rot(rot1),
                           "obs": [mats_obs(by, r, e, i, nw, t=False) for by, r, e in obs]})
            rec.case(f"ani{c}#{i}", ev)
        c += 1


def opaque(rec):
    """a layer of which nothing comes back (fixed; see KNOWN_FINDINGS.txt)"""
    rot = {"kind": "euler", "v": [30, 50, 20]}
    dg = np.array([[complex(1.5, 0.5) ** 2, complex(1.7, 0.6) ** 2, complex(1.9, 0.4) ** 2]])
    lbda, d, n1 = [500.0], 40000.0, 1.5 + 0j
    st = elli.Structure(elli.AIR, [elli.Layer(eps_mat(lbda, dg, rot), d)], nk_mat(lbda, np.array([n1])))
    r, e = call(lambda: st.evaluate(np.array(lbda), 60.0, solver=elli.Solver4x4))
    rec.case("opaque-biaxial-40um", [
        {"ev": "start", "n": q(1.0), "theta": q(60.0), "lbda": q(500.0), "linear": False},
        {"ev": "layer", "diag": [q(complex(x)) for x in dg[0]], "rot": rec_rot(rot), "d": q(d)},
        {"ev": "iso", "n": q(n1), "obs": [mats_obs("default", r, e, 0, 1)]}])


if __name__ == "__main__":
    main(run)

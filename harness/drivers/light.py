"""P24: incident polarisation."""
import cmath
import math

import numpy as np

import elli
from elli import Experiment
from rec import call, main, q, qs
from stacklib import elli_rot, rand_rot

JONES = [[1, 0], [0, 1], [1, 1], [1, -1], [1, 1j], [1, -1j], [0.6 + 1j / 7, -0.8j], [1e-9, 1 + 1j], [3, 1e-9]]
STOKES = [[1, 1, 0, 0], [1, -1, 0, 0], [3, -0.1, 0, 0], [1, 0, 1, 0], [1, 0, -1, 0], [1, 0, 0, 1], [1, 0, 0, -1], [2, 0.6, -0.5, 1 / 3], [5, -3, 1e-9, -1e-9], [1, -0.6, 0, 0.8]]


def vector(rng, kind, i):
    if kind == "none":
        return None
    table = JONES if kind == "jones" else STOKES
    if i <= len(table):
        v = list(table[i - 1])
    elif kind == "jones":
        a = rng.choice([rng.uniform(0, 2), 1.0, 10 ** rng.uniform(-8, 0)])
        b = rng.choice([rng.uniform(0, 2), 1.0, 10 ** rng.uniform(-8, 0)])
        v = [a * cmath.exp(1j * rng.uniform(-4, 4)), b * cmath.exp(1j * rng.uniform(-4, 4))]
    else:
        mode = rng.randrange(4)
        th, ph = rng.uniform(0, math.pi), rng.uniform(-math.pi, math.pi)
        if mode == 1:
            th = math.pi - 10 ** rng.uniform(-10, -1)           # almost vertical
        if mode == 2:
            ph = rng.choice([0, math.pi / 2, -math.pi / 2, math.pi])
        n = rng.uniform(0.05, 3)
        v = [n * rng.choice([1.0, rng.uniform(1, 5)]), n * math.cos(th), n * math.sin(th) * math.cos(ph), n * math.sin(th) * math.sin(ph)]
        if mode == 3:
            v = [v[0], -n, 0.0, 0.0]
    return v


def dress(rng, v):
    k = rng.randrange(3)
    return v if k == 0 or v is None else np.array(v) if k == 1 else tuple(v)


def stack(rng):
    c = elli.ConstantRefractiveIndex
    front = elli.IsotropicMaterial(c(rng.choice([1, 1.3])))
    back = elli.IsotropicMaterial(c(complex(rng.uniform(1.4, 4), rng.choice([0, rng.uniform(0, 2)]))))
    if rng.random() < 0.4:
        layers = [elli.Layer(elli.IsotropicMaterial(c(rng.uniform(1.3, 2.5))), rng.uniform(0, 200))]
        return elli.Structure(front, layers, back), rng.choice([elli.Solver2x2, elli.Solver4x4])
    m = elli.BiaxialMaterial(c(rng.uniform(1.4, 2)), c(rng.uniform(1.6, 2.3)), c(rng.uniform(1.4, 2.4)))
    rot = rand_rot(rng)
    if rot["kind"] != "none":
        m.set_rotation(elli_rot(rot))
    return elli.Structure(front, [elli.Layer(m, rng.uniform(30, 200))], back), elli.Solver4x4


def drive(a, rng, rec):
    for n, b in enumerate(a.beh):
        ev, results = [], []
        s, solver = stack(rng)
        w = [rng.uniform(300, 900) for _ in range(rng.choice([1, 2]))]
        kind, i = ("none", 1) if b[0][0] != "set" else b[0][1:]
        v = vector(rng, kind, i)
        held = dress(rng, v)
        exp, err = call(Experiment, s, w, rng.uniform(20, 75), *([] if v is None and rng.random() < 0.5 else [held]))

        def stored():
            return {"j": qs(exp.jones_vector), "s": qs(exp.stokes_vector)} if exp is not None else {"j": [], "s": []}

        ev.append({"ev": "new", "kind": kind, "v": [q(x) for x in v or []], "err": err, **stored()})
        if err:
            rec.case(f"light-{n}", ev)
            continue
        for step in b[1 if b[0][0] == "set" else 0:]:
            if step[0] == "set":
                v = vector(rng, *step[1:])
                held = dress(rng, v)
                _, err = call(exp.set_vector, held)
                ev.append({"ev": "set", "kind": step[1], "v": [q(x) for x in v or []], "err": err, **stored()})
                if err:
                    break
            elif step[0] == "spoil":
                if isinstance(held, np.ndarray):
                    held[...] = held[::-1] * 0.5 + 0.25
                elif isinstance(held, list):
                    held[0] = 7
                ev.append({"ev": "spoil", **stored()})
            elif step[0] == "evaluate":
                r = exp.evaluate(solver)
                results.append(r)
                ev.append({"ev": "evaluate", "M": qs(r.rho_matrix), "rho": qs(r.rho)})
            elif results:
                k = rng.randrange(len(results))
                ev.append({"ev": "reread", "r": k + 1, "rho": qs(results[k].rho)})
        rec.case(f"light-{n}", ev)


if __name__ == "__main__":
    main(drive)

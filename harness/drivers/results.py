"""P25: lists of results."""
import copy
import pickle

import numpy as np

import elli
from elli.result import ResultList
from rec import call, main, q
from result import NAMES, real_name
from light import stack

PLAIN = [n for n in NAMES]


def flat(v):
    return [q(complex(x)) for x in np.asarray(v).reshape(-1)]


def members(rng):
    s, solver = stack(rng)
    nw = rng.choice([1, 1, 2, 3])
    w = np.sort([rng.uniform(300, 900) for _ in range(nw)])
    w = float(w[0]) if nw == 1 and rng.random() < 0.5 else w
    angle = rng.uniform(20, 75)
    how = rng.randrange(3)
    if how == 0:                                        # thickness inhomogeneity
        out = []
        for _ in range(3):
            if s.layers:
                s.layers[0].set_thickness(rng.uniform(0, 150))
            out.append(s.evaluate(w, angle if s.layers else rng.uniform(20, 75), solver=solver))
        return out
    if how == 1:                                        # angular spread
        return [s.evaluate(w, rng.uniform(10, 80), solver=solver) for _ in range(3)]
    out = []
    for _ in range(3):                                  # different samples
        s, solver = stack(rng)
        out.append(s.evaluate(w, angle, solver=solver))
    return out


def drive(a, rng, rec):
    for n, b in enumerate(a.beh):
        pool = members(rng)
        attrs = rng.sample(PLAIN, 2) + rng.sample(["psi", "delta", "rho", "R", "T", "r_ps", "mueller_matrix", "psi_pp", "R_pp"], 2)
        attrs = [x for x in attrs if not any(call(getattr, m, real_name(x))[1] for m in pool)]
        attrs = [x for x in attrs if all(np.all(np.isfinite(getattr(m, real_name(x)))) for m in pool)]
        first = []
        start = 0
        if rng.random() < 0.4:
            while start < len(b) and b[start][0] == "append":
                first.append(b[start][1])
                start += 1
        given = [pool[m - 1] for m in first]
        lst = ResultList(given) if first or rng.random() < 0.3 else ResultList()
        ev = [{"ev": "new", "m": first, "pool": len(pool), "n": len(lst)}]
        for x in attrs:
            for m, r in enumerate(pool):
                ev.append({"ev": "learn", "m": m + 1, "attr": x, "v": flat(getattr(r, real_name(x)))})
        kept = None
        for step in b[start:]:
            k = step[0]
            if k == "append":
                lst.append(pool[step[1] - 1])
                kept = None
                ev.append({"ev": "append", "m": step[1], "n": len(lst)})
                continue
            for x in attrs:
                rn = real_name(x)
                if k == "list":
                    v, err = call(getattr, lst, rn)
                    ev.append({"ev": "list", "attr": x, "err": err, "v": [] if err else flat(v)})
                elif k == "mean":
                    v, err = call(lambda: getattr(kept if kept is not None else lst.mean, rn))
                    ev.append({"ev": "mean", "attr": x, "err": err, "v": [] if err else flat(v)})
                elif k == "member":
                    i = rng.randrange(len(lst.results))
                    ev.append({"ev": "member", "i": i + 1, "attr": x, "v": flat(getattr(lst.results[i], rn))})
                elif k in ("copy", "pickle", "deepcopy"):
                    f = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda o: pickle.loads(pickle.dumps(o))}[k]
                    mean = rng.random() < 0.5
                    v, err = call(lambda: getattr(f(lst.mean if mean else lst), rn))
                    ev.append({"ev": "mean" if mean else "list", "attr": x, "err": err, "v": [] if err else flat(v)})
            if k == "keep":
                kept = lst.mean
            if k == "remean":
                _, err = call(lambda: lst.mean.mean)
                ev.append({"ev": "remean", "err": err})
        rec.case(f"results-{n}", ev)


if __name__ == "__main__":
    main(drive)

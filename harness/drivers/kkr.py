"""P16: Kramers-Kronig transforms."""
import numpy as np

from elli.kkr.kkr import im2re, im2re_reciprocal, re2im, re2im_reciprocal
from rec import call, main, q

F = {"im2re": im2re, "re2im": re2im, "im2re_reciprocal": im2re_reciprocal, "re2im_reciprocal": re2im_reciprocal}


def event(kind, t, x):
    t0, x0 = t.copy(), x.copy()
    v, err = call(F[kind], t, x)
    kept = bool(np.array_equal(t, t0, equal_nan=True) and np.array_equal(x, x0))
    if not err:
        v, err = call(lambda: [q(complex(z)) for z in np.asarray(v).reshape(-1)])
    return {"ev": "kkr", "kind": kind, "t": [q(float(z)) for z in t0], "x": [q(float(z)) for z in x0], "err": err, "v": v or [], "kept": kept}


def grid(rng, kind, n):
    if rng.random() < 0.15:
        return rng.choice([1, 200]) + rng.choice([1, 5]) * np.arange(n)
    h = rng.choice([0.5, 0.01, 0.1, 1.0, 2.5, rng.uniform(0.01, 5)])
    x0 = rng.choice([h, 1.0, 0.3, 200.0, rng.uniform(0.1, 900)])
    if "reciprocal" not in kind and rng.random() < 0.2:
        x0 = 0.0
    x = rng.choice([lambda: x0 + h * np.arange(n), lambda: np.linspace(x0, x0 + h * (n - 1), n)])()
    if rng.random() < 0.3:      # other units of the axis
        x = x * rng.choice([1e-9, 1e-6, 1e-3, 1e4, 2.0**-60, 1e12])
    return x[::-1] if rng.random() < 0.25 else x


def signal(rng, x):
    k = rng.randrange(7)
    n = len(x)
    if k == 0:
        return np.array([rng.uniform(-5, 5) for _ in x])
    if k == 1:
        t = np.zeros(n)
        t[rng.randrange(n)] = rng.choice([1.0, -2.5])
        return t
    if k == 2:
        return np.ones(n) * rng.uniform(-3, 3)
    if k == 3:
        c, w = x[n // 2], abs(x[-1] - x[0]) / 7 + 1e-3
        return 3 * np.exp(-(((x - c) / w) ** 2))
    if k == 4:
        return np.array([rng.randrange(-4, 5) for _ in x])
    if k == 5:
        return np.where(np.arange(n) % 2 == 0, 1.0, -1.0) * 10 ** rng.uniform(-6, 6)
    return np.zeros(n)


def run(a, rng, rec):
    m = 10 if a.thorough else 1
    for i, t in enumerate(a.beh):
        n = len(t)
        x = 2 + np.arange(n) / 2
        y = np.array([float(v) for v in t])
        ev = [event(k, y, x) for k in F]
        rec.case(f"gen-{i}", ev, w=n * n)
    for kind in F:
        for i in range(30 * m):
            n = rng.choice([2, 3, 4, 5, 6, 7, 16, 33, rng.randrange(2, 60)])
            x = grid(rng, kind, n)
            rec.case(f"{kind}-{i}", [event(kind, signal(rng, x), x)], w=n * n)
        bad = [(0, 0), (1, 1), (0, 1), (1, 0), (3, 4), (4, 3), (2, 7), (7, 6), (1, 2), (2, 1), (6, 1), (5, 0)]
        rec.case(f"{kind}-refuse", [event(kind, np.linspace(1, 2, p), 1 + np.arange(float(r))) for p, r in bad])
    for i in range(3 * m):
        n = rng.randrange(120, 200)
        kind = rng.choice(list(F))
        x = grid(rng, kind, n)
        rec.case(f"long-{i}", [event(kind, signal(rng, x), x)], w=n * n)


if __name__ == "__main__":
    main(run)

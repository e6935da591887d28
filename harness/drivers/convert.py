"""P23: conversions."""
import cmath
import math

import numpy as np
import pandas as pd

import elli
from elli import utils
from rec import call, main, q
from stacklib import nk_mat

BEAMS = [633, 193.4, 1 / 3, 25000]
COLS = [f"M{i}{j}" for i in range(1, 5) for j in range(1, 5)]


def labels(index):
    return [[q(x) for x in (t if isinstance(t, tuple) else (t,))] for t in index]


def nums(v):
    return [q(x) for x in np.atleast_1d(np.asarray(v)).tolist()]


def axis(rng, n):
    w = sorted({rng.choice([float(rng.randrange(200, 1000)), rng.uniform(200, 2000)]) for _ in range(n)})
    k = rng.randrange(4)
    return w[::-1] if k == 0 else rng.sample(w, len(w)) if k == 1 else w


def table(rng):
    """a table of psi and delta; full product of angles and wavelengths"""
    aoi = rng.sample([20, 45.5, 50, 55, 60, 65, 70, 75.25], rng.choice([1, 1, 2, 3]))
    w = axis(rng, rng.choice([1, 2, 4]))
    if rng.random() < 0.3:
        w = sorted({int(x) for x in w})
    multi = len(aoi) > 1 or rng.random() < 0.6
    idx = pd.MultiIndex.from_product([aoi, w], names=["Angle of Incidence", "Wavelength"]) if multi else pd.Index(w, name="Wavelength")
    psi = [rng.choice([0.0, 45, 1e-6, 89.999, rng.uniform(0, 89), rng.uniform(0, 89), rng.choice([-20.0, 135.5, -0.01])]) for _ in idx]
    delta = [rng.choice([0.0, 180, 360, -90, 270, rng.uniform(-360, 360)]) for _ in idx]
    if rng.random() < 0.2:
        psi, delta = [int(x) for x in psi], [int(x) for x in delta]
    d = {"Ψ": psi, "Δ": delta}
    if rng.random() < 0.3:
        d = {"Δ": delta, "Ψ": psi}
    if rng.random() < 0.2:
        d["error"] = [7] * len(psi)
    t = pd.DataFrame(d, index=idx)
    if multi and len(t) > 1 and rng.random() < 0.2:
        t = t.iloc[rng.sample(range(len(t)), len(t))]
    return t, multi


def psd(t):
    return {"rows": labels(t.index), "psi": nums(t["Ψ"]), "delta": nums(t["Δ"])}


def pseudo(rng, rho, angle, ev, extra):
    for out in ["eps", "epsi", "n"]:
        def one():
            r = utils.calc_pseudo_diel(rho, angle, **({} if out == "eps" and rng.random() < 0.5 else {"output": out}))
            if out == "eps":
                return r.index, r["ϵ1"] + 1j * r["ϵ2"]
            if out == "n":
                return r.index, r["n"] + 1j * r["k"]
            return r.index, r
        v, err = call(one)
        ev.append({"out": out, "rows": labels(rho.index), "angle": q(angle), "rho": nums(rho), "err": err,
                   "orows": [] if err else labels(v[0]), "v": [] if err else nums(v[1]), **extra})


def tables(rng, ev):
    t, multi = table(rng)
    before = t.copy()
    rho, err = call(utils.calc_rho, t)
    ev.append({"ev": "rho", **psd(t), "err": err, "orows": [] if err else labels(rho.index), "v": [] if err else nums(rho)})
    if not err:
        # a measurement may as well be real (no phase)
        pseudo(rng, rho, rng.uniform(5, 85), ev, {"ev": "pseudo"})
    if multi:
        m, err = call(utils.convert_psi_delta_to_isotropic_mueller_matrix, t)
        if not err and list(m.columns) != COLS:
            err = "columns"
        ev.append({"ev": "mueller", **psd(before), "err": err, "orows": [] if err else labels(m.index),
                   "v": [] if err else [nums(r) for r in m.to_numpy().tolist()]})


def sims(rng, ev):
    w = axis(rng, rng.choice([2, 3]))
    n = np.array([complex(rng.uniform(0.2, 4), rng.choice([0, 10 ** rng.uniform(-4, 0.7)])) for _ in w])
    air = elli.IsotropicMaterial(elli.ConstantRefractiveIndex(1))
    sub = nk_mat(w, n)
    n = [complex(sub.get_refractive_index(x)[0, 0, 0]) for x in w]
    angle = rng.choice([50, 70, rng.uniform(20, 80)])
    res = elli.Structure(air, [], sub).evaluate(np.array(w), angle, solver=rng.choice([elli.Solver2x2, elli.Solver4x4]))
    rho = pd.Series(res.rho, index=pd.Index(w, name="Wavelength"))
    pseudo(rng, rho, angle, ev, {"ev": "bare", "n": nums(n)})
    psi, delta = res.psi, res.delta
    ev.append({"ev": "simmm", "psi": nums(psi), "delta": nums(delta), "v": [[q(float(x)) for x in m.reshape(-1)] for m in res.mueller_matrix]})
    t = pd.DataFrame({"Ψ": psi, "Δ": delta}, index=pd.MultiIndex.from_product([[angle], w], names=["Angle of Incidence", "Wavelength"]))
    m, err = call(utils.convert_psi_delta_to_isotropic_mueller_matrix, t)
    ev.append({"ev": "mueller", **psd(t), "err": err, "orows": [] if err else labels(m.index), "v": [] if err else [nums(r) for r in m.to_numpy().tolist()]})
    lam = rng.choice(w)
    d, err = call(utils.get_qwp_thickness, sub, lam)
    ev.append({"ev": "qwp", "n": q(n[w.index(lam)].real), "lam": q(lam), "err": err, "v": "" if err else q(float(d))})


def form(rng, lam):
    k = rng.randrange(5)
    if k == 4:
        lam = [max(1, int(lam[0]))]
        return lam, lam[0]
    if k == 0:
        lam = lam[:1]
        return lam, lam[0]
    if k == 1:
        return lam, pd.Series(lam, index=range(5, 5 + len(lam)))
    if k == 2:
        lam = [int(x) for x in lam if x >= 1] or [633]
        return lam, np.array(lam)
    return lam, np.array(lam)


def drive(a, rng, rec):
    for n, b in enumerate(a.beh):
        i = b[0][1]
        lam = [BEAMS[i - 1]] if i <= len(BEAMS) else [10 ** rng.uniform(-1, 5) for _ in range(rng.choice([1, 3]))]
        lam, x = form(rng, lam)
        ev = [{"ev": "beam", "lam": nums(lam)}]
        for fn, frm, to in b[1:]:
            kept = x.copy() if hasattr(x, "copy") else x
            y, err = call(getattr(utils, fn), x)
            if not err and not np.array_equal(kept, x):
                err = "argument changed"
            ev.append({"ev": "conv", "fn": fn, "from": frm, "to": to, "err": err, "v": [] if err else nums(y)})
            if err:
                break
            if isinstance(x, pd.Series) and list(y.index) != list(x.index):
                ev[-1]["err"] = "labels"
            x = y
        tables(rng, ev)
        sims(rng, ev)
        rec.case(f"convert-{n}", ev)


if __name__ == "__main__":
    main(drive)

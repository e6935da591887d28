"""P08, P09: representations of results and delta ranges."""
import cmath
import math

import numpy as np
import pandas as pd

import elli
from elli.utils import convert_delta_range
from rec import call, main, q, qs
from stacklib import eps_mat, rand_eps, rand_rot

GREEK = {"~psi": "Ψ", "~delta": "Δ", "~rho": "ρ"}


def real_name(n):
    for k, v in GREEK.items():
        if n.startswith(k):
            return v + n[len(k):]
    return n


def gen_names():
    lin, cir, num = ["pp", "ps", "sp", "ss"], ["LL", "LR", "RL", "RR"], ["11", "12", "21", "22"]
    linear = ["psi", "delta", "rho", "~psi", "~delta", "~rho", "r", "t", "R", "T", "psi_matrix", "delta_matrix", "rho_matrix",
              "psi_matrix_t", "delta_matrix_t", "rho_matrix_t", "jones_matrix_r", "jones_matrix_t", "R_matrix", "T_matrix"]
    circ = ["rc", "tc", "Rc", "Tc", "r", "t", "R", "T", "jones_matrix_rc", "jones_matrix_tc", "Rc_matrix", "Tc_matrix"]
    whole = ["rho", "rho_t", "psi", "psi_t", "delta", "delta_t", "rho_matrix", "rho_matrix_t", "psi_matrix", "psi_matrix_t",
             "delta_matrix", "delta_matrix_t", "mueller_matrix", "jones_matrix_r", "jones_matrix_t", "jones_matrix_rc",
             "jones_matrix_tc", "R", "T", "R_matrix", "T_matrix", "Rc_matrix", "Tc_matrix", "r", "t", "rc", "tc", "Rc", "Tc",
             "~psi", "~delta", "~rho"]
    out = list(whole)
    out += [f"{b}_{i}" for b in linear for i in lin + num]
    out += [f"{b}_{i}" for b in circ for i in cir]
    out += [f"{b}_{i}" for b in ["rc", "tc", "Rc", "Tc"] for i in num]
    out += [f"mueller_matrix_{i}{j}" for i in range(1, 5) for j in range(1, 5)]
    return out


NAMES = gen_names()
WRONG = ["foo", "r_xy", "r_p", "r_ppp", "r_", "psi_5p", "mueller_matrix_51", "mueller_matrix_15", "x_pp", "rpp", "r_pq",
         "R_33", "delta_ab", "psi_matrix_zz", "t_34", "T_sx", "jones_matrix", "jones_matrix_x", "rho_pP", "r-pp", "Psi", "Delta_pp", "mean"]


def value(v, n):
    v = np.asarray(v)
    if v.ndim == 0 or v.shape[0] != n:
        return []
    return [[q(complex(x)) for x in e.reshape(-1)] for e in v.reshape(n, -1)]


def ask(res, name, via, n):
    rn = real_name(name)
    v, err = call(res.get, rn) if via == "get" else call(getattr, res, rn)
    if not err:
        v, err = call(value, v, n)
    return {"ev": "ask", "via": via, "name": name, "err": err, "v": v or []}


# ---- results ------------------------------------------------------------------------------------
def rand_jones(rng, diag=False):
    def c(lo=0.02):
        return rng.uniform(lo, 1) * cmath.exp(1j * rng.choice([rng.uniform(-math.pi, math.pi), 0, math.pi / 2, math.pi, -math.pi / 2]))
    J = np.array([[c(), c(0)], [c(0), c(0.05)]])
    if diag:
        J[0, 1] = J[1, 0] = 0
    elif rng.random() < 0.3:    # a trace of conversion
        J[0, 1] *= 10 ** rng.uniform(-6, -2)
        J[1, 0] *= 10 ** rng.uniform(-6, -2)
    if rng.random() < 0.1:
        J[0, 0] *= 10 ** rng.uniform(-5, -1)
    return J


def rand_vec(rng):
    k = rng.randrange(5)
    if k < 2:
        return None
    if k == 2:
        return rng.choice([[1, 1j], [1, -1j], [1, -1], [0.6, 0.8], [2, 1]])
    return [rng.uniform(0.2, 1), rng.uniform(0.2, 1) * cmath.exp(1j * rng.uniform(-3, 3))]


def synthetic(rng, n=None):
    n = n or rng.choice([1, 2, 3])
    st = elli.Structure(elli.AIR, [], elli.AIR)
    ex = elli.Experiment(st, np.linspace(400, 800, n), 60, rand_vec(rng))
    diag = rng.random() < 0.2
    jr = np.array([rand_jones(rng, diag) for _ in range(n)])
    jt = np.array([rand_jones(rng, diag) for _ in range(n)])
    pc = np.array([rng.uniform(0.1, 5) for _ in range(n)])
    if rng.random() < 0.15:
        res, pc = elli.Result(ex, jr, jt), np.ones(n)
    else:
        res = elli.Result(ex, jr, jt, pc)
    return res, jr.copy(), jt.copy(), pc.copy()


def simulated(rng):
    n = rng.choice([1, 2, 3])
    lb = np.array(sorted(rng.uniform(300, 900) for _ in range(n)))
    iso = rng.random() < 0.3

    def mat():
        e = [[rand_eps(rng, rng.choice(["diel", "weak", "abs"])) for _ in range(3)] for _ in lb]
        if iso:
            e = [[x[0]] * 3 for x in e]
        return eps_mat(lb, e, {"kind": "none"} if iso else rand_rot(rng))
    layers = [elli.Layer(mat(), rng.uniform(5, 80)) for _ in range(rng.choice([1, 2]))]
    back = elli.ConstantRefractiveIndex(n=rng.choice([1, 1.5, 3.4])).get_mat()
    ex = elli.Experiment(elli.Structure(elli.AIR, layers, back), lb, rng.uniform(20, 80), rand_vec(rng))
    res = ex.evaluate(elli.Solver2x2) if iso and rng.random() < 0.5 else ex.evaluate()
    jr, jt = np.array(res.jones_matrix_r), np.array(res.jones_matrix_t)
    pc = np.asarray(res.T_matrix)[:, 1, 1] / np.abs(jt[:, 1, 1]) ** 2
    return res, jr, jt, pc


def start(res, jr, jt, pc):
    return {"ev": "result", "jr": [[[q(complex(x)) for x in r] for r in m] for m in jr],
            "jt": [[[q(complex(x)) for x in r] for r in m] for m in jt], "pc": [q(float(x)) for x in pc],
            "vec": [q(complex(x)) for x in res.experiment.jones_vector]}


def any_result(rng):
    return synthetic(rng) if rng.random() < 0.6 else simulated(rng)


# ---- ranges -------------------------------------------------------------------------------------
def rand_range(rng, legal=True):
    if legal:
        if rng.random() < 0.25:
            return 0, 180, True
        lo = rng.choice([-360, -180, 0, -90, -270, rng.randrange(-360, 1)])
        return lo, lo + 360, True
    return rng.choice([(0, 90, True), (-180, 0, True), (-90, 90, True), (10, 370, True), (-361, -1, True), (1, 361, True), (180, -180, True), (0, -180, True),
                       (0, 0, True), (-180, 181, True), (-180, 179, True), (0, 179, True), (-1, 180, True), (180, 0, True), (360, 0, True), (0, -360, True), (-400, 400, True),
                       (-180, 180, "lo"), (-180, 180, "hi"), (0, 180, "both"), (-90, 270, "str"), (0, 360, "none")])


def bounds(lo, hi, whole):
    if whole is True:
        return lo, hi
    return {"lo": (float(lo), hi), "hi": (lo, float(hi)), "both": (float(lo), float(hi)), "str": (str(lo), hi), "none": (lo, None)}[whole]


def select(res, lo, hi, whole):
    out, err = call(res.as_delta_range, *bounds(lo, hi, whole))
    return {"ev": "select", "lo": lo, "hi": hi, "whole": whole is True, "err": err}, out if not err else None


def converts(rng, rec, count):
    for i in range(count):
        ev = []
        for _ in range(6):
            lo, hi, whole = rand_range(rng, rng.random() < 0.8)
            x = [rng.choice([rng.uniform(-720, 720), float(rng.randrange(-720, 721, 30)), rng.uniform(-180, 180), float(lo), float(hi), lo + 1e-9, 0.0])
                 for _ in range(rng.choice([1, 3, 5]))]
            forms = {
                "array": lambda: np.array(x), "series": lambda: pd.Series(x, index=range(10, 10 + len(x))), "list": lambda: list(x),
                "frame": lambda: pd.DataFrame({"a": x}), "int": lambda: np.array([int(v) for v in x]),
                "matrix": lambda: np.array(x).reshape(-1, 1), "scalar": lambda: x[0], "strided": lambda: np.repeat(x, 2)[::2],
            }
            f = rng.choice(sorted(forms))
            arg = forms[f]()
            xs = np.asarray(arg, float).reshape(-1)
            v, err = call(convert_delta_range, arg, *bounds(lo, hi, whole))
            if not err:
                v, err = call(lambda: [q(float(y)) for y in np.asarray(v, float).reshape(-1)])
            ev.append({"ev": "convert", "form": f, "lo": lo, "hi": hi, "whole": whole is True, "x": [q(y) for y in xs], "err": err, "v": v or []})
        rec.case(f"convert-{i}", ev)


def run(a, rng, rec):
    m = 8 if a.thorough else 1
    if a.prop == "P08":
        for i in range(40 * m):
            res, jr, jt, pc = any_result(rng)
            n = len(jr)
            ev = [start(res, jr, jt, pc)]
            if rng.random() < 0.3:
                ev.append(select(res, *rand_range(rng))[0])
            names = rng.sample(NAMES, 60 if a.thorough else 40)
            for nm in names:
                ev.append(ask(res, nm, rng.choice(["attr", "get"]), n))
            for nm in rng.sample(WRONG, 5):
                via = rng.choice(["attr", "get"])
                _, err = call(res.get, nm) if via == "get" else call(getattr, res, nm)
                ev.append({"ev": "unknown", "via": via, "name": nm, "err": err})
            rec.case(f"names-{i}", ev)
        # every name once, on one synthetic and one simulated result
        for k, mk in enumerate([synthetic, simulated]):
            res, jr, jt, pc = mk(rng)
            for part in range(4):
                rec.case(f"all-{k}-{part}", [start(res, jr, jt, pc)] + [ask(res, nm, "attr" if k else "get", len(jr)) for nm in NAMES[part::4]])
        return
    # P09
    for i, hist in enumerate(a.beh):
        res, jr, jt, pc = any_result(rng)
        ev = [start(res, jr, jt, pc)]
        for h in hist:
            if h[0] == "ask":
                ev.append(ask(res, h[1], rng.choice(["attr", "get"]), len(jr)))
            else:
                whole = h[3] if h[3] is True else rng.choice(["lo", "hi", "both"])
                e, out = select(res, h[1], h[2], whole)
                ev.append(e)
                if out is not None and rng.random() < 0.5:
                    res = out
        for nm in ["delta", "delta_matrix", "rho", "psi", "r", "delta_t", "psi_matrix", "rho_matrix", "mueller_matrix"]:
            ev.append(ask(res, nm, "attr", len(jr)))
        rec.case(f"history-{i}", ev)
    for i in range(40 * m):
        res, jr, jt, pc = any_result(rng)
        ev = [start(res, jr, jt, pc)]
        names = [n for n in NAMES if "delta" in n or n in ("rho", "rho_t", "psi", "~psi", "r", "mueller_matrix", "psi_matrix", "rho_matrix")]
        for _ in range(4):
            e, out = select(res, *rand_range(rng, rng.random() < 0.75))
            ev.append(e)
            for nm in rng.sample(names, 4):
                ev.append(ask(res, nm, "attr", len(jr)))
        rec.case(f"ranges-{i}", ev)
    converts(rng, rec, 30 * m)


if __name__ == "__main__":
    main(run)

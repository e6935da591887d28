"""Random dispersions of every class, with a description the specifications read."""
import numpy as np

import elli
from rec import q

HC = 1239.8419843320026


def pick(rng, *opts):
    return rng.choice(opts)


def u(rng, a, b):
    """a number in [a, b]: sometimes round"""
    x = rng.uniform(a, b)
    return round(x, rng.choice([1, 2, 3])) if rng.random() < 0.4 else x


def single_rep(rng, cls, nosc=None, wide=True):
    """parameters (single, rep list) in the model's domain; wavelengths 150 nm .. 20 um"""
    k = rng.choice([0, 1, 1, 2, 2, 3, 4]) if nosc is None else nosc

    def reps(f):
        return [f() for _ in range(k)]

    if cls == "ConstantRefractiveIndex":
        return {"n": pick(rng, u(rng, 1, 4), complex(u(rng, 0.1, 4), u(rng, 0, 3)), 2)}, []
    if cls == "EpsilonInf":
        return {"eps": pick(rng, u(rng, 1, 10), complex(u(rng, -5, 5), u(rng, 0, 3)), 3)}, []
    if cls == "Cauchy":
        return {"n0": u(rng, 1, 3), "n1": u(rng, -50, 200), "n2": u(rng, -20, 50), "k0": u(rng, 0, 1),
                "k1": u(rng, 0, 50), "k2": u(rng, 0, 20)}, []
    if cls == "CauchyCustomExponent":
        return {"n0": u(rng, 1, 3)}, reps(lambda: (lambda e: {"f": u(rng, -0.5, 0.5) * 400.0 ** -e, "e": e})(
            pick(rng, -2, -4, -6, 2, -1, 1, 0, u(rng, -4, 2))))
    if cls == "CauchyUrbach":
        return {"n0": u(rng, 1, 3), "B": u(rng, 0, 0.05), "C": u(rng, 0, 0.002), "D": u(rng, 0, 0.5),
                "Eg": u(rng, 1, 5), "Eu": u(rng, 0.2, 2)}, []
    if cls == "Sellmeier":
        return {}, reps(lambda: {"A": u(rng, 0.1, 3), "B": pick(rng, u(rng, 0.0005, 0.02), u(rng, 420, 900), 0)})
    if cls == "SellmeierCustomExponent":
        return {}, reps(lambda: {"A": u(rng, 0.1, 3), "e_A": pick(rng, 0, 1, 2, 2, u(rng, -2, 2)),
                                 "B": u(rng, 0.01, 0.12), "e_B": pick(rng, 1, 2, 2, u(rng, 1.1, 3))})
    if cls == "Polynomial":
        return {"e0": u(rng, 1, 5)}, reps(lambda: (lambda e: {"f": u(rng, -0.5, 0.5) * 400.0 ** -e, "e": e})(
            pick(rng, 2, 1, 0, -2, -4, -1, u(rng, -4, 2))))
    if cls == "LorentzEnergy":
        return {}, reps(lambda: {"A": u(rng, 0.1, 50), "E": u(rng, 0.5, 9), "gamma": pick(rng, u(rng, 0.05, 2), u(rng, 2, 20))})
    if cls == "LorentzLambda":
        return {}, reps(lambda: {"A": u(rng, 0.1, 5), "lambda_r": u(rng, 50, 1500), "gamma": pick(rng, u(rng, 1, 200), u(rng, 200, 4000))})
    if cls == "DrudeEnergy":
        return {"A": u(rng, 0.1, 50), "gamma": u(rng, 0.01, 1)}, []
    if cls == "DrudeResistivity":
        return {"rho_opt": 10 ** rng.uniform(-6, -3), "tau": 10 ** rng.uniform(-16, -13)}, []
    if cls == "Poles":
        return {"A_ir": u(rng, 0, 3), "A_uv": u(rng, 0, 200), "E_uv": u(rng, 8.5, 15)}, []
    if cls == "Gaussian":
        return {}, reps(lambda: {"A": u(rng, 0.1, 10), "E": u(rng, 0.5, 7), "sigma": pick(rng, u(rng, 0.3, 4), u(rng, 0.1, 0.3), u(rng, 4, 15))})
    if cls == "TaucLorentz":
        eg = u(rng, 0.3, 3.5)
        def tl():
            e = eg + u(rng, 0.2, 4)
            return {"A": u(rng, 5, 200), "E": e, "C": pick(rng, u(rng, 0.2, e), u(rng, 1.3 * e, 1.99 * e), 2 * e, u(rng, 2.01 * e, 12))}
        return {"Eg": eg}, reps(tl)
    if cls == "CodyLorentz":
        eg = u(rng, 0.8, 2.5)
        return {"Eg": eg, "A": u(rng, 20, 150), "Et": eg + u(rng, 0.05, 0.6), "gamma": u(rng, 0.5, 8), "Ep": u(rng, 0.3, 4),
                "E0": u(rng, 2, 8), "Eu": pick(rng, u(rng, 0.05, 0.2), 0.02, 0.01, u(rng, 0.2, 1))}, []
    if cls == "Tanguy":
        return {"A": u(rng, 0.5, 30), "d": pick(rng, 2, 3, 3.0, u(rng, 1.1, 1.95), u(rng, 2.05, 2.95)), "gamma": pick(rng, u(rng, 0.02, 0.3), u(rng, 0.3, 2)),
                "R": pick(rng, max(0.01, u(rng, 0.01, 0.5)), u(rng, 0.5, 3)), "Eg": u(rng, 1, 4), "a": pick(rng, 0, u(rng, 0, 30)), "b": u(rng, 90, 150)}, []
    raise KeyError(cls)


MODELS = ["ConstantRefractiveIndex", "EpsilonInf", "Cauchy", "CauchyCustomExponent", "CauchyUrbach", "Sellmeier",
          "SellmeierCustomExponent", "Polynomial", "LorentzEnergy", "LorentzLambda", "DrudeEnergy", "DrudeResistivity",
          "Poles", "Gaussian", "TaucLorentz", "CodyLorentz", "Tanguy"]
INDEX = {"ConstantRefractiveIndex", "Cauchy", "CauchyCustomExponent", "CauchyUrbach", "Table", "FormulaIndex"}


def make(cls, single, rep):
    d = getattr(elli, cls)(**single) if hasattr(elli, cls) else getattr(elli.dispersions, cls)(**single)
    for r in rep:
        d.add(**r)
    return d


def describe(cls, single, rep):
    return {"cls": cls, "single": {k: q(v) for k, v in single.items()}, "rep": [{k: q(v) for k, v in r.items()} for r in rep]}


def rand_model(rng, cls=None, nosc=None):
    """(object, description)"""
    cls = cls or rng.choice(MODELS)
    s, r = single_rep(rng, cls, nosc)
    return make(cls, s, r), describe(cls, s, r)


def rand_table(rng, lo=180.0, hi=2100.0, n=None, index=None):
    n = n or rng.choice([2, 3, 5, 12])
    x = sorted({lo, hi, *(round(rng.uniform(lo, hi), 2) for _ in range(n - 2))})
    index = rng.random() < 0.5 if index is None else index
    if index:
        y = [complex(u(rng, 0.2, 4), u(rng, 0, 3)) for _ in x]
        return elli.Table(lbda=np.array(x), n=np.array(y)), {"cls": "Table", "x": [q(v) for v in x], "y": [q(v) for v in y]}
    y = [complex(u(rng, -5, 12), u(rng, 0, 8)) for _ in x]
    return elli.TableEpsilon(lbda=np.array(x), epsilon=np.array(y)), {"cls": "TableEpsilon", "x": [q(v) for v in x], "y": [q(v) for v in y]}


def rand_pseudo(rng, lo=180.0, hi=2100.0):
    n = rng.choice([6, 9])
    x = np.linspace(lo, hi, n)
    psi = np.array([rng.uniform(5, 40) for _ in x])
    delta = np.array([rng.uniform(10, 170) for _ in x])
    ang = u(rng, 50, 75)
    return elli.PseudoDielectricFunction(angle=ang, lbda=x, psi=psi, delta=delta), dict(x=x, psi=psi, delta=delta, angle=ang)

"""P10: binding of dispersion parameters."""
import re

import numpy as np

import elli
from displib import u
from rec import call, main, q

TAB = ("Table", "TableEpsilon")


def enc(v):
    if v is None:
        return "none"
    if isinstance(v, (list, tuple, np.ndarray)):
        return ";".join(q(complex(x)) for x in v)
    return q(v)


def value(rng, cls, key):
    """a number the model accepts together with every default"""
    if cls in TAB:
        if key == "lbda":
            return [200.0, 300.0 + rng.randrange(500), 2000.0 + rng.random()]
        return rng.choice([list, np.array])([complex(u(rng, 1, 4), u(rng, 0, 2)) for _ in range(3)])
    spans = {
        ("TaucLorentz", "Eg"): (0.3, 1.2), ("TaucLorentz", "E"): (1.3, 5), ("TaucLorentz", "C"): (0.3, 2.3), ("TaucLorentz", "A"): (5, 200),
        ("CodyLorentz", "Eg"): (1, 1.7), ("CodyLorentz", "Et"): (1.75, 2.2), ("CodyLorentz", "gamma"): (1, 4), ("CodyLorentz", "Ep"): (0.3, 1.5),
        ("CodyLorentz", "E0"): (3, 5), ("CodyLorentz", "Eu"): (0.03, 0.2), ("CodyLorentz", "A"): (20, 150),
        ("Tanguy", "d"): (2.1, 2.9), ("Tanguy", "R"): (0.02, 0.5), ("Tanguy", "gamma"): (0.05, 0.3), ("Tanguy", "Eg"): (1, 3),
        ("Tanguy", "b"): (90, 150), ("Tanguy", "a"): (0, 30), ("Tanguy", "A"): (0.5, 20),
        ("Poles", "E_uv"): (8.5, 12), ("Sellmeier", "B"): (0.0005, 0.02), ("SellmeierCustomExponent", "B"): (0.01, 0.1),
        ("SellmeierCustomExponent", "e_A"): (0, 2), ("DrudeResistivity", "rho_opt"): (1e-6, 1e-3), ("DrudeResistivity", "tau"): (1e-16, 1e-13),
        ("CauchyUrbach", "Eu"): (0.2, 2), ("CauchyUrbach", "B"): (0, 0.05), ("CauchyUrbach", "C"): (0, 0.002), ("CauchyUrbach", "D"): (0, 0.5),
        ("LorentzLambda", "lambda_r"): (50, 900), ("LorentzLambda", "gamma"): (1, 100), ("Gaussian", "sigma"): (0.3, 4),
    }
    if (cls, key) == ("SellmeierCustomExponent", "e_B"):
        return rng.choice([1, 2])
    if cls in ("Polynomial", "CauchyCustomExponent") and key == "e":
        return rng.choice([-2, -1, 1, 0.5])
    if cls in ("ConstantRefractiveIndex", "EpsilonInf") and rng.random() < 0.5:
        return complex(u(rng, 1, 3), u(rng, 0, 2))
    if (cls, key) in spans:
        return rng.uniform(*spans[cls, key])
    return u(rng, 0.1, 5) if rng.random() < 0.8 else rng.randrange(1, 5)


def pairs(d):
    return [[k, enc(v)] for k, v in d.items()]


def number(t):
    try:
        return q(complex(t.strip("()")) if "j" in t else float(t))
    except ValueError:
        return "none"


def printed(o):
    """what printing the object tells: its class, and every name = number"""
    t, err = call(lambda: str(o) + "\n")
    if err:
        return {"err": err, "named": False, "said": []}
    return {"err": "", "named": type(o).__name__ in t, "said": [[k, number(v)] for k, v in re.findall(r"(\w+)\s*[=:]\s*([^\s,=]+)", t)]}


def replay(rng, beh):
    env, cls, poked, out, vals = {}, {}, set(), [{"ev": "case"}], {}

    def val(c, v, key):
        """the number standing for the symbol v"""
        if v not in vals:
            vals[v] = value(rng, c, key) if key not in ("surplus", "nonsense", "E_0") else 1.0
        return vals[v]

    def names(t, args):
        return [a.lstrip("v").lstrip("0123456789") for a in args]

    def look():
        for i in list(env):
            o = env[i]
            out.append({"ev": "read", "id": i, "single": pairs(o.single_params), "reps": [pairs(r) for r in o.rep_params]})
            if cls[i] not in TAB:
                out.append({"ev": "print", "id": i, **printed(o)})

    def ask_all():
        for i in env:
            if i in poked or cls[i] in TAB:
                continue
            w = [rng.uniform(320, 1000) for _ in range(1 if cls[i] in ("CodyLorentz", "Tanguy") else 2)]
            v, err = call(env[i].get_dielectric, np.array(w))
            out.append({"ev": "ask", "id": i, "w": [q(x) for x in w], "err": err,
                        "v": [] if err else [q(complex(x)) for x in np.broadcast_to(v, (len(w),))]})

    for n, e in enumerate(beh):
        if e["op"] == "poke":
            o = env.get(e["id"])
            if o is None:
                continue
            target = o.single_params if e["i"] == 0 else o.rep_params[e["i"] - 1]
            v = val(cls[e["id"]], e["v"], e["k"])
            target[e["k"]] = v
            poked.add(e["id"])
            out.append(dict(ev="poke", id=e["id"], i=e["i"], k=e["k"], v=enc(v)))
        else:
            c = e["cls"] if e["op"] == "new" else cls.get(e["id"])
            if c is None:
                continue
            if e["op"] == "new" and rng.random() < 0.06:
                # nothing instead of a value
                for s in rng.sample([*e["args"], *[s for _, s in e["kw"]]], 1) if e["args"] or e["kw"] else []:
                    vals[s] = None
            args = [val(c, s, k) for s, k in zip(e["args"], names(c, e["args"]))]
            kw = {k: val(c, s, k) for k, s in e["kw"]}
            ev = dict(ev=e["op"], id=e["id"], args=[enc(v) for v in args], kw=[[k, enc(v)] for k, v in kw.items()])
            if e["op"] == "new":
                ev["cls"] = c
                make = getattr(elli, c) if rng.random() < 0.7 else (lambda *a, **k: elli.DispersionFactory.get_dispersion(c, *a, **k))
                o, ev["err"] = call(make, *args, **kw)
                if not ev["err"]:
                    env[e["id"]], cls[e["id"]] = o, c
                    if type(o) is not getattr(elli, c):
                        ev["err"] = "another class: " + type(o).__name__
            else:
                o, ev["err"] = call(env[e["id"]].add, *args, **kw)
                ev["same"] = o is env[e["id"]]
            out.append(ev)
        if rng.random() < 0.4:
            look()
    look()
    ask_all()
    return out


def run(a, rng, rec):
    for i, b in enumerate(a.beh):
        ev = replay(rng, b)
        rec.case(f"gen-{i}", ev, w=len(ev) + 60 * sum(e["ev"] == "ask" and e["id"] in [f["id"] for f in ev if f["ev"] == "new" and f["cls"] == "CodyLorentz"] for e in ev))
    for i in range(4):
        # many oscillators
        c = rng.choice(["Gaussian", "LorentzEnergy", "TaucLorentz", "Sellmeier", "Poles", "Polynomial", "CauchyCustomExponent", "LorentzLambda"])
        b = [{"op": "new", "id": "o0", "cls": c, "args": [], "kw": []}]
        keys = list(getattr(elli, c).rep_params_template)
        if not keys:
            continue
        for n in range(rng.choice([9, 12, 30])):
            b.append({"op": "add", "id": "o0", "args": [f"v{n}{k}" for k in keys], "kw": []})
        rec.case(f"many-{i}", replay(rng, b))
    ev = [{"ev": "case"}]
    names = ["", "cauchy", "Cauchy ", "CAUCHY", "Dispersion", "IndexDispersion", "BaseDispersion", "NoSuchModel", "Lorentz", "Sellmeir", "base_dispersion", "Material", "__name__"]
    for name in names + ["".join(rng.choice("CauchySelmr_") for _ in range(6)) for _ in range(10)]:
        _, err = call(elli.DispersionFactory.get_dispersion, name)
        ev.append({"ev": "unknown", "name": name, "err": err})
    rec.case("factory", ev)


if __name__ == "__main__":
    main(run)

"""P12: sums of dispersions."""
import operator
import re

import numpy as np

import elli
from displib import INDEX, MODELS, rand_model, rand_table, u
from elli.dispersions.base_dispersion import DispersionSum, IndexDispersionSum
from rec import call, main, q

EPS = [m for m in MODELS if m not in INDEX and m not in ("CodyLorentz", "Tanguy", "Poles")]
IDX = [m for m in MODELS if m in INDEX]

KINDS = sorted({*MODELS, "Table", "TableEpsilon", "Formula", "FormulaIndex"})


def formula(rng, index):
    """a formula dispersion and the model it spells out"""
    a, b, e = u(rng, 1, 4), u(rng, -0.5, 0.5), rng.choice([1, 2, -1])
    f = b * 400.0 ** -e
    text = f"{'n' if index else 'eps'} = a + sum[f * x ** e]"
    cls = elli.FormulaIndex if index else elli.Formula
    d = cls(text, "x", {"a": a}, {"f": [f, f / 2], "e": [e, e]})
    rep = [{"f": q(f), "e": q(e)}, {"f": q(f / 2), "e": q(e)}]
    if index:
        return d, {"cls": "CauchyCustomExponent", "single": {"n0": q(a)}, "rep": rep}
    return d, {"cls": "Polynomial", "single": {"e0": q(a)}, "rep": rep}


def leaves(rng):
    out = {}
    for i in ("e1", "e2"):
        out[i] = ("eps", False, *rand_model(rng, rng.choice(EPS), rng.choice([1, 2, None])))
    for i in ("i1", "i2"):
        out[i] = ("index", False, *rand_model(rng, rng.choice(IDX)))
    out["te"] = ("eps", True, *rand_table(rng, index=False))
    out["ti"] = ("index", True, *rand_table(rng, index=True))
    out["fe"] = ("eps", False, *formula(rng, False))
    out["fi"] = ("index", False, *formula(rng, True))
    for i, v in (("two", rng.choice([2, 0, -1, 3])), ("half", rng.choice([0.5, -0.25, np.float64(1.5), 0.0]))):
        out[i] = ("number", False, v, {"cls": "Number", "v": q(v)})
    return out


def ask(rng, out, i, o, fam, whats=("eps", "n")):
    for what in whats:
        w = [rng.uniform(320, 1000) for _ in range(rng.choice([1, 2]))]
        f = o.get_dielectric if what == "eps" else o.get_refractive_index
        v, err = call(f, np.array(w))
        if not err:
            v, err = call(lambda: [q(complex(x)) for x in np.broadcast_to(np.asarray(v), (len(w),))])
        out.append({"ev": "ask", "id": i, "what": what, "w": [q(x) for x in w], "err": err, "v": v or []})


def replay(rng, beh):
    env, fam, out = {}, {}, [{"ev": "case"}]
    for i, (f, t, o, d) in leaves(rng).items():
        env[i], fam[i] = o, f
        out.append({"ev": "leaf", "id": i, "fam": f, "table": t, "kind": "Number" if f == "number" else type(o).__name__, "d": d})
    for e in beh:
        if not all(a in env for a in e["args"]):
            continue
        x = [env[a] for a in e["args"]]
        fams = [fam[a] for a in e["args"] if fam[a] != "number"]
        if e["op"] == "add":
            o, err = call(rng.choice([operator.add, operator.add, operator.iadd]), *x)
        elif e["op"] == "sum":
            o, err = call(sum, x[1:], x[0]) if rng.random() < 0.5 else call(sum, x)
        elif e["op"] == "ctor":
            o, err = call(DispersionSum if fams[0] == "eps" else IndexDispersionSum, *x)
        else:
            o, err = call(x[0].as_index)
        out.append({"ev": e["op"], "id": e["id"], "args": e["args"], "err": err})
        if not err:
            env[e["id"]], fam[e["id"]] = o, "index" if e["op"] == "index" else fams[0]
            ask(rng, out, e["id"], o, fam[e["id"]], [rng.choice(["eps", "n"])])
    for i, o in env.items():
        if fam[i] != "number":
            t, err = call(str, o)
            out.append({"ev": "print", "id": i, "err": err, "said": {c: len(re.findall(rf"\b{c}\b", t or "")) for c in KINDS}})
            ask(rng, out, i, o, fam[i], ["eps", "n"] if i not in e["args"] else ["eps"])
    return out


def run(a, rng, rec):
    for i, b in enumerate(a.beh):
        rec.case(f"gen-{i}", replay(rng, b))


if __name__ == "__main__":
    main(run)

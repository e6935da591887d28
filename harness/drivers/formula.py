"""P17: formula dispersions."""
import numpy as np

import elli
from displib import u
from rec import call, main, q

UNITS = ["none", "none", "nm", "nm", "nanometer", "um", "micrometer", "angstrom", "Angstroms", "m", "meter", "cm", "mm", "pm",
         "eV", "eV", "eV", "electron_volt", "meV", "keV", "J", "joule"]
BAD_UNITS = ["furlongz", "kelvin", "second", "kg", "dimensionless", "eV*nm", "volt", "nm**2"]


def text_of(rng, tokens):
    out = ""
    for kind, t in tokens:
        wordy = kind != "op"
        gap = rng.choice(["", "", " ", "  "])
        if out and ((wordy and (out[-1].isalnum() or out[-1] in "_.")) or (out[-1] == "*" and t.startswith("*"))):
            gap = " "
        out += gap + t
    return out


def value(rng):
    return rng.choice([u(rng, 0.2, 4), u(rng, -3, 3), rng.randint(1, 5), rng.randint(-3, 3), 0.5, np.float64(1.25), np.int64(2), 0.0])


def formula(rng, tokens, trouble):
    rep = rng.choice(["eps", "n"])
    want, unit = rep, rng.choice(UNITS)
    single = {k: value(rng) for k in ("a", "b", "c", "sumof")}
    n = rng.choice([0, 1, 2, 2, 3])
    repeated = {k: [rng.choice([u(rng, 0.2, 4), u(rng, -3, 3), rng.randint(1, 4), rng.randint(-2, 3)]) for _ in range(n)] for k in ("r", "s")}
    if rng.random() < 0.3:
        repeated = {k: [int(x) for x in v] for k, v in repeated.items()}
    if rng.random() < 0.15:
        repeated = {}
    if trouble == "representation":
        want = "n" if rep == "eps" else "eps"
    if trouble == "unit":
        unit = rng.choice(BAD_UNITS)
    if trouble == "lengths" and repeated:
        k = rng.choice(["r", "s"])
        repeated[k] = repeated[k] + [1.0]
    if trouble == "names":
        for k in rng.sample(["a", "b", "r"], 1):
            single.pop(k, None)
            repeated.pop(k, None)
    axis = "x"
    text = rng.choice([f"{want} = ", f"{want}=", f" {want} ="]) + text_of(rng, tokens)
    give = {k: np.array(v) if rng.random() < 0.5 else v for k, v in repeated.items()}
    cls = elli.Formula if rep == "eps" else elli.FormulaIndex
    mag = rng.choice([1, 1, 1, 1, 10, 0.5, 1e-3, 254]) if unit not in ("none", *BAD_UNITS) else 1
    how = unit if mag == 1 else f"{mag} {unit}"
    d, err = call(cls, text, axis, dict(single), give, *([] if unit == "none" else [how]))
    lens = [len(v) for v in repeated.values()]
    o = {"ev": "formula", "text": text, "tokens": [list(t) for t in tokens], "rep": rep, "want": want, "axis": axis,
         "single": {k: q(v) for k, v in single.items()}, "repnames": list(repeated), "lens": lens, "unit": unit, "mag": q(mag), "err": err,
         "repeated": [{k: q(v[i]) for k, v in repeated.items()} for i in range(min(lens, default=0))], "w": [], "everr": "", "v": []}
    if err:
        return [o]
    w = [rng.choice([rng.uniform(200, 1500), rng.uniform(200, 1500), rng.uniform(0.5, 4), float(rng.randint(1, 900))]) for _ in range(rng.choice([1, 2]))]
    arg = w[0] if len(w) == 1 and rng.random() < 0.5 else np.array(w)
    evaluate(rng, d, rep, w, arg, o)
    if o["everr"] or rng.random() < 0.6:
        return [o]
    # other values for the same parameters, and asked again at the same wavelengths
    again = {**o, "single": dict(o["single"]), "repeated": [dict(x) for x in o["repeated"]], "w": [], "v": []}
    for k in single:
        if rng.random() < 0.5:
            x = value(rng)
            d.single_params[k], again["single"][k] = x, q(x)
    for i, term in enumerate(d.rep_params):
        for k in list(term):
            if rng.random() < 0.5:
                x = u(rng, 0.2, 4)
                term[k], again["repeated"][i][k] = x, q(x)
    evaluate(rng, d, rep, w, arg, again)
    return [o, again]


def evaluate(rng, d, rep, w, arg, o):
    f = d.get_dielectric if rep == "eps" else d.get_refractive_index
    v, o["everr"] = call(f, arg)
    if not o["everr"]:
        v, o["everr"] = call(lambda: [q(complex(x)) for x in np.broadcast_to(np.asarray(v), (len(w),))])
    o["w"], o["v"] = [q(x) for x in w], v or []
    if not o["everr"] and rng.random() < 0.2:    # the same among many others, out of order
        many = [rng.uniform(200, 1500) for _ in range(60)]
        at = rng.sample(range(60), len(w))
        for i, x in zip(at, w):
            many[i] = x
        v, o["everr"] = call(f, np.array(many))
        if not o["everr"]:
            v, o["everr"] = call(lambda: [q(complex(np.broadcast_to(np.asarray(v), (60,))[i])) for i in at])
        o["v"] = v or []


def tok(text):
    kinds = {"sum": "sum", "sqrt": "fun", "sin": "fun", "ln": "fun", "pi": "const", "1j": "const"}
    return [(("op" if not t[0].isalnum() else "num" if t[0].isdigit() and t != "1j" else kinds.get(t, "name")), t) for t in text.split()]


# typical ways of writing a dispersion
TYPICAL = [tok(t) for t in (
    "sum [ r ** s ]", "a ** b", "x ** a", "sum [ r * x ** s ]", "1 + sum [ r * x ** 2 / ( x ** 2 - s ** 2 ) ]", "a + b / x ** 2 + sumof / x ** 4",
    "sum [ r / ( s ** 2 - x ** 2 - 1j * a * x ) ]", "a - - b", "- a ** 2", "a / b / 2", "a - b - x", "a - b + x", "2 ** 3 ** 2", "2 ** - 2", "a * b ** 2 * x",
    "( a + b ) * x", "a / b * x", "- x ** 2 + a", "sum [ - r ** 2 ]", "sum [ r ] ** 2", "sum [ r ] * sum [ s ]", "sum [ 1 ]", "sum [ x ]", "sqrt ( 1 + sum [ r * x / s ] )",
    "a - sum [ r - s ]", "2 * sum [ r / x / s ]", "ln ( 2 ) ** 2", "sum [ a * r ** 2 ** s ]", "sum [ r - s - 1 ]", "sum [ r / s / 2 ]", "sum [ r * ( s - x ) ]")]


def run(a, rng, rec):
    for k in range(3 if a.thorough else 1):
        rec.case(f"typical-{k}", [o for t in TYPICAL for _ in range(2) for o in formula(rng, t, "none")])
    pool = [b[0]["tokens"] for b in a.beh]
    for i in range(0, len(pool), 4):
        out = []
        for t in pool[i:i + 4]:
            out.extend(formula(rng, t, "none"))
            if rng.random() < 0.35:
                out.extend(formula(rng, t, rng.choice(["representation", "unit", "lengths", "names"])))
        rec.case(f"gen-{i}", out)


if __name__ == "__main__":
    main(run)

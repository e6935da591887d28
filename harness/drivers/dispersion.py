"""P11, P13: dispersion models and tables against their formulas."""
import os

import numpy as np
import pandas as pd

import elli
from displib import HC, MODELS, rand_model, rand_pseudo, u
from rec import call, main, q


def values(v, n):
    v = np.asarray(v)
    if v.ndim == 0:
        v = np.full(n, v)
    return [q(complex(x)) for x in v.reshape(-1)]


def ask(d, what, w, arg=None):
    f = d.get_dielectric if what == "eps" else d.get_refractive_index
    v, err = call(f, np.array(w) if arg is None else arg)
    if not err:
        v, err = call(values, v, len(w))
    return {"ev": "ask", "what": what, "w": [q(float(x)) for x in w], "err": err, "v": v or []}


def frame(rng, d, what, w, conj, use_default=False):
    f = d.get_dielectric_df if what == "eps" else d.get_refractive_index_df
    args = {} if use_default else {"lbda": rng.choice([np.array(w), list(w)])}
    if conj or rng.random() < 0.5:
        args["conjugate"] = conj
    df, err = call(f, **args)
    ev = {"ev": "frame", "what": what, "conj": conj, "w": [q(float(x)) for x in w], "err": err, "x": [], "a": [], "b": []}
    if not err:
        cols = ["ϵ1", "ϵ2"] if what == "eps" else ["n", "k"]

        def read():
            return [[q(float(x)) for x in df.index]] + [[q(float(x)) for x in df[c]] for c in cols]
        r, ev["err"] = call(read)
        if r:
            ev["x"], ev["a"], ev["b"] = r
    return ev


def default_frame(rng, d, what, conj):
    """the default grid: every value is judged, on a random sample of rows"""
    f = d.get_dielectric_df if what == "eps" else d.get_refractive_index_df
    df, err = call(f, conjugate=conj)
    grid = np.linspace(200, 1000, 801)
    rows = sorted(rng.sample(range(801), 5)) + [800]
    ev = {"ev": "frame", "what": what, "conj": conj, "w": [q(float(grid[i])) for i in rows], "err": err, "x": [], "a": [], "b": []}
    if not err:
        cols = ["ϵ1", "ϵ2"] if what == "eps" else ["n", "k"]

        def read():
            assert len(df) == 801, len(df)
            return [[q(float(df.index[i])) for i in rows]] + [[q(float(df[c].iloc[i])) for i in rows] for c in cols]
        r, ev["err"] = call(read)
        if r:
            ev["x"], ev["a"], ev["b"] = r
    return ev


def special(d):
    """wavelengths of the gaps and resonances of a model, where formulas tend to be singular"""
    p = dict(d.single_params)
    out = [p[k] for k in ("Eg", "Et", "E0") if k in p]
    for r in d.rep_params:
        out += [r[k] for k in ("E",) if k in r]
        out += [HC / r[k] for k in ("lambda_r",) if k in r]
    return [w for w in (float(elli.utils.conversion_wavelength_energy(e)) for e in out if e > 0) if 125 < w < 9900]


def waves(rng, cls, n):
    hi = 9900 if cls == "CodyLorentz" else 20000
    out = []
    for _ in range(n):
        out.append(rng.choice([rng.uniform(150, 2000), float(rng.randrange(200, 1000)), rng.uniform(60, 300) if cls == "CodyLorentz" else rng.uniform(150, 400), rng.uniform(1000, hi)]))
    rng.shuffle(out)
    return out


def run(a, rng, rec):
    m = 8 if a.thorough else 1
    if a.prop == "P13":
        return tables(a, rng, rec, m)
    for cls in MODELS:
        for i in range((6 if cls != "CodyLorentz" else 3) * m):
            d, desc = rand_model(rng, cls)
            w = waves(rng, cls, 6)
            for k, x in enumerate(rng.sample(special(d), min(2, len(special(d))))):
                w[3 * k + 1] = x
            ev = [{"ev": "disp", "d": desc}, ask(d, "eps", w), ask(d, "n", w[::-1]), ask(d, "eps", w[:1], rng.choice([w[0], np.array(w[:1])])),
                  frame(rng, d, "eps", sorted(w), rng.random() < 0.5), frame(rng, d, "n", w, rng.random() < 0.5)]
            if i % 2 == 0:
                ev.append(default_frame(rng, d, rng.choice(["eps", "n"]), rng.random() < 0.5))
                g, err = call(d.get_dielectric)
                rows = sorted(rng.sample(range(801), 4))
                grid = np.linspace(200, 1000, 801)
                gv = np.broadcast_to(np.asarray(g), (801,)) if not err and np.ndim(g) == 0 else np.asarray(g) if not err else None
                ev.append({"ev": "ask", "what": "eps", "w": [q(float(grid[k])) for k in rows], "err": err or ("" if len(gv) == 801 else "length"),
                           "v": [] if err or len(gv) != 801 else [q(complex(gv[k])) for k in rows]})
            rec.case(f"{cls}-{i}", ev, w=60 if cls == "CodyLorentz" else 12 if cls == "Tanguy" else 6)
    for i in range(4 * m):
        d, p = rand_pseudo(rng)
        x = p["x"]
        desc = {"cls": "PseudoDielectricFunction", "single": {"angle": q(p["angle"])}, "rep": [], "x": [q(v) for v in x],
                "psi": [q(v) for v in p["psi"]], "delta": [q(v) for v in p["delta"]]}
        w = [float(v) for v in rng.sample(list(x), 4)]
        rec.case(f"pseudo-{i}", [{"ev": "disp", "d": desc}, ask(d, "eps", w), ask(d, "n", w), frame(rng, d, "eps", w, True)])


def build(rng, cls, x, y, form):
    """a table object from rows in the given order, passed in the given form"""
    key = "n" if cls == "Table" else "epsilon"
    if form == "list":
        xx, yy = list(x), list(y)
    elif form == "array":
        xx, yy = np.array(x), np.array(y)
    elif form == "series":
        xx, yy = pd.Index(x), pd.Series(y, index=[3 * i + 1 for i in range(len(y))])
    elif form == "tuple":
        xx, yy = tuple(x), tuple(y)
    C = getattr(elli, cls)
    how = rng.choice(["kw", "pos", "mixed", "factory"])
    if how == "kw":
        r = call(C, **{key: yy, "lbda": xx})
    elif how == "pos":
        r = call(C, xx, yy)
    elif how == "mixed":
        r = call(C, xx, **{key: yy})
    else:
        r = call(elli.DispersionFactory.get_dispersion, cls, xx, **{key: yy})
    return r, xx, yy


def desc_of(cls, x, y):
    return {"cls": cls, "x": [q(v) for v in x], "y": [q(v) for v in y]}


def grid_events(d, what):
    """the answer without wavelengths"""
    g, err = call(d.get_dielectric if what == "eps" else d.get_refractive_index)
    df, err2 = call(d.get_dielectric_df if what == "eps" else d.get_refractive_index_df)
    ev = {"ev": "default", "what": what, "err": err or err2, "v": [], "w": [], "f": []}
    if not ev["err"]:
        a, b = df.columns
        ev["w"] = [q(float(v)) for v in df.index]
        ev["f"] = [q(complex(p, s)) for p, s in zip(df[a], df[b])]
        ev["v"], ev["err"] = call(lambda: [q(complex(v)) for v in np.asarray(g).reshape(-1)])
        ev["v"] = ev["v"] or []
    return ev


def table_case(rng, rec, name, cls, x, y, asks, form):
    (d, err), xx, yy = build(rng, cls, x, y, form)
    ev = [{"ev": "create", "cls": cls, "nx": len(x), "ny": len(y), "err": err}]
    if not err:
        ev.append({"ev": "disp", "d": desc_of(cls, x, y)})
        for what, w, arg in asks:
            ev.append(ask(d, what, w, arg))
        ev.append(grid_events(d, rng.choice(["eps", "n"])))
        ev.append(frame(rng, d, rng.choice(["eps", "n"]), rng.sample(list(x), min(3, len(x))), rng.random() < 0.5))
        if form in ("list", "array") and rng.random() < 0.5:
            # the arrays handed in belong to the caller
            for i in range(len(xx)):
                xx[i] = 1.0 + i
                yy[i] = -7.0
            ev.append(ask(d, "eps", [float(v) for v in x]))
            ev.append(grid_events(d, "eps"))
    rec.case(name, ev, w=2 + len(ev))


def outside(rng, x):
    lo, hi = min(x), max(x)
    return rng.choice([lo - 0.001, hi + 0.001, np.nextafter(hi, 2 * hi), np.nextafter(lo, 0), hi * 3, lo / 2])


def inside(rng, x):
    s = sorted(x)
    i = rng.randrange(max(1, len(s) - 1))
    a, b = s[i], s[min(i + 1, len(s) - 1)]
    return float(rng.choice([a, b, a + (b - a) * rng.random(), (a + b) / 2]))


def random_asks(rng, x):
    out = []
    for _ in range(2):
        w = [inside(rng, x) for _ in range(rng.randrange(1, 5))]
        out.append((rng.choice(["eps", "n"]), w, rng.choice([None, list(w)])))
    w = inside(rng, x)
    out.append(("eps", [w], w))
    w = [inside(rng, x), outside(rng, x), inside(rng, x)]
    rng.shuffle(w)
    out.append((rng.choice(["eps", "n"]), [float(v) for v in w], None))
    out.append(("eps", [float(outside(rng, x))], None))
    return out


def spectraray_file(rng, path, x, y, unit, pad):
    """rows over the photon energy or the wavelength"""
    lines = ["###### File Layer=3", "  Reference=no", "  Name=Some (thing)", "Comment", "End Section"]
    lines += ["Units=" + unit + ",E1E2", "Name=", "Comment="] + ["note %d" % i for i in range(pad)] + ["Begin of array"]
    def num(v):
        s = repr(float(v))
        return rng.choice([s, "%.17E" % v, "%.17e" % v])
    for a, b in zip(x, y):
        lines.append(" " + rng.choice(["  ", "\t", "     "]).join([num(a), num(b.real), num(b.imag)]))
    lines += ["End of array", "Object End", "  End of layer"]
    with open(path, "w", encoding="utf8") as f:
        f.write("\n".join(lines) + "\n")


def tables(a, rng, rec, m):
    hc = 1239.8419843320026
    for i, rows in enumerate(a.beh):
        x, y = [float(r[0]) for r in rows], [complex(*map(float, r[1].split("|"))) for r in rows]
        qs_ = [200, 255, 310, 420.5, 500, 777, 777.5, 778, 1600]
        ins = [float(w) for w in qs_ if min(x) <= w <= max(x)]
        out = [float(w) for w in qs_ + [1600.001, 199.99] if not min(x) <= w <= max(x)]
        cls = ["Table", "TableEpsilon"][i % 2]
        rng.shuffle(ins)
        table_case(rng, rec, f"gen-{i}", cls, x, y,
                   [(rng.choice(["eps", "n"]), ins, None)] + [("eps", [w], None) for w in rng.sample(out, min(2, len(out)))], rng.choice(["list", "array", "tuple"]))
    for i in range(60 * m):
        cls = rng.choice(["Table", "TableEpsilon"])
        n = rng.choice([1, 2, 2, 3, 5, 9, 30])
        x = list({round(rng.uniform(150, 3000), rng.choice([0, 2, 6])) for _ in range(n)})
        order = rng.choice(["up", "down", "any"])
        x.sort(reverse=order == "down")
        if order == "any":
            rng.shuffle(x)
        if rng.random() < 0.15:
            x = [int(v) for v in {int(v) for v in x}]
        kind = rng.choice(["complex", "complex", "real", "int", "loss"])
        y = [{"complex": complex(u(rng, -5, 12), u(rng, 0, 8)), "real": u(rng, 1, 12), "int": rng.randrange(1, 9),
              "loss": complex(2, u(rng, 0, 1))}[kind] for _ in x]
        if cls == "Table":
            y = [complex(abs(v.real), v.imag) if isinstance(v, complex) else v for v in y]
        table_case(rng, rec, f"random-{i}", cls, x, y, random_asks(rng, x), rng.choice(["list", "array", "series", "tuple"]))
    # what is no table
    for i in range(24 * m):
        cls = rng.choice(["Table", "TableEpsilon"])
        nx, ny = rng.choice([(0, 0), (0, 1), (1, 0), (3, 2), (2, 3), (1, 2), (2, 1), (5, 4), (rng.randrange(4), rng.randrange(4))])
        table_case(rng, rec, f"refuse-{i}", cls, [200.0 + 100 * k for k in range(nx)], [complex(1 + k, k) for k in range(ny)], [],
                   rng.choice(["list", "array", "tuple"]))
    # file-based tables
    for i in range(10 * m):
        n = rng.choice([1, 2, 3, 8, 25]) if i else 1
        over = rng.choice(["eV", "Wavelength"])
        x = list({round(rng.uniform(0.6, 6) if over == "eV" else rng.uniform(190, 2000), 5) for _ in range(n)})
        if rng.random() < 0.7:
            x.sort()
        y = [complex(round(rng.uniform(-9, 20), 6), rng.choice([0.0, rng.uniform(1e-3, 9), 1.25e-12])) for _ in x]
        name = f"t{i}.mat"
        spectraray_file(rng, os.path.join(a.scratch, name), x, y, over, rng.randrange(3))
        d, err = call(lambda: elli.TableSpectraRay(a.scratch + os.sep).load_dispersion_table(name))
        ev = [{"ev": "create", "cls": "file", "nx": len(x), "ny": len(y), "err": err}]
        if not err:
            lam = [hc / v for v in x] if over == "eV" else x
            ev.append({"ev": "disp", "d": desc_of("TableEpsilon", lam, y)})
            s = sorted(lam)
            w = [(s[k] + s[k + 1]) / 2 for k in range(len(s) - 1)][:6] + [v for v in s[1:-1]][:4]
            ev += [ask(d, "eps", w), ask(d, "n", w), ask(d, "eps", [s[-1] * 1.01]), ask(d, "eps", [s[0] * 0.99])]
            ev.append(grid_events(d, "eps"))
        rec.case(f"file-{i}", ev)


if __name__ == "__main__":
    main(run)

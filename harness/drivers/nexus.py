"""P19: measurements and materials of NeXus files."""
import copy
import os

import h5py
import numpy as np

import elli
from displib import u
from elli.importer.nexus import NexusGroupNames, read_nexus_materials, read_nexus_psi_delta, read_nexus_rho
from formula import tok
from rec import call, main, q

FORMULAS = ["a", "a + b * x", "sum [ r ]", "1 + sum [ r * x ** 2 / ( x ** 2 - s ** 2 ) ]", "a + b / x ** 2", "sum [ r / ( x + s ) ]", "a - 1j * b / x", "a + sum [ r * x ** 2 ]", "sum [ r * s ] + sum [ s ] * a"]
AXIS_UNITS = [("um", 1), ("nm", 1), ("nm", 10), ("um", 0.5), ("angstrom", 1), ("m", 1e-6), ("micrometer", 1.0), ("nanometer", 100.0), ("um", np.int32(2)), ("mm", 0.001)]


class Nodes:
    """the nodes of a file: path -> (class, unit, text, data)"""

    def __init__(self, rng, path):
        self.rng, self.path, self.d = rng, path, {}

    def group(self, p, cls):
        self.d[tuple(p)] = (cls, "", None, None)

    def text(self, p, t):
        self.d[tuple(p)] = ("", "", t, None)

    def data(self, p, unit, a):
        self.d[tuple(p)] = ("", unit, None, a)

    def attr(self, s):
        return np.bytes_(s) if self.rng.random() < 0.4 else s

    def write(self):
        items = list(self.d.items())
        if self.rng.random() < 0.5:
            self.rng.shuffle(items)
        keep = self.rng.random() < 0.3 and os.path.exists(self.path)
        with h5py.File(self.path, "a" if keep else "w", track_order=self.rng.random() < 0.5) as f:
            if keep:
                for k in list(f):
                    del f[k]
            f.attrs["default"] = "entry"
            for p, (cls, unit, text, a) in items:
                name = "/".join(p)
                if text is None and a is None:
                    g = f.require_group(name)
                    if cls:
                        g.attrs["NX_class"] = self.attr(cls)
                    continue
                if text is not None:
                    f[name] = np.bytes_(text) if self.rng.random() < 0.3 else text
                else:
                    f.create_dataset(name, data=a, compression="gzip" if np.ndim(a) and self.rng.random() < 0.2 else None)
                    if unit:
                        f[name].attrs["units"] = self.attr(unit)
                if self.rng.random() < 0.1:
                    f[name].attrs["target"] = "/" + name

    def walk(self):
        out = []

        def text(x):
            return x.decode() if isinstance(x, bytes) else str(x)

        def visit(name, node):
            n = {"path": name.split("/"), "cls": text(node.attrs.get("NX_class", "")), "unit": text(node.attrs.get("units", "")),
                 "text": "", "shape": [], "data": []}
            if isinstance(node, h5py.Dataset):
                if h5py.check_string_dtype(node.dtype):
                    n["text"] = text(node[()])
                else:
                    n["shape"] = [int(i) for i in node.shape]
                    n["data"] = [q(x.item()) for x in np.asarray(node[()]).ravel()]
            out.append(n)

        with h5py.File(self.path, "r") as f:
            f.visititems(visit)
        return out


# ------------------------------------------------------------- measurements
def scale(u):
    return {"angstrom": 10, "Angstroms": 10, "nm": 1, "um": 1e-3, "eV": 1e-2, "1/cm": 50, "": 10, "NOT_PROVIDED": 10}[u]


def kind(rng, a):
    return rng.choice([a, a, a.astype(np.float32), np.round(a)])


def measure(rng, fs, s):
    n, lay = s["n"], s["lay"]
    A, W = s["a"], s["w"]
    fs.group([n["entry"]], "NXentry")
    if rng.random() < 0.7:
        fs.group([n["entry"], n["sample"]], "NXsample")
        fs.group([n["entry"], n["instrument"]], "NXinstrument")
    aoi = np.array(rng.sample(range(20, 89), A)) + rng.choice([0, 0.5, 0.25])
    wl = np.array(rng.sample(range(200, 1700), W)) * rng.choice([1.0, 1.0, 1.1])
    if rng.random() < 0.5:
        aoi, wl = np.sort(aoi), np.sort(wl)[::rng.choice([1, -1])]
    if rng.random() < 0.3 and (aoi == np.round(aoi)).all():
        aoi = aoi.astype(int)
    wl = wl * scale(s["u"])
    if s["u"] in ("angstrom", "Angstroms", "nm", "") and rng.random() < 0.3:
        wl = np.round(wl).astype(int)
    psi = kind(rng, np.array([[u(rng, 0, 89) for _ in range(W)] for _ in range(A)]))
    delta = kind(rng, np.array([[rng.choice([u(rng, -180, 180), u(rng, 0, 360)]) for _ in range(W)] for _ in range(A)]))
    data = np.stack([psi, delta], axis=1)
    base = (n["entry"], n["sample"]) if lay == "psi/delta" else (n["entry"], "data_collection")
    fs.data((n["entry"], n["instrument"], "angle_of_incidence"), rng.choice(["degrees", "degree", ""]), aoi)
    if lay == "psi/delta":
        data = data[None, None]
        if rng.random() < 0.3:
            data = np.concatenate([data, data[::-1] + 1], axis=rng.choice([0, 1]))
        fs.data((n["entry"], n["instrument"], "spectrometer", "wavelength"), s["u"], wl)
    else:
        fs.data((*base, "wavelength_spectrum"), s["u"], wl)
    fs.data((*base, "measured_data"), "degrees" if rng.random() < 0.5 else "", data)
    fs.text((*base, "data_type"), lay)


def read(rng, fs, n, default=False):
    fs.write()
    o = {"ev": "read", "fs": fs.walk(), "n": n, "rows": [], "rho": []}
    g = None if default else NexusGroupNames(**n)
    args = () if default and rng.random() < 0.5 else (g,)
    df, o["err"] = call(read_nexus_psi_delta, fs.path, *args)
    if not o["err"]:
        def rows():
            if list(df.columns) != ["Ψ", "Δ"] or list(df.index.names) != ["Angle of Incidence", "Wavelength"]:
                raise ValueError("columns")
            return [{"aoi": q(a), "wl": q(w), "psi": q(r["Ψ"]), "delta": q(r["Δ"])} for (a, w), r in df.iterrows()]
        o["rows"], o["err"] = call(rows)
        o["rows"] = o["rows"] or []
    if not o["err"]:
        if default or n == {"entry": "entry", "sample": "sample", "instrument": "instrument"}:
            df, o["err"] = call(read_nexus_rho, fs.path)
        else:
            df, o["err"] = call(elli.calc_rho, df)
        if not o["err"]:
            o["rho"], o["err"] = call(lambda: [q(complex(x)) for x in np.asarray(df).ravel()])
            o["rho"] = o["rho"] or []
    # nothing keeps the file: it can be written again
    f, err = call(h5py.File, fs.path, "a")
    if err:
        o["err"] = "held open: " + err
    else:
        f.close()
    return o


STANDARD = {"entry": "entry", "sample": "sample", "instrument": "instrument"}


def measurements(rng, path, steps):
    fs, out = Nodes(rng, path), []
    for s in steps:
        if s["k"] == "measure":
            measure(rng, fs, s)
        elif s["k"] == "decoy":
            fs.text((s["e"], s["s"], "comment"), "psi/delta")
            fs.data((s["e"], s["s"], "plot", "wavelength"), "nm", np.array([1.0, 2.0]))
            fs.group((s["e"], s["s"], "notes"), "NXnote")
        elif s["k"] == "othertype":
            fs.text((s["n"]["entry"], s["n"]["sample"], "data_type"), rng.choice(["Mueller matrix", "jones matrix", "PSI/DELTA", "psi / delta"]))
        else:
            out.append(read(rng, fs, s["n"], default=s["n"] == STANDARD and rng.random() < 0.5))
    return out


# ---------------------------------------------------------------- materials
def component(rng, fs, tokens, e, a, c, kd, table_unit=None, spoil=""):
    p = (e, f"dispersion_{a[-1]}", c)
    fs.group((e,), "NXentry")
    fs.group(p[:2], "NXdispersion")
    if kd == "note":
        fs.group(p, rng.choice(["NXnote", "NXdispersion", "NXdispersion_single_parameter"]))
        fs.text((*p, "formula"), "eps = 1")
        return
    if kd in ("eps", "sum", "n"):
        rep = "n" if kd == "n" else "eps"
        body = rng.choice([f for f in FORMULAS if ("sum" in f) == (kd == "sum") or kd == "n"])
        toks = tok(body)
        text = rng.choice([f"{rep} = ", f"{rep}="]) + " ".join(t[1] for t in toks)
        tokens[text] = [list(t) for t in toks]
        fs.group(p, "NXdispersion_function")
        fs.text((*p, "model_name"), "some model")
        if spoil != "formula":
            fs.text((*p, "formula"), text)
        if spoil != "representation":
            fs.text((*p, "representation"), "epsilon" if spoil == "wrong" else rep)
        fs.text((*p, "wavelength_identifier"), "x")
        if spoil == "energy":
            fs.text((*p, "energy_identifier"), "E")
        unit, factor = rng.choice(AXIS_UNITS)
        fs.data((*p, "wavelength_unit"), unit, factor)
        names = {t[1] for t in toks}
        n = rng.randint(1, 3)
        for k in ("a", "b"):
            if k in names or rng.random() < 0.3:
                at = rng.choice([(*p, k), (*p, "p_" + k), (*p, "all", k)])
                fs.group(at, "NXdispersion_single_parameter")
                fs.text((*at, "name"), k)
                fs.data((*at, "value"), rng.choice(["", "um"]), rng.choice([u(rng, 0.1, 3), u(rng, -2, 2), rng.randint(1, 4), np.float32(1.5)]))
        if "r" in names:
            for k in ("r", "s"):
                at = rng.choice([(*p, k), (*p, "p_" + k), (*p, "all", k)])
                fs.group(at, "NXdispersion_repeated_parameter")
                fs.text((*at, "name"), k)
                fs.data((*at, "values"), "", np.array([rng.choice([u(rng, 0.1, 3), u(rng, 0.1, 0.4), rng.randint(1, 4)]) for _ in range(n)]))
                if rng.random() < 0.3:
                    fs.data((*at, "parameter_units"), "", np.array([1.0] * n))
        return
    fs.group(p, "NXdispersion_table")
    fs.text((*p, "model_name"), "table")
    k = rng.randint(2, 5)
    if table_unit is None and (kd == "table-energy" or rng.random() < 0.1):
        ax, unit, xs = "energy", "eV", np.array([0.9, *sorted(u(rng, 1, 4.8) for _ in range(k - 2)), 5.1])
        if rng.random() < 0.2:
            xs = np.array(sorted({0, *(rng.randint(1, 4) for _ in range(k))} - {0} | {1, 5}))
    else:
        ax, unit, xs = "wavelength", rng.choice(["nm", "nm", "nanometer", ""]), np.array([250.0, *sorted(u(rng, 260, 1190) for _ in range(k - 2)), 1200.0])
        if rng.random() < 0.2:
            xs = np.round(xs).astype(int)
            xs = np.unique(xs)
        if table_unit:
            unit, xs = table_unit[0], xs * table_unit[1]
    if rng.random() < 0.4:
        xs = xs[::-1]
    k = len(xs)
    real = rng.random() < 0.3
    ys = np.array([u(rng, 1, 3) + (0 if real else 1j * u(rng, 0, 2)) for _ in range(k)])
    if real:
        ys = np.real(ys)
    if kd == "table-energy":
        kd = rng.choice(["table-n", "table-eps"]) if rng.random() < 0 else "table-eps"
    if spoil != "axis":
        fs.data((*p, ax), unit, xs)
    if spoil != "values":
        fs.data((*p, "refractive_index" if kd == "table-n" else "dielectric_function"), "", ys)


def used(m):
    """the material in a structure and as a copy"""
    c = copy.deepcopy(m)
    a = c.get_tensor(np.array([500.0, 600.0]))
    b = m.get_tensor(np.array([500.0, 600.0]))
    if not np.allclose(a, b, rtol=1e-12, atol=0, equal_nan=True):
        raise ValueError("a copy differs")
    if not np.all(np.isfinite(a)) or np.abs(a).max() > 1e8:
        return  # a pole of a formula lies exactly here: no material to compute with
    s = elli.Structure(elli.AIR, [elli.Layer(m, 30)], c)
    r = s.evaluate(np.array([500.0]), 40)
    d = np.abs(np.diagonal(a, axis1=1, axis2=2))  # an ordinary optical material
    if d.min() > 0.2 and d.max() < 50 and not np.all(np.isfinite(r.R_matrix)):
        raise ValueError("no reflectance")


def tensor(m, ws):
    t = np.asarray(m.get_tensor(np.array(ws)))
    off = all(t[k, i, j] == 0 for k in range(len(ws)) for i in range(3) for j in range(3) if i != j)
    return [[q(complex(t[k, i, i])) for i in range(3)] for k in range(len(ws))], off


def load(rng, fs, tokens, asis=None):
    fs.write()
    o = {"ev": "load", "fs": fs.walk(), "tokens": dict(tokens), "mats": {}}
    ms, o["err"] = call(read_nexus_materials, fs.path)
    f, err = call(h5py.File, fs.path, "a")
    if err:
        o["err"] = "held open: " + err
    else:
        f.close()
    if o["err"]:
        return o
    for e, m in ms.items():
        w = [rng.uniform(300, 1100), float(rng.randint(300, 1100))]
        r = {"kind": type(m).__name__, "w": [q(x) for x in w], "eps": [], "off": True, "wasis": [], "asis": [], "used": ""}
        v, r["everr"] = call(tensor, m, w)
        if v:
            r["eps"], r["off"] = v
        if asis:
            wa = [x * asis for x in w]
            v, err = call(tensor, m, wa)
            if v:
                r["wasis"], r["asis"] = [q(x) for x in wa], v[0]
        else:
            _, r["used"] = call(used, m)
            if r["used"] and r["everr"]:
                r["used"] = ""
        o["mats"][str(e)] = r
    return o


def forget(fs, p):
    for k in [k for k in fs.d if k[:len(p)] == tuple(p)]:
        del fs.d[k]


SPOILS = {"f": ["formula", "representation", "wrong", "energy"], "t": ["axis", "values"]}


def materials(rng, path, steps):
    fs, tokens, out = Nodes(rng, path), {}, []
    for i, s in enumerate(steps):
        if s["k"] == "load":
            out.append(load(rng, fs, tokens))
            continue
        component(rng, fs, tokens, s["e"], s["a"], s["c"], s["kd"])
        if rng.random() < 0.1:
            fs.text((s["e"], "model_name"), "eps = 1")
    out.append(load(rng, fs, tokens))
    # then broken, then repaired
    if rng.random() < 0.4 and fs.d:
        comps = [s for s in steps if s["k"] == "comp" and s["kd"] != "note"]
        if comps:
            s = rng.choice(comps)
            table = s["kd"].startswith("table")
            p = (s["e"], s["a"], s["c"])
            forget(fs, p)
            component(rng, fs, tokens, *p, s["kd"], spoil=rng.choice(SPOILS["t" if table else "f"]))
            out.append(load(rng, fs, tokens))
            forget(fs, p)
            component(rng, fs, tokens, *p, s["kd"])
            out.append(load(rng, fs, tokens))
    return out


def run(a, rng, rec):
    meas = [b for b in a.beh if any(s["k"] in ("measure", "read") for s in b)]
    mats = [b for b in a.beh if any(s["k"] in ("comp", "load") for s in b)]
    f = os.path.join(a.scratch, "m.nxs")
    for i, b in enumerate(meas):
        ev = measurements(rng, f, b)
        if ev:
            rec.case(f"read-{i}", ev)
    for i, b in enumerate(mats):
        rec.case(f"load-{i}", materials(rng, f, b))
    # functions and a table of one representation, in any order
    for i in range(20 if a.thorough else 8):
        fs, tokens, rep = Nodes(rng, f), {}, rng.choice(["eps", "n"])
        for axis in rng.choice([["x"], ["x", "z"], ["x", "y", "z"]]):
            kinds = [rng.choice(["eps", "sum"] if rep == "eps" else ["n"]) for _ in range(rng.randint(1, 2))] + [f"table-{rep}"]
            rng.shuffle(kinds)
            for c, kd in zip(sorted(rng.sample(["a", "b", "Z", "1", "table"], len(kinds))), kinds):
                component(rng, fs, tokens, "entry", f"dispersion_{axis}", c, kd)
        rec.case(f"mixed-{i}", [load(rng, fs, tokens)])
    # tables over wavelengths in other units
    for name, k in (("um", 1e-3), ("angstrom", 10), ("m", 1e-9)):
        out = []
        for kd in ("table-n", "table-eps"):
            fs = Nodes(rng, f)
            component(rng, fs, {}, "entry", "dispersion_x", "t", kd, table_unit=(name, k))
            out.append(load(rng, fs, {}, asis=k))
        rec.case(f"table-{name}", out)


if __name__ == "__main__":
    main(run)

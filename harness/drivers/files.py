"""P18: measurement files."""
import os

import elli
from rec import call, main, q, qs

READ = {"wvase": (elli.read_woollam_psi_delta, elli.read_woollam_rho), "cease": (elli.read_woollam_psi_delta, elli.read_woollam_rho),
        "spectraray": (elli.read_spectraray_psi_delta, elli.read_spectraray_rho)}
HEADS = ["Glas substrate with tape, AR high", "VASEmethod[EllipsometerType=5, Isotropic, Revs=50, WVASE=3.688, Mon Jul 10 14:15:02 2023]", "Original[glas_e1.dat]",
         "2nm SiO2 on Si on RC2", "Probe für Messung Nr. 7, 25 °C", "VASEmethod[" + ", ".join(f"Acq{i}=15.000" for i in range(50)) + ", Temp=25 °C, Gerät=2]", "", "VASEmethod[EllipsometerType=4 , CompleteEASE=6.37, AcqTime=15.000]", "sample 17 from 3.2.2022"]
FIELDS = ["AOI", "Lambda", "Bandwidth", "ExposureTime", "ROI_x", "ROI_y", "Delta", "Psi"]
FUNITS = {"AOI": "deg", "Lambda": "nm", "Bandwidth": "nm", "ExposureTime": "us", "ROI_x": "µm", "ROI_y": "µm", "Delta": "deg", "Psi": "deg"}


class Style:
    """how the numbers of a file are written"""

    def __init__(self, rng, styles=("fixed", "fixed", "fixed", "short", "exp", "mixed")):
        self.rng, self.kind, self.places = rng, rng.choice(styles), rng.choice([1, 3, 4, 6, 6, 7])

    def __call__(self, x):
        kind = self.rng.choice(["fixed", "short", "exp"]) if self.kind == "mixed" else self.kind
        if kind == "fixed":
            return f"{x:.{self.places}f}"
        if kind == "short":
            return f"{x:.8g}"
        return f"{x:.{self.places}e}" if self.rng.random() < 0.5 else f"{x:.{self.places}E}"


def psi(rng, used):
    while True:
        x = round(rng.choice([rng.uniform(0.01, 89.9), rng.uniform(10, 50)]), 6)
        if x not in used:
            used.add(x)
            return x


def delta(rng):
    return rng.choice([rng.uniform(-180, 180), rng.uniform(0, 360), rng.uniform(-90, 270), -180.0, 180.0, 0.0, -0.0, 360.0, -90.0, rng.uniform(-1e-4, 0), 540.5])


class Maker:
    """gives the abstract file of a behaviour its numbers, and writes it"""

    def __init__(self, rng, fmt, lines):
        self.rng, self.fmt, self.out, self.text = rng, fmt, [], []
        unit = next((x[1] for x in lines if x[0] == "unit"), "nm")
        lo, hi = {"nm": (190, 1700), "Angstroms": (1900, 17000), "eV": (0.7, 6.5), "um": (0.2, 30), "1/cm": (400, 50000), "kg": (190, 1700), "qqx": (190, 1700)}[unit]
        self.st = Style(rng)
        self.x = {i: float(self.st(rng.uniform(lo, hi) if rng.random() < 0.7 else float(round(rng.uniform(lo, hi)) or 1))) or 1.0 for i in range(1, 7)}
        third = rng.sample([20, 42, 64], 3)                   # no two angles alike, however they are written
        self.a = {i: round(third[i - 1] + rng.choice([rng.uniform(0, 20), float(rng.randint(0, 20))]), 3) for i in range(1, 4)}
        self.decimal = rng.choice([".", ".", ","]) if fmt in ("spectraray", "mmatrix") else "."
        self.head = list(HEADS)
        rng.shuffle(self.head)
        if rng.random() < 0.25:                               # letters beyond ASCII only after many others
            self.head += ["Probe für Messung Nr. 7, 25 °C", "VASEmethod[" + ", ".join(f"Acq{i}=15.000" for i in range(120)) + "]"]
        self.used = set()
        self.tail = rng.random() < 0.8
        self.cols = list(FIELDS)
        if rng.random() < 0.4:
            rng.shuffle(self.cols)
        for ln in lines:
            getattr(self, ln[0])(*ln[1:])

    def num(self, x):
        """the text of a number, and the number this text denotes"""
        t = self.st(x)
        if self.decimal == ",":
            return t.replace(".", ","), q(float(t))
        return t, q(float(t))

    def put(self, text, line):
        self.text.append(text)
        self.out.append(line)

    def head_line(self):
        if self.fmt == "accurion":
            return None
        return self.head.pop() if self.head else "x"

    def heading(self):
        self.put(self.head_line(), ["text"])

    def trig(self):
        self.put("nm  TRIG", ["trig"])

    def unit(self, u):
        self.put(u, ["unit", u])

    def values(self):
        p, d = self.num(psi(self.rng, self.used)), self.num(delta(self.rng))
        while p[1] in self.used:
            p = self.num(psi(self.rng, self.used))
        self.used.add(p[1])
        return p, d

    def rec(self, x, a, *_):
        rng = self.rng
        if self.out and self.out[-1][0] == "rec" and rng.random() < 0.12:
            return self.put(self.text[-1], self.out[-1])          # measured twice, with the same outcome
        (xt, xq), (at, aq), (p, d) = self.num(self.x[x]), self.num(self.a[a]), self.values()
        e1, e2 = (self.st(rng.uniform(0, 2)) for _ in range(2))
        if self.fmt == "wvase":
            row = [xt, at, p[0], d[0], e1, e2]
        elif self.fmt == "cease":
            row = ["E", xt, at, p[0], d[0], e1, e2]
        else:
            have = {"AOI": at, "Lambda": xt, "Bandwidth": e1, "ExposureTime": "115908", "ROI_x": "417.6", "ROI_y": "409.8", "Delta": d[0], "Psi": p[0]}
            row = [str(rng.choice([0, 0, 1]))] + [have[c] for c in self.cols]
        self.put("\t".join(row) + ("\t" if self.fmt == "accurion" and self.tail else ""), ["rec", xq, aq, p[1], d[1]])

    def other(self):
        rng = self.rng
        xt, at = self.num(self.x[rng.randint(1, 6)])[0], self.num(self.a[rng.randint(1, 3)])[0]
        row = ["dpolE" if self.fmt == "wvase" else rng.choice(["dPolE", "uR"]), xt, at, "inf" if self.fmt == "cease" and rng.random() < 0.3 else self.st(rng.uniform(-1, 1)), self.st(1.0)]
        self.put("\t".join(row), ["other"])

    def angles(self, which):
        pairs = [self.num(self.a[i]) for i in which]
        self.put("; WAVELENGTH " + " ".join(f"{t} {t}" for t, _ in pairs), ["angles", [v for _, v in pairs]])

    def grid(self, x, cells):
        xt, xq = self.num(self.x[x])
        vals = [self.values() for _ in cells]
        self.put(" ".join([xt] + [f"{p[0]} {d[0]}" for p, d in vals]) + (" " if self.tail else ""), ["grid", xq, [[p[1], d[1]] for p, d in vals]])

    def mm(self, x, _):
        if not self.text:
            t = self.num(self.a[1])[0]
            self.text.append("; WAVELENGTH " + " ".join([t] * 16))
        xt, xq = self.num(self.x[x])
        vals = [self.num(self.rng.uniform(-1, 1)) for _ in range(16)]
        self.put(" ".join([xt] + [t for t, _ in vals]) + (" " if self.tail else ""), ["mm", xq, [v for _, v in vals]])

    def write(self, path):
        text = list(self.text)
        if self.fmt == "accurion":
            end = "\t" if self.tail else ""
            text = ["#ROIidx\t" + "\t".join(self.cols) + end, "#-\t" + "\t".join(FUNITS[c] for c in self.cols) + end] + [t for t in text if t is not None]
        nl = self.rng.choice(["\n", "\r\n"])
        body = nl.join(text) + (nl if self.rng.random() < 0.9 else "")
        enc = self.rng.choice(["utf-8", "utf-8", "latin-1", "utf-8-sig"] + (["utf-16"] if self.fmt == "spectraray" else []))
        if enc == "utf-8-sig" and self.fmt not in ("wvase", "cease"):
            enc = "utf-8"
        with open(path, "wb") as f:
            f.write(body.encode(enc))


Maker.text_line = Maker.heading


def witness(keys_got, keys_rec):
    """which record a row stems from: the one with its psi"""
    if len(keys_got) != len(keys_rec):
        return list(range(1, len(keys_got) + 1))
    perm = [0] * len(keys_got)
    for i, j in zip(sorted(range(len(keys_got)), key=lambda i: keys_got[i]), sorted(range(len(keys_rec)), key=lambda j: keys_rec[j])):
        perm[i] = j + 1
    return perm


def num(s):
    from fractions import Fraction

    return float(Fraction(s))


def observe(m, path):
    m.write(path)
    o = {"ev": "file", "fmt": m.fmt, "lines": m.out, "err": "", "rows": [], "perm": [], "rhoerr": "none", "rhos": []}
    kw = {"decimal": m.decimal} if m.decimal == "," else {}
    if m.fmt == "mmatrix":
        t, o["err"] = call(elli.read_spectraray_mmatrix, path, **kw)
        if not o["err"]:
            cols = [f"M{i}{j}" for i in range(1, 5) for j in range(1, 5)]
            o["rows"] = [[q(float(w)), qs(v)] for w, v in zip(t.index, t[cols].to_numpy(float))]
            o["perm"] = witness([num(r[1][1]) for r in o["rows"]], [num(x[2][1]) for x in m.out])
        return o
    read = READ.get(m.fmt, (elli.read_accurion_psi_delta, None))
    t, o["err"] = call(read[0], path, **kw)
    if o["err"]:
        return o
    aoi, wl = (t.index.get_level_values(n) for n in ("Angle of Incidence", "Wavelength"))
    o["rows"] = [[q(float(a)), q(float(w)), q(float(p)), q(float(d))] for a, w, p, d in zip(aoi, wl, t["Ψ"], t["Δ"])]
    recs = []
    for x in m.out:
        if x[0] == "rec":
            recs.append(x[3])
        if x[0] == "grid":
            recs += [c[0] for c in x[2]]
    o["perm"] = witness([num(r[2]) for r in o["rows"]], [num(p) for p in recs])
    if read[1]:
        r, o["rhoerr"] = call(read[1], path, **kw)
        if not o["rhoerr"]:
            aoi, wl = (r.index.get_level_values(n) for n in ("Angle of Incidence", "Wavelength"))
            o["rhos"] = [[q(float(a)), q(float(w)), q(complex(v))] for a, w, v in zip(aoi, wl, r.to_numpy())]
    return o


def large(rng, fmt, n_x, n_a):
    """a measurement of realistic size, with the quantities besides"""
    lines = [["text"], ["unit", rng.choice(["nm", "eV"])]] if fmt != "spectraray" else [["angles", [1, 2, 3]]]
    if fmt == "spectraray":
        lines += [["grid", 1, [0, 0, 0]] for _ in range(n_x)]
    else:
        lines += [["rec", 1, a] for a in range(1, n_a + 1) for _ in range(n_x)]
        lines += [["other"] for _ in range(n_x)]
    return lines


class Large(Maker):
    """as Maker, with a fresh abscissa for each line"""

    def values(self):
        self.st.places = 6
        return super().values()

    def rec(self, x, a, *_):
        self.x[1] = self.x[1] * 1.001
        super().rec(1, a)

    def grid(self, x, cells):
        self.x[1] = self.x[1] * 1.001
        super().grid(1, cells)


def drive(a, rng, rec):
    n = 0
    for b in a.beh:
        b = b[0]
        lines = [["heading"] if x[0] == "text" else x for x in b["lines"]]
        if b["fmt"] == "accurion":
            lines = [x for x in lines if x[0] != "heading"]
        if b["fmt"] not in ("wvase", "cease") and not any(x[0] in ("rec", "grid", "mm") for x in lines):
            continue                                          # an empty table: not specified
        for _ in range(2 if a.thorough else 1):
            path = os.path.join(a.scratch, f"f{n}.dat")
            n += 1
            rec.case(f"{b['fmt']}-{n}", [observe(Maker(rng, b["fmt"], lines), path)])
            os.unlink(path)
    for fmt in ("wvase", "cease", "spectraray"):
        for _ in range(3 if a.thorough else 1):
            lines = [["heading"] if x[0] == "text" else x for x in large(rng, fmt, 600 if a.thorough else 150, 3)]
            path = os.path.join(a.scratch, f"f{n}.dat")
            n += 1
            rec.case(f"large-{fmt}-{n}", [observe(Large(rng, fmt, lines), path)])
            os.unlink(path)


if __name__ == "__main__":
    main(drive)

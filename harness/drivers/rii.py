"""P20: the material database, on databases made up here."""
import json
import os
import shutil

import numpy as np
import pandas as pd

import elli
import elli.database
from displib import u
from rec import call, main, q

MU = "µm"
RANGES = [("0.25", "0.5"), ("0.3", "2"), ("2.48e-6", "248"), ("5", "12.5"), ("0.188", "1.94"), ("0.30", "2.0"), ("1e-2", "1.")]
EMPTY = dict(plain=True, authors="", year="", note="", comment1="", type1="", lo1="", hi1="", type2="", lo2="", hi2="", comment2="", dash="")
TEXTS = ["J. Appl. Phys. <b>1</b>, 22 (1999)", "M. Röseler: α-SiO₂", "Šik, Ždánský & Čada", "5 µm – 25 °C", "plain", "Rodríguez-de Marcos: \"n, k\""]
LATIN = ["Rodríguez-de Marcos", "5 µm, 25 °C", "A. Röseler"]


def quoted(s):
    return json.dumps(s, ensure_ascii=False)


def num(rng, x, digits=6):
    s = rng.choice([f"{x:.{digits}g}", f"{x:.{digits}g}", f"{x:.{digits}e}", f"{x:.{digits - 1}E}"])
    return s


# ----------------------------------------------------------------- data files
def table(rng, typ):
    k = rng.randint(2, 6)
    x = sorted({round(u(rng, 0.26, 1.95), 4) for _ in range(k)} | {0.25, 2.0})
    if rng.random() < 0.15:
        x = x[::-1]
    cols = {"tabulated nk": ("n", "k")}.get(typ, (typ[-1],))
    rows = [[num(rng, v)] + [num(rng, u(rng, 0.1, 4)) if c == "n" else rng.choice([num(rng, u(rng, 0, 5)), num(rng, 10 ** rng.uniform(-9, -2)), "0"]) for c in cols] for v in x]
    sep = rng.choice([" ", " ", "  ", "   "])
    pad = rng.choice(["        ", "      ", "        "])
    text = "    data: |\n" + "".join(pad + sep.join(r) + rng.choice(["", "", " "]) + "\n" for r in rows)
    if rng.random() < 0.2:
        text = "    data: " + quoted("\n".join(sep.join(r) for r in rows) + rng.choice(["", "\n"])) + "\n"
    if rng.random() < 0.1:
        text = "    data: " + quoted("\n".join("\t".join(r) for r in rows)) + "\n"
    return dict(type=typ, coef=[], rows=rows), f"  - type: {typ}\n" + text


def coefs(rng, n):
    if n == 1 or n == 2:
        c = [u(rng, 0, 1.5)]
        for _ in range(rng.choice([0, 1, 2, 3])):
            r = rng.choice([u(rng, 0.01, 0.2), u(rng, 5, 30)])
            c += [u(rng, 0.05, 1.2), r if n == 1 else r * r]
    elif n in (3, 5):
        c = [u(rng, 1, 3)]
        for _ in range(rng.choice([0, 1, 2, 4])):
            e = rng.choice([2, -2, -4, -6, 1, 0.5, -1.5, -8])
            c += [u(rng, -0.01, 0.02) * (0.3 ** -e if e < 0 else 1), e]
    else:
        c = [u(rng, 1, 3)]
        for _ in range(rng.choice([0, 1, 2, 2])):
            c += [u(rng, 0.05, 1), rng.choice([0, 2, 2, 1, -0.5]), u(rng, 0.02, 0.2), rng.choice([1, 2, 2, 1.5])]
        if len(c) == 9:
            for _ in range(rng.choice([0, 1, 3])):
                e = rng.choice([2, -2, -4, 1, 4])
                c += [u(rng, -0.01, 0.01), e]
    return c


def formula(rng, n):
    c = [num(rng, x) if x != int(x) else str(int(x)) for x in coefs(rng, n)] if n <= 5 else ["1", "0.1", "0.2"]
    style = rng.choice(["plain", "plain", "plain", "wide", "wrapped", "quoted", "folded"])
    if style == "wide":
        t = "  ".join(c)
    elif style == "wrapped":
        t = "\n      ".join([" ".join(c[:3])] + ([" ".join(c[3:])] if c[3:] else []))
    elif style == "quoted":
        t = quoted(" ".join(c) + rng.choice(["", " "]))
    elif style == "folded":
        t = rng.choice(["|", ">"]) + "\n        " + " ".join(c)
    else:
        t = " ".join(c)
    return dict(type=f"formula {n}", coef=c, rows=[]), f"  - type: formula {n}\n    wavelength_range: 0.25 2.0\n    coefficients: {t}\n"


KINDS = ["nk", "nk", "n", "n+k", "k+n", 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, "1+k", "2+k", "3+k", "4+k", "5+k", "k+2", 6, 7, 8, 9, "9+k", "k", "6+n"]


def relations(rng, kind):
    out = []
    for part in str(kind).split("+"):
        out.append(table(rng, "tabulated " + part) if part in ("n", "k", "nk") else formula(rng, int(part)))
    if rng.random() < 0.02:
        out.append((dict(type="tabulated eps", coef=[], rows=[]), "  - type: tabulated eps\n    data: |\n        1 1\n"))
    return [o[0] for o in out], "".join(o[1] for o in out)


def data_file(rng, path, kind):
    rel, text = relations(rng, kind)
    enc = rng.choice(["utf8", "utf8", "utf8", "latin-1"])
    ref, comm = (rng.choice(TEXTS), rng.choice(TEXTS)) if enc == "utf8" else (rng.choice(LATIN), rng.choice(LATIN))
    head = "# this file is part of a database\n"
    body = f"REFERENCES: {quoted(ref)}\nCOMMENTS: {quoted(comm)}\nDATA:\n{text}"
    if rng.random() < 0.3:
        body += "SPECS:\n    n_is_absolute: false\n    temperature: 25.0 °C\n"
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write((head + body).encode("utf-8" if enc == "utf8" else "latin-1"))
    return rel, dict(enc=enc, ref=ref, comm=comm)


# ----------------------------------------------------------------- catalogue
def page_info(rng, s):
    if s["plain"]:
        return dict(EMPTY), rng.choice(["N-BK7", "SCHOTT", s["id"], "Various: see comments"])
    i = dict(EMPTY, plain=False, authors=s["author"], year=str(rng.randint(1900, 2025)), note=rng.choice(["", "", "", "a", "b (preprint)"]),
             comment1=rng.choice(["", "", "Thin film", "25 °C", "Au film; annealed"]), type1=rng.choice(["n", "n,k", "k", "n(o)", "α n"]), dash=rng.choice(["–", "–", "-"]))
    i["lo1"], i["hi1"] = rng.choice(RANGES)
    if rng.random() < 0.25:
        i["type2"] = rng.choice(["k", "n(e)"])
        i["lo2"], i["hi2"] = rng.choice(RANGES)
    if rng.random() < 0.25:
        i["comment2"] = rng.choice(["77 K", "Thin film", "bulk"])
    name = f"{i['authors']} {i['year']}{i['note']}: " + (i["comment1"] + "; " if i["comment1"] else "") + f"{i['type1']} {i['lo1']}{i['dash']}{i['hi1']} {MU}"
    if i["type2"]:
        name += f", {i['type2']} {i['lo2']}{i['dash']}{i['hi2']} {MU}"
    if i["comment2"]:
        name += "; " + i["comment2"]
    return i, name


def build(rng, root, steps):
    """catalogue and files; returns tokens, files, texts"""
    cat, files, texts, lines = [], {}, {}, []
    level = {"shelfdiv": 0, "shelf": 0, "bookdiv": 1, "book": 1, "pagediv": 2, "page": 2}
    longs = {}
    at = None
    for n, s in enumerate(steps):
        k, ind = s["k"], "    " * level[s["k"]] * 2
        if lines and lines[-1].endswith("content:") and (level[k] <= at):
            lines[-1] += " []"
        if k.endswith("div"):
            name = s["head"]
            cat.append(dict(t=k, name=name))
            lines.append(f"{ind}- DIVIDER: {quoted(name)}")
        elif k in ("shelf", "book"):
            name = longs.setdefault((k, s["id"]), rng.choice([s["id"], f"{s['id']} (long name {len(longs)})", "Gold; oxides"]))
            cat.append(dict(t=k, id=s["id"], name=name))
            lines.append(f"{ind}- {k.upper()}: {s['id']}\n{ind}  name: {quoted(name)}\n{ind}  content:")
            at = level[k]
        else:
            info, name = page_info(rng, s)
            pid = s["id"]
            path = f"main/{n}/{rng.choice(['nk', 'n'])}/{pid}.yml"
            given = path if rng.random() < 0.8 else path.replace("main/", "main/./", 1)
            cat.append(dict(t=k, id=pid, info=info, name=name, data=path))
            lines.append(f"{ind}- PAGE: {pid}\n{ind}  name: {quoted(name)}\n{ind}  data: {quoted(given)}")
            files["data/" + path], texts["data/" + path] = data_file(rng, os.path.join(root, "data", path), rng.choice(KINDS))
    if lines[-1].endswith("content:"):
        lines[-1] += " []"
    with open(os.path.join(root, "catalog-nk.yml"), "w", encoding="utf8") as f:
        f.write("\n".join(lines) + "\n")
    return cat, files, texts


def text_row(r):
    out = {}
    for c, v in r.items():
        c = {"lower_range": "lower", "upper_range": "upper"}.get(c, c)
        out[c] = "<NA>" if pd.isna(v) else q(float(v)) if c in ("lower", "upper") else str(v)
    return out


def rows_of(df):
    return [text_row(r) for _, r in df.iterrows()]


def misspell(rng, word):
    k = rng.randint(1, len(word) - 2)
    return rng.choice([word[:k] + word[k + 1:], word[:k] + "x" + word[k:], word[:k] + "q" + word[k + 1:]])


def case(rng, root, steps):
    if os.path.isdir(root):
        shutil.rmtree(root)
    os.makedirs(root)
    cat, files, texts = build(rng, root, [s for s in steps if s["k"] not in ("get", "search")])
    rii, err = call(elli.db.RII)
    rows, e2 = call(lambda: rows_of(rii.catalog)) if not err else (None, "")
    out = [{"ev": "catalog", "cat": cat, "files": files, "texts": texts, "mu": MU, "err": err or e2, "rows": rows or []}]
    if err:
        return out
    words = sorted({r[c] for r in rows or [] for c in ("book", "page", "author", "comment", "book_divider", "shelf", "page_type")} - {"<NA>", ""})
    for s in steps:
        if s["k"] == "get":
            b, p = s["b"], s["p"]
            o = {"ev": "get", "b": b, "p": p, "w": [], "everr": "", "eps": [], "mat": [], "range": []}
            d, o["err"] = call(rii.get_dispersion, b, p)
            m, err = call(rii.get_mat, b, p)
            o["err"] = o["err"] or err
            if not o["err"]:
                w = [rng.uniform(251, 1999), float(rng.randint(260, 1990))]
                f = (lambda: [q(complex(d.get_dielectric(x))) for x in w]) if rng.random() < 0.3 else (lambda: [q(complex(x)) for x in np.broadcast_to(d.get_dielectric(np.array(w)), (2,))])
                v, o["everr"] = call(f)
                t, err = call(lambda: [q(complex(x)) for x in np.asarray(m.get_tensor(np.array(w)))[:, 1, 1]])
                o["everr"] = o["everr"] or err
                o["w"], o["eps"], o["mat"] = [q(x) for x in w], v or [], t or []
                r, _ = call(lambda: [q(float(x)) for x in np.ravel(d.default_lbda_range)])
                o["range"] = r or []
                # what was returned is the caller's
                if rng.random() < 0.3:
                    call(lambda: d.single_params.clear())
                    call(lambda: d.rep_params.clear())
            out.append(o)
            if rng.random() < 0.3:
                o = {"ev": "text", "b": b, "p": p}
                r, err = call(rii.get_reference, b, p)
                c, e2 = call(rii.get_comment, b, p)
                o.update(ref=r or "", comm=c or "", err=err or e2)
                out.append(o)
        elif s["k"] == "search":
            qs = [x if rng.random() < 0.5 or not words else rng.choice(words) for x in s["q"]]
            fuzzy = s["fuzzy"]
            cols = ["all"] if rng.random() < 0.25 else [s["c"]]
            if not fuzzy and rng.random() < 0.3 and cols != ["all"]:
                cols = rng.sample(["shelf", "shelf_longname", "page_type", "path", "book", "page", "author"], rng.randint(1, 3))
            elif cols != ["all"] and rng.random() < 0.3:
                cols = sorted({cols[0], rng.choice(["book", "page", "author", "comment"])})
            pool = [240, 250, 300, 300.0, 350.5, 600, 1900, 6000, 1e5]
            limits = [v for c in ("lower_range", "upper_range") for v in rii.catalog[c].dropna().astype(float) if v * 8 == int(v * 8)]   # no others: rounded
            pool += [rng.choice(limits) for _ in range(5 if limits else 0)]
            ws = [] if s["w"] == 0 else [rng.choice(pool)] if s["w"] == 1 else [rng.choice(pool) for _ in range(rng.choice([2, 2, 3, 4]))]
            wf = None if s["w"] == 0 else rng.choice([ws[0], ws, tuple(ws)]) if s["w"] == 1 else rng.choice([ws, tuple(ws), np.array(ws)])
            o = {"ev": "search", "q": qs, "cols": cols, "fuzzy": fuzzy, "ws": [q(x) for x in ws], "res": [], "rows": []}
            a = [qs[0] if len(qs) == 1 and rng.random() < 0.6 else qs, cols[0] if len(cols) == 1 and (cols == ["all"] or rng.random() < 0.6) else cols]
            df, o["err"] = call(lambda: rii.search(*a, wavelength_filter=wf, fuzzy=fuzzy)) if wf is not None or rng.random() < 0.5 else call(lambda: rii.search(*a, fuzzy=fuzzy))
            if not o["err"]:
                o["res"], o["rows"] = [int(i) + 1 for i in df.index], rows_of(df)
                if rng.random() < 0.3 and len(df):
                    call(lambda: df.__setitem__("book", "changed"))
            out.append(o)
            if fuzzy and rng.random() < 0.3:
                o = {"ev": "far", "q": [rng.choice(["@#%", "\u0416\u0416\u0416", "~~~~~"])], "res": []}
                df, o["err"] = call(rii.search, o["q"][0], *([] if rng.random() < 0.5 else [s["c"]]))
                if not o["err"]:
                    o["res"] = [int(i) + 1 for i in df.index]
                out.append(o)
            long = [x for x in {r[s["c"]] for r in rows or []} if x != "<NA>" and len(x) >= 8]
            if fuzzy and long:
                word = rng.choice(sorted(long))
                o = {"ev": "near", "word": word, "q": [misspell(rng, word)], "cols": [s["c"]], "fuzzy": True, "res": []}
                df, o["err"] = call(rii.search, o["q"][0], s["c"])
                if not o["err"]:
                    o["res"] = [int(i) + 1 for i in df.index]
                out.append(o)
    return out


def run(a, rng, rec):
    top = os.path.join(a.scratch, "db")
    root = os.path.join(top, "refractiveindexinfo-database", "database")
    os.makedirs(root)
    elli.database.__path__.insert(0, top)
    n = 0
    for i, b in enumerate(a.beh):
        if not any(s["k"] == "page" for s in b):
            continue
        rec.case(f"db-{i}", case(rng, root, b))
        n += 1
    # every kind of entry
    for t in range(8 if a.thorough else 2):
        for kind in sorted({str(k) for k in KINDS}):
            globals()["KINDS"], keep = [kind], KINDS
            steps = [dict(k="shelf", id="main", head="", author="", plain=True), dict(k="book", id="Au", head="", author="", plain=True)]
            steps += [dict(k="page", id=p, head="", author="Palik", plain=p == "x") for p in ("x", "y", "z")]
            steps += [dict(k="get", b="Au", p=p) for p in ("x", "y", "z", "x")]
            rec.case(f"kind-{kind}-{t}", case(rng, root, steps))
            globals()["KINDS"] = keep


if __name__ == "__main__":
    main(run)

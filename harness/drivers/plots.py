"""P26: drawings of structures under histories of setter calls, and of Mueller matrices."""
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd

import elli
import elli.plot as elliplot
from elli.plot.structure import get_index_profile
from containers import MODS, NOROT, World, base
from rec import call, main, q, qs
from stacklib import rand_eps, rand_rot


def pieces(ax):
    """what is drawn, as intervals with a value"""
    out = []
    for line in ax.get_lines():
        x, y = (np.asarray(v, float) for v in line.get_data())
        style = line.get_drawstyle()
        for i in range(len(x) - 1):
            if style == "steps-post":
                out.append([x[i], x[i + 1], y[i]])
            elif style in ("steps-pre", "steps"):
                out.append([x[i], x[i + 1], y[i + 1]])
            elif style == "steps-mid":
                m = (x[i] + x[i + 1]) / 2
                out += [[x[i], m, y[i]], [m, x[i + 1], y[i + 1]]]
            elif y[i] == y[i + 1]:
                out.append([x[i], x[i + 1], y[i]])
    for p in ax.patches:
        if hasattr(p, "get_data"):
            v, e, _ = p.get_data()
            out += [[e[i], e[i + 1], v[i]] for i in range(len(v))]
    for c in ax.collections:
        if hasattr(c, "get_coordinates"):
            xy = np.asarray(c.get_coordinates())
            v = np.asarray(c.get_array(), float).reshape(xy.shape[0] - 1, xy.shape[1] - 1)
            for r in range(v.shape[0]):
                out += [[xy[r, i, 0], xy[r, i + 1, 0], v[r, i]] for i in range(v.shape[1])]
    return [{"a": q(a), "b": q(b), "n": q(n)} for a, b, n in out if a < b]


class Plots(World):
    def draw(self, id, method, lam=True):
        ax, err = call(lambda: elliplot.draw_structure(self.objs[id], self.lam, method))
        e = {"ev": "draw", "id": id, "method": method, "err": err, "pieces": [], "xlim": []}
        if not err:
            e["pieces"], e["xlim"] = pieces(ax), qs(np.asarray(ax.get_xlim(), float))
        plt.close("all")
        self.ev.append(e)

    def index(self, id, v, kind):
        give = {"array": np.array, "list": list, "tuple": tuple}[kind](v)
        if v == [1, 0, 0] and kind == "list":
            p, err = call(lambda: get_index_profile(self.objs[id], self.lam))
        else:
            p, err = call(lambda: get_index_profile(self.objs[id], self.lam, np.asarray(give)))
        sl = []
        if not err:
            sl = [{"d": q(float(d)), "n": q(complex(n))} for d, n in p]
        self.ev.append({"ev": "index", "id": id, "v": qs(np.array(v, float)), "err": err, "slices": sl})


DIRS = [lambda r: [1, 0, 0], lambda r: [0, 1, 0], lambda r: [0, 0, 1], lambda r: [0.6, 0.8, 0], lambda r: [0, -0.6, 0.8],
        lambda r: list(np.array(u) / np.linalg.norm(u)) if (u := [r.gauss(0, 1) for _ in range(3)]) else None]


def look(w, rng, id="s"):
    if rng.random() < 0.6:
        w.draw(id, rng.choice(["graph", "section"]))
    if rng.random() < 0.6:
        w.index(id, rng.choice(DIRS)(rng), rng.choice(["array", "list"]))


def structures(a, rng, rec):
    for bi, b in enumerate(a.beh):
        w = Plots(rng.uniform(300, 900))
        base(w, rng)
        w.make("l1", "layer", mat="A", d=10)
        w.make("l2", "layer", mat="B", d=25)
        w.make("t", "twist", mat="A", d=30, div=3, angle=90)
        w.make("v", "vary", mat="M", d=8, div=2, mod="id")
        w.make("r1", "rep", kids=["l1", "l2"], n=2, before=1, after=0)
        w.make("r2", "rep", kids=["r1", "t"], n=1, before=0, after=2)
        w.make("s", "stack", front="F", kids=["l1", "r2", "v"], back="B")
        look(w, rng)
        for i, (o, op, args) in enumerate(b):
            w.call(o, op, args, i=bi + i)
            if i % 2:
                look(w, rng)
        w.draw("s", "graph")
        w.draw("s", "section")
        rec.case(f"beh{bi}", w.ev)
    for c in range(600 if a.thorough else 80):
        w = Plots(rng.uniform(300, 1500))
        for i in range(3):
            k = rng.choice(["diel", "diel", "metal", "weak"])
            n = rng.choice([1, 2, 3])
            v = [rand_eps(rng, k) for _ in range(n)]
            v = (v * 3)[:3] if n != 2 else [v[0], v[0], v[1]]
            w.tensor(f"m{i}", v, rand_rot(rng))
        w.mixture("x", "m0", "m1", rng.random())
        w.tensor("f", [rng.uniform(1, 3)] * 3, NOROT)
        w.tensor("b", [complex(rng.uniform(-5, 9), rng.choice([0, 1.0]))] * 3, NOROT)
        pool = []
        for i in range(rng.choice([1, 2, 3])):
            k = rng.choice(["layer", "layer", "twist", "vary"])
            d = rng.choice([0, rng.uniform(1, 5), rng.uniform(5, 300)])
            if k == "layer":
                w.make(f"l{i}", k, mat=rng.choice(["m0", "m1", "m2", "x"]), d=d)
            elif k == "twist":
                w.make(f"l{i}", k, mat=rng.choice(["m0", "m1", "m2"]), d=d or 3, div=rng.choice([1, 2, 5]), angle=rng.uniform(-200, 200))
            else:
                w.make(f"l{i}", k, mat="x", d=d or 3, div=rng.choice([1, 2, 4]), mod=rng.choice(sorted(MODS)))
            pool.append(f"l{i}")
        w.make("r", "rep", kids=[rng.choice(pool) for _ in range(rng.choice([1, 2]))], n=rng.choice([1, 2, 3]), before=rng.choice([0, 1]), after=rng.choice([0, 1]))
        pool.append("r")
        w.make("s", "stack", front="f", kids=[rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 3]))], back="b")
        w.draw("s", rng.choice(["graph", "section"]))
        w.index("s", rng.choice(DIRS)(rng), "array")
        w.call("s", "set_layers", [rng.choice(pool) for _ in range(rng.choice([0, 1, 2]))])
        w.draw("s", rng.choice(["graph", "section"]))
        look(w, rng)
        rec.case(f"rnd{c}", w.ev)


def table(rng, cols):
    n = rng.choice([1, 2, 5, 9])
    x = sorted(rng.uniform(200, 900) for _ in range(n))
    if rng.random() < 0.2:
        x.reverse()
    return pd.DataFrame({c: [rng.uniform(-1, 1) for _ in x] for c in cols}, index=pd.Index(x, name="Wavelength"))


def written(df, cols):
    return {"x": qs(np.asarray(df.index, float)), "y": [qs(np.asarray(df[c], float)) for c in cols]}


def grid(fig, t):
    lay = fig.layout
    ax = lambda n, k: lay[n + "axis" + (k or n)[1:]]
    xs = sorted({lay[k].domain[0] for k in lay if k.startswith("xaxis") and lay[k].domain} or {0})
    ys = sorted({lay[k].domain[0] for k in lay if k.startswith("yaxis") and lay[k].domain} or {0}, reverse=True)
    dx, dy = ax("x", t.xaxis).domain, ax("y", t.yaxis).domain
    return [ys.index(dy[0]) + 1 if dy else 1, xs.index(dx[0]) + 1 if dx else 1]


def mueller(a, rng, rec):
    full = [f"M{i}{j}" for i in range(1, 5) for j in range(1, 5)]
    for c in range(300 if a.thorough else 60):
        single = rng.random() < 0.5
        cols = list(full)
        if single and rng.random() < 0.5:
            cols = rng.sample(full, rng.choice([1, 3, 12]))
        nt = rng.choice([1, 1, 2, 2, 3])
        dfs = [table(rng, cols) for _ in range(nt)]
        if nt > 1 and rng.random() < 0.3:
            dfs[1] = dfs[1][rng.sample(cols, len(cols))]        # the same columns in another order
        kw, colors, dashes, names = {}, None, None, None
        if rng.random() < 0.6:
            kw["colors"] = colors = rng.choice([["red"], ["red", "blue", "#123456"], [f"#0000{i:02x}" for i in range(16)]])
        if rng.random() < 0.6:
            kw["dashes"] = dashes = rng.choice([["dot"], ["dash", "solid"], ["longdash", "dot", "dashdot"]])
        if rng.random() < 0.6:
            kw["names"] = names = rng.choice([["one"], ["data", "model", "other"], ["", "fit"]])
        kw["single"] = single
        for n in ("full_scale", "sharex"):
            if rng.random() < 0.5:
                kw[n] = rng.random() < 0.7
        if single and rng.random() < 0.3:
            del kw["single"]
        tabs = [written(d, cols) for d in dfs]
        give = dfs[0] if nt == 1 and rng.random() < 0.5 else dfs
        fig, err = call(lambda: elliplot.plot_mmatrix(give, **kw))
        e = {"ev": "mueller", "cols": cols, "tables": tabs, "single": single, "full": kw.get("full_scale", False), "share": kw.get("sharex", False),
             "err": err, "curves": [], "axes": [], "after": [written(d, cols) for d in dfs]}
        if not err:
            cv = [{"x": qs(np.asarray(t.x, float)), "y": qs(np.asarray(t.y, float)), "name": t.name.strip(), "color": t.line.color, "dash": t.line.dash,
                   "panel": grid(fig, t)} for t in fig.data]
            if colors is None:         # not documented: whatever each element's first curve has
                for t in cv:
                    t["color"] = ""
                colors = [""]
            if dashes is None:
                for t in cv:
                    t["dash"] = ""
                dashes = [""]
            e["curves"] = cv
            lay = fig.layout
            n = 1 if single else 16
            e["axes"] = [{"range": qs(np.asarray(lay[f"yaxis{k}" if k > 1 else "yaxis"].range if lay[f"yaxis{k}" if k > 1 else "yaxis"].range else [], float)),
                          "matches": lay[f"xaxis{k}" if k > 1 else "xaxis"].matches or ""} for k in range(1, n + 1)]
        e["colors"], e["dashes"], e["names"] = colors or [""], dashes or [""], names or ["", "theory"]
        rec.case(f"mm{c}", [{"ev": "case"}, e])


def run(a, rng, rec):
    structures(a, rng, rec)
    mueller(a, rng, rec)


if __name__ == "__main__":
    main(run)

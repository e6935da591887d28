"""P22: fit sessions, operated through their widgets as a user does."""
import atexit
import math
import os
import shutil
import tempfile

import ipywidgets
import numpy as np
import pandas as pd
from lmfit import Parameters

import elli
from elli.fitting import ParamsHist, fit, fit_mueller_matrix
from rec import call, main, q, qs

SCRATCH = tempfile.mkdtemp(prefix="session")
atexit.register(shutil.rmtree, SCRATCH, ignore_errors=True)
MADE = []
ipywidgets.Widget.on_widget_constructed(MADE.append)
C = elli.ConstantRefractiveIndex
DISPLAYS = ["Psi/Delta", "Rho", "Pseudo Diel.", "Residual"]


def layer_model(angle, solver, mm):
    def model(lbda, p):
        layers = [elli.Layer(elli.IsotropicMaterial(C(float(p["n"]))), float(p["d"]))]
        if "t" in p:
            layers.append(elli.Layer(elli.IsotropicMaterial(C(2.1)), abs(float(p["t"]))))
        if "x" in p:
            layers[0] = elli.Layer(elli.IsotropicMaterial(elli.Cauchy(n0=float(p["n"]), n1=1000 * float(p["x"]))), float(p["d"]))
        s = elli.Structure(elli.AIR, layers, elli.IsotropicMaterial(C(3.8 - 0.1j if mm else 3.7)))
        return s.evaluate(np.asarray(lbda, dtype=float), angle, solver=solver)

    return model


class Session:
    def __init__(self, rng, track, mm):
        self.rng, self.track, self.mm = rng, track, mm
        self.ev = []
        angle = rng.choice([60, 65.0, 70])
        n = rng.choice([2, 3, 5])
        wl = sorted(rng.sample([400 + 7.5 * i for i in range(50)], n))
        if rng.random() < 0.2:
            wl.reverse()
        self.wl = wl
        self.model = layer_model(angle, elli.Solver4x4 if mm else rng.choice([elli.Solver2x2, elli.Solver4x4]), mm)
        p = ParamsHist() if track else Parameters()
        self.bounds, self.ties, self.names, self.table = [], [], [], []

        def add(name, vals, bounds, **kw):
            p.add(name, vals[0], min=bounds[0], max=bounds[1], **kw)
            self.names.append(name)
            self.bounds.append([q(float(b)) for b in bounds])
            self.table.append(vals)
            self.ties.append(0)

        names = ["n", "d"] if rng.random() < 0.5 else ["d", "n"]
        for name in names:
            if name == "n":
                add("n", [rng.uniform(1.3, 2.4) for _ in range(4)], rng.choice([(1.0, 3.0), (1.0, math.inf), (1.25, 2.2)]))
            else:
                add("d", [rng.uniform(20, 200) for _ in range(4)], rng.choice([(0.0, 400.0), (10.0, 150.0)]))
        p["n"].set(value=min(p["n"].value, 2.2))
        if rng.random() < 0.35:
            add("x", [rng.uniform(-5, 5) for _ in range(4)], (-math.inf, math.inf), vary=rng.random() < 0.5)
        if rng.random() < 0.35:
            p.add("t", expr="2*d")
            self.names.append("t")
            self.bounds.append(["-inf", "inf"])
            self.ties.append(self.names.index("d") + 1)
            self.table.append(None)
        truth = {k: rng.choice(v) * rng.choice([1, 0.9]) for k, v in zip(self.names, self.table) if v}
        truth["t"] = 2 * truth["d"]
        if "t" not in self.names:
            del truth["t"]
        true = self.model(wl, truth)
        if mm:
            m = np.array(true.mueller_matrix).reshape(-1, 16) * rng.choice([1.0, 0.98])
            self.exp = pd.DataFrame(m, index=wl, columns=[f"M{i}{j}" for i in range(1, 5) for j in range(1, 5)])
        else:
            off = rng.choice([0.0, 1.5])
            self.exp = pd.DataFrame({"Ψ": true.psi + off, "Δ": true.delta - off}, index=pd.Index(wl, name="Wavelength"))
        past = []
        if track and rng.random() < 0.2:
            p.commit()
            past = [dict(val=[q(float(x.value)) for x in p.values()], vary=[bool(x.vary) for x in p.values()])]
            i = self.names.index("d")
            p["d"].value = 77.0
        self.angle = angle
        MADE.clear()
        if mm:
            kw = dict(display_single=rng.random() < 0.5, sharex=rng.random() < 0.5, full_scale=rng.random() < 0.5) if rng.random() < 0.7 else {}
            self.s, err = call(fit_mueller_matrix(self.exp, p, **kw), self.model)
        else:
            self.s, err = call(fit(self.exp, p, angle), self.model)
        if err:
            self.dead = True
            self.ev.append({"ev": "open", "kind": "mm" if mm else "psi", "track": track, "ties": [], "bounds": [], "angle": q(angle), "past": [], "display": "", "err": err,
                            "val": [], "vary": [], "shown": [], "ticks": [], "measured": [], "model": [], "fig": [], "legend": [], "extra": 0})
            return
        self.dead = False
        made = list(MADE)
        self.buttons = {w.description: w for w in made if isinstance(w, ipywidgets.Button)}
        self.boxes = {w.description: w for w in made if hasattr(w, "value") and hasattr(w, "step")}
        self.checks = {w.tooltip: w for w in made if isinstance(w, ipywidgets.Checkbox) and w.tooltip}
        self.residual = next((w for w in made if isinstance(w, ipywidgets.Checkbox) and not w.tooltip), None)
        self.selector = next((w for w in reversed(made) if isinstance(w, ipywidgets.Dropdown)), None)
        self.fitted = self.values()
        self.display = "Psi/Delta" if not mm else "Theory"
        self.log({"ev": "open", "kind": "mm" if mm else "psi", "track": track, "ties": self.ties, "bounds": self.bounds, "angle": q(angle), "past": past, "display": self.display}, "")

    def values(self):
        return {k: float(v.value) for k, v in self.s.params.items()}

    def rows(self, r):
        if self.mm:
            return qs(np.asarray(r.mueller_matrix).reshape(-1, 16))
        return [[q(float(a)), q(float(b)), q(complex(c))] for a, b, c in zip(np.atleast_1d(r.psi), np.atleast_1d(r.delta), np.atleast_1d(r.rho))]

    def curves(self, figure):
        fig, extra = [], 0
        for tr in figure.data:
            at = {w: [] for w in self.wl}
            for x, y in zip(tr.x, tr.y):
                y = float(y)
                if y == y:
                    if float(x) in at:
                        at[float(x)].append(y)
                    else:
                        extra += 1
            fig.append([q(at[w][0]) if len(at[w]) == 1 else "nan" for w in self.wl])
        return fig, extra

    def log(self, e, err):
        s = self.s
        p = s.params
        fig, extra = self.curves(s.fig)
        e.update(err=err, val=[q(float(p[k].value)) for k in self.names], vary=[bool(p[k].vary) for k in self.names],
                 shown=[q(float(self.boxes[k].value)) for k in self.names], ticks=[bool(self.checks[k].value) for k in self.names],
                 measured=qs(self.exp.values), fig=fig, legend=[str(t.name) for t in s.fig.data], extra=extra + abs(len(p) - len(self.names)),
                 model=self.rows(self.model(self.wl, self.values())))
        self.ev.append(e)

    def near(self, start):
        """Parameters next to the fitted ones, one parameter changed; none if a bound was near, where fits may end early."""
        p, out = self.s.params, []
        free = [k for k in self.names if p[k].vary]
        for k in free:
            lo, hi = p[k].min, p[k].max
            m = 0.02 * min(hi - lo, 5.0)
            if any(not lo + m < v[k] < hi - m for v in (start, self.fitted)):
                return []
        for k in free:
            for d in (-1, 1):
                v = dict(self.fitted)
                v[k] += d * 1e-3 * max(abs(v[k]), 0.1)
                if "t" in v:
                    v["t"] = 2 * v["d"]
                out.append(v)
        return out

    def press(self, name):
        return call(self.buttons[name].click)[1]

    def step(self, st):
        rng, p = self.rng, self.s.params
        k = st[0]
        if k == "move":
            i = rng.choice([j for j, t in enumerate(self.table) if t]) if len(self.names) > 2 else st[1] - 1
            name = self.names[i]
            v = self.table[i][st[2] - 1]
            r = rng.random()
            if r < 0.1:
                v = rng.choice([-3.0, 1e4, 0.0])
                if name == "n" and v == 1e4:
                    v = 2.9
                if name == "x":
                    v = rng.choice([-2.0, 0.0])
                v = float(v)
            lo, hi = self.bounds[i]
            err = call(setattr, self.boxes[name], "value", v)[1]
            self.log({"ev": "move", "i": i + 1, "v": q(v)}, err)
        elif k == "vary":
            i = rng.choice([j for j, t in enumerate(self.table) if t])
            err = call(setattr, self.checks[self.names[i]], "value", st[2])[1]
            self.log({"ev": "vary", "i": i + 1, "on": st[2]}, err)
        elif k == "fit":
            if not any(x.vary for x in p.values()):
                return
            before, start = self.rows(self.model(self.wl, self.values())), self.values()
            err = self.press("Fit")
            self.fitted = self.values()
            self.log({"ev": "fit", "before": before, "near": [self.rows(self.model(self.wl, v)) for v in self.near(start)]}, err)
        elif k in ("undo", "redo"):
            err = self.press(k.capitalize())
            self.log({"ev": k}, err)
        elif k == "reset":
            err = self.press("Set initial")
            self.log({"ev": k}, err)
        elif k == "select":
            if self.mm:
                d = "Residual" if st[1] in ("Residual", "Rho") else "Theory"
                err = call(setattr, self.residual, "value", d == "Residual")[1]
            else:
                d = st[1]
                err = call(setattr, self.selector, "value", d)[1]
            self.log({"ev": k, "d": d}, err)

    def data(self):
        """The session's model as a table, directly or through a file."""
        rng, mm = self.rng, self.mm
        at, kw = dict(self.fitted), {}
        given = rng.random() < 0.4
        if given:
            given = self.s.params.copy()
            for k, v in zip(self.names, self.table):
                if v and rng.random() < 0.6:
                    given[k].value = rng.choice(v)
            at = {k: float(v.value) for k, v in given.items()}
            kw["params"] = given
        both = rng.random() < 0.5
        form = "mm" if mm else "psi-delta"
        if not mm and rng.random() < 0.5:
            form = kw["repr"] = rng.choice(["rho", "psi-delta"])
        if form != "rho" and "repr" not in kw and rng.random() < 0.3:
            f = os.path.join(tempfile.mkdtemp(dir=SCRATCH), "model.csv")
            _, err = call(self.s.to_csv, fname=f, append_exp_data=both, **kw)
            got = [] if err else qs(pd.read_csv(f, index_col=0).values)
        else:
            t, err = call(self.s.get_model_data, append_exp_data=both, **kw)
            got = [] if err else [[q(complex(x)) if form == "rho" else q(float(x)) for x in r] for r in t.values]
        self.ev.append({"ev": "data", "given": bool(given), "form": form, "both": both, "at": [q(at[k]) for k in self.names], "got": got,
                        "model": self.rows(self.model(self.wl, at)), "measured": qs(self.exp.values), "err": err})

    def view(self):
        """A separate drawing of the fit."""
        d = self.rng.choice(["plot", "plot_residual"] if self.mm else ["plot", "plot_rho"])
        fig, err = call(getattr(self.s, d))
        got, extra = ([], 0) if err else self.curves(fig)
        self.ev.append({"ev": "view", "d": d, "at": [q(self.fitted[k]) for k in self.names], "model": self.rows(self.model(self.wl, self.fitted)),
                        "measured": qs(self.exp.values), "fig": got, "extra": extra, "err": err})


def drive(a, rng, rec):
    for n, b in enumerate(a.beh):
        track = any(s[0] in ("undo", "redo", "reset") for s in b)
        s = Session(rng, track, rng.random() < 0.3)
        if not s.dead:
            for st in b:
                s.step(st)
                if track and rng.random() < 0.06:
                    s.step(["redo"])
                if rng.random() < 0.08:
                    s.data()
                if rng.random() < 0.05:
                    s.view()
            s.data()
            s.view()
            if track:
                for _ in range(rng.randrange(0, 9)):
                    s.step(["undo"])
                if rng.random() < 0.5:
                    s.step(["redo"])
        rec.case(f"session-{n}", s.ev)
        if n % 20 == 0:
            ipywidgets.Widget.close_all()


if __name__ == "__main__":
    main(drive)

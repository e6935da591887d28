"""P07: histories of setters, evaluations, reads and copies on shared objects."""
import copy
import pickle

import numpy as np

import elli
from displib import single_rep
from rec import call, main, q, qs

MIX = {"VCA": elli.VCAMaterial, "Looyenga": elli.LooyengaEMA, "MG": elli.MaxwellGarnettEMA, "Bruggeman": elli.BruggemanEMA}
CLASSES = ["ConstantRefractiveIndex", "EpsilonInf", "Cauchy", "CauchyUrbach", "CauchyCustomExponent", "Sellmeier", "SellmeierCustomExponent", "Polynomial",
           "LorentzEnergy", "LorentzLambda", "DrudeEnergy", "Poles", "Gaussian", "TaucLorentz", "Tanguy", "CodyLorentz", "DrudeResistivity"]
FORMULA = "eps = a + sum[ A * x**2 / (x**2 - B**2) ]"


def text(v):
    a = np.asarray(v)
    return q(v if a.ndim == 0 and not isinstance(v, np.ndarray) else a.item()) if a.ndim == 0 else ",".join(qs(a))


def value(t, cls=""):
    def one(x):
        from fractions import Fraction
        if "|" in x:
            re, im = x.split("|")
            return complex(float(Fraction(re)), float(Fraction(im)))
        return float(Fraction(x))
    return np.array([one(x) for x in t.split(",")]) if "," in t else one(t)


def new_disp(cls, single, reps):
    """from numbers"""
    if cls == "Formula":
        keys = list(reps[0]) if reps else []
        return elli.Formula(FORMULA if False else "eps = a + sum[A * x**2 / (x**2 - B**2)]", "x", dict(single), {k: [r[k] for r in reps] for k in keys}, "um")
    if cls == "Table":
        return elli.Table(**single)
    if cls == "TableEpsilon":
        return elli.TableEpsilon(**single)
    d = getattr(elli, cls)(**single)
    for r in reps:
        d.add(**r)
    return d


def draw(rng, cls):
    if cls == "Formula":
        return {"a": rng.uniform(1, 3)}, [{"A": rng.uniform(0.1, 2), "B": rng.uniform(0.05, 0.3)} for _ in range(rng.choice([1, 2, 3]))]
    if cls in ("Table", "TableEpsilon"):
        k = rng.choice([2, 4, 7])
        return {"lbda": np.linspace(350, 850, k), "n" if cls == "Table" else "epsilon": np.array([complex(rng.uniform(1.2, 3), rng.choice([0, rng.uniform(0, 1)])) for _ in range(k)])}, []
    return single_rep(rng, cls)


def disp_tree(d):
    cls = type(d).__name__
    cls = {"FormulaParser": "Formula", "TableIndex": "Table", "Formula": "Formula", "FormulaIndex": "Formula"}.get(cls, cls)
    names = list(d.single_params)
    single = [[k, text(d.single_params[k])] for k in sorted(names)]
    return ["disp", cls, single, [[[k, text(r[k])] for k in sorted(r)] for r in d.rep_params]]


def mat_tree(m):
    for name, c in MIX.items():
        if type(m) is c:
            return ["mix", name, mat_tree(m.host_material), mat_tree(m.guest_material), q(float(m.fraction))]
    rot = qs(np.asarray(m.rotation_matrix).ravel()) if m.rotated else []
    kind = {elli.IsotropicMaterial: "iso", elli.UniaxialMaterial: "uni", elli.BiaxialMaterial: "bi"}[type(m)]
    ds = {"iso": [m.dispersion_x], "uni": [m.dispersion_x, m.dispersion_z], "bi": [m.dispersion_x, m.dispersion_y, m.dispersion_z]}[kind]
    return [kind, [disp_tree(d) for d in ds], rot]


def layer_tree(y):
    if isinstance(y, elli.RepeatedLayers):
        return ["rep", [layer_tree(x) for x in y.layers], int(y.repetitions)]
    if isinstance(y, elli.TwistedLayer):
        return ["twist", mat_tree(y.material), q(float(y.thickness)), int(y.div), q(float(y.angle))]
    return ["layer", mat_tree(y.material), q(float(y.thickness))]


def struct_tree(s):
    return ["structure", mat_tree(s.front_material), [layer_tree(y) for y in s.layers], mat_tree(s.back_material)]


def about(e, vec):
    v = e.jones_vector if len(vec) == 2 else e.stokes_vector
    return [qs(np.asarray(e.lbda, dtype=float)), q(float(e.theta_i)), qs(v)]


def exp_tree(e, vec):
    return ["experiment", struct_tree(e.structure), *about(e, vec)]


# ---- fresh objects from a tree
def fresh_disp(t):
    return new_disp(t[1], {k: value(v) for k, v in t[2]}, [{k: value(v) for k, v in r} for r in t[3]])


def fresh_mat(t):
    if t[0] == "mix":
        return MIX[t[1]](fresh_mat(t[2]), fresh_mat(t[3]), value(t[4]))
    m = {"iso": elli.IsotropicMaterial, "uni": elli.UniaxialMaterial, "bi": elli.BiaxialMaterial}[t[0]](*map(fresh_disp, t[1]))
    if t[2]:
        m.set_rotation(np.array([value(x) for x in t[2]]).reshape(3, 3))
    return m


def fresh_layer(t):
    if t[0] == "rep":
        return elli.RepeatedLayers([fresh_layer(x) for x in t[1]], t[2])
    if t[0] == "twist":
        return elli.TwistedLayer(fresh_mat(t[1]), value(t[2]), t[3], value(t[4]))
    return elli.Layer(fresh_mat(t[1]), value(t[2]))


def fresh_struct(t):
    return elli.Structure(fresh_mat(t[1]), [fresh_layer(y) for y in t[2]], fresh_mat(t[3]))


def fresh_exp(t):
    vec = [value(x) for x in t[4]]
    return elli.Experiment(fresh_struct(t[1]), np.array([value(x) for x in t[2]]), value(t[3]), vec)


def unit(v):
    return list(np.array(v) / np.linalg.norm(v))


def settled(obs, fresh, nudged):
    """the freshly computed numbers; those that rounding alone decides (they change when the angle
    of incidence is nudged in its last digits) say nothing and are given as observed"""
    def num(x):
        return complex(np.ravel(value(x))[0])
    if len(obs) != len(fresh) or len(nudged) != len(fresh):
        return fresh
    out = []
    for o, f, n in zip(obs, fresh, nudged):
        if o != f and not any(isinstance(x, str) and x[:1] == "!" for x in (o, f, n)):
            try:
                a, b = num(f), num(n)
                if not abs(a - b) <= 2e-9 * (1 + abs(a)):
                    f = o
            except ValueError:
                pass
        out.append(f)
    return out


def flat(a):
    return [q(complex(x)) if np.iscomplexobj(a) else q(float(x)) for x in np.asarray(a).ravel()]


def look(r):
    """what a result says; the transmitted amplitudes only behind plain isotropic materials
    (elsewhere their basis is arbitrary once two waves travel alike)"""
    out = []
    back = r.experiment.structure.back_material
    plain = type(back) is elli.IsotropicMaterial and not back.rotated
    for n in ("rho", "psi", "delta", "R", "jones_matrix_r", "mueller_matrix", "R_matrix") + (("T", "jones_matrix_t", "T_matrix", "rho_t") if plain else ()):
        v, err = call(getattr, r, n)
        if n == "delta" and not err:
            v = np.exp(1j * np.deg2rad(v))    # 180 and -180 are one phase
        out += ["!" + n + err] if err else flat(v)
    return out


SOLVERS = {"2x2": lambda e: e.evaluate(elli.Solver2x2), "expm": lambda e: e.evaluate(elli.Solver4x4),
           "scipy": lambda e: e.evaluate(elli.Solver4x4, propagator=elli.PropagatorExpm("scipy")),
           "eig": lambda e: e.evaluate(elli.Solver4x4, propagator=elli.PropagatorEig()),
           "linear": lambda e: e.evaluate(elli.Solver4x4, propagator=elli.PropagatorLinear())}


class World:
    def __init__(self, rng):
        self.rng, self.ev, self.results, self.forks = rng, [], [], []
        self.pool = [self.some() for _ in range(2)]
        self.errset = {k: rng.choice(["ignore", "warn"]) for k in ("divide", "over", "under", "invalid")}
        np.seterr(**self.errset)
        cls = [rng.choice(CLASSES + ["Formula", "Table"]) for _ in range(4)]
        if rng.random() < 0.3:
            cls[3] = "TableEpsilon"
        self.cls = cls
        self.disp, dw = [], []
        for c in cls:
            single, reps = draw(rng, c)
            d = new_disp(c, single, reps)
            self.disp.append(d)
            t = disp_tree(d)
            dw.append({"cls": c, "single": t[2], "reps": t[3]})
        kinds = ["iso", rng.choice(["iso", "uni"]), rng.choice(["uni", "bi", "iso"])]
        nd = {"iso": 1, "uni": 2, "bi": 3}
        self.mat, mw = [], []
        for i, k in enumerate(kinds):
            ids = [rng.randrange(4) for _ in range(nd[k])]
            make = {"iso": elli.IsotropicMaterial, "uni": elli.UniaxialMaterial, "bi": elli.BiaxialMaterial}[k]
            if k == "iso" and rng.random() < 0.6:
                make = lambda d: d.get_mat()
            m = make(*[self.disp[j] for j in ids])
            self.mat.append(m)
            mw.append({"kind": k, "disp": [j + 1 for j in ids], "rot": [], "host": 0, "guest": 0, "frac": "0", "rule": ""})
        rule = rng.choice(list(MIX))
        h, g = rng.sample(range(3), 2)
        f = rng.uniform(0, 1)
        self.mat.append(MIX[rule](self.mat[h], self.mat[g], f))
        mw.append({"kind": "mix", "disp": [], "rot": [], "host": h + 1, "guest": g + 1, "frac": q(f), "rule": rule})
        air = elli.IsotropicMaterial(elli.ConstantRefractiveIndex(1.0))
        self.mat.append(air)
        self.disp.append(air.dispersion_x)
        t = disp_tree(air.dispersion_x)
        dw.append({"cls": t[1], "single": t[2], "reps": []})
        mw.append({"kind": "iso", "disp": [5], "rot": [], "host": 0, "guest": 0, "frac": "0", "rule": ""})
        self.kinds = kinds
        self.rule = rule
        none = {"kind": "layer", "mat": 1, "d": "1", "div": 1, "angle": "0", "kids": [], "n": 1}
        self.layer, lw = [], []
        for i in range(2):
            m, d = rng.randrange(4), rng.uniform(1, 150)
            self.layer.append(elli.Layer(self.mat[m], d))
            lw.append(dict(none, mat=m + 1, d=q(d)))
        m, d, a, div = rng.randrange(3), rng.uniform(5, 100), rng.uniform(-90, 90), rng.choice([1, 2, 3])
        if rng.random() < 0.4:
            self.layer.append(elli.TwistedLayer(self.mat[m], d, div, a))
            lw.append(dict(none, kind="twist", mat=m + 1, d=q(d), div=div, angle=q(a)))
        else:
            self.layer.append(elli.Layer(self.mat[m], d))
            lw.append(dict(none, mat=m + 1, d=q(d)))
        n = rng.choice([1, 2, 3])
        self.layer.append(elli.RepeatedLayers([self.layer[0], self.layer[1]], n))
        lw.append(dict(none, kind="rep", kids=[1, 2], n=n))
        ks = [rng.randrange(4) for _ in range(rng.choice([1, 2]))]
        back = rng.randrange(4)
        self.struct = elli.Structure(air, [self.layer[k] for k in ks], self.mat[back])
        self.lbda = self.waves()
        self.vec = rng.choice([["7/8", "1/2"], ["3/4", "-5/8"], ["1", "0", "1", "0"], ["1", "1/2", "-1/2", "1/2"]])
        th = rng.uniform(5, 75)
        self.exp = elli.Experiment(self.struct, self.lbda, th, [value(x) for x in self.vec])
        self.w = {"disp": dw, "mat": mw, "layer": lw, "struct": {"front": 5, "kids": [k + 1 for k in ks], "back": back + 1},
                  "exp": {"lbda": qs(np.asarray(self.lbda, float)), "theta": q(th), "vec": self.vec}}
        self.ev.append({"ev": "world", "w": copy.deepcopy(self.w), "tree": exp_tree(self.exp, self.vec)})

    def pickled(self, x):
        """through pickle; formula dispersions hold functions and can only be deep-copied"""
        return copy.deepcopy(x) if "Formula" in self.cls else pickle.loads(pickle.dumps(x))

    def waves(self):
        rng = self.rng
        top = 1000 if rng.random() < 0.15 else 840
        x = sorted(rng.uniform(360, top) for _ in range(rng.choice([1, 2, 3])))
        return rng.choice([list, np.array, tuple])(x)

    def set(self, op, f, *a):
        """a setter; often something that may depend on it is evaluated before and after, at the same wavelengths"""
        rng, probes = self.rng, []
        if rng.random() < 0.6:
            own = {"single": "disp", "reppar": "disp", "addrep": "disp", "disp": "mat", "rot": "mat", "frac": "mat", "pair": "mat",
                   "thick": "layer", "mat": "layer", "angle": "layer", "reps": "layer", "kids": "layer"}.get(op[0], "structure")
            chain = ["disp", "mat", "layer", "structure"]
            for what in chain[chain.index(own):]:
                if rng.random() < 0.5:
                    i = op[1] if what == own and what != "structure" else rng.randrange(1, 5)
                    probes.append((what, i, *self.pool[rng.randrange(len(self.pool))]))
        for pr in probes:
            self.part(*pr)
        _, err = call(f, *a)
        self.ev.append({"ev": "set", "op": op, "err": err, "tree": exp_tree(self.exp, self.vec)})
        for pr in probes:
            self.part(*pr)

    def own_vector(self, vec):
        """the experiment's own polarisation arrays, changed in place"""
        like = elli.Experiment(self.struct, 500.0, 45.0, [value(x) for x in vec])
        names = ("jones_vector", "stokes_vector")
        mine = [getattr(self.exp, n) for n in names]
        new = [getattr(like, n) for n in names]
        for m, v in zip(mine, new):
            if not (isinstance(m, np.ndarray) and isinstance(v, np.ndarray) and m.shape == v.shape and m.flags.writeable and np.can_cast(v.dtype, m.dtype)):
                return False

        def change():
            for m, v in zip(mine, new):
                m[...] = v
        self.set(["vec", list(vec)], change)
        return True

    def errs(self):
        return str(sorted(np.geterr().items()))

    def watch(self, f, *a):
        """an evaluation: what it gives, twice, and the error settings around it"""
        before = self.errs()
        v, e1 = call(f, *a)
        one = ["!" + e1] if e1 else None
        return v, one, before

    def some(self):
        """wavelengths to ask at: an array, and what is handed in"""
        rng = self.rng
        lb = np.array(sorted(rng.uniform(360, 840 if rng.random() < 0.8 else 1100) for _ in range(rng.choice([1, 3]))))
        return lb, lb if rng.random() < 0.8 else float(lb[0])

    def part(self, what, i, lb=None, give=None):
        if lb is None:
            lb, give = self.some() if self.rng.random() < 0.5 else self.pool[0]
        obj = {"disp": self.disp, "mat": self.mat, "layer": self.layer}[what][i - 1] if what != "structure" else self.struct
        tree = {"disp": disp_tree, "mat": mat_tree, "layer": layer_tree, "structure": struct_tree}[what]

        def ev(o, smash=False):
            if what == "disp":
                v = o.get_dielectric(give) if smash != 2 else o.get_refractive_index(give)
                out = flat(v)
            elif what == "mat":
                v = o.get_tensor(give)
                out = flat(v)
            else:
                v = o.get_permittivity_profile(lb)
                out = [x for d, t in v for x in [q(float(d))] + flat(t)]
                v = None
            if smash and isinstance(v, np.ndarray) and v.ndim and v.flags.writeable:
                v[...] = -17.0          # the caller's own array
            return out

        before = self.errs()
        arg = lb.copy()
        obs, e = call(ev, obj, True)
        obs = ["!" + e] if e else obs
        mid = [self.errs()]
        again, e = call(ev, obj)
        again = ["!" + e] if e else again
        mid.append(self.errs())
        if not np.array_equal(arg, lb):
            again = ["!changed wavelengths"]
        t = tree(obj)
        np.seterr(**self.errset)
        fresh, e = call(lambda: ev({"disp": fresh_disp, "mat": fresh_mat, "layer": fresh_layer, "structure": fresh_struct}[what](t)))
        fresh = ["!" + e] if e else fresh
        np.seterr(**self.errset)
        self.ev.append({"ev": "part", "what": what, "i": i, "obs": obs, "again": again, "fresh": fresh, "tree": t, "errs": [before, mid[0] if mid[0] != before else mid[1]]})

    def evaluate(self):
        rng = self.rng
        t = exp_tree(self.exp, self.vec)

        def iso(x):
            if isinstance(x, list):
                return all(map(iso, x))
            return x not in ("uni", "bi", "twist")

        def rotated(x):
            return isinstance(x, list) and ((len(x) == 3 and x[0] == "iso" and x[2]) or any(map(rotated, x)))

        names = list(SOLVERS)[1:] + (["2x2", "2x2"] if iso(t) and not rotated(t) else [])
        kind = rng.choice(names)
        before = self.errs()

        def go(e):
            if kind == "expm" and rng.random() < 0.3 and self.vec == ["1", "0", "1", "0"]:
                return self.struct.evaluate(self.exp.lbda, self.exp.theta_i) if e is self.exp else SOLVERS[kind](e)
            return SOLVERS[kind](e)

        r, e1 = call(go, self.exp)
        a1 = about(r.experiment, self.vec) if r is not None else []
        obs = ["!" + e1] if e1 else look(r)
        mid = [self.errs()]
        r2, e2 = call(go, self.exp)
        again = ["!" + e2] if e2 else look(r2)
        mid.append(self.errs())
        t = exp_tree(self.exp, self.vec)
        np.seterr(**self.errset)
        # (eigenvectors of layers that are nearly isotropic are ill-conditioned: only compared with themselves)
        r3, e3 = call(lambda: SOLVERS[kind](fresh_exp(t))) if kind != "eig" else (r, e1)
        fresh = ["!" + e3] if e3 else look(r3)
        if kind != "eig" and fresh != obs and not e3:
            def nudge():
                x = fresh_exp(t)
                x.set_theta(x.theta_i * (1 + 1e-12))
                return look(SOLVERS[kind](x))
            nudged, e4 = call(nudge)
            if not e4:
                fresh = settled(obs, fresh, nudged)
        np.seterr(**self.errset)
        self.results.append((r, list(self.vec)))
        self.ev.append({"ev": "evaluate", "solver": kind, "obs": obs, "again": again, "fresh": fresh, "tree": t, "failed": bool(e1), "about": a1,
                        "errs": [before, mid[0] if mid[0] != before else mid[1]]})

    def reread(self, k, copied):
        r, vec = self.results[k]
        if r is None:
            return
        if copied == 1:
            r = copy.deepcopy(r)
        elif copied == 2:
            r = self.pickled(r)
        self.ev.append({"ev": "reread", "r": k + 1, "obs": look(r), "about": about(r.experiment, vec)})

    def step(self, s):
        rng, w = self.rng, self.w
        k = s[0]
        if k in ("single", "reppar", "addrep"):
            i = s[1] - 1
            d, cls = self.disp[i], self.cls[i]
            single, reps = draw(rng, cls)
            if k == "single":
                names = [n for n in d.single_params if n in single and cls not in ("Table", "TableEpsilon")]
                if not names:
                    return
                n = rng.choice(names)
                v = single[n]
                self.set(["single", i + 1, n, text(v)], d.single_params.__setitem__, n, v)
            elif not reps or cls in ("Table", "TableEpsilon"):
                return
            elif k == "addrep":
                if len(d.rep_params) > 5:
                    return
                self.set(["addrep", i + 1, [[n, text(reps[0][n])] for n in sorted(reps[0])]], lambda: d.add(**reps[0]))
            elif d.rep_params:
                j = rng.randrange(len(d.rep_params))
                n = rng.choice(list(reps[0]))
                self.set(["reppar", i + 1, j + 1, n, text(reps[0][n])], d.rep_params[j].__setitem__, n, reps[0][n])
        elif k == "disp":
            i = (s[1] - 1) % 3
            ids = [(s[2] + x * s[3]) % 4 for x in range({"iso": 1, "uni": 2, "bi": 3}[self.kinds[i]])]
            self.set(["disp", i + 1, [x + 1 for x in ids]], self.mat[i].set_dispersion, *[self.disp[x] for x in ids])
        elif k == "rot":
            i = (s[1] - 1) % 3
            R = rng.choice([lambda: elli.rotation_euler(*[rng.uniform(-180, 180) for _ in range(3)]), lambda: elli.rotation_v_theta(unit([1, 2, rng.uniform(-1, 1)]), rng.uniform(-180, 180))])()
            self.set(["rot", i + 1, qs(np.asarray(R).ravel())], self.mat[i].set_rotation, R)
        elif k == "frac":
            f = rng.choice([0.0, 1.0, rng.uniform(0, 1), rng.uniform(0, 1)])
            self.set(["frac", 4, q(f)], self.mat[3].set_fraction, f)
        elif k == "pair":
            h, g = (s[1] - 1) % 3, (s[2] - 1) % 3
            self.set(["pair", 4, h + 1, g + 1], self.mat[3].set_constituents, self.mat[h], self.mat[g])
        elif k == "thick":
            i, d = (s[1] - 1) % 3, rng.choice([0.0, rng.uniform(0, 200)])
            self.set(["thick", i + 1, q(d)], self.layer[i].set_thickness, d)
        elif k == "mat":
            i, m = (s[1] - 1) % 3, s[2] - 1
            if i == 2 and isinstance(self.layer[2], elli.TwistedLayer):
                if rng.random() < 0.5:
                    a = rng.uniform(-120, 120)
                    self.set(["angle", 3, q(a)], self.layer[2].set_angle, a)
                    return
                m = m % 3
            self.set(["mat", i + 1, m + 1], self.layer[i].set_material, self.mat[m])
        elif k == "reps":
            if rng.random() < 0.5:
                self.set(["reps", 4, s[1]], self.layer[3].set_repetitions, s[1])
            else:
                ks = [rng.randrange(3) for _ in range(rng.choice([1, 2, 3]))]
                self.set(["kids", 4, [x + 1 for x in ks]], self.layer[3].set_layers, [self.layer[x] for x in ks])
        elif k == "layers":
            ks = [s[1] - 1, s[2] - 1][: rng.choice([1, 2])]
            self.set(["layers", [x + 1 for x in ks]], self.struct.set_layers, [self.layer[x] for x in ks])
        elif k == "back":
            self.set(["back", s[1]], self.struct.set_back_material, self.mat[s[1] - 1])
        elif k == "theta":
            t = rng.uniform(1, 80)
            self.set(["theta", q(t)], self.exp.set_theta, t)
        elif k == "lbda":
            own = self.exp.lbda
            if rng.random() < 0.4 and isinstance(own, np.ndarray) and own.flags.writeable:
                # the experiment's own array, changed in place
                new = np.array(sorted(rng.uniform(360, 840) for _ in own))
                self.lbda = None
                self.set(["lbda", qs(new)], own.__setitem__, Ellipsis, new)
                return
            self.lbda = self.waves()
            self.set(["lbda", qs(np.asarray(self.lbda, float))], self.exp.set_lbda, self.lbda)
        elif k == "vec":
            self.vec = rng.choice([["1/4", "1"], ["1", "1"], ["1", "0", "1", "0"], ["2", "-1/2", "1/2", "1"]])
            if rng.random() < 0.5 and self.own_vector(self.vec):
                return
            self.set(["vec", list(self.vec)], self.exp.set_vector, [value(x) for x in self.vec])
        elif k == "spoil":
            if isinstance(self.lbda, np.ndarray):
                self.lbda *= 1.25
            elif isinstance(self.lbda, list):
                self.lbda[0] = 444.0
                self.lbda.append(555.0)
            self.ev.append({"ev": "spoil", "tree": exp_tree(self.exp, self.vec)})
        elif k == "part":
            self.part(["disp", "mat", "layer", "structure"][s[2] - 1], s[1])
        elif k == "fork":
            if s[1] <= 4 or not self.forks:
                how = rng.choice([copy.deepcopy, self.pickled])
                f, err = call(how, self.struct)
                self.ev.append({"ev": "fork", "err": err})
                self.forks.append(f)
            else:
                self.evalfork()
        elif k == "evaluate":
            self.evaluate()
        elif k == "reread" and self.results:
            self.reread(rng.randrange(len(self.results)), rng.randrange(4))

    def evalfork(self):
        n = self.rng.randrange(len(self.forks))
        if self.forks[n] is None:
            return
        before = self.errs()
        lb = np.array([400.0, 633.0])
        r, e1 = call(lambda: self.forks[n].evaluate(lb, 55.0))
        obs = ["!" + e1] if e1 else look(r)
        after = self.errs()
        t = struct_tree(self.forks[n])
        np.seterr(**self.errset)
        r, e = call(lambda: fresh_struct(t).evaluate(lb, 55.0))
        fresh = ["!" + e] if e else look(r)
        if fresh != obs and not e:
            nudged, e4 = call(lambda: look(fresh_struct(t).evaluate(lb, 55.0 * (1 + 1e-12))))
            if not e4:
                fresh = settled(obs, fresh, nudged)
        np.seterr(**self.errset)
        self.ev.append({"ev": "evalfork", "n": n + 1, "obs": obs, "fresh": fresh, "tree": t, "errs": [before, after]})


def drive(a, rng, rec):
    old = np.geterr()
    for n, b in enumerate(a.beh):
        w = World(rng)
        for s in b:
            w.step(s)
        if w.forks:
            w.evalfork()
        w.evaluate()
        for k in range(len(w.results)):
            w.reread(k, 0)
        rec.case(f"world-{n}", w.ev)
    np.seterr(**old)


if __name__ == "__main__":
    main(drive)

"""P05: layer containers under histories of setter calls."""
import math

import numpy as np

import elli
from elli.structure import AbstractLayer
from rec import call, main, q, qs
from stacklib import elli_rot, eps_mat, rand_eps, rand_rot, rec_rot

MODS = {
    "id": lambda x: x,
    "sq": lambda x: x**2,
    "rev": lambda x: 1 - x,
    "half": lambda x: 0.5,
    "step": lambda x: 0 if x < 0.5 else 1,
    "cos": lambda x: (1 - math.cos(math.pi * x)) / 2,
}
NOROT = {"kind": "none", "v": []}


def num(s):
    """number of a behaviour: string -> python number"""
    from fractions import Fraction

    if isinstance(s, str):
        f = Fraction(s)
        return int(f) if f.denominator == 1 else float(f)
    return s


class Given(elli.Material):
    """material class of a user whose tensor has all nine components"""

    def __init__(self, full):
        self.full = np.array(full, complex)

    def get_tensor(self, lbda):
        return np.array([self.full] * np.size(lbda))


class World:
    def __init__(self, lam):
        self.lam, self.lams = lam, [lam, lam * 1.25]
        self.diag, self.rot = {}, {}
        self.mats, self.objs, self.ev = {}, {}, [{"ev": "case"}]

    def tensor(self, id, diag, rot, form=None):
        self.diag[id] = [diag, diag if len(set(diag)) == 2 else [x * 1.125 for x in diag]]
        self.rot[id] = rot
        self.mats[id] = eps_mat(self.lams, np.array(self.diag[id]), rot, form=form)
        self.say(id)

    def full(self, id, eps):
        self.mats[id] = Given(eps)
        self.ev.append({"ev": "mat", "id": id, "m": {"kind": "full", "eps": [[q(complex(x)) for x in row] for row in eps]}})

    def say(self, id):
        diag, rot = self.diag[id][self.lams.index(self.lam)], self.rot[id]
        self.ev.append({"ev": "mat", "id": id, "m": {"kind": "tensor", "diag": [q(x) for x in diag], "rot": rec_rot(rot)}})

    def retune(self):
        """from now on at the other wavelength"""
        self.lam = self.lams[1 - self.lams.index(self.lam)]
        for id in self.diag:
            self.say(id)

    def turn(self, id, rot):
        """a material changes below the layers made of it"""
        self.rot[id] = rot
        self.mats[id].set_rotation(elli_rot(rot))
        self.say(id)

    def mixture(self, id, host, guest, f):
        self.mats[id] = elli.VCAMaterial(self.mats[host], self.mats[guest], f)
        self.ev.append({"ev": "mat", "id": id, "m": {"kind": "mix", "host": host, "guest": guest, "fraction": q(f)}})

    def any(self, id):
        return self.objs.get(id, self.mats.get(id, id))

    def make(self, id, kind, rec=True, **k):
        m = self.any
        if kind == "layer":
            f = lambda: elli.Layer(m(k["mat"]), k["d"])
        elif kind == "twist":
            f = lambda: elli.TwistedLayer(m(k["mat"]), k["d"], k["div"], k["angle"])
        elif kind == "vary":
            f = lambda: elli.VaryingMixtureLayer(m(k["mat"]), k["d"], k["div"], MODS[k["mod"]])
        elif kind == "rep":
            f = lambda: elli.RepeatedLayers([m(x) for x in k["kids"]], k["n"], k["before"], k["after"])
        else:
            f = lambda: elli.Structure(m(k["front"]), [m(x) for x in k["kids"]], m(k["back"]))
        o, err = call(f)
        if not err:
            self.objs[id] = o
        obj = dict(k, kind=kind)
        for n in ("d", "angle"):
            if n in obj:
                obj[n] = q(obj[n])
        self.ev.append({"ev": "make", "id": id, "obj": obj, "err": err})

    def reject(self, what, f):
        self.ev.append({"ev": "reject", "what": what, "err": call(f)[1]})

    def call(self, id, op, a, i=0):
        o = self.objs[id]
        if op == "set_fraction_modulation":
            args = [MODS[a[0]]]
        elif op == "set_layers":
            args = [[self.any(x) for x in a]]
        elif op == "bad_argument":
            name, args = self.bad(o, i)
            self.ev.append({"ev": "call", "id": id, "op": op, "a": [], "err": call(getattr(o, name), *args)[1]})
            return
        else:
            args = [num(x) for x in a]
        # keyword or positional
        self.ev.append({"ev": "call", "id": id, "op": op, "a": list(a), "err": call(getattr(o, op), *args)[1]})

    def bad(self, o, i):
        mat = next(iter(self.mats.values()))
        c = []
        if isinstance(o, (elli.RepeatedLayers, elli.Structure)):
            lay = elli.Layer(mat, 1)
            c += [("set_layers", [(lay, lay)]), ("set_layers", [lay]), ("set_layers", [[lay, None]]), ("set_layers", [[mat]]), ("set_layers", [None]),
                  ("set_layers", [[lay, lay, 3.0]])]
        if isinstance(o, elli.RepeatedLayers):
            c += [("set_repetitions", [None]), ("set_repetitions", ["2"]), ("set_repetitions", [2, "1"]), ("set_repetitions", [3, 1, None])]
        if isinstance(o, elli.Structure):
            c += [("set_front_material", [lay]), ("set_back_material", ["glass"]), ("set_front_material", [None]), ("set_back_material", [1.5])]
        if hasattr(o, "thickness"):
            c += [("set_material", [None]), ("set_material", [1.5]), ("set_material", [elli.Cauchy()]), ("set_thickness", [None]), ("set_thickness", ["5"])]
        if isinstance(o, elli.VaryingMixtureLayer):
            iso = [m for m in self.mats.values() if not isinstance(m, elli.MixtureMaterial)]
            c += [("set_material", [iso[0]])] * 3
        if hasattr(o, "div"):
            c += [("set_divisions", [None]), ("set_divisions", ["3"])]
        return c[i % len(c)]

    def profile(self, id):
        p, err = call(lambda: self.objs[id].get_permittivity_profile(np.array([self.lam])))
        sl = []
        if not err:
            try:
                sl = [{"d": q(d), "eps": qs(np.broadcast_to(np.asarray(e), (1, 3, 3))[0])} for d, e in p]
            except Exception as x:  # noqa: BLE001
                err = type(x).__name__
        self.ev.append({"ev": "profile", "id": id, "err": err, "slices": sl})

    def tensor_at(self, id, z):
        e, err = call(lambda: qs(self.objs[id].get_tensor(z, np.array([self.lam]))[0]))
        self.ev.append({"ev": "tensor", "id": id, "z": q(z), "eps": e or [], "err": err})

    def cuts(self, id):
        z, err = call(lambda: qs(self.objs[id].get_slices()))
        self.ev.append({"ev": "cuts", "id": id, "z": z or []})

    def evaluate(self, id, theta):
        r, err = call(lambda: self.objs[id].evaluate(self.lam, theta))
        self.ev.append({"ev": "evaluate", "id": id, "theta": q(theta), "lbda": q(self.lam)})
        e = {"ev": "answer", "id": id, "err": err, "r": [], "t": []}
        if not err:
            e["r"], e["t"] = qs(r.jones_matrix_r[0]), qs(r.jones_matrix_t[0])
        self.ev.append(e)


def base(w, rng):
    w.tensor("A", [rng.uniform(2, 4), rng.uniform(2, 4), rng.uniform(2, 4)], {"kind": "euler", "v": [rng.uniform(0, 360), rng.uniform(0, 180), 20]}, form="bi")
    w.tensor("B", [complex(4.1, 0.3)] * 3, NOROT)
    w.tensor("M1", [2.2, 2.2, 3.1], rand_rot(rng), form="uni")
    w.mixture("M", "M1", "B", 0.37)
    w.tensor("F", [1.69] * 3, NOROT)


def run(a, rng, rec):
    for bi, b in enumerate(a.beh):
        w = World(rng.uniform(300, 900))
        base(w, rng)
        w.make("l1", "layer", mat="A", d=10)
        w.make("l2", "layer", mat="B", d=25)
        w.make("t", "twist", mat="A", d=30, div=3, angle=90)
        w.make("v", "vary", mat="M", d=8, div=2, mod="id")
        w.make("r1", "rep", kids=["l1", "l2"], n=2, before=1, after=0)
        w.make("r2", "rep", kids=["r1", "t"], n=1, before=0, after=2)
        w.make("s", "stack", front="F", kids=["l1", "r2", "v"], back="B")
        w.profile("s")
        for i, (o, op, args) in enumerate(b):
            w.call(o, op, args, i=bi + i)
            w.profile(o)
            if i % 2:
                w.profile("s")
                w.profile("r2")
        w.evaluate("s", rng.choice([0, 40.0, 65]))
        rec.case(f"beh{bi}", w.ev)

    for c in range(900 if a.thorough else 110):
        w = World(rng.uniform(300, 1500))
        mats = []
        for i in range(3):
            k = rng.choice(["diel", "diel", "weak"])
            sym = rng.choice([1, 2, 3])
            v = [rand_eps(rng, k) for _ in range(sym)]
            v = (v * 3)[:3] if sym != 2 else [v[0], v[0], v[1]]
            w.tensor(f"m{i}", v, rand_rot(rng))
            mats.append(f"m{i}")
        if rng.random() < 0.4:    # magnetised, or otherwise not symmetric
            e = np.array([[rng.uniform(-0.5, 0.5) + 1j * rng.uniform(-0.5, 0.5) for _ in range(3)] for _ in range(3)])
            w.full("g", np.diag([rng.uniform(2, 6) for _ in range(3)]) + (e + e.conj().T) / 2 * rng.choice([1, 1, 0.1]))
            mats.append("g")
        w.mixture("x0", "m0", "m1", rng.random())
        w.mixture("x1", "x0", "m2", rng.choice([0, 1, rng.random()]))
        w.tensor("f", [rng.uniform(1, 3)] * 3, NOROT)
        w.tensor("b", [complex(rng.uniform(1, 9), rng.choice([0, 1.0]))] * 3, NOROT)
        mix, turnable, mats = ["x0", "x1"], mats[:3], mats + ["x0", "x1"]
        thick = lambda: rng.choice([0, 0.0, rng.uniform(0.1, 5), rng.uniform(5, 40), rng.uniform(5, 40), 7])
        low = []
        for i in range(rng.choice([2, 3, 4])):
            k = rng.choice(["layer", "layer", "twist", "vary"])
            id = f"l{i}"
            if k == "layer":
                w.make(id, k, mat=rng.choice(mats), d=thick())
            elif k == "twist":
                w.make(id, k, mat=rng.choice(mats), d=thick(), div=rng.choice([1, 2, 3, 5, 5, 55 if c % 12 == 0 else 6]), angle=rng.choice([90, -180, 0, rng.uniform(-400, 400)]))
            else:
                w.make(id, k, mat=rng.choice(mix), d=thick(), div=rng.choice([1, 2, 4, 4, 60 if c % 12 == 1 else 8]), mod=rng.choice(sorted(MODS)))
            low.append((id, k))
        reps, pool = [], [i for i, _ in low]
        for i in range(rng.choice([1, 1, 2])):
            id = f"r{i}"
            w.make(id, "rep", kids=[rng.choice(pool) for _ in range(rng.choice([1, 2, 3]))], n=rng.choice([1, 2, 3]),
                   before=rng.choice([0, 0, 1, 2, 7]), after=rng.choice([0, 0, 1, 2, 7]))
            reps.append(id)
            pool.append(id)
        w.make("s", "stack", front="f", kids=[rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 3]))], back="b")
        # constructors out of the domain
        bad = [
            lambda: w.make("z", "layer", mat="m0", d=rng.choice([-1, -1e-9])),
            lambda: w.make("z", "twist", mat="m0", d=-3.0, div=2, angle=10),
            lambda: w.make("z", "twist", mat="m0", d=3.0, div=rng.choice([0, -1]), angle=10),
            lambda: w.make("z", "vary", mat="x0", d=3.0, div=0, mod="id"),
            lambda: w.make("z", "vary", mat="x0", d=-0.5, div=2, mod="id"),
            lambda: w.make("z", "rep", kids=["l0"], n=rng.choice([0, -2]), before=0, after=0),
            lambda: w.make("z", "rep", kids=["l0"], n=1, before=-1, after=0),
            lambda: w.make("z", "rep", kids=["l0"], n=1, before=0, after=-1),
            lambda: w.make("z", "rep", kids=["l0", "m0"], n=1, before=0, after=0),
            lambda: w.make("z", "stack", front="f", kids=["l0", "nothing"], back="b"),
            lambda: w.reject("Layer-of-dispersion", lambda: elli.Layer(elli.Cauchy(), 5)),
            lambda: w.reject("Layer-of-number", lambda: elli.Layer(1.5, 5)),
            lambda: w.reject("Twisted-of-layer", lambda: elli.TwistedLayer(w.objs["l0"], 5, 2, 10)),
            lambda: w.reject("Varying-of-plain", lambda: elli.VaryingMixtureLayer(w.mats["m0"], 5, 2)),
            lambda: w.reject("Repeated-of-tuple", lambda: elli.RepeatedLayers((w.objs["l0"],), 2)),
            lambda: w.reject("Repeated-of-layer", lambda: elli.RepeatedLayers(w.objs["l0"], 2)),
            lambda: w.reject("Structure-of-tuple", lambda: elli.Structure(w.mats["f"], (w.objs["l0"],), w.mats["b"])),
            lambda: w.reject("Structure-front", lambda: elli.Structure(w.objs["l0"], [], w.mats["b"])),
            lambda: w.reject("Structure-back", lambda: elli.Structure(w.mats["f"], [], None)),
        ]
        for f in rng.sample(bad, 4):
            f()
        w.profile("s")
        for i in range(rng.choice([2, 5, 8])):
            id, k = rng.choice(low + [(r, "rep") for r in reps] + [("s", "stack")])
            if rng.random() < 0.3:
                w.retune()
                w.profile(rng.choice(pool + ["s"]))
            if rng.random() < 0.2:
                w.turn(rng.choice(turnable), rng.choice([x for x in (rand_rot(rng) for _ in range(20)) if x["kind"] != "none"]))
                w.profile("s")
            if rng.random() < 0.15:
                w.call(id, "bad_argument", [], i=rng.randrange(1000))
            elif k == "stack":
                w.call(id, "set_layers", [rng.choice(pool + ["nothing"] * (rng.random() < 0.2)) for _ in range(rng.choice([0, 1, 2]))])
            elif k == "rep":
                if rng.random() < 0.6:
                    w.call(id, "set_repetitions", [rng.choice([1, 2, 3, 0, -1]), rng.choice([0, 1, 3, -1]), rng.choice([0, 1, 3, -1])])
                else:
                    ok = [x for x in pool if x < id and x != id] if id != "r0" else [x for x, _ in low]
                    ok = [x for x in ok if x not in reps or reps.index(x) < reps.index(id)]
                    w.call(id, "set_layers", [rng.choice(ok) for _ in range(rng.choice([1, 2]))])
            else:
                op = rng.choice({"layer": ["set_thickness"], "twist": ["set_thickness", "set_divisions", "set_angle"],
                                 "vary": ["set_thickness", "set_divisions", "set_fraction_modulation"]}[k])
                v = {"set_thickness": lambda: rng.choice(["0", "3/8", "21/2", "-1", "-1/1000000", "30"]),
                     "set_divisions": lambda: rng.choice([1, 2, 6, 0, -1]),
                     "set_angle": lambda: rng.choice(["30", "-725/2", "0"]),
                     "set_fraction_modulation": lambda: rng.choice(sorted(MODS))}[op]()
                w.call(id, op, [v])
            w.profile(id)
        w.profile("s")
        for id, k in low:
            o = w.objs[id]
            if k != "layer" and isinstance(o, AbstractLayer):
                w.cuts(id)
                if o.thickness > 0:
                    w.tensor_at(id, rng.choice([0.0, 1.0, rng.random()]) * o.thickness)
        if c % 2 == 0:
            w.evaluate("s", rng.uniform(0, 80))
        rec.case(f"rnd{c}", w.ev)


if __name__ == "__main__":
    main(run)

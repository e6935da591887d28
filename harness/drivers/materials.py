"""P14, P15: materials, their rotations and mixtures."""
import numpy as np

import elli
from displib import INDEX, MODELS, rand_model, rand_table, u
from rec import call, main, q, qs
from stacklib import elli_rot, rand_rot, rec_rot

CLS = {"iso": elli.IsotropicMaterial, "uni": elli.UniaxialMaterial, "bi": elli.BiaxialMaterial}
MIX = {"vca": elli.VCAMaterial, "looyenga": elli.LooyengaEMA, "mg": elli.MaxwellGarnettEMA, "bruggeman": elli.BruggemanEMA}
SMOOTH = [m for m in MODELS if m not in ("CodyLorentz", "Tanguy", "TaucLorentz", "DrudeEnergy", "DrudeResistivity")]


def disp(rng, meet=None):
    """a dispersion and its description; those that meet have the same value at one wavelength"""
    c = rng.random()
    if meet and c < 0.85:
        x, y = [meet[0], 1100.0], [meet[1], complex(rng.uniform(1, 4), rng.choice([0, rng.uniform(0, 2)]))]
        if meet[2]:
            return elli.Table(lbda=np.array(x), n=np.array(y)), {"cls": "Table", "x": [q(v) for v in x], "y": [q(v) for v in y]}
        return elli.TableEpsilon(lbda=np.array(x), epsilon=np.array(y)), {"cls": "TableEpsilon", "x": [q(v) for v in x], "y": [q(v) for v in y]}
    if c < 0.25:
        return rand_table(rng)
    if c < 0.55:
        e = rng.choice([rng.uniform(1, 12), complex(rng.uniform(-20, 12), 10 ** rng.uniform(-4, 1)), -rng.uniform(0.5, 20), 1, complex(-4, 0.0)])
        return elli.EpsilonInf(eps=e), {"cls": "EpsilonInf", "single": {"eps": q(e)}, "rep": []}
    return rand_model(rng, rng.choice(SMOOTH))


def frac(f):
    n, _, d = f.partition("/")
    return float(n) / float(d or 1)


def tensor(m, w, f=None):
    v, err = call(lambda: m.get_tensor(w) if f is None else m.get_tensor_fraction(w, f))
    if not err:
        v, err = call(lambda: [[[q(complex(x)) for x in row] for row in t] for t in v])
    return v, err


class Session:
    def __init__(self, rng, prop):
        self.rng, self.prop = rng, prop
        self.disp, self.mat, self.kind = {}, {}, {}
        self.meet, self.last, self.desc = None, None, {}
        self.out = [{"ev": "case"}]

    def add_disp(self, i, o, d):
        self.disp[i] = o
        self.desc[i] = d
        self.out.append({"ev": "disp", "id": i, "d": d})

    def arg(self, x):
        if x in self.disp:
            return self.disp[x]
        return self.rng.choice([1.5, None, "SiO2", np.array([1.0, 2.0]), elli.EpsilonInf(eps=2).get_mat()])

    def mat_arg(self, x):
        if x in self.mat:
            return self.mat[x]
        return self.rng.choice([1.5, None, "Si", elli.EpsilonInf(eps=2)])

    def new(self, i, kind, args):
        m, err = call(CLS[kind], *[self.arg(x) for x in args])
        if not err and kind == "iso" and self.rng.random() < 0.3:
            m = self.disp[args[0]].get_mat()
        if not err:
            self.mat[i], self.kind[i] = m, kind
        self.out.append({"ev": "new", "id": i, "kind": kind, "args": args, "err": err})

    def mix(self, i, rule, host, guest, f):
        x = frac(f)
        m, err = call(MIX[rule], self.mat_arg(host), self.mat_arg(guest), x)
        if not err:
            self.mat[i], self.kind[i] = m, rule
        self.out.append({"ev": "mix", "id": i, "rule": rule, "host": host, "guest": guest, "f": q(x), "err": err})

    def step(self, e):
        o = dict(e, ev=e["op"])
        i, op = e["id"], e["op"]
        if op == "new":
            return self.new(i, e["kind"], e["args"])
        if op == "mix":
            return self.mix(i, e["rule"], e["host"], e["guest"], e["f"])
        if i not in self.mat:
            return
        m = self.mat[i]
        if op == "setdisp":
            _, o["err"] = call(m.set_dispersion, *[self.arg(x) for x in e["args"]])
        elif op == "setrot":
            rot = rand_rot(self.rng) if self.rng.random() < 0.7 else {"kind": e["rot"]["kind"], "v": [frac(str(x)) for x in e["rot"]["a"]]}
            if rot["kind"] == "none":
                rot = {"kind": "euler", "v": [0.0, 0.0, 0.0]}
            _, o["err"] = call(lambda: m.set_rotation(elli_rot(rot)))
            o["rot"] = rec_rot(rot)
        elif op == "setfrac":
            x = frac(e["f"])
            _, o["err"] = call(m.set_fraction, x)
            o["f"] = q(x)
        elif op == "setpair":
            _, o["err"] = call(m.set_constituents, self.mat_arg(e["host"]), self.mat_arg(e["guest"]))
        self.out.append(o)

    def tweak(self):
        """a dispersion changed in place, the wavelengths asked for as before"""
        rng = self.rng
        ids = [i for i in sorted(self.disp) if i in self.desc and "single" in self.desc[i]]
        if not ids:
            return
        i = rng.choice(ids)
        d = self.disp[i]
        if type(d).__name__ == "EpsilonInf":
            new = elli.EpsilonInf(eps=complex(rng.uniform(-10, 12), 10 ** rng.uniform(-4, 1)))
            about = {"cls": "EpsilonInf", "single": {"eps": q(new.single_params["eps"])}, "rep": []}
        else:
            new, about = rand_model(rng, self.desc[i]["cls"])
        d.single_params.update(new.single_params)
        d.rep_params[:] = new.rep_params
        self.desc[i] = about
        self.out.append({"ev": "disp", "id": i, "d": about})
        self.ask(extra=False, again=True)

    def ask(self, extra=True, again=False):
        rng = self.rng
        w = [rng.uniform(320, 1000) for _ in range(rng.choice([1, 1, 2]))]
        if self.meet:
            w = [rng.uniform(self.meet[0], 1000) for _ in range(rng.choice([0, 1, 2]))]
            w.insert(0 if rng.random() < 0.7 else rng.randrange(len(w) + 1), self.meet[0])
        if again and self.last:
            w = self.last
        self.last = w
        arg = w[0] if len(w) == 1 and rng.random() < 0.5 else np.array(w)
        v, err = {}, {}
        for i in rng.sample(sorted(self.mat), len(self.mat)):
            v[i], err[i] = tensor(self.mat[i], arg)
            v[i] = v[i] or []
        if not self.mat:
            return
        self.out.append({"ev": "ask", "w": [q(x) for x in w], "v": v, "err": err})
        if any(err.values()) or not extra:
            return
        mix = [i for i in self.mat if self.kind[i] in MIX]
        if mix:
            i = rng.choice(sorted(mix))
            f = rng.choice([0.0, 1.0, rng.random(), rng.random(), 10 ** rng.uniform(-9, -2), 1 - 10 ** rng.uniform(-9, -2)])
            t, e = tensor(self.mat[i], arg, f)
            self.out.append({"ev": "askf", "id": i, "f": q(f), "v": t or [], "err": e})
            # overriding the fraction leaves the one set in force
            self.ask(extra=False)
        i = rng.choice(sorted(self.mat))
        t, e = call(lambda: [[[q(complex(x)) for x in row] for row in t] for t in self.mat[i].get_refractive_index(np.array([float(x) for x in w]))])
        self.out.append({"ev": "index", "id": i, "v": t or [], "err": e} if not mix else {"ev": "index", "id": i, "v": self.index(i), "err": e})

    def index(self, i):
        w = [float(eval_q(x)) for x in [e for e in self.out if e["ev"] == "ask"][-1]["w"]]
        t, _ = call(lambda: [[[q(complex(x)) for x in row] for row in t] for t in self.mat[i].get_refractive_index(np.array(w))])
        return t or []


def eval_q(s):
    from fractions import Fraction

    return float(Fraction(s))


def replay(rng, prop, beh):
    s = Session(rng, prop)
    if prop == "P14" and rng.random() < 0.4:
        s.meet = (float(rng.randrange(330, 700)), complex(rng.uniform(1, 4), rng.choice([0, rng.uniform(0, 2)])), rng.random() < 0.5)
    for i in ("d1", "d2", "d3", "d4"):
        s.add_disp(i, *disp(rng, s.meet))
    for e in beh:
        s.step(e)
        if rng.random() < 0.35:
            s.ask(again=rng.random() < 0.4)
            if rng.random() < 0.4:
                s.tweak()
    s.ask()
    return s.out


SPECIAL = [0, 1, -1, -2, -0.5, 4, 1e-6, 1e4, complex(-3, 1e-3), complex(0, 1), complex(2, 2), complex(-15, 0.4), complex(1, 1e-9), -12.0, complex(-2, 1e-12)]


def value(rng):
    c = rng.random()
    if c < 0.45:
        return complex(rng.choice(SPECIAL))
    if c < 0.6:
        return complex(rng.uniform(-30, 30))
    return complex(rng.uniform(-30, 30), 10 ** rng.uniform(-6, 1.5))


def mixing(rng, prop):
    """constants of every kind, several fractions"""
    s = Session(rng, prop)
    for i in range(6):
        v = value(rng)
        s.add_disp(f"d{i}", elli.EpsilonInf(eps=v if v.imag else v.real), {"cls": "EpsilonInf", "single": {"eps": q(v)}, "rep": []})
    s.new("a", "bi", ["d0", "d1", "d2"])
    s.new("b", "bi", ["d3", "d4", rng.choice(["d5", "d2"])])
    if rng.random() < 0.35:
        for m in rng.choice([["a"], ["b"], ["a", "b"]]):
            s.step({"op": "setrot", "id": m, "rot": {"kind": "euler", "a": [30, 40, 50]}})
    rule = rng.choice(list(MIX))
    if rng.random() < 0.3:    # on a resonance of spheres in the host
        v = complex(rng.choice([1, 2, -3, rng.uniform(-10, 10)]))
        for i, x in (("r0", v), ("r1", -2 * v)):
            s.add_disp(i, elli.EpsilonInf(eps=x if x.imag else x.real), {"cls": "EpsilonInf", "single": {"eps": q(x)}, "rep": []})
        s.step({"op": "setdisp", "id": "a", "args": ["r0", "d1", "d2"]})
        s.step({"op": "setdisp", "id": "b", "args": ["r1", "d4", "d5"]})
    s.mix("m", rule, "a", "b", q(rng.choice([0.0, 1.0, rng.random()])))
    s.ask()
    for f in [0.0, 1.0, 1 / 3, 2 / 3, rng.random(), 10 ** rng.uniform(-9, -2), 1 - 10 ** rng.uniform(-9, -2)]:
        s.step({"op": "setfrac", "id": "m", "f": q(f)})
        s.ask(extra=False)
    if rng.random() < 0.3:
        s.step({"op": "setpair", "id": "m", "host": rng.choice(["b", "bad"]), "guest": rng.choice(["a", "bad", "bad"])})
        s.ask()
    s.mix("k", rng.choice(list(MIX)), "m", rng.choice(["a", "b", "m"]), q(rng.random()))
    s.ask()
    return s.out


def rotations(rng):
    out = [{"ev": "case"}]
    for _ in range(12):
        rot = rand_rot(rng)
        if rot["kind"] == "none":
            rot = {"kind": "v", "v": [rng.choice([0.0, 1e-9, rng.gauss(0, 1e-5)]) for _ in range(3)]}
        c = rng.random()
        if c < 0.1:
            rot = {"kind": "vt", "v": [0.0, 0.6, 0.8, rng.choice([0, 180, 360, 720, -90])]}
        m, err = call(elli_rot, rot)
        if not err:
            m, err = call(lambda: qs(np.asarray(m)))
        out.append({"ev": "rotfn", "rot": rec_rot(rot), "m": m or [], "err": err})
    return out


def run(a, rng, rec):
    for i, b in enumerate(a.beh):
        rec.case(f"gen-{i}", replay(rng, a.prop, b))
    n = (40 if a.prop == "P15" else 10) * (12 if a.thorough else 1)
    for i in range(n if a.prop == "P15" else 0):
        rec.case(f"mixing-{i}", mixing(rng, a.prop))
    for i in range(n if a.prop == "P14" else 0):
        rec.case(f"rotations-{i}", rotations(rng))


if __name__ == "__main__":
    main(run)

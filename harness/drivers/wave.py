"""P06: every wavelength of a call is computed on its own."""
import numpy as np

import elli
from displib import MODELS, rand_model, rand_pseudo, rand_table, u
from rec import call, main, q
from stacklib import elli_rot, rand_rot


def flat(x):
    return [q(complex(v)) for v in np.asarray(x).reshape(-1)]


def alone_value(x):
    x = np.asarray(x)
    return flat(x[0]) if x.ndim and x.shape[0] == 1 else flat(x)


# ---- subjects ----------------------------------------------------------------------------------
# A wavelength and an index at which the dispersions of a subject meet, or None: whether something
# is equal, isotropic, lossless or zero at one wavelength says nothing about the others.
MEET = None


def meeting(rng, p=0.4):
    global MEET
    MEET = (rng.randrange(300, 1500), rng.choice([1.0, 1.5, u(rng, 1.5, 2.5)])) if rng.random() < p else None


def crossing(rng):
    w, n = MEET
    k = rng.choice([0.0, u(rng, 0, 0.2)])
    return elli.FormulaIndex("n = n0 + (b + 1j * k) * (x - w) / 1000", "x", {"n0": float(n), "b": u(rng, 0, 0.7), "k": k, "w": float(w)}, {}, "nm")


def formula(rng):
    k = rng.randrange(4)
    if k == 0:
        return elli.Formula("eps = 1 + sum[A * lbda**2 / (lbda**2 - B)]", "lbda", {}, {"A": [1.2, 0.3], "B": [0.01, 0.02]}, "micrometer")
    if k == 1:
        return elli.FormulaIndex("n = n0 + 1e4 * a / x ** 2", "x", {"n0": 1.5, "a": 0.7}, {}, rng.choice(["nm", None]))
    if k == 2:
        return elli.Formula("eps = e + sum[A / (E0**2 - E**2 - 1j*g*E)]", "E", {"e": 2.0},
                            {"A": [10.0, 3.0, 1.0], "E0": [5.1, 3.3, 7.2], "g": [0.2, 0.1, 0.3]}, "eV")
    return elli.Formula("eps = a*3", "lbda", {"a": 1.1}, {}, "nm")


def rand_disp(rng, eps_only=False, depth=1):
    k = rng.random()
    if MEET and rng.random() < 0.8:
        return crossing(rng)
    if k < 0.6:
        return rand_model(rng)[0]
    if k < 0.75:
        return rand_table(rng)[0]
    if k < 0.85:
        return formula(rng)
    a, b = rand_model(rng)[0], rand_model(rng)[0]
    if isinstance(a, elli.dispersions.base_dispersion.IndexDispersion) != isinstance(b, elli.dispersions.base_dispersion.IndexDispersion):
        a, b = (x if isinstance(x, elli.dispersions.base_dispersion.IndexDispersion) else x.as_index() for x in (a, b))
    return a + b + rng.choice([1, 0.5])


def rand_material(rng, depth=2):
    k = rng.choice(["iso", "uni", "bi", "rot", "vca", "looyenga", "mg", "bruggeman"] if depth else ["iso", "uni", "bi", "rot"])
    if k == "iso":
        return rand_disp(rng).get_mat()
    if k == "uni":
        return elli.UniaxialMaterial(rand_disp(rng), rand_disp(rng))
    if k == "bi":
        return elli.BiaxialMaterial(rand_disp(rng), rand_disp(rng), rand_disp(rng))
    if k == "rot":
        m = rng.choice([lambda: elli.UniaxialMaterial(rand_disp(rng), rand_disp(rng)),
                        lambda: elli.BiaxialMaterial(rand_disp(rng), rand_disp(rng), rand_disp(rng))])()
        r = rand_rot(rng)
        if r["kind"] != "none":
            m.set_rotation(elli_rot(r))
        return m
    cls = {"vca": elli.VCAMaterial, "looyenga": elli.LooyengaEMA, "mg": elli.MaxwellGarnettEMA, "bruggeman": elli.BruggemanEMA}[k]
    if k in ("mg", "bruggeman"):     # off-diagonal elements of rotated constituents have no such mixture
        mk = lambda: rand_disp(rng).get_mat()
        return cls(mk(), mk(), rng.choice([0.0, 1.0, rng.random()]))
    return cls(rand_material(rng, depth - 1), rand_material(rng, depth - 1), rng.choice([0, 1, rng.random()]))


def calm_mat(rng, aniso=True, layer=True):
    """material of moderate loss, so that a stack is well conditioned"""
    def disp():
        if MEET and rng.random() < 0.85:
            return crossing(rng)
        c = rng.choice(["Cauchy", "Sellmeier", "LorentzEnergy", "table", "formula", "const", "TaucLorentz"])
        if c == "Cauchy":
            return elli.Cauchy(n0=u(rng, 1.2, 2.2), n1=u(rng, 0, 100), n2=u(rng, 0, 20), k0=rng.choice([0, 0.01]))
        if c == "Sellmeier":
            return elli.Sellmeier().add(A=u(rng, 0.5, 3), B=u(rng, 0.001, 0.01))
        if c == "LorentzEnergy":
            return elli.LorentzEnergy().add(A=u(rng, 5, 30), E=u(rng, 6, 9), gamma=0.2) + 1
        if c == "table":
            x = np.array([100.0, 350, 600, 900, 2500])
            return elli.Table(lbda=x, n=np.array([u(rng, 1.2, 2.5) + 1j * u(rng, 0, 0.05) for _ in x]))
        if c == "formula":
            return elli.FormulaIndex("n = a + 1e4 * b / x ** 2", "x", {"a": u(rng, 1.2, 2), "b": u(rng, 0, 1)}, {}, "nm")
        if c == "TaucLorentz":
            return elli.TaucLorentz(Eg=4.5).add(A=60, E=7, C=1) + 1.5
        return elli.ConstantRefractiveIndex(n=u(rng, 1.1, 2.5))
    if not aniso or rng.random() < 0.4:
        return disp().get_mat()
    m = rng.choice([lambda: elli.UniaxialMaterial(disp(), disp()), lambda: elli.BiaxialMaterial(disp(), disp(), disp())])()
    r = rand_rot(rng)
    if r["kind"] != "none":
        m.set_rotation(elli_rot(r))
    if rng.random() < 0.25:
        return elli.VCAMaterial(m, disp().get_mat(), rng.random())
    return m


def rand_layer(rng, aniso, depth=1):
    k = rng.choice(["layer", "layer", "rep", "twist", "mix"] if depth else ["layer"])
    if k == "layer":
        return elli.Layer(calm_mat(rng, aniso), 80.0 if MEET and rng.random() < 0.7 else rng.choice([0, u(rng, 5, 300)]))
    if k == "rep":
        return elli.RepeatedLayers([rand_layer(rng, aniso, 0) for _ in range(rng.choice([1, 2]))], rng.choice([1, 2, 3]), rng.choice([0, 1]), rng.choice([0, 1]))
    if k == "twist" and aniso:
        return elli.TwistedLayer(calm_mat(rng, aniso), u(rng, 50, 500), div=rng.choice([3, 8]), angle=u(rng, 30, 180))
    mix = elli.VCAMaterial(calm_mat(rng, aniso), calm_mat(rng, aniso), 0.3)
    if not aniso:
        mix = rng.choice([elli.VCAMaterial, elli.LooyengaEMA, elli.BruggemanEMA, elli.MaxwellGarnettEMA])(calm_mat(rng, False), calm_mat(rng, False), 0.3)
    return elli.VaryingMixtureLayer(mix, u(rng, 20, 200), rng.choice([2, 5]))


def result_vec(res, t):
    n = None
    parts = []
    # angles of vanishing amplitudes mean nothing
    r = np.asarray(res.jones_matrix_r)
    big = np.min([np.abs(r[:, 0].sum(axis=1)), np.abs(r[:, 1].sum(axis=1)), np.abs(r[:, 1, 1])], axis=0)
    weight = np.minimum(1, big / 1e-3)[:, None]
    for name in ["jones_matrix_r", "R_matrix", "psi", "delta"] + (["jones_matrix_t", "T_matrix"] if t else []) :
        v = np.asarray(getattr(res, name))
        n = v.shape[0] if n is None else n
        if v.shape[0] != n:
            raise ValueError("leading axes differ")
        if name == "delta":
            v = np.exp(1j * np.deg2rad(v))
        v = v.reshape(n, -1)
        if name in ("psi", "delta"):
            v = np.where(weight < 1e-6, 0, weight * np.where(weight < 1e-6, 0, v))
        parts.append(v)
    return np.concatenate([p.astype(complex) for p in parts], axis=1)


def structure_subject(rng):
    aniso = rng.random() < 0.6
    front = elli.ConstantRefractiveIndex(n=rng.choice([1.0, 1.5])).get_mat()
    if rng.random() < 0.3:
        front = elli.Cauchy(n0=1.1, n1=50).get_mat()
    back = calm_mat(rng, aniso and rng.random() < 0.4)
    if rng.random() < 0.3:
        back = elli.Table(lbda=np.array([100.0, 2500.0]), n=np.array([1.2 + 3j, 2 + 6j])).get_mat()
    ls = [rand_layer(rng, aniso) for _ in range(rng.choice([0, 1, 2, 3]))]
    st = elli.Structure(front, ls, back)
    th = rng.choice([0, 30, 70.0, u(rng, 1, 85)])
    t = isinstance(back, elli.IsotropicMaterial)
    if not aniso and rng.random() < 0.5:
        label, kw = "solver2x2", dict(solver=elli.Solver2x2)
    else:
        label, kw = rng.choice([
            ("expm", dict(solver=elli.Solver4x4, propagator=elli.PropagatorExpm())),
            ("eig", dict(solver=elli.Solver4x4, propagator=elli.PropagatorEig())),
            ("scipy", dict(solver=elli.Solver4x4, propagator=elli.PropagatorExpm("scipy"))),
            ("torch", dict(solver=elli.Solver4x4, propagator=elli.PropagatorExpm("torch"))),
            ("default", {}),
        ])
        # (the linear propagator is pointwise, too)
        if rng.random() < 0.2:
            label, kw = "linear", dict(solver=elli.Solver4x4, propagator=elli.PropagatorLinear())
    return "evaluate-" + label, lambda w: result_vec(st.evaluate(w, th, **kw), t)


def tensor_vec(x):
    x = np.asarray(x)
    return x.reshape(x.shape[0], -1)


def ask(rec, rng, name, kind, f, strict, atol, rtol, lo=200, hi=2000, extra=()):
    ws = sorted(rng.sample(range(lo, hi), rng.choice([3, 4, 5])))
    if MEET and MEET[0] not in ws:
        ws = sorted(ws[:-1] + [MEET[0]])
    ev = [{"ev": "subject", "kind": kind, "strict": strict, "atol": atol, "rtol": rtol}]

    def value(v, n):
        v = np.asarray(v)
        if v.ndim == 0:
            return -1, [flat(v)]
        return int(v.shape[0]), [flat(e) for e in v]

    for w in ws:
        v, err = call(lambda: alone_value(f(float(w))))
        ev.append({"ev": "alone", "w": q(w), "err": err, "v": v or []})
    perm = ws[:]
    rng.shuffle(perm)
    if MEET and rng.random() < 0.7:
        perm.remove(MEET[0])
        perm.insert(0, MEET[0])
    rep = [rng.choice(ws) for _ in range(rng.choice([2, 4, 6]))]
    frac = None
    forms = [
        ("sorted", np.array(ws, float), ws),
        ("descending", np.array(ws[::-1], float), ws[::-1]),
        ("permuted", np.array(perm, float), perm),
        ("repeated", np.array(rep, float), rep),
        ("one", np.array([float(perm[0])]), [perm[0]]),
        ("int64", np.array(perm, np.int64), perm),
        ("int32", np.array(perm, np.int32), perm),
        ("float32", np.array(perm, np.float32), perm),
        ("list", [float(w) for w in perm], perm),
        ("intlist", list(perm), perm),
        ("strided", np.repeat(np.array(perm, float), 2)[::2], perm),
        ("scalar-int", int(perm[0]), [perm[0]]),
        ("scalar-np", np.float64(perm[0]), [perm[0]]),
        ("scalar-0d", np.array(float(perm[0])), [perm[0]]),
    ]
    ro = np.array(perm, float)
    ro.flags.writeable = False
    forms.append(("readonly", ro, perm))
    # ... and among many others, which are not looked at
    many = [rng.uniform(lo, hi) for _ in range(60)]
    at = rng.sample(range(60), len(perm))
    for i, w in zip(at, perm):
        many[i] = float(w)
    if rng.random() < 0.35:
        forms.append(("among-60", np.array(many), perm))
    keep = {"among-60", "sorted", "permuted", "repeated"} | set(rng.sample([n for n, _, _ in forms], 6))
    for form, arg, asked in forms:
        if form not in keep or (form == "float32" and kind.startswith("evaluate")):    # single precision is kept by a structure
            continue
        before = np.array(arg, copy=True)
        v, err = call(f, arg)
        if not err and form == "among-60":
            v, err = call(lambda: np.asarray(v)[at] if np.shape(v)[:1] == (60,) else v)
        if not err:
            v, err = call(value, v, len(asked))
        lead, v = v if v else (0, [])
        if form.startswith("scalar") and not err and lead == -1:
            lead = 1
        elif form.startswith("scalar") and not err and strict is False and lead == 1 and len(v) == 1:
            pass
        ev.append({"ev": "batch", "form": form, "ws": [q(w) for w in asked], "err": err, "lead": lead, "v": v})
        if not np.array_equal(before, np.asarray(arg)):
            ev.append({"ev": "batch", "form": form + "-argument-changed", "ws": [q(w) for w in asked], "err": "argument changed", "lead": 0, "v": []})
    rec.case(name, ev)


def run(a, rng, rec):
    m = 6 if a.thorough else 1
    n = 0
    for cls in MODELS:
        for i in range(4 * m if cls != "CodyLorentz" else 2 * m):
            d, _ = rand_model(rng, cls)
            f, kind = (d.get_dielectric, cls) if i % 2 == 0 else (d.get_refractive_index, cls + "-n")
            ask(rec, rng, f"disp-{cls}-{i}", kind, f, False, "1e-10", "1e-9")
    for i in range(10 * m):
        d = rand_table(rng)[0] if i % 3 else rand_pseudo(rng)[0]
        ask(rec, rng, f"table-{i}", type(d).__name__, d.get_dielectric if i % 2 else d.get_refractive_index, False, "1e-10", "1e-9")
    for i in range(10 * m):
        d = formula(rng)
        ask(rec, rng, f"formula-{i}", type(d).__name__, d.get_dielectric if i % 2 else d.get_refractive_index, False, "1e-10", "1e-9")
    for i in range(10 * m):
        d = rand_disp(rng)
        ask(rec, rng, f"disp-any-{i}", "dispersion", d.get_dielectric, False, "1e-10", "1e-9")
    for i in range(60 * m):
        meeting(rng)
        mat = rand_material(rng)
        g, kind = (mat.get_tensor, "tensor") if i % 3 else (mat.get_refractive_index, "index-tensor")
        ask(rec, rng, f"mat-{i}", kind + "-" + type(mat).__name__, lambda w: tensor_vec(g(w)), True, "1e-9" if i % 3 else "1e-6", "1e-8")     # roots of elements that vanish
    for i in range(30 * m):
        meeting(rng)
        lay = rand_layer(rng, True)
        ask(rec, rng, f"profile-{i}", "profile-" + type(lay).__name__,
            lambda w: np.concatenate([tensor_vec(e) for _, e in elli.Structure(elli.AIR, [lay], elli.AIR).get_permittivity_profile(w)], axis=1), True, "1e-9", "1e-8", 250)
    for i in range(110 * m):
        meeting(rng)
        kind, f = structure_subject(rng)
        ask(rec, rng, f"structure-{i}", kind, f, True, "1e-6", "1e-6", 250)


if __name__ == "__main__":
    main(run)

"""P04: every route to the same answer."""
import numpy as np

import elli
from ani import degenerate, diag_of
from rec import call, main, q
from stacklib import decay_ok, elli_rot, eps_mat, mats_obs, np_delta, np_tensor, rand_eps, rand_index, near, rand_lbda, rand_rot, rand_thickness, nk_mat

PROPS4 = [
    ("eig", lambda: dict(propagator=elli.PropagatorEig())),
    ("expm", lambda: dict(propagator=elli.PropagatorExpm())),
    ("expm-auto", lambda: dict(propagator=elli.PropagatorExpm(backend="automatic"))),
    ("torch", lambda: dict(propagator=elli.PropagatorExpm(backend="torch"))),
    ("scipy", lambda: dict(propagator=elli.PropagatorExpm("scipy"))),
]


def disp_of(rng, lbda, n):
    """one dispersion, in one of the ways to write the same index"""
    k = rng.randrange(4)
    if len(set(n.tolist())) == 1 and n[0].imag == 0:
        v = n[0].real
        return [elli.ConstantRefractiveIndex(n=v), elli.EpsilonInf(eps=v**2),
                elli.EpsilonInf(eps=v**2).as_index(), elli.Cauchy(n0=v, n1=0, n2=0)][k]
    order = np.argsort(lbda)
    x, y = np.asarray(lbda, float)[order], n[order]
    if len(x) == 1:
        x, y = np.array([x[0] - 5, x[0], x[0] + 5]), np.array([y[0]] * 3)
    if k % 2:
        return elli.Table(lbda=x, n=y)
    return elli.TableEpsilon(lbda=x, epsilon=y**2)


def same_medium(rng, lbda, n, mixtures=True):
    """(label, material): the isotropic medium n in another description"""
    d = lambda: disp_of(rng, lbda, n)
    k = rng.choice(["iso", "uni", "bi", "rot-uni", "rot-bi", "rot-iso"] + (["vca", "looyenga", "mg", "bruggeman"] if mixtures else []))
    one = d()
    if k == "iso":
        return k, elli.IsotropicMaterial(d())
    if k == "uni":
        return k, elli.UniaxialMaterial(one, one)
    if k == "bi":
        return k, elli.BiaxialMaterial(d(), d(), d())
    if k.startswith("rot"):
        m = {"rot-uni": elli.UniaxialMaterial(d(), d()), "rot-bi": elli.BiaxialMaterial(d(), d(), d()), "rot-iso": one.get_mat()}[k]
        m.set_rotation(elli_rot({"kind": "euler", "v": [rng.uniform(0, 360), rng.uniform(0, 180), rng.uniform(0, 360)]}))
        return k, m
    m = one.get_mat()
    cls = {"vca": elli.VCAMaterial, "looyenga": elli.LooyengaEMA, "mg": elli.MaxwellGarnettEMA, "bruggeman": elli.BruggemanEMA}[k]
    return k, cls(m, m, rng.choice([0, 1, 0.5, rng.random()]))


def answer(by, res, err, what, i, nw):
    o = mats_obs(by, res, err, i, nw)
    if not o["err"]:
        for name in ("R", "T") if what == "rt" else ():
            v, o["err"] = call(lambda: [[q(float(x)) for x in row] for row in np.asarray(getattr(res, name + "_matrix"))[i]])
            o[name] = v or []
    return o


def emit(rec, name, nw, answers):
    """answers: (by, result, err, what) ; the first is the reference"""
    for i in range(nw):
        rec.case(f"{name}#{i}", [{"ev": "ask"}] + [
            {"ev": "answer", "what": what, "obs": answer(by, res, err, what, i, nw)} for by, res, err, what in answers])


def isotropic(a, rng, rec, c):
    nw = rng.choice([1, 2, 3])
    lbda = sorted(rand_lbda(rng) for _ in range(nw))
    theta = rng.choice([0.0, 10 ** rng.uniform(-3, -1), 45, 70.0, rng.uniform(0, 89)])
    n0 = np.array([complex(rng.choice([1.0, rng.uniform(1, 2.5)]))] * nw)
    if rng.random() < 0.12:  # light that arrives through an absorbing medium
        n0 = n0 + 1j * rng.choice([10 ** rng.uniform(-6, -1), rng.uniform(0.1, 1)])
    kx = n0[0] * np.sin(np.deg2rad(theta))
    kinds = ["diel", "weak", "abs", "metal", "vac"]
    layers, budget = [], 8.0
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        for _try in range(30):
            n = np.array([rand_index(rng, rng.choice(kinds)) for _ in range(nw)])
            if rng.random() < 0.6:
                n = np.array([n[0]] * nw)
            d = rand_thickness(rng)
            need = max(abs(np.sqrt(n[i] ** 2 - kx**2).imag) * d * 2 * np.pi / lbda[i] for i in range(nw))
            if need < budget and all(decay_ok(n[i], kx, d, lbda[i]) for i in range(nw)):
                budget -= need
                layers.append((n, d))
                break
    n1 = np.array([rand_index(rng, rng.choice(kinds))] * nw)
    if not n0[0].imag and kx.real > 0.7 and rng.random() < 0.12:
        n1 = np.array([near(rng, kx.real)] * nw)
    kz = np.sqrt(n1[0] ** 2 - kx**2)
    if abs(kz) < 1e-4 or (n0[0].imag and (kz.real < 0.01 or kz.imag < 1e-6)):
        return
    front, back = nk_mat(lbda, n0), nk_mat(lbda, n1)
    ls = [elli.Layer(nk_mat(lbda, n), d) for n, d in layers]
    st = elli.Structure(front, ls, back)
    arg = np.array(lbda)
    ans = []

    def ask(by, f, what="rt"):
        ans.append((by,) + call(f) + (what,))

    ask("structure-default", lambda: st.evaluate(arg, theta))
    ask("2x2", lambda: st.evaluate(arg, theta, solver=elli.Solver2x2))
    ask("4x4", lambda: st.evaluate(arg, theta, elli.Solver4x4))
    exp = elli.Experiment(st, arg, theta)
    ask("experiment-default", lambda: exp.evaluate())
    ask("experiment-2x2", lambda: exp.evaluate(elli.Solver2x2))
    ask("experiment-4x4", lambda: exp.evaluate(solver=elli.Solver4x4))
    vec = rng.choice([[1, 0], [0, 1], [1, 1j], [1, 0.3, 0.2, 0.1]])
    ask("experiment-vector", lambda: elli.Experiment(st, arg, theta, vec).evaluate(rng.choice([elli.Solver4x4, elli.Solver2x2])))
    for by, kw in PROPS4:
        ask(by, lambda: st.evaluate(arg, theta, solver=elli.Solver4x4, **kw()))
        ask("experiment-" + by, lambda: exp.evaluate(**kw()))
    ask("solver-object-2x2", lambda: elli.Solver2x2(exp).calculate())
    ask("solver-object-4x4", lambda: elli.Solver4x4(exp).calculate())
    ask("list-wavelengths", lambda: st.evaluate(list(lbda), theta))

    def reuse():
        e = elli.Experiment(elli.Structure(back, [], front), [555.0], 12)
        e.evaluate()
        e.set_structure(st)
        e.set_theta(theta)
        e.set_lbda(arg)
        return e.evaluate(rng.choice([elli.Solver4x4, elli.Solver2x2]))

    ask("reused-experiment", reuse)
    # the same media described differently
    for _ in range(4):
        labels, l2 = [], []
        for n, d in layers:
            k, m = same_medium(rng, lbda, n)
            labels.append(k)
            l2.append(elli.Layer(m, d))
        f2, b2, what = front, back, "rt"
        if rng.random() < 0.4:
            k, f2 = same_medium(rng, lbda, n0)
            labels.append("front:" + k)
        if rng.random() < 0.4:
            k, b2 = same_medium(rng, lbda, n1)
            labels.append("back:" + k)
            if not isinstance(b2, elli.IsotropicMaterial):
                what = "r"
        ask("as:" + ",".join(sorted(set(labels))), lambda: elli.Structure(f2, l2, b2).evaluate(arg, theta), what)
        if isinstance(b2, elli.IsotropicMaterial) or abs(n1[0].imag) >= 0:
            ask("as2x2:" + ",".join(sorted(set(labels))), lambda: elli.Structure(f2, l2, b2).evaluate(arg, theta, solver=elli.Solver2x2))
    # the same stack cut differently
    l3 = []
    for n, d in layers:
        m = nk_mat(lbda, n)
        x = rng.random()
        l3 += [elli.Layer(m, d * x), elli.Layer(m, d * (1 - x))]
        if rng.random() < 0.5:
            l3.append(elli.Layer(nk_mat(lbda, np.array([rand_index(rng, "abs")] * nw)), 0))
    ask("cut", lambda: elli.Structure(front, l3, back).evaluate(arg, theta))
    ask("cut-2x2", lambda: elli.Structure(front, l3, back).evaluate(arg, theta, solver=elli.Solver2x2))
    emit(rec, f"iso{c}", nw, ans)


def anisotropic(a, rng, rec, c):
    nw = rng.choice([1, 2])
    lbda = [rand_lbda(rng) for _ in range(nw)]
    theta = rng.choice([0.0, 10 ** rng.uniform(-3, -1), 45, 60.0, rng.uniform(0.0, 88)])
    n0 = rng.choice([1.0, rng.uniform(1.0, 2.2)])
    kx = n0 * np.sin(np.deg2rad(theta))
    layers, budget, eig_ok = [], 8.0, True
    for _ in range(rng.choice([1, 1, 2, 3])):
        for _try in range(40):
            dg, rot = diag_of(rng, nw), rand_rot(rng)
            d = rand_thickness(rng, 3000.0)
            need, ok, deg = 0.0, True, False
            for i in range(nw):
                e = np_tensor(dg[i], rot)
                if abs(e[2, 2]) < 0.3:
                    ok = False
                    break
                q4 = np.linalg.eigvals(np_delta(e, kx))
                need = max(need, np.abs(q4.imag).max() * d * 2 * np.pi / lbda[i])
                deg = deg or degenerate(q4)
            if ok and need < budget:
                budget -= need
                eig_ok = eig_ok and not deg
                layers.append((dg, rot, d))
                break
    n1 = rand_index(rng, rng.choice(["diel", "weak", "abs"]))
    if abs(np.sqrt(n1**2 - kx**2)) < 0.05:
        return
    front, back = nk_mat(lbda, np.array([complex(n0)] * nw)), nk_mat(lbda, np.array([n1] * nw))
    arg = np.array(lbda)
    ans = []

    def ask(by, f, what="rt"):
        ans.append((by,) + call(f) + (what,))

    st = elli.Structure(front, [elli.Layer(eps_mat(lbda, dg, rot), d) for dg, rot, d in layers], back)
    exp = elli.Experiment(st, arg, theta)
    ask("default", lambda: st.evaluate(arg, theta))
    ask("experiment", lambda: exp.evaluate())
    for by, kw in PROPS4:
        if by == "eig" and not eig_ok:
            continue
        ask(by, lambda: exp.evaluate(elli.Solver4x4, **kw()))
    st2 = elli.Structure(front, [elli.Layer(eps_mat(lbda, dg, rot, form="bi"), d) for dg, rot, d in layers], back)
    ask("as-biaxial", lambda: st2.evaluate(arg, theta))

    def mix(dg, rot):
        m = eps_mat(lbda, dg, rot)
        return elli.VCAMaterial(m, m, rng.random())

    st3 = elli.Structure(front, [elli.Layer(mix(dg, rot), d) for dg, rot, d in layers], back)
    ask("as-vca", lambda: st3.evaluate(arg, theta))
    l3 = []
    for dg, rot, d in layers:
        x = rng.random()
        m = eps_mat(lbda, dg, rot)
        l3 += [elli.Layer(m, d * x), elli.Layer(m, d * (1 - x))]
    ask("cut", lambda: elli.Structure(front, l3, back).evaluate(arg, theta))
    emit(rec, f"ani{c}", nw, ans)


def refused(a, rng, rec):
    air, glass = elli.AIR, elli.ConstantRefractiveIndex(1.5).get_mat()
    st = elli.Structure(air, [], glass)
    tries = [
        ("backend-foo", lambda: elli.PropagatorExpm(backend="foo")),
        ("backend-numpy", lambda: elli.PropagatorExpm("numpy")),
        ("backend-empty", lambda: elli.PropagatorExpm(backend="")),
        ("backend-None", lambda: elli.PropagatorExpm(backend=None)),
        ("backend-Torch", lambda: elli.PropagatorExpm(backend="Torch")),
        ("2x2-propagator", lambda: st.evaluate(500, 60, solver=elli.Solver2x2, propagator=elli.PropagatorEig())),
        ("4x4-unknown", lambda: st.evaluate(500, 60, solver=elli.Solver4x4, prop=elli.PropagatorEig())),
        ("4x4-unknown2", lambda: elli.Experiment(st, 500, 60).evaluate(elli.Solver4x4, backend="scipy")),
        ("2x2-unknown", lambda: elli.Experiment(st, 500, 60).evaluate(elli.Solver2x2, foo=1)),
        ("default-unknown", lambda: st.evaluate(500, 60, foo=1)),
    ]
    rec.case("refused", [{"ev": "option", "name": n, "err": call(f)[1]} for n, f in tries])


def run(a, rng, rec):
    refused(a, rng, rec)
    for c in range(900 if a.thorough else 150):
        isotropic(a, rng, rec, c)
    for c in range(900 if a.thorough else 150):
        anisotropic(a, rng, rec, c)


if __name__ == "__main__":
    main(run)

"""P02: energy balance and reciprocity of passive structures, both solvers."""
import numpy as np

import elli
from rec import call, main, q, qs
from stacklib import eps_mat, nk_mat, np_delta, np_rot, np_tensor, rand_eps, near, rand_lbda, rand_rot, rand_thickness, rec_rot

TURN = np.diag([-1.0, -1.0, 1.0])   # half turn about the normal
OVER = np.diag([-1.0, 1.0, -1.0])   # turned over


def compose(c, rot):
    r = np_rot(rot)
    return c @ r


def material(lbda, dg, rot, extra=None, form=None):
    m = eps_mat(lbda, dg, {"kind": "none", "v": []}, form=form)
    if rot["kind"] != "none" or extra is not None:
        r = np_rot(rot)
        m.set_rotation(r if extra is None else extra @ r)
    return m


def powers(by, res, err, i, nw, iso_exit=True):
    o = {"by": by, "err": err}
    if not err:
        try:
            names = ["R_matrix", "Rc_matrix", "T_matrix", "Tc_matrix", "jones_matrix_r"]
            for n in names:
                v = np.asarray(getattr(res, n))
                if v.shape != (nw, 2, 2):
                    o["err"] = f"shape {n}{v.shape}"
                    return o
                o[n] = qs(v[i])
            for n in ["R", "T"]:
                v = np.asarray(getattr(res, n))
                if v.shape != (nw,):
                    o["err"] = f"shape {n}{v.shape}"
                    return o
                o[n] = q(v[i].item())
        except Exception as x:  # noqa: BLE001
            o["err"] = type(x).__name__
    return o


def run(a, rng, rec):
    total = 8000 if a.thorough else 900
    c = 0
    while c < total:
        nw = rng.choice([1, 1, 2])
        lbda = [rand_lbda(rng) for _ in range(nw)]
        theta = rng.choice([0.0, 10 ** rng.uniform(-3, -1), 30, 45.0, 60, 89, rng.uniform(0, 89), rng.uniform(0, 89), rng.uniform(40, 89)])
        n0 = rng.choice([1.0, 1.0, rng.uniform(1.0, 4.0), rng.uniform(1.0, 4.0)])
        n1 = rng.choice([1.0, rng.uniform(1.0, 4.0), rng.uniform(1.0, 4.0)])
        kx = n0 * np.sin(np.deg2rad(theta))
        if kx > 1.0 and rng.random() < 0.08:  # next to the critical angle
            n1 = near(rng, kx).real or n1
        if abs(n1**2 - kx**2) < 5e-8:
            continue
        aniso = rng.random() < 0.65
        lossless = rng.random() < 0.55
        nl = rng.choice([0, 1, 1, 2, 3, 4, 6])
        layers, budget = [], 8.0
        for _ in range(nl):
            for _try in range(40):
                kind = "diel" if lossless else rng.choice(["diel", "weak", "abs", "metal"])
                if lossless and rng.random() < 0.1:
                    kind = "neg"

                def val():
                    if kind == "neg":
                        return complex(rng.uniform(-10, -1))
                    return rand_eps(rng, kind)

                v = [val() for _ in range(3)]
                if not aniso:
                    v = [v[0]] * 3
                elif rng.random() < 0.4:
                    v[1] = v[0]
                dg = np.array([v] * nw)
                if rng.random() < 0.3:
                    # dispersive loss, same classification
                    dg = dg * np.array([[1 + 0.1 * i] for i in range(nw)])
                rot = rand_rot(rng) if aniso else {"kind": "none", "v": []}
                d = rand_thickness(rng, 3000.0)
                need, ok = 0.0, True
                for i in range(nw):
                    e = np_tensor(dg[i], rot)
                    if abs(e[2, 2]) < 0.3:
                        ok = False
                        break
                    q4 = np.linalg.eigvals(np_delta(e, kx))
                    if not aniso and np.abs(q4).min() < 0.02:
                        ok = False
                    need = max(need, np.abs(q4.imag).max() * d * 2 * np.pi / lbda[i])
                if ok and need < budget:
                    budget -= need
                    layers.append((dg, rot, d))
                    break
        front, back = nk_mat(lbda, np.array([complex(n0)] * nw)), nk_mat(lbda, np.array([complex(n1)] * nw))
        form = rng.choice([None, "bi"])

        def build(extra=None, rev=False):
            ls = [elli.Layer(material(lbda, dg, rot, extra, form if aniso else None), d) for dg, rot, d in layers]
            return ls[::-1] if rev else ls

        arg = np.array(lbda)
        routes = [("4x4", dict(solver=elli.Solver4x4))]
        if not aniso:
            routes.append(("2x2", dict(solver=elli.Solver2x2)))
        obs, turned, over = [], [], []
        for by, kw in routes:
            obs.append((by,) + call(lambda: elli.Structure(front, build(), back).evaluate(arg, theta, **kw)))
            if aniso:
                turned.append((by,) + call(lambda: elli.Structure(front, build(TURN), back).evaluate(arg, theta, **kw)))
            s1 = kx / n1
            if s1 < 0.9995:
                th1 = float(np.rad2deg(np.arcsin(s1)))
                over.append((by,) + call(lambda: elli.Structure(back, build(OVER if aniso else None, True), front).evaluate(arg, th1, **kw)))
        for i in range(nw):
            ev = [{"ev": "start", "n": q(n0), "theta": q(theta)}]
            for dg, rot, d in layers:
                ev.append({"ev": "layer", "diag": [q(x) for x in dg[i]]})
            ev.append({"ev": "exit", "n": q(n1), "obs": [powers(*o, i, nw) for o in obs],
                       "turned": [powers(*o, i, nw) for o in turned], "over": [powers(*o, i, nw) for o in over], "iso": not aniso})
            rec.case(f"en{c}#{i}", ev)
        c += 1

    # absorbing exits: only the reflected part is judged
    for c in range(total // 5):
        lbda = [rng.uniform(200, 2500)]
        theta = rng.choice([0.0, 70.0, rng.uniform(0, 89)])
        n0 = rng.choice([1.0, rng.uniform(1, 2.5)])
        n1 = complex(rng.uniform(0.05, 5), rng.uniform(0.001, 6))
        layers = []
        for _ in range(rng.choice([0, 1, 2])):
            e = rand_eps(rng, "diel" if c % 2 else rng.choice(["diel", "abs"]))
            layers.append((np.array([[e] * 3]), rng.uniform(0, 60)))
        obs = []
        for by, s in (("4x4", elli.Solver4x4), ("2x2", elli.Solver2x2)):
            st = elli.Structure(nk_mat(lbda, np.array([complex(n0)])),
                                [elli.Layer(eps_mat(lbda, dg, {"kind": "none", "v": []}), d) for dg, d in layers],
                                nk_mat(lbda, np.array([n1])))
            obs.append((by,) + call(lambda: st.evaluate(np.array(lbda), theta, solver=s)))
        ev = [{"ev": "start", "n": q(n0), "theta": q(theta)}]
        ev += [{"ev": "layer", "diag": [q(x) for x in dg[0]]} for dg, d in layers]
        ev.append({"ev": "exit", "n": q(n1), "obs": [powers(*o, 0, 1) for o in obs], "turned": [], "over": [], "iso": True})
        rec.case(f"abs{c}", ev)


if __name__ == "__main__":
    main(run)

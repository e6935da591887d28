"""Shared generators of optical stacks for the drivers."""
import numpy as np

import elli
from rec import q


def nk_mat(lbda, values):
    """isotropic material whose index at lbda[i] is values[i]"""
    values = np.asarray(values)
    if len(set(values.tolist())) == 1:
        v = values[0]
        v = v.real if v.imag == 0 else v
        return elli.ConstantRefractiveIndex(n=v).get_mat()
    order = np.argsort(lbda)
    return elli.Table(lbda=np.asarray(lbda, float)[order], n=values[order]).get_mat()


def rand_index(rng, kind):
    if kind == "vac":
        return complex(1.0)
    if kind == "diel":
        return complex(rng.uniform(1.1, 4.0))
    if kind == "weak":
        return complex(rng.uniform(1.3, 4.0), 10 ** rng.uniform(-8, -2))
    if kind == "abs":
        return complex(rng.uniform(1.0, 4.5), rng.uniform(0.01, 1.5))
    if kind == "metal":
        return complex(rng.uniform(0.05, 1.5), rng.uniform(1.5, 6.0))
    raise ValueError(kind)


def rand_lbda(rng, lo=200.0, hi=2500.0):
    """mostly optical wavelengths, sometimes far infrared or extreme ultraviolet"""
    return rng.uniform(lo, hi) if rng.random() < 0.8 else 10 ** rng.choice([rng.uniform(1.7, 2.3), rng.uniform(3.4, 5.3), rng.uniform(3.4, 5.3)])


def near(rng, kx):
    """an index close to the one at which a wave of this k_x would run along the surface"""
    return complex(np.sqrt(kx**2 + rng.choice([1, -1]) * 10 ** rng.uniform(-7, -3)))


def rand_thickness(rng, top=5000.0):
    """nothing, sub-angstrom, thin, thick, and far thicker than the wavelength"""
    return rng.choice([0.0, 10 ** rng.uniform(-4, -1), rng.uniform(0.1, 20), rng.uniform(20, 500), rng.uniform(20, 500),
                       rng.uniform(500, top), 10 ** rng.uniform(np.log10(top), 5.3)])


def decay_ok(n, kx, d, lbda, limit=9.0):
    """keep the attenuation of a layer in the range double precision transfer matrices resolve"""
    kz = np.sqrt(complex(n) ** 2 - kx**2)
    return abs(kz.imag) * d * 2 * np.pi / lbda < limit and abs(kz) > 1e-3


JR = [("pp", 0, 0), ("ps", 0, 1), ("sp", 1, 0), ("ss", 1, 1)]


def jones_obs(by, res, err, i, nw):
    """observation of one wavelength of a Result, with guaranteed shape"""
    o = {"by": by, "err": err}
    if not err:
        try:
            r, t = np.asarray(res.jones_matrix_r), np.asarray(res.jones_matrix_t)
            if r.shape != (nw, 2, 2) or t.shape != (nw, 2, 2):
                o["err"] = f"shape{r.shape}{t.shape}"
            else:
                for n, a, b in JR:
                    o["r" + n] = q(complex(r[i, a, b]))
                    o["t" + n] = q(complex(t[i, a, b]))
        except Exception as x:  # noqa: BLE001
            o["err"] = type(x).__name__
    return o


# ---- anisotropic media: described by principal values and a rotation -------------------------
def np_rot(rot):
    k, a = rot["kind"], rot["v"]
    if k == "none":
        return np.eye(3)
    if k == "euler":
        p, n, r = np.deg2rad(a)
        z = lambda t: np.array([[np.cos(t), -np.sin(t), 0], [np.sin(t), np.cos(t), 0], [0, 0, 1]])
        x = lambda t: np.array([[1, 0, 0], [0, np.cos(t), -np.sin(t)], [0, np.sin(t), np.cos(t)]])
        return z(p) @ x(n) @ z(r)
    if k == "vt":
        u, th = np.array(a[:3]), np.deg2rad(a[3])
    else:
        th = np.linalg.norm(a)
        u = np.array(a) / th if th else np.array([0.0, 0.0, 1.0])
    w = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    return np.eye(3) + np.sin(th) * w + (1 - np.cos(th)) * w @ w


def elli_rot(rot):
    k, a = rot["kind"], rot["v"]
    if k == "euler":
        return elli.rotation_euler(*a)
    if k == "vt":
        return elli.rotation_v_theta(list(a[:3]), a[3])
    return elli.rotation_v(list(a))


def rec_rot(rot):
    return {"kind": rot["kind"], "a": [q(x) for x in rot["v"]]}


def rand_rot(rng):
    k = rng.choice(["none", "euler", "euler", "euler", "v", "vt", "vt"])
    if k == "none":
        return {"kind": k, "v": []}
    if k == "euler":
        return {"kind": k, "v": [rng.choice([0, 90, -45, rng.uniform(-360, 360)]) for _ in range(3)]}
    if k == "v":
        return {"kind": k, "v": [rng.choice([0.0, rng.uniform(-3, 3)]) for _ in range(3)]}
    u = np.array([rng.gauss(0, 1) for _ in range(3)])
    if rng.random() < 0.4:
        u = np.eye(3)[rng.randrange(3)]
    u = u / np.linalg.norm(u)
    return {"kind": k, "v": [float(x) for x in u] + [rng.choice([90, 180, rng.uniform(-360, 360)])]}


def np_tensor(diag, rot):
    r = np_rot(rot)
    return r @ np.diag(diag) @ r.T


def np_delta(e, k):
    ez = np.array([-e[2, 0] / e[2, 2], -e[2, 1] / e[2, 2], 0, -k / e[2, 2]])
    d = np.zeros((4, 4), complex)
    d[0] = k * ez + np.array([0, 0, 0, 1])
    d[1, 2] = -1
    for row, a, s in ((2, 1, -1), (3, 0, 1)):
        d[row] = s * (np.array([e[a, 0], e[a, 1], 0, 0]) + e[a, 2] * ez)
    d[2, 1] += k**2
    return d


def eps_mat(lbda, diags, rot, form=None):
    """material whose principal permittivities at lbda[i] are diags[i]; form forces the material class"""
    diags = np.asarray(diags)

    def disp(col):
        if len(set(col.tolist())) == 1 and col[0].imag == 0:
            return elli.EpsilonInf(eps=col[0].real)
        order = np.argsort(lbda)
        x, y = np.asarray(lbda, float)[order], col[order]
        if len(x) == 1:
            x, y = np.array([x[0] - 1, x[0], x[0] + 1]), np.array([y[0]] * 3)
        return elli.TableEpsilon(lbda=x, epsilon=y)

    cols = [disp(diags[:, i]) for i in range(3)]
    uni = np.array_equal(diags[:, 0], diags[:, 1])
    iso = uni and np.array_equal(diags[:, 0], diags[:, 2])
    if form is None:
        form = "iso" if iso else "uni" if uni else "bi"
    if form == "iso":
        m = elli.IsotropicMaterial(cols[0])
    elif form == "uni":
        m = elli.UniaxialMaterial(cols[0], cols[2])
    else:
        m = elli.BiaxialMaterial(*cols)
    if rot["kind"] != "none":
        m.set_rotation(elli_rot(rot))
    return m


def mats_obs(by, res, err, i, nw, t=True):
    o = {"by": by, "err": err}
    if not err:
        try:
            for name, v in (("r", res.jones_matrix_r),) + ((("t", res.jones_matrix_t),) if t else ()):
                v = np.asarray(v)
                if v.shape != (nw, 2, 2):
                    o["err"] = f"shape{v.shape}"
                else:
                    o[name] = [[q(complex(x)) for x in row] for row in v[i]]
        except Exception as x:  # noqa: BLE001
            o["err"] = type(x).__name__
    return o


def rand_eps(rng, kind):
    if kind == "diel":
        return complex(rng.uniform(1.2, 12))
    if kind == "weak":
        return complex(rng.uniform(1.2, 12), 10 ** rng.uniform(-8, -1))
    if kind == "abs":
        return complex(rng.uniform(-1, 12), rng.uniform(0.1, 8))
    return complex(rng.uniform(-20, -2), rng.uniform(0.1, 5))

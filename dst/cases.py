"""Transforms, inputs and operations as data: generators, adapters for every front end, comparison."""
import hashlib
import importlib
import json
import math

import numpy as np

FAMS = ("1d", "jtfs", "2d", "3d")
CLS = {"1d": "Scattering1D", "jtfs": "TimeFrequencyScattering", "2d": "Scattering2D", "3d": "HarmonicScattering3D"}
FES = ("numpy", "sklearn", "torch", "tensorflow", "keras", "jax")
NDIM = {"1d": 1, "jtfs": 1, "2d": 2, "3d": 3}


def combos(fes=FES, fams=FAMS):
    return [(fam, fe) for fe in fes for fam in fams if not (fe == "keras" and fam in ("jtfs", "3d"))]


# ------------------------------------------------------------------------------------------------ generators

def gen_kw(rng, fam, fe, small=False):
    """Constructor arguments that the documentation allows."""
    if fam == "1d":
        N = rng.choice([32, 64, 64, 128, 100, 45] if small else [32, 40, 64, 64, 96, 100, 128, 200, 256, 257])
        J = rng.randint(2, min(5, int(math.log2(N)) - 1))
        Q = rng.choice([1, 1, 2, 4, (2, 1), (4, 2), (3, 2), 8])
        kw = dict(J=J, Q=list(Q) if isinstance(Q, tuple) else Q)
        if fe != "keras":
            kw["shape"] = N
        u = rng.random()
        if u < .15 and fe != "keras":
            kw["T"] = "global"
        elif u < .3 and fe not in ("keras", "sklearn"):
            kw["T"] = 0
            kw["out_type"] = rng.choice(["list", "dict"])
        elif u < .55:
            kw["T"] = 2 ** rng.randint(max(1, J - 1), min(J + 1, int(math.log2(N))))
        elif u < .7:
            kw["T"] = rng.choice([rng.randint(3, N), N - 1, N])
        if rng.random() < .06 and kw.get("T") != 0:
            # long signals
            N = rng.choice([1000, 1024, 2048, 3000] if fe in ("numpy", "torch", "sklearn") else [512, 1024])
            kw["J"] = rng.randint(3, 6)
            if "T" in kw and kw["T"] != "global":
                kw["T"] = rng.choice([2 ** kw["J"], rng.randint(3, 100)])
            if fe != "keras":
                kw["shape"] = N
        elif rng.random() < .12 and kw.get("T") not in ("global", 0):
            # the last coefficient reaches to the end of the padded signal
            N = rng.choice([20, 20, 35, 36, 67, 69])
            kw["J"] = rng.randint(2, 4)
            kw["T"] = rng.choice([rng.randint(int(.8 * N), N), N])
            if fe != "keras":
                kw["shape"] = N
        if rng.random() < .3:
            kw["max_order"] = 1
        if kw.get("T") not in ("global", 0) and fe != "keras" and rng.random() < .2:
            T = kw.get("T") or 2 ** kw["J"]
            kw["stride"] = 2 ** rng.randint(0, int(math.log2(T)))
        if kw.get("T") not in ("global", 0) and "stride" not in kw and rng.random() < .12:
            kw["oversampling"] = rng.randint(1, max(1, min(3, int(math.log2(kw.get("T") or 2 ** kw["J"])))))
        if fe not in ("sklearn", "keras") and "out_type" not in kw:
            kw["out_type"] = rng.choice(["array", "array", "list", "dict"])
        return kw, N
    if fam == "jtfs":
        N = rng.choice([64, 128, 128, 100] if small else [64, 128, 128, 200, 256])
        J = rng.randint(3, 4 if small else 5)
        kw = dict(J=J, J_fr=rng.randint(1, 3), Q=rng.choice([1, 2, 2, 3] if small else [1, 2, 2, 4, [4, 1], [3, 2]]), shape=N)
        if fe == "jax":
            J, N = 3, 64
            kw.update(J=3, shape=N, Q=rng.choice([1, 2]), J_fr=rng.randint(1, 2))
        if rng.random() < .3:
            kw["Q_fr"] = rng.choice([1, 2])
        u = rng.random()
        if u < .15:
            kw["T"] = "global"
        elif u < .25 and fe != "sklearn":
            kw["T"] = 0
            kw["out_type"] = rng.choice(["list", "dict"])
        elif u < .4:
            kw["T"] = 2 ** rng.randint(J - 1, J)
        elif u < .55:
            kw["T"] = rng.choice([rng.randint(3, N), N - 1, N])
        u = rng.random()
        if u < .2:
            kw["F"] = "global"
        elif u < .35:
            kw["F"] = 0
        elif u < .5:
            q = kw["Q"][0] if isinstance(kw["Q"], list) else kw["Q"]
            kw["F"] = rng.choice([2 ** rng.randint(1, kw["J_fr"]), rng.randint(2, 2 ** kw["J_fr"]), rng.randint(2, (J + 1) * q)])
        if kw.get("T") not in ("global", 0) and rng.random() < .15:
            kw["stride"] = 2 ** rng.randint(0, int(math.log2(kw.get("T") or 2 ** J)))
        if kw.get("F") not in ("global", 0) and rng.random() < .2:
            f = int(math.log2(kw.get("F") or 2 ** kw["J_fr"]))
            kw["stride_fr"] = 2 ** rng.randint(min(f, max(0, kw["J_fr"] - 2)), f)
        if fe != "sklearn" and "out_type" not in kw:
            kw["out_type"] = rng.choice(["array", "array", "list", "dict"])
        kw["format"] = rng.choice(["time", "joint"])
        if kw["format"] == "joint" and not joint_ok(kw):
            kw["format"] = "time"
        return kw, N
    if fam == "2d":
        sh = rng.choice([(16, 16), (16, 24), (16, 16), (17, 20)] if small else [(16, 16), (16, 16), (20, 16), (16, 32), (24, 24), (32, 32), (17, 23)])
        J = rng.choice([1, 1, 1, 2]) if small else rng.randint(1, 2 if min(sh) < 24 else 3)
        kw = dict(J=J, L=rng.choice([2, 2, 2, 3, 3, 1] if small else [1, 2, 3, 4, 6]))
        u = rng.random()
        if u < .08:
            del kw["L"]
            if small:
                kw["J"] = 1
        elif u < .16 and J == 1:
            kw["L"] = rng.choice([8, 9, 10])
        elif u < .34 and small:
            kw["J"], kw["L"] = 3, rng.choice([1, 1, 2])
        elif u < .48:
            # the padding is as large as the image, in one direction or in both
            sh = rng.choice([(8, 8), (8, 16), (16, 8), (8, 12)])
            kw["J"], kw["L"] = 3, rng.choice([1, 1, 2])
        if fe != "keras":
            kw["shape"] = list(sh)
        if rng.random() < .3:
            kw["max_order"] = 1
        if fe not in ("keras",) and rng.random() < .15:
            kw["pre_pad"] = True
        if fe not in ("sklearn", "keras"):
            kw["out_type"] = rng.choice(["array", "array", "list"])
        return kw, sh
    if fam == "3d":
        sh = rng.choice([(8, 8, 8), (8, 10, 12)] if small else [(8, 8, 8), (8, 8, 8), (8, 10, 12), (12, 8, 9)])
        kw = dict(J=rng.randint(0, 2), L=rng.choice([0, 1, 1, 2] if small else [0, 1, 2, 3]), shape=list(sh))
        if rng.random() < .4:
            kw["sigma_0"] = rng.choice([.5, 1.5, 2])
        if rng.random() < .3:
            kw["max_order"] = 1
        if rng.random() < .3:
            kw["rotation_covariant"] = False
        if rng.random() < .4:
            kw["integral_powers"] = rng.choice([[1.], [.5, 1.], [1., 2., 3.], [.5], [2., .5], [3., 1., 2., .5]])
        return kw, sh
    raise KeyError(fam)


def joint_ok(kw):
    # format='joint' needs a frequency axis: not with F='global', and not as an array with F=0
    return kw.get("F") != "global" and not (kw.get("F") == 0 and kw.get("out_type", "array") == "array")


def gen_cfg(rng, fam, fe, small=False):
    kw, sig = gen_kw(rng, fam, fe, small)
    return dict(fam=fam, fe=fe, kw=kw, sig=list(sig) if isinstance(sig, tuple) else [sig])


# attributes the documentation lets the caller change after construction
def gen_set(rng, cfg):
    """A random assignment of documented run-time attributes, valid for cfg; {} for none."""
    fam, fe, kw = cfg["fam"], cfg["fe"], cfg["kw"]
    s = {}
    if fe == "keras":
        return s
    if fam == "1d":
        if rng.random() < .6:
            s["max_order"] = rng.choice([1, 2])
        if fe != "sklearn" and rng.random() < .6:
            s["out_type"] = rng.choice(["list", "dict"] if kw.get("T") == 0 else ["array", "list", "dict"])
    elif fam == "jtfs":
        if rng.random() < .7:
            s["format"] = rng.choice(["time", "joint"])
        if fe != "sklearn" and rng.random() < .6:
            s["out_type"] = rng.choice(["list", "dict"] if kw.get("T") == 0 else ["array", "list", "dict"])
        fmt = s.get("format", kw.get("format", "time"))
        if fmt == "joint" and not joint_ok(dict(kw, **s)):
            s["format"] = "time"
    elif fam == "2d":
        if rng.random() < .6:
            s["max_order"] = rng.choice([1, 2])
        if fe != "sklearn" and rng.random() < .6:
            s["out_type"] = rng.choice(["array", "list"])
    else:
        if rng.random() < .5:
            s["max_order"] = rng.choice([1, 2])
        if rng.random() < .5:
            s["rotation_covariant"] = rng.choice([True, False])
        if rng.random() < .5:
            s["integral_powers"] = rng.choice([[1.], [.5, 1.], [1., 2., 3.], [.5, 1., 2.], [2., .5]])
    return s


def effective(cfg, st):
    """Current value of every settable attribute, as a canonical dict."""
    fam, kw = cfg["fam"], cfg["kw"]
    names = {"1d": ("max_order", "out_type"), "jtfs": ("format", "out_type"), "2d": ("max_order", "out_type"),
             "3d": ("max_order", "rotation_covariant", "integral_powers")}[fam]
    dflt = dict(max_order=2, out_type="array", format="time", rotation_covariant=True, integral_powers=[.5, 1., 2.])
    return {n: st.get(n, kw.get(n, dflt[n])) for n in names}


def gen_input(rng, cfg, batch=None, kinds=("randn",), f64=None):
    sig = list(cfg["sig"])
    if cfg["fam"] == "2d" and cfg["kw"].get("pre_pad"):
        sig = padded_2d(cfg)
    if batch is None:
        batch = rng.choice([[], [1], [2], [3], [2, 2]])
        if cfg["fe"] == "keras":
            batch = rng.choice([[1], [2], [3]])
    dt = "f4"
    if f64 is None:
        f64 = rng.random() < .4
    if cfg["fe"] in ("numpy", "sklearn") and f64:
        dt = "f8"
    if cfg.get("double"):
        dt = "f8"
    return dict(shape=list(batch) + sig, nb=len(batch), dtype=dt, seed=rng.randrange(1 << 30), kind=rng.choice(list(kinds)), layout="C")


_pad_cache = {}


def padded_2d(cfg):
    M, N = cfg["sig"]
    J = cfg["kw"]["J"]
    f = 2 ** J
    return [((M + f) // f + 1) * f, ((N + f) // f + 1) * f]


RELS = ("neg", "flip", "roll", "double", "last", "tail", "perm", "near", "abs", "offset")


def relative(x, rel):
    """A signal that something looking at only a part of the data, or at a statistic of it, may take for x."""
    if not rel or x.size < 2:
        return x
    f = x.reshape(-1)
    if rel == "neg":
        return -x
    if rel == "flip":
        return np.ascontiguousarray(x[..., ::-1])
    if rel == "roll":
        return np.roll(x, 1 + x.shape[-1] // 3, axis=-1)
    if rel == "double":
        return 2. * x
    if rel == "abs":
        return np.abs(x)
    if rel == "near":
        return x * 1.01
    if rel == "offset":
        return x + .5
    f = f.copy()
    if rel == "last":
        f[-1] = f[-1] + 1.
    elif rel == "tail":
        f[f.size // 2:] = f[f.size // 2:][::-1] * .7
    elif rel == "perm":
        f = np.random.RandomState(5).permutation(f)
    return f.reshape(x.shape)


def mk_np(i):
    rng = np.random.RandomState(i["seed"])
    sh = tuple(i["shape"])
    k = i["kind"]
    x = rng.standard_normal(sh)
    if k == "zero":
        x = np.zeros(sh)
    elif k == "const":
        x = np.full(sh, x.flat[0] if x.size else 0.)
    elif k == "sparse":
        x = x * (rng.uniform(size=sh) < .1)
    elif k == "large":
        x = x * 1e6
    elif k == "small":
        x = x * 1e-6
    elif k == "nan":
        if x.size:
            x.flat[rng.randint(x.size)] = np.nan
    elif k == "inf":
        if x.size:
            x.flat[rng.randint(x.size)] = np.inf
    elif k == "pos":
        x = np.abs(x)
    x = relative(x, i.get("rel"))
    dt = {"f4": np.float32, "f8": np.float64}[i["dtype"]]
    x = x.astype(dt)
    lay = i.get("layout", "C")
    if lay == "F":
        x = np.asfortranarray(x)
    elif lay == "strided":
        y = np.zeros(sh[:-1] + (2 * sh[-1],), dt)
        y[..., ::2] = x
        x = y[..., ::2]
    elif lay == "rev":
        x = np.ascontiguousarray(x[..., ::-1])[..., ::-1]
    elif lay == "offset":
        y = np.zeros(x.size + 3, dt)
        y[3:] = x.ravel()
        x = y[3:].reshape(sh)
    elif lay == "ro":
        x.flags.writeable = False
    return x


def to_fe(fe, x, cfg=None):
    """The numpy array as this front end's input (shares memory where the front end allows it)."""
    if fe in ("numpy", "sklearn"):
        if fe == "sklearn":
            nb = x.ndim - NDIM[cfg["fam"]]
            return x.reshape(x.shape[:nb] + (-1,))
        return x
    if fe == "torch":
        import torch
        return torch.from_numpy(x) if x.flags.writeable else torch.from_numpy(x.copy())
    if fe in ("tensorflow", "keras"):
        import tensorflow as tf
        return tf.constant(np.ascontiguousarray(x), dtype=tf.float32)
    if fe == "jax":
        import jax.numpy as jnp
        return jnp.asarray(np.ascontiguousarray(x), dtype=jnp.float32)
    raise KeyError(fe)


def mk_input(cfg, i):
    return to_fe(cfg["fe"], mk_np(i), cfg)


# ------------------------------------------------------------------------------------------------ building and calling

_SHARED = {}


def powers(v):
    """Half of the time the caller's own list, the same object for all transforms that are given these values."""
    if isinstance(v, list) and (len(v) + int(4 * v[0])) % 2 == 0:
        return _SHARED.setdefault(tuple(v), list(v))
    return tuple(v) if isinstance(v, list) else v


def untuple(kw):
    out = dict(kw)
    if "integral_powers" in out:
        out["integral_powers"] = powers(out["integral_powers"])
    for k in ("Q", "shape"):
        if isinstance(out.get(k), list):
            out[k] = tuple(out[k])
    return out


def get_class(fam, fe):
    m = importlib.import_module("kymatio." + fe)
    return getattr(m, CLS[fam])


def build(cfg):
    if cfg.get("generic"):
        kym = importlib.import_module("kymatio")
        kw = untuple(cfg["kw"])
        S = getattr(kym, CLS[cfg["fam"]])(frontend=cfg["fe"], **kw)
    else:
        S = get_class(cfg["fam"], cfg["fe"])(**untuple(cfg["kw"]))
    if cfg.get("double"):
        S = S.double()
    return S


def apply_set(S, st):
    for k in sorted(st):
        v = st[k]
        setattr(S, k, powers(v) if k == "integral_powers" else tuple(v) if isinstance(v, list) else v)


def call(cfg, S, x, how="call"):
    fe = cfg["fe"]
    if fe == "sklearn":
        return S.predict(x) if how == "scattering" else S.transform(x)
    if how == "scattering" and fe != "keras":
        return S.scattering(x)
    return S(x)


# ------------------------------------------------------------------------------------------------ results

def to_np(a):
    t = type(a).__module__.split(".")[0]
    if t == "torch":
        return a.detach().cpu().numpy()
    return np.asarray(a)


def kind_of(a):
    t = type(a)
    m = t.__module__.split(".")[0]
    if isinstance(a, np.ndarray):
        return "ndarray"
    if m == "torch":
        return "torch"
    if m in ("tensorflow", "keras"):
        return "tf"
    if m in ("jax", "jaxlib"):
        return "jax"
    return t.__name__


def _lab(v):
    if isinstance(v, (tuple, list)):
        return "(" + ",".join(_lab(a) for a in v) + ")"
    if isinstance(v, (bool, np.bool_)):
        return str(bool(v))
    if isinstance(v, (int, np.integer)):
        return str(int(v))
    if isinstance(v, (float, np.floating)):
        return "%.9g" % float(v)
    return str(v)


class Res:
    """A result in canonical form: container kind, labels and float arrays."""
    __slots__ = ("kind", "labels", "arrs", "ak")

    def __init__(self, kind, labels, arrs, ak):
        self.kind, self.labels, self.arrs, self.ak = kind, labels, arrs, ak

    def digest(self):
        h = hashlib.sha1()
        h.update(repr((self.kind, self.labels, self.ak)).encode())
        for a in self.arrs:
            h.update(repr((a.shape, a.dtype.str)).encode())
            h.update(np.ascontiguousarray(a).tobytes())
        return h.hexdigest()[:16]


def arrays_of(r):
    """The live coefficient arrays of a result."""
    if isinstance(r, dict):
        return [r[k] for k in r]
    if isinstance(r, list):
        return [p["coef"] for p in r]
    return [r]


def norm(r, copy=True):
    f = (lambda a: np.array(to_np(a), copy=True)) if copy else to_np
    if isinstance(r, dict):
        ks = list(r)
        return Res("dict", [_lab(k) for k in ks], [f(r[k]) for k in ks], [kind_of(r[k]) for k in ks][:1])
    if isinstance(r, list):
        labels = []
        for p in r:
            labels.append(";".join("%s=%s" % (k, _lab(p[k])) for k in sorted(p) if k != "coef"))
        return Res("list", labels, [f(p["coef"]) for p in r], [kind_of(p["coef"]) for p in r][:1])
    return Res("array", [""], [f(r)], [kind_of(r)])


def norm_meta(m):
    out = []
    for k in sorted(m):
        v = m[k]
        if isinstance(v, np.ndarray) and v.dtype != object:
            out.append((k, v.shape, np.array2string(v.astype(float), precision=9, threshold=10 ** 9) if v.dtype.kind in "fiub" else str(v)))
        else:
            out.append((k, len(v), _lab([_lab(a if not isinstance(a, np.ndarray) else list(a)) for a in v])))
    return repr(out)


def tol_for(a):
    return 2e-5 if a.dtype in (np.float32, np.complex64) else 1e-10


def diff(got, exp, loose=False, x=None):
    """None if equal, else a short description of how got differs from exp. A result for a single precision input x is rounded at that precision somewhere, whatever its own dtype."""
    mixed = bool(x) and x.get("dtype") == "f4"
    if isinstance(exp, tuple) or isinstance(got, tuple):
        if isinstance(exp, tuple) and isinstance(got, tuple) and exp == got:
            return None
        return "got %s, expected %s" % (short(got), short(exp))
    if got.kind != exp.kind:
        return "output is a %s, expected a %s" % (got.kind, exp.kind)
    if got.ak != exp.ak:
        return "coefficients are %s, expected %s" % (got.ak, exp.ak)
    if got.labels != exp.labels:
        n = len(got.labels)
        if n != len(exp.labels):
            return "%d coefficients, expected %d" % (n, len(exp.labels))
        for i in range(n):
            if got.labels[i] != exp.labels[i]:
                return "coefficient %d is labelled %s, expected %s" % (i, got.labels[i], exp.labels[i])
    glob = max([float(np.nanmax(np.abs(e))) if e.size and not np.all(np.isnan(e)) else 0. for e in exp.arrs] or [0.])
    for i, (g, e) in enumerate(zip(got.arrs, exp.arrs)):
        if g.shape != e.shape:
            return "coefficient %d has shape %s, expected %s" % (i, g.shape, e.shape)
        if g.dtype != e.dtype:
            return "coefficient %d has dtype %s, expected %s" % (i, g.dtype, e.dtype)
        if g.size == 0:
            continue
        if np.array_equal(g, e, equal_nan=g.dtype.kind in "fc"):
            continue
        ge, ee = g.astype(np.complex128 if g.dtype.kind == "c" else np.float64), e.astype(np.complex128 if g.dtype.kind == "c" else np.float64)
        fin = np.isfinite(ee)
        if not np.array_equal(np.isfinite(ge), fin) or not np.array_equal(np.isnan(ge), np.isnan(ee)):
            return "coefficient %d is non-finite at other places than expected" % i
        if not fin.any():
            continue
        d = np.abs(np.where(fin, ge - np.where(fin, ee, 0), 0))
        single = e.dtype in (np.float32, np.complex64)
        tol = max(tol_for(e), 2e-6 if mixed else 0) * (10 if loose else 1)
        # relative to the largest entry of the array (single) or of the path; plus rounding noise of the whole transform
        scale = float(np.max(np.abs(ee[fin])))
        lim = tol * scale + (1e-6 if single or mixed else 1e-13) * glob * (1 if loose else .1) + 1e-37
        m = float(d.max())
        if m > lim:
            j = np.unravel_index(int(np.argmax(d)), d.shape)
            return "coefficient %d entry %s is %.9g, expected %.9g (scale %.3g)" % (i, tuple(int(q) for q in j), ge[j].real, ee[j].real, scale)
    return None


def short(r):
    if isinstance(r, tuple):
        return "%s" % (r,)
    if isinstance(r, Res):
        return "%s of %d arrays %s" % (r.kind, len(r.arrs), r.arrs[0].shape if r.arrs else "")
    return str(r)[:80]


def key_of(*a):
    return json.dumps(a, sort_keys=True)


def slice_res(r, n_batch_dims, f):
    """Apply f to the batch axes of every array (C12)."""
    return Res(r.kind, r.labels, [f(a) for a in r.arrs], r.ak)

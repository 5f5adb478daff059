"""Signals, decomposer configurations, operations and observations the plans are made of."""
import errno
import random
import warnings

import numpy as np

from dst import faults
from dst.seams import CTX


# -- signals ---------------------------------------------------------------------------------------
def signal(spec):
    """spec = {"k": kind, "n": length, "s": seed, "d": dtype}; a fresh array every time."""
    n = spec["n"]
    r = np.random.RandomState(spec["s"] % (2**32))
    t = np.arange(n, dtype=float)
    k = spec["k"]
    f = r.uniform(0.05, 0.4, 4)
    p = r.uniform(0, 6.28, 4)
    a = r.uniform(0.5, 3.0, 4)
    if k == "mix":
        x = a[0] * np.sin(6.28 * f[0] * t + p[0]) + a[1] * np.sin(3 * f[1] * t + p[1]) + a[2] * t / n
    elif k == "chirp":
        x = a[0] * np.sin((0.1 + f[0] * t / n) * t + p[0]) + a[1] * np.cos(0.2 * t)
    elif k == "walk":
        x = np.cumsum(r.normal(size=n))
    elif k == "noise":
        x = r.normal(size=n)
    elif k == "burst":
        x = 0.1 * np.sin(0.3 * t + p[0]) + 3 * np.exp(-((t - n / 2) ** 2) / (n / 6 + 1) ** 2) * np.sin(1.9 * t)
    elif k == "trend":
        x = a[0] * t + a[1] * (t / n) ** 2
    elif k == "steps":
        x = np.round(3 * np.sin(0.7 * f[0] * t + p[0]) + r.uniform(-1, 1, n))
    elif k == "offset":
        x = 50.0 + a[0] * np.sin(f[0] * 5 * t + p[0]) + 0.3 * r.normal(size=n)
    elif k == "tiny":
        x = 1e-4 * (np.sin(f[0] * 6 * t + p[0]) + 0.5 * r.normal(size=n))
    elif k == "flat":
        x = np.full(n, float(r.randint(-3, 4)))
    elif k == "cascade":  # slower and slower, fainter and fainter
        g = 10.0 ** -r.uniform(0.3, 2.5)
        x = sum(g**j * np.sin(2.2 * r.uniform(0.28, 0.45) ** j * t + p[j % 4]) for j in range(r.randint(2, 5)))
    elif k == "pure":
        x = a[0] * np.sin(6.28 * f[0] * t + p[0])
    else:
        raise KeyError(k)
    if "faint" in spec:  # a component that is hard to see
        x = x + spec["faint"] * max(1.0, np.max(np.abs(x))) * np.sin(0.3 * f[3] * t + p[3])
    d = spec.get("d", "f8")
    if d.startswith("i"):
        x = np.round(x * 10)
    elif "amp" in spec:
        x = x * spec["amp"]
    return np.ascontiguousarray(x.astype(d))


_BUFS = {}  # arrays the caller uses again and again (every run is a process of its own)


def refill(x, what):
    """x in an array that had the same place and shape before: what a caller with one buffer passes."""
    if x is None:
        return None
    b = _BUFS.setdefault((what, x.shape, x.dtype.str), x)
    b[...] = x
    return b


def timeline(spec, n):
    """spec: None or {"k": kind, "s": seed}."""
    if spec is None:
        return None
    k = spec["k"]
    if k == "unit":
        return np.arange(n, dtype=float)
    if k == "lin":
        return np.linspace(0, 5, n)
    if k == "nonuni":
        r = np.random.RandomState(spec["s"])
        return np.cumsum(r.uniform(0.5, 1.5, n))
    if k == "int":
        return np.arange(n, dtype=int) * 2
    if k == "short":  # wrong length: the call has to fail
        return np.arange(n - 1, dtype=float)
    if k == "dup":  # repeated time stamps: the call has to fail with assertion (parabol only)
        t = np.arange(n, dtype=float)
        t[n // 2] = t[n // 2 - 1]
        return t
    raise KeyError(k)


def image(spec):
    n, m = spec["n"], spec.get("m", spec["n"])
    r = np.random.RandomState(spec["s"])
    x = np.arange(n)[:, None]
    y = np.arange(m)[None, :]
    k = spec["k"]
    if k == "waves":
        img = np.sin(r.uniform(0.8, 2.0) * x) * np.cos(r.uniform(0.8, 2.0) * y) + 0.1 * x + 0.3 * r.normal(size=(n, m))
    elif k == "noise":
        img = r.normal(size=(n, m))
    else:
        raise KeyError(k)
    img = img.astype(spec.get("d", "f8"))
    return np.ascontiguousarray(img)


def layout(a, how):
    """The same values in another memory layout."""
    if a is None or how in (None, "plain"):
        return a
    if how == "readonly":
        b = a.copy()
        b.flags.writeable = False
        return b
    if how == "strided":
        b = np.zeros(a.shape[:-1] + (a.shape[-1] * 2,), dtype=a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if how == "reversed":
        return a[..., ::-1].copy()[..., ::-1]
    if how == "view":
        b = np.zeros(a.shape[:-1] + (a.shape[-1] + 7,), dtype=a.dtype)
        b[..., 3:-4] = a
        return b[..., 3:-4]
    if how == "roview":
        b = layout(a, "view")
        b.flags.writeable = False
        return b
    raise KeyError(how)


# -- decomposers of the harness --------------------------------------------------------------------
def _emd_class():
    from PyEMD import EMD

    return EMD


class _Base:
    """Caller-supplied decomposer with the interface EEMD and CEEMDAN document."""

    imfs = None
    residue = None

    def _rows(self, S, max_imf):
        raise NotImplementedError

    def emd(self, S, T=None, max_imf=-1):
        faults.hook()
        rows = self._rows(np.asarray(S, dtype=float), max_imf)
        self.imfs, self.residue = rows[:-1], rows[-1]
        return rows

    def __call__(self, S, T=None, max_imf=-1):
        return self.emd(S, T, max_imf)

    def get_imfs_and_residue(self):
        return self.imfs, self.residue

    def get_imfs_and_trend(self):
        return self.imfs, self.residue


class IdentityEMD(_Base):
    """One component: the input itself."""

    def _rows(self, S, max_imf):
        return np.array([S])

    def get_imfs_and_trend(self):
        return np.array([self.residue]), np.zeros_like(self.residue)


class ProbeEMD(IdentityEMD):
    """Identity that also reports what it was asked to decompose."""

    def _rows(self, S, max_imf):
        CTX.probe("emd", S.copy())
        return np.array([S])


class ModesEMD(_Base):
    """Splits the input into a number of rows that depends on the input, so that trials differ in mode count."""

    def __init__(self, limit=4, power=1.0):
        self.limit = limit
        self.power = power

    probing = False

    def _rows(self, S, max_imf):
        if self.probing:
            CTX.probe("emd", (S.copy(), max_imf))
        k = 1 + int(abs(S.sum()) * 1e6) % int(self.limit)
        if max_imf > 0:
            k = min(k, max_imf)
        w = np.arange(1, k + 2, dtype=float) ** self.power
        w /= w.sum()
        ph = np.cos(np.outer(np.arange(k + 1), np.arange(S.size)) * 0.37)
        rows = w[:, None] * S[None, :] + ph - ph.mean(axis=0)
        return rows


class LinearEMD(_Base):
    """Every row is a fixed share of the input: half, a quarter, ... and what is left. Reports its inputs."""

    def _rows(self, S, max_imf):
        CTX.probe("emd", (S.copy(), max_imf))
        k = max_imf if max_imf > 0 else 5
        w = 0.5 ** np.arange(1, k + 2)
        w[-1] = w[-2]
        return w[:, None] * S[None, :]


class CountingEMD(ModesEMD):
    """A decomposer with state of its own (a call counter that does not affect the result)."""

    calls = 0

    def emd(self, S, T=None, max_imf=-1):
        self.calls += 1
        return super().emd(S, T, max_imf)


def make_sub_emd():
    class_ = _emd_class()

    class SubEMD(class_):
        """A user's subclass of EMD with an extra setting that its decomposition uses."""

        gain = 1.0

        def emd(self, S, T=None, max_imf=-1):
            faults.hook()
            return super().emd(np.asarray(S) * self.gain, T, max_imf)

    SubEMD.__module__ = __name__
    SubEMD.__qualname__ = "SubEMD"
    return SubEMD


SubEMD = make_sub_emd()


def make_dec(spec):
    t = spec["type"]
    kw = dict(spec.get("kw", {}))
    if t == "EMD":
        d = _emd_class()(**kw)
    elif t == "sub":
        d = SubEMD(**kw)
    elif t == "modes":
        d = ModesEMD(**kw)
    elif t == "counting":
        d = CountingEMD(**kw)
    elif t == "identity":
        d = IdentityEMD()
    elif t == "probe":
        d = ProbeEMD()
    elif t == "linear":
        d = LinearEMD()
    elif t == "jit":
        d = make_jit(spec)
    else:
        raise KeyError(t)
    for k, v in spec.get("set", {}).items():
        setattr(d, k, v)
    return d


def make_jit(spec):
    from PyEMD.experimental import jitemd

    cfg = None
    if spec.get("config"):
        cfg = jitemd.default_emd_config.copy()
        for k, v in spec["config"].items():
            cfg[k] = v
    j = jitemd.JitEMD(config=cfg, **spec.get("jit", {}))
    for k, v in spec.get("jset", {}).items():
        j.config[k] = v
    return j


# -- instances -------------------------------------------------------------------------------------
def build(cfg):
    """An instance of the library from a configuration (JSON)."""
    c = cfg["cls"]
    kw = dict(cfg.get("kw", {}))
    if c == "EMD":
        inst = _emd_class()(**kw)
    elif c in ("EEMD", "CEEMDAN"):
        import PyEMD

        if cfg.get("dec"):
            kw["ext_EMD"] = make_dec(cfg["dec"])
        inst = getattr(PyEMD, c)(**kw)
        if cfg.get("swap"):  # the caller replaces the decomposer of an existing instance
            inst.EMD = make_dec(cfg["swap"])
    elif c == "matlab":
        from PyEMD.EMD_matlab import EMD

        inst = EMD()
    elif c == "jit":
        inst = make_jit(cfg)
    elif c == "EMD2D":
        from PyEMD.EMD2d import EMD2D

        inst = EMD2D(**kw)
    elif c == "BEMD":
        from PyEMD.BEMD import BEMD

        inst = BEMD()
    else:
        raise KeyError(c)
    apply_settings(inst, cfg.get("set", {}))
    if cfg.get("seed0") is not None:
        inst.noise_seed(cfg["seed0"])
    return inst


def apply_settings(inst, settings):
    for k, v in settings.items():
        obj = inst
        *path, last = k.split(".")
        for p in path:
            obj = getattr(obj, p)
        if isinstance(obj, dict):
            obj[last] = v
        else:
            setattr(obj, last, v)


def with_settings(cfg, settings):
    """The configuration of a fresh instance equivalent to cfg after the settings were changed."""
    new = dict(cfg)
    new["set"] = {**cfg.get("set", {}), **settings}
    return new


EMD_KW = ("spline_kind", "extrema_detection", "FIXE", "FIXE_H", "nbsym", "std_thr", "svar_thr", "energy_ratio_thr", "MAX_ITERATION")


def explicit(cfg):
    """An ensemble configuration that means the same, said differently: settings changed after construction are given to the
    constructor instead, and a default decomposer is built by the caller. None if there is nothing to say differently."""
    if cfg.get("swap"):
        return {**{k: v for k, v in cfg.items() if k != "swap"}, "dec": cfg["swap"]}
    new = serial(cfg)
    kw, dec = dict(new["kw"]), new.get("dec")
    if dec is None:
        names = EMD_KW + (("total_power_thr", "range_thr") if cfg["cls"] == "EEMD" else ())
        dec = {"type": "EMD", "kw": {k: kw.pop(k) for k in names if k in kw}}
    else:
        dec = {**dec, "set": dict(dec.get("set", {}))}
    rest = {}
    for k, v in new.get("set", {}).items():
        if k.startswith("EMD.") and k.count(".") == 1:
            dec["kw" if dec["type"] == "EMD" else "set"][k[4:]] = v
        elif "." not in k:
            kw[k] = v
        else:
            rest[k] = v
    return {"cls": cfg["cls"], "kw": kw, "dec": dec, "set": rest}


def is_parallel(cfg):
    return bool({**cfg.get("kw", {}), **cfg.get("set", {})}.get("parallel"))


def serial(cfg):
    """The same configuration without parallelism."""
    new = dict(cfg)
    new["kw"] = {**cfg.get("kw", {}), "parallel": False}
    new["kw"].pop("processes", None)
    if "set" in new:
        new["set"] = {k: v for k, v in new["set"].items() if k not in ("parallel", "processes")}
    return new


def decompose(inst, cls, call, S=None, T=None):
    """Perform one decomposition call described by `call` = {sig, t, max_imf, via, progress, layout}."""
    if cls in ("EMD2D", "BEMD"):
        if S is None:
            S = layout(image(call["img"]), call.get("layout"))
        fn = inst if call.get("via") == "call" else (inst.emd if cls == "EMD2D" else inst.bemd)
        return fn(S, max_imf=call.get("max_imf", 1))
    if S is None:
        S = layout(signal(call["sig"]), call.get("layout"))
        T = layout(timeline(call.get("t"), call["sig"]["n"]), call.get("layout"))
        if call.get("buf"):
            S, T = refill(S, "S"), refill(T, "T")
    m = call.get("max_imf", -1)
    if cls == "EMD":
        if call.get("via") == "call":
            return inst(S, T, max_imf=m)
        return inst.emd(S, T, max_imf=m)
    if cls == "jit":
        T = T if T is not None else np.arange(len(S), dtype=float)
        return inst(S, T, max_imf=m) if call.get("via") == "call" else inst.emd(S, T, max_imf=m)
    if cls == "matlab":
        imf, ext, it, no = inst.emd(inst, S, T, None if m == -1 else m)
        return np.array([imf[k] for k in sorted(imf)])
    if cls in ("EEMD", "CEEMDAN"):
        fn = inst if call.get("via") == "call" else getattr(inst, cls.lower())
        return fn(S, T, max_imf=m, progress=bool(call.get("progress")))
    raise KeyError(cls)


class Outcome:
    """What a call did: a value, an exception, or a hang."""

    def __init__(self, kind, value=None, exc=None, msg=None):
        self.kind = kind
        self.value = value
        self.exc = exc
        self.msg = msg

    def __repr__(self):
        if self.kind == "ok":
            v = self.value
            return f"returned {getattr(v, 'shape', type(v).__name__)}"
        if self.kind == "hang":
            return "never finished"
        return f"raised {self.exc}({(self.msg or '')[:80]})"


def attempt(fn):
    """Run fn and turn what happens into an Outcome."""
    from dst.sim import HarnessError, SimHang, Violation

    try:
        return Outcome("ok", fn())
    except (HarnessError, Violation):
        raise
    except SimHang as e:
        return Outcome("hang", msg=str(e))
    except BaseException as e:
        return Outcome("exc", exc=type(e).__name__, msg=str(e))


# -- comparison ------------------------------------------------------------------------------------
def same(a, b, rtol=1e-9):
    """Equal up to rounding. None equals only None; NaNs are equal to each other."""
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if a.dtype == object or b.dtype == object:
        return all(same(x, y, rtol) for x, y in zip(a.ravel(), b.ravel()))
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(fa, fb):
        return False
    if not np.array_equal(np.isnan(a), np.isnan(b)):
        return False
    if not fa.any():
        return True
    scale = max(np.max(np.abs(a[fa])), np.max(np.abs(b[fb])))
    return bool(np.all(np.abs(a[fa] - b[fb]) <= rtol * scale))


def maxdiff(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return f"shapes {a.shape} and {b.shape}"
    with np.errstate(all="ignore"):
        return f"max difference {np.nanmax(np.abs(a - b)):.3g}" if a.size else "empty"


def same_outcome(a, b, rtol=1e-9):
    if a.kind != b.kind:
        return False
    if a.kind == "ok":
        return same(a.value, b.value, rtol)
    if a.kind == "exc":
        return a.exc == b.exc
    return True


def describe_diff(a, b):
    if a.kind == b.kind == "ok":
        return maxdiff(a.value, b.value)
    return f"{a!r} instead of {b!r}"


# -- observation -----------------------------------------------------------------------------------
def observe(inst, cls):
    """Everything the accessors report, as copies."""
    obs = {}

    def get(name, fn):
        o = attempt(fn)
        if o.kind == "ok":
            v = o.value
            if isinstance(v, tuple):
                v = tuple(np.array(x, copy=True) for x in v)
            elif isinstance(v, dict):
                v = {int(k): np.array(x, copy=True) for k, x in v.items()}
            elif isinstance(v, list):
                v = list(v)
            else:
                v = np.array(v, copy=True)
            obs[name] = ("ok", v)
        else:
            obs[name] = ("exc", o.exc)

    if cls in ("EMD", "EEMD", "CEEMDAN"):
        get("pair", inst.get_imfs_and_residue)
    if cls == "EMD":
        get("trend", inst.get_imfs_and_trend)
    if cls == "EEMD":
        get("all", lambda: inst.all_imfs)
        get("count", inst.ensemble_count)
        get("mean", inst.ensemble_mean)
        get("std", inst.ensemble_std)
    if cls == "jit":
        obs["imfs"] = ("ok", None if inst.imfs is None else np.array(inst.imfs))
        obs["residue"] = ("ok", None if inst.residue is None else np.array(inst.residue))
    return obs


def canon_members(a):
    """Ensemble members in an order that does not depend on the schedule."""
    a = np.asarray(a)
    if a.ndim < 2 or a.shape[0] < 2:
        return a
    key = a.reshape(a.shape[0], -1) @ np.cos(np.arange(int(np.prod(a.shape[1:]))) * 1.7)
    return a[np.argsort(key, kind="stable")]


def same_obs(a, b, rtol=1e-9, unordered=False):
    """None if the observations agree, else a description of the first difference."""
    if a.keys() != b.keys():
        return f"accessors {sorted(a)} / {sorted(b)}"
    for k in a:
        (ka, va), (kb, vb) = a[k], b[k]
        if ka != kb:
            return f"{k}: {ka} instead of {kb}"
        if ka == "exc":
            if va != vb:
                return f"{k}: raises {va} instead of {vb}"
            continue
        if isinstance(va, tuple):
            for i, (x, y) in enumerate(zip(va, vb)):
                if not same_scaled(x, y, rtol, va):
                    return f"{k}[{i}]: {maxdiff(x, y)}"
        elif isinstance(va, dict):
            if list(va) != list(vb):
                return f"{k}: modes {list(va)} instead of {list(vb)}"
            for m in va:
                x, y = (canon_members(va[m]), canon_members(vb[m])) if unordered else (va[m], vb[m])
                if not same(x, y, rtol):
                    return f"{k}[{m}]: {maxdiff(x, y)}"
        elif isinstance(va, list):
            if va != vb:
                return f"{k}: {va} instead of {vb}"
        elif not same_scaled(va, vb, rtol, (va,) + tuple(a["pair"][1] if a.get("pair", ("", 0))[0] == "ok" else ())):
            return f"{k}: {maxdiff(va, vb)}"
    return None


def not_identical(a, b):
    """None if two observations agree to the last bit and in type, else a description of the first difference."""
    if a.keys() != b.keys():
        return f"accessors {sorted(a)} / {sorted(b)}"

    def diff(x, y):
        if isinstance(x, dict):
            if not isinstance(y, dict) or list(x) != list(y):
                return "other keys"
            return next((f"[{k}]: {d}" for k in x for d in [diff(x[k], y[k])] if d), None)
        if isinstance(x, (list, tuple)):
            if not isinstance(y, (list, tuple)) or len(x) != len(y):
                return "other length"
            return next((f"[{k}]: {d}" for k, (u, v) in enumerate(zip(x, y)) for d in [diff(u, v)] if d), None)
        if isinstance(x, np.ndarray):
            if not isinstance(y, np.ndarray) or x.dtype != y.dtype or x.shape != y.shape:
                return f"{getattr(x, 'dtype', None)}{np.shape(x)} instead of {getattr(y, 'dtype', None)}{np.shape(y)}"
            return None if np.array_equal(x, y, equal_nan=x.dtype.kind == "f") else maxdiff(x, y)
        return None if x == y or (x != x and y != y) else f"{x!r} instead of {y!r}"

    return next((f"{k}{d}" for k in a for d in [diff(a[k], b[k])] if d), None)


def same_scaled(x, y, rtol, group):
    """Equal up to rounding relative to the largest magnitude in the group (a residue may be all rounding)."""
    if same(x, y, rtol):
        return True
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape or x.dtype == object:
        return False
    m = 0.0
    for g in group:
        g = np.asarray(g, dtype=float)
        g = g[np.isfinite(g)]
        if g.size:
            m = max(m, float(np.max(np.abs(g))))
    if not np.array_equal(np.isfinite(x), np.isfinite(y)):
        return False
    f = np.isfinite(x)
    return bool(np.all(np.abs(x[f] - y[f]) <= rtol * m))


# -- random configurations -------------------------------------------------------------------------
SPLINES = ["cubic", "cubic", "cubic", "akima", "pchip", "cubic_hermite", "slinear", "quadratic", "linear"]
KINDS = ["mix", "mix", "chirp", "walk", "noise", "burst", "offset", "steps"]


def gen_signal(r, lo=16, hi=72, kinds=None, dtypes=("f8",)):
    spec = {
        "k": r.choice(kinds or KINDS),
        "n": r.randint(lo, hi),
        "s": r.randrange(10**6),
        "d": r.choice(dtypes),
    }
    x = r.random()
    if x < 0.06:
        spec["n"] = r.randint(5, 13)
    elif x < 0.08:
        spec["n"] = r.randint(100, 260)
    elif x < 0.084:
        spec["n"] = r.randint(300, 1300)
    if not kinds and r.random() < 0.07:
        spec["k"] = r.choice(["trend", "trend", "trend", "tiny", "flat"])
        if r.random() < 0.3:
            spec["n"] = r.randint(3, 6)
    if r.random() < 0.08:
        spec["faint"] = 10.0 ** -r.randint(2, 9)
        if r.random() < 0.6 and not kinds:
            spec["k"] = "pure"
    if spec["d"][0] == "f" and r.random() < 0.07:
        spec["amp"] = r.choice([1e-9, 1e-5, 1e-3, 1e5])
    return spec


def gen_emd_kw(r):
    if r.random() < 0.12:
        return {}
    kw = {"MAX_ITERATION": r.choice([15, 40, 100])}
    if r.random() < 0.4:
        kw["spline_kind"] = r.choice(SPLINES)
    if r.random() < 0.25:
        kw["extrema_detection"] = "parabol"
    if r.random() < 0.2:
        kw["FIXE"] = r.randint(1, 6)
    elif r.random() < 0.2:
        kw["FIXE_H"] = r.randint(1, 4)
    if r.random() < 0.3:
        kw["nbsym"] = r.randint(1, 3)
    for name, vals in (
        ("std_thr", [0.05, 0.2, 0.5]),
        ("svar_thr", [0.001, 0.01, 0.1]),
        ("energy_ratio_thr", [0.05, 0.2, 0.5]),
        ("total_power_thr", [0.001, 0.005, 0.5]),
        ("range_thr", [0.0001, 0.001, 0.1]),
    ):
        if r.random() < 0.2:
            kw[name] = r.choice(vals)
    return kw


def gen_timeline(r, p=0.3):
    if r.random() < p:
        return {"k": r.choice(["unit", "lin", "nonuni", "int"]), "s": r.randrange(1000)}
    return None


def gen_call(r, **kw):
    c = {
        "sig": gen_signal(r, **kw),
        "t": gen_timeline(r),
        "max_imf": r.choice([-1, -1, 1, 2, 3]),
        "via": r.choice(["method", "call"]),
    }
    return c


def gen_dec(r, cheap=0.6):
    """A decomposer for an ensemble: None = the default one."""
    x = r.random()
    if x < cheap:
        t = r.choice(["modes", "modes", "counting", "identity"])
        if t == "identity":
            return {"type": t}
        d = {"type": t, "kw": {"limit": r.randint(1, 5), "power": r.choice([0.0, 1.0, 2.0])}}
        if r.random() < 0.4:
            d["set"] = {"power": r.choice([0.5, 3.0])}
        return d
    if x < cheap + 0.15:
        d = {"type": r.choice(["EMD", "sub"]), "kw": gen_emd_kw(r)}
        if d["type"] == "sub":
            d["set"] = {"gain": r.choice([1.0, 0.5])}
        return d
    return None


def gen_eemd(r, parallel=None, cheap=0.6, max_trials=10, trends=True):
    dec = gen_dec(r, cheap)
    kw = {"trials": r.choice([1, 2, 3, 4, 5, 7, max_trials, r.randint(1, max_trials)])}
    if dec is None or dec["type"] in ("EMD", "sub"):
        kw["trials"] = min(kw["trials"], 5)
    if r.random() < 0.6:
        kw["noise_width"] = r.choice([0.01, 0.05, 0.3])
    if r.random() < 0.4:
        kw["noise_kind"] = r.choice(["normal", "uniform"])
    if trends and r.random() < 0.35:
        kw["separate_trends"] = True
    par = r.random() < 0.6 if parallel is None else parallel
    kw["parallel"] = par
    if par and r.random() < 0.85:
        kw["processes"] = r.randint(1, 5)
    if dec is None:
        kw.update(gen_emd_kw(r))
        if r.random() < 0.15:  # nothing configured that has a default
            kw = {k: kw[k] for k in ("trials", "parallel")}
    elif dec["type"] not in ("EMD", "sub") and r.random() < 0.03:
        kw["trials"] = r.randint(20, 90)
    cfg = {"cls": "EEMD", "kw": kw, "dec": dec}
    if r.random() < 0.3:
        cfg["set"] = {}
        if r.random() < 0.4:
            cfg["set"]["trials"] = max(1, kw["trials"] - 1)
        if r.random() < 0.4:
            cfg["set"]["noise_width"] = r.choice([0.02, 0.1])
        if dec is None and r.random() < 0.7:
            cfg["set"]["EMD.FIXE"] = r.randint(1, 4)
        if dec is None and r.random() < 0.3:
            cfg["set"]["EMD.spline_kind"] = r.choice(SPLINES)
    return cfg


def gen_ceemdan(r, parallel=None, cheap=0.5, max_trials=8):
    dec = gen_dec(r, cheap)
    kw = {"trials": r.choice([1, 2, 3, 4, 5, r.randint(1, max_trials)])}
    if dec is None or dec["type"] in ("EMD", "sub"):
        kw["trials"] = min(kw["trials"], 4)
    if r.random() < 0.5:
        kw["epsilon"] = r.choice([0.001, 0.005, 0.1])
    if r.random() < 0.4:
        kw["noise_kind"] = r.choice(["normal", "uniform"])
    if r.random() < 0.4:
        kw["noise_scale"] = r.choice([0.5, 1.0, 2.0])
    if r.random() < 0.4:
        kw["beta_progress"] = r.random() < 0.5
    par = r.random() < 0.6 if parallel is None else parallel
    kw["parallel"] = par
    if par and r.random() < 0.85:
        kw["processes"] = r.randint(1, 5)
    kw["max_imf"] = r.choice([3, 4, 6])
    if dec is None:
        e = gen_emd_kw(r)
        e.pop("total_power_thr", None)
        e.pop("range_thr", None)
        kw.update(e)
        if r.random() < 0.15:
            kw = {k: kw[k] for k in ("trials", "parallel")}
    elif dec["type"] not in ("EMD", "sub") and r.random() < 0.03:
        kw["trials"] = r.randint(20, 60)
    cfg = {"cls": "CEEMDAN", "kw": kw, "dec": dec}
    if r.random() < 0.3:
        cfg["set"] = {}
        if r.random() < 0.4:
            cfg["set"]["trials"] = max(1, kw["trials"] - 1)
        if r.random() < 0.4:
            cfg["set"]["epsilon"] = r.choice([0.002, 0.05])
        if dec is None and r.random() < 0.7:
            cfg["set"]["EMD.FIXE"] = r.randint(1, 4)
    return cfg


def gen_env(r):
    """Environment of a run: start method, clock, pids, cpu count."""
    env = {
        "start": r.choice(["fork", "fork", "spawn", "forkserver"]),
        "cpus": r.randint(1, 6),
        "clock": r.choice([1.7e9, 0.0, 1.7e9 + r.randrange(10**6), 2.0**31]),
        "clock_step": r.choice([0.0, 1e-6, 1e-3]),
        "pids": r.choice(["fresh", "reused"]),
        "pid": r.choice([1000, 77, 31337]),
    }
    if r.random() < 0.4:
        env["jumps"] = {str(r.randint(1, 60)): r.choice([-86400.0, 3600.0, -1.0, 1e6]) for _ in range(r.randint(1, 3))}
    r2 = random.Random(repr(env) + str(r.getstate()[1][0]))  # of its own, to leave the rest of the plan as it was
    env["load"] = round(r2.choice([0.0, r2.random(), r2.random() * 8, 90.0]), 3)
    if r2.random() < 0.2:
        env["env_reply"] = r2.choice(["1", "0", "2", "true", "DEBUG", "0.25"])
    return env

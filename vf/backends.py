"""Uniform access to the six implementations of the transform, symbolic and concrete.

Parameters are a dict p: L, N, J_min, lam, spin, sampling, nside, reality and, per
implementation, how optional arguments are supplied:
  filters  : "vec" | "jax" | "loop" | "none"
  precomps : "given" | "none"        (jax backend only; precompute backends need them)
  multires : True | False            (numpy backends)
  spin0    : int                     (numpy backends)
"""
import numpy as np

from .lin import Lin, NumpyShim

JAXB = ("jax", "c", "pj")
ALL = ("jax", "c", "pj", "pt", "np", "npl")
DESCR = {
    "jax": "s2wav.transforms.wavelet",
    "c": "s2wav.transforms.wavelet_c",
    "pj": "s2wav.transforms.wavelet_precompute",
    "pt": "s2wav.transforms.wavelet_precompute_torch",
    "np": "s2wav.transforms.base (vectorised)",
    "npl": "s2wav.transforms.base (looped)",
}


class CodeError(Exception):
    """The code under test raised; .orig is the exception, .where the call."""

    def __init__(self, where, orig):
        super().__init__(f"{where}: {type(orig).__name__}: {orig}")
        self.where, self.orig = where, orig


_m = {}


def mods():
    if not _m:
        from s2wav import filters, samples
        from s2wav.transforms import (
            base,
            construct,
            wavelet,
            wavelet_c,
            wavelet_precompute,
            wavelet_precompute_torch,
        )

        _m.update(
            filters=filters, samples=samples, base=base, construct=construct, jax=wavelet,
            c=wavelet_c, pj=wavelet_precompute, pt=wavelet_precompute_torch,
        )
    return _m


RECORD = None  # when a list: every filter / precompute object handed to the code under test


def _rec(x):
    if RECORD is not None:
        RECORD.append(x)
    return x


def fresh():
    """Import s2wav anew (module state as in a new process)."""
    import sys

    import jax

    for k in [k for k in sys.modules if k == "s2wav" or k.startswith("s2wav.")]:
        del sys.modules[k]
    _m.clear()
    jax.clear_caches()


def guarded(where, fn, *a, **k):
    from .lin import NotEncodable

    try:
        return fn(*a, **k)
    except NotEncodable:
        raise
    except Exception as e:
        raise CodeError(where, e) from e


def get_filters(b, p, spin0=0):
    m = mods()
    kind = p.get("filters", "vec")
    if kind == "none":
        return None
    F = m["filters"]
    args = (p["L"], p["N"], p["J_min"], p["lam"], p["spin"], spin0)
    if b == "pt":
        fn = F.filters_directional if kind == "loop" else F.filters_directional_vectorised
        return _rec(guarded("filters", fn, *args, using_torch=True))
    fn = {"vec": F.filters_directional_vectorised, "jax": F.filters_directional_jax,
          "loop": F.filters_directional}[kind]
    return _rec(guarded("filters", fn, *args))


def get_precomps(b, p, forward, nospherical=False):
    """forward=False for analysis, True for synthesis (as documented)."""
    C = mods()["construct"]
    if b in ("pj", "pt"):
        kw = {"spin": p["spin"]} if p["spin"] else {}
        if nospherical:
            kw["nospherical"] = True
        return _rec(guarded(
            "precomputes", C.generate_full_precomputes, p["L"], p["N"], p["J_min"], p["lam"],
            p["sampling"], p.get("nside"), forward, p["reality"], using_torch=(b == "pt"), **kw
        ))
    if b == "jax" and p.get("precomps") == "given":
        return _rec(guarded(
            "precomputes", C.generate_wigner_precomputes, p["L"], p["N"], p["J_min"], p["lam"],
            p["sampling"], p.get("nside"), forward, p["reality"]
        ))
    return None


def bind(b, op, p, J_max=None):
    """Callable of the signal argument(s) only, everything else supplied."""
    m = mods()
    L, N, J, lam, spin = p["L"], p["N"], p["J_min"], p["lam"], p["spin"]
    kw = dict(sampling=p["sampling"], reality=p["reality"])
    if p.get("nside") is not None:
        kw["nside"] = p["nside"]
    if b in ("np", "npl"):
        fn = {
            ("np", "analysis"): "analysis", ("np", "synthesis"): "synthesis",
            ("npl", "analysis"): "analysis_looped", ("npl", "synthesis"): "synthesis_looped",
        }[b, op]
        f = getattr(m["base"], fn)
        kw["multiresolution"] = p.get("multires", True)
        if p.get("scattering"):
            kw["scattering"] = True
        s0 = p.get("spin0", 0)
        if op == "analysis":
            return lambda x: f(x, L, N, J, lam, spin, s0, **kw)
        return lambda w, s: f(w, s, L, N, J, lam, spin, s0, **kw)
    filt = get_filters(b, p)
    # partial analysis needs no spherical kernels
    pre = get_precomps(b, p, op == "synthesis", op == "flm_to_analysis" and (L + N + J) % 2 == 1)
    f = getattr(m[b], op)
    if filt is not None:
        kw["filters"] = filt[0] if op == "flm_to_analysis" else filt
    if pre is not None:
        kw["precomps"] = pre
    if op == "analysis":
        return lambda x: f(x, L, N, J, lam, spin, **kw)
    if op == "synthesis":
        return lambda w, s: f(w, s, L, N, J, lam, spin, **kw)
    return lambda x: f(x, L, N, J, J_max, lam, **kw)


# ----------------------------------------------------------------------------- symbolic

_ctx = [None]


class shimmed:
    """numpy -> symbolic-aware numpy inside s2wav's modules, for the duration of a run."""

    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        import sys

        mods()
        self.saved = []
        _ctx[0] = self.ctx
        sh = NumpyShim(lambda: _ctx[0])
        for name, m in list(sys.modules.items()):
            if not name.startswith("s2wav") or name.startswith("s2wav.filter"):
                continue
            for k, v in list(vars(m).items()):
                if v is np:
                    w = sh
                elif isinstance(v, (np.ufunc, type(np.zeros), type(np.abs), type(np.mean), type(np.fft))) and not k.startswith("__"):
                    w = _np_member(sh, v)
                else:
                    continue
                if w is not None:
                    self.saved.append((m, k, v))
                    setattr(m, k, w)

    def __exit__(self, *a):
        _ctx[0] = None
        for m, k, v in self.saved:
            setattr(m, k, v)


def _np_member(sh, v):
    """The shim's version of a member of numpy imported by name."""
    n = getattr(v, "__name__", None)
    if not n:
        return None
    if v is getattr(np, n, None):
        return getattr(sh, n)
    if v is np.fft:
        return sh.fft
    return None


def _flat(args):
    out = []
    for a in args:
        if isinstance(a, (list, tuple)):
            out += list(a)
        else:
            out.append(a)
    return out


def sym_call(b, op, p, args, J_max=None):
    """Execute the implementation symbolically.  args: list of Lin or lists of Lin.
    Returns the flat list of outputs (Lin or concrete arrays)."""
    return sym_exec(b, op, bind(b, op, p, J_max), args)


def sym_exec(b, op, fn, args):
    where = f"{DESCR[b]}.{op}"
    flat = _flat(args)
    ctx = flat[0].ctx
    if b in ("np", "npl"):
        with shimmed(ctx):
            before = [a.c.copy() for a in flat]
            r = guarded(where, fn, *[list(a) if isinstance(a, (list, tuple)) else a for a in args])
        for x, c in zip(flat, before):
            if x.c.shape != c.shape or not np.array_equal(x.c, c):
                ctx.events.append(("mutated", where))
        out = []
        for o in r if isinstance(r, tuple) else (r,):
            out += list(o) if isinstance(o, (list, tuple)) else [o]
        return out
    if b == "pt":
        from . import torchi

        import torch

        def spec(a):
            if isinstance(a, (list, tuple)):
                return [spec(x) for x in a]
            return torch.empty(a.shape, dtype=torch.float64 if a.dtype.kind == "f" else torch.complex128)

        g = guarded(where, torchi.trace, fn, *[spec(a) for a in args])
        outs, mut = torchi.run(g, flat)
        if mut:
            ctx.events.append(("mutated", where))
        return outs
    import jax

    from . import jaxi

    def spec(a):
        if isinstance(a, (list, tuple)):
            return [spec(x) for x in a]
        return jax.ShapeDtypeStruct(a.shape, a.dtype)

    cj = guarded(where, jaxi.trace, fn, *[spec(a) for a in args])
    return jaxi.run(cj, flat)


def as_lin(o, ctx):
    if isinstance(o, Lin):
        return o
    a = np.asarray(o)
    c = np.zeros(a.shape + (ctx.K,), dtype=np.complex128)
    c[..., 0] = a
    return Lin(c, ctx, np.complex128 if a.dtype.kind == "c" else np.float64)


# ----------------------------------------------------------------------------- concrete


def conc_call(b, op, p, args, J_max=None):
    """Run the implementation for real.  args: numpy arrays / lists of them."""
    return conc_exec(b, op, bind(b, op, p, J_max), args)


def conc_exec(b, op, fn, args):
    def conv(a):
        if isinstance(a, (list, tuple)):
            return [conv(x) for x in a]
        if b == "pt":
            import torch

            return torch.from_numpy(np.ascontiguousarray(a))
        if b in JAXB:
            import jax.numpy as jnp

            return jnp.asarray(a)
        return np.array(a)

    r = guarded(f"{DESCR[b]}.{op}", fn, *[conv(a) for a in args])
    out = []

    def walk(x):
        if isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
        elif hasattr(x, "resolve_conj"):
            out.append(x.detach().resolve_conj().resolve_neg().numpy())
        else:
            out.append(np.asarray(x))

    walk(r)
    return out

"""Replace s2fft's recursive transforms by their contract (vf.ops), before s2wav is imported.

JAX functions become one custom primitive `vf_ext` (with its exact transpose `vf_ext_t`, so
reverse-mode differentiation of the surrounding code is traced for real).  The real
functions are kept under `_vf_real`.  Nothing here is active in replay processes.
"""
import sys

import numpy as np

from . import ops
from .lin import Lin, NotEncodable

SAMPLE_CODE = {"mw": 0, "mwss": 1, "dh": 2, "gl": 3, "healpix": 4}
CALLS = []  # log of external calls made by the code under test


def _pyint(x, what):
    try:
        return int(x)
    except Exception as e:
        raise NotEncodable(f"{what} is not a static integer") from e


def out_shape(kind, p):
    L, N, sampling, nside = p["L"], p["N"], p["sampling"], p["nside"]
    if kind == "sph_inv":
        return ops.sph_shape(L, sampling, nside)
    if kind == "sph_fwd":
        return (L, 2 * L - 1)
    if kind == "wig_inv":
        return ops.wig_shape(L, N, sampling, nside)
    return (2 * N - 1, L, 2 * L - 1)


def in_shape(kind, p):
    flip = {"sph_inv": "sph_fwd", "sph_fwd": "sph_inv", "wig_inv": "wig_fwd", "wig_fwd": "wig_inv"}
    return out_shape(flip[kind], p)


def apply(kind, p, c):
    """Apply the operator to coefficient columns c (..., K)."""
    L, N, s, ns, re, Ll = (p[k] for k in ("L", "N", "sampling", "nside", "reality", "L_lower"))
    if kind == "sph_inv":
        return ops.sph_inverse(c, L, p["spin"], s, ns, re, Ll)
    if kind == "sph_fwd":
        return ops.sph_forward(c, L, p["spin"], s, ns, re, Ll)
    if kind == "wig_inv":
        return ops.wig_inverse(c, L, N, s, ns, re, Ll)
    return ops.wig_forward(c, L, N, s, ns, re, Ll)


_T_CACHE = {}


def apply_t(kind, p, c):
    """Transpose under the pairing Re(ct * v) (JAX's convention for complex cotangents)."""
    key = (kind, tuple(sorted(p.items(), key=lambda kv: kv[0])))
    if key not in _T_CACHE:
        ish = in_shape(kind, p)
        n = int(np.prod(ish))
        E = np.concatenate([np.eye(n), 1j * np.eye(n)], axis=1).reshape(*ish, 2 * n)
        M = apply(kind, p, E.astype(np.complex128))
        M = M.reshape(-1, 2 * n)
        # real matrix from (Re x, Im x) to (Re y, Im y)
        _T_CACHE[key] = (np.concatenate([M.real, M.imag], axis=0), ish)
    R, ish = _T_CACHE[key]
    K = c.shape[-1]
    y = c.reshape(-1, K)
    n = R.shape[1] // 2
    # Re(ct*v) = Re ct Re v - Im ct Im v
    w = R.T @ np.concatenate([y.real, -y.imag], axis=0)
    return (w[:n] - 1j * w[n:]).reshape(*ish, K)


_state = {}


def _jax_prims():
    if "p" in _state:
        return _state["p"], _state["t"]
    import jax
    from jax import core
    from jax.interpreters import ad, mlir, xla  # noqa: F401

    ext = core.Primitive("vf_ext")
    extt = core.Primitive("vf_ext_t")

    def real_out(kind, p):
        return p["reality"] and kind in ("sph_inv", "wig_inv")

    def aval(x, *tok, kind, params):
        p = dict(params)
        if tuple(x.shape) != tuple(in_shape(kind, p)):
            raise AssertionError(
                f"{kind}: array of shape {tuple(x.shape)}, expected {in_shape(kind, p)}"
            )
        dt = np.float64 if real_out(kind, p) else np.complex128
        return core.ShapedArray(out_shape(kind, p), np.dtype(dt))

    def aval_t(ct, *, kind, params, in_dtype):
        return core.ShapedArray(in_shape(kind, dict(params)), np.dtype(in_dtype))

    ext.def_abstract_eval(aval)
    extt.def_abstract_eval(aval_t)

    def impl(x, *tok, kind, params):
        import jax.numpy as jnp

        r = apply(kind, dict(params), np.asarray(x).astype(np.complex128)[..., None])[..., 0]
        return jnp.asarray(r.real if real_out(kind, dict(params)) else r)

    ext.def_impl(impl)

    def jvp(primals, tangents, *, kind, params):
        x, *tok = primals
        t = tangents[0]
        y = ext.bind(x, *tok, kind=kind, params=params)
        if type(t) is ad.Zero:
            return y, ad.Zero.from_primal_value(y)
        return y, ext.bind(t, *tok, kind=kind, params=params)

    ad.primitive_jvps[ext] = jvp

    def transpose(ct, x, *tok, kind, params):
        if type(ct) is ad.Zero:
            return [ad.Zero(x.aval)] + [None] * len(tok)
        r = extt.bind(ct, kind=kind, params=params, in_dtype=str(x.aval.dtype))
        return [r] + [None] * len(tok)

    ad.primitive_transposes[ext] = transpose
    _state["p"], _state["t"] = ext, extt
    return ext, extt


def _mk(kind, x, L, spin, N, nside, sampling, reality, L_lower, tok=None):
    import jax.numpy as jnp

    ext, _ = _jax_prims()
    if not isinstance(sampling, str):
        raise NotEncodable("sampling is not a string")
    s = sampling.lower()
    L, spin, N, L_lower = (_pyint(v, n) for v, n in ((L, "L"), (spin, "spin"), (N, "N"), (L_lower, "L_lower")))
    if s not in SAMPLE_CODE:
        raise ValueError(f"Sampling scheme sampling={sampling} not supported")
    if not 0 <= L_lower < L:
        raise IndexError("L_lower outside [0, L)")
    nside = None if nside is None or s != "healpix" else int(nside)
    params = tuple(
        sorted(dict(L=L, spin=spin, N=N, nside=nside, sampling=s, reality=bool(reality), L_lower=L_lower).items())
    )
    CALLS.append((kind, params))
    args = [jnp.asarray(x)]
    if tok is not None:
        args.append(jnp.asarray(tok))
    return ext.bind(*args, kind=kind, params=params)


def token(L, N, sampling, nside, forward, reality, L_lower):
    return np.array(
        [7.25, L, N, SAMPLE_CODE[sampling.lower()], nside or 0, bool(forward), bool(reality), L_lower],
        dtype=np.float64,
    )


def token_matches(tok, kind, params):
    p = dict(params)
    t = np.asarray(tok)
    if t.shape != (8,) or t[0] != 7.25:
        return False
    want = token(p["L"], p["N"], p["sampling"], p["nside"], kind == "wig_fwd", p["reality"], p["L_lower"])
    return bool(np.array_equal(t, want))


def install():
    """Patch every s2fft module.  Must run before `import s2wav`."""
    if _state.get("installed"):
        return
    assert not any(m == "s2wav" or m.startswith("s2wav.") for m in sys.modules)
    import importlib
    import pkgutil

    import jax.numpy as jnp
    import s2fft
    import s2fft.base_transforms.spherical as bs
    import s2fft.base_transforms.wigner as bw
    import s2fft.precompute_transforms.construct as pc
    import s2fft.transforms.c_backend_spherical as cs

    for m in pkgutil.walk_packages(s2fft.__path__, "s2fft."):
        try:
            importlib.import_module(m.name)
        except Exception:
            pass

    def forward_jax(f, L, spin=0, nside=None, sampling="mw", reality=False, precomps=None,
                    spmd=False, L_lower=0, use_healpix_custom_primitive=False):
        return _mk("sph_fwd", f, L, spin, 1, nside, sampling, reality, L_lower)

    def inverse_jax(flm, L, spin=0, nside=None, sampling="mw", reality=False, precomps=None,
                    spmd=False, L_lower=0):
        return _mk("sph_inv", flm, L, spin, 1, nside, sampling, reality, L_lower)

    def wforward_jax(f, L, N, nside=None, sampling="mw", reality=False, precomps=None, L_lower=0):
        return _mk("wig_fwd", f, L, 0, N, nside, sampling, reality, L_lower,
                   None if precomps is None else precomps[0])

    def winverse_jax(flmn, L, N, nside=None, sampling="mw", reality=False, precomps=None, L_lower=0):
        return _mk("wig_inv", flmn, L, 0, N, nside, sampling, reality, L_lower,
                   None if precomps is None else precomps[0])

    def gen_pre(L, N, sampling="mw", nside=None, forward=False, reality=False, L_lower=0):
        t = jnp.asarray(token(L, N, sampling, nside, forward, reality, L_lower))
        return [t] * 5

    names = ["mw", "mwss", "dh", "gl"]

    def ssht_forward(f, L, spin=0, reality=False, ssht_sampling=0, _ssht_backend=1):
        if abs(_pyint(spin, "spin")) >= L:
            raise RuntimeError("ssht: |spin| must be below the band-limit")
        return _mk("sph_fwd", f, L, spin, 1, None, names[ssht_sampling], reality, 0)

    def ssht_inverse(flm, L, spin=0, reality=False, ssht_sampling=0, _ssht_backend=1):
        if abs(_pyint(spin, "spin")) >= L:
            raise RuntimeError("ssht: |spin| must be below the band-limit")
        return _mk("sph_inv", flm, L, spin, 1, None, names[ssht_sampling], reality, 0)

    kc = {}

    def kernel(fn):
        real = getattr(pc, fn)

        def k(*a, **kw):
            import inspect

            b = inspect.signature(getattr(pc, fn + "_jax_vf")).bind(*a, **kw)
            b.apply_defaults()
            key = (fn,) + tuple(b.arguments.items())
            if key not in kc:
                try:
                    kc[key] = np.asarray(real(**dict(b.arguments)))
                except IndexError:  # numpy generator does not cover N > L; the JAX one does
                    kc[key] = np.asarray(getattr(pc, fn + "_jax_vf")(**dict(b.arguments)))
            return jnp.asarray(kc[key])

        return k

    pc.wigner_kernel_jax_vf = pc.wigner_kernel_jax
    pc.spin_spherical_kernel_jax_vf = pc.spin_spherical_kernel_jax

    def base_sph(kind, real):
        def fn(f, L, spin=0, sampling="mw", nside=None, reality=False, L_lower=0, iter=0):
            if not isinstance(f, Lin):
                return real(f, L, spin, sampling, nside, reality, L_lower)
            if iter:
                raise NotEncodable("iterative refinement")
            CALLS.append((kind, (L, spin, sampling, nside, reality, L_lower)))
            op = ops.sph_forward if kind == "sph_fwd" else ops.sph_inverse
            r = op(f.c, int(L), int(spin), sampling, nside, reality, int(L_lower))
            real_o = reality and spin == 0 and kind == "sph_inv"
            return Lin(r, f.ctx, np.float64 if real_o else np.complex128)

        return fn

    def base_wig(kind, real):
        def fn(f, L, N, L_lower=0, sampling="mw", reality=False, nside=None):
            if not isinstance(f, Lin):
                return real(f, L, N, L_lower, sampling, reality, nside)
            CALLS.append((kind, (L, N, L_lower, sampling, reality, nside)))
            op = ops.wig_forward if kind == "wig_fwd" else ops.wig_inverse
            r = op(f.c, int(L), int(N), sampling, nside, reality, int(L_lower), True)
            real_o = reality and kind == "wig_inv"
            return Lin(r, f.ctx, np.float64 if real_o else np.complex128)

        return fn

    table = [
        (s2fft.forward_jax, forward_jax),
        (s2fft.inverse_jax, inverse_jax),
        (s2fft.wigner.forward_jax, wforward_jax),
        (s2fft.wigner.inverse_jax, winverse_jax),
        (s2fft.generate_precomputes_wigner_jax, gen_pre),
        (cs.ssht_forward, ssht_forward),
        (cs.ssht_inverse, ssht_inverse),
        (pc.wigner_kernel_jax, kernel("wigner_kernel")),
        (pc.spin_spherical_kernel_jax, kernel("spin_spherical_kernel")),
        (bs.forward, base_sph("sph_fwd", bs.forward)),
        (bs.inverse, base_sph("sph_inv", bs.inverse)),
        (bw.forward, base_wig("wig_fwd", bw.forward)),
        (bw.inverse, base_wig("wig_inv", bw.inverse)),
    ]
    for real, stub in table:
        stub._vf_real = real
        hit = 0
        for name, mod in list(sys.modules.items()):
            if not (name == "s2fft" or name.startswith("s2fft.")) or mod is None:
                continue
            for k, v in list(vars(mod).items()):
                if v is real and not k.endswith("_vf"):
                    setattr(mod, k, stub)
                    hit += 1
        assert hit, real
    _state["installed"] = True

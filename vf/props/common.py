import numpy as np

from .. import backends as B
from .. import model, ops, query
from ..lin import Context, Lin, pad_cols

TOL = 3e-10

S2FFT = (
    "s2fft contract: forward/inverse spherical and Wigner transforms (recursive JAX, C and numpy "
    "versions) are the exact linear operators of their documentation (built from ssht/ducc0, validated "
    "against the installed s2fft by vf.selftest); the s2fft precompute transforms are not assumed, "
    "their code is executed symbolically with kernels from s2fft's own generators"
)
REALS = (
    "array arithmetic is exact real arithmetic on the float64 constants of the code; float rounding is "
    "absorbed by the assertion tolerance 1e-9"
)
BOX = "signal / coefficient degrees of freedom range over the box [-1,1] (linearity scales the result)"
TRACE = "JAX/torch tracing and compilation preserve the traced program (jaxpr / functionalised aten graph)"
BASE_ASSUME = [S2FFT, REALS, BOX, TRACE]

FN_TRANSFORMS = [
    "s2wav.transforms.wavelet.{analysis,synthesis,flm_to_analysis}",
    "s2wav.transforms.wavelet_c.{analysis,synthesis,flm_to_analysis,_generate_and_apply_wavelets,"
    "_generate_and_apply_scaling,_sum_over_wavelet_and_scaling}",
    "s2wav.transforms.wavelet_precompute.{analysis,synthesis,flm_to_analysis}",
    "s2wav.transforms.wavelet_precompute_torch.{analysis,synthesis,flm_to_analysis}",
    "s2wav.transforms.base.{analysis,synthesis,analysis_looped,synthesis_looped}",
    "s2wav.transforms.construct.*", "s2wav.samples.*",
    "s2wav.filters.* (evaluated on the task's concrete parameters)",
    "s2fft.precompute_transforms.{spherical,wigner} (executed symbolically)",
]


def cost(task):
    p = task["p"]
    if p.get("wide"):
        return 20 + p["L"] * {"pt": 2, "pj": 2}.get(task.get("backend"), 1)
    base = {"pt": 3.0, "pj": 1.0, "c": 0.8, "jax": 0.6, "np": 0.1, "npl": 0.3}.get(task.get("backend"), 1)
    return base * (1 + len(model.scales(p["L"], p["J_min"], p["lam"]))) + (p["L"] / 8) ** 5 * p["N"]


def flm_vars(p):
    """(L, 2L-1, K): arbitrary harmonic coefficients of the signal (wide tasks: of a signal in a
    stated subspace)."""
    if p.get("wide"):
        d, u = p["wide"]
        return ops.wide_basis(p["L"], p["spin"], p["reality"], p["lam"], d, u, ops._key(p["L"], p["N"], p["J_min"], p["lam"], d, u))
    return ops.harmonic_basis(p["L"], p["spin"], p["reality"])


def signal(p, c, ctx):
    f = ops.sph_inverse(c, p["L"], p["spin"], p["sampling"], p.get("nside"), p["reality"])
    return Lin(f, ctx, np.float64 if p["reality"] else np.complex128)


def eps(p):
    """Filters are square roots of differences of k values, so their tails are determined to
    sqrt(machine precision) only; at large L that is visible in comparisons with the model."""
    return 1e-6 if p.get("wide") else query.EPS


def tol(p):
    return 3e-7 if p.get("wide") else TOL


def ev(c, x):
    """Evaluate columns at a point (x[0] == 1)."""
    x = np.asarray(x, dtype=float)[: c.shape[-1]]
    return c @ x.astype(c.dtype) if c.shape[-1] == len(x) else c[..., : len(x)] @ x


SCALE = [1.0]  # amplitude of the replayed input when it is far from one
PROBE = [None]


def point(n, x, seed=7):
    SCALE[0] = 1.0
    if x is None:
        r = np.random.default_rng(seed)
        x = np.concatenate([[1.0], r.uniform(-1, 1, n)])
        if PROBE[0] == "tiny":
            x[1:] *= 1e-14
        elif PROBE[0] == "huge":
            x[1:] *= 1e9
        elif PROBE[0] == "sparse":
            x[1:] *= r.integers(0, 6, n) == 0
        elif PROBE[0] == "zero":
            x[1:] = 0
    x = np.asarray(x, dtype=float)[: n + 1]
    a = float(np.max(np.abs(x[1:]), initial=0))
    if 0 < a < 1e-3 or a > 1:
        SCALE[0] = a
    return x


def decide(ctx, pairs, names=None, eps=query.EPS):
    """pairs: list of (Lin or array got, coefficient array want).  Shape mismatch = violation."""
    res = {"status": "holds", "counts": {"assertions": 0}}
    for i, (got, want) in enumerate(pairs):
        g = B.as_lin(got, ctx).c
        want = np.asarray(want)
        nm = names[i] if names else str(i)
        if g.shape[:-1] != want.shape[:-1]:
            return {"status": "cex", "x": _generic(ctx), "detail": f"{nm}: shape {g.shape[:-1]} instead of {want.shape[:-1]}"}
        K = max(g.shape[-1], want.shape[-1], ctx.K)
        D = pad_cols(g, K) - pad_cols(want.astype(np.complex128), K)
        v, x = query.zero(ctx, D, eps)
        res["counts"]["assertions"] += int(np.prod(D.shape[:-1])) * 2
        if v == "cex":
            return {"status": "cex", "x": list(map(float, x)), "detail": f"{nm}: max residual coefficient {np.nanmax(np.abs(D)):.3g}"}
        if v != "holds":
            res["status"], res["detail"] = "unknown", nm
    return res


def _generic(ctx, seed=3):
    r = np.random.default_rng(seed)
    return [1.0] + [float(v) for v in r.uniform(-1, 1, ctx.n_inputs)]


def differs(got, want, tol=TOL):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return f"shape {got.shape} instead of {want.shape}"
    if got.size == 0:
        return None
    if not np.all(np.isfinite(got)):
        return "non-finite values"
    e = float(np.max(np.abs(got - want)))
    s = max(SCALE[0], float(np.max(np.abs(want))))
    return f"max error {e:.3e} (values up to {np.max(np.abs(want)):.3g})" if e > tol * s else None


def compare_all(gots, wants, names, tol=TOL):
    if len(gots) != len(wants):
        return True, f"{len(gots)} outputs instead of {len(wants)}"
    msgs = []
    for g, w, n in zip(gots, wants, names):
        d = differs(g, w, tol)
        if d:
            msgs.append(f"{n}: {d}")
    return bool(msgs), "; ".join(msgs) or "agrees with the specification"


def coef_vars(p, multires=True, real=False):
    """Arbitrary band-limited wavelet and scaling coefficient maps (all orders n, all l),
    as columns over one set of variables: list of maps, scaling map, number of variables."""
    L, N, J_min, lam = p["L"], p["N"], p["J_min"], p["lam"]
    s, ns = p["sampling"], p.get("nside")
    blocks = []
    for j in model.scales(L, J_min, lam):
        Lj, Nj = model.LN(L, j, N, lam, multires)
        blocks.append(("w", Lj, Nj))
    Ls = model.L_scal(L, J_min, lam, multires)
    blocks.append(("s", Ls, 1))
    if p.get("wide") and s != "healpix":
        return _coef_wide(p, blocks, real)
    dims, entries = [], []
    for kind, l, n in blocks:
        e = []
        if s == "healpix":
            npix = 12 * ns * ns * (2 * n - 1)
            e = list(range(npix))
        elif kind == "w":
            for nn in range(0 if real else -n + 1, n):
                for el in range(abs(nn), l):
                    for m in range(-el, el + 1):
                        e.append((n - 1 + nn, el, l - 1 + m))
        else:
            for el in range(abs(p["spin"]), l):
                for m in range(-el, el + 1):
                    e.append((el, l - 1 + m))
        entries.append(e)
        dims.append(2 * len(e))
    K = 1 + sum(dims)
    maps, off = [], 1
    for (kind, l, n), e in zip(blocks, entries):
        if s == "healpix":
            shape = ((2 * n - 1, 12 * ns * ns) if kind == "w" else (12 * ns * ns,))
            c = np.zeros((len(e), K), dtype=np.complex128)
            for i in range(len(e)):
                c[i, off + 2 * i] = 1
                c[i, off + 2 * i + 1] = 1j
            maps.append(c.reshape(shape + (K,)))
            off += 2 * len(e)
            continue
        k = 2 * len(e)
        c = np.zeros(((2 * n - 1, l, 2 * l - 1) if kind == "w" else (l, 2 * l - 1)) + (k,), dtype=np.complex128)
        for i, idx in enumerate(e):
            c[idx + (2 * i,)] = 1
            c[idx + (2 * i + 1,)] = 1j
        if k == 0:
            px = np.zeros(ops.sph_shape(l, s, ns) + (0,), dtype=np.complex128)
            maps.append(np.zeros(px.shape[:-1] + (K,), dtype=np.complex128))
            continue
        px = ops.wig_inverse(c, l, n, s, ns) if kind == "w" else ops.sph_inverse(c, l, p["spin"], s, ns)
        if real:
            px = px.real.astype(np.complex128)
        full = np.zeros(px.shape[:-1] + (K,), dtype=np.complex128)
        full[..., off : off + k] = px
        off += k
        maps.append(full)
    return maps[:-1], maps[-1], K - 1


def _coef_wide(p, blocks, real, per=3):
    """Per map: generic band-limited directions plus single (n,l,m) entries."""
    s, ns = p["sampling"], p.get("nside")
    rng = np.random.default_rng(ops._key("coef", p["L"], p["N"], p["J_min"], p["lam"]))
    K = 1 + per * len(blocks)
    maps = []
    for b, (kind, l, n) in enumerate(blocks):
        lo = 0 if kind == "w" else abs(p["spin"])
        c = np.zeros(((2 * n - 1,) if kind == "w" else ()) + (l, 2 * l - 1, per), dtype=np.complex128)
        if lo < l:
            for k in range(per):
                if kind == "w":
                    ns_ = range(-n + 1, n) if k < 2 else [int(rng.integers(-n + 1, n))]
                    for nn in ns_:
                        if abs(nn) < l:
                            c[n - 1 + nn, :, :, k] = ops.random_flm(l, abs(nn), rng)
                else:
                    c[..., k] = ops.random_flm(l, lo, rng)
        px = ops.wig_inverse(c, l, n, s, ns) if kind == "w" else ops.sph_inverse(c, l, p["spin"], s, ns)
        if real:
            px = px.real.astype(np.complex128)
        full = np.zeros(px.shape[:-1] + (K,), dtype=np.complex128)
        full[..., 1 + per * b : 1 + per * (b + 1)] = px
        maps.append(full)
    return maps[:-1], maps[-1], K - 1


def scale_names(p, J_max=None):
    J = model.j_max(p["L"], p["lam"]) if J_max is None else J_max
    return [f"wavelet coefficients of scale {j}" for j in range(p["J_min"], J + 1)] + ["scaling coefficients"]

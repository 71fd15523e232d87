"""Analysis computes the defining directional wavelet convolution, in every implementation."""
import numpy as np

from . import common as C
from .. import backends as B
from .. import configs, model, ops, query
from ..lin import Context, Lin

ID = "C04"
FUNCTIONS = C.FN_TRANSFORMS
EXPLANATION = (
    "Each task executes analysis of one implementation symbolically on an arbitrary band-limited signal and asks "
    "z3 for a signal on which any wavelet or scaling coefficient differs by more than 1e-9 from the defining "
    "convolution W^j_lmn = 8 pi^2/(2l+1) f_lm conj(psi^j_ln), S_lm = sqrt(4 pi/(2l+1)) f_lm phi_l, computed by an "
    "independent reference model (filters included)."
)
BOUNDS = (
    "as C01: covering set over L in 3..9 (12, 16), N in 1..6, J_min classes, six lam values, four samplings, "
    "spins -2..2, reality, argument styles; plus HEALPix (nside 2, L 3..6) with the pixel transforms as "
    "uninterpreted linear operators and arbitrary pixel values; thorough: L to 20; plus wide tasks at L 10..100 (lam in {1.2..8}, spins -3..3, N to 9) on a 12-dimensional signal subspace (4 dense directions, 8 single (l,m))"
)
ASSUMPTIONS = C.BASE_ASSUME
cost = C.cost


def tasks(tier, seed):
    if tier == "quick":
        t = configs.per_backend(dict(jax=75, c=75, pj=75, pt=45, np=110, npl=90), (3, 4, 5, 6, 7, 8, 9), (1, 2, 3, 4, 5), seed=2)
        t += configs.per_backend(dict(jax=2, c=2, pj=2, pt=1, np=3), (12, 16), (2, 3, 6), seed=6)
        t += configs.healpix(("jax", "np", "npl"), 8)
        t += configs.wide(dict(jax=20, c=18, pj=14, pt=9, np=24, npl=10), seed=12)
        return t
    t = configs.per_backend(dict(jax=500, c=500, pj=400, pt=250, np=700, npl=700), tuple(range(3, 13)), (1, 2, 3, 4, 5, 6, 7), seed=100 + seed)
    t += configs.per_backend(dict(jax=16, c=16, pj=12, pt=8, np=20, npl=6), (14, 16, 18, 20), (1, 2, 3, 4, 8), seed=6)
    t += configs.healpix(("jax", "np", "npl"), 40)
    t += configs.wide(dict(jax=60, c=60, pj=30, pt=16, np=80, npl=20), seed=1200 + seed)
    return t


def build(p, x=None):
    """(flm columns or pixel columns) of the signal."""
    if p["sampling"] == "healpix":
        n = 12 * p["nside"] ** 2
        c = np.zeros((n, 1 + 2 * n), dtype=np.complex128)
        c[np.arange(n), 1 + np.arange(n)] = 1
        c[np.arange(n), 1 + n + np.arange(n)] = 1j
        return c
    return C.flm_vars(p)


def run(t):
    p, b = t["p"], t["backend"]
    c = build(p)
    ctx = Context(c.shape[-1] - 1)
    if p["sampling"] == "healpix":
        f = Lin(c, ctx, np.complex128)
        flm = ops.sph_forward(c, p["L"], p["spin"], "healpix", p["nside"])
    else:
        f, flm = C.signal(p, c, ctx), c
    o = B.sym_call(b, "analysis", p, [f])
    fw, fs = model.analysis(flm, p, spin0=p.get("spin0", 0), multires=p.get("multires", True))
    want = fw + [fs]
    if len(o) != len(want):
        return {"status": "cex", "x": C._generic(ctx), "detail": f"{len(o)} outputs instead of {len(want)}"}
    res = C.decide(ctx, list(zip(o, want)), C.scale_names(p), C.eps(p))
    res["nontrivial"] = res["status"] == "holds" and query.reachable(ctx, fw[-1])
    return res


def concrete(t, x):
    p, b = t["p"], t["backend"]
    c = build(p)
    x = C.point(c.shape[-1] - 1, x)
    v = c @ x[:, None].astype(complex)
    mod = ops
    if p["sampling"] == "healpix":
        from .. import realops

        mod = realops.family(b)

        f = v[..., 0]
        flm = mod.sph_forward(v, p["L"], p["spin"], "healpix", p["nside"])
    else:
        f, flm = C.signal(p, v, Context(0)).c[..., 0], v
    f = f.real if p["reality"] else f
    fw, fs = model.analysis(flm, p, spin0=p.get("spin0", 0), multires=p.get("multires", True), ops_mod=mod)
    o = B.conc_call(b, "analysis", p, [f])
    return C.compare_all(o, [w[..., 0] for w in fw] + [fs[..., 0]], C.scale_names(p), C.tol(p))

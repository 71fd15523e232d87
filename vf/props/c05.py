"""Synthesis computes the defining sum over scales, for arbitrary coefficients."""
import numpy as np

from . import common as C
from .. import backends as B
from .. import configs, model, ops, query
from ..lin import Context, Lin

ID = "C05"
FUNCTIONS = C.FN_TRANSFORMS
EXPLANATION = (
    "Each task executes synthesis of one implementation symbolically on arbitrary wavelet and scaling coefficient "
    "maps (all scales, all orders n and degrees l simultaneously symbolic, not only outputs of analysis) and asks z3 "
    "for coefficients on which the signal differs by more than 1e-9 from sum_jn W^j_lmn psi^j_ln + "
    "sqrt(4 pi/(2l+1)) S_lm phi_l of the independent reference model."
)
BOUNDS = (
    "covering set over L in 3..7, N in 1..4, J_min classes, six lam values, four samplings, spins -2..2, "
    "reality, argument styles; HEALPix nside 2 with uninterpreted linear pixel operators; thorough: L to 9, N to 5; wide tasks at L 10..100 with three generic directions per coefficient map"
)
ASSUMPTIONS = C.BASE_ASSUME
cost = C.cost


def tasks(tier, seed):
    if tier == "quick":
        t = configs.per_backend(dict(jax=70, c=70, pj=70, pt=40, np=90, npl=80), (3, 4, 5, 6), (1, 2, 3, 4), seed=3)
        t += configs.per_backend(dict(jax=6, c=6, pj=6, pt=3, np=6, npl=3), (7, 8), (1, 2, 3), seed=7, lams=(2.0, 3.0, 2.5))
        t += configs.healpix(("jax", "np", "npl"), 4, Ls=(3, 4))
        t += configs.wide(dict(jax=20, c=18, pj=14, pt=9, np=24, npl=10), seed=13, coef=True)
        return t
    t = configs.per_backend(dict(jax=400, c=400, pj=300, pt=200, np=500, npl=500), (3, 4, 5, 6, 7), (1, 2, 3, 4, 5), seed=100 + seed)
    t += configs.per_backend(dict(jax=30, c=30, pj=30, pt=16, np=30, npl=10), (8, 9), (1, 2, 3, 4), seed=7)
    t += configs.healpix(("jax", "np", "npl"), 16, Ls=(3, 4, 5))
    t += configs.wide(dict(jax=60, c=60, pj=30, pt=16, np=80, npl=20), seed=1300 + seed, coef=True, limit=2e7)
    return t


def usable(p, b):
    return not (b == "npl" and p["reality"])


def run(t):
    p, b = t["p"], t["backend"]
    mr = p.get("multires", True)
    fw, fs, n = C.coef_vars(p, mr, p["reality"])
    ctx = Context(n)
    dt = np.float64 if p["reality"] else np.complex128
    o = B.sym_call(b, "synthesis", p, [[Lin(w, ctx, dt) for w in fw], Lin(fs, ctx, dt)])
    flm = model.synthesis_lm(fw, fs, p, multires=mr)
    want = ops.sph_inverse(flm, p["L"], p["spin"], p["sampling"], p.get("nside"))
    res = C.decide(ctx, [(o[0], want)], ["signal"], C.eps(p))
    res["nontrivial"] = res["status"] == "holds" and query.reachable(ctx, want)
    return res


def concrete(t, x):
    p, b = t["p"], t["backend"]
    mr = p.get("multires", True)
    fw, fs, n = C.coef_vars(p, mr, p["reality"])
    x = C.point(n, x)[:, None].astype(complex)
    fw, fs = [w @ x for w in fw], fs @ x
    mod = ops
    if p["sampling"] == "healpix":
        from .. import realops

        mod = realops.family(b)
    flm = model.synthesis_lm(fw, fs, p, multires=mr, ops_mod=mod)
    want = mod.sph_inverse(flm, p["L"], p["spin"], p["sampling"], p.get("nside"))[..., 0]
    g = (lambda a: a[..., 0].real) if p["reality"] else (lambda a: a[..., 0])
    o = B.conc_call(b, "synthesis", p, [[g(w) for w in fw], g(fs)])
    return C.compare_all(o, [want], ["signal"], C.tol(p))

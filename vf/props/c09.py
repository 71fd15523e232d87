"""flm_to_analysis: the wavelet part of analysis, from harmonic coefficients, up to any J_max."""
import numpy as np

from . import common as C
from .. import backends as B
from .. import configs, model, query
from ..lin import Context, Lin

ID = "C09"
FUNCTIONS = ["s2wav.transforms.{wavelet,wavelet_c,wavelet_precompute,wavelet_precompute_torch}.flm_to_analysis",
             "s2wav.samples.{construct_flmn_jax,construct_flmn_torch,LN_j,...}", "s2wav.transforms.construct.*"]
EXPLANATION = (
    "Each task executes flm_to_analysis symbolically on arbitrary harmonic coefficients, for J_max omitted or any "
    "value in J_min..J, and asks z3 for coefficients on which any returned scale differs from the defining convolution."
)
BOUNDS = ("covering set over L in 3..9, N in 1..5, J_min, J_max (omitted, J_min .. J), six lam values, four samplings, "
          "reality, filters given/omitted, precomputes given/omitted; thorough: L to 14; plus wide tasks at L 10..100 (lam in {1.2..8}, spins -3..3, N to 9) on a 12-dimensional signal subspace (4 dense directions, 8 single (l,m))")
ASSUMPTIONS = C.BASE_ASSUME
cost = C.cost


def tasks(tier, seed):
    n = dict(jax=90, c=80, pj=80, pt=45) if tier == "quick" else dict(jax=500, c=500, pj=400, pt=250)
    Ls = (3, 4, 5, 6, 7, 8, 9) if tier == "quick" else tuple(range(3, 15))
    jm = {b: {"jm": ("none", "J", "J-1", "J-2", "min")} for b in n}
    out = []
    ts = configs.per_backend(n, Ls, (1, 2, 3, 4, 5), seed=4 if tier == "quick" else 100 + seed, extra_by=jm)
    w = dict(jax=24, c=18, pj=14, pt=9) if tier == "quick" else dict(jax=50, c=50, pj=30, pt=16)
    ts += configs.wide(w, seed=14, extra_by=jm)
    for t in ts:
        p = t["p"]
        jm_ = p.pop("jm")
        J = model.j_max(p["L"], p["lam"])
        v = {"none": None, "J": J, "J-1": J - 1, "J-2": J - 2, "min": p["J_min"]}[jm_]
        if v is not None and v < p["J_min"]:
            v = J - 1
        if p.get("filters") == "none" and p["spin"]:
            p["spin"] = 0  # the function takes no spin: omitted filters are scalar filters
        t["J_max"] = v
        out.append(t)
    return out


def run(t):
    p, b, jm = t["p"], t["backend"], t["J_max"]
    c = C.flm_vars(p)
    ctx = Context(c.shape[-1] - 1)
    o = B.sym_call(b, "flm_to_analysis", p, [Lin(c, ctx, np.complex128)], J_max=jm)
    fw, _ = model.analysis(c, p, J_max=jm, scal=False)
    if len(o) != len(fw):
        return {"status": "cex", "x": C._generic(ctx), "detail": f"{len(o)} scales instead of {len(fw)}"}
    res = C.decide(ctx, list(zip(o, fw)), C.scale_names(p, jm), C.eps(p))
    res["nontrivial"] = res["status"] == "holds" and any(query.reachable(ctx, w) for w in fw[-1:])
    return res


def concrete(t, x):
    p, b, jm = t["p"], t["backend"], t["J_max"]
    c = C.flm_vars(p)
    x = C.point(c.shape[-1] - 1, x)
    v = c @ x[:, None].astype(complex)
    fw, _ = model.analysis(v, p, J_max=jm, scal=False)
    o = B.conc_call(b, "flm_to_analysis", p, [v[..., 0]], J_max=jm)
    return C.compare_all(o, [w[..., 0] for w in fw], C.scale_names(p, jm), C.tol(p))

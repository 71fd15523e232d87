"""Exact reconstruction: synthesis(analysis(f)) == f for every band-limited f."""
from . import common as C
from .. import backends as B
from .. import configs, query
from ..lin import Context

ID = "C01"
FUNCTIONS = C.FN_TRANSFORMS
EXPLANATION = (
    "Each task executes analysis followed by synthesis of one implementation symbolically on a signal whose "
    "harmonic coefficients are all solver variables, and asks z3 for a signal that is not reconstructed to 1e-9."
)
BOUNDS = ""
ASSUMPTIONS = C.BASE_ASSUME
cost = C.cost


def tasks(tier, seed):
    if tier == "quick":
        t = configs.per_backend(dict(jax=75, c=75, pj=75, pt=45, np=90, npl=90), (3, 4, 5, 6, 7, 8, 9), (1, 2, 3, 4, 5))
        t += configs.per_backend(dict(jax=2, c=2, pj=2, pt=1, np=3), (12, 16), (2, 3, 6), seed=5)
        t += configs.wide(dict(jax=20, c=18, pj=14, pt=9, np=24, npl=10), seed=11)
        return t
    t = configs.per_backend(dict(jax=500, c=500, pj=400, pt=250, np=700, npl=700), tuple(range(3, 13)), (1, 2, 3, 4, 5, 6, 7), seed=seed)
    t += configs.per_backend(dict(jax=16, c=16, pj=12, pt=8, np=20, npl=6), (14, 16, 18, 20), (1, 2, 3, 4, 8), seed=5)
    t += configs.wide(dict(jax=60, c=60, pj=30, pt=16, np=80, npl=20), seed=1100 + seed)
    return t


BOUNDS = (
    "quick: covering set over L in 3..9 (plus 12, 16), N in 1..6 (N<=L), every J_min class in 0..J-1, "
    "lam in {1.3,1.5,2,2.5,3,4}, samplings mw/mwss/dh/gl, spin -2..2, reality, filters given (3 generators) "
    "or omitted, precomputes given or omitted, multiresolution on/off (numpy); thorough: L to 20, N to 8; plus wide tasks at L 10..100 (lam in {1.2..8}, spins -3..3, N to 9) on a 12-dimensional signal subspace (4 dense directions, 8 single (l,m))"
)


def run(t):
    p, b = t["p"], t["backend"]
    c = C.flm_vars(p)
    ctx = Context(c.shape[-1] - 1)
    f = C.signal(p, c, ctx)
    o = [B.as_lin(x, ctx) for x in B.sym_call(b, "analysis", p, [f])]
    r = B.sym_call(b, "synthesis", p, [o[:-1], o[-1]])
    res = C.decide(ctx, [(r[0], f.c)], ["reconstruction"])
    res["nontrivial"] = res["status"] == "holds" and query.reachable(ctx, f.c)
    return res


def concrete(t, x):
    p, b = t["p"], t["backend"]
    c = C.flm_vars(p)
    x = C.point(c.shape[-1] - 1, x)
    f = C.signal(p, c @ x[:, None].astype(complex), Context(0)).c[..., 0]
    f = f.real if p["reality"] else f
    o = B.conc_call(b, "analysis", p, [f])
    r = B.conc_call(b, "synthesis", p, [o[:-1], o[-1]])
    return C.compare_all(r, [f], ["reconstruction"])

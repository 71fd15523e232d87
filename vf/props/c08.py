"""Implementations are interchangeable: coefficients of one can be synthesised by any other."""
from . import common as C
from .. import backends as B
from .. import configs, query
from ..lin import Context, Lin

import numpy as np

ID = "C08"
FUNCTIONS = C.FN_TRANSFORMS
EXPLANATION = (
    "Each task executes analysis of one implementation and synthesis of another one symbolically, on a signal whose "
    "harmonic coefficients are all solver variables, and asks z3 for a signal that is not reconstructed to 1e-9."
)
BOUNDS = ("every ordered pair of distinct implementations; per pair a covering set over L in 3..8, N in 1..4, J_min, six lam "
          "values, four samplings, spins -2..2, reality; thorough: L to 10; plus wide tasks at L 10..100 (lam in {1.2..8}, spins -3..3, N to 9) on a 12-dimensional signal subspace (4 dense directions, 8 single (l,m))")
ASSUMPTIONS = C.BASE_ASSUME


def cost(t):
    return C.cost(t) + C.cost(dict(t, backend=t["second"]))


def tasks(tier, seed):
    big = tier != "quick"
    out = []
    for i, a in enumerate(B.ALL):
        others = [b for b in B.ALL if b != a]
        n = 60 if big else 15
        k = 0
        for t in configs.per_backend({a: n}, tuple(range(3, 11)) if big else (3, 4, 5, 6, 7, 8),
                                     (1, 2, 3, 4), seed=60 + i):
            p = dict(t["p"])
            p.pop("multires", None)
            q = dict(backend=a, second=others[k % len(others)], p=p)
            k += 1
            out.append(q)
    ws = configs.wide({b: 25 if big else 8 for b in B.ALL}, seed=16)
    for k, t in enumerate(ws):
        p = dict(t["p"])
        p.pop("multires", None)
        others = [b for b in B.ALL if b != t["backend"] and (p["L"] <= 27 or b not in ("pj", "pt", "npl"))]
        out.append(dict(backend=t["backend"], second=others[k % len(others)], p=p))
    return out


def run(t):
    p, a, b = t["p"], t["backend"], t["second"]
    c = C.flm_vars(p)
    ctx = Context(c.shape[-1] - 1)
    f = C.signal(p, c, ctx)
    o = [B.as_lin(x, ctx) for x in B.sym_call(a, "analysis", p, [f])]
    dt = np.float64 if p["reality"] else np.complex128
    if p["reality"]:
        o = [Lin(x.c.real.astype(complex), ctx, dt) for x in o]
    r = B.sym_call(b, "synthesis", p, [o[:-1], o[-1]])
    res = C.decide(ctx, [(r[0], f.c)], ["reconstruction"])
    res["nontrivial"] = res["status"] == "holds" and query.reachable(ctx, f.c)
    return res


def concrete(t, x):
    p, a, b = t["p"], t["backend"], t["second"]
    c = C.flm_vars(p)
    x = C.point(c.shape[-1] - 1, x)
    f = C.signal(p, c @ x[:, None].astype(complex), Context(0)).c[..., 0]
    f = f.real if p["reality"] else f
    o = B.conc_call(a, "analysis", p, [f])
    if p["reality"]:
        o = [np.real(x) for x in o]
    r = B.conc_call(b, "synthesis", p, [o[:-1], o[-1]])
    return C.compare_all(r, [f], [f"{a} analysis then {b} synthesis"])

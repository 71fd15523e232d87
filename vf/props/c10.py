"""Energy conservation: the wavelet transform is a tight frame (Parseval)."""
import numpy as np

from . import common as C
from .. import backends as B
from .. import configs, model, ops, query
from ..lin import Context

ID = "C10"
FUNCTIONS = C.FN_TRANSFORMS
EXPLANATION = (
    "Each task executes analysis symbolically on an arbitrary band-limited signal, forms the quadratic energy form of "
    "all wavelet and scaling coefficients over the rotation group and the sphere, and asks z3 for a signal whose "
    "coefficient energy differs from its own energy by more than 1e-8."
)
BOUNDS = ("covering set over L in 3..8, N in 1..5, J_min, six lam values, four samplings, spin -2..2, reality, all "
          "implementations; thorough: L to 12; plus wide tasks at L 10..100 (lam in {1.2..8}, spins -3..3, N to 9) on a 12-dimensional signal subspace (4 dense directions, 8 single (l,m))")
ASSUMPTIONS = C.BASE_ASSUME + ["coefficient energy is evaluated from the band-limited coefficient maps by the exact quadrature of the sampling scheme"]
cost = C.cost
EPS = 1e-8


def tasks(tier, seed):
    if tier == "quick":
        t = configs.per_backend(dict(jax=50, c=50, pj=50, pt=25, np=80, npl=60), (3, 4, 5, 6, 7, 8), (1, 2, 3, 4, 5), seed=8)
        return t + configs.wide(dict(jax=20, c=18, pj=14, pt=9, np=24, npl=10), seed=15)
    t = configs.per_backend(dict(jax=300, c=300, pj=300, pt=150, np=500, npl=400), tuple(range(3, 13)), (1, 2, 3, 4, 5, 6), seed=100 + seed)
    return t + configs.wide(dict(jax=60, c=60, pj=30, pt=16, np=80, npl=20), seed=1500 + seed)


def energy_rows(o, p, mr):
    """Weighted harmonic rows r such that energy = sum |r|^2."""
    s, ns = p["sampling"], p.get("nside")
    rows = []
    for i, j in enumerate(model.scales(p["L"], p["J_min"], p["lam"])):
        Lj, Nj = model.LN(p["L"], j, p["N"], p["lam"], mr)
        W = ops.wig_forward(o[i], Lj, Nj, s, ns)
        w = np.sqrt((2 * np.arange(Lj) + 1) / (8 * np.pi**2))
        rows.append((W * w[None, :, None, None]).reshape(-1, W.shape[-1]))
    Ls = model.L_scal(p["L"], p["J_min"], p["lam"], mr)
    S = ops.sph_forward(o[-1], Ls, p["spin"], s, ns)
    rows.append(S.reshape(-1, S.shape[-1]))
    return np.concatenate(rows, axis=0)


def run(t):
    p, b = t["p"], t["backend"]
    c = C.flm_vars(p)
    ctx = Context(c.shape[-1] - 1)
    o = [B.as_lin(x, ctx).c for x in B.sym_call(b, "analysis", p, [C.signal(p, c, ctx)])]
    R = energy_rows(o, p, p.get("multires", True))
    if R.shape[-1] != c.shape[-1] or ctx.defs:
        return {"status": "unknown", "detail": "analysis is not linear in the signal"}
    F = c.reshape(-1, c.shape[-1])
    Q = (R.conj().T @ R - F.conj().T @ F).real
    v, x = decide_quadratic(ctx, Q, *((1e-9, 1e-6) if p.get("wide") else ()))
    if v == "cex":
        return {"status": "cex", "x": list(map(float, x)), "detail": f"energy form off by {np.abs(Q).max():.3g}"}
    if v != "holds":
        return {"status": "unknown", "detail": v}
    return {"status": "holds", "nontrivial": query.reachable(ctx, F), "counts": {"quadratic_coefficients": int(Q.size)}}


def decide_quadratic(ctx, Q, tau=1e-12, eps=EPS):
    n = Q.shape[0]
    Q = (Q + Q.T) / 2

    def build(z):
        e = z.z3.RealVal(query._q(eps))
        terms, lo = [], 0.0
        val = [z.z3.RealVal(1)] + [None] * (n - 1)

        def var(i):
            if val[i] is None:
                val[i] = z.var(i)
            return val[i]

        idx = np.argwhere(np.abs(np.triu(Q)) >= tau)
        if len(idx) > 400:  # a sub-box (other variables 0) suffices for a counterexample
            w = np.abs(Q).sum(axis=1)
            keep = set(np.argsort(-w)[:12].tolist())
            idx = [ij for ij in idx if ij[0] in keep and ij[1] in keep]
            z.partial = True
        else:
            lo = float(np.abs(Q[np.abs(Q) < tau]).sum())
        for i, j in idx:
            k = Q[i, j] if i == j else 2 * Q[i, j]
            terms.append(z.z3.RealVal(query._q(k)) * var(int(i)) * var(int(j)))
        if lo:
            s = z.z3.Real("slack")
            b = z.z3.RealVal(query._q(lo))
            z.cons += [s <= b, s >= -b]
            terms.append(s)
        tot = z.z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z.z3.RealVal(0))
        return z.z3.Or(tot > e, tot < -e)

    v, x = query.solve(ctx, build)
    query.STATS["atoms"] += 2
    if v == "sat":
        return "cex", x
    if v == "unsat" and np.count_nonzero(np.abs(np.triu(Q)) >= tau) <= 400:
        return "holds", None
    return "unknown", None


def concrete(t, x):
    p, b = t["p"], t["backend"]
    c = C.flm_vars(p)
    x = C.point(c.shape[-1] - 1, x)
    v = c @ x[:, None].astype(complex)
    f = C.signal(p, v, Context(0)).c[..., 0]
    o = B.conc_call(b, "analysis", p, [f.real if p["reality"] else f])
    R = energy_rows([a[..., None].astype(complex) for a in o], p, p.get("multires", True))
    e1, e0 = float((np.abs(R) ** 2).sum()), float((np.abs(v) ** 2).sum())
    bad = not abs(e1 - e0) <= 3e-9 * max(C.SCALE[0] ** 2, e0)
    return bad, f"coefficient energy {e1!r}, signal energy {e0!r}"

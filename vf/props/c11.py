"""The reality flag is only an acceleration: on real data it changes nothing."""
import numpy as np

from . import common as C
from .. import backends as B
from .. import configs, query
from ..lin import Context, Lin

ID = "C11"
FUNCTIONS = C.FN_TRANSFORMS
EXPLANATION = (
    "Self-composition: each task executes the same operation twice symbolically on the same arbitrary real data, once "
    "with and once without the reality flag (and, for analysis, on the data stored as complex), and asks z3 for real "
    "data on which any output differs by more than 1e-9 or the complex run has an imaginary part."
)
BOUNDS = ("covering set over L in 3..8, N in 1..5, J_min, six lam values, four samplings, spin 0, analysis, "
          "flm_to_analysis and synthesis (L<=6) of every implementation; thorough: L to 12; plus wide tasks at L 10..100 (lam in {1.2..8}, spins -3..3, N to 9) on a 12-dimensional signal subspace (4 dense directions, 8 single (l,m))")
ASSUMPTIONS = C.BASE_ASSUME
cost = C.cost


def tasks(tier, seed):
    big = tier != "quick"
    out = []
    kw = dict(spins=(0,), reality=(True,))
    n = dict(jax=40, c=40, pj=40, pt=20, np=50, npl=40)
    m = {b: k * (6 if big else 1) for b, k in n.items()}
    Ls = tuple(range(3, 13)) if big else (3, 4, 5, 6, 7, 8)
    for t in configs.per_backend(m, Ls, (1, 2, 3, 4, 5), seed=9, **kw):
        out.append(dict(t, op="analysis"))
    for t in configs.per_backend({b: k // 2 for b, k in m.items() if b in ("jax", "c", "pj", "pt")}, Ls, (1, 2, 3, 4, 5), seed=10, **kw):
        out.append(dict(t, op="flm_to_analysis"))
    for t in configs.per_backend(m, (3, 4, 5, 6), (1, 2, 3, 4), seed=11, **kw):
        out.append(dict(t, op="synthesis"))
    w = dict(jax=8, c=6, pj=5, pt=4, np=8, npl=4)
    w = {b: k * (5 if big else 1) for b, k in w.items()}
    for t in configs.wide(w, seed=17, **kw):
        out.append(dict(t, op="analysis"))
    for t in configs.wide({b: k for b, k in w.items() if b not in ("np", "npl")}, seed=18, **kw):
        out.append(dict(t, op="flm_to_analysis"))
    for t in configs.wide(w, seed=19, coef=True, **kw):
        out.append(dict(t, op="synthesis"))
    return out


def _in(t, p):
    if t["op"] == "synthesis":
        fw, fs, n = C.coef_vars(p, p.get("multires", True), True)
        return fw + [fs], n
    c = C.flm_vars(p)
    return [c], c.shape[-1] - 1


def run(t):
    p, b, op = t["p"], t["backend"], t["op"]
    cols, n = _in(t, p)
    ctx = Context(n)
    outs = []
    for re in (True, False):
        q = dict(p, reality=re)
        dt = np.float64 if re else np.complex128
        if op == "synthesis":
            a = [[Lin(w.copy(), ctx, dt) for w in cols[:-1]], Lin(cols[-1].copy(), ctx, dt)]
        elif op == "flm_to_analysis":
            a = [Lin(cols[0].copy(), ctx, np.complex128)]
        else:
            a = [Lin(C.signal(p, cols[0], ctx).c, ctx, dt)]
        outs.append([B.as_lin(x, ctx) for x in B.sym_call(b, op, q, a)])
    if len(outs[0]) != len(outs[1]):
        return {"status": "cex", "x": C._generic(ctx), "detail": "different number of outputs"}
    pairs = [(r, c.c) for r, c in zip(*outs)]
    pairs += [(c.imag, np.zeros_like(c.c)) for c in outs[1]]
    k = len(outs[0])
    res = C.decide(ctx, pairs, [f"output {i}" for i in range(k)] + [f"imaginary part of output {i}" for i in range(k)])
    res["nontrivial"] = res["status"] == "holds" and query.reachable(ctx, outs[0][0].c)
    return res


def concrete(t, x):
    p, b, op = t["p"], t["backend"], t["op"]
    cols, n = _in(t, p)
    x = C.point(n, x)[:, None].astype(complex)
    v = [w @ x for w in cols]
    outs = []
    for re in (True, False):
        q = dict(p, reality=re)
        g = (lambda a: a[..., 0].real) if re else (lambda a: a[..., 0].real.astype(complex))
        if op == "synthesis":
            a = [[g(w) for w in v[:-1]], g(v[-1])]
        elif op == "flm_to_analysis":
            a = [v[0][..., 0]]
        else:
            a = [g(C.signal(p, v[0], Context(0)).c)]
        outs.append(B.conc_call(b, op, q, a))
    bad, msg = C.compare_all(outs[0], outs[1], [f"output {i}" for i in range(len(outs[1]))])
    if bad:
        return bad, "with vs without the reality flag: " + msg
    im = max(float(np.max(np.abs(np.imag(o)))) for o in outs[1])
    return im > C.TOL, f"imaginary part {im:.3e}"

"""Supplying or omitting optional arguments does not change results."""
import numpy as np

from . import common as C
from .. import backends as B
from .. import configs, model, query
from ..lin import Context, Lin

ID = "C17"
FUNCTIONS = C.FN_TRANSFORMS + ["s2wav.transforms.construct.{generate_full_precomputes,generate_wigner_precomputes}"]
EXPLANATION = (
    "Self-composition: each task executes the same operation on the same arbitrary data in several argument styles "
    "(filters from each generator or omitted; recursion kernels given or omitted; trailing arguments at their documented "
    "default value or omitted; arguments by position or by keyword) and asks z3 for data on which two styles differ by more than 1e-9."
)
BOUNDS = ("covering set over L in 3..8, N in 1..4, J_min, six lam values, four samplings, spins -2..2, reality; analysis, synthesis, "
          "flm_to_analysis (every highest scale given or omitted) of every implementation; thorough: L to 10; plus wide tasks at L 10..100 (lam in {1.2..8}, spins -3..3, N to 9) on a 12-dimensional signal subspace (4 dense directions, 8 single (l,m))")
ASSUMPTIONS = C.BASE_ASSUME


def cost(t):
    return 3 * C.cost(t)


# documented defaults
DEFAULTS = dict(N=1, J_min=0, lam=2.0, spin=0, sampling="mw", reality=False)


def tasks(tier, seed):
    m = 5 if tier != "quick" else 1
    Ls = tuple(range(3, 11)) if tier != "quick" else (3, 4, 5, 6, 7, 8)
    out = []
    kw0 = dict(spins=(0,))
    for i, op in enumerate(("analysis", "synthesis", "flm_to_analysis")):
        n = dict(jax=20, c=20, pj=20, pt=8) if op != "flm_to_analysis" else dict(jax=12, c=12, pj=12, pt=6)
        Lx = (3, 4, 5, 6) if op == "synthesis" else Ls
        for t in configs.per_backend({b: v * m for b, v in n.items()}, Lx, (1, 2, 3, 4), seed=80 + i,
                                     **(kw0 if op == "flm_to_analysis" else {})):
            p = {k: v for k, v in t["p"].items() if k not in ("filters", "precomps")}
            out.append(dict(backend=t["backend"], op=op, p=p, style="objects"))
        k, kw = 3 * (5 if m > 1 else 1), kw0 if op == "flm_to_analysis" else {}
        ws = configs.wide(dict(jax=k, c=k), seed=20 + i, coef=op == "synthesis", limit=4e6, Ls=(17, 20, 24, 32), **kw)
        # the matrices of the precompute transforms grow with L^4: smaller band-limits there
        ws += configs.wide(dict(pj=k, pt=k), seed=20 + i, coef=op == "synthesis", limit=2e6, Ls=(13, 17, 20), **kw)
        for t in ws:
            p = {k: v for k, v in t["p"].items() if k not in ("filters", "precomps")}
            out.append(dict(backend=t["backend"], op=op, p=p, style="objects"))
    # defaults: parameters at their documented defaults, omitted one suffix at a time
    for L in (3, 4, 5, 6, 7, 8) if m == 1 else tuple(range(3, 11)):
        for b in B.ALL:
            for op in ("analysis", "synthesis", "flm_to_analysis"):
                if op == "flm_to_analysis" and b in ("np", "npl"):
                    continue
                if op == "synthesis" and L > 6:
                    continue
                if b == "pt" and L not in (4, 5):
                    continue
                for nondef in ({}, {"N": 2}, {"N": 2, "J_min": 1}, {"N": 3, "J_min": 1, "lam": 1.5}, {"spin": 1}, {"sampling": "dh"}, {"reality": True}):
                    p = dict(DEFAULTS, L=L, **nondef)
                    if p["J_min"] >= model.j_max(L, p["lam"]) or (op == "flm_to_analysis" and p["spin"]):
                        continue
                    if b == "pt" and nondef not in ({}, {"N": 2, "J_min": 1}, {"reality": True}):
                        continue
                    out.append(dict(backend=b, op=op, p=p, style="defaults"))
    return out


def _calls(t):
    """list of (name, callable of the data)."""
    p, b, op = t["p"], t["backend"], t["op"]
    m = B.mods()
    J = model.j_max(p["L"], p["lam"])
    if t["style"] == "objects":
        out = []
        fs = ("vec", "loop", "none") if b == "pt" else ("vec", "jax", "loop", "none")
        for f in fs:
            for pc in ("given", "none") if b == "jax" else (None,):
                q = dict(p, filters=f)
                if pc:
                    q["precomps"] = pc
                if pc == "given" and f not in ("vec", "none"):
                    continue
                out.append((f"filters={f} precomps={pc}", q, J))
                if op == "flm_to_analysis" and f == "vec":
                    out.append((f"filters={f} precomps={pc} highest scale omitted", q, None))
        return [(n, B.bind(b, op, q, j)) for n, q, j in out]
    # defaults style
    if b in ("np", "npl"):
        f = getattr(m["base"], {"np": op, "npl": op + "_looped"}[b])
        order = ["N", "J_min", "lam", "spin", "spin0", "sampling", "nside", "reality", "multiresolution"]
        vals = dict(p, spin0=0, nside=None, multiresolution=True)
        dfl = dict(DEFAULTS, spin0=0, nside=None, multiresolution=True)
        need = {"N"} if (b, op) == ("npl", "synthesis") else set()
    else:
        f = getattr(m[b], op)
        order = ["N", "J_min", "lam", "spin", "sampling", "nside", "reality"]
        if op == "flm_to_analysis":
            order = ["N", "J_min", "J_max", "lam", "sampling", "nside", "reality"]
        if b == "c":
            order.remove("nside")
        vals = dict(p, nside=None, J_max=None)
        dfl = dict(DEFAULTS, nside=None, J_max=None)
        need = set()
    kw = {}
    if b in ("pj", "pt"):
        kw["precomps"] = B.get_precomps(b, dict(p, filters="none"), op == "synthesis")
    L = p["L"]
    nd = {k: v for k, v in vals.items() if k in order and (v != dfl[k] or k in need)}

    def mk(args, kws):
        return lambda *x: f(*x, L, *args, **kws, **kw)

    allpos = [vals[k] for k in order]
    last = max([order.index(k) for k in nd], default=-1)
    return [
        ("every argument by position", mk(allpos, {})),
        ("every argument by keyword", mk([], {k: vals[k] for k in order})),
        ("defaults omitted, by keyword", mk([], nd)),
        ("trailing defaults omitted, by position", mk([vals[k] for k in order[: last + 1]], {})),
    ]


def _data(t):
    p = t["p"]
    if t["op"] == "synthesis":
        fw, fs, n = C.coef_vars(p, True, p["reality"])
        return fw + [fs], n
    c = C.flm_vars(p)
    return [c], c.shape[-1] - 1


def run(t):
    p, b, op = t["p"], t["backend"], t["op"]
    cols, n = _data(t)
    ctx = Context(n)
    dt = np.float64 if p["reality"] else np.complex128
    first, pairs, names = None, [], []
    for name, fn in _calls(t):
        if op == "synthesis":
            a = [[Lin(w.copy(), ctx, dt) for w in cols[:-1]], Lin(cols[-1].copy(), ctx, dt)]
        elif op == "flm_to_analysis":
            a = [Lin(cols[0].copy(), ctx, np.complex128)]
        else:
            a = [C.signal(p, cols[0].copy(), ctx)]
        r = [B.as_lin(x, ctx) for x in B.sym_exec(b, op, fn, a)]
        if first is None:
            first, n0 = r, name
            continue
        if len(r) != len(first):
            return {"status": "cex", "x": C._generic(ctx), "detail": f"{name}: {len(r)} outputs instead of {len(first)}"}
        pairs += [(x, y.c) for x, y in zip(r, first)]
        names += [f"output {i}, {name} vs {n0}" for i in range(len(r))]
    res = C.decide(ctx, pairs, names, C.eps(p))
    res["nontrivial"] = res["status"] == "holds" and query.reachable(ctx, first[0].c)
    return res


def concrete(t, x):
    p, b, op = t["p"], t["backend"], t["op"]
    cols, n = _data(t)
    x = C.point(n, x)[:, None].astype(complex)
    v = [w @ x for w in cols]
    g = (lambda a: a[..., 0].real.copy()) if p["reality"] else (lambda a: a[..., 0].copy())
    first = None
    for name, fn in _calls(t):
        if op == "synthesis":
            a = [[g(w) for w in v[:-1]], g(v[-1])]
        elif op == "flm_to_analysis":
            a = [v[0][..., 0].copy()]
        else:
            a = [g(C.signal(p, v[0], Context(0)).c)]
        r = B.conc_exec(b, op, fn, a)
        if first is None:
            first, n0 = r, name
            continue
        bad, msg = C.compare_all(r, first, [f"output {i}" for i in range(len(first))], C.tol(p))
        if bad:
            return True, f"{name} vs {n0}: {msg}"
    return False, "all argument styles agree"

"""Calls neither modify their arguments nor depend on what happened before."""
import numpy as np

from . import common as C
from .. import backends as B
from .. import configs, model, ops, query
from ..lin import Context, Lin

ID = "C14"
FUNCTIONS = C.FN_TRANSFORMS + ["s2wav.transforms.construct.*", "s2wav.filters.*"]
EXPLANATION = (
    "Each task re-imports the library, executes one operation symbolically on arbitrary data, then a history of other "
    "operations (parameters differing in one or more factors), lets the caller overwrite every array handed out so far "
    "(filters, kernels, results), executes the first operation again on the same data, and asks z3 for data on which "
    "the second result differs by more than 1e-9 from the first; then re-imports the library, executes the history first and the "
    "operation after it, and compares in the same way; arguments, filters, kernels and earlier results must "
    "come out of every call unchanged, and so must the process-wide random generators and numerical settings "
    "(numpy, torch, JAX)."
)
BOUNDS = ("histories of 1 operation, 4-6 other operations (each changing one of L, N, J_min, lam, spin, sampling, reality; a lam with the same number of scales where there is one), "
          "overwrite, the operation again; every implementation, analysis / synthesis / flm_to_analysis; L in 3..6, N in 1..3")
ASSUMPTIONS = C.BASE_ASSUME + ["sequential calls from one thread"]


def cost(t):
    return C.cost(t) * 6


def variants(p, b, k):
    """Parameter sets differing from p in one factor."""
    L, lam = p["L"], p["lam"]
    out = []

    def add(**kw):
        q = dict(p, **kw)
        J = model.j_max(q["L"], q["lam"])
        q["J_min"] = min(q["J_min"], J - 1)
        if q["J_min"] < 0 or q["N"] > q["L"] or abs(q["spin"]) >= q["L"] or (q["reality"] and q["spin"]):
            return
        if q != p and q not in out:
            out.append(q)

    J = model.j_max(L, lam)
    near = [x for x in (lam + 0.1, lam + 0.25, lam - 0.1, lam - 0.25, lam + 0.03, lam - 0.03) if x > 1.05 and model.j_max(L, x) == J]
    if near:
        add(lam=round(near[k % len(near)], 4))  # same number of scales
    add(lam=3.0 if lam != 3.0 else 2.0)
    add(J_min=(p["J_min"] + 1) % J)
    add(N=p["N"] % 3 + 1)
    add(spin=0 if p["spin"] else 1, reality=False)
    add(reality=not p["reality"], spin=0)
    add(sampling={"mw": "dh", "mwss": "mw", "dh": "gl", "gl": "mwss"}[p["sampling"]])
    add(L=L + 1)
    if "multires" in p:
        add(multires=not p["multires"])
    r = np.random.default_rng(k)
    return out[:1] + [out[1 + i] for i in r.permutation(len(out) - 1)]


def tasks(tier, seed):
    m = 6 if tier != "quick" else 1
    out = []
    for i, op in enumerate(("analysis", "synthesis", "flm_to_analysis")):
        n = dict(jax=14, c=14, pj=14, pt=8, np=24, npl=20) if op != "flm_to_analysis" else dict(jax=8, c=8, pj=8, pt=5)
        kw = dict(spins=(0,)) if op == "flm_to_analysis" else {}
        for k, t in enumerate(configs.per_backend({b: v * m for b, v in n.items()}, (3, 4, 5, 6), (1, 2, 3), seed=70 + i, **kw)):
            p, b = t["p"], t["backend"]
            vs = [q for q in variants(p, b, k) if usable(dict(backend=b, p=q, op=op))]
            if not usable(dict(t, op=op)):
                continue
            nh = 3 if b == "pt" else 5
            out.append(dict(t, op=op, hist=[[("synthesis" if (h + k) % 3 == 0 else op), q] for h, q in enumerate(vs[:nh])]))
    return out


def usable(t):
    """Stay clear of the recorded findings (they raise)."""
    from .. import known

    p, b = t["p"], t["backend"]
    if b == "c" and known.nj_gt_lj(p):
        return False
    if b in ("pj", "pt") and p["N"] == 1 and p["sampling"] in ("mw", "mwss"):
        return False
    return True


def _data(op, p):
    if op == "synthesis":
        fw, fs, n = C.coef_vars(p, p.get("multires", True), p["reality"])
        return fw + [fs], n
    c = C.flm_vars(p)
    return [c], c.shape[-1] - 1


def _jm(op, p):
    return model.j_max(p["L"], p["lam"]) if op == "flm_to_analysis" else None


def snap(x):
    """Copy of the mutable array data inside x."""
    if isinstance(x, (list, tuple)):
        return [snap(y) for y in x]
    if isinstance(x, Lin):
        return x.c.copy()
    if isinstance(x, np.ndarray):
        return x.copy()
    if hasattr(x, "resolve_conj"):
        return x.detach().clone().resolve_conj().numpy()
    return None


def same(a, b):
    if a is None or b is None:
        return True
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def clobber(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            clobber(y)
    elif isinstance(x, Lin):
        if x.c.flags.writeable:
            x.c += 3.0 + np.arange(x.c.shape[-1])
    elif isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in "fc":
            x[...] = np.nan
    elif hasattr(x, "fill_"):
        try:
            x.fill_(float("nan"))
        except RuntimeError:
            pass


class Recorder:
    """Objects exchanged with the code: (object, snapshot taken when it was handed over)."""

    def __init__(self):
        self.items = []
        self.changed = []

    def add(self, name, x):
        self.items.append((name, x, snap(x)))

    def verify(self, when):
        for n, x, s in self.items:
            if not same(snap(x), s):
                self.changed.append(f"{n} changed by {when}")

    def clobber(self):
        for n, x, s in self.items:
            clobber(x)
        self.items = []


def process_state():
    """Process-wide numerical settings and global random generators."""
    import hashlib
    import random

    import jax
    import torch

    h = lambda b: hashlib.sha256(b).hexdigest()[:16]
    r = np.random.get_state()
    return {
        "np.random": (r[0], h(r[1].tobytes()), r[2:]), "random": h(repr(random.getstate()).encode()),
        "torch random state": h(torch.get_rng_state().numpy().tobytes()),
        "np.seterr": tuple(sorted(np.geterr().items())), "np print options": repr(np.get_printoptions()),
        "torch default dtype": str(torch.get_default_dtype()), "torch grad mode": torch.is_grad_enabled(),
        "jax x64": bool(jax.config.jax_enable_x64), "jax debug nans": bool(jax.config.jax_debug_nans),
        "jax disable jit": bool(jax.config.jax_disable_jit),
    }


def _cat(x):
    out = []
    for y in x:
        out += _cat(y) if isinstance(y, (list, tuple)) else [y]
    return out


def public_arrays(p):
    """Results of the public array-valued helpers for these parameters (fresh, caller-owned)."""
    m = B.mods()
    F, S = m["filters"], m["samples"]
    L, N, J, lam, s = p["L"], p["N"], p["J_min"], p["lam"], p["sampling"]
    mr = p.get("multires", True)
    g = B.guarded
    return [
        g("k_lam", F.k_lam, L, lam), g("filters_axisym", F.filters_axisym, L, J, lam),
        g("filters_axisym_vectorised", F.filters_axisym_vectorised, L, J, lam),
        g("tiling_direction", F.tiling_direction, L, N),
        g("filters_directional", F.filters_directional, L, N, J, lam, p["spin"]),
        g("filters_directional_vectorised", F.filters_directional_vectorised, L, N, J, lam, p["spin"]),
        g("filters_directional_vectorised", F.filters_directional_vectorised, L, N, J, lam, p["spin"], 0, True),
        g("construct_f", S.construct_f, L, N, J, lam, s, None, mr), g("construct_flm", S.construct_flm, L, J, lam, mr),
        g("construct_flmn", S.construct_flmn, L, N, J, lam, mr),
        g("construct_flmn_torch", S.construct_flmn_torch, L, N, J, None, lam, mr),
    ]


def _do(call, b, op, p, args, rec, name):
    B.RECORD = []
    g = process_state()
    try:
        r = call(b, op, p, args, _jm(op, p))
        got = B.RECORD
    finally:
        B.RECORD = None
    rec.verify(name)
    h = process_state()
    rec.changed += [f"{k} changed by {name}" for k in g if g[k] != h[k]]
    for i, x in enumerate(got):
        rec.add(f"filters/kernels of {name}", x)
    return r


def run(t):
    b, op, p = t["backend"], t["op"], t["p"]
    B.fresh()
    rec = Recorder()

    def symargs(op, p, ctx=None):
        cols, n = _data(op, p)
        ctx = ctx or Context(n)
        dt = np.float64 if p["reality"] else np.complex128
        if op == "synthesis":
            return [[Lin(w.copy(), ctx, dt) for w in cols[:-1]], Lin(cols[-1].copy(), ctx, dt)], ctx
        if op == "flm_to_analysis":
            return [Lin(cols[0].copy(), ctx, np.complex128)], ctx
        return [C.signal(p, cols[0].copy(), ctx)], ctx

    a1, ctx = symargs(op, p)
    bad = []
    r1 = _do(B.sym_call, b, op, p, a1, rec, "first call")
    s1 = [B.as_lin(x, ctx).c.copy() for x in r1]
    for i, (o, q) in enumerate(t["hist"]):
        a, hctx = symargs(o, q)
        r = _do(B.sym_call, b, o, q, a, rec, f"history call {i}")
        rec.add(f"result of history call {i}", _cat([x for x in r]))
        bad += [e for e in hctx.events if e[0] == "mutated"]
        if i == 0:
            rec.add("result of first call", r1)
    rec.verify("history")
    for q in [p] + [q for _, q in t["hist"]][:2]:
        rec.add("helper arrays", public_arrays(q))
    rec.clobber()
    a2, _ = symargs(op, p, ctx)
    r2 = _do(B.sym_call, b, op, p, a2, rec, "second call")
    bad += [e for e in ctx.events if e[0] == "mutated"]
    if bad or rec.changed:
        return {"status": "cex", "x": C._generic(ctx), "detail": f"arguments or process state modified: {rec.changed[:3]} {bad[:3]}"}
    if len(r1) != len(r2):
        return {"status": "cex", "x": C._generic(ctx), "detail": "different number of outputs"}
    res = C.decide(ctx, [(y, s) for y, s in zip(r2, s1)], [f"output {i} of the repeated call" for i in range(len(r1))])
    if res["status"] == "holds":
        # the same operation in a new process after the history
        B.fresh()
        rec = Recorder()
        for i, (o, q) in enumerate(t["hist"]):
            _do(B.sym_call, b, o, q, symargs(o, q)[0], rec, f"history call {i}")
        rec.items = []
        r3 = _do(B.sym_call, b, op, p, symargs(op, p, ctx)[0], rec, "call after the history")
        if len(r3) != len(r1):
            return {"status": "cex", "x": C._generic(ctx), "detail": "different number of outputs"}
        res3 = C.decide(ctx, [(y, s) for y, s in zip(r3, s1)], [f"output {i} of the call after the history" for i in range(len(r1))])
        if res3["status"] != "holds":
            return res3
        if rec.changed:
            return {"status": "cex", "x": C._generic(ctx), "detail": f"{rec.changed[:3]}"}
        res["counts"]["assertions"] += res3["counts"]["assertions"]
    res["nontrivial"] = res["status"] == "holds" and query.reachable(ctx, s1[0])
    return res


def concrete(t, x):
    b, op, p = t["backend"], t["op"], t["p"]
    B.fresh()
    rec = Recorder()

    def args(op, p, x):
        cols, n = _data(op, p)
        x = C.point(n, x)[:, None].astype(complex)
        v = [w @ x for w in cols]
        g = (lambda a: a[..., 0].real.copy()) if p["reality"] else (lambda a: a[..., 0].copy())
        if op == "synthesis":
            return [[g(w) for w in v[:-1]], g(v[-1])]
        if op == "flm_to_analysis":
            return [v[0][..., 0].copy()]
        return [g(C.signal(p, v[0], Context(0)).c)]

    kept = []

    def call(b, op, p, a, J):
        fn = B.bind(b, op, p, J)

        def conv(a):
            if isinstance(a, (list, tuple)):
                return [conv(y) for y in a]
            if b == "pt":
                import torch

                return torch.from_numpy(np.ascontiguousarray(a).copy())
            if b in B.JAXB:
                import jax.numpy as jnp

                return jnp.asarray(a)
            return np.array(a)

        ca = [conv(y) for y in a]
        s = snap(ca)
        r = B.guarded(f"{B.DESCR[b]}.{op}", fn, *ca)
        if not same(snap(ca), s):
            rec.changed.append("arguments changed by the call")
        out = _cat(list(r) if isinstance(r, tuple) else [r])
        return out

    def vals(r):
        return [y.detach().resolve_conj().resolve_neg().numpy().copy() if hasattr(y, "resolve_conj") else np.array(y) for y in r]

    r1 = _do(call, b, op, p, args(op, p, x), rec, "first call")
    v1 = vals(r1)
    rec.add("result of first call", r1)
    for i, (o, q) in enumerate(t["hist"]):
        r = _do(call, b, o, q, args(o, q, None), rec, f"history call {i}")
        rec.add(f"result of history call {i}", r)
    rec.verify("history")
    for q in [p] + [q for _, q in t["hist"]][:2]:
        rec.add("helper arrays", public_arrays(q))
    rec.clobber()
    v2 = vals(_do(call, b, op, p, args(op, p, x), rec, "second call"))
    if rec.changed:
        return True, "; ".join(rec.changed[:3])
    bad, msg = C.compare_all(v2, v1, [f"output {i} of the repeated call" for i in range(len(v1))])
    if bad:
        return bad, msg
    B.fresh()
    for i, (o, q) in enumerate(t["hist"]):
        _do(call, b, o, q, args(o, q, None), Recorder(), f"history call {i}")
    v3 = vals(_do(call, b, op, p, args(op, p, x), Recorder(), "call after the history"))
    return C.compare_all(v3, v1, [f"output {i} of the call after the history" for i in range(len(v1))])

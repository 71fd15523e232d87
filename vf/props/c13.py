"""Reverse-mode derivatives of the differentiable implementations are the exact adjoint."""
import numpy as np

from . import common as C
from .. import backends as B
from .. import configs, model, ops, query
from ..lin import Context, Lin

ID = "C13"
FUNCTIONS = C.FN_TRANSFORMS[:4] + ["JAX / torch reverse-mode derivative programs of those functions"]
EXPLANATION = (
    "Each task traces the reverse-mode derivative program of one operation (jax.vjp to a jaxpr, torch.func.vjp to an "
    "aten graph), executes it symbolically on arbitrary cotangents and asks z3 for a cotangent on which it differs by "
    "more than 1e-9 from the transpose of the matrix that the symbolic execution of the operation itself yields on "
    "arbitrary pixel (or harmonic) values."
)
BOUNDS = ("covering set over L in 3..5 (torch to 4), N in 1..3, J_min, six lam values, four samplings, spins -2..2, reality; "
          "analysis, flm_to_analysis, synthesis of the four differentiable implementations; thorough: L to 7")
ASSUMPTIONS = C.BASE_ASSUME + [
    "s2fft's recursive and C transforms are differentiable with their exact transpose as derivative (contract)",
    "cotangent conventions: JAX pairs by Re(ct*v), torch by Re(conj(ct)*v)",
]


def cost(t):
    return C.cost(t) * (6 if t["op"] == "synthesis" else 2)


def tasks(tier, seed):
    big = tier != "quick"
    m = 6 if big else 1
    Ls = (3, 4, 5, 6, 7) if big else (3, 4, 5)
    out = []
    for i, op in enumerate(("analysis", "synthesis", "flm_to_analysis")):
        n = {"jax": 24, "c": 24, "pj": 24} if op != "flm_to_analysis" else {"jax": 12, "c": 12, "pj": 12}
        n = {b: k * m for b, k in n.items()}
        sp = dict(spins=(0,)) if op == "flm_to_analysis" else {}
        for t in configs.per_backend(n, Ls, (1, 2, 3), seed=41 + i, **sp):
            out.append(dict(t, op=op))
        for t in configs.per_backend({"pt": 10 * m}, (3, 4, 5) if big else (3, 4), (1, 2, 3), seed=51 + i, **sp):
            out.append(dict(t, op=op))
    return out


def _inshapes(t):
    p, op = t["p"], t["op"]
    L, s = p["L"], p["sampling"]
    real = p["reality"]
    if op == "analysis":
        return [ops.sph_shape(L, s)], real
    if op == "flm_to_analysis":
        return [(L, 2 * L - 1)], False
    sh = [ops.wig_shape(*model.LN(L, j, p["N"], p["lam"]), s) for j in model.scales(L, p["J_min"], p["lam"])]
    return sh + [ops.sph_shape(model.L_scal(L, p["J_min"], p["lam"]), s)], real


def _basis(shapes, real):
    n = [int(np.prod(s)) * (1 if real else 2) for s in shapes]
    K = 1 + sum(n)
    out, off = [], 1
    for s, k in zip(shapes, n):
        c = np.zeros((int(np.prod(s)), K), dtype=complex)
        for i in range(c.shape[0]):
            if real:
                c[i, off + i] = 1
            else:
                c[i, off + 2 * i], c[i, off + 2 * i + 1] = 1, 1j
        out.append(c.reshape(tuple(s) + (K,)))
        off += k
    return out, K - 1


def _args(t, xs):
    return [list(xs[:-1]), xs[-1]] if t["op"] == "synthesis" else [xs[0]]


def _jmax(t):
    return model.j_max(t["p"]["L"], t["p"]["lam"])


def _vjp_fn(t):
    """(input arrays..., cotangents...) -> gradients, on the framework's own arrays."""
    b, op, p = t["backend"], t["op"], t["p"]
    fn = B.bind(b, op, p, _jmax(t))

    def flatout(*a):
        r = fn(*a)
        out = []
        for o in r if isinstance(r, tuple) else (r,):
            out += list(o) if isinstance(o, (list, tuple)) else [o]
        return tuple(out)

    if b == "pt":
        import torch

        def g(ins, cts):
            _, pull = torch.func.vjp(lambda *xs: flatout(*_args(t, xs)), *ins)
            return list(pull(tuple(cts)))
    else:
        import jax

        def g(ins, cts):
            _, pull = jax.vjp(lambda *xs: flatout(*_args(t, xs)), *ins)
            return list(pull(tuple(cts)))

    return g


def run(t):
    p, b, op = t["p"], t["backend"], t["op"]
    shapes, real = _inshapes(t)
    basis, n = _basis(shapes, real)
    ctx = Context(n)
    dt = np.float64 if real else np.complex128
    outs = [B.as_lin(o, ctx) for o in B.sym_call(b, op, p, _args(t, [Lin(c, ctx, dt) for c in basis]), _jmax(t))]
    # cotangents
    oreal = [o.dtype.kind == "f" for o in outs]
    oshapes = [o.shape for o in outs]
    cts, off, nct = [], 1, sum(int(np.prod(s)) * (1 if r else 2) for s, r in zip(oshapes, oreal))
    cctx = Context(nct)
    want = np.zeros((n, nct + 1))  # gradient w.r.t. the real input variables
    sgn = 1.0 if b == "pt" else -1.0
    for o, s, r in zip(outs, oshapes, oreal):
        k = int(np.prod(s))
        c = np.zeros((k, nct + 1), dtype=complex)
        M = o.c.reshape(k, -1)[:, 1:]
        for i in range(k):
            if r:
                c[i, off + i] = 1
            else:
                c[i, off + 2 * i], c[i, off + 2 * i + 1] = 1, 1j
        if r:
            want[:, off : off + k] = M.real.T
            off += k
        else:
            want[:, off : off + 2 * k : 2] = M.real.T
            want[:, off + 1 : off + 2 * k : 2] = sgn * M.imag.T
            off += 2 * k
        cts.append(Lin(c.reshape(tuple(s) + (nct + 1,)), cctx, np.float64 if r else np.complex128))
    ins = [np.zeros(s, dtype=dt) for s in shapes]
    g = _vjp_fn(t)
    where = f"derivative of {B.DESCR[b]}.{op}"
    if b == "pt":
        import torch

        from .. import torchi

        ti = [torch.from_numpy(x) for x in ins]
        tc = [torch.empty(c.shape, dtype=torch.float64 if c.dtype.kind == "f" else torch.complex128) for c in cts]
        from torch.fx.experimental.proxy_tensor import make_fx

        n = len(ti)
        gm = B.guarded(where, make_fx(lambda *a: g(list(a[:n]), list(a[n:])), tracing_mode="fake",
                                      _allow_non_fake_inputs=True), *ti, *tc)
        got = torchi.run_affine(gm, ins + cts)
    else:
        import jax

        from .. import jaxi

        sp = [jax.ShapeDtypeStruct(c.shape, c.dtype) for c in cts]
        si = [jax.ShapeDtypeStruct(x.shape, x.dtype) for x in ins]
        cj = B.guarded(where, jaxi.trace, g, si, sp)
        got = jaxi.run(cj, ins + cts)
    pairs, off = [], 0
    for x, s in zip(got, shapes):
        k = int(np.prod(s))
        if real:
            w = want[off : off + k].astype(complex)
            off += k
        else:
            w = want[off : off + 2 * k : 2] + sgn * 1j * want[off + 1 : off + 2 * k : 2]
            off += 2 * k
        pairs.append((x, w.reshape(tuple(s) + (nct + 1,))))
    res = C.decide(cctx, pairs, [f"gradient of argument {i}" for i in range(len(pairs))])
    res["nontrivial"] = res["status"] == "holds" and query.reachable(cctx, pairs[0][1])
    return res


def concrete(t, x):
    p, b, op = t["p"], t["backend"], t["op"]
    shapes, real = _inshapes(t)
    r = np.random.default_rng(5)

    def rnd(s, re):
        a = r.normal(size=s)
        return a if re else a + 1j * r.normal(size=s)

    worst = 0.0
    ins0 = [np.zeros(s, dtype=float if real else complex) for s in shapes]
    outs = B.conc_call(b, op, p, _args(t, ins0), _jmax(t))
    cts, off = [], 1
    for o in outs:
        re = o.dtype.kind == "f"
        k = o.size * (1 if re else 2)
        if x is None:
            cts.append(rnd(o.shape, re))
        else:
            v = np.asarray(x[off : off + k])
            cts.append((v if re else v[::2] + 1j * v[1::2]).reshape(o.shape))
        off += k
    g = _vjp_fn(t)

    def pull(cts):
        if b == "pt":
            import torch

            q = lambda xs: [torch.from_numpy(np.ascontiguousarray(a)) for a in xs]
            return [a.detach().resolve_conj().numpy() for a in B.guarded("derivative", g, q(ins0), q(cts))]
        import jax.numpy as jnp

        return [np.asarray(a) for a in B.guarded(
            f"derivative of {B.DESCR[b]}.{op}", g, [jnp.asarray(a) for a in ins0], [jnp.asarray(a) for a in cts])]

    sg = np.conj if b == "pt" else (lambda a: a)
    for trial in range(2):
        cc = cts if trial == 0 else [rnd(o.shape, o.dtype.kind == "f") for o in outs]
        gr = pull(cc)
        for _ in range(3):
            v = [rnd(s, real) for s in shapes]
            y = B.conc_call(b, op, p, _args(t, v), _jmax(t))
            lhs = sum(float(np.sum(sg(c) * o).real) for c, o in zip(cc, y))
            rhs = sum(float(np.sum(sg(a) * w).real) for a, w in zip(gr, v))
            sc = sum(float(np.sum(np.abs(c) * np.abs(o))) for c, o in zip(cc, y)) + 1e-30
            worst = max(worst, abs(lhs - rhs) / sc)
            if not np.isfinite(lhs - rhs):
                return True, "non-finite gradient"
    return worst > 1e-9, f"<ct, A v> and <gradient, v> differ by {worst:.3e} relative"

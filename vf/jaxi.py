"""Symbolic interpreter for jaxprs over linear forms (vf.lin.Lin).

The jaxpr is what JAX traces from the code under test (the compiler's own IR); it is
regenerated on every run.  Primitives whose inputs are all concrete are evaluated
concretely."""
import itertools

import numpy as np

from . import nonlin, stubs
from .lin import Lin, NotEncodable, SymBool, as_coef, ctx_of, pad_cols, res_dtype

PRIMS_SEEN = {}


def trace(fn, *args):
    import jax

    return jax.make_jaxpr(fn)(*args)


def run(closed, args):
    return eval_jaxpr(closed.jaxpr, closed.consts, args)


def sym(x):
    return isinstance(x, (Lin, SymBool))


def eval_jaxpr(jaxpr, consts, args):
    from jax import core

    env = {}

    def read(v):
        if isinstance(v, core.Literal):
            return np.asarray(v.val)
        return env[v]

    def write(v, x):
        env[v] = x

    for v, x in zip(jaxpr.constvars, consts):
        write(v, conc(x))
    assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
    for v, x in zip(jaxpr.invars, args):
        write(v, x if sym(x) else conc(x))
    for eqn in jaxpr.eqns:
        ins = [read(v) for v in eqn.invars]
        outs = eval_eqn(eqn, ins)
        if not eqn.primitive.multiple_results:
            outs = [outs]
        for v, o in zip(eqn.outvars, outs):
            write(v, o)
    return [read(v) for v in jaxpr.outvars]


def conc(x):
    if sym(x):
        return x
    try:
        return np.asarray(x)
    except Exception:
        return x


def eval_eqn(eqn, ins):
    name = eqn.primitive.name
    PRIMS_SEEN[name] = PRIMS_SEEN.get(name, 0) + 1
    p = eqn.params
    # --- calls and control flow
    if name in ("pjit", "closed_call", "core_call", "remat", "checkpoint", "custom_jvp_call",
                "custom_vjp_call", "custom_vjp_call_jaxpr", "custom_lin"):
        j = p.get("jaxpr") or p.get("call_jaxpr") or p.get("fun_jaxpr")
        if hasattr(j, "consts"):
            return eval_jaxpr(j.jaxpr, j.consts, ins)
        return eval_jaxpr(j, [], ins)
    if name == "scan":
        return _scan(p, ins)
    if name == "while":
        return _while(p, ins)
    if name == "cond":
        i = ins[0]
        if sym(i):
            raise NotEncodable("branch on a symbolic predicate")
        br = p["branches"]
        b = br[int(np.clip(int(i), 0, len(br) - 1))]
        return eval_jaxpr(b.jaxpr, b.consts, ins[1:])
    if name == "device_put" and any(sym(x) for x in ins):
        return list(ins)
    if name == "vf_ext":
        return _ext(eqn, ins)
    if name == "vf_ext_t":
        return _ext_t(eqn, ins)
    ins = [x.const() if isinstance(x, Lin) and x.is_const() and x.ctx.defs == [] and False else x for x in ins]
    rule = RULES.get(name)
    if not any(sym(x) for x in ins):
        if name == "device_put":
            return list(ins)
        f = CONCRETE.get(name)
        if f is not None:
            return np.asarray(f(*ins)).astype(eqn.outvars[0].aval.dtype)
        if name == "iota":
            av = eqn.outvars[0].aval
            d = p["dimension"]
            r = np.arange(av.shape[d]).reshape([-1 if i == d else 1 for i in range(len(av.shape))])
            return np.broadcast_to(r, av.shape).astype(av.dtype)
        if rule is not None and name in NUMPY_SAFE:
            r = rule(eqn, *ins)
            dt = eqn.outvars[0].aval.dtype
            return np.asarray(r).astype(dt)
        r = eqn.primitive.bind(*_jaxify(ins), **p)
        if eqn.primitive.multiple_results:
            return [np.asarray(x) for x in r]
        return np.asarray(r)
    if rule is None:
        raise NotEncodable(f"jax primitive {name} on symbolic values")
    r = rule(eqn, *ins)
    if isinstance(r, Lin):
        av = eqn.outvars[0].aval
        assert tuple(r.shape) == tuple(av.shape), (name, r.shape, av.shape)
        if av.dtype.kind == "f" and r.dtype.kind == "c":
            pass
        r = Lin(r.c, r.ctx, np.complex128 if av.dtype.kind == "c" else np.float64)
    return r


def _jaxify(ins):
    import jax.numpy as jnp

    return [jnp.asarray(x) for x in ins]


def _scan(p, ins):
    nc, nk, n = p["num_consts"], p["num_carry"], p["length"]
    j = p["jaxpr"]
    consts, carry, xs = ins[:nc], list(ins[nc : nc + nk]), ins[nc + nk :]
    order = range(n)
    if p["reverse"]:
        order = reversed(order)
    ys = {}
    for i in order:
        out = eval_jaxpr(j.jaxpr, j.consts, list(consts) + carry + [x[i] for x in xs])
        carry = out[:nk]
        ys[i] = out[nk:]
    n_y = len(j.jaxpr.outvars) - nk
    stacked = []
    for k in range(n_y):
        col = [ys[i][k] for i in range(n)]
        if n == 0:
            av = j.jaxpr.outvars[nk + k].aval
            stacked.append(np.zeros((0,) + av.shape, av.dtype))
        elif any(isinstance(c, Lin) for c in col):
            ctx = ctx_of(*col)
            stacked.append(
                Lin(np.stack([as_coef(c, ctx.K) for c in col]), ctx, res_dtype(*col))
            )
        else:
            stacked.append(np.stack(col))
    return list(carry) + stacked


def _while(p, ins):
    cn, bn = p["cond_nconsts"], p["body_nconsts"]
    cc, bc, st = ins[:cn], ins[cn : cn + bn], list(ins[cn + bn :])
    cj, bj = p["cond_jaxpr"], p["body_jaxpr"]
    for _ in range(100000):
        (t,) = eval_jaxpr(cj.jaxpr, cj.consts, list(cc) + st)
        if sym(t):
            raise NotEncodable("loop condition depends on the signal")
        if not bool(t):
            return st
        st = eval_jaxpr(bj.jaxpr, bj.consts, list(bc) + st)
    raise NotEncodable("loop bound exceeded")


def _ext(eqn, ins):
    kind, params = eqn.params["kind"], eqn.params["params"]
    x, *tok = ins
    if tok and (sym(tok[0]) or not stubs.token_matches(tok[0], kind, params)):
        raise NotEncodable(f"{kind}: recursion precomputes of other parameters {dict(params)}")
    p = dict(params)
    if not sym(x):
        c = np.asarray(x).astype(np.complex128)[..., None]
        r = stubs.apply(kind, p, c)[..., 0]
        return r.real if eqn.outvars[0].aval.dtype.kind == "f" else r
    r = stubs.apply(kind, p, x.c)
    if eqn.outvars[0].aval.dtype.kind == "f":
        return Lin(r.real.astype(np.complex128), x.ctx, np.float64)
    return Lin(r, x.ctx)


def _ext_t(eqn, ins):
    kind, params = eqn.params["kind"], eqn.params["params"]
    (ct,) = ins
    real_in = np.dtype(eqn.params["in_dtype"]).kind == "f"
    c = ct.c if sym(ct) else np.asarray(ct).astype(np.complex128)[..., None]
    r = stubs.apply_t(kind, dict(params), c)
    if real_in:
        r = r.real.astype(np.complex128)
    if sym(ct):
        return Lin(r, ct.ctx, np.float64 if real_in else np.complex128)
    return r[..., 0].real if real_in else r[..., 0]


CONCRETE = {
    "lt": np.less, "le": np.less_equal, "gt": np.greater, "ge": np.greater_equal,
    "eq": np.equal, "ne": np.not_equal, "and": np.bitwise_and, "or": np.bitwise_or,
    "sqrt": np.sqrt, "abs": np.abs, "exp": np.exp, "log": np.log, "floor": np.floor,
    "max": np.maximum, "min": np.minimum, "shift_right_logical": np.right_shift,
    "cos": np.cos, "sin": np.sin, "sign": np.sign,
}
RULES = {}
NUMPY_SAFE = set()


def rule(*names, safe=True):
    def deco(f):
        for n in names:
            RULES[n] = f
            if safe:
                NUMPY_SAFE.add(n)
        return f

    return deco


def _move(x, f):
    """apply a structural numpy function to Lin coefficient array or ndarray"""
    if isinstance(x, Lin):
        return Lin(f(x.c, 1), x.ctx, x.dtype)
    if isinstance(x, SymBool):
        return SymBool(x.ctx, f(x.a, 0))
    return f(x, 0)


rule("add", "add_any")(lambda e, a, b: np.add(a, b))
rule("sub")(lambda e, a, b: np.subtract(a, b))
rule("neg")(lambda e, a: np.negative(a))
rule("mul")(lambda e, a, b: np.multiply(a, b))
rule("conj")(lambda e, a: np.conj(a))
rule("real")(lambda e, a: a.real)
rule("imag")(lambda e, a: a.imag)
rule("copy", "copy_p", "stop_gradient", "optimization_barrier", "reduce_precision", safe=False)(lambda e, a: a)
rule("abs", safe=False)(lambda e, a: np.abs(a))
rule("sqrt", safe=False)(lambda e, a: np.sqrt(a))
rule("square", safe=False)(lambda e, a: np.multiply(a, a))


@rule("complex")
def _complex(e, a, b):
    return np.add(a, np.multiply(b, 1j))


@rule("div", safe=False)
def _div(e, a, b):
    if sym(b):
        raise NotEncodable("division by a symbolic value")
    return np.multiply(a, 1.0 / np.asarray(b))


@rule("integer_pow", safe=False)
def _ipow(e, a):
    y = e.params["y"]
    if y == 1:
        return a
    if y == 2:
        return np.multiply(a, a)
    raise NotEncodable(f"power {y} of a symbolic value")


@rule("is_finite", safe=False)
def _isfin(e, a):
    return np.ones(a.shape, bool)


for _n, _o in (("lt", "less"), ("le", "less_equal"), ("gt", "greater"), ("ge", "greater_equal"),
               ("eq", "equal"), ("ne", "not_equal")):
    rule(_n, safe=False)(lambda e, a, b, _o=_o: nonlin.compare(_o, a, b))
for _n in ("and", "or", "xor", "not"):
    rule(_n, safe=False)(lambda e, *a, _n=_n: nonlin.logical(_n, *a))
rule("max", safe=False)(lambda e, a, b: nonlin.maximum(a, b))
rule("min", safe=False)(lambda e, a, b: nonlin.minimum(a, b))


@rule("sign", safe=False)
def _sign(e, a):
    one, zero = np.ones(a.shape), np.zeros(a.shape)
    if a.dtype.kind == "c":
        raise NotEncodable("complex sign")
    return nonlin.select(
        nonlin.compare("greater", a, zero), one,
        nonlin.select(nonlin.compare("less", a, zero), -one, zero),
    )


@rule("convert_element_type")
def _cvt(e, a):
    dt = np.dtype(e.params["new_dtype"])
    if isinstance(a, SymBool):
        if dt.kind in "fc":
            return nonlin.select(a, np.ones(a.shape), np.zeros(a.shape))
        raise NotEncodable("symbolic predicate converted to integer")
    if isinstance(a, Lin):
        if dt.kind == "c":
            return Lin(a.c, a.ctx, np.complex128) if dt == np.complex128 else _bad_dt(dt)
        if dt.kind == "f":
            return Lin(a.c.real.astype(np.complex128), a.ctx, np.float64) if dt == np.float64 else _bad_dt(dt)
        raise NotEncodable(f"symbolic value converted to {dt}")
    return np.asarray(a).real.astype(dt) if dt.kind != "c" and np.iscomplexobj(a) else np.asarray(a).astype(dt)


def _bad_dt(dt):
    raise NotEncodable(f"symbolic value converted to reduced precision {dt}")


@rule("reshape")
def _reshape(e, a, *dyn):
    sh = tuple(e.params["new_sizes"])
    if e.params.get("dimensions") is not None:
        a = _move(a, lambda c, k: np.transpose(c, tuple(e.params["dimensions"]) + ((c.ndim - 1,) if k else ())))
    return _move(a, lambda c, k: c.reshape(sh + (c.shape[-1:] if k else ())))


@rule("transpose")
def _transpose(e, a):
    pm = tuple(e.params["permutation"])
    return _move(a, lambda c, k: np.transpose(c, pm + ((len(pm),) if k else ())))


@rule("squeeze")
def _squeeze(e, a):
    sh = e.outvars[0].aval.shape
    return _move(a, lambda c, k: c.reshape(tuple(sh) + (c.shape[-1:] if k else ())))


RULES["expand_dims"] = RULES["squeeze"]
NUMPY_SAFE.add("expand_dims")


@rule("broadcast_in_dim")
def _bcast(e, a, *dyn):
    sh, bd = tuple(e.params["shape"]), e.params["broadcast_dimensions"]

    def f(c, k):
        new = [1] * len(sh)
        for i, d in enumerate(bd):
            new[d] = c.shape[i]
        tail = c.shape[-1:] if k else ()
        return np.broadcast_to(c.reshape(tuple(new) + tail), sh + tail)

    return _move(a, f)


@rule("slice")
def _slice(e, a):
    s, l, st = e.params["start_indices"], e.params["limit_indices"], e.params["strides"]
    st = st or (1,) * len(s)
    key = tuple(slice(x, y, z) for x, y, z in zip(s, l, st))
    return _move(a, lambda c, k: c[key])


@rule("rev")
def _rev(e, a):
    return _move(a, lambda c, k: np.flip(c, axis=tuple(e.params["dimensions"])) if e.params["dimensions"] else c)


@rule("concatenate")
def _concat(e, *xs):
    d = e.params["dimension"]
    ctx = ctx_of(*xs)
    if ctx is None:
        if any(isinstance(x, SymBool) for x in xs):
            c2 = next(x.ctx for x in xs if isinstance(x, SymBool))
            return SymBool(c2, np.concatenate([x.a if isinstance(x, SymBool) else x.astype(object) for x in xs], axis=d))
        return np.concatenate(xs, axis=d)
    return Lin(np.concatenate([as_coef(x, ctx.K) for x in xs], axis=d), ctx, res_dtype(*xs))


@rule("pad")
def _pad(e, a, v):
    cfg = e.params["padding_config"]
    if sym(v):
        raise NotEncodable("pad with a symbolic value")
    idx = np.arange(1, int(np.prod(np.shape(a), dtype=int)) + 1).reshape(np.shape(a))
    for ax, (lo, hi, it) in enumerate(cfg):
        if it:
            n = idx.shape[ax]
            m = n + (n - 1) * it if n else 0
            new = np.zeros(idx.shape[:ax] + (m,) + idx.shape[ax + 1 :], int)
            new[(slice(None),) * ax + (slice(0, None, it + 1),)] = idx
            idx = new
        w = [(0, 0)] * idx.ndim
        w[ax] = (max(lo, 0), max(hi, 0))
        idx = np.pad(idx, w)
        sl = [slice(None)] * idx.ndim
        sl[ax] = slice(-lo if lo < 0 else 0, idx.shape[ax] + (hi if hi < 0 else 0))
        idx = idx[tuple(sl)]
    if isinstance(a, Lin):
        K = a.c.shape[-1]
        pool = np.zeros((a.size + 1, K), np.complex128)
        pool[0, 0] = np.asarray(v)
        pool[1:] = a.c.reshape(-1, K)
        return Lin(pool[idx], a.ctx, a.dtype)
    pool = np.concatenate([np.asarray(v).reshape(1), np.asarray(a).reshape(-1)])
    return pool[idx]


@rule("select_n")
def _select(e, w, *cases):
    if isinstance(w, SymBool):
        if len(cases) != 2:
            raise NotEncodable("select_n with many symbolic cases")
        return nonlin.select(w, cases[1], cases[0])
    if isinstance(w, Lin):
        raise NotEncodable("select on a symbolic integer")
    w = np.asarray(w).astype(int)
    ctx = ctx_of(*cases)
    if ctx is None:
        if any(isinstance(c, SymBool) for c in cases):
            raise NotEncodable("select of predicates")
        return np.choose(w, [np.broadcast_to(c, np.broadcast_shapes(w.shape, c.shape)) for c in cases]) if len(cases) < 30 else None
    cs = [as_coef(c, ctx.K) for c in cases]
    sh = np.broadcast_shapes(w.shape, *[c.shape[:-1] for c in cs])
    wb = np.broadcast_to(w, sh)
    out = np.zeros(sh + (ctx.K,), np.complex128)
    for i, c in enumerate(cs):
        m = wb == i
        out[m] = np.broadcast_to(c, sh + (ctx.K,))[m]
    return Lin(out, ctx, res_dtype(*cases))


@rule("reduce_sum")
def _rsum(e, a):
    ax = tuple(e.params["axes"])
    return _move(a, lambda c, k: c.sum(axis=ax))


@rule("cumsum", safe=False)
def _cumsum(e, a):
    ax, rev = e.params["axis"], e.params["reverse"]
    c = a.c
    c = np.flip(np.cumsum(np.flip(c, ax), axis=ax), ax) if rev else np.cumsum(c, axis=ax)
    return Lin(c, a.ctx, a.dtype)


@rule("dot_general")
def _dot(e, a, b):
    (ca, cb), (ba, bb) = e.params["dimension_numbers"]
    la = [None] * np.ndim(a)
    lb = [None] * np.ndim(b)
    it = iter("abcdefghijklmnopqrstuvwxyz")
    out = []
    for i, j in zip(ba, bb):
        la[i] = lb[j] = next(it)
        out.append(la[i])
    for i, j in zip(ca, cb):
        la[i] = lb[j] = next(it)
    for ls in (la, lb):
        for i, v in enumerate(ls):
            if v is None:
                ls[i] = next(it)
                out.append(ls[i])
    s = "".join(la) + "," + "".join(lb) + "->" + "".join(out)
    if isinstance(a, Lin) and isinstance(b, Lin):
        if a.is_const():
            a = a.const()
        elif b.is_const():
            b = b.const()
        else:
            raise NotEncodable("product of two symbolic operands")
    if isinstance(a, Lin) or isinstance(b, Lin):
        return np.einsum(s, a, b)
    return np.einsum(s, a, b, optimize=True)


@rule("fft")
def _fft(e, a):
    t, ln = e.params["fft_type"], tuple(e.params["fft_lengths"])
    t = str(t)
    tail = 1 if isinstance(a, Lin) else 0
    c = a.c if tail else np.asarray(a)
    nd = c.ndim - tail
    axes = tuple(range(nd - len(ln), nd))
    if "IRFFT" in t or t.endswith("3"):
        r = np.fft.irfftn(c, ln, axes)
    elif "RFFT" in t or t.endswith("2"):
        r = np.fft.rfftn(c.real, ln, axes)
    elif "IFFT" in t or t.endswith("1"):
        r = np.fft.ifftn(c, ln, axes)
    else:
        r = np.fft.fftn(c, ln, axes)
    if tail:
        return Lin(r.astype(np.complex128), a.ctx)
    return r


def _starts(starts, shape, sizes):
    return [int(np.clip(int(s), 0, d - z)) for s, d, z in zip(starts, shape, sizes)]


@rule("dynamic_slice")
def _dslice(e, a, *starts):
    sizes = e.params["slice_sizes"]
    if any(sym(s) for s in starts):
        raise NotEncodable("index depends on the signal")
    st = _starts(starts, np.shape(a), sizes)
    key = tuple(slice(s, s + z) for s, z in zip(st, sizes))
    return _move(a, lambda c, k: c[key])


@rule("dynamic_update_slice")
def _dus(e, a, u, *starts):
    if any(sym(s) for s in starts):
        raise NotEncodable("index depends on the signal")
    st = _starts(starts, np.shape(a), np.shape(u))
    key = tuple(slice(s, s + z) for s, z in zip(st, np.shape(u)))
    ctx = ctx_of(a, u)
    if ctx is None:
        r = np.array(a)
        r[key] = u
        return r
    c = as_coef(a, ctx.K).copy()
    c[key] = as_coef(u, ctx.K)
    return Lin(c, ctx, res_dtype(a, u))


@rule("gather")
def _gather(e, a, idx):
    if sym(idx):
        raise NotEncodable("index depends on the signal")
    dn, sizes = e.params["dimension_numbers"], tuple(e.params["slice_sizes"])
    mode = str(e.params["mode"])
    if getattr(dn, "operand_batching_dims", ()):
        raise NotEncodable("batched gather")
    sh = np.shape(a)
    src = np.arange(1, int(np.prod(sh, dtype=int)) + 1).reshape(sh)
    idx = np.asarray(idx)
    bshape = idx.shape[:-1]
    off = dn.offset_dims
    out_sh = tuple(e.outvars[0].aval.shape)
    out = np.zeros(out_sh, int)
    batch_dims = [d for d in range(len(out_sh)) if d not in off]
    keep = [d for d in range(len(sh)) if d not in dn.collapsed_slice_dims]
    fill = "FILL" in mode.upper() or "fill" in mode
    for b in itertools.product(*[range(x) for x in bshape]):
        st = [0] * len(sh)
        for k, d in enumerate(dn.start_index_map):
            st[d] = int(idx[b + (k,)])
        ok = all(0 <= s <= D - z for s, D, z in zip(st, sh, sizes))
        if not ok:
            if fill:
                continue
            st = [int(np.clip(s, 0, D - z)) for s, D, z in zip(st, sh, sizes)]
        sl = src[tuple(slice(s, s + z) for s, z in zip(st, sizes))]
        sl = sl.reshape([sizes[d] for d in keep])
        key = [slice(None)] * len(out_sh)
        for d, x in zip(batch_dims, b):
            key[d] = x
        out[tuple(key)] = sl
    if isinstance(a, Lin):
        K = a.c.shape[-1]
        pool = np.concatenate([np.zeros((1, K), np.complex128), a.c.reshape(-1, K)])
        if fill and np.any(out == 0):
            raise NotEncodable("out-of-range read filled with NaN")
        return Lin(pool[out], a.ctx, a.dtype)
    av = np.asarray(a)
    fv = e.params.get("fill_value")
    if fv is None:
        fv = np.nan if av.dtype.kind in "fc" else (True if av.dtype.kind == "b" else (np.iinfo(av.dtype).min if av.dtype.kind == "i" else np.iinfo(av.dtype).max))
    pool = np.concatenate([np.array([fv]).astype(av.dtype), av.reshape(-1)])
    return pool[out]


def _scatter(e, a, idx, u, mode):
    if sym(idx):
        raise NotEncodable("index depends on the signal")
    dn = e.params["dimension_numbers"]
    if getattr(dn, "operand_batching_dims", ()):
        raise NotEncodable("batched scatter")
    ctx = ctx_of(a, u)
    sh, ush = np.shape(a), np.shape(u)
    idx = np.asarray(idx)
    bshape = idx.shape[:-1]
    uw = dn.update_window_dims
    ub = [d for d in range(len(ush)) if d not in uw]
    keep = [d for d in range(len(sh)) if d not in dn.inserted_window_dims]
    win = {d: ush[w] for d, w in zip(keep, uw)}
    sizes = [win.get(d, 1) for d in range(len(sh))]
    clip = "CLIP" in str(e.params["mode"]).upper()
    if ctx is None:
        A, U, tail = np.array(a), np.asarray(u), 0
    else:
        A, U, tail = as_coef(a, ctx.K).copy(), as_coef(u, ctx.K), 1
    for b in itertools.product(*[range(x) for x in bshape]):
        st = [0] * len(sh)
        for k, d in enumerate(dn.scatter_dims_to_operand_dims):
            st[d] = int(idx[b + (k,)])
        if not all(0 <= s <= D - z for s, D, z in zip(st, sh, sizes)):
            if not clip:
                continue
            st = [int(np.clip(s, 0, D - z)) for s, D, z in zip(st, sh, sizes)]
        key = [slice(None)] * len(ush)
        for d, x in zip(ub, b):
            key[d] = x
        v = U[tuple(key)]
        full = tuple(sizes) + (v.shape[-1:] if tail else ())
        v = v.reshape(full)
        tk = tuple(slice(s, s + z) for s, z in zip(st, sizes))
        if mode == "add":
            A[tk] += v
        elif mode == "set":
            A[tk] = v
        elif mode == "mul":
            if tail:
                if isinstance(u, Lin) and isinstance(a, Lin):
                    raise NotEncodable("scatter-multiply of symbolic values")
                if isinstance(u, Lin):
                    A[tk] = A[tk][..., :1] * v
                else:
                    A[tk] = A[tk] * v[..., :1]
            else:
                A[tk] = A[tk] * v
    if ctx is None:
        return A
    return Lin(A, ctx, res_dtype(a, u))


rule("scatter-add", "scatter_add")(lambda e, a, i, u: _scatter(e, a, i, u, "add"))
rule("scatter")(lambda e, a, i, u: _scatter(e, a, i, u, "set"))
rule("scatter-mul", "scatter_mul")(lambda e, a, i, u: _scatter(e, a, i, u, "mul"))


@rule("split", safe=False)
def _split(e, a):
    ax, out, o = e.params["axis"], [], 0
    for s in e.params["sizes"]:
        key = (slice(None),) * ax + (slice(o, o + s),)
        out.append(_move(a, lambda c, k: c[key]))
        o += s
    return out

"""Exact solver definitions for the few non-linear operations that can occur.

Each introduces fresh real variables; `ctx.defs` collects thunks producing the defining
z3 constraints.  z3 expressions are built from exact rationals of the float coefficients.
"""
import numpy as np

from .lin import Lin, NotEncodable, SymBool, as_coef, ctx_of, kind, res_dtype

MAX_NEW = 4000


def _fresh_array(ctx, shape, n_per, dtype):
    size = int(np.prod(shape, dtype=int))
    if size * n_per > MAX_NEW:
        raise NotEncodable("too many non-linear terms")
    idx = ctx.fresh(size * n_per)
    K = ctx.K
    c = np.zeros((size, K), dtype=np.complex128)
    idx = np.array(idx).reshape(size, n_per)
    for p in range(n_per):
        c[np.arange(size), idx[:, p]] = 1.0 if p == 0 else 1j
    ctx.nonlinear += size
    return Lin(c.reshape(tuple(shape) + (K,)), ctx, dtype), idx


def rows(x, shape, K):
    c = as_coef(x, K)
    c = np.broadcast_to(c, tuple(shape) + (K,))
    return c.reshape(-1, K)


def absolute(a):
    out, idx = _fresh_array(a.ctx, a.shape, 1, np.float64)
    A = rows(a, a.shape, a.ctx.K)

    def d(z):
        cs = []
        for r, (i,) in zip(A, idx):
            v = z.var(i)
            if z.direction is not None and not r[0] and not np.any(r[z.ctx.n_inputs + 1 :]):
                cs.append(v == z.t * z.num(abs(r[: z.ctx.n_inputs + 1] @ z.direction)))
                continue
            if not np.any(r.imag):
                e = z.expr(r.real)
                cs.append(z.z3.If(e >= 0, v == e, v == -e))
            else:
                re, im = z.expr(r.real), z.expr(r.imag)
                cs += [v >= 0, v * v == re * re + im * im]
        return cs

    d.idx = {int(i) for i in np.ravel(idx)}
    a.ctx.defs.append(d)
    a.ctx.events.append(("abs", idx, A))
    return out


def sqrt(a):
    if a.dtype.kind == "c":
        raise NotEncodable("complex square root of a symbolic value")
    out, idx = _fresh_array(a.ctx, a.shape, 1, np.float64)
    A = rows(a, a.shape, a.ctx.K)

    def d(z):
        cs = []
        for r, (i,) in zip(A, idx):
            v = z.var(i)
            cs += [v >= 0, v * v == z.expr(r.real)]
        return cs

    d.idx = {int(i) for i in np.ravel(idx)}
    a.ctx.defs.append(d)
    a.ctx.events.append(("sqrt", idx, A))
    return out


def mul(a, b):
    shape = np.broadcast_shapes(a.shape, b.shape)
    cplx = res_dtype(a, b) == np.complex128
    ctx = a.ctx
    out, idx = _fresh_array(ctx, shape, 2 if cplx else 1, res_dtype(a, b))
    A, B = rows(a, shape, ctx.K), rows(b, shape, ctx.K)

    def d(z):
        cs = []
        for ra, rb, ii in zip(A, B, idx):
            ar, br = z.expr(ra.real), z.expr(rb.real)
            if cplx:
                ai, bi = z.expr(ra.imag), z.expr(rb.imag)
                cs += [
                    z.var(ii[0]) == ar * br - ai * bi,
                    z.var(ii[1]) == ar * bi + ai * br,
                ]
            else:
                cs.append(z.var(ii[0]) == ar * br)
        return cs

    d.idx = {int(i) for i in np.ravel(idx)}
    ctx.defs.append(d)
    ctx.events.append(("mul", idx, A, B))
    return out


def compare(op, a, b):
    shape = np.broadcast_shapes(np.shape(a), np.shape(b))
    ctx = ctx_of(a, b)
    A, B = rows(a, shape, ctx.K), rows(b, shape, ctx.K)
    D = A - B
    out = np.empty(len(D), dtype=object)
    for i, r in enumerate(D):
        out[i] = (op, r)
    return SymBool(ctx, out.reshape(shape))


def logical(op, *args):
    ctx = next(a.ctx for a in args if isinstance(a, SymBool))
    arrs = [a.a if isinstance(a, SymBool) else np.asarray(a).astype(object) for a in args]
    shape = np.broadcast_shapes(*[x.shape for x in arrs])
    arrs = [np.broadcast_to(x, shape) for x in arrs]
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = (op,) + tuple(x[i] for x in arrs)
    return SymBool(ctx, out)


def pred(z, p):
    if not isinstance(p, tuple):
        return z.z3.BoolVal(bool(p))
    op = p[0]
    if op in ("and", "or", "not", "xor"):
        sub = [pred(z, q) for q in p[1:]]
        return {"and": z.z3.And, "or": z.z3.Or, "not": z.z3.Not, "xor": z.z3.Xor}[op](*sub)
    r = p[1]
    e = z.expr(r.real)
    f = {
        "less": lambda: e < 0,
        "less_equal": lambda: e <= 0,
        "greater": lambda: e > 0,
        "greater_equal": lambda: e >= 0,
    }
    if op in f:
        return f[op]()
    eq = e == 0
    if np.any(r.imag):
        eq = z.z3.And(eq, z.expr(r.imag) == 0)
    return eq if op == "equal" else z.z3.Not(eq)


def select(cond, a, b):
    """where(cond, a, b) with a symbolic condition."""
    ctx = cond.ctx
    shape = np.broadcast_shapes(cond.shape, np.shape(a), np.shape(b))
    cplx = res_dtype(a, b) == np.complex128
    out, idx = _fresh_array(ctx, shape, 2 if cplx else 1, res_dtype(a, b))
    A, B = rows(a, shape, ctx.K), rows(b, shape, ctx.K)
    P = np.broadcast_to(cond.a, shape).reshape(-1)

    def d(z):
        cs = []
        for p, ra, rb, ii in zip(P, A, B, idx):
            c = pred(z, p)
            cs.append(z.var(ii[0]) == z.z3.If(c, z.expr(ra.real), z.expr(rb.real)))
            if cplx:
                cs.append(z.var(ii[1]) == z.z3.If(c, z.expr(ra.imag), z.expr(rb.imag)))
        return cs

    d.idx = {int(i) for i in np.ravel(idx)}
    ctx.defs.append(d)
    ctx.events.append(("select", idx, P, A, B))
    return out


def maximum(a, b):
    return select(compare("greater_equal", a, b), a, b)


def minimum(a, b):
    return select(compare("less_equal", a, b), a, b)

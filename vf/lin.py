"""Symbolic arrays: every element is an affine form  c0 + sum_i c_i x_i  over *real*
solver variables x_i, with complex coefficients.

The coefficient array has shape (*shape, K): column 0 is the constant, column i the
coefficient of x_i.  Because the x_i are real, conjugation, real and imaginary parts are
exact on the coefficients.  Operations that are not R-linear (modulus, products of two
symbolic values, data-dependent selection) introduce fresh variables together with exact
defining constraints handed to the solver (see Context).
"""
import numpy as np


class NotEncodable(Exception):
    """The code used an operation the encoding has no exact rule for."""


class Context:
    """Variables of one symbolic execution.

    Inputs are x_1..x_n, each in [lo, hi].  Definitional constraints introduced by
    non-linear operations are stored as (z3 formula builder) thunks over the variables."""

    def __init__(self, nvars, box=1.0):
        self.n_inputs = nvars
        self.nvars = nvars
        self.box = box
        self.defs = []  # list of callables: (z3, vars) -> list of z3 Bool
        self.nonlinear = 0
        self.events = []
        self.path = []  # (predicate, outcome) of branches taken

    def fresh(self, k=1):
        i = self.nvars + 1
        self.nvars += k
        return list(range(i, i + k))

    @property
    def K(self):
        return self.nvars + 1


class SymBool:
    """Array of symbolic predicates: object array of ('le'|'lt'|'eq', coefs) / and / or / not."""

    def __init__(self, ctx, a):
        self.ctx = ctx
        self.a = a  # object ndarray of predicate trees

    @property
    def shape(self):
        return self.a.shape

    @property
    def size(self):
        return self.a.size

    def __bool__(self):
        if self.a.size != 1:
            raise NotEncodable("branch on several symbolic predicates")
        p = self.a.reshape(-1)[0]
        return FORK.decide(self.ctx, p) if isinstance(p, tuple) else bool(p)

    def _fold(self, op, axis=None, keepdims=False, **k):
        if axis is None:
            r = np.empty((1,) * self.a.ndim if keepdims else (), dtype=object)
            ps = [q if isinstance(q, tuple) else bool(q) for q in self.a.reshape(-1)]
            r[...] = None
            r.reshape(-1)[0] = (op,) + tuple(ps)
            return SymBool(self.ctx, r)
        a = np.moveaxis(self.a, axis, -1)
        r = np.empty(a.shape[:-1], dtype=object)
        for i in np.ndindex(*r.shape):
            r[i] = (op,) + tuple(a[i])
        return SymBool(self.ctx, r)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return self._fold("or", axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return self._fold("and", axis, keepdims)

    def _log(self, op, *o):
        from . import nonlin

        return nonlin.logical(op, self, *o)

    __and__ = __rand__ = lambda self, o: self._log("and", o)
    __or__ = __ror__ = lambda self, o: self._log("or", o)
    __xor__ = __rxor__ = lambda self, o: self._log("xor", o)
    __invert__ = lambda self: self._log("not")
    __array_priority__ = 1e6
    __array_ufunc__ = None

    def __getitem__(self, key):
        r = np.empty((), dtype=object)
        v = self.a[key]
        if isinstance(v, np.ndarray):
            return SymBool(self.ctx, v)
        r[()] = v
        return SymBool(self.ctx, r)

    def __array_function__(self, func, types, args, kw):
        if func is np.where:
            return f_where(*args, **kw)
        if func in (np.any, np.all):
            return getattr(args[0], func.__name__)(*args[1:], **kw)
        raise NotEncodable(f"numpy.{func.__name__} on symbolic predicates")


class Fork:
    """Branches of the code under test on symbolic predicates: the task is executed once per
    outcome, the outcome is a constraint of the queries of that execution (see worker.run)."""

    MAX_PATHS = 24

    def __init__(self):
        self.on = False
        self.prefix, self.taken = [], []

    def start(self, prefix):
        self.on, self.prefix, self.taken = True, list(prefix), []

    def decide(self, ctx, pred):
        if not self.on:
            raise NotEncodable("branch on a symbolic predicate")
        if len(self.taken) >= 64:
            raise NotEncodable("too many branches on symbolic predicates")
        i = len(self.taken)
        v = self.prefix[i] if i < len(self.prefix) else True
        self.taken.append(v)
        ctx.path.append((pred, v))
        return v

    def next(self):
        """Prefix of the next execution, None when all outcomes have been executed."""
        t = list(self.taken)
        while t and t[-1] is False:
            t.pop()
        if not t:
            return None
        return t[:-1] + [False]


FORK = Fork()


def pad_cols(c, K):
    if c.shape[-1] == K:
        return c
    out = np.zeros(c.shape[:-1] + (K,), dtype=np.complex128)
    out[..., : c.shape[-1]] = c
    return out


REDUCED = {np.dtype(np.complex64), np.dtype(np.float32), np.dtype(np.float16)}


class Lin(np.lib.mixins.NDArrayOperatorsMixin):
    __array_priority__ = 1e6
    __slots__ = ("c", "ctx", "dtype")

    def __init__(self, c, ctx, dtype=None):
        self.c = c
        self.ctx = ctx
        self.dtype = np.dtype(np.complex128 if dtype is None else dtype)
        if self.dtype in REDUCED:
            raise NotEncodable(f"symbolic array of reduced precision {self.dtype}")

    # ---- array interface -------------------------------------------------------------
    @property
    def shape(self):
        return self.c.shape[:-1]

    @property
    def ndim(self):
        return self.c.ndim - 1

    @property
    def size(self):
        return int(np.prod(self.shape, dtype=int))

    @property
    def real(self):
        return Lin(self.c.real.astype(np.complex128), self.ctx, np.float64)

    @property
    def imag(self):
        return Lin(self.c.imag.astype(np.complex128), self.ctx, np.float64)

    @property
    def T(self):
        return np.transpose(self)

    def conj(self):
        return Lin(np.conj(self.c), self.ctx, self.dtype)

    conjugate = conj

    def copy(self, *a, **k):
        return Lin(self.c.copy(), self.ctx, self.dtype)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dtype, **k):
        dtype = np.dtype(dtype)
        if dtype.kind == "c":
            return Lin(self.c.copy(), self.ctx, dtype)
        if dtype.kind == "f":
            return Lin(self.c.real.astype(np.complex128), self.ctx, dtype)
        raise NotEncodable(f"cast of a symbolic array to {dtype}")

    def is_const(self):
        return self.c.shape[-1] == 1 or not np.any(self.c[..., 1:])

    def const(self):
        v = self.c[..., 0]
        return v.real.copy() if self.dtype.kind == "f" else v.copy()

    def __array__(self, dtype=None, copy=None):
        if not self.is_const():
            raise NotEncodable("symbolic array forced to concrete values")
        return np.asarray(self.const(), dtype=dtype)

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    def __bool__(self):
        if self.is_const():
            return bool(self.const())
        if self.size != 1:
            raise NotEncodable("branch on several symbolic values")
        return bool(np.not_equal(self.reshape(()), 0))

    def _scalar(self, f):
        if self.is_const():
            return f(self.const())
        raise NotEncodable("symbolic value forced to a Python number")

    def __float__(self):
        return self._scalar(float)

    def __complex__(self):
        return self._scalar(complex)

    def __int__(self):
        return self._scalar(int)

    def _k(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            key = key + (slice(None),)
        return key

    def __getitem__(self, key):
        return Lin(self.c[self._k(key)], self.ctx, self.dtype)

    def _own(self):
        if self.c.base is not None and not self.c.flags.owndata:
            raise NotEncodable("assignment through a view after new variables were introduced")

    def __setitem__(self, key, val):
        if isinstance(key, SymBool):
            from . import nonlin

            self._own()
            self.c = nonlin.select(key, val, self).c
            return
        if isinstance(val, Lin):
            v = val.c
            if v.shape[-1] > self.c.shape[-1]:
                self._own()
                self.c = pad_cols(self.c, v.shape[-1])
            v = pad_cols(v, self.c.shape[-1])
        else:
            a = np.asarray(val)
            v = np.zeros(a.shape + (self.c.shape[-1],), dtype=np.complex128)
            v[..., 0] = a
        if self.dtype.kind == "f":
            v = v.real
        t = self.c[self._k(key)]
        # broadcast on the value axes only (the column axis is last in both)
        v = np.broadcast_to(v, t.shape) if v.ndim <= t.ndim else v.reshape(t.shape)
        self.c[self._k(key)] = v

    def reshape(self, *shape, order="C"):
        return np.reshape(self, shape[0] if len(shape) == 1 else shape)

    def transpose(self, *axes):
        if len(axes) == 1:
            axes = axes[0]
        return np.transpose(self, axes or None)

    def sum(self, axis=None, **k):
        return np.sum(self, axis=axis)

    def flatten(self):
        return self.reshape(-1).copy()

    ravel = flatten

    def squeeze(self, axis=None):
        return np.squeeze(self, axis)

    def dot(self, o):
        return np.dot(self, o)

    # ---- protocols -------------------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        out = kw.pop("out", None)
        if method == "reduce" and ufunc is np.add:
            r = f_sum(inputs[0], kw.get("axis", 0), kw.get("keepdims", False))
        elif method == "outer" and ufunc is np.multiply:
            a, b = inputs
            r = np.multiply(
                np.reshape(a, np.shape(a) + (1,) * np.ndim(b)), b
            )
        elif method == "__call__":
            fn = UFUNCS.get(ufunc)
            if fn is None:
                consts = [
                    (x.const() if isinstance(x, Lin) and x.is_const() else x)
                    for x in inputs
                ]
                if not any(isinstance(x, Lin) for x in consts):
                    r = ufunc(*consts, **kw)
                else:
                    raise NotEncodable(f"numpy.{ufunc.__name__} on symbolic values")
            else:
                r = fn(*inputs)
        else:
            raise NotEncodable(f"numpy.{ufunc.__name__}.{method} on symbolic values")
        if out is not None:
            o = out[0]
            if isinstance(o, Lin):
                o[...] = r
                return o
            raise NotEncodable("symbolic result written into a concrete array")
        return r

    def __array_function__(self, func, types, args, kw):
        fn = FUNCS.get(func)
        if fn is not None:
            return fn(*args, **kw)
        if func.__name__ in STRUCTURAL:
            return structural(func, args, kw)
        raise NotEncodable(f"numpy.{func.__name__} on symbolic values")


# ---------------------------------------------------------------------------- helpers


def ctx_of(*xs):
    for x in xs:
        if isinstance(x, Lin):
            return x.ctx
        if isinstance(x, (list, tuple)):
            c = ctx_of(*x)
            if c is not None:
                return c
    return None


def as_coef(x, K):
    if isinstance(x, Lin):
        return pad_cols(x.c, K)
    a = np.asarray(x)
    if a.dtype == object:
        raise NotEncodable("object array mixed with symbolic values")
    c = np.zeros(a.shape + (K,), dtype=np.complex128)
    c[..., 0] = a
    return c


def kind(x):
    if isinstance(x, Lin):
        return x.dtype
    return np.asarray(x).dtype


def res_dtype(*xs):
    return np.complex128 if any(kind(x).kind == "c" for x in xs) else np.float64


def _pair(a, b):
    ctx = ctx_of(a, b)
    K = max(x.c.shape[-1] for x in (a, b) if isinstance(x, Lin))
    A, B = as_coef(a, K), as_coef(b, K)
    nd = max(A.ndim, B.ndim)
    A = A.reshape((1,) * (nd - A.ndim) + A.shape)
    B = B.reshape((1,) * (nd - B.ndim) + B.shape)
    return ctx, A, B


def f_add(a, b):
    ctx, A, B = _pair(a, b)
    return Lin(A + B, ctx, res_dtype(a, b))


def f_sub(a, b):
    ctx, A, B = _pair(a, b)
    return Lin(A - B, ctx, res_dtype(a, b))


def f_neg(a):
    return Lin(-a.c, a.ctx, a.dtype)


def f_mul(a, b):
    if isinstance(a, Lin) and isinstance(b, Lin):
        if a.is_const():
            a = a.const()
        elif b.is_const():
            b = b.const()
        else:
            from . import nonlin

            return nonlin.mul(a, b)
    if isinstance(b, Lin):
        a, b = b, a
    b_ = np.asarray(b)
    A = a.c
    nd = max(A.ndim - 1, b_.ndim)
    A = A.reshape((1,) * (nd - (A.ndim - 1)) + A.shape)
    return Lin(A * b_[..., None], a.ctx, res_dtype(a, b))


def f_div(a, b):
    if isinstance(b, Lin):
        if b.is_const():
            b = b.const()
        else:
            raise NotEncodable("division by a symbolic value")
    return f_mul(a, 1.0 / np.asarray(b)) if isinstance(a, Lin) else np.divide(a, b)


def f_conj(a):
    return a.conj()


def f_abs(a):
    if a.is_const():
        return np.abs(a.const())
    from . import nonlin

    return nonlin.absolute(a)


def f_pow(a, b):
    if isinstance(a, Lin) and not isinstance(b, Lin) and np.ndim(b) == 0:
        if b == 1:
            return a
        if b == 2:
            return f_mul(a, a)
    if isinstance(a, Lin) and a.is_const() and not isinstance(b, Lin):
        return np.power(a.const(), b)
    raise NotEncodable("power of a symbolic value")


def f_sqrt(a):
    if a.is_const():
        return np.sqrt(a.const())
    from . import nonlin

    return nonlin.sqrt(a)


def f_matmul(a, b):
    if np.ndim(a) == 1 and np.ndim(b) == 1:
        return np.einsum("i,i->", a, b)
    if np.ndim(b) == 1:
        return np.einsum("...ij,j->...i", a, b)
    if np.ndim(a) == 1:
        return np.einsum("i,...ij->...j", a, b)
    return np.einsum("...ij,...jk->...ik", a, b)


def _cmp(op):
    def f(a, b):
        a2 = a.const() if isinstance(a, Lin) and a.is_const() else a
        b2 = b.const() if isinstance(b, Lin) and b.is_const() else b
        if not isinstance(a2, Lin) and not isinstance(b2, Lin):
            return getattr(np, op)(a2, b2)
        from . import nonlin

        return nonlin.compare(op, a, b)

    return f


UFUNCS = {
    np.add: f_add,
    np.subtract: f_sub,
    np.negative: f_neg,
    np.positive: lambda a: a.copy(),
    np.multiply: f_mul,
    np.divide: f_div,
    np.true_divide: f_div,
    np.conjugate: f_conj,
    np.absolute: f_abs,
    np.power: f_pow,
    np.square: lambda a: f_mul(a, a),
    np.sqrt: f_sqrt,
    np.matmul: f_matmul,
    np.isfinite: lambda a: np.ones(a.shape, bool),
    np.isnan: lambda a: np.zeros(a.shape, bool),
    np.isinf: lambda a: np.zeros(a.shape, bool),
    np.less: _cmp("less"),
    np.less_equal: _cmp("less_equal"),
    np.greater: _cmp("greater"),
    np.greater_equal: _cmp("greater_equal"),
    np.equal: _cmp("equal"),
    np.not_equal: _cmp("not_equal"),
}


def f_sum(a, axis=None, keepdims=False, **k):
    nd = a.ndim
    if axis is None:
        axis = tuple(range(nd))
    if np.isscalar(axis):
        axis = (int(axis),)
    axis = tuple(ax % nd for ax in axis)
    return Lin(a.c.sum(axis=axis, keepdims=keepdims), a.ctx, a.dtype)


def f_einsum(subs, *ops, optimize=None, out=None, dtype=None, **k):
    if not isinstance(subs, str):
        raise NotEncodable("einsum in list format")
    ops = [o.const() if isinstance(o, Lin) and o.is_const() else o for o in ops]
    sym = [i for i, o in enumerate(ops) if isinstance(o, Lin)]
    if not sym:
        return np.einsum(subs, *ops)
    if len(sym) > 1:
        raise NotEncodable("einsum of two symbolic operands")
    s = subs.replace(" ", "")
    lhs, arrow, rhs = s.partition("->")
    terms = lhs.split(",")
    if not arrow:
        cnt = {}
        for ch in lhs.replace(",", "").replace("...", ""):
            cnt[ch] = cnt.get(ch, 0) + 1
        rhs = ("..." if "..." in lhs else "") + "".join(
            sorted(c for c in cnt if cnt[c] == 1)
        )
    z = next(ch for ch in "ZYXWVUT" if ch not in s)
    i = sym[0]
    terms[i] += z
    arrs = [o.c if j == i else np.asarray(o) for j, o in enumerate(ops)]
    if "..." in terms[i] and not terms[i].startswith("..."):
        pass
    r = np.einsum(",".join(terms) + "->" + rhs + z, *arrs, optimize=len(ops) > 2)
    return Lin(np.ascontiguousarray(r), ops[i].ctx, res_dtype(*ops))


def _col_axis(axis, nd):
    return axis % nd


def _fft(fn, realin=False, realout=False):
    def f(a, n=None, axis=-1, norm=None):
        axis = axis % a.ndim
        c = a.c.real if realin else a.c
        r = fn(c, n, axis=axis, norm=norm)
        return Lin(
            r.astype(np.complex128), a.ctx, np.float64 if realout else np.complex128
        )

    return f


def f_real(a):
    return a.real


def f_imag(a):
    return a.imag


def f_copyto(dst, src, **k):
    if k:
        raise NotEncodable("copyto with options")
    dst[...] = src


def f_zeros_like(a, dtype=None, **k):
    sh = k.get("shape") or a.shape
    return Lin(np.zeros(tuple(sh) + (a.ctx.K,), np.complex128), a.ctx, dtype or a.dtype)


def f_tensordot(a, b, axes=2):
    na, nb = np.ndim(a), np.ndim(b)
    if isinstance(axes, (int, np.integer)):
        xa, xb = list(range(na - axes, na)), list(range(axes))
    else:
        xa, xb = axes
        xa = [xa] if np.isscalar(xa) else list(xa)
        xb = [xb] if np.isscalar(xb) else list(xb)
    la = [chr(97 + i) for i in range(na)]
    lb = [chr(65 + i) for i in range(nb)]
    for p, q in zip(xa, xb):
        lb[q % nb] = la[p % na]
    out = [c for i, c in enumerate(la) if i not in [p % na for p in xa]]
    out += [c for i, c in enumerate(lb) if i not in [q % nb for q in xb]]
    return f_einsum("".join(la) + "," + "".join(lb) + "->" + "".join(out), a, b)


def f_dot(a, b):
    if np.ndim(a) == 0 or np.ndim(b) == 0:
        return np.multiply(a, b)
    if np.ndim(b) == 1:
        return f_tensordot(a, b, ([-1], [0]))
    return f_tensordot(a, b, ([-1], [-2]))


def f_where(cond, a=None, b=None):
    if isinstance(cond, SymBool):
        from . import nonlin

        return nonlin.select(cond, a, b)
    if isinstance(cond, Lin):
        cond = np.asarray(cond)
    return structural(np.where, (cond, a, b), {})


def f_array_equal(a, b, **k):
    if np.shape(a) != np.shape(b):
        return False
    return np.equal(a, b).all()


def f_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if isinstance(b, Lin):
        if not b.is_const():
            raise NotEncodable("comparison of symbolic arrays")
        b = b.const()
    return np.less_equal(np.absolute(np.subtract(a, b)), atol + rtol * np.abs(b))


def f_any(a, *r, **k):
    return np.not_equal(a, 0).any(*r, **k)


def f_all(a, *r, **k):
    return np.not_equal(a, 0).all(*r, **k)


def f_mean(a, axis=None, **k):
    n = a.size if axis is None else np.prod([a.shape[x] for x in np.atleast_1d(axis)])
    return f_mul(f_sum(a, axis), 1.0 / n)


FUNCS = {
    np.sum: f_sum,
    np.mean: f_mean,
    np.einsum: f_einsum,
    np.real: f_real,
    np.imag: f_imag,
    np.fft.fft: _fft(np.fft.fft),
    np.fft.ifft: _fft(np.fft.ifft),
    np.fft.rfft: _fft(np.fft.rfft, realin=True),
    np.fft.irfft: _fft(np.fft.irfft, realout=True),
    np.copyto: f_copyto,
    np.zeros_like: f_zeros_like,
    np.empty_like: f_zeros_like,
    np.tensordot: f_tensordot,
    np.dot: f_dot,
    np.where: f_where,
    np.array_equal: f_array_equal,
    np.allclose: lambda a, b, **k: f_isclose(a, b, **k).all(),
    np.isclose: f_isclose,
    np.any: f_any,
    np.all: f_all,
    np.shape: lambda a: a.shape,
    np.ndim: lambda a: a.ndim,
    np.size: lambda a: a.size,
    np.copy: lambda a, **k: a.copy(),
    np.iscomplexobj: lambda a: a.dtype.kind == "c",
    np.isrealobj: lambda a: a.dtype.kind != "c",
    np.real_if_close: lambda a, **k: a,
    np.nan_to_num: lambda a, **k: a,
    np.multiply.outer if False else None: None,
}
FUNCS.pop(None, None)

# functions that only move elements (zeros may appear): evaluated on element indices
STRUCTURAL = {
    "reshape", "transpose", "swapaxes", "moveaxis", "rollaxis", "roll", "flip", "fliplr",
    "flipud", "concatenate", "stack", "vstack", "hstack", "dstack", "column_stack",
    "squeeze", "expand_dims", "broadcast_to", "ravel", "repeat", "tile", "take",
    "take_along_axis", "split", "array_split", "hsplit", "vsplit", "diagonal", "diag",
    "tril", "triu", "pad", "delete", "append", "insert", "fftshift", "ifftshift", "rot90",
    "atleast_1d", "atleast_2d", "atleast_3d", "compress", "extract", "block",
    "broadcast_arrays", "choose", "where", "trim_zeros", "resize", "select",
}


class _Pool:
    def __init__(self, ctx, K):
        self.ctx, self.K = ctx, K
        self.rows = [np.zeros((1, K), dtype=np.complex128)]
        self.n = 1
        self.kinds = []

    def put(self, x):
        c = as_coef(x, self.K)
        idx = np.arange(self.n, self.n + int(np.prod(c.shape[:-1], dtype=int)))
        self.rows.append(c.reshape(-1, self.K))
        self.n += len(idx)
        self.kinds.append(kind(x))
        return idx.reshape(c.shape[:-1])

    def get(self, idx):
        if isinstance(idx, (list, tuple)):
            return type(idx)(self.get(i) for i in idx)
        rows = np.concatenate(self.rows, axis=0)
        dt = np.complex128 if any(k.kind == "c" for k in self.kinds) else np.float64
        return Lin(rows[np.asarray(idx)], self.ctx, dt)


_VALUE_ARGS = {  # functions where concrete array arguments are values, not indices/masks
    "concatenate": (0,), "stack": (0,), "vstack": (0,), "hstack": (0,), "dstack": (0,),
    "column_stack": (0,), "block": (0,), "where": (1, 2), "append": (0, 1),
    "broadcast_arrays": None, "insert": (0, 2), "select": (1, 2),
}


def structural(func, args, kw):
    ctx = ctx_of(*args, *kw.values())
    K = ctx.K

    pool = _Pool(ctx, K)
    kw = {k: v for k, v in kw.items() if k not in ("out", "dtype", "casting")}
    val = _VALUE_ARGS.get(func.__name__, ())

    def conv(x, value):
        if isinstance(x, Lin):
            return pool.put(x)
        if isinstance(x, (list, tuple)) and ctx_of(*x) is not None:
            return type(x)(conv(y, value) for y in x)
        if value and not isinstance(x, (list, tuple)):
            return pool.put(x)
        if value:
            return type(x)(conv(y, True) for y in x)
        return x

    if func.__name__ == "pad":
        if kw.get("constant_values", 0) not in (0, 0.0, None):
            raise NotEncodable("pad with a non-zero value")
    args = [conv(a, val is None or i in val) for i, a in enumerate(args)]
    return pool.get(func(*args, **kw))


# ------------------------------------------------------------------ numpy namespace shim


class NumpyShim:
    """Stands in for the name `np` inside s2wav modules whose numpy code is executed
    symbolically: allocations return symbolic arrays so that symbolic values can be
    stored in them; everything else is numpy (dispatching on Lin arguments)."""

    def __init__(self, ctx_getter):
        object.__setattr__(self, "_ctx", ctx_getter)

    def __getattr__(self, name):
        return getattr(np, name)

    def _alloc(self, shape, value, dtype):
        ctx = self._ctx()
        dtype = np.dtype(float if dtype is None else dtype)
        if ctx is None or dtype.kind not in "fc":
            return np.full(shape, value, dtype)
        shape = (shape,) if np.isscalar(shape) else tuple(shape)
        c = np.zeros(shape + (ctx.K,), dtype=np.complex128)
        c[..., 0] = value
        return Lin(c, ctx, dtype)

    def zeros(self, shape, dtype=None, *a, **k):
        return self._alloc(shape, 0, dtype)

    def empty(self, shape, dtype=None, *a, **k):
        return self._alloc(shape, 0, dtype)

    def ones(self, shape, dtype=None, *a, **k):
        return self._alloc(shape, 1, dtype)

    def full(self, shape, value, dtype=None, *a, **k):
        if isinstance(value, Lin):
            z = self._alloc(shape, 0, value.dtype)
            z[...] = value
            return z
        return self._alloc(shape, value, dtype or np.asarray(value).dtype)

    def zeros_like(self, a, dtype=None, **k):
        return self._alloc(np.shape(a), 0, dtype or kind(a))

    def empty_like(self, a, dtype=None, **k):
        return self._alloc(np.shape(a), 0, dtype or kind(a))

    def array(self, x, dtype=None, **k):
        if isinstance(x, Lin):
            return x.copy() if dtype is None else x.astype(dtype)
        if isinstance(x, (list, tuple)) and ctx_of(*x) is not None:
            r = np.stack([self.array(y) if not isinstance(y, Lin) else y for y in x])
            return r if dtype is None else r.astype(dtype)
        return np.array(x, dtype=dtype, **k)

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, Lin) and dtype is None:
            return x
        return self.array(x, dtype)

    ascontiguousarray = asarray

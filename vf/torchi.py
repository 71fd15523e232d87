"""Symbolic interpreter for aten graphs (torch.fx, functionalised) over linear forms."""
import numpy as np

from . import nonlin
from .lin import Lin, NotEncodable, SymBool, as_coef, ctx_of, res_dtype

OPS_SEEN = {}


def trace(fn, *args):
    """Trace fn on meta/fake tensors of the given shapes: no signal value is looked at.
    Mutations of the arguments, if any, appear as copy_ nodes."""
    import torch
    from torch.func import functionalize
    from torch.fx.experimental.proxy_tensor import make_fx

    return make_fx(functionalize(fn), tracing_mode="fake", _allow_non_fake_inputs=True)(*args)


def run(gm, args):
    import torch

    env = {}
    it = iter(args)
    mutated = []

    def val(x):
        import torch.fx as fx

        if isinstance(x, fx.Node):
            return env[x]
        if isinstance(x, (list, tuple)):
            return type(x)(val(y) for y in x)
        if isinstance(x, slice):
            return slice(val(x.start), val(x.stop), val(x.step))
        return x

    for node in gm.graph.nodes:
        if node.op == "placeholder":
            v = next(it)
            env[node] = v
        elif node.op == "get_attr":
            t = gm
            for part in node.target.split("."):
                t = getattr(t, part)
            env[node] = to_np(t)
        elif node.op == "output":
            flat = []

            def walk(x):
                if isinstance(x, (list, tuple)):
                    for y in x:
                        walk(y)
                else:
                    flat.append(val(x))

            walk(node.args[0])
            return flat, mutated
        elif node.op == "call_function":
            name = node.target.__name__ if not hasattr(node.target, "_schema") else str(node.target)
            name = name.replace("aten.", "")
            OPS_SEEN[name] = OPS_SEEN.get(name, 0) + 1
            a = val(node.args)
            kw = {k: val(v) for k, v in node.kwargs.items()}
            if name.startswith("copy_."):
                mutated.append(node.args[0].name)
            env[node] = call(node, name, a, kw)
        else:
            raise NotEncodable(f"fx op {node.op}")


def to_np(t):
    return t.detach().resolve_conj().resolve_neg().cpu().numpy()


def has_sym(x):
    if isinstance(x, (Lin, SymBool)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


def call(node, name, a, kw):
    import operator

    if name == "getitem":
        return operator.getitem(*a)
    if not has_sym(a) and not has_sym(list(kw.values())):
        return _concrete(node, a, kw)
    base = name.split(".")[0]
    f = RULES.get(name) or RULES.get(base)
    if f is None:
        raise NotEncodable(f"torch op {name} on symbolic values")
    return f(*a, **kw)


def _concrete(node, a, kw):
    import torch

    def tt(x):
        if isinstance(x, np.ndarray):
            return torch.from_numpy(np.array(x))
        if isinstance(x, np.generic):
            return torch.tensor(x)
        if isinstance(x, (list, tuple)):
            return type(x)(tt(y) for y in x)
        return x

    kw = {k: v for k, v in kw.items() if k not in ("pin_memory", "device")}
    with torch.no_grad():
        r = node.target(*tt(a), **{k: tt(v) for k, v in kw.items()})
    if isinstance(r, torch.Tensor):
        return to_np(r)
    if isinstance(r, (list, tuple)):
        return type(r)(to_np(x) if isinstance(x, torch.Tensor) else x for x in r)
    return r


RULES = {}


def rule(*names):
    def d(f):
        for n in names:
            RULES[n] = f
        return f

    return d


def _dt(dtype):
    import torch

    if dtype in (torch.complex128,):
        return np.complex128
    if dtype in (torch.float64,):
        return np.float64
    raise NotEncodable(f"symbolic value converted to {dtype}")


def mv(x, f):
    if isinstance(x, Lin):
        return Lin(f(x.c, 1), x.ctx, x.dtype)
    return f(np.asarray(x), 0)


@rule("_conj", "_conj_physical", "conj_physical", "resolve_conj")
def _conj(x):
    return np.conj(x)


@rule("clone", "alias", "detach", "lift_fresh_copy", "contiguous", "lift_fresh", "resolve_neg")
def _id(x, **k):
    return x.copy()


@rule("_to_copy", "to")
def _to(x, *a, dtype=None, **k):
    return x if dtype is None else x.astype(_dt(dtype))


@rule("permute")
def _permute(x, dims):
    dims = [d % x.ndim for d in dims]
    return mv(x, lambda c, k: np.transpose(c, tuple(dims) + ((len(dims),) if k else ())))


@rule("t")
def _t(x):
    return _permute(x, list(range(x.ndim))[::-1])


@rule("transpose")
def _tr(x, i, j):
    d = list(range(x.ndim))
    d[i], d[j] = d[j], d[i]
    return _permute(x, d)


@rule("unsqueeze")
def _unsq(x, dim):
    d = dim % (x.ndim + 1)
    return mv(x, lambda c, k: np.expand_dims(c, d))


@rule("squeeze")
def _sq(x, dim=None):
    if dim is None:
        dims = [i for i, s in enumerate(x.shape) if s == 1]
    else:
        dims = [d % x.ndim for d in ([dim] if isinstance(dim, int) else dim)]
        dims = [d for d in dims if x.shape[d] == 1]
    sh = tuple(s for i, s in enumerate(x.shape) if i not in dims)
    return mv(x, lambda c, k: c.reshape(sh + (c.shape[-1:] if k else ())))


@rule("view", "_unsafe_view", "reshape", "_reshape_alias")
def _view(x, shape, *a):
    sh = list(shape)
    if -1 in sh:
        n = int(np.prod([s for s in sh if s != -1], dtype=int))
        sh[sh.index(-1)] = x.size // n
    return mv(x, lambda c, k: c.reshape(tuple(sh) + (c.shape[-1:] if k else ())))


@rule("expand", "broadcast_to")
def _expand(x, shape, **k):
    nd = len(shape)
    old = (1,) * (nd - x.ndim) + tuple(x.shape)
    sh = tuple(o if s == -1 else s for o, s in zip(old, shape))
    return mv(x, lambda c, kk: np.broadcast_to(c.reshape(old + (c.shape[-1:] if kk else ())), sh + (c.shape[-1:] if kk else ())))


def _sl(n, start, end, step):
    start = 0 if start is None else start
    end = n if end is None else min(end, n)
    return slice(start, end, step)


@rule("slice")
def _slice(x, dim=0, start=None, end=None, step=1):
    d = dim % x.ndim
    return x[(slice(None),) * d + (_sl(x.shape[d], start, end, step),)]


@rule("select")
def _select(x, dim, index):
    d = dim % x.ndim
    return x[(slice(None),) * d + (index,)]


def _upd(x, key, src):
    ctx = ctx_of(x, src)
    c = as_coef(x, ctx.K).copy()
    s = as_coef(src, ctx.K)
    c[key] = np.broadcast_to(s, c[key].shape)
    if not isinstance(x, Lin) and np.asarray(x).dtype.kind == "f" and isinstance(src, Lin) and src.dtype.kind == "c":
        raise NotEncodable("complex value stored in a real tensor")
    return Lin(c, ctx, res_dtype(x, src))


@rule("slice_scatter")
def _ss(x, src, dim=0, start=None, end=None, step=1):
    d = dim % np.ndim(x)
    return _upd(x, (slice(None),) * d + (_sl(np.shape(x)[d], start, end, step),), src)


@rule("select_scatter")
def _sels(x, src, dim, index):
    d = dim % np.ndim(x)
    return _upd(x, (slice(None),) * d + (index,), src)


@rule("copy", "copy_")
def _copy(x, src, non_blocking=False):
    dt = np.asarray(x).dtype if not isinstance(x, Lin) else x.dtype
    sh = np.shape(x)
    if isinstance(src, Lin):
        c = np.broadcast_to(src.c.reshape((1,) * (len(sh) - src.ndim) + src.c.shape), tuple(sh) + src.c.shape[-1:])
        if dt.kind == "f" and src.dtype.kind == "c":
            c = c.real.astype(np.complex128)
        return Lin(np.array(c), src.ctx, np.complex128 if dt.kind == "c" else np.float64)
    return np.broadcast_to(np.asarray(src), sh).astype(dt)


@rule("add")
def _add(a, b, alpha=1):
    return np.add(a, b if alpha == 1 else np.multiply(b, alpha))


@rule("sub")
def _sub(a, b, alpha=1):
    return np.subtract(a, b if alpha == 1 else np.multiply(b, alpha))


@rule("rsub")
def _rsub(a, b, alpha=1):
    return np.subtract(b, a if alpha == 1 else np.multiply(a, alpha))


rule("mul")(lambda a, b: np.multiply(a, b))
rule("neg")(lambda a: np.negative(a))
rule("real")(lambda a: a.real)
rule("imag")(lambda a: a.imag)
rule("abs")(lambda a: np.abs(a))
rule("isnan", "isinf")(lambda a: np.zeros(a.shape, bool))
rule("isfinite")(lambda a: np.ones(a.shape, bool))


@rule("div")
def _div(a, b, rounding_mode=None):
    if has_sym(b) or rounding_mode is not None:
        raise NotEncodable("division by a symbolic value")
    return np.multiply(a, 1.0 / np.asarray(b))


@rule("complex")
def _complex(a, b):
    return np.add(a, np.multiply(b, 1j))


@rule("view_as_real")
def _var(x):
    c = np.stack([x.c.real, x.c.imag], axis=-2).astype(np.complex128)
    return Lin(c, x.ctx, np.float64)


@rule("view_as_complex")
def _vac(x):
    return Lin(x.c[..., 0, :] + 1j * x.c[..., 1, :], x.ctx, np.complex128)


@rule("sum")
def _sum(x, dim=None, keepdim=False, dtype=None):
    if dim == []:
        dim = None
    if isinstance(dim, list):
        dim = tuple(dim)
    return np.sum(x, axis=dim, keepdims=keepdim)


@rule("bmm")
def _bmm(a, b):
    return np.einsum("bij,bjk->bik", a, b)


@rule("mm")
def _mm(a, b):
    return np.einsum("ij,jk->ik", a, b)


@rule("mv")
def _mvv(a, b):
    return np.einsum("ij,j->i", a, b)


@rule("dot")
def _dot(a, b):
    return np.einsum("i,i->", a, b)


@rule("flip")
def _flip(x, dims):
    d = tuple(q % x.ndim for q in dims)
    return mv(x, lambda c, k: np.flip(c, axis=d))


@rule("roll")
def _roll(x, shifts, dims=()):
    d = tuple(q % x.ndim for q in dims)
    return mv(x, lambda c, k: np.roll(c, tuple(shifts), axis=d))


@rule("cat")
def _cat(xs, dim=0):
    ctx = ctx_of(*xs)
    d = dim % np.ndim(xs[0])
    return Lin(np.concatenate([as_coef(x, ctx.K) for x in xs], axis=d), ctx, res_dtype(*xs))


@rule("stack")
def _stack(xs, dim=0):
    ctx = ctx_of(*xs)
    d = dim % (np.ndim(xs[0]) + 1)
    return Lin(np.stack([as_coef(x, ctx.K) for x in xs], axis=d), ctx, res_dtype(*xs))


@rule("split", "split_with_sizes")
def _split(x, sizes, dim=0):
    d = dim % x.ndim
    n = x.shape[d]
    if isinstance(sizes, int):
        sizes = [min(sizes, n - i) for i in range(0, n, sizes)]
    out, o = [], 0
    for s in sizes:
        out.append(x[(slice(None),) * d + (slice(o, o + s),)])
        o += s
    return out


@rule("constant_pad_nd")
def _pad(x, pad, value=0):
    if value != 0:
        raise NotEncodable("pad with a non-zero value")
    w = [(0, 0)] * x.ndim
    for i in range(len(pad) // 2):
        w[x.ndim - 1 - i] = (pad[2 * i], pad[2 * i + 1])
    if any(p < 0 for q in w for p in q):
        raise NotEncodable("negative pad")
    return mv(x, lambda c, k: np.pad(c, w + ([(0, 0)] if k else [])))


@rule("index")
def _index(x, indices):
    if has_sym(indices):
        raise NotEncodable("index depends on the signal")
    key = tuple(slice(None) if i is None else np.asarray(i) for i in indices)
    return mv(x, lambda c, k: c[key])


@rule("index_select")
def _isel(x, dim, idx):
    return mv(x, lambda c, k: np.take(c, np.asarray(idx), axis=dim % x.ndim))


@rule("index_put", "_unsafe_index_put")
def _iput(x, indices, v, accumulate=False):
    if has_sym(indices):
        raise NotEncodable("index depends on the signal")
    key = tuple(slice(None) if i is None else np.asarray(i) for i in indices)
    ctx = ctx_of(x, v)
    c = as_coef(x, ctx.K).copy()
    s = as_coef(v, ctx.K)
    if accumulate:
        np.add.at(c, key, s)
    else:
        c[key] = s
    return Lin(c, ctx, res_dtype(x, v))


@rule("where")
def _where(c, a, b):
    return np.where(c, a, b) if not isinstance(c, SymBool) else nonlin.select(c, a, b)


for _n, _o in (("lt", "less"), ("le", "less_equal"), ("gt", "greater"), ("ge", "greater_equal"),
               ("eq", "equal"), ("ne", "not_equal")):
    rule(_n)(lambda a, b, _o=_o: nonlin.compare(_o, a, b))
rule("maximum")(lambda a, b: nonlin.maximum(a, b))
rule("minimum")(lambda a, b: nonlin.minimum(a, b))
rule("logical_and", "bitwise_and")(lambda a, b: nonlin.logical("and", a, b))
rule("logical_or", "bitwise_or")(lambda a, b: nonlin.logical("or", a, b))
rule("logical_not", "bitwise_not")(lambda a: nonlin.logical("not", a))


@rule("clamp")
def _clamp(x, lo=None, hi=None):
    if lo is not None:
        x = nonlin.maximum(x, np.full(x.shape, lo))
    if hi is not None:
        x = nonlin.minimum(x, np.full(x.shape, hi))
    return x


@rule("pow")
def _pow(x, y):
    return np.power(x, y)


_NORM = {0: lambda n: 1.0, 1: lambda n: 1 / np.sqrt(n), 2: lambda n: 1.0 / n}


@rule("_fft_c2c")
def _c2c(x, dim, normalization, forward):
    d = tuple(q % x.ndim for q in dim)
    n = int(np.prod([x.shape[q] for q in d]))

    def f(c, k):
        r = np.fft.fftn(c, axes=d) if forward else np.fft.ifftn(c, axes=d) * n
        return r * _NORM[normalization](n)

    return Lin(f(x.c, 1), x.ctx, np.complex128)


@rule("_fft_r2c")
def _r2c(x, dim, normalization, onesided):
    d = tuple(q % x.ndim for q in dim)
    n = int(np.prod([x.shape[q] for q in d]))
    r = np.fft.rfftn(x.c.real, axes=d) if onesided else np.fft.fftn(x.c.real, axes=d)
    return Lin(r * _NORM[normalization](n), x.ctx, np.complex128)


@rule("_fft_c2r")
def _c2r(x, dim, normalization, last):
    d = tuple(q % x.ndim for q in dim)
    sizes = [x.shape[q] for q in d]
    sizes[-1] = last
    n = int(np.prod(sizes))
    r = np.fft.irfftn(x.c, s=sizes, axes=d) * n
    return Lin((r * _NORM[normalization](n)).astype(np.complex128), x.ctx, np.float64)


# --------------------------------------------------------------------- affine programs

_LINEAR = set(
    "slice permute copy_ clone as_strided slice_backward view view_as_real view_as_complex roll new_empty_strided "
    "_fft_c2c _fft_r2c _fft_c2r unsqueeze _conj select _unsafe_view _reshape_alias reshape add add_ sub sub_ rsub squeeze zeros_like "
    "empty_like ones_like transpose select_backward new_zeros new_empty new_full flip sum expand neg index index_put index_put_ "
    "_index_put_impl_ index_select constant_pad_nd cat stack real imag complex alias detach _to_copy t split split_with_sizes unbind "
    "zero_ conj_physical _neg_view resolve_conj resolve_neg mean diagonal lift_fresh lift_fresh_copy getitem new_ones "
    "as_strided_scatter slice_scatter select_scatter unsqueeze_ squeeze_ transpose_ as_strided_ repeat narrow chunk "
    "index_add index_add_ sym_size unfold expand_as view_as contiguous to".split()
)
_BILINEAR = set("mul mul_ bmm mm mv dot matmul einsum vdot addmm baddbmm".split())
_VIEWS = set(
    "slice permute as_strided view view_as_real view_as_complex unsqueeze _conj select _reshape_alias squeeze transpose "
    "expand real imag alias detach t split split_with_sizes unbind _neg_view diagonal getitem narrow chunk _unsafe_view reshape "
    "unsqueeze_ squeeze_ transpose_ as_strided_ resolve_conj resolve_neg lift_fresh contiguous expand_as view_as".split()
)


def check_affine(gm, symbolic):
    """Static check of a (non-functionalised) aten graph: every operation reached by the
    placeholders flagged in `symbolic` is affine in them.  Aliasing is handled by merging a
    tensor with all its views into one class."""
    import torch.fx as fx

    parent = {}

    def find(n):
        while parent.setdefault(n, n) is not n:
            n = parent[n]
        return n

    def nodes(x):
        if isinstance(x, fx.Node):
            return [x]
        if isinstance(x, (list, tuple)):
            return [z for y in x for z in nodes(y)]
        return []

    def base(n):
        nm = n.target.__name__ if not hasattr(n.target, "_schema") else str(n.target)
        return nm.replace("aten.", "").split(".")[0]

    for n in gm.graph.nodes:
        if n.op == "call_function":
            b = base(n)
            if (b in _VIEWS or b.endswith("_")) and n.args:
                for m in nodes(n.args[0])[:1]:
                    parent[find(n)] = find(m)
    taint, ph = set(), [n for n in gm.graph.nodes if n.op == "placeholder"]
    assert len(ph) == len(symbolic)
    for n, s in zip(ph, symbolic):
        if s:
            taint.add(find(n))
    changed = True
    while changed:
        changed = False
        for n in gm.graph.nodes:
            if n.op != "call_function":
                continue
            ins = [m for a in list(n.args) + list(n.kwargs.values()) for m in nodes(a)]
            if any(find(m) in taint for m in ins) and find(n) not in taint:
                if base(n) in ("zeros_like", "empty_like", "ones_like", "new_zeros", "new_empty", "new_full", "new_ones",
                               "new_empty_strided", "sym_size"):
                    continue
                taint.add(find(n))
                changed = True
    for n in gm.graph.nodes:
        if n.op != "call_function":
            continue
        b = base(n)
        args = [nodes(a) for a in list(n.args) + list(n.kwargs.values())]
        hot = [i for i, ms in enumerate(args) if any(find(m) in taint for m in ms)]
        if not hot:
            continue
        if b in _BILINEAR:
            ms = [m for i in hot for m in args[i]]
            if b == "einsum" and len([m for m in ms if find(m) in taint]) > 1 or (b != "einsum" and b not in ("addmm", "baddbmm") and len(hot) > 1):
                raise NotEncodable(f"product of two symbolic tensors ({b})")
            if b in ("addmm", "baddbmm") and 1 in hot and 2 in hot:
                raise NotEncodable("product of two symbolic tensors (addmm)")
        elif b in ("div", "div_"):
            if 1 in hot:
                raise NotEncodable("division by a symbolic tensor")
        elif b not in _LINEAR:
            raise NotEncodable(f"torch op {b} on symbolic values")


def run_affine(gm, args):
    """Execute an affine graph on affine inputs, column by column (exact for affine programs)."""
    import torch

    symf = [isinstance(a, Lin) for a in args]
    check_affine(gm, symf)
    ctx = next(a.ctx for a in args if isinstance(a, Lin))
    K = ctx.K

    def col(a, k):
        if not isinstance(a, Lin):
            return torch.from_numpy(np.array(a))
        c = np.zeros(a.shape, dtype=a.dtype)
        src = a.c[..., 0] + (a.c[..., k] if k else 0)
        return torch.from_numpy(np.ascontiguousarray((src.real if a.dtype.kind == "f" else src)).astype(c.dtype))

    outs = None
    with torch.no_grad():
        for k in range(K):
            r = gm(*[col(a, k) for a in args]) if not hasattr(gm, "_vf_spec") else gm(*gm._vf_spec([col(a, k) for a in args]))
            flat = []

            def walk(x):
                if isinstance(x, (list, tuple)):
                    for y in x:
                        walk(y)
                else:
                    flat.append(to_np(x))

            walk(r)
            if outs is None:
                base0 = flat
                outs = [np.zeros(f.shape + (K,), dtype=np.complex128) for f in flat]
                dts = [f.dtype for f in flat]
                for o, f in zip(outs, flat):
                    o[..., 0] = f
            else:
                for o, f, z in zip(outs, flat, base0):
                    o[..., k] = f - z
    return [Lin(o, ctx, np.complex128 if d.kind == "c" else np.float64) for o, d in zip(outs, dts)]

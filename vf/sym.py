"""Path-forking symbolic execution of Python/numpy code over real and integer variables.

Values are exact rational functions (quotients of polynomials with rational coefficients)
over atoms: free variables, square roots, values of the uninterpreted tiling integral and of
exp.  A branch on a symbolic condition asks whether each side is feasible under the path
condition and explores every feasible side by re-execution.  Assertions are decided by z3
at the end of each path.
"""
import time
from fractions import Fraction

import sys

import numpy as np

from . import query
from .env import import_z3
from .lin import REDUCED, NotEncodable

EPS = 1e-9


class Infeasible(Exception):
    """This path turned out to be infeasible."""


class Budget(Exception):
    pass


ENG = None  # current engine


# ------------------------------------------------------------------------------ polynomials
# poly: dict {mono: Fraction}; mono: tuple of (atom id, power>0), sorted

ONE = {(): Fraction(1)}


def p_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def p_add(a, b, s=1):
    out = dict(a)
    for m, c in b.items():
        v = out.get(m, 0) + s * c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


def _mm(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, k in b:
        d[i] = d.get(i, 0) + k
    return tuple(sorted((i, k) for i, k in d.items() if k))


def p_mul(a, b):
    out = {}
    for m, c in a.items():
        for n, e in b.items():
            k = _mm(m, n)
            v = out.get(k, 0) + c * e
            if v:
                out[k] = v
            else:
                out.pop(k, None)
    if len(out) > 4000:
        raise NotEncodable("expression too large")
    return out


def p_key(a):
    return tuple(sorted(a.items()))


class Rat:
    """n/d with polynomials n, d."""

    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or ONE
        self._norm()

    def _norm(self):
        n, d = self.n, self.d
        if not n:
            self.d = ONE
            return
        if d is ONE:
            return
        if len(d) == 1:
            (m, c), = d.items()
            # cancel common monomial factors
            if m:
                md = dict(m)
                for i in list(md):
                    k = min(dict(q).get(i, 0) for q in n)
                    k = min(k, md[i])
                    if k:
                        n = {_mm(q, ((i, -k),)): v for q, v in n.items()}
                        md[i] -= k
                m = tuple(sorted((i, k) for i, k in md.items() if k))
            n = {q: v / c for q, v in n.items()}
            d = ONE if not m else {m: Fraction(1)}
        else:
            lead = max(d)
            c = d[lead]
            if c != 1:
                n = {q: v / c for q, v in n.items()}
                d = {q: v / c for q, v in d.items()}
            if n == d:
                n, d = ONE, ONE
            else:
                # common monomial factor of all terms
                for i in {i for q in d for i, _ in q}:
                    k = min(min(dict(q).get(i, 0) for q in d), min(dict(q).get(i, 0) for q in n))
                    if k:
                        n = {_mm(q, ((i, -k),)): v for q, v in n.items()}
                        d = {_mm(q, ((i, -k),)): v for q, v in d.items()}
        self.n, self.d = n, d

    @property
    def const(self):
        """Fraction if constant, else None."""
        if not self.n:
            return Fraction(0)
        if self.d is ONE or self.d == ONE:
            if len(self.n) == 1 and () in self.n:
                return self.n[()]
        return None

    def __add__(self, o):
        if self.d == o.d:
            return red(Rat(p_add(self.n, o.n), self.d))
        return red(Rat(p_add(p_mul(self.n, o.d), p_mul(o.n, self.d)), p_mul(self.d, o.d)))

    def __sub__(self, o):
        return self + Rat({m: -c for m, c in o.n.items()}, o.d)

    def __mul__(self, o):
        return red(Rat(p_mul(self.n, o.n), p_mul(self.d, o.d)))

    def inv(self):
        if not self.n:
            raise ZeroDivisionError("division by zero")
        return Rat(self.d, self.n)

    def key(self):
        return p_key(self.n), p_key(self.d)

    def atoms(self):
        return {i for p in (self.n, self.d) for m in p for i, _ in m}


ZERO = Rat({})
UNIT = Rat(dict(ONE))


def red(r):
    """Rewrite even powers of square-root atoms."""
    e = ENG
    if e is None or not e.roots:
        return r

    def poly(p):
        out = Rat({})
        hit = False
        for m, c in p.items():
            t = Rat({(): c})
            rest = []
            for i, k in m:
                if k >= 2 and i in e.roots:
                    hit = True
                    for _ in range(k // 2):
                        t = Rat(p_mul(t.n, e.roots[i].n), p_mul(t.d, e.roots[i].d))
                    k = k % 2
                if k:
                    rest.append((i, k))
            t = Rat(p_mul(t.n, {tuple(rest): Fraction(1)}), t.d)
            if out.d == t.d:
                out = Rat(p_add(out.n, t.n), out.d)
            else:
                out = Rat(p_add(p_mul(out.n, t.d), p_mul(t.n, out.d)), p_mul(out.d, t.d))
        return out, hit

    if not any(k >= 2 and i in e.roots for p in (r.n, r.d) for m in p for i, k in m):
        return r
    a, _ = poly(r.n)
    b, _ = poly(r.d)
    return Rat(p_mul(a.n, b.d), p_mul(a.d, b.n))


# ----------------------------------------------------------------------------------- values


def rat(x):
    """(re, im) Rats of a concrete or symbolic number, or None."""
    if isinstance(x, Sym):
        return x.re, x.im
    if isinstance(x, (bool, np.bool_)):
        return Rat(p_const(int(x))), ZERO
    if isinstance(x, (int, np.integer)):
        return Rat(p_const(int(x))), ZERO
    if isinstance(x, Fraction):
        return Rat(p_const(x)), ZERO
    if isinstance(x, (float, np.floating)):
        if not np.isfinite(x):
            return None
        return Rat(p_const(Fraction(float(x)))), ZERO
    if isinstance(x, (complex, np.complexfloating)):
        if not np.isfinite(x):
            return None
        return Rat(p_const(Fraction(float(x.real)))), Rat(p_const(Fraction(float(x.imag))))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return rat(x.item())
    if hasattr(x, "aval") and getattr(x, "ndim", 1) == 0:
        return rat(np.asarray(x).item())
    return None


class Sym:
    """A symbolic (complex) number."""

    __array_ufunc__ = None
    __slots__ = ("re", "im", "is_int")

    def __init__(self, re, im=ZERO, is_int=False):
        self.re, self.im, self.is_int = re, im, is_int

    # arithmetic
    def _bin(self, o, f, intres=False):
        if o is POISON:
            return POISON
        if isinstance(o, (list, tuple)) or (hasattr(o, "ndim") and getattr(o, "ndim") > 0):
            return elementwise(lambda y: POISON if y is POISON else f(self, _S(y)), o)
        if isinstance(o, (Log, LogRatio)):
            return NotImplemented
        r = rat(o)
        if r is None:
            raise NotEncodable(f"arithmetic with {o!r}")
        return f(self, Sym(*r, is_int=_is_int(o)))

    def __add__(self, o):
        return self._bin(o, _add)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: _add(_S(b), a))

    def __sub__(self, o):
        return self._bin(o, _sub)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: _sub(_S(b), a))

    def __mul__(self, o):
        return self._bin(o, _mul)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: _mul(_S(b), a))

    def __truediv__(self, o):
        return self._bin(o, _div)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: _div(_S(b), a))

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: _div(a, _S(b)).__floor__())

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: _div(_S(b), a).__floor__())

    def __mod__(self, o):
        return self._bin(o, lambda a, b: ENG.mod(a, _S(b)))

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: ENG.mod(_S(b), a))

    def __neg__(self):
        return _sub(_S(0), self)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.im.n:
            return _S(0) + Sym(self.re * self.re + self.im * self.im).sqrt()
        return self if ENG.decide("ge", self.re) else -self

    def __pow__(self, k):
        if hasattr(k, "ndim") and getattr(k, "ndim") > 0:
            return elementwise(lambda y: self**y, k)
        if isinstance(k, Sym):
            k = k.concretise()
        if isinstance(k, (float, np.floating)) and float(k) == 0.5:
            return self.sqrt()
        if int(k) != k:
            raise NotEncodable("fractional power")
        k = int(k)
        out = _S(1)
        for _ in range(abs(k)):
            out = _mul(out, self)
        return _div(_S(1), out) if k < 0 else out

    def __rpow__(self, o):
        return rat_pow(o, self)

    # comparison
    def _cmp(self, o, op):
        if hasattr(o, "ndim") and getattr(o, "ndim") > 0:
            return elementwise(lambda y: self._cmp(y, op), o, bool)
        if o is POISON:
            return POISON._no() if op not in ("eq", "ne") else op == "ne"
        if o is None or isinstance(o, str):
            return {"eq": False, "ne": True}.get(op, NotImplemented)
        if isinstance(o, float) and np.isinf(o):
            return {"lt": o > 0, "le": o > 0, "gt": o < 0, "ge": o < 0, "eq": False, "ne": True}[op]
        r = rat(o)
        if r is None:
            return {"eq": False, "ne": True}.get(op, NotImplemented)
        re, im = self.re - r[0], self.im - r[1]  # comparisons are exact
        if im.n:
            if op in ("eq", "ne"):
                e = ENG.decide("eq", re) and ENG.decide("eq", im)
                return e if op == "eq" else not e
            raise NotEncodable("ordering of complex values")
        return ENG.decide(op, re)

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __bool__(self):
        return self._cmp(0, "ne")

    def __hash__(self):
        return id(self)

    # conversions
    def concretise(self):
        c = self.re.const
        if c is not None and not self.im.n:
            return int(c) if c.denominator == 1 else float(c)
        return ENG.pin(self)

    def __index__(self):
        v = self.concretise()
        if v != int(v):
            raise TypeError("non-integer index")
        return int(v)

    def __int__(self):
        if self.is_int:
            return self.__index__()
        c = self.re.const
        if c is not None:
            return int(c)
        return ENG.pin(self.__floor__() if self >= 0 else self.__ceil__())

    def __float__(self):
        c = self.re.const
        if c is None or self.im.n:
            if self.is_int:
                return float(ENG.pin(self))
            raise NotEncodable("float() of a symbolic value")
        return float(c)

    def __complex__(self):
        a, b = self.re.const, self.im.const
        if a is None or b is None:
            raise NotEncodable("complex() of a symbolic value")
        return complex(float(a), float(b))

    def __ceil__(self):
        return ENG.ceil(self)

    def __floor__(self):
        return -ENG.ceil(-self)

    def __trunc__(self):
        return int(self)

    def __round__(self, n=None):
        if self.is_int:
            return self
        if n:
            raise NotEncodable("round() of a symbolic value to digits")
        c = self.re.const
        if c is not None:
            return round(c)
        return (self + Fraction(1, 2)).__floor__()  # ties (lam^k half-integer) are taken upwards

    def rint(self):
        return self.__round__()

    ceil = lambda self: ENG.ceil(self)
    floor = lambda self: -ENG.ceil(-self)

    def sqrt(self):
        if self.im.n:
            raise NotEncodable("square root of a complex value")
        return ENG.sqrt(self.re)

    def exp(self):
        return ENG.exp(self)

    def log(self):
        return Log(self)

    log2 = log10 = log

    def conjugate(self):
        return Sym(self.re, Rat({m: -c for m, c in self.im.n.items()}, self.im.d))

    conj = conjugate

    @property
    def real(self):
        return Sym(self.re)

    @property
    def imag(self):
        return Sym(self.im)

    def is_integer(self):
        return self.is_int or bool(ENG.ceil(self) == self)

    def item(self):
        return self

    @property
    def shape(self):
        return ()

    ndim = 0

    def astype(self, *a, **k):
        return self

    def __repr__(self):
        return f"Sym({len(self.re.n)} terms)"

    def abs2(self):
        return Sym(self.re * self.re + self.im * self.im)


def rat_pow(o, k):
    return _S(o) ** k.concretise()


def _is_int(x):
    if isinstance(x, Sym):
        return x.is_int
    return isinstance(x, (int, np.integer, bool))


def _S(x):
    if isinstance(x, Sym):
        return x
    r = rat(x)
    if r is None:
        raise NotEncodable(f"number {x!r}")
    return Sym(*r, is_int=_is_int(x))


S = _S


def _rnd(x):
    return ENG.fpround(x) if ENG is not None and ENG.fp else x


def _add(a, b):
    return _rnd(Sym(a.re + b.re, a.im + b.im if (a.im.n or b.im.n) else ZERO, a.is_int and b.is_int))


def _sub(a, b):
    return _rnd(Sym(a.re - b.re, a.im - b.im if (a.im.n or b.im.n) else ZERO, a.is_int and b.is_int))


def _mul(a, b):
    if not a.im.n and not b.im.n:
        return _rnd(Sym(a.re * b.re, ZERO, a.is_int and b.is_int))
    return Sym(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)


def _div(a, b):
    if b.im.n:
        q = Sym(b.re * b.re + b.im * b.im)
        return _div(_mul(a, b.conjugate()), q)
    if ENG.inarr:
        c = b.re.const
        if c == 0 or (c is None and ENG.decide("eq", b.re)):
            return POISON
    else:
        ENG.nonzero(b.re)
    i = b.re.inv()
    return _rnd(Sym(a.re * i, a.im * i if a.im.n else ZERO))


class Poison:
    """A non-finite floating-point value; harmless only if it is masked out."""

    __array_ufunc__ = None

    def _p(self, *a):
        return self

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _p
    __neg__ = __abs__ = __pow__ = exp = sqrt = conjugate = conj = _p
    real = imag = property(_p)

    def _no(self, *a):
        raise NotEncodable("comparison of a non-finite value")

    __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __float__ = __int__ = _no

    def __eq__(self, o):
        return False

    def __ne__(self, o):
        return True

    __hash__ = None


POISON = Poison()


def elementwise(f, arr, dtype=object):
    a = np.asarray(arr)
    out = np.empty(a.shape, dtype=dtype)
    if ENG is not None:
        ENG.inarr += 1
    try:
        for i in np.ndindex(*a.shape):
            out[i] = f(a[i])
    finally:
        if ENG is not None:
            ENG.inarr -= 1
    return out.view(ObjArr) if dtype is object else out


class Log:
    """log of a positive value; meaningful in quotients and comparisons."""

    __array_ufunc__ = None

    def __init__(self, a):
        self.a = S(a)

    def val(self):
        c = self.a.re.const
        if c is None:
            raise NotEncodable("logarithm of a symbolic value")
        return float(np.log(float(c)))

    def __truediv__(self, o):
        if isinstance(o, Log):
            return LogRatio(self.a, o.a)
        return self.val() / o

    def __rtruediv__(self, o):
        return o / self.val()

    def __add__(self, o):
        return Log(self.a * o.a) if isinstance(o, Log) else self.val() + o

    def __sub__(self, o):
        return Log(self.a / o.a) if isinstance(o, Log) else self.val() - o

    __radd__ = __add__

    def __rsub__(self, o):
        return o - self.val()

    def __mul__(self, o):
        return self.val() * (o.val() if isinstance(o, Log) else o)

    __rmul__ = __mul__

    def __neg__(self):
        return Log(S(1) / self.a)

    def __float__(self):
        return self.val()

    def exp(self):
        return self.a


class LogRatio:
    """log(a)/log(b), b > 1."""

    __array_ufunc__ = None

    def __init__(self, a, b, add=0):
        self.a, self.b, self.k = a, b, add

    def __add__(self, o):
        if isinstance(o, (int, np.integer)):
            return LogRatio(self.a, self.b, self.k + o)
        raise NotEncodable("arithmetic on a quotient of logarithms")

    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o)

    def _exact(self):
        J = 0
        if S(1) >= self.a:
            while self.b ** (J - 1) >= self.a:
                J -= 1
                if J < -64:
                    raise Budget("ceil")
        else:
            while not self.b**J >= self.a:
                J += 1
                if J > 64:
                    raise Budget("ceil")
        return J

    def __ceil__(self):
        """Floating-point logarithms: when the exact quotient is an integer the computed one
        may round to either side, so both outcomes are explored there."""
        J = self._exact()
        if not ENG.rounding:
            return J + self.k
        if self.b**J == self.a:
            J += ENG.choose(2, ("log", self.a.re.key(), self.b.re.key()))
        return J + self.k

    def __floor__(self):
        J = self._exact()
        if not self.b**J <= self.a:
            return J - 1 + self.k
        if ENG.rounding:
            J -= ENG.choose(2, ("log", self.a.re.key(), self.b.re.key()))
        return J + self.k

    ceil, floor = __ceil__, __floor__

    def _c(self, o, op):
        if isinstance(o, (int, np.integer)) or (isinstance(o, float) and o == int(o)):
            t = self.b ** int(o - self.k)
            return {"lt": self.a < t, "le": self.a <= t, "gt": self.a > t, "ge": self.a >= t,
                    "eq": self.a == t, "ne": self.a != t}[op] if False else getattr(self.a, f"__{op}__")(t)
        raise NotEncodable("comparison of a quotient of logarithms")

    def __lt__(self, o):
        return self._c(o, "lt")

    def __le__(self, o):
        return self._c(o, "le")

    def __gt__(self, o):
        return self._c(o, "gt")

    def __ge__(self, o):
        return self._c(o, "ge")

    def __eq__(self, o):
        return self._c(o, "eq")

    def __ne__(self, o):
        return self._c(o, "ne")

    __hash__ = None

    def __int__(self):
        return self.__floor__() if S(self.a) >= 1 else self.__ceil__()

    def __float__(self):
        raise NotEncodable("float() of a quotient of logarithms")


# ----------------------------------------------------------------------------------- engine


class Atom:
    def __init__(self, name, kind, **kw):
        self.name, self.kind = name, kind
        self.__dict__.update(kw)


class Engine:
    """One path-exploration: construct, declare variables in `setup`, call explore()."""

    rounding = False
    max_zeros = 1  # values of the generating function that vanish at once on a path

    def __init__(self, max_paths=4000, max_s=200.0, timeout_ms=10000):
        self.max_paths, self.max_s, self.timeout = max_paths, max_s, timeout_ms
        self.z3 = import_z3()
        self.npaths = 0
        self.complete = True
        self.unknown = 0

    # -- path exploration
    def explore(self, body):
        """body(engine) runs the code under test once; yields (outcome, engine) per path,
        outcome = ("ok", value) | ("raise", exception)."""
        global ENG
        stack = [[]]
        t0 = time.time()
        while stack:
            if self.npaths >= self.max_paths or time.time() - t0 > self.max_s:
                self.complete = False
                return
            self.script = stack.pop()
            self.trail = []
            self.stack = stack
            self.reset()
            ENG = self
            try:
                try:
                    v = ("ok", body(self))
                except (NotEncodable, Infeasible, Budget):
                    raise
                except RecursionError as e:
                    raise NotEncodable(f"recursion: {e}")
                except Exception as e:
                    v = ("raise", e)
                self.npaths += 1
                yield v
            except Infeasible:
                pass
            except Budget:
                self.complete = False
            finally:
                ENG = None

    def reset(self):
        self.atoms = []
        self.roots = {}
        self.memo = {}
        self.pc = []  # (op, poly) facts: poly op 0
        self.lo = None  # bounds on the distinguished variable: (c, k, strict): var**k > c
        self.hi = None
        self.main = None
        self.known = {}
        self.kappas = []
        self.exps = {}
        self.zeros = 0
        self.inarr = 0
        self.fp = False
        self.exp_args = None

    # -- atoms
    def atom(self, name, kind, **kw):
        self.atoms.append(Atom(name, kind, **kw))
        return len(self.atoms) - 1

    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False):
        i = self.atom(name, "real")
        x = Sym(Rat({((i, 1),): Fraction(1)}))
        if lo is not None:
            self.assume("gt" if lo_strict else "ge", (x - lo).re)
        if hi is not None:
            self.assume("lt" if hi_strict else "le", (x - hi).re)
        return x

    def main_real(self, name, lo, hi, lo_strict=True):
        """The distinguished positive variable (scale factor): monomial comparisons are
        simplified exactly through its interval."""
        i = self.atom(name, "real")
        self.main = i
        self.lo = (Fraction(lo), 1, lo_strict)
        self.hi = (Fraction(hi), 1, False)
        return Sym(Rat({((i, 1),): Fraction(1)}))

    def int(self, name, lo=None, hi=None):
        i = self.atom(name, "int")
        x = Sym(Rat({((i, 1),): Fraction(1)}), is_int=True)
        if lo is not None:
            self.assume("ge", (x - lo).re)
        if hi is not None:
            self.assume("le", (x - hi).re)
        return x

    def assume(self, op, r):
        """Add a fact without exploring the other side (precondition or contract)."""
        self.pc.append((op, self.numer(r)))

    # -- sign of denominators
    def positive_atom(self, i):
        a = self.atoms[i]
        return i == self.main or a.kind in ("norm", "exp")

    def numer(self, r):
        """Numerator of r with the sign of the denominator folded in."""
        if r.d is ONE or r.d == ONE:
            return r.n
        if all(c > 0 for c in r.d.values()) and all(self.positive_atom(i) for m in r.d for i, _ in m):
            return r.n
        s = self.sign(r.d)
        return r.n if s > 0 else {m: -c for m, c in r.n.items()}

    def sign(self, p):
        k = ("sign", p_key(p))
        if k not in self.memo:
            self.memo[k] = 1 if self.decide("gt", Rat(p)) else -1
        return self.memo[k]

    def nonzero(self, r):
        if r.const is not None:
            if r.const == 0:
                raise ZeroDivisionError("division by zero")
            return
        if self.decide("eq", r):
            raise ZeroDivisionError("division by zero")

    # -- decisions
    def decide(self, op, r):
        """Truth of  r op 0  on this path, forking when both are feasible."""
        n = self.numer(r)
        c = Rat(n).const
        if c is not None:
            return _op(op, c)
        neg = {"lt": "ge", "ge": "lt", "le": "gt", "gt": "le", "eq": "ne", "ne": "eq"}
        cc = self.ceil_cmp(op, n)
        if cc is not None:
            return self.decide(*cc)
        key = (op, p_key(n))
        if key in self.known:
            return self.known[key]
        if (neg[op], key[1]) in self.known:
            return not self.known[neg[op], key[1]]
        m = self.mono(n)
        if m is not None:
            t, f = self.mono_feasible(op, m), self.mono_feasible(neg[op], m)
        else:
            t = self.feasible(op, n)
            f = True if not t else self.feasible(neg[op], n)
        if not t and not f:
            raise Infeasible()
        if t and f and self.zero_test(op, n) and self.zeros >= self.max_zeros:
            v = op == "ne"
        elif t and f:
            pos = len(self.trail)
            if pos < len(self.script):
                v = self.script[pos]
            else:
                v = True
                self.stack.append(self.trail + [False])
            self.trail.append(v)
            if self.zero_test(op, n) and v == (op == "eq"):
                self.zeros += 1
        else:
            v = t
        self.known[key] = v
        if (t and f) or self.fp:
            o = op if v else neg[op]
            if m is not None and o != "ne":
                self.mono_learn(o, m)
            else:
                self.pc.append((o, n))
        return v

    def zero_test(self, op, n):
        """Is n op 0 a test whether a value of the generating function vanishes?"""
        if op not in ("eq", "ne") or len(n) != 1:
            return False
        (m, _), = n.items()
        return bool(m) and all(self.atoms[i].kind in ("sqrt", "kappa", "norm") for i, _ in m)

    def choose(self, n, key=None):
        """Unconstrained nondeterministic choice (the same one again for the same key)."""
        if key is not None:
            key = ("choose", key)
            if key not in self.memo:
                self.memo[key] = self.choose(n)
            return self.memo[key]
        for v in range(n - 1):
            pos = len(self.trail)
            if pos < len(self.script):
                t = self.script[pos]
            else:
                t = True
                self.stack.append(self.trail + [False])
            self.trail.append(t)
            if t:
                return v
        return n - 1

    def ceil_cmp(self, op, n):
        """ceil(x) op t as a comparison of x with an integer."""
        if op in ("eq", "ne") or len(n) > 2:
            return None
        c, a, i = Fraction(0), None, None
        for m, v in n.items():
            if m == ():
                c = v
            elif len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == "ceil" and a is None:
                a, i = v, m[0][0]
            else:
                return None
        if a is None:
            return None
        t = -c / a
        if a < 0:
            op = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}[op]
        fl, ce = t.numerator // t.denominator, -((-t.numerator) // t.denominator)
        v, o = {"le": (fl, "le"), "lt": (ce - 1, "le"), "ge": (ce - 1, "gt"), "gt": (fl, "gt")}[op]
        return o, self.atoms[i].arg - Rat(p_const(v))

    # monomial comparisons a*x^k + c op 0 for the main variable x > 0:  x^k op' t
    def mono(self, n):
        if self.main is None or len(n) > 2:
            return None
        c, a, k = Fraction(0), None, None
        for m, v in n.items():
            if m == ():
                c = v
            elif len(m) == 1 and m[0][0] == self.main and a is None:
                a, k = v, m[0][1]
            else:
                return None
        if a is None:
            return None
        return (-c / a, k, a > 0)

    @staticmethod
    def cmp_root(a, b):
        """compare a=(c,k): c^(1/k) with b, both c >= 0"""
        x, y = a[0] ** b[1], b[0] ** a[1]
        return (x > y) - (x < y)

    def mono_feasible(self, op, m):
        t, k, up = m
        if not up:
            op = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(op, op)
        if t <= 0:  # x^k > 0 >= t
            return op in ("gt", "ge", "ne")
        lo, hi = self.lo, self.hi
        cl, ch = self.cmp_root((t, k), lo), self.cmp_root((t, k), hi)
        point = self.cmp_root(lo, hi) == 0
        # interval is (lo, hi) with strictness flags
        if op == "lt":  # some x < root
            return cl > 0
        if op == "le":
            return cl > 0 or (cl == 0 and not lo[2])
        if op == "gt":
            return ch < 0
        if op == "ge":
            return ch < 0 or (ch == 0 and not hi[2])
        inside = (cl > 0 or (cl == 0 and not lo[2])) and (ch < 0 or (ch == 0 and not hi[2]))
        if op == "eq":
            return inside
        return not (point and inside)

    def mono_learn(self, op, m):
        t, k, up = m
        if not up:
            op = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(op, op)
        if op in ("lt", "le", "eq"):
            c = self.cmp_root((t, k), self.hi)
            if c < 0 or (c == 0 and op == "lt"):
                self.hi = (t, k, op == "lt")
        if op in ("gt", "ge", "eq"):
            c = self.cmp_root((t, k), self.lo)
            if c > 0 or (c == 0 and op == "gt"):
                self.lo = (t, k, op == "gt")

    # -- solver
    def zvar(self, i, zc):
        if i not in zc:
            a = self.atoms[i]
            zc[i] = self.z3.Int(f"{a.name}_{i}") if a.kind in ("int", "ceil") else self.z3.Real(f"{a.name}_{i}")
        return zc[i]

    def zpoly(self, p, zc):
        z3 = self.z3
        ts = []
        for m, c in p.items():
            t = z3.RealVal(f"{c.numerator}/{c.denominator}")
            for i, k in m:
                v = self.zvar(i, zc)
                if self.atoms[i].kind in ("int", "ceil"):
                    v = z3.ToReal(v)
                for _ in range(k):
                    t = t * v
            ts.append(t)
        return z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))

    def zfact(self, op, p, zc):
        if op == "fp":
            v, e = self.zvar(p[0], zc), self.zpoly(p[1], zc)
            lo, hi = self.z3.RealVal(f"{2**52-1}/{2**52}"), self.z3.RealVal(f"{2**52+1}/{2**52}")
            return self.z3.Or(self.z3.And(e >= 0, v >= lo * e, v <= hi * e), self.z3.And(e <= 0, v <= lo * e, v >= hi * e))
        e = self.zpoly(p, zc)
        return {"lt": e < 0, "le": e <= 0, "gt": e > 0, "ge": e >= 0, "eq": e == 0, "ne": e != 0}[op]

    def background(self, zc, with_main=True, depth=None):
        """Constraints on the atoms already in zc (cone of influence), to a fixpoint or to a
        depth (fewer constraints: an over-approximation)."""
        z3 = self.z3
        cons = []
        used_pc, done = set(), set()
        grew = True
        rounds = 0
        while grew:
            grew = False
            rounds += 1
            if depth is not None and rounds > depth:
                return cons
            seen = set(zc)
            for i in list(zc):
                if i in done:
                    continue
                done.add(i)
                grew = True
                a = self.atoms[i]
                v = zc[i]
                if i == self.main and with_main:
                    for (c, k, st), up in ((self.lo, True), (self.hi, False)):
                        e = v
                        for _ in range(k - 1):
                            e = e * v
                        q = z3.RealVal(f"{c.numerator}/{c.denominator}")
                        cons.append((e > q if st else e >= q) if up else (e < q if st else e <= q))
                    cons.append(v > 0)
                if a.kind in ("norm", "exp"):
                    cons.append(v > 0)
                if a.kind == "sqrt":
                    cons += [v >= 0, self.zpoly(p_mul({((i, 2),): Fraction(1)}, self.roots[i].d), zc) == self.zpoly(self.roots[i].n, zc)]
                if a.kind == "kappa":
                    cons += a.bounds(v, z3)
                    cons += self.kappa_now(i, zc)
                    for j in a.below:  # kappa_i >= kappa_j
                        if j in zc:
                            cons.append(v >= zc[j])
                    for j in a.above:
                        if j in zc:
                            cons.append(v <= zc[j])
                if a.kind == "ceil":
                    e = self.zpoly(a.arg.n, zc)
                    w = z3.ToReal(v)
                    cons += [w >= e, w - 1 < e]
            for q, (op, p) in enumerate(self.pc):
                if q in used_pc:
                    continue
                at = ({p[0]} | {i for m in p[1] for i, _ in m}) if op == "fp" else {i for m in p for i, _ in m}
                if not with_main and self.main in at:
                    continue
                if self.closure(at) & (seen if self.fp else set(zc)) or not at:
                    used_pc.add(q)
                    cons.append(self.zfact(op, p, zc))
                    grew = True
        return cons

    def closure(self, at):
        """at and the atoms under its square roots."""
        out, todo = set(at), list(at)
        while todo:
            i = todo.pop()
            if i in self.roots:
                new = self.roots[i].atoms() - out
                out |= new
                todo += list(new)
        return out

    def check(self, goals, zc, with_main=True):
        if self.fp:
            for depth in (1, 2, 3, 4):
                z2 = dict(zc)
                s = self.z3.Solver()
                s.set("timeout", 1000)
                s.add(*self.background(z2, with_main, depth))
                s.add(goals)
                t = time.time()
                r = s.check()
                query.STATS["solver_s"] += time.time() - t
                if r == self.z3.unsat:
                    query.STATS["queries"] += 1
                    query.STATS["unsat"] += 1
                    return r, s
        s = self.z3.Solver()
        s.set("timeout", self.timeout if not self.fp else 2000)
        cons = self.background(zc, with_main)
        s.add(*cons)
        s.add(goals)
        t = time.time()
        r = s.check()
        st = query.STATS
        st["solver_s"] += time.time() - t
        st["queries"] += 1
        st["vars"] = max(st["vars"], len(zc))
        st["unsat" if r == self.z3.unsat else "sat" if r == self.z3.sat else "unknown"] += 1
        return r, s

    def feasible(self, op, n):
        zc = {}
        g = self.zfact(op, n, zc)
        r, _ = self.check(g, zc)
        if r == self.z3.unknown:
            self.unknown += 1
            return True
        return r == self.z3.sat

    # -- derived atoms
    def sqrt(self, r):
        c = r.const
        if c is not None:
            if c < 0:
                return float("nan")
            return Sym(Rat(p_const(Fraction(float(np.sqrt(float(c)))))))
        k = ("sqrt", r.key())
        if k not in self.memo:
            # equal argument under another form?
            for q, v in list(self.memo.items()):
                if q[0] == "sqrt" and not (self.roots[v] - r).n:
                    self.memo[k] = v
                    break
            else:
                if self.decide("lt", r):
                    return float("nan")
                i = self.atom("sqrt", "sqrt")
                self.roots[i] = r
                self.memo[k] = i
        return Sym(Rat({((self.memo[k], 1),): Fraction(1)}))

    def fpround(self, x):
        """Floating-point result of an exact operation: |v - r| <= 2^-52 |r|."""
        r = x.re
        if r.const is not None or x.is_int:
            return x
        (m, c), = r.n.items() if len(r.n) == 1 else [(None, None)]
        if r.d == ONE and m is not None and len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            return x  # +- a variable: exact
        k = ("fp", r.key())
        if k not in self.memo:
            i = self.atom("fp", "real")
            self.memo[k] = i
            n = r.n
            if r.d != ONE:
                q = self.atom("q", "real")
                self.pc.append(("eq", p_add(p_mul({((q, 1),): Fraction(1)}, r.d), r.n, -1)))
                n = {((q, 1),): Fraction(1)}
            self.pc.append(("fp", (i, n)))
        return Sym(Rat({((self.memo[k], 1),): Fraction(1)}))

    def exp(self, x):
        if self.exp_args is not None:
            self.exp_args.append(x)
        if x.im.n:
            raise NotEncodable("exp of a complex value")
        c = x.re.const
        if c is not None:
            return float(np.exp(float(c)))
        for q, v in self.memo.items():
            if q[0] == "exp" and not (self.exps[v] - x.re).n:
                return Sym(Rat({((v, 1),): Fraction(1)}))
        i = self.atom("exp", "exp")
        self.exps[i] = x.re
        self.memo["exp", x.re.key()] = i
        return Sym(Rat({((i, 1),): Fraction(1)}))

    def ceil(self, x):
        if x.is_int:
            return x
        c = x.re.const
        if c is not None:
            return -((-c.numerator) // c.denominator)
        if x.im.n:
            raise NotEncodable("ceil of a complex value")
        r = x.re
        if r.d != ONE:
            # p/d with d > 0 known: handled through a fresh variable q*d = p
            k = ("quot", r.key())
            if k not in self.memo:
                i = self.atom("q", "real")
                self.memo[k] = i
                q = Rat({((i, 1),): Fraction(1)})
                self.pc.append(("eq", p_add(p_mul(q.n, r.d), r.n, -1)))
            r = Rat({((self.memo[k], 1),): Fraction(1)})
        for q, v in self.memo.items():
            if q[0] == "ceil" and not (self.atoms[v].arg - r).n:
                return Sym(Rat({((v, 1),): Fraction(1)}), is_int=True)
        i = self.atom("ceil", "ceil", arg=r)
        self.memo["ceil", r.key()] = i
        return Sym(Rat({((i, 1),): Fraction(1)}), is_int=True)

    def mod(self, a, b):
        m = b.re.const
        if m is None or m.denominator != 1 or not a.is_int:
            raise NotEncodable("modulo of symbolic values")
        m = int(m)
        k = ("mod", a.re.key(), m)
        if k not in self.memo:
            q = self.int("q")
            rem = None
            for r in range(m):
                # decide a == m*q_r + r for some integer q_r
                if r == m - 1 or self._mod_is(a, m, r):
                    rem = r
                    break
            self.memo[k] = rem
            self.pc.append(("eq", (a - q * m - rem).re.n))
        return self.memo[k]

    def _mod_is(self, a, m, r):
        q = self.int("q")
        n = (a - q * m - r).re.n
        t = self.feasible("eq", n)
        rest = []
        for s in range(r + 1, m):
            rest.append(self.feasible("eq", (a - q * m - s).re.n))
        f = any(rest)
        if t and f:
            pos = len(self.trail)
            if pos < len(self.script):
                v = self.script[pos]
            else:
                v = True
                self.stack.append(self.trail + [False])
            self.trail.append(v)
            return v
        if not t and not f:
            raise Infeasible()
        return t

    def pin(self, x):
        """Concrete value of an integer expression on this path (forks over its values)."""
        if x.im.n:
            raise NotEncodable("concretisation of a complex value")
        c = x.re.const
        if c is not None:
            return int(c) if c.denominator == 1 else float(c)
        if not x.is_int:
            # not known to be an integer syntactically (e.g. an exact half): unique value?
            zc = {}
            e = self.zpoly(self.numer(x.re), zc)
            if x.re.d != ONE:
                raise NotEncodable("concretisation of a quotient")
            r, s = self.check(self.z3.BoolVal(True), zc)
            v = _val(self.z3, s.model().eval(e, model_completion=True)) if r == self.z3.sat else None
            if v is None:
                raise NotEncodable("concretisation of a real value")
            if self.decide("eq", x.re - Rat(p_const(v))):
                return int(v) if v.denominator == 1 else float(v)
            raise NotEncodable("concretisation of a real value")
        for _ in range(200):
            if len(self.trail) < len(self.script):
                pass
            zc = {}
            e = self.zpoly(x.re.n, zc)
            r, s = self.check(self.z3.BoolVal(True), zc)
            if r != self.z3.sat:
                raise Infeasible() if r == self.z3.unsat else NotEncodable("concretisation: solver unknown")
            # smallest value, so that re-execution is deterministic
            v = _val(self.z3, s.model().eval(e, model_completion=True))
            v = self._least(x, v)
            if self.decide("eq", x.re - Rat(p_const(v))):
                return int(v)
        raise Budget("pin")

    def _least(self, x, v):
        for _ in range(400):
            zc = {}
            e = self.zpoly(x.re.n, zc)
            r, s = self.check(e < self.z3.RealVal(f"{v.numerator}/{v.denominator}"), zc)
            if r != self.z3.sat:
                return v
            v = _val(self.z3, s.model().eval(e, model_completion=True))
        return v

    # -- the uninterpreted tiling integral
    def integral(self, a, b, n, lam):
        """P(a, b; n, lam) = norm * kappa(a), with the contract of a decreasing generating
        function: kappa(1/lam) = 1, kappa(1) = 0, kappa decreasing on [1/lam, 1]."""
        a, b, lam = S(a), S(b), S(lam)
        nk = ("norm", b.re.key(), int(n) if not isinstance(n, Sym) else n.re.key(), lam.re.key())
        if nk not in self.memo:
            self.memo[nk] = self.atom("norm", "norm")
        nrm = Sym(Rat({((self.memo[nk], 1),): Fraction(1)}))
        kk = ("kappa", nk, a.re.key())
        if kk in self.memo:
            return nrm * self.memo[kk]
        inb = b.re.const == 1
        one = self.rel(a, S(1)) if inb else None
        low = self.rel(a * lam, S(1)) if inb else None
        if one == "eq":
            k = S(0)
        elif low == "eq":
            k = S(1)
        else:
            ok = one in ("lt", "le") and low in ("gt", "ge")
            i = self.atom("kappa", "kappa", below=set(), above=set(), a=a, lam=lam, nk=nk, inb=inb,
                          bounds=(lambda v, z3: [v >= 0, v <= 1]) if ok else (lambda v, z3: []))
            if ok:
                for j, aj, nkj in self.kappas:
                    if nkj != nk:
                        continue
                    r = self.rel(a, aj)
                    if r in ("lt", "le", "eq"):
                        self.atoms[i].below.add(j)
                        self.atoms[j].above.add(i)
                    if r in ("gt", "ge", "eq"):
                        self.atoms[i].above.add(j)
                        self.atoms[j].below.add(i)
                self.kappas.append((i, a, nk))
            k = Sym(Rat({((i, 1),): Fraction(1)}))
        self.memo[kk] = k
        return nrm * k

    def kappa_now(self, i, zc):
        """What the path condition now implies about a kappa created earlier."""
        a = self.atoms[i]
        v = zc[i]
        cons = []
        if not a.inb:
            return cons

        def eq(x, y):
            m = self.mono(self.numer((x - y).re)) if self.main is not None else None
            return m is not None and not self.mono_feasible("ne", m)

        if eq(a.a, S(1)):
            cons.append(v == 0)
        if eq(a.a * a.lam, S(1)):
            cons.append(v == 1)
        for j, aj, nk in self.kappas:
            if j != i and j in zc and nk == a.nk and eq(a.a, aj):
                cons.append(v == zc[j])
        return cons

    def rel(self, a, b):
        """Order of a and b if it is implied on this path (no forking)."""
        n = self.numer((a - b).re)
        c = Rat(n).const
        if c is not None:
            return "eq" if c == 0 else "lt" if c < 0 else "gt"
        m = self.mono(n)
        f = (lambda op: self.mono_feasible(op, m)) if m is not None else (lambda op: self.feasible(op, n))
        if not f("gt"):
            return "eq" if not f("lt") else ("lt" if not f("eq") else "le")
        if not f("lt"):
            return "gt" if not f("eq") else "ge"
        return None

    # -- final assertions
    def prove_zero(self, xs, eps=EPS):
        """|Re x|, |Im x| <= eps for all x on this path.  -> ("holds"|"cex"|"unknown", model)"""
        lin, full = [], []
        for x in xs:
            if x is POISON:
                return "cex", self.model(None)
            if isinstance(x, (float, complex, np.floating, np.complexfloating)) and not np.isfinite(x):
                return "cex", self.model(None)
            x = S(x)
            for r in (x.re, x.im):
                if not r.n:
                    continue
                query.STATS["atoms"] += 1
                c = r.const
                if c is not None:
                    if abs(c) > Fraction(eps):
                        return "cex", self.model(None)
                    continue
                lin.append(r)
        i = 0
        verdict = "holds"
        while i < len(lin):
            chunk = lin[i : i + 12]
            i += 12

            def goal(zc, rs=chunk):
                gs = []
                for r in rs:
                    n = self.numer(r)
                    d = r.d
                    if d != ONE and n is not r.n:
                        d = {m: -c for m, c in d.items()}
                    e = Fraction(eps)
                    hi = p_add(n, {m: c * e for m, c in d.items()}, -1)
                    lo = p_add(n, {m: c * e for m, c in d.items()})
                    gs += [self.zfact("gt", hi, zc), self.zfact("lt", lo, zc)]
                return self.z3.Or(gs)

            at = set().union(*[r.atoms() for r in chunk])
            if self.main is not None and self.main not in at:
                zc = {}
                g = goal(zc)
                r, s = self.check(g, zc, with_main=False)
                if r == self.z3.unsat:
                    continue
            zc = {}
            g = goal(zc)
            if self.main is not None:
                self.zvar(self.main, zc)
            full, self.timeout = self.timeout, min(self.timeout, 1500)
            r, s = self.check(g, zc)
            self.timeout = full
            if r == self.z3.unknown:
                if all(self.relaxed(goal, r1) for r1 in chunk):
                    continue
                r, s = self.check(g, zc)
            if r == self.z3.sat:
                return "cex", self.model(s.model(), zc)
            if r != self.z3.unsat:
                verdict = "unknown"
        if not lin:
            r, _ = self.check(self.z3.BoolVal(False), {})
        return verdict, None

    def relaxed(self, goal, r):
        """One residual, using only the facts near its own atoms (fewer assumptions: unsat is final)."""
        for main in (False, True):
            for depth in (1, 2, 3):
                zc = {}
                g = goal(zc, [r])
                s = self.z3.Solver()
                s.set("timeout", 2000)
                s.add(*self.background(zc, main, depth))
                s.add(g)
                t = time.time()
                v = s.check()
                query.STATS["solver_s"] += time.time() - t
                query.STATS["queries"] += 1
                query.STATS["unsat" if v == self.z3.unsat else "sat" if v == self.z3.sat else "unknown"] += 1
                if v == self.z3.unsat:
                    return True
        return False

    def prove(self, op, x):
        """x op 0 holds on this path?"""
        x = S(x)
        n = self.numer(x.re)
        c = Rat(n).const
        neg = {"lt": "ge", "ge": "lt", "le": "gt", "gt": "le", "eq": "ne", "ne": "eq"}
        query.STATS["atoms"] += 1
        if c is not None:
            return ("holds", None) if _op(op, c) else ("cex", self.model(None))
        cc = self.ceil_cmp(op, n)
        if cc is not None and self.mono(self.numer(cc[1])) is not None:
            if not self.mono_feasible(neg[cc[0]], self.mono(self.numer(cc[1]))):
                # implied by the interval of the main variable; put the same fact to the solver
                op, n = cc[0], self.numer(cc[1])
        zc = {}
        g = self.zfact(neg[op], n, zc)
        r, s = self.check(g, zc)
        if r == self.z3.sat:
            return "cex", self.model(s.model(), zc)
        return ("holds" if r == self.z3.unsat else "unknown"), None

    def prove_some_ne(self, xs):
        """Not all of xs vanish together."""
        query.STATS["atoms"] += len(xs)
        zc = {}
        g = []
        for x in xs:
            c = S(x).re.const
            if c is not None:
                if c != 0:
                    return "holds", None
                continue
            g.append(self.zfact("eq", self.numer(S(x).re), zc))
        r, s = self.check(self.z3.And(g) if g else self.z3.BoolVal(True), zc)
        if r == self.z3.sat:
            return "cex", self.model(s.model(), zc)
        return ("holds" if r == self.z3.unsat else "unknown"), None

    def model(self, m, zc=None):
        """Values of the named free variables (floats / ints) satisfying the path."""
        if m is None:
            zc = {}
            for i, a in enumerate(self.atoms):
                if a.kind in ("real", "int") and a.name not in ("q", "fp"):
                    self.zvar(i, zc)
            r, s = self.check(self.z3.BoolVal(True), zc)
            if r != self.z3.sat:
                return self.point()
            m = s.model()
        out = {}
        for i, a in enumerate(self.atoms):
            if a.kind in ("real", "int") and a.name not in ("q", "fp"):
                v = _val(self.z3, m.eval(self.zvar(i, zc if zc is not None else {}), model_completion=True))
                out[a.name] = int(v) if a.kind == "int" else float(v)
        out.update(self.point()) if self.main is not None else None
        return out

    def point(self):
        """A float inside the interval of the main variable (its exact value if pinned)."""
        if self.main is None:
            return {}
        lo = float(self.lo[0]) ** (1.0 / self.lo[1])
        hi = float(self.hi[0]) ** (1.0 / self.hi[1])
        if self.cmp_root(self.lo, self.hi) == 0:
            v = lo if abs(lo - round(lo)) > 1e-12 else float(round(lo))
        else:
            v = (lo + hi) / 2
            # a short decimal if one lies inside
            for d in range(1, 12):
                c = round(v, d)
                if lo < c < hi:
                    v = c
                    break
        return {self.atoms[self.main].name: v}


def _op(op, c):
    return {"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0, "eq": c == 0, "ne": c != 0}[op]


def _val(z3, v):
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    return Fraction(v.numerator_as_long(), v.denominator_as_long())


# -------------------------------------------------------------------------- array front end


class _At:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, k):
        return _AtI(self.a, k)


class _AtI:
    def __init__(self, a, k):
        self.a, self.k = a, k

    def set(self, v, **kw):
        r = self.a.copy()
        r[self.k] = _obj(v)
        return r

    def add(self, v, **kw):
        r = self.a.copy()
        r[self.k] = r[self.k] + _obj(v)
        return r

    def multiply(self, v, **kw):
        r = self.a.copy()
        r[self.k] = r[self.k] * _obj(v)
        return r

    mul = multiply

    def get(self, **kw):
        return self.a[self.k]


def _obj(v):
    if isinstance(v, Sym) or np.isscalar(v):
        return v
    a = np.asarray(v)
    return a if a.dtype == object else a.astype(object)


class NumArr(np.ndarray):
    """Numeric array with jax-style functional updates."""

    __array_priority__ = 1e5

    @property
    def at(self):
        return _At(self.astype(object).view(ObjArr))


class ObjArr(np.ndarray):
    """Object array with jax-style functional updates."""

    __array_priority__ = 1e6

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        """Inside array arithmetic a division by zero gives a non-finite element, not an exception."""
        ins = [np.asarray(x) if isinstance(x, np.ndarray) else x for x in inputs]
        if out is not None:
            kw["out"] = tuple(np.asarray(o) if isinstance(o, np.ndarray) else o for o in out)
        if ENG is not None:
            ENG.inarr += 1
        try:
            r = getattr(ufunc, method)(*ins, **kw)
        finally:
            if ENG is not None:
                ENG.inarr -= 1
        if out is not None:
            return out[0]
        return r.view(ObjArr) if isinstance(r, np.ndarray) and r.dtype == object else r

    @property
    def at(self):
        return _At(self)

    def astype(self, dtype, *a, **k):
        return _wide(dtype) or self.copy()

    def conj(self):
        return _map(lambda x: x.conjugate(), self)

    conjugate = conj

    @property
    def real(self):
        return _map(lambda x: x.real, self)

    @property
    def imag(self):
        return _map(lambda x: x.imag, self)

    def sum(self, axis=None, **k):
        return np.add.reduce(self, axis=axis if axis is not None else tuple(range(self.ndim)))


def _map(f, a):
    return elementwise(f, a)


def obj(a):
    a = np.asarray(a)
    if a.dtype != object:
        a = a.astype(object)
    return a.view(ObjArr)


def hassym(x):
    if isinstance(x, (Sym, Log, LogRatio, Poison)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(hassym(y) for y in x)
    return False


def _elem(f_sym, f_num):
    def g(x, *a, **k):
        def one(v):
            if isinstance(v, (Sym, Log, LogRatio, Poison)):
                return f_sym(v)
            return f_num(v)

        if isinstance(x, (Sym, Log, LogRatio, Poison)) or np.isscalar(x):
            return one(x)
        return _map(one, x)

    return g


class ArrShim:
    """Stands in for numpy, jax.numpy or math inside the module under test."""

    def __init__(self, real, jaxlike=False):
        self._real = real
        self._cache = {}

    def __getattr__(self, name):
        return shim_fn(name, getattr(self._real, name))


class _Type:
    """A numpy scalar type that also converts symbolic numbers."""

    def __init__(self, real):
        self.real, self.dtype = real, np.dtype(real)

    def __call__(self, x=0):
        if isinstance(x, (Sym, Log, LogRatio, Poison)):
            _wide(self.dtype)
            return int(x) if self.dtype.kind in "iu" else x
        if isinstance(x, np.ndarray) and x.dtype == object:
            return x
        return self.real(x)


def shim_fn(name, real):
    if isinstance(real, type) and issubclass(real, np.number):
        return _Type(real)
    if not isinstance(real, type) and hasattr(real, "dtype") and not hasattr(real, "shape"):
        return _Type(np.dtype(real.dtype).type)  # jax.numpy scalar types
    if name in SPECIAL:
        return SPECIAL[name](real)
    if not callable(real) or (isinstance(real, type) and name not in OBJFN):
        return real

    return _Fn(name, real)


class _Fn:
    """A library function that also accepts symbolic values."""

    def __init__(self, name, real):
        self._name, self._real = name, real
        self.__name__ = name

    def __call__(self, *a, **k):
        if hassym(a) or hassym(list(k.values())):
            fn = OBJFN.get(self._name)
            if fn is not None:
                return fn(*a, **k)
            ints = [x.is_int if isinstance(x, Sym) else not hassym((x,)) for x in list(a) + list(k.values())]
            if all(ints):  # an unknown function of integers: one path per feasible value
                a = tuple(x.concretise() if isinstance(x, Sym) else x for x in a)
                a = tuple(int(x) if isinstance(x, Fraction) else x for x in a)
                k = {q: int(x.concretise()) if isinstance(x, Sym) else x for q, x in k.items()}
                return _tonp(self._real(*a, **k))
            raise NotEncodable(f"{self._name} on symbolic values")
        if "dtype" in k and k["dtype"] in (sfloat, sint):
            k["dtype"] = k["dtype"]._base
        return _tonp(self._real(*a, **k))

    def __getattr__(self, k):
        return getattr(self._real, k)


class _Num(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return x.is_int if cls._base is int else not x.is_int
        return isinstance(x, cls._base)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._base)

    def __eq__(cls, o):
        return o is cls or o is cls._base

    def __hash__(cls):
        return hash(cls._base)


class sfloat(metaclass=_Num):
    """float() inside the code under test: a symbolic number stays symbolic."""

    _base = float

    def __new__(cls, x=0.0):
        return x if isinstance(x, Sym) and not x.im.n else float(x)


class sint(metaclass=_Num):
    _base = int

    def __new__(cls, x=0, *a):
        if isinstance(x, Sym) and not x.im.n and x.re.const is None:
            return x if x.is_int else (x.__floor__() if x >= 0 else x.__ceil__())
        return int(x, *a)


def _tonp(v):
    """jax arrays become numpy arrays with functional updates (so that they mix with object arrays)."""
    if isinstance(v, (tuple, list)):
        return type(v)(_tonp(x) for x in v) if type(v) in (tuple, list) else v
    if hasattr(v, "aval") and hasattr(v, "at"):
        a = np.array(v)
        return a.view(NumArr) if a.ndim else a.item()
    return v


def _shape(s):
    if isinstance(s, (int, np.integer, Sym)):
        return (int(s),)
    return tuple(int(x) for x in s)


def _wide(dtype):
    """Exact arithmetic does not describe reduced precision."""
    if dtype is not None:
        try:
            d = np.dtype(getattr(dtype, "dtype", dtype))
        except TypeError:
            return None
        if d in REDUCED:
            raise NotEncodable(f"symbolic array of reduced precision {d}")
    return None


def _zeros(real):
    return lambda shape, dtype=None, **k: _wide(dtype) or np.full(_shape(shape), 0.0, dtype=object).view(ObjArr)


def _ones(real):
    return lambda shape, dtype=None, **k: _wide(dtype) or np.full(_shape(shape), 1.0, dtype=object).view(ObjArr)


def _full(real):
    return lambda shape, v, dtype=None, **k: np.full(_shape(shape), v, dtype=object).view(ObjArr)


def _log(real):
    def f(x, base=None):
        if isinstance(x, (np.ndarray, list)):
            return _map(Log, x)
        return Log(x) if base is None else Log(x) / Log(base)

    return f


def _where(c, *ab):
    if not ab:
        return np.where(np.asarray(c).astype(bool))
    a, b = ab
    cc = np.asarray(c)
    if cc.dtype == object:
        cc = np.vectorize(bool, otypes=[bool])(cc) if cc.size else cc.astype(bool)
    cc, a, b = np.broadcast_arrays(cc, _ao(a), _ao(b))
    out = np.empty(cc.shape, dtype=object)
    for i in np.ndindex(*cc.shape):
        out[i] = a[i] if cc[i] else b[i]
    return out.view(ObjArr)


def _ao(x):
    if isinstance(x, Sym):
        o = np.empty((), dtype=object)
        o[()] = x
        return o
    return np.asarray(x)


def _minmax(pick):
    def f(a, b, *r, **k):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = np.broadcast_arrays(_ao(a), _ao(b))
            out = np.empty(a.shape, dtype=object)
            for i in np.ndindex(*a.shape):
                out[i] = pick(a[i], b[i])
            return out.view(ObjArr)
        return pick(a, b)

    return f


def _binary(op):
    def f(a, b, *r, **k):
        a, b = _ao(a), _ao(b)
        if a.ndim == 0 and b.ndim == 0:
            return op(a[()], b[()])
        a, b = np.broadcast_arrays(a, b)
        return _map2(op, a, b)

    return f


def _map2(op, a, b):
    out = np.empty(a.shape, dtype=object)
    ENG.inarr += 1
    try:
        for i in np.ndindex(*a.shape):
            out[i] = op(a[i], b[i])
    finally:
        ENG.inarr -= 1
    return out.view(ObjArr)


def _einsum(subs, *ops, **k):
    return np.einsum(subs, *[np.asarray(_ao(o)).astype(object) for o in ops]).view(ObjArr)


def _nsqrt(v):
    return np.sqrt(v)


SPECIAL = {"zeros": _zeros, "ones": _ones, "full": _full, "empty": _zeros, "log": _log, "log2": _log, "log10": _log}
OBJFN = {
    "sqrt": _elem(lambda v: v.sqrt(), _nsqrt),
    "ceil": _elem(lambda v: v.__ceil__(), lambda v: np.ceil(v)),
    "floor": _elem(lambda v: v.__floor__(), lambda v: np.floor(v)),
    "rint": _elem(lambda v: v.__round__(), lambda v: np.rint(v)),
    "round": _elem(lambda v: v.__round__(), lambda v: np.rint(v)),
    "around": _elem(lambda v: v.__round__(), lambda v: np.rint(v)),
    "trunc": _elem(lambda v: int(v), lambda v: np.trunc(v)),
    "sign": _elem(lambda v: 1 if v > 0 else (-1 if v < 0 else 0), lambda v: np.sign(v)),
    "max": lambda a, axis=None, **k: np.maximum.reduce(np.asarray(a), axis=axis),
    "min": lambda a, axis=None, **k: np.minimum.reduce(np.asarray(a), axis=axis),
    "less": _binary(lambda x, y: x < y),
    "less_equal": _binary(lambda x, y: x <= y),
    "greater": _binary(lambda x, y: x > y),
    "greater_equal": _binary(lambda x, y: x >= y),
    "equal": _binary(lambda x, y: x == y),
    "not_equal": _binary(lambda x, y: x != y),
    "exp": _elem(lambda v: v.exp(), lambda v: np.exp(v)),
    "abs": _elem(lambda v: abs(v), lambda v: abs(v)),
    "absolute": _elem(lambda v: abs(v), lambda v: abs(v)),
    "square": _elem(lambda v: v * v, lambda v: v * v),
    "conj": _elem(lambda v: v.conjugate(), lambda v: np.conj(v)),
    "conjugate": _elem(lambda v: v.conjugate(), lambda v: np.conj(v)),
    "real": _elem(lambda v: v.real, lambda v: np.real(v)),
    "imag": _elem(lambda v: v.imag, lambda v: np.imag(v)),
    "negative": _elem(lambda v: -v, lambda v: -v),
    "isnan": _elem(lambda v: False, lambda v: bool(np.isnan(v))),
    "isfinite": _elem(lambda v: True, lambda v: bool(np.isfinite(v))),
    "isclose": None,
    "where": _where,
    "maximum": _minmax(lambda x, y: x if x >= y else y),
    "minimum": _minmax(lambda x, y: x if x <= y else y),
    "add": _binary(lambda x, y: x + y),
    "subtract": _binary(lambda x, y: x - y),
    "multiply": _binary(lambda x, y: x * y),
    "divide": _binary(lambda x, y: x / y),
    "true_divide": _binary(lambda x, y: x / y),
    "power": _binary(lambda x, y: x**y),
    "pow": _binary(lambda x, y: x**y),
    "mod": _binary(lambda x, y: x % y),
    "logical_and": lambda a, b: np.logical_and(np.asarray(a).astype(bool), np.asarray(b).astype(bool)),
    "logical_or": lambda a, b: np.logical_or(np.asarray(a).astype(bool), np.asarray(b).astype(bool)),
    "logical_not": lambda a: np.logical_not(np.asarray(a).astype(bool)),
    "einsum": _einsum,
    "roll": lambda a, s, axis=None: np.roll(np.asarray(a), s, axis).view(ObjArr),
    "array": lambda a, dtype=None, **k: obj(np.array(a, dtype=object)),
    "asarray": lambda a, dtype=None, **k: obj(np.array(a, dtype=object)),
    "copy": lambda a, **k: np.array(a, dtype=object).view(ObjArr),
    "zeros_like": lambda a, **k: np.full(np.shape(a), 0.0, dtype=object).view(ObjArr),
    "ones_like": lambda a, **k: np.full(np.shape(a), 1.0, dtype=object).view(ObjArr),
    "empty_like": lambda a, **k: np.full(np.shape(a), 0.0, dtype=object).view(ObjArr),
    "sum": lambda a, axis=None, **k: obj(a).sum(axis),
    "prod": lambda a, axis=None, **k: np.multiply.reduce(np.asarray(a), axis=axis),
    "diff": lambda a, n=1, axis=-1, **k: np.diff(np.asarray(a), n=n, axis=axis).view(ObjArr),
    "stack": lambda a, axis=0, **k: np.stack([np.asarray(x).astype(object) for x in a], axis).view(ObjArr),
    "concatenate": lambda a, axis=0, **k: np.concatenate([np.asarray(x).astype(object) for x in a], axis).view(ObjArr),
    "expand_dims": lambda a, axis: np.expand_dims(a, axis),
    "reshape": lambda a, s, **k: np.reshape(a, s),
    "transpose": lambda a, *r: np.transpose(a, *r),
    "broadcast_to": lambda a, s: np.broadcast_to(a, s),
    "outer": lambda a, b: _map2(lambda x, y: x * y, *np.broadcast_arrays(np.asarray(_ao(a))[:, None], np.asarray(_ao(b))[None])),
    "multiply_outer": None,
    "flip": lambda a, axis=None: np.flip(a, axis),
    "clip": lambda a, lo=None, hi=None, **k: _clip(a, lo, hi, **k),
    "any": lambda a, **k: np.any(np.asarray(a).astype(bool), **k),
    "all": lambda a, **k: np.all(np.asarray(a).astype(bool), **k),
    "cumsum": lambda a, axis=None: np.cumsum(np.asarray(a), axis),
    "arange": lambda *a, **k: np.arange(*[int(x) for x in a], **k),
    "linspace": None,
    "nan_to_num": lambda a, **k: a,
    "iscomplexobj": lambda a: True,
    "shape": lambda a: np.shape(a),
}


def _clip(a, lo, hi, a_min=None, a_max=None, min=None, max=None):
    lo = lo if lo is not None else (a_min if a_min is not None else min)
    hi = hi if hi is not None else (a_max if a_max is not None else max)
    if lo is not None:
        a = OBJFN["maximum"](a, lo)
    if hi is not None:
        a = OBJFN["minimum"](a, hi)
    return a


def _linspace(a, b, num=50, **k):
    n = int(num)
    a, b = S(a), S(b)
    out = np.empty(n, dtype=object)
    for i in range(n):
        out[i] = a + (b - a) * Fraction(i, n - 1) if i < n - 1 or n == 1 else b
    return out.view(ObjArr)


OBJFN["linspace"] = _linspace


def _oa(a):
    return np.asarray(a).astype(object) if not isinstance(a, np.ndarray) or a.dtype != object else np.asarray(a)


def _move(f):
    """A function that only moves elements of its first argument."""
    return lambda a, *r, **k: obj(f(_oa(a), *r, **k))


def _seq(f):
    return lambda a, *r, **k: obj(f([_oa(x) for x in a], *r, **{q: v for q, v in k.items() if q != "dtype"}))


def _pad(a, w, mode="constant", constant_values=0.0, **k):
    if mode != "constant":
        raise NotEncodable("pad mode")
    return obj(np.pad(_oa(a), w, constant_values=constant_values))


def _isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return _binary(lambda x, y: abs(x - y) <= atol + rtol * abs(y))(a, b)


def _isin(a, b, **k):
    bs = list(np.asarray(_oa(b)).reshape(-1))
    return np.vectorize(lambda x: any(bool(x == y) for y in bs), otypes=[bool])(_oa(a))


def _dot(a, b, **k):
    a, b = _oa(a), _oa(b)
    return np.dot(a, b) if a.ndim <= 1 and b.ndim <= 1 else obj(np.dot(a, b))


OBJFN.update({
    "pad": _pad, "isclose": _isclose, "allclose": lambda a, b, **k: bool(np.all(_isclose(a, b, **k))), "isin": _isin,
    "hstack": _seq(np.hstack), "vstack": _seq(np.vstack), "column_stack": _seq(np.column_stack), "dstack": _seq(np.dstack),
    "append": lambda a, v, axis=None: obj(np.append(_oa(a), _oa(v), axis)),
    "tile": _move(np.tile), "repeat": _move(np.repeat), "take": _move(np.take), "squeeze": _move(np.squeeze), "ravel": _move(np.ravel),
    "moveaxis": _move(np.moveaxis), "swapaxes": _move(np.swapaxes), "delete": _move(np.delete), "atleast_1d": _move(np.atleast_1d),
    "atleast_2d": _move(np.atleast_2d), "atleast_3d": _move(np.atleast_3d), "fliplr": _move(np.fliplr), "flipud": _move(np.flipud), "diag": _move(np.diag),
    "ascontiguousarray": _move(lambda a, **k: a), "broadcast_arrays": lambda *a: [obj(x) for x in np.broadcast_arrays(*[_oa(y) for y in a])],
    "cumprod": lambda a, axis=None, **k: obj(np.cumprod(_oa(a), axis)),
    "count_nonzero": lambda a, **k: np.count_nonzero(np.vectorize(lambda x: bool(x != 0), otypes=[bool])(_oa(a)), **k),
    "nonzero": lambda a: np.nonzero(np.vectorize(lambda x: bool(x != 0), otypes=[bool])(_oa(a))),
    "flatnonzero": lambda a: np.flatnonzero(np.vectorize(lambda x: bool(x != 0), otypes=[bool])(_oa(a))),
    "fmax": OBJFN["maximum"], "fmin": OBJFN["minimum"], "float_power": OBJFN["power"], "remainder": OBJFN["mod"],
    "floor_divide": _binary(lambda x, y: x // y), "fix": OBJFN["trunc"],
    "logical_xor": lambda a, b: np.logical_xor(np.asarray(a).astype(bool), np.asarray(b).astype(bool)),
    "dot": _dot, "vdot": None, "matmul": lambda a, b, **k: obj(np.matmul(_oa(a), _oa(b))),
    "tensordot": lambda a, b, axes=2: obj(np.tensordot(_oa(a), _oa(b), axes)), "fsum": lambda a: sum(a, S(0)),
    "amax": OBJFN["max"], "amin": OBJFN["min"], "product": OBJFN["prod"], "isinf": _elem(lambda v: False, lambda v: bool(np.isinf(v))),
    "hypot": _binary(lambda x, y: S(x * x + y * y).sqrt()), "reciprocal": _elem(lambda v: S(1) / v, lambda v: 1 / v),
    "positive": _elem(lambda v: v, lambda v: v), "full_like": lambda a, v, **k: obj(np.full(np.shape(a), v, dtype=object)),
    "asanyarray": OBJFN["asarray"], "heaviside": None,
})


class patched:
    """Install the shims in s2wav.samples / s2wav.filters, unwrap jit, replace the tiling
    integral by the uninterpreted one (optional)."""

    def __init__(self, integral=True, extra=()):
        self.integral = integral
        self.extra = extra

    def __enter__(self):
        import math
        import types

        from s2wav import filters, samples

        self.saved = []
        mods = [samples, filters] + list(self.extra)
        for k, m in sorted(sys.modules.items()):  # helpers may live in other modules of the package
            if k.split(".")[0] == "s2wav" and isinstance(m, types.ModuleType) and m not in mods:
                mods.append(m)
        integrals = [getattr(filters, k) for k in ("part_scaling_fn", "_part_scaling_fn_jax") if hasattr(filters, k)]
        integrals += [getattr(v, "__wrapped__", v) for v in integrals]

        def setm(m, k, v):
            self.saved.append((m, k, vars(m).get(k, patched)))
            setattr(m, k, v)

        for m in mods:
            for k, v in (("float", sfloat), ("int", sint)):
                if k not in vars(m):
                    setm(m, k, v)
            for k, v in list(vars(m).items()):
                if isinstance(v, types.ModuleType):
                    nm = v.__name__
                    if nm in ("numpy", "jax.numpy", "math"):
                        setm(m, k, ArrShim(v))
                    elif nm == "torch":
                        setm(m, k, _TorchShim(v))
                    elif nm.startswith("scipy"):
                        setm(m, k, _SpecialShim(v))
                elif self.integral and any(v is f for f in integrals):
                    setm(m, k, lambda a, b, n, lam=2.0: ENG.integral(a, b, n, lam))
                elif callable(v) and hasattr(v, "__wrapped__") and (hasattr(v, "lower") or hasattr(v, "cache_info")):
                    while hasattr(v, "__wrapped__") and (hasattr(v, "lower") or hasattr(v, "cache_info")):
                        v = v.__wrapped__
                    setm(m, k, v)
                elif callable(v) and (getattr(v, "__module__", None) or "").startswith(("scipy", "jax._src.scipy", "jax.scipy")) or (
                        isinstance(v, np.ufunc) and not hasattr(np, v.__name__)):
                    setm(m, k, _concretised(v))
                elif isinstance(v, np.ufunc) or getattr(v, "__module__", None) in ("math", "numpy", "jax.numpy"):
                    setm(m, k, shim_fn(getattr(v, "__name__", k), v))
        return self

    def __exit__(self, *a):
        for m, k, v in reversed(self.saved):
            if v is patched:
                delattr(m, k)
            else:
                setattr(m, k, v)


def _concretised(real):
    """Call a numeric special function on values that are pinned on this path."""

    def pin(v):
        return float(v.concretise()) if isinstance(v, Sym) else v

    def f(*a, **k):
        k = {q: pin(v) for q, v in k.items()}
        if any(isinstance(x, np.ndarray) and x.dtype == object for x in a):
            a = [x.item() if isinstance(x, np.ndarray) and x.ndim == 0 else x for x in a]
            return np.vectorize(lambda *v: float(np.asarray(real(*[float(pin(q)) for q in v], **k))), otypes=[float])(*a)
        if hassym(a):
            return float(np.asarray(real(*[pin(v) for v in a], **k)))
        return real(*a, **k)

    return f


class _SpecialShim:
    def __init__(self, real):
        self._real = real

    def __getattr__(self, k):
        v = getattr(self._real, k)
        return _concretised(v) if callable(v) else _SpecialShim(v) if hasattr(v, "__name__") else v


class _TorchShim:
    def __init__(self, real):
        self._real = real

    def from_numpy(self, a):
        return a if isinstance(a, np.ndarray) and a.dtype == object else self._real.from_numpy(a)

    def zeros(self, *shape, dtype=None, **k):
        s = shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
        return np.full(_shape(s), 0.0, dtype=object).view(ObjArr)

    def __getattr__(self, k):
        return getattr(self._real, k)

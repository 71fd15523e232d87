"""Solver queries over affine forms."""
import time
from fractions import Fraction

import numpy as np

from .env import import_z3

EPS = 1e-9
TAU = 1e-11  # coefficients below this are over-approximated together by one slack variable

STATS = dict(queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, atoms=0, vars=0)


def _q(x):
    f = Fraction(float(x))
    return f"{f.numerator}/{f.denominator}"


class Z:
    def __init__(self, ctx, direction=None):
        self.z3 = import_z3()
        self.ctx = ctx
        self.vars = {}
        self.cons = []
        self.nslack = 0
        self.direction = direction  # inputs restricted to the ray t * direction, t > 0
        if direction is not None:
            self.t = self.z3.Real("t")
            self.cons += [self.t >= self.num(1e-18), self.t <= self.num(1e12)]

    def num(self, x):
        return self.z3.RealVal(_q(x))

    def var(self, i):
        if self.direction is not None and i <= self.ctx.n_inputs:
            return self.t * self.num(self.direction[i])
        if i not in self.vars:
            v = self.z3.Real(f"x{i}")
            self.vars[i] = v
            if i <= self.ctx.n_inputs:
                b = self.z3.RealVal(_q(self.ctx.box))
                self.cons += [v <= b, v >= -b]
        return self.vars[i]

    def expr(self, r):
        """z3 term of a real coefficient row (constant first)."""
        r = np.asarray(r, dtype=float)
        if self.direction is not None:
            n = self.ctx.n_inputs + 1
            k = float(r[:n] @ self.direction)
            terms = [self.num(r[0])] if r[0] else []
            terms += [self.t * self.num(k)] if k else []
            terms += [self.num(r[i]) * self.var(int(i)) for i in np.nonzero(r[n:])[0] + n]
            return self.z3.Sum(terms) if terms else self.num(0)
        big = np.abs(r) >= TAU
        terms = []
        if r[0] != 0:
            terms.append(self.z3.RealVal(_q(r[0])))
        lo = 0.0
        for i in np.nonzero(r[1:])[0] + 1:
            if big[i] or i > self.ctx.n_inputs:
                terms.append(self.z3.RealVal(_q(r[i])) * self.var(int(i)))
            else:
                lo += abs(r[i]) * self.ctx.box
        if lo:
            s = self.z3.Real(f"s{self.nslack}")
            self.nslack += 1
            b = self.z3.RealVal(_q(lo * (1 + 1e-9)))
            self.cons += [s <= b, s >= -b]
            terms.append(s)
        if not terms:
            return self.z3.RealVal(0)
        return self.z3.Sum(terms) if len(terms) > 1 else terms[0]


def solve(ctx, build, timeout_ms=60000, direction=None):
    """build(z) -> goal formula (negated property).  Returns (verdict, model dict)."""
    z3 = import_z3()
    z = Z(ctx, direction)
    goal = build(z)
    if ctx.path:
        from .nonlin import pred

        goal = z3.And([goal] + [pred(z, p) if v else z3.Not(pred(z, p)) for p, v in ctx.path])
    # definitions in the cone of influence of the goal (the others are conservative extensions)
    defs, todo, grew = [], list(ctx.defs), True
    while grew and todo:
        grew = False
        for d in list(todo):
            if d.idx & set(z.vars):
                defs += d(z)
                todo.remove(d)
                grew = True
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    s.add(*z.cons)
    s.add(*defs)
    s.add(goal)
    t = time.time()
    r = s.check()
    STATS["solver_s"] += time.time() - t
    STATS["queries"] += 1
    STATS["vars"] = max(STATS["vars"], len(z.vars) + z.nslack)
    if r == z3.unsat:
        STATS["unsat"] += 1
        return "unsat", None
    if r == z3.sat:
        STATS["sat"] += 1
        m = s.model()
        x = np.zeros(ctx.n_inputs + 1)
        x[0] = 1
        if direction is not None:
            val = m.eval(z.t, model_completion=True)
            val = val.approx(20) if z3.is_algebraic_value(val) else val
            x = float(Fraction(val.numerator_as_long(), val.denominator_as_long())) * direction
            x[0] = 1
            return "sat", x
        for i, v in z.vars.items():
            if i <= ctx.n_inputs:
                val = m.eval(v, model_completion=True)
                if z3.is_algebraic_value(val):
                    val = val.approx(20)
                x[i] = float(Fraction(val.numerator_as_long(), val.denominator_as_long()))
        return "sat", x
    STATS["unknown"] += 1
    return "unknown", None


RAY_SECONDS = 12.0


def _rays(ctx, rows, eps):
    """Counterexample search of executions with data-dependent selection: the inputs are
    t * v with v a fixed direction and the amplitude t in [1e-18, 1e12] symbolic, the residual
    is compared with 100 * eps * t.  (The verdict 'holds' comes from the full query.)"""
    n = ctx.n_inputs
    if np.abs(rows[:, 0]).max(initial=0) > TAU:
        return None
    rng = np.random.default_rng(11)
    dense = np.concatenate([[0.0], np.round(rng.uniform(0.2, 1, n) * rng.choice([-1, 1], n), 3)])
    dirs = [dense]
    dirs.append(dense * np.concatenate([[0.0], rng.integers(0, 3, n) == 0]))
    t0 = time.time()
    aux = np.abs(rows[:, n + 1 :]).sum(axis=1)
    order = np.argsort(-aux)[:24]
    for v in dirs:
        for r in rows[order[:: max(1, len(order) // 6)]]:
            if time.time() - t0 > RAY_SECONDS:
                return None

            def build(z, r=r):
                e, b = z.expr(r), z.t * z.num(100 * eps)
                return z.z3.Or(e > b, e < -b)

            verdict, x = solve(ctx, build, 3000, v)
            if verdict == "sat":
                return x
    return None


def zero(ctx, D, eps=EPS, batch=400, timeout_ms=60000):
    """Decide: for every x in the box, |Re D_r(x)| <= eps and |Im D_r(x)| <= eps for all rows.

    Returns ("holds", None) / ("cex", x) / ("unknown", None)."""
    D = np.asarray(D)
    D = D.reshape(-1, D.shape[-1])
    if not np.all(np.isfinite(D)):
        return "cex", np.concatenate([[1.0], np.full(ctx.n_inputs, 0.37)])
    if D.shape[-1] < ctx.K:
        from .lin import pad_cols

        D = pad_cols(D, ctx.K)
    rows = np.concatenate([D.real, D.imag], axis=0)
    rows = rows[np.any(rows != 0, axis=1)]
    if len(rows) == 0:
        rows = np.zeros((1, ctx.K))
    def count(rows):
        h = (np.abs(rows) >= TAU).sum(axis=1) + 1
        aux = np.any(rows[:, ctx.n_inputs + 1 :] != 0, axis=1) if rows.shape[1] > ctx.n_inputs + 1 else np.zeros(len(rows), bool)
        span = np.abs(rows[:, 0]) + ctx.box * np.abs(rows[:, 1:]).sum(axis=1)
        h[(span <= eps / 2) & ~aux] = 0
        return h, span

    if ctx.defs or ctx.path:
        x = _rays(ctx, rows, eps)
        if x is not None:
            return "cex", x
        timeout_ms = min(timeout_ms, 20000)
    heavy, span = count(rows)
    n_all = len(rows)
    if np.any(heavy == 0):
        # A row without defined variables ranges over [-b, b] with b = |c0| + box * sum |c_i|: among
        # the rows with small b, the one with the largest b stands for all of them.
        light = rows[heavy == 0]
        worst = light[int(np.argmax(span[heavy == 0]))]
        rows = np.concatenate([worst[None], np.unique(rows[heavy > 0], axis=0)], axis=0)
        heavy = np.concatenate([[0], count(rows[1:])[0]])
    weight = np.abs(rows).sum(axis=1)
    order = np.argsort(-weight)
    rows, heavy = rows[order], heavy[order]
    STATS["atoms"] += 2 * n_all
    i, verdict = 0, "holds"
    while i < len(rows):
        n = batch if heavy[i] == 0 else max(1, min(8, 4000 // (heavy[i] + 1)))
        chunk = rows[i : i + n]
        i += n

        def build(z, chunk=chunk):
            e = z.z3.RealVal(_q(eps))
            ds = []
            for r in chunk:
                t = z.expr(r)
                ds += [t > e, t < -e]
            return z.z3.Or(ds)

        v, x = solve(ctx, build, timeout_ms)
        if v == "sat":
            return "cex", x
        if v == "unknown":
            verdict = "unknown"
            break
    return verdict, None


def reachable(ctx, D, eps=1e-3):
    """Vacuity twin: some x in the box makes some entry of D non-trivial."""
    D = np.asarray(D).reshape(-1, np.shape(D)[-1])
    rows = np.concatenate([D.real, D.imag], axis=0)
    w = np.abs(rows[:, 1:]).sum(axis=1) if rows.shape[1] > 1 else np.zeros(len(rows))
    if not len(rows) or w.max() == 0:
        return False
    r = rows[int(np.argmax(w))]
    v, _ = solve(ctx, lambda z: z.expr(r) > z.z3.RealVal(_q(eps)))
    return v == "sat"

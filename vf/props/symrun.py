"""Runs one path-forking symbolic execution and discharges its obligations."""
import numpy as np

from .. import sym
from ..lin import NotEncodable

SHIM = (
    "samples.py/filters.py run as Python with symbolic numbers: numpy/jax.numpy/math are replaced by an object-array front "
    "end, jit is unwrapped, arithmetic is exact (rationals over the symbolic variables and square roots)"
)
INTEGRAL = (
    "the tiling integral is uninterpreted in these tasks: norm * kappa(a) with norm > 0 and kappa decreasing from "
    "kappa(1/lam) = 1 to kappa(1) = 0 (its code is executed symbolically in the 'integral' tasks of C06)"
)


class Raised(Exception):
    def __init__(self, e):
        super().__init__(f"{type(e).__name__}: {e}")
        self.orig = e


def code(fn, *a, **k):
    """Call the code under test."""
    try:
        return fn(*a, **k)
    except (NotEncodable, sym.Infeasible, sym.Budget):
        raise
    except Exception as e:
        raise Raised(e)


def explore(body, integral=True, extra=(), rounding=False, max_s=150.0, max_paths=6000, eps=sym.EPS, need=None):
    """body(engine) -> list of obligations: (label, "zero", values) | (label, op, value) |
    (label, "true", bool).  need: number of paths below which the task is vacuous."""
    eng = sym.Engine(max_paths=max_paths, max_s=max_s)
    eng.rounding = rounding
    n_ob = 0
    status, detail = "holds", None
    with sym.patched(integral=integral, extra=extra):
        for kind, val in eng.explore(body):
            if kind == "raise":
                return {"status": "cex", "x": eng.model(None), "detail": f"raised {val}"}
            for ob in val:
                label, op, x = ob
                n_ob += 1
                if op == "true":
                    v, m = ("holds", None) if x else ("cex", eng.model(None))
                elif op == "some_ne":
                    v, m = eng.prove_some_ne(x)
                elif op == "zero":
                    v, m = eng.prove_zero(x, eps)
                    n_ob += len(x) - 1
                else:
                    v, m = eng.prove(op, x)
                if v == "cex":
                    return {"status": "cex", "x": m, "detail": f"{label} (path {eng.npaths}, {eng.point()})"}
                if v != "holds":
                    status, detail = "unknown", f"{label}: solver gave no verdict"
    if not eng.complete and status == "holds":
        status, detail = "unknown", f"{eng.npaths} paths explored, not all"
    r = {"status": status, "counts": {"paths": eng.npaths, "assertions": n_ob},
         "nontrivial": eng.npaths >= (need or 1) and n_ob > 0}
    if detail:
        r["detail"] = detail
    return r


def flat(a):
    return list(np.asarray(a, dtype=object).ravel())


def shape_ob(label, got, want):
    g = tuple(np.shape(got))
    return (f"{label}: shape {g} instead of {tuple(want)}", "true", g == tuple(want))


def join(results):
    """One verdict for several explorations."""
    out = {"status": "holds", "counts": {}, "nontrivial": True}
    for r in results:
        if r["status"] == "cex":
            return r
        if r["status"] != "holds":
            out["status"], out["detail"] = r["status"], r.get("detail")
        for k, v in r.get("counts", {}).items():
            out["counts"][k] = out["counts"].get(k, 0) + v
        out["nontrivial"] &= bool(r.get("nontrivial"))
    return out

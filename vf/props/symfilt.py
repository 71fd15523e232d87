"""Shared parts of the filter properties C02, C03, C06."""
from fractions import Fraction
from math import comb

import numpy as np

from . import symrun as R
from .. import model, sym

GENS = {
    "loop": "filters_directional",
    "vec": "filters_directional_vectorised",
    "jax": "filters_directional_jax",
}
AXI = {"loop": "filters_axisym", "vec": "filters_axisym_vectorised", "jax": "filters_axisym_jax"}
LAMS = (2.0, 3.0, 1.5, 2.5, 1.3, 4.0, 5.0, 7.0, 1.75, 1.2)
ZEROS = ("on a path of the looped generators at most one value of the generating function inside its support is exactly zero "
         "(tests like kappa != 0 otherwise double the paths per multipole)")


def params(e, t):
    """(lam, J) with J_min < J (other paths are outside the precondition)."""
    lam = e.main_real("lam", Fraction(t["lo"]), t["hi"])
    J = sym.LogRatio(sym.S(t["L"]), lam)._exact()
    if J <= t["J_min"]:
        raise sym.Infeasible()
    return lam, J


def generate(t, lam):
    """(psi, phi) of the generator of the task, as the code returns them."""
    from s2wav import filters

    g = t["gen"]
    if t.get("axi"):
        return R.code(getattr(filters, AXI[g]), t["L"], t["J_min"], lam)
    a = (t["L"], t["N"], t["J_min"], lam, t.get("spin", 0), t.get("spin0", 0))
    if g != "jax" and t.get("torch"):
        return R.code(getattr(filters, GENS[g]), *a, True)
    return R.code(getattr(filters, GENS[g]), *a)


def real_filters(t, lam):
    psi, phi = generate(t, lam)
    return np.asarray(psi), np.asarray(phi)


def iszero(v):
    return not isinstance(v, sym.Sym) and v == 0


def k_spec(e, j, l, lam, n=300):
    """The documented generating function k_lam(l / lam^j)."""
    if sym.S(l) < sym.S(lam) ** (j - 1):
        return 1
    if sym.S(l) >= sym.S(lam) ** j:
        return 0
    nrm = e.integral(sym.S(1) / lam, 1.0, n, lam)
    return e.integral(sym.S(l) / sym.S(lam) ** j, 1.0, n, lam) / nrm


def tiling_spec(l, m, N):
    if l == 0:
        return 0.0
    g = min(N - 1, l if (N + l) % 2 else l - 1)
    if abs(m) > g or (g - m) % 2:
        return 0.0
    return (1.0 if N % 2 else 1j) * float(np.sqrt(comb(g, (g - m) // 2) / 2**g))


def lams(t, x):
    """Scale factors for a replay: the solver's, else a spread of values inside the task's range."""
    if x and "lam" in x:
        v = float(x["lam"])
        out = [v]
        if abs(v - round(v)) > 1e-9:
            out += [v * (1 + 1e-6), v * (1 - 1e-6)]  # a pinned irrational root: both sides of it
        return out
    return [v for v in LAMS if t["lo"] < v <= t["hi"] and model.j_max(t["L"], v) > t["J_min"]]


def cost(t):
    L = t.get("L", 6)
    return L**2.5 * {"loop": 10, "vec": 1, "jax": 1.3}.get(t.get("gen"), 1) * (1 if t.get("axi") else 2)


WINDOWS = [  # (L, lam interval): large band-limits, lam over a narrow interval around common values
    (14, 1.95, 2.05), (16, 1.98, 2.02), (16, 3.9, 4.1), (17, 1.98, 2.02), (20, 2.4, 2.6), (25, 4.9, 5.1), (27, 2.95, 3.05),
    (28, 2.97, 3.03), (32, 1.97, 2.03), (33, 1.99, 2.01), (24, 1.48, 1.52), (36, 5.9, 6.1), (48, 6.8, 7.2),
]
WINDOWS_BIG = [
    (40, 1.48, 1.52), (49, 6.9, 7.1), (64, 1.99, 2.01), (64, 3.95, 4.05), (65, 1.995, 2.005), (81, 2.98, 3.02), (100, 9.5, 10.5),
    (100, 1.995, 2.005), (128, 1.998, 2.002), (50, 1.195, 1.205), (31, 1.24, 1.26),
]


HIGH_N = [(9, 1.97, 2.03), (13, 2.97, 3.03), (14, 3.97, 4.03), (16, 3.95, 4.05), (21, 4.95, 5.05)]


def windows(q, loop_max=33):
    """Task skeletons (gen, L, N, J_min, spin, spin0, lo, hi) at large L."""
    spins = (0, 1, -1, 3, -3, 2, -2, 4, -5)
    Ns = (1, 2, 5, 3, 8, 4, 12, 6, 7, 10)
    k = 0
    for L, lo, hi in WINDOWS + ([] if q else WINDOWS_BIG):
        for gen in ("vec", "jax", "loop"):
            for axi in (True, False):
                if gen == "loop" and not axi and L > (17 if q else loop_max):
                    continue
                k += 1
                t = dict(gen=gen, L=L, J_min=(k + L) % 4 % max(1, J_low(L, hi)), lo=lo, hi=hi)
                if axi:
                    yield dict(t, axi=True)
                else:
                    yield dict(t, N=min(Ns[(k * 3 + L) % len(Ns)], L), spin=spins[(k + L) % len(spins)],
                               spin0=spins[(k + L) % 7] if k % 2 else 0)
    for i, (L, lo, hi) in enumerate(HIGH_N):
        for g, gen in enumerate(("vec", "jax", "loop")):
            if gen == "loop" and L > (16 if q else loop_max):
                continue
            for h, N in enumerate((L - 1, L, L + 2, 2 * L)):
                if q and (h + i + g) % 2:
                    continue
                yield dict(gen=gen, L=L, J_min=(i + h) % max(1, J_low(L, hi)), lo=lo, hi=hi, N=N, spin=spins[(i + h) % 7] if h % 2 else 0,
                           spin0=spins[(i + g) % 5] if h == 3 else 0)


def J_low(L, hi):
    from .. import model

    return model.j_max(L, hi)

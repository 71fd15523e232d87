"""Directional tiling: unit energy, azimuthal band-limit, parity, reality, exact binomial values."""
from math import comb

import numpy as np

from . import symfilt as F
from . import symrun as R
from .. import sym

ID = "C19"
FUNCTIONS = ["s2wav.filters.{tiling_direction,tiling_direction_jax}", "s2wav.samples.{binomial_coefficient,binomial_coefficient_jax}"]
EXPLANATION = (
    "Each task executes one tiling function for one band-limit with N a symbolic integer, forking on every comparison and "
    "concretising N only where the code needs its value (the solver enumerates the feasible ones); each path asserts unit energy "
    "per degree, the azimuthal band-limit and parity, the symmetry s_{l,-m} = (-1)^m conj(s_{lm}) of a real wavelet, and equality with exact binomials."
)
BOUNDS = "L 2..12, N 1..L+3 symbolic; L 24..48 at selected N, L 66, 70 with N 63..66 (thorough: L to 24, L=130 with N near 128)"
ASSUMPTIONS = [R.SHIM, "log-gamma is evaluated by the real library on the concrete arguments of the path"]
FNS = {"np": "tiling_direction", "jax": "tiling_direction_jax"}


def cost(t):
    return t["L"] ** 2 * (t["hi"] - t["lo"] + 1)


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for fn in FNS:
        for L in range(2, 13 if q else 25):
            out.append(dict(fn=fn, L=L, lo=1, hi=L + 3))
        out += [dict(fn=fn, L=66, lo=N, hi=N) for N in (63, 64, 65)] + [dict(fn=fn, L=70, lo=66, hi=66)]
        mid = [(24, 14), (24, 21), (32, 25), (32, 31), (40, 20), (40, 29), (40, 30), (40, 34), (40, 40), (48, 33), (48, 47)]
        if not q:
            mid += [(L, N) for L in (20, 28, 36, 44, 56) for N in range(3, L + 2, 4)]
        out += [dict(fn=fn, L=L, lo=N, hi=N) for L, N in mid]
        if not q:
            out += [dict(fn=fn, L=130, lo=N, hi=N) for N in (127, 128)]
    return out


def run(t):
    from s2wav import filters

    L = t["L"]

    def body(e):
        N = e.int("N", t["lo"], t["hi"]) if t["lo"] < t["hi"] else t["lo"]
        s = R.code(getattr(filters, FNS[t["fn"]]), L, N)
        obs = [R.shape_ob("tiling", s, (L, 2 * L - 1))]
        if not obs[0][2]:
            return obs
        N = N.concretise() if isinstance(N, sym.Sym) else N
        energy, sy, val = [], [], []
        for l in range(L):
            if l:
                energy.append(sum((sym.S(v).abs2() for v in s[l]), sym.S(0)) - 1)
            for m in range(-L + 1, L):
                v = s[l, L - 1 + m]
                w = F.tiling_spec(l, m, N) if abs(m) <= l else 0.0
                if not (F.iszero(v) and w == 0):
                    val.append(sym.S(v) - w)
                    sy.append(sym.S(s[l, L - 1 - m]) - sym.S(v).conjugate() * (-1) ** m)
        return obs + [("unit energy", "zero", energy), ("reality symmetry", "zero", sy), ("binomial values", "zero", val)]

    return R.explore(body, max_s=200)


def concrete(t, x):
    from s2wav import filters

    L = t["L"]
    for N in [x["N"]] if x and "N" in x else range(t["lo"], t["hi"] + 1):
        s = np.asarray(getattr(filters, FNS[t["fn"]])(L, N))
        w = np.array([[F.tiling_spec(l, m, N) if abs(m) <= l else 0 for m in range(-L + 1, L)] for l in range(L)])
        if s.shape != w.shape:
            return True, f"shape {s.shape} for L={L}, N={N}"
        if not np.all(np.isfinite(s)) or np.max(np.abs(s - w)) > 1e-9:
            return True, f"{FNS[t['fn']]}({L}, {N}) differs from the exact binomial values by {np.max(np.abs(s-w)):.3g}"
    return False, "tiling as specified"

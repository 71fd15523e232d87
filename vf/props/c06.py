"""The filter generators agree with the documented construction (and so with one another)."""
from fractions import Fraction

import numpy as np

from . import symfilt as F
from . import symrun as R
from .. import model, sym

ID = "C06"
FUNCTIONS = [
    "s2wav.filters.{filters_directional,filters_directional_vectorised,filters_directional_jax,filters_axisym,"
    "filters_axisym_vectorised,filters_axisym_jax,k_lam,k_lam_jax,tiling_direction,tiling_direction_jax,"
    "_spin_normalization,_spin_normalization_vectorised,_spin_normalization_jax}",
    "s2wav.filters.{part_scaling_fn,_part_scaling_fn_jax,tiling_integrand} (integral tasks)",
    "s2wav.samples.{j_max,binomial_coefficient,binomial_coefficient_jax}",
]
EXPLANATION = (
    "Each 'gen' task runs one generator with lam a symbolic real and the tiling integral uninterpreted, and asks z3 on every path "
    "for values at which some filter differs by more than 1e-9 from the documented formula written independently. 'integral' "
    "tasks execute the quadrature itself with symbolic limit and lam (exp uninterpreted) against the trapezium rule on the "
    "documented integrand."
)
BOUNDS = ("real lam in (1.3,8] for L <= 8, (1.6,8] for L 9..12 (axisymmetric to 14); L 2..12 vectorised/JAX, 2..6 looped; N 1..L+1, "
          "J_min 0..2, spin -2..2, spin0 -2..2; quadrature with 2..5 steps, lower limit 1/lam or in [1/lam + 1e-6/lam, 1-1e-6]; thorough: lam in (1.15,16], L to 18, 8 steps; windows of lam of width 0.02..0.4 around common values at L 14..48 (thorough to 128), and with N up to 2L at L 9..21")
ASSUMPTIONS = [R.SHIM, R.INTEGRAL, F.ZEROS, "quadrature tasks: exp is an uninterpreted positive function (equal arguments give equal values)"]


def cost(t):
    return 30 * t["n"] if t["kind"] == "integral" else F.cost(t)


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for n in (2, 3, 4, 5) if q else (2, 3, 4, 5, 6, 8):
        for fn in ("part_scaling_fn", "_part_scaling_fn_jax"):
            for at in ("any", "norm") + (("one",) if n == 3 else ()):
                out.append(dict(kind="integral", fn=fn, n=n, at=at))
    for L in range(2, (14 if q else 20) + 1):
        for gen in ("vec", "jax", "loop"):
            lo, hi = (1.3, 8) if L <= 8 else (1.6, 8)
            if not q:
                lo, hi = (1.15, 16) if L <= 10 else (1.3, 16)
            for J_min in range(3):
                out.append(dict(kind="gen", gen=gen, axi=True, L=L, J_min=J_min, lo=lo, hi=hi))
            if (gen == "loop" and L > (6 if q else 9)) or L > (12 if q else 18):
                continue
            Ns = sorted({1, 2, 3, L, L + 1, min(L, 2 + L % 4)}) if L <= 8 else [1 + L % 4, 2 + L % 5]
            if q and gen == "loop" and L == 6:
                Ns = Ns[::2]
            for i, N in enumerate(Ns):
                J_min = (i + L) % 3 if L > 2 else 0
                s0 = (0, 1, -1, 2, -2)[(i + L) % 5]
                s0 = s0 if abs(s0) < L else 0
                spin = (0, s0, 2, -1)[(i + L // 2) % 4]
                spin = spin if abs(spin) < L else 0
                out.append(dict(kind="gen", gen=gen, L=L, N=N, J_min=J_min, spin=spin, spin0=s0, lo=lo, hi=hi,
                                torch=bool((i + L) % 3 == 0 and gen != "jax")))
    for t in F.windows(q):
        out.append(dict(t, kind="gen", torch=False))
    return out


def run(t):
    return run_integral(t) if t["kind"] == "integral" else run_gen(t)


def run_gen(t):
    L, J_min = t["L"], t["J_min"]
    axi = bool(t.get("axi"))

    def body(e):
        lam, J = F.params(e, t)
        psi, phi = F.generate(t, lam)
        obs = [R.shape_ob("psi", psi, (J + 1, L) if axi else (J + 1, L, 2 * L - 1)), R.shape_ob("phi", phi, (L,))]
        if not all(o[2] for o in obs):
            return obs
        cut = 0 if axi else max(abs(t["spin"]), abs(t["spin0"]))

        def root(x):
            return float(np.sqrt(x)) if not isinstance(x, sym.Sym) else x.sqrt()

        xs = []
        for l in range(L):
            w = 0.0
            if l >= cut:
                w = root(F.k_spec(e, J_min, l, lam))
                if not axi:
                    w = w * float(np.sqrt((2 * l + 1) / (4 * np.pi)) * model.spin_norm(l, t["spin0"]))
            xs.append(phi[l] - sym.S(w))
        obs.append(("scaling function", "zero", xs))
        for j in range(J_min, J + 1):
            xs = []
            for l in range(L):
                w = root(F.k_spec(e, j + 1, l, lam) - F.k_spec(e, j, l, lam)) if l >= cut else 0.0
                if axi:
                    xs.append(sym.S(psi[j, l]) - sym.S(w))
                    continue
                c = float(np.sqrt((2 * l + 1) / (8 * np.pi**2)) * model.spin_norm(l, t["spin0"]))
                for m in range(-L + 1, L):
                    v, s = psi[j, l, L - 1 + m], F.tiling_spec(l, m, t["N"]) if abs(m) <= l else 0.0
                    if F.iszero(v) and (s == 0 or (F.iszero(w))):
                        continue
                    xs.append(sym.S(v) - sym.S(w) * sym.S(c * s))
            obs.append((f"wavelet j={j}", "zero", xs))
        return obs

    return R.explore(body, max_s=200, need=2)


def run_integral(t):
    from s2wav import filters

    n = t["n"]

    def body(e):
        lam = e.real("lam", 1.05, 64)
        if t["at"] == "one":
            return [("empty range", "zero", [sym.S(R.code(getattr(filters, t["fn"]), 1.0, 1.0, n, lam))])]
        if t["at"] == "norm":
            a = sym.S(1) / lam
        else:
            a = e.real("a", 0, Fraction(10**6 - 1, 10**6))
            e.assume("ge", (a * lam - 1 - Fraction(1, 10**6)).re)
        got = R.code(getattr(filters, t["fn"]), a, 1.0, n, lam)
        want = sym.S(0)
        h = (sym.S(1) - a) / n
        if True:
            f = []
            for i in range(n + 1):
                x = a + h * i
                if x * lam == 1 or x == 1:
                    f.append(None)  # the integrand vanishes at the ends of its support
                    continue
                s = (x - sym.S(1) / lam) * (lam * 2 / (lam - 1)) - 1
                f.append(e.exp(sym.S(-2) / (sym.S(1) - s * s)) / x)
            for i in range(n):
                if f[i] is not None and f[i + 1] is not None:
                    want = want + (f[i] + f[i + 1]) * h / 2
        return [("quadrature", "zero", [sym.S(got) - want])]

    return R.explore(body, integral=False, max_s=200)


def concrete(t, x):
    from s2wav import filters

    if t["kind"] == "integral":
        lams = [x["lam"]] if x and "lam" in x else [2.0, 3.0, 1.5, 5.0]
        for lam in lams:
            pts = ([x["a"]] if x and "a" in x else [1 / lam]) + [1.0]
            pts += [1 / lam + (1 - 1 / lam) * f for f in (0.13, 0.37, 0.5, 0.77)]
            for a in pts:
                got = float(getattr(filters, t["fn"])(a, 1.0, 300, lam))
                want = model._trap(a, lam)
                if not abs(got - want) <= 1e-9:
                    return True, f"{t['fn']}({a}, 1, 300, {lam}) = {got}, trapezium rule gives {want}"
        return False, "quadrature as documented at the replayed points"
    L, J_min = t["L"], t["J_min"]
    for lam in F.lams(t, x):
        psi, phi = F.real_filters(t, lam)
        if t.get("axi"):
            k = model.k_lam(L, float(lam))
            wpsi, wphi = np.sqrt(np.maximum(k[1:] - k[:-1], 0)), np.sqrt(k[J_min])
        else:
            wpsi, wphi = model.filters(L, t["N"], J_min, float(lam), t["spin"], t["spin0"])
        for nm, g, w in (("psi", psi, wpsi), ("phi", phi, wphi)):
            if g.shape != w.shape:
                return True, f"{nm} of shape {g.shape} instead of {w.shape} at lam={lam}"
            g, w = (g[J_min:], w[J_min:]) if nm == "psi" else (g, w)
            d = np.max(np.abs(g - w))
            if not d <= 1e-6 * max(1.0, np.max(np.abs(w))) if not _clean(t, lam) else not d <= 1e-9 * max(1.0, np.max(np.abs(w))):
                return True, f"{t['gen']} {nm} differs from the documented formula by {d:.3g} at lam={lam} {t}"
    return False, "filters as documented at the replayed parameters"


def _clean(t, lam):
    """No multipole sits within rounding distance of a power of lam (where sqrt amplifies it)."""
    L = t["L"]
    return all(abs(l - lam**j) > 1e-6 or float(lam).is_integer() for l in range(1, L) for j in range(0, 14))

"""Admissibility of the filters."""
import numpy as np

from . import symfilt as F
from . import symrun as R
from .. import sym

ID = "C02"
FUNCTIONS = [
    "s2wav.filters.{filters_directional,filters_directional_vectorised,filters_directional_jax,filters_axisym,"
    "filters_axisym_vectorised,filters_axisym_jax,k_lam,k_lam_jax,tiling_direction,tiling_direction_jax,"
    "part_scaling_fn,tiling_integrand}", "s2wav.samples.{j_max,binomial_coefficient,binomial_coefficient_jax}",
]
EXPLANATION = (
    "Each task runs one filter generator with lam a symbolic real, forking on every comparison of a multipole with a power of "
    "lam; the tiling integral is an uninterpreted decreasing function. On every path z3 is asked for values at which "
    "4pi/(2l+1) |phi_l|^2 + 8pi^2/(2l+1) sum_jm |psi_jlm|^2 differs from 1 by more than 1e-9 for some l >= |spin|. 'round' tasks "
    "execute the tiling integral with every floating-point result perturbed by up to one rounding error and ask for limits and "
    "lam at which it divides by zero or exponentiates a positive number (infinite filters)."
)
BOUNDS = ("real lam in (1.3,8] (L <= 8; axisymmetric L <= 16), (1.6,8] above; L 2..12 directional vectorised/JAX, 2..7 looped; "
          "N 1..L+1; J_min 0..3; spin -2..2; thorough: lam in (1.15,16], L to 20; windows of lam of width 0.02..0.4 around common values at L 14..48 (thorough to 128), and with N up to 2L at L 9..21")
ASSUMPTIONS = [R.SHIM, R.INTEGRAL, F.ZEROS, "the binomial coefficients are evaluated by the real code on their concrete arguments"]


def cost(t):
    return 5 if t["kind"] == "round" else F.cost(t)


def tasks(tier, seed):
    q = tier == "quick"
    out = [dict(kind="round", n=n, side=s) for n, s in [(1, "any"), (1, "norm"), (2, "norm")] + ([] if q else [(2, "any"), (3, "norm")])]
    top = 12 if q else 20
    for L in range(2, top + 1):
        for gen in ("vec", "jax", "loop"):
            lo, hi = (1.3, 8) if L <= 8 else (1.6, 8)
            if not q:
                lo, hi = (1.15, 16) if L <= 10 else (1.3, 16)
            for J_min in range(4):
                if J_min == 3 and L < 6:
                    continue
                out.append(dict(kind="adm", gen=gen, axi=True, L=L, J_min=J_min, lo=lo, hi=hi))
            if gen == "loop" and L > (6 if q else 10):
                continue
            Ns = sorted({1, 2, 3, L, L + 1, min(L, 2 + L % 4)}) if L <= 8 else [1 + L % 4, 2 + L % 5]
            if q and gen == "loop" and L == 6:
                Ns = Ns[::2]
            for i, N in enumerate(Ns):
                J_min = (i + L) % 3
                spin = (0, 1, -2, 2, -1)[(i + L) % 5]
                spin = spin if abs(spin) < L else 0
                if L ** 1 < 3 and J_min:
                    J_min = 0
                out.append(dict(kind="adm", gen=gen, L=L, N=N, J_min=J_min, spin=spin, lo=lo, hi=hi))
    for t in F.windows(q):
        t.pop("spin0", None)
        out.append(dict(t, kind="adm"))
    return out


def run(t):
    if t["kind"] == "round":
        return run_round(t)

    def body(e):
        lam, J = F.params(e, t)
        psi, phi = F.generate(t, lam)
        L = t["L"]
        obs = [R.shape_ob("psi", psi, (J + 1, L) if t.get("axi") else (J + 1, L, 2 * L - 1)), R.shape_ob("phi", phi, (L,))]
        if not all(o[2] for o in obs):
            return obs
        xs = []
        for l in range(abs(t.get("spin", 0)), L):
            a, b = (1.0, 1.0) if t.get("axi") else (4 * np.pi / (2 * l + 1), 8 * np.pi**2 / (2 * l + 1))
            s = sym.S(phi[l]).abs2() * a
            for j in range(t["J_min"], J + 1):
                for v in np.ravel(psi[j, l]):
                    if not F.iszero(v):
                        s = s + sym.S(v).abs2() * b
            xs.append(s - 1)
        return obs + [("admissibility", "zero", xs)]

    return R.explore(body, max_s=200, need=2)


def run_round(t):
    from s2wav import filters

    def body(e):
        lam = e.real("lam", 1.05, 64)
        e.fp = True
        e.exp_args = []
        a = sym.S(1) / lam if t["side"] == "norm" else e.real("a", 0, 1)
        if t["side"] != "norm":
            e.assume("ge", (a * lam - 1).re)
        R.code(filters.part_scaling_fn, a, 1.0, t["n"], lam)
        return [("exponent of the tiling function is not positive", "le", x) for x in e.exp_args]

    return R.explore(body, integral=False, max_s=220)


def sums(t, lam):
    psi, phi = F.real_filters(t, lam)
    el = np.arange(t["L"])
    if t.get("axi"):
        return np.abs(phi) ** 2 + (np.abs(psi[t["J_min"]:]) ** 2).sum(0)
    return 4 * np.pi / (2 * el + 1) * np.abs(phi) ** 2 + 8 * np.pi**2 / (2 * el + 1) * (np.abs(psi[t["J_min"]:]) ** 2).sum((0, 2))


def concrete(t, x):
    if t["kind"] == "round":
        cases = [dict(gen=g, axi=True, L=L, J_min=0, lo=1.05, hi=64) for g in F.AXI for L in (9, 12)]
        ls = ([float(x["lam"])] if x and "lam" in x and np.isfinite(float(x["lam"])) else [])
        ls += list(range(2, 13)) + [1.3, 1.5, 2.5, 3.3, 6.13352627078959, 6.711564650481881, 2.2, 1.7]
    else:
        cases, ls = [t], F.lams(t, x)
    for c in cases:
        for lam in ls:
            from .. import model

            if model.j_max(c["L"], lam) <= c["J_min"]:
                continue
            s = sums(c, lam)[abs(c.get("spin", 0)):]
            if not np.all(np.isfinite(s)):
                return True, f"{c['gen']} filters not finite: L={c['L']}, J_min={c['J_min']}, lam={lam}"
            if np.max(np.abs(s - 1), initial=0) > 1e-8:
                return True, f"{c['gen']} filters: admissibility sum off by {np.max(np.abs(s-1)):.3g} at L={c['L']}, N={c.get('N')}, J_min={c['J_min']}, lam={lam}, spin={c.get('spin', 0)}"
    return False, "admissible at the replayed parameters"

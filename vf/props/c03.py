"""Compact harmonic support of the filters; band-limits cover it."""
import numpy as np

from . import symfilt as F
from . import symrun as R
from .. import model, sym

ID = "C03"
FUNCTIONS = [
    "s2wav.filters.{filters_directional,filters_directional_vectorised,filters_directional_jax,k_lam,k_lam_jax,"
    "tiling_direction,tiling_direction_jax,filters_axisym*}", "s2wav.samples.{LN_j,scal_bandlimit,wav_j_bandlimit,L0_j,j_max}",
]
EXPLANATION = (
    "Each task runs one filter generator and the band-limit functions with lam a symbolic real. On every path z3 is asked for "
    "parameters at which a filter value outside the documented support (l outside (lam^(j-1), lam^(j+1)), order |m| >= N, of the "
    "wrong parity or above l, l below |spin|, scaling function at l >= lam^J_min) exceeds 1e-9, or at which a non-zero filter value lies "
    "outside the multipoles L0_j <= l < L_j, orders |n| < N_j or scaling band-limit that the transforms use."
)
BOUNDS = "real lam in (1.3,8] for L <= 8, (1.6,8] for L 9..12; L 2..12 vectorised/JAX, 2..6 looped; N 1..L+1, J_min 0..2, spin -2..2, spin0 0 or spin; thorough: lam in (1.15,16], L to 18; windows of lam of width 0.02..0.4 around common values at L 14..48 (thorough to 128), and with N up to 2L at L 9..21"
ASSUMPTIONS = [R.SHIM, R.INTEGRAL, F.ZEROS]
cost = F.cost


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for L in range(2, (12 if q else 18) + 1):
        for gen in ("vec", "jax", "loop"):
            lo, hi = (1.3, 8) if L <= 8 else (1.6, 8)
            if not q:
                lo, hi = (1.15, 16) if L <= 10 else (1.3, 16)
            if gen == "loop" and L > (6 if q else 9):
                continue
            Ns = sorted({1, 2, 3, L, L + 1, min(L, 2 + L % 4)}) if L <= 8 else [1 + L % 4, 2 + L % 5]
            if q and gen == "loop" and L == 6:
                Ns = Ns[::2]
            for i, N in enumerate(Ns):
                J_min = (i + L + 1) % 3 if L > 2 else 0
                spin = (0, -1, 2, 1, -2)[(i + L) % 5]
                spin = spin if abs(spin) < L else 0
                spin0 = spin if (i + L) % 2 else 0
                out.append(dict(kind="sup", gen=gen, L=L, N=N, J_min=J_min, spin=spin, spin0=spin0, lo=lo, hi=hi))
    for t in F.windows(q):
        if not t.get("axi"):
            out.append(dict(t, kind="sup"))
    return out


def run(t):
    from s2wav import samples

    L, N, J_min = t["L"], t["N"], t["J_min"]
    cut = max(abs(t["spin"]), abs(t["spin0"]))

    def body(e):
        lam, J = F.params(e, t)
        psi, phi = F.generate(t, lam)
        obs = [R.shape_ob("psi", psi, (J + 1, L, 2 * L - 1)), R.shape_ob("phi", phi, (L,))]
        if not all(o[2] for o in obs):
            return obs
        zero, top = [], -1
        Ls = R.code(samples.scal_bandlimit, L, J_min, lam, True)
        for l in range(L):
            if F.iszero(phi[l]):
                continue
            if l < cut or not sym.S(l) < lam**J_min:
                zero.append(phi[l])
            else:
                top = l
        if top >= 0:
            obs.append((f"scaling band-limit above l={top}", "gt", sym.S(Ls) - top))
        obs.append(("scaling function outside its support or band-limit", "zero", zero))
        for j in range(J_min, J + 1):
            zero, ins = [], []
            Lj, Nj, L0 = R.code(samples.LN_j, L, j, N, lam, True)
            for l in range(L):
                row = psi[j, l]
                nz = [m for m in range(2 * L - 1) if not F.iszero(row[m])]
                if not nz:
                    continue
                out = l < cut or not (sym.S(l) > lam ** (j - 1)) or not (sym.S(l) < lam ** (j + 1))
                top = -1
                for m in nz:
                    n = m - (L - 1)
                    if out or abs(n) >= N or abs(n) > l or (N + n) % 2 == 0:
                        zero.append(row[m])
                    else:
                        top = max(top, abs(n))
                if top >= 0:
                    ins.append((l, top))
            if ins:
                a, b, n = min(ins)[0], max(ins)[0], max(x[1] for x in ins)
                obs.append((f"L_j above l={b} at j={j}", "gt", sym.S(Lj) - b))
                obs.append((f"L0_j not above l={a} at j={j}", "le", sym.S(L0) - a))
                obs.append((f"N_j above |n|={n} at j={j}", "gt", sym.S(Nj) - n))
            obs.append((f"wavelet j={j} outside its support or band-limits", "zero", zero))
        return obs

    return R.explore(body, max_s=200, need=2)


def concrete(t, x):
    from s2wav import samples

    L, N, J_min = t["L"], t["N"], t["J_min"]
    cut = max(abs(t["spin"]), abs(t["spin0"]))
    tol = 1e-6
    for lam in F.lams(t, x):
        psi, phi = F.real_filters(t, lam)
        J = model.j_max(L, lam)
        if psi.shape != (J + 1, L, 2 * L - 1) or phi.shape != (L,):
            return True, f"shapes {psi.shape}, {phi.shape} at lam={lam}"
        Ls = samples.scal_bandlimit(L, J_min, lam, True)
        for l in range(L):
            if (l < cut or l >= lam**J_min or l >= Ls) and not abs(phi[l]) <= tol:
                return True, f"phi[{l}] = {phi[l]:.3g} outside its support/band-limit {Ls} at lam={lam} {t}"
        for j in range(J_min, J + 1):
            Lj, Nj, L0 = samples.LN_j(L, j, N, lam, True)
            for l in range(L):
                for n in range(-L + 1, L):
                    out = l < cut or l <= lam ** (j - 1) or l >= lam ** (j + 1) or l >= Lj or l < L0
                    out = out or abs(n) >= N or abs(n) > l or (N + n) % 2 == 0 or abs(n) >= Nj
                    if out and not abs(psi[j, l, L - 1 + n]) <= tol:
                        return True, f"psi[{j},{l},{n}] = {psi[j, l, L-1+n]:.3g} outside support/band-limits (L_j={Lj}, N_j={Nj}, L0_j={L0}) at lam={lam} {t}"
    return False, "support as documented at the replayed parameters"

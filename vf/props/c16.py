"""Scale arithmetic: number of scales and band-limits of every scale."""
from fractions import Fraction

from . import symrun as R
from .. import model, sym

ID = "C16"
FUNCTIONS = ["s2wav.samples.{j_max,n_wav_scales,L0_j,LN_j,wav_j_bandlimit,scal_bandlimit}"]
EXPLANATION = (
    "Each 'lam' task executes the band-limit functions for one band-limit with lam a symbolic real and N, J_min symbolic "
    "integers, forking on every branch; each 'L' task has one lam and L, N, J_min symbolic integers. On every path z3 is asked "
    "for parameters at which J is not the least integer with lam^J >= L or a band-limit differs from its closed form; the "
    "quotient of floating-point logarithms may round to either side of an exact integer."
)
BOUNDS = "lam tasks: L 2..20 and 24,32,48,64, real lam in (1.2,16], N 1..2L; L tasks: lam in {2,3,1.5,2.5,1.3,4,5,6,7,10}, L 2..4096, N 1..4096; thorough: L 2..64,128,256, lam in (1.05,64], L to 10^6"
ASSUMPTIONS = [R.SHIM]


def cost(t):
    return t.get("L", 30) + (10 if t["what"] == "band" else 0)


LAMS = (2, 3, 1.5, 2.5, 1.3, 4, 5, 6, 7, 10)


def tasks(tier, seed):
    q = tier == "quick"
    Ls = list(range(2, 21)) + [24, 32, 48, 64] if q else list(range(2, 65)) + [100, 128, 200, 256]
    out = []
    for L in Ls:
        out.append(dict(kind="lam", what="J", L=L, lo=1.2 if q else 1.05, hi=16 if q else 64))
        out.append(dict(kind="lam", what="band", L=L, lo=1.05, hi=64, js=list(range(8 if q else 20))))
    lams = LAMS if q else LAMS + (1.1, 1.2, 1.7, 2.2, 3.5, 8, 9, 12, 16, 2.718281828459045, 3.141592653589793)
    for lam in lams:
        hi = 4096 if q else 10**6
        out.append(dict(kind="L", what="J", lam=lam, hi=hi))
        out.append(dict(kind="L", what="band", lam=lam, hi=hi, js=list(range(8 if q else 20))))
    return out


def spec(e, L, N, lam, j, mr):
    j = max(j, 1)
    if not mr:
        return L, N, 0
    c = sym.S(lam) ** (j + 1)
    Lj = e.ceil(c)
    if Lj > L:
        Lj = L
    Nj = N if N <= Lj else Lj
    if (sym.S(Nj) + N) % 2:
        Nj = Nj + 1
    L0 = e.ceil(sym.S(lam) ** (j - 1))
    if not L0 <= Lj - 1:
        L0 = Lj - 1
    return Lj, Nj, L0


def params(e, t):
    if t["kind"] == "lam":
        L, lam = t["L"], e.main_real("lam", Fraction(t["lo"]), t["hi"])
        N = e.int("N", 1, 2 * L)
    else:
        lam = t["lam"]
        L = e.int("L", 2, t["hi"])
        N = e.int("N", 1, t["hi"])
    return L, N, lam


def run(t):
    from s2wav import samples

    def jmax(e):
        L, N, lam = params(e, t)
        J = R.code(samples.j_max, L, lam)
        if isinstance(J, sym.Sym):
            J = J.concretise()
        obs = [("J >= 0", "ge", J), ("lam^J >= L", "ge", sym.S(lam) ** J - L)]
        if J > 0:
            obs.append(("lam^(J-1) < L", "lt", sym.S(lam) ** (J - 1) - L))
        for J_min in range(0, max(J, 0)):
            n = R.code(samples.n_wav_scales, L, N, J_min, lam)
            obs.append((f"number of scales from J_min={J_min}", "eq", sym.S(n) - (J - J_min + 1)))
        return obs

    def band(e, j):
        L, N, lam = params(e, t)
        obs = []
        for mr in (True, False):
            got = R.code(samples.LN_j, L, j, N, lam, mr)
            want = spec(e, L, N, lam, j, mr)
            for nm, g, w in zip(("L_j", "N_j", "L0_j"), got, want):
                obs.append((f"{nm} at j={j}, multiresolution={mr}", "eq", sym.S(g) - w))
            obs.append((f"wav_j_bandlimit at j={j}, multiresolution={mr}", "eq",
                        sym.S(R.code(samples.wav_j_bandlimit, L, j, lam, mr)) - want[0]))
            Ls = L
            if mr:
                Ls = e.ceil(sym.S(lam) ** j)
                if not Ls <= L:
                    Ls = L
            obs.append((f"scal_bandlimit at J_min={j}, multiresolution={mr}", "eq",
                        sym.S(R.code(samples.scal_bandlimit, L, j, lam, mr)) - Ls))
        return obs

    if t["what"] == "J":
        return R.explore(jmax, rounding=True)
    return R.join(R.explore(lambda e: band(e, j)) for j in t["js"])


def concrete(t, x):
    import math

    from s2wav import samples

    x = x or {}
    pts = []
    if t["kind"] == "lam":
        L = t["L"]
        lams = ([x["lam"]] if "lam" in x else []) + [v for k in range(1, 7) for v in [round(L ** (1 / k)), L ** (1 / k)] if v > 1.05]
        lams += [2, 3, 1.5, 2.5, 1.3, 4, 5, 2.0, 1.7]
        pts = [(L, lam) for lam in lams]
    else:
        lam = t["lam"]
        Ls = ([x["L"]] if "L" in x else []) + [5, 8, 16, 27, 100]
        pts = [(L, lam) for L in Ls]
        pts += [(int(lam**k), lam) for k in range(1, 8) if float(lam**k).is_integer() and lam**k < 10**7]
    # rounding of the logarithms is decided by the libm: try the exact powers
    pts += [(b**k, b) for b in range(2, 13) for k in range(1, 7)]
    Ns = [x["N"]] if "N" in x else [1, 2, 3]
    for L, lam in pts:
        exact = lambda k: Fraction(lam) ** k
        near = any(abs(float(exact(k)) / L - 1) < 1e-12 and exact(k) != L for k in range(1, 40))
        if near:
            continue  # lam^k rounds to L: either answer is right
        J = model.j_max(L, lam)
        got = samples.j_max(L, lam)
        if got != J:
            return True, f"j_max({L}, {lam}) = {got}, expected {J}"
        for N in Ns:
            for jm in range(J):
                g = samples.n_wav_scales(L, N, jm, lam)
                if g != J - jm + 1:
                    return True, f"n_wav_scales({L}, {N}, {jm}, {lam}) = {g}, expected {J-jm+1}"
            for j in range(J + 1):
                if any(abs(float(exact(k)) - round(float(exact(k)))) < 1e-9 and exact(k).denominator != 1 for k in (j - 1, j, j + 1, 2)):
                    continue
                for mr in (True, False):
                    Lj, Nj = model.LN(L, j, N, lam, mr)
                    L0 = min(model.ceil_pow(lam, max(j, 1) - 1), Lj - 1) if mr else 0
                    g = tuple(samples.LN_j(L, j, N, lam, mr))
                    if g != (Lj, Nj, L0):
                        return True, f"LN_j({L}, {j}, {N}, {lam}, {mr}) = {g}, expected {(Lj, Nj, L0)}"
                    g = samples.wav_j_bandlimit(L, j, lam, mr)
                    if g != Lj:
                        return True, f"wav_j_bandlimit({L}, {j}, {lam}, {mr}) = {g}, expected {Lj}"
                    w = model.L_scal(L, j, lam, mr)
                    g = samples.scal_bandlimit(L, j, lam, mr)
                    if g != w:
                        return True, f"scal_bandlimit({L}, {j}, {lam}, {mr}) = {g}, expected {w}"
    return False, "scale arithmetic as specified at the replayed points"

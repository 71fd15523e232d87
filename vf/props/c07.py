"""Advertised shapes: shape functions and constructors."""
from fractions import Fraction

import numpy as np

from . import c16
from . import symfilt as F
from . import symrun as R
from .. import configs, model, ops, sym

ID = "C07"
FUNCTIONS = [
    "s2wav.samples.{f_scal,f_wav_j,flmn_wav_j,construct_f,construct_f_jax,construct_f_torch,construct_flm,construct_flm_jax,"
    "construct_flmn,construct_flmn_jax,construct_flmn_torch,LN_j,wav_j_bandlimit,scal_bandlimit,L0_j,j_max}",
    "s2fft.sampling.{s2_samples,so3_samples}.f_shape (executed symbolically)",
]
EXPLANATION = (
    "'lam' tasks execute the shape functions with lam a symbolic real and N a symbolic integer, 'L' tasks with L and N symbolic "
    "integers; 'list' tasks execute the constructors with lam symbolic. On every path z3 is asked for parameters at which a "
    "dimension differs from the sampling scheme's closed form at the scale's band-limit, or at which a constructor returns the wrong number or order of scales."
)
BOUNDS = "lam tasks: L 2..16, j 0..5, real lam in (1.05,64], N 1..2L; L tasks: six lam, L, N to 4096; list tasks: L 2..6, real lam in (1.4,8], J_min 0..2, every J_max; five samplings, both resolutions; thorough: L to 40, j to 12, lists to L=9; lists at L 14..48 with lam in narrow windows"
ASSUMPTIONS = [R.SHIM]
SAMPL = ("mw", "mwss", "dh", "gl", "healpix")
LISTS = ("construct_f", "construct_flmn", "construct_f_jax", "construct_f_torch", "construct_flmn_jax", "construct_flmn_torch",
         "construct_flm", "construct_flm_jax")


def cost(t):
    return 40 * t["L"] if t["kind"] == "list" else 20


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for i, L in enumerate(range(2, 17 if q else 41)):
        for s in SAMPL if L % 3 == 0 else (SAMPL[i % 5], SAMPL[(i + 2) % 5]):
            out.append(dict(kind="lam", L=L, sampling=s, js=list(range(6 if q else 13)), lo=1.05, hi=64))
    for i, lam in enumerate((2.0, 3.0, 1.5, 2.5, 1.3, 4.0)):
        for s in SAMPL:
            out.append(dict(kind="L", lam=lam, sampling=s, js=list(range(5 if q else 10)), hi=4096))
    for L in range(2, 7 if q else 10):
        for i, fn in enumerate(LISTS):
            for mr in (True, False):
                J_min = (L + i) % 3 if L > 2 else 0
                out.append(dict(kind="list", fn=fn, L=L, N=1 + (i + L) % 4, J_min=J_min, sampling=SAMPL[(i + L) % 4], mr=mr,
                                lo=1.4, hi=8, scattering=bool(fn in LISTS[:2] and L % 2)))
    for k, (L, lo, hi) in enumerate(F.WINDOWS if q else F.WINDOWS + F.WINDOWS_BIG):
        for i, fn in enumerate(LISTS):
            if q and ((i + k) % 2 or L == 24):
                continue
            out.append(dict(kind="list", fn=fn, L=L, N=1 + (i + k) % 9, J_min=(k + i // 2) % max(1, min(4, F.J_low(L, hi))), sampling=SAMPL[(i + k) % 4],
                            mr=(i + k) % 6 != 0, lo=lo, hi=hi, scattering=bool(fn in LISTS[:2] and (i // 2 + k) % 3 == 0)))
    return out


def s2(L, s, ns):
    return {"mw": (L, 2 * L - 1), "mwss": (L + 1, 2 * L), "dh": (2 * L, 2 * L - 1), "gl": (L, 2 * L - 1),
            "healpix": (12 * ns * ns if ns else None,)}[s]


def shape_eq(label, got, want, obs):
    got = tuple(got)
    if len(got) != len(want):
        obs.append((f"{label}: {len(got)} axes instead of {len(want)}", "true", False))
        return
    for i, (g, w) in enumerate(zip(got, want)):
        obs.append((f"{label}, axis {i}", "eq", sym.S(g) - w))


def spec_L(e, L, j, lam):
    c = e.ceil(sym.S(lam) ** j)
    return c if c <= L else L


def run(t):
    from s2wav import samples

    s = t["sampling"]
    ns = 4 if s == "healpix" else None
    if t["kind"] == "list":
        return run_list(t)

    def body(e, j, mr):
        L, N, lam = c16.params(e, t)
        obs = []
        Ls = spec_L(e, L, j, lam) if mr else L
        shape_eq(f"f_scal J_min={j}", R.code(samples.f_scal, L, j, lam, s, ns, mr), s2(Ls, s, ns), obs)
        Lj, Nj, _ = c16.spec(e, L, N, lam, j, mr)
        shape_eq(f"f_wav_j j={j}", R.code(samples.f_wav_j, L, j, N, lam, s, ns, mr), (2 * Nj - 1,) + s2(Lj, s, ns), obs)
        shape_eq(f"flmn_wav_j j={j}", R.code(samples.flmn_wav_j, L, j, N, lam, mr), (2 * Nj - 1, Lj, 2 * Lj - 1), obs)
        return obs

    return R.join(R.explore(lambda e: body(e, j, mr)) for j in t["js"] for mr in (True, False))


def call_list(t, lam, J_max):
    from s2wav import samples

    fn, L, N, jm, mr = t["fn"], t["L"], t["N"], t["J_min"], t["mr"]
    f = getattr(samples, fn)
    if fn == "construct_f":
        return R.code(f, L, N, jm, lam, t["sampling"], None, mr, t["scattering"])
    if fn == "construct_flmn":
        return R.code(f, L, N, jm, lam, mr, t["scattering"])
    if fn in ("construct_f_jax", "construct_f_torch"):
        return R.code(f, L, jm, J_max, lam)
    if fn in ("construct_flmn_jax", "construct_flmn_torch"):
        return R.code(f, L, N, jm, J_max, lam, mr)
    return R.code(f, L, jm, lam, mr)


def want_list(t, J, LNj, Ls):
    """Expected shapes: list of tuples, None entries for empty lists, or one tuple."""
    fn, s = t["fn"], t["sampling"]
    if fn in ("construct_flm", "construct_flm_jax"):
        return (Ls, 2 * Ls - 1)
    if fn in ("construct_f_jax", "construct_f_torch"):
        return [None] * (J - t["J_min"] + 1)

    def one(j):
        Lj, Nj = LNj(j)
        if fn == "construct_f":
            return (2 * Nj - 1,) + s2(Lj, s, None)
        return (2 * Nj - 1, Lj, 2 * Lj - 1)

    if t["scattering"]:
        return one(J - 1)
    return [one(j) for j in range(t["J_min"], J + 1)]


def run_list(t):
    def body(e):
        lam, J = F.params(e, t)
        has = t["fn"].endswith(("f_jax", "f_torch", "flmn_jax", "flmn_torch"))
        top = J
        J_max = None
        if has:
            k = e.choose(J - t["J_min"] + 2)
            if k:
                top = J_max = t["J_min"] + k - 1
        got = call_list(t, lam, J_max)
        LNj = lambda j: tuple(int(v) for v in c16.spec(e, t["L"], t["N"], lam, j, t["mr"])[:2])
        Ls = int(spec_L(e, t["L"], t["J_min"], lam)) if t["mr"] else t["L"]
        want = want_list(t, top, LNj, Ls)
        obs = []
        if isinstance(want, tuple):
            shape_eq(t["fn"], np.shape(got), want, obs)
            obs.append((f"{t['fn']} is zero", "true", all(F.iszero(v) for v in np.ravel(got))))
            return obs
        obs.append((f"{t['fn']}: {len(got)} scales instead of {len(want)}", "true", len(got) == len(want)))
        if len(got) == len(want):
            for i, (g, w) in enumerate(zip(got, want)):
                if w is None:
                    obs.append((f"{t['fn']}[{i}] is an empty slot", "true", len(g) == 0))
                else:
                    shape_eq(f"{t['fn']}[{i}]", np.shape(g), w, obs)
                    obs.append((f"{t['fn']}[{i}] is zero", "true", all(F.iszero(v) for v in np.ravel(g))))
        return obs

    return R.explore(body, max_s=200)


def concrete(t, x):
    from s2wav import samples

    x = x or {}
    s = t["sampling"]
    ns = 4 if s == "healpix" else None
    if t["kind"] == "list":
        for lam in F.lams(t, x):
            if _near(lam):
                continue
            J = model.j_max(t["L"], lam)
            if J <= t["J_min"]:
                continue
            tops = [None] + list(range(t["J_min"], J + 1)) if t["fn"].endswith(("f_jax", "f_torch", "flmn_jax", "flmn_torch")) else [None]
            for J_max in tops:
                got = call_list(t, lam, J_max)
                want = want_list(t, J if J_max is None else J_max, lambda j: model.LN(t["L"], j, t["N"], lam, t["mr"]), model.L_scal(t["L"], t["J_min"], lam, t["mr"]))
                if isinstance(want, tuple):
                    g = tuple(np.shape(got))
                    if g != want or np.any(np.asarray(got) != 0) or "complex128" not in str(got.dtype):
                        return True, f"{t['fn']}: shape {g} instead of {want} (or not complex zeros) at lam={lam} {t}"
                    continue
                g = [None if w is None and len(v) == 0 else tuple(np.shape(v)) for v, w in zip(got, want)]
                if len(got) != len(want) or g != want:
                    return True, f"{t['fn']}: {g} instead of {want} at lam={lam}, J_max={J_max} {t}"
                if any(w is not None and (np.any(np.asarray(v) != 0) or "complex128" not in str(v.dtype)) for v, w in zip(got, want)):
                    return True, f"{t['fn']}: not complex zeros at lam={lam} {t}"
        return False, "constructors as specified"
    Ls = [t["L"]] if t["kind"] == "lam" else ([x["L"]] if "L" in x else [5, 8, 13, 16, 31])
    lams = [t["lam"]] if t["kind"] == "L" else ([x["lam"]] if "lam" in x else [2.0, 3.0, 1.5, 1.3, 5.0, 20.0])
    Ns = [x["N"]] if "N" in x else [1, 2, 3, 4, 7]
    for L in Ls:
        for lam in lams:
            if _near(lam):
                continue
            for N in Ns:
                for j in t["js"]:
                    for mr in (True, False):
                        a = model.L_scal(L, j, lam, mr)
                        Lj, Nj = model.LN(L, j, N, lam, mr)
                        for nm, g, w in (
                            ("f_scal", samples.f_scal(L, j, lam, s, ns, mr), s2(a, s, ns)),
                            ("f_wav_j", samples.f_wav_j(L, j, N, lam, s, ns, mr), (2 * Nj - 1,) + s2(Lj, s, ns)),
                            ("flmn_wav_j", samples.flmn_wav_j(L, j, N, lam, mr), (2 * Nj - 1, Lj, 2 * Lj - 1)),
                        ):
                            if tuple(g) != w:
                                return True, f"{nm} = {tuple(g)} instead of {w} at L={L}, j={j}, N={N}, lam={lam}, {s}, multiresolution={mr}"
    return False, "shapes as specified at the replayed points"


def _near(lam):
    """Some power of lam rounds to an integer it does not equal."""
    return any(abs(lam**k - round(lam**k)) < 1e-9 and Fraction(lam) ** k != round(lam**k) for k in range(1, 14))

"""Invalid inputs are rejected, valid ones are not."""
from fractions import Fraction

import numpy as np

from . import c07, c16
from . import symfilt as F
from . import symrun as R
from .. import model, sym
from ..lin import NotEncodable

ID = "C15"
FUNCTIONS = [
    "s2wav.filters.{filters_axisym,filters_axisym_vectorised,filters_axisym_jax,filters_directional,"
    "filters_directional_vectorised,filters_directional_jax}", "s2wav.samples.{j_max,wavelet_shape_check,f_scal,f_wav_j,n_wav_scales}",
    "argument checks of s2wav.transforms.{wavelet_c,wavelet_precompute,wavelet_precompute_torch}.{analysis,synthesis,flm_to_analysis}",
]
EXPLANATION = (
    "'jmin' tasks execute a filter generator with J_min a symbolic integer and lam a symbolic real and show that it raises "
    "ValueError exactly on the paths where J_min < 0 or lam^J_min >= L. 'shape' tasks execute the shape check of the "
    "coefficient lists on arrays whose every dimension is a symbolic integer and whose number varies, and show that it rejects exactly the wrong shapes. "
    "'reject' tasks execute the transforms with symbolic L, N, J_min, spin, lam and opaque arrays, with HEALPix sampling (C backend) or without kernels (precompute), and show that every path raises ValueError."
)
BOUNDS = "jmin: L 2..5 (axisymmetric to 8), J_min -4..8, real lam in (1.3,8]; shape: L 3..6, N 1..4, real lam in (1.5,6], J_min 0..1, number of scales off by -1..2, dimensions 0..10^6, five samplings; reject: L 2..64, N 1..64, J_min 0..8, |spin| <= 8, lam in (1.3,8], any arrays; thorough: L to 7/12 and 8; jmin and shape at L 14..48 with lam in narrow windows"
ASSUMPTIONS = [R.SHIM, R.INTEGRAL, F.ZEROS]


def cost(t):
    return t["L"] ** 2 * (5 if t["kind"] == "jmin" and not t.get("axi") else 3)


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for gen in F.GENS:
        for L in range(2, 9 if q else 13):
            out.append(dict(kind="jmin", gen=gen, axi=True, L=L, lo=1.3, hi=8))
        for L in range(2, 6 if q else 8):
            out.append(dict(kind="jmin", gen=gen, L=L, N=1 + L % 3, spin=0, spin0=0, lo=1.3, hi=8))
    for i, L in enumerate(range(3, 7 if q else 9)):
        for k, s in enumerate(c07.SAMPL):
            for mr in (True, False):
                for d in (0, -1, 1, 2) if k == i % 5 else (0,):
                    out.append(dict(kind="shape", L=L, N=1 + (i + k) % 4, J_min=(i + k) % 2, sampling=s, mr=mr, extra=d, lo=1.5, hi=6))
    W = F.WINDOWS[:8] if q else F.WINDOWS + F.WINDOWS_BIG
    for i, (L, lo, hi) in enumerate(W):
        for k, gen in enumerate(F.GENS):
            if gen == "loop" and L > 40:
                continue
            out.append(dict(kind="jmin", gen=gen, axi=True, L=L, lo=lo, hi=hi))
            if gen != "loop" and (L <= 20 or not q):
                out.append(dict(kind="jmin", gen=gen, L=L, N=1 + (i + k) % 5, spin=0, spin0=0, lo=lo, hi=hi))
        out.append(dict(kind="shape", L=L, N=1 + i % 5, J_min=min(i % 3, F.J_low(L, hi) - 1), sampling=c07.SAMPL[i % 4], mr=True,
                        extra=(0, 0, 1, -1)[i % 4], lo=lo, hi=hi))
    for mod, fn, arg in REJECT:
        out.append(dict(kind="reject", mod=mod, fn=fn, arg=arg, L=2))
    return out


REJECT = [("wavelet_c", f, s) for f in ("analysis", "synthesis") for s in ("healpix", "HEALPix")] + [
    (m, f, None) for m in ("wavelet_precompute", "wavelet_precompute_torch") for f in ("analysis", "synthesis", "flm_to_analysis")]


def run(t):
    return dict(jmin=run_jmin, shape=run_shape, reject=run_reject)[t["kind"]](t)


class Opaque:
    """Stands for every array: nothing about it is known, so no decision may depend on it."""

    def _touch(self, *a, **k):
        raise NotEncodable("the data is read before the arguments are validated")

    __getattr__ = __getitem__ = __len__ = __iter__ = __add__ = __radd__ = __mul__ = __rmul__ = __array__ = __bool__ = _touch


def call_reject(t, data, L, N, J_min, lam, spin):
    import importlib

    f = getattr(importlib.import_module("s2wav.transforms." + t["mod"]), t["fn"])
    f = getattr(f, "__wrapped__", f)
    a = data[: 2 if t["fn"] == "synthesis" else 1]
    kw = dict(L=L, N=N, J_min=J_min, lam=lam)
    if t["fn"] != "flm_to_analysis":
        kw["spin"] = spin
    if t["arg"]:
        kw["sampling"] = t["arg"]
        kw["filters"] = data[2]
    else:
        kw.update(sampling="mw", precomps=None, filters=data[2])
    return R.code(f, *a, **kw)


def run_reject(t):
    def body(e):
        lam = e.main_real("lam", Fraction(1.3), 8)
        try:
            call_reject(t, [Opaque(), Opaque(), (Opaque(), Opaque())], e.int("L", 2, 64), e.int("N", 1, 64), e.int("J_min", 0, 8), lam, e.int("spin", -8, 8))
        except R.Raised as r:
            if isinstance(r.orig, ValueError):
                return [("rejected", "true", True)]
            raise
        return [("accepted", "true", False)]

    return R.explore(body, max_s=60)


def real_reject(t, x):
    L, N, jm, lam = int(x.get("L", 6)), int(x.get("N", 2)), int(x.get("J_min", 0)), float(x.get("lam", 2.0))
    L, N = min(max(L, 2), 8), min(N, 3)
    jm = jm if jm < model.j_max(L, lam) else 0
    from s2wav import filters

    rng = np.random.default_rng(0)
    wrap = (lambda v: v)
    if t["mod"].endswith("torch"):
        import torch
        wrap = torch.as_tensor
    flt = filters.filters_directional_vectorised(L, N, jm, lam)
    f = wrap(rng.normal(size=(L, 2 * L - 1)) + 0j)
    if t["fn"] == "synthesis":
        fw = []
        for j in range(jm, model.j_max(L, lam) + 1):
            Lj, Nj = model.LN(L, j, N, lam, True)
            fw.append(wrap(rng.normal(size=(2 * Nj - 1, Lj, 2 * Lj - 1)) + 0j))
        Ls = model.L_scal(L, jm, lam, True)
        data = [fw, wrap(rng.normal(size=(Ls, 2 * Ls - 1)) + 0j)]
    else:
        data = [f, None]
    flt = tuple(wrap(np.asarray(v)) for v in flt)
    data.append(flt[0] if t["fn"] == "flm_to_analysis" else flt)
    if t["fn"] != "synthesis":
        data = [data[0], data[1], data[2]]
    try:
        call_reject(t, data, L, N, jm, lam, 0)
    except R.Raised as r:
        if isinstance(r.orig, ValueError):
            return False, "rejected with ValueError"
        return True, f"{t['mod']}.{t['fn']} with {t['arg'] or 'no kernels'}: {r} instead of ValueError"
    return True, f"{t['mod']}.{t['fn']} accepted {t['arg'] or 'missing kernels'}"


def run_jmin(t):
    L = t["L"]

    def body(e):
        lam = e.main_real("lam", Fraction(t["lo"]), t["hi"])
        J = sym.LogRatio(sym.S(L), lam)._exact()
        J_min = e.int("J_min", -4, 8)
        try:
            F.generate(dict(t, J_min=J_min), lam)
            ok = True
        except R.Raised as r:
            if not isinstance(r.orig, ValueError):
                raise
            ok = False
        good = J_min >= 0 and J_min < J
        return [("rejected a valid J_min" if good else "accepted an invalid J_min", "true", ok == good)]

    return R.explore(body, max_s=200, need=3)


class Arr:
    """An array known by its (symbolic) shape."""

    def __init__(self, shape):
        self.shape = shape
        self.ndim = len(shape)

    def __len__(self):
        return int(self.shape[0])


def want_shapes(e, t, lam, J):
    s, L = t["sampling"], t["L"]
    ns = 4 if s == "healpix" else None
    Ls = c07.spec_L(e, L, t["J_min"], lam) if t["mr"] else L
    w = []
    for j in range(t["J_min"], J + 1):
        Lj, Nj, _ = c16.spec(e, L, t["N"], lam, j, t["mr"])
        w.append((2 * Nj - 1,) + c07.s2(Lj, s, ns))
    return w, c07.s2(Ls, s, ns)


def run_shape(t):
    from s2wav import samples

    s = t["sampling"]
    ns = 4 if s == "healpix" else None

    def body(e):
        lam, J = F.params(e, t)
        n = J - t["J_min"] + 1 + t["extra"]
        if n < 0:
            raise sym.Infeasible()
        wd = 2 if s == "healpix" else 3
        fw = [Arr(tuple(e.int(f"w{i}_{k}", 0, 10**6) for k in range(wd))) for i in range(n)]
        fs = Arr(tuple(e.int(f"s_{k}", 0, 10**6) for k in range(wd - 1)))
        try:
            R.code(samples.wavelet_shape_check, fw, fs, t["L"], t["N"], t["J_min"], lam, s, ns, t["mr"])
            ok = True
        except R.Raised as r:
            if not isinstance(r.orig, (AssertionError, ValueError)):
                raise
            ok = False
        if t["extra"]:
            return [(f"accepted {n} scales", "true", not ok)]
        ww, ws = want_shapes(e, t, lam, J)
        pairs = [(g, w) for a, b in list(zip(fw, ww)) + [(fs, ws)] for g, w in zip(a.shape, b)]
        if ok:
            return [("accepted a wrong dimension", "eq", sym.S(g) - w) for g, w in pairs]
        return [("rejected correct shapes", "some_ne", [sym.S(g) - w for g, w in pairs])]

    return R.explore(body, max_s=200, need=2)


def concrete(t, x):
    from s2wav import filters, samples

    x = x or {}
    if t["kind"] == "reject":
        return real_reject(t, x)
    if t["kind"] == "jmin":
        lams = [x["lam"]] if "lam" in x else [2.0, 3.0, 1.5, 5.0]
        for lam in lams:
            if any(abs(lam**k / t["L"] - 1) < 1e-12 and Fraction(lam) ** k != t["L"] for k in range(1, 40)):
                lam = lam * 1.0000001
            J = model.j_max(t["L"], lam)
            for jm in [x["J_min"]] if "J_min" in x else range(-2, J + 3):
                try:
                    F.generate(dict(t, J_min=jm), lam)
                    ok = True
                except R.Raised as r:
                    if not isinstance(r.orig, ValueError):
                        return True, f"{r} for L={t['L']}, J_min={jm}, lam={lam}"
                    ok = False
                if ok != (0 <= jm < J):
                    return True, f"{t['gen']} generator {'accepted' if ok else 'rejected'} J_min={jm} with J={J} (L={t['L']}, lam={lam})"
        return False, "J_min validated as documented"
    s, L, N, jm, mr = t["sampling"], t["L"], t["N"], t["J_min"], t["mr"]
    ns = 4 if s == "healpix" else None
    for lam in [x["lam"]] if "lam" in x else [2.0, 3.0, 1.7]:
        if c07._near(lam):
            lam = lam * 1.0000001
        J = model.j_max(L, lam)
        if J <= jm:
            continue
        ww = []
        for j in range(jm, J + 1):
            Lj, Nj = model.LN(L, j, N, lam, mr)
            ww.append((2 * Nj - 1,) + c07.s2(Lj, s, ns))
        ws = c07.s2(model.L_scal(L, jm, lam, mr), s, ns)
        n = len(ww) + t["extra"]
        # the solver's dimensions, then each single dimension off by one, then the right ones
        cases = []
        if any(k.startswith("w0_") for k in x):
            cases.append(([tuple(int(x.get(f"w{i}_{k}", 0)) for k in range(len(ws) + 1)) for i in range(n)],
                          tuple(int(x.get(f"s_{k}", 0)) for k in range(len(ws)))))
        base = ([ww[i] if i < len(ww) else ww[-1] for i in range(max(n, 0))], ws)
        cases.append(base)
        for i in range(len(base[0])):
            for k in range(len(ws) + 1):
                w = list(base[0])
                w[i] = tuple(v + (q == k) for q, v in enumerate(w[i]))
                cases.append((w, ws))
        for k in range(len(ws)):
            cases.append((base[0], tuple(v + (q == k) for q, v in enumerate(ws))))
        for fw, fs in cases:
            good = list(fw) == ww and tuple(fs) == ws
            try:
                samples.wavelet_shape_check([Arr(w) for w in fw], Arr(fs), L, N, jm, lam, s, ns, mr)
                ok = True
            except (AssertionError, ValueError):
                ok = False
            if ok != good:
                return True, f"shape check {'accepted' if ok else 'rejected'} wavelets {fw}, scaling {fs} (expected {ww}, {ws}) L={L} N={N} J_min={jm} lam={lam} {s} multiresolution={mr}"
    return False, "shapes validated as documented"

"""Deterministic covering sets of transform configurations.

A configuration fixes the discrete parameters (these are the stated bounds); the signal in
it stays symbolic.  The generator greedily covers all value triples of the factors, so any
interaction of up to three parameter values inside the bounds occurs at least once when the
list is long enough.
"""
import itertools
from functools import lru_cache
import random

from . import model

SAMPLINGS = ("mw", "mwss", "dh", "gl")
LAMS = (2.0, 3.0, 1.5, 2.5, 1.3, 4.0)


def candidates(Ls, Ns, lams=LAMS, samplings=SAMPLINGS, spins=(0, 1, -1, 2, -2), reality=(False, True),
               extra=None):
    extra = extra or {}
    out = []
    for L, N, lam in itertools.product(Ls, Ns, lams):
        if N > L:
            continue
        J = model.j_max(L, lam)
        for J_min in range(0, J):
            rel = "0" if J_min == 0 else ("top" if J_min == J - 1 else ("1" if J_min == 1 else "mid"))
            for s, (spin, re) in itertools.product(
                samplings, [(sp, r) for sp in spins for r in reality if not (r and sp)]
            ):
                if abs(spin) >= L:
                    continue
                for ex in itertools.product(*extra.values()):
                    out.append(dict(L=L, N=N, lam=lam, J_min=J_min, _rel=rel, sampling=s, spin=spin,
                                    reality=re, **dict(zip(extra, ex))))
    return out


def sampled(n, seed, Ls, Ns, lams=LAMS, samplings=SAMPLINGS, spins=(0,), reality=(False, True), extra=None):
    """n of the candidates, drawn with a fixed seed (for spaces too large to list)."""
    rng = random.Random(seed)
    extra = extra or {}
    out = []
    for _ in range(n):
        L, lam = rng.choice(Ls), rng.choice(lams)
        N = rng.choice([x for x in Ns if x <= L])
        J = model.j_max(L, lam)
        J_min = rng.choice([0, 1, J - 1, rng.randrange(J), rng.randrange(J)])
        J_min = min(max(J_min, 0), J - 1)
        rel = "0" if J_min == 0 else ("top" if J_min == J - 1 else ("1" if J_min == 1 else "mid"))
        spin, re = rng.choice([(sp, r) for sp in spins for r in reality if not (r and sp)])
        out.append(dict(L=L, N=N, lam=lam, J_min=J_min, _rel=rel, sampling=rng.choice(samplings), spin=spin,
                        reality=re, **{k: rng.choice(v) for k, v in extra.items()}))
    return out


def key_factors(c):
    f = {k: v for k, v in c.items() if k not in ("J_min",)}
    return sorted(f.items(), key=lambda kv: kv[0])


def cover(cands, n, seed=1, t=3, pool=160, weights=None):
    """Pick n configurations, greedily maximising newly covered t-tuples of factor values."""
    rng = random.Random(seed)
    cands = list(cands)
    rng.shuffle(cands)
    seen = set()
    out = []
    i = 0
    while cands and len(out) < n:
        best, bs = None, -1
        for _ in range(min(pool, len(cands))):
            k = rng.randrange(len(cands))
            c = cands[k]
            tup = list(itertools.combinations(key_factors(c), t))
            s = sum(1 for q in tup if q not in seen) / (1.0 + 0.004 * c["L"] ** 2)
            if s > bs:
                best, bs, bt = k, s, tup
        c = cands[best]
        cands[best] = cands[-1]
        cands.pop()
        if bs <= 0:
            seen = set()  # everything covered: start a second cover
        seen.update(bt)
        out.append({k: v for k, v in c.items() if k != "_rel"})
        i += 1
    return out


def per_backend(counts, Ls, Ns, seed=1, extra_by=None, ok=None, sample=None, **kw):
    out = []
    for bi, (b, n) in enumerate(counts.items()):
        extra = {}
        if b == "jax":
            extra = {"filters": ("vec", "jax", "none"), "precomps": ("given", "none")}
        elif b in ("c", "pj"):
            extra = {"filters": ("vec", "jax", "none")}
        elif b == "pt":
            extra = {"filters": ("vec", "loop", "none")}
        elif b in ("np", "npl"):
            extra = {"multires": (True, False)}
        if extra_by and b in extra_by:
            extra = {**extra, **extra_by[b]}
        if sample:
            cs = sampled(sample, seed * 1000 + bi, Ls, Ns, extra=extra, **kw)
        else:
            cs = candidates(Ls, Ns, extra=extra, **kw)
        if ok is not None:
            cs = [c for c in cs if ok(c)]
        for c in cover(cs, n, seed=seed * 1000 + bi):
            out.append(dict(backend=b, p=c))
    return out


def healpix(backends, n, seed=3, Ls=(3, 4, 5, 6), Ns=(1, 2, 3)):
    """HEALPix configurations within s2fft's own precondition L_j >= 2 nside at every scale."""
    out = []
    for b in backends:
        if b == "jax":  # s2fft's JAX HEALPix FFTs need nside >= 2
            Ls_b = (5, 6, 7, 8)
        else:
            Ls_b = Ls
        extra = {"filters": ("vec", "none")} if b in ("jax",) else {}
        if b in ("np", "npl"):
            extra = {"multires": (True, False)}
        cs = candidates(Ls_b, Ns, lams=(2.0, 3.0, 1.5), samplings=("healpix",), spins=(0, 1, -2), reality=(False,), extra=extra)
        ok = []
        for c in cs:
            c["nside"] = 2 if b == "jax" or (c.get("multires") is False and c["L"] >= 4) else 1
            lim = [c["L"]] if c.get("multires") is False else [
                model.L_scal(c["L"], c["J_min"], c["lam"])
            ] + [model.LN(c["L"], j, c["N"], c["lam"])[0] for j in model.scales(c["L"], c["J_min"], c["lam"])]
            if min(lim) >= 2 * c["nside"]:
                ok.append(c)
        for c in cover(ok, n, seed=seed):
            out.append(dict(backend=b, p=c))
    return out


WIDE_LAMS = (2.0, 3.0, 1.5, 2.5, 1.2, 4.0, 5.0, 6.0, 8.0, 1.8)
WIDE_LS = dict(
    jax=(10, 11, 12, 13, 15, 16, 17, 20, 24, 27, 32, 33, 48, 64, 81),
    c=(10, 11, 12, 13, 15, 16, 17, 20, 24, 27, 32, 33, 48, 64, 81),
    pj=(10, 11, 12, 13, 15, 16, 17, 20, 24, 27), pt=(10, 12, 13, 15, 16, 17, 20, 24, 25),
    np=(10, 11, 12, 13, 15, 16, 17, 24, 27, 32, 33, 48, 64, 65, 81, 100), npl=(10, 12, 13, 16, 17, 24, 32),
)


def weight(p, coef=False, K=13):
    """Entries of all coefficient maps, as columns."""
    return _weight(p["L"], p["N"], p["J_min"], p["lam"], p.get("multires", True), coef, K)


@lru_cache(maxsize=None)
def _weight(L, N, J_min, lam, mr, coef, K):
    sc = list(model.scales(L, J_min, lam))
    n = 0
    for j in sc:
        Lj, Nj = model.LN(L, j, N, lam, mr)
        n += (2 * Nj - 1) * 2 * Lj * 2 * Lj
    return n * (1 + 3 * (len(sc) + 1) if coef else K)


def wide(counts, seed=11, Ns=(1, 2, 3, 4, 6, 9), dense=4, unit=8, Ls=None, coef=False, limit=8e6, **kw):
    """Large band-limits: the signal ranges over a subspace (generic directions and single (l,m))."""
    out = []
    for b, n in counts.items():
        ls = Ls or WIDE_LS[b]
        ns = tuple(N for N in Ns if N < 6 or b not in ("pj", "pt"))
        per = [(L, len(range(i, n, len(ls)))) for i, L in enumerate(reversed(ls))]
        for L, k in per:
            if not k:
                continue
            ts = per_backend({b: k}, (L,), ns, seed=seed + 7 * L + len(b) + ord(b[-1]), lams=WIDE_LAMS, sample=600,
                             ok=lambda c: weight(c, coef) <= limit, **{"spins": (0, 1, -1, 2, -2, 3, -3), **kw})
            for t in ts:
                t["p"]["wide"] = [dense, unit]
                out.append(t)
    return out

"""Contract of the external harmonic transforms (s2fft), as explicit R-linear operators.

s2wav does not implement spherical/Wigner transforms, it calls s2fft.  Where a check
executes s2wav's code symbolically, calls into s2fft's recursions are replaced by the exact
linear operator of the documented transform.  The matrices are built here from an
independent implementation (ssht/ducc0), and validated against the real s2fft by
`python -m vf.selftest`.

Every operator acts on arrays whose *last* axis enumerates the columns of a linear form
(real symbolic variables), so conj/real/imag are exact: they act on the coefficients.
"""
from functools import lru_cache

import numpy as np

SAMPLINGS = ("mw", "mwss", "dh", "gl")


def sph_shape(L, sampling, nside=None):
    s = sampling.lower()
    if s == "mw":
        return (L, 2 * L - 1)
    if s == "mwss":
        return (L + 1, 2 * L)
    if s == "dh":
        return (2 * L, 2 * L - 1)
    if s == "gl":
        return (L, 2 * L - 1)
    if s == "healpix":
        return (12 * nside**2,)
    raise ValueError(f"Sampling scheme sampling={sampling} not supported")


def wig_shape(L, N, sampling, nside=None):
    return (2 * N - 1,) + sph_shape(L, sampling, nside)


def _generic(seed, shape):
    r = np.random.default_rng(abs(hash(seed)) % (2**32))
    return r.standard_normal(shape) + 1j * r.standard_normal(shape)


def _key(*a):
    # stable (hash() of str is salted per process)
    import zlib

    return zlib.crc32(repr(a).encode())


@lru_cache(maxsize=None)
def inv_matrix(L, spin, sampling, nside=None):
    """(pixels, L*(2L-1)) complex matrix of the complex inverse transform."""
    shape = sph_shape(L, sampling, nside)
    npix = int(np.prod(shape))
    A = np.zeros((npix, L, 2 * L - 1), dtype=np.complex128)
    if sampling.lower() == "healpix" and L > 1:
        g = _generic(_key("inv", L, spin, nside), (npix, L, 2 * L - 1))
        for el in range(abs(spin), L):
            sl = slice(L - 1 - el, L + el)
            A[:, el, sl] = g[:, el, sl]
        return A.reshape(npix, -1)
    if abs(spin) >= L:
        return A.reshape(npix, -1)
    if L == 1:
        A[:, 0, 0] = np.sqrt(1 / (4 * np.pi))
        return A.reshape(npix, -1)
    import pyssht

    for el in range(abs(spin), L):
        for m in range(-el, el + 1):
            e = np.zeros(L * L, dtype=np.complex128)
            e[el * el + el + m] = 1.0
            A[:, el, L - 1 + m] = pyssht.inverse(
                e, L, spin, Method=sampling.upper(), Reality=False, backend="ducc0"
            ).reshape(-1)
    return A.reshape(npix, -1)


@lru_cache(maxsize=None)
def fwd_matrix(L, spin, sampling, nside=None):
    """(L*(2L-1), pixels) complex matrix of the complex forward transform."""
    shape = sph_shape(L, sampling, nside)
    npix = int(np.prod(shape))
    B = np.zeros((L, 2 * L - 1, npix), dtype=np.complex128)
    if sampling.lower() == "healpix":
        g = _generic(_key("fwd", L, spin, nside), (L, 2 * L - 1, npix))
        for el in range(abs(spin), L):
            sl = slice(L - 1 - el, L + el)
            B[el, sl] = g[el, sl]
        return B.reshape(-1, npix)
    if abs(spin) >= L:
        return B.reshape(-1, npix)
    if L == 1:
        # constant signals only carry el=0; quadrature weights of the scheme at L=1
        from s2fft.base_transforms import spherical as _s

        fwd = getattr(_s.forward, "_vf_real", _s.forward)
        for p in range(npix):
            e = np.zeros(npix, dtype=np.complex128)
            e[p] = 1
            B[:, :, p] = fwd(e.reshape(shape), 1, spin, sampling, None, False)
        return B.reshape(-1, npix)
    import pyssht

    for p in range(npix):
        e = np.zeros(npix, dtype=np.complex128)
        e[p] = 1.0
        v = pyssht.forward(
            e.reshape(shape), L, spin, Method=sampling.upper(), Reality=False,
            backend="ducc0",
        )
        for el in range(abs(spin), L):
            B[el, L - 1 - el : L + el, p] = v[el * el : (el + 1) * (el + 1)]
    return B.reshape(-1, npix)


BIG = 18  # above this the operators are applied column by column instead of as matrices


def _inv_apply(x, L, spin, sampling, nside=None):
    """x: (L, 2L-1, K) -> (pixels, K)."""
    if L <= BIG or sampling.lower() == "healpix" or abs(spin) >= L:
        return inv_matrix(L, spin, sampling, nside) @ x.reshape(-1, x.shape[-1])
    import pyssht

    out = np.zeros((int(np.prod(sph_shape(L, sampling, nside))), x.shape[-1]), dtype=np.complex128)
    for k in np.nonzero(np.any(x != 0, axis=(0, 1)))[0]:
        e = np.zeros(L * L, dtype=np.complex128)
        for el in range(abs(spin), L):
            e[el * el : (el + 1) ** 2] = x[el, L - 1 - el : L + el, k]
        out[:, k] = pyssht.inverse(
            e, L, spin, Method=sampling.upper(), Reality=False, backend="ducc0"
        ).reshape(-1)
    return out


def _fwd_apply(x, L, spin, sampling, nside=None):
    """x: (pixels, K) -> (L*(2L-1), K)."""
    if L <= BIG or sampling.lower() == "healpix" or abs(spin) >= L:
        return fwd_matrix(L, spin, sampling, nside) @ x
    import pyssht

    shape = sph_shape(L, sampling, nside)
    out = np.zeros((L, 2 * L - 1, x.shape[-1]), dtype=np.complex128)
    for k in np.nonzero(np.any(x != 0, axis=0))[0]:
        v = pyssht.forward(
            np.ascontiguousarray(x[:, k]).reshape(shape), L, spin, Method=sampling.upper(),
            Reality=False, backend="ducc0",
        )
        for el in range(abs(spin), L):
            out[el, L - 1 - el : L + el, k] = v[el * el : (el + 1) ** 2]
    return out.reshape(L * (2 * L - 1), -1)


def _cut(c, L_lower):
    if L_lower:
        c = c.copy()
        c[:L_lower] = 0
    return c


def sph_inverse(c, L, spin, sampling, nside=None, reality=False, L_lower=0):
    """c: (L, 2L-1, K) -> (*pix, K)."""
    if not 0 <= L_lower < L:
        raise AssertionError("0 <= L_lower < L")
    K = c.shape[-1]
    if c.shape[:-1] != (L, 2 * L - 1):
        raise AssertionError(f"flm shape {c.shape[:-1]} for L={L}")
    c = _cut(c, L_lower)
    shape = sph_shape(L, sampling, nside)
    if reality and spin == 0:
        w = np.zeros(2 * L - 1)
        w[L - 1] = 1
        w[L:] = 2
        out = _inv_apply(c * w[None, :, None], L, spin, sampling, nside).real.astype(np.complex128)
    else:
        out = _inv_apply(c, L, spin, sampling, nside)
    return out.reshape(*shape, K)


def _mirror(flm, L):
    """m<0 from m>0 of a real field: (..., 2L-1, K)."""
    flm = flm.copy()
    m = np.arange(1, L)
    flm[..., : L - 1, :] = np.flip(
        ((-1.0) ** m)[:, None] * np.conj(flm[..., L:, :]), axis=-2
    )
    return flm


def sph_forward(c, L, spin, sampling, nside=None, reality=False, L_lower=0):
    if not 0 <= L_lower < L:
        raise AssertionError("0 <= L_lower < L")
    K = c.shape[-1]
    shape = sph_shape(L, sampling, nside)
    if c.shape[:-1] != shape:
        raise AssertionError(f"f shape {c.shape[:-1]} for L={L} {sampling}")
    x = c.reshape(-1, K)
    if reality and spin == 0:
        out = _fwd_apply(x.real.astype(np.complex128), L, spin, sampling, nside).reshape(L, 2 * L - 1, K)
        out = _mirror(out, L)
    else:
        out = _fwd_apply(x, L, spin, sampling, nside).reshape(L, 2 * L - 1, K)
    return _cut(out, L_lower)


def wig_inverse(c, L, N, sampling, nside=None, reality=False, L_lower=0, base=False):
    """c: (2N-1, L, 2L-1, K) -> (2N-1, *pix, K)."""
    if c.shape[:-1] != (2 * N - 1, L, 2 * L - 1):
        raise AssertionError(f"flmn shape {c.shape[:-1]} for L={L} N={N}")
    K = c.shape[-1]
    sc = np.sqrt((2 * np.arange(L) + 1) / (16 * np.pi**3))
    c = c * sc[None, :, None, None]
    shape = sph_shape(L, sampling, nside)
    fban = np.zeros((2 * N - 1, *shape, K), dtype=np.complex128)
    for n in range(0 if reality else -N + 1, N):
        fban[N - 1 + n] = (-1) ** n * sph_inverse(
            c[N - 1 + n], L, -n, sampling, nside, reality and base, L_lower
        )
    if reality:
        return np.fft.irfft(fban[N - 1 :], 2 * N - 1, axis=0, norm="forward").astype(
            np.complex128
        )
    return np.fft.ifft(np.fft.ifftshift(fban, axes=0), axis=0, norm="forward")


def wig_forward(c, L, N, sampling, nside=None, reality=False, L_lower=0, base=False):
    shape = sph_shape(L, sampling, nside)
    if c.shape[:-1] != (2 * N - 1,) + shape:
        raise AssertionError(f"f shape {c.shape[:-1]} for L={L} N={N} {sampling}")
    K = c.shape[-1]
    if reality:
        fban = np.fft.rfft(c.real, axis=0, norm="backward")
    else:
        fban = np.fft.fftshift(np.fft.fft(c, axis=0, norm="backward"), axes=0)
    fban = fban * (2 * np.pi / (2 * N - 1))
    flmn = np.zeros((2 * N - 1, L, 2 * L - 1, K), dtype=np.complex128)
    n0 = 0 if reality else -N + 1
    sgn = ((-1.0) ** np.abs(np.arange(-L + 1, L)))[:, None]
    for n in range(n0, N):
        flmn[N - 1 + n] = (-1) ** n * sph_forward(
            fban[n - n0], L, -n, sampling, nside, reality and base, L_lower
        )
        if reality and n != 0:
            flmn[N - 1 - n] = np.conj(
                np.flip(flmn[N - 1 + n] * sgn * (-1) ** n, axis=-2)
            )
    sc = np.sqrt(4 * np.pi / (2 * np.arange(L) + 1))
    return flmn * sc[None, :, None, None]


def harmonic_basis(L, spin=0, reality=False):
    """Coefficients, as linear forms over real variables, of an arbitrary band-limited
    signal of the given spin.  Returns (L, 2L-1, 1+nvars) (column 0 is the constant)."""
    cols = []
    for el in range(abs(spin), L):
        for m in range(0 if reality else -el, el + 1):
            e = np.zeros((L, 2 * L - 1), dtype=np.complex128)
            e[el, L - 1 + m] = 1
            if reality and m > 0:
                e[el, L - 1 - m] = (-1) ** m
            cols.append(e)
            if reality and m == 0:
                continue
            e = np.zeros((L, 2 * L - 1), dtype=np.complex128)
            e[el, L - 1 + m] = 1j
            if reality and m > 0:
                e[el, L - 1 - m] = (-1) ** m * -1j
            cols.append(e)
    z = np.zeros((L, 2 * L - 1), dtype=np.complex128)
    return np.stack([z] + cols, axis=-1)


def random_flm(L, lo, rng, real=False):
    """A generic coefficient array: every |m| <= l, l >= lo entry non-zero."""
    el = np.arange(L)[:, None]
    m = np.arange(-L + 1, L)[None, :]
    c = rng.uniform(0.2, 1, (L, 2 * L - 1)) * np.exp(2j * np.pi * rng.uniform(0, 1, (L, 2 * L - 1)))
    c = np.where((np.abs(m) <= el) & (el >= lo), c, 0)
    if real:
        c[:, L - 1] = c[:, L - 1].real
        c = _mirror(c[..., None], L)[..., 0]
    return c


def wide_entries(L, lo, lam, n, rng):
    """n pairs (l, m): scale boundaries, the extreme degrees and orders first."""
    els = {lo, min(lo + 1, L - 1), L - 1, max(lo, L - 2)}
    x = 1.0
    while x < L:
        for d in (-1, 0, 1):
            els.add(min(max(int(np.ceil(x)) + d, lo), L - 1))
        x *= lam
    els = sorted(els)
    out = set()
    while len(out) < min(n, (L * L - lo * lo) // 2):
        el = els[rng.integers(len(els))]
        m = [0, el, -el, min(1, el), -min(1, el), int(rng.integers(-el, el + 1))][rng.integers(6)]
        out.add((el, m))
    return sorted(out)


def wide_basis(L, spin, reality, lam, dense, unit, seed):
    """A subspace of the signals for large L: `dense` generic directions and `unit` single (l,m)."""
    rng = np.random.default_rng(seed)
    cols = [np.zeros((L, 2 * L - 1), dtype=np.complex128)]
    for _ in range(dense):
        cols.append(random_flm(L, abs(spin), rng, reality))
    for el, m in wide_entries(L, abs(spin), lam, unit, rng):
        e = np.zeros((L, 2 * L - 1), dtype=np.complex128)
        ph = 1.0 if (reality and m == 0) else np.exp(2j * np.pi * rng.uniform())
        e[el, L - 1 + m] = ph
        if reality and m:
            e[el, L - 1 - m] = (-1) ** m * np.conj(ph)
        cols.append(e)
    return np.stack(cols, axis=-1)

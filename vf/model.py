"""Reference model of the transform, written from the papers/documentation only.

Nothing here imports s2wav.  Scale arithmetic is exact (rationals); filters use the
documented construction (trapezium rule with 300 steps on the Schwartz tiling function).
Every array function accepts a trailing column axis (linear forms).
"""
from fractions import Fraction
from functools import lru_cache
from math import ceil, comb, factorial

import numpy as np

from . import ops


def _pow(lam, j):
    lam = Fraction(lam)
    return lam**j


@lru_cache(maxsize=None)
def j_max(L, lam):
    """Least J >= 0 with lam**J >= L."""
    J = 0
    while _pow(lam, J) < L:
        J += 1
    return J


@lru_cache(maxsize=None)
def ceil_pow(lam, j):
    return ceil(_pow(lam, j))


def L_scal(L, J_min, lam, multires=True):
    return min(ceil_pow(lam, J_min), L) if multires else L


def LN(L, j, N, lam, multires=True):
    j = max(j, 1)
    if not multires:
        return L, N
    Lj = min(ceil_pow(lam, j + 1), L)
    Nj = min(N, Lj)
    Nj += (Nj + N) % 2
    return Lj, Nj


def scales(L, J_min, lam):
    return range(J_min, j_max(L, lam) + 1)


# ------------------------------------------------------------------------------ filters


def _integrand(t, lam):
    s = (t - 1.0 / lam) * (2.0 * lam / (lam - 1.0)) - 1.0
    out = np.zeros_like(t)
    ok = np.abs(s) < 1
    out[ok] = np.exp(-2.0 / (1.0 - s[ok] ** 2)) / t[ok]
    return out


@lru_cache(maxsize=None)
def _trap(a, lam, n=300):
    if a >= 1:
        return 0.0
    t = np.linspace(a, 1.0, n + 1)
    v = _integrand(t, lam)
    return float(np.sum((v[1:] + v[:-1]) / 2) * (1.0 - a) / n)


@lru_cache(maxsize=None)
def k_lam(L, lam):
    lam = float(lam)
    J = j_max(L, lam)
    norm = _trap(1.0 / lam, lam)
    k = np.zeros((J + 2, L))
    for j in range(J + 2):
        for el in range(L):
            if el < _pow(lam, j - 1):
                k[j, el] = 1.0
            elif el < _pow(lam, j):
                k[j, el] = _trap(el / lam**j, lam) / norm
    return k


@lru_cache(maxsize=None)
def tiling(L, N):
    """Directionality component s_{el,n}: (L, 2L-1)."""
    s = np.zeros((L, 2 * L - 1), dtype=np.complex128)
    nu = 1.0 if N % 2 else 1j
    for el in range(1, L):
        g = min(N - 1, el if (N + el) % 2 else el - 1)
        for m in range(-g, g + 1, 2):
            s[el, L - 1 + m] = nu * np.sqrt(comb(g, (g - m) // 2) / 2**g)
    return s


def spin_norm(el, spin0):
    if spin0 == 0:
        return 1.0
    a = abs(spin0)
    if el < a:
        return 0.0
    r = factorial(el + a) / factorial(el - a)
    return np.sqrt(r if spin0 > 0 else 1 / r) * (-1) ** spin0


@lru_cache(maxsize=None)
def filters(L, N, J_min, lam, spin=0, spin0=0):
    """psi (J+1, L, 2L-1), phi (L,)."""
    lam = float(lam)
    k = k_lam(L, lam)
    J = j_max(L, lam)
    s = tiling(L, N)
    el = np.arange(L)
    kap = np.sqrt(np.maximum(k[1:] - k[:-1], 0))
    psi = np.sqrt((2 * el + 1) / (8 * np.pi**2))[None, :, None] * kap[:, :, None] * s[None]
    phi = np.sqrt((2 * el + 1) / (4 * np.pi)) * np.sqrt(k[J_min])
    sn = np.array([spin_norm(e, spin0) for e in el])
    psi = psi * sn[None, :, None]
    phi = phi * sn
    cut = max(abs(spin), abs(spin0))
    psi[:, :cut] = 0
    phi[:cut] = 0
    psi[:J_min] = 0
    return psi, phi


# --------------------------------------------------------------------------- transforms


def w_lmn(flm, psi_j, L, Lj, Nj):
    """Wigner coefficients of the directional convolution with psi_j: (2Nj-1, Lj, 2Lj-1, K)."""
    K = flm.shape[-1]
    out = np.zeros((2 * Nj - 1, Lj, 2 * Lj - 1, K), dtype=np.complex128)
    c = 8 * np.pi**2 / (2 * np.arange(Lj) + 1)
    for n in range(-Nj + 1, Nj):
        if abs(n) >= L:
            continue
        w = np.conj(psi_j[:Lj, L - 1 + n]) * c
        out[Nj - 1 + n] = flm[:Lj, L - Lj : L - 1 + Lj] * w[:, None, None]
    return out


def analysis(flm, p, spin0=0, filt=None, multires=True, ops_mod=ops, J_max=None, scal=True):
    """flm (L,2L-1,K) -> list of wavelet maps (2Nj-1,*pix,K), scaling map (*pix,K)."""
    L, N, J_min, lam = p["L"], p["N"], p["J_min"], p["lam"]
    spin, s, ns = p["spin"], p["sampling"], p.get("nside")
    psi, phi = filt if filt is not None else filters(L, N, J_min, lam, spin, spin0)
    J = j_max(L, lam) if J_max is None else J_max
    fw = []
    for j in range(J_min, J + 1):
        Lj, Nj = LN(L, j, N, lam, multires)
        W = w_lmn(flm, psi[j], L, Lj, Nj)
        fw.append(ops_mod.wig_inverse(W, Lj, Nj, s, ns))
    if not scal:
        return fw, None
    Ls = L_scal(L, J_min, lam, multires)
    c = phi[:Ls] * np.sqrt(4 * np.pi / (2 * np.arange(Ls) + 1))
    slm = flm[:Ls, L - Ls : L - 1 + Ls] * c[:, None, None]
    return fw, ops_mod.sph_inverse(slm, Ls, spin, s, ns)


def synthesis_lm(fw, fs, p, spin0=0, filt=None, multires=True, ops_mod=ops):
    """Harmonic coefficients of the synthesised signal, from maps with a column axis."""
    L, N, J_min, lam = p["L"], p["N"], p["J_min"], p["lam"]
    spin, s, ns = p["spin"], p["sampling"], p.get("nside")
    psi, phi = filt if filt is not None else filters(L, N, J_min, lam, spin, spin0)
    K = fs.shape[-1]
    flm = np.zeros((L, 2 * L - 1, K), dtype=np.complex128)
    for i, j in enumerate(scales(L, J_min, lam)):
        Lj, Nj = LN(L, j, N, lam, multires)
        W = ops_mod.wig_forward(fw[i], Lj, Nj, s, ns)
        for n in range(-Nj + 1, Nj):
            if abs(n) >= L:
                continue
            flm[:Lj, L - Lj : L - 1 + Lj] += W[Nj - 1 + n] * psi[j, :Lj, L - 1 + n, None, None]
    Ls = L_scal(L, J_min, lam, multires)
    slm = ops_mod.sph_forward(fs, Ls, spin, s, ns)
    c = phi[:Ls] * np.sqrt(4 * np.pi / (2 * np.arange(Ls) + 1))
    flm[:Ls, L - Ls : L - 1 + Ls] += slm * c[:, None, None]
    return flm

"""Validates the s2fft contract (vf.ops) against the installed s2fft on band-limited data:
`/opt/venv/bin/python -m vf.selftest`.  Not part of any check; rerun when s2fft changes."""
import sys
import time

import numpy as np


class C:
    """s2fft's C frontends."""

    I = {"mw": 0, "mwss": 1, "dh": 2, "gl": 3}

    def sph_inverse(self, c, L, spin, s, nside=None, reality=False, L_lower=0):
        import jax.numpy as jnp
        from s2fft.transforms import c_backend_spherical as c_sph

        return np.asarray(c_sph.ssht_inverse(jnp.asarray(c[..., 0]), L, spin, reality, self.I[s]))[..., None]

    def sph_forward(self, c, L, spin, s, nside=None, reality=False, L_lower=0):
        import jax.numpy as jnp
        from s2fft.transforms import c_backend_spherical as c_sph

        x = jnp.asarray(c[..., 0].real if reality else c[..., 0])
        return np.asarray(c_sph.ssht_forward(x, L, spin, reality, self.I[s]))[..., None]

    def wig_inverse(self, c, L, N, s, nside=None, reality=False, L_lower=0):
        import jax.numpy as jnp
        import s2fft

        return np.asarray(s2fft.wigner.inverse_jax_ssht(jnp.asarray(c[..., 0]), L, N, L_lower, s, reality))[..., None]

    def wig_forward(self, c, L, N, s, nside=None, reality=False, L_lower=0):
        import jax.numpy as jnp
        import s2fft

        x = jnp.asarray(c[..., 0].real if reality else c[..., 0])
        return np.asarray(s2fft.wigner.forward_jax_ssht(x, L, N, L_lower, s, reality))[..., None]


def main():
    import jax

    jax.config.update("jax_enable_x64", True)
    from . import ops, realops

    rng = np.random.default_rng(0)
    worst, n, bad = 0.0, 0, []
    t0 = time.time()
    for name, fam in (("numpy", realops.Numpy()), ("jax", realops.Jax()), ("c", C())):
        for s in ops.SAMPLINGS:
            for L in (2, 3, 4, 6):
                for reality in (False, True):
                    for spin in (0,) if reality else (0, 1, -2):
                        if abs(spin) >= L:
                            continue
                        for low in (0, 1) if not reality and name != "c" and spin == 0 else (0,):
                            B = ops.harmonic_basis(L, spin, reality)
                            f = B @ np.concatenate([[0.0], rng.uniform(-1, 1, B.shape[-1] - 1)])
                            f[:low] = 0
                            a = ops.sph_inverse(f[..., None], L, spin, s, None, reality, low)
                            for op, x in (("sph_inverse", f[..., None]), ("sph_forward", a)):
                                w = getattr(ops, op)(x, L, spin, s, None, reality, low)
                                g = getattr(fam, op)(x.real if reality and op == "sph_forward" else x, L, spin, s, None, reality, low)
                                cut = low if op == "sph_forward" else 0  # s2fft's JAX version leaves residue below L_lower
                                e = float(np.max(np.abs(g[cut:] - w[cut:])))
                                n += 1
                                worst = max(worst, e)
                                if e > 1e-10:
                                    bad.append((name, op, s, L, reality, spin, low, e))
                    for N in (1, 2, 3):
                        if N > L:
                            continue
                        low = 0
                        c = np.zeros((2 * N - 1, L, 2 * L - 1), dtype=complex)
                        for q in range(-N + 1, N):
                            for el in range(max(abs(q), low), L):
                                for m in range(-el, el + 1):
                                    c[N - 1 + q, el, L - 1 + m] = rng.uniform(-1, 1) + 1j * rng.uniform(-1, 1)
                        if reality:  # f_{l,-m,-n} = (-1)^(m+n) conj f_{lmn}
                            sg = (-1.0) ** (np.abs(np.arange(-N + 1, N))[:, None, None] + np.abs(np.arange(-L + 1, L))[None, None])
                            c = 0.5 * (c + np.conj(c[::-1, :, ::-1]) * sg)
                        a = ops.wig_inverse(c[..., None], L, N, s, None, reality, low, base=name == "numpy")
                        for op, x in (("wig_inverse", c[..., None]), ("wig_forward", a)):
                            w = getattr(ops, op)(x, L, N, s, None, reality, low, base=name == "numpy")
                            g = getattr(fam, op)(x.real if reality and op == "wig_forward" else x, L, N, s, None, reality, low)
                            e = float(np.max(np.abs(g - w)))
                            n += 1
                            worst = max(worst, e)
                            if e > 1e-10:
                                bad.append((name, op, s, L, N, reality, low, e))
    for b in bad:
        print("MISMATCH", b)
    print(f"{n} operator applications compared, worst difference {worst:.2e}, {len(bad)} mismatches, {time.time()-t0:.0f}s")
    sys.exit(bool(bad))


if __name__ == "__main__":
    main()

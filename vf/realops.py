"""The operators of vf.ops evaluated with the real s2fft (unpatched), column by column.

s2fft's numpy and JAX HEALPix transforms of non-zero spin differ from each other, so the
specification of a replay uses the family the implementation under test is built on."""
import numpy as np


def _cols(fn, c):
    return np.stack([np.asarray(fn(np.ascontiguousarray(c[..., k]))) for k in range(c.shape[-1])], axis=-1).astype(
        np.complex128
    )


class Numpy:
    @staticmethod
    def _b():
        from s2fft.base_transforms import spherical, wigner

        return spherical, wigner

    def sph_inverse(self, c, L, spin, sampling, nside=None, reality=False, L_lower=0):
        return _cols(lambda x: self._b()[0].inverse(x, L, spin, sampling, nside, reality, L_lower), c)

    def sph_forward(self, c, L, spin, sampling, nside=None, reality=False, L_lower=0):
        return _cols(lambda x: self._b()[0].forward(x, L, spin, sampling, nside, reality, L_lower), c)

    def wig_inverse(self, c, L, N, sampling, nside=None, reality=False, L_lower=0):
        return _cols(lambda x: self._b()[1].inverse(x, L, N, L_lower, sampling, reality, nside), c)

    def wig_forward(self, c, L, N, sampling, nside=None, reality=False, L_lower=0):
        return _cols(lambda x: self._b()[1].forward(x, L, N, L_lower, sampling, reality, nside), c)


class Jax:
    def sph_inverse(self, c, L, spin, sampling, nside=None, reality=False, L_lower=0):
        import s2fft

        return _cols(lambda x: s2fft.inverse_jax(x, L, spin, nside, sampling, reality, None, False, L_lower), c)

    def sph_forward(self, c, L, spin, sampling, nside=None, reality=False, L_lower=0):
        import s2fft

        return _cols(lambda x: s2fft.forward_jax(x, L, spin, nside, sampling, reality, None, False, L_lower), c)

    def wig_inverse(self, c, L, N, sampling, nside=None, reality=False, L_lower=0):
        import s2fft

        return _cols(lambda x: s2fft.wigner.inverse_jax(x, L, N, nside, sampling, reality, None, L_lower), c)

    def wig_forward(self, c, L, N, sampling, nside=None, reality=False, L_lower=0):
        import s2fft

        return _cols(lambda x: s2fft.wigner.forward_jax(x, L, N, nside, sampling, reality, None, L_lower), c)


def family(backend):
    return Jax() if backend == "jax" else Numpy()

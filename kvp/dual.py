"""Directional derivatives of the reference models (dual numbers).

Arrays carry a leading axis of length 1 + K: the value and K tangents.  Every
operation of the reference cascades is linear and acts on the trailing axes,
except the modulus, which is replaced here (zero subgradient at zero)."""
import numpy as np
from . import ref1d, ref2d, ref3d


def modulus(z):
    v = np.abs(z[:1])
    with np.errstate(invalid='ignore', divide='ignore'):
        t = np.where(v > 0, (np.conj(z[:1]) * z[1:]).real / np.where(v > 0, v, 1), 0.0)
    return np.concatenate([v, t])


class Dual1D(ref1d.Ref1D):
    def u1(self, U0, n1):
        p = self.bank[0][n1]
        k = min(p['j'], self.s) if self.mode == 'local' else p['j']
        return modulus(ref1d.conv_dec(U0, p['h'], k)), k

    def u2(self, U1, k1, n2):
        p = self.bank[1][n2]
        k = min(p['j'], self.s) if self.mode == 'local' else p['j']
        k = max(k, k1)
        return modulus(ref1d.conv_dec(U1, ref1d.fold(p['h'], k1), k - k1)), k


class DualJTFS(ref1d.RefJTFS):
    """second-order wavelet modulus is taken after the frequential filter only"""
    u1 = Dual1D.u1

    def _freq(self, X, pos_only):
        n1_max = X.shape[1]
        Xp = np.zeros((X.shape[0], self.N_fr, X.shape[2]), dtype=complex)
        Xp[:, :n1_max] = X
        Xp = np.moveaxis(Xp, 1, -1)
        for n_fr, p in enumerate(self.fr):
            if pos_only and p['xi'] < 0:
                continue
            k = min(p['j'], self.s_fr) if self.mode_fr == 'local' else p['j']
            Y = modulus(ref1d.conv_dec(Xp, p['h'], k))
            yield n_fr, p, np.moveaxis(Y, -1, 1), k


class Dual2D(ref2d.Ref2D):
    def __call__(self, x):
        U0 = self.pad(np.asarray(x, dtype=np.float64))
        out = {(): self.low(U0, 0)}
        for n1, p in enumerate(self.psi):
            U1 = modulus(self.conv(U0, p['h'], p['j']))
            out[(n1,)] = self.low(U1, p['j'])
            if self.max_order == 2:
                for n2, q in enumerate(self.psi):
                    if q['j'] > p['j']:
                        U2 = modulus(self.conv(U1, ref2d.lowres(q['h'], p['j']), q['j'] - p['j']))
                        out[(n1, n2)] = self.low(U2, q['j'])
        return out


class Dual3D(ref3d.Ref3D):
    def mod(self, u, l, j):
        U = np.fft.fftn(u, axes=(-3, -2, -1))
        ms = self.h[l][j] if self.rot else self.h[l][j][:1]
        e, d = 0, 0
        for h in ms:
            z = np.fft.ifftn(U * h, axes=(-3, -2, -1))
            e = e + np.abs(z[:1]) ** 2
            d = d + (np.conj(z[:1]) * z[1:]).real
        v = np.sqrt(e)
        return np.concatenate([v, np.where(v > 0, d / np.where(v > 0, v, 1), 0.0)])

    def integrals(self, u, delta=None):
        ax = (-3, -2, -1)
        out = []
        for q in self.powers:
            out.append(np.concatenate([(u[:1] ** q).sum(axis=ax),
                                       (q * u[:1] ** (q - 1) * u[1:]).sum(axis=ax)]))
        return np.stack(out, axis=-1)

    def __call__(self, x):
        cols = []
        for l in range(self.L + 1):
            o1, o2 = [], []
            for j1 in range(self.J + 1):
                U1 = self.mod(x, l, j1)
                o1.append(self.integrals(U1))
                if self.max_order == 2:
                    for j2 in range(j1 + 1, self.J + 1):
                        o2.append(self.integrals(self.mod(U1, l, j2)))
            cols.append(np.stack(o1 + o2, axis=-2))
        return np.stack(cols, axis=-2)

"""Independent float64 reference of the 2-D scattering transform."""
import math
import numpy as np


def padded_size(n, J):
    return ((n + 2 ** J) // 2 ** J + 1) * 2 ** J


def gabor(M, N, sigma, theta, xi, slant, offset=0):
    """periodized (5 x 5 periods) anisotropic Gabor; entry [0, 0] is the point (offset, offset)"""
    c, s = math.cos(theta), math.sin(theta)
    u = offset + np.arange(-2 * M, 3 * M, dtype=float)[:, None]
    v = offset + np.arange(-2 * N, 3 * N, dtype=float)[None, :]
    a = u * c + v * s          # along the wave vector
    b = -u * s + v * c         # across
    g = np.exp(-(a ** 2 + (slant * b) ** 2) / (2 * sigma ** 2) + 1j * xi * a)
    g = g.reshape(5, M, 5, N).sum(axis=(0, 2))
    return g * slant / (2 * 3.1415 * sigma ** 2)


def morlet(M, N, sigma, theta, xi, slant):
    w = gabor(M, N, sigma, theta, xi, slant)
    e = gabor(M, N, sigma, theta, 0.0, slant)
    return w - (w.sum() / e.sum()) * e


def lowres(h, res):
    """Band-limit h to the retained frequencies and fold by 2**res."""
    if res == 0:
        return h
    h = h.copy()
    for ax, n in enumerate(h.shape):
        start, length = int(n * 2.0 ** (-res - 1)), int(n * (1 - 2.0 ** -res))
        sl = [slice(None)] * 2
        sl[ax] = slice(start, start + length)
        h[tuple(sl)] = 0
    M, N = h.shape
    r = 2 ** res
    return h.reshape(r, M // r, r, N // r).sum(axis=(0, 2))


class Ref2D:
    def __init__(self, J, shape, L=8, max_order=2, pre_pad=False):
        self.J, self.L, self.max_order, self.pre_pad = J, L, max_order, pre_pad
        self.shape = tuple(shape)
        self.P = tuple(padded_size(n, J) for n in shape)
        M, N = self.P
        self.psi = []
        for j in range(J):
            for t in range(L):
                ang = (int(L - L / 2 - 1) - t) * math.pi / L
                self.psi.append(dict(j=j, theta=t, h=np.fft.fft2(morlet(
                    M, N, 0.8 * 2 ** j, ang, 0.75 * math.pi / 2 ** j, 4.0 / L)).real))
        self.phi = np.fft.fft2(gabor(M, N, 0.8 * 2 ** (J - 1), 0, 0, 1.0)).real

    def pad(self, x):
        if self.pre_pad:
            return x
        w = [(0, 0)] * (x.ndim - 2)
        for n, p in zip(self.shape, self.P):
            w.append(((p - n) // 2, (p - n + 1) // 2))
        return np.pad(x, w, mode='reflect')

    @staticmethod
    def conv(u, h, k):
        return np.fft.ifft2(np.fft.fft2(u) * h)[..., ::2 ** k, ::2 ** k]

    def low(self, u, j):
        y = self.conv(u, lowres(self.phi, j), self.J - j).real
        return y[..., 1:-1, 1:-1]

    def paths(self):
        out = [dict(j=(), n=(), theta=())]
        for n1, p in enumerate(self.psi):
            out.append(dict(j=(p['j'],), n=(n1,), theta=(p['theta'],)))
        if self.max_order == 2:
            for n1, p in enumerate(self.psi):
                for n2, q in enumerate(self.psi):
                    if q['j'] > p['j']:
                        out.append(dict(j=(p['j'], q['j']), n=(n1, n2),
                                        theta=(p['theta'], q['theta'])))
        return out

    def __call__(self, x):
        """dict n -> coefficient maps"""
        U0 = self.pad(np.asarray(x, dtype=np.float64))
        out = {(): self.low(U0, 0)}
        for n1, p in enumerate(self.psi):
            U1 = np.abs(self.conv(U0, p['h'], p['j']))
            out[(n1,)] = self.low(U1, p['j'])
            if self.max_order == 2:
                for n2, q in enumerate(self.psi):
                    if q['j'] > p['j']:
                        U2 = np.abs(self.conv(U1, lowres(q['h'], p['j']), q['j'] - p['j']))
                        out[(n1, n2)] = self.low(U2, q['j'])
        return out

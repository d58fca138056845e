"""Independent float64 reference of 3-D solid harmonic scattering."""
import math
import numpy as np


def freqs(n):
    """centered integer grid, origin at index 0 (FFT ordering)"""
    k = np.arange(n)
    return np.where(k < (n + 1) // 2, k, k - n).astype(float)


def grids(M, N, O, fourier=True):
    z, y, x = np.meshgrid(freqs(M), freqs(N), freqs(O), indexing='ij')
    if fourier:
        z, y, x = (2 * math.pi / M * z, 2 * math.pi / N * y, 2 * math.pi / O * x)
    return z, y, x


def legendre(l, m, c):
    """associated Legendre P_l^m with Condon-Shortley phase, m >= 0 (recursion)"""
    s = np.sqrt(np.maximum(0.0, 1 - c * c))
    p = np.ones_like(c)
    for i in range(1, m + 1):
        p = -(2 * i - 1) * s * p
    if l == m:
        return p
    q = (2 * m + 1) * c * p
    for n in range(m + 2, l + 1):
        p, q = q, ((2 * n - 1) * c * q - (n + m - 1) * p) / (n - m)
    return q


def sph(l, m, cos_polar, azim):
    a = abs(m)
    k = math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l - a) / math.factorial(l + a))
    y = k * legendre(l, a, cos_polar) * np.exp(1j * a * azim)
    if m < 0:
        y = (-1) ** a * np.conj(y)
    return y


def dfact(i):
    r = 1
    while i > 1:
        r *= i
        i -= 2
    return r


def harmonic_bank(M, N, O, sigma, l, fourier=True):
    z, y, x = grids(M, N, O, fourier)
    s = 1 / sigma if fourier else sigma
    r = np.sqrt(z * z + y * y + x * x)
    g = np.exp(-0.5 * (r / s) ** 2)
    if l == 0:
        h = g[None].astype(complex)
        return h if fourier else h / ((2 * math.pi) ** 1.5 * s ** 3)
    with np.errstate(invalid='ignore', divide='ignore'):
        cosp = np.where(r > 0, -z / r, 0.0)
    az = np.arctan2(y, x)
    rad = g * (r / s) ** l
    out = np.stack([sph(l, m, cosp, az) * rad for m in range(-l, l + 1)])
    if l % 2 == 0:
        k = 1 / (2 * math.pi * math.sqrt(l + 0.5) * dfact(l + 1))
    else:
        k = 1 / (2 ** ((l + 3) / 2) * math.sqrt(math.pi * (2 * l + 1))
                 * math.factorial((l + 1) // 2))
    if fourier:
        return out * k * (2 * math.pi) ** 1.5 * (-1j) ** l
    return out * k / s ** 3


class Ref3D:
    def __init__(self, J, shape, L=3, sigma_0=1, max_order=2,
                 rotation_covariant=True, integral_powers=(0.5, 1., 2.)):
        self.J, self.L, self.max_order = J, L, max_order
        self.rot, self.powers = rotation_covariant, integral_powers
        self.h = [[harmonic_bank(*shape, sigma_0 * 2 ** j, l) for j in range(J + 1)]
                  for l in range(L + 1)]

    def mod(self, u, l, j):
        U = np.fft.fftn(u, axes=(-3, -2, -1))
        ms = self.h[l][j] if self.rot else self.h[l][j][:1]
        e = 0
        for h in ms:
            e = e + np.abs(np.fft.ifftn(U * h, axes=(-3, -2, -1))) ** 2
        return np.sqrt(e)

    def integrals(self, u, delta):
        """sum of u**q with the interval it can move in if u moves by +-delta"""
        ax = (-3, -2, -1)
        mid = np.stack([(u ** q).sum(axis=ax) for q in self.powers], axis=-1)
        lo = np.stack([(np.maximum(u - delta, 0) ** q).sum(axis=ax) for q in self.powers], axis=-1)
        hi = np.stack([((u + delta) ** q).sum(axis=ax) for q in self.powers], axis=-1)
        return np.stack([mid, np.maximum(hi - mid, mid - lo)])

    def interval(self, x, eps=5e-6):
        """(..., M, N, O) -> values and their slack, each (..., n_scales, L+1, P)"""
        x = np.asarray(x, dtype=np.float64)
        cols = []
        ax = (-3, -2, -1)
        for l in range(self.L + 1):
            g = [max(1.0, float(np.sqrt((np.abs(h) ** 2).sum(0)).max())) for h in self.h[l]]
            d0 = eps * np.abs(x).max(axis=ax, keepdims=True)
            o1, o2 = [], []
            for j1 in range(self.J + 1):
                U1 = self.mod(x, l, j1)
                d1 = d0 * g[j1]
                o1.append(self.integrals(U1, d1))
                if self.max_order == 2:
                    for j2 in range(j1 + 1, self.J + 1):
                        d2 = (d1 + eps * U1.max(axis=ax, keepdims=True)) * g[j2]
                        o2.append(self.integrals(self.mod(U1, l, j2), d2))
            cols.append(np.stack(o1 + o2, axis=-2))
        v = np.stack(cols, axis=-2)
        return v[0], v[1] + 1e-5 * np.abs(v[0])

    def __call__(self, x):
        """(..., M, N, O) -> (..., n_scales, L+1, P)"""
        return self.interval(x)[0]

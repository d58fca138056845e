"""Independent float64 reference model of the 1-D and joint time-frequency
scattering transforms, written from the definitions (closed-form filters,
convolution, modulus, decimation in time).  Shares no code with kymatio."""
import math
import numpy as np

R_PSI = math.sqrt(0.5)
SIGMA0 = 0.1
ALPHA = 5.0


# ---------------------------------------------------------------- filters
def _bumps(N, center, sigma, P):
    """sum_k exp(-(w + k - center)^2 / 2 sigma^2), w in [0, 1), k in [1-P, P)"""
    w = np.arange(N) / N
    out = np.zeros(N)
    for k in range(1 - P, P):
        out += np.exp(-(w + k - center) ** 2 / (2 * sigma ** 2))
    return out


def gabor_bank_filter(N, xi, sigma):
    P = min(int(math.ceil(sigma * math.sqrt(2 * math.log(1e7)) + 1)), 5)
    low = _bumps(N, 0.0, sigma, P)
    if xi:
        band = _bumps(N, xi, sigma, P)
        h = band - (band[0] / low[0]) * low
    else:
        h = low
    return h / np.abs(np.fft.ifft(h)).sum()


def prenorm_peak(N, xi, sigma):
    low = _bumps(N, 0.0, sigma, 3)
    h = low
    if xi:
        band = _bumps(N, xi, sigma, 3)
        h = band - (band[0] / low[0]) * low
    return float(np.abs(h).max())


def ill_conditioned(N, xi, sigma):
    """True if the filter falls between frequency bins (grid too short for the
    bandwidth): what is left before normalization is mostly rounding error."""
    return prenorm_peak(N, xi, sigma) < 1e-5


def sigma_psi(xi, Q):
    a = 2.0 ** (-1.0 / Q)
    return xi * (1 - a) / (1 + a) / math.sqrt(2 * math.log(1 / R_PSI))


def filter_params(J, Q):
    """List of (xi, sigma) of the wavelets of a bank."""
    xi = max(1 / (1 + 2 ** (3.0 / Q)), 0.35)
    s = sigma_psi(xi, Q)
    smin = SIGMA0 / 2 ** J
    out = []
    if s <= smin:
        xi = s
    else:
        out.append((xi, s))
        while s > smin * 2 ** (1.0 / Q):
            xi, s = xi / 2 ** (1.0 / Q), s / 2 ** (1.0 / Q)
            out.append((xi, s))
    elbow = xi
    for q in range(1, Q):
        out.append((elbow * (1 - q / Q), smin))
    return out


def dyadic_j(xi, sigma):
    return int(math.floor(-math.log2(min(abs(xi) + ALPHA * sigma, 0.5)))) - 1


def fold(h, k):
    """periodized filter at resolution 2**-k"""
    return h.reshape(2 ** k, -1).sum(axis=0)


def temporal_support(h_hat, eps=1e-3):
    h = np.abs(np.fft.ifft(h_hat))
    half = len(h) // 2
    h = h[:half]
    tail = np.cumsum(h[::-1])[::-1]
    ok = np.nonzero(tail <= eps)[0]
    return int(ok[0]) + 1 if len(ok) else half


def conv_dec(u, h_hat, k):
    """circular convolution along the last axis then decimation by 2**k"""
    return np.fft.ifft(np.fft.fft(u) * h_hat)[..., ::2 ** k]


class Geometry:
    """Padding and time grid of the transform."""

    def __init__(self, N, T):
        sup = temporal_support(gabor_bank_filter(N, 0, SIGMA0 / T))
        J_pad = min(math.ceil(math.log2(N + 6 * sup)),
                    int(math.floor(math.log2(3 * N - 2))))
        self.N = N
        self.Np = 2 ** J_pad
        self.left = (self.Np - N) // 2
        self.right = self.Np - N - self.left

    def pad(self, x):
        return np.pad(x, [(0, 0)] * (x.ndim - 1) + [(self.left, self.right)],
                      mode='reflect')

    def crop(self, y, k):
        i0 = -(-self.left // 2 ** k)
        i1 = -(-(self.left + self.N) // 2 ** k)
        return y[..., i0:i1]

    def out_len(self, k):
        return -(-(self.left + self.N) // 2 ** k) - (-(-self.left // 2 ** k))


def parse_Q(Q):
    if isinstance(Q, (tuple, list)):
        return (Q[0], Q[1]) if len(Q) == 2 else (Q[0], 1)
    return (Q, 1)


class Ref1D:
    def __init__(self, J, N, Q=1, T=None, stride=None, max_order=2):
        Q1, Q2 = parse_Q(Q)
        self.J, self.N, self.max_order = J, N, max_order
        self.mode = ('global' if T == 'global' else 'none'
                     if (T is not None and T == 0) else 'local')
        self.Tval = 2 ** J if (T is None or self.mode != 'local') else T
        self.log2_T = int(math.floor(math.log2(self.Tval)))
        self.s = self.log2_T if stride is None else int(math.log2(stride))
        self.g = Geometry(N, self.Tval)
        Np = self.g.Np
        self.phi = gabor_bank_filter(Np, 0, SIGMA0 / self.Tval)
        self.bank = []
        for Q_ in (Q1, Q2):
            self.bank.append([dict(xi=xi, sigma=s, j=dyadic_j(xi, s),
                                   h=gabor_bank_filter(Np, xi, s))
                              for xi, s in filter_params(J, Q_)])

    def paths(self):
        """keys (n tuples) sorted by order then lexicographically"""
        out = [()]
        out += [(n1,) for n1 in range(len(self.bank[0]))]
        if self.max_order == 2:
            for n1, p1 in enumerate(self.bank[0]):
                for n2, p2 in enumerate(self.bank[1]):
                    if p2['j'] > p1['j']:
                        out.append((n1, n2))
        return out

    def low(self, u, k):
        """final averaging of u, sampled at resolution 2**-k"""
        if self.mode == 'local':
            return self.g.crop(conv_dec(u, fold(self.phi, k), self.s - k).real, self.s)
        if self.mode == 'global':
            return u.sum(axis=-1, keepdims=True)
        return self.g.crop(u, k)

    def u1(self, U0, n1):
        p = self.bank[0][n1]
        k = min(p['j'], self.s) if self.mode == 'local' else p['j']
        return np.abs(conv_dec(U0, p['h'], k)), k

    def u2(self, U1, k1, n2):
        p = self.bank[1][n2]
        k = min(p['j'], self.s) if self.mode == 'local' else p['j']
        k = max(k, k1)
        return np.abs(conv_dec(U1, fold(p['h'], k1), k - k1)), k

    def __call__(self, x):
        """x: (..., N) float64 -> dict n -> (..., length)"""
        U0 = self.g.pad(np.asarray(x, dtype=np.float64))
        out = {(): self.low(U0, 0)}
        for n1, p1 in enumerate(self.bank[0]):
            U1, k1 = self.u1(U0, n1)
            out[(n1,)] = self.low(U1, k1)
            if self.max_order < 2:
                continue
            for n2, p2 in enumerate(self.bank[1]):
                if p2['j'] > p1['j']:
                    U2, k2 = self.u2(U1, k1, n2)
                    out[(n1, n2)] = self.low(U2, k2)
        return out


# ---------------------------------------------------------------- JTFS
class RefJTFS(Ref1D):
    def __init__(self, J, J_fr, Q, N, T=None, stride=None, Q_fr=1, F=None,
                 stride_fr=None, out_type='array', format='time'):
        super().__init__(J, N, Q, T, stride, 2)
        Q1, _ = parse_Q(Q)
        if isinstance(Q_fr, (tuple, list)):
            Q_fr = Q_fr[0]
        self.J_fr, self.out_type, self.format = J_fr, out_type, format
        self.mode_fr = ('global' if F == 'global' else 'none'
                        if (F is not None and F == 0) else 'local')
        Fval = 2 ** J_fr if (F is None or self.mode_fr != 'local') else F
        log2_F = int(math.floor(math.log2(Fval)))
        self.log2_F = log2_F
        self.s_fr = log2_F if stride_fr is None else int(math.log2(stride_fr))
        n_in = (J + 1) * Q1
        K = max(J_fr, log2_F)
        margin = 8 * min(Fval, 2 ** J_fr)
        self.N_fr = int(max((n_in + margin) // 2 ** K, math.ceil(n_in / 2 ** K)) * 2 ** K)
        self.phi_fr = gabor_bank_filter(self.N_fr, 0, SIGMA0 / Fval)
        self.fr = [dict(xi=0, sigma=SIGMA0 / 2 ** J_fr, j=J_fr,
                        h=gabor_bank_filter(self.N_fr, 0, SIGMA0 / 2 ** J_fr))]
        pos = filter_params(J_fr, Q_fr)
        for sgn in (1, -1):
            for xi, s in pos:
                self.fr.append(dict(xi=sgn * xi, sigma=s, j=dyadic_j(xi, s),
                                    h=gabor_bank_filter(self.N_fr, sgn * xi, s)))
        self.n_pos = len(pos)

    def _freq(self, X, pos_only):
        """X (B, n1, t) -> yields n_fr, |X * psi_fr| (B, n1', t), stride log2"""
        n1_max = X.shape[1]
        Xp = np.zeros((X.shape[0], self.N_fr, X.shape[2]), dtype=complex)
        Xp[:, :n1_max] = X
        Xp = np.moveaxis(Xp, 1, -1)
        for n_fr, p in enumerate(self.fr):
            if pos_only and p['xi'] < 0:
                continue
            k = min(p['j'], self.s_fr) if self.mode_fr == 'local' else p['j']
            Y = np.abs(conv_dec(Xp, p['h'], k))
            yield n_fr, p, np.moveaxis(Y, -1, 1), k

    def _avg_fr(self, Y, p, k, n1_max):
        """frequential averaging -> (B, n1', t), n1_stride"""
        if p['xi'] == 0 or self.mode_fr == 'none':
            return Y, 2 ** k
        Z = np.moveaxis(Y, 1, -1)
        if self.mode_fr == 'global':
            return np.moveaxis(Z.sum(-1, keepdims=True), -1, 1), n1_max
        kin = min(p['j'], self.s_fr)
        Z = conv_dec(Z, fold(self.phi_fr, kin), self.s_fr - kin).real
        return np.moveaxis(Z, -1, 1), 2 ** self.s_fr

    def joint(self, x):
        """yields dict(n, n_fr, order, coef (B, n1', t), n1_max, n1_stride, j, ...)"""
        x = np.asarray(x, dtype=np.float64).reshape(-1, x.shape[-1])
        U0 = self.g.pad(x)
        yield dict(n=(), order=0, coef=self.low(U0, 0), n2=None, n_fr=None)
        U1s = [self.u1(U0, n1) for n1 in range(len(self.bank[0]))]
        S1 = np.stack([conv_dec(U1, fold(self.phi, k1), self.s - k1).real
                       for U1, k1 in U1s], axis=1)
        for n_fr, p, Y, k in self._freq(S1, True):
            if self.mode == 'global':
                Y = Y.sum(-1, keepdims=True)
            Z, st = self._avg_fr(Y, p, k, S1.shape[1])
            if self.mode != 'global':
                Z = self.g.crop(Z, self.s)
            yield dict(n=(n_fr,), order=1, coef=Z, n1_max=S1.shape[1],
                       n1_stride=st, n_fr=n_fr, n2=None)
        for n2, p2 in enumerate(self.bank[1]):
            rows = []
            for n1, p1 in enumerate(self.bank[0]):
                if p2['j'] > p1['j']:
                    U1, k1 = U1s[n1]
                    k2 = min(p2['j'], self.s) if self.mode == 'local' else p2['j']
                    k2 = max(k1, k2)
                    rows.append(conv_dec(U1, fold(p2['h'], k1), k2 - k1))
            if not rows:
                continue
            Y2 = np.stack(rows, axis=1)
            n1_max = Y2.shape[1]
            for n_fr, p, Y, k in self._freq(Y2, False):
                if self.mode == 'global':
                    Y = Y.sum(-1, keepdims=True)
                elif self.mode == 'local':
                    kin = min(p2['j'], self.s)
                    Y = conv_dec(Y, fold(self.phi, kin), self.s - kin).real
                Z, st = self._avg_fr(Y, p, k, n1_max)
                if self.mode == 'local':
                    Z = self.g.crop(Z, self.s)
                elif self.mode == 'none':
                    Z = self.g.crop(Z, p2['j'])
                yield dict(n=(n2, n_fr), order=2, coef=Z, n1_max=n1_max,
                           n1_stride=st, n_fr=n_fr, n2=n2)

    def paths_out(self, x):
        """list of (key, coef, info) in documented output order.

        joint: coef (B, n1', t) (order 0: (B, t)); time: coef (B, t)."""
        out = []
        keep_pad = self.format == 'joint' and self.out_type == 'array'
        for p in self.joint(x):
            if p['order'] == 0:
                if not keep_pad:
                    out.append(((), p['coef'], p))
                continue
            c = p['coef']
            if not keep_pad:
                c = c[:, :1 + (p['n1_max'] - 1) // p['n1_stride']]
            if self.format == 'joint':
                out.append((p['n'], c, p))
            else:
                for i, n1 in enumerate(range(0, p['n1_max'], p['n1_stride'])):
                    out.append(((n1,) + p['n'], c[:, i], dict(p, n1=n1)))
        return out

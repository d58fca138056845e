"""C22: backend primitives meet their contracts."""
import importlib
import numpy as np
from hypothesis import strategies as st
from ..harness import Sub, Violation, call, expect_raises, need
from .. import fe

RULE = ('Every primitive of the twelve backends (NumPy, Torch, TensorFlow, JAX x 1-D, 2-D, 3-D) on generated tensors (batch '
        'shapes, odd/even/power-of-two sizes, subsampling factors, padding widths up to the limit, filters with fewer axes, '
        'zeros, both precisions) against a NumPy model, plus generated misuse (real data for complex operations and '
        'conversely, incompatible filters, non-contiguous tensors, padding beyond the signal) with the documented class. '
        'Non-trivial: any tensor with more than one distinct value, and every misuse.')
ASSUMPTIONS = ['tolerance 1e-5 (single) or 1e-11 (double) of the largest expected value times log of the size',
               'the torch_skcuda backends need CUDA and are not exercised']


def backend(f, d):
    return importlib.import_module('kymatio.scattering%dd.backend.%s_backend' % (d, f)).backend


def cx(f, z, dbl):
    """complex numpy -> backend tensor"""
    if f == 'torch':
        import torch
        return torch.view_as_real(torch.from_numpy(np.ascontiguousarray(z)).to(
            torch.complex128 if dbl else torch.complex64)).contiguous()
    z = np.asarray(z, dtype=np.complex128 if dbl and f == 'numpy' else np.complex64)
    return conv(f, z)


def re(f, x, dbl, tail=True):
    if f == 'torch':
        import torch
        x = torch.from_numpy(np.ascontiguousarray(x)).to(torch.float64 if dbl else torch.float32)
        return x[..., None].contiguous() if tail else x
    return conv(f, np.asarray(x, dtype=np.float64 if dbl and f == 'numpy' else np.float32))


def conv(f, a):
    if f == 'tensorflow':
        import tensorflow as tf
        return tf.convert_to_tensor(a)
    if f == 'jax':
        import jax.numpy as jnp
        return jnp.asarray(a)
    return a


def back(f, y, kind):
    """backend tensor -> numpy; kind 'c' complex, 'r' real with trailing axis in torch, 'p' plain real"""
    y = fe.to_np(y)
    if f == 'torch' and kind == 'c':
        need(y.shape[-1] == 2, 'complex result without real/imaginary axis: shape %s', y.shape)
        return y[..., 0] + 1j * y[..., 1]
    if f == 'torch' and kind == 'r':
        need(y.shape[-1] == 1, 'real result without trailing axis: shape %s', y.shape)
        return y[..., 0]
    if kind == 'c':
        need(np.iscomplexobj(y), 'expected a complex result')
    else:
        need(not np.iscomplexobj(y), 'expected a real result')
    return y


def same(y, ref, dbl, what, n=2, scale=0.0):
    need(y.shape == ref.shape, '%s: shape %s, expected %s', what, y.shape, ref.shape)
    if ref.size == 0:
        return
    s = max(float(np.abs(ref).max()), scale, 1e-30)
    d = float(np.abs(y - ref).max())
    need(bool(np.all(np.isfinite(np.abs(y)))) and d <= (1e-11 if dbl else 1e-5) * s * max(1, np.log2(max(n, 2))),
         '%s: deviation %.2e (values up to %.2e)', what, d, s)


def data(c, shape, cplx):
    rng = np.random.RandomState(c['seed'])
    x = rng.randn(*shape)
    if cplx:
        x = x + 1j * rng.randn(*shape)
    if c['kind'] == 'sparse':
        x = x * (rng.rand(*shape) < 0.3)
    elif c['kind'] == 'zero':
        x = x * 0
    elif c['kind'] == 'delta':
        y = np.zeros_like(x)
        y.flat[rng.randint(max(x.size, 1))] = 1
        x = y
    x = x * c['amp']
    return x.astype(np.complex64 if cplx else np.float32).astype(np.complex128 if cplx else np.float64)


AX = {1: (-1,), 2: (-2, -1), 3: (-3, -2, -1)}


def rpad(x, w):
    return np.pad(x, [(0, 0)] * (x.ndim - len(w)) + list(w), mode='reflect')


def body(c):
    f, d, op = c['fe'], c['dim'], c['op']
    dbl = c['dbl'] and f in ('numpy', 'torch')
    B = backend(f, d)
    lead, sig = tuple(c['lead']), tuple(c['sig'][:d])
    n = int(np.prod(sig))
    ax = AX[d]
    v = c['v']
    what = '%s %dD %s' % (f, d, op)
    if op == 'fft':
        z = data(c, lead + sig, True)
        Z = np.fft.fftn(z, axes=ax)
        same(back(f, call(B.ifft, cx(f, Z, dbl)), 'c'), z, dbl, what + ' ifft', n)
        if d == 1:
            same(back(f, call(B.cfft, cx(f, z, dbl)), 'c'), Z, dbl, what + ' cfft', n)
            same(back(f, call(B.ifft, call(B.cfft, cx(f, z, dbl))), 'c'), z, dbl, what + ' ifft(cfft)', n)
        x = data(c, lead + sig, False)
        X = np.fft.fftn(x, axes=ax)
        same(back(f, call(B.rfft, re(f, x, dbl)), 'c'), X, dbl and f != 'tensorflow', what + ' rfft', n)
        if d < 3:
            same(back(f, call(B.irfft, cx(f, X, dbl)), 'r'), x, dbl, what + ' irfft', n)
            same(back(f, call(B.irfft, call(B.rfft, re(f, x, dbl))), 'r'), x, dbl, what + ' irfft(rfft)', n)
            same(back(f, call(B.irfft, cx(f, Z, dbl)), 'r'), z.real, dbl, what + ' irfft of a non-Hermitian spectrum', n)
        else:
            same(back(f, call(B.ifft, call(B.rfft, re(f, x, dbl))), 'c'), x + 0j, dbl, what + ' ifft(rfft)', n)
    elif op == 'subsample':
        k = 2 ** (v % 4)
        # 2-D and 1-D: size a multiple of k in every direction
        sig = tuple(k * (1 + s % 5) for s in sig)
        z = data(c, lead[-1:] + sig if d == 2 and f != 'torch' else lead + sig, True)
        Z = np.fft.fftn(z, axes=ax)
        want = z[(Ellipsis,) + (slice(None, None, k),) * d]
        got = back(f, call(B.subsample_fourier, cx(f, Z, dbl), k), 'c')
        need(got.shape == want.shape, '%s: shape %s, expected %s', what, got.shape, want.shape)
        same(np.fft.ifftn(got, axes=ax), want, dbl, what, z.size, float(np.abs(z).max()))
    elif op == 'modulus':
        if d == 3:
            z = data(c, lead + sig, True)
            m = np.abs(data(dict(c, seed=c['seed'] + 1), lead + sig, False))
            same(back(f, call(B.modulus_rotation, cx(f, z, dbl), None), 'r'), np.abs(z), dbl, what)
            same(back(f, call(B.modulus_rotation, cx(f, z, dbl), re(f, m, dbl)), 'r'), np.sqrt(m ** 2 + np.abs(z) ** 2), dbl, what)
        z = data(c, lead + sig, True)
        same(back(f, call(B.modulus, cx(f, z, dbl)), 'r'), np.abs(z), dbl, what)
    elif op == 'cdgmm':
        z = data(c, lead + sig, True)
        fn = B.cdgmm3d if d == 3 else B.cdgmm
        h = data(dict(c, seed=c['seed'] + 1), sig, True)
        hr = data(dict(c, seed=c['seed'] + 2), sig, False)
        if d == 3 and f == 'tensorflow':
            # 3-D filters are NumPy arrays in this backend
            same(back(f, call(fn, cx(f, z, dbl), h.astype(np.complex64)), 'c'), z * h, False, what)
        else:
            same(back(f, call(fn, cx(f, z, dbl), cx(f, h, dbl)), 'c'), z * h, dbl, what + ' (complex filter)')
            if f != 'tensorflow':        # TensorFlow does not multiply complex by real tensors
                same(back(f, call(fn, cx(f, z, dbl), re(f, hr, dbl)), 'c'), z * hr, dbl, what + ' (real filter)')
            if d < 3 and len(lead) > 1 and f != 'torch':     # filter with a channel axis
                h2 = data(dict(c, seed=c['seed'] + 3), lead[-1:] + sig, True)
                same(back(f, call(fn, cx(f, z, dbl), cx(f, h2, dbl)), 'c'), z * h2, dbl, what + ' (channel filter)')
    elif op == 'pad':
        if d == 1:
            N = sig[0] + 1
            x = data(c, (lead + (1, 1))[:2] + (N,), False)
            l, r = v % N, (v // 7) % N
            y = back(f, call(B.pad, re(f, x, dbl, False), l, r), 'r')
            same(y, rpad(x, [(l, r)]), dbl, what + ' reflect')
            y0 = call(B.pad, re(f, x, dbl, False), l, r + v % 5, mode='constant')
            same(back(f, y0, 'r'), np.pad(x, [(0, 0)] * 2 + [(l, r + v % 5)]), dbl, what + ' constant')
            u = fe.to_np(call(B.unpad, call(B.pad, re(f, x, dbl, False), l, r), l, l + N))
            same(u, x, dbl, what + ' unpad inverts pad')
        elif d == 2:
            M, N = sig[0] + 1, sig[1] + 1
            x = data(c, (2,) + (M, N), False)
            pm = (M, M) if v % 5 == 0 and M > 2 else ((v // 2) % M, (v // 3) % M)
            pn = (N, N) if v % 7 == 0 and N > 2 else ((v // 5) % N, (v // 7) % N)
            for p, s in ((pm, M), (pn, N)):      # equal to the size on one side only does not occur in the transform
                if (p[0] == s) != (p[1] == s):
                    return False
            P = call(B.Pad, [pm[0], pm[1], pn[0], pn[1]], [M, N])
            y = back(f, call(P, re(f, x, dbl, False)), 'r')
            same(y, rpad(x, [pm, pn]), dbl, what + ' reflect')
            w = rpad(x, [(1, 1), (1, 1)])
            same(fe.to_np(call(B.unpad, re(f, w, dbl))), x, dbl, what + ' unpad')
        else:
            return False
    elif op == 'stack':
        k = 1 + v % 4
        if d == 3:
            L = v % 3
            arrs = [data(dict(c, seed=c['seed'] + i), (2, 3), False) for i in range(k * (L + 1))]
            y = fe.to_np(call(B.stack, [re(f, a, dbl, False) for a in arrs], L))
            want = np.stack(arrs, 1).reshape(2, k, L + 1, 3)
        elif d == 2:
            # the transform stacks (batch, rows, columns) tensors
            arrs = [data(dict(c, seed=c['seed'] + i), lead[:1] + sig, False) for i in range(k)]
            y = fe.to_np(call(B.stack, [re(f, a, dbl, False) for a in arrs]))
            want = np.stack(arrs, -3)
        else:
            arrs = [data(dict(c, seed=c['seed'] + i), lead + sig, False) for i in range(k)]
            dim = v % (len(lead) + 2)
            y = fe.to_np(call(B.stack, [re(f, a, dbl, False) for a in arrs], dim))
            want = np.stack(arrs, dim)
        same(y, want, dbl, what)
    elif op == 'integrals':
        if d != 3:
            return False
        x = np.abs(data(c, (len(lead) + 1,) + sig, False))
        qs = [[1.0], [0.5, 2.0], [1.0, 1.5, 3.0]][v % 3]
        xt = re(f, x, dbl, v % 2 == 0)
        y = fe.to_np(call(B.compute_integrals, xt, qs))
        want = np.stack([(x ** q).sum(axis=(1, 2, 3)) for q in qs], -1)
        need(y.shape == want.shape, '%s: shape %s, expected %s', what, y.shape, want.shape)
        need(bool(np.all(np.abs(y - want) <= 2e-4 * np.abs(want) + 1e-30)), '%s: wrong integrals', what)
    elif op == 'average':
        if d != 1:
            return False
        x = data(c, lead + sig, False)
        same(back(f, call(B.average_global, re(f, x, dbl)), 'r'), x.sum(-1, keepdims=True), False, what, n)
    elif op == 'frequency':
        if d != 1:
            return False
        F, T = sig[0], 1 + v % 4
        x = data(c, (2, F, T), False)
        z = data(c, (2, F, T), True)
        same(back(f, call(B.swap_time_frequency, re(f, x, dbl)), 'r'), np.swapaxes(x, -1, -2), dbl, what + ' swap')
        same(back(f, call(B.swap_time_frequency, cx(f, z, dbl)), 'c'), np.swapaxes(z, -1, -2), dbl, what + ' swap complex')
        p = v % 9
        xt = np.swapaxes(x, -1, -2)
        same(back(f, call(B.pad_frequency, re(f, xt, dbl), p), 'r'), np.pad(xt, [(0, 0), (0, 0), (0, p)]), dbl, what + ' pad')
        parts = call(B.split_frequency_axis, re(f, x, dbl))
        need(len(parts) == F, '%s: split into %d parts, expected %d', what, len(parts), F)
        for i, q in enumerate(parts):
            same(back(f, q, 'r'), x[:, i:i + 1], dbl, what + ' split')
        x4 = data(c, (2, 1, F, T), False)
        n1, s = v % (F + 1), 1 + v % 3
        if f == 'torch':
            y = back(f, call(B.unpad_frequency, re(f, x4, dbl), n1, s), 'r')
        else:
            y = fe.to_np(call(B.unpad_frequency, re(f, x4, dbl), n1, s))
        same(y, x4[..., :1 + n1 // s, :], dbl, what + ' unpad')
    elif op == 'reshape':
        if d == 3:
            return False
        x = data(c, lead + sig, False)
        y = call(B.reshape_input, re(f, x, dbl, False), sig)
        same(fe.to_np(y), x.reshape((-1, 1) + sig), dbl, what + ' input')
        S = data(c, (int(np.prod(lead)), 3) + sig, False)
        y = call(B.reshape_output, re(f, S, dbl, False), lead, 1 + d)
        same(fe.to_np(y), S.reshape(lead + (3,) + sig), dbl, what + ' output')
    return c['kind'] != 'zero'


# ------------------------------------------------------------------ misuse
def body_misuse(c):
    f, d = c['fe'], c['dim']
    B = backend(f, d)
    lead, sig = tuple(c['lead']), tuple(c['sig'][:d])
    dbl = False
    x, z = data(c, lead + sig, False), data(c, lead + sig, True)
    v = c['v']
    R, Z = re(f, x, dbl), cx(f, z, dbl)
    tests = [('ifft of real data', lambda: B.ifft(R), TypeError), ('rfft of complex data', lambda: B.rfft(Z), TypeError)]
    if d < 3:
        tests += [('irfft of real data', lambda: B.irfft(R), TypeError),
                  ('subsample_fourier of real data', lambda: B.subsample_fourier(R, 1), TypeError)]
    if d == 1:
        tests += [('cfft of real data', lambda: B.cfft(R), TypeError),
                  ('average_global of complex data', lambda: B.average_global(Z), TypeError),
                  ('pad beyond the signal (left)', lambda: B.pad(re(f, data(c, (1, 1) + sig, False), dbl, False), sig[0] + v % 3, 0),
                   ValueError),
                  ('pad beyond the signal (right)', lambda: B.pad(re(f, data(c, (1, 1) + sig, False), dbl, False), 0, sig[0] + v % 3),
                   ValueError)]
    h = data(c, sig, True)
    if not (d == 3 and f == 'tensorflow'):
        fn = B.cdgmm3d if d == 3 else B.cdgmm
        bad = list(sig)
        bad[v % d] += 1
        hb = data(c, tuple(bad), True)
        tests += [('cdgmm of a real signal', lambda: fn(R, cx(f, h, dbl)), TypeError),
                  ('cdgmm with a filter of another size', lambda: fn(Z, cx(f, hb, dbl)), RuntimeError),
                  ('cdgmm with a real filter of another size', lambda: fn(Z, re(f, hb.real, dbl)), RuntimeError)]
        one = list(sig)
        one[(v // 2) % d] = 1
        odd = [tuple(one), (5,) + sig, (1,) * d, (2, 5) + sig]
        if lead[-1] > 1:
            odd.append((1,) + sig)
        if d > 1:
            odd.append(sig[:-1])          # fewer axes align with the last ones
        for i, s in enumerate(odd):
            if len(s) < d and (lead + sig)[-len(s):] == s:
                continue
            ho = data(c, s, True)
            tests.append(('cdgmm with a filter of shape variant %d' % i, lambda ho=ho: fn(Z, cx(f, ho, dbl)), RuntimeError))
            if f != 'tensorflow':
                tests.append(('cdgmm with a real filter of shape variant %d' % i, lambda ho=ho: fn(Z, re(f, ho.real, dbl)),
                              RuntimeError))
        if f in ('numpy', 'jax'):
            hi = conv(f, np.ones(sig, dtype=np.int32))
            tests.append(('cdgmm with an integer filter', lambda: fn(Z, hi), TypeError))
        if f == 'torch':
            tests += [('cdgmm with mixed precision', lambda: fn(Z, cx(f, h, True)), TypeError),
                      ('cdgmm with a mixed precision real filter', lambda: fn(Z, re(f, h.real, True)), TypeError)]
    if f == 'torch':
        import torch
        nc = torch.zeros(sig + (3, 2)).transpose(-2, 0) if d else None
        ncr = torch.zeros(sig + (3, 1)).transpose(-2, 0)
        if not nc.is_contiguous():
            tests += [('ifft of a non-contiguous tensor', lambda: B.ifft(nc), RuntimeError),
                      ('modulus of a non-contiguous tensor', lambda: B.modulus(nc), RuntimeError)]
        if not ncr.is_contiguous():
            tests.append(('rfft of a non-contiguous tensor', lambda: B.rfft(ncr), RuntimeError))
        tests.append(('modulus of real data', lambda: B.modulus(R), TypeError))
        tests.append(('input_checks(None)', lambda: B.input_checks(None), TypeError))
    if f in ('numpy', 'jax'):
        tests.append(('input_checks(None)', lambda: B.input_checks(None), TypeError))
    if f == 'numpy':
        tests.append(('input_checks(list)', lambda: B.input_checks([1.0, 2.0]), TypeError))
    tests += [('cdgmm3d with a filter of rank other than 3', lambda: B.cdgmm3d(Z, data(c, sig[1:], True)), RuntimeError)] \
        if d == 3 and f == 'tensorflow' else []
    t = tests[c['t'] % len(tests)]
    expect_raises(t[2], t[1], '%s %dD: %s' % (f, d, t[0]))
    return t[0]


OPS = {1: ['fft', 'subsample', 'modulus', 'cdgmm', 'pad', 'stack', 'average', 'frequency', 'reshape'],
       2: ['fft', 'subsample', 'modulus', 'cdgmm', 'pad', 'stack', 'reshape'],
       3: ['fft', 'modulus', 'cdgmm', 'stack', 'integrals']}


@st.composite
def cases(draw, fes, misuse=False, sizes=None):
    d = draw(st.integers(1, 3))
    size = st.one_of(st.integers(1, 9 if d > 1 else 40), st.sampled_from([2, 4, 8]))
    if sizes:
        size = st.sampled_from(sizes)
    c = dict(fe=draw(st.sampled_from(fes)), dim=d, sig=[draw(size) for _ in range(d)],
             lead=draw(st.sampled_from([[1], [2], [3], [2, 1], [1, 2], [2, 3]])),
             seed=draw(st.integers(0, 10 ** 6)), amp=draw(st.sampled_from([1.0, 1.0, 1e3, 1e-3])),
             kind=draw(st.sampled_from(['noise', 'noise', 'sparse', 'delta', 'zero'])), v=draw(st.integers(0, 300)))
    if misuse:
        c['t'] = draw(st.integers(0, 40))
        if d == 3:
            c['lead'] = c['lead'][:1]
        # torch tells complex from real data by a last axis of length 2 or 1
        c['sig'] = [s + 2 if s < 3 else s for s in c['sig']]
    else:
        c['op'] = draw(st.sampled_from(OPS[d]))
        c['dbl'] = draw(st.booleans())
        if d == 3:
            c['lead'] = c['lead'][:1]
    return c


SUBS = [
    Sub('numpy', lambda: cases(['numpy']), body, 3000, 60000, shards=1, rank=1),
    Sub('torch', lambda: cases(['torch']), body, 2500, 50000, shards=1, rank=2),
    Sub('tensorflow', lambda: cases(['tensorflow']), body, 1500, 25000, shards=1, rank=3),
    Sub('jax', lambda: cases(['jax'], sizes=[3, 4, 8]), body, 400, 8000, shards=2, rank=4),
    Sub('misuse', lambda: cases(['numpy', 'torch', 'tensorflow'], True), body_misuse, 1200, 20000, shards=1, rank=3),
    Sub('misuse_jax', lambda: cases(['jax'], True, [3, 4, 8]), body_misuse, 200, 4000, shards=1, rank=3),
]

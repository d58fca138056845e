"""C21: invalid arguments are rejected with the documented class, valid ones accepted."""
import numpy as np
from hypothesis import strategies as st
from .. import fe, gen
from ..harness import Sub, Violation, call, need
from .c12 import array_ok
from .c14 import setup, case

RULE = ('(reject) a generated valid configuration and input of one of the four transforms in any frontend is mutated by one of '
        '~60 rules that leave the documented domain (with a generated offending value); constructing and calling must raise the '
        'class documented for that rule. (accept) the same configurations unmutated, in equivalent spellings (1-tuples, NumPy '
        'integers, float T, explicit defaults, oversampling spelled as stride), construct and return coefficients. '
        'Non-trivial: every mutation; for acceptance, a configuration that differs from the defaults.')
ASSUMPTIONS = ['the documented classes are those of the docstrings and of explicit raise statements of the pinned tree; '
               'where only "an error" can be expected, any exception is accepted']

FES = ['numpy', 'torch', 'tensorflow', 'jax']


class Drop(Exception):
    pass


def _nd(kw):
    return 1 if isinstance(kw['shape'], int) else len(kw['shape'])


# each rule: name -> (transforms, function(kw, x, v, f) -> (kw, x, exception classes))
def r_T_large(kw, x, v, f):
    kw.pop('stride', None)
    return dict(kw, T=kw['shape'] + [1 + v, 0.5, 0.01, 0.999, 1e-6][v % 5]), x, ValueError


def r_T_small(kw, x, v, f):
    kw.pop('stride', None)
    return dict(kw, T=[0.5, 0.01, 0.999, -1, -3.5, -1e-6, 0.999999, 1e-9][v % 8]), x, ValueError


def r_stride_odd(kw, x, v, f):
    if kw.get('T') in (0, 'global'):
        raise Drop
    return dict(kw, stride=[3, 5, 6, 7, 12, 0, -2][v % 7]), x, ValueError


def r_stride_float(kw, x, v, f):
    if kw.get('T') in (0, 'global'):
        raise Drop
    return dict(kw, stride=[2.0, 1.5, 0.5, 4.0][v % 4]), x, ValueError


def r_stride_mode(kw, x, v, f):
    return dict(kw, T=[0, 'global'][v % 2], stride=[1, 2, 4][v % 3], out_type=kw['out_type'] if v % 2 else 'list'), x, ValueError


def r_Q_small(kw, x, v, f):
    return dict(kw, Q=[0, -1, (0, 1), (2, 0), (1, -2), 0.5, (0,)][v % 7]), x, ValueError


def r_Q_type(kw, x, v, f):
    return dict(kw, Q=[[2, 1], [1], 2.5][v % 3]), x, ValueError


def r_Q_long(kw, x, v, f):
    return dict(kw, Q=(2, 1, 1) if v % 2 else (1, 1, 1, 1)), x, NotImplementedError


def r_shape1(kw, x, v, f):
    n = kw['shape']
    return dict(kw, shape=[(n, n), float(n), None, (n, 1), [n]][v % 5]), x, ValueError


def r_out_type(kw, x, v, f):
    return dict(kw, out_type=['foo', 'Array', '', None, 'tensor', 'lists'][v % 6]), x, (RuntimeError if _nd(kw) == 2 else ValueError)


def r_out_dict2d(kw, x, v, f):
    return dict(kw, out_type='dict'), x, RuntimeError


def r_T0_array(kw, x, v, f):
    kw.pop('stride', None)
    return dict(kw, T=0, out_type='array'), x, ValueError


def r_scalar(kw, x, v, f):
    return kw, np.asarray(1.5), ValueError


def r_length(kw, x, v, f):
    n = x.shape[-1]
    m = [n + 1, n - 1, 2 * n, n + 7][v % 4]
    if m < 1 or m == n:
        raise Drop
    return kw, np.resize(x, x.shape[:-1] + (m,)), (RuntimeError, ValueError)


def r_size(kw, x, v, f):
    d = _nd(kw)
    ax = -1 - v % d
    s = list(x.shape)
    s[ax] += [1, -1, s[ax], 2][(v // d) % 4]
    if s[ax] < 1:
        raise Drop
    return kw, np.resize(x, s), RuntimeError


def r_swapped(kw, x, v, f):
    d = _nd(kw)
    y = np.ascontiguousarray(np.swapaxes(x, -1, -d))
    if y.shape == x.shape:
        raise Drop
    return kw, y, RuntimeError


def r_rank(kw, x, v, f):
    d = _nd(kw)
    return kw, x.reshape(-1)[:x.shape[-1]] if d == 2 or v % 2 else x.reshape((-1,) + x.shape[-2:])[0], RuntimeError


def r_J2d(kw, x, v, f):
    m = min(kw['shape'])
    J = int(np.floor(np.log2(m))) + 1 + v % 3
    return dict(kw, J=J), x, RuntimeError


def r_method(kw, x, v, f):
    return dict(kw, method=['local', 'standard', 'foo', None, 'Integral'][v % 5]), x, ValueError


def r_format(kw, x, v, f):
    return dict(kw, format=['foo', 'Joint', None, 'frequency', ''][v % 5]), x, ValueError


def r_F_large(kw, x, v, f):
    Q = kw['Q'][0] if isinstance(kw['Q'], tuple) else kw['Q']
    kw.pop('stride_fr', None)
    return dict(kw, F=(kw['J'] + 1) * Q + [1 + v, 0.5, 0.01, 0.999, 1e-6][v % 5]), x, ValueError


def r_F_small(kw, x, v, f):
    kw.pop('stride_fr', None)
    return dict(kw, F=[0.5, 0.1, -1, -0.5, 0.999999, 1e-9][v % 6]), x, ValueError


def r_stride_fr(kw, x, v, f):
    if kw.get('F') in (0, 'global'):
        raise Drop
    return dict(kw, stride_fr=[3, 6, 0, -2, 1.5, 2.0, 5, 7, 12][v % 9]), x, ValueError


def r_stride_fr_mode(kw, x, v, f):
    return dict(kw, F=[0, 'global'][v % 2], stride_fr=[1, 2][v // 2 % 2], out_type='list'), x, ValueError


def r_Qfr(kw, x, v, f):
    q, e = [(0, ValueError), (-1, ValueError), ((1, 1), NotImplementedError), ([1], ValueError), ((0,), ValueError)][v % 5]
    return dict(kw, Q_fr=q), x, e


def r_F0_joint_array(kw, x, v, f):
    kw.pop('stride_fr', None)
    if kw.get('T') == 0:
        kw.pop('T')
    return dict(kw, F=0, format='joint', out_type='array'), x, ValueError


def r_oversampling(kw, x, v, f):
    kw.pop('stride', None)
    return dict(kw, oversampling=[-1, -3, 0.5, 1.5, -0.5, 20][v % 6]), x, ValueError


def r_oversampling_stride(kw, x, v, f):
    if kw.get('T') in (0, 'global'):
        raise Drop
    lt = int(np.floor(np.log2(kw.get('T') or 2 ** kw['J'])))
    if lt < 1:
        raise Drop
    k = 1 + v % lt
    bad = [2 ** s for s in range(lt + 1) if s != lt - k]
    return dict(kw, oversampling=k, stride=bad[v % len(bad)]), x, ValueError


def r_oversampling_mode(kw, x, v, f):
    kw.pop('stride', None)
    return dict(kw, T=[0, 'global'][v % 2], oversampling=1 + v % 3, out_type='list'), x, ValueError


def r_int(kw, x, v, f):
    if f == 'torch':
        raise Drop
    return kw, x.astype([np.int32, np.int64, np.complex64, np.complex128][v % 4]), TypeError


def r_none(kw, x, v, f):
    return kw, None, TypeError if _nd(kw) > 1 and f != 'tensorflow' else Exception


def r_nontensor(kw, x, v, f):
    o = [x.tolist(), 'abc', {'x': x}][v % 3]
    if f == 'numpy':
        return kw, ('raw', o), TypeError if _nd(kw) > 1 else Exception
    if f == 'torch':
        return kw, ('raw', [o, x, 3.0][v % 3]), Exception
    return kw, ('raw', ['abc', {'x': 1}, object()][v % 3]), Exception


def r_noncontiguous(kw, x, v, f):
    if f != 'torch' or _nd(kw) == 3:
        raise Drop
    y = np.repeat(x, 2, axis=-1)
    return kw, ('strided', y), RuntimeError


def r_backend(kw, x, v, f):
    others = [b for b in FES if b != f] + ['foo', f + '_foo', 'cuda']
    return dict(kw, backend=others[v % len(others)]), x, ImportError


def r_backend_obj(kw, x, v, f):
    import importlib
    d = 1 if isinstance(kw['shape'], int) else len(kw['shape'])
    other = 'numpy' if f != 'numpy' else 'torch'
    b = importlib.import_module('kymatio.scattering%dd.backend.%s_backend' % (d, other)).backend
    return dict(kw, backend=b), x, ImportError


def r_unknown_kw(kw, x, v, f):
    return dict(kw, **{['foo', 'j', 'padding', 'normalize'][v % 4]: 1}), x, TypeError


def r_missing(kw, x, v, f):
    kw = dict(kw)
    kw.pop(['J', 'shape'][v % 2])
    return kw, x, TypeError


RULES = {
    '1d': [r_T_large, r_T_small, r_stride_odd, r_stride_float, r_stride_mode, r_Q_small, r_Q_type, r_Q_long, r_shape1,
           r_out_type, r_T0_array, r_scalar, r_length, r_oversampling, r_oversampling_stride, r_oversampling_mode, r_int,
           r_none, r_nontensor, r_noncontiguous, r_backend, r_backend_obj, r_unknown_kw, r_missing],
    'jtfs': [r_T_large, r_T_small, r_stride_odd, r_stride_float, r_stride_mode, r_Q_small, r_Q_type, r_Q_long, r_shape1,
             r_out_type, r_T0_array, r_scalar, r_length, r_int, r_none, r_nontensor, r_noncontiguous, r_backend,
             r_backend_obj, r_unknown_kw, r_missing, r_format, r_F_large, r_F_small, r_stride_fr, r_stride_fr_mode, r_Qfr,
             r_F0_joint_array],
    '2d': [r_out_type, r_out_dict2d, r_size, r_swapped, r_rank, r_J2d, r_int, r_none, r_nontensor, r_noncontiguous,
           r_backend, r_backend_obj, r_unknown_kw, r_missing],
    '3d': [r_size, r_swapped, r_rank, r_method, r_int, r_none, r_nontensor, r_backend, r_backend_obj, r_unknown_kw,
           r_missing],
}


@st.composite
def bad(draw, fes):
    c = draw(case(fes, True))
    c['rule'] = draw(st.integers(0, len(RULES[c['tr']]) - 1))
    c['v'] = draw(st.integers(0, 59))
    return c


def feed(f, x):
    if isinstance(x, tuple):
        tag, v = x
        if tag == 'raw':
            return v
        import torch
        return torch.from_numpy(v).float()[..., ::2]
    if x is None:
        return None
    if x.dtype != np.float64 and f != 'numpy':
        if f == 'tensorflow':
            import tensorflow as tf
            return tf.convert_to_tensor(x)
        import jax.numpy as jnp
        return jnp.asarray(x)
    return fe.to_fw(f, x)


def body_bad(c):
    f, tr = c['fe'], c['tr']
    kw, x = setup(c)
    rule = RULES[tr][c['rule']]
    try:
        kw, x, types = rule(dict(kw), x, c['v'], f)
    except Drop:
        return False
    what = '%s %s, rule %s (%s)' % (f, tr, rule.__name__[2:], {k: kw.get(k) for k in
                                    ('J', 'shape', 'T', 'stride', 'Q', 'F', 'stride_fr', 'out_type', 'format', 'oversampling') if k in kw})
    try:
        S = fe.raw(f, tr, **kw)
        y = S(feed(f, x))
    except types:
        return rule.__name__
    except Exception as e:  # noqa: BLE001
        raise Violation('%s: expected %s, got %s: %s' % (what, types, type(e).__name__, str(e)[:200])) from e
    raise Violation('%s: accepted, returned %s' % (what, type(y).__name__))


@st.composite
def edge(draw, fes):
    c = draw(case(fes, False))
    c['v'] = draw(st.integers(0, 63))
    return c


def body_edge(c):
    """The limits of the documented domain belong to it."""
    f, tr, v = c['fe'], c['tr'], c['v']
    kw, x = setup(c)
    if tr in ('1d', 'jtfs'):
        N = kw['shape']
        kw.pop('stride', None)
        if v % 3 == 0:
            kw['T'] = 1
        elif v % 3 == 1:
            kw['T'] = N
        else:
            kw['T'] = [N - 0.5, max(1, N - 1), 1.0, float(N)][v % 4]
        if v % 2 and tr == '1d':
            kw['stride'] = 1
        if tr == 'jtfs':
            Q = kw['Q'][0] if isinstance(kw['Q'], tuple) else kw['Q']
            m = (kw['J'] + 1) * Q
            kw.pop('stride_fr', None)
            kw['F'] = [1, m, m, max(1, m - 1)][v % 4]
            if v // 5 % 2:
                kw['stride_fr'] = 1
    elif tr == '2d':
        m = min(kw['shape'])
        k = int(np.floor(np.log2(m)))
        sh = tuple(2 ** k if n == m or v % 2 else n for n in kw['shape'])
        if k < 1 or k > 4:
            raise Drop
        kw = dict(kw, shape=sh, J=k, L=min(kw.get('L', 2), 2))
        if kw.get('pre_pad'):
            kw.pop('pre_pad')
        x = np.resize(x, x.shape[:-2] + sh) if not c['cfg'].get('pre_pad') else np.resize(x, sh)
    else:
        return False
    S = fe.make(f, tr, **kw)
    if tr in ('1d', 'jtfs'):
        x = np.resize(x, (kw['shape'],))
    from .c14 import flatten
    y = flatten(call(S, fe.to_fw(f, x)))
    need(len(y) > 0, '%s %s: no coefficients', f, tr)
    for k, a in y:
        need(bool(np.all(np.isfinite(fe.to_np(a)))), '%s %s with arguments on the limit of the domain: path %s not finite', f, tr, k)
    return True


def body_edge_(c):
    try:
        return body_edge(c)
    except Drop:
        return False


@st.composite
def good(draw, fes):
    c = draw(case(fes, True))
    c['v'] = draw(st.integers(0, 63))
    return c


def body_good(c):
    f, tr, v = c['fe'], c['tr'], c['v']
    kw, x = setup(c)
    d = dict(kw)
    if tr in ('1d', 'jtfs'):
        if v & 1:
            d['shape'] = (d['shape'],)
        if v & 2 and isinstance(d['Q'], int):
            d['Q'] = (d['Q'],)
        if v & 4 and d.get('T') not in (None, 'global'):
            d['T'] = float(d['T'])
        if v & 8:
            d['J'] = np.int64(d['J'])
        if v & 16 and 'T' not in d and 'stride' not in d:
            d['T'] = 2 ** int(d['J'])
        if v & 32 and tr == '1d' and 'stride' in d:
            lt = int(np.floor(np.log2(d.get('T') or 2 ** d['J'])))
            d['oversampling'] = lt - int(np.log2(d['stride']))
            if v & 1:
                d.pop('stride')
        if v & 32 and tr == 'jtfs' and isinstance(d.get('Q_fr'), int):
            d['Q_fr'] = (d['Q_fr'],)
    else:
        if v & 1:
            d['shape'] = tuple(np.int64(s) for s in d['shape'])
        if v & 2 and tr == '2d':
            d['shape'] = list(d['shape'])
        if v & 4 and tr == '3d' and 'integral_powers' in d:
            d['integral_powers'] = list(d['integral_powers'])
        if v & 8:
            d['backend'] = f
        if v & 16 and tr == '3d':
            d['method'] = 'integral'
    A = fe.make(f, tr, **kw)
    B = fe.make(f, tr, **d)
    from .c14 import flatten
    ya = flatten(call(A, fe.to_fw(f, x)))
    yb = flatten(call(B, fe.to_fw(f, x)))
    need([k for k, _ in ya] == [k for k, _ in yb], 'equivalent spellings give different paths')
    for (k, a), (_, b) in zip(ya, yb):
        a, b = fe.to_np(a), fe.to_np(b)
        need(a.shape == b.shape and bool(np.all(np.isfinite(a))), 'path %s: shape %s vs %s', k, a.shape, b.shape)
        need(np.allclose(a, b, rtol=1e-5, atol=1e-6 * max(float(np.abs(a).max()) if a.size else 0, 1e-30)),
             'equivalent spellings %s and %s give different coefficients', kw, d)
    return d != kw or 'T' in kw or 'stride' in kw


SUBS = [
    Sub('reject_numpy', lambda: bad(['numpy']), body_bad, 1500, 20000, shards=1, rank=1),
    Sub('reject_torch', lambda: bad(['torch']), body_bad, 1200, 16000, shards=1, rank=2),
    Sub('reject_tf', lambda: bad(['tensorflow']), body_bad, 700, 9000, shards=1, rank=3),
    Sub('reject_jax', lambda: bad(['jax']), body_bad, 500, 6000, shards=2, rank=4),
    Sub('edge', lambda: edge(FES), body_edge_, 150, 3000, shards=1, rank=2),
    Sub('accept', lambda: good(['numpy', 'torch']), body_good, 700, 14000, shards=2, rank=2),
    Sub('accept_tf', lambda: good(['tensorflow']), body_good, 80, 2000, shards=1, rank=4),
]

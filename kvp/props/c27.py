"""C27: the frontend selector yields the requested frontend with the same behaviour; derived attributes."""
import math
import numpy as np
from hypothesis import strategies as st
from .. import fe, gen, ref1d
from ..harness import Sub, Violation, call, expect_raises, need
from .c12 import array_ok
from .c14 import flatten

RULE = ('(select) generated configurations x six frontends x spellings of the name (any case), arguments by keyword or '
        'position, optional backend string or object: the type is that of the frontend module, the output equals that of the '
        'class built directly. (reject) unknown names, mismatched or unknown backends, invalid constructor arguments: the '
        'class of the error is that of the direct construction. (defaults) arguments left out against the documented defaults spelled out, and positions against keywords. (attributes) J, Q, T, stride, F, stride_fr, log2 values, '
        'average, shape, M, N, O against the parameter rules, and the output length against the reported stride. '
        'Non-trivial: a non-default frontend, spelling, or a parameter given explicitly.')
ASSUMPTIONS = ['backends requiring CUDA are not available here']
ORDER = {'1d': ['J', 'shape', 'Q', 'T', 'stride', 'max_order'], '2d': ['J', 'shape', 'L', 'max_order', 'pre_pad'],
         '3d': ['J', 'shape', 'L', 'sigma_0', 'max_order', 'rotation_covariant'], 'jtfs': ['J', 'J_fr', 'Q', 'shape']}


@st.composite
def case(draw, fes, small=True):
    tr = draw(st.sampled_from(['1d', '1d', '2d', '3d', 'jtfs', 'jtfs']))
    c = dict(tr=tr, fe=draw(st.sampled_from(fes)))
    if tr == '1d':
        c['cfg'] = draw(gen.cfg1d(nmax=40 if small else 200, max_q=3, jmax=4))
    elif tr == '2d':
        c['cfg'] = draw(gen.cfg2d(nmax=12, cost=4, lmax=4, jmax=2, pre_pad=True))
    elif tr == '3d':
        c['cfg'] = draw(gen.cfg3d(dims=(3, 4, 5), jmax=1, lmax=1))
    else:
        c['cfg'] = draw(gen.cfg_jtfs(nmax=32 if small else 150, max_q=2, jmax=3 if small else 6))
    c['case'] = [draw(st.booleans()) for _ in range(10)]
    c['npos'] = draw(st.integers(0, 6))
    c['default'] = draw(st.booleans())
    c['bk'] = draw(st.integers(0, 2))
    c['out'] = draw(st.sampled_from(['array', 'dict', 'list']))
    c['x'] = draw(gen.signals(['noise', 'step', 'sparse']))
    return c


def kwargs(c):
    tr = c['tr']
    kw = {'1d': gen.kw1d, 'jtfs': gen.kw1d, '2d': gen.kw2d, '3d': gen.kw3d}[tr](c['cfg'])
    if tr == '1d':
        kw['out_type'] = c['out'] if kw.get('T') != 0 or c['out'] != 'array' else 'list'
    elif tr == 'jtfs':
        kw['out_type'] = c['out'] if array_ok(kw) or c['out'] != 'array' else 'dict'
    elif tr == '2d':
        kw['out_type'] = 'array' if c['out'] == 'dict' else c['out']
    return kw


def spell(name, bits):
    return ''.join(ch.upper() if b else ch for ch, b in zip(name, bits))


def entry(tr):
    import kymatio
    return getattr(kymatio, fe.CLASS[tr])


def bobj(f, tr):
    import importlib
    d = {'1d': 1, 'jtfs': 1, '2d': 2, '3d': 3}[tr]
    return importlib.import_module('kymatio.scattering%dd.backend.%s_backend' % (d, f)).backend


def body(c):
    tr, f = c['tr'], c['fe']
    if f == 'keras' and tr in ('3d', 'jtfs'):
        f = 'tensorflow'
    kw = kwargs(c)
    x = input_for(tr, kw, c['x'])
    if f == 'keras':
        kw = {k: v for k, v in kw.items() if k not in ('shape', 'stride', 'out_type')}
        if kw.get('T') == 0:
            return False
    if f == 'sklearn':
        kw.pop('out_type', None)       # predict flattens, hence arrays only
        if kw.get('T') == 0 or tr == 'jtfs' and not array_ok(kw):
            return False
    direct = call(fe.cls(f, tr), **kw)
    d = dict(kw)
    if f != 'keras' and c['bk']:
        b = 'numpy' if f == 'sklearn' else f
        d['backend'] = b if c['bk'] == 1 else bobj(b, tr)
    args = []
    if f != 'keras':
        for k in ORDER[tr][:c['npos']]:
            if k not in d:
                break
            args.append(d.pop(k))
    name = spell(f, c['case'])
    if not (f == 'numpy' and c['default']):
        d['frontend'] = name
    keep = dict(d)
    S = call(entry(tr), *args, **d)
    need(d == keep, 'the selector changed its keyword dictionary')
    need(type(S) is fe.cls(f, tr), 'selector with frontend=%r gives %s, expected %s', name, type(S), fe.cls(f, tr))
    fw = {'keras': 'tensorflow', 'sklearn': 'numpy'}.get(f, f)
    z = fe.to_fw(fw, x)
    if f == 'sklearn':
        ya, yb = call(direct.predict, z.reshape(len(z), -1)), call(S.predict, z.reshape(len(z), -1))
    else:
        ya, yb = call(direct, z), call(S, z)
    a, b = flatten(ya), flatten(yb)
    need([k for k, _ in a] == [k for k, _ in b], 'the selected object has paths %s, the class %s', [k for k, _ in b][:4],
         [k for k, _ in a][:4])
    for (k, u), (_, v) in zip(a, b):
        u, v = fe.to_np(u), fe.to_np(v)
        need(u.shape == v.shape and np.allclose(u, v, rtol=1e-5, atol=1e-6 * max(float(np.abs(u).max()) if u.size else 0, 1e-30)),
             'selected object and class differ on path %s (%s %s)', k, f, tr)
    return f != 'numpy' or not c['default'] or len(kw) > 3


def input_for(tr, kw, rec):
    sh = kw['shape'] if isinstance(kw['shape'], tuple) else (kw['shape'],)
    if kw.get('pre_pad'):
        k = 2 ** kw['J']
        sh = tuple(((n + k) // k + 1) * k for n in sh)
    return gen.signal(rec, (1, int(np.prod(sh)))).reshape((1,) + sh)


@st.composite
def bad(draw):
    c = draw(case(['numpy', 'torch', 'tensorflow', 'jax', 'sklearn']))
    c['mut'] = draw(st.sampled_from(['unknown', 'backend', 'backend_obj', 'unknown_backend', 'arg', 'missing', 'kw']))
    c['v'] = draw(st.integers(0, 60))
    return c


def body_bad(c):
    tr, f, v = c['tr'], c['fe'], c['v']
    kw = kwargs(c)
    if f == 'sklearn':
        kw.pop('out_type', None)
    own = 'numpy' if f == 'sklearn' else f
    E = entry(tr)
    name = spell(f, c['case'])
    if c['mut'] == 'unknown':
        bad = ['foo', '', 'pytorch', 'tf', f + ' ', f[:-1], 'sklearn2', 'keras_frontend', 'torch_skcuda', 'caffe'][v % 10]
        expect_raises(RuntimeError, lambda: E(frontend=bad, **kw), 'frontend=%r' % bad)
        return True
    if c['mut'] == 'backend':
        o = [b for b in ('numpy', 'torch', 'tensorflow', 'jax') if b != own][v % 3]
        kw['backend'], types = o, ImportError
    elif c['mut'] == 'backend_obj':
        o = [b for b in ('numpy', 'torch') if b != own][v % (2 if own in ('tensorflow', 'jax') else 1)]
        kw['backend'], types = bobj(o, tr), ImportError
    elif c['mut'] == 'unknown_backend':
        kw['backend'], types = ['foo', own + '_foo', 'cuda', own + '_backend'][v % 4], ImportError
    elif c['mut'] == 'missing':
        kw.pop(['J', 'shape'][v % 2])
        types = TypeError
    elif c['mut'] == 'kw':
        kw[['foo', 'normalize', 'Frontend'][v % 3]] = 1
        types = TypeError
    elif tr in ('1d', 'jtfs'):
        kw['T'], types = [-1, 10 ** 6, 0.25][v % 3], ValueError
        kw.pop('stride', None)
    elif tr == '2d':
        kw['J'], types = 9 + v % 3, RuntimeError
    else:
        return False
    expect_raises(types, lambda: fe.raw(f, tr, **kw), '%s %s directly with an invalid %s' % (f, tr, c['mut']))
    expect_raises(types, lambda: E(frontend=name, **kw), '%s %s selected with an invalid %s' % (name, tr, c['mut']))
    return True


# ------------------------------------------------------------------ attributes
def body_attr(c):
    tr, f = c['tr'], c['fe']
    kw = kwargs(c)
    S = fe.make(f, tr, **kw)

    def att(name, want):
        got = call(getattr, S, name)
        ok = got == want and (want is not False or got is False)
        need(ok, '%s %s %s: attribute %s is %r, expected %r', f, tr, kw, name, got, want)

    att('J', kw['J'])
    if tr == '2d':
        att('shape', kw['shape'])
        att('M', kw['shape'][0])
        att('N', kw['shape'][1])
        att('L', kw['L'])
        att('max_order', kw['max_order'])
        att('pre_pad', kw.get('pre_pad', False))
        att('out_type', kw['out_type'])
        return kw['shape'][0] != kw['shape'][1]
    if tr == '3d':
        att('shape', kw['shape'])
        for k, v in zip('MNO', kw['shape']):
            att(k, v)
        for k in ('L', 'sigma_0', 'max_order', 'rotation_covariant'):
            att(k, kw[k])
        att('integral_powers', kw.get('integral_powers', (0.5, 1., 2.)))
        return len(set(kw['shape'])) > 1
    N = kw['shape']
    att('shape', (N,))
    Q = kw['Q']
    att('Q', (Q, 1) if isinstance(Q, int) else (tuple(Q) + (1,))[:2])
    T = kw.get('T')
    local = T not in ('global', 0)
    att('average', 'local' if local else ('global' if T == 'global' else False))
    Tv = 2 ** kw['J'] if T in (None, 'global', 0) else T
    att('T', Tv)
    lT = int(math.floor(math.log2(Tv)))
    att('log2_T', lT)
    stride = kw.get('stride', 2 ** lT)
    att('stride', stride)
    att('log2_stride', int(round(math.log2(stride))))
    att('out_type', kw['out_type'])
    x = input_for(tr, kw, c['x'])
    if tr == '1d':
        att('max_order', kw['max_order'])
    else:
        att('J_fr', kw['J_fr'])
        F = kw.get('F')
        att('average_fr', 'local' if F not in ('global', 0) else ('global' if F == 'global' else False))
        Fv = 2 ** kw['J_fr'] if F in (None, 'global', 0) else F
        att('F', Fv)
        lF = int(math.floor(math.log2(Fv)))
        att('log2_F', lF)
        sfr = kw.get('stride_fr', 2 ** lF)
        att('stride_fr', sfr)
        att('log2_stride_fr', int(round(math.log2(sfr))))
        att('format', kw['format'])
    y = flatten(call(S, fe.to_fw(f, x)))
    if local:
        # the time axis is really sampled at the reported stride
        g = ref1d.Geometry(N, Tv)
        want = g.out_len(int(round(math.log2(stride))))
        for k, v in y:
            need(fe.to_np(v).shape[-1] == want, '%s %s %s: path %s has %d samples, the reported stride %d gives %d', f, tr, kw,
                 k, fe.to_np(v).shape[-1], stride, want)
    elif T == 'global':
        for k, v in y:
            need(fe.to_np(v).shape[-1] == 1, "T='global' leaves %s time samples", fe.to_np(v).shape)
    return T is not None or 'stride' in kw or 'F' in kw


# ------------------------------------------------------------------ defaults
POSITION = {'1d': ['J', 'shape', 'Q', 'T', 'stride', 'max_order', 'oversampling', 'out_type'],
            '2d': ['J', 'shape', 'L', 'max_order', 'pre_pad'],
            '3d': ['J', 'shape', 'L', 'sigma_0', 'max_order', 'rotation_covariant', 'method', 'points', 'integral_powers'],
            'jtfs': ['J', 'J_fr', 'Q', 'shape', 'T', 'stride', 'Q_fr', 'F', 'stride_fr', 'out_type']}
DEFAULTS = {'1d': dict(Q=1, T=None, stride=None, max_order=2, oversampling=0, out_type='array'),
            '2d': dict(L=8, max_order=2, pre_pad=False, out_type='array'),
            '3d': dict(L=3, sigma_0=1, max_order=2, rotation_covariant=True, method='integral', points=None,
                       integral_powers=(0.5, 1., 2.)),
            'jtfs': dict(T=None, stride=None, Q_fr=1, F=None, stride_fr=None, out_type='array', format='time')}
KERAS_POSITION = {'1d': ['J', 'Q', 'T', 'max_order', 'oversampling'], '2d': ['J', 'L', 'max_order', 'pre_pad']}


@st.composite
def defcase(draw, fes):
    c = draw(case(fes))
    c['omit'] = draw(st.integers(0, 2 ** 12 - 1))
    c['npos'] = draw(st.integers(0, 11))
    return c


def body_defaults(c):
    """Arguments left out take the documented defaults; positions are the documented ones."""
    tr, f = c['tr'], c['fe']
    if f == 'keras' and tr in ('3d', 'jtfs'):
        f = 'tensorflow'
    kw = kwargs(c)
    if f in ('keras', 'sklearn'):
        kw['out_type'] = 'array'
        if tr == '3d':
            kw.pop('out_type')
        if f == 'keras':
            kw.pop('stride', None)
        if kw.get('T') == 0:
            kw.pop('T')
    defaults = DEFAULTS[tr]
    explicit = {}
    omitted = []
    for i, k in enumerate(sorted(defaults)):
        if c['omit'] >> i & 1 or k not in kw:
            explicit[k] = defaults[k]
            omitted.append(k)
        else:
            explicit[k] = kw[k]
    for k in kw:
        if k not in defaults:
            explicit[k] = kw[k]
    e = explicit
    if tr in ('1d', 'jtfs'):
        Tv = 2 ** e['J'] if e['T'] in (None, 'global', 0) else e['T']
        if e['stride'] is not None and (e['T'] in (0, 'global') or e['stride'] > Tv):
            e['stride'] = None
        if e['T'] == 0 and e['out_type'] == 'array':
            e['out_type'] = 'list'
    if tr == 'jtfs':
        Fv = 2 ** e['J_fr'] if e['F'] in (None, 'global', 0) else e['F']
        if e['F'] in (None, 0, 'global') and Fv > (e['J'] + 1) * (e['Q'] if isinstance(e['Q'], int) else e['Q'][0]):
            return False
        if e['stride_fr'] is not None and (e['F'] in (0, 'global') or e['stride_fr'] > Fv):
            e['stride_fr'] = None
        if e['out_type'] == 'array' and not array_ok(e):
            e['out_type'] = 'dict'
    if f == 'sklearn' and e.get('out_type', 'array') != 'array':
        return False
    if f == 'keras':
        for k in ('shape', 'stride', 'out_type'):
            e.pop(k, None)
    short = {k: v for k, v in e.items() if k not in defaults or not (k in omitted and v == defaults[k])}
    names = (KERAS_POSITION if f == 'keras' else POSITION)[tr]
    args, d = [], dict(e)
    for k in names[:c['npos']]:
        if k not in d:
            break
        args.append(d.pop(k))
    what = '%s %s' % (f, tr)
    A = call(fe.cls(f, tr), **short)
    B = call(fe.cls(f, tr), *args, **d)
    for k in sorted(set(defaults) - {'oversampling', 'points'}):
        if hasattr(B, k) or hasattr(A, k):
            u, v = call(getattr, A, k), call(getattr, B, k)
            need(u == v and (u is v or not isinstance(u, bool)),
                 '%s: attribute %s of %s is %r, with the documented defaults spelled out (%s, positional: %s) %r', what, k, short, u,
                 {k: e.get(k) for k in omitted}, names[:len(args)], v)
    if f == 'jax' and c['x']['seed'] % 12:
        return len(short) < len(e) or len(args) > 2
    x = input_for(tr, dict(kw, **e), c['x'])
    fw = {'keras': 'tensorflow', 'sklearn': 'numpy'}.get(f, f)
    z = fe.to_fw(fw, x)
    if f == 'sklearn':
        ya, yb = call(A.predict, z.reshape(len(z), -1)), call(B.predict, z.reshape(len(z), -1))
    else:
        ya, yb = call(A, z), call(B, z)
    a, b = flatten(ya), flatten(yb)
    need([k for k, _ in a] == [k for k, _ in b], '%s: %s gives paths %s, with the defaults %s spelled out %s', what, short,
         [k for k, _ in a][:4], {k: e.get(k) for k in omitted}, [k for k, _ in b][:4])
    for (k, u), (_, v) in zip(a, b):
        u, v = fe.to_np(u), fe.to_np(v)
        need(u.shape == v.shape and np.allclose(u, v, rtol=1e-5, atol=1e-6 * max(float(np.abs(u).max()) if u.size else 0, 1e-30)),
             '%s: %s differs from the same with the documented defaults spelled out (%s, positional: %s), path %s: %s / %s', what,
             short, {k: e.get(k) for k in omitted}, names[:len(args)], k, u.shape, v.shape)
    return len(short) < len(e) or len(args) > 2


SUBS = [
    Sub('defaults', lambda: defcase(['numpy', 'torch', 'sklearn']), body_defaults, 500, 8000, shards=2, rank=2),
    Sub('defaults_tf', lambda: defcase(['tensorflow', 'keras']), body_defaults, 80, 1500, shards=1, rank=3),
    Sub('defaults_jax', lambda: defcase(['jax']), body_defaults, 250, 4000, shards=1, rank=4),
    Sub('select', lambda: case(['numpy', 'torch', 'sklearn']), body, 600, 10000, shards=2, rank=2),
    Sub('select_tf', lambda: case(['tensorflow', 'keras']), body, 100, 2000, shards=2, rank=3),
    Sub('select_jax', lambda: case(['jax']), body, 30, 600, shards=2, rank=4),
    Sub('reject', bad, body_bad, 500, 8000, shards=1, rank=3),
    Sub('attributes', lambda: case(['numpy', 'torch'], False), body_attr, 1500, 25000, shards=1, rank=1),
]

"""C16: a transform has no memory and leaves its inputs alone (stateful)."""
import numpy as np
from hypothesis import strategies as st
from .. import fe, gen
from ..harness import Sub, Violation, call, need
from ..ref1d import Ref1D, RefJTFS
from ..ref2d import Ref2D
from ..ref3d import Ref3D
from .c12 import array_ok
from .. import ref1d

RULE = ('(siblings) families of up to 4 objects differing in one parameter (1-D up to 2^13 samples and J = log2 N) are built and '
        'used together; every result equals the one of the same object in freshly imported modules. '
        'Generated histories of up to 14 operations over up to 3 live objects of different transforms and parameters: call '
        '(different inputs, batch shapes, dtypes; new arrays, the refilled array of the previous call), meta(), output_size(), read attributes, rejected calls, switch out_type, '
        'switch max_order, overwrite a previously returned output, overwrite an input after the call, construct/drop '
        'objects. After every call the result is compared with the reference model and, when the same (object parameters, '
        'input) occurred before, with the first result; inputs must be unmodified. Non-trivial: at least two calls, and '
        'an operation other than a call between them.')
ASSUMPTIONS = ['reference tolerance 1e-3 of the largest coefficient of the order (precise values are decided by C01, C06, '
               'C09, C12)', 'changing max_order after construction is documented for 1-D and exercised in 1-D and 2-D']


@st.composite
def obj(draw, fes, big):
    tr = draw(st.sampled_from(['1d', '1d', '2d', '3d', 'jtfs']))
    o = dict(tr=tr, fe=draw(st.sampled_from(fes)))
    if tr == '1d':
        o['cfg'] = draw(gen.cfg1d(nmax=70 if big else 32, max_q=4 if big else 2, jmax=5 if big else 3))
    elif tr == '2d':
        o['cfg'] = draw(gen.cfg2d(nmax=16, cost=12 if big else 4, jmax=3 if big else 2))
    elif tr == '3d':
        o['cfg'] = draw(gen.cfg3d(dims=(4, 5, 6) if big else (4, 5), jmax=1, lmax=2 if big else 1))
    else:
        o['cfg'] = draw(gen.cfg_jtfs(nmax=48 if big else 24, max_q=2 if big else 1, jmax=4 if big else 3))
    return o


@st.composite
def history(draw, fes, big=True):
    # objects whose parameters differ in one field only share most of a cache key: provoke them
    a = draw(obj(fes, big))
    objs = [a]
    for _ in range(draw(st.integers(0, 2))):
        if draw(st.booleans()):
            objs.append(draw(obj(fes, big)))
        else:
            b = dict(tr=a['tr'], fe=a['fe'], cfg=dict(a['cfg']))
            alt = draw(obj(fes, big).filter(lambda o, t=a['tr']: o['tr'] == t))['cfg']
            keys = [k for k in ('Q', 'T', 'stride', 'max_order', 'L', 'sigma_0', 'integral_powers', 'rotation_covariant', 'F',
                                'stride_fr', 'format', 'Q_fr') if k in b['cfg'] and k in alt]
            if a['tr'] in ('1d', 'jtfs'):
                keys = [k for k in keys if k in ('max_order', 'format', 'Q_fr')] + \
                       (['Q'] if 'F' not in a['cfg'] and 'stride' not in a['cfg'] else [])
            keys = [k for k in keys if k in alt]
            if keys:
                k = draw(st.sampled_from(keys))
                b['cfg'][k] = alt[k]
            objs.append(b)
    ops = [dict(op='new', o=0)]
    kinds = ['call', 'call', 'call', 'meta', 'size', 'attrs', 'bad', 'out', 'order', 'scribble', 'scribble_in', 'new']
    n = draw(st.integers(3, 13))
    for _ in range(n):
        k = draw(st.sampled_from(kinds))
        d = dict(op=k, o=draw(st.integers(0, len(objs) - 1)), v=draw(st.integers(0, 3)))
        if k == 'call':
            d['batch'] = draw(st.sampled_from([[], [1], [2], [1, 2]]))
            d['dt'] = draw(st.sampled_from(['f8', 'f4']))
            d['mem'] = draw(st.sampled_from(['new', 'same', 'same', 'freed']))
        ops.append(d)
    ops.append(dict(op='call', o=draw(st.integers(0, len(objs) - 1)), v=0, batch=[], dt='f8'))
    return dict(objs=objs, ops=ops, xs=[draw(gen.signals(kinds=['noise', 'impulse', 'sparse', 'step'], amps=(1.0, 10.0)))
                                        for _ in range(4)])


def kwargs(o):
    return {'1d': gen.kw1d, 'jtfs': gen.kw1d, '2d': gen.kw2d, '3d': gen.kw3d}[o['tr']](o['cfg'])


class Live:
    def __init__(self, o):
        self.tr, self.fe, self.kw = o['tr'], o['fe'], kwargs(o)
        kw = self.kw
        self.order = kw.get('max_order', 2)
        self.outs = {'1d': ['array', 'list', 'dict'], 'jtfs': ['array', 'list', 'dict'], '2d': ['array', 'list'],
                     '3d': ['array']}[self.tr]
        if self.tr == '1d' and kw.get('T') == 0 or self.tr == 'jtfs' and not array_ok(kw):
            self.outs = self.outs[1:]
        self.out = self.outs[0]
        extra = {} if self.tr == '3d' else dict(out_type=self.out)
        self.obj = fe.make(self.fe, self.tr, **kw, **extra)

    def shape(self):
        s = self.kw['shape']
        return tuple(s) if isinstance(s, tuple) else (s,)

    def paths(self, y):
        """dict key -> coef"""
        if isinstance(y, dict):
            return dict(y)
        if isinstance(y, (list, tuple)):
            return {tuple(p['n']): p['coef'] for p in y}
        return {None: y}

    def reference(self, x):
        kw = dict(self.kw)
        b = x.shape[:x.ndim - len(self.shape())]
        if self.tr == '3d':
            kw['max_order'] = self.order
            v, slack = Ref3D(**kw).interval(x)
            return {None: (v, 3 * slack + 1e-4 * np.abs(v))}
        if self.tr == '2d':
            kw['max_order'] = self.order
            r = Ref2D(**kw)(x)
        elif self.tr == '1d':
            R = Ref1D(kw['J'], kw['shape'], kw['Q'], kw.get('T'), kw.get('stride'), self.order)
            r = R(x)
        else:
            R = RefJTFS(kw['J'], kw['J_fr'], kw['Q'], kw['shape'], kw.get('T'), kw.get('stride'), kw.get('Q_fr', 1),
                        kw.get('F'), kw.get('stride_fr'), self.out, kw['format'])
            bad = [ref1d.ill_conditioned(R.N_fr, p['xi'], p['sigma']) for p in R.fr]
            r = {k: (None if p.get('n_fr') is not None and bad[p['n_fr']] else v.reshape(b + v.shape[1:]))
                 for k, v, p in R.paths_out(x)}
        if self.out == 'array':
            ax = {'1d': -2, '2d': -3, 'jtfs': -2 if kw.get('format') == 'time' else -3}[self.tr]
            ks = sorted(r, key=lambda k: (len(k), k)) if self.tr != 'jtfs' else list(r)
            if any(r[k] is None for k in ks):
                return None
            r = {None: np.stack([r[k] for k in ks], axis=ax)}
        s = max([float(np.abs(v).max()) for v in r.values() if v is not None and v.size] + [1e-2 * np.abs(x).max(), 1e-30])
        return {k: (v, 1e-3 * s) for k, v in r.items()}


def scribble(y):
    """overwrite everything that was returned"""
    vals = y.values() if isinstance(y, dict) else [p['coef'] for p in y] if isinstance(y, list) else [y]
    for v in vals:
        if isinstance(v, np.ndarray):
            if v.flags.writeable:
                v[...] = np.nan
        elif hasattr(v, 'fill_'):
            v.fill_(float('nan'))


def body(c):
    live, last, first = {}, {}, {}
    ncall, between = 0, False
    for step, op in enumerate(c['ops']):
        k = op['o']
        if op['op'] == 'new' or k not in live:
            live[k] = Live(c['objs'][k])
            last.pop(k, None)
            if op['op'] == 'new':
                continue
        L = live[k]
        what = 'step %d (%s %s)' % (step, L.fe, L.tr)
        if op['op'] == 'call':
            rec = c['xs'][op['v']]
            mk = gen.signal if L.tr in ('1d', 'jtfs') else gen.image
            x = mk(dict(rec, kind='noise' if rec['kind'] == 'step' and mk is gen.image else rec['kind'], d=len(L.shape())),
                   tuple(op['batch']) + L.shape())
            x = x.astype(np.float32).astype(np.float64)
            xin = fe.to_fw(L.fe, x.astype(np.float32) if (L.fe == 'numpy' and op['dt'] == 'f4') else x)
            prev = last.get(k, (None, None))[1]
            if op.get('mem') == 'same' and type(prev) is type(xin) and prev.shape == xin.shape and prev.dtype == xin.dtype:
                # the caller refills the array of its previous call
                if isinstance(prev, np.ndarray):
                    if prev.flags.writeable:
                        prev[...] = xin
                        xin = prev
                elif hasattr(prev, 'copy_'):
                    prev.copy_(xin)
                    xin = prev
            elif op.get('mem') == 'freed':
                # the previous array is gone, its memory and identity may be those of the new one
                last.pop(k, None)
                del prev, xin
                xin = fe.to_fw(L.fe, x.astype(np.float32) if (L.fe == 'numpy' and op['dt'] == 'f4') else x)
            keep = np.array(fe.to_np(xin))
            y = call(L.obj, xin)
            need(np.array_equal(keep, fe.to_np(xin)), '%s: the input was modified', what)
            P = {q: fe.to_np(v) for q, v in L.paths(y).items()}
            ref = L.reference(x)
            if ref is not None:
                need(set(P) == set(ref), '%s: paths differ from the reference', what)
                for q, (v, tol) in ref.items():
                    if v is None:
                        continue
                    need(P[q].shape == v.shape, '%s: path %s has shape %s, expected %s', what, q, P[q].shape, v.shape)
                    d = np.abs(P[q] - v)
                    need(bool(np.all(d <= tol)), '%s: path %s deviates from the definition by %.2e', what, q, float(d.max()))
            key = (k, str(c['objs'][k]), L.order, L.out, op['v'], tuple(op['batch']), op['dt'])
            if key in first:
                for q, v in first[key].items():
                    need(np.allclose(P[q], v, rtol=1e-6, atol=1e-6 * max(float(np.abs(v).max()) if v.size else 0, 1e-30)),
                         '%s: path %s differs from the first call with the same input', what, q)
            else:
                first[key] = {q: np.array(v) for q, v in P.items()}
            ncall += 1
            last[k] = (y, xin)
        else:
            between = between or ncall > 0
            if op['op'] == 'meta' and L.tr in ('1d', 'jtfs'):
                m = call(L.obj.meta)
                mkey = ('meta', k, str(c['objs'][k]), L.order, L.out)
                now = repr([(q, np.asarray(v).tolist() if isinstance(v, np.ndarray) else v) for q, v in sorted(m.items())])
                need(first.setdefault(mkey, now) == now, '%s: meta() differs from its first result', what)
                for v in m.values():        # metadata belongs to the caller
                    if isinstance(v, np.ndarray) and v.flags.writeable:
                        v[...] = -1
                    elif isinstance(v, list):
                        v.clear()
            elif op['op'] == 'size' and L.tr in ('1d', 'jtfs'):
                call(L.obj.output_size, detail=bool(op['v'] % 2))
            elif op['op'] == 'attrs':
                for name in {'1d': ('T', 'Q', 'stride', 'log2_stride', 'log2_T', 'average', 'filterbank'),
                             'jtfs': ('T', 'F', 'Q', 'log2_stride', 'log2_F', 'average_fr', 'filterbank_fr'),
                             '2d': ('M', 'N', 'shape', 'L'), '3d': ('M', 'N', 'O')}[L.tr]:
                    try:
                        getattr(L.obj, name)
                    except ValueError:
                        pass
            elif op['op'] == 'bad':
                s = L.shape()
                x = np.zeros(s[:-1] + (s[-1] + 1,))
                if s[-1] + 1 > 1 and L.tr in ('2d', '3d'):
                    try:
                        L.obj(fe.to_fw(L.fe, x))
                    except Exception:  # noqa: BLE001
                        pass
                    else:
                        raise Violation('%s: an input of the wrong size was accepted' % what)
                else:
                    try:
                        L.obj('not a tensor')
                    except Exception:  # noqa: BLE001
                        pass
                    else:
                        raise Violation('%s: a string was accepted' % what)
            elif op['op'] == 'out' and L.tr != '3d':
                L.out = L.outs[op['v'] % len(L.outs)]
                L.obj.out_type = L.out
            elif op['op'] == 'order' and L.tr in ('1d', '2d'):
                L.order = 1 + op['v'] % 2
                L.obj.max_order = L.order
            elif op['op'] == 'scribble' and k in last:
                scribble(last[k][0])
            elif op['op'] == 'scribble_in' and k in last:
                x = last[k][1]
                if isinstance(x, np.ndarray):
                    x[...] = np.nan
                elif hasattr(x, 'fill_'):
                    x.fill_(float('nan'))
    return ncall >= 2 and between


# ---------------------------------------------------------------- module-level state
def delta1d(draw, c):
    """a configuration that differs from c in one parameter, usually slightly"""
    c = dict(c)
    k = draw(st.sampled_from(['J', 'Q', 'Q2', 'T', 'N', 'order', 'same']))
    Q = list(c['Q'])
    if k == 'J':
        c['J'] = max(1, min(int(np.log2(c['shape'])), c['J'] + draw(st.sampled_from([-1, 1]))))
    elif k == 'Q':
        Q[0] = max(1, Q[0] + draw(st.sampled_from([-1, 1])))
    elif k == 'Q2':
        Q[1] = 3 - Q[1]
    elif k == 'T':
        c['T'] = draw(st.sampled_from([None, 1, 2, 2 ** c['J'], c['shape'], 'global', 0, 3]))
    elif k == 'N':
        n = c['shape'] + draw(st.sampled_from([-1, 1, 2, -2]))
        if 2 ** c['J'] <= n:
            c['shape'] = n
            if not isinstance(c.get('T'), str) and (c.get('T') or 0) > n:
                c['T'] = None
    elif k == 'order':
        c['max_order'] = 3 - c['max_order']
    c['Q'] = Q
    return c


@st.composite
def siblings(draw, fes):
    tr = draw(st.sampled_from(['1d', '1d', '1d', '2d', '3d', 'jtfs']))
    if tr == '1d':
        n = draw(st.sampled_from([64, 100, 256, 1024, 2048, 4096, 8192]))
        jmax = int(np.log2(n))
        a = dict(J=draw(st.integers(max(1, jmax - 5), jmax)), shape=n, Q=[draw(st.integers(1, 3 if n > 1000 else 12)), 1],
                 max_order=draw(st.sampled_from([1, 2])))
        cfgs = [a]
        for _ in range(draw(st.integers(1, 3))):
            cfgs.append(delta1d(draw, cfgs[-1]))
    else:
        gencfg = {'2d': gen.cfg2d(nmax=24, cost=20), '3d': gen.cfg3d(dims=(4, 5, 6), jmax=1),
                  'jtfs': gen.cfg_jtfs(nmax=64, max_q=3, jmax=4)}[tr]
        cfgs = [draw(gencfg)]
        for _ in range(draw(st.integers(1, 3))):
            b, alt = dict(cfgs[-1]), draw(gencfg)
            if tr == 'jtfs':
                keys = ['format', 'Q_fr']
            elif tr == '2d':
                keys = ['L', 'max_order', 'shape', 'J']
            else:
                keys = ['J', 'L', 'sigma_0', 'max_order', 'shape', 'integral_powers', 'rotation_covariant']
            k = draw(st.sampled_from([k for k in keys if k in alt] or ['-']))
            if k in alt:
                b[k] = alt[k]
            if tr == '2d':
                b['shape'] = [max(s, 2 ** b['J']) for s in b['shape']]
            if tr == '3d' and draw(st.booleans()):
                b['shape'] = b['shape'][::-1]
            cfgs.append(b)
    return dict(fe=draw(st.sampled_from(fes)), tr=tr, cfgs=cfgs, order=draw(st.integers(0, 5)),
                seed=draw(st.integers(0, 10 ** 6)))


def kw_of(c, cfg):
    kw = kwargs(dict(tr=c['tr'], cfg=cfg))
    if c['tr'] == '1d':
        kw['out_type'] = 'list' if kw.get('T') == 0 else 'array'
    elif c['tr'] == 'jtfs':
        kw['out_type'] = 'list'
    return kw


def flat(y):
    return [fe.to_np(p['coef']) for p in y] if isinstance(y, list) else [fe.to_np(y)]


def body_siblings(c):
    """An object built and used after others gives the result it gives in a pristine process."""
    n = len(c['cfgs'])
    kws = [kw_of(c, f) for f in c['cfgs']]
    shapes = [kw['shape'] if isinstance(kw['shape'], tuple) else (kw['shape'],) for kw in kws]
    xs = [np.random.RandomState((c['seed'] + i) % 2 ** 31).randn(*s) for i, s in enumerate(shapes)]
    objs = [fe.make(c['fe'], c['tr'], **kw) for kw in kws]
    calls = list(range(n)) + [(i * 7 + c['order']) % n for i in range(n)]
    got = [(i, flat(call(objs[i], fe.to_fw(c['fe'], xs[i])))) for i in calls]
    for i in range(n):
        with fe.fresh_modules():
            S = fe.make(c['fe'], c['tr'], **kws[i])
            want = flat(call(S, fe.to_fw(c['fe'], xs[i])))
        for j, y in got:
            if j != i:
                continue
            need(len(y) == len(want), 'object %d: %d outputs, %d in a fresh import', i, len(y), len(want))
            for a, b in zip(y, want):
                fe.close(a, b, 1e-9 if c['fe'] == 'numpy' else 1e-5,
                         '%s object %d used among %d others, against a fresh import' % (c['tr'], i, n - 1))
    return any(kws[0] != k for k in kws)


SUBS = [
    Sub('siblings', lambda: siblings(['numpy', 'numpy', 'torch']), body_siblings, 160, 4000, shards=2, rank=2),
    Sub('numpy', lambda: history(['numpy']), body, 450, 9000, shards=3, rank=1),
    Sub('torch', lambda: history(['torch']), body, 400, 9000, shards=3, rank=2),
    Sub('mixed', lambda: history(['torch', 'numpy', 'tensorflow'], False), body, 120, 3000, shards=1, rank=3),
    Sub('jax', lambda: history(['jax', 'numpy'], False), body, 40, 1200, shards=1, rank=4),
]

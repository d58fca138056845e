"""C29: calls and dropped objects keep nothing alive."""
import gc
import tracemalloc
import warnings
import weakref
import numpy as np
from hypothesis import strategies as st
from .. import fe, gen
from ..harness import Sub, call, need
from .c16 import kw_of, obj, scribble

RULE = ('A generated history over up to three objects (call with several inputs and batch shapes, in place refilled inputs, rejected '
        'calls, meta, output_size, change of out_type, construct and drop objects, torch: gradients, double precision) is run three times '
        'with new data and, except with JAX, other batch sizes. After each pass, with every input and result dropped and the garbage collected: weak references to '
        'all inputs, results, their bases and dropped objects are dead; the third pass leaves no more live arrays (torch, '
        'JAX, TensorFlow: arrays known to the framework or the collector; NumPy: traced bytes) than the second. '
        'Non-trivial: at least two calls.')
ASSUMPTIONS = ['NumPy: 6 kB of growth are allowed to the interpreter, less than one of the inputs of a pass',
               'the first pass may fill caches (filters moved to a device, compiled functions)']

BIG = 16 * 1024


@st.composite
def case(draw, f):
    objs = [draw(obj([f], f in ('numpy', 'torch'))) for _ in range(draw(st.integers(1, 2 if f in ('numpy', 'torch') else 1)))]
    n = draw(st.integers(2, 6 if f in ('numpy', 'torch') else 3))
    kinds = ['call', 'call', 'call', 'bad', 'meta', 'new', 'drop', 'out']
    if f == 'torch':
        kinds += ['grad', 'grad', 'double']
    if f == 'tensorflow':
        kinds += ['grad']
    ops = [dict(op='call', o=0, batch=[1], v=0)]
    for _ in range(n):
        d = dict(op=draw(st.sampled_from(kinds)), o=draw(st.integers(0, len(objs) - 1)), v=draw(st.integers(0, 5)))
        d['batch'] = draw(st.sampled_from([[], [1], [2], [1, 2], [3]] if f != 'jax' else [[1]]))
        ops.append(d)
    return dict(fe=f, objs=objs, ops=ops, seed=draw(st.integers(0, 10 ** 6)))


def arrays(y):
    vals = y.values() if isinstance(y, dict) else [p['coef'] for p in y] if isinstance(y, (list, tuple)) else [y]
    return list(vals)


def census(f):
    """number of arrays / bytes alive"""
    gc.collect()
    if f == 'numpy':
        return tracemalloc.get_traced_memory()[0]
    if f == 'jax':
        import jax
        return len(jax.live_arrays())
    if f == 'torch':
        import torch
        t = torch.Tensor
    else:
        import tensorflow as tf
        t = (type(tf.constant(0.)), tf.Variable)
    n = 0
    for o in gc.get_objects():
        if issubclass(type(o), t):
            n += 1
    return n


class Run:
    def __init__(self, c):
        self.c, self.f = c, c['fe']
        self.kws = [kw_of(o, o['cfg']) for o in c['objs']]
        self.live = [None] * len(self.kws)
        self.outs = [None] * len(self.kws)
        self.refs = []
        self.calls = 0

    def new(self, i):
        o = self.c['objs'][i]
        self.live[i] = fe.make(self.f, o['tr'], **self.kws[i])

    def ref(self, v, what):
        try:
            self.refs.append((weakref.ref(v), what))
        except TypeError:
            pass
        b = getattr(v, 'base', None)
        if isinstance(b, np.ndarray):
            self.ref(b, what)

    def input(self, i, batch, rs):
        kw = self.kws[i]
        sh = kw['shape'] if isinstance(kw['shape'], tuple) else (kw['shape'],)
        batch = tuple(batch)
        if batch and self.f != 'jax':
            # other shapes in every pass
            batch = (batch[0] + self.k,) + batch[1:]
        if self.f == 'numpy':
            # inputs larger than the growth allowed
            batch = (-(-BIG // (8 * int(np.prod(sh)))) + self.k,) + batch[1:]
        x = rs.randn(*(batch + sh))
        if self.f == 'numpy':
            return x
        return fe.to_fw(self.f, x)

    def step(self, op, rs):
        i = op['o']
        kind = op['op']
        tr = self.c['objs'][i]['tr']
        if kind == 'new':
            self.new(i)
            return
        if kind == 'drop':
            if self.live[i] is not None:
                self.refs.append((weakref.ref(self.live[i]), 'dropped %s object' % tr))
                self.live[i] = None
            return
        if self.live[i] is None:
            self.new(i)
        S = self.live[i]
        if kind == 'meta':
            if tr in ('1d', 'jtfs'):
                call(S.meta)
                call(S.output_size)
            return
        if kind == 'out':
            if tr == '3d':
                return
            outs = ['list', 'dict'] if tr != '2d' else ['list', 'array']
            S.out_type = outs[op['v'] % 2]
            return
        if kind == 'bad':
            kw = self.kws[i]
            sh = kw['shape'] if isinstance(kw['shape'], tuple) else (kw['shape'],)
            bad = fe.to_fw(self.f, [np.zeros((2, 3, 1)), np.zeros(()), np.zeros((2,) + sh[:-1] + (sh[-1] + 1,))][op['v'] % 3])
            old = getattr(S, 'out_type', None)
            try:
                if op['v'] > 2 and tr != '3d':
                    bad = self.input(i, op['batch'], rs)
                    S.out_type = 'foo'
                S(bad)
            except Exception:  # noqa: BLE001
                pass
            finally:
                if old is not None:
                    S.out_type = old
            self.ref(bad, 'input of a %s call that failed' % tr)
            return
        x = self.input(i, op['batch'], rs)
        if kind == 'double':
            x = x.double()
            S.double()
        if kind == 'grad' and self.f == 'torch':
            x.requires_grad_(True)
        if self.f == 'tensorflow' and kind == 'grad':
            import tensorflow as tf
            with tf.GradientTape() as tape:
                tape.watch(x)
                y = call(S, x)
                s = tf.add_n([tf.reduce_sum(v) for v in arrays(y)])
            g = tape.gradient(s, x)
            self.ref(g, 'gradient of a %s' % tr)
            del s, g, tape
        else:
            y = call(S, x)
        self.calls += 1
        if kind == 'grad' and self.f == 'torch':
            s = sum(v.sum() for v in arrays(y))
            if op['v'] % 3:
                s.backward()
                if x.grad is not None:
                    self.ref(x.grad, 'gradient of a %s' % tr)
            del s
        if kind == 'double':
            S.float()
        self.ref(x, 'input of a %s call' % tr)
        for v in arrays(y):
            self.ref(v, 'result of a %s call' % tr)
        if op['v'] == 5 and self.f == 'numpy':
            scribble(y)

    def one_pass(self, k):
        rs = np.random.RandomState(self.c['seed'] + k)
        self.k = k
        for op in self.c['ops']:
            self.step(op, rs)


def body(c):
    f = c['fe']
    R = Run(c)
    if f == 'numpy':
        tracemalloc.start()
    try:
        counts = []
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for k in range(3):
                R.one_pass(k)
                gc.collect()
                alive = sorted({what for r, what in R.refs if r() is not None})
                need(not alive, '%s: still alive after the caller dropped it: %s', f, ', '.join(alive))
                R.refs = []
                counts.append(census(f))
        slack = 6 * 1024 if f == 'numpy' else 0
        need(counts[2] <= counts[1] + slack, '%s: each repetition of the history leaves more %s alive: %s', f,
             'bytes' if f == 'numpy' else 'arrays', counts)
        for i, S in enumerate(R.live):
            if S is not None:
                R.refs.append((weakref.ref(S), 'dropped %s object' % c['objs'][i]['tr']))
        del S
        R.live = []
        gc.collect()
        alive = sorted({what for r, what in R.refs if r() is not None})
        need(not alive, '%s: still alive: %s', f, ', '.join(alive))
    finally:
        if f == 'numpy':
            tracemalloc.stop()
    return R.calls >= 6


SUBS = [
    Sub('numpy', lambda: case('numpy'), body, 160, 4000, shards=2, rank=2),
    Sub('torch', lambda: case('torch'), body, 80, 2500, shards=2, rank=3),
    Sub('tensorflow', lambda: case('tensorflow'), body, 28, 900, shards=2, rank=4),
    Sub('jax', lambda: case('jax'), body, 10, 400, shards=2, rank=5),
]

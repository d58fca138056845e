"""C28: overlapping and interrupted calls do not disturb one another.

Threads are stepped by a deterministic scheduler: a trace function counts the lines
executed inside kymatio and hands control to another thread at the generated counts
(exactly one thread runs at a time).  Interruptions are exceptions raised at a generated
line count.  The verdict depends on values only, never on the text of the code.
"""
import os
import sys
import threading
import numpy as np
from hypothesis import strategies as st
from .. import boot, fe, gen
from ..harness import Sub, call, need
from .c16 import kw_of, obj

RULE = ('(threads) 2-3 threads, each with 1-3 operations (call an object shared by the threads with its own input and batch shape, '
        'build and call another object with the same or different parameters, meta, output_size), run under a generated schedule '
        'that switches threads at generated line counts inside kymatio; every result equals the one obtained alone. (faults) '
        'histories of calls and constructions, some of which are interrupted by KeyboardInterrupt, MemoryError or ValueError '
        'at a generated line inside kymatio; every uninterrupted operation afterwards gives the result of an undisturbed '
        'object and inputs are unmodified. Non-trivial: at least one switch took place inside a call (threads), or at least one '
        'operation was interrupted (faults).')
ASSUMPTIONS = ['threads are switched between lines of kymatio, not inside one line or inside the framework',
               'tolerance 1e-12 (float64) or 1e-6 of the largest value: the same operations on the same data']
ROOT = os.path.join(os.path.realpath(boot.REPO), 'kymatio') + os.sep


def inside(code, _c={}):
    f = code.co_filename
    if f not in _c:
        _c[f] = os.path.realpath(f).startswith(ROOT)
    return _c[f]


# ---------------------------------------------------------------- scheduling
class Scheduler:
    """runs the functions in threads, one at a time, switching after the given numbers of lines"""

    def __init__(self, gaps):
        self.gaps = list(gaps) or [1]
        self.i = 0
        self.left = self.gaps[0]
        self.switches = 0
        self.free = False
        self.tokens = []
        self.alive = []

    def next_gap(self):
        self.i += 1
        self.left = self.gaps[self.i % len(self.gaps)] if self.i < 4000 else 10 ** 9

    def hand_over(self, me):
        """pass the token to the next living thread and wait for it to come back"""
        n = len(self.tokens)
        for d in range(1, n):
            t = (me + d) % n
            if self.alive[t]:
                self.switches += 1
                self.tokens[me].clear()
                self.tokens[t].set()
                # a lock in the code under test could make the other one wait for us
                if not self.tokens[me].wait(20):
                    self.free = True
                return

    def tracer(self, me):
        def local(frame, event, arg):
            if event == 'line' and not self.free:
                self.left -= 1
                if self.left <= 0:
                    self.next_gap()
                    self.hand_over(me)
            return local

        def start(frame, event, arg):
            return local if inside(frame.f_code) else None
        return start

    def run(self, fns):
        n = len(fns)
        self.tokens = [threading.Event() for _ in fns]
        self.alive = [True] * n
        res, err = [None] * n, [None] * n

        def work(i):
            self.tokens[i].wait(60)
            sys.settrace(self.tracer(i))
            try:
                res[i] = fns[i]()
            except BaseException as e:  # noqa: BLE001
                err[i] = e
            finally:
                sys.settrace(None)
                self.alive[i] = False
                for d in range(1, n):
                    t = (i + d) % n
                    if self.alive[t]:
                        self.tokens[t].set()
                        break
        ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        self.tokens[0].set()
        for t in ts:
            t.join(200)
        for e in err:
            if e is not None:
                raise e
        return res


class Fault:
    """raises exc at the k-th line executed inside kymatio (k > number of lines: never)"""

    def __init__(self, k, exc):
        self.k, self.exc, self.n, self.fired = k, exc, 0, False

    def local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.n == self.k:
                self.fired = True
                raise self.exc('injected')
        return self.local

    def start(self, frame, event, arg):
        return self.local if inside(frame.f_code) else None

    def run(self, fn):
        sys.settrace(self.start)
        try:
            return fn()
        finally:
            sys.settrace(None)


EXC = [KeyboardInterrupt, MemoryError, ValueError]


# ---------------------------------------------------------------- operations
def shape_of(kw):
    return kw['shape'] if isinstance(kw['shape'], tuple) else (kw['shape'],)


def flat(y):
    if isinstance(y, dict):
        return [np.array(fe.to_np(y[k])) for k in sorted(y)]
    if isinstance(y, (list, tuple)):
        return [np.array(fe.to_np(p['coef'])) for p in y]
    return [np.array(fe.to_np(y))]


def flat_meta(m):
    return [repr((k, v.tolist() if isinstance(v, np.ndarray) else [np.asarray(e).tolist() for e in v]))
            for k, v in sorted(m.items())]


@st.composite
def spec(draw, fes, big):
    """a family of one or two objects, and inputs"""
    a = draw(obj(fes, big))
    objs = [a]
    if draw(st.booleans()):
        b = draw(obj(fes, big).filter(lambda o: o['tr'] == a['tr']))
        b['fe'] = a['fe']
        objs.append(b)
    return objs


@st.composite
def operation(draw, objs):
    o = draw(st.integers(0, len(objs) - 1))
    kinds = ['call', 'call', 'call', 'build'] + (['meta', 'size'] if objs[o]['tr'] in ('1d', 'jtfs') else [])
    return dict(op=draw(st.sampled_from(kinds)), o=o, x=draw(st.integers(0, 3)),
                batch=draw(st.sampled_from([[], [1], [2], [3], [2, 2]])))


@st.composite
def threads(draw, fes, big=True):
    objs = draw(spec(fes, big))
    n = draw(st.sampled_from([2, 2, 2, 3]))
    return dict(objs=objs, threads=[[draw(operation(objs)) for _ in range(draw(st.integers(1, 3 if i == 0 else 2)))]
                                    for i in range(n)],
                gaps=draw(st.lists(st.one_of(st.integers(1, 20), st.integers(1, 400)), min_size=1, max_size=8)),
                seed=draw(st.integers(0, 10 ** 6)))


@st.composite
def faults(draw, fes, big=True):
    objs = draw(spec(fes, big))
    ops = []
    for _ in range(draw(st.integers(2, 6))):
        d = draw(operation(objs))
        if draw(st.booleans()):
            d['fault'] = draw(st.floats(0, 1))
            d['exc'] = draw(st.integers(0, len(EXC) - 1))
        ops.append(d)
    return dict(objs=objs, ops=ops, seed=draw(st.integers(0, 10 ** 6)))


class World:
    def __init__(self, c):
        self.c = c
        self.kws = [kw_of(o, o['cfg']) for o in c['objs']]
        self.objs = [self.new(i) for i in range(len(self.kws))]
        self.alone = {}

    def new(self, i):
        o = self.c['objs'][i]
        return fe.raw(o['fe'], o['tr'], **self.kws[i])

    def x(self, op):
        r = np.random.RandomState((self.c['seed'] + 17 * op['x'] + op['o']) % 2 ** 31)
        return r.randn(*(tuple(op['batch']) + shape_of(self.kws[op['o']]))) * (1, 1, 100, 0.01)[op['x']]

    def perform(self, op, shared=None):
        """the operation on the shared objects, as a function without arguments"""
        i = op['o']
        f = self.c['objs'][i]['fe']
        S = self.objs[i] if shared is None else shared
        if op['op'] in ('call', 'build'):
            x = fe.to_fw(f, self.x(op))
            keep = np.array(fe.to_np(x))

            def fn():
                return flat((self.new(i) if op['op'] == 'build' else S)(x))
            return fn, (lambda: np.array_equal(keep, fe.to_np(x)))
        if op['op'] == 'meta':
            return (lambda: flat_meta(S.meta())), (lambda: True)
        return (lambda: [repr((S.output_size(), S.output_size(detail=True)))]), (lambda: True)

    def expected(self, op):
        key = (op['op'] == 'build' and 'call' or op['op'], op['o'], op['x'], tuple(op['batch']))
        if key not in self.alone:
            fn, _ = self.perform(op, self.new(op['o']))
            self.alone[key] = call(fn)
        return self.alone[key]

    def compare(self, op, got, what):
        want = self.expected(op)
        need(len(got) == len(want), '%s: %d results, %d alone', what, len(got), len(want))
        tol = 1e-12 if self.c['objs'][op['o']]['fe'] == 'numpy' else 1e-6
        for a, b in zip(got, want):
            if op['op'] in ('meta', 'size'):
                need(a == b, '%s: differs from the result alone', what)
            else:
                fe.close(a, b, tol, what, scale=max([float(np.abs(v).max()) for v in want if v.size] + [1e-30]))


def body_threads(c):
    W = World(c)
    for ops in c['threads']:
        for op in ops:
            W.expected(op)
    plans, checks = [], []
    for ops in c['threads']:
        p = [W.perform(op) for op in ops]
        plans.append(lambda p=p: [fn() for fn, _ in p])
        checks.append([k for _, k in p])
    s = Scheduler(c['gaps'])
    got = call(s.run, plans)
    for t, ops in enumerate(c['threads']):
        for k, op in enumerate(ops):
            what = 'thread %d, operation %d (%s of object %d) under interleaving' % (t, k, op['op'], op['o'])
            W.compare(op, got[t][k], what)
            need(checks[t][k](), '%s: the input was modified', what)
    return s.switches > len(c['threads'])


def body_faults(c):
    W = World(c)
    fired = 0
    for k, op in enumerate(c['ops']):
        fn, unmodified = W.perform(op)
        what = 'operation %d (%s of object %d) after %d interrupted operations' % (k, op['op'], op['o'], fired)
        if 'fault' in op:
            probe = Fault(0, ValueError)
            f2, _ = W.perform(op, W.new(op['o']))
            probe.run(lambda: call(f2))
            f = Fault(max(1, int(op['fault'] * probe.n)), EXC[op['exc']])
            try:
                f.run(fn)
            except BaseException:  # noqa: BLE001
                if not f.fired:
                    raise
            fired += f.fired
        else:
            W.compare(op, call(fn), what)
        need(unmodified(), '%s: the input was modified', what)
    for i in range(len(W.objs)):
        op = dict(op='call', o=i, x=0, batch=[])
        W.compare(op, call(W.perform(op)[0]), 'call of object %d after %d interrupted operations' % (i, fired))
        op = dict(op='build', o=i, x=1, batch=[])
        W.compare(op, call(W.perform(op)[0]), 'object %d built after %d interrupted operations' % (i, fired))
    return fired > 0


SUBS = [
    Sub('threads', lambda: threads(['numpy']), body_threads, 200, 6000, shards=2, rank=2),
    Sub('threads-torch', lambda: threads(['torch']), body_threads, 160, 5000, shards=2, rank=2),
    Sub('threads-tf', lambda: threads(['tensorflow'], False), body_threads, 24, 800, shards=1, rank=3),
    Sub('faults', lambda: faults(['numpy']), body_faults, 200, 6000, shards=1, rank=1),
    Sub('faults-torch', lambda: faults(['torch']), body_faults, 120, 4000, shards=1, rank=1),
    Sub('faults-tf', lambda: faults(['tensorflow'], False), body_faults, 20, 600, shards=1, rank=3),
]

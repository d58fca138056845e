"""C30: process-wide settings are neither changed by the library nor able to change its results."""
import contextlib
import gc
import io
import json
import locale
import logging
import os
import pickle
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import warnings
import zlib
import numpy as np
from hypothesis import strategies as st
from .. import boot, fe, gen
from ..harness import Sub, call, need
from .c14 import case, flatten, native, order_of, setup
from .c16 import kw_of, obj
from .c28 import EXC, Fault

RULE = ('(state) generated histories of constructions, calls, rejected calls, metadata queries, gradients and operations interrupted '
        'at a generated line, run in an empty scratch directory: after each one the process-wide settings (NumPy error state and print '
        'options, NumPy, random, torch random states, environment, working directory, sys.path, warning filters, signal handlers, '
        'locale, logging, collector, default dtype, gradient mode, threads, TensorFlow, Keras and JAX options) are those of before, '
        'nothing was written to the standard streams or to disk and no warning was raised but those documented. (ambient) a generated '
        'configuration and input under a generated set of such settings, at construction, at the call or both, gives the coefficients '
        'and types obtained without them. (sqrt) the square root of the 3-D filters on generated arrays, and when it fails. '
        'Non-trivial: a call took place; two settings at least, or one other than the seeds.')
ASSUMPTIONS = ['settings meant to change arithmetic (autocast, default device, JAX matmul precision) are not part of the property',
               'NumPy underflow is not an error: errstate(under="raise") is excluded',
               'with jax_enable_x64 only the values are compared, not the dtype']


HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


# ---------------------------------------------------------------- settings as found
def crc(b):
    return zlib.crc32(b)


def snap(f):
    s = np.random.get_state()
    d = {
        'numpy error state': np.geterr(), 'numpy error callback': repr(np.geterrcall()),
        'numpy print options': repr(np.get_printoptions()),
        'numpy random state': (s[0], crc(s[1].tobytes()), s[2], s[3], s[4]),
        'random state': hash(random.getstate()), 'environment': dict(os.environ), 'working directory': os.getcwd(),
        'sys.path': list(sys.path), 'warning filters': list(map(str, warnings.filters)),
        'recursion limit': sys.getrecursionlimit(), 'switch interval': sys.getswitchinterval(),
        'signal handlers': [repr(signal.getsignal(n)) for n in (signal.SIGINT, signal.SIGFPE, signal.SIGTERM, signal.SIGALRM)],
        'locale': locale.setlocale(locale.LC_ALL), 'collector': (gc.isenabled(), gc.get_threshold()),
        'streams': (id(sys.stdout), id(sys.stderr), id(sys.excepthook)),
        'logging': (logging.root.level, len(logging.root.handlers), logging.root.manager.disable),
        'threads': threading.active_count(), 'files': sorted(os.listdir('.')),
    }
    if f in ('torch',):
        import torch
        d.update({
            'torch default dtype': str(torch.get_default_dtype()), 'torch random state': crc(torch.get_rng_state().numpy().tobytes()),
            'torch gradient mode': (torch.is_grad_enabled(), torch.is_inference_mode_enabled()),
            'torch threads': (torch.get_num_threads(), torch.get_num_interop_threads()),
            'torch determinism': (torch.are_deterministic_algorithms_enabled(), torch.is_anomaly_enabled(),
                                  torch.is_autocast_enabled(), torch.get_float32_matmul_precision()),
            'torch default device': str(torch.get_default_device() if hasattr(torch, 'get_default_device') else '')})
    elif f == 'tensorflow':
        import tensorflow as tf
        from tensorflow.python.eager import context
        k = tf.keras
        d.update({
            'TensorFlow eager mode': (tf.executing_eagerly(), tf.config.functions_run_eagerly()),
            'TensorFlow seed': context.global_seed(),
            'Keras': (k.backend.floatx(), k.backend.image_data_format(), k.backend.epsilon()),
            'TensorFlow devices': (tf.config.get_soft_device_placement(), len(tf.config.get_visible_devices()))})
    elif f == 'jax':
        import jax
        d['JAX options'] = {k: repr(v) for k, v in sorted(jax.config.values.items())}
    return d


def unchanged(a, b, what):
    for k in a:
        if a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, dict):
                x, y = ({q: v for q, v in x.items() if y.get(q) != v}, {q: v for q, v in y.items() if a[k].get(q) != v})
            need(False, '%s: %s changed from %s to %s', what, k, str(x)[:300], str(y)[:300])


DOCUMENTED = [(DeprecationWarning, 'deprecated'), (UserWarning, 'Signal support is too small to avoid border effects')]


def quiet(rec, what):
    for w in rec:
        if issubclass(w.category, RuntimeWarning) or os.sep + 'kymatio' + os.sep in w.filename:
            need(any(issubclass(w.category, c) and m in str(w.message) for c, m in DOCUMENTED),
                 '%s: raised %s: %s', what, w.category.__name__, str(w.message)[:200])


@st.composite
def history(draw, f):
    big = f in ('numpy', 'torch')
    objs = [draw(obj([f], big)) for _ in range(draw(st.integers(1, 2 if big else 1)))]
    kinds = ['call', 'call', 'build', 'build', 'bad', 'meta'] + (['grad'] if f in ('torch', 'tensorflow') else [])
    ops = []
    for _ in range(draw(st.integers(1, 5 if big else 3))):
        d = dict(op=draw(st.sampled_from(kinds)), o=draw(st.integers(0, len(objs) - 1)), v=draw(st.integers(0, 5)),
                 batch=draw(st.sampled_from([[], [2], [1, 2]])), fault=None)
        if draw(st.integers(0, 3)) == 0:
            d['fault'], d['exc'] = draw(st.floats(0, 1)), draw(st.integers(0, 2))
        ops.append(d)
    return dict(fe=f, objs=objs, ops=ops, err=draw(st.booleans()), seed=draw(st.integers(0, 10 ** 6)))


@contextlib.contextmanager
def scratch():
    """an empty working directory"""
    old, d = os.getcwd(), tempfile.mkdtemp(prefix='kvp')
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def act(c, op, live, kws, x):
    """the operation as a function; whether it may be rejected"""
    i, f = op['o'], c['fe']
    tr = c['objs'][i]['tr']
    S = live[i]
    if op['op'] == 'build':
        def fn():
            live[i] = fe.raw(f, tr, **kws[i])
        return fn, False
    if op['op'] == 'meta':
        if tr in ('1d', 'jtfs'):
            return (lambda: (S.meta(), S.output_size(), S.output_size(detail=True))), False
        return (lambda: repr(S)), False
    if op['op'] == 'bad':
        sh = kws[i]['shape'] if isinstance(kws[i]['shape'], tuple) else (kws[i]['shape'],)
        if op['v'] < 3:
            b = fe.to_fw(f, [np.zeros((2, 3, 1)), np.zeros(()), np.zeros((2,) + sh[:-1] + (sh[-1] + 1,))][op['v']])
            return (lambda: S(b)), True
        kw = dict(kws[i], **[dict(foo=1), dict(backend='foo'), dict(J=40)][op['v'] - 3])
        if 'J' in kw and kw['J'] == 40 and tr != '2d':
            kw.update(J=kws[i]['J'], foo=1)
        return (lambda: fe.raw(f, tr, **kw)), True
    t = fe.to_fw(f, x)
    if op['op'] == 'grad':
        vals = lambda y: [v for _, v in flatten(y)]
        if f == 'torch':
            def fn():
                t.requires_grad_(True)
                sum((v ** 2).sum() for v in vals(S(t))).backward()
            return fn, False

        def fn():
            import tensorflow as tf
            with tf.GradientTape() as tape:
                tape.watch(t)
                z = tf.add_n([tf.reduce_sum(v ** 2) for v in vals(S(t))])
            tape.gradient(z, t)
        return fn, False
    return (lambda: S(t)), False


def body_state(c):
    f = c['fe']
    kws = [kw_of(o, o['cfg']) for o in c['objs']]
    live = [fe.make(f, o['tr'], **kw) for o, kw in zip(c['objs'], kws)]
    rs = np.random.RandomState(c['seed'])
    err = dict(divide='raise', invalid='raise', over='raise') if c['err'] else dict(divide='warn', invalid='warn', over='warn')
    calls = 0
    with scratch():
        for n, op in enumerate(c['ops']):
            tr = c['objs'][op['o']]['tr']
            sh = kws[op['o']]['shape']
            x = rs.randn(*(tuple(op['batch']) + (sh if isinstance(sh, tuple) else (sh,))))
            fn, rejected = act(c, op, live, kws, x)
            what = '%s %s: operation %d (%s%s)' % (f, tr, n, op['op'], '' if op['fault'] is None else ', interrupted')
            k = 0
            if op['fault'] is not None:
                # lines executed without a fault
                fl = Fault(10 ** 9, KeyboardInterrupt)
                try:
                    fl.run(fn)
                except Exception:  # noqa: BLE001
                    pass
                k = 1 + int(op['fault'] * fl.n)
                fn, rejected = act(c, op, live, kws, x)
            old = sys.stdout, sys.stderr
            sys.stdout, sys.stderr = out = io.StringIO(), io.StringIO()
            try:
                with np.errstate(**err), warnings.catch_warnings(record=True) as rec:
                    warnings.simplefilter('always')
                    before = snap(f)
                    fl = Fault(k, EXC[op.get('exc', 0)])
                    try:
                        if k:
                            fl.run(fn)
                        elif rejected:
                            fn()
                        else:
                            call(fn)
                    except BaseException as e:  # noqa: BLE001
                        if not (rejected or fl.fired and 'injected' in str(e)):
                            raise
                    after = snap(f)
            finally:
                sys.stdout, sys.stderr = old
            unchanged(before, after, what)
            for s, name in zip(out, ('output', 'error')):
                need(not s.getvalue(), '%s: wrote to the standard %s: %r', what, name, s.getvalue()[:200])
            if not k and not rejected:
                quiet(rec, what)
            calls += op['op'] not in ('bad', 'meta')
    return calls > 0


# ---------------------------------------------------------------- settings that must not matter
@contextlib.contextmanager
def swapped(get, put, new):
    old = get()
    put(new)
    try:
        yield
    finally:
        put(old)


@contextlib.contextmanager
def streams(v):
    old = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = None if v else io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = old


@contextlib.contextmanager
def strict(v):
    """every warning but the documented ones is an error"""
    with warnings.catch_warnings():
        warnings.simplefilter('error', RuntimeWarning)
        if v:
            warnings.filterwarnings('error', module='kymatio')
            warnings.filterwarnings('ignore', message='Signal support is too small')
            warnings.filterwarnings('ignore', message='.*deprecated')
        yield


@contextlib.contextmanager
def environment(v):
    key, val = [('KYMATIO_CACHE', '/nonexistent'), ('HOME', '/nonexistent'), ('PYTHONHASHSEED', '3'), ('KYMATIO_BACKEND', 'torch'),
                ('KYMATIO_BACKEND_1D', 'torch'), ('LANG', 'tr_TR'), ('TZ', 'UTC+5'), ('TMPDIR', '/nonexistent')][v % 8]
    old = os.environ.get(key)
    os.environ[key] = val
    try:
        yield
    finally:
        os.environ.pop(key)
        if old is not None:
            os.environ[key] = old


@contextlib.contextmanager
def collector(v):
    t = gc.get_threshold()
    if v:
        gc.disable()
    else:
        gc.set_threshold(1)
    try:
        yield
    finally:
        gc.enable()
        gc.set_threshold(*t)


@contextlib.contextmanager
def seeded(v, f):
    np.random.seed(v)
    random.seed(v)
    if f == 'torch':
        import torch
        torch.manual_seed(v)
    yield


@contextlib.contextmanager
def tf_floatx(v):
    import tensorflow as tf
    b = tf.keras.backend
    with swapped(b.floatx, b.set_floatx, 'float64'), swapped(b.image_data_format, b.set_image_data_format, 'channels_first'):
        yield


def torch_ctx(name):
    def make(v):
        import torch
        return {
            'dtype': lambda: swapped(torch.get_default_dtype, torch.set_default_dtype, torch.float64),
            'half': lambda: swapped(torch.get_default_dtype, torch.set_default_dtype, [torch.float16, torch.bfloat16][v % 2]),
            'no_grad': torch.no_grad, 'inference': torch.inference_mode, 'enable_grad': torch.enable_grad,
            'threads': lambda: swapped(torch.get_num_threads, torch.set_num_threads, 1 + v % 3),
            'deterministic': lambda: swapped(torch.are_deterministic_algorithms_enabled, torch.use_deterministic_algorithms, True),
            'anomaly': lambda: torch.autograd.set_detect_anomaly(True),
            'saved': lambda: torch.autograd.graph.saved_tensors_hooks(lambda t: t, lambda t: t),
            'precision': lambda: swapped(torch.get_float32_matmul_precision, torch.set_float32_matmul_precision, 'highest'),
            'mkldnn': lambda: torch.backends.mkldnn.flags(enabled=False),
        }[name]()
    return make


def tf_ctx(name):
    def make(v):
        import tensorflow as tf
        return {
            'eager': lambda: swapped(tf.config.functions_run_eagerly, tf.config.run_functions_eagerly, True),
            'tape': lambda: tf.GradientTape(persistent=bool(v % 2)),
            'device': lambda: tf.device('/CPU:0'), 'scope': lambda: tf.name_scope('a'),
            'init': tf.init_scope,
        }[name]()
    return make


def jax_ctx(name):
    def make(v):
        import jax
        from jax import experimental as ex
        return {'x64': lambda: ex.enable_x64(), 'x32': lambda: ex.disable_x64(), 'nojit': jax.disable_jit,
                'nans': lambda: jax.debug_nans(True), 'leaks': lambda: jax.checking_leaks(),
                'device': lambda: jax.default_device(jax.devices('cpu')[0])}[name]()
    return make


AMBIENT = {
    'errstate': lambda v: np.errstate(**{k: 'raise' for j, k in enumerate(('divide', 'invalid', 'over')) if v == 0 or v >> j & 1}),
    'errignore': lambda v: np.errstate(divide='ignore', invalid='ignore', over='ignore', under='ignore'),
    'print': lambda v: np.printoptions(precision=1, threshold=3, suppress=True),
    'streams': streams, 'strict': strict, 'environment': environment, 'collector': collector,
    'directory': lambda v: scratch(),
}
OF = {
    'numpy': {},
    'torch': {n: torch_ctx(n) for n in ('dtype', 'dtype', 'half', 'no_grad', 'inference', 'enable_grad', 'threads', 'deterministic', 'anomaly',
                                        'saved', 'precision', 'mkldnn')},
    'tensorflow': dict({n: tf_ctx(n) for n in ('eager', 'tape', 'device', 'scope', 'init')}, floatx=tf_floatx),
    'jax': {n: jax_ctx(n) for n in ('x64', 'x32', 'nojit', 'nans', 'leaks', 'device')},
}


@st.composite
def ambient(draw, f):
    c = draw(case([f], f in ('tensorflow', 'jax')))
    names = sorted(AMBIENT) + 3 * sorted(OF[f])
    c['ctx'] = [dict(name=draw(st.sampled_from(names)), v=draw(st.integers(0, 9)), when=draw(st.sampled_from(['both', 'build', 'call'])))
                for _ in range(draw(st.integers(1, 3)))]
    c['thread'] = draw(st.integers(0, 3)) == 0
    c['seed'] = draw(st.integers(0, 10 ** 6))
    return c


def threaded(fn):
    res = []

    def work():
        try:
            res.append((fn(), None))
        except BaseException as e:  # noqa: BLE001
            res.append((None, e))
    t = threading.Thread(target=work)
    t.start()
    t.join()
    if res[0][1] is not None:
        raise res[0][1]
    return res[0][0]


def body_ambient(c):
    f, tr = c['fe'], c['tr']
    kw, x = setup(c)
    # the reference: no settings
    want = flatten(call(fe.make(f, tr, **kw), fe.to_fw(f, x)))
    rnd = np.random.get_state()

    def within(when, fn):
        with contextlib.ExitStack() as s:
            for d in c['ctx']:
                if d['when'] in ('both', when):
                    s.enter_context(dict(AMBIENT, **OF[f])[d['name']](d['v']))
            s.enter_context(seeded(c['seed'], f))
            return call(fn)

    def work():
        S = within('build', lambda: fe.raw(f, tr, **kw))
        t = fe.to_fw(f, x)
        return within('call', lambda: S(t))
    try:
        got = flatten(threaded(work) if c['thread'] else work())
    finally:
        np.random.set_state(rnd)
    what = '%s %s under %s' % (f, tr, ', '.join('%(name)s (%(v)d, %(when)s)' % d for d in c['ctx']))
    need([k for k, _ in got] == [k for k, _ in want], '%s: other paths', what)
    ref = [fe.to_np(v) for _, v in want]
    sc = {}
    for (k, _), v in zip(want, ref):
        o = order_of(tr, kw, k)
        sc[o] = max(sc.get(o, 1e-30), float(np.abs(v).max()) if v.size else 0.0)
    tol = 1e-12 if f == 'numpy' else 2e-6
    x64 = any(d['name'] == 'x64' for d in c['ctx'])
    for (k, v), (_, u), r in zip(got, want, ref):
        need(native(f, v), '%s: path %s is %s', what, k, type(v).__name__)
        need(x64 or v.dtype == u.dtype, '%s: path %s is of type %s, otherwise %s', what, k, v.dtype, u.dtype)
        fe.close(fe.to_np(v).astype(np.float64), r.astype(np.float64), 3e-5 if x64 else tol,
                 '%s: path %s' % (what, k), sc[order_of(tr, kw, k)])
    return bool(c['ctx'])


# ---------------------------------------------------------------- other processes
# TensorFlow does not import without docstrings; the others are kept clear of the frameworks' own warnings
FLAGS_FW = ['-O', '-s', '-X utf8', '-u']
FLAGS = ['-O', '-OO', '-s', '-bb', '-X dev', '-X utf8', '-W error::RuntimeWarning', '-X importtime', '-u']


@st.composite
def process(draw, fes):
    f = draw(st.sampled_from(fes))
    return dict(
        fe=f, cases=[draw(case([f], True)) for _ in range(draw(st.integers(2, 6)))],
        flags=draw(st.lists(st.sampled_from(FLAGS if f == 'numpy' else FLAGS_FW + ['-OO'] * (f == 'torch')), max_size=2, unique=True)), hashseed=draw(st.integers(1, 10 ** 6)),
        threads=draw(st.integers(1, 3)), fork=draw(st.sampled_from([0, 1, 2])) if f == 'numpy' else 0,   # thread pools do not survive a fork
        imports=draw(st.lists(st.sampled_from(['kymatio', 'kymatio.numpy', 'kymatio.sklearn', 'kymatio.scattering1d', 'scipy.fft', 'numpy'] +
                                              (['kymatio.torch'] if f == 'torch' else [])), max_size=3, unique=True)))


def body_process(c):
    f = c['fe']
    want = []
    for d in c['cases']:
        kw, x = setup(d)
        want.append((d, kw, flatten(call(fe.make(f, d['tr'], **kw), fe.to_fw(f, x)))))
    tmp = tempfile.mkdtemp(prefix='kvp')
    try:
        with open(os.path.join(tmp, 'in.json'), 'w') as h:
            json.dump(dict(cases=c['cases'], imports=c['imports'], fork=c['fork']), h)
        env = boot.child_env()
        env.update(PYTHONPATH=HERE, PYTHONHASHSEED=str(c['hashseed']), KVP_REPO=boot.REPO, KVP_KEEP='1')
        boot_threads = dict(env, **{k: str(c['threads']) for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS')})
        out = os.path.join(tmp, 'out.pickle')
        cmd = [boot.VENV_PY] + ' '.join(c['flags']).split() + ['-m', 'kvp.proc', os.path.join(tmp, 'in.json'), out]
        r = subprocess.run(cmd, env=boot_threads, cwd=tmp, capture_output=True, text=True, timeout=400)
        what = '%s in a process with %s, hash seed %d, imports %s%s' % (
            f, ' '.join(c['flags']) or 'no flags', c['hashseed'], c['imports'], ', forked' if c['fork'] else '')
        if not os.path.exists(out):
            need('kymatio' not in r.stderr.replace('kvp', ''), '%s: failed: %s', what, r.stderr[-600:])
            raise RuntimeError('child process: %s' % r.stderr[-600:])
        with open(out, 'rb') as h:
            got = pickle.load(h)
        need(not r.stdout, '%s: printed %r', what, r.stdout[:200])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for (d, kw, w), g in zip(want, got):
        tr = d['tr']
        need(not isinstance(g, str), '%s, %s: %s', what, tr, g)
        need([k for k, _ in g] == [k for k, _ in w], '%s, %s: other paths or order', what, tr)
        sc = max([float(np.abs(fe.to_np(v)).max()) for _, v in w if np.size(fe.to_np(v))] + [1e-30])
        for (k, v), (_, u) in zip(g, w):
            u = fe.to_np(u)
            need(v.dtype == u.dtype, '%s, %s: path %s of type %s instead of %s', what, tr, k, v.dtype, u.dtype)
            fe.close(v, u, 1e-12 if f == 'numpy' and tr != '3d' else 2e-6, '%s, %s: path %s' % (what, tr, k), sc)
    return True


# ---------------------------------------------------------------- the square root of the 3-D filters
class Failing(np.ndarray):
    def __array_ufunc__(self, ufunc, method, *a, **k):
        if ufunc is np.sqrt:
            raise MemoryError('no room')
        return getattr(ufunc, method)(*[np.asarray(v) if isinstance(v, Failing) else v for v in a], **k)


def strat_sqrt():
    return st.fixed_dictionaries(dict(
        v=st.lists(st.one_of(st.floats(allow_nan=True, allow_infinity=True), st.integers(0, 50).map(float)), min_size=1, max_size=12),
        dtype=st.sampled_from(['float64', 'float32', 'complex64', 'complex128', 'int64']), fail=st.integers(0, 3),
        err=st.sampled_from(['warn', 'raise', 'ignore'])))


def body_sqrt(c):
    from kymatio.scattering3d import utils
    with np.errstate(all='ignore'):
        x = np.array(c['v'], np.float64)
        if c['dtype'] == 'int64':
            x = np.floor(np.minimum(np.nan_to_num(np.abs(x)), 1e6))
        x = x.astype(c['dtype'])
        want = np.sqrt(x)
    neg = not np.iscomplexobj(x) and bool((x < 0).any())
    with np.errstate(invalid=c['err'], divide=c['err'], over='warn'):
        before = np.geterr()
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            if c['fail'] == 0:
                try:
                    utils.sqrt(x.view(Failing))
                    need(False, 'sqrt: the exception was lost')
                except MemoryError:
                    pass
                y = want
            else:
                y = call(utils.sqrt, x)
        need(np.geterr() == before, 'sqrt left the error state %s instead of %s', np.geterr(), before)
    need(np.array_equal(y, want, equal_nan=True), 'sqrt(%s) = %s', x, y)
    rec = [w for w in rec if issubclass(w.category, RuntimeWarning)]
    if c['fail']:
        need(bool(rec) == neg, 'sqrt(%s): %s', x, 'no warning' if neg else 'warning %s' % rec[0].message if rec else '')
    return len(x) > 1


SUBS = [
    Sub('process', lambda: process(['numpy', 'numpy', 'torch']), body_process, 24, 400, shards=2, rank=1),
    Sub('process_tf_jax', lambda: process(['tensorflow', 'jax']), body_process, 4, 60, shards=1, rank=2),
    Sub('numpy', lambda: history('numpy'), body_state, 250, 6000, shards=1, rank=1),
    Sub('torch', lambda: history('torch'), body_state, 250, 6000, shards=1, rank=1),
    Sub('tensorflow', lambda: history('tensorflow'), body_state, 60, 1500, shards=1, rank=3),
    Sub('jax', lambda: history('jax'), body_state, 60, 1500, shards=1, rank=4),
    Sub('sqrt', strat_sqrt, body_sqrt, 400, 10000, shards=1, rank=5),
    Sub('ambient_numpy', lambda: ambient('numpy'), body_ambient, 300, 8000, shards=1, rank=2),
    Sub('ambient_torch', lambda: ambient('torch'), body_ambient, 400, 10000, shards=1, rank=2),
    Sub('ambient_tf', lambda: ambient('tensorflow'), body_ambient, 120, 3000, shards=1, rank=3),
    Sub('ambient_jax', lambda: ambient('jax'), body_ambient, 120, 3000, shards=1, rank=4),
]

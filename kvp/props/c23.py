"""C23: scikit-learn and Keras integration agree with the core transforms."""
import json
import os
import shutil
import tempfile
import numpy as np
from hypothesis import strategies as st
from .. import fe, gen
from ..harness import Sub, Violation, call, need
from .c12 import array_ok

RULE = ('scikit-learn: generated configurations of the four transformers and a generated history of fit / transform / '
        'predict / fit_transform / clone / get_params / set_params(**get_params) / Pipeline / pickle-free re-use on 1-129 rows '
        '(also a single flat row, and rows with several leading axes); after every operation the result is the flattened '
        'output of the NumPy class. Keras: generated layers applied eagerly, in a functional Model, in Model.predict with '
        'partial batches, on multi-channel inputs; compute_output_shape, symbolic shape, get_config/from_config, models saved and loaded, cloned, from JSON, in a Sequential with a dense head. '
        'Non-trivial: more than one row or more than two operations (scikit-learn), non-constant input (Keras).')
ASSUMPTIONS = ['Keras compared with the NumPy class at 1e-4 of the largest coefficient of the order',
               'Keras layers have no stride or out_type argument; T=0 has no array output']


# ------------------------------------------------------------------ sklearn
@st.composite
def case_sk(draw):
    tr = draw(st.sampled_from(['1d', '1d', '2d', '2d', '3d', 'jtfs']))
    c = dict(tr=tr)
    if tr == '1d':
        c['cfg'] = draw(gen.cfg1d(nmax=100, max_q=5, modes=('default', 'local', 'global')))
    elif tr == '2d':
        c['cfg'] = draw(gen.cfg2d(nmax=20, cost=20, jmax=3, pre_pad=True))
    elif tr == '3d':
        c['cfg'] = draw(gen.cfg3d(dims=(4, 5, 6), jmax=1, lmax=2))
    else:
        c['cfg'] = draw(gen.cfg_jtfs(nmax=64, max_q=2, jmax=4, modes=('default', 'local', 'global')))
    c['rows'] = draw(st.one_of(st.sampled_from([[], [1], [2], [3], [4], [2, 2]]),
                              st.sampled_from([[5], [8], [9], [16], [17], [31], [32], [33], [40], [64], [65], [100], [3, 11], [129]])))
    if int(np.prod(c['rows'] or [1])) > 4:      # many rows: small configurations
        if tr == '1d':
            c['cfg'] = draw(gen.cfg1d(nmax=24, max_q=2, jmax=3, modes=('default', 'local', 'global')))
        elif tr == '2d':
            c['cfg'] = draw(gen.cfg2d(nmax=8, cost=4, jmax=2, pre_pad=True))
        elif tr == '3d':
            c['cfg'] = draw(gen.cfg3d(dims=(3, 4), jmax=1, lmax=1))
        else:
            c['cfg'] = draw(gen.cfg_jtfs(nmax=16, max_q=1, jmax=2, modes=('default', 'local', 'global')))
    c['x'] = draw(gen.signals(['noise', 'impulse', 'step', 'sparse', 'const']))
    c['ops'] = draw(st.lists(st.sampled_from(
        ['fit', 'transform', 'predict', 'fit_transform', 'clone', 'params', 'set_params', 'pipeline', 'scattering']),
        min_size=1, max_size=5 if int(np.prod(c['rows'] or [1])) < 20 else 2))
    return c


def body_sk(c):
    from sklearn.base import clone
    from sklearn.pipeline import make_pipeline
    from sklearn.preprocessing import FunctionTransformer
    tr = c['tr']
    kw = {'1d': gen.kw1d, 'jtfs': gen.kw1d, '2d': gen.kw2d, '3d': gen.kw3d}[tr](c['cfg'])
    if tr == 'jtfs' and not array_ok(kw):
        return False
    sh = kw['shape'] if isinstance(kw['shape'], tuple) else (kw['shape'],)
    if kw.get('pre_pad'):
        k = 2 ** kw['J']
        sh = tuple(((n + k) // k + 1) * k for n in sh)
    n = int(np.prod(sh))
    rows = tuple(c['rows'])
    x = gen.signal(c['x'], rows + (n,)).astype(np.float32).astype(np.float64)
    R = fe.make('numpy', tr, **kw)
    # one leading axis, as in predict
    want = call(R, x.reshape((-1,) + sh)).reshape(rows + (-1,))
    if tr == '3d':
        want1 = call(R, x.reshape((-1,) + sh))
        need(want1.reshape(rows + (-1,)).shape == want.shape, 'reference')
    S = fe.make('sklearn', tr, **kw)

    def check(y, what):
        need(isinstance(y, np.ndarray), '%s returns %s', what, type(y).__name__)
        need(y.shape == want.shape, '%s: shape %s, expected %s', what, y.shape, want.shape)
        tol = 1e-12 * max(1.0, float(np.abs(want).max()))
        need(bool(np.all(np.abs(y - want) <= tol)), '%s differs from the NumPy transform by %.2e', what,
             float(np.abs(y - want).max()))

    keep = x.copy()
    for op in c['ops']:
        what = 'sklearn %s %s' % (tr, op)
        if op == 'fit':
            r = call(S.fit, x) if len(rows) % 2 else call(S.fit, x, np.zeros(rows or (1,)))
            need(r is S, '%s does not return the estimator', what)
        elif op == 'transform':
            check(call(S.transform, x), what)
        elif op == 'predict':
            check(call(S.predict, x), what)
        elif op == 'fit_transform':
            check(call(S.fit_transform, x), what)
        elif op == 'clone':
            S = call(clone, S)
            need(type(S) is fe.cls('sklearn', tr), '%s: type %s', what, type(S))
        elif op == 'params':
            p = call(S.get_params)
            for k, v in kw.items():
                need(k in p, '%s: %s is missing', what, k)
                # shape and Q_fr are normalised to tuples by the constructor
                need(p[k] == v or p[k] == (v,), '%s: %s is %r, given %r', what, k, p[k], v)
            S = call(fe.cls('sklearn', tr), **p)
        elif op == 'set_params':
            r = call(S.set_params, **{})
            need(r is S, '%s does not return the estimator', what)
        elif op == 'pipeline':
            if len(rows) != 1:
                continue
            P = make_pipeline(FunctionTransformer(), S)
            check(call(P.fit(x).transform, x), what)
            P = make_pipeline(S, FunctionTransformer(np.negative))
            check(-call(call(P.fit, x, np.zeros(rows)).transform, x), what)
        elif op == 'scattering':
            y = call(S.scattering, x.reshape((-1,) + sh))
            check(y.reshape(rows + (-1,)), what)
        need(np.array_equal(x, keep), '%s changed its input', what)
    check(call(S.transform, x), 'sklearn %s after %s' % (tr, c['ops']))
    return len(c['ops']) > 2 or len(want.reshape(-1)) > want.shape[-1]


# ------------------------------------------------------------------ keras
@st.composite
def case_keras(draw):
    tr = draw(st.sampled_from(['1d', '2d']))
    c = dict(tr=tr)
    if tr == '1d':
        c['cfg'] = draw(gen.cfg1d(nmax=64, max_q=4, modes=('default', 'local', 'global'), stride=False, jmax=4))
        T = c['cfg'].get('T')
        if T != 'global' and draw(st.integers(0, 3)) == 0:
            lt = c['cfg']['J'] if T is None else int(np.floor(np.log2(T)))
            if lt > 0:
                c['cfg']['oversampling'] = draw(st.integers(1, lt))
    else:
        c['cfg'] = draw(gen.cfg2d(nmax=20, cost=12, jmax=3, pre_pad=True))
    c['batch'] = draw(st.sampled_from([[1], [2], [3], [2, 2], [1, 3]]))
    c['x'] = draw(gen.signals(['noise', 'impulse', 'step', 'sparse', 'const']))
    c['use'] = draw(st.sampled_from(['eager', 'eager', 'config', 'model', 'predict', 'reuse', 'save', 'clone', 'json', 'sequential']))
    return c


def body_keras(c):
    import tensorflow as tf
    tr = c['tr']
    kw = (gen.kw1d if tr == '1d' else gen.kw2d)(c['cfg'])
    lay = {k: v for k, v in kw.items() if k != 'shape'}
    sh = kw['shape'] if isinstance(kw['shape'], tuple) else (kw['shape'],)
    if kw.get('pre_pad'):
        k = 2 ** kw['J']
        sh = tuple(((n + k) // k + 1) * k for n in sh)
    batch = tuple(c['batch'])
    x = gen.signal(c['x'], batch + (int(np.prod(sh)),)).reshape(batch + sh).astype(np.float32)
    ref = dict(kw)
    ov = ref.pop('oversampling', 0)
    if ov:
        T = ref.get('T') or 2 ** ref['J']
        ref['stride'] = 2 ** (int(np.floor(np.log2(T))) - ov)
    want = call(fe.make('numpy', tr, **ref), x.astype(np.float64))
    amp = max(float(np.abs(x).max()), 1e-30)
    ax = -2 if tr == '1d' else -3

    def check(y, what):
        y = fe.to_np(y)
        need(y.shape == want.shape, 'keras %s %s: shape %s, expected %s', tr, what, y.shape, want.shape)
        w, v = np.moveaxis(want, ax, 0), np.moveaxis(y, ax, 0)
        for sl in (slice(0, 1), slice(1, None)):
            if w[sl].size:
                fe.close(v[sl], w[sl], 1e-4, 'keras %s %s channels %s' % (tr, what, sl),
                         max(1e-2 * amp, float(np.abs(w[sl]).max())))

    S = call(fe.cls('keras', tr), **lay)
    use = c['use']
    if use in ('eager', 'config', 'reuse'):
        y = call(S, tf.convert_to_tensor(x))
        need(tf.is_tensor(y), 'keras layer returns %s', type(y).__name__)
        check(y, 'layer')
        got = tuple(call(S.compute_output_shape, x.shape))
        need(got == want.shape, 'keras %s: compute_output_shape %s, actual %s', tr, got, want.shape)
        got = tuple(call(S.compute_output_shape, (None,) + x.shape[1:]))
        need(got == (None,) + want.shape[1:], 'keras %s: compute_output_shape %s for an unknown batch, actual %s', tr, got,
             want.shape)
    if use == 'config':
        cfg = call(S.get_config)
        for k, v in lay.items():
            need(k in cfg and cfg[k] == v, 'keras %s: get_config()[%r] is %r, given %r', tr, k, cfg.get(k), v)
        cfg2 = json.loads(json.dumps(cfg))      # what saving does
        for d in (cfg, cfg2):
            S2 = call(fe.cls('keras', tr).from_config, d)
            check(call(S2, tf.convert_to_tensor(x)), 'layer rebuilt from its configuration')
            need(tuple(call(S2.compute_output_shape, x.shape)) == want.shape, 'keras %s: rebuilt output shape', tr)
    elif use == 'reuse':
        z = call(S, tf.convert_to_tensor(2 * x))
        check(fe.to_np(z) / 2, 'second call')
        check(call(S, tf.convert_to_tensor(x)), 'third call')
    elif use == 'sequential':
        head = tf.keras.layers.Dense(3)
        model = tf.keras.Sequential([tf.keras.layers.Input(shape=batch[1:] + sh), S, tf.keras.layers.Flatten(), head])
        y = fe.to_np(call(model, x))
        k, b = (v.numpy() for v in head.weights)
        flat = want.reshape(batch[0], -1)
        need(k.shape == (flat.shape[1], 3), 'keras %s: %d features reach the next layer, expected %d', tr, k.shape[0], flat.shape[1])
        fe.close(y, flat @ k + b, 1e-4, 'keras %s followed by a dense layer' % tr, max(amp, float(np.abs(flat) @ np.abs(k)[:, 0] @ np.ones(len(flat)))))
        need(not S.trainable_weights and not S.non_trainable_weights, 'keras %s: the layer has weights', tr)
    elif use in ('save', 'clone', 'json'):
        inp = tf.keras.layers.Input(shape=batch[1:] + sh)
        model = tf.keras.models.Model(inp, call(S, inp))
        co = {type(S).__name__: type(S)}
        if use == 'clone':
            m2 = call(tf.keras.models.clone_model, model)
        elif use == 'json':
            m2 = call(tf.keras.models.model_from_json, call(model.to_json), custom_objects=co)
        else:
            d = tempfile.mkdtemp(prefix='kvp')
            try:
                call(model.save, os.path.join(d, 'm.keras'))
                m2 = call(tf.keras.models.load_model, os.path.join(d, 'm.keras'), custom_objects=co)
            finally:
                shutil.rmtree(d, ignore_errors=True)
        check(call(m2, x), 'in a model restored by %s' % use)
    elif use in ('model', 'predict'):
        inp = tf.keras.layers.Input(shape=batch[1:] + sh)
        out = call(S, inp)
        need(tuple(out.shape)[1:] == want.shape[1:], 'keras %s: symbolic shape %s, actual %s', tr, tuple(out.shape), want.shape)
        model = tf.keras.models.Model(inp, out)
        if use == 'model':
            check(call(model, x), 'in a model')
        else:
            check(call(model.predict, x, batch_size=2, verbose=0), 'in Model.predict')
    return c['x']['kind'] != 'const'


SUBS = [
    Sub('sklearn', case_sk, body_sk, 600, 12000, shards=2, rank=1),
    Sub('keras', case_keras, body_keras, 180, 4000, shards=4, rank=3),
]

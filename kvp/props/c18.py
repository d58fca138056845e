"""C18: gradients are exact and finite."""
import numpy as np
from hypothesis import strategies as st
from .. import dual, fe, gen, ref1d
from ..harness import Sub, call, need
from .c12 import array_ok

RULE = ('Generated configurations of the four transforms in every averaging mode and out_type, with generic (noise) inputs: '
        'the gradient of a random weighted sum (or sum of squares) of all coefficients, obtained from the framework, is '
        'compared along random directions with the exact directional derivative of the reference model (dual numbers). '
        '(finite) zero, constant, sparse and impulse signals: gradients are finite '
        'and, at zero, equal to the order-0 part. (torch_tape) several forward passes of one or two objects whose backward passes '
        'are taken in any order and repeatedly, against a forward pass directly followed by its backward pass. Non-trivial: the derivative is not zero.')
ASSUMPTIONS = ['the dual-number model in kvp/dual.py differentiates the cascade of the reference models',
               'tolerance 2e-3 of the sum of absolute contributions of the coefficients (float32); 1e-4 for float64',
               '3-D gradients are checked at generic inputs for powers >= 1 (NaN of torch and JAX at identically zero '
               'volumes is outside the property)']
ND = 4
AMPS = [1.0, 1.0, 20.0, 0.05, 1e-3, 1e-5, 1e-7, 1e5]
AMPS3 = [1.0, 1.0, 20.0, 0.05, 1e-3, 1e3]


@st.composite
def case(draw, f, small, special=False):
    tr = draw(st.sampled_from(['1d', '1d', '2d', 'jtfs'] + ([] if special else ['3d'])))
    c = dict(fe=f, tr=tr, batch=draw(st.sampled_from([[], [1], [2]])))
    if tr == '1d':
        c['cfg'] = draw(gen.cfg1d(nmax=32 if small else 100, max_q=2 if small else 5, jmax=3 if small else 5))
    elif tr == '2d':
        c['cfg'] = draw(gen.cfg2d(nmax=12 if small else 20, cost=4 if small else 20, jmax=2 if small else 3, pre_pad=True))
    elif tr == '3d':
        c['cfg'] = draw(gen.cfg3d(dims=(4, 5) if small else (4, 5, 6), jmax=1, lmax=2))
        c['cfg']['integral_powers'] = draw(st.lists(st.sampled_from([1.0, 1.5, 2.0, 3.0]), min_size=1, max_size=3))
    else:
        c['cfg'] = draw(gen.cfg_jtfs(nmax=24 if small else 64, max_q=1 if small else 3, jmax=3 if small else 4))
    if special:
        c['x'] = dict(kind=draw(st.sampled_from(['zero', 'zero', 'const', 'impulse', 'sparse'])),
                      seed=draw(st.integers(0, 10 ** 6)), amp=draw(st.sampled_from([1.0, 30.0, 1e-6])), d=2)
    else:
        c['x'] = dict(kind='noise', seed=draw(st.integers(0, 10 ** 6)), amp=draw(st.sampled_from(AMPS3 if tr == '3d' else AMPS)), d=2)
    c['out'] = draw(st.sampled_from(['array', 'list', 'dict']))
    c['loss'] = draw(st.sampled_from(['lin', 'lin', 'sq']))
    c['double'] = draw(st.booleans())
    return c


def setup(c):
    tr = c['tr']
    kw = {'1d': gen.kw1d, 'jtfs': gen.kw1d, '2d': gen.kw2d, '3d': gen.kw3d}[tr](c['cfg'])
    if tr in ('1d', 'jtfs'):
        shape = (kw['shape'],)
        out = c['out']
        if out == 'array' and (kw.get('T') == 0 or tr == 'jtfs' and not array_ok(kw)):
            out = 'list'
    elif tr == '2d':
        out = 'list' if c['out'] == 'list' else 'array'
        shape = kw['shape']
        if kw['pre_pad']:
            k = 2 ** kw['J']
            shape = tuple(((n + k) // k + 1) * k for n in shape)
    else:
        out, shape = None, kw['shape']
    if out:
        kw['out_type'] = out
    full = tuple(c['batch']) + shape
    if c['x']['kind'] == 'zero':
        x = np.zeros(full)
    else:
        x = (gen.image if tr in ('2d', '3d') else gen.signal)(c['x'], full)
    return kw, shape, x.astype(np.float32).astype(np.float64)


def ref_paths(tr, kw, X, batch):
    """X (B, 1+K, shape) -> list of (key, value+tangents (B, 1+K, ...)), ill-conditioned flags"""
    out = []
    for b in range(X.shape[0]):
        if tr == '1d':
            R = dual.Dual1D(kw['J'], kw['shape'], kw['Q'], kw.get('T'), kw.get('stride'), kw['max_order'])
            r = R(X[b])
            out.append([(k, r[k]) for k in R.paths()])
        elif tr == '2d':
            R = dual.Dual2D(**{k: v for k, v in kw.items() if k != 'out_type'})
            r = R(X[b])
            out.append([(p['n'], r[p['n']]) for p in R.paths()])
        elif tr == '3d':
            out.append([(None, dual.Dual3D(**kw)(X[b]))])
        else:
            R = dual.DualJTFS(kw['J'], kw['J_fr'], kw['Q'], kw['shape'], kw.get('T'), kw.get('stride'), kw.get('Q_fr', 1),
                              kw.get('F'), kw.get('stride_fr'), kw['out_type'], kw['format'])
            bad = [ref1d.ill_conditioned(R.N_fr, p['xi'], p['sigma']) for p in R.fr]
            out.append([(k, v, p.get('n_fr') is not None and bad[p['n_fr']]) for k, v, p in R.paths_out(X[b])])
    return [(out[0][i][0], np.stack([o[i][1] for o in out]), len(out[0][i]) > 2 and out[0][i][2]) for i in range(len(out[0]))]


def coefs(tr, kw, y, keys):
    """framework output -> list of per-path coefficients"""
    if isinstance(y, dict):
        need(set(y) == set(keys), 'paths differ from the reference')
        return [y[k] for k in keys]
    if isinstance(y, (list, tuple)):
        need([tuple(p['n']) for p in y] == list(keys), 'paths differ from the reference')
        return [p['coef'] for p in y]
    if tr == '3d':
        return [y]
    n = len(keys)
    ax = -3 if tr == '2d' or kw.get('format') == 'joint' else -2
    need(y.shape[ax] == n, 'output has %d channels, expected %d', y.shape[ax], n)
    sl = (slice(None),) * (-ax - 1)
    return [y[(Ellipsis, i) + sl] for i in range(n)]


def gradient(c, kw, x, ws, loss, keys):
    f, tr, double = c['fe'], c['tr'], c['double'] and c['tr'] != '3d'
    S = fe.make(f, tr, **kw)
    if f == 'torch':
        import torch
        dt = torch.float64 if double else torch.float32
        S = S.double() if double else S
        xt = torch.from_numpy(x).to(dt).requires_grad_(True)
        tot = 0
        for v, w in zip(coefs(tr, kw, call(S, xt), keys), ws):
            w = torch.from_numpy(w).to(v.dtype)
            need(v.numel() == w.numel(), 'coefficient of shape %s, expected %s', tuple(v.shape), w.shape)
            w = w.reshape(v.shape)
            tot = tot + ((w * v).sum() if loss == 'lin' else (w * v * v).sum())
        return torch.autograd.grad(tot, xt)[0].detach().numpy()
    if f == 'tensorflow':
        import tensorflow as tf
        xt = tf.convert_to_tensor(x.astype(np.float32))
        with tf.GradientTape() as tape:
            tape.watch(xt)
            tot = 0.0
            for v, w in zip(coefs(tr, kw, call(S, xt), keys), ws):
                w = tf.reshape(tf.cast(tf.convert_to_tensor(w), v.dtype), v.shape)
                tot = tot + (tf.reduce_sum(w * v) if loss == 'lin' else tf.reduce_sum(w * v * v))
        g = tape.gradient(tot, xt)
        need(g is not None, 'no gradient with respect to the input')
        return np.asarray(g)
    import jax
    import jax.numpy as jnp

    def fun(xt):
        tot = 0.0
        for v, w in zip(coefs(tr, kw, S(xt), keys), ws):
            w = jnp.asarray(w.astype(np.float32)).reshape(v.shape)
            tot = tot + ((w * v).sum() if loss == 'lin' else (w * v * v).sum())
        return tot
    return np.asarray(call(jax.grad(fun), jnp.asarray(x.astype(np.float32))))


def body(c):
    kw, shape, x = setup(c)
    tr = c['tr']
    rng = np.random.RandomState((c['x']['seed'] + 17) % 2 ** 31)
    xb = x.reshape((-1,) + shape)
    D = rng.randn(xb.shape[0], ND, *shape)
    D[:, 0] *= rng.rand(*shape) < 0.2
    ref = ref_paths(tr, kw, np.concatenate([xb[:, None], D], axis=1), c['batch'])
    ws = []
    exp, mag = np.zeros((xb.shape[0], ND)), np.zeros((xb.shape[0], ND))
    # values per order set the scale of 'sq' weights so that every order counts
    for k, r, bad in ref:
        v, t = r[:, 0], r[:, 1:]
        w = rng.randn(*v.shape)
        if bad:
            w = w * 0            # rounding-determined filters carry no weight
        if tr == '3d':           # powers differ in scale
            w = w / (1e-30 + np.abs(v).max(axis=tuple(range(v.ndim - 1)), keepdims=True))
        elif k is not None and c['loss'] == 'lin':
            w = w * 3.0 ** (len(k) + (tr == '2d'))
        ws.append(w)
        ax = tuple(range(2, t.ndim))
        con = w[:, None] * t if c['loss'] == 'lin' else 2 * w[:, None] * v[:, None] * t
        exp += con.sum(axis=ax)
        mag += np.abs(con).sum(axis=ax)
    g = gradient(c, kw, x, ws, c['loss'], [k for k, _, _ in ref])
    need(g.shape == x.shape, 'gradient has shape %s, input %s', g.shape, x.shape)
    need(bool(np.all(np.isfinite(g))), 'non-finite gradient')
    gb = g.reshape(xb.shape).astype(np.float64)
    got = (gb[:, None] * D).sum(axis=tuple(range(2, D.ndim)))
    tol = (1e-4 if (c['fe'] == 'torch' and c['double'] and tr != '3d') else 2e-3) * mag
    tol += 1e-6 * np.abs(gb[:, None] * D).sum(axis=tuple(range(2, D.ndim)))
    err = np.abs(got - exp)
    i = np.unravel_index(int(np.argmax(err - tol)), err.shape)
    need(bool(np.all(err <= tol + 1e-30)), 'derivative along direction %s of element %d is %.7g, exact value %.7g (tolerance %.1e)',
         i[1], i[0], got[i], exp[i], tol[i])
    return bool(np.any(exp != 0))


def body_special(c):
    kw, shape, x = setup(c)
    tr = c['tr']
    rng = np.random.RandomState((c['x']['seed'] + 5) % 2 ** 31)
    xb = x.reshape((-1,) + shape)
    D = rng.randn(xb.shape[0], ND, *shape)
    ref = ref_paths(tr, kw, np.concatenate([xb[:, None], D], axis=1), c['batch'])
    ws = [rng.randn(*r[:, 0].shape) for _, r, _ in ref]
    g = gradient(c, kw, x, ws, 'lin', [k for k, _, _ in ref])
    need(bool(np.all(np.isfinite(g))), '%s signal: non-finite gradient', c['x']['kind'])
    gb = g.reshape(xb.shape).astype(np.float64)
    if c['x']['kind'] == 'zero':
        got = (gb[:, None] * D).sum(axis=tuple(range(2, D.ndim)))
        exp = np.zeros_like(got)
        mag = np.full_like(got, 1e-6)
        for (_, r, _), w in zip(ref, ws):
            con = w[:, None] * r[:, 1:]
            exp += con.sum(axis=tuple(range(2, con.ndim)))
            mag += np.abs(con).sum(axis=tuple(range(2, con.ndim)))
        # the derivative may cancel: rounding of the gradient itself
        mag += 1e-2 * np.abs(gb[:, None] * D).sum(axis=tuple(range(2, D.ndim)))
        need(bool(np.all(np.abs(got - exp) <= 1e-4 * mag)), 'gradient at the zero signal is not the order-0 part '
             '(deviation %.2e)', float(np.abs(got - exp).max()))
        return bool(np.any(exp != 0)) or kw.get('T') is not None
    return True


# ---------------------------------------------------------------- histories of forward and backward passes
@st.composite
def tape(draw):
    cs = [draw(case('torch', True)) for _ in range(draw(st.integers(1, 2)))]
    n = draw(st.integers(2, 4))
    fw = [dict(o=draw(st.integers(0, len(cs) - 1)), seed=draw(st.integers(0, 99)), amp=draw(st.sampled_from([1.0, 30.0, 1e-3])),
               batch=draw(st.sampled_from([[], [1], [2], [3]]))) for _ in range(n)]
    return dict(cs=cs, fw=fw, back=draw(st.lists(st.integers(0, n - 1), min_size=2, max_size=6)), late=draw(st.booleans()),
                meta=draw(st.booleans()))


def body_tape(c):
    """Backward passes in any order, repeated, and after other forward passes, give the
    gradient of a forward pass immediately followed by its backward pass."""
    import torch
    confs = [setup(dict(k, batch=[])) for k in c['cs']]
    objs = [fe.make('torch', k['tr'], **kw) for k, (kw, _, _) in zip(c['cs'], confs)]

    def forward(S, f):
        x = np.random.RandomState(f['seed']).randn(*(tuple(f['batch']) + tuple(confs[f['o']][1]))) * f['amp']
        xt = torch.from_numpy(x).float().requires_grad_(True)
        y = call(S, xt)
        vs = list(y.values()) if isinstance(y, dict) else [p['coef'] for p in y] if isinstance(y, list) else [y]
        r = np.random.RandomState(f['seed'] + 1000)
        return xt, sum((torch.from_numpy(r.randn(*v.shape)).to(v.dtype) * v).sum() for v in vs)
    want = []
    for f in c['fw']:
        kw, _, _ = confs[f['o']]
        xt, loss = forward(fe.make('torch', c['cs'][f['o']]['tr'], **kw), f)
        want.append(torch.autograd.grad(loss, xt)[0].numpy().copy())
    live = {}
    if not c['late']:
        for k, f in enumerate(c['fw']):
            live[k] = forward(objs[f['o']], f)
    for k in c['back']:
        f = c['fw'][k]
        if k not in live:
            live[k] = forward(objs[f['o']], f)
        if c['meta'] and hasattr(objs[f['o']], 'meta'):
            call(objs[f['o']].meta)
        xt, loss = live[k]
        g = call(torch.autograd.grad, loss, xt, retain_graph=True)[0].numpy()
        fe.close(g, want[k], 1e-5, 'gradient of pass %d among %d forward and %d backward passes' % (k, len(c['fw']), len(c['back'])),
                 scale=max(float(np.abs(want[k]).max()), 1e-30))
        g[...] = np.nan             # the caller owns what it received
    return len(set(c['back'])) > 1


def S_(f, small=False, special=False):
    return lambda: case(f, small, special)


SUBS = [
    Sub('torch', S_('torch'), body, 500, 10000, shards=3, rank=2),
    Sub('torch_special', S_('torch', special=True), body_special, 250, 5000, shards=1, rank=2),
    Sub('torch_tape', tape, body_tape, 120, 4000, shards=1, rank=2),
    Sub('tensorflow', S_('tensorflow', True), body, 50, 2000, shards=1, rank=4),
    Sub('tf_special', S_('tensorflow', True, True), body_special, 40, 1500, shards=1, rank=3),
    Sub('jax', S_('jax', True), body, 22, 900, shards=1, rank=5),
    Sub('jax_special', S_('jax', True, True), body_special, 20, 900, shards=1, rank=5),
]

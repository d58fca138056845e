"""C11: invariances of HarmonicScattering3D."""
import numpy as np
from hypothesis import strategies as st
from .. import fe, gen
from ..harness import Sub, call, need
from ..ref3d import Ref3D

RULE = ('Generated configurations and volumes; metamorphic relations: circular translation, signed axis permutation '
        '(rotation_covariant=True), multiplication by a factor, together and in random combination. Non-trivial: the '
        'volume is not constant and the map is not the identity.')
ASSUMPTIONS = ['rotations: sizes are odd, or the Nyquist planes of the volume are removed and sigma_0 >= 1 (on an even '
               'grid the Nyquist plane has no mirror image)', 'slack as in C09']


def strategy(fes, **kw):
    @st.composite
    def s(draw):
        cfg = draw(gen.cfg3d(**kw))
        return dict(fe=draw(st.sampled_from(fes)), cfg=cfg, x=draw(gen.images(d=3)),
                    batch=draw(st.sampled_from([[], [2], [1, 2]])),
                    shift=[draw(st.integers(-20, 20)) for _ in range(3)],
                    perm=draw(st.permutations([0, 1, 2])), flip=[draw(st.booleans()) for _ in range(3)],
                    rotate=draw(st.booleans()), c=draw(st.sampled_from([1.0, -1.0, 2.0, -0.5, 10.0])))
    return s


def body(c):
    cfg, f = gen.kw3d(c['cfg']), c['fe']
    shape = cfg['shape']
    x = gen.image(c['x'], tuple(c['batch']) + shape)
    rot = c['rotate'] and cfg['rotation_covariant']
    if rot:
        cfg['sigma_0'] = max(cfg['sigma_0'], 1)
        X = np.fft.fftn(x, axes=(-3, -2, -1))
        for ax, n in zip((-3, -2, -1), shape):
            if n % 2 == 0:
                sl = [slice(None)] * X.ndim
                sl[ax] = n // 2
                X[tuple(sl)] = 0
        x = np.fft.ifftn(X, axes=(-3, -2, -1)).real
    x = x.astype(np.float32).astype(np.float64)
    S = fe.make(f, '3d', **cfg)
    y = fe.run(f, S, x)
    v, slack = Ref3D(**cfg).interval(x)
    z = np.roll(x, c['shift'], axis=(-3, -2, -1)) * c['c']
    cfg2 = dict(cfg)
    if rot:
        for ax, fl in zip((-3, -2, -1), c['flip']):
            if fl:
                z = np.flip(z, axis=ax)
        nb = len(c['batch'])
        z = np.transpose(z, list(range(nb)) + [nb + p for p in c['perm']])
        cfg2['shape'] = tuple(shape[p] for p in c['perm'])
    S2 = fe.make(f, '3d', **cfg2)
    y2 = fe.run(f, S2, np.ascontiguousarray(z))
    q = np.array(cfg.get('integral_powers', (0.5, 1., 2.)))
    exp = y.astype(np.float64) * np.abs(c['c']) ** q
    need(y2.shape == exp.shape, 'output shape changed from %s to %s', exp.shape, y2.shape)
    d = np.abs(y2 - exp) - 2 * slack * np.abs(c['c']) ** q
    if d.max() > 0:
        i = np.unravel_index(int(np.argmax(d)), d.shape)
        need(False, 'coefficient %s becomes %.6g instead of %.6g (shift %s, permutation %s, flips %s, factor %s)',
             tuple(int(k) for k in i), y2[i], exp[i], c['shift'], c['perm'] if rot else None,
             c['flip'] if rot else None, c['c'])
    moved = any(s % n for s, n in zip(c['shift'], shape)) or c['c'] != 1
    return c['x']['kind'] != 'const' and (moved or rot)


SUBS = [
    Sub('numpy', strategy(['numpy']), body, 600, 12000, shards=3, rank=1),
    Sub('torch', strategy(['torch']), body, 400, 8000, shards=2, rank=2),
    Sub('tensorflow', strategy(['tensorflow'], dims=(4, 5, 6), lmax=2), body, 60, 2000, shards=1, rank=3),
    Sub('jax', strategy(['jax'], dims=(4, 5), jmax=1, lmax=1), body, 20, 800, shards=1, rank=3),
]

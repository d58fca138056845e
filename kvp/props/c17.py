"""C17: Torch scattering objects are well-behaved modules (stateful)."""
import copy
import io
import numpy as np
from hypothesis import strategies as st
from .. import fe, gen
from ..harness import Sub, call, need
from .c16 import Live, obj

RULE = ('Generated histories of module operations over clones of one Torch scattering object: deepcopy, state_dict into a '
        'freshly built object whose buffers were first corrupted (directly or through torch.save/torch.load), scaling all '
        'buffers of one clone, corrupting and dropping a clone, double()/float()/to(dtype), train/eval, nesting in '
        'Sequential, calls. Model: each clone is (accumulated buffer scale, dtype); its coefficients must be those of the '
        'original object, of order m multiplied by scale**(number of filters on the path). The original coefficients are '
        'compared with the reference model. Non-trivial: a call after at least two distinct kinds of module operation.')
ASSUMPTIONS = ['float32 rounding: 3e-5 of the largest coefficient of the order (with a floor on the input amplitude)']

KINDS = ['call', 'call', 'call', 'deepcopy', 'load', 'save', 'scale', 'corrupt', 'double', 'float', 'to', 'mode', 'nest']


@st.composite
def history(draw):
    o = draw(obj(['torch'], True))
    ops = []
    for _ in range(draw(st.integers(2, 12))):
        ops.append(dict(op=draw(st.sampled_from(KINDS)), o=draw(st.integers(0, 3)), v=draw(st.integers(0, 3)),
                        batch=draw(st.sampled_from([[], [1], [2]]))))
    ops.append(dict(op='call', o=draw(st.integers(0, 3)), v=0, batch=[]))
    return dict(obj=o, ops=ops, out=draw(st.integers(0, 2)),
                xs=[draw(gen.signals(kinds=['noise', 'sparse', 'impulse'], amps=(1.0, 20.0))) for _ in range(2)])


def exponent(L, key, info=None):
    """number of filters applied on the path (each one contributes the scale once)"""
    kw = L.kw
    if L.tr == '2d':
        return len(key) + 1
    loc = kw.get('T') not in (0, 'global')
    if L.tr == '1d':
        return len(key) + loc
    if not key:
        return int(loc)
    order, n_fr = info
    F_loc = kw.get('F') not in (0, 'global') and n_fr != 0
    if order == 1:        # first order is always averaged in time before the frequential filter
        return 3 + F_loc
    return 3 + loc + F_loc


def exponents(L, keys):
    if L.tr != 'jtfs':
        return {k: exponent(L, k) for k in keys}
    t = 1 if L.kw['format'] == 'time' else 0
    return {k: exponent(L, k, None if not k else (len(k) - t, k[-1])) for k in keys}


def orders(L, k):
    if L.tr != 'jtfs' or not k:
        return len(k)
    return len(k) - (1 if L.kw['format'] == 'time' else 0)


def body(c):
    import torch
    L = Live(c['obj'])
    if L.tr != '3d':
        L.out = [v for v in L.outs if v != 'array'][c['out'] % len([v for v in L.outs if v != 'array'])]
        L.obj.out_type = L.out
    extra = {} if L.tr == '3d' else dict(out_type=L.out)

    def fresh():
        return fe.make('torch', L.tr, **L.kw, **extra)

    def signal(v, batch):
        rec = c['xs'][v % 2]
        mk = gen.signal if L.tr in ('1d', 'jtfs') else gen.image
        x = mk(dict(rec, d=len(L.shape())), tuple(batch) + L.shape())
        return x.astype(np.float32).astype(np.float64)

    base = {}

    def expected(v, batch):
        key = (v % 2, tuple(batch))
        if key not in base:
            x = signal(v, batch)
            P = {q: fe.to_np(y) for q, y in L.paths(call(L.obj, torch.from_numpy(x).float())).items()}
            ref = L.reference(x)
            for q, (r, tol) in (ref or {}).items():
                if r is not None:
                    need(P[q].shape == r.shape and bool(np.all(np.abs(P[q] - r) <= tol)),
                         'path %s of the original object deviates from the definition', q)
            base[key] = P
        return base[key]

    need(isinstance(L.obj, torch.nn.Module), 'not a torch module')
    need(len(list(L.obj.parameters())) == 0, 'scattering has trainable parameters')
    need(len(list(L.obj.buffers())) > 0, 'no buffers')
    need(not any(b.requires_grad for b in L.obj.buffers()), 'buffers require gradients')
    need(set(L.obj.state_dict()) == {k for k, _ in L.obj.named_buffers()}, 'state_dict lacks some buffers')
    expected(0, [])
    mods = [dict(m=L.obj if c['ops'][0]['v'] == 0 else fresh(), s=0, d=torch.float32)]
    # the object used for the baseline must not be touched by the history
    if mods[0]['m'] is L.obj:
        L.obj = fresh()
    kinds, nontrivial = set(), False
    for step, op in enumerate(c['ops']):
        M = mods[op['o'] % len(mods)]
        k = op['op']
        what = 'step %d (%s on %s)' % (step, k, L.tr)
        if k != 'call':
            kinds.add(k)
        if k == 'deepcopy' and len(mods) < 4:
            mods.append(dict(M, m=call(copy.deepcopy, M['m'])))
        elif k in ('load', 'save') and len(mods) < 4:
            new = fresh()
            with torch.no_grad():
                for b in new.buffers():
                    b.mul_(0.1).add_(0.01)
            if k == 'save':
                buf = io.BytesIO()
                call(torch.save, M['m'].state_dict(), buf)
                buf.seek(0)
                sd = call(torch.load, buf)
            else:
                sd = M['m'].state_dict()
            r = call(new.load_state_dict, sd)
            need(not r.missing_keys and not r.unexpected_keys, '%s: state_dict keys differ', what)
            mods.append(dict(m=new, s=M['s'], d=torch.float32))
        elif k == 'scale' and -3 < M['s'] < 3:
            e = [1, -1, 1, -1][op['v']]
            with torch.no_grad():
                for b in M['m'].buffers():
                    b.mul_(2.0 ** e)
            M['s'] += e
        elif k == 'corrupt' and len(mods) > 1:
            mods.remove(M)
            with torch.no_grad():
                for b in M['m'].buffers():
                    b.fill_(float('nan'))
        elif k in ('double', 'float', 'to'):
            d = {'double': torch.float64, 'float': torch.float32, 'to': [torch.float64, torch.float32][op['v'] % 2]}[k]
            r = M['m'].to(d) if k == 'to' else getattr(M['m'], k)()
            need(r is M['m'], '%s does not return the module', what)
            M['d'] = d
        elif k == 'mode':
            M['m'].train(bool(op['v'] % 2))
        elif k in ('call', 'nest'):
            exp = expected(op['v'], op['batch'])
            x = signal(op['v'], op['batch'])
            f = M['m']
            if k == 'nest':
                f = torch.nn.Sequential(M['m'])
                need(set(f.state_dict()) == {'0.' + q for q in M['m'].state_dict()}, '%s: nested state_dict', what)
                if op['v'] % 2:
                    f.eval()
            y = L.paths(call(f, torch.from_numpy(x).to(M['d'])))
            need(list(y) == list(exp), '%s: different paths', what)
            amp = float(np.abs(x).max()) * {'1d': 1e-2, '2d': 0.3, 'jtfs': 1e-2, '3d': 1.0}[L.tr]
            if L.tr == '3d':
                need(y[None].dtype == M['d'], '%s: coefficients of dtype %s in a %s module', what, y[None].dtype, M['d'])
                v = fe.to_np(y[None])
                nq = len(L.kw.get('integral_powers', (0.5, 1., 2.)))
                q = np.array(L.kw.get('integral_powers', (0.5, 1., 2.)))
                n1 = L.kw['J'] + 1
                m = np.array([1] * n1 + [2] * (v.shape[-3] - n1))
                e = np.broadcast_to(m[:, None, None] * q, v.shape)
                from ..ref3d import Ref3D
                _, slack = Ref3D(**L.kw).interval(x)
                need(v.shape == exp[None].shape and v.shape[-1] == nq, '%s: shape', what)
                f_ = 2.0 ** (M['s'] * e)
                need(bool(np.all(np.abs(v - exp[None] * f_) <= 2 * slack * f_)), '%s: deviates from the original by %.2e', what,
                     float(np.abs(v - exp[None] * f_).max()))
            else:
                es = exponents(L, list(exp))
                sc = {}
                for q, r in exp.items():
                    o = orders(L, q)
                    sc[o] = max(sc.get(o, amp), float(np.abs(r).max()) if r.size else 0)
                for q, v in y.items():
                    need(v.dtype == M['d'], '%s: path %s has dtype %s in a %s module', what, q, v.dtype, M['d'])
                    fac = 2.0 ** (M['s'] * es[q])
                    fe.close(fe.to_np(v), exp[q].astype(np.float64) * fac, 3e-5, '%s path %s' % (what, q), sc[orders(L, q)] * fac)
            nontrivial = nontrivial or len(kinds - {'call'}) >= 2
    return nontrivial


SUBS = [Sub('modules', history, body, 800, 16000, shards=6, rank=1)]

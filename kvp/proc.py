"""Child process of C30/process: builds and applies transforms under other interpreter settings.

usage: python [flags] -m kvp.proc IN.json OUT.pickle
"""
import json
import os
import pickle
import signal
import sys


def main(src, dst):
    with open(src) as f:
        d = json.load(f)
    for m in d['imports']:
        __import__(m)
    from kvp import fe
    from kvp.props.c14 import flatten, setup
    import numpy as np

    def one(c, S=None):
        kw, x = setup(c)
        S = S or fe.raw(c['fe'], c['tr'], **kw)
        return [(k, np.array(fe.to_np(v))) for k, v in flatten(S(fe.to_fw(c['fe'], x)))]

    def safely(fn):
        try:
            return fn()
        except Exception as e:  # noqa: BLE001
            return '%s: %s' % (type(e).__name__, str(e)[:200])
    if d['fork']:
        # objects built and used here, applied in a forked process
        objs = []
        for c in d['cases']:
            kw, x = setup(c)
            S = fe.raw(c['fe'], c['tr'], **kw)
            if d['fork'] == 2:
                S(fe.to_fw(c['fe'], x))
            objs.append(S)
        signal.alarm(300)
        pid = os.fork()
        if pid == 0:
            signal.alarm(240)
            code = 1
            try:
                res = [safely(lambda: one(c, S)) for c, S in zip(d['cases'], objs)]
                with open(dst, 'wb') as f:
                    pickle.dump(res, f)
                code = 0
            finally:
                os._exit(code)
        os.waitpid(pid, 0)
    else:
        res = [safely(lambda: one(c)) for c in d['cases']]
        with open(dst, 'wb') as f:
            pickle.dump(res, f)


if __name__ == '__main__':
    from kvp import boot  # noqa: F401
    main(sys.argv[1], sys.argv[2])

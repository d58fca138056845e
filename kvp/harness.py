"""Search driver: deterministic Hypothesis shards, shrinking, replay, evidence.

A property module (kvp/props/<id>.py) defines
    RULE        : text, how cases are made and what makes one non-trivial
    ASSUMPTIONS : list of text
    SUBS        : list of Sub
A *case* is a JSON-serialisable dict; `body(case)` checks it against the oracle:
returns a truthy value if the case was non-trivial, raises Violation if the
property is broken.  Any other exception is an error of the check (exit 2).
"""
import argparse
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('KVP_OUT', os.path.join(HERE, 'out'))
EVID = os.environ.get('KVP_EVIDENCE', os.path.join(HERE, 'evidence'))
NPROC = 8


class Violation(Exception):
    pass


def call(fn, *a, **k):
    """Run code under test on an input where it must succeed."""
    try:
        return fn(*a, **k)
    except (MemoryError, KeyboardInterrupt):
        raise
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/kymatio/' in f.filename]
        loc = where[-1] if where else tb[-1]
        raise Violation('unexpected %s on a valid input: %s [%s:%s]' % (
            type(e).__name__, str(e)[:300].replace('\n', ' '),
            os.path.basename(loc.filename), loc.name)) from e


def expect_raises(types, fn, what):
    try:
        r = fn()
    except types:
        return
    except Exception as e:  # noqa: BLE001
        raise Violation('%s: expected %s, got %s: %s' % (
            what, types, type(e).__name__, str(e)[:200])) from e
    raise Violation('%s: expected %s, but the call returned %s' % (
        what, types, type(r).__name__))


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def convert(e):
    """An exception that escaped a check body: on the unchanged tree none does, so
    either the code under test raised on a valid input, or it returned something the
    oracle cannot even compare.  Missing attributes or modules remain check errors."""
    tb = traceback.extract_tb(e.__traceback__)
    where = [f for f in tb if '/kymatio/' in f.filename]
    if not where and isinstance(e, (AttributeError, ImportError, NameError, OSError)):
        return None
    loc = (where or list(tb))[-1]
    return Violation('unexpected %s: %s [%s:%s]' % (
        type(e).__name__, str(e)[:300].replace('\n', ' '), os.path.basename(loc.filename), loc.name))


def run_body(sub, case):
    try:
        return sub.body(case)
    except (Violation, MemoryError):
        raise
    except Exception as e:  # noqa: BLE001
        v = convert(e)
        if v is None or isinstance(e, MemoryError) or type(e).__module__.startswith('hypothesis'):
            raise
        raise v from e


class Sub:
    def __init__(self, name, strategy, body, quick, thorough=None, shards=1,
                 examples=(), rank=0):
        self.name, self.strategy, self.body = name, strategy, body
        self.quick, self.thorough = quick, thorough or quick * 20
        self.shards = shards
        self.examples = list(examples)
        self.rank = rank        # scheduling order: heavier first


def case_key(case):
    return json.dumps(case, sort_keys=True, default=str)


def load(prop):
    return importlib.import_module('kvp.props.' + prop.lower())


def known_findings(prop):
    p = os.path.join(HERE, 'KNOWN_FINDINGS.json')
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p))['known'] if e['property'] == prop]


def matches_known(mod, entries, sub, case, msg):
    for e in entries:
        if not e.get('any_sub') and e['sub'] != sub:
            continue
        if e['message_contains'] not in msg:
            continue
        if mod.KNOWN[e['signature']](case):
            return e
    return None


# ------------------------------------------------------------------ worker
def run_worker(prop, sub_name, n, seed, tier, budget, shard, outfile):
    from . import boot  # noqa: F401
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    mod = load(prop)
    sub = [s for s in mod.SUBS if s.name == sub_name][0]
    known = known_findings(prop)
    t0 = time.time()
    st = dict(evals=0, nontrivial=set(), samples=[], history=[], fails=[],
              known_hits=0, labels={})
    shrink_budget = 60 if tier == 'quick' else 240
    failed = {}
    first_fail = [None]

    def evaluate(case):
        key = case_key(case)
        now = time.time()
        if first_fail[0] is not None and now - first_fail[0] > shrink_budget:
            if key in failed:
                raise Violation(failed[key])
            return
        if first_fail[0] is None and now - t0 > budget:
            return
        st['evals'] += 1
        if first_fail[0] is None:
            st['history'].append(case)
        try:
            nt = run_body(sub, case)
        except Violation as v:
            msg = str(v)
            if matches_known(mod, known, sub_name, case, msg):
                st['known_hits'] += 1
                return
            failed[key] = msg
            if first_fail[0] is None:
                first_fail[0] = now
            st['fails'].append((case, msg))
            raise
        if nt:
            h = hashlib.sha256(key.encode()).hexdigest()[:16]
            st['nontrivial'].add(h)
            if isinstance(nt, str):
                st['labels'][nt] = st['labels'].get(nt, 0) + 1
            if len(st['samples']) < 3 and len(key) < 4000:
                st['samples'].append(case)

    err = None
    if shard == 0:
        for ex in sub.examples:
            try:
                evaluate(ex)
            except Violation:
                pass
            except Exception:  # noqa: BLE001
                err = traceback.format_exc()
                break
    if err is None and not st['fails'] and n > 0:
        @hypothesis.seed(seed)
        @settings(max_examples=n, database=None, deadline=None, print_blob=False,
                  phases=(Phase.generate, Phase.shrink),
                  report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                  verbosity=hypothesis.Verbosity.quiet)
        @given(sub.strategy())
        def search(case):
            evaluate(case)
        try:
            search()
        except Violation:
            pass
        except BaseException as e:  # noqa: BLE001
            if not st['fails']:
                err = traceback.format_exc()
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
    res = dict(evals=st['evals'], nontrivial=sorted(st['nontrivial']),
               samples=st['samples'], known_hits=st['known_hits'],
               labels=st['labels'], error=err, violation=None,
               wall=time.time() - t0)
    if st['fails']:
        case, msg = min(st['fails'], key=lambda f: (len(case_key(f[0])), case_key(f[0])))
        last, lmsg = st['fails'][-1]
        hist = st['history']
        res['violation'] = dict(case=case, msg=msg, last=last, last_msg=lmsg,
                                history=hist[-400:])
    with open(outfile, 'w') as f:
        json.dump(res, f, default=str)


# ------------------------------------------------------------------ replay
def replay_cases(prop, sub_name, cases):
    from . import boot  # noqa: F401
    mod = load(prop)
    sub = [s for s in mod.SUBS if s.name == sub_name][0]
    for c in cases:
        try:
            run_body(sub, c)
        except Violation as v:
            return str(v)
    return None


def run_replay(path):
    d = json.load(open(path))
    msg = replay_cases(d['property'], d['sub'], d['cases'])
    if msg is not None:
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        print(msg)
        return 1
    print('replay passes:', path)
    return 0


def replay_fresh(prop, sub, cases, path, msg=''):
    with open(path, 'w') as f:
        json.dump(dict(property=prop, sub=sub, cases=cases, message=msg), f, indent=1)
    from . import boot
    try:
        r = subprocess.run([boot.VENV_PY, os.path.join(HERE, 'run_check.py'), '--replay', path],
                           env=boot.child_env(), cwd=HERE, capture_output=True, text=True,
                           timeout=200)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 1 and 'VIOLATION' in r.stdout


def make_replay(prop, sub, viol, idx):
    os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
    path = os.path.join(OUT, 'replay', '%s-%s-%d.json' % (prop, sub, idx))
    for case, msg in ((viol['case'], viol['msg']), (viol['last'], viol['last_msg'])):
        if replay_fresh(prop, sub, [case], path, msg):
            return path, msg, 'single case'
    # history-dependent: keep the shortest failing suffix of the history
    hist = viol['history'] + [viol['last']]
    n = 2
    while True:
        cases = hist[-n:]
        if replay_fresh(prop, sub, cases, path, viol['last_msg']):
            return path, viol['last_msg'], 'history of %d cases' % len(cases)
        if n >= len(hist):
            break
        n *= 4
    with open(path, 'w') as f:
        json.dump(dict(property=prop, sub=sub, cases=hist, message=viol['msg'],
                       note='failed in the search process; did not fail again on replay'), f)
    return path, viol['msg'], 'not reproduced in a fresh process'


# ------------------------------------------------------------------ main
def derive(seed, *parts):
    s = '/'.join(map(str, (seed,) + parts))
    return int(hashlib.sha256(s.encode()).hexdigest()[:12], 16)


def run_check(prop, tier, seed):
    from . import boot
    t0 = time.time()
    mod = load(prop)
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(OUT, 'work-%s-%d' % (prop, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    budget = 240 if tier == 'quick' else 3600
    scale = float(os.environ.get('KVP_SCALE', '1'))
    jobs = []
    for s in mod.SUBS:
        total = s.quick if tier == 'quick' else s.thorough
        total = int(max(1, round(total * scale))) if total else 0
        shards = s.shards if tier == 'quick' else max(s.shards, min(NPROC, 8))
        shards = max(1, min(shards, total or 1))
        for i in range(shards):
            n = total // shards + (1 if i < total % shards else 0)
            jobs.append((s, i, n))
    jobs.sort(key=lambda j: -j[0].rank)
    pending, running, done = list(enumerate(jobs)), [], []
    known_state = replay_known(prop)
    while pending or running:
        while pending and len(running) < NPROC:
            idx, (s, i, n) = pending.pop(0)
            out = os.path.join(tmp, '%d.json' % idx)
            log = open(os.path.join(tmp, '%d.log' % idx), 'w')
            cmd = [boot.VENV_PY, os.path.join(HERE, 'run_check.py'), prop, '--worker', s.name,
                   '--n', str(n), '--seed', str(derive(seed, prop, s.name, i)),
                   '--tier', tier, '--budget', str(budget), '--shard', str(i), '--out', out]
            p = subprocess.Popen(cmd, env=boot.child_env(), cwd=HERE, stdout=log, stderr=log)
            running.append((p, s, i, out, log, time.time()))
        still = []
        for r in running:
            p, s, i, out, log, ts = r
            if p.poll() is None:
                if time.time() - ts > budget + 300:
                    p.kill()
                still.append(r)
                continue
            log.close()
            try:
                res = json.load(open(out))
            except Exception:  # noqa: BLE001
                tail = open(log.name).read()[-3000:]
                res = dict(evals=0, nontrivial=[], samples=[], known_hits=0, labels={},
                           violation=None, error='worker died (exit %s)\n%s' % (p.returncode, tail))
            res['sub'], res['shard'] = s.name, i
            done.append(res)
        running = still
        if running:
            time.sleep(0.05)
    # aggregate
    done.sort(key=lambda r: (r['sub'], r['shard']))
    evals = sum(r['evals'] for r in done)
    nontrivial = set()
    samples, per_sub, labels = [], {}, {}
    for r in done:
        nontrivial.update((r['sub'], h) for h in r['nontrivial'])
        q = per_sub.setdefault(r['sub'], dict(evaluations=0, nontrivial=0, known_hits=0))
        q['evaluations'] += r['evals']
        q['nontrivial'] += len(r['nontrivial'])
        q['known_hits'] += r['known_hits']
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        if r['shard'] == 0:
            samples += [dict(sub=r['sub'], case=c) for c in r['samples'][:2]]
    viols = [r for r in done if r['violation']]
    errors = [r for r in done if r['error']]
    lines = []
    seen = set()
    for k, r in enumerate(viols):
        if len(seen) >= 3:
            break
        if r['sub'] in seen:
            continue
        seen.add(r['sub'])
        path, msg, how = make_replay(prop, r['sub'], r['violation'], k)
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        lines.append('  sub-check %s: %s (%s)' % (r['sub'], msg[:600], how))
    for k in known_state:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    for r in errors:
        print('CHECK ERROR in %s/%s shard %d:\n%s' % (prop, r['sub'], r['shard'], r['error']),
              file=sys.stderr)
    cov = dict(evaluations=evals, distinct_nontrivial=len(nontrivial), rule=mod.RULE,
               samples=samples[:12], per_subcheck=per_sub)
    if labels:
        cov['labels'] = labels
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(time.time() - t0, 2), violations=len(viols))
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for ln in lines:
        print(ln)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation(s), %d error(s), %.1f s'
          % (prop, tier, seed, evals, len(nontrivial), len(viols), len(errors), time.time() - t0))
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    if viols:
        return 1
    if errors:
        return 2
    if evals == 0 or not nontrivial:
        print('CHECK ERROR: nothing non-trivial was explored', file=sys.stderr)
        return 2
    return 0


def replay_known(prop):
    """Replays the specific input of every known finding; returns those still failing."""
    out = []
    entries = known_findings(prop)
    if not entries:
        return out
    from . import boot
    for i, e in enumerate(entries):
        code = ("import sys, json; sys.path.insert(0, %r); from kvp import harness; "
                "e = json.loads(sys.argv[1]); "
                "m = harness.replay_cases(e['property'], e['sub'], [e['case']]); "
                "sys.exit(0 if m is None else (9 if e['message_contains'] in m else 3))" % HERE)
        r = subprocess.run([boot.VENV_PY, '-c', code, json.dumps(e)], env=boot.child_env(),
                           cwd=HERE, capture_output=True, text=True)
        if r.returncode == 9:
            out.append(e['what'])
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--worker')
    ap.add_argument('--n', type=int)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--shard', type=int)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    a = ap.parse_args(argv)
    if a.selftest:
        import hypothesis
        import kymatio
        print('kymatio from', os.path.dirname(kymatio.__file__), 'hypothesis', hypothesis.__version__)
        return 0
    if a.replay:
        return run_replay(a.replay)
    if a.worker:
        run_worker(a.prop, a.worker, a.n, a.seed, a.tier, a.budget, a.shard, a.out)
        return 0
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1') or '1')
    try:
        return run_check(a.prop, 'thorough' if a.tier == 'thorough' else 'quick', seed)
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        return 2

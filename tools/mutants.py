"""Sensitivity measurement (not a check): AST mutants of kymatio against the checks.

    /opt/venv/bin/python tools/mutants.py list [FILE-SUBSTRING]
    /opt/venv/bin/python tools/mutants.py run OUT.jsonl SCALE TIMEOUT [FILE-SUBSTRING|@IDS.txt]

Every mutant is run in a forked child which substitutes the mutated source at import
(no copy of the repository, nothing is written there) and runs the sub-checks relevant for
the file with SCALE x the quick number of cases, without shrinking, until one fails.
"""
import ast
import copy
import glob
import importlib.machinery
import json
import os
import signal
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from kvp import boot  # noqa: E402

REL = [
    ('scattering1d/core/scattering1d', 'C01 C03 C05 C04 C15 C19'),
    ('scattering1d/core/timefrequency', 'C12 C13 C05 C18'),
    ('scattering1d/filter_bank', 'C02 C01 C12'),
    ('scattering1d/utils', 'C01 C03 C21 C27'),
    ('scattering1d/frontend/base', 'C01 C03 C12 C13 C04 C05 C21 C27 C15 C16'),
    ('scattering1d/frontend/keras', 'C23 C14'),
    ('scattering1d/frontend/sklearn', 'C23 C14'),
    ('scattering1d/frontend', 'C01 C12 C14 C17 C21 C16 C27 C25 C15'),
    ('scattering1d/backend', 'C22 C01 C12 C03 C14 C18 C25'),
    ('scattering2d/core', 'C06 C08 C05 C15'),
    ('scattering2d/filter_bank', 'C07 C06'),
    ('scattering2d/utils', 'C06 C21'),
    ('scattering2d/frontend/keras', 'C23 C14'),
    ('scattering2d/frontend/sklearn', 'C23 C14'),
    ('scattering2d/frontend', 'C06 C08 C05 C14 C17 C21 C16 C27 C25 C15'),
    ('scattering2d/backend', 'C22 C06 C14 C18 C25'),
    ('scattering3d/core', 'C09 C11 C15'),
    ('scattering3d/filter_bank', 'C10 C09 C11'),
    ('scattering3d/utils', 'C10 C26 C09'),
    ('scattering3d/frontend/sklearn', 'C23 C14'),
    ('scattering3d/frontend', 'C09 C14 C17 C21 C16 C27 C25 C15'),
    ('scattering3d/backend', 'C22 C09 C14 C18 C25'),
    ('kymatio/frontend/sklearn', 'C23 C14'),
    ('kymatio/frontend/keras', 'C23 C14'),
    ('kymatio/frontend', 'C27 C21 C17 C14'),
    ('kymatio/backend', 'C22 C18 C14 C21 C15 C25'),
    ('kymatio/caching', 'C24'),
    ('kymatio/', 'C27 C14 C23'),
]

SWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult,
        ast.Pow: ast.Mult, ast.Mod: ast.FloorDiv, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE,
        ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In,
        ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.And: ast.Or, ast.Or: ast.And}


def mutations(node):
    """[(description, function(node copy in place) or replacement)] for one node"""
    out = []
    if isinstance(node, ast.BinOp) and type(node.op) in SWAP:
        if not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
            def f(n):
                n.op = SWAP[type(n.op)]()
            out.append(('%s->%s' % (type(node.op).__name__, SWAP[type(node.op)].__name__), f))
            if isinstance(node.op, ast.FloorDiv):
                out.append(('ceil', lambda n: ast.BinOp(n, ast.Add(), ast.Constant(1))))
    if isinstance(node, ast.Compare) and type(node.ops[0]) in SWAP:
        def f(n):
            n.ops[0] = SWAP[type(n.ops[0])]()
        out.append(('%s->%s' % (type(node.ops[0]).__name__, SWAP[type(node.ops[0])].__name__), f))
    if isinstance(node, ast.BoolOp):
        def f(n):
            n.op = SWAP[type(n.op)]()
        out.append(('boolop', f))
        if len(node.values) > 1:
            for k in range(len(node.values)):
                def f(n, k=k):
                    del n.values[k]
                    return n if len(n.values) > 1 else n.values[0]
                out.append(('drop operand %d' % k, f))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
        out.append(('drop unary', lambda n: n.operand))
    if isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            out.append(('flip', lambda n: ast.Constant(not n.value)))
        elif isinstance(v, int):
            out.append(('%d->%d' % (v, v + 1), lambda n: ast.Constant(n.value + 1)))
            if v >= 1:
                out.append(('%d->%d' % (v, v - 1), lambda n: ast.Constant(n.value - 1)))
        elif isinstance(v, float):
            out.append(('%g*1.01' % v, lambda n: ast.Constant(n.value * 1.01)))
    if isinstance(node, (ast.If, ast.IfExp)):
        def f(n):
            n.test = ast.UnaryOp(ast.Not(), n.test)
        out.append(('negate if', f))
        out.append(('if True', lambda n: setattr(n, 'test', ast.Constant(True))))
        out.append(('if False', lambda n: setattr(n, 'test', ast.Constant(False))))
    if isinstance(node, ast.AugAssign):
        out.append(('drop augassign', lambda n: ast.Pass()))
    if isinstance(node, ast.Assign):
        out.append(('drop assign', lambda n: ast.Pass()))
    if isinstance(node, ast.Raise):
        out.append(('drop raise', lambda n: ast.Pass()))
    if isinstance(node, (ast.Continue,)):
        out.append(('drop continue', lambda n: ast.Pass()))
    if isinstance(node, ast.Break):
        out.append(('drop break', lambda n: ast.Pass()))
    if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
        out.append(('drop call', lambda n: ast.Pass()))
    if isinstance(node, ast.Call):
        for k, kw in enumerate(node.keywords):
            if kw.arg:
                def f(n, k=k):
                    del n.keywords[k]
                out.append(('drop kw %s' % kw.arg, f))
        if len(node.args) == 1 and isinstance(node.func, (ast.Name, ast.Attribute)):
            nm = node.func.id if isinstance(node.func, ast.Name) else node.func.attr
            if nm in ('abs', 'sqrt', 'ceil', 'floor', 'real', 'conj', 'float32', 'contiguous', 'int', 'copy', 'asarray',
                      'ascontiguousarray', 'fabs', 'round', 'tuple', 'list', 'range'):
                if nm != 'range':
                    out.append(('drop %s()' % nm, lambda n: n.args[0]))
        if isinstance(node.func, ast.Name) and node.func.id in ('min', 'max'):
            def f(n):
                n.func.id = {'min': 'max', 'max': 'min'}[n.func.id]
            out.append(('min<->max', f))
        if isinstance(node.func, ast.Attribute) and node.func.attr in ('ceil', 'floor'):
            def f(n):
                n.func.attr = {'ceil': 'floor', 'floor': 'ceil'}[n.func.attr]
            out.append(('ceil<->floor', f))
        if len(node.args) == 2 and not (isinstance(node.func, ast.Name) and node.func.id in ('min', 'max')):
            def f(n):
                n.args.reverse()
            out.append(('swap args', f))
    if isinstance(node, ast.Slice):
        for a in ('lower', 'upper', 'step'):
            if getattr(node, a) is not None:
                def f(n, a=a):
                    setattr(n, a, None)
                out.append(('drop slice %s' % a, f))
    if isinstance(node, ast.Return) and node.value is not None and not isinstance(node.value, ast.Constant):
        out.append(('return None', lambda n: ast.Return(ast.Constant(None))))
    return out


def skip(node, parents):
    for p in parents + (node,):
        if isinstance(p, ast.Raise) and node is not p:
            return True
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr == 'warn':
            return True
        if isinstance(p, (ast.Import, ast.ImportFrom)):
            return True
        if isinstance(p, ast.Assign) and isinstance(p.targets[0], (ast.Name, ast.Attribute)):
            t = p.targets[0].id if isinstance(p.targets[0], ast.Name) else p.targets[0].attr
            if t.startswith('_doc') or t in ('__doc__', '__all__'):
                return True
    return False


def walk(node, parents=()):
    yield node, parents
    for c in ast.iter_child_nodes(node):
        yield from walk(c, parents + (node,))


def enumerate_file(path):
    src = open(path).read()
    tree = ast.parse(src)
    out = []
    for i, (node, parents) in enumerate(walk(tree)):
        if skip(node, parents):
            continue
        for k, (d, _) in enumerate(mutations(node)):
            ln = getattr(node, 'lineno', parents[-1].lineno if parents and hasattr(parents[-1], 'lineno') else 0)
            out.append(dict(file=os.path.relpath(path, boot.REPO), node=i, k=k, desc=d, line=ln,
                            text=src.splitlines()[ln - 1].strip() if ln else '',
                            fn='.'.join(p.name for p in parents if isinstance(p, (ast.FunctionDef, ast.ClassDef)))))
    return out


def mutant_source(m):
    tree = ast.parse(open(os.path.join(boot.REPO, m['file'])).read())
    for i, (node, parents) in enumerate(walk(tree)):
        if i == m['node']:
            f = mutations(node)[m['k']][1]
            new = f(node)
            if isinstance(new, ast.AST) and new is not node:
                if any(c is node for c in ast.walk(new)):     # wraps the node
                    inner = copy.deepcopy(node)
                    new = f(inner)
                par = parents[-1]
                for name, val in ast.iter_fields(par):
                    if val is node:
                        setattr(par, name, new)
                    elif isinstance(val, list):
                        for q, e in enumerate(val):
                            if e is node:
                                val[q] = new
            return ast.unparse(ast.fix_missing_locations(tree))
    raise KeyError(m)


def all_mutants(sel):
    out = []
    for p in sorted(glob.glob(os.path.join(boot.REPO, 'kymatio', '**', '*.py'), recursive=True)):
        if 'skcuda' in p or p.endswith('version.py'):
            continue
        out += enumerate_file(p)
    for m in out:
        m['id'] = '%s#%d.%d' % (m['file'], m['node'], m['k'])
    if sel and sel.startswith('@'):
        ids = set(open(sel[1:]).read().split())
        out = [m for m in out if m['id'] in ids]
    elif sel:
        out = [m for m in out if sel in m['file']]
    return out


def child(m, scale, outfile):
    src = mutant_source(m)
    path = os.path.join(boot.REPO, m['file'])
    orig = importlib.machinery.SourceFileLoader.get_code

    def get_code(self, fullname):
        if os.path.realpath(self.path) == os.path.realpath(path):
            return compile(src, path, 'exec')
        return orig(self, fullname)
    importlib.machinery.SourceFileLoader.get_code = get_code
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from kvp import harness
    rel = [r for k, r in REL if k in m['file']][0].split()
    res = dict(id=m['id'], killed=None, runs=0)
    t0 = time.time()
    known = {}
    subs = []
    for p in rel:
        try:
            mod = harness.load(p)
        except BaseException as e:  # noqa: BLE001
            res['killed'] = '%s import %s' % (p, repr(e)[:200])
            break
        known[p] = (mod, harness.known_findings(p))
        subs += [(p, s) for s in mod.SUBS]
    fw = [x for x in ('numpy', 'torch', 'tensorflow', 'jax', 'keras', 'sklearn') if x + '_' in os.path.basename(m['file'])]
    subs.sort(key=lambda q: not any(f[:5] in q[1].name or (f == 'tensorflow' and 'tf' in q[1].name) for f in fw))
    for p, s in subs:
        if res['killed']:
            break
        mod, kn = known[p]
        n = max(2, int(round(s.quick * scale)))

        def run(case):
            res['runs'] += 1
            try:
                harness.run_body(s, case)
            except harness.Violation as v:
                if harness.matches_known(mod, kn, s.name, case, str(v)):
                    return
                raise

        try:
            for ex in s.examples:
                run(ex)
            hypothesis.seed(1)(settings(max_examples=n, database=None, deadline=None, phases=(Phase.generate,),
                                        report_multiple_bugs=False, suppress_health_check=list(HealthCheck))(
                given(s.strategy())(run)))()
        except BaseException as e:  # noqa: BLE001
            res['killed'] = '%s/%s %s: %s' % (p, s.name, type(e).__name__, str(e)[:160])
    res['wall'] = round(time.time() - t0, 1)
    json.dump(res, open(outfile, 'w'))


def main():
    if sys.argv[1] == 'list':
        ms = all_mutants(sys.argv[2] if len(sys.argv) > 2 else None)
        for m in ms:
            print(m['id'], m['line'], m['desc'], '|', m['text'])
        print(len(ms))
        return
    out, scale, timeout = sys.argv[2], float(sys.argv[3]), float(sys.argv[4])
    ms = all_mutants(sys.argv[5] if len(sys.argv) > 5 else None)
    done = set()
    if os.path.exists(out):
        done = {json.loads(ln)['id'] for ln in open(out)}
    ms = [m for m in ms if m['id'] not in done]
    nproc = int(os.environ.get('MUT_NPROC', '7'))
    import torch, jax, tensorflow, sklearn.base, scipy.fft, hypothesis  # noqa: F401,E401
    import keras  # noqa: F401
    torch.set_num_threads(1)
    tmp = out + '.tmp'
    os.makedirs(tmp, exist_ok=True)
    running = {}
    pend = list(ms)
    log = open(out, 'a')
    while pend or running:
        while pend and len(running) < nproc:
            m = pend.pop(0)
            f = os.path.join(tmp, '%d.json' % abs(hash(m['id'])))
            pid = os.fork()
            if pid == 0:
                os.setsid()
                fd = os.open('/dev/null', os.O_WRONLY)
                os.dup2(fd, 1)
                os.dup2(fd, 2)
                try:
                    child(m, scale, f)
                finally:
                    os._exit(0)
            running[pid] = (m, f, time.time())
        time.sleep(0.05)
        for pid, (m, f, t) in list(running.items()):
            p, _ = os.waitpid(pid, os.WNOHANG)
            if p == 0:
                if time.time() - t > timeout:
                    os.killpg(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    r = dict(id=m['id'], killed=None, timeout=True)
                else:
                    continue
            else:
                try:
                    r = json.load(open(f))
                    os.remove(f)
                except Exception:  # noqa: BLE001
                    r = dict(id=m['id'], killed='child died')
            del running[pid]
            r.update(line=m['line'], desc=m['desc'], text=m['text'], fn=m['fn'], file=m['file'])
            log.write(json.dumps(r) + '\n')
            log.flush()


main()

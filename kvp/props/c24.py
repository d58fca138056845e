"""C24: cache directories resolve and are created as documented (stateful, file system model)."""
import contextlib
import os
import shutil
import tempfile
from hypothesis import strategies as st
from ..harness import Sub, Violation, call, expect_raises, need

RULE = ('Histories of up to 12 operations in a scratch directory (HOME, KYMATIO_CACHE and the working directory point into '
        'it): set/unset the environment variable, change HOME, create or remove directories and files, find_cache_base_dir '
        'and get_cache_dir with nested, empty, absolute, dotted and non-ASCII names, explicit/relative/empty bases, create '
        'allowed or not (positional and keyword). After each operation the returned path and the whole tree (directories, '
        'files, contents) are compared with a model. Non-trivial: at least one get_cache_dir after a change of state.')
ASSUMPTIONS = ['every path generated lies in the scratch directory; a path that exists as a file is not specified and not generated']

NAMES = ['', 'mnist', 'a', 'a/b', 'a/b/c', 'x y', 'é', 'a.b', './a', 'a/', 'a/../d', 'A', '~', '$HOME', '@abs', '.b', '.hidden/x', '..x',
         'a/.b', 'mnist.zip', 'ｍ', ' ', '-r', '*', 'a//b', 'CON', 'tmp', 'x' * 120, 'a/b/../c', 'kymatio_cache', '%s', 'a\nb', '0', 'MNIST']
BASES = [None, None, '@s', '@s/base', '@s/base/deep', 'rel', 'rel/deep', '', '@s/é', '@s/base/', '~', '$X', '@s/.base',
         '.', './rel', '@s/base/.x', '@s//base', 'rel/../rel2', '@s/cwd', ' ']


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='kvpcache')
    old = {k: os.environ.get(k) for k in ('HOME', 'KYMATIO_CACHE')}
    cwd = os.getcwd()
    try:
        os.makedirs(os.path.join(d, 'home0'))
        os.makedirs(os.path.join(d, 'home1'))
        os.makedirs(os.path.join(d, 'cwd'))
        os.chdir(os.path.join(d, 'cwd'))
        os.environ['HOME'] = os.path.join(d, 'home0')
        os.environ.pop('KYMATIO_CACHE', None)
        yield d
    finally:
        os.chdir(cwd)
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        shutil.rmtree(d, ignore_errors=True)


def tree(d):
    out = {}
    for p, dirs, files in os.walk(d):
        out[os.path.relpath(p, d)] = None
        for f in files:
            with open(os.path.join(p, f)) as h:
                out[os.path.relpath(os.path.join(p, f), d)] = h.read()
    return out


def body(c):
    from kymatio import caching
    changed = used = 0
    with scratch() as d:
        def sub(s):
            return s if s is None else s.replace('@s', d)

        def base_of(b):
            if b is not None:
                return b
            e = os.environ.get('KYMATIO_CACHE')
            return e if e is not None else os.path.join(os.environ['HOME'], 'kymatio_cache')

        for op in c['ops']:
            before = tree(d)
            k = op['op']
            if k == 'env':
                v = sub(op['v'])
                if v is None:
                    os.environ.pop('KYMATIO_CACHE', None)
                else:
                    os.environ['KYMATIO_CACHE'] = v
                changed += 1
            elif k == 'home':
                os.environ['HOME'] = os.path.join(d, op['v'])
                changed += 1
            elif k in ('mkdir', 'write'):
                base = base_of(sub(op['base']))
                p = os.path.join(base, op['name'].replace('@abs', d + '/abs'))
                if k == 'mkdir':
                    if p:
                        os.makedirs(p, exist_ok=True)
                elif os.path.isdir(p):
                    with open(os.path.join(p, 'data.bin'), 'w') as h:
                        h.write('content %s' % op.get('v', 0))
                changed += 1
            elif k == 'rmtree':
                base = base_of(sub(op['base']))
                p = os.path.abspath(os.path.join(base, op['name'].replace('@abs', d + '/abs')))
                if p.startswith(d + '/') and p not in (d + '/cwd', d + '/home0', d + '/home1') and os.path.isdir(p):
                    shutil.rmtree(p)
                changed += 1
            elif k == 'find':
                b = sub(op['base'])
                want = base_of(b)
                if b is None and op.get('v', 0) % 2:
                    r = call(caching.find_cache_base_dir)
                elif op.get('v', 0) % 3 == 0:
                    r = call(caching.find_cache_base_dir, b)
                else:
                    r = call(caching.find_cache_base_dir, cache_base_dir=b)
                need(r == want, 'find_cache_base_dir(%r) with KYMATIO_CACHE=%r returns %r, expected %r', b,
                     os.environ.get('KYMATIO_CACHE'), r, want)
                need(tree(d) == before, 'find_cache_base_dir changed the file system')
            else:
                used += changed > 0
                b = sub(op['base'])
                name = op['name'].replace('@abs', d + '/abs')
                want = os.path.join(base_of(b), name)
                kw = {}
                if not (name == '' and op.get('v', 0) % 2):
                    kw['name'] = name
                if not (b is None and op.get('v', 0) % 3 == 0):
                    kw['cache_base_dir'] = b
                if not (op['create'] and op.get('v', 0) % 5 == 0):
                    kw['create'] = op['create']
                if op.get('v', 0) % 7 == 0:
                    fn = lambda: caching.get_cache_dir(name, b, op['create'])  # noqa: E731
                else:
                    fn = lambda: caching.get_cache_dir(**kw)  # noqa: E731
                what = 'get_cache_dir(name=%r, cache_base_dir=%r, create=%r)' % (name, b, op['create'])
                exists = os.path.isdir(want)
                if want == '':
                    continue                   # no directory of that name can exist
                if exists or op['create']:
                    r = call(fn)
                    need(r == want, '%s returns %r, expected %r', what, r, want)
                    need(os.path.isdir(want), '%s: %r does not exist afterwards', what, want)
                    need(os.stat(want).st_mode & 0o700 == 0o700, '%s: %r cannot be used', what, want)
                    after = tree(d)
                    lost = [p for p in before if after.get(p, 0) != before[p]]
                    need(not lost, '%s changed or removed %s', what, lost)
                    new = [p for p in after if p not in before]
                    if exists:
                        need(not new, '%s created %s', what, new)
                    # only the directory and its ancestors appear
                    anc = set()
                    p = os.path.abspath(want)
                    parts = [q for q in os.path.join(os.getcwd(), want).split('/')]
                    cur = ''
                    for q in parts:
                        cur = cur + '/' + q if cur else '/' + q
                        anc.add(os.path.normpath(cur))
                    extra = [q for q in new if os.path.normpath(os.path.join(d, q)) not in
                             {os.path.normpath('/' + a.lstrip('/')) for a in anc}]
                    need(not extra, '%s created %s', what, extra)
                else:
                    expect_raises(ValueError, fn, what + ' on a missing directory')
                    need(tree(d) == before, '%s changed the file system although it raised', what)
    return used > 0


@st.composite
def case(draw):
    base = st.sampled_from(BASES)
    name = st.sampled_from(NAMES)
    v = st.integers(0, 30)
    get = st.fixed_dictionaries(dict(op=st.just('get'), base=base, name=name, create=st.booleans(), v=v))
    op = st.one_of(
        st.fixed_dictionaries(dict(op=st.just('env'), v=st.sampled_from([None, '@s/env', '@s/env/deep', 'relenv', '', '@s/base', '~', '0', '.', '@s/.env', '@s/env/', ' ']))),
        st.fixed_dictionaries(dict(op=st.just('home'), v=st.sampled_from(['home0', 'home1', 'home2']))),
        st.fixed_dictionaries(dict(op=st.sampled_from(['mkdir', 'write', 'write', 'rmtree']), base=base, name=name, v=v)),
        st.fixed_dictionaries(dict(op=st.just('find'), base=base, v=v)), get, get, get)
    return dict(ops=draw(st.lists(op, min_size=1, max_size=12)))


SUBS = [Sub('history', case, body, 4000, 80000, shards=4)]

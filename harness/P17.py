# -*- coding: utf-8 -*-
META = {
    'id': 'P17',
    'bounds': 'a run with any file operation out of the first 10 failing, or the process dying at it (before it or half-way through a write), for a source with a symbolic character, '
              'with and without a previous output and backup copy, with browse data, and a second run after the crash; failing sources of 8 kinds; command lines of 1..3 files of 8 kinds; '
              '0..130 failing files; three ways to start the program',
    'covers': ['fault', 'crash', 'refused', 'files', 'many', 'main', 'again'],
    'budget': {'quick': 120, 'thorough': 800},
    'relational': False,
    'outside': 'file systems that lose or reorder completed operations (power failure), output names with the extension ".ast", a source named like a backup copy or a temporary file, browse data',
    'assumptions': ['an operation on files is atomic except writing, which may leave a part of the data'],
}

L = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def whole(x, *texts):
    return any(x is not None and x == t for t in texts)


def run_cli(h, args):
    return h.crashes(lambda: h.yup.cli(args))


def state(h, src, out, olds, new, what):
    """files after a run"""
    s = h.fs.read('x.yu-c')
    h.check(h.eq(s, src), what + ': the source is unchanged')
    o = h.fs.read(out) if h.fs.isfile(out) else None
    b = h.fs.read(out + '.bak') if h.fs.isfile(out + '.bak') else None
    h.check(o is None or whole(o, new, *olds), what + ': the output under its own name is complete')
    if olds:
        h.check(whole(o, new, *olds) or whole(b, *olds), what + ': there is a complete output')
        if not whole(o, olds[0]):
            h.check(whole(b, olds[0]), what + ': the previous output is kept')
    return o


def fault(h, k, kind, old, browse):
    c = h.chars('c', 1, L)
    src = 'a\n($ (' + c + ') )\nb\n'
    new = 'a\n' + c + '\nb\n'
    h.fs.write('x.yu-c', src)
    olds = []
    if old:
        h.fs.write('x.c', 'previous ' + c + '\n', mode=0o400 if old > 1 else 0o644)
        olds.append('previous ' + c + '\n')
    if old > 1:
        h.fs.write('x.c.bak', 'before\n', mode=0o400)
    h.describe('%s at operation %d of x.yu-c %r' % (kind, k, src))
    st = h.fault(k, kind)
    args = ['-q'] + (['--pp-browse'] if browse else []) + (['--no-read-only'] if h.flag('rw') else []) + ['x.yu-c']
    r, v = run_cli(h, args)
    h.nofault()
    o = state(h, src, 'x.c', olds, new, 'after the failure')
    ok = r == 'ok' and v == 0
    h.observe('run', (r, ok))
    if ok:
        h.check(whole(o, new), 'success is reported for a complete output')
    if st['hit']:
        h.check(r != 'ok' or not ok or st['hit'][0] == 'chmod' or whole(o, new), 'a failure is not reported as success')
        h.cover('fault' if kind == 'error' else 'crash')
        if kind == 'error' and st['hit'][0] in ('open', 'write', 'rename', 'remove'):
            h.check(not ok, 'a failed operation gives a nonzero exit status')
        elif kind == 'error':
            h.check(r == 'ok', 'the failure is handled')
    else:
        h.check(ok, 'the run succeeds without a failure')
    # the next run
    was = h.fs.read('x.c') if h.fs.isfile('x.c') else None
    r, v = run_cli(h, ['-q', 'x.yu-c'])
    h.check(r == 'ok' and v == 0, 'the next run succeeds')
    h.check(h.eq(h.fs.read('x.c'), new), 'the next run writes the output')
    if was is not None:
        h.check(h.eq(h.fs.read('x.c.bak'), was), 'the next run keeps the output')
    h.cover('again')


BAD = ['($', 'a($zz)\n($sub 1)', '($inc "%s")', '($ {1/0} )', '($let l 5 [($l)', '(`%s', '($len)', '($sin)%s', '($\\a.[%s])', '($import none)', '($ \\x.\\y.[($x)] %s)']


def refused(h, k):
    """a failing translation"""
    c = h.chars('c', 1, L)
    d = h.chars('d', 1, L)
    h.fs.write('x.yu-c', d + BAD[k].replace('%s', '\0').split('\0')[0] + c + (BAD[k] + '%s').split('%s')[1])
    src = h.fs.read('x.yu-c')
    old = h.choose('old', 3)
    if old:
        h.fs.write('x.c', 'previous\n', mode=0o400)
    if old > 1:
        h.fs.write('x.c.bak', 'before\n', mode=0o400)
    h.describe(src)
    r, v = run_cli(h, ['-q'] + (['--pp-browse'] if h.flag('browse') else []) + ['x.yu-c'])
    h.observe('run', r)
    h.check(r == 'ok', 'the run ends')
    h.observe('status', v)
    h.check(v == 4, 'exit status of a failed file')
    h.check(h.eq(h.fs.read('x.yu-c'), src), 'the source is unchanged')
    h.check((h.fs.read('x.c') == 'previous\n') if old else not h.fs.exists('x.c'), 'the previous output stays')
    h.check(h.fs.read('x.c.bak') == 'before\n' if old > 1 else not h.fs.exists('x.c.bak'), 'the backup copy stays')
    h.check(all(f in ('x.yu-c', 'x.c', 'x.c.bak', 'x.ast') for f in h.fs.listing()), 'no other files')
    h.check(h.out().count(h.yup.OK) == 0, 'success is not reported')
    h.cover('refused')


KINDS = ['good', 'syntax', 'eval', 'ast', 'missing', 'directory', 'bytes', 'unwritable', 'code', 'surrogate']


def files(h, n, first, quiet):
    """several files: each is processed, the status counts the failed ones"""
    c = h.chars('c', 1, L)
    names, kinds = [], []
    for i in range(n):
        k = KINDS[h.choose('k%d' % i, len(KINDS)) if i else first]
        fn = 'f%d.yu-h' % i
        names.append(fn)
        kinds.append(k)
        text = {'good': '<($ (' + c + ') )>', 'syntax': '($' + c, 'eval': '($inc "' + c + '")', 'ast': '($sin)' + c, 'unwritable': c, 'code': '($set v ' + c + ')($v)', 'surrogate': '($chr 55296)'}.get(k)
        if k == 'directory':
            h.fs.mkdir(fn)
        elif k == 'bytes':
            h.fs.bad(fn)
        elif text is not None:
            h.fs.write(fn, text)
        if k == 'unwritable':
            h.fs.mkdir('f%d.h' % i)
    h.describe(' '.join(kinds))
    h.yup._pp_configure({'quiet': True})
    h.clear()
    if quiet:
        r, v = run_cli(h, ['-q'] + names)
        h.observe('run', r)
        h.check(r == 'ok', 'the run ends')
        bad = len([k for k in kinds if k not in ('good', 'code')])
        h.observe('status', v)
        h.check(v == 4 * bad, 'the exit status counts the failed files')
    else:
        h.yup._pp_configure({'quiet': False})
        for fn in names:
            h.yup._pp_file(fn)
        h.check(h.out().count(h.yup.OK) == len([k for k in kinds if k in ('good', 'code')]), 'success is reported for the files that are written')
    for i, k in enumerate(kinds):
        if k == 'good':
            h.check(h.eq(h.fs.read('f%d.h' % i), '<' + c + '>\n'), 'a good file is processed')
        elif k == 'code':
            h.check(h.eq(h.fs.read('f%d.h' % i), c + '\n'), 'a good file is processed')
        else:
            h.check(not h.fs.isfile('f%d.h' % i), 'a failed file has no output')
    h.cover('files')


def many(h, k):
    """the exit status does not wrap around"""
    n = [0, 1, 2, 62, 63, 64, 65, 128, 130][k]
    h.fs.write('good.yu-c', h.chars('c', 1, L))
    h.describe('%d failing files' % n)
    v = h.run_main('pp/__main__.py', ['-q', 'good.yu-c'] + ['no%d' % i for i in range(n)])
    h.observe('status', v)
    h.check((v == 0) == (n == 0), 'the exit status is nonzero exactly if some file failed')
    h.check(v == 4 * n or n > 63, 'the exit status counts the failed files')
    h.cover('many')


def mains(h, k):
    """exit status of the program, however it is started"""
    c = h.chars('c', 1, L)
    good, bad = h.choose('good', 3), h.choose('bad', 3)
    for i in range(good):
        h.fs.write('g%d.yu-c' % i, c)
    for i in range(bad):
        h.fs.write('b%d.yu-c' % i, '($inc ' + c + ')')
    h.assume(good + bad > 0)
    names = ['b%d.yu-c' % i for i in range(bad)] + ['g%d.yu-c' % i for i in range(good)]
    if h.flag('rev'):
        names = names[::-1]
    args = ['-q'] + names
    if h.flag('response'):
        h.fs.write('resp', ' '.join(args[:2]) + '\n' + ' '.join(args[2:]))
        args = ['@resp']
    h.describe(' '.join(args))
    v = h.run_main(['pp/__main__.py', '__main__.py', '__main__.py:main', 'pp/yup.py'][k], args)
    h.observe('status', v)
    h.check(v == 4 * bad, 'the exit status counts the failed files')
    for i in range(good):
        h.check(h.eq(h.fs.read('g%d.c' % i), c + '\n'), 'a good file is processed')
    h.cover('main')


def TASKS(tier):
    q = tier == 'quick'
    t = []
    for kind in ('error', 'crash', 'partial'):
        for k in range(1, 11):
            for old in (0, 1, 2):
                for b in ((0,) if q and k > 8 else (0, 1)):
                    t.append(('%s%d-%d%d' % (kind, k, old, b), 'fault', (k, kind, old, b)))
    for k in range(len(BAD)):
        t.append(('refused%d' % k, 'refused', (k,)))
    for k in range(len(KINDS)):
        for n in (1, 2) if q else (1, 2, 3):
            t.append(('files%d-%d' % (n, k), 'files', (n, k, True)))
            t.append(('loud%d-%d' % (n, k), 'files', (n, k, False)))
    for k in range(9):
        t.append(('many%d' % k, 'many', (k,)))
    for k in range(3):
        t.append(('main%d' % k, 'mains', (k,)))
    return t

# -*- coding: utf-8 -*-
META = {
    'id': 'P18',
    'bounds': 'every order of the modification times (symbolic, 0..9) of the output, the source and 0..3 declared dependencies, each present or missing, output present or missing, the value of "force" '
              'in 8 forms, options in either configuration file; sources of 6 kinds (magic comment at several places, an output file name set by the source, a failing source) with 0..3 symbolic characters over all '
              'accepted ones but CR; two encodings of the locale; histories of 2 runs (thorough 3) with a change of any file or nothing in between',
    'covers': ['reused', 'generated', 'missing', 'forced', 'history', 'same', 'failed'],
    'budget': {'quick': 100, 'thorough': 800},
    'relational': True,
    'outside': 'carriage returns in generated code (they are read back as line ends), dependencies that are directories, a clock set back between two runs, reading the source under another locale than it is written for',
}

CH = ''.join(c for c in ACCEPT if c != '\r')
SAFE = ''.join(chr(c) for c in range(0x20, 0x100) if chr(c).isalnum() or chr(c) in ' +-=_.:;')


def load(h, fn, skip=0):
    """what the caller of the package gets"""
    h.clear()
    f = h.yup.open(fn, 'r')
    # the caller has already looked at the beginning
    for i in range(skip):
        f.readline()
    return h.yup.proc_stream(f, fn)


def order(h, ndeps, first):
    """the decision, for all orders of times"""
    t_out = h.int('o', 0, 9)
    t_src = h.int('s', 0, 9)
    deps = [h.int('d%d' % i, 0, 9) for i in range(ndeps)]
    have = [h.choose('h%d' % i, 2) for i in range(ndeps)]
    c = h.chars('c', 1, SAFE)
    h.assume(c != ' ')
    src = '# coding: yupp\nx = ' + c + ' ($ (b) )\n'
    h.fs.write('x.yu-py', src, mtime=t_src)
    for i in range(ndeps):
        if have[i]:
            h.fs.write('d%d' % i, 'dep', mtime=deps[i])
    there = first
    if there:
        h.fs.write('x.py', 'old ' + c + '\n', mtime=t_out)
    names = ', '.join(repr(str('d%d' % i)) for i in range(ndeps))
    cfgtext = 'dependency = [%s]\n' % names
    force = h.choose('force', ['', 'force = False', 'force = True', 'force = 0', 'force = 1', 'force = 2', 'force = []', 'force = "yes"'] if ndeps < 2 else ['', 'force = 1'])
    where = h.choose('where', 2 if ndeps < 2 else 1)
    h.fs.write('x.yuconfig', cfgtext + ('' if where else force) + '\n')
    if where:
        h.fs.write('.yuconfig', force + '\n')
    forced = force in ('force = True', 'force = 1', 'force = 2')
    fresh = there and not forced and t_src < t_out and all(have)
    if fresh:
        for d in deps:
            if not d < t_out:
                fresh = False
    h.describe('%r %r' % (cfgtext, force))
    r = load(h, 'x.yu-py')
    h.check(isinstance(r, tuple) and len(r) == 4, 'the result')
    ok, code, fn_o, shrink = r
    new = '\nx = ' + c + ' b\n'
    h.observe('result', (ok, fn_o, shrink))
    h.check(ok, 'the code is given')
    h.check(h.eq(fn_o, 'x.py'), 'the name of generated code')
    h.check(shrink == 1, 'the number of removed lines')
    if fresh:
        h.check(h.eq(code, 'old ' + c + '\n'), 'generated code is reused when it is newer')
        h.check(h.eq(h.fs.read('x.py'), 'old ' + c + '\n'), 'reused code stays')
        h.check(not h.fs.exists('x.py.bak'), 'nothing is written')
        h.cover('reused')
    else:
        h.check(h.eq(code, new), 'code is generated when it is missing, not newer, or it is forced')
        h.check(h.eq(h.fs.read('x.py'), new), 'generated code is saved')
        if there:
            h.check(h.eq(h.fs.read('x.py.bak'), 'old ' + c + '\n'), 'previous code is kept')
        h.cover('generated')
        if not all(have):
            h.cover('missing')
        if forced:
            h.cover('forced')
    h.check(h.eq(h.fs.read('x.yu-py'), src), 'the source stays')


HEAD = ['# coding: yupp\n', '#!/usr/bin/python\n# -*- coding: yupp -*-\n', '# coding=yupp.utf-8\n', '\n# coding: YUPP\n', '#! coding:\n# coding=yupp\n', '']


def twice(h, k, n, loc):
    """the second load gives the same as the first one"""
    h.fs.locale(loc)
    c = h.chars('c', n, CH)
    h.assume('($' not in c)
    h.assume('(`' not in c)
    src = HEAD[k] + "($set v '" + h.chars('d', 1, SAFE) + "')" + '($v)\n# ' + c
    h.fs.write('x.yu-py', src, mtime=5)
    if loc != 'utf-8':
        h.assume(h.all([x < '\x80' for x in src]) if k % 2 else True)
        # the source is written in the encoding of the locale
        h.fs.encoded('x.yu-py', loc)
    h.describe(src)
    skip = h.choose('skip', 3)
    a = load(h, 'x.yu-py', skip)
    h.observe('first', a[0])
    if not a[0]:
        return
    h.observe('shrink', a[3])
    h.observe('code', a[1])
    h.check(h.eq(h.fs.read('x.py'), a[1]), 'generated code is saved')
    if k != 5:
        h.check('yupp' not in a[1] and "'" in a[1], 'the whole source is processed')
    h.check(a[3] == [1, 2, 1, 2, 2, 0][k], 'the number of removed lines')
    h.fs.utime('x.py', 10)
    text = h.fs.read('x.py')
    b = load(h, 'x.yu-py', h.choose('skip2', 3) if skip == 0 else 0)
    h.check(h.eq(b[1], a[1]), 'reused code is the code generated before')
    h.check(b[0] == a[0] and b[2] == a[2], 'the result does not depend on reusing')
    h.check(b[3] == a[3], 'the number of removed lines does not depend on reusing')
    h.check(h.eq(h.fs.read('x.py'), text), 'nothing is written')
    h.check(not h.fs.exists('x.py.bak'), 'nothing is written')
    h.cover('same')


def named(h, k):
    """an output file name set by the source; a failing source"""
    c = h.chars('c', 1, SAFE)
    h.assume(c != ' ')
    if k == 0:
        h.fs.write('x.yu-py', "# coding: yupp\n($set __OUTPUT_FILE__ 'y.py')" + c + '\n', mtime=5)
        if h.flag('old'):
            h.fs.write('y.py', 'old\n', mtime=h.int('t', 0, 9))
        if h.flag('other'):
            h.fs.write('x.py', 'old\n', mtime=h.int('u', 0, 5))
        r = load(h, 'x.yu-py')
        h.observe('result', (r[0], r[2]))
 
        h.check(r[0] and r[2] == 'y.py', 'the name of the file that is written')
        h.check(h.eq(r[1], h.fs.read('y.py')), 'the code of the file that is written')
        h.cover('same')
        return
    src = '# coding: yupp\n' + c + ['', '($', '($inc "z")', '($sin)'][k]
    h.fs.write('x.yu-py', src, mtime=h.int('s', 0, 9))
    t = h.int('o', 0, 9)
    h.fs.write('x.py', 'old ' + c + '\n', mtime=t)
    h.describe(src)
    fresh = h.fs.mtime('x.yu-py') < t
    r = load(h, 'x.yu-py')
    h.observe('ok', r[0])
    h.check(bool(r[0]) == bool(fresh), 'a source that fails is reported')
    h.check(h.eq(h.fs.read('x.py'), 'old ' + c + '\n'), 'previous code stays')
    if fresh:
        h.check(h.eq(r[1], 'old ' + c + '\n'), 'generated code is reused when it is newer')
    else:
        h.cover('failed')
        # next time it is tried again
        r = load(h, 'x.yu-py')
        h.check(not r[0], 'a source that fails is reported again')


def history(h, n, first):
    """runs with changes in between: the code is always that of the current files"""
    c = h.char('c', SAFE)
    h.assume(c != ' ')
    now = 10
    h.fs.write('d.yu', '($set v ' + 'a)', mtime=now)
    h.fs.write('x.yu-py', "# coding: yupp\n($import 'd.yu')($v)" + c + '\n', mtime=now)
    h.fs.write('x.yuconfig', "dependency = ['d.yu']\n", mtime=now)
    v, text, d = 'a', c, None
    want = None
    h.describe('history')
    for i in range(n):
        if i:
            now = now + 10
            what = first if i == 1 else h.choose('w%d' % i, 5)
            if what == 0:
                v = 'v%d' % i
                h.fs.write('d.yu', '($set v ' + v + ')', mtime=now)
            elif what == 1:
                text = c + str(i)
                h.fs.write('x.yu-py', "# coding: yupp\n($import 'd.yu')($v)" + text + '\n', mtime=now)
            elif what == 2:
                h.fs.remove('x.py')
            elif what == 3:
                # a touch
                h.fs.utime('d.yu', now)
            now = now + 10
        r = load(h, 'x.yu-py')
        h.check(r[0], 'the code is given')
        h.check(h.eq(r[1], '\n' + v + text + '\n'), 'the code is that of the current source and dependencies')
        h.check(h.eq(h.fs.read('x.py'), '\n' + v + text + '\n'), 'so is the saved code')
        h.fs.utime('x.py', now + 1)
    h.cover('history')


def TASKS(tier):
    q = tier == 'quick'
    t = []
    for n in range(3 if q else 4):
        for there in (1, 0):
            t.append(('order%d-%d' % (n, there), 'order', (n, there)))
    for k in range(len(HEAD)):
        for n in (0, 1) if q else (0, 1, 2, 3):
            for loc in ('utf-8', 'latin-1'):
                t.append(('twice%d-%d-%s' % (k, n, loc), 'twice', (k, n, loc)))
    for k in range(4):
        t.append(('named%d' % k, 'named', (k,)))
    for k in range(5):
        t.append(('history%d' % k, 'history', (3 if q else 4, k)))
    return t

# -*- coding: utf-8 -*-
META = {
    'id': 'P21',
    'bounds': 'stacks of 0..3 (thorough 4) frames in 2 preprocessed sources and 2 other files, every line number 0..5, every number 0..3 of header lines (negative ones too), limits -3..4 (thorough -5..5) and none, '
              'sys.tracebacklimit -1..2 and none, with and without local variables and immediate look-up of lines; formatting of 0..8 (thorough 10) frames each of which is one of 2 places (recursion), '
              'lines of 0..3 symbolic characters, frames as tuples and as objects; 1..3 recorded substitutions of 2 sources; 6 types of exceptions; 5 headers of modules read by Python, generated and reused, lines 0..6 (symbolic)',
    'covers': ['generated', 'other file', 'limit', 'tracebacklimit', 'locals', 'recursion', 'line', 'replaced', 'interrupt', 'exception', 'changed', 'codec'],
    'budget': {'quick': 120, 'thorough': 800},
    'relational': True,
    'assumptions': ['the functions of the standard module "traceback" that call the replaced class (print_exception, format_exception_only) are those of Python and are not executed symbolically'],
    'outside': 'the text of SyntaxError, Python 2 (pylib/yutraceback2.py)',
}

FILES = ['x.py', 'y.py', 'z.py', 'x.yugen.py', 'y.gen.py']
BODY = {'x.py': ['s1', 's2', 's3', 's4', 's5', 's6'], 'y.py': ['t1'], 'z.py': ['  z1', '', 'z3  '], 'x.yugen.py': ['g1', '\tg2 ', 'g3', 'g4', 'g5'], 'y.gen.py': ['h1', 'h2', '   ', 'h4']}


def PREPARE(h):
    h.package()
    h.module('pylib.yutraceback')
    h.module('pylib.yutraceback3')


class Code(object):
    def __init__(self, fn, name):
        self.co_filename, self.co_name = fn, name


class Frame(object):
    def __init__(self, fn, name, loc):
        self.f_code = Code(fn, name)
        self.f_globals = {}
        self.f_locals = loc


class Rec(object):
    pass


def prepare(h):
    m = h.module('pylib.yutraceback3')
    for f in FILES:
        h.fs.write(f, '\n'.join(BODY[f]) + '\n', mtime=5)
    m.substitution.files.clear()
    return m, {f: m.os.path.realpath(f) for f in FILES}


def line(f, n):
    return BODY[f][n - 1].strip() if 1 <= n <= len(BODY[f]) else ''


def mapped(h, f, n, subst):
    """the place that is shown"""
    if f in subst:
        h.cover('generated')
        g, shrink = subst[f]
        n = n - (shrink - 1)
        return g, n if n >= 1 else 1
    h.cover('other file')
    return f, n if n >= 1 else 1


def stack(h, n, kind, lim):
    """extraction of a stack"""
    m, path = prepare(h)
    s1 = h.int('shrink1', 0, 3)
    s2 = h.int('shrink2', -1, 2) if kind == 'two' else 1
    m.substitution('x.py', 'x.yugen.py', s1)
    subst = {'x.py': ('x.yugen.py', s1)}
    if kind == 'two':
        m.substitution('y.py', 'y.gen.py', s2)
        subst['y.py'] = ('y.gen.py', s2)
    frames = []
    src = []
    for i in range(n):
        f = ['x.py', 'z.py', 'y.py', 'x.yugen.py'][h.choose('file%d' % i, 4 if n < 3 else 2 if kind == 'one' else 3)]
        no = h.int('line%d' % i, 1 if n > 2 else 0, 4 if n < 3 else 2)
        name = 'f%d' % i
        loc = {'b': i, 'a': 'v'}
        src.append((f, no, name, loc))
        frames.append((Frame(path[f], name, loc), no))
    capture = h.flag('capture') if n < 2 else False
    lookup = h.flag('lookup') if n < 2 else True
    limit = None
    glob = None
    if lim == 'limit':
        limit = h.int('limit', -3, 4)
    elif lim == 'global':
        glob = h.int('tracebacklimit', -1, 2)
    elif lim == 'both':
        limit = h.int('limit', -1, 2)
        glob = h.int('tracebacklimit', 0, 1)
    h.describe(repr([f for f, _, _, _ in src]))
    sysm = m.sys
    fake = Rec()
    if glob is not None:
        fake.tracebacklimit = glob
    m.sys = fake
    try:
        r = m.StackSummary.extract(iter(frames), limit=limit, lookup_lines=lookup, capture_locals=capture)
    finally:
        m.sys = sysm
    k = limit
    if k is None and glob is not None:
        k = glob if glob > 0 else 0
        h.cover('tracebacklimit')
    if k is not None:
        if limit is not None:
            h.cover('limit')
        if k >= 0:
            src = src[:k]
        elif -k < len(src):
            src = src[k:]
    h.check(isinstance(r, m.StackSummary), 'a stack summary')
    h.check(len(r) == len(src), 'the number of frames')
    for fr, (f, no, name, loc) in zip(r, src):
        g, l = mapped(h, f, no, subst)
        h.check(h.eq(fr.filename, path[g]), 'the file')
        h.observe('line', fr.lineno)
        h.check(fr.lineno == l, 'the line number')
        h.check(h.eq(fr.name, name), 'the name of the function')
        h.check(h.eq(fr.line, line(g, l)), 'the text of the line')
        if capture:
            h.cover('locals')
            h.check(sorted(fr.locals) == ['a', 'b'] and h.eq(fr.locals['a'], repr('v')) and h.eq(fr.locals['b'], repr(loc['b'])), 'the local variables')
        else:
            h.check(fr.locals is None, 'no local variables')
    t = r.format()
    h.check(len(t) == len(src), 'a text for each frame')
    for x, (f, no, name, loc) in zip(t, src):
        g, l = mapped(h, f, no, subst)
        w = line(g, l)
        h.check(h.eq(x, '  File "' + path[g] + '", line ' + str(l) + ', in ' + name + '\n' + ('    ' + w + '\n' if w else '') + ("    a = 'v'\n    b = " + str(loc['b']) + '\n' if capture else '')), 'the text of a frame')


def recursion(h, n, k):
    """repeated places"""
    m, path = prepare(h)
    seq = []
    for i in range(n):
        if k == 'line':
            seq.append(('F', 1 + h.choose('l%d' % i, 2), 'g'))
        elif k == 'name':
            seq.append(('F', 1, 'gh'[h.choose('l%d' % i, 2)]))
        elif k == 'file':
            seq.append(('FG'[h.choose('l%d' % i, 2)], 1, 'g'))
        else:
            seq.append(('F', h.int('l%d' % i, 1, 2), 'g'))
    a = []
    for i, (f, l, g) in enumerate(seq):
        # as an object or as a tuple
        a.append((f, l, g, 't%d' % i) if i % 2 else m.FrameSummary(f, l, g, lookup_line=False, line='t%d' % i))
    h.describe(repr(n))
    s = m.StackSummary.from_list(a)
    h.check(len(s) == n, 'all frames')
    r = ''.join(s.format())
    w = ''
    i = 0
    while i < n:
        j = i
        while j < n and seq[j] == seq[i]:
            if j - i < 3:
                w += '  File "%s", line %d, in %s\n    t%d\n' % (seq[j][0], seq[j][1], seq[j][2], j)
            j += 1
        c = j - i - 3
        if c > 0:
            w += '  [Previous line repeated %d more time%s]\n' % (c, 's' if c > 1 else '')
            h.cover('recursion')
        i = j
    h.observe('text', r)
    h.check(h.eq(r, w), 'the text of a stack')


def text(h, n):
    """any text of a line"""
    m, path = prepare(h)
    t = h.chars('t', n, ASCII)
    h.describe(t)
    r = m.StackSummary.from_list([('F', 7, 'g', t), m.FrameSummary('G', 8, t, lookup_line=False, line='u')]).format()
    h.check(len(r) == 2, 'a text for each frame')
    w = t.strip(' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f')
    h.check(h.eq(r[0], '  File "F", line 7, in g\n' + ('    ' + w + '\n' if t else '')), 'the text of a line')
    h.check(h.eq(r[1], '  File "G", line 8, in ' + t + '\n    u\n'), 'the name of the function is not altered')
    h.cover('line')


def history(h, n):
    """substitutions one after another"""
    m, path = prepare(h)
    last = {}
    h.fs.mkdir('d')
    for i in range(n):
        f = ['x.py', 'y.py'][h.choose('f%d' % i, 2)]
        g = ['x.yugen.py', 'y.gen.py'][h.choose('g%d' % i, 2)]
        s = h.int('s%d' % i, 0, 3)
        how = h.choose('how%d' % i, ['', './', 'd/../'])
        m.substitution(how + f, how + g, s)
        if f in last:
            h.cover('replaced')
        last[f] = (g, s)
    h.describe(repr(n))
    fr = [(Frame(path[f], f, {}), 3) for f in ('x.py', 'y.py', 'z.py', 'x.yugen.py')]
    r = m.StackSummary.extract(iter(fr))
    for x, f in zip(r, ('x.py', 'y.py', 'z.py', 'x.yugen.py')):
        g, l = mapped(h, f, 3, last)
        h.check(h.eq(x.filename, path[g]), 'the file')
        h.check(x.lineno == l, 'the line number')


def changed(h, n):
    """the file is generated again"""
    m, path = prepare(h)
    m.substitution('x.py', 'x.yugen.py', 1)
    k = h.int('line', 1, 2)
    f = [(Frame(path['x.py'], 'f', {}), k)]
    r = m.StackSummary.extract(iter(f))
    h.check(h.eq(r[0].line, line('x.yugen.py', k)), 'the text of the line')
    t = h.chars('t', n, 'ab#1')
    h.fs.write('x.yugen.py', 'new' + t + '\nother' + t + '\n', mtime=9)
    r = m.StackSummary.extract(iter(f))
    h.check(h.eq(r[0].line, 'new' + t if k == 1 else 'other' + t), 'the text of the line as it is now')
    h.cover('changed')


class Stop(KeyboardInterrupt):
    pass


TYPES = [KeyboardInterrupt, Stop, ValueError, SyntaxError, SystemExit, Exception]


def hook(h, k):
    """what is printed for an exception that is not caught"""
    m = h.module('pylib.yutraceback3')
    calls = []
    a, b = m.sys, m.traceback
    m.sys, m.traceback = Rec(), Rec()
    m.sys.__dict__['__excepthook__'] = lambda *x: calls.append(('python', x))
    m.traceback.print_exception = lambda *x: calls.append(('print', x))
    e = TYPES[k]('text')
    t = Rec()
    try:
        m.excepthook(TYPES[k], e, t)
    finally:
        m.sys, m.traceback = a, b
    h.check(len(calls) == 1 and calls[0][0] == ('python' if k < 2 else 'print') and len(calls[0][1]) == 3, 'the exception is printed once')
    c = calls[0][1]
    h.check(c[0] is TYPES[k] and c[1] is e and c[2] is t and e.args == ('text',), 'the exception is not altered')
    h.check(m.traceback.StackSummary is m.StackSummary, 'traceback uses the class')
    h.check(m.sys.excepthook is m.excepthook, 'the hook is set')
    y = h.module('pylib.yutraceback')
    h.check(y.substitution is m.substitution and y.print_exc is m.print_exc and y.StackSummary is m.StackSummary, 'the module is the one for Python 3')
    h.cover('interrupt' if k < 2 else 'exception')

HEADER = ['# coding: yupp\n', '#!/usr/bin/python\n# coding: yupp\n', '# vim: set fileencoding=yupp.latin-1 :\n', '\n# coding=YUPP\n', '# text of coding\n# coding:yupp\n']


def codec(h, k, body):
    """a module that is read by Python: generated, and reused"""
    m = h.module('pylib.yutraceback3')
    m.substitution.files.clear()
    head = HEADER[k]
    h.fs.write('x.py', head + ['a = 1\nb = 2\n', '($set c 3)a = ($c)\nb = 2\nd = 4\n', 'a = 1'][body], mtime=5)
    n = h.int('line', 0, 6)
    first = 1 if 'coding' in head.split('\n')[0] and 'yupp' in head.split('\n')[0] else 2
    h.describe(head)
    path = m.os.path.realpath('x.py')
    for again in (False, True):
        if again:
            if not h.flag('again'):
                break
            h.fs.utime('x.yugen.py', 9)
            m.substitution.files.clear()
        h.clear()
        code = h.package().decode_stream('x.py', h.yup.open('x.py', 'r'))
        t = h.fs.read('x.yugen.py')
        h.check(h.eq(code, t) and 'a = ' in t, 'the code is the generated one')
        # Python has read the lines up to the magic comment itself and drops the first line of the code
        r = m.StackSummary.extract(iter([(Frame(path, 'f', {}), n)]))
        g = n - first + 1
        if g < 1:
            g = 1
        lines = t.split('\n') + [''] * 9
        h.observe('line', r[0].lineno)
        h.check(h.eq(r[0].filename, m.os.path.realpath('x.yugen.py')), 'the file')
        h.check(r[0].lineno == g, 'the line number of a module')
        h.check(h.eq(r[0].line, lines[g - 1].strip()), 'the text of the line of a module')
    h.cover('codec')


def TASKS(tier):
    q = tier == 'quick'
    t = []
    for n in range(4 if q else 5):
        for kind in ('one', 'two'):
            for lim in ('none', 'limit', 'global', 'both'):
                if not q or n < 2 or lim == 'none' or (kind == 'one' and (lim == 'limit' or n == 2 and lim == 'global')):
                    t.append(('stack%d-%s-%s' % (n, kind, lim), 'stack', (n, kind, lim)))
    for n in range(9 if q else 11):
        for k in ('line', 'name', 'file', 'int'):
            if n < 7 or k == 'line' or not q:
                t.append(('recursion%d-%s' % (n, k), 'recursion', (n, k)))
    for n in range(4 if q else 5):
        t.append(('text%d' % n, 'text', (n,)))
    for n in (1, 2) if q else (1, 2, 3):
        t.append(('history%d' % n, 'history', (n,)))
    for n in range(3):
        t.append(('changed%d' % n, 'changed', (n,)))
    for k in range(len(TYPES)):
        t.append(('hook%d' % k, 'hook', (k,)))
    for k in range(len(HEADER)):
        for b in range(3):
            t.append(('codec%d-%d' % (k, b), 'codec', (k, b)))
    return t

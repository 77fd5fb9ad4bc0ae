# -*- coding: utf-8 -*-
META = {
    'id': 'P15',
    'bounds': 'a module in any subset of the working directory, the directory of the input, two configured directories in either order and the library; names of 1..2 (thorough 3) '
              'symbolic characters with decoys of other extensions; graphs of 3 modules whose bodies have 2 (3) parts out of texts, definitions, macros, imports of each other by name or by file, '
              'and the rest skipped; imports in the main text, in an enclosure, a local binding and a function; Python scripts; expressions',
    'covers': ['found', 'missing', 'graph', 'cycle', 'again', 'script', 'expression', 'skipped'],
    'budget': {'quick': 120, 'thorough': 800},
    'relational': True,
    'outside': 'a file that includes itself by name of file (endless, as in C), imports that appear only when a text is evaluated, directories that change during the run, symbolic links',
}

L = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def search(h, form, where, nodir):
    """the first of the places that has the file"""
    c = h.chars('c', 1, L)
    name = ['m', 'h', 'm', 'sub/m', 's'][form]
    fn = name + ('.py' if form == 4 else '.yu' if form < 3 else '.txt')
    call = ['($import m)', '($import h \\import)', '($import "m.yu")', '($import "sub/m.txt")', "($import\n 's.py')"][form]
    order = h.choose('order', [['d1', 'd2'], ['d2', 'd1/'], ['d2'], []])
    places = [''] + ([where] if where else []) + order
    found = None
    for d in ['', 'in/', 'd1/', 'd2/']:
        if h.flag('at' + d):
            if form == 4:
                h.fs.write(d + fn, 'def val():\n    return "' + d + '" + chr(%d)\n' % 90)
            else:
                h.fs.write(d + fn, '($set val (`' + d + c + '))' + d + '.')
    for d in places:
        d = d + '/' if d and d[-1] != '/' else d
        if found is None and h.fs.isfile(d + fn):
            found = d
    if nodir:
        # a directory of this name is not the module
        for d in nodir:
            if not h.fs.isfile(d + fn):
                h.fs.mkdir(d + fn)
    t = 'q' + call + '<($val)>'
    h.describe(t)
    r = pp(h, t, where + '/t.yu' if where else 't.yu', directory=order)
    h.observe('ok', r.ok)
    if found is None and form == 1:
        # the library has it
        h.check(r.ok, 'a module of the library is found')
        h.cover('found')
        return
    if found is None:
        h.check(not r.ok, 'a missing module is an error')
        h.check(len(r.errors()) == 1, 'one error')
        located(h, r.errors()[0], ('File', where + '/t.yu' if where else 't.yu'), t, 1, 'a missing module', up=len(call))
        h.check(fn in r.errors()[0], 'the message names the file')
        h.cover('missing')
        return
    h.check(r.ok, 'the module is found')
    h.observe('plain', xplain(r.plain))
    if form == 4:
        h.check(h.eq(r.plain, 'q<' + found + 'Z>'), 'the first file found is the one that is executed')
    else:
        h.check(h.eq(r.plain, 'q' + found + '.<' + found + c + '>'), 'the first file found is the one that is used')
    h.cover('found')


def same(h, form):
    """a module which has the name of the input"""
    c, d = h.chars('c', 1, L), h.chars('d', 1, L)
    where = h.choose('where', ['in/', ''])
    call = ['($import t)', '($import "t.yu")', '($import t)($import t)', '($import m)'][form]
    t = '($set v (`' + c + '))q' + call + '<($v)>'
    other = where and h.flag('other')
    h.assume(form != 1 or other)
    h.fs.write(where + 't.yu', t)
    h.fs.write('m.yu', '($import t)m')
    if other:
        # another file, found first
        h.fs.write('t.yu', '($set v (`' + d + ')).')
        w = 'q.' + ('m' if form == 3 else '') + '<' + d + '>'
    else:
        # the input itself
        w = 'q' + ('m' if form == 3 else '') + '<' + c + '>'
    h.describe(t)
    r = pp(h, t, where + 't.yu', pp_browse=h.flag('br'))
    out_is(h, r, w, 'the file of the same name')
    h.cover('found' if other else 'cycle')


def naming(h, n):
    """the extension is added, the name is taken literally"""
    s = h.chars('s', n, 'ab-_')
    ok = True
    for c in s[:1]:
        h.assume(c != '-')
    name = None
    for x in (['a', 'b', '_'] if n == 1 else [y + z for y in 'ab_' for z in 'ab-_'] if n == 2 else ['a-b', 'b_a', 'aaa', 'a-_']):
        h.fs.write(x + '.yu', '<' + x + '>')
        h.fs.write(x, 'bare')
        h.fs.write(x + '.yu-c', 'other')
        h.fs.write(x + '.py', 'raise Exception()')
        if s == x:
            name = x
    h.assume(name is not None)
    t = '($import ' + s + ')'
    h.describe(t)
    r = pp(h, t)
    out_is(h, r, '<' + name + '>', 'the module with the default extension')
    h.cover('found')


class Graph(object):
    """texts of the modules and what they amount to"""
    def __init__(self, h, np, kinds):
        self.h, self.np, self.kinds, self.n = h, np, kinds, 0
        self.body = {}

    def part(self, m):
        h = self.h
        self.n += 1
        k = self.kinds[h.choose('k%d' % self.n, len(self.kinds))]
        if k == 't':
            return ('t', h.chars('t%d' % self.n, 1, L))
        if k == 'd':
            return ('t', '($set v ' + h.chars('t%d' % self.n, 1, L) + m + ')')
        if k == 'm':
            return ('t', '($macro w (p) ' + h.chars('t%d' % self.n, 1, L) + '($p))')
        if k == 'u':
            return ('t', '[($v)|($w ' + m + ')]')
        if k == 's':
            return ('s', '')
        # another module, by name or (a later one only) by file
        to = h.choose('to%d' % self.n, 3)
        q = to > 'abc'.index(m) and h.flag('q%d' % self.n) if m in 'abc' else h.flag('q%d' % self.n)
        return ('q' if q else 'i', 'abc'[to])

    def text(self, m):
        if m not in self.body:
            self.body[m] = [self.part(m) for _ in range(self.np if m == 'a' or self.np > 2 else self.np - ('cb'.find(m) >= 0))]
        return join(x if k == 't' else '($skip)' if k == 's' else '($import ' + x + ')' if k == 'i' else '($import "' + x + '.yu")' for k, x in self.body[m])

    def write(self, m):
        """the files that are needed"""
        t = self.text(m)
        self.done.append(m)
        if m in 'abc':
            self.h.fs.write(m + '.yu', t)
        for k, x in self.body[m]:
            if k in 'iq' and x not in self.done:
                self.write(x)
        return t

    def expand(self, m):
        """the text written out"""
        o = ''
        skip = False
        for k, x in self.body[m]:
            if k == 't':
                o = o + ('' if skip else x)
            elif k == 's':
                skip = True
                self.h.cover('skipped')
            elif k == 'i' and x in self.seen:
                self.h.cover('again')
                if x in self.open:
                    self.h.cover('cycle')
            else:
                self.seen.append(x)
                self.open.append(x)
                e = self.expand(x)
                self.open.pop()
                o = o + ('' if skip else e)
        return o


def graph(h, np, first, second, kinds, ctx):
    g = Graph(h, np, kinds)
    g.done = []
    g.body['M'] = [('i' if first < 3 else 'q', 'abc'[first % 3]), ('t', ';'), ('i' if second < 3 else 'q', 'abc'[second % 3])]
    t = g.write('M')
    g.seen, g.open = [], []
    e = g.expand('M')
    tail = '<($v)|($w 1)>'
    head = '($set v 0)($macro w (p) _($p))'
    wrap = ['%s', '($ [{%s}])', '($let z 1 [{%s}])', '($ \\z.[{%s}] 1)', '($import { "%s" })'][ctx]
    a, b = wrap.split('%s')
    t = head + a + t + tail + b + tail
    e = head + ('' if ctx == 4 else a) + e + tail + ('' if ctx == 4 else b) + tail
    if ctx == 4:
        h.assume('"' not in t[len(head) + len(a):-len(tail) - len(b)])
        h.cover('expression')
    h.describe(t)
    h.observe('files', [(m, g.text(m)) for m in g.done])
    r = pp(h, t)
    h.observe('ok', r.ok)
    h.check(r.ok, 'the program is accepted')
    h.observe('plain', xplain(r.plain))
    want = pp(h, e)
    h.check(want.ok, 'the program written out is accepted')
    h.check(h.eq(r.plain, xplain(want.plain)), 'a module has the effect of its text, once')
    h.cover('graph')


def script(h, k):
    """a Python script is executed once and its names are visible"""
    a = h.chars('a', 1, '0123456789')
    h.fs.write('s.py', 'import sys\nsys.stdout.write("run")\ndef twice(x):\n    return x * 2\nK = 7\n')
    h.fs.write('m.yu', '($import "s.py")($set z ($twice 2))')
    t, w, n = [
        ('($import "s.py")<($twice ' + a + ')>', '<' + str(int(a) * 2) + '>', 1),
        ('($import "s.py")($import "s.py")<($twice ' + a + ')>', '<' + str(int(a) * 2) + '>', 1),
        ('($import m)<($twice ' + a + ')($z)>', '<' + str(int(a) * 2) + '4>', 1),
        ('($import m)($import "s.py")<(${} twice(' + a + ') + K)>', '<' + str(int(a) * 2 + 7) + '>', 1),
        ('($let q 1 [($import "s.py")])<($K)' + a + '>', '<7' + a + '>', 1),
        ('($set twice ' + a + ')($import "s.py")<($twice)>', '<' + a + '>', 1),
        ('($import "./s.py")<($twice ' + a + ')>', '<' + str(int(a) * 2) + '>', 1),
    ][k]
    h.describe(t)
    out0 = h.out().count('run')
    r = pp(h, t)
    h.observe('ok', r.ok)
    h.check(r.ok, 'accepted')
    h.observe('plain', xplain(r.plain))
    h.check(h.eq(r.plain, w), 'the names of the script are visible')
    h.check(h.out().count('run') - out0 == n, 'the script is executed once')
    h.cover('script')


def bad(h, k):
    """unusable modules are located errors"""
    c = h.chars('c', 1, L)
    pre = h.choose('pre', ['', 'x' + c + '\n ', '($set a 1)\n\n'])
    call = ['($import "s.py")', '($import { 1 / 0 })', '($import { nowhere' + c + ' })', '($import zz' + c + ')', '($import "no/zz")', '($import "s2.py")', '($import "no.py")'][k]
    h.fs.write('s.py', 'raise ValueError("s")\n')
    h.fs.write('s2.py', 'def f(:\n')
    t = pre + call
    h.describe(t)
    r = pp(h, t)
    h.observe('ok', r.ok)
    h.check(not r.ok, 'refused')
    h.check(len(r.errors()) == 1, 'one error')
    located(h, r.errors()[0], ('File', 't.yu'), t, len(pre), 'an unusable module', up=len(t) - 1)
    h.cover('missing')


def twice(h, k):
    """every run starts anew"""
    c, d = h.chars('c', 1, L), h.chars('d', 1, L)
    h.fs.write('m.yu', '($set v ' + c + ')' + c)
    t = ['($import m)($v)', '($import "m.yu")($v)', '($import m)($import m)($v)'][k]
    h.describe(t)
    out_is(h, pp(h, t), c + c, 'the first run')
    h.fs.write('m.yu', '($set v ' + d + ')' + d)
    out_is(h, pp(h, t), d + d, 'the second run reads the module again')
    h.cover('again')


def TASKS(tier):
    q = tier == 'quick'
    t = []
    for form in range(5):
        for where in ('', 'in'):
            t.append(('search%d-%s' % (form, where), 'search', (form, where, [])))
    for k, (form, d) in enumerate([(0, ['d2/']), (0, ['', 'd1/']), (2, ['in/']), (1, ['', 'in/', 'd1/', 'd2/'])]):
        t.append(('dir%d' % k, 'search', (form, 'in', d)))
    for form in range(4):
        t.append(('same%d' % form, 'same', (form,)))
    for n in (1, 2) if q else (1, 2, 3):
        t.append(('name%d' % n, 'naming', (n,)))
    for first, second in [(0, 0), (0, 1), (0, 3), (3, 0), (1, 0), (4, 2)]:
        for kinds in ('tid', 'uim', 'tis') if q else ('tidu', 'uimd', 'tisd'):
            t.append(('graph%d%d-%s' % (first, second, kinds), 'graph', (2, first, second, kinds, 0)))
            if not q:
                t.append(('long%d%d-%s' % (first, second, kinds), 'graph', (3, first, second, kinds[:3], 0)))
    for ctx in (1, 2, 3, 4):
        t.append(('in%d' % ctx, 'graph', (1 if q else 2, 0, 1, 'timu', ctx)))
    for k in range(7):
        t.append(('script%d' % k, 'script', (k,)))
        t.append(('bad%d' % k, 'bad', (k,)))
    for k in range(3):
        t.append(('twice%d' % k, 'twice', (k,)))
    return t

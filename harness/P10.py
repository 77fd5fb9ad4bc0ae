# -*- coding: utf-8 -*-
META = {
    'id': 'P10',
    'bounds': 'every program built from definitions, double definitions, local bindings, code enclosures, anonymous functions, loops and references over two names, nested 2 (thorough 3) deep, '
              'with values that are constants, names or code with references; named functions with such bodies defined and applied in different scopes, functions passed to functions; '
              'late-bound parameters (one or two) whose argument is written under other bindings of the names; infix expressions over nested bindings; several names defined at once from a list, a single value or a name; symbolic constants',
    'covers': ['unpack', 'run', 'late', 'infix', 'loop', 'recursion', 'word'],
    'budget': {'quick': 150, 'thorough': 850},
    'relational': False,
    'outside': 'definitions that refer to themselves (except functions); a late-bound name that is also bound where it is written; names that begin with `quote` or `code`, which take what follows for a text; emissions (P14)',
}

NAMES = ['a', 'b']
LETTER = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'


class Gen(object):
    """draws a program; constants are symbolic letters"""

    def __init__(self, h, kinds=('ref', 'set', 'block', 'let', 'apply')):
        self.h, self.n, self.c, self.kinds = h, 0, 0, kinds

    def pick(self, n):
        self.n += 1
        return self.h.choose('g%d' % self.n, n)

    def name(self):
        return NAMES[self.pick(len(NAMES))]

    def const(self):
        self.c += 1
        return ('const', self.h.chars('v%d' % self.c, 1, LETTER))

    def expr(self, d, kinds='cnt', but=()):
        """a value; it does not refer to the names `but`"""
        k = kinds[self.pick(len(kinds))] if len(kinds) > 1 else kinds
        if k == 'c' or d <= 0 and k == 't':
            return self.const()
        if k == 'n':
            x = ('name', self.name())
        else:
            x = ('code', self.text(d - 1))
        for n in but:
            self.h.assume(not uses(x, n))
        return x

    def text(self, d):
        """a short text: item, then references to both names"""
        kind = self.kinds[self.pick(len(self.kinds) if d > 0 else 1)]
        if kind == 'ref':
            return [('ref', self.name())]
        if kind == 'set':
            n = self.name()
            it = ('set', n, self.expr(d, but=[n]))
        elif kind == 'set2':
            it = ('set2', self.const(), self.const())
        elif kind == 'block':
            it = ('block', self.text(d - 1))
        elif kind == 'let':
            n = self.name()
            it = ('let', n, self.expr(d, but=[n]), self.text(d - 1))
        elif kind == 'each':
            it = ('each', self.name(), self.text(d - 1), [self.const(), self.expr(0, 'n')])
        else:
            it = ('apply', self.name(), self.text(d - 1), self.expr(d))
        return [it] + [('ref', n) for n in NAMES]


def show(x):
    if isinstance(x, list):
        return join(show(i) for i in x)
    k = x[0]
    if k == 'ref':
        return '($' + x[1] + ')'
    if k == 'const':
        return '(`' + x[1] + ')'
    if k == 'name':
        return x[1]
    if k == 'code':
        return '[' + show(x[1]) + ']'
    if k == 'set':
        return '($set ' + x[1] + ' ' + show(x[2]) + ')'
    if k == 'block':
        return '($ [' + show(x[1]) + '])'
    if k == 'let':
        return '($let ' + x[1] + ' ' + show(x[2]) + ' [' + show(x[3]) + '])'
    if k == 'apply':
        return '($ \\' + x[1] + '.[' + show(x[2]) + '] ' + show(x[3]) + ')'
    if k == 'set2':
        return '($set (a b) (' + show(x[1]) + ' ' + show(x[2]) + '))'
    if k == 'each':
        return '($ (' + show(x[3][0]) + ' ' + show(x[3][1]) + ') \\' + x[1] + '.[' + show(x[2]) + '])'
    if k == 'fn':
        return '\\' + x[1] + '.[' + show(x[2]) + ']'
    if k == 'call':
        return '($' + x[1] + ' ' + show(x[2]) + ')'


class Skipped(Exception):
    """the program is outside the bounds"""


def bind(env, name, val):
    e = dict(env)
    e[name] = val
    return e


def value(x, env):
    k = x[0]
    if k == 'const':
        return x[1]
    if k == 'name':
        return env.get(x[1], x[1])
    if k == 'fn':
        return (x[1], x[2], env)
    return run(x[1], env)


def run(items, env):
    out = ''
    for x in items:
        k = x[0]
        if k == 'ref':
            v = env.get(x[1], x[1])
            if isinstance(v, tuple):
                raise Skipped()
            out = out + v
        elif k == 'set':
            env = bind(env, x[1], value(x[2], env))
        elif k == 'set2':
            env = bind(bind(env, 'a', value(x[1], env)), 'b', value(x[2], env))
        elif k == 'block':
            out = out + run(x[1], env)
        elif k == 'let':
            out = out + run(x[3], bind(env, x[1], value(x[2], env)))
        elif k == 'apply':
            out = out + run(x[2], bind(env, x[1], value(x[3], env)))
        elif k == 'each':
            for v in x[3]:
                out = out + run(x[2], bind(env, x[1], value(v, env)))
        elif k == 'call':
            f = env[x[1]]
            out = out + run(f[1], bind(f[2], f[0], value(x[2], env)))
    return out


def uses(x, n):
    """the name stands free in x"""
    if isinstance(x, list):
        for i in x:
            if uses(i, n):
                return True
            if i[0] == 'set' and i[1] == n or i[0] == 'set2':
                return False
        return False
    k = x[0]
    if k in ('ref', 'name'):
        return x[1] == n
    if k in ('code', 'block'):
        return uses(x[1], n)
    if k == 'set':
        return uses(x[2], n)
    if k == 'let':
        return uses(x[2], n) or x[1] != n and uses(x[3], n)
    if k == 'each':
        return uses(x[3][0], n) or uses(x[3][1], n) or x[1] != n and uses(x[2], n)
    if k == 'apply':
        return uses(x[3], n) or x[1] != n and uses(x[2], n)
    if k == 'fn':
        return x[1] != n and uses(x[2], n)
    if k == 'call':
        return x[1] == n or uses(x[2], n)
    return False


def judge(h, prog):
    t = show(prog)
    h.describe(t)
    try:
        want = run(prog, {})
    except Skipped:
        h.assume(False)
    r = pp(h, t)
    h.observe('ok', r.ok)
    h.check(r.ok, 'the program is accepted')
    h.observe('plain', xplain(r.plain))
    h.check(h.eq(r.plain, want), 'every name denotes its innermost enclosing binding')
    h.cover('run')


def nest(h, d, first, kinds):
    g = Gen(h, KINDS[kinds])
    items = g.text(d)
    pre = [('set', 'a', g.const())] if first & 1 else []
    pre += [('set', 'b', g.const())] if first & 2 else []
    if kinds:
        h.cover('loop')
    judge(h, pre + items)


KINDS = [('ref', 'set', 'block', 'let', 'apply'), ('ref', 'set2', 'each', 'apply'), ('ref', 'set', 'apply'), ('ref', 'each', 'let')]


def functions(h, shape):
    """a function is defined in one place and applied in another"""
    g = Gen(h)
    A = ('set', 'a', g.const())
    p = g.name()
    body = g.text(1 if shape < 4 else 0)
    f = ('set', 'f', ('fn', p, body))
    q = g.name()
    arg = g.expr(1)
    call = ('call', 'f', arg)
    s = shape % 4
    if s == 0:
        prog = [A, f, ('set', q, g.const()), call]
    elif s == 1:
        prog = [A, f, ('let', q, g.const(), [call, ('ref', q)]), ('ref', q)]
    elif s == 2:
        prog = [A, f, ('apply', q, [call, ('ref', q)], g.const()), ('ref', q)]
    else:
        # defined inside another function
        prog = [A, ('apply', q, [f, ('set', NAMES[g.pick(2)], g.const()), call], g.const())]
    judge(h, prog)


def higher(h, shape):
    """a function is passed to another function"""
    g = Gen(h)
    A = ('set', 'a', g.const())
    p, q, r = g.name(), g.name(), g.name()
    g1 = ('fn', p, [('ref', NAMES[0]), ('ref', NAMES[1])])
    inner = ('call', 'h', g.expr(1))
    if shape == 0:
        prog = [A, ('apply', 'h', [('let', q, g.const(), [inner])], g1)]
    elif shape == 1:
        prog = [A, ('apply', 'h', [('apply', q, [inner], g.const())], g1)]
    elif shape == 2:
        prog = [A, ('apply', q, [('apply', 'h', [('apply', r, [inner], g.const())], g1)], g.const())]
    elif shape == 3:
        prog = [('apply', q, [('set', 'h', g1), ('apply', r, [inner, ('ref', 'a')], ('name', g.name()))], g.const())]
    else:
        prog = [A, ('set', 'f', ('fn', 'h', [('set', q, g.const()), inner, ('ref', q)])), ('set', 'k', g1), ('set', r, g.const()), ('call', 'f', ('name', 'k'))]
    judge(h, prog)


def late(h, n, place, shape):
    """the argument names what the function announces"""
    g = Gen(h)
    l = [g.name()] if n == 1 else [['a', 'b'], ['b', 'a']][g.pick(2)]
    free = [x for x in NAMES if x not in l]
    # the argument: late names, and an ordinary name where there is one
    arg = ''
    args = [g.const()[1] for _ in l]
    want = ''
    env = {}
    pre = ''
    c = g.const()[1]
    if free and place:
        env[free[0]] = c
    for i in range(2 if n == 1 else 3):
        k = g.pick(len(l) + len(free))
        if k < len(l):
            arg += '($&' + l[k] + ')'
            want = want + args[k]
        else:
            x = free[k - len(l)]
            arg += '($' + x + ')'
            want = want + env.get(x, x)
    # parameters of the function, in its own names, which may be the names of the argument
    ps = [NAMES[g.pick(2)]]
    if n == 2:
        ps = [ps[0], [x for x in NAMES if x != ps[0]][0]]
    if shape == 0:
        f = ''.join('\\' + x + '..' for x in l) + '\\g.' + ''.join('\\' + p + '.' for p in ps) + '($g ' + ' '.join(ps) + ')'
        actual = ' '.join('(`' + v + ')' for v in args)
    elif shape == 1:
        # the function supplies the values by itself
        f = ''.join('\\' + x + '..' for x in l) + '\\g.[($g ' + ' '.join('(`' + v + ')' for v in args) + ')]'
        actual = ''
    else:
        # the values are local to the function
        f = ''.join('\\' + x + '..' for x in l) + '\\g.' + ''.join('($let ' + p + ' (`' + v + ') ' for p, v in zip(ps, args)) + '($g ' + ' '.join(ps) + ')' + ')' * len(ps)
        actual = ''
    app = '($f [' + arg + '] ' + actual + ')'
    if free and place == 1:
        t = '($set f ' + f + ')($set ' + free[0] + ' (`' + c + '))' + app
    elif free and place == 2:
        t = '($set f ' + f + ')($ \\' + free[0] + '.[' + app + '] (`' + c + '))'
    elif free and place == 3:
        t = '($set f ' + f + ')($let ' + free[0] + ' (`' + c + ') ' + app + ')'
    else:
        t = '($set f ' + f + ')' + app
    h.describe(t)
    r = pp(h, t)
    h.observe('ok', r.ok)
    h.check(r.ok, 'the application is accepted')
    h.observe('plain', xplain(r.plain))
    h.check(h.eq(r.plain, want), 'a late-bound name takes the value that the function supplies')
    h.cover('late')


def stranger(h, shape):
    """a late-bound name that nobody announces"""
    g = Gen(h)
    p, q, n = g.name(), g.name(), g.name()
    if shape == 0:
        h.assume(p != q)
        t = '($ \\' + p + '.[($' + p + ')] [($&' + q + ')])'
    else:
        h.assume(p != n)
        t = '($ \\' + p + '..\\g.($g (`A)) [($&' + n + ')])'
    h.describe(t)
    r = pp(h, t)
    h.observe('ok', r.ok)
    h.check(not r.ok, 'a late-bound name that no function announces has no value')


OPS = [('{ a * 10 + b }', lambda a, b: a * 10 + b), ('{ a - b }', lambda a, b: a - b), ('($add a b)', lambda a, b: a + b), ('{ int(str(a)) + b }', lambda a, b: a + b)]


def infix(h, shape, op):
    """names in expressions of Python"""
    g = Gen(h)
    n = [0]

    def num():
        n[0] += 1
        return str(n[0] + 1), n[0] + 1
    e, fn = OPS[op]
    env = {}
    v1, w1 = num()
    v2, w2 = num()
    v3, w3 = num()
    p, q, r = g.name(), g.name(), g.name()
    if shape == 0:
        t = '($set a ' + v1 + ')($set b ' + v2 + ')($let ' + p + ' ' + v3 + ' ($ ' + e + '))($ ' + e + ')'
        o = {'a': w1, 'b': w2}
        i = bind(o, p, w3)
        want = str(fn(i['a'], i['b'])) + str(fn(o['a'], o['b']))
    elif shape == 1:
        t = '($set a ' + v1 + ')($set b ' + v2 + ')($ \\' + p + '.[($ \\' + q + '.' + e + ' {' + r + ' + 5})] ' + v3 + ')'
        i = bind({'a': w1, 'b': w2}, p, w3)
        i = bind(i, q, i[r] + 5)
        want = str(fn(i['a'], i['b']))
    elif shape == 2:
        t = '($set a ' + v1 + ')($set b ' + v2 + ')($set f \\' + p + '.' + e + ')($set ' + q + ' 9)($ \\' + r + '.($f ' + r + ') ' + v3 + ')'
        i = bind({'a': w1, 'b': w2}, p, w3)
        want = str(fn(i['a'], i['b']))
    else:
        # the value of one is an expression over the other
        t = '($set a ' + v1 + ')($set b ' + v2 + ')($set f \\' + p + '.($let ' + q + ' {' + p + ' + 4} ($ ' + e + ')))($ \\' + r + '.($f {' + r + ' * 2}) ' + v3 + ')'
        h.assume(p != q)
        i = bind({'a': w1, 'b': w2}, p, w3 * 2)
        i = bind(i, q, i[p] + 4)
        want = str(fn(i['a'], i['b']))
    h.describe(t)
    r = pp(h, t)
    h.observe('ok', r.ok)
    h.check(r.ok, 'the program is accepted')
    h.observe('plain', xplain(r.plain))
    h.check(h.eq(r.plain, want), 'a name in an expression denotes its innermost enclosing binding')
    h.cover('infix')


def recursive(h, shape, k):
    """a function that refers to itself, its parameter and a global name"""
    g = Gen(h)
    p, q = g.name(), g.name()
    c = g.const()[1]
    d = g.const()[1]
    o = [x for x in NAMES if x != p][0]
    if shape < 2:
        # a free name in a branch of a conditional: see KNOWN
        h.assume(q != o)
    body = '($ [e] ? {' + p + ' == 0} | [($' + p + ')($' + o + ')($f {' + p + ' - 1})])'
    if shape == 0:
        t = '($set ' + o + ' (`' + c + '))($set f \\' + p + '.' + body + ')($let ' + q + ' (`' + d + ') ($f ' + str(k) + '))'
    elif shape == 1:
        t = '($set ' + o + ' (`' + c + '))($let f \\' + p + '.' + body + ' ($ \\' + q + '.[($f ' + str(k) + ')] (`' + d + ')))'
    else:
        t = '($set ' + o + ' (`' + c + '))($set f \\' + p + '.' + body + ')($f ' + str(k) + ')($f ' + str(k) + ')'
    want = ''
    for i in range(k, 0, -1):
        want = want + str(i) + c
    want = want + 'e'
    if shape == 2:
        want = want + want
    h.describe(t)
    r = pp(h, t)
    h.observe('ok', r.ok)
    h.check(r.ok, 'the program is accepted')
    h.observe('plain', xplain(r.plain))
    h.check(h.eq(r.plain, want), 'a function sees itself and the names around its definition')
    h.cover('recursion')


WORDS = ['set', 'let', 'import', 'macro', 'emit', 'skip', 'lazy', 'repr', 'reduce', 'isatom', 'add', 'e', 'se', 'impor', '__PASSAGE__', '__FILE__', 'a']


def words(h, i):
    """any name can be defined and used, whatever the beginning of it means"""
    c = h.chars('c', 1, 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-')
    v = h.chars('v', 1, LETTER)
    w = WORDS[i]
    n = w + c + h.choose('tail', ['', 'n'])
    h.assume(n != 'set')
    h.assume(n != 'import')
    t, want = [
        ('($set ' + n + ' ' + v + ')<($' + n + ')>', '<' + v + '>'),
        ('<($let ' + n + ' ' + v + ' [.($' + n + ')])>', '<.' + v + '>'),
        ('<($ \\' + n + '.[.($' + n + ')] ' + v + ')>', '<.' + v + '>'),
        ('($set ' + n + ' \\x.[($x)' + v + '])<($' + n + ' 1)>', '<1' + v + '>'),
        ('($set (' + n + ' y) (' + v + ' 2))<($' + n + ')($y)>', '<' + v + '2>'),
        ('($macro ' + n + ' (x) <($x)' + v + '>)($' + n + ' 1)', '<1' + v + '>'),
        ('($macro m (' + n + ') <($' + n + ')>)($m ' + v + ')', '<' + v + '>'),
        ('($set f \\y.\\' + n + ':1.[<($y)($' + n + ')>])($f \\' + n + ' ' + v + ' 3)', '<3' + v + '>'),
        ('($set f \\' + n + '..\\g.[<($g ' + v + ')>])($f [.($&' + n + ').])', '<.' + v + '.>'),
        ('($set ' + n + ' ' + v + ')<($ \\y.[($y)] ' + n + ')>', '<' + v + '>'),
    ][h.choose('form', 10)]
    h.describe(t)
    r = pp(h, t)
    out_is(h, r, want, 'a name is the whole word')
    h.cover('word')


def unpack(h, n, m, form):
    """a list of names takes the items of a list, all take a value which is no list"""
    names = ['a', 'b', 'c'][:n]
    if m < 0:
        v = h.char('v', LETTER)
        vals = [v] * n
        src = ['%', '(`%)', '[%]', '($ \\x.[($x)] %)'][h.choose('value', 4)].replace('%', v)
    else:
        vs = [h.char('v%d' % i, LETTER) for i in range(m)]
        src = '(' + ' '.join(vs) + ')'
        vals = (vs + [''] * n)[:n]
        if m > 1 and h.flag('spread'):
            src = '(' + vs[0] + ' *(' + ' '.join(vs[1:]) + '))'
        if h.flag('name'):
            src = [src, '']
    pre = ''
    if isinstance(src, list):
        pre, src = '($set l ' + src[0] + ')', 'l'
    body = '<' + '>-<'.join('($' + x + ')' for x in names) + '>'
    lst = '(' + ' '.join(names) + ')'
    t = [pre + '($set ' + lst + ' ' + src + ')' + body,
         pre + '($let ' + lst + ' ' + src + ' [' + body + '])',
         pre + '($set a z)($set b z)($set ' + lst + ' ' + src + ')' + body,
         pre + '($set a z)($let ' + lst + ' ' + src + ' [' + body + '])'][form]
    h.describe(t)
    r = pp(h, t)
    out_is(h, r, '<' + '>-<'.join(vals) + '>', 'every name of a list has its value')
    h.cover('unpack')


KNOWN = [
    (r'($set b A)($set f \a.($ [e] ? {a == 0} | [($b)]))($let b B ($f 1))', 'A'),
    (r'($set b A)($set f \a.($ [e] ? {a == 0} | [($b)]))($ \b.[($f 1)] B)', 'A'),
    (r'($set f \a.($ [e] ? {a == 0} | [($a)($f {a - 1})]))($ \c.[($f c)] 2)', '21e'),
    (r'($set f \a.($ [e] ? {a == 0} | [($a)($f {a - 1})]))($ (2 1) \c.($f c))', '21e1e'),
    (r'($ \x.($let c x ($ [($c)] ? c | [n])) 5)', '5'),
    (r'($set h \l.($ \x.($ \(l).[($a)($x)] 1) 3))($h (a))', '13'),
]


def known(h, i):
    t, want = KNOWN[i]
    h.depth(300)
    h.describe(t)
    r = pp(h, t)
    h.observe('ok', r.ok)
    h.check(r.ok, 'the program is accepted')
    h.check(h.eq(xplain(r.plain), want), 'a free name of a function belongs to the place where it is written')


def TASKS(tier):
    q = tier == 'quick'
    t = []
    for f in range(4):
        t.append(('nest1-%d' % f, 'nest', (1, f, 0)))
        t.append(('nest2-%d' % f, 'nest', (2, f, 0)))
        t.append(('each1-%d' % f, 'nest', (1, f, 1)))
        t.append(('each2-%d' % f, 'nest', (2, f, 1)))
        if not q:
            t.append(('nest3-%d' % f, 'nest', (3, f, 2)))
            t.append(('each3-%d' % f, 'nest', (3, f, 3)))
    for k in range(8):
        t.append(('func%d' % k, 'functions', (k,)))
    for k in range(5):
        t.append(('higher%d' % k, 'higher', (k,)))
    for n in (1, 2):
        for place in range(4 if n == 1 else 1):
            for shape in range(3):
                t.append(('late%d-%d-%d' % (n, place, shape), 'late', (n, place, shape)))
    for s in range(2):
        t.append(('stranger%d' % s, 'stranger', (s,)))
    for s in range(4):
        for o in range(len(OPS)):
            t.append(('infix%d-%d' % (s, o), 'infix', (s, o)))
    for s in range(3):
        for k in range(0, 4 if q else 7):
            t.append(('recursive%d-%d' % (s, k), 'recursive', (s, k)))
    for i in range(len(WORDS)):
        t.append(('word-%s' % WORDS[i], 'words', (i,)))
    for i in range(len(KNOWN)):
        t.append(('cond%d' % i, 'known', (i,)))
    for n in range(1, 4):
        for m in range(-1, 4 if q else 5):
            for form in range(4):
                t.append(('unpack%d_%d-%d' % (n, m + 1, form), 'unpack', (n, m, form)))
    return t

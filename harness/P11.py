# -*- coding: utf-8 -*-
META = {
    'id': 'P11',
    'bounds': 'conditionals with 26 kinds of condition (numbers with a symbolic digit, lists, code, quotes, strings, atoms, expressions, with symbolic characters) in 12 contexts, with and '
              'without an alternative, the other branch failing when evaluated; chains of 1..3 (thorough 4) conditions; loops over lists of 0..3 (4) items of 6 kinds by 0..2 (3) functions of '
              '8 kinds, in 8 contexts, nested loops; subscripts with any index from -99 to 99 into 0..3 (4) items in 9 contexts',
    'covers': ['true', 'false', 'chain', 'no alternative', 'loop', 'nested loop', 'item', 'outside'],
    'budget': {'quick': 150, 'thorough': 800},
    'relational': True,
    'outside': 'conditions and indices that have no value; emissions in conditionals and loops (documented as not applicable); a list item that has no value; an index that is not an integer',
}

LETTER = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
DIGIT = '0123456789'
# characters of code in a branch or a condition: no brackets, no quotes; blanks are trimmed (P05)
INNER = ''.join(c for c in LINE if c not in '()[]$`"\'\\ \t')


def conditions(h, k, INNER):
    """source of the condition, truth"""
    if k == 0:
        d = h.chars('d', 1, DIGIT)
        return d, d != '0'
    if k == 1:
        d = h.chars('d', 2, DIGIT)
        h.assume(d[0] != '0')
        return '-' + d, True
    if k == 2:
        d = h.chars('d', 1, DIGIT)
        return '0.' + d, d != '0'
    if k == 3:
        return '[' + h.chars('d', 1, INNER) + ']', True
    if k == 4:
        return '(`' + h.chars('d', 1, INNER) + ')', True
    if k == 5:
        c = h.chars('d', 1, INNER)
        return '"' + c + '"', True
    if k == 6:
        d = h.chars('d', 1, DIGIT)
        return '($sub ' + d + ' 4)', d != '4'
    if k == 7:
        d = h.chars('d', 1, DIGIT)
        return '{ ' + d + ' > 6 }', d > '6'
    return [('0', False), ('-0', False), ('0x0', False), ('0x10', True), ('()', False), ('(0)', True), ('(())', True), ('[]', False), ('(`)', False), ('""', True), ("''", True), ('zz', True),
            ('{ 1 == 2 }', False), ('{ [] }', False), ('{ \'\' }', False), ('{ [0] }', True), ('($len ())', False), ('($ zz)', True)][k - 8]


CONDS = 26


def cond(h, ctx, k):
    """a conditional takes the consequent unless the condition is zero or empty"""
    c, truth = conditions(h, k, INNER if ctx == 0 else LETTER)
    a, b = h.chars('a', 1, LETTER), h.chars('b', 1, LETTER)
    other = h.choose('other', 3)
    A, B = '[' + a + ']', '[' + b + ']'
    # the branch that is not chosen
    if other == 1:
        if truth:
            B = '{ 1 / 0 }'
        else:
            A = '{ 1 / 0 }'
    want = a if truth else b
    form = A + ' ? ' + c + ' | ' + B
    if other == 2:
        h.cover('no alternative')
        form = A + ' ? ' + c
        want = a if truth else ''
    head = A + ' ?'
    tail = ' | ' + B if other != 2 else ''
    v = head + ' c' + tail
    if ctx == 0:
        t = '($ ' + form + ')'
    elif ctx == 1:
        t = '($set c ' + c + ')($ ' + v + ')'
    elif ctx == 2:
        t = '($ \\c.($ ' + v + ') ' + c + ')'
    elif ctx == 3:
        t = '($ \\c.[($ ' + v + ')] ' + c + ')'
    elif ctx == 4:
        t = '($set if \\cond.\\then:[].\\else:[].($then ? cond | else))'
        if other == 1:
            # the arguments of a function are evaluated
            A, B = '[' + a + ']', '[' + b + ']'
        t += '($if ' + c + ' ' + A + (' ' + B if other != 2 else '') + ')'
    elif ctx == 5:
        if other == 1:
            h.assume(False)
        t = '($ \\x.($ \\c.($ ' + v + ') x) ' + c + ')'
    elif ctx == 6:
        t = '($let c ' + c + ' ($ ' + v + '))'
    elif ctx == 7:
        t = '<($(' + form + ') \\i.($i))>'
        want = '<' + want + '>'
    elif ctx == 8:
        t = '($ \\r:[].[<($r)>] ' + form + ')'
        want = '<' + want + '>'
    elif ctx == 9:
        t = '($set v ' + form + ')<($v)>'
        want = '<' + want + '>'
    elif ctx == 10:
        if other == 1:
            # see KNOWN
            h.assume(False)
        t = '($(' + c + ') \\c.[($ ' + v + ')])'
    else:
        # the condition holds an application of the parameter
        t = '($set g \\y.($y))($ \\c.($ ' + head + ' ($g c)' + tail + ') ' + c + ')'
    h.describe(t)
    r = pp(h, t)
    h.observe('ok', r.ok)
    h.check(r.ok, 'the conditional is accepted')
    h.observe('plain', xplain(r.plain))
    h.check(h.eq(r.plain, want), 'the consequent is taken unless the condition is zero or empty')
    h.cover('true' if truth else 'false')


def chain(h, n, ctx):
    """the first condition that holds"""
    ds = [h.chars('d%d' % i, 1, DIGIT) for i in range(n)]
    vs = [h.chars('v%d' % i, 1, LETTER) for i in range(n + 1)]
    last = h.flag('last')
    want = vs[n] if last else ''
    for i in range(n - 1, -1, -1):
        if ds[i] != '0':
            want = vs[i]
    gap = ['', ' ', '\n\t'][h.choose('gap', 3)]
    s = ''
    for i in range(n):
        s = s + ('[' + vs[i] + ']' + gap + '?' + gap + (ds[i] if ctx == 0 else 'x%d' % i) + ' ')
        if i < n - 1 or last:
            s = s + '|' + gap
    if last:
        s = s + ('[' + vs[n] + ']')
    if ctx == 0:
        t = '<($ ' + s + ')>'
    else:
        ps = ''.join('\\x%d.' % i for i in range(n))
        if ctx == 1:
            t = '<($ ' + ps + '($ ' + s + ') ' + ' '.join(ds) + ')>'
        elif ctx == 2:
            t = '($set f ' + ps + '[($ ' + s + ')])<($f ' + ' '.join(ds) + ')>'
        else:
            # one by one
            f = '($ ' + ps + '[($ ' + s + ')] ' + ds[0] + ')'
            for i in range(1, n):
                f = '($ ' + f + ' ' + ds[i] + ')'
            t = '<' + f + '>'
    h.describe(t)
    r = pp(h, t)
    h.observe('ok', r.ok)
    h.check(r.ok, 'the conditional is accepted')
    h.observe('plain', xplain(r.plain))
    h.check(h.eq(r.plain, '<' + want + '>'), 'a chain takes the first condition that holds')
    h.cover('chain')


# ---------------------------------------------------------------- lists
class Values(object):
    """items of lists: source, value; a value is text, a number or a list"""

    def __init__(self, h, digits='07'):
        self.h, self.n, self.digits = h, 0, digits

    def item(self, kinds):
        self.n += 1
        k = kinds[self.h.choose('i%d' % self.n, len(kinds))] if len(kinds) > 1 else kinds
        if k == 'q':
            c = self.h.chars('c%d' % self.n, 1, LETTER)
            return '(`' + c + ')', c
        if k == 't':
            c = self.h.chars('c%d' % self.n, 1, LETTER)
            return '[' + c + ']', c
        if k == 'n':
            d = self.h.chars('c%d' % self.n, 1, self.digits)
            for i in range(10):
                if d == str(i):
                    return d, i
        if k == 'a':
            c = 'xyz'[self.n % 3] + 'a'
            return c, c
        if k == 's':
            c = self.h.chars('c%d' % self.n, 1, LETTER)
            return "'" + c + "'", "'" + c + "'"
        a, va = self.item('q')
        b, vb = self.item('a')
        return '(' + a + ' ' + b + ')', [va, vb]


def text(v):
    if isinstance(v, list):
        return join(text(x) for x in v)
    if isinstance(v, int):
        return str(v)
    return v


def truth(v):
    return v != 0 if isinstance(v, int) else len(v) > 0


FUNCS = [
    ('\\i.[<($i)>]', lambda v: '<' + text(v) + '>'),
    ('\\i.($i)', lambda v: v),
    ('\\i.(i i)', lambda v: [v, v]),
    ('str', lambda v: text(v)),
    ('\\i.\\w:[!].[($i)($w)]', lambda v: text(v) + '!'),
    ('\\i.($0 i i)', lambda v: v),
    ('islist', lambda v: 1 if isinstance(v, list) else 0),
    ('\\i.($ i ? i | [o])', lambda v: v if truth(v) else 'o'),
]
# only the last function may have no value
LAST = [('\\i.($9 (i))', lambda v: None), ('\\i.($ i ? ($islist i))', lambda v: v if isinstance(v, list) else None)]


def loop(h, n, m, ctx):
    """the functions, one after another, on every item in order"""
    vs = Values(h, DIGIT if n == 1 else '07')
    items = [vs.item('qtnasl' if n == 1 or n == 2 and ctx == 0 else 'qnl' if n < 3 or ctx == 0 else 'nl') for _ in range(n)]
    fs = []
    for i in range(m):
        fl = FUNCS + (LAST if i == m - 1 else [])
        f = h.choose('f%d' % i, len(fl))
        # the text of a list is not specified (str)
        h.assume(f != 3 or not any(isinstance(v, list) for _, v in items) and not any(x is FUNCS[2] for x in fs))
        fs.append(fl[f])
    res = []
    for s, v in items:
        for _, f in fs:
            v = f(v)
        if v is not None:
            res.append(v)
    src = '(' + ' '.join(s for s, _ in items) + ')'
    fsrc = ' '.join(s for s, _ in fs)
    want = text(res)
    if ctx == 0:
        t = '($' + src + ' ' + fsrc + ')'
    elif ctx == 1:
        t = '($set l ' + src + ')($l ' + fsrc + ')($l ' + fsrc + ')'
        want = want + want
    elif ctx == 2:
        t = '($ \\l.($l ' + fsrc + ') ' + src + ')'
    elif ctx == 3:
        t = '($ \\l.[($l ' + fsrc + ')] ' + src + ')'
    elif ctx == 4:
        t = ''.join('($set g%d %s)' % (i, fs[i][0]) for i in range(m)) + '($' + src + ' ' + ' '.join('g%d' % i for i in range(m)) + ')'
    elif ctx == 5:
        t = '($ ' + ''.join('\\g%d.' % i for i in range(m)) + '\\l.($l ' + ' '.join('g%d' % i for i in range(m)) + ') ' + fsrc + ' ' + src + ')'
    elif ctx == 6:
        t = '($len ($' + src + ' ' + fsrc + '))'
        want = str(len(res))
    else:
        # the result is a list
        h.assume(len(res) > 0)
        t = '($-1 ($' + src + ' ' + fsrc + '))'
        want = text(res[-1])
    h.describe(t)
    r = pp(h, t)
    h.observe('ok', r.ok)
    h.check(r.ok, 'the loop is accepted')
    h.observe('plain', xplain(r.plain))
    h.check(h.eq(r.plain, want), 'the functions are applied to every item in order')
    h.cover('loop')


def nested(h, n, m, ctx):
    """a loop in a loop"""
    vs = Values(h)
    one = [vs.item('q') for _ in range(n)]
    two = [vs.item('qn') for _ in range(m)]
    l1 = '(' + ' '.join(s for s, _ in one) + ')'
    l2 = '(' + ' '.join(s for s, _ in two) + ')'
    want = ''
    for _, a in one:
        for _, b in two:
            want = want + (text(a) + text(b) + '.')
    if ctx == 0:
        t = '($' + l1 + ' \\i.($' + l2 + ' \\j.[($i)($j).]))'
    elif ctx == 1:
        t = '($set k ' + l2 + ')($' + l1 + ' \\i.[($k \\j.[($i)($j).])])'
    elif ctx == 2:
        t = '($ \\k.\\l.($l \\i.($k \\j.[($i)($j).])) ' + l2 + ' ' + l1 + ')'
    elif ctx == 3:
        # the inner list is made by the outer loop
        want = ''
        for _, a in one:
            for _, b in two:
                want = want + (text(a) + text(b))
        t = '($' + l1 + ' \\i.(' + ' '.join('(i ' + s + ')' for s, _ in two) + ') \\p.($p \\q.[($0 q)($1 q)]))'
    else:
        # parallel lists
        h.assume(n == m)
        want = ''
        for (_, a), (_, b) in zip(one, two):
            want = want + (text(a) + text(b) + '.')
        t = '($set k ' + l1 + ')($set l ' + l2 + ')($($range ($len k)) \\i.[($i k)($i l).])'
    h.describe(t)
    r = pp(h, t)
    h.observe('ok', r.ok)
    h.check(r.ok, 'the loops are accepted')
    h.observe('plain', xplain(r.plain))
    h.check(h.eq(r.plain, want), 'the inner loop runs for every item of the outer loop')
    h.cover('nested loop')


def subscript(h, n, ctx):
    """the item with this index, from the end for negative ones"""
    vs = Values(h)
    items = [vs.item('ql') for _ in range(n)]
    neg = h.flag('neg')
    d = h.chars('d', h.choose('nd', 2) + 1, DIGIT)
    idx = ('-' if neg else '') + d
    h.assume(len(d) == 1 or d[0] != '0')
    src = '(' + ' '.join(s for s, _ in items) + ')'
    want = ''
    hit = False
    for i in range(n):
        if not neg and d == str(i) or neg and d == str(n - i) or neg and i == 0 and d == '0':
            want = text(items[i][1])
            hit = True
    if ctx == 0:
        t = '($' + idx + ' ' + src + ')'
    elif ctx == 1:
        # as arguments
        h.assume(n > 0 and not (n == 1 and isinstance(items[0][1], list)))
        t = '($' + idx + ' ' + src[1:-1] + ')'
    elif ctx == 2:
        t = '($set l ' + src + ')($' + idx + ' l)'
    elif ctx == 3:
        t = '($set i ' + idx + ')($ \\l.[($i l)] ' + src + ')'
    elif ctx == 4:
        t = '($ \\i.($i ' + src + ') ' + idx + ')'
    elif ctx == 5:
        t = '($ \\i.\\l.[($i l)] ' + idx + ' ' + src + ')'
    elif ctx == 6:
        h.assume(n > 0 and not (n == 1 and isinstance(items[0][1], list)))
        t = '($set l ' + src + ')($' + idx + ' *l)'
    elif ctx == 7:
        h.assume(n > 0)
        t = '($ \\...($' + idx + ' __va_args__) ' + src[1:-1] + ')'
    elif ctx == 8:
        t = '($set l ' + src + ')($(' + idx + ' ' + idx + ') \\i.[($i l).])'
        want = want + '.' + want + '.'
    h.describe(t)
    r = pp(h, t)
    h.observe('ok', r.ok)
    h.check(r.ok, 'the subscript is accepted')
    h.observe('plain', xplain(r.plain))
    h.check(h.eq(r.plain, want), 'the item with this index is selected')
    h.cover('item' if hit else 'outside')


KNOWN = [r'($(0) \c.[($ { 1 / 0 } ? c | [A])])', r'($ \a.\c.($ { 1 / 0 } ? c | [A]) 1 0)']


def known(h, i):
    t = KNOWN[i]
    h.describe(t)
    r = pp(h, t)
    h.observe('ok', r.ok)
    h.check(r.ok, 'only the chosen branch is evaluated')
    h.check(h.eq(xplain(r.plain), 'A'), 'the alternative is taken')


def TASKS(tier):
    q = tier == 'quick'
    t = []
    for i in range(len(KNOWN)):
        t.append(('known%d' % i, 'known', (i,)))
    for c in range(12):
        for k in range(CONDS):
            t.append(('cond%d-%d' % (c, k), 'cond', (c, k)))
    for n in range(1, 4 if q else 5):
        for c in range(4):
            t.append(('chain%d-%d' % (n, c), 'chain', (n, c)))
    for n in range(0, 4 if q else 5):
        for m in range(0, 3 if q or n > 3 else 4):
            for c in range(8):
                if q and n == 3 and m == 2 and c not in (0, 5):
                    continue
                t.append(('loop%d-%d-%d' % (n, m, c), 'loop', (n, m, c)))
    for n in range(0, 3 if q else 4):
        for m in range(0, 3 if q else 4):
            for c in range(5):
                t.append(('nested%d-%d-%d' % (n, m, c), 'nested', (n, m, c)))
    for n in range(0, 4 if q else 5):
        for c in range(9):
            t.append(('sub%d-%d' % (n, c), 'subscript', (n, c)))
    return t

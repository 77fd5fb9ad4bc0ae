# -*- coding: utf-8 -*-
import datetime
import math
import zlib

META = {
    'id': 'P13',
    'bounds': 'every documented function: integers of 1 (thorough 2) digits with sign, floating numbers, texts of 0..3 (4) characters over an alphabet with letters of both cases, blanks, '
              'digits and one letter beyond ASCII, lists of 0..3 (4) items; calls directly, through a variable or a parameter, in an expression, with a spread list; '
              'sequences of 2 (3) calls; wrong numbers and kinds of argument',
    'covers': ['int', 'text', 'list', 'math', 'const', 'name', 'history', 'form', 'refused', 'through'],
    'budget': {'quick': 150, 'thorough': 800},
    'relational': True,
    'outside': 'repr of an expression with parameters (it shows the tree), isatom of a parameter; is_ and is_not (identity is not observable), print, getitem of strings, crc32 beyond 3 characters, floating point values beyond the listed ones; split with an explicit zero '
               '(documentation of Python 2)',
    'assumptions': ['the functions of the modules math and zlib of the interpreter are right'],
}

DIG = '0123456789'
AL = 'aB _0\t\xe9'


def num(h, name, n, signs=('', '-'), al=DIG):
    d = h.chars(name, n, al)
    h.assume(n == 1 or d[0] != '0')
    s = h.choose(name + 's', list(signs))
    v = 0
    for c in d:
        v = v * 10 + int(c)
    return s + d, -v if s == '-' else v


def quoted(s):
    return '(`' + s + ')'


def shown(v):
    """text of a value"""
    if v is True or v is False:
        return '1' if v else '0'
    if isinstance(v, (list, tuple)):
        return join('<' + shown(x) + '>;' for x in v)
    return v if isinstance(v, str) else str(v)


class Refused(Exception):
    pass


def value(f, *args):
    try:
        return f(*args)
    except (ValueError, TypeError, ZeroDivisionError, OverflowError, IndexError, AttributeError):
        return Refused


def run(h, call, want, kind=None, pre='', cover=None):
    """the call yields the value"""
    if kind is None:
        kind = 's' if isinstance(want, str) else 'l' if isinstance(want, (list, tuple)) else 'n'
    if want is Refused:
        t = pre + '<' + call + '>'
        h.describe(t)
        r = pp(h, t)
        h.observe('ok', r.ok)
        h.check(not r.ok, 'unsuitable arguments are refused')
        h.check(len(r.errors()) == 1, 'one error')
        located(h, r.errors()[0], ('File', 't.yu'), t, len(pre) + 1, 'refusal', up=len(t) - 2)
        h.cover('refused')
        return
    if kind == 's':
        t, w = pre + '($add (`<) ($add ' + call + ' (`>)))', '<' + want + '>'
    elif kind == 'l':
        t, w = pre + '($' + call + ' \\x.[<($x)>;])', shown(want)
        if not want:
            t, w = pre + '($len ' + call + ')', '0'
    else:
        t, w = pre + '<' + call + '>', '<' + shown(want) + '>'
    h.describe(t)
    r = pp(h, t)
    h.observe('ok', r.ok)
    h.check(r.ok, 'a call is accepted')
    if not isinstance(want, float) and kind != 'l':
        # the two interpreters differ in the last digit of floating numbers
        h.observe('plain', xplain(r.plain))
    h.check(h.eq(r.plain, w), 'a built-in function returns what the manual says')
    if cover:
        h.cover(cover)


def sub_at(s, t, i):
    return s[i:i + len(t)] == t


def positions(s, t, a=0, b=None):
    b = len(s) if b is None else min(b, len(s))
    return [i for i in range(a, b - len(t) + 1) if sub_at(s, t, i)]


def non_over(s, t):
    if not len(t):
        return len(s) + 1
    n = i = 0
    while i + len(t) <= len(s):
        if sub_at(s, t, i):
            n, i = n + 1, i + len(t)
        else:
            i += 1
    return n


def first(x):
    return x[0] if x else -1


def last(x):
    return x[-1] if x else -1


def replaced(s, a, b, n=-1):
    if not len(a):
        return s.replace(a, b, n)
    o, i = '', 0
    while i < len(s):
        if n != 0 and i + len(a) <= len(s) and sub_at(s, a, i):
            o, i, n = o + b, i + len(a), n - 1
        else:
            o, i = o + s[i], i + 1
    return o


# ---- integers

INT2 = [
    ('add', lambda a, b: a + b), ('sub', lambda a, b: a - b), ('mul', lambda a, b: a * b), ('floordiv', lambda a, b: a // b), ('mod', lambda a, b: a % b),
    ('lt', lambda a, b: a < b), ('le', lambda a, b: a <= b), ('eq', lambda a, b: a == b), ('ne', lambda a, b: a != b), ('ge', lambda a, b: a >= b), ('gt', lambda a, b: a > b),
    ('cmp', lambda a, b: -1 if a < b else 1 if a > b else 0),
]
INT2R = [
    ('div', lambda a, b: a / b), ('and', lambda a, b: a & b), ('or', lambda a, b: a | b), ('xor', lambda a, b: a ^ b), ('lshift', lambda a, b: a << b), ('rshift', lambda a, b: a >> b),
    ('pow', lambda a, b: float(a) ** b if a or b >= 0 else 1 // 0), ('copysign', lambda a, b: math.copysign(a, b)), ('fmod', math.fmod), ('atan2', math.atan2), ('hypot', math.hypot),
    ('ldexp', math.ldexp),
]
INT1 = [
    ('inc', lambda a: a + 1), ('dec', lambda a: a - 1), ('neg', lambda a: -a), ('pos', lambda a: a), ('abs', lambda a: a if a >= 0 else -a), ('not', lambda a: a == 0), ('truth', lambda a: a != 0),
    ('invert', lambda a: -a - 1), ('int_', lambda a: a), ('isatom', lambda a: 0), ('islist', lambda a: 0), ('isdigit', lambda a: a >= 0), ('round', lambda a: a), ('trunc', lambda a: a),
    ('floor', lambda a: a), ('ceil', lambda a: a), ('str', str), ('hex', lambda a: '%s0x%x' % ('-' if a < 0 else '', abs(a))), ('oct', lambda a: '%s0o%o' % ('-' if a < 0 else '', abs(a))),
    ('isinf', lambda a: 0), ('isnan', lambda a: 0),
]
MATH1 = 'acos acosh asin asinh atan atanh cos cosh degrees erf erfc exp expm1 fabs factorial gamma lgamma log log10 log1p radians sin sinh sqrt tan tanh'.split()


def int2(h, i, n, real):
    name, f = (INT2R if real else INT2)[i]
    al = DIG if not real or n == 1 else '019'
    a, x = num(h, 'a', n, al=al)
    b, y = num(h, 'b', n if not real else 1, al=al)
    if real:
        x, y = int(x), int(y)
        for k in range(-9, 10):
            if y == k:
                y = k
        if abs(x) > 99:
            return
    if name in ('floordiv', 'mod', 'div') and y == 0:
        w = Refused
    else:
        w = value(f, x, y)
    run(h, '($' + name + ' ' + a + ' ' + b + ')', w, 'n', cover='int')


def int1(h, i, n):
    name, f = INT1[i]
    a, x = num(h, 'a', n)
    if name in ('hex', 'oct'):
        w = ''
        base = 16 if name == 'hex' else 8
        for k in range(0, 10 ** n):
            if x == k or x == -k:
                w = ('-' if x < 0 else '') + ('0x%x' if base == 16 else '0o%o') % k
    else:
        w = f(x)
    run(h, '($' + name + ' ' + a + ')', w, 'n', cover='int')


def math1(h, i, fl):
    name = MATH1[i]
    d = int(h.choose('d', 10))
    s = h.choose('s', ['', '-'])
    fr = ['', '.5', '.25'][fl]
    x = float(s + str(d) + fr) if fl else int(s + str(d))
    w = value(getattr(math, name), x)
    run(h, '($' + name + ' ' + s + str(d) + fr + ')', w, 'n', cover='math')


def floats(h, k):
    """functions of floating numbers"""
    a, b = h.chars('a', 1, '0129'), h.chars('b', 1, '0459')
    s = h.choose('s', ['', '-'])
    x = float(s + a + '.' + b)
    t = s + a + '.' + b
    neg = s == '-' and x != 0
    whole = int(a)
    name, w = [
        ('floor', lambda: -(whole + (b != '0')) if neg else whole), ('ceil', lambda: -whole if neg else whole + (1 if b != '0' else 0)), ('trunc', lambda: -whole if neg else whole),
        ('int_', lambda: -whole if neg else whole), ('round', lambda: round(x)), ('abs', lambda: float(a + '.' + b)), ('fabs', lambda: float(a + '.' + b)), ('isinf', lambda: 0), ('isnan', lambda: 0),
        ('modf', lambda: list(math.modf(x))), ('str', lambda: str(x)), ('neg', lambda: -x), ('inc', lambda: x + 1), ('truth', lambda: x != 0), ('exp', lambda: math.exp(x)),
        ('sqrt', lambda: value(math.sqrt, x)),
    ][k]
    run(h, '($' + name + ' ' + t + ')', w(), 'l' if name == 'modf' else 'n', cover='math')


# ---- texts

STR1 = [
    ('lower', lambda s: s.lower()), ('upper', lambda s: s.upper()), ('swapcase', lambda s: s.swapcase()), ('strip', lambda s: s.strip()), ('lstrip', lambda s: s.lstrip()),
    ('rstrip', lambda s: s.rstrip()), ('capitalize', lambda s: s.capitalize()), ('capwords', lambda s: ' '.join(x.capitalize() for x in s.split())), ('split', lambda s: s.split()),
    ('len', lambda s: len(s)), ('isdigit', lambda s: len(s) > 0 and all(c in DIG for c in s)), ('reversed', lambda s: join(s[len(s) - 1 - i] for i in range(len(s)))), ('str', lambda s: s),
    ('expandtabs', lambda s: s.expandtabs(8)), ('islist', lambda s: 0), ('isatom', lambda s: 0), ('car', lambda s: s[:1]), ('cdr', lambda s: s[1:]), ('not', lambda s: len(s) == 0),
]


def str1(h, i, n):
    name, f = STR1[i]
    s = h.chars('s', n, AL)
    run(h, '($' + name + ' ' + quoted(s) + ')', f(s), cover='text')


STR2 = [
    ('find', lambda s, t: first(positions(s, t))), ('rfind', lambda s, t: last(positions(s, t))), ('count', non_over), ('index', lambda s, t: first(positions(s, t))),
    ('contains', lambda s, t: len(positions(s, t)) > 0), ('add', lambda s, t: s + t), ('concat', lambda s, t: s + t),
    ('split', lambda s, t: s.split(t) if len(t) else Refused), ('join', lambda s, t: t.join(s)),
    ('eq', lambda s, t: s == t), ('ne', lambda s, t: s != t), ('lt', lambda s, t: s < t), ('gt', lambda s, t: s > t), ('le', lambda s, t: s <= t), ('ge', lambda s, t: s >= t),
    ('cmp', lambda s, t: 0 if s == t else -1 if s < t else 1), ('strip', lambda s, t: s.strip(t)),
]
AL2 = 'aB-'


def str2(h, i, n, m):
    name, f = STR2[i]
    s, t = h.chars('s', n, AL2), h.chars('t', m, AL2)
    if name == 'join':
        run(h, '($join (' + ' '.join(quoted(c) for c in s) + ') ' + quoted(t) + ')', f(s, t), cover='text')
    else:
        run(h, '($' + name + ' ' + quoted(s) + ' ' + quoted(t) + ')', f(s, t), cover='text')


def str_n(h, k, n):
    """texts and numbers"""
    s = h.chars('s', n, 'aB-0')
    d, w = num(h, 'd', 1, [''], '01234567')
    c = 0
    for i in range(8):
        if w == i:
            c = i
    pad = ' ' * max(0, c - n)
    q = quoted(s)
    if k == 0:
        run(h, '($ljust ' + q + ' ' + d + ')', s + pad)
    elif k == 1:
        run(h, '($rjust ' + q + ' ' + d + ')', pad + s)
    elif k == 2:
        l = (c - n) // 2 + (c - n & c & 1) if c > n else 0
        run(h, '($center ' + q + ' ' + d + ')', pad[:l] + s + pad[l:])
    elif k == 3:
        z = '0' * len(pad)
        run(h, '($zfill ' + q + ' ' + d + ')', s[0] + z + s[1:] if n and s[0] == '-' else z + s)
    elif k == 4:
        run(h, '($repeat ' + q + ' ' + d + ')', join([s] * c))
    elif k == 5:
        run(h, '($replace ' + q + ' (`a) (`xy) ' + d + ')', replaced(s, 'a', 'xy', c))
    elif k == 6:
        a, b = h.chars('a', h.choose('na', 3), 'aB'), h.chars('b', h.choose('nb', 2), 'B0')
        h.assume(len(a) > 0)
        run(h, '($replace ' + q + ' ' + quoted(a) + ' ' + quoted(b) + ')', replaced(s, a, b))
    elif k == 7:
        h.assume(c > 0)
        o, rest, m = [], s, c
        while m and rest.find('-') >= 0:
            p = rest.find('-')
            o.append(rest[:p])
            rest, m = rest[p + 1:], m - 1
        run(h, '($split ' + q + ' (`-) ' + d + ')', o + [rest])
    elif k == 8:
        run(h, '($find ' + q + ' (`a) ' + d + ')', first(positions(s, 'a', c)))
    elif k == 9:
        run(h, '($count ' + q + ' (`a) ' + d + ')', len(positions(s, 'a', c)))
    elif k == 10:
        o = ''
        for x in s:
            o = o + (' ' * (c - len(o) % c) if c and x == '-' else '' if x == '-' else x)
        run(h, '($expandtabs ' + quoted(s.replace('-', '\t')) + ' ' + d + ')', o)
    elif k == 11:
        dl = h.choose('dl', ['', 'B', '0a'])
        run(h, '($translate ' + q + ' ($maketrans (`aB) (`0a))' + (' ' + quoted(dl) if dl else '') + ')', join({'a': '0', 'B': 'a'}.get(str(x), x) if x in 'aB' and False else '0' if x == 'a' else 'a' if x == 'B' else x for x in s if x not in dl))
    elif k == 12:
        run(h, '($mod ' + quoted('%s:' + s) + ' ' + d + ')', str(c) + ':' + s)
    elif k == 13:
        run(h, '($zfill ' + d + ' ' + str(n + 2) + ')', '0' * (n + 1) + d)
    elif k == 14:
        run(h, '($getslice ' + q + ' ' + d + ')', s[c:])
    elif k == 15:
        run(h, '($re-split (`-) ' + q + ')', [x for x in s.split('-') if len(x)])
    elif k == 16:
        w = zlib.crc32(concrete(s, 'aB-0').encode('utf8')) & 0xffffffff
        run(h, '($crc32 ' + q + ')', w)
    h.cover('text')


def concrete(s, al):
    o = ''
    for c in s:
        for x in al:
            if c == x:
                o += x
    return o


def conv(h, k, n):
    """conversion of texts"""
    base = [10, 16, 2, 8][k % 4]
    al = ['0123456789', '09aFg', '012', '0178'][k % 4]
    s = h.chars('s', n, al)
    v = 0
    bad = n == 0
    for c in s:
        x = '0123456789abcdef'.find(c.lower())
        if x < 0 or x >= base:
            bad = True
            x = 0
        v = v * base + x
    if k >= 4:
        # sign
        sg = h.choose('sg', ['-', '+', ' '])
        if sg == '-':
            v = -v
        s = sg + s
    name = h.choose('f', ['atoi', 'atol', 'int_'])
    b = '' if base == 10 and h.flag('plain') else ' ' + str(base)
    run(h, '($' + name + ' ' + quoted(s) + b + ')', Refused if bad else v, 'n', cover='text')


def codes(h, k):
    if k == 0:
        d = h.chars('d', 2, DIG)
        h.assume(d >= '33')
        h.assume(d != '40')
        v = int(d)
        c = ''
        for i in range(33, 100):
            if v == i:
                c = chr(i)
        run(h, '($chr ' + d + ')', c, 's', cover='int')
    elif k == 1:
        c = h.chars('c', 1, ''.join(chr(i) for i in range(32, 127) if chr(i) not in '()`') + '\xe9\t')
        run(h, '($ord ' + quoted(c) + ')', ord(c), 'n', cover='text')
    elif k == 2:
        d = h.chars('d', 1, DIG)
        run(h, '($ord ' + d + ')', 48 + int(d), 'n', cover='int')
    else:
        a, b = h.chars('a', 1, '0129'), h.chars('b', 1, '0459')
        g = h.choose('g', ['', ' ', '-'])
        run(h, '($atof ' + quoted(g + a + '.' + b) + ')', float(g + a + '.' + b), 'n', cover='text')


# ---- lists

ABC = 'abc'


def items(h, name, n, al=ABC):
    v = [h.chars('%s%d' % (name, i), 1, al) for i in range(n)]
    return v, '(' + ' '.join(quoted(x) for x in v) + ')'


def eqs(l, x):
    return [i for i in range(len(l)) if l[i] == x]


def lists(h, k, n):
    v, t = items(h, 'v', n)
    x = h.chars('x', 1, ABC)
    q = quoted(x)
    h.cover('list')
    if k == 0:
        return run(h, '($len ' + t + ')', n)
    if k == 1:
        return run(h, '($car ' + t + ')', v[:1])
    if k == 2:
        return run(h, '($cdr ' + t + ')', v[1:])
    if k == 3:
        return run(h, '($reversed ' + t + ')', [v[n - 1 - i] for i in range(n)])
    if k == 4:
        return run(h, '($index ' + t + ' ' + q + ')', first(eqs(v, x)))
    if k == 5:
        return run(h, '($rindex ' + t + ' ' + q + ')', last(eqs(v, x)))
    if k == 6:
        return run(h, '($contains ' + t + ' ' + q + ')', len(eqs(v, x)) > 0)
    if k == 7:
        o = []
        for y in v:
            if not eqs(o, y):
                o.append(y)
        return run(h, '($unique ' + t + ')', o)
    if k == 8:
        w, u = items(h, 'w', 2)
        return run(h, '($' + h.choose('f', ['concat', 'add']) + ' ' + t + ' ' + u + ')', v + w)
    if k == 9:
        c = h.choose('c', 4)
        return run(h, '($' + h.choose('f', ['repeat', 'mul']) + ' ' + t + ' ' + str(c) + ')', v * c)
    if k == 10:
        return run(h, '($list ' + q + ' ' + ' '.join(quoted(y) for y in v) + ')', [x] + v)
    if k == 11:
        return run(h, '($join ' + t + ')', ' '.join(v))
    if k == 12:
        c = h.choose('c', n + 1)
        return run(h, '($getitem ' + t + ' ' + str(c) + ')', v[c] if c < n else Refused)
    if k == 13:
        f = h.choose('f', 4)
        return run(h, '($' + ['islist', 'isatom', 'truth', 'not'][f] + ' ' + t + ')', [1, 0, n > 0, n == 0][f])
    if k == 14:
        return run(h, '($count ' + t + ' ' + q + ')', len(eqs(v, x)))
    if k == 15:
        w, u = items(h, 'w', n)
        same = True
        for a, b in zip(v, w):
            same = same and a == b
        f = h.choose('f', ['eq', 'ne', 'cmp'])
        if f == 'cmp':
            o = 0
            for a, b in zip(v, w):
                if not o and a != b:
                    o = -1 if a < b else 1
            return run(h, '($cmp ' + t + ' ' + u + ')', o)
        return run(h, '($' + f + ' ' + t + ' ' + u + ')', same if f == 'eq' else not same)
    # slices
    args = [h.choose('s%d' % i, ['(`)', '0', '1', '2', '-1', '-2', '7'] if i < 2 else ['(`)', '1', '2', '-1']) for i in range(k - 15)]
    vals = [None if a == '(`)' else int(a) for a in args]
    return run(h, '($getslice ' + t + ' ' + ' '.join(args) + ')', v[slice(*vals)] if len(vals) > 1 else v[vals[0]:])


def numbers(h, k, n):
    """lists of numbers"""
    ts, vs = [], []
    for i in range(n):
        t, x = num(h, 'v%d' % i, 1)
        ts.append(t)
        vs.append(x)
    t = '(' + ' '.join(ts) + ')'
    tot, prod, sub = 0, 1, vs[0] if vs else 0
    for i, x in enumerate(vs):
        tot, prod = tot + x, prod * x
        if i:
            sub = sub - x
    h.cover('list')
    if k == 0:
        return run(h, '($sum ' + t + ')', tot)
    if k == 1:
        return run(h, '($sum ' + t + ' 5)', tot + 5)
    if k == 2:
        return run(h, '($reduce add ' + t + ')', tot if n else Refused)
    if k == 3:
        return run(h, '($reduce sub ' + t + ')', sub if n else Refused)
    if k == 4:
        return run(h, '($reduce sub ' + t + ' 50)', 50 - tot)
    if k == 5:
        m = None
        for x in vs:
            m = x if m is None or x > m else m
        return run(h, '($unique ' + t + ')', [x for i, x in enumerate(vs) if not [y for y in vs[:i] if y == x]])
    if k == 6:
        return run(h, '($fsum ' + t + ')', float(tot))
    if k == 7:
        x = h.choose('x', 10)
        return run(h, '($index ' + t + ' ' + str(x) + ')', first(eqs(vs, x)))
    return run(h, '($reversed ' + t + ')', [vs[n - 1 - i] for i in range(n)])


def ranges(h, n):
    a = [h.choose('r%d' % i, [-2, -1, 0, 1, 3]) for i in range(n)]
    if n == 3 and a[2] == 0:
        w = Refused
    else:
        w, (x, e, s) = [], (0, a[0], 1) if n == 1 else (a[0], a[1], a[2] if n == 3 else 1)
        while x < e if s > 0 else x > e:
            w.append(x)
            x += s
    run(h, '($range ' + ' '.join(str(x) for x in a) + ')', w, cover='list')


# ---- constants and names

CONST = [
    ('digits', '0123456789'), ('hexdigits', '0123456789abcdefABCDEF'), ('octdigits', '01234567'), ('ascii_letters', 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'),
    ('ascii_lowercase', 'abcdefghijklmnopqrstuvwxyz'), ('ascii_uppercase', 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'), ('pi', math.pi), ('e', math.e), ('int_', 0),
]


def consts(h):
    k = h.choose('k', len(CONST) + 2)
    if k < len(CONST):
        run(h, '($' + CONST[k][0] + ')', CONST[k][1], cover='const')
    elif k == len(CONST):
        run(h, '($len ($whitespace))', 6, cover='const')
    else:
        c = h.chars('c', 1, ' \t\n\r\x0b\x0c')
        # any white space
        n = ord(c)
        code = 0
        for x in ' \t\n\r\x0b\x0c':
            if c == x:
                code = ord(x)
        run(h, '($contains ($whitespace) ($chr ' + str(code) + '))', 1, cover='const')


def names(h, n, k, py):
    """names of the file"""
    s = h.chars('n', n, 'aZ-_.0 ')
    h.assume(s.strip('.') == s if n else True)
    h.assume(n > 0)
    name = h.choose('dir', ['', 'd/', '/x/y.z/']) + s + h.choose('ext', ['.yu', '.yu-c', '', '.tar.yu'])
    base = name[name.rfind('/') + 1:]
    out = 'o/' + s + ('.py' if py else '.c')
    p = base.rfind('.')
    mod = (base[:p] if p > 0 else base).replace('-', '_').upper()
    t, w = [('($__FILE__)', '"' + base + '"'), ('($__OUTPUT_FILE__)', '"' + out[2:] + '"'), ('($add (`<) ($add ($__MODULE_NAME__) (`>)))', '<' + mod + '>'), ('($__TITLE__ 0)', None)][k]
    h.describe(t + ' in ' + name)
    r = pp(h, t, name, out)
    h.observe('ok', r.ok)
    h.check(r.ok, 'accepted')
    h.observe('plain', r.plain)
    if w is None:
        p = xplain(r.plain)
        ls = p.split('\n')
        h.check((ls[0][:3] == '#  ' and ls[1][:3] == '#  ' and len(ls) == 2) if py else (p[:2] == '/*' and ls[-1].strip() == '*/' and len(ls) == 3), 'the title is a comment')
        h.check(out[2:] in ls[0] and base in ls[1], 'the title names both files')
        h.check(' at ' not in ls[1], 'no time')
    else:
        h.check(h.eq(r.plain, w), 'the name')
    h.cover('name')


# ---- sequences of calls

POOL = [
    ('($unique (%s %s %s))', lambda a, b, c: a + (b if b != a else '') + (c if c != a and c != b else '')),
    ('($car (%s %s %s))', lambda a, b, c: a),
    ('($join (%s %s %s))', lambda a, b, c: a + ' ' + b + ' ' + c),
    ('($reversed (%s %s %s))', lambda a, b, c: c + b + a),
    ('($upper ($add %s ($add %s %s)))', lambda a, b, c: (a + b + c).upper()),
    ('($index (%s %s) %s)', lambda a, b, c: '0' if a == c else '1' if b == c else '-1'),
    ('($reduce concat (%s %s %s))', lambda a, b, c: a + b + c),
    ('($translate %s ($maketrans %s %s))', lambda a, b, c: c if a == b else a),
    ('($getslice (%s %s %s) 1)', lambda a, b, c: b + c),
    ('($repeat ($list %s %s %s) 2)', lambda a, b, c: a + b + c + a + b + c),
    ('($lazy %s)($lazy %s)($repr %s)', lambda a, b, c: a + b + "ATOM('" + c + "')"),
    ('($list %s *(%s %s))', lambda a, b, c: a + b + c),
]


def history(h, m, lo, hi):
    t, w = '', ''
    for i in range(m):
        f = POOL[h.choose('f%d' % i, len(POOL)) if i else lo + h.choose('f0', hi - lo)]
        a = [h.chars('c%d%d' % (i, j), 1, 'ab' if i else ABC) for j in range(3)]
        t = t + f[0].replace('%s', '\0').split('\0')[0] + join(x + y for x, y in zip(a, f[0].split('%s')[1:])) + ';'
        w = w + f[1](*a) + ';'
    h.describe(t)
    r = pp(h, t)
    out_is(h, r, w, 'every call has its own value')
    # and the same again in another run
    h.check(h.eq(pp(h, t).plain, w), 'equal calls give equal results')
    h.cover('history')


# ---- forms of call

def forms(h, k):
    a, x = num(h, 'a', 1)
    b, y = num(h, 'b', 1)
    w = x - y
    call = [
        '($sub ' + a + ' ' + b + ')', '($ \\f.($f ' + a + ' ' + b + ') sub)', '($let f sub ($f ' + a + ' ' + b + '))', '($set f sub)($f ' + a + ' ' + b + ')',
        '($sub *(' + a + ' ' + b + '))', '($set x ' + a + ')($set y ' + b + ')(${} sub(x, y))', '($ \\x.\\y.($sub x y) ' + a + ' ' + b + ')', '($ \\x.\\y.($sub y x) ' + b + ' ' + a + ')',
        '($set l (' + a + ' ' + b + '))($sub *l)', '($sub ' + a + ' ($pos ' + b + '))', '($macro m () sub)($sub ' + a + ' ' + b + ')', '($ ($ \\n.($sub n) ' + a + ') ' + b + ')',
        '($sub\n ' + a + '\n ' + b + ' )', '($set sub)($add ' + a + ' ($neg ' + b + '))', '($dec ($sub ' + a + ' ($dec ' + b + ')))', '($ ($car (sub add)) ' + a + ' ' + b + ')',
        '($0 (sub add) )',
    ][k]
    if k in (11, 13, 15, 16):
        # a partial application, a redefinition, a list and a name alone are no calls of it
        return
    run(h, call, w, 'n', cover='form')


def shadow(h):
    """a definition hides a built-in function"""
    k = h.choose('k', 5)
    f, a = h.choose('f', ['len', 'add', 'upper', 'pi', 'car']), h.chars('a', 1, ABC)
    t, w = [
        ('($set ' + f + ' ' + a + ')<($' + f + ')>', '<' + a + '>'), ('($ \\' + f + '.[<($' + f + ')>] ' + a + ')', '<' + a + '>'), ('($let ' + f + ' ' + a + ' [<($' + f + ')>])', '<' + a + '>'),
        ('($macro ' + f + ' () ' + a + ')<($' + f + ')>', '<' + a + '>'), ('($set ' + f + ' \\x.[' + a + '($x)])<($' + f + ' 1)>', '<' + a + '1>'),
    ][k]
    h.describe(t)
    out_is(h, pp(h, t), w, 'a definition hides a built-in function')
    h.cover('form')


# ---- arguments that are known only when a function is applied

ALLF = ('abs add and atan2 atof atoi capitalize capwords car cdr ceil center chr cmp comb concat contains copysign count countOf crc32 dec degrees div eq expandtabs fabs find floor floordiv fmod '
        'ge getitem getslice gt hex hypot inc index indexOf int_ inv isdigit isfinite islist join lazy le len list ljust log lower lshift lstrip lt maketrans mod mul ne neg not oct or '
        'ord pos pow print-x q qs range re-split reduce repeat replace reversed rfind rindex rjust round rshift rsplit rstrip split sqrt str strip strlen sub sum swapcase translate trunc '
        'truth typeof unique unq upper xor zfill').split()
ALLF.remove('print-x')


def through(h, i, ar):
    """a call yields the same with its arguments written out and with parameters in their place"""
    f = ALLF[i]
    d, c = h.chars('d', 1, '123456789'), h.chars('c', 1, 'aBc')
    args = []
    for k in range(ar):
        args.append(h.choose('a%d' % k, [d, '(`' + c + '.)', '(3 ' + d + ')', '((`' + c + ') (`b))', 'add', '()', '-2'][:7 if ar < 3 else 4]))
    alone = pp(h, '($' + f + ' ' + ' '.join(args) + ')')
    h.observe('direct', alone.ok)
    h.assume(alone.ok)
    ps = ['p', 'p1', 'p2'][:ar]
    form = h.choose('form', 4)
    if form == 3:
        # the last one is written out
        h.assume(ar > 1)
        ps[-1] = args[-1]
    head = ''.join(['\\' + x + '.' for x in ps[:ar - (form == 3)]])
    call = '($' + f + ' ' + ' '.join(ps) + ')'
    use = ' '.join(args[:ar - (form == 3)])
    t = ['($set ff ' + head + call + ')($ff ' + use + ')', '($ ' + head + call + ' ' + use + ')', '($macro mm (' + ' '.join(ps) + ') ($' + f + ' ' + ' '.join(['($' + x + ')' for x in ps]) + '))($mm ' + use + ')',
         '($set ff ' + head + call + ')($ff ' + use + ')'][form]
    if form == 2 and [x for x in args if x[:1] == '(' or x == 'add']:
        # arguments of macros are texts and functions have no text
        return
    h.describe(t)
    r = pp(h, t)
    h.observe('ok', r.ok)
    h.check(r.ok, 'a call with parameters is accepted')
    h.check(h.eq(r.plain, alone.plain), 'a call with parameters yields the same')
    h.cover('through')


# ---- unsuitable arguments

BAD = []
for _n in 'inc dec neg pos abs invert hex oct chr sqrt sin floor lower upper swapcase capitalize len car cdr reversed unique sum ord isdigit islist str modf factorial unq q qs strlen isatom'.split():
    BAD.append(('($' + _n + ' %s %s %s)'))
    BAD.append(('($' + _n + ')'))
for _n in 'add sub mul div floordiv mod and or xor lshift rshift lt le eq ne ge gt cmp concat contains repeat getitem pow atan2 index rindex'.split():
    BAD.append('($' + _n + ' %s)')
    BAD.append('($' + _n + ' %s %s %s)')
for _n in 'lower upper swapcase strip lstrip rstrip split join count find rfind ljust expandtabs capitalize replace capwords len car cdr reversed unique sum crc32 translate atoi-x'.split():
    if _n == 'atoi-x':
        BAD.append('($atoi (`x%s))')
    else:
        BAD.append('($' + _n + ' %s)')
for _n in 'inc dec neg invert hex oct chr sqrt sin floor round abs factorial'.split():
    BAD.append('($' + _n + ' (`x%s))')
    BAD.append('($' + _n + ' ((`x%s)))')
BAD += ['($sub (`a) %s)', '($div %s 0)', '($mod %s 0)', '($floordiv %s 0)', '($and (`a) %s)', '($lt (`a) %s)', '($cmp (`a) %s)', '($getitem (1) %s9)', '($range (`a) %s)', '($range 1 2 3 %s)',
        '($pi %s)', '($digits %s)', '($reduce %s (1 2))', '($reduce add)', '($lazy %s %s)', '($repr %s %s)', '($isatom)', '($__PASSAGE__ %s)', '($__PASSAGE__)', '($contains %s 1)', '($concat %s 1)',
        '($sum ((`a) %s))', '($join (1 %s))', '($getslice %s 1)', '($re-split (`*) %s)', '($re-split %s)', '($maketrans (`ab) (`%s))', '($len \\p %s)', '($add \\a %s 1)', '($index %s 1)',
        '($zfill (`a) (`%s))', '($ljust (`a) (`%s))', '($find (`a) %s)', '($log -%s)', '($acos 9%s)', '($ldexp 1 2.%s)', '($SPACE %s)', '($__FILE__ %s)', '($upper (%s))', '($neg (%s))']
OKBAD = ('($str)', '($ord %s)', '($sum)')


def misuse(h, lo, hi):
    k = lo + h.choose('k', hi - lo)
    f = BAD[k]
    d = h.chars('d', 1, '123456789')
    h.assume(f not in OKBAD)
    call = join(x + (d if i < f.count('%s') else '') for i, x in enumerate(f.split('%s')))
    pre = h.choose('pre', ['', 'text\n  ', '($set z 1)\n'])
    t = pre + '<' + call + '>'
    h.describe(t)
    r = pp(h, t)
    h.observe('ok', r.ok)
    h.check(not r.ok, 'unsuitable arguments are refused')
    h.check(len(r.errors()) == 1, 'one error')
    located(h, r.errors()[0], ('File', 't.yu'), t, len(pre) + 1, 'refusal', up=len(t) - 2)
    h.cover('refused')


def TASKS(tier):
    q = tier == 'quick'
    t = []
    for i in range(len(INT2)):
        for n in ((1,) if q else (1, 2)):
            t.append(('int2-%s%d' % (INT2[i][0], n), 'int2', (i, n, False)))
    for i in range(len(INT2R)):
        t.append(('int2r-%s' % INT2R[i][0], 'int2', (i, 1, True)))
    for i in range(len(INT1)):
        t.append(('int1-%s' % INT1[i][0], 'int1', (i, 1 if q else 2)))
    for i in range(len(MATH1)):
        for fl in ((0, 1) if q else (0, 1, 2)):
            t.append(('math-%s%d' % (MATH1[i], fl), 'math1', (i, fl)))
    for k in range(16):
        t.append(('float%d' % k, 'floats', (k,)))
    for i in range(len(STR1)):
        for n in range(0, 3 if q else 5):
            t.append(('str1-%s%d' % (STR1[i][0], n), 'str1', (i, n)))
    for i in range(len(STR2)):
        for n, m in (((0, 1), (2, 1), (3, 1), (2, 2), (1, 0)) if q else ((0, 1), (2, 1), (3, 1), (3, 2), (4, 2), (2, 2), (2, 0))):
            t.append(('str2-%s%d%d' % (STR2[i][0], n, m), 'str2', (i, n, m)))
    for k in range(17):
        for n in ((0, 2) if q else (0, 1, 2, 3)):
            t.append(('strn%d-%d' % (k, n), 'str_n', (k, n)))
    for k in range(8):
        for n in ((0, 2) if q else (0, 1, 2, 3)):
            t.append(('conv%d-%d' % (k, n), 'conv', (k, n)))
    for k in range(4):
        t.append(('code%d' % k, 'codes', (k,)))
    for k in range(19):
        for n in ((0, 2, 3) if q else (0, 1, 2, 3, 4)):
            t.append(('list%d-%d' % (k, n), 'lists', (k, n)))
    for k in range(9):
        for n in ((0, 2) if q else (0, 1, 2, 3)):
            t.append(('numbers%d-%d' % (k, n), 'numbers', (k, n)))
    for n in (1, 2, 3):
        t.append(('range%d' % n, 'ranges', (n,)))
    for i in range(len(ALLF)):
        for ar in (1, 2, 3):
            t.append(('through-%s-%d' % (ALLF[i], ar), 'through', (i, ar)))
    t.append(('consts', 'consts', ()))
    for k in range(4):
        for py in ((0, 1) if k == 3 else (0,)):
            t.append(('name%d-%d' % (k, py), 'names', (2 if q else 3, k, py)))
    for i in range(0, len(POOL), 2):
        t.append(('history%d' % i, 'history', (2 if q else 3, i, i + 2)))
    for k in range(17):
        t.append(('form%d' % k, 'forms', (k,)))
    t.append(('shadow', 'shadow', ()))
    for i in range(0, len(BAD), 20):
        t.append(('misuse%d' % i, 'misuse', (i, min(i + 20, len(BAD)))))
    return t

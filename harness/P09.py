# -*- coding: utf-8 -*-
META = {
    'id': 'P09',
    'bounds': 'functions with 0..3 (thorough 4) parameters, each with or without a default, with or without a variable argument list; 0..3 (4) arguments, each plain, named (any parameter or '
              'an unknown name) or a spread list of 0..2 items, in any order; applied at once, in two steps, as an anonymous function, inside another function (values and spread lists known '
              'only when that is applied), through double commas, as a macro; the names of the parameters in a list of 1..3 names in any order; defaults of 8 forms that name something bound where the function is defined and bound otherwise where it is applied (3 places of definition, 9 of application); every accepted character as the value of an argument',
    'covers': ['listed', 'complete', 'function', 'unknown name', 'default', 'variable arguments', 'spread', 'in two steps'],
    'budget': {'quick': 150, 'thorough': 800},
    'outside': 'an argument that has no value (it is left out of the list of arguments); more arguments than the function takes (the result is applied to them) and a parameter named twice; a variable argument list that is not the last parameter (documented as experimental)',
}

NAMES = ['p', 'q1', 'r', 't']
# the text of a list of blanks is trimmed (P05)
VAL = ''.join(c for c in LINE if c not in '() \t')


LETTERS = 'abcdefghijklmnopqrstuvwxyz'


class Unknown(Exception):
    pass


class Fn(object):
    """parameters in order; values by name"""

    def __init__(self, names, defaults, va):
        self.names = names + (['...'] if va else [])
        self.defaults = defaults
        self.val = {}

    def apply(self, h, args, named):
        """the documented rule; True if the function runs"""
        for n, v in named:
            # a parameter named twice, and more arguments than an ordinary function takes: not specified
            h.assume(n not in self.val)
            if n not in self.names or n == '...':
                h.assume(any(x not in self.val for x in self.names))
                raise Unknown()
            self.val[n] = v
        pos = list(args)
        for n in self.names:
            if n in self.val:
                continue
            if not pos:
                break
            if n == '...':
                self.val[n] = join(pos)
                h.cover('variable arguments')
                pos = []
            else:
                self.val[n] = pos.pop(0)
        h.assume(not pos)
        for n in self.names:
            if n in self.val:
                continue
            if n not in self.defaults:
                h.cover('function')
                return False
            h.cover('default')
            self.val[n] = self.defaults[n]
        return True


class Values(object):
    def __init__(self, h, sym, size):
        self.h, self.n, self.sym = h, 0, sym
        # every character where there are few arguments, letters (no case distinction in the code) beyond
        self.al = VAL if size < 3 else LETTERS

    def new(self):
        self.n += 1
        if self.n == self.sym:
            return self.h.chars('v%d' % self.n, 1, self.al)
        return 'ABCDEFGHIJKLMNOP'[self.n]


def arguments(h, tag, k, m, vals, names, wrap, lists=True):
    """source of m arguments, positional values, named values; in `wrap`, the values are the parameters of an outer function"""
    src, pos, named = [], [], []

    def value():
        v = vals.new()
        if wrap is None:
            return v, '(`' + v + ')'
        x = 'x%d' % len(wrap)
        wrap.append((x, '(`' + v + ')'))
        return v, x
    for i in range(m):
        kind = h.choose('%s%d' % (tag, i), 1 + k + (4 if lists else 1))
        if kind == 0:
            v, s = value()
            src.append(s)
            pos.append(v)
        elif kind <= k:
            v, s = value()
            src.append('\\' + names[kind - 1] + ' ' + s)
            named.append((names[kind - 1], v))
        elif kind == k + 1:
            v, s = value()
            src.append('\\nn ' + s)
            named.append(('nn', v))
        else:
            n = kind - k - 2
            h.cover('spread')
            ss = []
            vv = []
            for _ in range(n):
                v, s = value() if wrap is None else (vals.new(), None)
                vv.append(v)
                ss.append(s if wrap is None else '(`' + v + ')')
            pos.extend(vv)
            if wrap is None:
                src.append('*(' + ' '.join(ss) + ')')
            else:
                x = 'x%d' % len(wrap)
                wrap.append((x, '(' + ' '.join(ss) + ')'))
                src.append('*' + x)
    return src, pos, named


def function(h, k, va, vals):
    names = NAMES[:k]
    defaults = {}
    par = []
    for n in names:
        if h.flag('d' + n):
            v = vals.new()
            defaults[n] = v
            par.append('\\' + n + ':(`' + v + ').')
        else:
            par.append('\\' + n + '.')
    if va:
        par.append('\\...')
    body = '[<' + ';'.join('($' + n + ')' for n in names) + ('|($__va_args__)' if va else '') + '>]'
    return Fn(names, defaults, va), ''.join(par) + body


def want(f):
    s = '<' + join([(';' if i else '') + f.val[n] for i, n in enumerate(x for x in f.names if x != '...')])
    return s + ('|' + f.val['...'] if '...' in f.names else '') + '>'


def finish(h, t, f, runs, cfg):
    h.describe(t)
    r = pp(h, t, **cfg)
    h.observe('ok', r.ok)
    if not runs:
        h.check(not r.ok, 'an application that does not complete the function has no text')
        h.cover('unknown name' if runs is None else 'function')
        return
    h.check(r.ok, 'the application is accepted')
    h.observe('plain', xplain(r.plain))
    h.check(h.eq(r.plain, 'z' + want(f) + 'z'), 'every argument reaches its parameter')
    h.cover('complete')


CFG = [{}, {'pp_browse': True}]


def direct(h, k, va, m, sym, form):
    vals = Values(h, sym, k + m)
    f, lam = function(h, k, va, vals)
    if not k and not va:
        h.assume(False)
    src, pos, named = arguments(h, 'a', k, m, vals, NAMES, None)
    try:
        runs = f.apply(h, pos, named)
    except Unknown:
        runs = None
    if form == 0:
        t = '($set f ' + lam + ')z($f ' + ' '.join(src) + ')z'
    elif form == 1:
        t = 'z($ ' + lam + '\n ' + '\n'.join(src) + ' )z'
    elif form == 2:
        t = '($set f ' + lam + ')($set g f)z($g ' + ' '.join(src) + '\\g)z'
    elif form == 3:
        t = 'z($let f ' + lam + ' ($f ' + ' '.join(src) + '))z'
    else:
        # through the parameter of another function
        t = '($set f ' + lam + ')z($ \\h.($h ' + ' '.join(src) + ') f)z'
    finish(h, t, f, runs, CFG[form % 2])


def steps(h, k, va, m1, m2, sym, form):
    """the first application supplies some, the second the rest"""
    vals = Values(h, sym, k + m1 + m2)
    f, lam = function(h, k, va, vals)
    s1, p1, n1 = arguments(h, 'a', k, m1, vals, NAMES, None, lists=m1 + m2 < 3)
    s2, p2, n2 = arguments(h, 'b', k, m2, vals, NAMES, None, lists=m1 + m2 < 3)
    try:
        runs = f.apply(h, p1, n1)
    except Unknown:
        h.assume(False)
    h.assume(not runs)
    try:
        runs = f.apply(h, p2, n2)
    except Unknown:
        runs = None
    h.cover('in two steps')
    if form == 0:
        t = '($set f ' + lam + ')z($ ($f ' + ' '.join(s1) + ') ' + ' '.join(s2) + ')z'
    elif form == 1:
        t = '($set f ' + lam + ')($set g ($f ' + ' '.join(s1) + '))z($g ' + ' '.join(s2) + ')z'
    else:
        # applied twice: the first application leaves the function as it was
        t = '($set f ' + lam + ')($set g ($f ' + ' '.join(s1) + '))($let u ($g ' + ' '.join(s2) + ') [])z($g ' + ' '.join(s2) + ')z'
    finish(h, t, f, runs, CFG[0])


def inside(h, k, va, m, sym, defined):
    """the values are parameters of an enclosing function"""
    vals = Values(h, sym, k + m)
    f, lam = function(h, k, va, vals)
    if not k and not va:
        h.assume(False)
    wrap = []
    src, pos, named = arguments(h, 'a', k, m, vals, NAMES, wrap)
    try:
        runs = f.apply(h, pos, named)
    except Unknown:
        runs = None
    if va and '...' not in f.val:
        # whether an empty list is a variable argument list is not specified
        h.assume(not any(v == '()' for _, v in wrap))
    if not wrap:
        wrap.append(('x0', '1'))
    w = ''.join('\\' + x + '.' for x, _ in wrap)
    app = '($' + ('f ' if defined else lam + ' ') + ' '.join(src) + ')'
    t = ('($set f ' + lam + ')' if defined else '') + 'z($ ' + w + ('[' + app + ']' if h.flag('code') else app) + ' ' + ' '.join(v for _, v in wrap) + ')z'
    finish(h, t, f, runs, CFG[0])


def listed(h, k, m, sym, form):
    """the names of the parameters are the items of a list"""
    vals = Values(h, sym, k + m)
    names = []
    for i in range(k):
        left = [x for x in NAMES[:k] if x not in names]
        names.append(left[h.choose('n%d' % i, len(left))])
    src, pos, named = arguments(h, 'a', k, m, vals, NAMES, None)
    f = Fn(names, {}, False)
    try:
        runs = f.apply(h, pos, named)
    except Unknown:
        runs = None
    body = '[<' + ';'.join('($' + n + ')' for n in names) + '>]'
    lst = '(' + ' '.join(names) + ')'
    args = ' '.join(src)
    if form == 0:
        t = '($set l ' + lst + ')($set f \\(l).' + body + ')($set l 1)z($f ' + args + ')z'
    elif form == 1:
        t = '($set l ' + lst + ')z($ \\(l).' + body + ' ' + args + ')z'
    elif form == 2:
        t = '($set g \\l.($ \\(l).' + body + ' ' + args + '))($let u ($g (k1 k2 k3 k4 k5)) [])z($g ' + lst + ')z'
    else:
        t = 'z($let l ' + lst + ' ($let f \\(l).' + body + ' ($f ' + args + ')))z'
    if form == 2:
        h.assume(runs and not named)
    finish(h, t, f, runs, CFG[0])
    h.cover('listed')


def commas(h, k, va, m, sym):
    vals = Values(h, sym, k + m)
    f, lam = function(h, k, va, vals)
    src, pos = '', []
    semi = h.flag('semi')
    for i in range(m):
        v = vals.new()
        for c in '[]\\;,"\'':
            h.assume(c not in v)
        h.assume(v not in ' \t')
        src = src + ',,' + v + (';;' if semi else '')
        pos.append(v)
    try:
        runs = f.apply(h, pos, [])
    except Unknown:
        runs = None
    finish(h, '($set f ' + lam + ')z($f' + src + ')z', f, runs, CFG[0])


def macro(h, k, m, sym, form):
    vals = Values(h, sym, k + m)
    f = Fn(NAMES[:k], {}, False)
    src, pos, named = arguments(h, 'a', k, m, vals, NAMES, None)
    for v in pos + [x for _, x in named]:
        for c in '($"\'':
            h.assume(c not in v)
        h.assume(v not in ' \t')
    try:
        runs = f.apply(h, pos, named)
    except Unknown:
        runs = None
    body = '<' + ';'.join('($' + n + ')' for n in NAMES[:k]) + '>'
    if form == 0:
        t = '($macro M (' + ' '.join(NAMES[:k]) + ')' + body + ')z($M ' + ' '.join(src) + ')z'
    else:
        t = '($macro M (' + ' '.join(NAMES[:k]) + ')' + body + ')z($ \\h.($h ' + ' '.join(src) + ') M)z'
    finish(h, t, f, runs, CFG[form])


# a default and its value where the function is defined
DEFAULT = [('y', '%'), ('($y)', '%'), ('[<($y)>]', '<%>'), ('($add (`<) y)', '<%'), ('(y y)', '%%'), ("($$ '($y)')", '%'), ('($\\z.(z) y)', '%'), ('($let z y [($z)])', '%')]
PLACE = ['($f)', '($let y W ($f))', '($set y W)($f)', '($set g \\y.[($f)])($g W)', '($set g \\y.\\h.[($h)])($g W f)', '($set g f)($let y W [($g)])', '($ \\f.($let y W ($f)) f)', '($let y W [($f \\k 1)])', '($let x W [($f)])']
MAKE = ['($set y V)($set f \\k:0.\\x:D.[($x)])zCz', 'z($let y V ($let f \\k:0.\\x:D.[($x)] [C]))z', 'z($ \\y.($let f \\k:0.\\x:D.[($x)] [C]) V)z']


def scope(h, d, make):
    """a default has the value it has where the function is defined"""
    v, w = h.char('v', VAL), h.char('w', VAL)
    c = h.choose('place', PLACE)
    src, val = DEFAULT[d]
    if d == 5:
        # the value is a part of source
        h.assume(v not in '\'"$`\\')
    t = ''
    for x in MAKE[make].replace('C', c).replace('D', src):
        t = t + ('(`' + v + ')' if x == 'V' else '(`' + w + ')' if x == 'W' else x)
    h.describe(t)
    r = pp(h, t)
    h.observe('ok', r.ok)
    h.observe('plain', xplain(r.plain))
    h.check(r.ok, 'the application is accepted')
    h.check(h.eq(r.plain, 'z' + join([v if x == '%' else x for x in val]) + 'z'), 'a default has the value of the place of definition')
    h.cover('default')


def TASKS(tier):
    q = tier == 'quick'
    t = []
    for k in range(0, 4 if q else 5):
        for va in (0, 1):
            for m in range(0, 4 if q else 5):
                if k == 4 and m == 4:
                    continue
                for sym in range(1, 4):
                    if sym > 1 and (m > 2 or k > 2):
                        continue
                    for form in range(5):
                        # quick: every form for up to one argument, one form of five beyond
                        if q and m > 1 and (form + sym + k + va + m) % 5:
                            continue
                        if q and m > 2 and k > 2 and va:
                            continue
                        if m > 3 and (form + sym + k) % 2:
                            continue
                        t.append(('direct%d%d%d-%d-%d' % (k, va, m, sym, form), 'direct', (k, va, m, sym, form)))
                if m < 3 or (m == 3 and (k < 2 or not q)):
                    for d in (0, 1):
                        t.append(('inside%d%d%d-%d' % (k, va, m, d), 'inside', (k, va, m, 1 + (k + m) % 3, d)))
                t.append(('commas%d%d%d' % (k, va, m), 'commas', (k, va, m, 2)))
            for m1 in range(0, 3 if q else 4):
                for m2 in range(0, 3 if q else 4):
                    if k + va and m1 + m2 < (4 if q and k < 3 or not q and k < 4 else 3):
                        for form in range(3):
                            if q and m1 + m2 > 1 and (m1 + k + form + va) % 3:
                                continue
                            t.append(('steps%d%d%d%d-%d' % (k, va, m1, m2, form), 'steps', (k, va, m1, m2, 1 + (m1 + m2 + form) % 3, form)))
        for m in range(0, 3 if q and k > 1 else 4):
            t.append(('macro%d%d' % (k, m), 'macro', (k, m, 1, 0)))
            if m < 2 or not q and m < 3:
                t.append(('macroh%d%d' % (k, m), 'macro', (k, m, 1, 1)))
    for k in range(1, 4):
        for m in range(0, 3 if q else 4):
            for form in range(4):
                if not q or (k + m + form) % 2 == 0 or m == k:
                    t.append(('listed%d%d-%d' % (k, m, form), 'listed', (k, m, 1 + (k + form) % 3, form)))
    for d in range(len(DEFAULT)):
        for m in range(len(MAKE)):
            t.append(('scope%d-%d' % (d, m), 'scope', (d, m)))
    return t

# -*- coding: utf-8 -*-
META = {
    'id': 'P14',
    'bounds': 'programs of 3 (thorough 5) steps over two numbers and two lists: emissions with 5 functions and without one, of numbers and of lists of 0..3 items, references, new '
              'definitions, copies of one variable to another, double definitions, emissions in code enclosures, in local bindings of the same name and of another one, as arguments, in lists, '
              'in expressions, through macros; symbolic initial values and items',
    'covers': ['number', 'list', 'exhausted', 'copied', 'inner scope', 'use'],
    'budget': {'quick': 150, 'thorough': 800},
    'relational': True,
    'outside': 'emissions in functions, loops and conditionals (documented as not applicable); a function applied to the rest of a list',
}

LETTER = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
FNS = [('inc', lambda v: v + 1), ('dec', lambda v: v - 1), ('\\x.{ x * 2 }', lambda v: v * 2), ('\\x.($add x 3)', lambda v: v + 3), ('step', lambda v: v + 10)]


class Cell(object):
    def __init__(self, v):
        self.v = v


def copy_of(v):
    return list(v) if isinstance(v, list) else v


def text(v):
    if isinstance(v, list):
        return join(text(x) for x in v)
    if v is None:
        return ''
    return str(v) if isinstance(v, int) else v


class Prog(object):
    def __init__(self, h, ops):
        self.h, self.n, self.c, self.fn, self.ops = h, 0, 0, 0, ops

    def pick(self, n):
        self.n += 1
        return self.h.choose('g%d' % self.n, n)

    def letter(self):
        self.c += 1
        return self.h.chars('v%d' % self.c, 1, LETTER) if self.c <= 4 else 'abcdefghkmnopqrstuvw'[self.c % 20] + 'z'

    def emit(self, env, n):
        """(source, value) of an emission"""
        cell = env[n]
        if isinstance(cell.v, list):
            self.h.cover('list')
            if cell.v:
                return '($emit ' + n + ')', cell.v.pop(0)
            self.h.cover('exhausted')
            return '($emit ' + n + ')', None
        self.h.cover('number')
        k = [len(FNS), self.fn % len(FNS), (self.fn + 2) % len(FNS)][self.pick(3)]
        self.fn += 1
        v = cell.v
        if k == len(FNS):
            return '($emit ' + n + ')', v
        cell.v = FNS[k][1](v)
        return '($emit ' + n + ' ' + FNS[k][0] + ')', v

    def steps(self, env, m, depth):
        """(source, output); env is changed for the text that follows"""
        src, out = '', ''
        for _ in range(m):
            op = self.ops[self.pick(len(self.ops))] if depth else 'ers'[self.pick(3)]
            if op == 'e':
                s, v = self.emit(env, 'iljm'[self.pick(4 if depth else 2)])
                src, out = src + s + ',', out + text(v) + ','
            elif op == 'r':
                n = 'iljm'[self.pick(4 if depth else 2)]
                src, out = src + '<($' + n + ')>', out + '<' + text(env[n].v) + '>'
            elif op == 's':
                n = 'il'[self.pick(2)]
                if n == 'i':
                    env[n] = Cell(7)
                    src += '($set i 7)'
                else:
                    a, b = self.letter(), self.letter()
                    env[n] = Cell([a, b])
                    src = src + ('($set l ((`' + a + ') (`' + b + ')))')
            elif op == 'c':
                # a copy
                n, x = ['ij', 'ji', 'lm', 'ml'][self.pick(4)]
                self.h.cover('copied')
                env[n] = Cell(copy_of(env[x].v))
                src += '($set ' + n + ' ' + x + ')'
            elif op == 'd':
                k = self.pick(2)
                if k:
                    l = env['l'].v
                    a = self.letter()
                    env['j'], env['m'] = Cell(3), Cell([a] + list(l))
                    src = src + ('($set (j m) (3 ((`' + a + ') *l)))')
                else:
                    # one value for both
                    l = env['l'].v
                    if len(l) < 1:
                        continue
                    self.h.cover('copied')
                    env['l'], env['m'] = Cell(['u', 'w']), Cell(['u', 'w'])
                    src = src + '($set k (u w))($set (l m) (k k))'
            elif op == 'b':
                # the text of an enclosure
                self.h.cover('inner scope')
                inner = dict(env)
                s, o = self.steps(inner, self.inner, depth - 1)
                src, out = src + '($ [{' + s + '}])', out + '{' + o + '}'
            elif op == 'l':
                self.h.cover('inner scope')
                inner = dict(env)
                n = 'il'[self.pick(2)]
                if n == 'i':
                    inner[n] = Cell(4)
                    v = '4'
                else:
                    a = self.letter()
                    inner[n] = Cell([a, 'zz'])
                    v = '((`' + a + ') zz)'
                s, o = self.steps(inner, self.inner, depth - 1)
                src, out = src + ('($let ' + n + ' ' + v + ' [{' + s + '}])'), out + '{' + o + '}'
            elif op == 'u':
                self.h.cover('use')
                k = self.pick(5)
                a, x = self.emit(env, 'ijlm'[self.pick(4)])
                if x is None:
                    continue
                b, y = self.emit(env, 'il'[self.pick(2)])
                if y is None:
                    # it has been taken from a list
                    src, out = src + a + b, out + text(x)
                    continue
                if k == 0:
                    s, o = '($ \\a.\\b.[($b)($a)] ' + a + ' ' + b + ')', text(y) + text(x)
                elif k == 1:
                    s, o = '($ (' + a + ' ' + b + '))', text(x) + text(y)
                elif k == 2:
                    s, o = '($1 (' + a + ' ' + b + ') )', text(y)
                elif k == 3:
                    if not isinstance(x, int) or not isinstance(y, int):
                        s, o = a + b, text(x) + text(y)
                    else:
                        s, o = '(${} ' + a + ' * 10 + ' + b + ')', text(x * 10 + y)
                else:
                    s, o = '($ "($1)($0)" ' + a + ' ' + b + ')', '"' + text(y) + text(x) + '"'
                src, out = src + s, out + o
            else:
                # through a macro
                self.h.cover('use')
                c = env['i']
                src, out = src + '($next)', out + text(c.v)
                c.v = c.v + 1
        return src, out


def program(h, m, first, ops, inner=2):
    p = Prog(h, ops)
    p.inner = inner
    if m == 1 or ops == 'num':
        d = h.chars('d', 1, '0123456789')
        num = 0
        for i in range(1, 10):
            if d == str(i):
                num = i
    else:
        d, num = '5', 5
    env = {'i': Cell(num), 'j': Cell(0)}
    ls = []
    for n, k in zip('lm', divmod(first, 3)):
        v = [p.letter() for _ in range(k + (n == 'l'))]
        env[n] = Cell(v)
        ls.append('(' + ' '.join('(`' + x + ')' for x in v) + ')')
    pre = '($set step \\x.($add 10 x))($set i ' + d + ')($set j 0)($set l ' + ls[0] + ')($set m ' + ls[1] + ')($macro next ()($emit i inc))'
    s, o = p.steps(env, m, 1)
    tail = '<($i)|($j)|($l)|($m)>'
    t = pre + s + tail
    h.describe(t)
    r = pp(h, t)
    h.observe('ok', r.ok)
    h.check(r.ok, 'the program is accepted')
    h.observe('plain', xplain(r.plain))
    want = o + '<' + text(env['i'].v) + '|' + text(env['j'].v) + '|' + text(env['l'].v) + '|' + text(env['m'].v) + '>'
    h.check(h.eq(r.plain, want), 'every emission yields the current value and advances its variable only')


OPS = ['er', 'ec', 'ed', 'eb', 'el', 'eu', 'en', 'es']


def TASKS(tier):
    q = tier == 'quick'
    t = [('num%d' % first, 'program', (1, first, 'ern')) for first in (0, 5)]
    for first in range(6):
        for ops in OPS:
            nest = ops in ('eb', 'el')
            if q:
                if first == 3 and not nest and ops != 'eu':
                    t.append(('prog%d-%s' % (first, ops), 'program', (3 if ops in ('er', 'en', 'es') else 2, first, ops)))
                elif first == 2 and nest:
                    t.append(('deep%d-%s' % (first, ops), 'program', (1, first, ops, 2)))
                elif first in ((2, 4, 5) if nest or ops == 'eu' else (0, 1, 5)):
                    t.append(('prog%d-%s' % (first, ops), 'program', (1 if ops == 'eu' and first != 2 else 2, first, ops, 1)))
            else:
                t.append(('prog%d-%s' % (first, ops), 'program', (3, first, ops, 2)))
                if not nest and ops != 'eu':
                    t.append(('long%d-%s' % (first, ops), 'program', (4, first, ops)))
        if not q:
            t.append(('mix%d' % first, 'program', (3, first, 'ecdbu', 1)))
    return t

# -*- coding: utf-8 -*-
META = {
    'id': 'P12',
    'bounds': 'macros with 0..2 (thorough 3) parameters and bodies of 1..2 (3) parts of 11 kinds (text with any accepted character, fields, applications, definitions, code, strings, other '
              'macros), arguments of 7 kinds, some of them texts of fields, positional and named, in 6 contexts; strings of 2 (3) pieces (any character, fields, halves of fields) applied to 0..2 '
              'arguments of 6 kinds; texts of 9 kinds evaluated from 4 kinds of literal in 6 contexts (blanks and line ends around the text), with any accepted character',
    'covers': ['macro', 'string', 'evaluation', 'hostile argument', 'blanks'],
    'budget': {'quick': 150, 'thorough': 800},
    'relational': True,
    'outside': 'a macro applied to a list or a function (it has no text); an application that stands first on its line (P05); parameters of one macro with the same name',
}

LETTER = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
# characters of a body
BODY = ''.join(c for c in ACCEPT if c not in '()$`\r"\'')
# ... of an argument: no names
INNER = ''.join(c for c in LINE if c not in '()[]$`"\'\\ \tabcdefghijklmnopqrstuvwxyz')

PARTS = [
    lambda P: '($p)',
    lambda P: '($q)',
    lambda P: P.char(),
    lambda P: '($p)($p)',
    lambda P: '($z)',
    lambda P: '($set y ($p))',
    lambda P: '($y)',
    lambda P: '($w [($p)] ($q))',
    lambda P: '($n ($p) ($q))',
    lambda P: '($ "($p)" 5)',
    lambda P: '($let q C [($q)($p)])',
]
BASE = '($set w \\a.\\b.[{($b)($a)}])($macro n (p q) n($q)($p))($set z Z)'

ARGS = [
    lambda A: ('(`' + A.char() + ')', None),
    lambda A: ('[' + A.char() + ']', None),
    lambda A: ('(`($q))', '($q)'),
    lambda A: ('(`($p))', '($p)'),
    lambda A: ('17', '17'),
    lambda A: ('at', 'at'),
    lambda A: ("'s'", "'s'"),
]


class Draw(object):
    def __init__(self, h, tag, alphabet):
        self.h, self.tag, self.n, self.al, self.last = h, tag, 0, alphabet, None

    def char(self):
        self.n += 1
        self.last = self.h.chars('%s%d' % (self.tag, self.n), 1, self.al if self.n == 1 else LETTER)
        return self.last


def same(h, t, want, what, **cfg):
    """two sources, one result"""
    h.describe(t)
    a = pp(h, want, **cfg)
    h.assume(a.ok)
    r = pp(h, t, **cfg)
    h.observe('ok', r.ok)
    h.check(r.ok, what + ': it is accepted')
    h.observe('plain', xplain(r.plain))
    h.check(h.eq(xplain(r.plain), xplain(a.plain)), what)


def macro(h, np, nb, ctx):
    names = ['p', 'q', 'r'][:np]
    P = Draw(h, 'b', BODY)
    body = [PARTS[h.choose('b%d' % i, len(PARTS))](P) for i in range(nb)]
    A = Draw(h, 'a', INNER if nb == 1 else LETTER)
    args, texts = [], {}
    for i, n in enumerate(names):
        s, x = ARGS[h.choose('a%d' % i, len(ARGS) if ctx in (0, 4) and nb == 1 else 4 if nb < 2 or np < 2 else [0, 2, 3])](A)
        if x is None:
            x = A.last
        else:
            h.cover('hostile argument')
        args.append((n, s))
        texts[n] = x
    b = join(body)
    # blanks at the ends of lines of a substituted text are trimmed (P05)
    h.assume(b[:1] not in (' ', '\t') and b[-1:] not in (' ', '\t') and '\n ' not in b and '\n\t' not in b)
    # the parameters are replaced at one go
    exp = ''
    i = 0
    for part in body:
        j = 0
        while j < len(part):
            for n in names:
                if part[j:j + len(n) + 3] == '($' + n + ')':
                    exp = exp + texts[n]
                    j += len(n) + 3
                    break
            else:
                exp = exp + part[j:j + 1]
                j += 1
    # a field in the text of an argument names nothing, or what is defined
    base = BASE if h.flag('base') else BASE + '($set p P)'
    d = base + '($macro m (' + ' '.join(names) + ')' + b + ')'
    if ctx == 0:
        t = d + '<($m ' + ' '.join(s for _, s in args) + ')>($y)'
        want = base + '<' + exp + '>($y)'
    elif ctx == 1:
        # by name
        t = d + '<($m ' + ' '.join('\\' + n + ' ' + s for n, s in reversed(args)) + ')>($y)'
        want = base + '<' + exp + '>($y)'
    elif ctx == 2:
        # twice
        t = d + '<($m ' + ' '.join(s for _, s in args) + ')><($m ' + ' '.join(s for _, s in args) + ')>($y)'
        want = base + '<' + exp + '><' + exp + '>($y)'
    elif ctx == 3:
        # the values are known later
        h.assume('($y)' not in b and '($set' not in b)
        h.assume(np > 0)
        fn = ''.join('\\x%d.' % i for i in range(np)) + '[<($m ' + ' '.join('x%d' % i for i in range(np)) + ')>]'
        t = d + '($ ' + fn + ' ' + ' '.join(s for _, s in args) + ')'
        want = base + '<' + exp + '>'
    elif ctx == 4:
        # a macro in a macro
        t = d + '($macro o (' + ' '.join(names) + ')<($m ' + ' '.join('(`($' + n + '))' for n in names) + ')>)<($o ' + ' '.join(s for _, s in args) + ')>'
        # its parameters are replaced before the inner macro is applied
        want = d + '<<($m ' + ' '.join('(`' + texts[n] + ')' for n in names) + ')>>'
    else:
        h.assume('($set' not in b)
        t = d + '($(1 2) \\k.[<($m ' + ' '.join(s for _, s in args) + ')>])'
        want = base + '($(1 2) \\k.[<' + exp + '>])'
    same(h, t, want, 'a macro gives its body with the parameters replaced')
    h.cover('macro')


# ---------------------------------------------------------------- string
PIECES = ['($0)', '($1)', '($x)', '($y)', '($', '0)', '($00)', '($2)', '%s{0}', '($ 0)', '($xx)']
VALUES = [
    ('(`V)', 'V'), ('(`($0))', '($0)'), ('(`($1))', '($1)'), ('(`($x))', '($x)'), ('42', '42'), ('"s"', '"s"'), ('(a 7)', 'a7'), ('()', ''), ('[v w]', 'v w'), ("(`\\g<0>\\1)", '\\g<0>\\1'),
]


def fields(h, np, nn, k, ctx):
    """string application"""
    s = ''
    for i in range(k):
        j = h.choose('s%d' % i, len(PIECES) + 1)
        if j == len(PIECES):
            s = s + h.chars('c%d' % i, 1, STRING)
        else:
            s = s + PIECES[j]
    few = ctx or np + nn > 1
    vals = [VALUES[h.choose('v%d' % i, 4 if few else len(VALUES))] for i in range(np)]
    names = ['x', 'y'][:nn]
    nvals = [VALUES[h.choose('w%d' % i, 4 if few else len(VALUES))] for i in range(nn)]
    h.assume(np + nn > 0)
    fs = [('($%d)' % i, v[1]) for i, v in enumerate(vals)] + [('($%s)' % n, v[1]) for n, v in zip(names, nvals)]
    want = ''
    i = 0
    while i < len(s):
        for f, v in fs:
            if s[i:i + len(f)] == f:
                want = want + v
                i += len(f)
                break
        else:
            want = want + s[i:i + 1]
            i += 1
    if any(v[1][:2] == '($' for v in vals + nvals):
        h.cover('hostile argument')
    srcs = [v[0] for v in vals]
    nsrc = ['\\' + n + ' ' + v[0] for n, v in zip(names, nvals)]
    order = h.flag('order')
    if ctx == 0:
        t = '<($ "' + s + '" ' + ' '.join(nsrc + srcs if order else srcs + nsrc) + ')>'
    elif ctx == 1:
        t = "<($set f '" + s + "')($f " + ' '.join(nsrc + srcs if order else srcs + nsrc) + ')>'
    else:
        # the values are known later
        xs = ['x%d' % i for i in range(np)] + ['\\' + n + ' z' + n for n in names]
        ps = ''.join('\\x%d.' % i for i in range(np)) + ''.join('\\z' + n + '.' for n in names)
        t = '<($ ' + ps + '($ "' + s + '" ' + ' '.join(xs) + ') ' + ' '.join(srcs + [v[0] for v in nvals]) + ')>'
    q = "'" if ctx == 1 else '"'
    h.describe(t)
    r = pp(h, t)
    h.observe('ok', r.ok)
    h.check(r.ok, 'the application of a string is accepted')
    h.observe('plain', xplain(r.plain))
    h.check(h.eq(r.plain, '<' + q + want + q + '>'), 'every field is replaced and nothing else')
    h.cover('string')


STRING = ''.join(c for c in LINE if c not in '"\'\\\t')

# ---------------------------------------------------------------- evaluation
TEXTS = [
    lambda c: '($w [' + c + '] u)',
    lambda c: 'w [' + c + '] u',
    lambda c: '($set y [' + c + '])',
    lambda c: '($v)' + c,
    lambda c: '($let v [' + c + '] [($v)($v)])',
    lambda c: '\\i.[($i)' + c + '] 5',
    lambda c: '($code ' + c + 'a)',
    lambda c: '(${} 2 + 3)' + c,
    lambda c: '($(1 2) \\i.[($i)' + c + '])',
]
EVALCH = ''.join(c for c in LINE if c not in '()[]$`"\'\\ \t\x85\xa0')


def evaluate(h, k, lit, ctx):
    """a text evaluated as a source is the source"""
    c = h.chars('c', 1, EVALCH)
    s = TEXTS[k](c)
    if lit == 3:
        # code is evaluated first
        h.assume('($' not in s)
    # blanks around the text
    a, b = h.choose('pad', [('', ''), (' ', ''), ('', '\t '), ('\t ', '\n')]) if ctx in (0, 3) and lit < 3 else ('', '')
    if a or b:
        h.cover('blanks')
    w = esc2(a) + esc(s) + esc2(b)
    x = [lambda: '"' + w + '"', lambda: "'" + w + "'", lambda: '(`' + w + ')', lambda: '[' + a + s + b + ']'][lit]()
    src = s if s[:2] == '($' else s if lit == 3 else '($' + s + ')'
    pre = '($set w \\a.\\b.[{($b)($a)}])($set v V)'
    if ctx == 0:
        t, want = '<($$' + x + ')>($y)($v)', '<' + src + '>($y)($v)'
    elif ctx == 1:
        t, want = '($let v L [<($$ ' + x + ')>])($v)', '($let v L [<' + src + '>])($v)'
    elif ctx == 2:
        t, want = '($ \\v.[<($$' + x + ')>] Q)($v)', '($ \\v.[<' + src + '>] Q)($v)'
    elif ctx == 3:
        # the text is an argument
        t, want = '($ \\t.[<($$t)>] ' + x + ')', '<' + src + '>'
        h.assume(k != 2)
    elif ctx == 4:
        # the text has a field
        h.assume(lit < 3)
        x = x.replace('u)', 'u)($0)') if k == 0 else x.replace('V', 'V')
        t, want = '<($$' + x + ' (`($v)))>', '<' + (src + '($v)' if k == 0 else src) + '>'
    else:
        t, want = '($set t ' + x + ')($set v M)<($$t)><($$t)>', '($set v M)<' + src + '><' + src + '>'
    if k == 2 and ctx in (1, 2):
        h.assume(False)
    same(h, pre + t, pre + want, 'a text evaluated as a source gives what the source gives')
    h.cover('evaluation')


def esc2(s):
    return s.replace('\t', '\\t').replace('\n', '\\n')


def esc(s):
    return s.replace('\\', '\\\\')


def TASKS(tier):
    q = tier == 'quick'
    t = []
    for np in range(3 if q else 4):
        for nb in ((1, 2) if q else (1, 2, 3)):
            for c in range(6):
                if np == 3 and nb == 3 and c:
                    continue
                t.append(('macro%d-%d-%d' % (np, nb, c), 'macro', (np, nb, c)))
    for np in range(3):
        for nn in range(3):
            for k in range(1, 3 if q else 4):
                for c in range(3):
                    if np + nn == 0 or np + nn > (3 if q else 4) or np + nn == 3 and k == 2 and q or k == 3 and np + nn > 2:
                        continue
                    t.append(('string%d-%d-%d-%d' % (np, nn, k, c), 'fields', (np, nn, k, c)))
    for k in range(len(TEXTS)):
        for l in range(4):
            for c in range(6):
                t.append(('eval%d-%d-%d' % (k, l, c), 'evaluate', (k, l, c)))
    return t

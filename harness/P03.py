# -*- coding: utf-8 -*-
META = {
    'id': 'P03',
    'bounds': '66 refused constructs, each after 0..2 (thorough 3) characters over all accepted characters (line ends included) on '
              'the same and on earlier lines, inside code enclosures, functions, lists, loops, modules, after multi-line constructs, '
              'in macros and string applications, for C and Python output; files with odd names and with the same name',
    'covers': ['error', 'warning', 'eof', 'module', 'macro', 'eval'],
    'budget': {'quick': 110, 'thorough': 800},
    'outside': 'which of the tokens of a construct is pointed at is fixed for the listed constructs only',
}

# construct, offset of the offending text
BAD = [
    ('($set 1 2)', 6), ('($set a)', 7), ('($set a 1 2)', 10), ('($set (a 1) 2)', 9), ('($let a 1)', 9),
    ('($let a 1 2 3)', 12), ('($macro 5)', 8), ('($macro M 5)', 10), ('($macro M (5))', 11), ('($import 5)', 9),
    ('($import nosuch)', 9), ('($import "n.yu")', 9), ('($import "n.py")', 9), ('($import (`n.yu))', 11),
    ('($import {1+})', 9), ('($import {1/0})', 9), ('($emit 5)', 7), ('($emit zz)', 7), ('($emit q 1 2)', 11),
    ('($)', 2), ('($ \\a)', 5), ('($ \\.a)', 4), ('($ \\a:.a)', 6), ('($ \\(5).a)', 5), ('($ \\(a b).a)', 7),
    ('($ \\(zz).[] 1)', 5), ('($a ? )', 6), ('($a ? b | )', 10), ('($a * )', 6), ('($add 1 2;)', 9), ('($add \\p )', 9),
    ('($a::5)', 5), ('($ & 5)', 4), ('($ (1 5:))', 7), ('($add 1)', 1), ('($add 1 a)', 1), ('($ { 1 + })', 3),
    ('(${} 1 + )', 1), ('($ { 1 // 0 })', 3), ('(${} nope)', 1), ('($add \\a 2)', 7), ('($1 \\a 2)', 5),
    ('($(1) \\a 2)', 7), ('($pi 1)', 2), ('($isatom)', 2), ('($reduce 1)', 2), ('($repr)', 2), ('($__PASSAGE__ 1)', 2),
    ('($a b)', 2), ('($a::b)', 5), ('($ \\a.[] \\b 1)', 10), ('($add 1 (len))', 1), ('($chr "a")', 1), ('($sqrt -1)', 1),
    ('($ \\a..\\....[])', 7), ('($len 5)', 1), ('($ $ a)', 3), ('($unq 1 2)', 1), ('($emit q::5)', 10),
    ('($ \\p.($add p) 1)', 7), ('($add\n\t1)', 1), ('($set a\n  \n 1\n\t 2)', 16), ('($ {\n 1 +\n })', 3), ('($a\n b\n ::)', 8),
]
WARN = [('($set (a b) (1))', 9), ('($undef)', 2), ('($set __OUTPUT_FILE__ 1)', 6), ('($ \\p:1.\\q.($p) \\p 2 \\p 3)', 22), ('($set a 1)', 6)]
EOF = ['($[x', '(`x', '($!x', '($macro M (a)x', '($ ]\nx', '($ {x', '($a,,x', '($code x', '($set a [x\n']

AL = '\n\r\t a(["'


def both(h, n, i, br, alphabet=ACCEPT):
    """the construct after arbitrary text, on the same line"""
    bad, off = BAD[i]
    pre = plain_prefix(h, 'p', n, alphabet)
    h.assume('"' not in bad or '"' not in pre)
    case(h, pre + ' ' + bad + '\nz', len(pre) + 1 + off, br)


def case(h, text, pos, br, name='t.yu', out='t.yugen', **kw):
    h.describe(text)
    r = pp(h, text, name, out, pp_browse=br, **kw)
    h.observe('ok', r.ok)
    h.check(not r.ok and len(r.errors()) == 1, 'the construct is refused with one error')
    u = unify_eol(text[:pos])
    full = unify_eol(text)
    located(h, r.errors()[0], ('File', name), full, len(u), 'error')
    h.cover('error')


def above(h, n, i, ctx, br):
    """the construct inside or after other constructs that take several lines"""
    bad, off = BAD[i]
    pre, post = CTX_[ctx]
    c = plain_prefix(h, 'p', n, AL if h.choose('a', 2) else '\n\r')
    h.assume('(' not in c and '[' not in c and '"' not in c)
    case(h, pre + c + ' ' + bad + post, len(pre) + n + 1 + off, br)


CTX_ = [
    ('($set x\n[a\n\tb])\n', '\n'),
    ('($macro M (a)\n\nq\n)\n($M 1)\n', ''),
    ('($(1 2) \\i.]\n  ($i)\n\n[ )', ''),
    ('($ [\n', '\n] )'),
    ('($set f \\p.]\n', '\n[ )\n\n\n($f 1)'),
    ('($! \n ( \n ) )', ''),
    ('($ "a b" )"($set" \n\n', '\n'),
    ('($unfold-it)\r\n\r($list 1 \n 2 [\n', '\r\n] )\r'),
    ('($let a 1 [\n', '\n] )'),
    ('($(1) \\i.[', '] )'),
    ('($ a ? 0 | [\n', '\n] )'),
    ('($$(`b)) ($$(`\n\n b)) ', '\n'),
    ('\x85\xa0\n\xff\x85', '\n'),
]


def warn(h, n, i):
    bad, off = WARN[i]
    c = plain_prefix(h, 'p', n)
    text = c + '\n ' + bad + ('' if bad == '($set a 1)' else ' \n')
    h.describe(text)
    r = pp(h, text)
    w = r.warnings()
    h.check(len(w) >= 1, 'the construct is warned of')
    located(h, w[0], ('File', 't.yu'), unify_eol(text), len(unify_eol(c + '\n')) + 1 + off, 'warning')
    h.cover('warning')


def eof(h, n, i):
    bad = EOF[i]
    c = plain_prefix(h, 'p', n)
    d = h.chars('q', 1, '\n\ra 1')
    text = c + '\n ' + bad + d
    h.describe(text)
    r = pp(h, text)
    h.check(not r.ok and len(r.errors()) == 1, 'the construct is refused with one error')
    full = unify_eol(text)
    located(h, r.errors()[0], ('File', 't.yu'), full, len(unify_eol(c + '\n')) + 1, 'unclosed construct', len(full))
    h.cover('eof')


def forbidden(h, n, k):
    c = plain_prefix(h, 'p', n)
    h.assume(k != 2 or ']' not in c)
    bad = h.char('b', FORBIDDEN)
    pre = ['', '($set a 1)\nx\n', '($ [\n x '][k]
    text = pre + c + bad + '\n'
    h.describe(text)
    r = pp(h, text)
    h.check(not r.ok and len(r.errors()) == 1, 'the character is refused with one error')
    located(h, r.errors()[0], ('File', 't.yu'), unify_eol(text), len(unify_eol(pre + c)), 'forbidden character')


FORBIDDEN = ''.join(chr(c) for c in range(0x20) if c not in (9, 10, 13))


def module(h, n, i, kind):
    """the construct in (kind 0) and after (kind 1) an imported module"""
    bad, off = BAD[i]
    c = plain_prefix(h, 'p', n, '\n\r a')
    sub = c + ' ' + bad
    if kind == 0:
        h.fs.write('m.yu', '\n($set x\n 1)' + sub + '\n')
        text = 'a\n\n($import ' + h.choose('im', ['m', '"m.yu"']) + ')\n'
        h.describe(sub)
        r = pp(h, text)
        h.check(not r.ok and len(r.errors()) == 1, 'the construct is refused with one error')
        full = unify_eol('\n($set x\n 1)' + sub + '\n')
        located(h, r.errors()[0], ('File', 'm.yu'), full, 12 + len(unify_eol(c)) + 1 + off, 'error in a module')
    else:
        h.fs.write('m.yu', c + '\n\n')
        text = 'a\n($import m)' + ' ' + bad + '\n'
        h.describe(text)
        r = pp(h, text)
        h.check(not r.ok and len(r.errors()) == 1, 'the construct is refused with one error')
        located(h, r.errors()[0], ('File', 't.yu'), text, 14 + off, 'error after an import')
    h.cover('module')


def nested(h, n, i, kind):
    """in the body of a macro or in an evaluated text: the calls lead to the place"""
    bad, off = BAD[i]
    h.assume('"' not in bad)
    c = plain_prefix(h, 'p', n, '\n\r a')
    if kind == 'macro':
        body = '\n' + c + ' ' + bad + '\n'
        text = c + '($macro M ()' + body + ')\n\n\n z ($M)\n'
        decl, call = len(unify_eol(c)) + 8, text.rindex('M')
        call = len(unify_eol(text[:call]))
    else:
        body = '($ [' + c + ' ' + bad + '])'
        text = c + '\n q ($$(`' + body + '))\n'
        decl = None
    h.describe(text)
    r = pp(h, text)
    h.check(not r.ok and len(r.errors()) == 1, 'the construct is refused with one error')
    m = r.errors()[0]
    full, ub = unify_eol(text), unify_eol(body)
    if kind == 'macro':
        located(h, m, ('Macro', 'M'), ub, 1 + len(unify_eol(c)) + 1 + off, 'error in a macro')
        ln = '\n  File "t.yu", line %d\n    ($M)\n' % (full.count('\n', 0, call) + 1)
        ln2 = '\n  File "t.yu", line %d\n' % (full.count('\n', 0, decl) + 1)
        h.check(ln.replace('    ($M)', '    z ($M)') in m, 'the application of the macro is shown')
        h.check(ln2 in m, 'the definition of the macro is shown')
        h.cover('macro')
    else:
        located(h, m, ('Macro', '<string>'), ub, 4 + len(unify_eol(c)) + 1 + off, 'error in an evaluated text')
        ln2 = '\n  File "t.yu", line %d\n' % (unify_eol(c + '\n').count('\n') + 1)
        h.check(ln2 in m, 'the place of the evaluation is shown')
        h.cover('eval')


def python(h, n, i):
    """Python output: multi-line strings, magic comments"""
    bad, off = BAD[i]
    c = plain_prefix(h, 'p', n, '\n\r a#')
    pre = h.choose('pre', ['', '# coding: yupp\n', '#!/x\n# coding: yupp.utf8\n', '"""a\n\n"""\n($ """b\n""")', "x = 'a\\\nb'\n($ 'a\\\nb')"])
    case(h, pre + c + '\n ' + bad + '\n', len(pre) + n + 2 + off, False, 't.yu-py', 't.py', pp_skip_comments=h.choose('sc', [0, 2]))


NAMES = ['0', '1', '12', '\u00b2', 't', '-', 'a b', '__init__', 'n.yu', '1.yu']


def names(h, n, i, kind):
    """whatever the names of the files are, also one that the input and a module share"""
    bad, off = BAD[i]
    h.assume('"' not in bad)
    c = plain_prefix(h, 'p', n, '\n\r a')
    if kind < 2:
        nm = h.choose('nm', NAMES)
        d = h.choose('d', ['', 'in/'])
        mac = h.choose('mac', ['', '($macro W (x) ($x))($W 1)($W 2)'])
    else:
        nm, d, mac = h.choose('nm', ['t.yu', '1', 'b.yu']), 'in/', ''
    if kind == 0:
        # in the input
        text = mac + c + ' ' + bad + '\n'
        case(h, text, len(mac) + n + 1 + off, h.flag('br'), d + nm)
        return
    br = h.flag('br')
    sub = '($set y 1)' + c + ' ' + bad + '\n'
    if kind == 1:
        # in a module
        h.fs.write('sub/' + nm, sub)
        text = 'a\n' + mac + '($import "sub/' + nm + '")'
        fn, full, pos = 'sub/' + nm, unify_eol(sub), 10 + len(unify_eol(c)) + 1 + off
    elif kind == 2:
        # after the import of another file of the same name
        h.fs.write(nm, '\n\n($set x 1)' + c)
        text = 'a\n($import "' + nm + '") ' + bad + '\n'
        fn, full, pos = d + nm, text, 2 + 12 + len(nm) + 1 + off
    else:
        # in another file of the same name
        h.fs.write(nm, sub)
        text = 'a\n\n\n($import "' + nm + '")'
        fn, full, pos = nm, unify_eol(sub), 10 + len(unify_eol(c)) + 1 + off
    h.fs.write(d + nm, text)
    h.describe(text)
    r = pp(h, text, d + nm if kind > 1 else 't.yu', pp_browse=br)
    h.check(not r.ok and len(r.errors()) == 1, 'the construct is refused with one error')
    located(h, r.errors()[0], ('File', fn), full, pos, 'error')
    h.cover('module')


def TASKS(tier):
    q = tier == 'quick'
    t = []
    nb = len(BAD)
    for i in range(nb):
        t.append(('bad%02d' % i, 'both', (1, i, False)))
        for k in range(len(CTX_)):
            if (i + k) % (5 if q else 1) == 0:
                t.append(('ctx%02d-%d' % (i, k), 'above', (2, i, k, False)))
        t.append(('module%02d' % i, 'module', (1, i, i % 2)))
        t.append(('macro%02d' % i, 'nested', (1 if q else 2, i, 'macro')))
        if '\\' not in BAD[i][0]:
            t.append(('eval%02d' % i, 'nested', (1 if q else 2, i, 'eval')))
        if i % (3 if q else 1) == 0:
            t.append(('py%02d' % i, 'python', (1 if q else 2, i)))
    for i in ((0, 7, 22, 34, 36, 45) if q else range(nb)):
        t.append(('bad2-%02d' % i, 'both', (2, i, i % 2 == 0)))
    for i in (0, 34):
        t.append(('badl-%02d' % i, 'both', (4 if q else 6, i, True, '\n\r \ta(')))
    if not q:
        for i in range(0, nb, 6):
            t.append(('bad3-%02d' % i, 'both', (3, i, False)))
    for i in range(len(WARN)):
        t.append(('warn%d' % i, 'warn', (1 if q else 2, i)))
    for i in range(len(EOF)):
        t.append(('eof%d' % i, 'eof', (1 if q else 2, i)))
    for i in (0, 7, 19, 31, 34, 37) if q else range(nb):
        for k in range(4):
            if '"' not in BAD[i][0]:
                t.append(('names%d-%02d' % (k, i), 'names', (1 if q else 2, i, k)))
    for k in range(3):
        t.append(('forbidden%d' % k, 'forbidden', (2, k)))
    return t

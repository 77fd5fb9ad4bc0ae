# -*- coding: utf-8 -*-
META = {
    'id': 'P07',
    'bounds': 'every text of 1..4 (thorough 6) characters over the characters of the syntax and every accepted character; about 50 programs that use every construct, '
              'damaged at any position by 0..2 (3) inserted characters of any kind that replace 0..1 (3) characters; the same programs cut at '
              'any position inside a construct and followed by 0..3 (4) characters that close nothing; every text of 1..3 (4) characters in 30 places inside constructs; '
              'output languages and comment modes',
    'covers': ['translated', 'refused', 'cut', 'located'],
    'budget': {'quick': 150, 'thorough': 850},
    'outside': 'programs that recurse without end by themselves; nesting deeper than the texts above (the limit of the interpreter)',
}

SYN = '($)[]{},;\\|?.:&*`!"\'\n v1-'
# names of built-in functions: calling one with unsuitable arguments is reported as a failure of Python
def names_builtin(h, text):
    g = h.yugen
    w = ''
    for c in text + ' ':
        if c.isalnum() or c == '_' or (c == '-' and w):
            w += c
        else:
            if w and (w in g.builtin or w in g.builtin_special):
                return True
            w = ''
    return False


def judge(h, text, user_python, **cfg):
    """translated, or refused with a located diagnostic; never an internal failure"""
    h.describe(text)
    kind, r = h.hangs(lambda: pp(h, text, **cfg))
    h.check(kind != 'hang', 'processing terminates')
    if kind == 'exc':
        h.observe('exception', repr(r))
    h.check(kind == 'ok', 'no exception leaves the preprocessor')
    h.observe('ok', r.ok)
    if r.ok:
        h.observe('plain', xplain(r.plain))
        h.cover('translated')
        return r
    e = r.errors()
    h.check(len(e) > 0, 'a refusal is explained')
    h.cover('refused')
    for m in e:
        if m.startswith('unable to translate'):
            continue
        if ': python: ' not in m and 'ps_import_eval' not in m:
            h.observe('message', m)
        if not user_python:
            h.check(': python: ' not in m, 'no failure of the preprocessor itself')
        ls = m.split('\n')
        while ls and not ls[-1]:
            ls.pop()
        h.check(len(ls) >= 3 and ls[-1].strip(' ') == '^' and (ls[-3].startswith('  File "') or ls[-3].startswith('  Macro "')), 'the diagnostic is located')
        h.cover('located')
    return r


def free(h, n, al, cfg):
    judge(h, h.chars('t', n, al), '{' in al, **CFG[cfg])


CFG = [{}, {'out': 't.py'}, {'pp_skip_comments': 'c'}, {'pp_skip_comments': 'python', 'out': 't.py'}, {'pp_browse': True},
       {'pp_reduce_emptiness': True, 'pp_trim_app_indent': False}]

PLACES = ['($%s)', '($ %s)', '($ v %s)', '($set %s)', '($set v %s)($v)', '($set v 1)($v%s)', '($let %s)', '($let v 1 %s)', '($macro %s)', '($macro M%s)($M 1)', '($macro M (v)%s)($M 1)',
          '($macro M (v) <($v)>)($M %s)', '($emit %s)', '($set v (1 2 3))($emit v%s)', '($import %s)', '($code%s)', '($quote%s)', '(`%s)', '($!%s)', '($ [%s])', '($ ]%s[)',
          '($ ]\n%s\n[ )', '($v,,%s)', '($ \\v.%s 1)', '($ \\%s 1)', '($ (1 2)%s)', '($ (1 2)\\v.[%s])', '($ 1 ? %s)', '($ 1 ? 0 | %s)', '($$%s)', '($ "%s" 1)', '($ \\v:1.%s)',
          '($ \\...%s 1 2)', '($ \\p.\\q..r.%s 1)', '($ 1 %s 2)', '[%s]', '($set (v w) %s)', '($f,,a,,%s)', '($ \\(%s).v)', '($let (v w) (1 2) %s)']


def place(h, i, n, cfg):
    c = h.chars('t', n, SYN.replace('{', '').replace('}', '') + 'wfM~')
    judge(h, PLACES[i] % c, False, **CFG[cfg])


PROGRAMS = [
    'a($set v 1)b($v)c',
    '($set (v w) (1 2))($v)($w)',
    '($let v 1 [x($v)])',
    '($macro M (p w) <($p);($w)>)($M 1 2)',
    '($set f \\p.[($p)])($f 1)',
    '($set f \\p.\\w:2.[($p)-($w)])($f 1)($f \\w 3 \\p 4)',
    '($set f \\...[($__va_args__)])($f 1 2)',
    '($set l (1 2 3))($ 0 l)($ -1 l)($(1 2) \\i.[($i),])',
    '($ (1 2)(3 4) \\i.\\j.[($i)($j) ])',
    '($set i 0)($emit i \\x.5)($emit i)',
    '($set l (a b))($emit l)($emit l)',
    '($ (1 2 *(3 4)))',
    '($set f \\p.\\w.($p))($f *(1 2))',
    '($code a(b)c)($ ]x[ )($ ]\n y\n [ )',
    '($ [a[b]c])',
    '($quote (a) b)(`c(d)) ',
    '($! comment (x) )y',
    '($set f \\p.\\w.[($p)($w)])($f,,a,,b;;)',
    '($ 1 ? 0 | 2 ? 1 | 3)',
    '($ "a%s" 1)($ (`${0}b) 1)',
    '($ "x")(\'y\')',
    '($set f \\p..w.[($w)])($set g \\x.($x &p 1))',
    '($let f \\p.($p) ($f 1) \\let)',
    '($set r 1 \\set)($v \\v)($ r)',
    '($$set)($$ \\x.(`($x)) 2)',
    '($set v (`($set w 2)($w)))($$ v)',
    '($set f \\(p).p)($f)',
    '($set v \\p.\\w.[p])($ ($v 1) 2)',
    '($ r::v)($set s 1)($ w::s)',
    'if (x) { y[1]; } // ($ 1)\n/* ($ [2]) */',
    '# ($ 1)\n"""($ 1)"""\n\'a\\\nb\'',
    '($set M [($n)])($let n 1 M)',
    '($macro M () [($set x 1)($x)])($M)',
    '($ (("a") (b 1) ((2))))',
    '($set t (()))($ t)($ (1 2) ? t)',
]
PY = [
    '($ {1 + 2})',
    '(${} (3) * 4 )',
    '($set v 1)($ {v + 1})',
    '($add 1 2)($len (1 2))($reverse (1 2))',
    '($range 3)($lazy v)($isatom v)',
    '($ (`%d) {2})',
    '($import {"($set v 1)"})($v)',
    '($upper "a")($strlen "bc")($str 1)',
    '($set v ($reduce \\a.\\b.{a + b} (1 2 3)))($v)',
    '($__FILE__)($__OUTPUT_FILE__)($__MODULE_NAME__)',
]


def damage(h, i, pos, n, d, cfg):
    p = (PROGRAMS + PY)[i]
    k = h.choose('k', pos)
    if k >= len(p):
        h.assume(False)
    let = 'vwp'
    c = h.chars('t', n, (SYN + 'wp~') if n > 1 else ''.join(x for x in ASCII if not x.isalnum() or x in let + '1'))
    up = i >= len(PROGRAMS)
    if not up:
        for x in [''] + [' ', 'v', 'w', 'p', 'M', '1', '-']:
            for y in [''] + ([' ', 'v', 'w', 'p', '1', '-'] if n > 1 else []):
                up = up or names_builtin(h, p[:k] + x + y + p[k + d:])
    judge(h, p[:k] + c + p[k + d:], up or '{' in c or '${}' in p[:k] + c + p[k + d:], **CFG[cfg])


def cut(h, i, ks, n, cfg):
    """a construct is open: nothing but a diagnostic"""
    p = (PROGRAMS + PY)[i]
    k = h.choose('k', ks)
    c = h.chars('t', n, 'v 1\n,.:&*-|?;[($x')
    h.assume(';' not in c)
    r = judge(h, p[:k] + c, True, **CFG[cfg])
    h.check(not r.ok, 'an unclosed construct is refused')
    h.cover('cut')


def inside(p, k):
    """a construct of the program (not C or Python code) is open at k"""
    d = 0
    i = 0
    st = []
    while i < k:
        two = p[i:i + 2]
        if two in ('($', '(`') and i + 2 <= k:
            st.append('$')
            i += 2
        elif p[i] == '(':
            st.append('(')
            i += 1
        elif p[i] == ')' and st:
            st.pop()
            i += 1
        else:
            i += 1
    return '$' in st and '"' not in p[:k] and "'" not in p[:k] and '//' not in p and '/*' not in p


def TASKS(tier):
    q = tier == 'quick'
    t = []
    for cfg in range(len(CFG)):
        for n in range(1, 4):
            t.append(('free%d-%d' % (n, cfg), 'free', (n, SYN, cfg)))
        t.append(('any2-%d' % cfg, 'free', (2 if q else 3, ACCEPT, cfg)))
    t.append(('forbidden', 'free', (2, ACCEPT + '\0\x0b\x1f\u0100', 0)))
    t.append(('free4', 'free', (4, SYN, 0)))
    if not q:
        t.append(('free5', 'free', (5, SYN, 0)))
        t.append(('free4-1', 'free', (4, SYN, 1)))
    for i in range(len(PLACES)):
        for n in range(0, 4 if q else 5):
            t.append(('place%d-%d' % (i, n), 'place', (i, n, (i + n) % len(CFG))))
    N = 16
    for i in range(len(PROGRAMS) + len(PY)):
        p = (PROGRAMS + PY)[i]
        for b in range(0, len(p), N):
            pos = list(range(b, min(len(p), b + N)))
            for n, d in ((0, 1), (1, 0), (1, 1)) if q else ((0, 1), (0, 2), (0, 3), (1, 0), (1, 1), (2, 0), (2, 1), (2, 2)):
                t.append(('damage%d-%d-%d%d' % (i, b, n, d), 'damage', (i, pos, n, d, (i + n) % len(CFG))))
        ks = [x for x in range(2, len(p)) if inside(p, x)]
        if ks:
            for n in ((0, 1, 2) if i % 4 == 0 else (0, 1)) if q else (0, 1, 2, 3):
                t.append(('cut%d-%d' % (i, n), 'cut', (i, ks, n, (i + n) % 3 if i else 0)))
    return t

# -*- coding: utf-8 -*-
META = {
    'id': 'P23',
    'bounds': 'comments `//`, `/* */` and `#` with 2..3 (thorough 5) symbolic characters of any kind between 28 fixed constructs, in 9 places (alone, in code, in functions, in arguments, in an imported file, '
              'behind and before applications); texts of 4 (thorough 6) symbolic characters over the signs of comments, literals, escapes and line ends; the four modes; '
              'outputs of C, of Python and others, the option of the command line',
    'covers': ['inert', 'off', 'literal', 'free', 'auto', 'unclosed'],
    'budget': {'quick': 150, 'thorough': 850},
    'relational': False,
    'outside': 'comments inside the text of a macro definition, a quote, a comment of the language itself `($! )`, an infix expression and between arguments (the grammar has them in texts only); '
               'line splices (a backslash at the end of a `//` comment); trigraphs',
}

LETTER = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
ANY = ''.join(chr(c) for c in range(0x20, 0x7f)) + '\t\xa7\xfe'
NASTY = ['', '($m)', '($', '($set m 5)', '($set m ', '(`', '(`a', '($! ', '($import "none.yu")', ')', ']', '[', '(', '"', "'", '\\\\', '($m))', '($__PASSAGE__ (1 2))', '($macro m () Q)', '($let m 5',
         '(${} 1 / 0)', '($skip)', '"""', '($m) ($&m)', '*/($m)', '//($m)', '/*($m)', '#($m)']
OUT = {'c': 't.c', 'py': 't.py'}


def mark(kind, body):
    return {'line': '//' + body, 'block': '/*' + body + '*/', 'hash': '#' + body}[kind]


def comment(h, kind, k, n):
    """a comment and what it looks like in the output"""
    c = h.chars('c', n, ANY + ('\n\r' if kind == 'block' else ''))
    w = NASTY[k]
    body = c[:1] + w + c[1:]
    if kind == 'block':
        h.assume('*/' not in body + '*')
        h.assume('\r' not in body or h.flag('cr'))
    else:
        h.assume('\\' != body[-1:])
    return mark(kind, body)


def seen(h, r, want):
    h.observe('ok', r.ok)
    h.check(r.ok, 'a text with comments is translated')
    h.observe('plain', xplain(r.plain))
    h.check(h.eq(r.plain, want), 'a comment is copied as it is and the text around it is processed')


def modes(kind):
    """pairs of an output and a mode in which such comments are skipped"""
    if kind == 'hash':
        return [('py', 2), ('py', 3), ('c', 2)]
    return [('c', 1), ('c', 3), ('py', 1)]


def inert(h, kind, k, n, place):
    out, mode = modes(kind)[h.choose('mode', 3)] if place < 2 else modes(kind)[0]
    com = comment(h, kind, k, n)
    nl = '' if kind == 'block' and h.flag('same line') else '\n'
    v = h.char('v', LETTER)
    pre = '($set m ' + v + ')'
    text, want = [
        (pre + com + nl + '<($m)>\n', com + nl + '<' + v + '>\n'),
        (pre + '<($m)> ' + com + nl + '<($m)>' + com, '<' + v + '> ' + com + nl + '<' + v + '>' + com),
        (pre + '($ \\x.[' + com + nl + '<($x)>] ($m))\n', com + nl + '<' + v + '>\n'),
        (pre + '($let y m [<($y)>' + com + nl + '.])($m)\n', '<' + v + '>' + com + nl + '.' + v + '\n'),
        (pre + '($set f [<($m)>' + com + nl + '.])($f)($f)\n', ('<' + v + '>' + com + nl + '.') * 2 + '\n'),
        (pre + '($ \\x.[<($x)>] [' + com + nl + '.])($m)\n', '<' + com + nl + '.>' + v + '\n'),
        (pre + '($import "i.yu")<($m)>\n', com + nl + 'i' + v + '\n<' + v + '>\n'),
        (pre + '($ (1 2) \\x.[<($x)>' + com + nl + '.])\n', '<1>' + com + nl + '.<2>' + com + nl + '.\n'),
        (pre + '(' + com + nl + '[<($m)>)]' + com, '(' + com + nl + '[<' + v + '>)]' + com),
    ][place]
    if place == 6:
        h.fs.write('i.yu', com + nl + 'i($m)\n')
        h.describe(text + ' i.yu: ' + com)
    else:
        h.describe(text)
    if place in (2, 3, 4, 5, 6, 7):
        # blanks at the borders of a substituted text are trimmed, its lines are indented, see P05 and P12
        h.assume('\n' not in com)
        h.assume('\r' not in com)
    r = pp(h, text, out=OUT[out], pp_skip_comments=mode, pp_trim_app_indent=h.flag('trim') if place in (0, 1, 8) else False)
    seen(h, r, unify_eol(want))
    h.cover('inert')


def off(h, kind, out, mode):
    """the same signs where comments are not skipped"""
    c = h.chars('c', 2, LETTER + 'abc.,;')
    v = h.char('v', LETTER)
    text = '($set m ' + v + ')<' + mark(kind, c[0] + '($m)' + c[1] + '($let x m [($x)])') + '\n[($m)]'
    want = '<' + mark(kind, c[0] + v + c[1] + v) + '\n[' + v + ']'
    h.describe(text)
    r = pp(h, text, out=OUT[out], pp_skip_comments=mode)
    h.observe('ok', r.ok)
    h.check(r.ok, 'a text without skipping is translated')
    h.check(h.eq(r.plain, want), 'a comment that is not skipped is processed')
    # an unfinished construct in it is an error
    bad = '<' + mark(kind, c[0] + '($set m ') + '\n'
    h.describe(bad)
    h.check(not pp(h, bad, out=OUT[out], pp_skip_comments=mode).ok, 'a comment that is not skipped is parsed')
    h.cover('off')


LIT = [('"', '"'), ("'", "'"), ('"""', '"""'), ("'''", "'''"), ('r"', '"'), ("u'", "'"), ('L"', '"'), ('b"', '"'), ("f'", "'")]
SIGN = ['//', '/*', '#', '*/', '/* */', '////']


def literal(h, out, i, j):
    """signs of comments inside a literal"""
    a, b = LIT[i]
    c = h.chars('c', 2, LETTER + ' /*#.')
    # escapes and the other quote
    e = h.choose('e', ['', '\\\\', '\\' + b[0], '"' if b[0] == "'" else "'", '\\n'])
    s = a + c[0] + SIGN[j] + e + c[1] + b
    v = h.char('v', LETTER)
    text = '($set m ' + v + ')<' + s + '($m) ' + s + '>\n($m)'
    want = '<' + s + v + ' ' + s + '>\n' + v
    h.describe(text)
    mode = h.choose('mode', [3, 2 if out == 'py' else 1])
    seen(h, pp(h, text, out=OUT[out], pp_skip_comments=mode), want)
    h.cover('literal')


def scan_c(h, t):
    """where the text ends: `text` or `line`; None if a comment or a literal is not closed"""
    i, n = 0, len(t)
    state = 'text'
    while i < n:
        c = t[i]
        if state == 'text':
            if c == '/' and i + 1 < n and t[i + 1] == '/':
                state, i = 'line', i + 2
                continue
            if c == '/' and i + 1 < n and t[i + 1] == '*':
                state, i = 'block', i + 2
                continue
            if c == '"':
                state = '"'
            elif c == "'":
                state = "'"
        elif state == 'line':
            if c == '\n':
                state = 'text'
        elif state == 'block':
            if c == '*' and i + 1 < n and t[i + 1] == '/':
                state, i = 'text', i + 2
                continue
        else:
            if c == '\\':
                # what is escaped must be on the line
                if i + 1 >= n or t[i + 1] == '\n':
                    return None
                i += 2
                continue
            if c == '\n':
                return None
            if c == state:
                state = 'text'
        i += 1
    return state


def scan_python(h, t):
    i, n = 0, len(t)
    state = 'text'
    while i < n:
        c = t[i]
        if state == 'text':
            if c == '#':
                state = 'line'
            elif c == '"' or c == "'":
                if t[i:i + 3] == c * 3:
                    state, i = ('"""' if c == '"' else "'''"), i + 3
                    continue
                state = '"' if c == '"' else "'"
        elif state == 'line':
            if c == '\n':
                state = 'text'
        elif c == '\\':
            if i + 1 >= n:
                return None
            i += 2
            continue
        elif len(state) == 1:
            if c == '\n':
                return None
            if c == state:
                state = 'text'
        elif t[i:i + 3] == state:
            state, i = 'text', i + 3
            continue
        i += 1
    return state


def free(h, out, n, first, mode):
    """any short text: the application behind it is processed unless it is in a comment"""
    al = '/*"\'\na\\' if out == 'c' else '#"\'\na\\r'
    c = h.chars('c', n, al)
    h.assume(c[0] == al[first])
    # a mark behind it closes nothing
    s = scan_c(h, c + ' ') if out == 'c' else scan_python(h, c + ' ')
    h.assume(s is not None)
    v = h.char('v', LETTER)
    text = '($set m ' + v + ')' + c + ' ($m)\n($m)'
    h.describe(text)
    if s == 'block':
        r = pp(h, text, out=OUT[out], pp_skip_comments=mode)
        h.observe('ok', r.ok)
        h.check(not r.ok and len(r.errors()) == 1, 'a comment without an end is refused')
        h.cover('unclosed')
        return
    h.assume(s in ('text', 'line'))
    r = pp(h, text, out=OUT[out], pp_skip_comments=mode, pp_trim_app_indent=False)
    seen(h, r, c + ' ' + ('($m)' if s == 'line' else v) + '\n' + v)
    h.cover('free')


NAMES = [('x.yu-c', 'c'), ('x.yu-h', 'c'), ('x.yu-py', 'py'), ('x.yu-PY', 'py'), ('x.yu-cpp', 'c'), ('x.yu-pyx', 'c'), ('x.yu-txt', 'c'), ('x.y.yu-py', 'py'), ('py.yu', 'c'), ('x.yu-', 'c')]


def auto(h, i, mode):
    """the mode `auto` looks at the name of the output; the option of the command line"""
    name, lang = NAMES[i]
    v = h.char('v', LETTER)
    text = '($set m ' + v + ')#($m)\n//($m)\n/*($m)*/\n($m)\n'
    h.fs.write(name, text)
    h.describe(name + ' ' + str(mode))
    skip = {'3': lang, '2': 'py', '1': 'c', '0': None, None: None}[mode]
    h.clear()
    r, st = h.crashes(lambda: h.yup.cli(['-q'] + ([] if mode is None else [['--pp-skip-comments', mode], ['--pp-skip-comments=' + mode]][h.choose('form', 2)]) + [name]))
    h.check(r == 'ok' and st == 0, 'the file is processed')
    out = [f for f in h.fs.listing() if f != name]
    h.check(len(out) == 1, 'one output')
    a, b = ('($m)' if skip == 'py' else v), ('($m)' if skip == 'c' else v)
    h.check(h.eq(h.fs.read(out[0]), '#' + a + '\n//' + b + '\n/*' + b + '*/\n' + v + '\n'), 'comments of the language of the output are skipped')
    h.cover('auto')


def TASKS(tier):
    q = tier == 'quick'
    t = []
    for kind in ('line', 'block', 'hash'):
        for k in range(len(NASTY)):
            for place in range(9):
                if q and place > 1 and k > 9 and (k + place) % 3:
                    continue
                t.append(('inert-%s-%d-%d' % (kind, k, place), 'inert', (kind, k, 2 if q else 3, place)))
    for kind in ('line', 'block', 'hash'):
        for out in ('c', 'py'):
            for mode in (0, 1, 2, 3):
                if {0: None, 1: 'c', 2: 'py', 3: out}[mode] != ('py' if kind == 'hash' else 'c'):
                    t.append(('off-%s-%s-%d' % (kind, out, mode), 'off', (kind, out, mode)))
    for out in ('c', 'py'):
        for i in range(len(LIT)):
            if out == 'c' and i in (2, 3):
                continue
            for j in range(len(SIGN)):
                t.append(('literal-%s-%d-%d' % (out, i, j), 'literal', (out, i, j)))
    for out in ('c', 'py'):
        for n in ((1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6)):
            for f in range(7):
                for mode in ((3,) if q and n < 4 else (1 if out == 'c' else 2,)):
                    t.append(('free-%s-%d-%d-%d' % (out, n, f, mode), 'free', (out, n, f, mode)))
    for i in range(len(NAMES)):
        for m in ('3', '2', '1', '0', None):
            t.append(('auto-%d-%s' % (i, m), 'auto', (i, m)))
    return t

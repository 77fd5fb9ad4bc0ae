# -*- coding: utf-8 -*-
META = {
    'id': 'P06',
    'bounds': 'decimal, octal (0.., 0o..), hexadecimal and binary integers of 1..4 (thorough 6) digits, floating numbers with 1..2 digits before and '
              'after the point and 0..2 in the exponent, with sign, gap of 0..2 characters after it and suffix, or a name of up to 3 (4) characters directly behind it; C strings and characters of 0..4 (5) characters over '
              'every accepted character, Python strings (prefixed, triple, continued) of 0..4 (5); at argument, list, function and text position',
    'relational': True,
    'covers': ['glued', 'int', 'float', 'string', 'unclosed', 'python'],
    'budget': {'quick': 100, 'thorough': 800},
    'outside': 'binary floating point is computed by the interpreter for every digit string within the bounds; C line splices within strings; literals of C over several lines; Python prefixes other than u and r',
    'assumptions': ['no line of a Python string over several lines holds white space only'],
}

DEC, OCT, HEX, BIN = '0123456789', '01234567', '0123456789abcdefABCDEF', '01'


def wrap(pos, lit):
    """literal at some position, its text in the output"""
    return [('($ (%s))', ''), ('($ \\p.[<($p)>] %s)', '<>'), ('($ (%s [;]))', ';'), ('($ %s ? 1 | 7)', ''), ('($let v %s v)', ''),
            ('($set v %s)($v)', ''), ('($ \\p:%s.($p))', ''), ('($ ((7 %s [;])))', '7;')][pos][0] % lit


def around(pos, val):
    if pos == 1:
        return '<' + val + '>'
    if pos == 2:
        return val + ';'
    if pos == 7:
        return '7' + val + ';'
    return val


def integer(h, kind, n, g, pos, py):
    al, pre, base = [(DEC, '', 10), (OCT, '0', 8), (HEX, '0x', 16), (HEX, '0X', 16), (BIN, '0b', 2), (OCT, '0o', 8), (BIN, '0B', 2), (OCT, '0O', 8)][kind]
    d = h.chars('d', n, al)
    if kind == 0:
        h.assume(n == 1 or d[0] != '0')
    sg = h.choose('sign', ['', '+', '-'])
    gap = h.chars('g', g, ' \t') if sg else ''
    suf = h.choose('suf', ['', 'l', 'L'] + (['LL', 'll'] if kind in (2, 3) else []))
    lit = sg + gap + pre + d + suf
    text = wrap(pos, lit)
    h.describe(text)
    r = pp(h, text, out='t.py' if py else 't.yugen')
    v = 0
    for c in d:
        v = v * base + int(c, 16)
    if sg == '-':
        v = -v
    out_is(h, r, around(pos, str(v)), 'an integer has its value in C')
    h.cover('int')


def floating(h, a, b, e, g, pos):
    ip = h.chars('a', a, '057')
    fp = h.chars('b', b, '019')
    sg = h.choose('sign', ['', '+', '-'])
    gap = h.chars('g', g, ' \t') if sg else ''
    ex = ''
    if e:
        ex = h.choose('e', ['e', 'E']) + h.choose('es', ['', '+', '-']) + h.chars('x', e, '012')
    lit = sg + gap + ip + '.' + fp + ex
    text = wrap(pos, lit)
    h.describe(text)
    r = pp(h, text)
    h.observe('ok', r.ok)
    h.check(r.ok, 'a floating number is accepted')
    h.observe('plain', r.plain)
    p = xplain(r.plain)
    # the number that is printed is the number that is written
    t = around(pos, '\0')
    k = t.index('\0')
    got = p[k:len(p) - (len(t) - k - 1)]
    h.check(float(got) == float(sg + ip + '.' + fp + ex), 'a floating number has its value in C')
    h.check(p[:k] + '\0' + p[len(p) - (len(t) - k - 1):] == t, 'text around')
    h.cover('float')


def glued(h, n, m, al):
    """a number and a name directly behind it"""
    d = h.chars('d', n, '123456789')
    w = h.chars('w', 1, LETTERS) + h.chars('v', m, al)
    lit = d + w
    text = '($(1 ' + lit + '))'
    h.describe(text)
    r = pp(h, text)
    if w[0] in 'lL':
        # the suffix; another number may follow
        w = w[1:]
        if w and w[0] in '0123456789':
            return
    if w == 'e':
        # a built-in constant
        return
    out_is(h, r, '1' + d + w, 'a number with a name directly behind it')
    h.cover('glued')


# no names of functions are made of them
LETTERS = 'eElLxXzfFuU'


def cstring(h, n, q, pos, al):
    body = h.chars('s', n, al)
    # every backslash takes the next character, no quote is left over
    i = 0
    esc = False
    while i < n:
        c = body[i]
        if c == '\\':
            h.assume(i + 1 < n and body[i + 1] != '\n' and body[i + 1] != '\r')
            i += 2
            continue
        h.assume(c != q)
        i += 1
    lit = q + body + q
    if pos == 9:
        text, want = 'x' + lit + 'y', 'x' + lit + 'y'
    else:
        text, want = wrap(pos, lit), around(pos, lit)
    h.describe(text)
    r = pp(h, text)
    out_is(h, r, unify_eol(want), 'a literal is printed as it is written')
    h.cover('string')


def unclosed(h, n, q, pos):
    """no closing quote: not a literal, so a form is missing"""
    body = h.chars('s', n, 'ab c\\\t' + ('"' if q == "'" else "'"))
    if n and body[n - 1] == '\\' and pos == 0:
        body = body + q
    text = ['($ \\p.7 %s)', '($ (%s))', '($ %s ? 1 | 7)'][pos % 3] % (q + body)
    h.assume('"' not in body or pos != 0)
    h.describe(text)
    # another kind of literal may be inside, nothing closes this one
    r = pp(h, text)
    h.check(not r.ok, 'an unclosed literal is not accepted')
    h.check(len(r.errors()) > 0, 'an unclosed literal is reported')
    h.cover('unclosed')


def pystring(h, n, q, k, pos, al):
    """q: quotes, k: prefix"""
    pre = ['', 'r', 'u', 'R', 'U', 'ur', 'UR', 'uR'][k]
    body = h.chars('s', n, al)
    i = 0
    while i < n:
        c = body[i]
        if c == '\\':
            h.assume(i + 1 < n)
            i += 2
            continue
        if len(q) == 1:
            h.assume(c != '\n' and c != q)
        else:
            h.assume(c != q[0] or (i + 1 < n and body[i + 1] != q[0] and i + 1 < n))
        i += 1
    lit = pre + q + body + q
    for ln in body.split('\n')[1:-1]:
        h.assume(not ln or ln.strip(' \t'))
    if pos == 9:
        text, want = 'x ' + lit + ' y', 'x ' + lit + ' y'
    else:
        text, want = wrap(pos, lit), around(pos, lit)
    h.describe(text)
    r = pp(h, text, out='t.py')
    out_is(h, r, want, 'a literal is printed as it is written')
    h.cover('python')


def TASKS(tier):
    q = tier == 'quick'
    t = []
    for kind in range(8):
        for n in ((1, 2, 3) if q else (1, 2, 3, 4, 5)):
            if n == 3 and kind in (2, 3) and q and False:
                continue
            for pos in (range(8) if not q else (kind % 8, (kind + n) % 8)):
                t.append(('int%d-%d-%d' % (kind, n, pos), 'integer', (kind, n, n % 3, pos, n == 2)))
    for a in (1, 2):
        for b in (1, 2):
            for e in ((0, 1, 2) if not q else (0, 1)):
                t.append(('float%d%d%d' % (a, b, e), 'floating', (a, b, e, (a + b) % 3, (a + b + e) % 8)))
    for n in range(0, 4 if q else 5):
        for qu in ('"', "'"):
            for pos in (0, 1, 2, 4, 6, 9):
                if q and n > 2 and pos in (4, 6):
                    continue
                t.append(('cstr%d%s-%d' % (n, 'dq'[qu == "'"], pos), 'cstring', (n, qu, pos, LINE)))
    for n in range(0, 4 if q else 6):
        for qu in ('"', "'"):
            for pos in range(3):
                t.append(('open%d%s-%d' % (n, 'dq'[qu == "'"], pos), 'unclosed', (n, qu, pos)))
    for n in range(0, 4 if q else 5):
        for iq, qu in enumerate(('"', "'", '"""', "'''")):
            for k in range(8) if n < 3 or not q else (0, 1):
                for pos in ((n + k + iq) % 3, 9):
                    t.append(('py%d-%d-%d-%d' % (n, iq, k, pos), 'pystring', (n, qu, k, pos, ASCII)))
    for n in (1, 2):
        for m in range(0, 3 if q else 4):
            t.append(('glued%d-%d' % (n, m), 'glued', (n, m, '0123456789exE_')))
    return t

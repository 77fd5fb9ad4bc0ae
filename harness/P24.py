# -*- coding: utf-8 -*-
META = {
    'id': 'P24',
    'bounds': 'texts of 0..2 (thorough 3) characters over everything accepted, of 3 (4) characters over quotes, escapes, hexadecimal digits and characters beyond ASCII, in both quotes, for outputs of C and of '
              'Python, given as a quote, a computed text, a parameter, code or a name; literals with 3 (4) symbolic characters inside over quotes, backslashes, letters of escapes, digits and line ends, '
              'in every form of literal of both languages; texts without quotes; twice quoted texts',
    'covers': ['quote', 'back', 'length', 'unquote', 'plain', 'twice', 'value'],
    'budget': {'quick': 150, 'thorough': 850},
    'relational': True,
    'outside': 'escapes which C and Python read in different ways (`\\\\?`, hexadecimal escapes of other than two digits), \\\\N{name}, backslashes in a text without quotes (they are escapes), strings of '
               'several lines in C, prefixes other than u and r',
}

LETTER = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
ANY = ''.join(chr(c) for c in range(0x20, 0x100) if chr(c) not in '()') + '\t\n'
HARD = '"\'\\\n\xe9\xffa0x\t '
OCT = '01234567'
HEX = '0123456789abcdefABCDEF'
ESC = {'n': '\n', 't': '\t', 'r': '\r', 'a': '\a', 'b': '\b', 'f': '\f', 'v': '\v', '\\': '\\', '"': '"', "'": "'"}


def digit(c):
    for i, x in enumerate('0123456789abcdef'):
        if c == x or i > 9 and c == x.upper():
            return i


def denotes(body, py, raw=False):
    """the text denoted by what is between the quotes, None if it depends on the language"""
    out, i, n = '', 0, len(body)
    while i < n:
        c = body[i]
        if c != '\\' or raw:
            out = out + c
            i += 1
            continue
        if i + 1 >= n:
            return None
        c = body[i + 1]
        if c in OCT:
            j = i + 1
            v = 0
            while j < n and j < i + 4 and body[j] in OCT:
                v = v * 8 + digit(body[j])
                j += 1
            if v > 255:
                return None
            out = out + chr(v)
            i = j
        elif c == 'x':
            j = i + 2
            v = 0
            while j < n and body[j] in HEX:
                v = v * 16 + digit(body[j])
                j += 1
                if py and j == i + 4:
                    break
            if j != i + 4:
                return None
            out = out + chr(v)
            i = j
        elif c == '\n':
            if not py:
                return None
            i += 2
        elif c in ESC:
            for k in ESC:
                if c == k:
                    out = out + ESC[k]
                    break
            i += 2
        else:
            if not py or c in 'uUN':
                return None
            out = out + '\\' + c
            i += 2
    return out


def open_quote(body, mark):
    """a mark inside that is not escaped"""
    i = 0
    while i < len(body):
        if body[i] == '\\':
            i += 2
            continue
        if body[i:i + len(mark)] == mark:
            return True
        i += 1
    return False


def ask(h, call, out, pre=''):
    """exact value of a call"""
    t = pre + '($add (`<) ($add ' + call + ' (`>)))'
    h.describe(t)
    r = pp(h, t, out=out, pp_trim_app_indent=False)
    h.observe('ok', r.ok)
    h.check(r.ok, 'a call is accepted')
    h.observe('plain', xplain(r.plain))
    p = '' + str(r.plain)
    h.check(p[:1] == '<' and p[-1:] == '>', 'a text')
    return p[1:-1]


def number(h, call, out, pre=''):
    t = pre + call
    r = pp(h, t, out=out)
    h.observe('ok', r.ok)
    h.check(r.ok, 'a length is given')
    return r.plain


def forms(h, s, k):
    """the same text in different ways: what is before, the value"""
    return [('', '(`' + s + ')'), ('', '($add (`' + s[:1] + ') (`' + s[1:] + '))'), ('($set v (`' + s + '))', 'v'), ('($set f \\x.($x))', '($f (`' + s + '))'), ('($macro m (x) ($x))', '(`' + s + ')')][k]


def quote(h, fn, n, al, form, out, deep=True, s=None):
    mark = '"' if fn == 'q' else "'"
    s = h.chars('s', n, al) if s is None else s
    pre, v = forms(h, s, form)
    lit = ask(h, '($' + fn + ' ' + v + ')', out, pre)
    h.check(len(lit) >= 2 and lit[:1] == mark and lit[-1:] == mark, 'a quoted text is between quotes')
    body = lit[1:-1]
    h.check('\n' not in body, 'a literal is on one line')
    h.check(not open_quote(body, mark), 'no quote inside ends the literal')
    if deep:
        d = denotes(body, out == 't.py')
        h.check(d is not None, 'both languages read the literal in the same way')
        h.check(len(d) == n and h.eq(d, s), 'the literal denotes the text')
    h.cover('quote')
    back = ask(h, '($unq ($' + fn + ' ' + v + '))', out, pre)
    h.check(len(back) == n and h.eq(back, s), 'unquoting returns the text')
    h.cover('back')
    h.check(number(h, '($strlen ($' + fn + ' ' + v + '))', out, pre) == str(n), 'the length of a literal is that of the text')
    # the literal written to a source
    again = ask(h, '($unq ' + lit + ')', out)
    h.check(len(again) == n and h.eq(again, s), 'the literal in a source is read back')
    h.check(number(h, '($strlen ' + lit + ')', out) == str(n), 'the length of the literal in a source')
    h.cover('length')


def twice(h, a, b, n, out):
    s = h.chars('s', n, HARD)
    t = '(`' + s + ')'
    one = ask(h, '($' + a + ' ' + t + ')', out)
    r = ask(h, '($unq ($' + b + ' ($' + a + ' ' + t + ')))', out)
    h.check(len(r) == len(one) and h.eq(r, one), 'unquoting undoes the last quoting')
    r = ask(h, '($unq ($unq ($' + b + ' ($' + a + ' ' + t + '))))', out)
    h.check(len(r) == n and h.eq(r, s), 'unquoting twice')
    h.check(number(h, '($strlen ($' + b + ' ($' + a + ' ' + t + ')))', out) == str(len(one)), 'the length of what is quoted twice')
    h.cover('twice')


# literals of a language: prefix, quote
FORMS_C = [('', '"'), ('', "'")]
FORMS_PY = [('', '"'), ('', "'"), ('', '"""'), ('', "'''"), ('r', '"'), ('R', "'"), ('u', '"'), ('U', "'"), ('r', "'''"), ('u', '"""')]


def unquote(h, py, i, n, al, lead):
    """a literal in a source"""
    prefix, mark = (FORMS_PY if py else FORMS_C)[i]
    out = 't.py' if py else 't.c'
    s = h.chars('s', n, al)
    body = lead + s
    raw = prefix in ('r', 'R')
    # it is one literal
    h.assume(not open_quote(body, mark))
    k = 0
    j = len(body)
    while j and body[j - 1] == '\\':
        j -= 1
        k += 1
    h.assume(k % 2 == 0)
    if len(mark) == 1:
        m = 0
        while m < len(body):
            if body[m] == '\\' and m + 1 < len(body):
                h.assume(py or body[m + 1] != '\n')
                m += 2
                continue
            h.assume(body[m] != '\n')
            m += 1
    else:
        h.assume(body[-1:] != mark[0])
        h.assume(body[:1] != mark[0])
    if raw:
        h.assume('\n' not in body)
    d = denotes(body, py, raw)
    h.assume(d is not None)
    lit = prefix + mark + body + mark
    r = ask(h, '($unq ' + lit + ')', out)
    h.check(len(r) == len(d) and h.eq(r, d), 'unquoting gives the text which the literal denotes')
    h.check(number(h, '($strlen ' + lit + ')', out) == str(len(d)), 'the length of a literal is the number of characters which it denotes')
    # known only when the function is applied
    r = ask(h, '($f ' + lit + ')', out, '($set f \\x.($unq x))')
    h.check(len(r) == len(d) and h.eq(r, d), 'unquoting of a parameter')
    h.check(number(h, '($ \\x.($strlen x) ' + lit + ')', out) == str(len(d)), 'the length of a parameter')
    h.cover('unquote')


def plain(h, n, out):
    """a text without quotes"""
    s = h.chars('s', n, ANY)
    h.assume('\\' not in s)
    h.assume(s[:1] not in ('"', "'"))
    if n > 1 and out == 't.py':
        h.assume(not (s[0] in 'uUrR' and s[1] in '"\''))
    h.assume(n < 3 or out != 't.py' or not (s[0] in 'uUrR' and s[1] in 'uUrR' and s[2] in '"\''))
    r = ask(h, '($unq (`' + s + '))', out)
    h.check(len(r) == n and h.eq(r, s), 'a text without quotes is left alone')
    h.check(number(h, '($strlen (`' + s + '))', out) == str(n), 'the length of a text')
    h.check(number(h, '($strlen ($add (`' + s + ') (`)))', out) == str(n), 'the length of a computed text')
    h.cover('plain')


VALUES = [('%s', '%s'), ('-%s', '-%s'), ('($add 1%s 0)', '1%s'), ('a%s', 'a%s'), ('($ \\x.($x) b%s)', 'b%s'), ('[c%s]', 'c%s'), ('1.%s5', '1.%s5'), (',,d%s', 'd%s'), ('($upper (`e%s))', 'E%s')]


def value(h, fn, i, out):
    """other values"""
    d = h.chars('d', 1, '123456789')
    v, w = [x.replace('%s', d) for x in VALUES[i]]
    mark = '"' if fn == 'q' else "'"
    r = ask(h, '($' + fn + (v if v[:1] == ',' else ' ' + v) + ')', out)
    h.check(h.eq(r, mark + w + mark), 'the text of a value is quoted')
    if v[:1] != ',':
        r = ask(h, '($unq ($' + fn + ' ' + v + '))', out)
        h.check(h.eq(r, w), 'unquoting gives the text of the value')
    h.check(number(h, '($strlen ($' + fn + (v if v[:1] == ',' else ' ' + v) + '))', out) == str(len(w)), 'the length of a quoted value')
    h.cover('value')


def TASKS(tier):
    q = tier == 'quick'
    t = []
    for fn in ('q', 'qs'):
        for out in ('t.c', 't.py'):
            for form in range(5):
                for n in (0, 1):
                    t.append(('quote-%s-%s-%d-%d' % (fn, out, form, n), 'quote', (fn, n, ANY, form, out)))
            for form in ((0,) if q else (0, 1, 2, 3)):
                for k in range(0, len(ANY), 20):
                    t.append(('quote2-%s-%s-%d-%d' % (fn, out, form, k), 'quoted', (fn, 2, k, ANY, form, out, q)))
            for form in ((2 if fn == 'q' else 0,) if q else (0, 1, 2, 3, 4)):
                for n in ((3,) if q else (3, 4)):
                    for k in range(len(HARD)):
                        t.append(('quote3-%s-%s-%d-%d-%d' % (fn, out, form, n, k), 'quoted', (fn, n, k, HARD, form, out)))
    for a in ('q', 'qs'):
        for b in ('q', 'qs'):
            for n in (0, 1, 2) if q else (0, 1, 2, 3):
                t.append(('twice-%s-%s-%d' % (a, b, n), 'twice', (a, b, n, 't.py' if a == b else 't.c')))
    for py in (False, True):
        for i in range(len(FORMS_PY if py else FORMS_C)):
            for n in (0, 1, 2, 3) if q else (0, 1, 2, 3, 4):
                t.append(('unq-%d-%d-%d' % (py, i, n), 'unquote', (py, i, n, '"\'\\nxa07\n' if n < 4 else '"\'\\na7', '')))
            for k, lead in enumerate(('\\x', '\\', 'a\\', '\\0', '\\1', '\\\\')):
                t.append(('unqe-%d-%d-%d' % (py, i, k), 'unquote', (py, i, 2, '0157fA\\n"\'' if q else '01234567cfAB\\nrtabv"\'', lead)))
    for n in (0, 1, 2):
        for out in ('t.c', 't.py'):
            t.append(('plain%d-%s' % (n, out), 'plain', (n, out)))
    for fn in ('q', 'qs'):
        for i in range(len(VALUES)):
            for out in ('t.c', 't.py'):
                t.append(('value-%s-%d-%s' % (fn, i, out), 'value', (fn, i, out)))
    return t


def quoted(h, fn, n, k, al, form, out, hard=False):
    """texts whose first character is among 20 (or is the one) at the place k"""
    c = h.chars('s', n, al)
    h.assume(c[0] in (al[k:k + 20] if al is ANY else al[k]))
    # the decoder splits every character
    quote(h, fn, n, al, form, out, not hard, c)

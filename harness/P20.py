# -*- coding: utf-8 -*-
META = {
    'id': 'P20',
    'bounds': 'magic comment in the first or in the second line (after a comment of 0..2 symbolic characters or an empty line) and 1..2 blanks before it, 0..3 symbolic characters before "coding", ":" or "=", 0..2 blanks, "yupp" in every letter case, '
              'no base encoding or one of 1..3 (thorough 4) symbolic characters, 0..3 symbolic characters behind it, 0..3 symbolic characters of code; 10 kinds of text that declares nothing; '
              'names of codecs: every letter case of "yupp" with 22 known and unknown encodings, and any 0..5 (thorough 6) symbolic characters; headers read again; generated code that is good, cannot be translated or is no Python',
    'covers': ['alone', 'base', 'second', 'other', 'lookup', 'unknown', 'header', 'decode', 'failed'],
    'budget': {'quick': 120, 'thorough': 800},
    'relational': True,
    'outside': 'white space before the magic comment (it is dropped), declarations followed by a character of a name that is no ASCII letter, digit, "-", "_" or ".", an encoding that ends with a dot, carriage returns and form feeds in the header',
}

NAME = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
REM = ''.join(c for c in LINE if c not in '\t') + '\t'
AFTER = ''.join(c for c in REM if not (c.isalnum() or c in '-_.'))

CODE = ''.join(c for c in ACCEPT if c not in '\r\\\'"#()`$')


def PREPARE(h):
    h.package()
    h.module('pylib.yutraceback')


def yupp(h):
    """the name in any letter case"""
    return h.char('y', 'yY') + h.char('u', 'uU') + h.char('p', 'pP') + h.char('q', 'pP')


def magic(h, where, npre, nbase, nafter, ncode):
    pre = h.chars('a', npre, REM)
    sep = h.choose('sep', [':', '='])
    gap = h.choose('gap', ['', ' ', '\t '])
    base = h.chars('b', nbase, NAME)
    after = (h.char('f', AFTER) + h.chars('g', nafter - 1, REM)) if nafter else ''
    code = h.chars('c', ncode, CODE)
    decl = '#' + pre + 'coding' + sep + gap + yupp(h) + ('.' + base if nbase else '') + after
    clean = '#' + pre + 'coding' + sep + gap + base + after if nbase else ''
    text = [decl, '#' + h.chars('s', 1, REM) + '\n' + decl, '#!/usr/bin/env\n' + decl, '\n' + decl, ' ' + decl, '\t\n ' + decl][where]
    head = ['', text[:2] + '\n', '#!/usr/bin/env\n', '', '', ''][where]
    if where == 1:
        h.assume('($' not in text)
    text = text + '\n' + code
    h.describe(text)
    r = pp(h, text, 't.yu-py', 't.py')
    out_is(h, r, head + clean + '\n' + code, 'the magic comment')
    h.observe('shrink', r.shrink)
    h.check(r.shrink == [1, 2, 2, 2, 1, 2][where], 'the number of lines that are removed')
    h.cover('base' if nbase else 'alone')
    if where:
        h.cover('second')


def whole(h, k):
    """the source consists of a magic comment only"""
    text = ['# coding: yupp', '# coding: yupp.cp1252', '#!\n# coding: yupp', '\n# coding: yupp'][k]
    h.describe(text)
    r = pp(h, text + h.chars('c', 1, AFTER).replace('\n', ' '), 't.yu-py', 't.py')
    h.observe('ok', r.ok)
    h.check(r.ok, 'the source is accepted')
    h.check('yupp' not in r.plain, 'the magic comment is removed')
    h.cover('alone')


OTHER = ['A\nB\n# coding: yupp\n', 'A # coding: yupp\n', '"# coding: yupp"\n', '# coding yupp\n', '# coding: yuppX\n', '# coding: Xyupp\n', '# codin: yupp\n', '"""\n# coding: yupp\n"""\n', '\n\n# coding: yupp\n', '# coding:: yupp\n', '# A\n# B\n# coding: yupp\n']


def other(h, k, py):
    """nothing is declared"""
    text = OTHER[k].replace('A', h.char('a', ASCII.replace('\n', '').replace('\t', '').replace(' ', '').replace('#', '').replace('(', '').replace('"', '').replace("'", ''))).replace('B', h.char('b', NAME)).replace('X', h.char('x', NAME.replace('-', '')))
    h.describe(text)
    r = pp(h, text, 't.yu-py' if py else 't.yu-c', 't.py' if py else 't.c')
    out_is(h, r, text, 'a text that declares nothing is kept')
    h.check(r.shrink == 0, 'no lines are removed')
    h.cover('other')


def elsewhere(h, k):
    """in another language it is an ordinary text"""
    text = '# coding: yupp' + ['', '.utf-8'][k] + '\n' + h.chars('c', 1, NAME) + '\n'
    h.describe(text)
    r = pp(h, text, 't.yu-c', h.choose('out', ['t.c', 't', 't.pyc', 'py.h', 't.yugen']))
    out_is(h, r, text, 'a magic comment in another language')
    h.check(r.shrink == 0, 'no lines are removed')
    h.cover('other')


KNOWN = ['utf-8', 'utf8', 'utf_8', 'latin-1', 'iso-8859-1', 'cp1252', 'cp1251', 'koi8-r', 'ascii', 'utf_16', 'mac_roman']
UNKNOWN = ['', 'nosuch', 'yupp', 'utf-99', 'cp0', 'utf-8.x', '.utf-8', 'python', 'utf8utf8', 'x.y', ' ']


def lookup(h, k):
    f = h.package().yupp_search_function
    y = yupp(h)
    r = f(y)
    h.check(r is not None and r.name == 'yupp', 'the codec without an encoding')
    h.check(r.encode('a\xe9')[0] == 'a\xe9'.encode('utf-8'), 'the default encoding is UTF-8')
    e = KNOWN[k]
    h.describe(y + '.' + e)
    r = f(y + '.' + e)
    h.observe('found', r is not None)
    h.check(r is not None and r.name == 'yupp', 'the codec with a known encoding')
    x = 'a' if e == 'ascii' else 'b\u0440' if e in ('koi8-r', 'cp1251') else 'a\xe9'
    h.check(r.encode(x)[0] == x.encode(str(e)), 'the encoding')
    h.check(r.incrementalencoder().encode(x, True) == x.encode(str(e)), 'the incremental encoding')
    h.cover('lookup')
    u = UNKNOWN[k]
    h.check(f(y + '.' + u) is None, 'an unknown encoding')
    x = h.char('x', 'abpxyY-_ ')
    h.check(f(y + x + '.' + e) is None and f(x + y + '.' + e) is None and f(y[1:] + '.' + e) is None and f(y + y + '.' + e) is None, 'the name of another codec')
    h.check(f(y + e) is None and f(y + '-' + e) is None and f('x' + y + '.' + e) is None and f(e) is None, 'a wrong format')
    h.cover('unknown')


def names(h, n, pre):
    """any short name"""
    s = h.chars('n', n, 'yupYUP.x8_- ')
    f = h.package().yupp_search_function
    s = pre + s
    h.describe(s)
    r = f(s)
    low = s.lower()
    if low == 'yupp':
        h.check(r is not None, 'the codec')
        h.cover('lookup')
    elif low.startswith('yupp.'):
        # u8 is an alias of UTF-8, 8859 an alias of Latin-1
        known = low[5:] in ('u8', 'utf', 'utf8', 'utf_8', 'u_8') or low[5:].strip(' -_').replace('-', '_').replace(' ', '_') in ('u8',)
        h.observe('found', r is not None)
        if low[5:] == 'u8' and s[5:] == 'u8':
            h.check(r is not None, 'a known encoding')
        elif '.' in low[5:] or 'x' in low[5:] or 'y' in low[5:]:
            h.check(r is None, 'an unknown encoding')
    else:
        h.check(r is None, 'another name')
        h.cover('unknown')


def header(h, k, nbody):
    """the header that is read again"""
    body = h.chars('c', nbody, ASCII.replace('\n', ''))
    first = ['# coding: yupp\n', '# coding=yupp\n', '# vim: set fileencoding=YUPP.utf-8 :\n', '#! x\n# coding: yupp\n', '#!/coding: x\n# -*- coding:yupp.latin-1 -*-\n', '\n# coding = x\n', '# coding:\tyupp\n', '#'][k]
    if k == 5:
        first = '\n# coding: yupp\n'
    text = first + body + '\n' + 'x = 1\ny = 2\n'
    h.describe(text)
    if k == 7:
        r = h.package().read_header('missing.py')
        h.check(h.eq(r, ''), 'no file, no header')
        h.cover('header')
        return
    h.fs.write('x.py', text)
    r = h.package().read_header('x.py')
    h.observe('header', r)
    h.check(h.eq(r, first), 'the header ends with the magic comment')
    h.cover('header')


def place(h, subst, n):
    h.check(len(subst) == 1, 'the place of the code is recorded')
    for a, b in subst.items():
        h.observe('shrink', b[1])
        h.check(a.startswith('/') and a.endswith('/x.py') and b[0].startswith('/') and b[0].endswith('/x.yugen.py') and b[1] == n, 'the place of the code')


def decode(h, k, head):
    """from the source to the code that is run"""
    first, n = [('# coding: yupp\n', 1), ('# coding=yupp.latin-1\n', 1), ('#!x\n# coding: YUPP\n', 2)][head]
    c = h.char('c', 'ABCabc019_ +')
    body = ["x = '" + c + "' ($ (\"y\") )\n", "($set v '" + c + "')x = ($v)\n", '($' + c, "($inc 'x')" + c, 'x = = ' + c + '\n', '($sin)' + c, "x = '" + c][k]
    text = first + body
    h.fs.write('x.py', text, mtime=5)
    h.describe(text)
    pkg = h.package()
    tb = h.module('pylib.yutraceback')
    f = h.yup.open('x.py', 'r')
    h.clear()
    code = pkg.decode_stream('x.py', f)
    h.observe('code', code)
    good = k < 2
    if good:
        h.check(h.eq(code, h.fs.read('x.yugen.py')), 'the code is the generated one')
        h.check(h.eq(code, ('#!x\n' if head == 2 else '') + ('# coding=latin-1' if head == 1 else '') + '\n' + (body.replace('($ ("y") )', '"y"') if k == 0 else "x = '" + c + "'\n")), 'the generated code')
        subst = tb.substitution.files
        place(h, subst, n)
        h.cover('decode')
        # once more
        h.fs.utime('x.yugen.py', 10)
        subst.clear()
        f = h.yup.open('x.py', 'r')
        h.check(h.eq(pkg.decode_stream('x.py', f), code), 'the same code the next time')
        place(h, subst, n)
    else:
        h.check(h.eq(code, ''), 'no code of a source that fails')
        h.cover('failed')


def whole_decoder(h, k):
    """the decoder of the codec"""
    enc = ['', '.cp1252', '.utf-8', '.koi8-r'][k]
    ch = ['\xe9', '\xe9', '\u0436', '\u0436'][k]
    d = h.choose('body', ['x = "%s"', 'x = "($ (%s) )"', 'y = 0\nx = "%s"'])
    first = '# coding: yupp' + enc + '\n'
    h.fs.write('m.py', first + 'x\n')
    h.set_argv(['m.py'])
    info = h.package().yupp_search_function('yupp' + enc)
    h.check(info is not None, 'the codec')
    data = ('\n' + (d % ch) + '\n').encode(str(enc[1:]) or 'utf-8')
    code, n = info.decode(data)
    h.observe('code', code)
    h.check(n == len(data), 'all bytes are used')
    h.check(h.eq(code, ('# coding: ' + enc[1:] + '\n' if enc else '') + '\n' + (d % ch) + '\n'), 'the code')
    i = info.incrementaldecoder()
    h.check(i.decode(b'', False) == '', 'nothing is decoded before the end')
    h.cover('decode')


def TASKS(tier):
    q = tier == 'quick'
    t = []
    for w in range(6):
        for npre in (0, 1, 2) if q else (0, 1, 2, 3):
            for nb in (0, 1, 2) if q else (0, 1, 2, 3, 4):
                for na in (0, 1, 2) if q else (0, 1, 2, 3):
                    if not q or npre + nb + na < 4:
                        t.append(('magic%d-%d%d%d' % (w, npre, nb, na), 'magic', (w, npre, nb, na, 1)))
        t.append(('code%d' % w, 'magic', (w, 1, 1, 0, 2)))
    for k in range(4):
        t.append(('whole%d' % k, 'whole', (k,)))
    for k in range(len(OTHER)):
        t.append(('other%d' % k, 'other', (k, True)))
    for k in range(2):
        t.append(('elsewhere%d' % k, 'elsewhere', (k,)))
    for k in range(len(KNOWN)):
        t.append(('lookup%d' % k, 'lookup', (k,)))
    for n in range(6 if q else 7):
        t.append(('names%d' % n, 'names', (n, '')))
    for n in range(3):
        t.append(('suffix%d' % n, 'names', (n, 'yupp.')))
    for k in range(8):
        for n in (0, 2):
            t.append(('header%d-%d' % (k, n), 'header', (k, n)))
    for k in range(7):
        for hd in range(3):
            t.append(('decode%d-%d' % (k, hd), 'decode', (k, hd)))
    for k in range(4):
        t.append(('codec%d' % k, 'whole_decoder', (k,)))
    return t

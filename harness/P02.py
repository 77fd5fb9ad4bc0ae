# -*- coding: utf-8 -*-
META = {
    'id': 'P02',
    'bounds': 'texts of 0..4 (thorough 5) characters over all accepted characters and of 6 (thorough 8) characters over '
              'LF, SPACE, TAB, CR, U+00A0, letter; plain and browse output; the same characters inside programs with '
              'applications, loops and code enclosures',
    'covers': ['reduced', 'untouched', 'idempotent'],
    'budget': {'quick': 90, 'thorough': 800},
}

WS = '\n \t\ra\xa0'
BLANK = ' \t\r'


def is_blank(ln):
    for c in ln:
        if c not in BLANK:
            return False
    return True


def is_white(ln):
    return ln.strip() == ''


def related(h, src, out):
    """out is src with trailing blanks and surplus blank lines removed"""
    a = src.split('\n')
    b = out.split('\n')
    # blanks after the last end of line are not a line
    if is_blank(b[-1]):
        b = b[:-1]
    i = 0
    prev = False
    for k, ln in enumerate(b):
        if is_blank(ln):
            h.check(not prev, 'no two blank lines in succession')
            prev = True
            # it stands for a run of blank lines
            h.check(i < len(a) and is_white(a[i]), 'no blank line is invented')
            while i < len(a) and is_blank(a[i]):
                i += 1
            continue
        prev = False
        while i < len(a) and is_white(a[i]) and not (a[i] == ln):
            i += 1
        h.check(i < len(a), 'no line is invented')
        s = a[i]
        h.check(len(ln) <= len(s) and ln == s[:len(ln)], 'lines are not altered')
        h.check(is_white(s[len(ln):]), 'only trailing blanks are removed')
        i += 1
    for s in a[i:]:
        h.check(is_white(s), 'no line is lost')


def reduces(h, n, alphabet, browse, form):
    body = h.chars('c', n, alphabet)
    pre, post = FORMS[form]
    h.assume('($' not in body)
    h.assume('(`' not in body)
    text = pre + body + post
    h.describe(text)
    off = pp(h, text, pp_browse=browse, pp_reduce_emptiness=False)
    h.assume(off.ok)
    if form == 0:
        out_is(h, off, unify_eol(text), 'with the option off the text is not touched')
        h.cover('untouched')
    on = pp(h, text, pp_browse=browse, pp_reduce_emptiness=True)
    h.observe('on', on.plain)
    h.check(on.ok, 'reducing emptiness does not make translation fail')
    src, out = xplain(off.plain), xplain(on.plain)
    related(h, src, out)
    h.cover('reduced')
    if form == 0:
        again = pp(h, out, pp_browse=browse, pp_reduce_emptiness=True)
        h.check(h.eq(xplain(again.plain), out), 'reducing a reduced text changes nothing')
        h.cover('idempotent')


FORMS = [
    ('', ''),
    ('a\n', '\n\nb\n'),
    ('($set a 1)\n', '\n($a)\n'),
    ('  ($ \\p.[x', '($p)] 1)\n\n;\n'),
    ('{\n\t($(1 2) \\i.]\n', '\n\n\t($i)\n\t[ )\n}\n'),
    ('\n\n($! c )\n\n', '\n\n\n'),
]


def TASKS(tier):
    q = tier == 'quick'
    t = []
    for br in (False, True):
        b = '-browse' if br else ''
        n = 4 if q else 5
        for k in range(n + 1):
            t.append(('all-%d%s' % (k, b), 'reduces', (k, ACCEPT, br, 0)))
        t.append(('ws%s' % b, 'reduces', (6 if q else 8, WS, br, 0)))
        t.append(('nl%s' % b, 'reduces', (8 if q else 10, '\n a', br, 0)))
        for f in range(1, len(FORMS)):
            t.append(('form%d%s' % (f, b), 'reduces', (5 if q else 7, '\n \ta', br, f)))
            t.append(('forma%d%s' % (f, b), 'reduces', (2 if q else 3, ACCEPT, br, f)))
    return t

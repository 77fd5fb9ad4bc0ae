# -*- coding: utf-8 -*-
META = {
    'id': 'P05',
    'bounds': 'bodies of 0..5 (thorough 7) characters over LF, SPACE, TAB, letters, indentation of 0..2 characters over SPACE and TAB, with '
              'and without text before the application; code, function, nested function, loop, macro, macro with definitions, conditional; '
              'definitions, macros and comments with 0..4 (6) characters of spacing; plain and browse output; option on and off',
    'covers': ['reindented', 'off', 'deleted', 'kept', 'nested'],
    'budget': {'quick': 100, 'thorough': 800},
    'assumptions': ['the first and the last line of a text do not consist of white space', 'the white space on lines that hold nothing else is not compared'],
}

AL = '\n \tabcdefghijklmnopqrstuvwxyzABCDEFGH'
SP = ' \t'


def blank(ln):
    return all(c in ' \t' for c in ln)


def neat(val):
    if '\n' not in val:
        return not val or not blank(val)
    f, l = val[:val.find('\n')], val[val.rfind('\n') + 1:]
    return (not f or not blank(f)) and (not l or not blank(l))


def lead(ln):
    i = 0
    while i < len(ln) and ln[i] in ' \t':
        i += 1
    return ln[:i]


def reindent(text, indent):
    """lines moved together to the indentation, the first one has it already"""
    lns = text.split('\n')
    common = None
    for ln in lns:
        if blank(ln):
            continue
        l = lead(ln)
        if common is None:
            common = l
        else:
            k = 0
            while k < len(common) and k < len(l) and common[k] == l[k]:
                k += 1
            common = common[:k]
    c = len(common) if common is not None else 0
    out = []
    for i, ln in enumerate(lns):
        out.append('' if blank(ln) else ln[c:] if i == 0 else indent + ln[c:])
    return '\n'.join(out)


def indent_of(text):
    """indentation of what follows the text"""
    b = text.rfind('\n') + 1
    return text[b:] if blank(text[b:]) else ''


def same(h, r, want, what):
    """equal but for the white space of blank lines"""
    h.observe('ok', r.ok)
    h.check(r.ok, what + ': translation fails')
    h.observe('plain', xplain(r.plain))
    a, b = xplain(r.plain).split('\n'), want.split('\n')
    h.check(len(a) == len(b), what + ': the number of lines')
    for x, y in zip(a, b):
        if blank(y):
            h.check(blank(x), what + ': a blank line')
        else:
            h.check(h.eq(x, y), what)


def app(h, form, n, k, pre, browse, trim):
    body = h.chars('b', n, AL)
    ind = h.chars('i', k, SP)
    head = ['', '\n', 'x', 'y\n', ' ', ')\n\n'][pre]
    tail = h.choose('t', ['', ' z', '\n w', '\n'])
    at = head + ind
    dfn = None
    if form == 0:
        text, val = '($ [' + body + '])', body
    elif form == 1:
        text, val = '($ ]\n' + body + '\n[ )', body
    elif form == 2:
        text, val = '($(1 2) \\i.[' + body + '])', body + body
    elif form == 3:
        text, val = '($ 1 ? 1 | [' + body + '])', '1'
        text, val = '($ [' + body + '] ? 1 | 2)', body
    elif form == 4:
        text, val = '($M 1)', body
        dfn, at = '($macro M (Q9)' + body + ')', 'q\n\n' + at
        h.assume(n == 0 or not blank(body.replace('\n', '')))
    elif form == 5:
        # the definition does not stand first on its line
        text, val = '($ [X($set v 1)' + body + '])', 'X' + body
    elif form == 6:
        text, val = '($f,,' + body + ';;)', body
        dfn, at = '($set f \\p.[($p)])', 'q\n' + at
    else:
        text, val = '($let v [' + body + '] v)', body
        text, val = '($ (([' + body + '])))', body
    I = indent_of(at)
    full = (at[0] + dfn + at[1:] if dfn else at) + text + tail
    h.describe(full)
    r = pp(h, full, pp_browse=browse, pp_trim_app_indent=trim)
    # a blank first or last line of the text has no white space of its own
    h.assume(neat(val))
    if not trim:
        same(h, r, at + val + tail, 'the text is not changed with the option off')
        h.cover('off')
    else:
        same(h, r, at + reindent(val, I) + tail, 'the lines follow the application')
        h.cover('reindented')


def nested(h, n, m, k, browse, trim):
    """an argument in the body of a function, each at its own indentation"""
    b = h.chars('b', n, AL)
    a = h.chars('a', m, AL)
    h.assume(neat(a))
    ind = h.chars('i', k, SP)
    pre = h.choose('pre', ['', 'q\n'])
    text = pre + ind + '($ \\p.[' + b + '($p)' + 'Z] [' + a + '])\n'
    h.describe(text)
    r = pp(h, text, pp_browse=browse, pp_trim_app_indent=trim)
    if trim:
        inner = b + reindent(a, indent_of(b)) + 'Z'
        same(h, r, pre + ind + reindent(inner, ind) + '\n', 'nested lines follow both applications')
        h.cover('nested')
    else:
        same(h, r, pre + ind + b + a + 'Z\n', 'the text is not changed with the option off')


def mset(h, n, k, browse, trim):
    """a macro with a definition inside"""
    b = h.chars('b', n, AL)
    ind = h.chars('i', k, SP)
    text = 'q($macro M (a)X($set v 1)' + b + 'Y)\n' + ind + '($M 1)\n'
    h.describe(text)
    r = pp(h, text, pp_browse=browse, pp_trim_app_indent=trim)
    want = 'q\n' + ind + 'X' + (b.replace('\n', '\n' + ind) if trim else b) + 'Y\n'
    same(h, r, want, 'all the lines of the macro get the indentation')


MID = ['($a)', '($ [A\nB])', '($set w 2)W', '($ "s")', '($M2 1)', '($set w ($a))']


def mset2(h, n, m, k, mid, browse, trim):
    """a macro with a definition and something else inside"""
    b = h.chars('b', n, AL)
    c = h.chars('c', m, AL)
    ind = h.chars('i', k, SP)
    pre = h.choose('pre', ['', 'x\n', 'x'])
    text = 'q($macro M2 (a)C\nD)($macro M (a)X($set v 1)' + b + MID[mid] + c + 'Y)\n' + pre + ind + '($M 1)\n'
    h.describe(text)
    r = pp(h, text, pp_browse=browse, pp_trim_app_indent=trim)
    i = indent_of('X' + b) if trim else ''
    v = ['1', 'A\n' + i + 'B', 'W', '"s"', 'C\n' + i + 'D', ''][mid]
    if mid == 5 and trim and indent_of('X' + b + '.') == '' and blank(b[b.rfind('\n') + 1:]) and '\n' in b:
        # the definition stands first on its line
        c = (c + 'Y').lstrip()[:-1]
    val = 'X' + b + v + c + 'Y'
    if trim and pre != 'x':
        val = val.replace('\n', '\n' + ind)
    what = 'all the lines of the macro get the indentation'
    if mid in (1, 4) and trim and pre != 'x' and ind and not (blank(b[b.rfind('\n') + 1:]) and '\n' in b):
        what = 'an application in the middle of a line of the macro'
    same(h, r, 'q\n' + pre + ind + val + '\n', what)


DEFS = ['($set a 1)', '($set (a b) (1 2))', '($macro M (a) z )', '($! c )', '($set a\n  1\n)', '($!\n)']


def spacing(h, n, k, d, pre, browse, trim):
    """spacing after what yields no text"""
    sp = h.chars('s', n, '\n \tx')
    ind = h.chars('i', k, SP)
    head = ['', '\n', 'x', 'y\n', 'z\n\n'][pre]
    text = head + ind + DEFS[d] + sp + 'E'
    h.describe(text)
    r = pp(h, text, pp_browse=browse, pp_trim_app_indent=trim)
    h.observe('ok', r.ok)
    h.observe('plain', xplain(r.plain))
    h.check(r.ok, 'translation fails')
    rest = sp + 'E'
    first = pre != 2
    if trim and first:
        rest = rest.lstrip()
        h.cover('deleted')
    else:
        h.cover('kept')
    h.check(h.eq(xplain(r.plain), head + ind + rest), 'only spacing after a definition that stands first on its line disappears')


def two(h, n, m, d1, d2, pre, trim):
    """two definitions in succession, then an application"""
    s1 = h.chars('s', n, '\n \tx')
    s2 = h.chars('u', m, '\n \tx')
    head = ['', ' ', 'x'][pre]
    text = head + DEFS[d1] + s1 + DEFS[d2] + s2 + '($ [A\nB])'
    h.describe(text)
    r = pp(h, text, pp_trim_app_indent=trim)
    if not trim:
        same(h, r, head + s1 + s2 + 'A\nB', 'the text is not changed with the option off')
        return
    at = head
    if blank(at):
        at += s1.lstrip()
    else:
        at += s1
    src = head + s1
    if blank(src[src.rfind('\n') + 1:]):
        at += s2.lstrip()
    else:
        at += s2
    src += s2
    h.observe('ok', r.ok)
    h.check(r.ok, 'translation fails')
    h.observe('plain', xplain(r.plain))
    p = xplain(r.plain)
    n = len(at) + 2
    h.check(h.eq(p[:n], at + 'A\n'), 'spacing after both definitions')
    h.check(h.eq(p[n:].lstrip(), 'B'), 'the rest of the application')


def TASKS(tier):
    q = tier == 'quick'
    t = []
    for form in range(8):
        for pre in range(6):
            for br in (False, True):
                if q and br and pre % 2:
                    continue
                t.append(('app%d-%d%s' % (form, pre, '-b' if br else ''), 'app', (form, (4 if pre else 5) if q else 6, 1 if pre % 2 or not q else 2, pre, br, True)))
        t.append(('app%d-off' % form, 'app', (form, 3 if q else 5, 1, form % 4, form % 2 == 0, False)))
    for br in (False, True):
        for k in (0, 1, 2):
            t.append(('nested%d%s' % (k, '-b' if br else ''), 'nested', (3 if q else 4, 3 if q else 4, k, br, True)))
            t.append(('mset%d%s' % (k, '-b' if br else ''), 'mset', (3 if q else 5, k, br, True)))
            t.append(('mset%d-off%s' % (k, '-b' if br else ''), 'mset', (2 if q else 4, k, br, False)))
        for d in range(len(MID)):
            t.append(('mset2-%d%s' % (d, '-b' if br else ''), 'mset2', (2 if q else 3, 1 if q else 2, 1, d, br, True)))
            t.append(('mset2-%d-off%s' % (d, '-b' if br else ''), 'mset2', (2, 1, 1, d, br, False)))
        t.append(('nested-off%s' % ('-b' if br else ''), 'nested', (2, 2, 1, br, False)))
        for d in range(len(DEFS)):
            for pre in range(5):
                t.append(('spacing%d-%d%s' % (d, pre, '-b' if br else ''), 'spacing', (3 if q else 5, 1 if q else 2, d, pre, br, True)))
            t.append(('spacing%d-off%s' % (d, '-b' if br else ''), 'spacing', (2, 1, d, d % 5, br, False)))
    for d1 in range(len(DEFS)):
        for pre in range(3):
            t.append(('two%d-%d' % (d1, pre), 'two', (2 if q else 3, 2 if q else 3, d1, (d1 + 2 + pre) % len(DEFS), pre, True)))
    t.append(('two-off', 'two', (2, 2, 0, 3, 0, False)))
    return t

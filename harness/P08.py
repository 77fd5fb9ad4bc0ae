# -*- coding: utf-8 -*-
META = {
    'id': 'P08',
    'bounds': 'bodies of 0..4 (thorough 5) characters over the brackets, delimiters, quotes and letters in 14 enclosure forms, alone and around one or two nested enclosures '
              'with 0..2 characters in each gap; 0..2 (3) characters after the closing delimiter; bodies of 1..2 (3) arbitrary accepted characters; end tags of 0..3 (4) characters '
              'of all constructs; C and Python output; option for indentation off, and on for one-line bodies',
    'covers': ['closed', 'closed early', 'refused', 'tag accepted', 'tag refused', 'nested', 'infix'],
    'budget': {'quick': 150, 'thorough': 800},
    'outside': 'strings and indentation inside enclosures (P05, P06); other constructs formed by the arbitrary characters (skipped)',
}


class Open(Exception):
    pass


class Bad(Exception):
    """something else than the closing parenthesis follows"""


def is_atom0(c):
    return c.isalpha() and c < '\x80' or c == '_'


def atom_end(t, i):
    if i < len(t) and (is_atom0(t[i])):
        i += 1
        while i < len(t) and (is_atom0(t[i]) or t[i].isdigit() or t[i] == '-'):
            i += 1
    return i


def gap(t, i):
    while i < len(t) and t[i] in ' \t\n':
        i += 1
    return i


def space(t, i):
    while i < len(t) and t[i] in ' \t':
        i += 1
    return i


def plain(t, i):
    """the first ) that closes more than was opened"""
    d = 0
    b = i
    while i < len(t):
        if t[i] == '(':
            d += 1
        elif t[i] == ')':
            if d == 0:
                return t[b:i], i + 1
            d -= 1
        i += 1
    raise Open()


def string(t, i):
    """end of a string or character literal of C on one line"""
    k = i + 1
    while k < len(t):
        if t[k] == t[i]:
            return k + 1 if t[i] == '"' or k > i + 1 else None
        if t[k] == '\n':
            return -1 if t[i] in t[k:] else None
        if t[k] == '\\':
            return -1
        k += 1
    return None


def text(h, t, i, stop, py):
    """processes constructs up to the place where `stop` says so"""
    out = ''
    sq = pth = 0
    while True:
        c = t[i] if i < len(t) else ''
        if c == '(' and i + 1 < len(t) and t[i + 1] in '$`':
            s, i = construct(h, t, i, py)
            out = out + s
            continue
        if c == '"' or c == "'":
            h.assume(not py)
            k = string(t, i)
            if k is not None:
                h.assume(k >= 0)
                out = out + t[i:k]
                i = k
                continue
        e = stop(t, i, sq, pth)
        if e is not None:
            return out, e
        if i >= len(t):
            raise Open()
        if c == '[':
            sq += 1
        elif c == ']':
            sq = max(0, sq - 1)
        elif c == '(':
            pth += 1
        elif c == ')':
            pth = max(0, pth - 1)
        out = out + c
        i += 1


def at_end(t, i, sq, pth):
    return i if i >= len(t) else None


def at_sq(t, i, sq, pth):
    return i + 1 if t[i:i + 1] == ']' and sq == 0 else None


def at_pth(t, i, sq, pth):
    return i + 1 if t[i:i + 1] == ')' and pth == 0 else None


def at_open(t, i, sq, pth):
    k = i + (1 if t[i:i + 1] == '[' else 2 if t[i:i + 2] == '\\[' else 0)
    if k == i:
        return None
    g = gap(t, k)
    if t[g:g + 1] == '\\':
        e = atom_end(t, g + 1)
        if e == g + 1:
            return None
        g = gap(t, e)
    return k if t[g:g + 1] == ')' else None


def at_line_open(t, i, sq, pth):
    if t[i:i + 1] != '\n':
        return None
    i = space(t, i + 1)
    return i + (1 if t[i:i + 1] == '[' else 2 if t[i:i + 2] == '\\[' else 0) if t[i:i + 1] == '[' or t[i:i + 2] == '\\[' else None


def at_comma(t, i, sq, pth):
    if t[i:i + 2] == ';;':
        return i + 2
    if t[i:i + 2] == ',,':
        return i
    k = i
    if t[i:i + 1] == '\\':
        k = atom_end(t, i + 1)
        if k == i + 1:
            return None
        k = gap(t, k)
    return i if t[k:k + 1] == ')' and pth == 0 else None


def code(h, t, i, py):
    """a code enclosure at i, if there is one"""
    if t[i:i + 1] == '[':
        return text(h, t, i + 1, at_sq, py)
    if t[i:i + 1] == ']':
        k = space(t, i + 1)
        if t[k:k + 1] == '\n':
            return text(h, t, k + 1, at_line_open, py)
        return text(h, t, i + 1, at_open, py)
    if t[i:i + 2] == ',,':
        return text(h, t, i + 2, at_comma, py)
    return None, i


def construct(h, t, i, py):
    if t[i:i + 7] == '($quote':
        return plain(t, i + 7)
    if t[i:i + 2] == '(`':
        return plain(t, i + 2)
    if t[i:i + 3] == '($!':
        return '', plain(t, i + 3)[1]
    if t[i:i + 6] == '($code':
        return text(h, t, i + 6, at_pth, py)
    if t[i:i + 4] == '($u)':
        return '1', i + 4
    f = None
    i += 2
    i = gap(t, i)
    if t[i:i + 1] == 'f' and atom_end(t, i) == i + 1:
        f = 'f'
        i = gap(t, i + 1)
    args = []
    while True:
        i = gap(t, i)
        s, i = code(h, t, i, py)
        if s is None:
            break
        args.append(s)
    if f is not None and t[i:i + 1] == '\\':
        e = atom_end(t, i + 1)
        k = gap(t, e)
        if e > i + 1 and t[k:k + 1] == ')':
            if t[i + 1:e] == 'f':
                i = k
            else:
                raise Open()
    # anything else is another program
    h.assume(t[i:i + 1] == ')')
    if f is None:
        h.assume(len(args) == 1)
        return args[0], i + 1
    h.assume(1 <= len(args) <= 2)
    return '<' + args[0] + '|' + (args[1] if len(args) == 2 else '-') + '>', i + 1


DEF = '($set u 1)($set f \\p.\\w:[-].[<($p)|($w)>])'
# before, after the body
FORMS = [
    ('($quote', ')'), ('(`', ')'), ('($!', ')'), ('($ [', '])'), ('($ ]', '[ )'), ('($ ]\n', '\n [ )'), ('($code', ')'),
    ('($f,,', ')'), ('($f,,', ',,w)'), ('($f,,', ';; [w] \\f)'), ('($f [', ']\n[w])'), ('($f ]', '\\[\\f)'), ('($f ]\n', '\n\\[ [v])'), ('($f,,v,,', '\\f )'),
]
NEST = ['(`[', '(`)', '($u)', '($ [])', '($ []])', '($ [[])', '($!])', '($code[)', '($ ]],,[ )', '"])"', "']'", '($f,,[;;)', '($quote ,,)', '($code\\f)', '(`;;)', '($ [\n[ ])', '($ ]\nx\n\\[)', '($ ,,(a) ;;)']
AL = 'x()[],;\\\n f"'


def run(h, t, cfg, where):
    h.describe(t)
    py = cfg == 1
    try:
        want = text(h, t, 0, at_end, py)[0]
    except Open:
        want = None
    r = pp(h, DEF + t, out='t.py' if py else 't.c', pp_trim_app_indent=cfg == 2)
    h.observe('ok', r.ok)
    if want is None:
        h.check(not r.ok, 'an enclosure without its own closing delimiter is refused')
        h.cover('refused')
        return
    h.check(r.ok, 'the text between the delimiters is accepted')
    h.observe('plain', xplain(r.plain))
    h.check(h.eq(r.plain, want), 'the enclosure yields exactly the text between its delimiters')
    h.cover(where)
    return


def body(h, f, n, al, cfg, tail):
    a, b = FORMS[f]
    c = h.chars('c', n, al)
    if cfg == 2:
        h.assume('\n' not in c and c[:1] != ' ' and c[:1] != '\t')
    e = h.chars('e', tail, 'x([)],;" ') if tail else ''
    t = 'z' + a + c + b + e + '($u)z'
    run(h, t, cfg, 'closed early' if n and ')' in c else 'closed')


def nested(h, f, k, n, m, cfg):
    a, b = FORMS[f]
    k = NEST[k]
    if cfg == 2:
        h.assume('\n' not in k and not k.startswith('($quote'))
    t = 'z' + a + h.chars('c', n, 'x()[]") ') + k + h.chars('d', m, 'x()[],;\\') + b + '($u)z'
    if cfg == 2:
        h.assume(t[len(a) + 1:len(a) + 2] not in ' \t')
    run(h, t, cfg, 'nested')


def anychar(h, f, n, cfg):
    """characters that open and close nothing"""
    a, b = FORMS[f]
    c = h.chars('c', n, ACCEPT)
    for x in '()[]{}\\"\'`$\n\r;,':
        h.assume(x not in c)
    if a[-1] == ']':
        # white space in front of a line end
        h.assume(c.strip(' \t') != '')
    h.assume(not (a[-1] not in '[]\n,`!' and is_atom0(c[:1])))
    t = 'z' + a + c + b + c + '($u)z'
    run(h, t, cfg, 'closed')


# construct with a tag, name of the tag, result
TAGS = [
    ('($set v 1 \\%s)($v)', 'set', '1'), ('($let v 2 [x($v)]\\%s)', 'let', 'x2'), ('($set i 3)($emit i \\%s)', 'emit', '3'), ('($set i (4 5))($emit i \\p.{6}\\%s)', 'emit', '4'),
    ('($id 7 \\%s)', 'id', '7'), ('($id [8]\\%s)', 'id', '8'), ('($id ]9[\\%s)', 'id', '9'), ('($id,,9\\%s)', 'id', '9'), ('($id,,9;;\n\\%s)', 'id', '9'),
    ('($set (v w)(1 2)\\%s)($w)', 'set', '2'), ('($import s\\%s)[($sv)]', 'import', '[5]'), ('($import "s.yu" \\%s)[($sv)]', 'import', '[5]'), ('($code(($id 1\\%s)))', 'id', '(1)'),
    ('($M 3\\%s)', 'M', '<3>'), ('($$id [2]\\%s)', 'id', '2'),
]


def tag(h, i, n, al, lead, trail):
    s, name, want = TAGS[i]
    c = h.chars('c', n, al)
    fs = h.fs
    fs.write('s.yu', '($set sv 5)')
    t = '($set id \\x.($x))($macro M (p) <($p)>)' + s % (c + ' ' * trail)
    h.describe(t)
    r = pp(h, t, out='t.c')
    h.observe('ok', r.ok)
    if c == name:
        h.check(r.ok, 'the end tag of the construct is accepted')
        h.observe('plain', xplain(r.plain))
        h.check(h.eq(r.plain, want), 'an end tag changes nothing')
        h.cover('tag accepted')
    else:
        h.check(not r.ok, 'an end tag that does not match is refused')
        h.cover('tag refused')


def infix(h, form, n):
    """the expression of an infix ends at its own delimiter"""
    c = h.chars('c', n, '12+ ()')
    e = h.chars('e', 1, 'x)}')
    if form == 0:
        t = 'z($ {' + c + '})' + e + '($u)z'
        end, after = len(c), 0
    else:
        t = 'z(${}' + c + ')' + e + '($u)z'
        try:
            end = plain(c + ')', 0)[1] - 1
        except Open:
            end = None
    h.describe(t)
    src = None if end is None else c[:end]
    try:
        v = eval(src.strip()) if src is not None and src.strip() else None
    except SyntaxError:
        v = None
    except TypeError:
        v = None
    h.assume(isinstance(v, int))
    r = pp(h, '($set u 1)' + t, out='t.c')
    h.observe('ok', r.ok)
    h.check(r.ok, 'an infix expression is accepted')
    h.observe('plain', xplain(r.plain))
    h.check(h.eq(r.plain, 'z' + str(v) + (c + ')')[end + 1:] + e + '1z'), 'an infix expression ends at its own delimiter')
    h.cover('infix')


def TASKS(tier):
    q = tier == 'quick'
    t = []
    for f in range(len(FORMS)):
        for n in range(0, 4 if q else 5):
            t.append(('body%d-%d' % (f, n), 'body', (f, n, AL + ("'" if n < 3 else ''), 0, 0)))
        for n in (1, 2) if q else (1, 2, 3):
            t.append(('bodyt%d-%d' % (f, n), 'body', (f, n, AL, 0, 2 if n < 2 or not q else 1)))
        t.append(('bodypy%d' % f, 'body', (f, 2 if q else 3, 'x()[],;\\\n f', 1, 0)))
        t.append(('bodytrim%d' % f, 'body', (f, 2 if q else 3, AL, 2, 0)))
        t.append(('bodyx%d' % f, 'body', (f, 3 if q else 4, 'x(`)!$', 0, 0)))
        t.append(('any%d' % f, 'anychar', (f, 1 if q else 2, 0)))
        for k in range(len(NEST)):
            if (f + k) % 3 == 0 or not q:
                t.append(('nest%d-%d' % (f, k), 'nested', (f, k, 1, 1, 0)))
            if not q:
                t.append(('nest2%d-%d' % (f, k), 'nested', (f, k, 2, 1, 0)))
            t.append(('nesta%d-%d' % (f, k), 'nested', (f, k, 0, 1, 2 if (f + k) % 2 else 0)))
            t.append(('nestb%d-%d' % (f, k), 'nested', (f, k, 1, 0, 2 if (f + k) % 2 else 0)))
    for i in range(len(TAGS)):
        name = TAGS[i][1]
        # "\" that is followed by no name belongs to the text of ,,
        al = ''.join(sorted(set(name + 'xS_' + ('' if i == 7 else '\\'))))
        for n in range(1 if i == 7 else 0, len(name) + 2):
            if n < 4 or n <= len(name) or not q:
                t.append(('tag%d-%d' % (i, n), 'tag', (i, n, al if n < 6 else name, 0, 0)))
        t.append(('tagsp%d' % i, 'tag', (i, len(name), al if len(name) < 4 else name, 0, 1)))
    for f in (0, 1):
        for n in range(1, 4 if q else 5):
            t.append(('infix%d-%d' % (f, n), 'infix', (f, n)))
    return t

# -*- coding: utf-8 -*-
META = {
    'id': 'P04',
    'bounds': '24 programs (definitions, comments, code enclosures, loops, functions, imports, strings, emissions, macros, evaluated texts) '
              'with two texts of together 5 (thorough 7) characters over LF, SPACE, TAB, letters, CR and 3 over all accepted characters; '
              'indentation and emptiness reduction on and off',
    'covers': ['copied', 'macro', 'eval', 'offset', 'module', 'json'],
    'budget': {'quick': 100, 'thorough': 800},
    'outside': 'texts produced by an expression (numbers, results of built-in functions)',
}

AL = '\n \tabcdefghijklmnopqrstuvwxyzABCDEFGH'
ALR = '\n \r\tabcdefghijklmnopqrstuvwxyz'

# pieces: 0 and 1 are the symbolic texts
FORMS = [
    (0,),
    ('($set a 1)\n', 0, '($set b 2)', 1),
    (0, '($! x )', 1),
    ('  ($ [', 0, '])', 1),
    (' ($ ]\n', 0, '\n[ )', 1),
    ('($(1 2) \\i.[', 0, '])', 1),
    ('\t($set f \\p.[', 0, '($p)])\n  ($f [', 1, '])x'),
    ('z\n($import m)', 1),
    ('($ \\p.[', 0, '($p)', 1, '] "s t")-'),
    ('($ \\p.[($p)', 0, '] (`', 1, '))'),
    ('($add 1 2)', 0, '($add 1 2)', 1),
    ('($set t [', 0, '])($t)($t)', 1),
    ('($ 5 ? 0 | [', 0, '])', 1),
    ('($ (($ [', 0, '])) \\i.[($i)', 1, '])'),
    ('($SPACE)', 0, '($TAB)', 1),
    (' ($ [', 0, ' ($import m)Y])', 1),
    ('($set l ([', 0, '] [', 1, ']))($emit l $1)-'.replace('$1', '\\x.(x)'),),
    ('($let x [', 0, '] [($x)', 1, '($x)])'),
    ('($code X', 0, ')($f,,', 1, ';;)') if 0 else ('($code X', 0, ')', 1),
    ('A\n\n\n\n', 0, '\n\n\nB\n', 1, '\n\n'),
    ('  ($ ]\n    A\n\n\n      ', 0, '\n[ )\n\n', 1),
    ('A\n\n   ($ ]\n', 0, '\n\n\n\n', 1, '\n[ )\nB'),
    ('($macro N (a)X)', 0, 'Y($set q [', 1, '])Z($q)'),
    ('\t($ [A\n   ($ [', 0, '\n ($ [B', 1, '])])C])'),
]


def look(browse, offset, p):
    delta = 0
    for pos, d in offset:
        if pos <= p:
            delta = d
    raw = p + delta
    chain = []
    for e in browse:
        if e[0] <= raw:
            if chain and chain[-1][0] != e[0]:
                chain = []
            chain.append(e)
    return chain, raw


def tables(h, r):
    for t, what in ((r.browse, 'browse'), (r.offset, 'offset')):
        for i in range(1, len(t)):
            h.check(t[i - 1][0] <= t[i][0], 'the %s table is sorted' % what)
    for i in range(1, len(r.offset)):
        h.check(r.offset[i - 1][0] < r.offset[i][0], 'one offset for a position')


def build(form, c, d):
    s = ''
    for x in FORMS[form]:
        s = s + (c if x == 0 else d if x == 1 else x)
    return s


def origin(h, form, n, m, al, trim, red):
    c = plain_prefix(h, 'c', n, al)
    d = plain_prefix(h, 'd', m, al)
    for x in c + d:
        h.assume(x not in '()[]"\'{}\\,;') if al is ACCEPT else None
    text = build(form, c, d)
    h.describe(text)
    srcs = {'t.yu': unify_eol(text)}
    if form in (7, 15):
        h.fs.write('m.yu', c)
        srcs['m.yu'] = unify_eol(c)
        h.cover('module')
    r = pp(h, text, pp_browse=True, pp_trim_app_indent=trim, pp_reduce_emptiness=red)
    h.observe('ok', r.ok)
    h.check(r.ok, 'the text is translated')
    h.observe('plain', xplain(r.plain))
    h.observe('browse', [list(x) for x in r.browse])
    h.observe('offset', [list(x) for x in r.offset])
    tables(h, r)
    h.check(sorted(h.yugen.RESULT.files.values()) == list(range(len(h.yugen.RESULT.files))), 'files are numbered in succession')
    files = sorted(h.yugen.RESULT.files, key=h.yugen.RESULT.files.get)
    out = xplain(r.plain)
    if r.offset:
        h.cover('offset')
    lead = True
    for p, ch in enumerate(out):
        if ch == '\n':
            lead = True
        elif ch not in ' \t':
            lead = False
        elif lead and trim:
            # indentation is inserted
            continue
        if ch in '0123456789' or form == 14 and ch in ' \t':
            continue
        chain, raw = look(r.browse, r.offset, p)
        h.check(len(chain) == 1, 'one place for a copied character')
        pos, f, q = chain[0]
        h.check(0 <= f < len(files) and files[f] in srcs, 'the place is in a source file')
        src = srcs[files[f]]
        q += raw - pos
        h.check(0 <= q < len(src), 'the place is within the source')
        h.check(h.eq(src[q], ch), 'the same character stands in the source')
        h.cover('copied')


def macro(h, form, n, m, trim, red):
    """text of a macro or of an evaluated string: its application and its definition"""
    c = plain_prefix(h, 'c', n, AL)
    d = plain_prefix(h, 'd', m, AL)
    if form == 0:
        text = c + 'Q($macro MM (a)X' + d + 'Y)P\n ($MM 1)Z'
    elif form == 1:
        text = c + 'QP ($$(`($ [X' + d + 'Y])))Z'
    elif form == 2:
        h.fs.write('m.yu', c + '($macro MM (a)X' + d + 'Y)')
        text = c + 'Q($import m)P($MM 1)Z'
    else:
        text = c + 'Q($macro MM (a)X($set x 1)' + d + 'Y)P\n\t($MM 1)Z'
    h.describe(text)
    r = pp(h, text, pp_browse=True, pp_trim_app_indent=trim, pp_reduce_emptiness=red)
    h.check(r.ok, 'the text is translated')
    h.observe('plain', xplain(r.plain))
    h.observe('browse', [list(x) for x in r.browse])
    h.observe('offset', [list(x) for x in r.offset])
    tables(h, r)
    files = sorted(h.yugen.RESULT.files, key=h.yugen.RESULT.files.get)
    out = xplain(r.plain)
    for ch in 'QPXYZ':
        p = out.index(ch) if ch not in 'XYZ' else out.rindex(ch)
        chain, raw = look(r.browse, r.offset, p)
        if ch in 'QPZ':
            h.check(len(chain) == 1 and files[chain[0][1]] == 't.yu', 'one place for a copied character')
            q = chain[0][2] + raw - chain[0][0]
            h.check(text[q] == ch, 'the same character stands in the source')
            continue
        if form == 1:
            h.check(len(chain) >= 1 and files[chain[-1][1]] == 't.yu', 'a place for an evaluated text')
            q = abs(chain[-1][2])
            h.check(text[q - 1:q + 1] == '$$' or text[q:q + 2] == '$$', 'the evaluation is shown')
            h.cover('eval')
            continue
        h.check(len(chain) == 2, 'two places for a text of a macro')
        q = chain[0][2]
        h.check(files[chain[0][1]] == 't.yu' and text[q:q + 4] == 'MM 1', 'the first one is the application of the macro')
        q = -chain[1][2]
        src, fn = (text, 't.yu') if form != 2 else (c + '($macro MM (a)X', 'm.yu')
        h.check(files[chain[1][1]] == fn and src[q:q + 4] == 'MM (', 'the second one is the definition of the macro')
        h.cover('macro')


def files(h, n, odir):
    """the tables reach the file next to the output"""
    import json
    c = plain_prefix(h, 'c', n, '\n \tabc')
    h.fs.write('m.yu', 'M\n')
    text = c + '\n\n($import m)  ($ [A\n' + c + '])\n'
    h.fs.write('t.yu-c', text)
    h.describe(text)
    if odir:
        h.fs.mkdir('o')
    h.clear()
    rc = h.yup.cli(['-q', '--pp-browse', 't.yu-c'] + (['-o', 'o'] if odir else []))
    h.check(rc == 0, 'the file is processed')
    fo = 'o/t.c' if odir else 't.c'
    out = h.fs.read(fo)
    data = json.loads(str(h.fs.read(fo + '.json')))
    h.observe('out', out)
    h.observe('data', data)
    h.check(sorted(data.keys()) == ['browse', 'files', 'offset'], 'the tables are written')
    r = pp(h, text, 't.yu-c', fo, pp_browse=True, pp_reduce_emptiness=True)
    h.check(h.eq(xplain(r.plain), out), 'the output is the generated text')
    h.check([tuple(x) for x in data['browse']] == r.browse, 'the browse table is written')
    h.check([tuple(x) for x in data['offset']] == r.offset, 'the offset table is written')
    fs = sorted(h.yugen.RESULT.files, key=h.yugen.RESULT.files.get)
    h.check(data['files'] == fs and sorted(fs) == ['m.yu', 't.yu-c'], 'the files are written')
    h.cover('json')


def TASKS(tier):
    q = tier == 'quick'
    t = []
    for f in range(len(FORMS)):
        for trim in (True, False):
            for red in (False, True):
                two = 1 in FORMS[f]
                n, m = (3, 2) if two else (5, 0)
                if not q:
                    n, m = (4, 3) if two else (7, 0)
                if trim and red:
                    t.append(('form%02d' % f, 'origin', (f, n, m, AL, trim, red)))
                else:
                    t.append(('form%02d-%d%d' % (f, trim, red), 'origin', (f, min(n, 3) if q else n, min(m, 1) if q else m, AL, trim, red)))
        t.append(('cr%02d' % f, 'origin', (f, 1 if q else 2, 2 if 1 in FORMS[f] else 0, ALR, True, True)))
        t.append(('all%02d' % f, 'origin', (f, 1, (1 if q else 2) if 1 in FORMS[f] else 0, ACCEPT, True, True)))
    for o in (0, 1):
        t.append(('json%d' % o, 'files', (2 if q else 4, o)))
    for f in range(4):
        for trim in (True, False):
            for red in (False, True):
                t.append(('macro%d-%d%d' % (f, trim, red), 'macro', (f, 1, 2 if q else 3, trim, red)))
    return t

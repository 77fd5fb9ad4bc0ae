# -*- coding: utf-8 -*-
META = {
    'id': 'P27',
    'bounds': 'tables of 0..4 (thorough 5) places in 2 files and 0..3 (4) shifts, all positions, shifts and the cursor being symbolic up to 99999; 16 programs with texts of 2..3 (4) symbolic '
              'characters, every position of the generated text; sources in the working directory, the directory of the generated file, a folder of the project, each directly or by '
              'the last part of the name, or nowhere; source names of the three kinds with symbolic characters; 2 generated files with a common source; generating again twice at symbolic times',
    'covers': ['single', 'chain', 'none', 'macro', 'back', 'found', 'lost', 'named', 'again', 'copied', 'shared', 'opened'],
    'budget': {'quick': 120, 'thorough': 800},
    'outside': 'drawing and scrolling of the editor, files which cannot be written, the raw text of --pp-test, names *.*.yu, chains of places two of which are the same',
}

SCRIPT = 'sublime_text/Data/Packages/yupp/yupp.py'
L = 'abcdfghjk'


class Editor(object):
    """the part of the editor which the plugin sees"""

    def __init__(self, h, folders=(), tables=None):
        import types
        ed = self
        self.views = []
        self.active = None
        self.folders = list(folders)
        self.opened = []

        class Region(object):
            def __init__(self, a, b=None):
                self.a = a
                self.b = a if b is None else b

            def begin(self):
                return self.a if self.a <= self.b else self.b

            def end(self):
                return self.b if self.a <= self.b else self.a

            def empty(self):
                return self.a == self.b

        class Selection(object):
            def __init__(self):
                self.r = [Region(0)]

            def clear(self):
                self.r = []

            def add(self, r):
                self.r.append(r if isinstance(r, Region) else Region(r))

            def __getitem__(self, i):
                return self.r[i]

            def __len__(self):
                return len(self.r)

            def __iter__(self):
                return iter(self.r)

        class Window(object):
            def folders(self):
                return list(ed.folders)

            def open_file(self, fn, *a):
                return ed.view(fn)

            def active_view(self):
                return ed.active

        class View(object):
            def __init__(self, fn):
                self.fn = fn
                self.s = Selection()
                self.loaded = False

            def file_name(self):
                return self.fn

            def window(self):
                return window

            def sel(self):
                return self.s

            def set_read_only(self, x):
                pass

            def show_at_center(self, r):
                pass

            def show(self, r, *a):
                pass

            def add_regions(self, *a):
                pass

            def erase_regions(self, k):
                pass

            def set_status(self, *a):
                pass

        class EventListener(object):
            pass

        class TextCommand(object):
            def __init__(self, view):
                self.view = view

        window = Window()
        self.View = View
        self.Region = Region
        sub = types.ModuleType('sublime')
        sub.Region = Region
        sub.HIDDEN, sub.PERSISTENT = 1, 2
        plug = types.ModuleType('sublime_plugin')
        plug.EventListener, plug.TextCommand = EventListener, TextCommand
        stubs = {'sublime': sub, 'sublime_plugin': plug}
        if tables is not None:
            js = types.ModuleType('json')

            def loads(s, *a, **k):
                return {'files': list(tables['files']), 'browse': [list(x) for x in tables['browse']], 'offset': [list(x) for x in tables['offset']]}
            js.loads = loads
            js.load = loads
            stubs['json'] = js
        self.mod = h.script(SCRIPT, stubs)
        self.listeners = [v() for v in list(self.mod.__dict__.values()) if isinstance(v, type) and issubclass(v, EventListener) and v is not EventListener]

    def fire(self, event, view):
        for x in self.listeners:
            if hasattr(x, event):
                getattr(x, event)(view)

    def view(self, fn):
        for v in self.views:
            if v.fn == fn:
                self.active = v
                return v
        v = self.View(fn)
        self.views.append(v)
        self.active = v
        return v

    def settle(self):
        """a file is loaded after the command which opens it"""
        for v in list(self.views):
            if not v.loaded:
                v.loaded = True
                self.fire('on_load', v)
        self.fire('on_activated', self.active)

    def open(self, fn):
        v = self.view(fn)
        self.settle()
        return v

    def close(self, fn):
        v = self.view(fn)
        self.views.remove(v)
        self.active = None
        self.fire('on_close', v)

    def jump(self, fn, pos=None):
        """run the command; where the cursor is then"""
        v = self.open(fn)
        if pos is not None:
            v.s.clear()
            v.s.add(self.Region(pos))
        self.mod.GotoOriginCommand(v).run(None)
        self.settle()
        return self.active.fn, self.active.s[0].begin()


def absolute(rel):
    import os
    return os.path.abspath(rel)


def run(h, ed, fn, pos=None, what=''):
    r, v = h.guard(lambda: ed.jump(fn, pos))
    h.check(r == 'ok', what + 'the command works')
    return v


def start(h, ed, fn, what=''):
    r, v = h.guard(lambda: ed.open(fn))
    h.check(r == 'ok', what + 'the file is opened')


def expected(h, browse, offset, pos):
    """the places of a position of the generated text, the innermost last"""
    raw = pos
    for p, d in offset:
        if p <= pos:
            raw = pos + d
    chain = []
    for e in browse:
        if e[0] <= raw:
            if chain and chain[0][0] != e[0]:
                chain = []
            chain.append(e)
    if len(chain) == 1 and chain[0][2] >= 0:
        return [(chain[0][1], chain[0][2] + raw - chain[0][0])]
    return [(f, abs(q)) for _, f, q in chain]


def follow(h, ed, files, fn, pos, places, what):
    """all jumps from a position and back"""
    f, p = run(h, ed, fn, pos, what)
    h.observe('to', [f[f.rindex('/') + 1:], p + 0])
    if not places:
        h.check(f == fn and h.eq(p, pos), what + 'no jump from a position without a place')
        h.cover('none')
        return
    for i in range(len(places)):
        w = 'the place' if i == 0 else 'the next place'
        h.check(f == files[places[i][0]], what + w + ': the file')
        h.check(h.eq(p, places[i][1]), what + w + ': the position')
        f, p = run(h, ed, f, None, what)
        h.observe('to', [f[f.rindex('/') + 1:], p + 0])
    h.check(f == fn, what + 'the file of the generated text is shown again')
    h.check(h.eq(p, pos), what + 'the cursor is back')
    h.cover('back')
    h.cover('single' if len(places) == 1 else 'chain')


def tables(h, n, m, twice):
    browse = []
    last = 0
    for i in range(n):
        same = i > 0 and h.flag('same%d' % i)
        if same:
            p = last
        else:
            p = h.int('p%d' % i, 0, 99999)
            if i:
                h.assume(last < p)
        q = h.int('q%d' % i, -99999, 99999)
        f = h.choose('f%d' % i, 2)
        j = i - 1
        while j >= 0 and browse[j][0] is p:
            if browse[j][1] == f:
                h.assume(abs(browse[j][2]) != abs(q))
            j -= 1
        browse.append((p, f, q))
        last = p
    offset = []
    for i in range(m):
        p = h.int('o%d' % i, 0, 99999)
        if i:
            h.assume(offset[i - 1][0] < p)
        offset.append((p, h.int('d%d' % i, -9999, 9999)))
    for x in ('t.c', 't.c.json', 'a.yu', 'b.yu'):
        h.fs.write(x, 'x')
    ed = Editor(h, tables={'files': ['a.yu', 'b.yu'], 'browse': browse, 'offset': offset})
    fn = absolute('t.c')
    files = [absolute('a.yu'), absolute('b.yu')]
    start(h, ed, fn)
    for k in range(2 if twice else 1):
        pos = h.int('pos%d' % k, 0, 99999)
        if k:
            h.assume(pos != pos0)
        pos0 = pos
        follow(h, ed, files, fn, pos, expected(h, browse, offset, pos), '' if k == 0 else 'another position: ')


FORMS = [
    (0,),
    ('($set a 1)\n', 0, '($set b 2)', 1),
    (0, '($! x )', 1),
    (' ($ ]\n', 0, '\n[ )', 1),
    ('($(1 2) \\i.[', 0, '])'),
    ('\t($set f \\p.[', 0, '($p)])\n  ($f [', 1, '])x'),
    ('z\n($import m)', 1),
    ('($set t [', 0, '])($t)($t)', 1),
    ('A\n\n\n\n', 0, '\n\n\nB\n', 1, '\n\n'),
    ('A\n\n   ($ ]\n', 0, '\n\n\n\n', 1, '\n[ )\nB'),
    ('\t($ [A\n   ($ [', 0, '\n ($ [B', 1, '])])C])'),
    (0, '($macro MM (p)X', 1, 'Y)\n  ($MM 1)Z'),
    ('($macro MM (p)X($p)Y)', 0, '($MM [', 1, '])Z'),
    ('($import m)($M 1)', 1),
    (0, '($$(`($ [X', 1, ']) ))Z'),
    ('($macro MM (p)X', 0, ')($MM 1)($MM 1)'),
]


def program(h, form, n, m):
    """every position of a generated file"""
    import json
    c, d = h.chars('c', n, '\n abcdf'), h.chars('d', m, '\n abcdf')
    text = ''
    for x in FORMS[form]:
        text = text + (c if x == 0 else d if x == 1 else x)
    h.describe(text)
    h.fs.write('t.yu-c', text)
    sources = {'t.yu-c': text}
    if form in (6, 13):
        sources['m.yu'] = c + '($macro M (a)Q)' if form == 13 else c + 'Q'
        h.fs.write('m.yu', sources['m.yu'])
    h.clear()
    rc = h.yup.cli(['-q', '--pp-browse', 't.yu-c'])
    h.check(rc == 0, 'the text is translated')
    out = h.fs.read('t.c')
    data = json.loads(str(h.fs.read('t.c.json')))
    h.observe('out', out)
    fn = absolute('t.c')
    ed = Editor(h)
    start(h, ed, fn)
    files = [absolute(x) for x in data['files']]
    lead = True
    for p in range(len(out)):
        ch = out[p]
        if ch == '\n':
            lead = True
        elif ch != ' ' and ch != '\t':
            lead = False
        elif lead:
            # indentation is inserted
            continue
        places = expected(h, data['browse'], data['offset'], p)
        h.check(len(places) > 0, 'a place for every position')
        if len(set(places)) < len(places):
            continue
        f, q = run(h, ed, fn, p)
        h.check(f in files, 'the command leads to a source')
        src = sources[f[f.rindex('/') + 1:]]
        h.check(0 <= q < len(src), 'the command leads into the source')
        if len(places) == 1 and ch not in '1XYQ' and form != 14:
            h.check(h.eq(src[q], ch), 'the command leads to the same character of the source')
            h.cover('copied')
        elif ch in 'XYQ' and len(places) == 2:
            h.check(src[q:q + 2] in ('MM', 'M '), 'the command leads to the application of the macro')
            f2, q2 = run(h, ed, f, None)
            src = sources[f2[f2.rindex('/') + 1:]]
            h.check(src[q2:q2 + 3] in ('MM ', 'M ('), 'then the command leads to the definition of the macro')
            h.cover('macro')
        # anew from the same position
        follow(h, ed, files, fn, p, places, '') if len(places) == 1 and f == fn else rest(h, ed, files, fn, p, places)


def rest(h, ed, files, fn, p, places):
    """on to the start"""
    v = ed.active
    f, q = v.fn, v.s[0].begin()
    for i in range(len(places)):
        if f == fn:
            break
        f, q = run(h, ed, f, None)
    h.check(f == fn and q == p, 'the cursor is back')
    h.cover('back')


WHERE = ['src/%s', 'o/src/%s', 'o/%s', 'pr/src/%s', 'pr/%s', 'pr2/src/%s', None]


def located(h, n, other):
    """where the sources are"""
    name = h.chars('n', n, L) + '.yu'
    name2 = 'e.yu'
    h.fs.write('o/t.c', 'x')
    h.fs.write('o/t.c.json', '{}')
    h.fs.mkdir('pr')
    h.fs.mkdir('pr2')
    files = []
    for i in range(2):
        w = WHERE[h.choose('w%d' % i, len(WHERE))] if i == 0 or other else 'o/src/%s'
        nm = (name, name2)[i]
        files.append(w and w % nm)
        if w:
            h.fs.write(w % nm, 'x')
    q, r, pos = h.int('q', 1, 9999), h.int('r', 1, 9999), h.int('pos', 5, 9999)
    ed = Editor(h, [absolute('pr'), absolute('pr2')], {'files': ['src/' + name, 'src/' + name2], 'browse': [(0, 1, 3), (5, 1, r), (5, 0, -q)], 'offset': []})
    fn = absolute('o/t.c')
    start(h, ed, fn)
    want = [(f, x) for f, x in ((files[1], r), (files[0], q)) if f]
    h.cover('found' if len(want) == 2 else 'lost')
    f, p = run(h, ed, fn, pos)
    h.observe('p', p + 0)
    for wf, wp in want:
        h.check(h.eq(f, absolute(wf)), 'the source is found')
        h.check(h.eq(p, wp), 'the position in the source')
        f, p = run(h, ed, f)
        h.observe('p', p + 0)
    h.check(f == fn and h.eq(p, pos), 'the cursor is back')


def named(h, kind, n, e):
    """without the tables: from the generated file to the source and back"""
    stem, ext = h.chars('n', n, L + ('.' if kind != 0 else '')), h.chars('e', e, L)
    h.assume(stem[0] != '.')
    h.assume(stem[-1] != '.')
    src = stem + ('.yu' if kind == 0 else '.yu-' + ext if kind == 1 else '.' + ext)
    if kind == 2:
        h.assume(ext != 'yu')
        h.assume(ext != 'ast')
    h.fs.write(src, 'x')
    rc = h.yup.cli(['-q', src])
    h.check(rc == 0, 'the text is translated')
    new = [x for x in h.fs.listing() if not h.eq(x, src)]
    h.check(len(new) == 1, 'one file is generated')
    ed = Editor(h)
    fn, origin = absolute(new[0]), absolute(src)
    start(h, ed, fn)
    f, _ = run(h, ed, fn)
    h.check(h.eq(f, origin), 'the source is shown')
    f, _ = run(h, ed, origin)
    h.check(h.eq(f, fn), 'the generated file is shown again')
    f, _ = run(h, ed, fn)
    h.check(h.eq(f, origin), 'the source is shown again')
    h.cover('named')
    r, _ = h.guard(lambda: ed.close(fn))
    h.check(r == 'ok', 'the generated file is closed')
    if h.flag('reopen'):
        start(h, ed, fn)
        f, _ = run(h, ed, origin)
        h.check(h.eq(f, fn), 'the generated file is shown after it was opened again')
    else:
        f, _ = run(h, ed, origin)
        h.check(h.eq(f, origin), 'no jump to a closed file')
    h.cover('opened')


def again(h, n, m, keep):
    """generated again: the tables are read again"""
    import json
    c, d = h.chars('c', n, 'ab'), h.chars('d', m, 'ab\n')
    body = 'Q' + c
    h.fs.write('t.yu-c', body, 5)
    h.check(h.yup.cli(['-q', '--pp-browse', 't.yu-c']) == 0, 'the text is translated')
    last = h.int('t', 1, 999)
    h.fs.utime('t.c', last)
    fn, src = absolute('t.c'), absolute('t.yu-c')
    ed = Editor(h)
    start(h, ed, fn)
    f, p = run(h, ed, fn, 0)
    h.check(f == src and p == 0, 'the origin')
    k = h.choose('stay', 2)
    if k == 0:
        f, p = run(h, ed, f)
        h.check(f == fn and p == 0, 'back')
    for i in range(2):
        text = ('($set x 1)' if i == 0 else '($set y [])\n($set x 1)') + d + body
        h.fs.write('t.yu-c', text, 20 + 20 * i)
        h.check(h.yup.cli((['-q', '--pp-browse'] if keep or i == 0 else ['-q']) + ['t.yu-c']) == 0, 'the text is translated again')
        if not keep and i == 1:
            if h.fs.exists('t.c.json'):
                h.fs.remove('t.c.json')
        # older or newer
        now = h.int('t%d' % i, 1, 999)
        h.assume(now != last)
        h.fs.utime('t.c', now)
        last = now
        out = h.fs.read('t.c')
        r, _ = h.guard(lambda: ed.open(fn))
        h.check(r == 'ok', 'the generated file is loaded again')
        f, p = run(h, ed, fn, out.index('Q'))
        h.observe('p', p)
        h.check(f == src, 'the origin in the new text')
        if h.fs.exists('t.c.json'):
            h.check(p == text.index('Q'), 'the position in the new text')
        f, p = run(h, ed, f)
        h.check(f == fn, 'back to the new text')
        if h.fs.exists('t.c.json'):
            h.check(p == out.index('Q'), 'the cursor in the new text')
        h.cover('again')


def shared(h, n, order):
    """two generated files with a common source"""
    files = ['a.yu', 'b.yu']
    for x in ('t.c', 't.c.json', 'u.c', 'u.c.json', 'a.yu', 'b.yu'):
        h.fs.write(x, 'x')
    p, q, r = h.int('p', 0, 999), h.int('q', 0, 999), h.int('r', 0, 999)
    same = h.flag('same')
    browse = [(0, 0, p), (100, 1, q)] if same else [(0, 1, p), (100, 0, q), (100, 1, -r - 1999)]
    ed = Editor(h, tables={'files': files, 'browse': browse, 'offset': []})
    fs = [absolute(x) for x in files]
    t, u = absolute('t.c'), absolute('u.c')
    start(h, ed, t)
    start(h, ed, u)
    for i in range(n):
        fn = t if (i + order) % 2 else u
        pos = h.int('pos%d' % i, 0, 999)
        follow(h, ed, fs, fn, pos, expected(h, browse, [], pos), 'jump %d: ' % i)
    h.cover('shared')


def TASKS(tier):
    q = tier == 'quick'
    t = []
    for n in range(0, 5 if q else 6):
        for m in range(0, 4 if q else 5):
            if n + m < (6 if q else 8):
                t.append(('tables%d%d' % (n, m), 'tables', (n, m, n + m < (4 if q else 5))))
    for f in range(len(FORMS)):
        two = 1 in FORMS[f]
        t.append(('program%02d' % f, 'program', (f, (2 if two else 3) if q else (3 if two else 4), 1 if q else 2)))
    for o in (0, 1):
        t.append(('located%d' % o, 'located', (1 if q else 2, o)))
    for k in range(3):
        for n in (1, 2) if q else (1, 2, 3):
            t.append(('named%d%d' % (k, n), 'named', (k, n, 0 if k == 0 else 1 if q else 2)))
    for k in (0, 1):
        t.append(('again%d' % k, 'again', (1 if q else 2, 1 if q else 2, k)))
        t.append(('shared%d' % k, 'shared', (3 if q else 4, k)))
    return t

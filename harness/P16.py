# -*- coding: utf-8 -*-
META = {
    'id': 'P16',
    'bounds': 'base names of 1..9 (thorough 12) symbolic characters over letters of "yu", of both cases, a dot, a hyphen and others, names with one of 13 tails behind 0..3 (4) '
              'symbolic characters, with 6 directories (names of which have dots) and 5 output directories; whole runs for a source in each of them',
    'covers': ['yu-', 'double', 'yu', 'other', 'none', 'run'],
    'budget': {'quick': 100, 'thorough': 800},
    'relational': False,
    'outside': 'an output name that the source sets itself; two inputs of one name with an output directory; a source which is named like the backup copy of the output of another one',
}

AL = 'yuYcU.-_7'
DIRS = ['', 'd/', './', '/r/', 'd.yu/', 'a.b/c.yu-h/', '../', '.yu/']
OUTS = ['', 'o', 'o/', './', '/q/o.yu', '.']


def splitext(b):
    """(stem, extension with its dot) of a name without directory"""
    i = 0
    while i < len(b) and b[i] == '.':
        i += 1
    p = b.rfind('.')
    return (b[:p], b[p:]) if p > i - 1 and p >= i and p > 0 else (b, '')


def expected(h, base):
    stem, ext = splitext(base)
    if not ext:
        h.cover('none')
        return base + '.yugen'
    e = ext.lower()
    if e == '.yu':
        if splitext(stem)[1]:
            h.cover('double')
            return stem
        h.cover('yu')
        return stem + '.yugen'
    if e[:4] == '.yu-' and len(e) > 4:
        h.cover('yu-')
        return stem + '.' + ext[4:]
    h.cover('other')
    return stem + '.yugen' + ext


def name(h, base, dirs, outs):
    d = dirs[h.choose('dir', len(dirs))]
    o = outs[h.choose('out', len(outs))]
    h.describe(repr((d, base, o)))
    configure(h, output_dir=o)
    r = h.yup._output_fn(d + base)
    h.observe('name', xplain(r))
    w = expected(h, base)
    p = o + ('' if o[-1] == '/' else '/') if o else d
    h.check(h.eq(r, p + w), 'the name of the output is derived as documented')
    h.check(not w == base, 'the output has another name than the input')


def free(h, n, k):
    b = h.chars('b', n, AL)
    h.assume(b.strip('.') if n else True)
    name(h, b, DIRS[k:k + 1], OUTS if k == 0 else OUTS[:2])


TAILS = ['.yu', '.yu-c', '.yu-h', '.yu-py', '.YU', '.Yu-C', '.c', '.yu.yu', '.yu-yu', '.h.yu', '.yu-', '.yugen', '.c.yu-h']


def tail(h, n, i):
    b = h.chars('b', n, 'aB.- \xe9')
    b = b + TAILS[i]
    h.assume(b.strip('.'))
    name(h, b, DIRS, OUTS)


def run(h, i, d):
    """a run writes the output under this name and leaves the source"""
    c = h.chars('c', 1, 'ABCDEFGHIJ')
    base = 'x' + ['', '.yu', '.yu-c', '.c', '.c.yu', '.yugen', '.yu-yu'][i]
    o = OUTS[h.choose('out', 2)]
    if o:
        h.fs.mkdir('o')
    fn = d + base
    h.fs.write(fn, '($ (' + c + ') )\n')
    src = h.fs.read(fn)
    if h.flag('old'):
        h.fs.write(('o/' if o else d) + expected(h, base), 'old\n')
    before = h.fs.listing()
    h.yup._pp_configure({'quiet': True, 'output_dir': o})
    h.describe('%s into %s' % (fn, o))
    r = h.yup._pp_file(fn)
    h.check(r, 'accepted')
    out = ('o/' if o else d) + expected(h, base)
    h.check(h.fs.isfile(out), 'the output has the documented name')
    h.check(h.eq(h.fs.read(out), c + '\n'), 'the output')
    h.check(h.eq(h.fs.read(fn), src), 'the source is untouched')
    new = [x for x in h.fs.listing() if x not in before]
    h.check(all(x in (out, out + '.bak') for x in new), 'no other files: %r' % (new,))
    h.cover('run')


def TASKS(tier):
    q = tier == 'quick'
    t = []
    for n in range(1, 10 if q else 13):
        for k in range(len(DIRS) if n < 6 else 2):
            t.append(('free%d-%d' % (n, k), 'free', (n, k)))
    for i in range(len(TAILS)):
        for n in range(0, 4 if q else 5):
            t.append(('tail%d-%d' % (i, n), 'tail', (n, i)))
    for i in range(7):
        for d in ('', 'd/', 'd.yu/'):
            t.append(('run%d-%s' % (i, d.strip('/')), 'run', (i, d)))
    return t

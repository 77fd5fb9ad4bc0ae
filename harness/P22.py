# -*- coding: utf-8 -*-
META = {
    'id': 'P22',
    'bounds': 'lists of 0..4 (thorough 6) items for passes, written out, computed or bound before; outputs with names of a symbolic character, an explicit name for all, for some or for no pass; '
              'a pass that fails (an error, a text that is no output, an output that cannot be written) at every position; command lines of 1..2 sources with 0..3 passes each; '
              'with an output directory, a backup copy, browse data, constants of the command line; five kinds of state between the passes; the stream interface',
    'covers': ['named', 'default', 'mixed', 'failed', 'two files', 'refused', 'state', 'empty', 'stream', 'single', 'again'],
    'budget': {'quick': 120, 'thorough': 800},
    'relational': True,
    'outside': 'sources that declare two lists of passes, an output that is the source itself, two passes that write the same name as backup copies of each other',
}

L = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
LOW = 'abcdefghijklmnopqrstuvw'


def cli(h, args):
    h.clear()
    r, v = h.crashes(lambda: h.yup.cli(args))
    h.observe('run', r)
    h.check(r == 'ok', 'the run ends')
    return v


def other_files(h, *names):
    return [f for f in h.fs.listing() if f not in names]


def named(h, n, form, cfg):
    """an output for each pass"""
    c = h.char('c', L)
    d = h.char('d', LOW)
    names = [d + '%d.txt' % i for i in range(n)]
    vals = ['%d' % (7 + i) for i in range(n)]
    body = '<' + c + '($v)>\n'
    if form == 'names':
        text = '($set __OUTPUT_FILE__ ($__PASSAGE__ (' + ' '.join(['"' + x + '"' for x in names]) + ')))<' + c + '($__OUTPUT_FILE__)>\n'
        want = ['<' + c + '"' + x + '">\n' for x in names]
    elif form == 'pairs':
        text = '($set p ($__PASSAGE__ (' + ' '.join(['("' + x + '" ' + y + ')' for x, y in zip(names, vals)]) + ')))($set __OUTPUT_FILE__ ($0 p))<' + c + '($1 p)>\n'
        want = ['<' + c + y + '>\n' for y in vals]
    elif form == 'range':
        text = '($set i ($__PASSAGE__ ($range %d)))($set __OUTPUT_FILE__ ($add ($add (`' % n + d + ') ($str i)) (`.txt)))<' + c + '($add 7 i)>\n'
        want = ['<' + c + y + '>\n' for y in vals]
    else:
        text = '($set l (' + ' '.join(['"' + x + '"' for x in names]) + '))($set f \\x.($__PASSAGE__ x))($set __OUTPUT_FILE__ ($f l))<' + c + '>\n'
        want = ['<' + c + '>\n' for y in vals]
    h.fs.write('x.yu-c', text)
    args = ['-q']
    pre = ''
    if cfg == 'dir':
        h.fs.mkdir('o')
        args += ['-o', 'o']
    elif cfg == 'backup' and n:
        h.fs.write(names[-1], 'old\n', mode=0o400)
    elif cfg == 'browse':
        args += ['--pp-browse']
    elif cfg == 'define':
        args += ['-D', 'zz:1']
    h.describe(text)
    v = cli(h, args + ['x.yu-c'])
    h.check(v == 0, 'the passes succeed')
    keep = ['x.yu-c']
    for x, w in zip(names, want):
        h.check(h.fs.isfile(x), 'the output of the pass is written')
        h.check(h.eq(h.fs.read(x), w), 'the output of the pass')
        keep += [x]
        if cfg == 'browse':
            h.check(h.fs.isfile(x + '.json'), 'the browse data of the pass')
            keep += [x + '.json']
    if n == 0:
        # there is nothing to choose from: one run
        h.cover('empty')
        return
    if cfg == 'backup':
        h.check(h.fs.read(names[-1] + '.bak') == 'old\n', 'the previous output is kept')
        keep += [names[-1] + '.bak']
    rest = [f for f in h.fs.listing() if not any([f == k for k in keep])]
    h.observe('other files', len(rest))
    h.check(rest == [], 'the default output is not written')
    h.cover('named' if n > 1 else 'single')
    # once more
    v = cli(h, args + ['x.yu-c'])
    h.check(v == 0, 'the passes succeed again')
    for x, w in zip(names, want):
        h.check(h.eq(h.fs.read(x), w), 'the output of the pass in the next run')
        h.check(h.eq(h.fs.read(x + '.bak'), w), 'the backup copy of the output of the pass')
    h.cover('again')


def default(h, n, mask, out):
    """some passes set no name"""
    c = h.char('c', L)
    text = '($set p ($__PASSAGE__ (' + ' '.join([('(%d "n%d.h")' % (i + 1, i) if (mask >> i) & 1 else '(%d %d)' % (i + 1, i)) for i in range(n)]) + ')))($set __OUTPUT_FILE__ ($1 p))' + c + '($0 p)\n'
    h.fs.write('x.yu-c', text)
    args = ['-q']
    dflt = 'x.c'
    if out:
        h.fs.mkdir('o')
        args += ['-o', 'o']
        dflt = 'o/x.c'
    h.describe(text)
    v = cli(h, args + ['x.yu-c'])
    h.check(v == 0, 'the passes succeed')
    last = prev = None
    for i in range(n):
        w = c + '%d\n' % (i + 1)
        if (mask >> i) & 1:
            h.check(h.fs.isfile('n%d.h' % i) and h.eq(h.fs.read('n%d.h' % i), w), 'the output of a pass that sets a name')
        else:
            h.check(not h.fs.exists('n%d.h' % i), 'no output of that name')
            prev, last = last, w
    h.check(h.fs.isfile(dflt) == (last is not None), 'the default output is written for a pass that sets no name')
    if last is not None:
        h.check(h.eq(h.fs.read(dflt), last), 'the default output is that of the last pass that sets no name')
        h.cover('mixed' if mask else 'default')
    h.check(h.fs.isfile(dflt + '.bak') == (prev is not None), 'a backup copy of the default output')
    if prev is not None:
        h.check(h.eq(h.fs.read(dflt + '.bak'), prev), 'the backup copy is that of the pass before')


FAIL = ['error', 'ast', 'unwritable', 'code']


def failing(h, n, k, kind, files):
    """the k-th pass of n fails"""
    c = h.char('c', L)
    bad = {'error': '"s"', 'ast': '5', 'unwritable': '5', 'code': '0'}[kind]
    expr = {'error': '($inc v)', 'ast': '($ast v)', 'unwritable': '($v)', 'code': '($div 8 v)'}[kind]
    if kind == 'ast':
        # a function without arguments
        expr = '($ (\\x.[x]) v)'
        text = ('($set l (' + ' '.join(['\\a.\\b.[($a)($b)]' if i == k else '\\a.[($a)]' for i in range(n)]) + '))($set v ($__PASSAGE__ l))($set __OUTPUT_FILE__ ($__PASSAGE__ ('
                + ' '.join(['"n%d"' % i for i in range(n)]) + ')))' + c + '($v "1")\n')
    else:
        nm = ['"d"' if i == k and kind == 'unwritable' else '"n%d"' % i for i in range(n)]
        text = ('($set p ($__PASSAGE__ (' + ' '.join(['(' + nm[i] + ' ' + (bad if i == k else '4') + ')' for i in range(n)]) + ')))($set __OUTPUT_FILE__ ($0 p))($set v ($1 p))'
                + c + expr + '\n')
    good = {'error': '5', 'ast': '"1"', 'unwritable': '4', 'code': '2.0'}[kind]
    h.fs.mkdir('d')
    h.fs.write('x.yu-c', text)
    names = ['x.yu-c']
    if files:
        # a good file after the failed one
        h.fs.write('y.yu-c', '($set p ($__PASSAGE__ (1 2)))($set __OUTPUT_FILE__ ($add ($add (`m) ($str p)) (`)))' + c + '\n')
        names.append('y.yu-c')
    h.describe(text)
    v = cli(h, ['-q'] + names)
    h.observe('status', v)
    h.check(v == 4, 'a failed pass is a failure of the file')
    for i in range(n):
        if i < k:
            h.check(h.fs.isfile('n%d' % i) and h.eq(h.fs.read('n%d' % i), c + good + '\n'), 'the passes before the failed one are complete')
        else:
            h.check(not h.fs.exists('n%d' % i), 'the failed pass and those after it write nothing')
    h.check(not h.fs.exists('x.c'), 'the default output is not written')
    h.check(not any(f[:2] == 'd/' for f in h.fs.listing()) if kind == 'unwritable' else True, 'the directory is left alone')
    if files:
        for m in ('m1', 'm2'):
            h.check(h.fs.isfile(m) and h.eq(h.fs.read(m), c + '\n'), 'the next file starts with its first pass')
    h.cover('failed')


def two(h, a, b, c):
    """one file after another, each has its own passes"""
    x = h.char('x', L)
    srcs = []
    for i, n in enumerate((a, b, c)):
        if n is None:
            continue
        fn = 's%d.yu-h' % i
        if n == 0:
            text = x + '%d\n' % i
        else:
            text = '($set p ($__PASSAGE__ ($range %d)))($set __OUTPUT_FILE__ ($add ($add (`r%d) ($str p)) (`.h)))' % (n, i) + x + '%d($p)\n' % i
        h.fs.write(fn, text)
        srcs.append((fn, i, n))
    h.describe(repr(srcs))
    v = cli(h, ['-q'] + [f for f, _, _ in srcs])
    h.check(v == 0, 'the files succeed')
    keep = []
    for f, i, n in srcs:
        keep.append(f)
        if n == 0:
            keep.append('s%d.h' % i)
            h.check(h.fs.isfile('s%d.h' % i) and h.eq(h.fs.read('s%d.h' % i), x + '%d\n' % i), 'a file without passes')
        for k in range(n):
            nm = 'r%d%d.h' % (i, k)
            keep.append(nm)
            h.check(h.fs.isfile(nm) and h.eq(h.fs.read(nm), x + '%d%d\n' % (i, k)), 'the output of a pass')
    h.observe('files', sorted(h.fs.listing()))
    h.check(sorted(h.fs.listing()) == sorted(keep), 'no other files')
    h.cover('two files')


WRONG = ['($__PASSAGE__ 5)', '($__PASSAGE__ "ab")', '($__PASSAGE__ (1 2) (3))', '($__PASSAGE__ ($inc 1))']


def refused(h, k):
    c = h.char('c', L)
    h.fs.write('x.yu-c', c + WRONG[k] + '\n')
    h.fs.write('y.yu-c', c + '\n')
    h.describe(WRONG[k])
    v = cli(h, ['-q', 'x.yu-c', 'y.yu-c'])
    h.observe('status', v)
    h.check(v == 4, 'no list of passes: a failure')
    h.check(not h.fs.exists('x.c'), 'no output')
    h.check(h.eq(h.fs.read('y.c'), c + '\n'), 'the next file')
    h.cover('refused')


STATE = [
    ('($set m \\x.[<($x)>])($set m \\x.[{($x)}])', '($m 1)', '{1}'),
    ('($import "i.yu")', '($w)', 'W'),
    ('($set a 1)($set a ($inc 5))', '($a)', '6'),
    ('($import "i.yu")($import "i.yu")', '($w)($w)', 'WW'),
    ('', '($mm)', '!3'),
    ('($import "s.py")', '($bump 1)($bump 2)', '12'),
]


def state(h, k, n):
    """each pass is a full run"""
    c = h.char('c', L)
    setup, use, want = STATE[k]
    h.fs.write('i.yu', '($set w [W])\n')
    h.fs.write('s.py', 'N = [0]\ndef bump(x):\n    N[0] += 1\n    return N[0]\n')
    args = ['-q']
    if setup == '':
        args += ['-D', 'mm:!3']
    text = setup + '($set p ($__PASSAGE__ ($range %d)))($set __OUTPUT_FILE__ ($add ($add (`n) ($str p)) (`.c)))' % n + c + use + '\n'
    h.fs.write('x.yu-c', text)
    h.describe(text)
    v = cli(h, args + ['x.yu-c'])
    h.check(v == 0, 'the passes succeed')
    for i in range(n):
        r = h.fs.read('n%d.c' % i) if h.fs.isfile('n%d.c' % i) else None
        h.observe('pass', r)
        h.check(r is not None and h.eq(r.lstrip('\n'), c + want + '\n'), 'the pass is as if it were the only one')
    h.cover('state')


def stream(h, n, named):
    """the interface for packages makes the first pass"""
    c = h.char('c', L)
    text = '($set p ($__PASSAGE__ ($range %d)))' % n + ('($set __OUTPUT_FILE__ ($add ($add (`n) ($str p)) (`.py)))' if named else '') + "x = '" + c + "' + str(($p))\n"
    h.fs.write('x.yu-py', text)
    h.describe(text)
    h.fs.write('p.yu-c', '($set p ($__PASSAGE__ (1 2 3)))($p)\n')
    if h.flag('before'):
        h.check(cli(h, ['-q', 'p.yu-c']) == 0, 'another file')
    f = h.yup.open('x.yu-py', 'r')
    h.clear()
    ok, code, fn, shrink = h.yup.proc_stream(f, 'x.yu-py')
    h.observe('ok', ok)
    h.check(ok, 'the first pass')
    want = "x = '" + c + "' + str(0)\n"
    h.check(h.eq(code, want), 'the text of the first pass')
    h.check(fn == ('n0.py' if named else 'x.py'), 'the name that is returned is the one that is written')
    h.check(h.eq(h.fs.read('n0.py' if named else 'x.py'), want), 'the file that is written')
    h.check(not h.fs.exists('x.py' if named else 'n0.py') and not h.fs.exists('n1.py'), 'no other output')
    h.cover('stream')


def TASKS(tier):
    q = tier == 'quick'
    t = []
    for n in range(4 if q else 6):
        for form in ('names', 'pairs', 'range', 'lambda'):
            for cfg in ('', 'dir', 'backup', 'browse', 'define'):
                if n or not cfg and form in ('names', 'pairs'):
                    t.append(('named%d-%s-%s' % (n, form, cfg), 'named', (n, form, cfg)))
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for m in range(1 << n):
            for o in (False, True):
                t.append(('default%d-%d-%d' % (n, m, o), 'default', (n, m, o)))
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for k in range(n):
            for kind in FAIL:
                for f in (False, True):
                    t.append(('failing%d-%d-%s-%d' % (n, k, kind, f), 'failing', (n, k, kind, f)))
    for a in range(4):
        for b in range(4):
            for c in (None, 0, 2):
                t.append(('two%d%d%s' % (a, b, c), 'two', (a, b, c)))
    for k in range(len(WRONG)):
        t.append(('refused%d' % k, 'refused', (k,)))
    for k in range(len(STATE)):
        for n in (1, 2, 3):
            t.append(('state%d-%d' % (k, n), 'state', (k, n)))
    for n in (1, 2, 3):
        for nm in (False, True):
            t.append(('stream%d-%d' % (n, nm), 'stream', (n, nm)))
    return t

# -*- coding: utf-8 -*-
META = {
    'id': 'P26',
    'bounds': 'sessions of 1..3 (thorough 4) lines, each a command, a text with a symbolic character, a definition, an application, an error, an open construct or blank, and one line of 4..6 (7) symbolic '
              'characters around the commands; texts of 0..3 (4) symbolic characters over everything for the option -i; pairs and triples of switches of the command line in every order, '
              'directly or in a response file; tracing, logging and traceback levels with programs of every outcome',
    'covers': ['run', 'failed', 'empty run', 'exit', 'end', 'text', 'switch', 'response', 'trace', 'typed', 'refused'],
    'budget': {'quick': 120, 'thorough': 800},
    'relational': True,
    'outside': 'editing of lines by the terminal, the wording of prompts and messages, quoting in a response file',
}

L = 'abcdfghjklm'


def alone(h, text, source=None):
    """the text on its own: success and result"""
    h.yup._pp_configure({'quiet': True, 'traceback': 0})
    h.clear()
    g = h.yugen
    g.yushell(text, source)
    g.yuinit()
    ok, plain = h.yup._pp()
    return ok, xplain(plain), [m for l, m in h.logs() if l in ('ERROR', 'CRITICAL')]


def cli(h, args):
    h.clear()
    r, v = h.crashes(lambda: h.yup.cli(args))
    h.observe('run', r)
    h.check(r == 'ok', 'the program ends in order')
    h.observe('status', v)
    return v


def judge(h, runs, what):
    """what was printed for the runs"""
    out = h.out()
    h.observe('out', '' + str(out))
    p = 0
    errors = []
    for ok, plain, err in runs:
        if plain:
            q = out.find('--> ', p)
            h.check(q >= 0, what + ': the result is shown')
            q += 4
            h.check(h.eq(out[q:q + len(plain)], plain), what + ': the result')
            h.check(out[q + len(plain):q + len(plain) + 1] == '\n', what + ': the result ends')
            p = q + len(plain)
        if ok:
            q = out.find('* OK *\n', p)
            h.check(q >= 0, what + ': the success is shown')
            p = q
        errors += err
    h.check(out.count('--> ') == len([1 for r in runs if r[1]]), what + ': nothing else is shown')
    h.check(out.count('* OK *\n') == len([1 for r in runs if r[0]]), what + ': OK is shown for a success only')
    got = [m for l, m in h.logs() if l in ('ERROR', 'CRITICAL')]
    h.check(len(got) == len(errors), what + ': the errors')
    for a, b in zip(got, errors):
        h.check(h.eq(a, b), what + ': the message of an error')


KINDS = ['test', 'exit', ' \ttest ', 'C', '($set v C)', '<($v)>', '($', 'testC', '', '($undefC $)', '($set __OUTPUT_FILE__ "C")x', '($import zC)', 'C)']


def session(h, n, last, kinds):
    lines = []
    for i in range(n):
        k = kinds[h.choose('k%d' % i, len(kinds))] if i < n - 1 or last is None else last
        s = KINDS[k]
        if 'C' in s:
            a, b = s.split('C')
            s = a + h.char('c%d' % i, L) + b
        lines.append(s)
    typed(h, lines)


def typed(h, lines):
    runs, buf, ended = [], '', False
    for s in lines:
        t = s.strip()
        if t == 'exit':
            ended = True
            break
        if t == 'test':
            if buf.strip():
                runs.append(alone(h, buf))
                h.cover('run' if runs[-1][0] else 'failed')
            else:
                h.cover('empty run')
            buf = ''
        else:
            buf = buf + s + '\n'
    h.describe('|'.join([str(x) for x in lines]))
    h.stdin(lines)
    v = cli(h, ['-q'])
    h.check(v == 0, 'the session ends with status zero')
    judge(h, runs, 'the session')
    h.cover('exit' if ended else 'end')


def command(h, n, alphabet):
    """a line that may be a command"""
    s = h.chars('s', n, alphabet)
    typed(h, ['q', s, 'test', 'z', 'test'])


def text(h, n, alphabet, src):
    """a text given with the option"""
    s = h.chars('s', n, alphabet)
    pre = h.choose('pre', ['q', '($set v 1)($v)', '\n($inc '])
    t = pre + s
    want = alone(h, t, src)
    h.describe(t)
    h.stdin(['a', 'test', 'exit'] if h.flag('repl') else [])
    args = ['-q', '-i', t] + (['--input-source', src] if src else [])
    v = cli(h, args)
    out = h.out()
    h.observe('out', '' + str(out))
    h.check(v == 0, 'the console ends with status zero')
    if want[0]:
        h.check(h.eq(out[:len(want[1]) + 1], '\n' + want[1]), 'the result is shown')
        h.check(out[len(want[1]) + 1:len(want[1]) + 2] == '\n' if want[1] else True, 'the result ends')
        h.check('* OK *' in out, 'the success is shown')
    got = [m for l, m in h.logs() if l in ('ERROR', 'CRITICAL')]
    h.check(len(got) >= len(want[2]), 'the error is shown')
    for a, b in zip(got, want[2]):
        h.check(h.eq(a, b), 'the message')
        h.check('  File "' + (src or '<stdin>') + '"' in a, 'the name of the source')
    h.cover('text')


# switch, setting, value
SWITCH = [
    ('--pp-skip-comments=0', 'skip', 0), ('--pp-skip-comments=1', 'skip', 1), ('--pp-skip-comments=2', 'skip', 2), ('--pp-skip-comments=3', 'skip', 3),
    ('--pp-no-trim-app-indent', 'trim', False), ('--pp-trim-app-indent', 'trim', True),
    ('--pp-no-reduce-emptiness', 'reduce', False), ('--pp-reduce-emptiness', 'reduce', True),
    ('--pp-no-browse', 'browse', False), ('--pp-browse', 'browse', True),
    ('-Wno-unbound', 'warn', False), ('-Wunbound', 'warn', True), ('--warn-no-unbound-application', 'warn', False), ('--warn-unbound-application', 'warn', True),
    ('--no-read-only', 'ro', False), ('--type-file', 'type', True), ('-oo', 'dir', 'o/'), ('--output=o2', 'dir', 'o2/'),
    ('-dd1', 'd', 'd1'), ('-dd2', 'd', 'd2'), ('-DK:1', 'K', '1'), ('-DK:2', 'K', '2'),
]


def switches(h, n, first, response):
    """every switch sets its own setting, the last one wins"""
    c = h.char('c', 'ABCDEFGH')
    sel = [first] + [h.choose('s%d' % i, len(SWITCH)) for i in range(1, n)]
    st = {'skip': 0, 'trim': True, 'reduce': True, 'browse': False, 'warn': True, 'ro': True, 'type': False, 'dir': '', 'd': [], 'K': 'K'}
    args = ['-q']
    for k in sel:
        a, key, v = SWITCH[k]
        args.append(a)
        if key == 'd':
            st['d'].append(v)
        else:
            st[key] = v
    h.fs.write('d1/m.yu', '1')
    h.fs.write('d2/m.yu', '2')
    h.fs.mkdir('o')
    h.fs.mkdir('o2')
    imp = st['d'] and '($import m)'
    h.fs.write('x.yu-c', c + '\n\n\n/*($K)*/\n  ($ [a\nb])\n($Zz)' + (imp or '') + '\n')
    args.append('x.yu-c')
    h.describe(' '.join(args))
    if response:
        h.fs.write('resp', '\n'.join(args))
        args = ['@resp']
        h.cover('response')
    v = cli(h, args)
    h.check(v == 0, 'the file is translated')
    fn = st['dir'] + 'x.c'
    others = [f for f in h.fs.listing() if f.endswith('x.c')]
    h.check(others == [fn], 'the output is in its directory')
    comment = '/*($K)*/' if st['skip'] in (1, 3) else '/*' + st['K'] + '*/'
    want = c + ('\n' if st['reduce'] else '\n\n') + '\n' + comment + '\n'
    want = want + ('  a\n  b\n' if st['trim'] else '  a\nb\n')
    want = want + 'Zz' + (st['d'][0][1] if st['d'] else '') + '\n'
    got = h.fs.read(fn)
    h.observe('text', '' + str(got))
    h.check(h.eq(got, want), 'the text under the settings')
    h.check(h.fs.isfile(fn + '.json') == st['browse'], 'browse data are written on request')
    h.check(('Zz' in ''.join([str(m) for l, m in h.logs() if l.startswith('WARN')])) == st['warn'], 'warnings about unbound atoms on request')
    h.check((h.fs.mode(fn) & 0o222 == 0) == st['ro'], 'the output is protected unless that is declined')
    h.check((h.out().count(got) > 0) == st['type'], 'the output is shown on request')
    h.cover('typed' if st['type'] else 'switch')


PROG = ['x($set a C)\n<($a)>\n', '($add C', '($undefC $)', '($macro m (x) [($x)]C)($m 1)\n($m [\n2\n])', '($(1 2) \\i.[C($i)])', '($ \\p.[C])', '($ {C + 1})', '/* C */']


def tracing(h, k):
    """tracing, logging and traceback levels do not change what is generated"""
    c = h.char('c', '0123456789')
    a, b = PROG[k].split('C')
    h.fs.write('x.yu-c', a + c + b)
    h.fs.write('y.yu-c', a + c + b)
    base = ['-q'] + (['--pp-browse'] if h.flag('br') else [])
    v = cli(h, base + ['x.yu-c'])
    e = [m for l, m in h.logs() if l in ('ERROR', 'CRITICAL')]
    h.observe('files', h.fs.listing())
    args = base + ['-t%d' % h.choose('t', 4), '-l%d' % (1 + h.choose('l', 5)), '-b%d' % h.choose('b', 3), 'y.yu-c']
    h.describe(' '.join(args) + ' ' + a + c + b)
    w = cli(h, args)
    h.check(v == w, 'the status is the same')
    for x, y in (('x.c', 'y.c'), ('x.ast', 'y.ast'), ('x.c.json', 'y.c.json')):
        h.check(h.fs.isfile(x) == h.fs.isfile(y), 'the same files are written')
        if h.fs.isfile(x) and x != 'x.c.json':
            h.check(h.eq(h.fs.read(x), h.fs.read(y)), 'the same text is written')
    h.cover('trace')


def refused(h, k):
    """a wrong command line is refused with its own status"""
    args = [['--nosuch', 'x.yu-c'], ['--pp-skip-comments=4', 'x.yu-c'], ['-t9', 'x.yu-c'], ['-lx', 'x.yu-c'], ['@nosuch'], ['-b3', 'x.yu-c'], ['-o'], ['-i']][k]
    c = h.char('c', L)
    h.fs.write('x.yu-c', c)
    h.describe(' '.join(args))
    v = h.run_main(['pp/__main__.py', '__main__.py', '__main__.py:main'][h.choose('m', 3)], args)
    h.observe('status', v)
    h.check(v == 2, 'status 2')
    h.check(h.fs.listing() == ['x.yu-c'], 'nothing is written')
    h.cover('refused')


def TASKS(tier):
    q = tier == 'quick'
    t = []
    some = [0, 1, 3, 4, 5, 6, 8]
    for last in range(len(KINDS)):
        t.append(('session2-%d' % last, 'session', (2, last, list(range(len(KINDS))))))
    t.append(('session3', 'session', (3, 0, list(range(len(KINDS))))))
    t.append(('session4', 'session', (4, 0, [0, 3, 4, 5, 6] if q else some)))
    t.append(('session5', 'session', (5, 0, [0, 4, 5] if q else [0, 1, 4, 5, 10])))
    for n in (4, 5, 6) if q else (4, 5, 6, 7):
        t.append(('command%d' % n, 'command', (n, 'tes xi\t' if n < 6 else 'tesxi ')))
    for n in range(4 if q else 5):
        for src in (None, 'd/w.yu'):
            t.append(('text%d-%s' % (n, 'src' if src else ''), 'text', (n, ACCEPT if n < 2 or n < 3 and not q else '($)a1\n\\ ', src)))
    for k in range(len(SWITCH)):
        for r in (False, True):
            t.append(('switch%d-%d' % (k, r), 'switches', (2, k, r)))
            if not q and r == (k % 2 == 0):
                t.append(('switches%d-%d' % (k, r), 'switches', (3, k, r)))
    for k in range(len(PROG)):
        t.append(('trace%d' % k, 'tracing', (k,)))
    for k in range(8):
        t.append(('refused%d' % k, 'refused', (k,)))
    return t

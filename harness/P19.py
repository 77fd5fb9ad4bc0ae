# -*- coding: utf-8 -*-
META = {
    'id': 'P19',
    'bounds': 'every assignment of two (thorough three) of the settings, each unset or of every value, to the configuration of the directory and that of the file; entries that are unknown or of another type, a '
              'configuration that fails after some assignments; constants of a configuration and of the command line, with symbolic names and values; every ordered pair of 28 '
              'sources with something particular and 21 sources that would show it, processed by one command line, by two, by the package, by both, with the second one also processed first',
    'covers': ['settings', 'wrong', 'failing', 'define', 'pair', 'package', 'cli'],
    'budget': {'quick': 150, 'thorough': 850},
    'replay_min': 1,
    'outside': 'numbers out of the range of an option, items of a wrong type inside the lists of a configuration, an entry of a wrong type over one of the right type; the options of the command line '
               '(see P16) and sources in another directory than the current one; scripts in Python that change the interpreter',
    'assumptions': ['a configuration is executed by the interpreter itself'],
}

DIGIT = '123456789'
LETTER = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
NAME = 'ABMXZ_aqz059'
LOW = 'abcdefghijklmnopqrstuvwxyz'

OPT = {
    'pp_skip_comments': [0, 1, 2, 3], 'pp_trim_app_indent': [True, False], 'pp_reduce_emptiness': [True, False], 'pp_browse': [False, True], 'warn_unbound_application': [True, False],
    'log_level': [1, 3, 4], 'read_only': [True, False], 'force': [False, True], 'trace_stage': [0], 'type_output': [False, True],
}
ORDER = ['pp_skip_comments', 'pp_trim_app_indent', 'pp_reduce_emptiness', 'pp_browse', 'warn_unbound_application', 'log_level', 'read_only', 'type_output']
NAMES = {('pp_skip_comments', 0): 'PP_SKIP_COMMENTS_NONE', ('pp_skip_comments', 1): 'PP_SKIP_C_COMMENTS', ('pp_skip_comments', 2): 'PP_SKIP_PYTHON_COMMENTS', ('pp_skip_comments', 3): 'PP_SKIP_COMMENTS_AUTO',
         ('log_level', 1): 'LOG_LEVEL_DEBUG', ('log_level', 3): 'LOG_LEVEL_WARNING', ('log_level', 4): 'LOG_LEVEL_ERROR'}

SHOW = '($set m [%s])\na\n\n\n\n//($m)b\n  ($ \\x.[p\nq] 1)\n($n)\n'


def shown(eff, d):
    return ('' if eff['pp_trim_app_indent'] else '\n') + 'a\n' + ('\n' if eff['pp_reduce_emptiness'] else '\n\n\n') + ('//($m)b' if eff['pp_skip_comments'] in (1, 3) else '//' + d + 'b') \
        + '\n  p\n' + ('  q' if eff['pp_trim_app_indent'] else 'q') + '\nn\n'


def body(h, fn, browse=False):
    """the text of an output without the EOL that ends every output"""
    t = h.fs.read(fn)
    if browse:
        # nothing is added to a text with browse data
        return t[:-1] if h.eq(t[-1:], '\n') is True else t
    h.check(h.eq(t[-1:], '\n'), 'the output ends with EOL')
    return t[:-1]


def package(h, fn, out):
    """process a file as the package does"""
    h.clear()
    r, v = h.crashes(lambda: h.yup.proc_file(fn))
    h.observe('run', r)
    h.check(r == 'ok', 'the run ends')
    return v


def judge(h, eff, d, out='x.c', name='x.yu-c'):
    ok, fn = package(h, name, out)
    h.observe('ok', ok)
    h.check(ok and fn == out, 'the file is processed')
    h.observe('text', h.fs.read(out))
    h.check(h.eq(h.fs.read(out), shown(eff, d)), 'the settings are those of the configurations')
    h.check(h.fs.isfile(out + '.json') == eff['pp_browse'], 'browse data')
    h.check((h.fs.mode(out) & 0o222 == 0) == eff['read_only'], 'the output is read-only if required')
    warn = [m for l, m in h.logs() if 'unbound' in m]
    h.observe('warnings', len(warn))
    h.check((len(warn) > 0) == (eff['warn_unbound_application'] and eff['log_level'] <= 3), 'warnings are those of the settings')


def defaults():
    eff = dict((k, v[0]) for k, v in OPT.items())
    return eff


def line(h, k, v):
    if (k, v) in NAMES and h.flag('named'):
        return k + ' = ' + NAMES[k, v] + '\n'
    return k + ' = ' + str(v) + '\n'


def settings(h, keys, extra):
    d = h.char('d', LETTER)
    eff = defaults()
    cfg = ['', '']
    first = True
    for k in keys:
        for level in (0, 1):
            v = h.choose(k + str(level), [None] + OPT[k])
            if v is None:
                continue
            eff[k] = v
            cfg[level] += line(h, k, v) if first and level == 0 else k + ' = ' + str(v) + '\n'
            first = False
    cfg[0] += extra
    cfg[1] += extra
    if cfg[0]:
        h.fs.write('.yuconfig', cfg[0])
    if cfg[1]:
        h.fs.write('x.yuconfig', cfg[1])
    # of another file
    h.fs.write('y.yuconfig', 'pp_trim_app_indent = False\npp_reduce_emptiness = False\npp_browse = True\nread_only = False\nlog_level = 5\n')
    h.fs.write('x.yu-c', SHOW % d)
    h.describe(repr(cfg))
    judge(h, eff, d)
    h.cover('settings')


WRONG = ['"text"', 'None', '1.5', '[]', '()', '{}', 'len', '"0"', 'object()', 'b"1"']


def wrong(h, i, j):
    """entries that are unknown or have another type"""
    d = h.char('d', LETTER)
    k = ORDER[i]
    cfg = ''
    eff = defaults()
    o = ORDER[(i + 3) % len(ORDER)]
    eff[o] = OPT[o][1]
    cfg = k + ' = ' + WRONG[j] + '\n' + o + ' = ' + str(OPT[o][1]) + '\n'
    cfg += h.choose('unknown', ['', 'unknown = 1\nPP_BROWSE = True\npp_brows = True\n', 'directory = 5\ndependency = "a"\npp_define = None\n', 'import os\ndef f(): pass\nclass A: pass\n'])
    level = h.choose('level', ['.yuconfig', 'x.yuconfig'])
    h.fs.write(level, cfg)
    h.fs.write('x.yu-c', SHOW % d)
    h.describe(level + ': ' + cfg)
    judge(h, eff, d)
    h.cover('wrong')


FAILS = ['1 / 0', 'raise Exception("x")', 'nothing', 'import nowhere_to_be_found', 'raise KeyError()', '(', 'x = = 1', 'assert False']


def failing(h, i, level):
    """a configuration that fails: what it has assigned before, what the others assign"""
    d = h.char('d', LETTER)
    eff = defaults()
    syntax = FAILS[i] in ('(', 'x = = 1')
    a = h.choose('a', ORDER[:5])
    b = h.choose('b', ORDER[:5])
    h.assume(a != b)
    names = ['.yuconfig', 'x.yuconfig']
    h.fs.write(names[level], a + ' = ' + str(OPT[a][1]) + '\n' + FAILS[i] + '\n' + b + ' = ' + str(OPT[b][1]) + '\n')
    if not syntax:
        eff[a] = OPT[a][1]
    c = h.choose('c', [None] + ORDER[:5])
    if c is not None:
        h.assume(c not in (a, b))
        h.fs.write(names[1 - level], c + ' = ' + str(OPT[c][1]) + '\n')
        eff[c] = OPT[c][1]
    h.fs.write('x.yu-c', SHOW % d)
    h.describe(FAILS[i])
    judge(h, eff, d)
    h.check(len([m for l, m in h.logs() if l == 'ERROR' and names[level] in m]) == 1, 'the failure is reported')
    h.cover('failing')


def define(h, form):
    """constants"""
    v = h.chars('v', 2, 'AMZ019_')
    h.fs.write('x.yu-c', '($set a K)<($K_C)>($a)<($DD)>[($e)]')
    h.fs.write('y.yu-c', '<($K_C)>')
    want = '<' + v + '>K<1>'
    if form < 3:
        text = 'pp_define = ["K_C:' + v + '", "DD:1", "FLAG"]\n' if form == 0 else 'pp_define.append("K_C: ' + v + ' ")\npp_define.append("DD :1")\n' if form == 1 else 'pp_define += ["K_C:0"]\n'
        h.fs.write('.yuconfig' if form != 1 else 'x.yuconfig', text)
        if form == 2:
            h.fs.write('x.yuconfig', 'pp_define.append("K_C:' + v + '")\npp_define.append("DD:1")\n')
        h.describe(text)
        ok, fn = package(h, 'x.yu-c', 'x.c')
        h.check(ok, 'the file is processed')
        t = h.fs.read('x.c')
        ok, fn = package(h, 'y.yu-c', 'y.c')
        h.check(h.eq(body(h, 'y.c'), '<' + ([v, 'K_C', '0'][form]) + '>'), 'the constants of another file')
    else:
        args = [['-D', 'K_C:' + v, '-D', 'DD:1'], ['--pp-define=K_C:' + v, '--pp-define', 'DD : 1'], ['-D', 'K_C:0', '-D', 'K_C:' + v, '-DDD:1']][form - 3]
        h.describe(repr(args))
        h.clear()
        r, st = h.crashes(lambda: h.yup.cli(['-q'] + args + ['x.yu-c', 'y.yu-c']))
        h.check(r == 'ok' and st == 0, 'the files are processed')
        t = h.fs.read('x.c')
        h.check(h.eq(body(h, 'y.c'), '<' + v + '>'), 'a constant of the command line is visible in every file')
        # not in the next run
        r, st = h.crashes(lambda: h.yup.cli(['-q', 'y.yu-c']))
        h.check(body(h, 'y.c') == '<K_C>', 'a constant of a command line is not visible in the next one')
    h.observe('text', t)
    h.check(h.eq(t[:len(want)], want), 'constants are visible')
    h.cover('define')


def flags(h, k):
    """a constant without a value is true, definitions of the source hide it"""
    n = h.choose('n', ['FLAG', 'flag', 'F_9', '_f'])
    d = h.char('d', DIGIT)
    text = ['($ [yes] ? ($' + n + ') | [no])', '($set ' + n + ' ' + d + ')<($' + n + ')>', '($macro f (x) ($x))($ \\' + n + '.[($' + n + ')] ' + d + ')', '($let ' + n + ' ' + d + ' [<($' + n + ')>])'][k]
    want = ['yes', '<' + d + '>', d, '<' + d + '>'][k]
    h.fs.write('x.yu-c', text)
    h.describe(text)
    if h.flag('cli'):
        h.clear()
        r, st = h.crashes(lambda: h.yup.cli(['-q', '-D', n, 'x.yu-c']))
        h.check(r == 'ok' and st == 0, 'the file is processed')
    else:
        h.fs.write('.yuconfig', 'pp_define.append("' + n + '")\n')
        ok, fn = package(h, 'x.yu-c', 'x.c')
        h.check(ok, 'the file is processed')
    h.check(h.eq(body(h, 'x.c'), want), 'a constant')
    h.cover('define')


def directories(h, k):
    """where the files of an import are looked for"""
    d = h.char('d', DIGIT)
    for x in ('one', 'two'):
        h.fs.mkdir(x)
    h.fs.write('one/l.yu', '($set w 1' + d + ')')
    h.fs.write('two/l.yu', '($set w 2' + d + ')')
    h.fs.write('two/only.yu', '($set o 3' + d + ')')
    a, b = [('directory.append("one")', ''), ('', 'directory.append("two")'), ('directory.append("one")', 'directory.append("two")'), ('directory.append("one")', 'directory = ["two"]'),
            ('directory = ["two", "one"]', ''), ('directory.append("two")', 'directory.insert(0, "one")')][k]
    if a:
        h.fs.write('.yuconfig', a + '\n')
    if b:
        h.fs.write('x.yuconfig', b + '\n')
    first = '1' if k in (0, 2, 5) else '2'
    h.fs.write('x.yu-c', '($import "l.yu")<($w)>' + ('($import "only.yu")($o)' if k != 0 else ''))
    h.fs.write('y.yu-c', '($import "l.yu")<($w)>')
    h.describe(a + ' ' + b)
    ok, fn = package(h, 'x.yu-c', 'x.c')
    h.check(ok and h.eq(body(h, 'x.c'), '<' + first + d + '>' + ('3' + d if k != 0 else '')), 'the directories of the configurations are searched in order')
    ok, fn = package(h, 'y.yu-c', 'y.c')
    h.check(ok == bool(a), 'the directories of another file')
    if ok:
        h.check(h.eq(body(h, 'y.c'), '<' + ('2' if k in (4, 5) else '1') + d + '>'), 'the directories of another file in order')
    h.cover('settings')


# ---- histories

# name, extension, text
BEFORE = [
    ('set', 'c', '($set %n 9)($set upper 1)($set K 5)($%n)'),
    ('macro', 'c', '($macro %n () MM)($macro lower (x) no)($%n)'),
    ('import', 'c', '($import "i.yu")($w)'),
    ('script', 'c', '($import "s.py")($sf 1)($upper "a")'),
    ('syntax', 'c', '($set %n [(($%n'),
    ('error', 'c', '($set %n 9)($ \\%n.($inc %n) "s")'),
    ('deep', 'c', '($set f \\a.($ [] ? { a == 0 } | [($f { a - 1 })]))($f 9)'),
    ('name', 'c', '($set __OUTPUT_FILE__ "named.h")q'),
    ('passes', 'c', '($set p ($__PASSAGE__ (1 2 3)))($set __OUTPUT_FILE__ ($add ($add (`p) ($str p)) (`.h)))($p)'),
    ('pass fails', 'c', '($set p ($__PASSAGE__ (1 "s" 3)))($set __OUTPUT_FILE__ "p.h")($inc p)'),
    ('python', 'py', '($set %n 1)"""($%n)"""\n# ($%n)\n($%n)'),
    ('python text', 'py', "'''($m)\n"),
    ('skip', 'c', 'a($skip)b'),
    ('emit', 'c', '($set %n 5)($emit %n inc)($emit %n inc)($%n)'),
    ('magic', 'py', '#!/usr/bin/python\n# coding: yupp\nx = 1\n'),
    ('coded', 'c', '($import ($ (`1) ))'),
    ('unbound', 'c', '($%n)($n)($zz)'),
    ('unknown', 'c', '($import "none.yu")'),
    ('script fails', 'c', '($import "bad.py")'),
    ('tree', 'c', '($ \\a.\\b.[x] 1)'),
    ('late', 'c', '($set f \\%n..\\g.[($g 7)])($f [($&%n)])'),
    ('lazy', 'c', '($set l ($lazy (%n 2)))($l)'),
    ('unique', 'c', '($ ($unique (1 1 2)) \\x.[($x)])($ ($reversed (1 2)) \\x.[($x)])'),
    ('long', 'c', 'l1\nl2\n($set a\n[b\nc])\n   ($a)\n'),
    ('nothing', 'c', ''),
    ('library', 'c', '($import stdlib)($if 1 [y] [n])'),
    ('hazard', 'c', '($ (upper 1 %n) \\x.[a])'),
    ('tree and hazard', 'c', '($ (upper 1) \\x.[a])($ \\a.\\b.[x] 1)'),
]
# name, extension, text, what is written, number of warnings, number of errors
AFTER = [
    ('free name', 'c', '<($%m)%s>', '<%m%s>', 1, 0),
    ('built-in', 'c', '($upper (`a%s))($lower (`B))', 'A%sb', 0, 0),
    ('import', 'c', '($import "i.yu")($w)%s', 'W%s', 0, 0),
    ('script', 'c', '($import "s.py")($sf 1)%s', '2%s', 0, 0),
    ('no script', 'c', '($sf)%s($upper (`u))', 'sf%sU', 1, 0),
    ('default name', 'c', '%s\n', '%s\n', 0, 0),
    ('passes', 'c', '($set p ($__PASSAGE__ (4 5)))($set __OUTPUT_FILE__ ($add ($add (`b) ($str p)) (`.c)))%s($p)', None, 0, 0),
    ('string', 'c', '"($%m)"\'($%m)\'%s', '"($%m)"\'($%m)\'%s', 0, 0),
    ('comment', 'c', '($set z 1)# (($z))\n// ($z)%s', '# (1)\n// 1%s', 0, 0),
    ('counter', 'c', '($set %m 1)($emit %m inc)($%m)%s', '12%s', 0, 0),
    ('error', 'c', 'a%s\n ($inc "x")', None, 0, 1),
    ('syntax', 'c', 'a%s\n ($inc', None, 0, 1),
    ('title', 'py', '# coding: yupp\nx%s = 1\n', '\nx%s = 1\n', 0, 0),
    ('python string', 'py', "'''($%m)'''%s\n", "'''($%m)'''%s\n", 0, 0),
    ('indent', 'c', '  ($ \\x.[p\nq] 1)\n\n\n\n%s\n', '  p\n  q\n\n%s\n', 0, 0),
    ('constants', 'c', '($K)($K_C)%s', 'KK_C%s', 2, 0),
    ('module', 'c', '($__MODULE_NAME__)%s', None, 0, 0),
    ('function', 'c', '($set %m \\a.($ [.] ? { a == 0 } | [($%m { a - 1 })]))($%m 2)%s', '.%s', 0, 0),
    ('library', 'c', '($import stdlib)($if 1 [y] [n])%s', 'y%s', 0, 0),
    ('no import', 'c', '%s\n($import "o.yu")', None, 0, 1),
    ('tree', 'c', '%s\n($ \\a.\\b.[x] 1)', None, 0, 1),
]
# settings of the file that is processed before
CONFIG = ['', 'pp_skip_comments = 3\npp_trim_app_indent = False\npp_reduce_emptiness = False\npp_browse = True\nwarn_unbound_application = False\n'
          'pp_define = ["K", "vM:5", "sf:1"]\ndirectory.append("other")\nread_only = False\ntype_output = True\nlog_level = 5\nquiet = True\n',
          'pp_browse = True\n']


def files(h, c):
    h.fs.mkdir('other')
    h.fs.write('i.yu', '($set w [W])')
    h.fs.write('s.py', 'def sf(x):\n    return x + 1\ndef upper(x):\n    return "!"\n')
    h.fs.write('other/i.yu', '($set w [no])')
    h.fs.write('other/o.yu', '($set w [no])')
    h.fs.write('bad.py', 'def upper(x):\n    return "?"\nraise ValueError()\n')


def process(h, kind, names):
    """one or several files; the messages"""
    h.clear()
    if kind == 'mixed':
        # by the command line and by the package in turns
        kind = 'package' if names[0][:1] == 'b' else 'two'
    if kind == 'package':
        for n in names:
            r, v = h.crashes(lambda: h.yup.proc_file(n))
            h.check(r == 'ok', 'the run ends')
    else:
        r, v = h.crashes(lambda: h.yup.cli(['-q'] + names))
        h.check(r == 'ok', 'the run ends')
    return h.logs()


def pair(h, i, j, kind, cfg, again):
    c = h.char('c', LETTER)
    n = 'v' + h.char('n', NAME)
    m = 'v' + h.char('m', NAME)

    def fill(t):
        return t.replace('%s', c).replace('%n', n).replace('%m', m)
    h.depth(600)
    files(h, c)
    _, xa, ta = BEFORE[i]
    _, xb, tb, wb, nw, ne = AFTER[j]
    a, b = 'a.yu-' + xa, 'b.yu-' + xb
    h.fs.write(a, fill(ta))
    h.fs.write(b, fill(tb))
    if CONFIG[cfg]:
        h.fs.write('a.yuconfig', CONFIG[cfg])
        h.fs.write('b.yuconfig', CONFIG[2] if cfg == 2 else 'directory = 5\npp_define = None\ndependency = 1.5\npp_browse = "no"\n')
    h.describe(BEFORE[i][0] + ': ' + ta + ' -- ' + AFTER[j][0] + ': ' + tb)
    was = {}
    if again:
        process(h, kind, [b])
        for f in h.fs.listing():
            if f[:1] == 'b' and f not in (b, 'bad.py', 'b.yuconfig'):
                was[f] = h.fs.read(f)
                h.fs.remove(f)
    if kind == 'one':
        logs = process(h, kind, [a, b])
    else:
        process(h, kind, [a])
        logs = process(h, kind, [b])
    out = [f for f in h.fs.listing() if f[:1] == 'b' and f not in (b, 'bad.py', 'b.yuconfig')]
    h.observe('files', sorted(out))
    if again:
        h.check(sorted(was) == sorted(out), 'the same files as when it was processed first')
        for f in out:
            h.check(h.eq(h.fs.read(f), was.get(f, '')), 'the same content as when it was processed first')
    out = [f for f in out if cfg != 2 or f[-5:] != '.json']
    if AFTER[j][0] == 'passes':
        if kind in ('package', 'mixed'):
            # the package makes the first pass only
            h.check(out == ['b4.c'] and h.eq(body(h, 'b4.c', cfg == 2), c + '4'), 'the first pass')
        else:
            h.check(sorted(out) == ['b4.c', 'b5.c'] and h.eq(body(h, 'b4.c'), c + '4'), 'the first pass')
            h.check(h.eq(body(h, 'b5.c'), c + '5'), 'the next pass')
    elif ne:
        h.check(out == (['b.ast'] if AFTER[j][0] == 'tree' else []), 'an error: nothing is written')
    else:
        w = 'B' + c if wb is None else fill(wb)
        h.check(out == ['b.' + xb], 'the output and nothing else is written')
        t = body(h, 'b.' + xb, cfg == 2)
        h.observe('text', t)
        if w[-1:] == '\n':
            w = w[:-1]
        h.check(h.eq(t, w), 'the output does not depend on what was processed before')
        h.check(h.fs.mode('b.' + xb) & 0o222 == 0, 'the output is read-only')
    if kind != 'one':
        h.check(len([1 for l, m in logs if l == 'WARNING' and 'unbound' in m]) == nw, 'the warnings do not depend on what was processed before')
        es = [m for l, m in logs if l in ('ERROR', 'CRITICAL')]
        h.check(len([1 for l, m in logs if 'built-in' in m]) == 0, 'functions of another file')
        h.check(len(es) == ne, 'the errors do not depend on what was processed before')
        if ne:
            h.check(AFTER[j][0] == 'tree' or 'File "b.yu-' + xb + '", line 2' in es[0], 'the place of the error')
    h.cover('pair')
    h.cover('package' if kind in ('package', 'mixed') else 'cli')


def TASKS(tier):
    q = tier == 'quick'
    t = []
    n = len(ORDER)
    for i in range(n):
        for j in range(i + 1, n):
            t.append(('settings-%d-%d' % (i, j), 'settings', ((ORDER[i], ORDER[j]), '')))
            if not q:
                for k in range(j + 1, n):
                    t.append(('settings-%d-%d-%d' % (i, j, k), 'settings', ((ORDER[i], ORDER[j], ORDER[k]), '')))
    t.append(('settings-extra', 'settings', (('pp_browse', 'pp_trim_app_indent'), 'a = 1\n')))
    for i in range(n):
        for j in range(len(WRONG)):
            t.append(('wrong-%d-%d' % (i, j), 'wrong', (i, j)))
    for i in range(len(FAILS)):
        for l in (0, 1):
            t.append(('failing-%d-%d' % (i, l), 'failing', (i, l)))
    for k in range(6):
        t.append(('define-%d' % k, 'define', (k,)))
        t.append(('dir-%d' % k, 'directories', (k,)))
    for k in range(4):
        t.append(('flag-%d' % k, 'flags', (k,)))
    for i in range(len(BEFORE)):
        for j in range(len(AFTER)):
            for kind in ('one', 'two', 'package', 'mixed'):
                for cfg in ((0, 1, 2) if kind == 'package' else (0,)):
                    for again in (False, True):
                        if cfg == 2 and not again or q and (again and (i + j) % 3 or kind == 'two' and (i + j) % 2 or kind == 'mixed' and (i + j) % 2 == 0 or kind == 'package' and not cfg and (i + j) % 2 == 0):
                            continue
                        t.append(('pair-%d-%d-%s-%d-%d' % (i, j, kind, cfg, again), 'pair', (i, j, kind, cfg, again)))
    return t

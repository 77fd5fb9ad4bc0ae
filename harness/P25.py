# -*- coding: utf-8 -*-
META = {
    'id': 'P25',
    'bounds': 'dictionaries of 0..3 rows and 1..3 columns (thorough 4 x 3) with symbolic values; conditions and branches present, empty or missing; sequences of 0..5 elements with 0..3 given ones; '
              'bodies of 1..3 lines with symbolic characters; binary numbers of 1..6 (9) symbolic digits in 1..3 bytes; declarations with symbolic names in headers of the light, the full and the default helper, '
              'read by C and C++ compilers, once or twice, with and without the implementation; coroutines of 1..3 (4) constructs chosen among nine, called 4 (6) times with symbolic conditions, '
              'as plain C and with coroutine.h',
    'covers': ['dict', 'if', 'unfold', 'do', 'define', 'def', 'skip', 'bin', 'argv', 'header', 'coro', 'py'],
    'budget': {'quick': 150, 'thorough': 850},
    'outside': 'lib/lorem.yu and the other examples; what a C compiler does beyond the subset of C read by the check; INT_MAX and INT_MIN beyond the known finding',
    'assumptions': ['generated headers and coroutines are read by a preprocessor and an interpreter of the check for the subset of C which the library generates'],
}

LETTER = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
LOWER = 'abcdefghijklmnopqrstuvwxyz'
TEXT = LETTER + LOWER + '0123456789+-*/;:.,?!%&|<>=~^#@'
STD = '($import stdlib)'


def run(h, text, name='t.yu-c', out='t.c', **cfg):
    r = pp(h, text, (None, name) if False else name, out, warn_unbound_application=False, **cfg)
    h.observe('ok', r.ok)
    h.check(r.ok, 'the program is translated')
    return xplain(r.plain)


def same(h, text, want, what, **cfg):
    got = run(h, STD + text, **cfg)
    h.observe('plain', got)
    h.check(len(got) == len(want) and h.eq(got, want), what)


def squeeze(text):
    """lines without blanks at both ends and without empty lines"""
    return [x for x in [x.strip(' \t') for x in text.split('\n')] if x]


def lines_are(h, text, want, what, **cfg):
    got = squeeze(run(h, text, **cfg))
    h.observe('lines', '|'.join([str(x) for x in got]))
    h.check(len(got) == len(want), what)
    h.check(h.all([h.eq(a, b) for a, b in zip(got, want)]), what)


# ---- stdlib

CELLS = ['k%s', '(`%s-)', 'k%s%s', '"%s"', '(`)']
CELLV = ['k%s', '%s-', 'k%s%s', '"%s"', '']


def dict_(h, rows, cols, kind):
    names = ['T', 'KEY', 'NAME'][:cols]
    cells, vals = [], []
    for i in range(rows):
        a, b = '', []
        for j in range(cols):
            k = (i + j + kind) % len(CELLS)
            c = h.chars('c%d%d' % (i, j), 1, LOWER)
            a = a + ' ' + CELLS[k].replace('%s', c)
            b.append(CELLV[k].replace('%s', c))
        cells.append('(' + a + ' )')
        vals.append(b)
    d = '($dict D\n\t(` ' + ' '.join(names) + ' )\n\t(`\n\t' + '\n\t'.join(cells) + '\n\t)\n)'
    body, want = '', ''
    for i in range(rows):
        want = want + '<' + str(i)
        for j in range(cols):
            want = want + ':' + vals[i][j]
        want = want + '>'
    for x in names:
        body = body + ':($i ' + x + ')'
    text = STD + d + '[($each-D \\i.[<($i)' + body + '>])]{($cols-D \\i.[($i),])}'
    got = run(h, text).strip()
    h.observe('plain', got)
    want = '[' + want + ']{' + ''.join(['%d,' % j for j in range(cols)]) + '}'
    h.check(len(got) == len(want) and h.eq(got, want), 'rows and columns of the dictionary')
    # a column is a list
    if rows:
        t = STD + d
        for x in names:
            t = t + '|($len ' + x + ')($ \\v.[/($v)] ' + '($0 ' + x + '))($-1 ' + x + ')'
        w = ''
        for j in range(cols):
            w = w + '|' + str(rows) + '/' + vals[0][j] + vals[rows - 1][j]
        got = run(h, t).strip()
        h.observe('columns', got)
        h.check(len(got) == len(w) and h.eq(got, w), 'a column is the list of its values')
    h.cover('dict')


CONDS = [('0', 0), ('1', 1), ('%s', 1), ('""', 1), ('(`)', 0), ('[]', 0), ('($eq 4 ($add 2 2))', 1), ('{ 3 < 2 }', 0), ('($list)', 0), ('($list 0)', 1), ('0.0', 0), ('-1', 1)]


def if_(h, i):
    c, v = CONDS[i]
    if '%s' in c:
        c = h.chars('c', 1, '123456789')
    fn = ['if', 'unless'][h.choose('fn', 2)]
    k = h.choose('legs', 4)
    a, b = h.chars('a', 1, LETTER), h.chars('b', 1, LETTER)
    legs = ['', ' [' + a + ']', ' [' + a + '] [' + b + ']', ' [] [' + b + ']'][k]
    first, second = ['', a, a, ''][k], ['', '', b, b][k]
    want = '<' + (first if bool(v) == (fn == 'if') else second) + '>'
    same(h, '<($' + fn + ' ' + c + legs + ')>', want, 'the leg of the condition')
    same(h, '($ \\c.[<($' + fn + ' c' + legs + ')>] ' + c + ')', want, 'the leg of a condition known later')
    h.cover('if')


def unfold(h, given):
    n = h.choose('n', 6)
    vals = [h.chars('v%d' % i, 1, LETTER) for i in range(given)]
    mark = h.chars('m', 1, LOWER)
    want = ''
    for i in range(n):
        want = want + (vals[i] if i < given else mark + str(i))
    args = join([' ' + v for v in vals])
    same(h, '<($unfold ' + str(n) + args + ' \\n.[' + mark + '($n)])>', '<' + want + '>', 'given elements and the function for the others')
    h.cover('unfold')


def body_of(h, n, k=2):
    ls = []
    for i in range(n):
        s = h.chars('l%d' % i, k, TEXT)
        ls.append('x' + s + 'z')
    return ls


def do(h, n):
    ls = body_of(h, n)
    h.assume(not any(['(`' in x or '($' in x for x in ls]))
    for fn, a, b in (('do', 'do {', '} while ( 0 )'), ('foo', '({', '})')):
        lines_are(h, STD + '($' + fn + ' ]\n\t' + '\n\t'.join(ls) + '\n[ );', [a] + ls + [b + ';'], 'the body between the braces')
    h.cover('do')


def define(h, n, how):
    ls = body_of(h, n, 1 if how == 0 and n > 1 else 2)
    sig = 'M' + h.chars('g', 1, LETTER) + '( x )'
    if how == 0:
        text = '($define,,' + sig + ',,' + '\n'.join(ls) + ')'
        h.assume(not any([',,' in x or ';;' in x for x in ls]))
        want = ls
    elif how == 1:
        text = '($define ]\n' + sig + '\n[ ]\n\t' + '\n\t'.join(ls) + '\n[ )'
        want = ls
    else:
        text = '($define,,' + sig + ',,($do ]\n\t' + '\n\t'.join(ls) + '\n[ ))'
        want = ['do {'] + ls + ['} while ( 0 )']
    got = run(h, STD + text + '\nend')
    h.observe('plain', got)
    # continued lines make one
    glued, one = [], ''
    for x in got.split('\n'):
        if x[-1:] == '\\':
            one = one + ' ' + x[:-1].strip()
        else:
            glued.append((one + ' ' + x).strip())
            one = ''
    glued = [x for x in glued if x]
    h.check(len(glued) == 2, 'one directive of the C preprocessor')
    w = '#define ' + sig + ' ' + ' '.join(want)
    h.check(len(glued[0]) == len(w) and h.eq(glued[0], w), 'signature and body of the macro')
    h.check(glued[1] == 'end', 'text after the macro')
    if how == 2 or n > 1 and how == 1:
        h.check(len(got.strip().split('\n')) == len(want) + 1, 'lines are kept')
    h.cover('define')


def def_(h, i):
    n = 'N' + h.chars('n', 1, LETTER)
    use = '<($' + n + ')><($ [y] ? ' + n + ' | [n])>'
    if i == 0:
        same(h, '($def ' + n + ')\n' + use, '#define ' + n + '\n<1><y>', 'a defined name')
    elif i == 1:
        same(h, '($undef ' + n + ')\n' + use, '#undef  ' + n + '\n<0><n>', 'an undefined name')
    elif i == 2:
        same(h, '($def ' + n + ')\n($undef (`' + n + '))\n' + use, '#define ' + n + '\n#undef  ' + n + '\n<0><n>', 'a name undefined after a definition')
    elif i == 3:
        c, v = CONDS[MCONDS[h.choose('c', len(MCONDS))]]
        c = c.replace('%s', '3')
        got = run(h, STD + '($def-if ' + c + ' ' + n + ')\n' + use).strip()
        want = ('#define ' + n + '\n<1><y>') if v else '<0><n>'
        h.observe('plain', got)
        h.check(len(got) == len(want) and h.eq(got, want), 'a name defined under a condition')
    else:
        m = 'LINK'
        on = h.flag('on')
        got = run(h, STD + '($' + ('def ' if on else 'undef ') + m + ')\n($def-if ' + m + ' ' + n + ')\n' + use).strip()
        want = ('#define ' + m + '\n#define ' + n + '\n<1><y>') if on else ('#undef  ' + m + '\n\n<0><n>')
        h.observe('plain', got)
        h.check(len(got) == len(want) and h.eq(got, want), 'a name defined if another one is')
    h.cover('def')


MCONDS = [i for i, c in enumerate(CONDS) if c[0] not in ('(`)', '[]', '($list)', '($list 0)')]


def skip(h, k):
    c, v = CONDS[MCONDS[k]]
    c = c.replace('%s', '3')
    fn = ['skip-if', 'skip-if-not'][h.choose('fn', 2)]
    a, b, e = h.chars('a', 1, LETTER), h.chars('b', 1, LETTER), h.chars('e', 1, LETTER)
    away = bool(v) == (fn == 'skip-if')
    want = a if away else a + b
    same(h, a + '($' + fn + ' ' + c + ')' + b, want, 'the rest of the module is skipped on the condition')
    # only the module with the macro
    h.fs.write('m.yu', STD + a + '($' + fn + ' ' + c + ')' + b + '($set z 1)')
    got = run(h, '($import m)' + e + '($ [y] ? ($isatom z) | [n])')
    w = want + e + ('y' if away else 'n')
    h.observe('plain', got)
    h.check(len(got) == len(w) and h.eq(got, w), 'the importing module goes on')
    h.cover('skip')


def bin_(h, sizes):
    v, bs = 0, []
    for j, n in enumerate(sizes):
        b, w = '', 0
        for i in range(n):
            x = h.flag('b%d%d' % (j, i))
            b = b + ('1' if x else '0')
            w = w * 2 + (1 if x else 0)
        bs.append(b)
        v = v * 256 + w
    if len(sizes) == 1:
        same(h, '<($BIN,,' + bs[0] + ')>', '<%d>' % v, 'the value of a binary number')
    same(h, '<($BB' + ''.join([',,' + b for b in bs]) + ')>', '<%d>' % v, 'the value of the bytes')
    h.cover('bin')


def argv(h):
    t, n, b = 't' + h.chars('t', 1, LOWER), 'f' + h.chars('n', 1, LOWER), h.chars('b', 2, LETTER)
    lines_are(h, STD + '($def-fn-argv ' + t + ' ' + n + ' ]\n\tint r' + b + ';\n\t($ &arg-begin)\n\twhile ( ($ &arg-count)-- ) r += ($ &arg-value &type);\n\t($ &arg-end)\n\treturn ( r );\n[ )',
              [t + ' ' + n + '( int argcnt, ... )', '{', 'int r' + b + ';', 'va_list argptr;', 'va_start( argptr, argcnt );',
               'while ( argcnt-- ) r += va_arg( argptr, ' + t + ' );', 'va_end( argptr );', 'return ( r );', '}'], 'the function with arguments of the type')
    h.cover('argv')


def limits(h, name, v):
    got = run(h, STD + '($' + name + ')').strip()
    h.check(got == v, name + ' is the limit of int32_t, not ' + got)


# ---- a preprocessor of C, as far as the library needs it

def tokens(text):
    out, i, n = [], 0, len(text)
    while i < n:
        c = text[i]
        if c in ' \t\n':
            i += 1
            continue
        j = i + 1
        if c == '_' or c.isalnum():
            while j < n and (text[j] == '_' or text[j].isalnum()):
                j += 1
        elif c == '"':
            while text[j] != '"':
                j += 1
            j += 1
        elif text[i:i + 2] in ('&&', '##', '--', '++'):
            j = i + 2
        out.append(text[i:j])
        i = j
    return out


def lookup(defs, t):
    for k in defs:
        if len(k) == len(t) and k == t:
            return k


def close(ts, i):
    """the place after the bracket which closes that at i"""
    d = 0
    while True:
        if ts[i] == '(':
            d += 1
        if ts[i] == ')':
            d -= 1
        i += 1
        if not d:
            return i


def expand(ts, defs, hide=()):
    out, i = [], 0
    while i < len(ts):
        k = lookup(defs, ts[i])
        if k is None or k in hide:
            out.append(ts[i])
            i += 1
            continue
        params, body = defs[k]
        if params is None:
            out += expand(body, defs, hide + (k,))
            i += 1
            continue
        if i + 1 >= len(ts) or ts[i + 1] != '(':
            out.append(ts[i])
            i += 1
            continue
        e = close(ts, i + 1)
        args, one, d = [], [], 0
        for t in ts[i + 2:e - 1]:
            if t == ',' and not d and not (params[len(args):] == ['...']):
                args.append(one)
                one = []
                continue
            if t in ('(', '{', '['):
                d += 1
            if t in (')', '}', ']'):
                d -= 1
            one.append(t)
        args.append(one)
        i = e
        sub = {}
        for j, p in enumerate(params):
            sub['__VA_ARGS__' if p == '...' else p] = args[j] if j < len(args) else []
        r = []
        j = 0
        while j < len(body):
            t = body[j]
            if t == ',' and body[j + 1:j + 3] == ['##', '__VA_ARGS__']:
                if len(args) >= len(params):
                    r += [','] + sub['__VA_ARGS__']
                j += 3
                continue
            if t == '##':
                x = r.pop()
                y = body[j + 1]
                y = sub.get(y, [y])
                r.append(x + y[0])
                r += y[1:]
                j += 2
                continue
            r += sub.get(t, [t])
            j += 1
        out += expand(r, defs, hide + (k,))
    return out


def uncomment(text):
    out = ''
    while True:
        i = text.find('/*')
        if i < 0:
            return out + text
        j = text.find('*/', i)
        out = out + text[:i] + ' '
        text = text[j + 2:]


def cpp(h, text, defs):
    """what a compiler reads; `defs` is changed"""
    out, conds = [], []
    lines = uncomment(text).split('\n')
    i = 0
    while i < len(lines):
        x = lines[i]
        while x[-1:] == '\\':
            i += 1
            x = x[:-1] + ' ' + lines[i]
        i += 1
        s = x.strip()
        if s[:1] != '#':
            if all(conds):
                out += tokens(x)
            continue
        # the text between directives is one sequence
        d = tokens(s[1:])
        live = all(conds)
        if d[0] == 'ifdef':
            conds.append(lookup(defs, d[1]) is not None)
        elif d[0] == 'ifndef':
            conds.append(lookup(defs, d[1]) is None)
        elif d[0] == 'if':
            v = True
            for t in ' '.join(d[1:]).split('&&'):
                t = t.replace(' ', '')
                m = t.lstrip('!')
                k = lookup(defs, m)
                b = k is not None and defs[k][1] not in ([], ['0'])
                v = v and (b if t == m else not b)
            conds.append(v)
        elif d[0] == 'else':
            h.check(conds, 'an alternative belongs to a condition')
            conds[-1] = not conds[-1]
        elif d[0] == 'endif':
            h.check(conds, 'a condition is closed once')
            conds.pop()
        elif live and d[0] == 'define':
            body = s[s.find('define') + 6:].strip()[len(d[1]):]
            if body[:1] == '(':
                e = close(d, 2)
                defs[str(d[1])] = ([t for t in params(d[3:e - 1])], d[e:])
            else:
                defs[str(d[1])] = (None, d[2:])
            out = expand(out, {}, ())
        elif live and d[0] == 'undef':
            # macros are expanded where they are defined
            k = lookup(defs, d[1])
            if k is not None:
                out = expand(out, defs)
                del defs[k]
        elif live and d[0] == 'include':
            pass
        elif live:
            h.check(False, 'a directive of the C preprocessor')
    h.check(not conds, 'every condition is closed')
    return expand(out, defs)


def params(ts):
    p, i = [], 0
    while i < len(ts):
        if ts[i] == '.':
            p.append('...')
            i += 3
        else:
            if ts[i] != ',':
                p.append(ts[i])
            i += 1
    return p


MODULES = ['mod-a', 'x', 'Some_1']
DECL = {
    'var': '($var,,int %a)', 'var-init': '($var-init,,char %b[ 2 ],,{ 7, %c })', 'inline': '($inline) int %d( void ) { return 1; }',
    'block': '($extern-c-begin)\nextern int %e( int a );\n($extern-c-end)',
    'extern': '($extern) void %f( char *a );', 'init': '($extern) char *%g ($init,,"s");', 'extern-c': '($extern-c) int %h( double v );',
    'var-c': '($var-c,,float %i)', 'var-c-init': '($var-c-init,,char *%j,,"off")',
}
LIGHT = ['var', 'var-init', 'inline', 'block']
FULL = LIGHT + ['extern', 'init', 'extern-c', 'var-c', 'var-c-init']


def meaning(kind, impl, plus, gnu, x):
    """what a declaration means"""
    e = [] if impl else ['extern']
    cx = ['extern', '"C"']
    if kind == 'var':
        return e + ['int', x, ';']
    if kind == 'var-init':
        d = e + ['char', x[0], '[', '2', ']']
        return d + (['=', '{', '7', ',', x[1], '}', ';'] if impl else [';'])
    if kind == 'inline':
        return ([] if impl else ['extern', 'inline'] if gnu else ['inline']) + ['int', x, '(', 'void', ')', '{', 'return', '1', ';', '}']
    if kind == 'block':
        d = ['extern', 'int', x, '(', 'int', 'a', ')', ';']
        return cx + ['{'] + d + ['}'] if plus else d
    if kind == 'extern':
        return e + ['void', x, '(', 'char', '*', 'a', ')', ';']
    if kind == 'init':
        return e + ['char', '*', x] + (['=', '"s"'] if impl else []) + [';']
    if kind == 'extern-c':
        return (cx if plus else ['extern']) + ['int', x, '(', 'double', 'v', ')', ';']
    t = ['float', x] if kind == 'var-c' else ['char', '*', x]
    i = ['=', '"off"'] if impl and kind == 'var-c-init' else []
    if impl and plus:
        return cx + t + [';'] + t + i + [';']
    return (cx if plus else e) + t + i + [';']


def header(h, mode, m, kinds, named):
    """mode: hlib-light is 0, 1 or not set"""
    mod = MODULES[m]
    macro = mod.replace('-', '_').upper()
    text, want = '', []
    for k in kinds:
        d = DECL[k]
        x = h.chars('n_' + k, 2, LETTER)
        y = None
        if k == 'var-init':
            y = h.chars('v', 1, LETTER)
            d = d.replace('%c', y)
        d = d[:d.find('%')] + x + d[d.find('%') + 2:]
        text = text + d + '\n'
        want.append((k, x if y is None else (x, y)))
    pre = ['($set hlib-light 0)', '($set hlib-light 1)', ''][mode]
    begin = '($h-begin-named)' if named else '($h-begin %s)' % mod.replace('-', '_')
    out = run(h, pre + '($import hlib)\n' + begin + '\n\n' + text + '\n($h-end)\n', name='%s.yu-h' % mod, out='%s.h' % mod)
    impl_text = run(h, '($import hlib)\n' + ('($implement-named)' if named else '($implement %s)' % mod.replace('-', '_')) + '\n', name='%s.yu-c' % mod, out='%s.c' % mod)
    h.observe('header', out)
    impl, plus = h.flag('impl'), h.flag('plus')
    gnu = h.choose('gnu', 3)
    defs = {}
    if plus:
        defs['__cplusplus'] = (None, ['1'])
    if gnu:
        defs['__GNUC__'] = (None, ['4'])
    if gnu == 2:
        defs['__GNUC_STDC_INLINE__'] = (None, ['1'])
    before = [k for k in defs]
    if impl:
        h.check(cpp(h, impl_text, defs) == [], 'the implementation is marked by a macro only')
        h.check([k for k in defs if k not in before] == [macro + '_IMPLEMENT'], 'the mark of the implementation')
        before = [k for k in defs]
    got = cpp(h, out, defs)
    w = []
    for k, x in want:
        w += meaning(k, impl, plus, gnu == 1, x)
    h.observe('got', ' '.join([str(x) for x in got]))
    h.observe('want', ' '.join([str(x) for x in w]))
    h.check(len(got) == len(w), 'declarations of the header')
    h.check(h.all([h.eq(a, b) if len(a) == len(b) else False for a, b in zip(got, w)]), 'declarations of the header')
    h.check([k for k in defs if k not in before] == [macro + '_H'], 'only the guard is left')
    h.check(cpp(h, out, defs) == [], 'a header is read once')
    h.cover('header')


# ---- coroutines: an interpreter of C, as far as the library needs it

class Stop(Exception):
    pass


def compile_c(h, ts):
    """instructions of the body of a function"""
    code, labels, fresh = [], {}, [0]

    def expr(i, ends):
        e, d = [], 0
        while d or ts[i] not in ends:
            if ts[i] == '(':
                d += 1
            if ts[i] == ')':
                d -= 1
            e.append(ts[i])
            i += 1
        return e, i

    def name(l, scope):
        for s in reversed(scope):
            if l in s:
                return s[l]
        return l

    def block(i, scope, end):
        scope = scope + [{}]
        while ts[i] not in end:
            i = stmt(i, scope)
        return i + 1

    def stmt(i, scope):
        t = ts[i]
        if t == ';':
            return i + 1
        if t == '{':
            return block(i + 1, scope, '}')
        if t == '(' and ts[i + 1] == '{':
            i = block(i + 2, scope, '}')
            h.check(ts[i] == ')', 'brackets of the coroutine')
            return i + 1
        if t == '__label__':
            fresh[0] += 1
            scope[-1][ts[i + 1]] = '%s.%d' % (ts[i + 1], fresh[0])
            return i + 3
        if t == 'do':
            i = stmt(i + 1, scope)
            h.check(ts[i:i + 4] == ['while', '(', '0', ')'], 'a statement executed once')
            return i + 4
        if t == 'for':
            i = close(ts, i + 1)
            at = len(code)
            i = stmt(i, scope)
            code.append(('jump', at))
            return i
        if t == 'if':
            e, i = expr(i + 2, ')')
            at = len(code)
            code.append(None)
            i = stmt(i + 1, scope)
            code[at] = ('unless', e, len(code))
            return i
        if t == 'goto':
            e, i = expr(i + 1, ';')
            h.check(e == ['*', '*', 'co_p'], 'a jump to where the coroutine stopped')
            code.append(('resume',))
            return i + 1
        if t == 'return':
            e, i = expr(i + 1, ';')
            code.append(('return', e[0]))
            return i + 1
        if ts[i + 1] == ':':
            n = name(t, scope)
            h.check(n not in labels, 'a label is defined once')
            labels[n] = len(code)
            return i + 2
        e, i = expr(i, ';}')
        if ts[i] == ';':
            i += 1
        if e[:3] == ['*', 'co_p', '=']:
            code.append(('point', None if e[3:] == ['NULL'] else name(e[4], scope)))
        elif e:
            code.append(('do', ' '.join(e)))
        return i

    i = block(1, [], '}')
    h.check(i == len(ts), 'brackets of the coroutine')
    code.append(('fall',))
    for c in code:
        h.check(c[0] != 'point' or c[1] is None or c[1] in labels, 'every label is defined')
    return code, labels


def truth(e, co, env):
    while e[0] == '(' and close(e, 0) == len(e):
        e = e[1:-1]
    if e[0] == '!':
        return not truth(e[1:], co, env)
    if e == ['*', 'co_p']:
        return co is not None
    return env(' '.join(e))


def call(h, code, labels, co, env, trace):
    pc, steps = 0, 0
    while True:
        steps += 1
        h.check(steps < 200, 'the coroutine stops')
        c = code[pc]
        pc += 1
        if c[0] == 'do':
            trace.append(c[1])
        elif c[0] == 'jump':
            pc = c[1]
        elif c[0] == 'unless':
            if not truth(c[1], co, env):
                pc = c[2]
        elif c[0] == 'resume':
            pc = labels[co]
        elif c[0] == 'point':
            co = c[1]
        elif c[0] == 'return':
            return co, c[1]
        else:
            h.check(False, 'the coroutine returns a status')


CONS = ['step', 'yield', 'wait', 'quit', 'restart', 'wait-coro', 'acquire', 'release', 'wait-not']


def reference(k, cons, loop, state, env, trace, enter, leave):
    """one call of a coroutine"""
    if enter:
        trace.append('static int b')
    pc = state
    n = 0
    while True:
        n += 1
        if n > 50:
            return None, 'endless'
        if pc == len(cons):
            if loop:
                pc = 0
                continue
            status = 'CO_END'
            break
        c = cons[pc]
        if c == 'step':
            trace.append('s%d ( )' % pc)
        elif c == 'yield':
            pc += 1
            status = 'CO_YIELD'
            break
        elif c == 'wait' and not env('c%d' % pc) or c == 'wait-not' and env('c%d' % pc):
            status = 'CO_WAIT'
            break
        elif c == 'wait-coro' and env('coro_B ( & co_B ) ) < CO_END'):
            status = 'CO_WAIT'
            break
        elif c == 'acquire':
            if not env('S > 0'):
                status = 'CO_WAIT'
                break
            trace.append('-- S')
        elif c == 'release':
            trace.append('++ S')
        elif c == 'quit':
            status = 'CO_END'
            break
        elif c == 'restart':
            pc = 0
            status = 'CO_YIELD'
            break
        pc += 1
    if leave:
        trace.append('bye ( )')
    return pc, status


SRC = {
    'step': 's%d();', 'yield': '($coro-yield);', 'wait': '($coro-wait c%d);', 'quit': '($coro-quit);', 'restart': '($coro-restart);', 'wait-coro': '($coro-wait-coro,,($coro-call B));',
    'acquire': '($semaphore-acquire S);', 'release': '($semaphore-release S);', 'wait-not': '($coro-wait,,!c%d);',
}


def normal(e):
    """an expression without brackets around it"""
    return e.replace('( coro_B', 'coro_B').replace('( ( ', '( ')


def coro(h, mode, first, n, calls):
    cons = [CONS[first]]
    for i in range(1, n):
        cons.append(CONS[h.choose('k%d' % i, len(CONS))])
    form = h.choose('form', 4)
    enter, leave, loop = form & 1, form & 2, form == 3 and 'yield' in cons
    pre = ['($set corolib-use-c-macro 0)', '($set corolib-use-c-macro 1)', ''][mode]
    body = '\n\t'.join([(SRC[c] % i if '%' in SRC[c] else SRC[c]) for i, c in enumerate(cons)])
    if loop:
        body = 'for ( ; ; ) {\n\t' + body + '\n\t}'
    text = pre + '($import corolib)($coro-h)\n($coro-context A);\n#{}\n($coro-define A ]\n\t' + body + '\n[' + (' \\enter ]\n\t($coro-local) int b;\n[' if enter else '') + (' \\exit ]bye();[' if leave else '') + ' )\n#{}\n' \
        '($coro-declare Z);($coro-context-init A);($semaphore-init S 2);($coro-call A);($coro-alive,,($coro-call A))\n#{}'
    got = run(h, text.replace('#{}', '@@'))
    head, fun, tail = got.split('@@')[:3]
    h.observe('fun', fun)
    defs = {}
    if mode == 1:
        h.check('coroutine.h"' in head, 'the header is included')
        hd = h.source('lib/coroutine.h')
        cpp(h, hd, defs)
    else:
        for w in ('co_t', 'semaphore_t', 'CO_READY', 'CO_WAIT', 'CO_YIELD', 'CO_END', 'CO_SKIP'):
            h.check(w in tokens(uncomment(head)), 'the types and statuses are declared')
    ts = expand(tokens(uncomment(fun)), defs)
    i = ts.index('{')
    h.check(ts[:i] == ['int', 'coro_A', '(', 'co_t', '*', 'co_p', ')'], 'the function of the coroutine')
    code, labels = compile_c(h, ts[i:])
    t = expand(tokens(uncomment(tail)), defs)
    h.observe('tail', ' '.join(t))
    co, state = None, 0
    for k in range(calls):
        seen = {}

        def env(e, k=k, seen=seen):
            e = normal(e)
            if 'coro_B' in e:
                e = 'alive'
            # a condition does not change during a call
            if e not in seen:
                seen[e] = h.flag('%s-%d' % (e.replace(' ', ''), k))
            return seen[e]

        a, b = [], []
        new, st = reference(k, cons, loop, state, env, b, enter, leave)
        if new is None:
            break
        co, status = call(h, code, labels, co, env, a)
        h.observe('call%d' % k, (status, a, st, b))
        h.check(status == st, 'the status of the call')
        h.check(a == b, 'the statements executed by the call')
        state = new
    h.cover('coro')


def coro_text(h, mode):
    """declarations and calls"""
    n = 'N' + h.chars('n', 1, LETTER)
    pre = ['($set corolib-use-c-macro 0)', '($set corolib-use-c-macro 1)', ''][mode]
    defs = {}
    if mode == 1:
        cpp(h, h.source('lib/coroutine.h'), defs)
    v = h.chars('v', 1, '123456789')
    for src, want in (('($coro-context %s)', ['co_t', 'co_%s']), ('($coro-context-init %s)', ['co_%s', '=', 'NULL']), ('($coro-declare %s)', ['int', 'coro_%s', '(', 'co_t', '*', 'co_p', ')']),
                      ('($coro-call %s)', ['coro_%s', '(', '&', 'co_%s', ')']), ('($coro-alive,,($coro-call %s))', ['coro_%s', '(', '&', 'co_%s', ')', '<', 'CO_END']),
                      ('($semaphore-init %s ' + v + ')', ['%s', '=', v]), ('($coro-local)', ['static'])):
        got = expand(tokens(uncomment(run(h, pre + '($import corolib)\n@' + src.replace('%s', n) + '@').split('@')[1])), defs)
        got = [x for x in got if x not in ('{', '}', ';')]
        brackets = lambda ts: [x for x in ts if x not in ('(', ')')]
        w = [x.replace('%s', n) for x in want]
        h.observe('got', ' '.join([str(x) for x in got]))
        got, w = brackets(got), brackets(w)
        h.check(len(got) == len(w), src)
        h.check(h.all([h.eq(a, b) if len(a) == len(b) else False for a, b in zip(got, w)]), src)
    h.cover('coro')


PYS = [
    ('def ($coro %n):', 'def coro_%n():'), ('($coro-init %n)', '%n = coro_%n()'), ('($coro-uninit %n)', '%n.close()'), ('($coro-yield)', 'yield CO_YIELD'),
    ('($coro-wait %n)', 'while not ( %n ): yield CO_WAIT'), ('($coro-wait,,%n > 0)', 'while not ( %n > 0 ): yield CO_WAIT'), ('($coro-wait-not,,%n > 0)', 'while %n > 0: yield CO_WAIT'),
    ('($coro-quit)', 'while True: yield CO_END'), ('($coro-call %n)', 'next( %n )'), ('($coro-alive,,($coro-call %n))', '(( next( %n ) ) < CO_END )'),
]


def coro_py(h, i):
    n = 'N' + h.chars('n', 1, LETTER)
    src, want = PYS[i]
    ls = squeeze(run(h, '($import coroutine-py)\n' + src.replace('%n', n), name='t.yu-py', out='t.py'))
    h.observe('lines', '|'.join([str(x) for x in ls]))
    for j, c in enumerate(('READY', 'WAIT', 'YIELD', 'END', 'SKIP')):
        h.check(['CO_' + c, '=', str(j)] in [tokens(x) for x in ls[:-1]], 'the statuses')
    a, b = tokens(ls[-1]), tokens(want.replace('%n', n))
    h.check(len(a) == len(b), src)
    h.check(h.all([h.eq(x, y) if len(x) == len(y) else False for x, y in zip(a, b)]), src)
    h.cover('py')


def TASKS(tier):
    q = tier == 'quick'
    t = []
    for rows in range(4 if q else 5):
        for cols in (1, 2, 3):
            for k in ((rows + cols) % len(CELLS),) if q else range(len(CELLS)):
                t.append(('dict-%d-%d-%d' % (rows, cols, k), 'dict_', (rows, cols, k)))
    for i in range(len(CONDS)):
        t.append(('if-%d' % i, 'if_', (i,)))
    for i in range(len(MCONDS)):
        t.append(('skip-%d' % i, 'skip', (i,)))
    for g in range(4):
        t.append(('unfold-%d' % g, 'unfold', (g,)))
    for n in (1, 2, 3):
        t.append(('do-%d' % n, 'do', (n,)))
        for how in range(3):
            t.append(('define-%d-%d' % (n, how), 'define', (n, how)))
    for i in range(5):
        t.append(('def-%d' % i, 'def_', (i,)))
    for s in ((1,), (3,), (6,), (1, 2), (2, 1, 2), (1, 1, 1, 1)) if q else ((1,), (3,), (6,), (9,), (1, 2), (2, 1, 2), (3, 4), (1, 1, 1, 1), (2, 2, 2)):
        t.append(('bin-' + '-'.join([str(x) for x in s]), 'bin_', (s,)))
    t.append(('argv', 'argv', ()))
    t.append(('INT_MAX', 'limits', ('INT_MAX', '2147483647')))
    t.append(('INT_MIN', 'limits', ('INT_MIN', '-2147483648')))
    for mode in (0, 1, 2):
        for m in range(len(MODULES)):
            for named in (True, False):
                t.append(('header-%d-%d-%d' % (mode, m, named), 'header', (mode, m, LIGHT if mode == 1 else FULL, named)))
        for i, k in enumerate(LIGHT if mode == 1 else FULL):
            if not q:
                t.append(('header1-%d-%s' % (mode, k), 'header', (mode, i % 3, [k, 'var'], True)))
        t.append(('coro-text-%d' % mode, 'coro_text', (mode,)))
        for first in range(len(CONS)):
            for n in ((1,) if mode == 2 else (1, 2)) if q else (1, 2, 3):
                t.append(('coro-%d-%s-%d' % (mode, CONS[first], n), 'coro', (mode, first, n, 3 if q else 4)))
    for i in range(len(PYS)):
        t.append(('py-%d' % i, 'coro_py', (i,)))
    return t

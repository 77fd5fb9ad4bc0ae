# -*- coding: utf-8 -*-
"""
Self-test of the engine: every function below runs symbolically on all texts within the bounds, and on a model of every
path under the interpreter of the repository; the results have to be the same. No property of yupp is decided here.
"""
import re
import itertools
import functools
import collections
import operator

META = {
    'id': 'SELF',
    'bounds': 'texts of 0..3 characters',
    'covers': ['done'],
    'budget': {'quick': 200, 'thorough': 600},
    'replays': {'quick': 2000000, 'thorough': 2000000},
}

ALPHA = 'aB\n \t"(\\0\xe9'


def f_walrus(s):
    out = []
    i = 0
    while (c := s[i:i + 1]):
        out.append(c)
        i += 1
    return ''.join(reversed(out))


def f_slices(s):
    return [s[:1], s[1:], s[::-1], s[-1:], s[::2], s[slice(1, 2)]]


def f_chain(s):
    return 'a' <= s[:1] <= 'z', s < 'B', s >= 'a', s == s[::-1], max(s or 'x'), min(s or 'x'), sorted(s)


def f_ord(s):
    return [ord(c) for c in s], [chr(ord(c) + 1) for c in s], sum(ord(c) for c in s if c > ' ')


def f_any(s):
    return any(c == 'a' for c in s), all(c.isspace() for c in s), next((i for i, c in enumerate(s) if c == '\n'), -1)


def f_zip(s):
    return [(a, b) for a, b in zip(s, s[1:]) if a == b], list(map(lambda a, b: a + b, s, s))


def f_filter(s):
    return ''.join(filter(lambda c: c not in ' \t', s)), ''.join(filter(str.isalpha, s)), list(filter(None, s.split(' ')))


def f_genexp(s):
    return ''.join(c if c != 'a' else '<A>' for c in s)


def f_dictcomp(s):
    d = {c: i for i, c in enumerate(s)}
    return sorted(d.items()), d.get('a'), d.get('B', 'no'), 'a' in d, len(d)


def f_setcomp(s):
    t = {c for c in s}
    t.add('z')
    t.discard('a')
    return sorted(t), 'B' in t, len(t), t == set(s), t | {'q'} == {'q'}


def f_counter(s):
    d = {}
    for c in s:
        d[c] = d.get(c, 0) + 1
    return sorted(d.items())


def f_setdefault(s):
    d = {}
    for i, c in enumerate(s):
        d.setdefault(c, []).append(i)
    return sorted(d.items()), d.pop('a', None), sorted(d)


def f_defaultdict(s):
    d = collections.defaultdict(list)
    for i, c in enumerate(s):
        d[c].append(i)
    return sorted(d.items())


def f_table(s):
    return [{'\n': 'nl', '\t': 'tab', ' ': 'sp'}.get(c, c) for c in s]


def f_try(s):
    try:
        return s.index('a')
    except ValueError:
        return 'none'
    finally:
        s = s + '.'


def f_try2(s):
    try:
        v = int(s)
    except ValueError as e:
        v = str(e)
    else:
        v = v + 1
    return v


def f_key(s):
    d = {'a': 1, 'B': 2}
    try:
        return d[s]
    except KeyError as e:
        return repr(e.args)


def f_for_else(s):
    for c in s:
        if c == '"':
            break
    else:
        return 'no quote'
    return 'quote'


def f_while_else(s):
    i = 0
    while i < len(s):
        if s[i] == 'B':
            r = i
            break
        i += 1
    else:
        r = -1
    return r


def f_percent(s):
    return '%s|%5s|%-5s|%.1s|%r|%d%%' % (s, s, s, s, s, len(s))


def f_percent_dict(s):
    return '%(a)s-%(b)d' % {'a': s, 'b': len(s)}


def f_format(s):
    return '{}|{:>5}|{:<5}|{:^5}|{!r}|{x:.1}'.format(s, s, s, s, s, x=s)


def f_fstring(s):
    w = 4
    return f'{s}|{s:>{w}}|{s!r}|{len(s):03d}'


def f_strip(s):
    return s.strip(), s.lstrip(), s.rstrip(), s.strip('aB'), s.rstrip('\n'), s.lstrip(' \t')


def f_split(s):
    return s.split(), s.split('a'), s.split('\n', 1), s.rsplit(' ', 1), s.partition('B'), s.rpartition('B')


def f_lines(s):
    return s.splitlines(), s.splitlines(True), [ln.rstrip() for ln in s.split('\n')]


def f_find(s):
    return s.find('a'), s.rfind('a'), s.find('B', 1), s.find('a', 0, 2), s.count('a'), s.count('\n', 1), s.find('')


def f_replace(s):
    return s.replace('a', 'bb'), s.replace('B', '', 1), s.replace('', '-'), s.replace(' ', '\t').replace('\xe9', 'e').expandtabs(4)


def f_starts(s):
    return s.startswith('a'), s.startswith(('a', 'B')), s.endswith('\n'), s.startswith('B', 1), s.endswith(('"', '('), 1)


def f_case(s):
    return s.upper(), s.lower(), s.swapcase(), s.capitalize(), s.title(), s.casefold(), s.isupper(), s.islower()


def f_is(s):
    return s.isalpha(), s.isdigit(), s.isalnum(), s.isspace(), s.isidentifier(), s.isprintable(), s.isascii(), s.isdecimal()


def f_just(s):
    return s.ljust(5, '.'), s.rjust(5, '.'), s.center(6, '*'), s.zfill(5)


def f_translate(s):
    return s.translate({ord('a'): 'X', ord('B'): None}), s.translate(str.maketrans('ab', 'cd', '\n'))


def f_join(s):
    return '-'.join(s), ', '.join(['x', s, 'y']), s.join(['1', '2', '3'])


def f_repeat(s):
    return s * 2, 3 * s, s * 0, s + s, 'x' + s + 'y'


def f_aug(s):
    t = ''
    for c in s:
        t += c
        t += '.'
    t *= 2
    return t


def f_re_match(s):
    m = re.match(r'([ \t]*)(.*)', s)
    return m.group(1), m.group(2), m.start(2), m.end(), m.groups()


def f_re_search(s):
    m = re.search(r'[aB]+', s)
    return m.group() if m else None, m.span() if m else None


def f_re_sub(s):
    return re.sub(r'[ \t]+\n', '\n', s), re.sub('a', lambda m: '<' + m.group() + '>', s), re.sub(r'(a)(B)', r'\2\1', s)


def f_re_split(s):
    return re.split(r'\n|\t', s), re.findall(r'[^ ]', s), [m.start() for m in re.finditer('a|B', s)]


def f_re_full(s):
    return bool(re.fullmatch(r'a*B?', s)), bool(re.compile('^a', re.M).search(s)), bool(re.match(r'\w+$', s)), bool(re.search(r'(?i)b', s))


def f_re_look(s):
    return re.sub(r'(?<!a)B', 'x', s), re.sub(r'a(?=B)', 'y', s), re.sub(r'a(?!B)', 'z', s), re.escape(s)


def f_lambda(s):
    f = lambda x, y='d': x + y                                                                                         # noqa
    return f(s), f(*[s, s]), f(**{'x': s, 'y': 'e'})


def f_closure(s):
    n = 0

    def inc(c):
        nonlocal n
        if c == 'a':
            n += 1
        return c * n
    return [inc(c) for c in s], n


def f_gen(s):
    def g():
        prev = None
        for c in s:
            if c == prev:
                continue
            yield c
            prev = c
    return list(g()), ''.join(g())


def f_yield_from(s):
    def g(t):
        if t:
            yield t[-1]
            yield from g(t[:-1])
    return list(g(s))


def f_rec(s):
    def r(t):
        return t if len(t) < 2 else r(t[1:]) + t[0]
    return r(s)


def f_class(s):
    class A(str):
        def __new__(cls, x):
            return super(A, cls).__new__(cls, x)

        def dup(self):
            return str(self) + str(self)
    a = A(s)
    return a.dup(), len(a), a == s, isinstance(a, str)


def f_slots(s):
    class P(object):
        __slots__ = ('x', 'y')

        def __init__(self, x):
            self.x = x
            self.y = len(x)

        def __eq__(self, o):
            return self.x == o.x

        def __hash__(self):
            return hash(self.x)
    return P(s) == P('a'), P(s).y, len({P(s), P('a')})


def f_named(s):
    N = collections.namedtuple('N', 'a b')
    n = N(s, len(s))
    return n.a, n.b, n._replace(a='q').a, tuple(n)


def f_unpack(s):
    a, *b = list(s + 'xy')
    (c, d), e = (s, 1), 2
    return a, b, c, d, e


def f_star(s):
    return [*s, 'z'], {**{'k': s}}['k'], (*s,)


def f_itertools(s):
    return list(itertools.chain(s, 'z')), [(k, len(list(g))) for k, g in itertools.groupby(s)], list(itertools.islice(s, 1, None)), \
        ''.join(itertools.takewhile(lambda c: c == ' ', s)), ''.join(itertools.dropwhile(lambda c: c == ' ', s)), list(itertools.accumulate(s))


def f_functools(s):
    return functools.reduce(lambda a, c: c + a, s, ''), functools.partial(str.replace, s, 'a')('b')


def f_operator(s):
    return operator.eq(s, 'a'), operator.add(s, 'x'), operator.contains(s, 'a'), operator.itemgetter(0)([s]), operator.ne(s, '')


def f_deque(s):
    d = collections.deque(s)
    d.rotate(1)
    d.appendleft('z')
    return list(d), d.count('a')


def f_list(s):
    t = list(s)
    t.append('z')
    t.insert(1, 'y')
    t.sort()
    u = t[:]
    u.reverse()
    return t, u, t.index('z'), t.count('a'), 'a' in t, t == u


def f_tuple(s):
    return (s, 1) == ('a', 1), (s,) < ('b',), hash((s,)) == hash(('a',)), (s, s)[1]


def f_in(s):
    return s in 'aB', s in ('a', 'B'), s in ['a'], s in {'a', 'B'}, 'a' in s, '' in s, s not in {'a': 1}


def f_bool(s):
    return bool(s), not s, s or 'default', s and 'yes', 'x' if s else 'y', len(s) > 1 and s[1] == 'a'


def f_int(s):
    out = []
    for base in (8, 10, 16):
        try:
            out.append(int(s, base))
        except ValueError:
            out.append(None)
    return out


def f_float(s):
    try:
        return float(s)
    except ValueError:
        return None


def f_repr(s):
    return repr(s), ascii(s), str([s]), str({'k': s}), '%r' % (s,)


def f_bytes(s):
    b = s.encode('utf-8')
    return len(b), b.decode('utf-8') == s, s.encode('latin-1').decode('latin-1')


def f_str(s):
    out = [str(s), str(), str(1), str(s.encode('utf-8'), 'utf-8'), str(s.encode('utf-8'), encoding='utf-8', errors='strict'), str(object=s)]
    for f in (lambda: str(s, 'a'), lambda: str(1, 'utf-8'), lambda: str(s, s, s), lambda: int(s, 40), lambda: s + 1, lambda: s['a'], lambda: s(), lambda: s.x, lambda: len(s, 1)):
        try:
            out.append(f())
        except Exception as e:
            out.append(type(e).__name__)
    return out


def f_isinstance(s):
    return isinstance(s, str), isinstance(s, (int, str)), type(s) is str, type(s) == str, callable(s), hasattr(s, 'strip'), getattr(s, 'upper')()


def f_global(s):
    return _helper(s, c='B'), _helper(s)


def _helper(t, c='a', *args, **kw):
    n = 0
    for x in t:
        if x is not None and x == c:
            n += 1
    return n


def f_enumerate(s):
    return [(i, c) for i, c in enumerate(s, 1) if i % 2], list(range(len(s))), list(reversed(s)), sum(1 for _ in s)


def f_nested(s):
    return [[a + b for b in s] for a in s if a != 'a']


def f_assert(s):
    try:
        assert s != 'a', 'message ' + s
    except AssertionError as e:
        return str(e)


def f_with(s):
    class C(object):
        def __enter__(self):
            return s + '.'

        def __exit__(self, *a):
            return True
    with C() as c:
        if s == 'a':
            raise ValueError(s)
        return c
    return 'swallowed'


def f_raise(s):
    class E(Exception):
        pass
    try:
        try:
            if s.startswith('a'):
                raise E('x' + s)
            if s == 'B':
                raise TypeError
        except E as e:
            raise RuntimeError(str(e)) from e
    except (RuntimeError, TypeError) as e:
        return type(e).__name__, str(e)
    return None


def f_del(s):
    t = list(s)
    if t and t[0] == 'a':
        del t[0]
    t[1:1] = ['q']
    t += ['r']
    t.extend(s)
    return t, t.pop(), t.pop(0)


def f_ternary(s):
    i = s.find('(')
    return s[:i] if i >= 0 else s, s[i:] if ~i else '', i == -1 or s[i - 1:i] == ' '


def f_num(s):
    n = len(s.rstrip(' '))
    return divmod(n, 2), n ** 2, n << 1, -n, abs(-n), n // 2, round(n / 2, 1), min(n, 2), max(0, n - 1), n & 1


def f_columns(s):
    line, col = 1, 0
    for c in s:
        if c == '\n':
            line += 1
            col = 0
        elif c == '\t':
            col = (col // 8 + 1) * 8
        else:
            col += 1
    return line, col


def f_global_re(s):
    return _RE.match(s) is not None, _RE.sub('', s)


_RE = re.compile(r'\s*\\?"')


def f_state(s):
    state = 'out'
    out = []
    for c in s:
        if state == 'out':
            if c == '"':
                state = 'in'
        elif state == 'in':
            if c == '\\':
                state = 'esc'
            elif c == '"':
                state = 'out'
        else:
            state = 'in'
        out.append(state[0])
    return ''.join(out), state


def f_dict_order(s):
    d = collections.OrderedDict()
    for c in s:
        d[c] = True
        d.move_to_end(c)
    return list(d), list(d.items())[:1], dict(d) == d


def f_dict_update(s):
    d = {'a': 1}
    d.update({s: 2})
    e = dict(d, z=3)
    d.pop(s)
    return sorted(d.items()), sorted(e.items()), [k for k in e if k == s]


def f_any_key(s):
    table = [(lambda c: c.isspace(), 'space'), (lambda c: c in '("', 'punct'), (lambda c: True, 'other')]
    return [next(v for k, v in table if k(c)) for c in s]


def f_property(s):
    class A(object):
        def __init__(self):
            self._x = s

        @property
        def x(self):
            return self._x.strip()

        @staticmethod
        def st(t):
            return t[:1]

        @classmethod
        def cm(cls, t):
            return cls.st(t) + '!'

        def __str__(self):
            return '<' + self._x + '>'

        def __repr__(self):
            return 'A(%r)' % self._x

        def __len__(self):
            return len(self._x)

        def __getitem__(self, i):
            return self._x[i]

        def __contains__(self, c):
            return c in self._x

        def __iter__(self):
            return iter(self._x)

        def __call__(self, t):
            return t + self._x
    a = A()
    return a.x, A.st(s), A.cm(s), str(a), repr(a), len(a), a[0:1], 'a' in a, list(a), a('q'), '%s' % a, bool(a)


def f_iter(s):
    it = iter(s)
    out = []
    for c in it:
        if c == '\\':
            out.append(next(it, 'end'))
        else:
            out.append(c)
    return out


def f_sentinel(s):
    pos = [0]

    def rd():
        c = s[pos[0]:pos[0] + 1]
        pos[0] += 1
        return c
    return list(iter(rd, ''))


def f_sort(s):
    return sorted(s, reverse=True), sorted(s, key=lambda c: (c.isspace(), c)), sorted(enumerate(s), key=lambda x: x[1])


def f_compare(s):
    return [a < b for a, b in zip(s, s[1:])], s > 'a', s[:1] == s[-1:], s != s.lower(), s is s


def f_concat(s):
    parts = []
    add = parts.append
    for c in s:
        add(c if c.isalnum() else '\\x%02x' % ord(c))
    return ''.join(parts)


def f_literal(s):
    return 'x' 'y' + s + r'\n' + """z
""" + u'\xe9', b'a' == s, s == None                                                                                    # noqa


def f_multi(s):
    x = y = s
    x += '.'
    a, b = s[:1], s[1:]
    a, b = b, a
    return x, y, a + b


def f_lru(s):
    @functools.lru_cache(None)
    def g(c):
        return c + c
    return [g(c) for c in s]


def f_decor(s):
    def d(f):
        @functools.wraps(f)
        def w(*a, **k):
            return '<' + f(*a, **k) + '>'
        return w

    @d
    def g(t, u='.'):
        return t + u
    return g(s), g(s, u='!'), g.__name__


NAMES = sorted(k for k in list(globals()) if k[:2] == 'f_')


def one(h, name, n, alpha):
    s = h.chars('s', n, alpha)
    try:
        r = globals()[name](s)
    except Exception as e:
        r = 'exception', type(e).__name__
    h.observe('r', r)
    h.cover('done')


def number(h, n, lo, hi):
    """an integer that becomes concrete more than once, with other choices between"""
    i = h.int('i', lo, hi)
    j = h.int('j', 0, 2)
    t = 'abcdefgh'
    out = [t[i], i < j, t[i - 1] if i else '', h.flag('f'), [0] * i == [0] * j]
    if h.flag('g'):
        out.append(t[j:i] + h.choose('k', n))
    out += [t[i], '%d' % (i + j), t[j + 1], i * 2 - j, i // 2, hash(i) == hash(j), {0: 'z', 1: 'o'}.get(j), range(i) == range(j)]
    c = h.char('c', 'abc')
    out.append((t.index(c) == i, t[i:].find(c), t[max(i - 1, 0)], c * j))
    h.observe('r', out)
    h.cover('done')


def keyed(h, k):
    """dictionaries with symbolic integers for keys"""
    a, b, c = h.int('a', 0, 5), h.int('b', 0, 5), h.int('c', -1, 6)
    d = {} if k == 0 else {3: 'x', 0: 'y'}
    d[a] = 'a'
    d[b + 1] = 'b'
    d[4] = 'd'
    out = [len(d), c in d, d.get(c, '-'), d.get(4), 0 in d, 5 not in d, d[a], d[b + 1], min(d) + 0]
    if c in d:
        d[c] = d[c] + 'c'
        out.append(d.pop(c, 'none'))
    d.setdefault(1, 'e')
    d.setdefault(c, 'f')
    out += [len(d), ''.join(d.values()), [x + 0 for x in d], 1 in d, d[c], d.pop(2, '-')]
    e = dict(d)
    e[c] = 'g'
    out += [len(e), d == e, sorted(x + 0 for x in e)]
    h.observe('r', out)
    h.cover('done')


def TASKS(tier):
    return [('keyed%d' % k, 'keyed', (k,)) for k in (0, 1)] + [('number%d-%d' % (lo, hi), 'number', (['', 'x'], lo, hi)) for lo in (0, 1) for hi in (2, 4)] + \
        [('%s-%d' % (k, n), 'one', (k, n, ALPHA)) for k in NAMES for n in (range(3) if tier == 'quick' else range(4))] + \
        [('%s-num-%d' % (k, n), 'one', (k, n, '018fxX.+-_ ')) for k in ('f_int', 'f_float', 'f_try2') for n in (1, 2, 3)]

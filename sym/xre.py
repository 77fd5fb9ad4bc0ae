"""
re stand-in: native `re` for concrete subjects, a backtracking matcher over the
parsed pattern for symbolic ones (forks on character-class membership).
"""
import re as _re
import re._parser as sp
import re._constants as sc
from .core import *
from .core import mk, wrap, from_elems, elems, native_of, test_mask, mask_of, UNIV, FULL, XStr, xs, realize, cvalue

_masks = {}


def base(s):
    s = xs(s)
    return mk(XStr, s._xc, s._xe)


def _cat_mask(cat, flags):
    k = (cat, bool(flags & _re.ASCII))
    m = _masks.get(k)
    if m is None:
        pat = {sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_NOT_DIGIT: r'\D', sc.CATEGORY_SPACE: r'\s',
               sc.CATEGORY_NOT_SPACE: r'\S', sc.CATEGORY_WORD: r'\w', sc.CATEGORY_NOT_WORD: r'\W'}[cat]
        r = _re.compile(pat, flags & _re.ASCII)
        m = 0
        for c in range(UNIV):
            if r.match(chr(c)):
                m |= 1 << c
        _masks[k] = m
    return m


def _fold(m, flags):
    if not flags & _re.IGNORECASE:
        return m
    k = ('f', m, flags & _re.ASCII)
    r = _masks.get(k)
    if r is None:
        # a char matches if it is case-insensitively equal to a member
        r = m
        for c in range(UNIV):
            if not (r >> c) & 1:
                x = _re.compile(_re.escape(chr(c)), flags & (_re.IGNORECASE | _re.ASCII))
                for d in bits_near(c):
                    if d < UNIV and (m >> d) & 1 and x.match(chr(d)):
                        r |= 1 << c
                        break
        _masks[k] = r
    return r


def bits_near(c):
    s = set()
    for f in (chr(c).lower(), chr(c).upper(), chr(c).swapcase()):
        for x in f:
            s.add(ord(x))
            for g in (x.lower(), x.upper()):
                for y in g:
                    s.add(ord(y))
    # a few multi-way equivalences (k/K, s/long s, micro ...)
    if c in (0x73, 0x53):
        s.add(0x17f)
    if c == 0x17f:
        s.update((0x73, 0x53))
    return s


def item_mask(op, av, flags):
    if op is sc.LITERAL:
        return _fold(1 << av if av < UNIV else 0, flags)
    if op is sc.NOT_LITERAL:
        return FULL & ~_fold(1 << av if av < UNIV else 0, flags)
    if op is sc.ANY:
        return FULL if flags & _re.DOTALL else FULL & ~mask_of('\n')
    if op is sc.IN:
        k = ('in', tuple((o, a if not isinstance(a, tuple) else a) for o, a in av), flags)
        m = _masks.get(k)
        if m is None:
            neg = False
            m = 0
            for o, a in av:
                if o is sc.NEGATE:
                    neg = True
                elif o is sc.LITERAL:
                    if a < UNIV:
                        m |= 1 << a
                elif o is sc.RANGE:
                    for c in range(a[0], min(a[1], UNIV - 1) + 1):
                        m |= 1 << c
                elif o is sc.CATEGORY:
                    m |= _cat_mask(a, flags)
                else:
                    raise NotImplementedError(o)
            m = _fold(m, flags)
            if neg:
                m = FULL & ~m
            _masks[k] = m
        return m
    return None


class _M(object):
    def __init__(self, pat, s, groups, ends, pos, endpos, mstart, mend, lastindex=None):
        self.re, self.string, self._g, self.pos, self.endpos = pat, s, groups, pos, endpos
        self._b = mk(XStr, s._xc, s._xe)
        self._g[0] = (mstart, mend)

    def _idx(self, g):
        if isinstance(g, XStr):
            return self.re.groupindex[realize(g)]
        return g

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = []
        for g in gs:
            i = self._idx(g)
            if i > self.re.groups:
                raise IndexError('no such group')
            sp_ = self._g.get(i)
            r.append(None if sp_ is None else self._b[sp_[0]:sp_[1]])
        return r[0] if len(r) == 1 else tuple(r)

    __getitem__ = lambda self, g: self.group(g)

    def groups(self, default=None):
        return tuple(default if self._g.get(i) is None else self.group(i) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: (default if self._g.get(i) is None else self.group(i)) for k, i in self.re.groupindex.items()}

    def span(self, g=0):
        return self._g.get(self._idx(g)) or (-1, -1)

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    @property
    def lastindex(self):
        best = None
        for i in self._g:
            if i and self._g[i] is not None:
                if best is None or (self._g[i][1], -i) >= (self._g[best][1], -best):
                    best = i
        return best

    def expand(self, tmpl):
        return _expand(tmpl, self)

    def __bool__(self):
        return True

    def __deepcopy__(self, memo):
        return self


def _expand(tmpl, m):
    t = native_of(tmpl)
    if t is None:
        t = realize(tmpl)
    r = []
    i = 0
    p = sp.parse_template(t, m.re._re)
    # 3.12: list alternating literal / group index
    for k, x in enumerate(p):
        if isinstance(x, int):
            v = m.group(x)
            r.append('' if v is None else v)
        elif isinstance(x, (list, tuple)):
            for y in x:
                if isinstance(y, int):
                    v = m.group(y)
                    r.append('' if v is None else v)
                elif y is not None:
                    r.append(y)
        elif x is not None:
            r.append(x)
    return XStr.join(mk(XStr, ''), r)


class XPattern(object):
    def __init__(self, pattern, flags=0):
        self._re = _re.compile(pattern, flags)
        self.pattern = pattern
        self.flags = self._re.flags
        self.groups = self._re.groups
        self.groupindex = dict(self._re.groupindex)
        self._tree = None

    def __deepcopy__(self, memo):
        return self

    @property
    def tree(self):
        if self._tree is None:
            self._tree = sp.parse(self.pattern, self.flags & ~_re.UNICODE if False else self.flags)
        return self._tree

    # -- native delegation
    def _nat(self, s):
        if type(s) is str:
            c = native_of(s)
            return c
        if not isinstance(s, XStr):
            raise TypeError('expected string or bytes-like object, got %r' % type(s).__name__)
        return native_of(s)

    def _conv(self, m, s):
        if m is None:
            return None
        g = {}
        for i in range(1, self.groups + 1):
            sp_ = m.span(i)
            g[i] = None if sp_ == (-1, -1) else sp_
        return _M(self, xs(s), g, None, m.pos, m.endpos, m.start(), m.end())

    def _run(self, s, pos, endpos, mode, nonempty_at=None):
        n = len(s)
        pos = 0 if pos is None else max(0, min(int(pos), n))
        endpos = n if endpos is None else max(0, min(int(endpos), n))
        c = self._nat(s)
        if c is not None:
            f = {'m': self._re.match, 's': self._re.search, 'f': self._re.fullmatch}[mode]
            return self._conv(f(c, pos, endpos), s)
        e = elems(s)[:endpos]
        starts = range(pos, endpos + 1) if mode == 's' else (pos,)
        for st in starts:
            mt = Matcher(e, endpos, self.flags)
            for i, g in mt.seq(self.tree, 0, st, {}):
                if mode == 'f' and i != endpos:
                    continue
                return _M(self, xs(s), g, None, pos, endpos, st, i)
        return None

    def match(self, s, pos=None, endpos=None):
        return self._run(s, pos, endpos, 'm')

    def search(self, s, pos=None, endpos=None):
        return self._run(s, pos, endpos, 's')

    def fullmatch(self, s, pos=None, endpos=None):
        return self._run(s, pos, endpos, 'f')

    def finditer(self, s, pos=None, endpos=None):
        n = len(s)
        pos = 0 if pos is None else pos
        endpos = n if endpos is None else min(endpos, n)
        c = self._nat(s)
        if c is not None:
            for m in self._re.finditer(c, pos, endpos):
                yield self._conv(m, s)
            return
        e = elems(s)[:endpos]
        i = pos
        must_nonempty = False       # after an empty match at i a non-empty one may follow
        while i <= endpos:
            found = None
            for st in range(i, endpos + 1):
                mt = Matcher(e, endpos, self.flags)
                for j, g in mt.seq(self.tree, 0, st, {}):
                    if st == i and must_nonempty and j == st:
                        continue
                    found = _M(self, xs(s), g, None, pos, endpos, st, j)
                    break
                if found:
                    break
            if not found:
                return
            yield found
            a, b = found.span()
            i = b
            must_nonempty = a == b or True if a == b else False
            if a == b:
                must_nonempty = True
            else:
                must_nonempty = False
            # sre: an empty match right after a non-empty one is allowed

    def findall(self, s, pos=None, endpos=None):
        out = []
        for m in self.finditer(s, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                g = m.group(1)
                out.append(mk(XStr, '') if g is None else g)
            else:
                out.append(tuple(mk(XStr, '') if g is None else g for g in m.groups()))
        return out

    def subn(self, repl, s, count=0):
        out = []
        last = 0
        n = 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            a, b = m.span()
            out.append(base(s)[last:a])
            out.append(repl(m) if callable(repl) else _expand(repl, m))
            last = b
            n += 1
        out.append(base(s)[last:])
        return XStr.join(mk(XStr, ''), out), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def split(self, s, maxsplit=0):
        out = []
        last = 0
        n = 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            a, b = m.span()
            out.append(base(s)[last:a])
            out.extend(m.groups())
            last = b
            n += 1
        out.append(base(s)[last:])
        return out


class Matcher(object):
    def __init__(self, e, n, flags):
        self.e, self.n, self.flags = e, n, flags

    def seq(self, items, k, i, g):
        """generator of (end, groups) in backtracking order"""
        if k == len(items):
            yield i, g
            return
        op, av = items[k]
        e, n = self.e, self.n
        m = item_mask(op, av, self.flags) if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN) else None
        if m is not None:
            if i < n:
                x = e[i]
                if type(x) is int and x >= UNIV:
                    ok = self._big(op, av, x)
                else:
                    ok = test_mask(x, m)
                if ok:
                    for r in self.seq(items, k + 1, i + 1, g):
                        yield r
            return
        if op is sc.AT:
            if self.at(av, i):
                for r in self.seq(items, k + 1, i, g):
                    yield r
            return
        if op is sc.SUBPATTERN:
            gid, add, dele, p = av
            old = self.flags
            self.flags = (old | add) & ~dele
            for j, g2 in self.seq(p, 0, i, g):
                if gid is not None:
                    g2 = dict(g2)
                    g2[gid] = (i, j)
                cur = self.flags
                self.flags = old
                for r in self.seq(items, k + 1, j, g2):
                    yield r
                self.flags = cur
            self.flags = old
            return
        if op is sc.BRANCH:
            for alt in av[1]:
                for j, g2 in self.seq(alt, 0, i, g):
                    for r in self.seq(items, k + 1, j, g2):
                        yield r
            return
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = av
            for r in self.rep(op is sc.MAX_REPEAT, lo, hi, p, 0, i, g, items, k):
                yield r
            return
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            d, p = av
            hit = None
            if d > 0:
                for j, g2 in self.seq(p, 0, i, g):
                    hit = g2
                    break
            else:
                lo, hi = p.getwidth()
                if i - lo >= 0:
                    for j, g2 in self.seq(p, 0, i - lo, g):
                        if j == i:
                            hit = g2
                            break
            if (hit is not None) == (op is sc.ASSERT):
                for r in self.seq(items, k + 1, i, hit if op is sc.ASSERT else g):
                    yield r
            return
        if op is sc.GROUPREF:
            s = g.get(av)
            if s is None:
                return
            L = s[1] - s[0]
            if i + L <= n and all(eq_char(e[s[0] + q], e[i + q]) for q in range(L)):
                for r in self.seq(items, k + 1, i + L, g):
                    yield r
            return
        raise NotImplementedError('regex op %s' % op)

    def rep(self, greedy, lo, hi, p, cnt, i, g, items, k):
        if greedy:
            if cnt < hi or hi is sc.MAXREPEAT:
                for j, g2 in self.seq(p, 0, i, g):
                    if j == i and cnt >= lo:
                        continue
                    for r in self.rep(greedy, lo, hi, p, cnt + 1, j, g2, items, k):
                        yield r
            if cnt >= lo:
                for r in self.seq(items, k + 1, i, g):
                    yield r
        else:
            if cnt >= lo:
                for r in self.seq(items, k + 1, i, g):
                    yield r
            if cnt < hi or hi is sc.MAXREPEAT:
                for j, g2 in self.seq(p, 0, i, g):
                    if j == i and cnt >= lo:
                        continue
                    for r in self.rep(greedy, lo, hi, p, cnt + 1, j, g2, items, k):
                        yield r

    def _big(self, op, av, x):
        if op is sc.LITERAL:
            return av == x
        if op is sc.NOT_LITERAL:
            return av != x
        if op is sc.ANY:
            return True
        neg = False
        hit = False
        for o, a in av:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                hit = hit or a == x
            elif o is sc.RANGE:
                hit = hit or a[0] <= x <= a[1]
            elif o is sc.CATEGORY:
                pat = {sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_NOT_DIGIT: r'\D', sc.CATEGORY_SPACE: r'\s',
                       sc.CATEGORY_NOT_SPACE: r'\S', sc.CATEGORY_WORD: r'\w', sc.CATEGORY_NOT_WORD: r'\W'}[a]
                hit = hit or bool(_re.match(pat, chr(x)))
        return hit != neg

    def word(self, i):
        if not 0 <= i < self.n:
            return False
        return test_mask(self.e[i], _cat_mask(sc.CATEGORY_WORD, self.flags))

    def at(self, av, i):
        e, n, fl = self.e, self.n, self.flags
        if av is sc.AT_BEGINNING:
            return i == 0 or bool(fl & _re.MULTILINE) and eq_char(e[i - 1], 10)
        if av is sc.AT_BEGINNING_STRING:
            return i == 0
        if av is sc.AT_END:
            if i == n:
                return True
            if fl & _re.MULTILINE:
                return eq_char(e[i], 10)
            return i == n - 1 and eq_char(e[i], 10)
        if av is sc.AT_END_STRING:
            return i == n
        if av is sc.AT_BOUNDARY:
            return self.word(i - 1) != self.word(i)
        if av is sc.AT_NON_BOUNDARY:
            return self.word(i - 1) == self.word(i)
        raise NotImplementedError(av)


_cache = {}


def compile(pattern, flags=0):
    if isinstance(pattern, XPattern):
        return pattern
    p = realize(pattern)
    f = int(flags)
    r = _cache.get((p, f))
    if r is None:
        r = _cache[(p, f)] = XPattern(p, f)
    return r


def make_module(name='re'):
    import types
    m = types.ModuleType(name)
    for k in dir(_re):
        if k.isupper() or k == 'error' or k == 'RegexFlag':
            setattr(m, k, getattr(_re, k))
    m.compile = compile
    m.match = lambda p, s, flags=0: compile(p, flags).match(s)
    m.search = lambda p, s, flags=0: compile(p, flags).search(s)
    m.fullmatch = lambda p, s, flags=0: compile(p, flags).fullmatch(s)
    m.findall = lambda p, s, flags=0: compile(p, flags).findall(s)
    m.finditer = lambda p, s, flags=0: compile(p, flags).finditer(s)
    m.sub = lambda p, r, s, count=0, flags=0: compile(p, flags).sub(r, s, count)
    m.subn = lambda p, r, s, count=0, flags=0: compile(p, flags).subn(r, s, count)
    m.split = lambda p, s, maxsplit=0, flags=0: compile(p, flags).split(s, maxsplit)
    m.escape = lambda s: wrap(_re.escape(realize(s)))
    m.purge = lambda: None
    m.Pattern = XPattern
    m.Match = _M
    return m

"""
Symbolic values for a path-exploring executor of Python code.

A path is one run of the code with symbolic inputs.  Every branch on a symbolic
value goes through CTX.fork()/forkn(); the explorer (explore.py) re-executes the
code with every feasible sequence of decisions.

 - SymChar   one character of a string: a variable with a domain (bit mask over
             code points 0..UNIV-1), optionally seen through a mapping table
             (e.g. the result of lower())
 - XStr      str stand-in (injected as `str` into the code under analysis)
 - SymInt    integer stand-in, a linear z3 term;  XInt is the `int` stand-in
 - SymBool   condition over SymInt values; its truth value forks
"""
import sys, operator
import z3

UNIV = 512
FULL = (1 << UNIV) - 1
PUA = 0xF0000          # native strings that must carry a symbolic char use PUA+id


class Abort(BaseException):
    """engine control flow, never caught by the analysed code"""


class Infeasible(Abort):
    pass


class Limit(Abort):
    pass


class Hang(Abort):
    pass


def popcount(x):
    return x.bit_count()


def bits(m):
    while m:
        b = m & -m
        yield b.bit_length() - 1
        m ^= b


def mask_of(chars):
    m = 0
    for c in chars:
        c = ord(c) if isinstance(c, str) else c
        if 0 <= c < UNIV:
            m |= 1 << c
    return m


def mask_pred(p):
    m = 0
    for c in range(UNIV):
        if p(chr(c)):
            m |= 1 << c
    return m


class Var(object):
    __slots__ = ('idx', 'name', 'dom', 'dom0', 'link', 'diseq', 'z')

    def __init__(self, idx, name, dom, z=None):
        self.idx, self.name, self.dom, self.dom0 = idx, name, dom, dom
        self.link = None
        self.diseq = None
        # a character computed from the input (digit of a number) is a term, not an input
        self.z = z


class IVar(object):
    __slots__ = ('name', 'z', 'lo', 'hi')

    def __init__(self, name, z, lo, hi):
        self.name, self.z, self.lo, self.hi = name, z, lo, hi


SYMDICTS = set()        # dictionaries with symbolic integers among their keys


class Context(object):
    def __init__(self):
        self.reset(())
        self.solver = None
        self.solver_s = 0.0
        self.queries = 0
        self.nforks = 0
        self.task = None

    # -- per path state
    def reset(self, prefix):
        SYMDICTS.clear()
        self.prefix = prefix
        self.trail = []          # choices taken
        self.pending = []        # alternative prefixes discovered on this path
        self.vars = []
        self.names = {}
        self.ivars = []
        self.fixed = []          # variables with a known value
        self.model = None        # a model of the path condition
        self.rel = []            # z3 constraints over SymInt (path condition)
        self.eqs = []            # (SymChar, SymChar, bool) relational char constraints
        self.pua = []
        self.decs = []
        self.leaks = 0
        self.steps = 0
        self.max_depth = 4000
        self.active = True

    # -- decisions
    def fork(self):
        """binary decision, both sides feasible; True first"""
        t = self.trail
        i = len(t)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            if i > self.max_depth:
                raise Limit('decision depth')
            c = 1
            self.pending.append(tuple(t) + (0,))
        t.append(c)
        return c == 1

    def forkn(self, n):
        """n-way decision, all feasible; 0 first"""
        if n == 1:
            return 0
        t = self.trail
        i = len(t)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            if i > self.max_depth:
                raise Limit('decision depth')
            c = 0
            base = tuple(t)
            for k in range(n - 1, 0, -1):
                self.pending.append(base + (k,))
        t.append(c)
        return c

    def in_prefix(self):
        return len(self.trail) < len(self.prefix)

    # -- variables
    def new_char(self, name, dom):
        self.model = None
        v = Var(len(self.vars), name, dom)
        self.vars.append(v)
        self.names[name] = v
        return SymChar(v)

    def new_int(self, name, lo, hi):
        z = z3.Int('i_' + name)
        v = IVar(name, z, lo, hi)
        self.ivars.append(v)
        self.names[name] = v
        self.model = None
        self.rel.append(z >= lo)
        self.rel.append(z <= hi)
        return SymInt(z)

    # -- z3 view of the path condition
    def zvar(self, v):
        return z3.Int('c_' + v.name) if v.z is None else v.z

    def new_digit(self, z, dom):
        self.model = None
        v = Var(len(self.vars), '#%d' % len(self.vars), dom, z)
        self.vars.append(v)
        return SymChar(v)

    def zdom(self, v, d=None):
        r = find(v)
        return dom_to_z3(self.zvar(v), r.dom if d is None else d)

    def pc(self):
        out = []
        for v in self.vars:
            r = find(v)
            out.append(dom_to_z3(self.zvar(v), r.dom))
            if r is not v:
                out.append(self.zvar(v) == self.zvar(r))
        for a, b, eq in self.eqs:
            za, zb = zchar(a), zchar(b)
            out.append(za == zb if eq else za != zb)
        out.extend(self.rel)
        return out

    def check(self, extra):
        import time
        t = time.time()
        s = z3.Solver()
        s.set('timeout', 60000)
        s.add(*self.pc())
        s.add(*extra)
        r = s.check()
        self.solver_s += time.time() - t
        self.queries += 1
        return r, s


CTX = Context()


def find(v):
    while v.link is not None:
        v = v.link
    return v


_dz = {}


def dom_to_z3(z, dom):
    k = dom
    rs = _dz.get(k)
    if rs is None:
        rs = []
        lo = None
        prev = None
        for c in bits(dom):
            if lo is None:
                lo = prev = c
            elif c == prev + 1:
                prev = c
            else:
                rs.append((lo, prev))
                lo = prev = c
        if lo is not None:
            rs.append((lo, prev))
        _dz[k] = rs
    if not rs:
        return z3.BoolVal(False)
    ors = [z == a if a == b else z3.And(z >= a, z <= b) for a, b in rs]
    return ors[0] if len(ors) == 1 else z3.Or(*ors)


def narrow(v, dom):
    CTX.model = None
    v.dom = dom
    if not dom:
        raise Infeasible()
    if v.diseq and popcount(dom) == 1:
        for w in list(v.diseq):
            w = find(w)
            if w is v:
                raise Infeasible()
            d = w.dom & ~dom
            if d != w.dom:
                narrow(w, d)


class SymChar(object):
    """a character; identity = variable (+ mapping table)"""
    __slots__ = ('var', 'table', '_z')

    def __init__(self, var, table=None):
        self.var = var
        self.table = table

    def __repr__(self):
        return '<%s>' % self.var.name


def cvalue(ch):
    """concrete code point if decided, else None"""
    if type(ch) is int:
        return ch
    d = find(ch.var).dom
    if d & (d - 1):
        if ch.table is not None:
            vals = set(ch.table.get(c, c) for c in bits(d))
            if len(vals) == 1:
                return vals.pop()
        return None
    c = d.bit_length() - 1
    return c if ch.table is None else ch.table.get(c, c)


def pre(ch, mask):
    if ch.table is None:
        return mask
    t = ch.table
    m = 0
    for c in bits(find(ch.var).dom):
        x = t.get(c, c)
        if x < UNIV and (mask >> x) & 1:
            m |= 1 << c
    return m


def test_mask(ch, mask):
    """is the character in the set? (forks)"""
    if type(ch) is int:
        return ch < UNIV and bool((mask >> ch) & 1)
    v = find(ch.var)
    m = mask if ch.table is None else pre(ch, mask)
    d = v.dom
    t = d & m
    if t == d:
        return True
    if not t:
        return False
    CTX.nforks += 1
    if CTX.fork():
        narrow(v, t)
        return True
    narrow(v, d & ~m)
    return False


def zchar(ch):
    if type(ch) is int:
        return z3.IntVal(ch)
    z = CTX.zvar(ch.var)
    if ch.table is None:
        return z
    e = z
    for c in bits(ch.var.dom0):
        x = ch.table.get(c, c)
        if x != c:
            e = z3.If(z == c, z3.IntVal(x), e)
    return e


def eq_char(a, b):
    """a == b (forks)"""
    if a is b:
        return True
    if type(a) is int:
        if type(b) is int:
            return a == b
        a, b = b, a
    if type(b) is int:
        if b >= UNIV and a.table is None:
            return False
        if a.table is not None and b >= UNIV:
            v = find(a.var)
            m = 0
            for c in bits(v.dom):
                if a.table.get(c, c) == b:
                    m |= 1 << c
            return test_mask(SymChar(a.var), m)
        return test_mask(a, 1 << b)
    va, vb = find(a.var), find(b.var)
    if va is vb and a.table is b.table:
        return True
    ca = cvalue(a)
    if ca is not None:
        return eq_char(b, ca)
    cb = cvalue(b)
    if cb is not None:
        return eq_char(a, cb)
    if va is vb or a.table is not None or b.table is not None:
        return eq_char(b, concretize_char(a))
    common = va.dom & vb.dom
    if not common:
        return False
    if va.diseq and any(find(w) is vb for w in va.diseq):
        return False
    CTX.nforks += 1
    CTX.model = None
    if CTX.fork():
        CTX.eqs.append((SymChar(va), SymChar(vb), True))
        ds = set(va.diseq or ()) | set(vb.diseq or ())
        vb.link = va
        va.diseq = ds or None
        narrow(va, common)
        return True
    CTX.eqs.append((SymChar(va), SymChar(vb), False))
    if va.diseq is None:
        va.diseq = set()
    if vb.diseq is None:
        vb.diseq = set()
    va.diseq.add(vb)
    vb.diseq.add(va)
    return False


def concretize_char(ch):
    if type(ch) is int:
        return ch
    c = cvalue(ch)
    if c is not None:
        return c
    v = find(ch.var)
    opts = list(bits(v.dom))
    if v.diseq:
        pass
    k = CTX.forkn(len(opts))
    CTX.nforks += 1
    narrow(v, 1 << opts[k])
    return opts[k] if ch.table is None else ch.table.get(opts[k], opts[k])


# ---------------------------------------------------------------------------
# masks
M_SPACE = mask_pred(str.isspace)
# white space of strip() and split(): the interpreter of the repository (PyPy) leaves U+001C..U+001F alone
M_STRIP = mask_pred(lambda c: c.isspace() and not 0x1c <= ord(c) <= 0x1f)
M_LINE = mask_of('\n\r\x0b\x0c\x1c\x1d\x1e\x85')
M_LF = mask_of('\n')
M_CR = mask_of('\r')
M_DIGIT = mask_pred(str.isdigit)
M_DECIMAL = mask_pred(str.isdecimal)
M_NUMERIC = mask_pred(str.isnumeric)
M_ALPHA = mask_pred(str.isalpha)
M_ALNUM = mask_pred(str.isalnum)
M_UPPER = mask_pred(str.isupper)
M_LOWER = mask_pred(str.islower)
M_PRINT = mask_pred(str.isprintable)
M_IDSTART = mask_pred(lambda c: c.isidentifier())
M_IDCONT = mask_pred(lambda c: ('a' + c).isidentifier())
M_CASED = mask_pred(lambda c: c.isupper() or c.islower() or c.istitle())
M_TITLE = mask_pred(str.istitle)


def _table(fn):
    t, multi = {}, {}
    for c in range(UNIV):
        x = fn(chr(c))
        if len(x) == 1:
            if ord(x) != c:
                t[c] = ord(x)
        else:
            multi[c] = x
    return t, multi


T_LOWER, X_LOWER = _table(str.lower)
T_UPPER, X_UPPER = _table(str.upper)
T_SWAP, X_SWAP = _table(str.swapcase)
T_TITLE, X_TITLE = _table(str.title)
T_FOLD, X_FOLD = _table(str.casefold)
_compose = {}


def compose(t1, t2):
    """apply t1 then t2"""
    if t1 is None:
        return t2
    k = (id(t1), id(t2))
    r = _compose.get(k)
    if r is None:
        r = {}
        for c in range(UNIV):
            x = t1.get(c, c)
            y = t2.get(x, x)
            if y != c:
                r[c] = y
        _compose[k] = r
    return r


def map_elems(elems, table, multi):
    out = []
    for e in elems:
        if type(e) is int:
            if e in multi:
                out.extend(ord(x) for x in multi[e])
            else:
                out.append(table.get(e, e))
        else:
            mm = pre(e, mask_of(multi)) & find(e.var).dom if multi else 0
            if mm and test_mask(e, mask_of(multi)):
                c = concretize_char(e)
                out.extend(ord(x) for x in multi[c])
                continue
            d = find(e.var).dom
            t = compose(e.table, table)
            if any(c in t for c in bits(d)):
                out.append(SymChar(e.var, t))
            else:
                out.append(e)
    return out


# ---------------------------------------------------------------------------
def absorb(s):
    """native str -> (native or None, elems or None); resolves PUA carriers"""
    if s.isascii():
        return s, None
    p = CTX.pua
    if not p or not any(ord(c) >= PUA for c in s):
        return s, None
    e = tuple(p[ord(c) - PUA] if ord(c) >= PUA and ord(c) - PUA < len(p) else ord(c) for c in s)
    if all(type(x) is int for x in e):
        return s, None
    return None, e


def carrier(ch):
    for i, x in enumerate(CTX.pua):
        if x is ch:
            return chr(PUA + i)
    CTX.pua.append(ch)
    return chr(PUA + len(CTX.pua) - 1)


class XStrMeta(type):
    def __instancecheck__(cls, inst):
        t = type(inst)
        if t is cls:
            return True
        if cls is XStr and issubclass(t, str):
            return True
        return cls in t.__mro__

    def __subclasscheck__(cls, sub):
        if cls is XStr and type.__subclasscheck__(str, sub):
            return True
        return cls in getattr(sub, '__mro__', ())


def elems(x):
    """elements of a str-like"""
    if isinstance(x, XStr):
        if type(x) is str or isinstance(type(x), type) and str in type(x).__mro__:
            c, e = absorb(x)
            return e if c is None else tuple(map(ord, c))
        e = x._xe
        if e is None:
            e = tuple(map(ord, x._xc))
            x._xe = e
        return e
    raise TypeError('str expected, got %s' % type(x).__name__)


def is_native(x):
    return type(x) is str


def native_of(x):
    """native str if concrete else None"""
    t = type(x)
    if t is str:
        c, e = absorb(x)
        return c
    if hasattr(x, '_xe'):
        c = x._xc
        if c is None:
            vals = []
            for e in x._xe:
                v = cvalue(e)
                if v is None:
                    return None
                vals.append(chr(v))
            c = ''.join(vals)
            # decided now; cache (domains only shrink within a path)
            x._xc = c
            x._xe = None
        return c
    return None


def mk(cls, c, e=None):
    o = object.__new__(cls)
    o._xc = c
    o._xe = e
    return o


def from_elems(e):
    for x in e:
        if type(x) is not int:
            return mk(XStr, None, tuple(e))
    return mk(XStr, ''.join(map(chr, e)))


def wrap(s):
    return mk(XStr, s)


def xs(x):
    """any str-like -> XStr view"""
    if type(x) is str:
        c, e = absorb(x)
        return mk(XStr, c, e)
    return x


def is_str(x):
    return isinstance(x, XStr)


class LatinBytes(object):
    """bytes of a text of Latin-1, for codecs (world.py)"""
    def __init__(self, s):
        self.s = s

    def decode(self, *a):
        return realize(self.s).encode('latin-1').decode(*a)

    def __len__(self):
        return len(self.s)


class XStr(metaclass=XStrMeta):
    __slots__ = ('_xc', '_xe', '__dict__', '__weakref__')

    def __new__(cls, val='', *enc, **kw):
        t = type(val)
        if enc or kw:
            if 'object' in kw:
                val = kw.pop('object')
                if not enc and not kw:
                    return cls.__new__(cls, val)
            if is_str(val):
                raise TypeError('decoding str is not supported')
            if not isinstance(val, (bytes, bytearray)) and hasattr(val, 'decode'):
                return XStr.__new__(cls, val.decode(*enc, **kw))
            return mk(cls, *absorb(str(val, *enc, **kw)))
        if t is str:
            c, e = absorb(val)
            return mk(cls, c, e)
        if hasattr(val, '_xe'):
            # like str(x): honours an overriding __str__
            f = t.__str__
            if f is not XStr.__str__:
                r = f(val)
                return mk(cls, *(absorb(r) if type(r) is str else (r._xc, r._xe)))
            return mk(cls, val._xc, val._xe)
        r = to_str(val)
        return XStr.__new__(cls, r) if type(r) is str else mk(cls, r._xc, r._xe)

    def __init__(self, *a, **k):
        pass

    # -- object protocol
    def __str__(self):
        c = native_of(self)
        if c is not None:
            return c
        CTX.leaks += 1
        return ''.join(chr(e) if type(e) is int else carrier(e) for e in self._xe)

    def __repr__(self):
        c = native_of(self)
        if c is not None:
            return repr(c)
        CTX.leaks += 1
        out = []
        e = self._xe
        q = "'"
        has1 = has2 = False
        for x in e:
            if eq_char(x, 39):
                has1 = True
            elif eq_char(x, 34):
                has2 = True
        if has1 and not has2:
            q = '"'
        for x in e:
            v = cvalue(x)
            if v is None:
                if test_mask(x, M_PRINT & ~mask_of('\\\'"')):
                    out.append(carrier(x))
                    continue
                v = concretize_char(x)
            ch = chr(v)
            if ch == q or ch == '\\':
                out.append('\\' + ch)
            elif ch in '"\'':
                out.append(ch)
            else:
                out.append(repr(ch)[1:-1])
        return q + ''.join(out) + q

    def __hash__(self):
        return hash(realize(self))

    def __deepcopy__(self, memo):
        import copy
        o = mk(type(self), self._xc, self._xe)
        d = self.__dict__
        if d:
            memo[id(self)] = o
            o.__dict__.update(copy.deepcopy(d, memo))
        return o

    def __copy__(self):
        o = mk(type(self), self._xc, self._xe)
        o.__dict__.update(self.__dict__)
        return o

    def __reduce_ex__(self, p):
        return (XStr, (realize(self),))

    def __getnewargs__(self):
        return (mk(XStr, self._xc, self._xe),)

    def __len__(self):
        c = self._xc
        return len(c) if c is not None else len(self._xe)

    def __bool__(self):
        return len(self) != 0

    def __iter__(self):
        if self._xc is not None:
            return iter(self._xc)
        return iter([mk(XStr, chr(x)) if type(x) is int else mk(XStr, None, (x,)) for x in self._xe])

    def __getitem__(self, k):
        c = self._xc
        if type(k) is slice:
            if c is not None:
                return mk(XStr, c[k])
            e = self._xe[k]
            for x in e:
                if type(x) is not int:
                    return mk(XStr, None, e)
            return mk(XStr, ''.join(map(chr, e)))
        if c is not None:
            return mk(XStr, c[k])
        x = self._xe[k]
        return mk(XStr, chr(x)) if type(x) is int else mk(XStr, None, (x,))

    def __getslice__(self, a, b):
        return self[a:b]

    def __eq__(self, o):
        return eq_str(self, o)

    def __ne__(self, o):
        r = eq_str(self, o)
        return r if r is NotImplemented else not r

    def _cmp(self, o, op):
        if not isinstance(o, XStr):
            return NotImplemented
        a, b = native_of(self), native_of(o)
        if a is not None and b is not None:
            return op(a, b)
        ea, eb = elems(self), elems(o)
        for x, y in zip(ea, eb):
            if type(x) is not int and type(y) is int:
                if x.table is None or True:
                    lt = (1 << min(y, UNIV)) - 1
                    if test_mask(x, lt):
                        return op(0, 1)
                    if eq_char(x, y):
                        continue
                    return op(1, 0)
            if type(x) is int and type(y) is not int:
                lt = (1 << min(x, UNIV)) - 1
                if test_mask(y, lt):
                    return op(1, 0)
                if eq_char(y, x):
                    continue
                return op(0, 1)
            if eq_char(x, y):
                continue
            return op(concretize_char(x), concretize_char(y))
        return op(len(ea), len(eb))

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def __add__(self, o):
        if not isinstance(o, XStr):
            return NotImplemented
        return cat(self, o)

    def __radd__(self, o):
        if not isinstance(o, XStr):
            return NotImplemented
        return cat(o, self)

    def __mul__(self, n):
        n = operator.index(n)
        if self._xc is not None:
            return mk(XStr, self._xc * n)
        return from_elems(self._xe * n)

    __rmul__ = __mul__

    def __mod__(self, args):
        return fmt_mod(self, args)

    def __rmod__(self, o):
        if type(o) is str:
            return fmt_mod(o, self)
        return NotImplemented

    def __contains__(self, o):
        if not isinstance(o, XStr):
            raise TypeError("'in <string>' requires string as left operand, not %s" % type(o).__name__)
        return self.find(o) != -1

    def __format__(self, spec):
        if not spec:
            return self.__str__()
        return format(realize(self), realize(spec))

    # -- searching
    def _range(self, a, b):
        n = len(self)
        a = 0 if a is None else operator.index(a)
        b = n if b is None else operator.index(b)
        a, b, _ = slice(a, b).indices(n)
        return a, b

    def find(self, sub, a=None, b=None):
        if not isinstance(sub, XStr):
            raise TypeError('must be str, not %s' % type(sub).__name__)
        n0 = len(self)
        start = 0 if a is None else operator.index(a)
        ca, cb = native_of(self), native_of(sub)
        if ca is not None and cb is not None:
            return ca.find(cb, a, b)
        if start > n0:
            return -1
        i, j = self._range(a, b)
        es, eb = elems(self), elems(sub)
        m = len(eb)
        while i + m <= j:
            if match_at(es, i, eb):
                return i
            i += 1
        return -1

    def rfind(self, sub, a=None, b=None):
        if not isinstance(sub, XStr):
            raise TypeError('must be str, not %s' % type(sub).__name__)
        ca, cb = native_of(self), native_of(sub)
        if ca is not None and cb is not None:
            return ca.rfind(cb, a, b)
        i, j = self._range(a, b)
        es, eb = elems(self), elems(sub)
        k = j - len(eb)
        while k >= i:
            if match_at(es, k, eb):
                return k
            k -= 1
        return -1

    def index(self, sub, a=None, b=None):
        r = self.find(sub, a, b)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, a=None, b=None):
        r = self.rfind(sub, a, b)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, a=None, b=None):
        ca, cb = native_of(self), native_of(sub)
        if ca is not None and cb is not None:
            return ca.count(cb, a, b)
        i, j = self._range(a, b)
        es, eb = elems(self), elems(sub)
        m = len(eb)
        if not m:
            return j - i + 1
        n = 0
        while i + m <= j:
            if match_at(es, i, eb):
                n += 1
                i += m
            else:
                i += 1
        return n

    def startswith(self, p, a=None, b=None):
        if type(p) is tuple:
            return any(self.startswith(x, a, b) for x in p)
        if not isinstance(p, XStr):
            raise TypeError('startswith first arg must be str or a tuple of str, not %s' % type(p).__name__)
        ca, cb = native_of(self), native_of(p)
        if ca is not None and cb is not None:
            return ca.startswith(cb, a, b)
        i, j = self._range(a, b)
        eb = elems(p)
        return i + len(eb) <= j and match_at(elems(self), i, eb)

    def endswith(self, p, a=None, b=None):
        if type(p) is tuple:
            return any(self.endswith(x, a, b) for x in p)
        if not isinstance(p, XStr):
            raise TypeError('endswith first arg must be str or a tuple of str, not %s' % type(p).__name__)
        ca, cb = native_of(self), native_of(p)
        if ca is not None and cb is not None:
            return ca.endswith(cb, a, b)
        i, j = self._range(a, b)
        eb = elems(p)
        k = j - len(eb)
        return k >= i and match_at(elems(self), k, eb)

    # -- transforming
    def replace(self, old, new, count=-1):
        if not isinstance(old, XStr) or not isinstance(new, XStr):
            raise TypeError('replace() argument must be str')
        count = operator.index(count)
        ca, cb, cc = native_of(self), native_of(old), native_of(new)
        if ca is not None and cb is not None and cc is not None:
            return mk(XStr, ca.replace(cb, cc, count))
        es, eo, en = elems(self), elems(old), elems(new)
        out = []
        m = len(eo)
        n = 0
        if not m:
            for x in es:
                if count < 0 or n < count:
                    out.extend(en)
                    n += 1
                out.append(x)
            if count < 0 or n < count:
                out.extend(en)
            return from_elems(out)
        i = 0
        L = len(es)
        while i < L:
            if (count < 0 or n < count) and i + m <= L and match_at(es, i, eo):
                out.extend(en)
                n += 1
                i += m
            else:
                out.append(es[i])
                i += 1
        return from_elems(out)

    def join(self, it):
        parts = list(it)
        ns = native_of(self)
        nat = []
        for i, p in enumerate(parts):
            if not isinstance(p, XStr):
                raise TypeError('sequence item %d: expected str instance, %s found' % (i, type(p).__name__))
            if nat is not None:
                c = native_of(p)
                if c is None:
                    nat = None
                else:
                    nat.append(c)
        if nat is not None and (ns is not None or len(parts) < 2):
            return mk(XStr, (ns or '').join(nat))
        out = []
        sep = elems(self)
        for i, p in enumerate(parts):
            if i:
                out.extend(sep)
            out.extend(elems(p))
        return from_elems(out)

    def splitlines(self, keepends=False):
        c = native_of(self)
        if c is not None:
            return [mk(XStr, x) for x in c.splitlines(keepends)]
        e = self._xe
        out = []
        i = st = 0
        n = len(e)
        while i < n:
            if test_mask(e[i], M_LINE) or (type(e[i]) is int and e[i] in (0x2028, 0x2029)):
                j = i + 1
                if eq_char(e[i], 13) and j < n and eq_char(e[j], 10):
                    j += 1
                out.append(from_elems(e[st:j if keepends else i]))
                st = i = j
            else:
                i += 1
        if st < n:
            out.append(from_elems(e[st:]))
        return out

    def _ws(self, chars):
        if chars is None:
            return M_STRIP, None
        c = native_of(chars)
        if c is None:
            c = realize(chars)
        return mask_of(c), c

    def lstrip(self, chars=None):
        c = native_of(self)
        if c is not None and (chars is None or native_of(chars) is not None):
            return mk(XStr, c.lstrip(None if chars is None else native_of(chars)))
        m, s = self._ws(chars)
        e = elems(self)
        i = 0
        while i < len(e) and in_set(e[i], m, s):
            i += 1
        return from_elems(e[i:])

    def rstrip(self, chars=None):
        c = native_of(self)
        if c is not None and (chars is None or native_of(chars) is not None):
            return mk(XStr, c.rstrip(None if chars is None else native_of(chars)))
        m, s = self._ws(chars)
        e = elems(self)
        i = len(e)
        while i > 0 and in_set(e[i - 1], m, s):
            i -= 1
        return from_elems(e[:i])

    def strip(self, chars=None):
        return XStr.rstrip(XStr.lstrip(self, chars), chars)

    def split(self, sep=None, maxsplit=-1):
        maxsplit = operator.index(maxsplit)
        c = native_of(self)
        if c is not None and (sep is None or native_of(sep) is not None):
            return [mk(XStr, x) for x in c.split(None if sep is None else native_of(sep), maxsplit)]
        e = elems(self)
        n = len(e)
        out = []
        if sep is None:
            i = 0
            while True:
                while i < n and in_set(e[i], M_STRIP, None):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while j > i and in_set(e[j - 1], M_STRIP, None):
                        j -= 1
                    out.append(from_elems(e[i:j]))
                    break
                st = i
                while i < n and not in_set(e[i], M_STRIP, None):
                    i += 1
                out.append(from_elems(e[st:i]))
            return out
        es = elems(sep)
        m = len(es)
        if not m:
            raise ValueError('empty separator')
        i = st = 0
        while i + m <= n and (maxsplit < 0 or len(out) < maxsplit):
            if match_at(e, i, es):
                out.append(from_elems(e[st:i]))
                i += m
                st = i
            else:
                i += 1
        out.append(from_elems(e[st:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = operator.index(maxsplit)
        if maxsplit < 0:
            return self.split(sep)
        c = native_of(self)
        if c is not None and (sep is None or native_of(sep) is not None):
            return [mk(XStr, x) for x in c.rsplit(None if sep is None else native_of(sep), maxsplit)]
        e = elems(self)
        out = []
        if sep is None:
            j = len(e)
            while True:
                while j > 0 and in_set(e[j - 1], M_STRIP, None):
                    j -= 1
                if j <= 0:
                    break
                if len(out) >= maxsplit:
                    i = 0
                    while i < j and in_set(e[i], M_STRIP, None):
                        i += 1
                    out.append(from_elems(e[i:j]))
                    break
                en = j
                while j > 0 and not in_set(e[j - 1], M_STRIP, None):
                    j -= 1
                out.append(from_elems(e[j:en]))
            return out[::-1]
        es = elems(sep)
        m = len(es)
        if not m:
            raise ValueError('empty separator')
        j = en = len(e)
        while j - m >= 0 and len(out) < maxsplit:
            if match_at(e, j - m, es):
                out.append(from_elems(e[j:en]))
                j -= m
                en = j
            else:
                j -= 1
        out.append(from_elems(e[:en]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self[:], mk(XStr, ''), mk(XStr, ''))
        return (XStr.__getitem__(self, slice(0, i)), xs(sep), XStr.__getitem__(self, slice(i + len(sep), None)))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return (mk(XStr, ''), mk(XStr, ''), self[:])
        return (XStr.__getitem__(self, slice(0, i)), xs(sep), XStr.__getitem__(self, slice(i + len(sep), None)))

    def removeprefix(self, p):
        return XStr.__getitem__(self, slice(len(p), None)) if self.startswith(p) else mk(XStr, self._xc, self._xe)

    def removesuffix(self, p):
        return XStr.__getitem__(self, slice(0, len(self) - len(p))) if len(p) and self.endswith(p) else mk(XStr, self._xc, self._xe)

    def _map(self, t, x, fn):
        c = native_of(self)
        if c is not None:
            return mk(XStr, fn(c))
        return from_elems(map_elems(self._xe, t, x))

    def lower(self):
        return self._map(T_LOWER, X_LOWER, str.lower)

    def upper(self):
        return self._map(T_UPPER, X_UPPER, str.upper)

    def swapcase(self):
        return self._map(T_SWAP, X_SWAP, str.swapcase)

    def casefold(self):
        return self._map(T_FOLD, X_FOLD, str.casefold)

    def capitalize(self):
        c = native_of(self)
        if c is not None:
            return mk(XStr, c.capitalize())
        e = self._xe
        return from_elems(map_elems(e[:1], T_TITLE, X_TITLE) + map_elems(e[1:], T_LOWER, X_LOWER))

    def title(self):
        c = native_of(self)
        if c is not None:
            return mk(XStr, c.title())
        out = []
        prev = False
        for x in self._xe:
            out.extend(map_elems((x,), T_LOWER, X_LOWER) if prev else map_elems((x,), T_TITLE, X_TITLE))
            prev = test_mask(x, M_CASED)
        return from_elems(out)

    def _pad(self, width, fill, mode):
        width = operator.index(width)
        fill = xs(fill)
        if len(fill) != 1:
            raise TypeError('The fill character must be exactly one character long')
        n = len(self)
        if width <= n:
            return mk(XStr, self._xc, self._xe)
        pad = width - n
        f = elems(fill)
        e = elems(self)
        if mode == 'l':
            return from_elems(e + f * pad)
        if mode == 'r':
            return from_elems(f * pad + e)
        left = pad // 2 + (pad & width & 1)
        return from_elems(f * left + e + f * (pad - left))

    def ljust(self, width, fill=' '):
        return self._pad(width, fill, 'l')

    def rjust(self, width, fill=' '):
        return self._pad(width, fill, 'r')

    def center(self, width, fill=' '):
        return self._pad(width, fill, 'c')

    def zfill(self, width):
        width = operator.index(width)
        e = elems(self)
        n = len(e)
        if width <= n:
            return mk(XStr, self._xc, self._xe)
        if n and test_mask(e[0], mask_of('+-')):
            return from_elems(e[:1] + (48,) * (width - n) + e[1:])
        return from_elems((48,) * (width - n) + e)

    def expandtabs(self, tabsize=8):
        tabsize = operator.index(tabsize)
        c = native_of(self)
        if c is not None:
            return mk(XStr, c.expandtabs(tabsize))
        out = []
        col = 0
        for x in self._xe:
            if eq_char(x, 9):
                if tabsize > 0:
                    k = tabsize - col % tabsize
                    out.extend([32] * k)
                    col += k
            else:
                out.append(x)
                col += 1
                if test_mask(x, M_LF | M_CR):
                    col = 0
        return from_elems(out)

    def translate(self, table):
        out = []
        for x in elems(self):
            if type(x) is not int:
                keys = [k for k in table if type(k) is int] if isinstance(table, dict) else None
                if keys is not None:
                    if not test_mask(x, mask_of(keys)):
                        out.append(x)
                        continue
                x = concretize_char(x)
            try:
                r = table[x]
            except LookupError:
                r = x
            if r is None:
                continue
            if type(r) is int:
                out.append(r)
            else:
                out.extend(elems(r))
        return from_elems(out)

    @staticmethod
    def maketrans(*a):
        a = [realize(x) if is_str(x) else x for x in a]
        return str.maketrans(*a)

    def encode(self, *a, **k):
        if a == ('latin-1', 'backslashreplace') and not k and native_of(self) is None and all([test_mask(x, (1 << 256) - 1) if type(x) is not int else x < 256 for x in self._xe]):
            return LatinBytes(self)
        return realize(self).encode(*[realize(x) for x in a], **{y: realize(x) for y, x in k.items()})

    def format(self, *a, **k):
        return fmt_format(self, a, k)

    def format_map(self, m):
        return wrap(realize(self).format_map(m))

    # -- predicates
    def _all(self, m, fn):
        c = native_of(self)
        if c is not None:
            return fn(c)
        return len(self._xe) > 0 and all([test_mask(x, m) if type(x) is not int else fn(chr(x)) for x in self._xe])

    def isspace(self):
        return self._all(M_SPACE, str.isspace)

    def isdigit(self):
        return self._all(M_DIGIT, str.isdigit)

    def isdecimal(self):
        return self._all(M_DECIMAL, str.isdecimal)

    def isnumeric(self):
        return self._all(M_NUMERIC, str.isnumeric)

    def isalpha(self):
        return self._all(M_ALPHA, str.isalpha)

    def isalnum(self):
        return self._all(M_ALNUM, str.isalnum)

    def isascii(self):
        c = native_of(self)
        if c is not None:
            return c.isascii()
        return all(test_mask(x, (1 << 128) - 1) for x in self._xe)

    def isprintable(self):
        c = native_of(self)
        if c is not None:
            return c.isprintable()
        return all(test_mask(x, M_PRINT) for x in self._xe)

    def isidentifier(self):
        c = native_of(self)
        if c is not None:
            return c.isidentifier()
        e = self._xe
        return test_mask(e[0], M_IDSTART) and all(test_mask(x, M_IDCONT) for x in e[1:])

    def _case(self, good, bad, fn):
        c = native_of(self)
        if c is not None:
            return fn(c)
        cased = False
        for x in self._xe:
            if test_mask(x, bad):
                return False
            if test_mask(x, good):
                cased = True
        return cased

    def isupper(self):
        return self._case(M_UPPER, M_LOWER, str.isupper)

    def islower(self):
        return self._case(M_LOWER, M_UPPER, str.islower)

    def istitle(self):
        return realize(self).istitle()


XStr.__name__ = 'str'
XStr.__qualname__ = 'str'


def in_set(x, mask, s):
    if type(x) is int:
        return (chr(x).isspace() and not 0x1c <= x <= 0x1f) if s is None else chr(x) in s
    return test_mask(x, mask)


def cat(a, b):
    ca = a if type(a) is str else a._xc
    cb = b if type(b) is str else b._xc
    if ca is not None and cb is not None:
        s = ca + cb
        if type(a) is str or type(b) is str:
            c, e = absorb(s)
            return mk(XStr, c, e)
        return mk(XStr, s)
    return mk(XStr, None, elems(a) + elems(b))


def match_at(es, i, eb):
    for k, y in enumerate(eb):
        if not eq_char(es[i + k], y):
            return False
    return True


def eq_str(a, b):
    if a is b:
        return True
    if not isinstance(b, XStr):
        return NotImplemented
    if len(a) != len(b):
        return False
    ca, cb = native_of(a), native_of(b)
    if ca is not None and cb is not None:
        return ca == cb
    ea, eb = elems(a), elems(b)
    for x, y in zip(ea, eb):
        if not eq_char(x, y):
            return False
    return True


def realize(x):
    """native str value (forks over all values of symbolic characters)"""
    c = native_of(x)
    if c is not None:
        return c
    if type(x) is str:
        x = xs(x)
    return ''.join(chr(concretize_char(e)) for e in x._xe)


def to_str(val):
    """str(val) that keeps symbolic characters; returns native or XStr"""
    if isinstance(val, XStr):
        return val
    if isinstance(val, BaseException):
        return exc_str(val)
    if isinstance(val, SymIntBase):
        f = type(val).__str__
        if f is not SymIntBase.__str__:
            return f(val)
        return int_str(val)
    t = type(val)
    f = t.__str__
    if f is object.__str__:
        f = t.__repr__
    if getattr(f, '__code__', None) is not None:
        return f(val)
    return str(val)


def to_repr(val):
    t = type(val)
    f = t.__repr__
    if f is XList.__repr__ or f is XDict.__repr__:
        pass
    elif getattr(f, '__code__', None) is not None:
        return f(val)
    if f in (list.__repr__, XList.__repr__):
        return seq_repr(val, '[', ']')
    if f is tuple.__repr__:
        return seq_repr(val, '(', ',)' if len(val) == 1 else ')')
    if f in (dict.__repr__, XDict.__repr__):
        return dict_repr(val)
    return repr(val)


_in_repr = set()


def seq_repr(val, a, b):
    if id(val) in _in_repr:
        return a + '...' + b[-1]
    _in_repr.add(id(val))
    try:
        out = [a]
        for i, x in enumerate(val):
            if i:
                out.append(', ')
            out.append(to_repr(x))
        out.append(b)
    finally:
        _in_repr.discard(id(val))
    return XStr.join(mk(XStr, ''), out)


def dict_repr(val):
    if id(val) in _in_repr:
        return '{...}'
    _in_repr.add(id(val))
    try:
        out = ['{']
        for i, (k, v) in enumerate(dict.items(val)):
            if i:
                out.append(', ')
            out.append(to_repr(k))
            out.append(': ')
            out.append(to_repr(v))
        out.append('}')
    finally:
        _in_repr.discard(id(val))
    return XStr.join(mk(XStr, ''), out)


def exc_str(e):
    f = type(e).__str__
    if isinstance(e, (SyntaxError, OSError)):
        if isinstance(e, SyntaxError) and len(e.args) == 1:
            return to_str(e.args[0])
        return str(e)
    if f in (Exception.__str__, BaseException.__str__):
        if len(e.args) == 1:
            return to_str(e.args[0])
    return str(e)


_POW10 = [10 ** i for i in range(40)]


def int_str(v):
    if _known(v):
        return str(_cv(v))
    z = z3.simplify(zint(v))
    if z3.is_int_value(z):
        return str(z.as_long())
    for a, r in CTX.decs:
        if a.eq(z):
            return r
    neg = bool(SymBool(z < 0))
    m = -z if neg else z
    n = 1
    while not bool(SymBool(m < _POW10[n])):
        n += 1
        if n == 39:
            raise Limit('digits')
    out = [45] if neg else []
    for k in range(n - 1, -1, -1):
        d = m / _POW10[k] if k else m
        if k != n - 1:
            d = d % 10
        # the domains below follow from the number of digits
        out.append(CTX.new_digit(z3.simplify(d + 48), mask_of('123456789' if k == n - 1 and n > 1 else '0123456789')))
    r = mk(XStr, None, tuple(out))
    CTX.decs.append((z, r))
    return r


# ---------------------------------------------------------------------------
def fmt_mod(f, args):
    fn = native_of(f)
    if fn is None:
        fn = realize(f)
    if type(args) is not tuple:
        if isinstance(args, dict):
            mapping, args = args, (args,)
        else:
            mapping, args = None, (args,)
    else:
        mapping = None
    out = []
    i, n = 0, len(fn)
    ai = 0
    while i < n:
        j = fn.find('%', i)
        if j < 0:
            out.append(fn[i:])
            break
        out.append(fn[i:j])
        k = j + 1
        key = None
        if k < n and fn[k] == '(':
            e = fn.index(')', k)
            key = fn[k + 1:e]
            k = e + 1
        flags = ''
        while k < n and fn[k] in '#0- +':
            flags += fn[k]
            k += 1
        width = ''
        if k < n and fn[k] == '*':
            width = str(int(operator.index(args[ai])))
            ai += 1
            k += 1
        else:
            while k < n and fn[k].isdigit():
                width += fn[k]
                k += 1
        prec = None
        if k < n and fn[k] == '.':
            k += 1
            prec = ''
            while k < n and fn[k].isdigit():
                prec += fn[k]
                k += 1
        if k >= n:
            raise ValueError('incomplete format')
        conv = fn[k]
        i = k + 1
        if conv == '%':
            out.append('%')
            continue
        if key is not None:
            val = mapping[key]
        else:
            if ai >= len(args):
                raise TypeError('not enough arguments for format string')
            val = args[ai]
            ai += 1
        if conv in 'sr':
            s = to_str(val) if conv == 's' else to_repr(val)
            s = xs(s)
            if prec is not None:
                s = XStr.__getitem__(s, slice(0, int(prec or 0)))
            if width:
                s = s._pad(int(width), ' ', 'l' if '-' in flags else 'r')
            out.append(s)
        else:
            if isinstance(val, SymIntBase):
                val = operator.index(val)
            elif is_str(val):
                val = realize(val)
            out.append(('%' + flags + width + ('.' + prec if prec is not None else '') + conv) % (val,))
    if mapping is None and ai < len(args):
        raise TypeError('not all arguments converted during string formatting')
    return XStr.join(mk(XStr, ''), out)


def fmt_format(f, a, k):
    import string
    f = realize(f)
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(f):
        out.append(lit)
        if field is None:
            continue
        if field == '':
            field = str(auto)
            auto += 1
        first, rest = string._string.formatter_field_name_split(field)
        v = a[first] if isinstance(first, int) else k[first]
        for is_attr, x in rest:
            v = getattr(v, x) if is_attr else v[x]
        out.append(fmt_value(v, conv, spec))
    return XStr.join(mk(XStr, ''), out)


def fmt_value(v, conv, spec):
    if conv == 'r':
        v = to_repr(v)
    elif conv == 's':
        v = to_str(v)
    if not spec:
        return to_str(v)
    if isinstance(v, SymIntBase):
        v = operator.index(v)
    if is_str(v):
        v = realize(v)
    return format(v, realize(spec))


# ---------------------------------------------------------------------------
# integers
def zint(x):
    if isinstance(x, SymIntBase):
        return x._v if not isinstance(x._v, int) else z3.IntVal(x._v)
    if isinstance(x, SymOrd):
        return zchar(x.ch)
    return z3.IntVal(int(x))


def isint(x):
    return isinstance(x, (int, SymIntBase, SymOrd)) and not isinstance(x, float)


class SymBool(object):
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return self.decide()

    def decide(self, possible=False):
        z = z3.simplify(z3.substitute(self.z, *CTX.fixed) if CTX.fixed else self.z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        if CTX.in_prefix():
            r = CTX.fork()
            CTX.model = None
        else:
            m = CTX.model
            e = None if m is None else m.eval(z, model_completion=True)
            mt = mf = None
            t = f = z3.sat
            if e is not None and z3.is_true(e):
                mt = m
            elif not possible:
                t, q = CTX.check([z])
                mt = q.model() if t == z3.sat else None
            if e is not None and z3.is_false(e):
                mf = m
            else:
                f, q = CTX.check([z3.Not(z)])
                mf = q.model() if f == z3.sat else None
            if t == z3.unsat and f == z3.unsat:
                raise Infeasible()
            if t == z3.unsat:
                # implied: recorded so that positions are stable on re-execution
                CTX.model = mf
                return self._forced(z, False)
            if f == z3.unsat:
                CTX.model = mt
                return self._forced(z, True)
            r = CTX.fork()
            CTX.model = mt if r else mf
        CTX.nforks += 1
        return self._known(z, r)

    def _forced(self, z, b):
        # keep trail positions stable on re-execution: record a 1-way decision
        CTX.trail.append(1 if b else 0)
        return self._known(z, b)

    def _known(self, z, b):
        # the same for a decision that is made, implied, or repeated
        CTX.rel.append(z if b else z3.Not(z))
        if b and z3.is_eq(z):
            x, y = z.arg(0), z.arg(1)
            if z3.is_int_value(y):
                fix(x, y.as_long())
            elif z3.is_int_value(x):
                fix(y, x.as_long())
        return b

    def __eq__(self, o):
        return bool(self) == o

    def __hash__(self):
        return hash(bool(self))

    def __invert__(self):
        return SymBool(z3.Not(self.z))

    def __and__(self, o):
        return SymBool(z3.And(self.z, o.z if isinstance(o, SymBool) else z3.BoolVal(bool(o))))

    def __or__(self, o):
        return SymBool(z3.Or(self.z, o.z if isinstance(o, SymBool) else z3.BoolVal(bool(o))))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__


class XIntMeta(type):
    def __instancecheck__(cls, inst):
        if cls is XInt:
            return isinstance(inst, int) or type.__instancecheck__(SymIntBase, inst) or type(inst) is SymOrd \
                or type(inst) is SymBool
        return type.__instancecheck__(cls, inst)

    def __subclasscheck__(cls, sub):
        if cls is XInt:
            return type.__subclasscheck__(int, sub) or type.__subclasscheck__(SymIntBase, sub)
        return type.__subclasscheck__(cls, sub)


def simp(z):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SymInt(z)


class SymIntBase(object, metaclass=XIntMeta):
    """base of integer stand-ins; _v is an int or a z3 Int term"""
    __slots__ = ('_v', '__dict__')

    def __index__(self):
        v = self._v
        if isinstance(v, int):
            return v
        return concretize_int(v)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        if self.__dict__.get('keyed') and not isinstance(self._v, int):
            return 1000003
        return hash(self.__index__())

    def __repr__(self):
        return int_str(self)

    def __str__(self):
        return int_str(self)

    __str__ = __repr__

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def __bool__(self):
        v = self._v
        if isinstance(v, int):
            return v != 0
        return bool(SymBool(v != 0))

    def __deepcopy__(self, memo):
        o = object.__new__(type(self))
        o._v = self._v
        o.__dict__.update(self.__dict__)
        return o

    __copy__ = lambda self: self.__deepcopy__(None)

    def _bin(self, o, op, swap=False):
        if isinstance(o, float):
            return op(o, float(self)) if swap else op(float(self), o)
        if not isint(o):
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        if _known(a) and _known(b):
            return op(_cv(a), _cv(b))
        return simp(op(zint(a), zint(b)))

    def __add__(self, o):
        return self._bin(o, operator.add)

    def __radd__(self, o):
        return self._bin(o, operator.add, True)

    def __sub__(self, o):
        return self._bin(o, operator.sub)

    def __rsub__(self, o):
        return self._bin(o, operator.sub, True)

    def __mul__(self, o):
        if is_str(o) or isinstance(o, (list, tuple)):
            return o * self.__index__()
        if isint(o) and not _known(o) and not _known(self):
            o = operator.index(o)
        return self._bin(o, operator.mul)

    __rmul__ = __mul__

    def __neg__(self):
        return -self._v if isinstance(self._v, int) else simp(-self._v)

    def __pos__(self):
        return self._v if isinstance(self._v, int) else simp(self._v)

    def __abs__(self):
        if isinstance(self._v, int):
            return abs(self._v)
        return simp(z3.If(self._v < 0, -self._v, self._v))

    def __floordiv__(self, o):
        if isint(o) and _known(o) and _cv(o) > 0 and not _known(self):
            return simp(zint(self) / z3.IntVal(_cv(o)))
        return operator.floordiv(self.__index__(), o if isinstance(o, float) else operator.index(o))

    def __mod__(self, o):
        if isint(o) and _known(o) and _cv(o) > 0 and not _known(self):
            return simp(zint(self) % z3.IntVal(_cv(o)))
        return operator.mod(self.__index__(), o if isinstance(o, float) else operator.index(o))

    def __divmod__(self, o):
        return (self // o, self % o)

    def _real(op):
        def f(self, o):
            if not isinstance(o, (int, float, SymIntBase, SymOrd)):
                return NotImplemented
            return op(self.__index__(), o if isinstance(o, float) else operator.index(o))
        return f

    def _rreal(op):
        def f(self, o):
            if not isinstance(o, (int, float, SymIntBase, SymOrd)):
                return NotImplemented
            return op(o if isinstance(o, float) else operator.index(o), self.__index__())
        return f

    __truediv__ = _real(operator.truediv)
    __rtruediv__ = _rreal(operator.truediv)
    __rfloordiv__ = _rreal(operator.floordiv)
    __rmod__ = _rreal(operator.mod)
    __pow__ = _real(operator.pow)
    __rpow__ = _rreal(operator.pow)
    __lshift__ = _real(operator.lshift)
    __rlshift__ = _rreal(operator.lshift)
    __rshift__ = _real(operator.rshift)
    __rrshift__ = _rreal(operator.rshift)
    __and__ = _real(operator.and_)
    __rand__ = _rreal(operator.and_)
    __or__ = _real(operator.or_)
    __ror__ = _rreal(operator.or_)
    __xor__ = _real(operator.xor)
    __rxor__ = _rreal(operator.xor)

    def __invert__(self):
        return -self - 1

    def __round__(self, n=None):
        return round(self.__index__(), n) if n is not None else self.__index__()

    def __trunc__(self):
        return self.__index__()

    __floor__ = __ceil__ = __trunc__

    def bit_length(self):
        return self.__index__().bit_length()

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    def _cmp(self, o, op):
        if isinstance(o, float):
            return op(float(self), o)
        if not isint(o):
            return NotImplemented
        if _known(self) and _known(o):
            return op(_cv(self), _cv(o))
        z = z3.simplify(op(zint(self), zint(o)))
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        return bool(SymBool(z))

    def __eq__(self, o):
        return self._cmp(o, operator.eq)

    def __ne__(self, o):
        return self._cmp(o, operator.ne)

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)


def _known(x):
    if isinstance(x, SymIntBase):
        return isinstance(x._v, int)
    if isinstance(x, SymOrd):
        return cvalue(x.ch) is not None
    return True


def _cv(x):
    if isinstance(x, SymIntBase):
        return x._v
    if isinstance(x, SymOrd):
        return cvalue(x.ch)
    return int(x)


class XInt(SymIntBase):
    """the `int` injected into the code; base class of INT there"""

    def __new__(cls, x=0, *base):
        if is_str(x):
            v = parse_int(x, *base)
        elif isinstance(x, (bytes, bytearray)):
            v = int(x, *base)
        elif isinstance(x, SymIntBase):
            if base:
                raise TypeError("int() can't convert non-string with explicit base")
            v = x._v
        elif isinstance(x, SymOrd):
            v = x
        else:
            v = int(x, *base)
        if cls is XInt:
            if isinstance(v, (int, SymOrd)):
                return v
            return v if isinstance(v, SymInt) else SymInt(v)
        o = object.__new__(cls)
        if isinstance(v, SymOrd):
            v = zchar(v.ch)
        if isinstance(v, SymIntBase):
            v = v._v
        o._v = v
        return o

    def __init__(self, *a):
        pass

    from_bytes = int.from_bytes


XInt.__name__ = 'int'
XInt.__qualname__ = 'int'


class SymInt(SymIntBase):
    __slots__ = ()

    def __init__(self, z):
        self._v = z

    @property
    def __class__(self):
        return int


def concretize_int(z):
    z = z3.simplify(z3.substitute(z, *CTX.fixed) if CTX.fixed else z)
    if z3.is_int_value(z):
        return z.as_long()
    while True:
        # deterministic value choice: smallest feasible value
        v = min_value(z)
        if v is None:
            raise Infeasible()
        if SymBool(z == v).decide(True):
            return v


def fix(z, v):
    """z has the value v: note the value of the only variable in it"""
    for iv in CTX.ivars:
        d = z3.simplify(z - iv.z)
        if z3.is_int_value(d):
            CTX.fixed.append((iv.z, z3.IntVal(v - d.as_long())))
            return
        d = z3.simplify(z + iv.z)
        if z3.is_int_value(d):
            CTX.fixed.append((iv.z, z3.IntVal(d.as_long() - v)))
            return


# the least values found on this path and its siblings
_minc = {}


def min_value(z):
    key = (CTX.task, tuple(CTX.trail), z.sexpr())
    if key in _minc:
        return _minc[key]
    if len(_minc) > 20000:
        _minc.clear()
    o = z3.Optimize()
    o.add(*CTX.pc())
    o.minimize(z)
    CTX.queries += 1
    v = o.model().eval(z, model_completion=True).as_long() if o.check() == z3.sat else None
    _minc[key] = v
    return v


class SymOrd(object):
    """ord(symbolic char)"""
    __slots__ = ('ch',)

    def __init__(self, ch):
        self.ch = ch

    @property
    def __class__(self):
        return int

    def __index__(self):
        return concretize_char(self.ch)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(concretize_char(self.ch))

    def __repr__(self):
        return str(concretize_char(self.ch))

    __str__ = __repr__

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def __bool__(self):
        return not eq_char(self.ch, 0)

    def __deepcopy__(self, memo):
        return self

    def __eq__(self, o):
        if isinstance(o, SymOrd):
            return eq_char(self.ch, o.ch)
        if isinstance(o, bool) or isinstance(o, int) and type(o) is int:
            return eq_char(self.ch, int(o)) if o >= 0 else False
        if isinstance(o, SymIntBase):
            return SymInt(zchar(self.ch)) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def _lt(self, k):
        return test_mask(self.ch, (1 << max(0, min(k, UNIV))) - 1)

    def __lt__(self, o):
        return self._lt(operator.index(o)) if isint(o) else NotImplemented

    def __le__(self, o):
        return self._lt(operator.index(o) + 1) if isint(o) else NotImplemented

    def __gt__(self, o):
        return not self._lt(operator.index(o) + 1) if isint(o) else NotImplemented

    def __ge__(self, o):
        return not self._lt(operator.index(o)) if isint(o) else NotImplemented

    def _z(self):
        return SymInt(zchar(self.ch))

    def __add__(self, o):
        return self._z() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._z() - o

    def __rsub__(self, o):
        return o - self._z()

    def __mul__(self, o):
        return self._z() * o

    __rmul__ = __mul__

    def __neg__(self):
        return -self._z()

    def __floordiv__(self, o):
        return self._z() // o

    def __mod__(self, o):
        return self._z() % o

    def _r(op):
        return lambda self, o: op(self.__index__(), operator.index(o))

    def _rr(op):
        return lambda self, o: op(operator.index(o), self.__index__())

    __and__, __rand__ = _r(operator.and_), _rr(operator.and_)
    __or__, __ror__ = _r(operator.or_), _rr(operator.or_)
    __xor__, __rxor__ = _r(operator.xor), _rr(operator.xor)
    __lshift__, __rlshift__ = _r(operator.lshift), _rr(operator.lshift)
    __rshift__, __rrshift__ = _r(operator.rshift), _rr(operator.rshift)


# -- int('text', base) with symbolic digits
_DIGV = {}
for _i in range(10):
    _DIGV[48 + _i] = _i
for _i in range(26):
    _DIGV[97 + _i] = 10 + _i
    _DIGV[65 + _i] = 10 + _i


_SIGN_WS = ' \t\n\r\x0b\x0c\x85\xa0'


def parse_int(x, base=10):
    c = native_of(x)
    if c is not None:
        d = c.strip()
        if d[:1] in ('+', '-') and d[1:2] in _SIGN_WS:  # PyPy, which runs the code here, takes blanks after the sign
            d = d[:1] + d[1:].lstrip(_SIGN_WS)
            return int(d if d[1:2].isalnum() else c, base)
        return int(c, base)
    base = operator.index(base)
    e = list(elems(XStr.strip(xs(x))))
    bad = lambda: ValueError('invalid literal for int() with base %d: %s' % (base, to_repr(mk(XStr, x._xc, x._xe))))
    neg = False
    i = 0
    if i < len(e) and test_mask(e[i], mask_of('+-')):
        neg = eq_char(e[i], 45)
        i += 1
        while i < len(e) and test_mask(e[i], mask_of(_SIGN_WS)):
            i += 1  # PyPy, which runs the code here
    if i >= len(e):
        raise bad()
    b = base
    need_nz = False
    us_ok = False
    if eq_char(e[i], 48) and i + 1 < len(e):
        for letters, val in (('xX', 16), ('bB', 2), ('oO', 8)):
            if base in (0, val) and test_mask(e[i + 1], mask_of(letters)):
                b = val
                i += 2
                us_ok = True
                break
        else:
            if base == 0:
                b = 10
                need_nz = True
    elif base == 0:
        b = 10
    if i >= len(e):
        raise bad()
    digs = mask_of([k for k, v in _DIGV.items() if v < b])
    total = z3.IntVal(0)
    last_us = not us_ok
    any_nz = False
    for x_ in e[i:]:
        if eq_char(x_, 95):
            if last_us:
                raise bad()
            last_us = True
            continue
        if not test_mask(x_, digs):
            v = cvalue(x_)
            if v is None or (v is not None and chr(v).isdecimal()):
                # non-ASCII decimal digits are outside the universe
                pass
            raise bad()
        last_us = False
        v = cvalue(x_)
        if v is not None:
            dv = z3.IntVal(_DIGV[v])
        else:
            z = zchar(x_)
            dv = z3.If(z <= 57, z - 48, z3.If(z >= 97, z - 87, z - 55)) if b > 10 else z - 48
        if need_nz and not eq_char(x_, 48):
            raise bad()
        total = total * b + dv
    if last_us:
        raise bad()
    if neg:
        total = -total
    return simp(total)


# ---------------------------------------------------------------------------
# hooks called by instrumented code
_set_masks = {}


def set_mask(s):
    """(mask, complete) for a set of ints"""
    if type(s) is not frozenset:
        s = frozenset(s)
    r = _set_masks.get(s)
    if r is None:
        r = mask_of([x for x in s if isinstance(x, int)])
        if len(_set_masks) > 5000:
            _set_masks.clear()
        _set_masks[s] = r
    return r


_keyish = (set, frozenset, dict, type({}.keys()))


def hook_in(a, b):
    ta, tb = type(a), type(b)
    if ta is SymOrd:
        if tb is frozenset or tb is set:
            return test_mask(a.ch, set_mask(b))
        if tb is range or tb in _keyish or tb in (list, tuple):
            return any(a == x for x in b)
        return a in b
    if tb is str:
        if ta is str:
            return a in b
        if isinstance(a, XStr):
            c = native_of(a)
            if c is not None:
                return xs(b).__contains__(a) if not b.isascii() else c in b
            if len(a) == 1:
                return test_mask(elems(a)[0], mask_of(b)) if b.isascii() else xs(b).__contains__(a)
            return xs(b).__contains__(a)
        return a in b
    if tb in _keyish or isinstance(b, dict) and type(b).__contains__ in (dict.__contains__,):
        if isinstance(a, XStr) and ta is not str:
            if native_of(a) is None:
                return dict_key(b, a) is not MISSING
        elif isinstance(a, SymIntBase) and not _known(a) or SYMDICTS and id(b) in SYMDICTS and isint(a):
            return dict_key(b, a) is not MISSING
    return a in b


MISSING = object()


def hook_set(v, d, k):
    """d[k] = v"""
    if isinstance(k, SymIntBase) and isinstance(d, dict) and type(d).__setitem__ in (dict.__setitem__, XDict.__setitem__) and CTX.active:
        if not _known(k):
            x = dict_key(d, k)
            if x is MISSING:
                x = SymInt(k._v)
                x.keyed = True
                SYMDICTS.add(id(d))
            dict.__setitem__(d, x, v)
            return
    if SYMDICTS and id(d) in SYMDICTS and isint(k):
        x = dict_key(d, k)
        if x is not MISSING:
            d[x] = v
            return
    d[k] = v


def dict_key(d, k):
    """the key of d equal to symbolic k, or MISSING (forks)"""
    for x in list(d):
        if isinstance(k, XStr):
            if isinstance(x, XStr) and len(x) == len(k) and eq_str(k, x):
                return x
        else:
            if isint(x) and bool(k == x):
                return x
    return MISSING


def hook_dict(*items):
    """{k: v, ...}"""
    d = {}
    for k, v in items:
        hook_set(v, d, k)
    return d


def sym_key(k):
    if isinstance(k, XStr):
        return type(k) is not str and native_of(k) is None
    if isinstance(k, SymIntBase):
        return not _known(k)
    return False


def hook_sub(a, k):
    if isinstance(a, dict) and type(k) is not str and (sym_key(k) or SYMDICTS and id(a) in SYMDICTS and isint(k)) and type(a).__getitem__ is dict.__getitem__:
        x = dict_key(a, k)
        if x is MISSING:
            f = getattr(type(a), '__missing__', None)
            if f:
                return a[k]
            raise KeyError(k)
        return a[x]
    if type(a) is str:
        c, e = absorb(a)
        if c is None:
            return mk(XStr, c, e)[k]
    return a[k]


class _NatMeta(type):
    def __instancecheck__(cls, inst):
        n = cls.__dict__.get('_native')
        if n is not None:
            return isinstance(inst, n)
        return type.__instancecheck__(cls, inst)

    def __subclasscheck__(cls, sub):
        n = cls.__dict__.get('_native')
        if n is not None:
            return issubclass(sub, n)
        return type.__subclasscheck__(cls, sub)


class XList(list, metaclass=_NatMeta):
    _native = list

    def __new__(cls, *a):
        if cls is XList:
            return list(*a)
        return list.__new__(cls, *a)

    def __repr__(self):
        return seq_repr(self, '[', ']')


class XFloat(float, metaclass=_NatMeta):
    _native = float

    def __new__(cls, x=0.0):
        if is_str(x):
            x = realize(x)
        elif isinstance(x, SymIntBase):
            x = x.__index__()
        if cls is XFloat:
            return float(x)
        return float.__new__(cls, x)


XList.__name__ = XList.__qualname__ = 'list'
XFloat.__name__ = XFloat.__qualname__ = 'float'


class XDict(dict, metaclass=_NatMeta):
    """dict stand-in for subclassing in the analysed code (ENV)"""
    _native = dict

    def __repr__(self):
        return dict_repr(self)

    def __contains__(self, k):
        if sym_key(k):
            return dict_key(self, k) is not MISSING
        return dict.__contains__(self, k)

    def __getitem__(self, k):
        if sym_key(k):
            x = dict_key(self, k)
            if x is not MISSING:
                return dict.__getitem__(self, x)
            raise KeyError(k)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        if sym_key(k):
            x = dict_key(self, k)
            return d if x is MISSING else dict.__getitem__(self, x)
        return dict.get(self, k, d)

    def __setitem__(self, k, v):
        if sym_key(k):
            x = dict_key(self, k)
            if x is not MISSING:
                return dict.__setitem__(self, x, v)
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        if sym_key(k):
            x = dict_key(self, k)
            if x is not MISSING:
                return dict.__delitem__(self, x)
        dict.__delitem__(self, k)


def symbolic_in(args, kw):
    for x in args:
        t = type(x)
        if t is str or t is int:
            continue
        if isinstance(x, (XStr, SymIntBase)):
            return True
        if t in (list, tuple, set) or isinstance(x, (list, tuple)):
            for y in x:
                if type(y) is not str and isinstance(y, XStr):
                    return True
        elif not isinstance(x, (int, float, dict, type(None))):
            return True         # iterators etc: let XStr handle
    if kw:
        return symbolic_in(tuple(kw.values()), None)
    return False


_STRM = frozenset(m for m in dir(XStr) if not m.startswith('_') and callable(getattr(XStr, m)))


def hook_callm(o, m, *a, **k):
    t = type(o)
    if t is str:
        if m in _STRM and (symbolic_in(a, k) or (CTX.pua and not o.isascii())):
            return getattr(xs(o), m)(*a, **k)
    elif isinstance(o, dict) and a and (sym_key(a[0]) or SYMDICTS and id(o) in SYMDICTS and isint(a[0])):
        if m == 'get':
            x = dict_key(o, a[0])
            if x is MISSING:
                return a[1] if len(a) > 1 else k.get('default')
            return dict.__getitem__(o, x)
        if m in ('pop', 'setdefault'):
            x = dict_key(o, a[0])
            if x is not MISSING:
                return getattr(o, m)(x, *a[1:])
            if m == 'pop' and len(a) > 1:
                return a[1]
    return getattr(o, m)(*a, **k)


def hook_mod(a, b):
    if type(a) is str or (isinstance(a, XStr) and type(a).__mod__ is XStr.__mod__):
        return fmt_mod(a, b)
    return a % b


def hook_fstr(*parts):
    out = []
    for p in parts:
        if type(p) is tuple:
            out.append(fmt_value(*p))
        else:
            out.append(p)
    return XStr.join(mk(XStr, ''), out)


def hook_kw(d):
    return {(realize(k) if type(k) is not str and isinstance(k, XStr) else k): v for k, v in d.items()}


def x_ord(c):
    if type(c) is str:
        return ord(c)
    if isinstance(c, XStr):
        if len(c) != 1:
            raise TypeError('ord() expected a character, but string of length %d found' % len(c))
        n = c._xc
        if n is not None:
            return ord(n)
        e = c._xe[0]
        v = cvalue(e)
        return v if v is not None else SymOrd(e)
    return ord(c)


def x_chr(i):
    if isinstance(i, SymOrd):
        return mk(XStr, None, (i.ch,))
    return mk(XStr, chr(operator.index(i)))


# -- z3 formula for string equality (non forking), used by assertions
def z_eq(a, b):
    a, b = xs(a), xs(b)
    if len(a) != len(b):
        return False
    conj = []
    for x, y in zip(elems(a), elems(b)):
        if type(x) is int and type(y) is int:
            if x != y:
                return False
            continue
        if x is y or type(x) is not int and type(y) is not int and x.var is y.var and x.table is y.table:
            conj.append(zchar(x) == zchar(y))
            continue
        cx, cy = cvalue(x), cvalue(y)
        if cx is not None and cy is not None:
            if cx != cy:
                return False
            continue
        conj.append(zchar(x) == zchar(y))
    if not conj:
        return True
    return z3.And(*conj)

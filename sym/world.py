"""
Loads the code under analysis from /repo, instrumented, with stand-ins for the
environment (builtins, re, os, files, logging, clock).  The source is read and
instrumented anew in every process.
"""
import sys, types, builtins, os, ast as _ast, operator as _op, string as _string, copy as _copy
import traceback as _tb, datetime as _dt
from . import core, xre, instr, vfs as _vfs
from .core import *
from .core import mk, XStr, xs, realize, native_of, is_str, elems, test_mask, eq_char, mask_of, from_elems, concretize_char, cvalue, to_str, to_repr, fmt_mod, x_ord, x_chr, wrap

REPO = os.environ.get('YUPP_REPO', '/repo')
PYLIB = os.path.dirname(os.__file__)


LEVELS = {'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}


class Logger(object):
    def __init__(self, world, name):
        self.world, self.name, self.level = world, name, 0
        self.handlers = []

    def setLevel(self, l):
        self.level = l

    def addHandler(self, h):
        self.handlers.append(h)

    def _log(self, lvl, msg, *a, **k):
        if LEVELS[lvl] < self.level:
            return
        if a:
            msg = fmt_mod(msg, a)
        self.world.logs.append((self.name, lvl, to_str(msg)))

    def debug(self, *a, **k):
        self._log('DEBUG', *a)

    def info(self, *a, **k):
        self._log('INFO', *a)

    def warning(self, *a, **k):
        self._log('WARNING', *a)

    warn = warning

    def error(self, *a, **k):
        self._log('ERROR', *a)

    exception = error

    def critical(self, *a, **k):
        self._log('CRITICAL', *a)

    def isEnabledFor(self, l):
        return True

    def __deepcopy__(self, memo):
        return self


class SymBytes(object):
    def __init__(self, s):
        self.s = s

    def decode(self, *a):
        return self.s


# characters written with two hexadecimal digits, and the digits
M_TWO = mask_of([x for x in range(256) if not 32 <= x < 127 and x not in (9, 10, 13)])
T_HIGH = {c: ord('0123456789abcdef'[c >> 4]) for c in range(256)}
T_LOW = {c: ord('0123456789abcdef'[c & 15]) for c in range(256)}


def m_unicode_escape_encode(s, errors=None):
    c = native_of(s)
    if c is not None:
        import codecs
        return codecs.unicode_escape_encode(c)
    out = []
    safe = mask_of([x for x in range(32, 127) if x != 92])
    for x in elems(s):
        if test_mask(x, safe):
            out.append(x)
        elif type(x) is not int and test_mask(x, M_TWO):
            out.extend((92, 120, core.map_elems((x,), T_HIGH, {})[0], core.map_elems((x,), T_LOW, {})[0]))
        else:
            v = concretize_char(x)
            out.extend(ord(y) for y in chr(v).encode('unicode_escape').decode('latin-1'))
    return SymBytes(from_elems(out)), len(s)


M_OCT = mask_of('01234567')
M_HEX = mask_of('0123456789abcdefABCDEF')
M_ESC = mask_of('\n\\\'"abfnrtv01234567xuUN')
_ESC = {10: [], 92: [92], 39: [39], 34: [34], 97: [7], 98: [8], 102: [12], 110: [10], 114: [13], 116: [9], 118: [11]}


class _Native(Exception):
    pass


def _escape(e, i, out):
    """decode the escape after the backslash at e[i-1]; returns the next index"""
    x = e[i]
    if not test_mask(x, M_ESC):
        out.append(92)
        return i          # the char itself is emitted by the caller
    if test_mask(x, M_OCT):
        v = concretize_char(x) - 48
        i += 1
        for _ in range(2):
            if i < len(e) and test_mask(e[i], M_OCT):
                v = v * 8 + concretize_char(e[i]) - 48
                i += 1
            else:
                break
        out.append(v)
        return i
    v = concretize_char(x)
    if v in _ESC:
        out.extend(_ESC[v])
        return i + 1
    n = {120: 2, 117: 4, 85: 8}.get(v)
    if n is None:
        raise _Native()
    if i + 1 + n > len(e):
        raise _Native()
    if n == 2 and type(e[i + 1]) is not int and type(e[i + 2]) is not int and core.find(e[i + 1].var) is core.find(e[i + 2].var) and test_mask(e[i + 1], M_HEX) and test_mask(e[i + 2], M_HEX):
        # both digits of one character
        a, b = e[i + 1].table or {}, e[i + 2].table or {}
        t = {}
        for c in core.bits(core.find(e[i + 1].var).dom):
            v = int(chr(a.get(c, c)) + chr(b.get(c, c)), 16)
            if v != c:
                t[c] = v
        out.append(core.SymChar(e[i + 1].var, t or None))
        return i + 3
    h = ''
    for k in range(n):
        if not test_mask(e[i + 1 + k], M_HEX):
            raise _Native()
        h += chr(concretize_char(e[i + 1 + k]))
    if int(h, 16) > 0x10ffff:
        raise _Native()
    out.append(int(h, 16))
    return i + 1 + n


def m_unicode_escape_decode(s, errors='strict', final=True):
    import codecs
    latin = isinstance(s, core.LatinBytes)
    if not is_str(s) and not latin:
        return codecs.unicode_escape_decode(s, errors)
    c = native_of(s.s if latin else s)
    if c is not None:
        r, n = codecs.unicode_escape_decode(c.encode('latin-1') if latin else c)
        return r, n
    e = elems(s.s if latin else s)
    out = []
    i = 0
    try:
        while i < len(e):
            x = e[i]
            if eq_char(x, 92):
                if i + 1 >= len(e):
                    raise _Native()
                i = _escape(e, i + 1, out)
                continue
            if latin or test_mask(x, (1 << 128) - 1):
                out.append(x)
            else:
                v = concretize_char(x)
                out.extend(chr(v).encode('utf-8'))
            i += 1
    except _Native:
        r, n = codecs.unicode_escape_decode(realize(s.s).encode('latin-1') if latin else realize(s))
        return r, n
    return from_elems(out), len(e)


def m_literal_eval(s):
    if not is_str(s):
        return _ast.literal_eval(s)
    c = native_of(s)
    if c is not None:
        return _ast.literal_eval(c)
    try:
        return _lit(s)
    except _Native:
        return _ast.literal_eval(realize(s))


def _lit(s):
    e = elems(s)
    n = len(e)
    q = cvalue(e[0]) if n else None
    if q is None and n and test_mask(e[0], mask_of('"\'')):
        q = concretize_char(e[0])
    if q not in (34, 39):
        raise _Native()
    w = 1
    if n >= 3 and eq_char(e[1], q) and eq_char(e[2], q):
        w = 3
    i = w
    out = []
    special = mask_of([92, q, 10, 13, 0])
    while True:
        if i >= n:
            raise _Native()
        x = e[i]
        if not test_mask(x, special):
            out.append(x)
            i += 1
            continue
        v = concretize_char(x)
        if v in (13, 0) or v == 10 and w == 1:
            raise _Native()
        if v == 10:
            out.append(10)
            i += 1
            continue
        if v == 92:
            if i + 1 >= n:
                raise _Native()
            if eq_char(e[i + 1], 13) or eq_char(e[i + 1], 0):
                raise _Native()
            j = _escape(e, i + 1, out)
            if j == i + 1:
                # unknown escape: backslash kept, char follows
                out.append(e[j])
                j += 1
            i = j
            continue
        # closing quote
        if w == 3:
            if i + 2 < n and eq_char(e[i + 1], q) and eq_char(e[i + 2], q):
                i += 3
            else:
                out.append(q)
                i += 1
                continue
        else:
            i += 1
        break
    if i != n:
        raise _Native()
    return from_elems(out)


def m_raise_(tp, value=None, tb=None):
    if isinstance(tp, BaseException):
        exc = tp
    else:
        if isinstance(value, tp):
            exc = value
        elif isinstance(value, tuple):
            exc = tp(*value)
        elif value is None:
            exc = tp()
        else:
            exc = tp(value)
    if exc.__traceback__ is not tb:
        raise exc.with_traceback(tb)
    raise exc


def mod(_modname, **attrs):
    m = types.ModuleType(_modname)
    for k, v in attrs.items():
        setattr(m, k, v)
    return m


_HERE = os.path.dirname(os.path.abspath(__file__))


def skip_frames(f):
    while f is not None and os.path.dirname(f.f_code.co_filename) == _HERE:
        f = f.f_back
    return f


def getouterframes(frame, context=1):
    out = []
    f = frame
    while f is not None and len(out) < 8:
        if os.path.dirname(f.f_code.co_filename) != _HERE:
            out.append((f, f.f_code.co_filename, f.f_lineno, f.f_code.co_name, None, None))
        f = f.f_back
    return out


def currentframe():
    return skip_frames(sys._getframe(1))


class World(object):
    def __init__(self, repo=REPO, universal_ticks=400000):
        self.repo = repo
        self.vfs = _vfs.VFS()
        self.logs = []
        self.stdin = []
        self.out = []
        self.mods = {}
        self.pending_import = []
        self.ticks = 0
        self.max_ticks = universal_ticks
        self.snap = None
        self.env_argv = ['yup.py']
        self._builtins()
        self._modules()

    # -- builtins of the analysed modules
    def _builtins(self):
        b = dict(builtins.__dict__)
        vfs = self.vfs
        b.update({
            'str': XStr, 'int': XInt, 'float': XFloat, 'dict': XDict, 'list': XList,
            'ord': x_ord, 'chr': x_chr, 'repr': to_repr, 'open': vfs.open,
            'eval': self.x_eval, 'compile': self.x_compile, 'print': self.x_print,
            'format': lambda v, spec='': core.fmt_value(v, '', spec),
            'bytes': self.x_bytes(), 'input': self.x_input, '__import__': self.imp,
            'hex': lambda v: hex(_op.index(v)), 'oct': lambda v: oct(_op.index(v)),
            'ascii': lambda v: ascii(v if not is_str(v) else realize(v)),
            'exec': self.x_exec,
            'getattr': lambda o, n, *a: getattr(o, realize(n) if is_str(n) else n, *a),
            'hasattr': lambda o, n: hasattr(o, realize(n) if is_str(n) else n),
            'S__in': core.hook_in, 'S__sub': core.hook_sub, 'S__set': core.hook_set, 'S__dict': core.hook_dict, 'S__mod': core.hook_mod,
            'S__fstr': core.hook_fstr, 'S__kw': core.hook_kw, 'S__callm': core.hook_callm,
            'S__Abort': Abort, 'S__tick': self.tick,
        })
        b['long'] = None
        del b['long']
        self.b = b

    def tick(self):
        self.ticks += 1
        if self.ticks > self.max_ticks:
            raise Hang('step budget exhausted')

    def x_bytes(self):
        class XBytes(bytes, metaclass=core._NatMeta):
            _native = bytes

            def __new__(cls, x=b'', *a):
                if is_str(x):
                    return realize(x).encode(*a)
                return bytes(x, *a)
        return XBytes

    def x_fspath(self, p):
        if is_str(p) or isinstance(p, bytes):
            return p
        if hasattr(p, '__fspath__'):
            return p.__fspath__()
        raise TypeError('expected str, bytes or os.PathLike object, not ' + type(p).__name__)

    def x_eval(self, code, g=None, l=None):
        if is_str(code):
            code = realize(code)
        if g is None:
            f = sys._getframe(1)
            g, l = f.f_globals, f.f_locals
        return eval(code, g, g if l is None else l)

    def x_exec(self, code, g=None, l=None):
        if is_str(code):
            code = realize(code)
        if g is None:
            f = sys._getframe(1)
            g, l = f.f_globals, f.f_locals
        if isinstance(g, dict):
            g.setdefault('__builtins__', self.b)
        exec(code, g, g if l is None else l)

    def x_compile(self, src, fn='', mode='exec', *a, **k):
        if is_str(src):
            src = realize(src)
        return compile(src, realize(fn) if is_str(fn) else fn, realize(mode), *a, **k)

    def x_print(self, *a, sep=' ', end='\n', file=None, flush=False):
        s = XStr.join(xs(' ' if sep is None else sep), [to_str(x) for x in a]) + ('\n' if end is None else end)
        if file is None or file is self.stdout:
            self.out.append(s)
        elif hasattr(file, 'write'):
            file.write(s)

    def x_input(self, prompt=''):
        self.x_print(prompt, end='')
        if not self.stdin:
            raise EOFError()
        return self.stdin.pop(0)

    # -- stand-in modules
    def _modules(self):
        w = self
        m = self.mods
        native_types = {k: self.b[k] for k in ('str', 'int', 'dict', 'list', 'bytes', 'open', 'chr', 'ord', 'hex', 'oct', 'input')}
        fb = mod('builtins')
        for k, v in self.b.items():
            setattr(fb, k, v)
        m['builtins'] = fb
        m['future.utils'] = mod('future.utils', raise_=m_raise_, native_str=XStr, native_bytes=bytes,
                                PY2=False, PY3=True, string_types=(XStr,), text_to_native_str=lambda x: x)
        m['future.standard_library'] = mod('future.standard_library', install_aliases=lambda: None)
        m['future'] = mod('future', utils=m['future.utils'], standard_library=m['future.standard_library'])
        m['past.builtins'] = mod('past.builtins', execfile=self.execfile, basestring=XStr, unicode=XStr)
        m['past'] = mod('past', builtins=m['past.builtins'])
        m['imp'] = mod('imp', load_source=self.load_source)
        m['re'] = xre.make_module()
        op = mod('operator')
        for k in dir(_op):
            if k not in ('call',):
                setattr(op, k, getattr(_op, k))
        op.contains = op.__contains__ = lambda a, b: core.hook_in(b, a)
        op.mod = op.__mod__ = lambda a, b: core.hook_mod(a, b)
        op.getitem = op.__getitem__ = lambda a, b: core.hook_sub(a, b)

        def concat(a, b):
            if not (isinstance(a, (str, core.XStr, list, tuple)) and isinstance(b, (str, core.XStr, list, tuple))):
                raise TypeError('object can\'t be concatenated')
            return a + b
        op.concat = op.__concat__ = concat
        op.index = op.__index__ = _op.index
        m['operator'] = op
        import math as _math
        mm = mod('math')
        for k in dir(_math):
            if k not in ('cbrt', 'exp2', 'sumprod'):
                setattr(mm, k, getattr(_math, k))
        mm.ldexp = lambda x, i: _math.ldexp(x, i if isinstance(i, float) else _op.index(i))
        m['math'] = mm
        import codecs as _codecs
        cd = mod('codecs')
        for k in dir(_codecs):
            setattr(cd, k, getattr(_codecs, k))
        cd.unicode_escape_encode = m_unicode_escape_encode
        cd.unicode_escape_decode = m_unicode_escape_decode
        cd.register = lambda f: self.codecs.append(f)
        self.codecs = []
        m['codecs'] = cd
        import encodings as _enc
        import encodings.utf_8 as _utf_8
        m['encodings'] = mod('encodings', utf_8=_utf_8, search_function=lambda n: _enc.search_function(realize(n)), __path__=[])
        m['encodings.utf_8'] = _utf_8
        am = mod('ast')
        for k in dir(_ast):
            setattr(am, k, getattr(_ast, k))
        am.literal_eval = m_literal_eval
        am.parse = lambda src, filename='<unknown>', mode='exec', **k: _ast.parse(
            realize(src) if is_str(src) else src, realize(filename) if is_str(filename) else filename, realize(mode), **k)
        m['ast'] = am
        lg = mod('logging', DEBUG=10, INFO=20, WARNING=30, WARN=30, ERROR=40, CRITICAL=50, NOTSET=0)
        loggers = {}

        def getLogger(name='root'):
            return loggers.setdefault(realize(name), Logger(w, realize(name)))
        class H(object):
            def __init__(self, *a, **k):
                pass

            def setFormatter(self, f):
                pass
        lg.getLogger = getLogger
        lg.StreamHandler = lg.FileHandler = lg.Formatter = H
        m['logging'] = lg
        m['inspect'] = mod('inspect', getouterframes=getouterframes, currentframe=currentframe,
                           isclass=lambda x: isinstance(x, type), stack=lambda context=1: getouterframes(currentframe()))

        class Out(object):
            encoding = 'utf-8'

            def write(self, s):
                w.out.append(to_str(s))

            def flush(self):
                pass

            def isatty(self):
                return False
        self.stdout = Out()
        sm = mod('sys')
        for k in dir(sys):
            if k in ('modules', '_getframe', '_current_frames', 'stdin', 'stdout', 'stderr', 'argv', 'setrecursionlimit', 'settrace', 'setprofile', 'excepthook'):
                continue
            try:
                setattr(sm, k, getattr(sys, k))
            except Exception:
                pass
        sm.stdout = sm.stderr = self.stdout
        sm.argv = self.env_argv
        sm.modules = {}
        sm._getframe = lambda n=0: skip_frames(sys._getframe(n + 1))
        sm.setrecursionlimit = lambda n: None
        sm.version_info = (3, 9, 18, 'final', 0)
        sm.excepthook = None
        m['sys'] = sm
        v = self.vfs
        # instrumented library modules
        om = mod('os', fspath=self.x_fspath, sep='/', curdir='.', pardir='..', environ={}, PathLike=os.PathLike, name='posix')
        m['os'] = om
        gp = self.load_lib('genericpath', self.lib_file('genericpath'))
        pp = self.load_lib('posixpath', self.lib_file('posixpath'))
        for x in (gp, pp):
            x.isfile, x.isdir, x.exists, x.lexists = v.isfile, v.isdir, v.exists, v.exists
            x.getmtime, x.getsize = v.getmtime, v.getsize
        pp.realpath = lambda p, **k: wrap(v.norm(p))
        pp.abspath = lambda p: wrap(v.norm(p))
        pp.islink = lambda p: False
        pp.samefile = lambda a, b: v.norm(a) == v.norm(b)
        om2 = mod('os', path=pp, sep='/', altsep=None, extsep='.', linesep='\n', curdir='.', pardir='..', pathsep=':', name='posix',
                 chmod=v.chmod, remove=v.remove, unlink=v.unlink, rename=v.rename, replace=v.replace, mkdir=v.mkdir,
                 makedirs=v.makedirs, listdir=v.listdir, utime=v.utime, access=v.access, stat=v.stat, lstat=v.stat,
                 getcwd=lambda: v.cwd, environ={}, getenv=lambda k, d=None: d, fspath=self.x_fspath, fsync=lambda fd: None,
                 R_OK=4, W_OK=2, X_OK=1, F_OK=0, getpid=lambda: 4242, error=OSError, isatty=lambda fd: False,
                 O_RDONLY=0, O_WRONLY=1, O_CREAT=64, O_EXCL=128, urandom=os.urandom)
        om.__dict__.update(om2.__dict__)
        m['os.path'] = pp
        m['posixpath'] = pp
        m['genericpath'] = gp
        m['textwrap'] = self.load_lib('textwrap', self.lib_file('textwrap'))
        m['string'] = self.load_lib('string', self.lib_file('string'))
        m['io'] = mod('io', StringIO=_vfs.XStringIO, open=v.open)
        m['shutil'] = mod('shutil', copyfile=self._copyfile, copy=self._copyfile, copy2=self._copyfile, move=v.rename)
        dm = mod('datetime')

        class DT(object):
            @staticmethod
            def now(tz=None):
                return _dt.datetime(2020, 1, 2, 3, 4, 5)
            today = utcnow = now
        dm.datetime = DT
        dm.date = _dt.date
        dm.timedelta = _dt.timedelta
        m['datetime'] = dm
        m['time'] = mod('time', time=lambda: float(v.clock), sleep=lambda s: None, strftime=lambda *a: '2020', localtime=lambda *a: None)
        def lines_of(fn):
            fn = v.norm(fn)
            if fn not in v.linecache:
                if not v.isfile(fn):
                    return []
                n = v.node(fn)
                v.linecache[fn] = (n.mtime, n.data, xs(n.data).split('\n'))
            return v.linecache[fn][2]

        def checkcache(fn=None):
            for f in list(v.linecache) if fn is None else [v.norm(fn)]:
                if f in v.linecache and (not v.isfile(f) or v.linecache[f][:2] != (v.node(f).mtime, v.node(f).data)):
                    del v.linecache[f]

        def getline(fn, no, g=None):
            ls = lines_of(fn)
            no = _op.index(no)
            return ls[no - 1] + '\n' if 0 < no <= len(ls) and (no < len(ls) or len(ls[-1])) else ''
        lc = mod('linecache', lazycache=lambda *a: True, checkcache=checkcache, getline=getline, clearcache=lambda: v.linecache.clear(), updatecache=lambda *a, **k: [])
        m['linecache'] = lc
        import collections as _co
        cm = mod('collections')
        cm.__dict__.update({k: x for k, x in _co.__dict__.items() if not k.startswith('__')})
        cm.deque = lambda it=(), maxlen=None: _co.deque(it, None if maxlen is None else _op.index(maxlen))
        m['collections'] = cm
        tb = mod('traceback')
        for k in dir(_tb):
            setattr(tb, k, getattr(_tb, k))
        tb.format_tb = lambda t, limit=None: []
        tb.format_exception_only = lambda t, e=None: [fmt_mod('%s: %s\n', (t.__name__ if isinstance(t, type) else type(t).__name__, core.exc_str(e)))]
        tb.format_exc = lambda *a, **k: ''
        tb.print_exc = lambda *a, **k: None
        tb.print_exception = lambda *a, **k: None

        class FrameSummary(object):
            """as in Python 3.9"""
            def __init__(self, filename, lineno, name, *, lookup_line=True, locals=None, line=None):
                self.filename, self.lineno, self.name, self._line = filename, lineno, name, line
                if lookup_line:
                    self.line
                self.locals = {k: to_repr(x) for k, x in locals.items()} if locals else None

            def __iter__(self):
                return iter([self.filename, self.lineno, self.name, self.line])

            def __getitem__(self, i):
                return (self.filename, self.lineno, self.name, self.line)[i]

            def __len__(self):
                return 4

            @property
            def line(self):
                if self._line is None:
                    self._line = xs(getline(self.filename, self.lineno)).strip()
                return self._line
        tb.FrameSummary = FrameSummary
        m['traceback'] = tb
        import json as _json

        def plainify(x):
            if is_str(x):
                return realize(x)
            if isinstance(x, dict):
                return {plainify(k): plainify(y) for k, y in x.items()}
            if isinstance(x, (list, tuple)):
                return [plainify(y) for y in x]
            if isinstance(x, core.SymIntBase):
                return _op.index(x)
            return x
        jm = mod('json', dumps=lambda x, **k: wrap(_json.dumps(plainify(x), **k)), loads=lambda s, **k: _json.loads(realize(s)),
                 JSONDecodeError=_json.JSONDecodeError)
        jm.dump = lambda x, f, **k: f.write(jm.dumps(x, **k))
        jm.load = lambda f, **k: jm.loads(f.read())
        m['json'] = jm
        import argparse as _ap

        class Parser(_ap.ArgumentParser):
            def _print_message(self, message, file=None):
                # usage and errors go to the standard error stream, which nobody looks at
                if message and file is not sys.stderr:
                    w.stdout.write(message)

            def parse_args(self, args=None, namespace=None):
                args = sm.argv[1:] if args is None else args
                return _ap.ArgumentParser.parse_args(self, [plainify(a) for a in args], namespace)
        am = mod('argparse')
        am.__dict__.update({k: getattr(_ap, k) for k in dir(_ap) if not k.startswith('__')})
        am.ArgumentParser = Parser
        m['argparse'] = am
        m['readline'] = None

    def _copyfile(self, a, b, **k):
        n = self.vfs.node(a)
        f = self.vfs.open(b, 'w')
        f.write(n.data)
        f.close()
        return b

    def lib_file(self, name):
        return os.path.join(PYLIB, name + '.py')

    def load_lib(self, name, fn):
        with open(fn) as f:
            src = f.read()
        m = types.ModuleType(name)
        m.__dict__['__builtins__'] = self.b
        m.__file__ = fn
        self.mods[name] = m
        exec(instr.compile_source(src, fn), m.__dict__)
        return m

    # -- import machinery of the analysed code
    def imp(self, name, g=None, l=None, fromlist=(), level=0):
        if level:
            pkg = (g or {}).get('__package__') or ''
            parts = pkg.split('.') if pkg else []
            if level > 1:
                parts = parts[:len(parts) - (level - 1)]
            name = '.'.join([p for p in parts if p] + ([name] if name else []))
        if name == '__future__' or name.startswith('__future__'):
            return __import__(name, g, l, fromlist, 0)
        if name == 'readline':
            raise ImportError('readline')
        if name == 'posix' and '_path_normpath' in (fromlist or ()):
            # the Python version is executed symbolically
            raise ImportError('_path_normpath')
        if name == self.root or name.startswith(self.root + '.'):
            top = self.repo_module(self.root, init=False) if False else None
            m = self.repo_module(name)
            for x in fromlist or ():
                if x != '*' and not hasattr(m, x) and self.is_pkg(name):
                    setattr(m, x, self.repo_module(name + '.' + x))
            if fromlist:
                return m
            return self.mods[name.split('.')[0]]
        if name in self.mods:
            m = self.mods[name]
            if m is None:
                raise ImportError(name)
            if not fromlist and '.' in name:
                return self.mods[name.split('.')[0]]
            return m
        return __import__(name, None, None, fromlist, 0)

    root = 'yupp'

    def path_of(self, name):
        rel = name.split('.')[1:]
        p = os.path.join(self.repo, *rel) if rel else self.repo
        return p

    def is_pkg(self, name):
        return os.path.isdir(self.path_of(name))

    def repo_module(self, name):
        if name in self.mods:
            return self.mods[name]
        p = self.path_of(name)
        parent = name.rpartition('.')[0]
        if parent and parent not in self.mods:
            if parent == self.root:
                # the package itself (codec registration) is loaded on demand only
                pm = types.ModuleType(parent)
                pm.__path__ = [self.repo]
                pm.__package__ = parent
                pm.__dict__['__builtins__'] = self.b
                self.mods[parent] = pm
            else:
                self.repo_module(parent)
        m = types.ModuleType(name)
        m.__dict__['__builtins__'] = self.b
        if os.path.isdir(p):
            fn = os.path.join(p, '__init__.py')
            m.__path__ = [p]
            m.__package__ = name
        else:
            fn = p + '.py'
            m.__package__ = parent
        if not os.path.isfile(fn):
            raise ModuleNotFoundError('No module named %r' % name)
        m.__file__ = fn
        self.mods[name] = m
        if parent in self.mods:
            setattr(self.mods[parent], name.rpartition('.')[2], m)
        with open(fn, encoding='utf-8') as f:
            src = f.read()
        exec(instr.compile_source(src, fn), m.__dict__)
        self.loaded.append(name)
        return m

    loaded = []

    def load_root(self):
        """load the package __init__ (codec support)"""
        m = self.mods.get(self.root)
        if m is None:
            m = types.ModuleType(self.root)
            m.__dict__['__builtins__'] = self.b
            self.mods[self.root] = m
        m.__path__ = [self.repo]
        m.__package__ = self.root
        fn = os.path.join(self.repo, '__init__.py')
        m.__file__ = fn
        with open(fn, encoding='utf-8') as f:
            src = f.read()
        exec(instr.compile_source(src, fn), m.__dict__)
        return m

    def execfile(self, fn, g=None, l=None):
        src = self.vfs.node(fn).data
        g.setdefault('__builtins__', self.b)
        exec(compile(realize(src), realize(fn), 'exec'), g, l if l is not None else g)

    def load_source(self, name, path, file=None):
        name = realize(name)
        src = self.vfs.open(path).read()
        sm = self.mods['sys'].modules
        m = sm.get(name)
        if m is None:
            m = types.ModuleType(name)
            sm[name] = m
        m.__dict__['__builtins__'] = self.b
        m.__file__ = path
        exec(instr.compile_source(realize(src), realize(path)), m.__dict__)
        self.mods_user = m
        return m

    # -- state snapshot / restore between paths
    def _containers(self):
        seen = set()

        def visit_value(v):
            if id(v) in seen:
                return
            if isinstance(v, dict):
                seen.add(id(v))
                yield ('dict', v, dict(dict.items(v)), dict(v.__dict__) if hasattr(v, '__dict__') else None)
                for x in list(getattr(v, '__dict__', {}).values()):
                    for y in visit_value(x):
                        yield y
                for x in list(dict.values(v)):
                    if isinstance(x, types.FunctionType):
                        for y in visit_func(x):
                            yield y
            elif isinstance(v, list):
                seen.add(id(v))
                yield ('list', v, list(v), None)
            elif isinstance(v, set):
                seen.add(id(v))
                yield ('set', v, set(v), None)
            elif isinstance(v, types.FunctionType):
                for y in visit_func(v):
                    yield y
            elif isinstance(v, type) and getattr(v, '__module__', '').startswith(self.root):
                seen.add(id(v))
                for k, x in list(v.__dict__.items()):
                    if isinstance(x, (dict, list, set)):
                        yield ('attr', v, k, x)
                        for y in visit_value(x):
                            yield y
                    elif isinstance(x, types.FunctionType):
                        for y in visit_func(x):
                            yield y

        def visit_func(f):
            if id(f) in seen:
                return
            seen.add(id(f))
            yield ('func', f, dict(f.__dict__), None)
            for x in list(f.__dict__.values()):
                for y in visit_value(x):
                    yield y
            for x in (f.__defaults__ or ()):
                for y in visit_value(x):
                    yield y
            for c in (f.__closure__ or ()):
                try:
                    x = c.cell_contents
                except ValueError:
                    continue
                for y in visit_value(x):
                    yield y
        for n, m in list(self.mods.items()):
            if not (n == self.root or n.startswith(self.root + '.')) or m is None:
                continue
            yield ('globals', m.__dict__, dict(m.__dict__), None)
            for k, v in list(m.__dict__.items()):
                if k == '__builtins__':
                    continue
                for y in visit_value(v):
                    yield y

    def snapshot(self):
        self.snap = list(self._containers())

    def restore(self):
        for kind, o, a, b in self.snap:
            if kind == 'dict':
                dict.clear(o)
                dict.update(o, a)
                if b is not None:
                    o.__dict__.clear()
                    o.__dict__.update(b)
            elif kind == 'list':
                o[:] = a
            elif kind == 'set':
                o.clear()
                o.update(a)
            elif kind == 'globals':
                if len(o) != len(a):
                    for k in list(o):
                        if k not in a:
                            del o[k]
                o.update(a)
            elif kind == 'attr':
                setattr(o, a, b)
            elif kind == 'func':
                o.__dict__.clear()
                o.__dict__.update(a)
        self.logs[:] = []
        self.out[:] = []
        self.stdin = []
        self.ticks = 0
        self.vfs.reset()
        self.mods['sys'].argv = ['yup.py']
        self.mods['sys'].modules.clear()


def load():
    w = World()
    w.loaded = []
    w.yugen = w.imp('yupp.pp.yugen', None, None, ('x',), 0)
    w.yup = w.imp('yupp.pp.yup', None, None, ('x',), 0)
    return w

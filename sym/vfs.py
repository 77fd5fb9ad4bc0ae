"""In-memory file system used in place of open()/os.* while executing symbolically."""
import errno, os, io
from .core import *
from .core import mk, XStr, xs, realize, native_of, is_str, elems


class Crash(Abort):
    """the process dies here"""


def _p(x):
    if is_str(x):
        return realize(x)
    if hasattr(x, '__fspath__'):
        return x.__fspath__()
    return x


class Node(object):
    __slots__ = ('data', 'mtime', 'mode', 'bad', 'enc')

    def __init__(self, data='', mtime=0, mode=0o644):
        self.data, self.mtime, self.mode = data, mtime, mode
        self.bad = False
        self.enc = 'utf-8'


LIBS = {}


class VFS(object):
    def __init__(self, cwd='/w'):
        self.reset(cwd)

    def reset(self, cwd='/w'):
        self.cwd = cwd
        self.files = {}
        self.linecache = {}
        self.dirs = {'/', cwd}
        # the library of the package
        lib = os.path.join(os.environ.get('YUPP_REPO', '/repo'), 'lib')
        if lib not in LIBS:
            LIBS[lib] = {}
            for fn in (os.listdir(lib) if os.path.isdir(lib) else []):
                f = os.path.join(lib, fn)
                if os.path.isfile(f):
                    with open(f, encoding='utf-8') as io_:
                        LIBS[lib][f] = io_.read()
        d = lib
        while d not in self.dirs:
            self.dirs.add(d)
            d = os.path.dirname(d)
        for f, t in LIBS[lib].items():
            self.files[f] = Node(t, 1, 0o644)
        self.clock = 1000
        self.locale = 'utf-8'
        self.nop = 0
        self.fault = None          # callable(op, path) -> None | exception | ('crash', keep)
        self.log = []

    def norm(self, p):
        p = _p(p)
        if p == '':
            return ''
        return os.path.normpath(p if p.startswith('/') else self.cwd + '/' + p)

    def tick(self):
        self.clock += 1
        return self.clock

    def op(self, kind, path, write=None):
        """a mutating operation; may fail or crash"""
        self.nop += 1
        self.log.append((kind, path))
        if self.fault is not None:
            r = self.fault(self.nop, kind, path)
            if isinstance(r, BaseException):
                raise r

    def add(self, path, data='', mtime=None, mode=0o644):
        p = self.norm(path)
        self.files[p] = Node(data, self.tick() if mtime is None else mtime, mode)
        d = os.path.dirname(p)
        while d not in self.dirs:
            self.dirs.add(d)
            d = os.path.dirname(d)

    def get(self, path):
        n = self.files.get(self.norm(path))
        return None if n is None else n.data

    # -- queries
    def isfile(self, p):
        return self.norm(p) in self.files

    def isdir(self, p):
        return self.norm(p) in self.dirs

    def exists(self, p):
        q = self.norm(p)
        return q in self.files or q in self.dirs

    def getmtime(self, p):
        q = self.norm(p)
        if q in self.dirs:
            return 0
        if q not in self.files:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', _p(p))
        return self.files[q].mtime

    def getsize(self, p):
        return len(self.node(p).data)

    def node(self, p):
        q = self.norm(p)
        if q in self.dirs:
            raise IsADirectoryError(errno.EISDIR, 'Is a directory', _p(p))
        if q not in self.files:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', _p(p))
        return self.files[q]

    # -- mutations
    def chmod(self, p, mode, **k):
        self.op('chmod', self.norm(p))
        if not self.isdir(p):
            self.node(p).mode = mode

    def remove(self, p, **k):
        self.node(p)
        self.op('remove', self.norm(p))
        del self.files[self.norm(p)]

    unlink = remove

    def rename(self, a, b, **k):
        n = self.node(a)
        if self.isdir(b):
            raise IsADirectoryError(errno.EISDIR, 'Is a directory', _p(b))
        if os.path.dirname(self.norm(b)) not in self.dirs:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', _p(a))
        self.op('rename', self.norm(b))
        del self.files[self.norm(a)]
        self.files[self.norm(b)] = n

    replace = rename

    def mkdir(self, p, mode=0o777):
        if self.exists(p):
            raise FileExistsError(errno.EEXIST, 'File exists', _p(p))
        self.op('mkdir', self.norm(p))
        self.dirs.add(self.norm(p))

    def makedirs(self, p, mode=0o777, exist_ok=False):
        if self.isdir(p) and exist_ok:
            return
        if self.exists(p):
            raise FileExistsError(errno.EEXIST, 'File exists', _p(p))
        d = self.norm(p)
        self.op('mkdir', d)
        while d not in self.dirs:
            self.dirs.add(d)
            d = os.path.dirname(d)

    def listdir(self, p='.'):
        d = self.norm(p)
        if d not in self.dirs:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', _p(p))
        pre = d.rstrip('/') + '/'
        return sorted(set(q[len(pre):].split('/')[0] for q in list(self.files) + list(self.dirs)
                          if q.startswith(pre) and q != pre))

    def utime(self, p, times=None, **k):
        self.node(p).mtime = self.tick() if times is None else times[1]

    def access(self, p, mode):
        return self.exists(p)

    def stat(self, p):
        class S(object):
            pass
        s = S()
        if self.isdir(p):
            s.st_mode, s.st_mtime, s.st_size = 0o040755, 0, 0
        else:
            n = self.node(p)
            s.st_mode, s.st_mtime, s.st_size = 0o100000 | n.mode, n.mtime, len(n.data)
        s.st_mtime_ns = s.st_mtime * 10 ** 9
        return s

    def open(self, fn, mode='r', buffering=-1, encoding=None, errors=None, newline=None, **k):
        if not is_str(fn) and not hasattr(fn, '__fspath__'):
            raise TypeError('expected str, bytes or os.PathLike object')
        p = self.norm(fn)
        mode = _p(mode)
        if 'w' in mode or 'x' in mode or 'a' in mode:
            if p in self.dirs:
                raise IsADirectoryError(errno.EISDIR, 'Is a directory', _p(fn))
            if os.path.dirname(p) not in self.dirs or p == '':
                raise FileNotFoundError(errno.ENOENT, 'No such file or directory', _p(fn))
            if 'x' in mode and p in self.files:
                raise FileExistsError(errno.EEXIST, 'File exists', _p(fn))
            self.op('open', p)
            if 'a' not in mode or p not in self.files:
                old = self.files.get(p)
                self.files[p] = Node('', self.tick(), old.mode if old else 0o644)
            self.files[p].enc = codec(encoding, self.locale)
            return WFile(self, p, fn)
        n = self.node(fn)
        if n.bad:
            return BadIO(n.data, name=fn, text=True)
        data = n.data
        enc = codec(encoding, self.locale)
        if enc != n.enc:
            data = recode(xs(data), n.enc, enc)
        return XStringIO(data, name=fn, text=True)


def codec(enc, locale):
    import codecs
    return codecs.lookup(locale if enc is None else _p(enc)).name


def recode(data, a, b):
    """text written in one encoding and read in another; characters beyond ASCII are made concrete"""
    t = ''
    for c in data:
        if c < '\x80':
            t = t + c
        else:
            t = t + realize(c).encode(a).decode(b)
    return xs(t)


class WFile(object):
    def __init__(self, fs, p, name):
        self.fs, self.p, self.name, self.buf, self.closed = fs, p, name, [], False
        self.encoding = 'utf-8'

    def write(self, s):
        if not is_str(s):
            raise TypeError('write() argument must be str, not %s' % type(s).__name__)
        self.buf.append(s)
        return len(s)

    def writelines(self, l):
        for x in l:
            self.write(x)

    def flush(self):
        if self.buf:
            data = XStr.join(mk(XStr, ''), self.buf)
            self.buf = []
            for c in elems(data):
                if type(c) is int and 0xd800 <= c <= 0xdfff:
                    raise UnicodeEncodeError('utf-8', chr(c), 0, 1, 'surrogates not allowed')
            fs = self.fs
            if fs.fault is not None:
                r = fs.fault(fs.nop + 1, 'write', self.p)
                fs.nop += 1
                if r is not None:
                    keep, ex = r if isinstance(r, tuple) else (0, r)
                    n = fs.files.get(self.p)
                    if n is not None and keep:
                        n.data = xs(n.data) + data[:max(1, len(data) // 2)] if keep == 1 else xs(n.data) + data
                    raise ex
            else:
                fs.nop += 1
            n = fs.files.get(self.p)
            if n is not None:
                n.data = xs(n.data) + data
                n.mtime = fs.tick()

    def fileno(self):
        return 99

    def close(self):
        if not self.closed:
            self.closed = True
            self.flush()

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is not None and issubclass(t, Crash):
            self.closed = True
            return False
        self.close()
        return False


class XStringIO(object):
    def __init__(self, data='', newline='\n', name=None, text=False):
        data = xs(data)
        if text:
            data = data.replace('\r\n', '\n').replace('\r', '\n')
        self.data = mk(XStr, data._xc, data._xe)
        self.pos = 0
        self.closed = False
        if name is not None:
            self.name = name

    def read(self, n=-1):
        e = len(self.data) if n is None or n < 0 else min(len(self.data), self.pos + n)
        r = self.data[self.pos:e]
        self.pos = e
        return r

    def readline(self, n=-1):
        i = self.data.find('\n', self.pos)
        e = len(self.data) if i < 0 else i + 1
        r = self.data[self.pos:e]
        self.pos = e
        return r

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        while True:
            l = self.readline()
            if not len(l):
                return
            yield l

    def __next__(self):
        l = self.readline()
        if not len(l):
            raise StopIteration
        return l

    def seek(self, p, whence=0):
        self.pos = p if whence == 0 else len(self.data) if whence == 2 else self.pos + p
        return self.pos

    def tell(self):
        return self.pos

    def getvalue(self):
        return self.data

    def write(self, s):
        s = xs(s)
        self.data = self.data[:self.pos] + s + self.data[self.pos + len(s):]
        self.pos += len(s)
        return len(s)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class BadIO(XStringIO):
    """a file that is no UTF-8"""
    def read(self, n=-1):
        raise UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid start byte')

    readline = readlines = read

    def __iter__(self):
        self.read()

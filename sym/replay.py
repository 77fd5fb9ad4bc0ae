# -*- coding: utf-8 -*-
"""
Replays models on the real, unmodified code of /repo (run with the repository's
own interpreter).  Reads one JSON request per line, answers one JSON line.

    request   {"pid", "tier", "task": index, "model": {...}, "timeout": s}
    answer    {"failed": [...], "obs": [...], "error": null | text, "hang": bool}

Every request runs in a forked child with a scratch working directory.
"""
from __future__ import print_function
import sys, os, io, json, signal, shutil, tempfile, traceback, importlib.util, logging, time

REPO = os.environ.get('YUPP_REPO', '/repo')
LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')


class Failed(BaseException):
    pass


class Skip(BaseException):
    pass


class HangTimeout(BaseException):
    pass


class CrashNow(BaseException):
    pass


def load_package(full=False):
    """package yupp = /repo; the codec in __init__ is executed too"""
    spec = importlib.util.spec_from_file_location('yupp', os.path.join(REPO, '__init__.py'), submodule_search_locations=[REPO])
    m = importlib.util.module_from_spec(spec)
    sys.modules['yupp'] = m
    spec.loader.exec_module(m)
    return m


class FS(object):
    def __init__(self, cwd):
        self.cwd = cwd

    def p(self, p):
        r = os.path.join(self.cwd, p)
        if not os.path.abspath(r).startswith(self.cwd):
            raise ValueError('a file outside the scratch directory: ' + p)
        return r

    def write(self, p, data, mtime=None, mode=None):
        p = self.p(p)
        d = os.path.dirname(p)
        if not os.path.isdir(d):
            os.makedirs(d)
        with io.open(p, 'w', encoding='utf8', newline='') as f:
            f.write(data)
        if mtime is not None:
            os.utime(p, (mtime, mtime))
        if mode is not None:
            os.chmod(p, mode)

    def bad(self, p):
        self.write(p, '')
        with io.open(self.p(p), 'wb') as f:
            f.write(b'a\xff\n')

    def encoded(self, p, enc):
        t = os.path.getmtime(self.p(p))
        data = self.read(p)
        with io.open(self.p(p), 'w', encoding=enc, newline='') as f:
            f.write(data)
        os.utime(self.p(p), (t, t))

    def locale(self, enc):
        def x_open(fn, mode='r', buffering=-1, encoding=None, *a, **k):
            return io.open(fn, mode, buffering, encoding or (None if 'b' in mode else enc), *a, **k)
        for m in ('yupp', 'yupp.pp.yup', 'yupp.pp.yugen'):
            if m in sys.modules:
                sys.modules[m].open = x_open

    def read(self, p):
        try:
            with io.open(self.p(p), 'r', encoding='utf8', newline='') as f:
                return f.read()
        except IOError:
            return None

    def exists(self, p):
        return os.path.exists(self.p(p))

    def isfile(self, p):
        return os.path.isfile(self.p(p))

    def mtime(self, p):
        return int(os.path.getmtime(self.p(p)))

    def mode(self, p):
        return os.stat(self.p(p)).st_mode & 0o777

    def mkdir(self, p):
        os.makedirs(self.p(p))

    def utime(self, p, t):
        os.utime(self.p(p), (t, t))

    def remove(self, p):
        os.remove(self.p(p))

    def listing(self):
        out = []
        for d, _, fs in os.walk(self.cwd):
            for f in fs:
                out.append(os.path.relpath(os.path.join(d, f), self.cwd))
        return sorted(out)


class Capture(logging.Handler):
    def __init__(self, sink):
        logging.Handler.__init__(self)
        self.sink = sink

    def emit(self, rec):
        self.sink.append((rec.levelname, rec.getMessage()))


class Sink(object):
    encoding = 'utf-8'

    def __init__(self):
        self.b = []

    def write(self, s):
        self.b.append(s)

    def flush(self):
        pass

    def isatty(self):
        return False


class H(object):
    """harness interface, concrete mode"""
    symbolic = False

    def __init__(self, model, cwd):
        self.model = model
        self.fs = FS(cwd)
        self.failed = []
        self.obs = []
        self.text = None
        self._logs = []
        self._out = Sink()

    @property
    def yugen(self):
        return sys.modules['yupp.pp.yugen']

    @property
    def yup(self):
        return sys.modules['yupp.pp.yup']

    def package(self):
        return sys.modules['yupp']

    def source(self, rel):
        with io.open(os.path.join(REPO, rel), encoding='utf8') as f:
            return f.read()

    def module(self, name):
        import importlib
        return importlib.import_module('yupp.' + name)

    def char(self, name, alphabet):
        k = self.model.get(name)
        if k is None:
            if isinstance(alphabet, int):
                k = (alphabet & -alphabet).bit_length() - 1
            else:
                k = alphabet[0]
        return chr(k) if isinstance(k, int) else k

    def chars(self, name, n, alphabet):
        return ''.join(self.char('%s%d' % (name, i), alphabet) for i in range(n))

    def int(self, name, lo, hi):
        return self.model.get(name, lo)

    def choose(self, name, n):
        if not isinstance(n, int):
            return n[self.choose(name, len(n))]
        return self.model.get('?' + name, 0)

    def flag(self, name):
        return bool(self.choose(name, 2))

    def assume(self, cond):
        if not cond:
            raise Skip()

    def eq(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        return a == b

    def all(self, l):
        return all(l)

    def check(self, cond, msg):
        if not cond:
            self.failed.append(msg)
            raise Failed()

    def observe(self, tag, val):
        self.obs.append((tag, plain(val)))

    def cover(self, tag):
        pass

    def describe(self, text):
        self.text = text

    def note(self, *a):
        print(*a, file=sys.stderr)

    def logs(self):
        return list(self._logs)

    def out(self):
        return ''.join(self._out.b)

    def clear(self):
        del self._logs[:]
        del self._out.b[:]

    def stdin(self, lines):
        sys.stdin = io.StringIO(''.join(x + '\n' for x in lines))

    def set_argv(self, argv):
        sys.argv = list(argv)

    def depth(self, n):
        sys.setrecursionlimit(n)

    def budget(self, n):
        pass

    def script(self, rel, stubs):
        import types
        m = types.ModuleType('script')
        m.__file__ = os.path.join(REPO, rel)
        old = {k: sys.modules.get(k) for k in stubs}
        sys.modules.update(stubs)
        try:
            exec(compile(self.source(rel), m.__file__, 'exec'), m.__dict__)
        finally:
            for k, v in old.items():
                if v is None:
                    del sys.modules[k]
                else:
                    sys.modules[k] = v
        return m

    def run_main(self, rel, argv):
        self.set_argv(['yupp'] + list(argv))
        rel, _, fn = rel.partition(':')
        pkg = 'yupp' if '/' not in rel else 'yupp.' + rel.rsplit('/', 1)[0].replace('/', '.')
        try:
            if fn:
                r = getattr(self.module(rel[:-3].replace('/', '.')), fn)()
            else:
                import importlib
                importlib.import_module(pkg)
                p = os.path.join(REPO, rel)
                with io.open(p, encoding='utf8') as f:
                    src = f.read()
                exec(compile(src, p, 'exec'), {'__name__': '__main__', '__package__': pkg, '__file__': p, '__builtins__': __builtins__})
                r = None
        except SystemExit as e:
            r = e.code
        except (Failed, Skip, HangTimeout, CrashNow):
            raise
        except BaseException:
            return 1
        return 0 if r is None else int(r) & 255

    def guard(self, fn):
        try:
            return 'ok', fn()
        except (Failed, Skip, HangTimeout, CrashNow):
            raise
        except BaseException as e:
            return 'exc', e

    def hangs(self, fn):
        old = signal.signal(signal.SIGALRM, self._alarm)
        signal.setitimer(signal.ITIMER_REAL, 15)
        try:
            return 'ok', fn()
        except HangTimeout:
            return 'hang', None
        except (Failed, Skip, CrashNow):
            raise
        except BaseException as e:
            return 'exc', e
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def _alarm(self, *a):
        raise HangTimeout()

    # -- fault injection: file operations of the analysed modules
    def fault(self, k, kind):
        st = {'n': 0, 'hit': False}
        self._fault = st

        def step(op, path):
            if self._fault is not st:
                return None
            st['n'] += 1
            if st['n'] != k:
                return None
            st['hit'] = (op, path)
            return kind
        self._install(step)
        return st

    def nofault(self):
        self._fault = None

    def _install(self, step):
        import builtins
        yup, yugen = self.yup, self.yugen

        def act(op, path):
            r = step(op, path)
            if r == 'error':
                raise OSError(28, 'No space left on device')
            if r:
                raise CrashNow()

        class W(object):
            def __init__(self, f, path):
                self.f, self.path, self.buf, self.closed = f, path, [], False

            def write(self, s):
                self.buf.append(s)
                return len(s)

            def writelines(self, l):
                for x in l:
                    self.write(x)

            def flush(self):
                if self.buf:
                    data = ''.join(self.buf)
                    self.buf = []
                    r = step('write', self.path)
                    if r == 'error':
                        raise OSError(28, 'No space left on device')
                    if r == 'partial':
                        self.f.write(data[:max(1, len(data) // 2)])
                    if r:
                        self.f.close()
                        raise CrashNow()
                    self.f.write(data)

            def fileno(self):
                return self.f.fileno()

            def close(self):
                if not self.closed:
                    self.closed = True
                    try:
                        self.flush()
                    finally:
                        self.f.close()

            def __enter__(self):
                return self

            def __exit__(self, t, v, tb):
                if t is not None and issubclass(t, CrashNow):
                    self.closed = True
                    self.f.close()
                    return False
                self.close()
                return False

        def x_open(fn, mode='r', *a, **k):
            if any(c in mode for c in 'wxa'):
                p = os.path.abspath(fn)
                if os.path.isdir(os.path.dirname(p)) and not os.path.isdir(p):
                    act('open', p)
                return W(io.open(fn, mode, *a, **k), p)
            return io.open(fn, mode, *a, **k)

        def wrap(fn, op, arg):
            def f(*a, **k):
                fnn = os.path.abspath(a[0])
                if os.path.exists(fnn):
                    act(op, os.path.abspath(a[arg]))
                return fn(*a, **k)
            return f
        for m in (yup, yugen):
            if hasattr(m, 'open') or m is yup:
                m.open = x_open
        # a private copy of the os module for the analysed modules
        import types
        o = types.ModuleType('os')
        o.__dict__.update(os.__dict__)
        o.rename, o.replace = wrap(os.rename, 'rename', 1), wrap(os.replace, 'rename', 1)
        o.remove, o.unlink = wrap(os.remove, 'remove', 0), wrap(os.unlink, 'remove', 0)
        o.chmod = wrap(os.chmod, 'chmod', 0)
        yup.os = o

    def crashes(self, fn):
        try:
            return 'ok', fn()
        except CrashNow:
            self._fault = None
            return 'crash', None
        except (Failed, Skip, HangTimeout):
            raise
        except BaseException as e:
            return 'exc', e


def plain(x):
    if isinstance(x, str):
        return str.__str__(x) if type(x) is str else ''.join(x)
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, float):
        return repr(x)
    if isinstance(x, dict):
        return [[plain(a), plain(b)] for a, b in dict.items(x)]
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, int):
        return int(x)
    return repr(x)


_ns = {}


def harness(pid):
    if pid not in _ns:
        ns = {}
        for n in ('lib', pid):
            fn = os.path.join(LIB, n + '.py')
            g = {'__name__': 'harness_' + n, '__file__': fn}
            g.update(ns)
            with io.open(fn, encoding='utf8') as f:
                src = f.read()
            exec(compile(src, fn, 'exec'), g)
            ns.update((k, v) for k, v in g.items() if not k.startswith('__'))
        _ns[pid] = ns
    return _ns[pid]


def escaped(e, ns):
    """is the exception raised by the code under test (not by the harness, not for a stub or a changed interface)?"""
    if not isinstance(e, Exception) or isinstance(e, (ImportError, NameError)):
        return False
    fs = [f.f_code.co_filename for f, _ in traceback.walk_tb(e.__traceback__)]
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    last = max([i for i, f in enumerate(fs) if os.path.abspath(f).startswith(here + os.sep)] or [-1])
    if last + 1 >= len(fs) or not os.path.abspath(fs[last + 1]).startswith(os.path.abspath(REPO) + os.sep):
        return False
    if isinstance(e, AttributeError):
        return not any(isinstance(c, type) and repr(c.__name__) in str(e) for c in ns.values())
    return True


def run_one(req, cwd):
    ns = harness(req['pid'])
    task = ns['TASKS'](req['tier'])[req['task']]
    os.chdir(cwd)
    h = H(req['model'], cwd)
    yugen = sys.modules['yupp.pp.yugen']
    for l in ('log', 'trace'):
        lg = logging.getLogger(l)
        lg.handlers[:] = [Capture(h._logs)]
        lg.propagate = False
    sys.stdout = h._out
    sys.argv = ['yup.py']
    ans = {'error': None, 'hang': False}
    prep = ns.get('PREPARE')

    def alarm(*a):
        raise HangTimeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, req.get('timeout', 20))
    try:
        if prep:
            prep(h)
        ns[task[1]](h, *task[2])
    except Failed:
        pass
    except Skip:
        ans['skip'] = True
    except HangTimeout:
        ans['hang'] = True
        h.failed.append('does not terminate')
    except BaseException as e:
        ans['error'] = '%s: %s\n%s' % (type(e).__name__, e, ''.join(traceback.format_tb(e.__traceback__)[-5:]))
        if escaped(e, ns):
            h.failed.append('an exception escapes from the code: %s' % type(e).__name__)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout = sys.__stdout__
    os.chdir('/')
    ans['failed'] = [plain(f) for f in h.failed]
    ans['obs'] = h.obs
    ans['text'] = plain(h.text) if h.text is not None else None
    return ans


def forked(req):
    cwd = tempfile.mkdtemp(prefix='yupp-replay-')
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            ans = run_one(req, cwd)
            data = json.dumps(ans).encode('ascii')
        except BaseException as e:
            data = json.dumps({'error': 'replay: %s: %s' % (type(e).__name__, e), 'failed': [], 'obs': [], 'hang': False}).encode('ascii')
        try:
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    t_end = time.time() + req.get('timeout', 20) + 20
    chunks = []
    import select
    killed = False
    while True:
        left = t_end - time.time()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            killed = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if rd:
            b = os.read(r, 65536)
            if not b:
                break
            chunks.append(b)
    os.close(r)
    os.waitpid(pid, 0)
    shutil.rmtree(cwd, ignore_errors=True)
    data = b''.join(chunks)
    if killed or not data:
        return {'error': None if killed else 'replay process died', 'failed': ['does not terminate'] if killed else [], 'obs': [], 'hang': killed}
    return json.loads(data.decode('ascii'))


def main():
    sys.setrecursionlimit(20000)
    load_package()
    import yupp.pp.yugen, yupp.pp.yup
    import yupp.pylib.yutraceback3
    # the module raises the limit so far that endless recursion kills the interpreter
    sys.setrecursionlimit(6000)
    os.chdir('/')
    if len(sys.argv) > 1:
        # replay a stored counterexample
        with open(sys.argv[1]) as f:
            req = json.load(f)
        ans = forked(req)
        print(json.dumps(ans, indent=1))
        sys.exit(1 if ans['failed'] else 0)
    out = os.fdopen(os.dup(1), 'w')
    for line in sys.stdin:
        line = line.strip()
        if not line:
            continue
        out.write(json.dumps(forked(json.loads(line))) + '\n')
        out.flush()


if __name__ == '__main__':
    main()

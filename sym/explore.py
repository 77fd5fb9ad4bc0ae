"""
Path exploration: depth-first re-execution over decision prefixes, in parallel.

Every completed path yields
  pc        the path condition (character domains, (in)equalities, integer terms)
  checks    assertions, boolean formulas over the symbolic inputs
The verdict for a path is the solver's: pc /\\ not(assertions) must be unsat.
A model of it is a counterexample, which is replayed by the caller on the real code.
"""
import sys, os, warnings, time, random, signal, traceback, collections, queue as _q
import multiprocessing as mp
from fractions import Fraction
import z3
from . import core, world, instr, vfs
from .core import CTX, Abort, Infeasible, Limit, Hang, SymBool, find, bits, popcount, mk, XStr, is_str, elems, zchar, cvalue, native_of, z_eq, realize

warnings.simplefilter('ignore', SyntaxWarning)
LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')


def nat(s):
    return s if type(s) is str else realize(s)


class Skip(Abort):
    """path outside the assumptions of the harness"""


class FS(object):
    """file system seen by a harness"""

    def __init__(self, v):
        self.v = v

    def write(self, p, data, mtime=None, mode=None):
        self.v.add(p, core.xs(data) if is_str(data) else data, mtime)
        if mode is not None:
            self.v.files[self.v.norm(p)].mode = mode

    def bad(self, p):
        """a file that is no UTF-8"""
        self.v.add(p, core.xs('a\n'))
        self.v.files[self.v.norm(p)].bad = True

    def encoded(self, p, enc):
        """the file is written in this encoding"""
        import codecs
        self.v.node(p).enc = codecs.lookup(nat(enc)).name

    def locale(self, enc):
        """the encoding of files that are opened without one"""
        self.v.locale = nat(enc)

    def read(self, p):
        return self.v.get(p)

    def exists(self, p):
        return self.v.exists(p)

    def isfile(self, p):
        return self.v.isfile(p)

    def mtime(self, p):
        return self.v.getmtime(p)

    def mode(self, p):
        return self.v.node(p).mode & 0o777

    def mkdir(self, p):
        self.v.dirs.add(self.v.norm(p))

    def utime(self, p, t):
        self.v.node(p).mtime = t

    def remove(self, p):
        del self.v.files[self.v.norm(p)]

    def listing(self):
        c = self.v.cwd.rstrip('/') + '/'
        return sorted(f[len(c):] for f in self.v.files if f.startswith(c))


class H(object):
    """harness interface, symbolic mode"""
    symbolic = True

    def __init__(self, w):
        self.w = w
        self.fs = FS(w.vfs)
        self.reset()

    def reset(self):
        self.checks = []
        self.obs = []
        self.covers = set()
        self.text = None
        self.weight = Fraction(1)
        self.choices = {}
        self.used = set()
        self.dims = {}

    @property
    def yugen(self):
        return self.w.yugen

    @property
    def yup(self):
        return self.w.yup

    def package(self):
        """the package itself (its __init__)"""
        if not hasattr(self.w.mods.get(self.w.root), 'yupp_search_function'):
            self.w.load_root()
        return self.w.mods[self.w.root]

    def source(self, rel):
        """text of a file of the package"""
        with open(os.path.join(world.REPO, rel), encoding='utf-8') as f:
            return f.read()

    def module(self, name):
        return self.w.imp('yupp.' + name, None, None, ('x',), 0)

    def script(self, rel, stubs):
        """a module outside the package; stubs: modules of its host"""
        import types as _t
        m = _t.ModuleType('script')
        m.__dict__['__builtins__'] = self.w.b
        m.__file__ = os.path.join(self.w.repo, rel)
        old = {k: self.w.mods.get(k) for k in stubs}
        self.w.mods.update(stubs)
        try:
            exec(instr.compile_source(self.source(rel), m.__file__), m.__dict__)
        finally:
            for k, v in old.items():
                if v is None:
                    del self.w.mods[k]
                else:
                    self.w.mods[k] = v
        return m

    def run_main(self, rel, argv):
        """exit status of a script of the package (or its function main, as a console script calls it)"""
        self.set_argv(['yupp'] + list(argv))
        w = self.w
        rel, _, fn = rel.partition(':')
        pkg = 'yupp' if '/' not in rel else 'yupp.' + rel.rsplit('/', 1)[0].replace('/', '.')

        def go():
            import types as _t
            if fn:
                return getattr(self.module(rel[:-3].replace('/', '.')), fn)()
            m = _t.ModuleType('__main__')
            m.__dict__['__builtins__'] = w.b
            m.__package__ = pkg
            m.__file__ = os.path.join(w.repo, rel)
            if pkg not in w.mods:
                w.repo_module(pkg) if pkg != 'yupp' else w.imp('yupp.pp', None, None, ('x',), 0)
            with open(m.__file__, encoding='utf-8') as f:
                src = f.read()
            exec(instr.compile_source(src, m.__file__), m.__dict__)
            return None
        try:
            r = go()
        except SystemExit as e:
            r = e.code
        except Abort:
            raise
        except BaseException:
            if os.environ.get('VERIF_DEBUG'):
                import traceback
                traceback.print_exc()
            return 1
        return 0 if r is None else (core.nat(r) if hasattr(core, 'nat') else int(r)) & 255

    # -- inputs
    def _once(self, name):
        if name in self.used:
            raise ValueError('the name "%s" is used twice' % name)
        self.used.add(name)

    def char(self, name, alphabet):
        name = nat(name)
        dom = core.mask_of(alphabet) if not isinstance(alphabet, int) else alphabet
        self._once(name)
        return mk(XStr, None, (CTX.new_char(name, dom),))

    def chars(self, name, n, alphabet):
        name = nat(name)
        dom = core.mask_of(alphabet) if not isinstance(alphabet, int) else alphabet
        if n == 0:
            return mk(XStr, '')
        for i in range(n):
            self._once('%s%d' % (name, i))
        return mk(XStr, None, tuple(CTX.new_char('%s%d' % (name, i), dom) for i in range(n)))

    def int(self, name, lo, hi):
        name = nat(name)
        self._once(name)
        return CTX.new_int(name, lo, hi)

    def choose(self, name, n):
        if not isinstance(n, int):
            return n[self.choose(name, len(n))]
        if nat(name) in self.choices:
            raise ValueError('the name "%s" is used twice' % nat(name))
        k = CTX.forkn(n)
        self.weight /= n
        self.choices[nat(name)] = k
        self.dims[nat(name)] = n
        return k

    def flag(self, name):
        return bool(self.choose(name, 2))

    def assume(self, cond):
        if not cond:
            raise Skip()

    # -- assertions
    def eq(self, a, b):
        if is_str(a) and is_str(b):
            return z_eq(a, b)
        if core.isint(a) and core.isint(b):
            if core._known(a) and core._known(b):
                return core._cv(a) == core._cv(b)
            return core.zint(a) == core.zint(b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return self.all([self.eq(x, y) for x, y in zip(a, b)])
        return a == b

    def all(self, l):
        out = []
        for x in l:
            if x is False:
                return False
            if x is not True:
                out.append(x)
        return z3.And(*out) if out else True

    def check(self, cond, msg):
        if isinstance(cond, SymBool):
            cond = cond.z
        elif not isinstance(cond, z3.ExprRef):
            cond = bool(cond)
        self.checks.append((cond, str(msg) if type(msg) is str else realize(msg)))
        if cond is False:
            raise Failed()

    def observe(self, tag, val):
        self.obs.append((nat(tag), val))

    def cover(self, tag):
        self.covers.add(nat(tag))

    def describe(self, text):
        self.text = text

    def note(self, *a):
        pass

    # -- environment
    def logs(self):
        return [(l, m) for _, l, m in self.w.logs]

    def out(self):
        return XStr.join(mk(XStr, ''), [core.to_str(x) for x in self.w.out])

    def clear(self):
        self.w.logs[:] = []
        self.w.out[:] = []

    def stdin(self, lines):
        """what is typed at the terminal"""
        self.w.stdin = list(lines)

    def set_argv(self, argv):
        self.w.mods['sys'].argv = [nat(a) if is_str(a) else a for a in argv]

    def depth(self, n):
        """endless recursion is stopped at this depth"""
        sys.setrecursionlimit(4 * n)

    def budget(self, n):
        self.w.max_ticks = n

    def guard(self, fn):
        """run fn; ('ok', value) | ('exc', exception)"""
        try:
            return 'ok', fn()
        except Abort:
            raise
        except BaseException as e:
            return 'exc', e

    def hangs(self, fn):
        """run fn; 'hang' if it does not stop within the step budget"""
        self.w.ticks = 0
        try:
            return 'ok', fn()
        except Hang:
            return 'hang', None
        except Abort:
            raise
        except BaseException as e:
            return 'exc', e

    def fault(self, k, kind):
        """the k-th file operation from now fails: kind 'error' | 'crash' | 'partial'"""
        v = self.w.vfs
        v.nop = 0
        st = {'hit': False}

        def f(nop, op, path):
            if nop != k:
                return None
            st['hit'] = (op, path)
            if kind == 'error':
                e = OSError(28, 'No space left on device')
                return e if op != 'write' else (0, e)
            return (vfs.Crash() if op != 'write' else ({'crash': 0, 'partial': 1}[kind], vfs.Crash()))
        v.fault = f
        return st

    def nofault(self):
        self.w.vfs.fault = None

    def crashes(self, fn):
        """run fn; 'crash' if the injected crash happened.  State of the process is lost."""
        try:
            return 'ok', fn()
        except vfs.Crash:
            self.w.vfs.fault = None
            return 'crash', None
        except Abort:
            raise
        except BaseException as e:
            return 'exc', e


class Failed(Abort):
    pass


class _Mod(object):
    pass


def load_harness(w, pid):
    """harness modules run instrumented with the stand-in builtins"""
    ns = {}
    for n in ('lib', pid):
        fn = os.path.join(LIB, n + '.py')
        with open(fn, encoding='utf-8') as f:
            src = f.read()
        g = {'__builtins__': w.b, '__name__': 'harness_' + n, '__file__': fn}
        g.update(ns)
        exec(instr.compile_source(src, fn), g)
        ns.update({k: v for k, v in g.items() if not k.startswith('__')})
    return ns


def model_of(m):
    """z3 model -> {name: value}"""
    out = {}
    for v in CTX.vars:
        if v.z is not None:
            continue
        z = m.eval(z3.Int('c_' + v.name), model_completion=True)
        out[v.name] = z.as_long()
    for v in CTX.ivars:
        out[v.name] = m.eval(v.z, model_completion=True).as_long()
    return out


def random_model(rng):
    """a random solution of a path condition without relations, else None"""
    if CTX.rel or CTX.eqs or CTX.decs:
        return None
    return {v.name: rng.choice(list(bits(v.dom))) for v in CTX.vars}


def zev(v, model):
    sub = [(z3.Int('c_' + n), z3.IntVal(k)) for n, k in model.items()] + [(z3.Int('i_' + n), z3.IntVal(k)) for n, k in model.items()]
    return z3.simplify(z3.substitute(v, *sub)).as_long()


def ev(x, model):
    """value of x under the model, as plain data"""
    if is_str(x):
        out = []
        for e in elems(x):
            if type(e) is not int:
                c = model[e.var.name] if e.var.z is None else zev(e.var.z, model)
                e = c if e.table is None else e.table.get(c, c)
            out.append(chr(e))
        return ''.join(out)
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, core.SymIntBase):
        v = x._v
        if isinstance(v, int):
            return v
        return zev(v, model)
    if isinstance(x, core.SymOrd):
        return ord(ev(core.x_chr(x), model))
    if isinstance(x, dict):
        return [[ev(a, model), ev(b, model)] for a, b in dict.items(x)]
    if isinstance(x, (list, tuple)):
        return [ev(y, model) for y in x]
    if isinstance(x, float):
        return repr(x)
    return int(x) if isinstance(x, int) else repr(x)


def path_weight(h):
    """measure of the inputs following this path (exact), None if not computable"""
    if CTX.rel or CTX.decs:
        return None
    w = h.weight
    classes = {}
    for v in CTX.vars:
        classes.setdefault(id(find(v)), [find(v), []])[1].append(v)
    roots = [c[0] for c in classes.values()]
    for r, ms in classes.values():
        for m in ms:
            w /= popcount(m.dom0)
    # count assignments of roots respecting disequalities
    adj = {}
    for r in roots:
        for o in (r.diseq or ()):
            o = find(o)
            if o is not r:
                adj.setdefault(r.idx, set()).add(o.idx)
                adj.setdefault(o.idx, set()).add(r.idx)
    byidx = {r.idx: r for r in roots}
    done = set()
    for r in roots:
        if r.idx in done:
            continue
        if r.idx not in adj:
            w *= popcount(r.dom)
            continue
        comp, st = [], [r.idx]
        while st:
            i = st.pop()
            if i in done:
                continue
            done.add(i)
            comp.append(i)
            st.extend(adj.get(i, ()))
        if len(comp) > 4:
            return None
        w *= count_colorings([byidx[i] for i in comp], adj)
    return w


def count_colorings(nodes, adj):
    def rec(i, assigned):
        if i == len(nodes):
            return 1
        n = nodes[i]
        d = n.dom
        for j in range(i):
            if nodes[j].idx in adj[n.idx]:
                d &= ~assigned[j]
        if i == len(nodes) - 1:
            return popcount(d)
        # group values by membership in the later nodes' domains to keep this cheap
        later = [m for m in nodes[i + 1:] if m.idx in adj[n.idx]]
        if not later:
            return popcount(d) * rec(i + 1, assigned + [0])
        tot = 0
        rest = d
        inter = 0
        for m in later:
            inter |= m.dom
        free = d & ~inter
        if free:
            tot += popcount(free) * rec(i + 1, assigned + [0])
        for c in bits(d & inter):
            tot += rec(i + 1, assigned + [1 << c])
        return tot
    return rec(0, [])


def plainify(x):
    if is_str(x):
        return realize(x)
    if isinstance(x, dict):
        return {plainify(k): plainify(y) for k, y in x.items()}
    if type(x) in (list, tuple):
        return type(x)(plainify(y) for y in x)
    return x


LIMIT = 60000


class PathResult(object):
    __slots__ = ('task', 'kind', 'weight', 'msg', 'model', 'choices', 'text', 'obs', 'covers', 'nchecks', 'queries', 'solver_s', 'pc', 'err', 'sample', 'discharged', 'dims')

    def __init__(self):
        for k in self.__slots__:
            setattr(self, k, None)


class Runner(object):
    def __init__(self, pid, tier, seed):
        sys.setrecursionlimit(LIMIT)
        self.w = world.load()
        self.ns = load_harness(self.w, pid)
        self.relational = set()
        prep = self.ns.get('PREPARE')
        if prep:
            prep(H(self.w))
        self.w.snapshot()
        self.tasks = [(plainify(t[0]), plainify(t[1])) + tuple(t[2:]) for t in self.ns['TASKS'](tier)]
        self.ns['META'] = plainify(self.ns['META'])
        self.rng = random.Random(seed)
        self.path_s = 20.0
        self.nverdict = 0

    def run(self, ti, prefix, want_pc=False):
        name, fn, params = self.tasks[ti][:3]
        w = self.w
        CTX.reset(prefix)
        CTX.task = ti
        CTX.queries = 0
        CTX.solver_s = 0.0
        w.restore()
        sys.setrecursionlimit(LIMIT)
        w.max_ticks = 400000
        h = H(w)
        r = PathResult()
        r.task = ti

        def on_alarm(sig, frm):
            raise Hang('time budget of one path')
        signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, self.path_s)
        try:
            try:
                self.ns[fn](h, *params)
                r.kind = 'ok'
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Failed:
            r.kind = 'ok'
        except Skip:
            r.kind = 'skip'
        except Infeasible:
            r.kind = 'infeasible'
        except Hang as e:
            r.kind = 'hang'
            h.checks.append((False, 'does not terminate within the step budget'))
        except Limit as e:
            r.kind = 'limit'
            r.err = str(e)
        except vfs.Crash:
            r.kind = 'error'
            r.err = 'stray crash'
        except RecursionError:
            r.kind = 'limit'
            r.err = 'recursion'
        except Exception as e:
            r.kind = 'error'
            r.err = '%s: %s\n%s' % (type(e).__name__, e, ''.join(traceback.format_tb(e.__traceback__)[-6:]))
        r.choices = h.choices
        r.covers = h.covers
        r.nchecks = len(h.checks)
        if r.kind != 'infeasible':
            r.weight = path_weight(h)
        if r.kind in ('ok', 'hang'):
            self.verdict(h, r)
        elif r.kind in ('error', 'limit'):
            res, s = CTX.check([])
            if res == z3.sat:
                r.model = model_of(s.model())
            elif res == z3.unsat:
                r.kind = 'infeasible'
        if r.weight is None:
            self.relational.add(ti)
        if want_pc or ((self.ns['META'].get('relational') or r.weight is None or r.kind == 'skip' or ti in self.relational) and r.kind != 'infeasible'):
            zs = CTX.pc()
            zs += [z3.Int('n_' + k) == x for k, x in h.choices.items()]
            r.pc = (z3.And(*zs) if zs else z3.BoolVal(True)).sexpr()
            r.dims = dict(('n_' + k, x) for k, x in h.dims.items())
            r.dims.update(('c_' + v.name, v.dom0) for v in CTX.vars if v.z is None)
            r.dims.update(('i_' + v.name, (v.lo, v.hi)) for v in CTX.ivars)
        r.queries = CTX.queries
        r.solver_s = CTX.solver_s
        if r.model is not None:
            r.model.update(('?' + k, v) for k, v in h.choices.items())
        return r, CTX.pending

    def verdict(self, h, r):
        neg = []
        for c, m in h.checks:
            if c is True:
                continue
            neg.append((z3.BoolVal(False) if c is False else c, m))
        # 1. can the assertions fail?
        bad = None
        self.nverdict += 1
        if neg:
            CTX.queries += 1
            f = z3.simplify(z3.Or(*[z3.Not(c) for c, _ in neg]))
            if z3.is_false(f) and self.nverdict % 16:
                r.discharged = True          # refuted by the solver's simplifier
            else:
                res, s = CTX.check([z3.Or(*[z3.Not(c) for c, _ in neg])])
                CTX.queries -= 1
                if res == z3.sat:
                    bad = s.model()
                    for c, msg in neg:
                        if not z3.is_true(bad.eval(c, model_completion=True)):
                            r.msg = msg
                            break
                elif res != z3.unsat:
                    r.kind = 'unknown'
        if bad is not None:
            r.kind = 'violation'
            r.model = model_of(bad)
        else:
            # 2. the path is reachable (the verdict is not vacuous); domains are
            #    never empty, so a solver is needed only if there are relations
            r.model = random_model(self.rng)
            if r.model is None or not self.nverdict % 16:
                res, s = CTX.check([])
                if res == z3.unsat:
                    r.kind = 'infeasible'
                    return
                r.model = model_of(s.model()) if res == z3.sat else None
        model = r.model
        if model is not None:
            r.obs = [(t, ev(v, model)) for t, v in h.obs]
            r.text = ev(h.text, model) if h.text is not None else None


def _worker(pid, tier, seed, inq, outq, slice_s):
    signal.signal(signal.SIGINT, signal.SIG_IGN)

    try:
        run = Runner(pid, tier, seed)
    except BaseException as e:
        outq.put(('fatal', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:])))
        return
    while True:
        item = inq.get()
        if item is None:
            return
        ti, prefixes = item
        stack = list(prefixes)
        t0 = time.time()
        res = []
        while stack and time.time() - t0 < slice_s:
            p = stack.pop()
            r, pend = run.run(ti, p)
            res.append(r)
            stack.extend(pend)
        outq.put(('res', ti, res, stack))


class Exploration(object):
    """all tasks of a harness, in parallel"""

    def __init__(self, pid, tier, seed, budget_s, jobs=8, only=None, on_result=None):
        self.pid, self.tier, self.seed, self.budget_s, self.jobs = pid, tier, seed, budget_s, jobs
        self.only = only
        self.on_result = on_result
        self.stats = {}
        self.fatal = None

    def go(self, ntasks):
        ctx = mp.get_context('fork')
        inq, outq = ctx.Queue(), ctx.Queue()
        procs = [ctx.Process(target=_worker, args=(self.pid, self.tier, self.seed + i, inq, outq, 0.5), daemon=True)
                 for i in range(self.jobs)]
        for p in procs:
            p.start()
        t0 = time.time()
        backlog = collections.deque((ti, [()]) for ti in range(ntasks) if self.only is None or ti in self.only)
        inflight = 0
        self.left = 0
        stop = False
        try:
            while True:
                while backlog and inflight < self.jobs * 2 and not stop:
                    inq.put(backlog.popleft())
                    inflight += 1
                if inflight == 0:
                    break
                try:
                    msg = outq.get(timeout=5)
                except _q.Empty:
                    if any(not p.is_alive() for p in procs):
                        self.fatal = self.fatal or 'a worker process died'
                        break
                    if time.time() - t0 > self.budget_s + 60:
                        self.fatal = 'workers do not answer'
                        break
                    continue
                if msg[0] == 'fatal':
                    self.fatal = msg[1]
                    break
                _, ti, res, rest = msg
                inflight -= 1
                for r in res:
                    self.on_result(r)
                if time.time() - t0 > self.budget_s:
                    stop = True
                if rest:
                    if stop:
                        self.left += len(rest)
                    else:
                        # split so that idle workers get a share
                        n = max(1, min(len(rest), self.jobs))
                        if len(backlog) > 4 * self.jobs:
                            n = 1
                        for i in range(n):
                            part = rest[i::n]
                            if part:
                                backlog.append((ti, part))
            if stop:
                self.left += sum(len(p) for _, p in backlog)
                self.unstarted = sum(1 for _, p in backlog if p == [()])
        finally:
            for p in procs:
                p.terminate()
            for p in procs:
                p.join(2)
        self.wall = time.time() - t0

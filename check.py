#!/usr/bin/env python3
"""
check.py <ID> [--tier quick|thorough] [--budget S] [--jobs N] [-v]

Decides one property of /repo by symbolic execution of its current source.
"""
import sys, os, json, time, argparse, subprocess, threading, hashlib, re, collections, signal
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PYPY = os.environ.get('YUPP_PYTHON', '/opt/venv/bin/python')


class Replayer(object):
    """one replay server; lazily started"""

    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, LC_ALL='C.UTF-8', PYTHONIOENCODING='utf8', PYTHONDONTWRITEBYTECODE='1')
        self.p = subprocess.Popen([PYPY, os.path.join(HERE, 'sym', 'replay.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, cwd='/', text=True)

    def ask(self, req):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(req) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            return json.loads(line)
        except Exception as e:
            try:
                self.p.kill()
            except Exception:
                pass
            self.p = None
            return {'error': 'replay server: %s' % e, 'failed': [], 'obs': [], 'hang': False}

    def stop(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(3)
            except Exception:
                self.p.kill()


def replay_all(reqs, jobs, deadline):
    """answers in order; None where the deadline was reached"""
    out = [None] * len(reqs)
    idx = iter(range(len(reqs)))
    lock = threading.Lock()

    def work():
        r = Replayer()
        while True:
            with lock:
                i = next(idx, None)
            if i is None or time.time() > deadline:
                break
            out[i] = r.ask(reqs[i])
        r.stop()
    ts = [threading.Thread(target=work) for _ in range(min(jobs, max(1, len(reqs) // 4 + 1)))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return out


def load_known():
    fn = os.path.join(HERE, 'known-findings.txt')
    out = []
    if os.path.isfile(fn):
        for line in open(fn, encoding='utf8'):
            line = line.strip()
            if line.startswith('{'):
                out.append(json.loads(line))
    return out


def known_for(known, pid, task, text, msg):
    for k in known:
        if k['property'] != pid:
            continue
        if not re.search(k.get('task', ''), task):
            continue
        if not re.search(k.get('text', ''), text or '', re.S):
            continue
        if not re.search(k.get('msg', ''), msg or '', re.S):
            continue
        return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--only')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from sym import explore, world
    import z3
    runner = None
    # harness metadata (and the list of tasks) from a plain load in this process
    try:
        runner = explore.Runner(a.pid, a.tier, seed)
    except BaseException as e:
        import traceback
        note = 'the code could not be loaded into the symbolic executor: %s: %s' % (type(e).__name__, e)
        traceback.print_exc()
        return finish_unloadable(a, seed, t0, note)
    meta = runner.ns['META']
    tasks = runner.tasks
    only = None
    if a.only:
        only = set(i for i, t in enumerate(tasks) if re.search(a.only, t[0]))
    budget = a.budget or meta.get('budget', {}).get(a.tier, 60 if a.tier == 'quick' else 600)
    funcs = encoded_functions(runner, tasks, only, 40)
    res = collections.defaultdict(list)
    agg = collections.Counter()
    wsum = collections.defaultdict(Fraction)
    wok = {}
    dims = {}
    pcs = collections.defaultdict(list)
    covers = collections.Counter()
    viol, errs, sample = [], [], []
    solver_s = 0.0
    npaths = collections.Counter()
    per_task_sample = collections.Counter()
    import random
    rng = random.Random(seed)

    def on_result(r):
        nonlocal solver_s
        ti = r.task
        agg[r.kind] += 1
        agg['queries'] += r.queries or 0
        agg['checks'] += r.nchecks or 0
        solver_s += r.solver_s or 0
        if r.kind == 'infeasible':
            return
        npaths[ti] += 1
        if r.weight is None:
            wok[ti] = False
        elif wok.get(ti, True):
            wsum[ti] += r.weight
        if r.pc is not None and len(pcs[ti]) < 3000:
            pcs[ti].append(r.pc)
            d = dims.setdefault(ti, {})
            for k, x in r.dims.items():
                if d is not None and d.setdefault(k, x) != x:
                    d = dims[ti] = None
                    break
        for c in r.covers or ():
            covers[c] += 1
        if r.kind in ('violation',):
            viol.append(r)
            if first and len(viol) > 300:
                ex.budget_s = 0
        elif r.kind in ('error', 'limit', 'unknown'):
            errs.append(r)
        elif r.kind == 'ok' and r.model is not None:
            # reservoir of paths to be validated against the implementation
            per_task_sample[ti] += 1
            cap = int(os.environ.get('VERIF_REPLAYS', 0)) or max(meta.get('replay_min', 6), meta.get('replays', {}).get(a.tier, 160 if a.tier == 'quick' else 600) // max(1, len(tasks)))
            lst = res[ti]
            if len(lst) < cap:
                lst.append(r)
            else:
                j = rng.randrange(per_task_sample[ti])
                if j < cap:
                    lst[j] = r

    first = bool(os.environ.get('VERIF_FIRST'))
    ex = explore.Exploration(a.pid, a.tier, seed, budget, a.jobs, only, on_result)
    ex.go(len(tasks))
    complete = not ex.left and ex.fatal is None
    # exhaustiveness of the path set
    exhaustive = complete
    gaps = []
    for ti, t in enumerate(tasks):
        if only is not None and ti not in only:
            continue
        if not complete:
            break
        if wok.get(ti, True):
            if wsum[ti] != 1:
                gaps.append((t[0], str(wsum[ti])))
        else:
            v = cover_query(pcs[ti], dims.get(ti), npaths[ti])
            agg['queries'] += 1
            if v != 'unsat':
                gaps.append((t[0], 'solver: ' + v))
    if gaps:
        exhaustive = False

    # -- replay: counterexamples, engine failures, and a sample of clean paths
    reqs, what = [], []

    def add(r, kind, model, obs):
        reqs.append({'pid': a.pid, 'tier': a.tier, 'task': r.task, 'model': model, 'timeout': 20})
        what.append((kind, r, model, obs))
    byt = collections.Counter()
    for r in viol:
        key = (r.task, r.msg)
        byt[key] += 1
        if byt[key] <= 6:
            add(r, 'violation', r.model, r.obs)
    for i, r in enumerate(errs):
        if r.model is not None and i < 60:
            add(r, 'error', r.model, None)
    samples = [r for l in res.values() for r in l]
    for r in samples:
        add(r, 'ok', r.model, r.obs)
    ans = replay_all(reqs, a.jobs, time.time() + (240 if a.tier == 'quick' else 400))
    known = load_known()
    confirmed, unconfirmed, mismatch, replay_err, kf = [], [], [], [], collections.OrderedDict()
    validated = 0
    for (kind, r, model, obs), an in zip(what, ans):
        if an is None:
            continue
        tname = tasks[r.task][0]
        if an['failed']:
            k = known_for(known, a.pid, tname, an.get('text'), an['failed'][0])
            if k:
                kf[k['id']] = k
            else:
                confirmed.append((tname, r.task, model, an['failed'][0], an.get('text')))
        elif kind == 'violation':
            unconfirmed.append((tname, r.msg, model, an))
        elif an['error']:
            replay_err.append((tname, model, an['error']))
        elif kind == 'ok' and obs is not None and not an.get('skip') and norm(obs) != norm(an['obs']):
            mismatch.append((tname, model, diff(obs, an['obs'])))
        if kind in ('ok', 'rnd') and not an['failed'] and not an['error']:
            validated += 1

    viol_n = len(confirmed)
    lines = []
    seen = set()
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    for tname, ti, model, msg, text in confirmed:
        key = (tname, msg)
        if key in seen:
            continue
        seen.add(key)
        name = '%s-%s.json' % (a.pid, hashlib.sha1(repr((tname, msg, sorted(model.items()))).encode()).hexdigest()[:10])
        path = os.path.join(HERE, 'replays', name)
        with open(path, 'w') as f:
            json.dump({'pid': a.pid, 'tier': a.tier, 'task': ti, 'task_name': tname, 'model': model, 'message': msg, 'input': text, 'timeout': 20}, f, indent=1)
        lines.append((tname, msg, text, path))

    for k in kf.values():
        print('KNOWN-FINDING: property=%s %s' % (a.pid, k['what']))
    missing = [c for c in meta.get('covers', ()) if not covers[c]]
    total = sum(npaths.values())
    cov = collections.OrderedDict()
    cov['states'] = total
    cov['transitions'] = agg['queries']
    cov['traces_validated_against_impl'] = validated
    cov['samples'] = [{'task': tasks[r.task][0], 'model': r.model, 'input': r.text} for r in samples[:3] + samples[-3:]]
    cov['explanation'] = ('states = feasible paths of the real code explored to the end (each stands for all inputs satisfying its path '
                          'condition); transitions = solver queries; every path was decided by the query "path condition and not property"')
    cov['technique'] = 'symbolic execution of the instrumented source of /repo, z3 %s decides every path' % z3.get_version_string()
    cov['bounds'] = meta['bounds']
    cov['outside_bounds'] = meta.get('outside', '')
    cov['paths'] = {k: agg[k] for k in ('ok', 'violation', 'skip', 'hang', 'limit', 'error', 'unknown', 'infeasible') if agg[k]}
    cov['tasks'] = len(tasks) if only is None else len(only)
    cov['queries'] = agg['queries']
    cov['assertions'] = agg['checks']
    cov['solver_s'] = round(solver_s, 3)
    cov['functions_encoded'] = funcs
    cov['completed'] = complete
    cov['exhaustive'] = bool(exhaustive and not errs)
    cov['unexplored_prefixes'] = ex.left
    cov['coverage_gaps'] = gaps[:20]
    cov['covers'] = dict(covers)
    cov['covers_missing'] = missing
    cov['engine_errors'] = len(errs)
    cov['engine_error_samples'] = [(tasks[r.task][0], r.err) for r in errs[:3]]
    cov['unconfirmed_counterexamples'] = len(unconfirmed)
    cov['replay_mismatches'] = len(mismatch)
    cov['replay_errors'] = len(replay_err)
    if ex.fatal:
        cov['fatal'] = ex.fatal[-2000:]
    cov['known_findings_seen'] = list(kf)
    ev = {'property': a.pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': meta.get('level', 'model_checking'),
          'coverage': cov, 'assumptions': COMMON + meta.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': viol_n}
    if not a.no_evidence:
        write_evidence(a.pid, ev)
    print('%s %s: %d paths (%s), %d queries, solver %.1fs, %d replays agreed, complete=%s exhaustive=%s, %.1fs' % (
        a.pid, a.tier, total, ', '.join('%s %d' % x for x in cov['paths'].items()), agg['queries'], solver_s, validated, complete, cov['exhaustive'], time.time() - t0))
    if ex.fatal:
        print('ENGINE: ' + ex.fatal)
    if missing:
        print('not reached: ' + ', '.join(missing))
    if a.v or unconfirmed or mismatch or errs or replay_err:
        for x in unconfirmed[:3 if not a.v else 10]:
            print('unconfirmed:', x[0], x[1], show(tasks, x[2]), x[3])
        for x in mismatch[:3 if not a.v else 10]:
            print('mismatch:', x[0], show(tasks, x[1]), x[2])
        for r in errs[:3 if not a.v else 10]:
            print('engine:', tasks[r.task][0], r.kind, r.err, r.model)
        for x in replay_err[:3]:
            print('replay error:', x)
        if gaps:
            print('gaps:', gaps[:5])
    if a.v:
        slow = npaths.most_common(12)
        print('paths per task:', [(tasks[i][0], n) for i, n in slow])
    for tname, msg, text, path in lines[:20]:
        print('  %s: %s%s' % (tname, msg, '' if text is None else '\n    input %r' % text))
        print('VIOLATION property=%s replay=%s' % (a.pid, path))
    if lines:
        return 1
    if not total:
        print('INCONCLUSIVE: no path was explored')
        return 2
    return 0


COMMON = [
    'characters range over U+0000..U+00FF plus the alphabets named in the bounds; code points above are outside',
    'CPython 3.12 semantics of the instrumented source stand for PyPy 3.9, the interpreter of the repository (validated by replaying sampled models of clean paths)',
    'stand-ins: str, re, int(), codecs.unicode_escape_*, ast.literal_eval (symbolic models, compared with the originals by selftest.py); open/os.* (in-memory file system); logging, datetime, inspect',
]


def show(tasks, model):
    return {k: (chr(v) if not k.startswith('?') and isinstance(v, int) and 0 <= v < 512 else v) for k, v in model.items()}


def norm(o):
    return json.loads(json.dumps([list(x) for x in o]))


def diff(a, b):
    da, db = dict((k, v) for k, v in norm(a)), dict((k, v) for k, v in norm(b))
    return [(k, da.get(k, '<absent>'), db.get(k, '<absent>')) for k in list(da) + [k for k in db if k not in da] if da.get(k, '<absent>') != db.get(k, '<absent>')][:4]


def write_evidence(pid, ev):
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.%d' % (pid, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    os.replace(tmp, os.path.join(d, pid + '.json'))


def finish_unloadable(a, seed, t0, note):
    ev = {'property': a.pid, 'tier': a.tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [], 'explanation': note, 'completed': False},
          'assumptions': [], 'wall_s': round(time.time() - t0, 2), 'violations': 0}
    if not a.no_evidence:
        write_evidence(a.pid, ev)
    print('INCONCLUSIVE ' + a.pid + ': ' + note)
    return 2


def encoded_functions(runner, tasks, only, limit):
    """functions of /repo executed on the first path of (a spread of) tasks"""
    from sym import world
    seen = set()
    repo = world.REPO.rstrip('/') + '/'

    def prof(frame, event, arg):
        if event == 'call':
            c = frame.f_code
            if c.co_filename.startswith(repo):
                seen.add((c.co_filename[len(repo):], getattr(c, 'co_qualname', c.co_name)))
    ids = [i for i in range(len(tasks)) if only is None or i in only]
    step = max(1, len(ids) // limit)
    t0 = time.time()
    for i in ids[::step]:
        if time.time() - t0 > 15:
            break
        sys.setprofile(prof)
        try:
            runner.run(i, ())
        except BaseException:
            pass
        finally:
            sys.setprofile(None)
    return sorted('%s:%s' % x for x in seen if '<' not in x[1].split('.')[-1])


def cover_query(pcs, dims, n):
    """is there an input within the bounds on no explored path?"""
    import z3
    from sym.core import dom_to_z3
    if len(pcs) < n:
        return 'too many paths'
    if dims is None:
        return 'inputs are not the same on all paths'
    decls = {x: z3.Int(x) for x in dims}
    s = z3.Solver()
    s.set('timeout', 30000)
    try:
        fs = [z3.parse_smt2_string('(assert %s)' % p, decls=decls) for p in pcs]
    except z3.Z3Exception as e:
        return 'not expressible: %s' % str(e)[:60]
    for x, d in dims.items():
        z = decls[x]
        if x[0] == 'c':
            s.add(dom_to_z3(z, d))
        elif x[0] == 'i':
            s.add(z >= d[0], z <= d[1])
        else:
            s.add(z >= 0, z < d)
    s.add(z3.Not(z3.Or(*[z3.And(*f) if len(f) != 1 else f[0] for f in fs])))
    return str(s.check())


if __name__ == '__main__':
    sys.stdout.reconfigure(errors='backslashreplace')
    try:
        rc = main()
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        rc = 2 if not isinstance(e, SystemExit) else (e.code or 0)
    sys.stdout.flush()
    os._exit(rc)

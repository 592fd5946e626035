"""Runs the symbolic harnesses of one property and decides it."""
import hashlib
import importlib
import json
import logging
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = '/repo'
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, 'checks'))
PY = '/opt/venv/bin/python'


# ------------------------------------------------------------------------------------- real build
class RealBuild:
    """compiles a scratch copy of the current tree in the background"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='jptbuild.')
        self.err = None
        self.proc = None
        self.t0 = time.time()
        self.wall = None

    def start(self):
        dst = os.path.join(self.dir, 'repo')
        os.mkdir(dst)
        def ign(d, names):
            return [n for n in names if n in ('build', '.git', '__pycache__', 'doc', 'examples') or
                    n.endswith(('.so', '.cpp', '.c', '.o'))]
        shutil.copytree(os.path.join(REPO, 'src'), os.path.join(dst, 'src'), ignore=ign, symlinks=True)
        for f in os.listdir(REPO):
            p = os.path.join(REPO, f)
            if os.path.isfile(p):
                shutil.copy2(p, dst)
        os.makedirs(os.path.join(dst, 'test'), exist_ok=True)
        env = dict(os.environ, CFLAGS='-O0 -g0 -w', CXXFLAGS='-O0 -g0 -w', PYTHONDONTWRITEBYTECODE='1', HOME='/root')
        self.log = open(os.path.join(self.dir, 'log'), 'w')
        self.proc = subprocess.Popen([PY, 'setup.py', 'build_ext', '--inplace', '-j', '6'], cwd=dst, env=env,
                                     stdout=self.log, stderr=self.log)

    def ready(self):
        return self.proc is not None and self.proc.poll() is not None

    def wait(self, timeout=600):
        try:
            rc = self.proc.wait(timeout)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            rc = -1
        self.wall = time.time() - self.t0
        if rc != 0:
            self.err = open(os.path.join(self.dir, 'log')).read()[-2000:]
        return rc == 0

    def src(self):
        return os.path.join(self.dir, 'repo', 'src')

    def cleanup(self):
        if self.proc is not None and self.proc.poll() is None:
            self.proc.kill()
            self.proc.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


class Replayer:
    def __init__(self, build, mods):
        self.build, self.mods = build, mods
        self.p = None
        self.n = 0

    def start(self):
        env = dict(os.environ, PYTHONPATH=self.build.src(), PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
                   OMP_NUM_THREADS='1', PYTHONHASHSEED='0')
        self.scratch = os.path.join(self.build.dir, 'scratch')
        os.makedirs(self.scratch, exist_ok=True)
        self.p = subprocess.Popen([PY, os.path.join(HERE, 'replay.py'), ','.join(self.mods), self.scratch], env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        line = self.p.stdout.readline()
        if not line:
            self.p = None
            return False
        self.hello = json.loads(line)
        return True

    def run(self, case, inputs, choices):
        if self.p is None and not self.start():
            return dict(status='error', msg='the real code cannot be imported')
        self.n += 1
        enc = {k: (repr(v) if isinstance(v, float) else v) for k, v in inputs.items()}
        try:
            self.p.stdin.write(json.dumps(dict(id=self.n, case=case, inputs=enc, choices=choices)) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            return json.loads(line)
        except Exception as e:
            self.p = None
            return dict(status='error', msg=repr(e))

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()


# ------------------------------------------------------------------------------------- workers
_CASES = {}


def _task(args):
    key, prefixes, seconds, max_paths, kw, hard = args
    import sym
    c = _CASES[key]
    import harness
    t = time.time()
    ex = sym.Explorer(harness.sym_wrapper(c), c.mode, min(t + seconds, hard), query_ms=c.query_ms, max_paths=max_paths,
                      max_steps=c.max_steps)
    err = None
    try:
        left = ex.run(prefixes, keep_witness=kw)
    except BaseException as e:  # engine failure: inconclusive
        err = ''.join(traceback.format_exception(e))[-1500:]
        left = []
    return dict(key=key, left=left, stat=ex.stat, labels=ex.labels, violations=ex.violations,
                unsupported=ex.unsupported, witness=ex.witness, wall=time.time() - t, err=err)


def _init():
    import gc
    gc.freeze()
    sys.setrecursionlimit(5000)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)


class CaseState:
    def __init__(self, c):
        self.c = c
        self.queue = [[[]]]          # chunks of prefixes
        self.out = 0
        self.time = 0.0
        self.stat = {}
        self.labels = {}
        self.unsupported = {}
        self.witness = []
        self.errs = []
        self.unrepro = []
        self.tasks = 0

    def done(self):
        return not self.queue and not self.out

    def merge(self, r):
        self.time += r['wall']
        for k, v in r['stat'].items():
            self.stat[k] = self.stat.get(k, 0) + v
        for k, v in r['labels'].items():
            a = self.labels.setdefault(k, [0, 0, 0])
            for i in range(3):
                a[i] += v[i]
        for k, v in r['unsupported'].items():
            self.unsupported[k] = self.unsupported.get(k, 0) + v
        if len(self.witness) < 12:
            self.witness.extend(r['witness'])
        if r['err']:
            self.errs.append(r['err'])


def explore(cases, budget, nworkers, seed, on_violation, kw=2):
    """round-robin over the cases, each an open set of path prefixes; returns CaseStates"""
    rng = random.Random(seed)
    states = [CaseState(c) for c in cases]
    for c in cases:
        _CASES[c.key] = c
    bykey = {s.c.key: s for s in states}
    hard = time.time() + budget
    import concurrent.futures as cf
    ctx = mp.get_context('fork')
    pool = cf.ProcessPoolExecutor(nworkers, mp_context=ctx, initializer=_init)
    pending = set()
    stop = False
    try:
        while True:
            now = time.time()
            while len(pending) < nworkers + 2 and now < hard and not stop:
                avail = [s for s in states if s.queue]
                if not avail:
                    break
                s = min(avail, key=lambda s: ((s.time + 1.5 * s.out) / s.c.weight, s.tasks))
                chunk = s.queue.pop(rng.randrange(len(s.queue)))
                s.out += 1
                s.tasks += 1
                sec = .6 if s.tasks <= 4 else 2.5
                pending.add(pool.submit(_task, (s.c.key, chunk, sec, None, kw if len(s.witness) < 12 else 0, hard)))
            if not pending:
                break
            dn, pending = cf.wait(pending, timeout=5, return_when=cf.FIRST_COMPLETED)
            for f in dn:
                r = f.result()
                s = bykey[r['key']]
                s.out -= 1
                s.merge(r)
                left = r['left']
                if left:
                    n = min(len(left), 6)
                    for i in range(n):
                        s.queue.append(left[i::n])
                for v in r['violations']:
                    if on_violation(s, v):
                        stop = True
            if stop:
                break
            if not dn and time.time() > hard + 60:
                break
    finally:
        for p in list(getattr(pool, '_processes', {}).values()):
            p.kill() if stop or pending else None
        pool.shutdown(wait=not (stop or pending), cancel_futures=True)
    return states, stop


# ------------------------------------------------------------------------------------- a whole check
def load_findings(prop):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                out.append(line)
    return out


def run_check(prop, modules, tier, seed, budget, nworkers=8, only=None, verbose=False):
    t0 = time.time()
    sys.stdout.flush()
    build = RealBuild()
    rc = 0
    try:
        build.start()
        return _run_check(prop, modules, tier, seed, budget, nworkers, only, verbose, t0, build)
    finally:
        build.cleanup()


def _load(modules, prop, only):
    """import the harnesses over the translated code; -> (cases, error)"""
    import loader
    loader.install(os.path.join(REPO, 'src'))
    logging.disable(logging.CRITICAL)
    import harness
    for m in modules:
        importlib.import_module(m)
    import jpt  # noqa  (warm up: everything imported before the workers fork)
    for x in ('jpt.trees', 'jpt.distributions', 'jpt.learning.impurity', 'jpt.distributions.quantile.quantiles'):
        importlib.import_module(x)
    cases = [c for c in harness.CASES if c.prop == prop and (only is None or c.name in only)]
    return cases


def _run_check(prop, modules, tier, seed, budget, nworkers, only, verbose, t0, build):
    replayer = Replayer(build, modules)
    err = None
    cases = []
    old = os.dup(1)
    try:
        cases = _load(modules, prop, only)
    except BaseException as e:
        err = ''.join(traceback.format_exception(e))[-3000:]
    confirmed = []
    pend = []
    nrep = {}

    def confirm(s, v):
        k = (s.c.key, v['label'])
        if nrep.get(k, 0) >= 60:
            return False
        nrep[k] = nrep.get(k, 0) + 1
        for m in v['models']:
            r = replayer.run(s.c.key, m['inputs'], m['choices'])
            if r.get('status') == 'violated' and r.get('label') == v['label'] or r.get('status') == 'crash':
                confirmed.append(dict(case=s.c.key, label=v['label'], inputs=m['inputs'], choices=m['choices'],
                                      real=r, predicted=v['info']))
                return True
            s.unrepro.append(dict(label=v['label'], info=v['info'], model=m, real={k: r.get(k) for k in ('status', 'label', 'msg', 'tb')}))
        return False

    def on_violation(s, v):
        if build.ready() and build.wall is None:
            build.wait()
        if build.wall is not None and build.err is None:
            while pend:
                a, b = pend.pop(0)
                if confirm(a, b):
                    return True
            return confirm(s, v)
        pend.append((s, v))
        return False

    states = []
    if cases:
        states, stop = explore(cases, budget, nworkers, seed, on_violation)
    if build.wall is None:
        build.wait()
    if build.err is None and not confirmed:
        for s, v in pend:
            if confirm(s, v):
                break
    # translator validation: solver models of completed paths must behave the same on the real build
    agree, mismatch, invalid = 0, [], 0
    if build.err is None and not confirmed:
        tv = time.time()
        rot = [s.witness[:] for s in states]
        while any(rot) and time.time() - tv < (15 if tier == 'quick' else 60):
            for s, ws in zip(states, rot):
                if not ws:
                    continue
                w = ws.pop(0)
                r = replayer.run(s.c.key, w['inputs'], w['choices'])
                if r.get('status') == 'ok' and obs_equal(w['observed'], r['observed']):
                    agree += 1
                elif r.get('status') == 'invalid':
                    invalid += 1
                else:
                    mismatch.append(dict(case=s.c.key, witness=w, real=r))
    replayer.stop()
    tot = {}
    for s in states:
        for k, v in s.stat.items():
            tot[k] = tot.get(k, 0) + v
    complete = [s.c.name for s in states if s.done() and not s.stat.get('inconclusive') and not s.errs and not s.stat.get('unsupported')
                and not s.unrepro]
    vacuous = [s.c.name for s in states if not s.labels]
    samples = []
    for s in states:
        for w in s.witness[:2]:
            samples.append('%s inputs=%s choices=%s' % (s.c.name, w['inputs'], w['choices']))
    ev = dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=max(1, tot.get('paths', 0) + tot.get('ended', 0)),
            transitions=max(1, tot.get('branches', 0)),
            traces_validated_against_impl=agree,
            samples=samples[:12] or ['none'],
            harnesses={s.c.name: dict(bound=s.c.bound, encoding=s.c.mode, paths=s.stat.get('paths', 0),
                                      infeasible=s.stat.get('ended', 0), obligations_discharged=s.stat.get('discharged', 0),
                                      labels={k: dict(reached=v[0], discharged=v[1], refuted=v[2]) for k, v in s.labels.items()},
                                      unsupported=s.unsupported, inconclusive=s.stat.get('inconclusive', 0),
                                      exhausted=s.done(), open_prefixes=sum(len(q) for q in s.queue),
                                      unreproduced=s.unrepro[:3], n_unreproduced=len(s.unrepro), cpu_s=round(s.time, 1), errors=s.errs[:2]) for s in states},
            complete_within_bounds=complete, vacuous=vacuous,
            queries=tot.get('queries', 0), solver_s=round(tot.get('solver_s', 0), 1),
            witness_mismatches=mismatch[:5], n_witness_mismatches=len(mismatch), witness_invalid_after_rounding=invalid,
            functions_encoded=encoded(), engine_error=err, build_error=build.err, build_s=build.wall),
        assumptions=['doubles in "rank" harnesses are exact (order, equality, neighbours); in "real" harnesses arithmetic is ideal, '
                     'rounding is outside the claim', 'values, sizes and shapes are bounded as stated per harness',
                     'an undecided, unsupported or unexplored path is not covered by the claim (counts above)'],
        violations=len(confirmed), wall_s=round(time.time() - t0, 1))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    rc = 0
    if confirmed:
        v = confirmed[0]
        d = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s.json' % prop)
        json.dump(dict(property=prop, modules=modules, **v), open(path, 'w'), indent=1, default=repr)
        print('%s: %s label=%s inputs=%s' % (prop, v['case'], v['label'], v['inputs']))
        print('  real code: %s' % (v['real'].get('msg'),))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    for f in load_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, f.split(' ', 2)[2]))
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1, default=repr)
    print('%s %s: %d harnesses, %d paths, %d obligations discharged, %d queries, solver %.0fs, %d complete, %d witnesses agree, '
          '%d mismatches, %d unreproduced, %.0fs' %
          (prop, tier, len(states), tot.get('paths', 0), tot.get('discharged', 0), tot.get('queries', 0), tot.get('solver_s', 0),
           len(complete), agree, len(mismatch), sum(len(s.unrepro) for s in states), time.time() - t0))
    if err or not confirmed and not tot.get('discharged'):
        print('no answer: nothing was decided\n' + (err or '')[-1500:])
        rc = rc or 2
    if verbose:
        for s in states:
            print('  %-28s w=%.0fs tasks=%d %s open=%d %s' % (s.c.name, s.time, s.tasks, {k: (round(v, 1) if isinstance(v, float) else v) for k, v in s.stat.items() if v}, sum(len(q) for q in s.queue), 'DONE' if s.done() else ''))
            for k, v in s.labels.items():
                print('      %-30s reached %d discharged %d refuted %d' % (k, *v))
            for k, v in sorted(s.unsupported.items(), key=lambda x: -x[1])[:5]:
                print('      unsupported: %s x%d' % (k, v))
            for e in s.errs[:2]:
                print('      ERR', e)
            for u in s.unrepro[:1]:
                print('      UNREPRODUCED', str(u)[:500])
        for m in mismatch[:3]:
            print('  MISMATCH', str(m)[:600])
    return rc


def obs_equal(a, b):
    if len(a) != len(b):
        return False
    for (l1, x), (l2, y) in zip(a, b):
        if l1 != l2:
            return False
        if x is None:
            continue
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            if x != x and y != y or x == y:
                continue
            if abs(x - y) <= 1e-6 * (1 + abs(x) + abs(y)):
                continue
            return False
        if isinstance(x, str) and x.startswith('<'):
            continue
        if x != y:
            return False
    return True


def encoded():
    """what was encoded: modules of the code under test with the hash of their current text"""
    out = {}
    for name, m in sorted(sys.modules.items()):
        if name == 'jpt' or name.startswith('jpt.'):
            f = getattr(m, '__file__', None)
            if f and os.path.exists(f):
                out[name] = hashlib.sha256(open(f, 'rb').read()).hexdigest()[:12]
    return out

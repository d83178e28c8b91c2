"""Runner shared by all checks: seeds, worker pool, oracles' plumbing,
minimisation, replay files, evidence."""

import collections
import concurrent.futures
import hashlib
import json
import math
import os
import signal
import subprocess
import sys
import time as _time
import traceback
import warnings

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, 'out')
REAL_TIME = _time.time
REAL_MONO = _time.monotonic

CPU_LIMIT = 60          # CPU seconds one simulated run may take


class Violation(Exception):
    def __init__(self, kind, msg, **detail):
        super().__init__('%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg
        self.detail = detail


class HarnessError(Exception):
    pass


class Hang(BaseException):
    pass


def sut_frames(e):
    return [f for f in traceback.extract_tb(e.__traceback__)
            if os.sep + 'bayespy' + os.sep in f.filename]


class Ctx:
    """What one simulated run records."""

    def __init__(self, prop, workdir=None):
        self.prop = prop
        self.counts = collections.Counter()
        self.faults = collections.Counter()
        self.states = set()
        self.log = hashlib.sha256()
        self.events = 0
        self.evals = 0
        self.sim_time = 0.0
        self.maxerr = 0.0
        self.workdir = workdir
        self.trace = []
        self.sample = None

    def fail(self, kind, msg, **detail):
        raise Violation(kind, msg, **detail)

    def check(self, ok, kind, msg='', **detail):
        self.evals += 1
        if not ok:
            raise Violation(kind, msg() if callable(msg) else msg, **detail)

    def event(self, *what):
        """Record an event in the run's deterministic history."""
        self.events += 1
        s = json.dumps(what, default=_js)
        self.log.update(s.encode())
        if len(self.trace) < 400:
            self.trace.append(s if len(s) < 300 else s[:300])

    def state(self, *key):
        self.states.add(hashlib.md5(json.dumps(key, default=_js).encode()).hexdigest()[:12])

    def count(self, what, n=1):
        self.counts[what] += n

    def fault(self, what, n=1):
        self.faults[what] += n

    def call(self, what):
        return _Call(self, what)


class _Call:
    """Valid use of the system: it must not raise."""

    def __init__(self, ctx, what):
        self.ctx = ctx
        self.what = what

    def __enter__(self):
        return self

    def __exit__(self, et, e, tb):
        if e is None or isinstance(e, (Violation, HarnessError, Hang)):
            return False
        if not isinstance(e, Exception):
            return False
        fr = sut_frames(e)
        if not fr:
            return False
        raise Violation('raised:%s' % (self.what if isinstance(self.what, str) else self.what[0]),
                        '%s raised %s: %s (at %s:%s)' % (self.what, type(e).__name__, e,
                                                         os.path.basename(fr[-1].filename),
                                                         fr[-1].name)) from e


def _js(o):
    if isinstance(o, (np.floating, np.integer, np.bool_)):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    return str(o)


def dumps(o, **kw):
    return json.dumps(o, default=_js, **kw)


# -- one run ------------------------------------------------------------------

def _alarm(sig, frame):
    raise Hang()


class Quiet:
    """Silence the system's prints and warnings."""

    def __enter__(self):
        self.out = sys.stdout
        self.null = open(os.devnull, 'w')
        sys.stdout = self.null
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter('ignore')
        self.err = np.seterr(all='ignore')
        return self

    def __exit__(self, *a):
        np.seterr(**self.err)
        self.w.__exit__(*a)
        sys.stdout = self.out
        self.null.close()


def slow(scenario):
    """Maximum likelihood concentrations converge slowly when badly determined."""
    return any(n['kind'] == 'Concentration' for n in scenario.get('spec', {}).get('nodes', []))


def run_one(mod, scenario, limit=CPU_LIMIT, workdir=None):
    """Execute a scenario.  Returns a JSON-able result."""
    if slow(scenario):
        limit = max(limit, 400)
    import shutil
    import tempfile
    ctx = Ctx(mod.ID)
    own = tempfile.mkdtemp(prefix='vsim-')
    ctx.workdir = own
    res = dict(violation=None, error=None)
    old = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    np.random.seed(12345)
    c0 = _time.process_time()
    try:
        with Quiet():
            try:
                mod.execute(scenario, ctx)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
    except Violation as v:
        res['violation'] = dict(kind=v.kind, msg=v.msg[:2000], detail=json.loads(dumps(v.detail)))
        if v.__cause__ is not None:
            res['violation']['traceback'] = ''.join(traceback.format_exception(v.__cause__))[-3000:]
    except Hang:
        res['violation'] = dict(kind='hang', msg='no progress within %d CPU seconds' % limit, detail={})
    except MemoryError:
        res['error'] = traceback.format_exc()
    except Exception as e:
        # (the scenarios are valid, and the harness understands all valid answers)
        if sut_frames(e) and not isinstance(e, HarnessError):
            fr = sut_frames(e)[-1]
            res['violation'] = dict(kind='raised:unexpected', msg='%s: %s (at %s:%s)' % (
                type(e).__name__, str(e)[:500], os.path.basename(fr.filename), fr.name), detail={},
                traceback=traceback.format_exc()[-3000:])
        elif isinstance(e, (ValueError, IndexError, TypeError, ArithmeticError)):
            res['violation'] = dict(kind='unusable-result', msg='the reported results cannot be used: %s: %s' % (
                type(e).__name__, str(e)[:500]), detail={}, traceback=traceback.format_exc()[-3000:])
        else:
            res['error'] = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        _time.time = REAL_TIME
        shutil.rmtree(own, ignore_errors=True)
    res.update(counts=dict(ctx.counts), faults=dict(ctx.faults), states=sorted(ctx.states),
               events=ctx.events, evals=ctx.evals, sim_time=ctx.sim_time, maxerr=ctx.maxerr,
               digest=ctx.log.hexdigest()[:16], trace=ctx.trace if res['violation'] else None,
               sample=ctx.sample, cpu=_time.process_time() - c0)
    return res


def run_safe(mod, scenario, limit=CPU_LIMIT):
    """run_one in a child process, which may die."""
    import multiprocessing
    mp = multiprocessing.get_context('fork')
    (a, b) = mp.Pipe(False)

    def child():
        r = run_one(mod, scenario, limit)
        b.send(dumps(r))
        b.close()
    p = mp.Process(target=child)
    p.start()
    b.close()
    try:
        r = json.loads(a.recv())
    except EOFError:
        r = None
    p.join()
    if r is not None:
        return r
    msg = 'the process died of signal %s' % (-p.exitcode if p.exitcode < 0 else 'none, exit code %d' % p.exitcode)
    r = dict(violation=None, error=None, counts={}, faults={}, states=[], events=0, evals=1, sim_time=0, maxerr=0,
             digest=hashlib.sha256(msg.encode()).hexdigest()[:16], trace=None, sample=None, cpu=0)
    if -p.exitcode in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
        r['violation'] = dict(kind='process-died', msg=msg, detail={})
    else:
        r['error'] = msg
    return r


def rerun(modname, chunks, tier, results):
    """A worker died: find out on which seed (each in its own process)."""
    mod = load(modname)
    for s in [s for c in chunks for s in c if s not in results]:
        sc = mod.generate(s, tier)
        r = run_safe(mod, sc, getattr(mod, 'CPU_LIMIT', CPU_LIMIT))
        results[s] = r
        if r['violation'] or r['error']:
            r['scenario'] = sc
            return True
    return False


def _worker(args):
    (modname, seeds, tier) = args
    mod = load(modname)
    known = known_findings(mod.ID)
    out = []
    for s in seeds:
        try:
            sc = mod.generate(s, tier)
        except Exception:
            out.append((s, dict(violation=None, error='generate: ' + traceback.format_exc())))
            continue
        r = run_one(mod, sc, getattr(mod, 'CPU_LIMIT', CPU_LIMIT))
        if r['violation']:
            r['scenario'] = sc
        out.append((s, r))
        if r['error'] or r['violation'] and not any(matches(k, r['violation']) for k in known):
            break
    return out


def load(modname):
    import importlib
    return importlib.import_module('checks.' + modname)


# -- minimisation -------------------------------------------------------------

def ddmin(items, test):
    """Classic delta debugging on a list; test(list) -> still fails."""
    n = 2
    while len(items) >= 1:
        size = max(1, len(items) // n)
        done = True
        i = 0
        while i < len(items):
            cand = items[:i] + items[i + size:]
            if test(cand):
                items = cand
                done = False
            else:
                i += size
        if size == 1 and done:
            break
        n = min(len(items), n * 2) if done else max(2, n - 1)
        if not items:
            break
    return items


def minimise(mod, scenario, kind, budget):
    t0 = REAL_MONO()
    tries = 0

    def still(sc):
        nonlocal tries
        if REAL_MONO() - t0 > budget:
            return False
        tries += 1
        r = (run_safe if kind == 'process-died' else run_one)(mod, sc, getattr(mod, 'CPU_LIMIT', CPU_LIMIT))
        return r['violation'] is not None and r['violation']['kind'] == kind

    best = scenario
    for key in getattr(mod, 'SHRINK', ['faults', 'ops']):
        if key not in best or not isinstance(best[key], list):
            continue

        def test(lst):
            return still(dict(best, **{key: lst}))
        best = dict(best, **{key: ddmin(list(best[key]), test)})
    if hasattr(mod, 'shrink'):
        progress = True
        while progress and REAL_MONO() - t0 < budget:
            progress = False
            for cand in mod.shrink(best):
                if still(cand):
                    best = cand
                    progress = True
                    break
    return best, tries


# -- known findings -----------------------------------------------------------

def known_findings(prop):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))['findings'] if f['property'] == prop]


def matches(f, v):
    return f['kind'] == v['kind'] and all(s in v['msg'] for s in f.get('msg_contains', []))


# -- main ---------------------------------------------------------------------

def replay(modname, path):
    d = json.load(open(path))
    mod = load(modname)
    r = run_safe(mod, d['scenario'], getattr(mod, 'CPU_LIMIT', CPU_LIMIT))
    if r['error']:
        print(r['error'])
        print('HARNESS-ERROR property=%s replay=%s' % (mod.ID, path))
        return 2
    if r['violation']:
        print('%s: %s' % (r['violation']['kind'], r['violation']['msg']))
        print(r['violation'].get('traceback', ''))
        same = r['violation']['kind'] == d['violation']['kind'] and r['digest'] == d['digest']
        print('reproduced exactly: %s' % same)
        print('VIOLATION property=%s replay=%s' % (mod.ID, path))
        return 1
    print('no violation: the recorded scenario holds now')
    return 0


def fresh_digest(modname, seed, tier, hashseed):
    """Digest of one run in a fresh process with another hash seed."""
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), VERIF_INNER='1')
    p = subprocess.run([sys.executable, os.path.join(ROOT, 'check.py'), modname, '--digest', str(seed),
                        '--tier', tier], env=env, capture_output=True, text=True, cwd='/')
    return p.stdout.strip().split('\n')[-1] if p.returncode == 0 else 'error: ' + p.stderr[-300:]


def main(modname, tier, seed0, runs=None, jobs=None, quiet_evidence=False):
    mod = load(modname)
    t0 = REAL_MONO()
    import bayespy.inference, bayespy.nodes     # once, before forking the workers
    n = runs or mod.RUNS[tier]
    deadline = mod.DEADLINE[tier] if hasattr(mod, 'DEADLINE') else (600 if tier == 'quick' else 840)
    jobs = jobs or min(8, os.cpu_count() or 1)
    seeds = [seed0 * 1000003 + i for i in range(n)]
    chunk = max(1, min(25, n // (jobs * 4) or 1))
    chunks = [seeds[i:i + chunk] for i in range(0, n, chunk)]
    results = {}
    known = known_findings(mod.ID)
    stopped = None
    ex = concurrent.futures.ProcessPoolExecutor(jobs)
    futs = {}
    it = iter(chunks)
    nviol = 0
    broken = None

    def submit():
        for c in it:
            futs[ex.submit(_worker, (modname, c, tier))] = c
            return True
        return False
    for _ in range(jobs * 2):
        submit()
    while futs:
        done, _ = concurrent.futures.wait(futs, timeout=5,
                                          return_when=concurrent.futures.FIRST_COMPLETED)
        for f in done:
            c = futs.pop(f)
            try:
                for (s, r) in f.result():
                    results[s] = r
                    if r['error'] or r['violation'] and not any(matches(k, r['violation']) for k in known):
                        nviol += 1
            except concurrent.futures.process.BrokenProcessPool as e:
                broken = 'worker died while running seeds %s..%s: %s' % (c[0], c[-1], e)
            if broken is None and nviol < 12 and REAL_MONO() - t0 < deadline:
                submit()
            elif REAL_MONO() - t0 >= deadline:
                stopped = 'deadline'
        if broken:
            break
    ex.shutdown(wait=False, cancel_futures=True)
    if broken and rerun(modname, [c] + list(futs.values()), tier, results):
        broken = None

    viols = [(s, results[s]) for s in sorted(results) if results[s]['violation']]
    errors = [(s, results[s]) for s in sorted(results) if results[s]['error']]

    # Once more for the failures, in this (other) process: same seed, same result
    new = []
    found = {}
    for (s, r) in viols:
        k = next((f for f in known if matches(f, r['violation'])), None)
        if k is not None:
            found[k['id']] = (k, s, r)
        else:
            new.append((s, r))

    # Known findings are checked directly by their recorded scenario
    for f in known:
        if f['id'] not in found and 'scenario' in f:
            sc = f['scenario']
            if isinstance(sc, str):
                sc = json.load(open(os.path.join(ROOT, sc)))['scenario']
            r = run_one(mod, sc)
            if r['violation'] and matches(f, r['violation']):
                found[f['id']] = (f, None, r)
            elif r['violation']:
                new.append((None, dict(r, scenario=sc)))
    for (k, s, r) in found.values():
        print('KNOWN-FINDING: property=%s %s' % (mod.ID, k['what']))

    # Determinism audit in fresh processes
    audit = []
    if not new and not errors and not broken:
        for (i, s) in enumerate(sorted(results)[:getattr(mod, 'AUDIT', 2)]):
            d = fresh_digest(modname, s, tier, 17 + i)
            audit.append(dict(seed=s, same=(d == results[s]['digest'])))

    reported = []
    kinds = []
    for (s, r) in new:
        kind = r['violation']['kind']
        if kind in kinds or len(kinds) >= 3:
            continue
        kinds.append(kind)
        sc, tries = minimise(mod, r['scenario'], kind, 40 if tier == 'quick' else 120)
        rr = (run_safe if kind == 'process-died' else run_one)(mod, sc, getattr(mod, 'CPU_LIMIT', CPU_LIMIT))
        if not rr['violation']:
            sc, rr = r['scenario'], r
        os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
        path = os.path.join(OUT, 'replays', '%s-%s-%s.json' % (
            mod.ID, s, ''.join(ch if ch.isalnum() else '_' for ch in kind)[:40]))
        with open(path, 'w') as fh:
            fh.write(dumps(dict(property=mod.ID, seed=s, tier=tier, violation=rr['violation'],
                                digest=rr['digest'], trace=rr['trace'], scenario=sc,
                                minimise_tries=tries,
                                original_ops=len(r['scenario'].get('ops', [])),
                                minimised_ops=len(sc.get('ops', []))), indent=1))
        p = subprocess.run([sys.executable, os.path.join(ROOT, 'check.py'), modname, '--replay', path],
                           capture_output=True, text=True, env=dict(os.environ, VERIF_INNER='1'))
        rep = p.returncode == 1 and 'reproduced exactly: True' in p.stdout
        print('%s (seed %s): %s' % (kind, s, rr['violation']['msg'][:600]))
        print('replay in a fresh process reproduces it exactly: %s' % rep)
        print('VIOLATION property=%s replay=%s' % (mod.ID, path))
        reported.append(dict(kind=kind, seed=s, replay=path, reproduced=rep,
                             msg=rr['violation']['msg'][:300]))
    for (s, r) in errors[:3]:
        print('HARNESS-ERROR seed=%s\n%s' % (s, r['error']))
    if broken:
        print('HARNESS-ERROR ' + broken)

    wall = REAL_MONO() - t0
    if not quiet_evidence:
        evidence(mod, tier, seed0, results, n, stopped, audit, reported, found, errors, wall, jobs)
    done = len(results)
    print('%s %s: %d/%d runs, %d evaluations, %d violations, %d harness errors, %.1f s'
          % (mod.ID, tier, done, n, sum(r.get('evals', 0) for r in results.values()),
             len(new), len(errors) + bool(broken), wall))
    if reported:
        return 1
    if errors or broken:
        return 2
    if done < max(1, n // 4):
        print('HARNESS-ERROR only %d of %d runs were completed before the deadline' % (done, n))
        return 2
    return 0


def evidence(mod, tier, seed0, results, n, stopped, audit, reported, found, errors, wall, jobs):
    counts = collections.Counter()
    faults = collections.Counter()
    states = set()
    for r in results.values():
        counts.update(r.get('counts', {}))
        faults.update(r.get('faults', {}))
        states.update(r.get('states', ()))
    evals = sum(r.get('evals', 0) for r in results.values())
    samples = [r['sample'] for (s, r) in sorted(results.items()) if r.get('sample')][:5]
    nontrivial = sum(1 for r in results.values() if r.get('evals', 0) > 0)
    d = dict(
        property=mod.ID, tier=tier, seed=seed0, level=mod.LEVEL,
        coverage=dict(
            evaluations=evals,
            distinct_nontrivial=len(states),
            rule=mod.STATE_RULE,
            samples=samples or [dict(note='none')],
            simulated_runs=len(results), planned_runs=n, stopped=stopped,
            runs_with_evaluations=nontrivial,
            runs_per_hour=round(3600 * len(results) / max(wall, 1e-3)),
            seeds=[seed0 * 1000003, seed0 * 1000003 + n - 1],
            events=sum(r.get('events', 0) for r in results.values()),
            simulated_seconds=round(sum(r.get('sim_time', 0) for r in results.values()), 3),
            faults_injected=dict(sorted(faults.items())),
            operations=dict(sorted(counts.items())),
            worst_relative_difference=max([r.get('maxerr', 0) for r in results.values()] or [0]),
            determinism_audit=audit, workers=jobs,
            components=mod.COMPONENTS,
            harness_errors=len(errors)),
        assumptions=mod.ASSUMPTIONS,
        wall_s=round(wall, 2),
        violations=len(reported),
    )
    if reported:
        d['coverage']['reported'] = reported
    if found:
        d['coverage']['known_findings'] = [k['what'] for (k, s, r) in found.values()]
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    txt = dumps(d, indent=1)
    if len(txt) > 60000:
        d['coverage']['samples'] = d['coverage']['samples'][:1]
        txt = dumps(d, indent=1)[:60000] if len(dumps(d)) > 60000 else dumps(d, indent=1)
    with open(os.path.join(ROOT, 'evidence', mod.ID + '.json'), 'w') as f:
        f.write(txt)

"""C04: crash and resume.  A run that is killed and resumed from its files any
number of times must be indistinguishable from one that never stopped."""

import os

import numpy as np

from sim.engine import Sim, OpGen, base_scenario
from sim.core import slow
from checks import c02

ID = 'C04'
LEVEL = 'exploration'
LEVEL_NOTE = ('Simulated user processes: a run is killed at seeded points, a new engine (possibly after other work) '
              'loads the last explicit save or autosave and continues; every later state and every record is compared '
              'with the never-interrupted run. Process death is simulated by dropping every object and rebuilding; '
              'the file is real HDF5 (its crash behaviour is C05/C06).')
RUNS = dict(quick=3000, thorough=12000)
STATE_RULE = ('distinct (family, save mode, kinds of operations around the crash, number of crashes, autosave '
              'interval, loading engine state) resumes')
COMPONENTS = dict(real=['VB.save/load/autosave/load_user_data', 'Stochastic.save/load', 'HDF5 files', 'VB.update',
                        'all nodes'],
                  stub=['process death (objects dropped and rebuilt)', 'data source (ancestral sampler)'])
ASSUMPTIONS = ['the rebuilding script sets the annealing level itself (it is not part of a file)',
               'continuation is compared to 1e-6 relative (array memory layout may change rounding)']
MIX = dict(upd=2.5, sweep=5, obs=0.7, unobs=0.4, initv=0.4, initr=0.4, initp=0.4, gstep=0.5)
SHRINK = ['crashes', 'ops', 'pre']


def generate(seed, tier):
    sc, rng = base_scenario(seed)
    g = OpGen(sc, rng)
    n = int(rng.integers(2, 9 if tier == 'quick' else 16))
    ops = g.ops(n, MIX)
    # (an annealed Wishart may be improper)
    ann = bool(rng.random() < 0.15) and not any(x['kind'] == 'Wishart' for x in sc['spec']['nodes'])
    for o in ops:
        if o['op'] == 'sweep':
            o['repeat'] = int(rng.choice([1, 1, 2, 3, 5]))
            o['tol'] = float(rng.choice([-np.inf, 1e-5, 1e-2])) if not ann else -np.inf
    if slow(sc):
        ops = ops[:3]
        for o in ops:
            o['repeat'] = 1
    sc['auto'] = int(rng.choice([0, 0, 1, 2, 3]))
    sc['autosub'] = False
    if sc['auto'] == 0 or rng.random() < 0.6:
        for i in sorted(rng.integers(0, len(ops) + 1, size=int(rng.integers(1, 3))).tolist(), reverse=True):
            ops.insert(i, dict(op='save'))
    if ann:
        ops.insert(0, dict(op='ann', a=float(rng.choice([0.3, 0.7]))))
    sc['ops'] = ops
    sc['crashes'] = [[int(rng.integers(0, len(ops))), int(rng.integers(0, 3))]
                     for _ in range(int(rng.choice([1, 1, 2, 3])))]
    sc['pre'] = g.ops(int(rng.choice([0, 0, 1, 3])) if not slow(sc) else 0, dict(upd=1, sweep=2, obs=1, unobs=1, initv=1))
    sc['observe_first'] = bool(rng.random() < 0.6)
    sc['cb'] = int(rng.integers(0, 4))
    sc['kind'] = 'partial' if rng.random() < 0.3 else 'resume'
    names = [str(x) for x in rng.permutation(g.names)]
    sc['subset'] = names[:int(rng.integers(1, len(names) + 1))]
    sc['mode'] = str(rng.choice(['nodes_only', 'records', 'single', 'full-file']))
    return sc


def callback(sim, style):
    def cb():
        x = sim.m.moments(sim.names[-1])[0]
        v = float(np.sum(np.where(np.isfinite(x), x, 0)))
        if style == 1:
            return v
        if style == 2:
            return np.array([v, float(sim.Q.iter)])
        return None
    return cb if style else None


USER = dict(a=np.arange(3.0), n=5, s='text')


def visible(sim):
    """Everything a user can see of the run."""
    Q = sim.Q
    it = int(Q.iter)
    return dict(u=sim.snapshot(), phi=sim.params(), L=np.array(Q.L[:it]), cpu=np.array(Q.cputime[:it]),
                l={n: np.array(Q.l[sim.m.node[n]][:it]) for n in sim.names},
                iter=it, converged=bool(Q.converged),
                cb=None if Q.callback_output is None else np.array(Q.callback_output),
                obs={n: (x.copy(), m.copy()) for (n, (x, m)) in sim.obs.items()},
                dirty=set(sim.dirty), terms=sim.terms(), ann=sim.ann)


def close(a, b, tol):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return np.inf
    if a.size == 0:
        return 0.0
    same = (a == b) | (np.isnan(a) & np.isnan(b))
    fin = np.isfinite(a) & np.isfinite(b)
    if np.any(~same & ~fin):
        return np.inf
    s = 1e-9 + max(np.max(np.abs(a[fin]), initial=0), np.max(np.abs(b[fin]), initial=0))
    return float(np.max(np.abs(a[fin] - b[fin]), initial=0)) / s


def compare(ctx, kind, got, want, tol, prefix=None, cpu=True):
    def chk(what, a, b, t=tol):
        d = close(a, b, t)
        ctx.maxerr = max(ctx.maxerr, d if np.isfinite(d) else 0)
        ctx.check(d <= t, kind, lambda: '%s differs by %.3g: %s, expected %s'
                  % (what, d, np.array2string(np.asarray(a).ravel()[:6]), np.array2string(np.asarray(b).ravel()[:6])))
    ctx.check(got['iter'] == want['iter'], kind, 'iteration count %s, expected %s' % (got['iter'], want['iter']))
    ctx.check(got['converged'] == want['converged'], kind, 'converged %s, expected %s'
              % (got['converged'], want['converged']))
    for n in want['u']:
        for (i, (a, b)) in enumerate(zip(got['u'][n], want['u'][n])):
            chk('moment %d of %s' % (i, n), a, b)
    for n in want['phi']:
        for (i, (a, b)) in enumerate(zip(got['phi'][n], want['phi'][n])):
            chk('parameter %d of %s' % (i, n), a, b)
    chk('bound history', got['L'], want['L'])
    if cpu:
        chk('CPU time history', got['cpu'], want['cpu'])
    for n in want['l']:
        chk('bound history of %s' % n, got['l'][n], want['l'][n])
    ctx.check((got['cb'] is None) == (want['cb'] is None), kind, 'callback output %r, expected %r'
              % (got['cb'], want['cb']))
    if want['cb'] is not None:
        chk('callback output', got['cb'], want['cb'])
    if not want['dirty']:
        m = 1 + sum(abs(v) for v in want['terms'].values())
        for n in want['terms']:
            (x, y) = (got['terms'][n], want['terms'][n])
            d = 0.0 if x == y or (np.isnan(x) and np.isnan(y)) else abs(x - y)
            ctx.check(d <= max(tol, 1e-9) * m, kind, lambda: 'bound term of %s: %.12g, expected %.12g'
                      % (n, got['terms'][n], want['terms'][n]))


def run_op(sim, op, repeat=None):
    if op['op'] == 'save':
        return
    if op['op'] == 'sweep':
        nodes = [sim.m.node[x] for x in sim.updatable(op['names'])]
        if not nodes:
            return
        with sim.ctx.call('sweep'):
            sim.Q.update(*nodes, repeat=repeat, tol=op['tol'], verbose=False)
        for x in sim.updatable(op['names']):
            sim.dirty.discard(x)
        return
    sim.do(op)


def save(sim, path):
    with sim.ctx.call('save'):
        sim.Q.save(filename=path)


def restore_book(sim, vis):
    sim.obs = {n: (x.copy(), m.copy()) for (n, (x, m)) in vis['obs'].items()}
    sim.dirty = set(vis['dirty'])
    sim.ann = vis['ann']


def execute(sc, ctx):
    ctx.sample = dict(family=sc['spec']['family'], kind=sc['kind'], auto=sc['auto'], crashes=sc['crashes'],
                      ops=[o['op'] for o in sc['ops']])
    (resume if sc['kind'] == 'resume' else partial)(sc, ctx)


def resume(sc, ctx):
    ops = sc['ops']
    # the run that is never interrupted, one sweep at a time
    A = Sim(sc, ctx)
    A.Q.set_callback(callback(A, sc['cb']))
    seen = {}
    nsweeps = {}
    for (i, op) in enumerate(ops):
        seen[(i, 0)] = visible(A)
        if op['op'] == 'sweep':
            done = 0
            it0 = A.Q.iter
            for j in range(op['repeat']):
                run_op(A, op, 1)
                if A.Q.iter > it0 + j:
                    done += 1
                seen[(i, done)] = visible(A)
                if A.Q.converged:
                    break
            nsweeps[i] = done
        else:
            run_op(A, op)
    seen[(len(ops), 0)] = visible(A)

    path = os.path.join(ctx.workdir, 'result.hdf5')
    auto = sc['auto']

    def new(first):
        kw = dict(user_data=USER)
        if auto:
            kw.update(autosave_filename=path, autosave_iterations=auto)
        # Work done before loading must not overwrite the file to be loaded
        s = Sim(sc, ctx, observe=first or sc['observe_first'], **(kw if first else dict(user_data=USER)))
        s.Q.set_callback(callback(s, sc['cb']))
        if not first:
            for op in sc['pre']:
                if op['op'] == 'sweep':
                    op = dict(op, tol=-np.inf)
                    run_op(s, op, op.get('repeat', 1))
                else:
                    s.do(op)
            if sc['pre']:
                ctx.fault('loading engine did other work')
            if auto:
                s.Q.set_autosave(path, iterations=auto)
        return s

    B = new(True)
    last = None          # position of the last save
    i = 0                # next operation
    done = 0             # sweeps of it already done
    crashes = sorted((min(a, len(ops) - 1), b) for (a, b) in sc['crashes']) if ops else []
    steps = 0
    while True:
        steps += 1
        crash = crashes[0] if crashes and crashes[0][0] == i else None
        if i < len(ops):
            op = ops[i]
            if op['op'] == 'save':
                save(B, path)
                last = (i + 1, 0) if i + 1 <= len(ops) else None
                i += 1
            elif op['op'] == 'sweep':
                want = op['repeat'] - done
                if done and seen[(i, done)]['converged']:
                    want = 0
                if crash:
                    want = min(want, crash[1])
                it0 = int(B.Q.iter)
                if want > 0:
                    run_op(B, op, want)
                k = int(B.Q.iter) - it0
                for j in range(1, k + 1):
                    if auto and (it0 + j) % auto == 0:
                        last = (i, done + j)
                        ctx.count('autosaves')
                done += k
                if not crash:
                    ctx.check(done == nsweeps[i], 'resume-sweeps', lambda: 'operation %d made %d sweeps, uninterrupted '
                              'run %d' % (i, done, nsweeps[i]))
                    i, done = i + 1, 0
            else:
                run_op(B, op)
                i += 1
        else:
            break
        if crash:
            crashes = crashes[1:]
            if last is None:
                continue_from = None
            else:
                continue_from = last
            ctx.fault('process killed')
            del B
            B = new(False)
            if continue_from is None:
                # nothing saved yet: start over from the beginning
                B = new(True)
                i, done = 0, 0
                continue
            if sc['spec'] and any(o['op'] == 'ann' for o in ops[:continue_from[0]]):
                B.Q.set_annealing(seen[continue_from]['ann'])
            with ctx.call('load'):
                B.Q.load(filename=path)
            with ctx.call('load_user_data'):
                ud = B.Q.load_user_data(path)
            s = ud['s'].decode() if isinstance(ud['s'], bytes) else str(ud['s'])
            ctx.check(set(ud) == set(USER) and np.array_equal(ud['a'], USER['a']) and int(ud['n']) == 5
                      and s == 'text', 'user-data', 'user data read back as %r' % (ud,))
            ctx.count('loads')
            vis = visible(B)
            compare(ctx, 'restored-state', vis, seen[continue_from], 0, cpu=False)
            restore_book(B, seen[continue_from])
            ctx.event('loaded', continue_from, vis['iter'])
            ctx.state(sc['spec']['family'], auto, ops[continue_from[0] - 1]['op'] if continue_from[0] else None,
                      len(sc['crashes']), len(sc['pre']), sc['observe_first'], sc['cb'])
            i, done = continue_from
            if done == 0 and i < len(ops):
                continue
        if done == 0:
            compare(ctx, 'resumed-run', visible(B), seen[(i, 0)], 1e-6 if not A.spec.points else 5e-3, cpu=False)
        if steps > 300:
            break
    ctx.event('end', B.Q.iter)


def partial(sc, ctx):
    """Files with some of the variables, loading into other engines."""
    path = os.path.join(ctx.workdir, 'part.hdf5')
    A = Sim(sc, ctx)
    A.Q.set_callback(callback(A, sc['cb']))
    for op in sc['ops']:
        if op['op'] == 'sweep':
            run_op(A, op, op['repeat'])
        else:
            run_op(A, op)
    sub = sc['subset']
    mode = sc['mode']
    nodesA = [A.m.node[n] for n in sub]
    with ctx.call('save'):
        if mode == 'single':
            sub = sub[:1]
            nodesA[0].save(path)
        elif mode == 'full-file':
            A.Q.save(filename=path)
        else:
            A.Q.save(*(nodesA if sc['cb'] % 2 else sub), filename=path)
    va = visible(A)
    B = Sim(sc, ctx, observe=sc['observe_first'])
    B.Q.set_callback(callback(B, sc['cb']))
    for op in sc['pre']:
        if op['op'] == 'sweep':
            run_op(B, dict(op, tol=-np.inf), op.get('repeat', 1))
        else:
            B.do(op)
    vb = visible(B)
    with ctx.call('load'):
        if mode == 'single':
            B.m.node[sub[0]].load(path)
        elif mode == 'nodes_only':
            B.Q.load(*[B.m.node[n] for n in sub], filename=path, nodes_only=True)
        else:
            B.Q.load(*sub, filename=path)
    ctx.count('partial loads')
    ctx.fault('partial file')
    v = visible(B)
    want = dict(vb)
    want['u'] = {n: (va if n in sub else vb)['u'][n] for n in va['u']}
    want['phi'] = {n: (va if n in sub else vb)['phi'][n] for n in va['phi']}
    want['terms'] = {}
    want['dirty'] = {'?'}
    if mode in ('records', 'full-file'):
        for k in ('L', 'cpu', 'iter', 'converged', 'cb'):
            want[k] = va[k]
        want['l'] = {n: va['l'][n] for n in sub}
    compare(ctx, 'partial-load', v, want, 0)
    for n in sub:
        B.obs.pop(n, None)
        if n in A.obs:
            B.obs[n] = A.obs[n]
        B.dirty.discard(n)
        if n in A.dirty:
            B.dirty.add(n)
    # the merged state is a proper state: the bound is the true one and
    # inference continues
    if A.ann == 1.0:
        c02.compare(B, ctx, 'partial load')
        for n in B.names:
            B.update(n)
        with ctx.call('sweep'):
            nodes = [B.m.node[n] for n in B.updatable()]
            if nodes:
                it = int(B.Q.iter)
                B.Q.update(*nodes, repeat=2, tol=-np.inf, verbose=False)
                ctx.check(int(B.Q.iter) == it + 2, 'partial-load', 'iteration count after load')
        c02.compare(B, ctx, 'after partial load')
    ctx.state(sc['spec']['family'], mode, len(sub), len(sc['pre']), sc['observe_first'],
              sorted(o['op'] for o in sc['ops'])[:3])
    ctx.event('partial', mode, v['iter'])

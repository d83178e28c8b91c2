"""C14: annealing is consistent with itself and reversible, under level changes
at arbitrary points of a run (between single updates, inside callbacks, around
failures, crashes and reloads)."""

import json
import os
import warnings

import numpy as np

from sim.engine import Sim, OpGen, base_scenario
from sim.core import Violation
from checks import c01, c02, c10

ID = 'C14'
LEVEL = 'exploration'
LEVEL_NOTE = ('Seeded histories in which the annealing level changes at arbitrary points. At every point the bound is '
              'compared with the annealed objective of an independent reference; every update is judged by sampled '
              'competitors and the exact parameter identity; records, warnings and convergence are predicted; a twin '
              'that never heard of annealing continues from the same posteriors after the return to level one.')
RUNS = dict(quick=3000, thorough=15000)
STATE_RULE = ('distinct (family, level pattern, operations around the level change, way of changing the level, '
              'engine method) situations judged')
COMPONENTS = dict(real=['VB.set_annealing', 'VB.update', 'all nodes', 'VB.save/load'],
                  stub=['data source (ancestral sampler)', 'process death (objects dropped and rebuilt)'])
ASSUMPTIONS = ['entropy and expected log density are relative to the base measure of each distribution',
               'models with a Wishart variable are left out (an annealed Wishart may be improper), as are maximum '
               'likelihood nodes (not probability distributions)',
               'float64 rounding: 1e-7 of the sum of absolute terms']
MIX = dict(upd=5, sweep=2.5, ann=3.5, obs=0.8, unobs=0.4, initv=0.4, initr=0.4, initp=0.4, setpar=0.5, gstep=1.0,
           run=3.0, toggle=1.0, crash=0.6, cbann=0.8, cbfail=0.6, deriv=1.2)
LEVELS = [0.05, 0.1, 0.3, 0.5, 0.8, 0.95, 1.0, 1.0]
BAD = ('Wishart', 'GammaShape', 'Concentration')
SHRINK = ['ops']


def generate(seed, tier):
    for k in range(50):
        (sc, rng) = base_scenario(seed + 7919 * 1000003 * k)
        if not any(c01.inner_kind(n) in BAD for n in sc['spec']['nodes']):
            break
    g = OpGen(sc, rng)
    n = int(rng.integers(4, 10 if tier == 'quick' else 20))
    keys = list(MIX)
    w = np.array([MIX[k] for k in keys])
    ops = []
    while len(ops) < n:
        k = keys[int(rng.choice(len(keys), p=w / w.sum()))]
        if k in ('upd', 'sweep', 'obs', 'unobs', 'initv', 'initr', 'initp', 'setpar', 'gstep'):
            ops.append(g.op(k))
        elif k == 'ann':
            ops.append(dict(op='ann', a=level(rng)))
        elif k == 'toggle':
            ops.append(dict(op='toggle', a=level(rng), back=bool(rng.random() < 0.5)))
        elif k == 'deriv':
            ops.append(dict(op='deriv', n=g.pick([x for x in g.names if g.spec.is_stoch(x)])))
        elif k == 'crash':
            ops.append(dict(op='crash'))
        else:
            names = [str(x) for x in rng.permutation(g.names)]
            if rng.random() < 0.5:
                names = []
            elif rng.random() < 0.3:
                names = names[:int(rng.integers(1, len(names) + 1))]
            o = dict(op=k, names=names, repeat=int(rng.choice([1, 2, 3, 6])),
                     tol=[None, 1e-3, 0.1, -np.inf][int(rng.integers(4))])
            if k != 'run':
                o['a'] = level(rng)
                o['at'] = int(rng.integers(0, o['repeat']))
            ops.append(o)
    sc['ops'] = ops
    sc['twin'] = int(rng.integers(1, 4))
    sc['last'] = level(rng)
    return sc


def level(rng):
    if rng.random() < 0.2:
        return float(np.round(rng.uniform(0.05, 1), 3))
    return float(rng.choice(LEVELS))


def set_level(sim, ctx, a):
    with ctx.call('set_annealing'):
        sim.Q.set_annealing(a)
    sim.ann = a
    ctx.check(sim.Q.converged is False or sim.Q.converged == False, 'converged-by-level-change',      # noqa: E712
              'the run counts as converged right after changing the level')


def state(sim):
    return (sim.params(), sim.moments(), sim.terms())


def same(a, b):
    return all(np.array_equal(x, y, equal_nan=True) for n in a[0] for (x, y) in zip(a[0][n], b[0][n])) and \
        all(np.array_equal(x, y, equal_nan=True) for n in a[1] for (x, y) in zip(a[1][n], b[1][n])) and \
        all(a[2][n] == b[2][n] or (np.isnan(a[2][n]) and np.isnan(b[2][n])) for n in a[2])


class Stop(Exception):
    pass


def run(sim, ctx, o, fresh):
    """VB.update with records, warnings and convergence predicted.  `fresh`:
    the level was set (or nothing is recorded) since the last record."""
    Q = sim.Q
    nodes = [sim.m.node[n] for n in o['names']]
    k0 = int(Q.iter)
    lev = [sim.ann]
    calls = []

    def cb():
        i = len(calls)
        calls.append(lev[-1])
        if o['op'] == 'cbann' and i == o['at']:
            Q.set_annealing(o['a'])
            lev.append(o['a'])
            ctx.fault('level change inside a callback')
        if o['op'] == 'cbfail' and i == o['at']:
            ctx.fault('callback failure')
            raise Stop('callback')
    if o['op'] != 'run':
        Q.set_callback(cb)
    failed = False
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            with ctx.call('run'):
                Q.update(*nodes, repeat=o['repeat'], tol=o['tol'], verbose=False)
        except Stop:
            failed = True
        except Violation as v:
            if not isinstance(v.__cause__, Stop):
                raise
            failed = True
        w = [str(x.message) for x in w if 'ower bound decreased' in str(x.message)]
    Q.set_callback(None)
    for n in o['names'] or sim.names:
        sim.dirty.discard(n)
    k1 = int(Q.iter)
    L = np.array(Q.L[:k1])
    # which records had the level changed since the previous record?
    changed = {}
    for k in range(k0, k1):
        changed[k] = fresh if k == k0 else False
        if o['op'] == 'cbann' and k - k0 == o['at']:
            changed[k] = True
    left = False
    if o['op'] == 'cbfail' and o['at'] < o['repeat'] and failed:
        left = fresh and k1 == k0
    sim.ann = lev[-1]
    ctx.check(failed == (o['op'] == 'cbfail' and len(calls) > o['at']), 'exception-lost',
              'the failure of the callback did not reach the caller')
    if sim.dirty:
        return left
    mag = 1 + sum(abs(v) for v in sim.terms().values())
    nwarn = 0
    conv = False
    for k in range(k0, k1):
        if k > 0 and not changed[k]:
            d = L[k - 1] - L[k]
            # (the previous record may belong to another data set or to
            # something re-initialised in between)
            if k > k0:
                ctx.check(d <= 1e-7 * mag, 'bound-decreased', lambda: 'record %d: %.12g -> %.12g at level %g'
                          % (k, L[k - 1], L[k], sim.ann))
            if d > 1e-6:
                nwarn += 1
            tol = Q.tol if o['tol'] is None else o['tol']
            conv = bool((L[k] - L[k - 1]) / (0.5 * (abs(L[k]) + abs(L[k - 1]))) < tol)
            ctx.check(not conv or k == k1 - 1, 'convergence', 'the run went on after converging')
        else:
            conv = False
    ctx.check(len(w) == nwarn, 'false-alarm', lambda: '%d warnings of a decreased bound, %d expected: %s; L=%s, changed=%s'
              % (len(w), nwarn, w, L[max(0, k0 - 1):k1], changed))
    ctx.check(failed or bool(Q.converged) == conv, 'convergence', lambda: 'converged is %r, the records say %r (level %g, L=%s, changed %s)'
              % (Q.converged, conv, sim.ann, L[max(0, k0 - 1):k1], changed))
    ctx.check(failed or conv or k1 - k0 == o['repeat'], 'iterations', lambda: '%d iterations instead of %d' % (k1 - k0, o['repeat']))
    if k1 > k0 and not failed:
        t = sim.terms()
        ctx.check(abs(L[-1] - sum(t.values())) <= 1e-9 * mag, 'recorded-bound',
                  lambda: 'recorded %.12g, annealed bound is %.12g' % (L[-1], sum(t.values())))
    return left


def rebuild(sc, ctx, sim, style):
    """A new process with the same model, data and posterior."""
    new = Sim(sc, ctx, observe=False)
    for (n, (x, m)) in sim.obs.items():
        new.observe(n, x, True if np.all(m) else m)
    if style == 'file':
        p = os.path.join(ctx.workdir, 'run.h5')
        with ctx.call('save'):
            sim.Q.save(filename=p)
        with ctx.call('load'):
            new.Q.load(filename=p)
    else:
        for n in sim.names:
            if n in sim.spec.stoch and not sim.fully_observed(n):
                with ctx.call('set_parameters'):
                    new.m.node[n].set_parameters(sim.m.node[n].get_parameters())
    new.dirty = set(sim.dirty)
    return new


def execute(sc, ctx):
    sim = Sim(sc, ctx)
    rng = np.random.default_rng([sc['seed'], 14])
    ctx.sample = dict(family=sc['spec']['family'],
                      ops=[o['op'] + ':' + str(o.get('n', o.get('a', ''))) for o in sc['ops']])
    fresh = True
    F = c01.Objective(sim)
    hist = ['-', '-']
    for op in sc['ops']:
        k = op['op']
        if k == 'ann':
            set_level(sim, ctx, op['a'])
            ctx.count('ann')
            fresh = True
        elif k == 'toggle':
            # changing the level and back without updating leaves no trace
            a0 = sim.ann
            before = state(sim)
            set_level(sim, ctx, op['a'])
            if op['back']:
                c02.compare(sim, ctx, 'toggle')
            set_level(sim, ctx, a0)
            ctx.count('toggle')
            fresh = True
            ctx.check(same(state(sim), before), 'not-reversible', 'setting the level to %g and back to %g changed the model' % (op['a'], a0))
        elif k in ('run', 'cbann', 'cbfail'):
            ctx.count(k)
            if k != 'run' and op['at'] >= op['repeat']:
                continue
            fresh = run(sim, ctx, op, fresh)
        elif k == 'crash':
            if sim.dirty or sim.Q.iter == 0:
                continue
            ctx.fault('crash and reload at level %s' % ('one' if sim.ann == 1 else 'below one'))
            before = sim.terms()
            a0 = sim.ann
            sim = rebuild(sc, ctx, sim, 'file')
            set_level(sim, ctx, a0)
            fresh = True
            F = c01.Objective(sim)
            after = sim.terms()
            m = 1 + sum(abs(v) for v in before.values())
            for n in before:
                ctx.check(abs(before[n] - after[n]) <= 1e-9 * m, 'reload', lambda: 'bound term of %s after the reload: %.12g, before %.12g'
                          % (n, after[n], before[n]))
        elif k == 'upd':
            n = op['n']
            before = F() if n not in sim.dirty else None
            prev = list(sim.pool.get(n, []))
            sim.do(op)
            (L, mag) = F()
            if before is not None:
                ctx.check(L >= before[0] - 1e-8 * (1 + mag + before[1]), 'bound-decreased',
                          lambda: 'updating %s (%s) at level %g: %.12g -> %.12g'
                          % (n, sim.spec.nodes[n]['kind'], sim.ann, before[0], L))
            c01.judge(sim, ctx, n, rng, prev)
        elif k == 'sweep':
            sim.do(op)
            fresh = False
        elif k == 'deriv':
            c10.derivative(sim, op['n'], op, rng, ctx)
        elif k == 'gstep':
            gstep(sim, ctx, op, F)
        else:
            sim.do(op)
        c02.compare(sim, ctx, k)
        ctx.state(sc['spec']['family'], hist, k, sim.ann, fresh)
        ctx.event(k, sim.ann, sorted(sim.dirty))
        hist = [hist[1], k]
    # every variable once at this level, judged
    for n in sim.names:
        prev = list(sim.pool.get(n, []))
        sim.do(dict(op='upd', n=n))
        c01.judge(sim, ctx, n, rng, prev)
    c02.compare(sim, ctx, 'last')
    back(sc, ctx, sim)


def gstep(sim, ctx, op, F):
    n = op['n']
    if n in sim.dirty or sim.fully_observed(n) or not sim.spec.is_stoch(n):
        sim.do(op)
        return
    t = op['t']
    sim.do(op)
    if t == 1.0:
        # a unit natural gradient step is the update
        a = sim.m.moments(n)
        p = sim.m.params(n)
        sim.update(n)
        d = c01.max_abs(a, sim.m.moments(n))
        e = c01.max_abs(p, sim.m.params(n))
        ctx.check(max(d, e) < 1e-7, 'gradient-step', lambda: 'unit natural gradient step of %s at level %g differs from the update by %.3g'
                  % (n, sim.ann, max(d, e)))


def back(sc, ctx, sim):
    """Return to level one: from here on an ordinary run."""
    set_level(sim, ctx, sc['last'])
    order = [n for n in sim.names]
    if sc['last'] != 1.0:
        with ctx.call('run'):
            sim.Q.update(repeat=1, verbose=False)
    set_level(sim, ctx, 1.0)
    twin = rebuild(sc, ctx, sim, 'parameters')

    def cmp(where):
        (a, b) = (sim.terms(), twin.terms())
        m = 1 + sum(abs(v) for v in a.values())
        for n in a:
            ctx.check(abs(a[n] - b[n]) <= 1e-7 * m, 'not-ordinary',
                      lambda: '%s: bound term of %s %.12g, in a run that was never annealed %.12g' % (where, n, a[n], b[n]))
        for n in sim.names:
            d = c01.max_abs(sim.m.moments(n), twin.m.moments(n))
            ctx.check(d < 1e-6, 'not-ordinary', lambda: '%s: moments of %s differ by %.3g from a run that was never annealed'
                      % (where, n, d))
    cmp('back at level one')
    for i in range(sc['twin']):
        recs = []
        for s in (sim, twin):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                with ctx.call('run'):
                    s.Q.update(repeat=1, tol=-np.inf, verbose=False)
            w = [x for x in w if 'ower bound decreased' in str(x.message)]
            recs.append((float(s.Q.L[s.Q.iter - 1]), len(w), bool(s.Q.converged)))
        ctx.check(recs[0][1:] == recs[1][1:] or abs(recs[0][0]) > 1e4, 'not-ordinary', lambda: 'iteration %d after the return: (bound, warnings, converged) %s, '
                  'in a run that was never annealed %s' % (i, recs[0], recs[1]))
        cmp('%d iterations after the return' % (i + 1))
    c02.compare(sim, ctx, 'returned')

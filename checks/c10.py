"""C10: gradient-based learning is consistent with the bound and survives bad steps."""

import numpy as np

from sim import mlmodel
from sim.engine import Sim, OpGen, base_scenario, kind, maxdiff
from checks import c02
from checks.c03 import differ

ID = 'C10'
LEVEL = 'exploration'
LEVEL_NOTE = ('Unit gradient steps compared with updates, parameters written back, gradients compared with central '
              'differences of the bound, and the optimisers run from arbitrary points of a history with trial steps, '
              'collapsed updates and bounds made to fail at chosen calls, judged by the bound before and after every '
              'iteration, the number of trials, and the definition of the bound afterwards.')
RUNS = dict(quick=5200, thorough=13000)
STATE_RULE = 'distinct (family, action, method, optimised and collapsed variables, fault, outcome) cases'
COMPONENTS = dict(real=['VB.optimize, pattern_search, gradient_step, get_gradients, get_parameters, set_parameters',
                        'gradients of all distributions', 'all nodes'],
                  stub=['data source (ancestral sampler)', 'failing trial steps (injected exceptions and NaN bounds)'])
ASSUMPTIONS = ['central differences with a relative tolerance of 1e-4',
               'the optimisers accept a relative change of the bound of 1e-8 as rounding',
               'a variable which was initialised from a value has that value only as its moments, not as its parameters, '
               'until it is updated, so such variables are updated before their parameters are used']
MIX = dict(upd=6, sweep=1.5, obs=1.0, unobs=0.4, initv=0.5, initp=0.3, setpar=0.5, gstep=0.5)
SHRINK = ['ops']
ERRORS = dict(value=ValueError, linalg=np.linalg.LinAlgError, fpe=FloatingPointError, custom=RuntimeError)
MAXTRIALS = 400


class Stuck(BaseException):
    pass


def generate(seed, tier):
    rng = np.random.default_rng([seed, 1010])
    if rng.random() < 0.07:
        return generate_ml(seed, tier, rng)
    sc, rng = base_scenario(seed)
    g = OpGen(sc, rng)
    sc['ops'] = []
    n = int(rng.integers(2, 5 if tier == 'quick' else 9))
    kinds = {x['kind'] for x in sc['spec']['nodes']}
    if rng.random() < 0.15 and not kinds & {'Wishart', 'GammaShape', 'Concentration'}:
        sc['ops'].append(dict(op='ann', a=float(rng.choice([0.4, 0.7, 0.9]))))
    for i in range(n):
        sc['ops'] += g.ops(int(rng.integers(0, 5)), MIX)
        sc['ops'].append(action(g, rng, sc))
    return sc


def draw_faults(rng):
    out = []
    if rng.random() < 0.6:
        for _ in range(int(rng.integers(1, 3))):
            out.append(dict(where=str(rng.choice(['set', 'upd', 'bound', 'set'])), at=int(rng.integers(0, 12)),
                            times=int(rng.choice([1, 1, 2, 5, 30])), after=bool(rng.random() < 0.4),
                            error=str(rng.choice(sorted(ERRORS)))))
    if rng.random() < 0.08:
        out = [dict(where=str(rng.choice(['set', 'upd'])), at=int(rng.integers(0, 8)), times=1, after=False,
                    error='interrupt')]
    return out


def action(g, rng, sc):
    lat = [x for x in g.names if g.spec.is_stoch(x)]
    act = g.pick(['unit', 'unit', 'round', 'deriv', 'deriv', 'multi', 'opt', 'opt', 'opt', 'pattern', 'pattern'])
    e = dict(op='act', act=act, n=g.pick(lat), seed=int(rng.integers(1 << 30)))
    if act in ('opt', 'pattern', 'multi'):
        order = [str(x) for x in rng.permutation(lat)]
        k = int(rng.integers(1, min(4, len(order)) + 1))
        e['nodes'] = order[:k]
        e['collapsed'] = [] if act == 'multi' or rng.random() < 0.4 else order[k:k + int(rng.integers(1, 4))]
        if act == 'multi':
            e['scale'] = float(rng.choice([1.0, 0.5, 0.1]))
        e['method'] = g.pick(['gradient', 'fletcher-reeves', 'Fletcher-Reeves'])
        e['riemannian'] = bool(rng.random() < 0.7)
        e['maxiter'] = int(rng.integers(1, 6))
        e['tol'] = g.pick([None, -1.0, 1e-3])
        e['far'] = bool(rng.random() < 0.25)
        e['faults'] = draw_faults(rng)
    return e


class Faulty:
    """Counts the trial steps of an optimiser and makes some of them fail."""

    def __init__(self, node, Q, nodes, collapsed, faults, ctx):
        self.ctx = ctx
        self.count = dict(set=0, upd=0, bound=0)
        self.trials = 0
        self.run = 0            # trials in this iteration
        self.seen = 0
        self.first_failed = False
        self.faults = faults
        self.fired = []
        self.first = node[nodes[0]]
        self.undo = []
        for n in nodes:
            self.wrap(node[n], 'set_parameters', 'set')
        for n in collapsed:
            self.wrap(node[n], 'update', 'upd')
        self.wrap(Q, 'compute_lowerbound', 'bound')

    def wrap(self, obj, name, where):
        f = getattr(obj, name)

        def g(*a, **k):
            if obj is self.first and where == 'set':
                self.trials += 1
                self.run += 1
                if self.trials > MAXTRIALS:
                    raise Stuck()
            c = self.count[where]
            self.count[where] += 1
            hit = None
            for e in self.faults:
                if e['where'] == where and e['at'] <= c < e['at'] + e['times']:
                    hit = e
            if where == 'bound':
                # (bounds which are not computed right after a trial step are not trials)
                trial = self.count['set'] > self.seen
                self.seen = self.count['set']
                # (nor is the bound after giving up the shortest steps and staying)
                if not (hit and trial) or self.run > 45:
                    return f(*a, **k)
                if hit['after'] and hit['error'] != 'interrupt':
                    self.note('computing the bound fails (%s)' % hit['error'])
                    raise ERRORS[hit['error']]('injected')
                self.note('bound is NaN')
                f(*a, **k)
                return np.nan
            if hit:
                if hit['after']:
                    f(*a, **k)
                self.note('%s fails (%s%s)' % (dict(set='trial step', upd='collapsed update')[where], hit['error'],
                                               ', afterwards' if hit['after'] else ''))
                raise (KeyboardInterrupt if hit['error'] == 'interrupt' else ERRORS[hit['error']])('injected')
            return f(*a, **k)
        setattr(obj, name, g)
        self.undo.append((obj, name))

    def note(self, what):
        if self.trials <= 1:
            self.first_failed = True
        self.fired.append(what)
        self.ctx.fault(what)

    def restore(self):
        for (obj, name) in self.undo:
            delattr(obj, name)
        self.undo = []


def execute(sc, ctx):
    if sc.get('mode') == 'ml':
        return execute_ml(sc, ctx)
    sim = Sim(sc, ctx)
    ctx.sample = dict(family=sc['spec']['family'], ops=[o.get('act', o['op']) for o in sc['ops']])
    for op in sc['ops']:
        if op['op'] == 'act':
            act(sim, op, ctx)
            ctx.count(op['act'])
        else:
            sim.do(op)
        ctx.event(op['op'], op.get('act'), op.get('n'))
    ctx.event('end', '%.8g' % sum(v for v in sim.terms().values() if np.isfinite(v)))


def clean(sim, names):
    for n in names:
        if n in sim.dirty:
            sim.update(n)


def state(sim):
    return {n: [x.copy() for x in sim.m.params(n)] + [x.copy() for x in sim.m.moments(n)] for n in sim.spec.stoch}


def same(ctx, kind, a, b, what, tol=1e-9):
    (d, w) = differ(a, b)
    ctx.check(d < tol, kind, lambda: '%s: %s differs by %.3g: %s, %s' % (
        what, w[0], d, np.ravel(a[w[0]][w[1]])[:6], np.ravel(b[w[0]][w[1]])[:6]))


def conditionally_independent(sim, names):
    """Whether updating one of the variables cannot affect the update of another."""
    spec = sim.spec

    def blanket(n):
        out = set()
        for f in [n] + kids(n):
            out |= set(parents(f)) | {f}
        return out

    def parents(n):
        out = []
        for p in spec.nodes[n].get('parents', []):
            if 'ref' in p:
                out += [p['ref']] if spec.is_stoch(p['ref']) or spec.is_point(p['ref']) else parents(p['ref'])
        return out

    def kids(n):
        return [m for m in spec.stoch + spec.points if n in parents(m)]
    return all(b not in blanket(a) for a in names for b in names if a != b)


def act(sim, e, ctx):
    spec = sim.spec
    n = e['n']
    rng = np.random.default_rng([e['seed'], 5])
    if e['act'] in ('unit', 'round', 'deriv'):
        clean(sim, sim.names if e['act'] == 'deriv' else [n])
        if sim.fully_observed(n):
            return
    node = sim.m.node[n]
    if e['act'] == 'unit':
        p = node.get_parameters()
        sim.update(n)
        a = state(sim)
        with ctx.call('set_parameters'):
            node.set_parameters(p)
        with ctx.call('gradient_step'):
            sim.Q.gradient_step(node if rng.random() < 0.5 else node.name, scale=1.0)
        same(ctx, 'unit-step', a, state(sim), 'gradient step of length one on %s (%s) against its update' % (
            n, kind(spec, n)), 1e-7)
        ctx.state(spec.d['family'], 'unit', kind(spec, n))
    elif e['act'] == 'multi':
        names = [x for x in e['nodes'] if not sim.fully_observed(x)]
        clean(sim, names)
        if not names or not conditionally_independent(sim, names):
            return
        p = {x: sim.m.node[x].get_parameters() for x in names}
        with ctx.call('gradient_step'):
            sim.Q.gradient_step(*[sim.m.node[x] for x in names], scale=e['scale'])
        a = state(sim)
        for x in names:
            sim.m.node[x].set_parameters(p[x])
        for x in names:
            # one after another: a step of length t goes that part of the way to the update
            sim.update(x)
            q = sim.m.node[x].get_parameters()
            t = e['scale']
            with ctx.call('set_parameters'):
                sim.m.node[x].set_parameters([t * v + (1 - t) * w for (v, w) in zip(q, p[x])])
        same(ctx, 'joint-step', a, state(sim), 'joint gradient step of %s' % (names,), 1e-7)
        ctx.state(spec.d['family'], 'multi', sorted(names))
    elif e['act'] == 'round':
        a = state(sim)
        (t0, L0) = (sim.terms(), float(sim.Q.compute_lowerbound()))
        with ctx.call('parameters'):
            if rng.random() < 0.5:
                node.set_parameters(node.get_parameters())
            else:
                sim.Q.set_parameters(sim.Q.get_parameters(node), node)
        same(ctx, 'write-back', a, state(sim), 'writing back the parameters of %s' % n)
        t1 = sim.terms()
        m = 1 + sum(abs(v) for v in t0.values() if np.isfinite(v))
        for x in t0:
            ctx.check(t0[x] == t1[x] or abs(t0[x] - t1[x]) <= 1e-9 * m or (np.isnan(t0[x]) and np.isnan(t1[x])), 'write-back',
                      lambda: 'writing back the parameters of %s changed the bound term of %s from %.12g to %.12g' % (
                          n, x, t0[x], t1[x]))
        # the caller's copy is a copy
        p = node.get_parameters()
        for x in p:
            x += 1
        same(ctx, 'write-back', a, state(sim), 'changing the arrays read from %s' % n)
        ctx.state(spec.d['family'], 'round', kind(spec, n))
    elif e['act'] == 'deriv':
        derivative(sim, n, e, rng, ctx)
    else:
        optimise(sim, e, rng, ctx)


def not_implemented(e):
    return isinstance(e, NotImplementedError) or 'not yet implemented' in str(e)


class What:
    def __init__(self, f):
        self.f = f

    def __str__(self):
        return self.f()


def derivative(sim, n, e, rng, ctx):
    spec = sim.spec
    node = sim.m.node[n]
    if sim.dirty:
        return
    p0 = node.get_parameters()
    # a direction which stays in the parameter space
    L = sim.pool.get(n, [])
    if len(L) < 2:
        L = list(L) + [[x * 0.5 for x in p0], p0]
    (a, b) = (L[int(rng.integers(len(L)))], L[int(rng.integers(len(L)))])
    sim.ref.obs = sim.obs
    active = sim.ref.included()[n] & ~sim.obs_mask(n)
    shape = sim.shape(n)
    # (the plates of the node, possibly with unit axes)
    active = np.reshape(active, node.plates)
    w = rng.uniform(-0.5, 1, size=node.plates) * active
    d = []
    for i in range(len(p0)):
        full = np.ones(node.get_shape(i))
        wi = w.reshape(w.shape + (1,) * len(node.dims[i]))
        # d = w * (mixture of known posteriors - current)
        d.append(wi * (0.7 * a[i] + 0.3 * b[i] - p0[i]) * full)
    if not np.any(active) or not all(np.all(np.isfinite(x)) for x in d):
        return
    with ctx.call('gradient'):
        rg = node.get_riemannian_gradient()
        try:
            g = node.get_gradient(rg)
        except Exception as x:
            if not not_implemented(x):
                raise
            ctx.count('gradient not implemented for ' + kind(spec, n))
            return
        (rgs, gs) = sim.Q.get_gradients(node, euclidian=True)
    for (x, y) in zip(g, gs[0]):
        ctx.check(np.array_equal(x, y, equal_nan=True), 'gradient-differs', lambda: 'gradients of %s differ' % n)
    want = sum(float(np.sum(x * y)) for (x, y) in zip(g, d))

    def bound(h):
        with ctx.call('set_parameters'):
            node.set_parameters([x + h * y for (x, y) in zip(p0, d)])
        return sum(sim.terms().values())
    est = []
    mag = 1 + sum(abs(v) for v in sim.terms().values())
    for h in (1e-3, 5e-4, 2.5e-4):
        (u, v) = (bound(h), bound(-h))
        est.append((u - v) / (2 * h))
    with ctx.call('set_parameters'):
        node.set_parameters(p0)
    r1 = (4 * est[1] - est[0]) / 3
    r2 = (4 * est[2] - est[1]) / 3
    err = abs(r2 - r1) + 1e-11 * mag / 2.5e-4
    if not np.isfinite(r2) or err > 1e-3 * (1 + abs(r2)):
        ctx.count('derivative too rough to compare')
        return
    ctx.check(abs(want - r2) <= 1e-4 * (1 + abs(r2)) + 20 * err, 'wrong-gradient',
              lambda: 'derivative of the bound along a direction of %s (%s) is %.8g, the reported gradient gives %.8g'
              % (n, kind(spec, n), r2, want))
    ctx.count('derivatives compared')
    ctx.state(spec.d['family'], 'deriv', kind(spec, n), sim.ann, int(active.sum()))


def optimise(sim, e, rng, ctx):
    spec = sim.spec
    nodes = [x for x in e['nodes'] if not sim.fully_observed(x)]
    col = [x for x in e['collapsed'] if x not in nodes]
    if not nodes:
        return
    for x in sim.names:
        if x in sim.dirty:
            sim.update(x)
    if sim.dirty:
        # (point estimates without data)
        return
    if e['far']:
        # the optimisers start from where an earlier step left the variables
        for x in nodes:
            L = sim.pool.get(x, [])
            if L:
                sim.m.node[x].set_parameters(L[int(rng.integers(len(L)))])
    kw = {}
    if e['act'] == 'opt':
        (method, riem) = (e['method'], e['riemannian'])
        try:
            sim.Q.get_gradients(*[sim.m.node[x] for x in nodes], euclidian=True)
        except Exception as x:
            if not not_implemented(x):
                raise
            (method, riem) = ('gradient', True)
        kw = dict(method=method, riemannian=riem, maxiter=e['maxiter'], tol=e['tol'], verbose=False)
    L0 = float(sim.Q.compute_lowerbound())
    it0 = sim.Q.iter
    trials = []
    recs = []
    F = Faulty(sim.m.node, sim.Q, nodes, col, e['faults'], ctx)
    # (the initial updates of a pattern search are not trials)

    def cb():
        F.run = 0
        trials.append(F.trials)
        recs.append(sum(v for v in sim.terms().values()))
    sim.Q.set_callback(cb)
    sim.Q.print = lambda *a: None
    names = [sim.m.node[x] if rng.random() < 0.5 else x for x in nodes]
    cnames = [sim.m.node[x] for x in col]
    interrupted = False
    what = What(lambda: '%s of %s collapsing %s (%s), faults %s' % (e['act'], nodes, col, kw, F.fired[:6]))
    try:
        if e['act'] == 'opt':
            sim.Q.optimize(*names, collapsed=cnames, **kw)
        elif col or rng.random() < 0.5:
            sim.Q.pattern_search(*names, collapsed=cnames, maxiter=int(rng.integers(1, 5)))
        else:
            sim.Q.pattern_search(*names)
    except Stuck:
        F.restore()
        ctx.fail('no-termination', '%s: more than %d trial steps in %d iterations' % (what, MAXTRIALS, len(recs) + 1))
    except KeyboardInterrupt:
        interrupted = True
    except Exception as x:
        # failures outside of the trial steps may reach the caller
        if not F.fired:
            with ctx.call(str(what)):
                raise
        # (in a pattern search surely only the first two steps are trials)
        fatal = e['act'] == 'pattern' and (any(f.startswith('collapsed update') for f in F.fired) or
                                           any(f['where'] == 'set' and f['at'] + f['times'] > 2 for f in e['faults'])) \
            or max([f['times'] for f in e['faults']], default=0) >= 5
        if not fatal:
            F.restore()
            ctx.fail('no-recovery', '%s: a failing trial step raised %r to the caller' % (what, x))
        interrupted = True
    finally:
        F.restore()
        sim.Q.set_callback(None)
    asked = any(f['error'] == 'interrupt' for f in e['faults'])
    hit = any('interrupt' in f for f in F.fired)
    ctx.check(not (asked and hit) or interrupted, 'interrupt-swallowed',
              lambda: '%s: a keyboard interrupt during a trial step did not reach the caller' % what)
    mag = 1 + sum(abs(v) for v in sim.terms().values() if np.isfinite(v))
    prev = L0
    for (i, L) in enumerate(recs):
        # (a pattern search whose start was made to fail does not know the bound there)
        ctx.check(L >= prev - 2e-8 * (abs(prev) + mag) or e['act'] == 'pattern' and F.first_failed, 'bound-decreases',
                  lambda: '%s: iteration %d changed the bound from %.12g to %.12g' % (what, i + 1, prev, L))
        ctx.check(abs(L - float(sim.Q.L[it0 + i])) <= 1e-9 * mag, 'record', lambda: '%s: iteration %d recorded %.12g, was %.12g'
                  % (what, i + 1, sim.Q.L[it0 + i], L))
        prev = L
    if not interrupted:
        ctx.check(sim.Q.iter - it0 == len(recs) and 1 <= len(recs) <= (e['maxiter'] if e['act'] == 'opt' else 1), 'iterations',
                  lambda: '%s: %d iterations recorded, %d callbacks, limit %d' % (what, sim.Q.iter - it0, len(recs), e['maxiter']))
        last = float(sim.Q.compute_lowerbound())
        ctx.check(abs(last - prev) <= 1e-8 * mag, 'record', lambda: '%s: bound is %.12g after it, recorded %.12g' % (what, last, prev))
        # parameters and moments agree
        a = state(sim)
        for x in nodes + col:
            if not sim.fully_observed(x) and spec.is_stoch(x):
                with ctx.call('set_parameters'):
                    sim.m.node[x].set_parameters(sim.m.node[x].get_parameters())
        same(ctx, 'inconsistent', a, state(sim), what)
        # collapsed variables are up to date
        upd = [x for x in col if not sim.fully_observed(x)]
        fresh = upd if len(upd) <= 1 or conditionally_independent(sim, upd) else upd[-1:]
        if not F.fired or e['act'] == 'opt' and not any(f.startswith('collapsed') for f in F.fired):
            stay = e['act'] == 'opt' and F.trials > 45
            for x in fresh:
                if stay or spec.is_point(x):
                    continue
                a = state(sim)
                sim.update(x)
                same(ctx, 'collapsed-outdated', a, state(sim), '%s: updating %s afterwards' % (what, x), 1e-6)
    else:
        ctx.count('interrupted optimisations')
        for x in nodes + col:
            sim.update(x)
    if sim.ann == 1.0:
        c02.compare(sim, ctx, e['act'])
    for x in nodes:
        sim.remember(x)
    ctx.state(spec.d['family'], e['act'], kw.get('method'), kw.get('riemannian'), nodes, col, F.fired[:3], interrupted, len(recs))


# -- point parameters inside functions of the user ------------------------------

def generate_ml(seed, tier, rng):
    (cfg, theta) = mlmodel.generate(rng)
    ops = [dict(op='upd', n=str(rng.choice(['X', 'mu', 'tau'])))]
    for i in range(int(rng.integers(2, 7 if tier == 'quick' else 14))):
        act = str(rng.choice(['upd', 'sweep', 'deriv', 'deriv', 'round', 'step', 'opt', 'opt', 'save', 'set']))
        e = dict(op=act, seed=int(rng.integers(1 << 30)))
        if act == 'upd':
            e['n'] = str(rng.choice(['X', 'mu', 'tau']))
        if act == 'opt':
            e.update(maxiter=int(rng.integers(1, 6)), tol=[None, -1.0, 1e-3][int(rng.integers(3))],
                     method=str(rng.choice(['gradient', 'fletcher-reeves'])), riemannian=bool(rng.random() < 0.5),
                     faults=draw_faults(rng))
        ops.append(e)
    return dict(mode='ml', seed=seed, cfg=cfg, theta=theta, ops=ops)


def execute_ml(sc, ctx):
    import os
    import tempfile
    cfg = sc['cfg']
    ctx.sample = dict(family='ml', cfg={k: cfg[k] for k in ('f', 'inv', 'D', 'N', 'P', 'mu', 'latent', 'reg')},
                      ops=[o['op'] for o in sc['ops']])
    with ctx.call('constructor'):
        m = mlmodel.MLModel(cfg, sc['theta'])
    for n in m.vb:
        with ctx.call('update'):
            m.Q.update(n, verbose=False)
    what = 'ML model %s' % ctx.sample['cfg']
    late = []

    def bound():
        with ctx.call('compute_lowerbound'):
            return float(m.Q.compute_lowerbound())

    def mag():
        return 1 + sum(abs(float(v.lower_bound_contribution())) for v in m.node.values())

    def ill():
        K = np.asarray(m.value(m.get()))
        return not np.all(np.isfinite(K)) or np.max(np.linalg.cond(K)) > 1e8

    def twin(order):
        """The same updates in a model with a constant matrix."""
        if ill():
            return
        t = mlmodel.MLModel(cfg, m.get(), K=m.value(m.get()))
        for n in m.vb:
            t.node[n].set_parameters(m.node[n].get_parameters())
        for n in order:
            m.Q.update(n, verbose=False)
            t.Q.update(n, verbose=False)
        (a, b) = (m.state(), t.state())
        same(ctx, 'ml-twin', {n: a[n] for n in b}, b, '%s after updates of %s against constant precision' % (what, order), 1e-7)
        (u, v) = (bound() + m.regularization(), float(t.Q.compute_lowerbound()))
        ctx.check(abs(u - v) <= 1e-9 * mag(), 'ml-bound', lambda: '%s: bound with the penalty removed is %.12g, with constant '
                  'precision it is %.12g' % (what, u, v))

    for e in sc['ops']:
        if ill():
            # (a step went where rounding errors rule)
            ctx.count('ml ill-conditioned')
            break
        rng = np.random.default_rng([e.get('seed', 0), 7])
        order = [str(x) for x in rng.permutation(m.vb)]
        ctx.event(e['op'], '%.9g' % bound())
        ctx.count('ml ' + e['op'])
        if e['op'] == 'upd':
            twin([e['n']] if e['n'] in m.vb else [])
        elif e['op'] == 'sweep':
            twin(order)
        elif e['op'] == 'set':
            for n in m.theta:
                with ctx.call('set_parameters'):
                    m.Q.set_parameters([[rng.normal(size=np.shape(sc['theta'][n]))]], n)
            twin(order)
        elif e['op'] == 'round':
            (a, L) = (m.state(), bound())
            for n in m.theta:
                with ctx.call('set_parameters'):
                    m.Q.set_parameters(m.Q.get_parameters(n), n)
            same(ctx, 'write-back', a, m.state(), what)
            ctx.check(L == bound(), 'write-back', lambda: what)
        elif e['op'] == 'deriv':
            deriv_ml(m, ctx, rng, bound, mag, what, late)
        elif e['op'] == 'step':
            t0 = m.get()
            with ctx.call('gradient_step'):
                g = m.Q.get_gradients(*m.theta, euclidian=False)
                m.Q.gradient_step(*m.theta, scale=0.125)
            t1 = m.get()
            for (i, n) in enumerate(m.theta):
                d = maxdiff([t1[n]], [t0[n] + 0.125 * np.asarray(g[i][0])])
                ctx.check(d < 1e-10 * (1 + np.max(np.abs(t1[n]))), 'ml-step', lambda: '%s: gradient step of %s off by %g' % (what, n, d))
            twin(order)
        elif e['op'] == 'opt':
            optimise_ml(m, e, ctx, rng, order, bound, mag, what)
            twin(order)
        elif e['op'] == 'save':
            with tempfile.TemporaryDirectory() as d:
                f = os.path.join(d, 'x.hdf5')
                other = mlmodel.MLModel(cfg, {n: np.asarray(v) + 0.3 for (n, v) in sc['theta'].items()})
                with ctx.call('save and load'):
                    m.Q.save(filename=f)
                    other.Q.load(filename=f)
            same(ctx, 'ml-save', m.state(), other.state(), what + ' loaded from a file', 1e-300)
            ctx.check(float(other.Q.compute_lowerbound()) == bound(), 'ml-save', lambda: what + ': bound after loading')
            m = other
        ctx.state('ml', cfg['f'], cfg['inv'], bool(cfg['P']), cfg['mu'], cfg['latent'], bool(cfg['reg']), e['op'])
    if not ill():
        ctx.event('end', '%.9g' % bound())
    ctx.check(not late, 'gradient-of-regularization', lambda: late[0])


def deriv_ml(m, ctx, rng, bound, mag, what, late):
    with ctx.call('get_gradients'):
        (rg, g) = m.Q.get_gradients(*m.theta, euclidian=True)
    for (i, n) in enumerate(m.theta):
        t0 = m.get()[n]
        d = rng.normal(size=np.shape(t0))
        want = float(np.sum(np.asarray(g[i][0]) * d))
        est = []
        for h in (1e-3, 5e-4, 2.5e-4):
            L = []
            for s in (1, -1):
                m.node[n].set_parameters([t0 + s * h * d])
                L.append(bound())
            est.append((L[0] - L[1]) / (2 * h))
        m.node[n].set_parameters([t0])
        r1 = (4 * est[1] - est[0]) / 3
        r2 = (4 * est[2] - est[1]) / 3
        err = abs(r2 - r1) + 1e-11 * mag() / 2.5e-4
        if not np.isfinite(r2) or err > 1e-3 * (1 + abs(r2)):
            ctx.count('derivative too rough to compare')
            continue
        text = What(lambda: 'derivative of the bound along a direction of the maximum likelihood parameter %s is %.8g, the '
                    'reported gradient gives %.8g: %s' % (n, r2, want, what))
        tol = 1e-4 * (1 + abs(r2)) + 20 * err
        penalty = float(np.sum(t0 * d)) if n in m.cfg['reg'] else 0.0
        ctx.check(min(abs(want - r2), abs(want - penalty - r2)) <= tol, 'wrong-gradient', lambda: str(text))
        if abs(want - r2) > tol and not late:
            # (nothing else is wrong, so look at the rest of the run first)
            late.append(str(text) + ', which lacks the derivative of the regularization')
        ctx.count('derivatives compared')


def optimise_ml(m, e, ctx, rng, order, bound, mag, what):
    col = order if rng.random() < 0.7 else order[:1]
    for n in col:
        m.Q.update(n, verbose=False)
    nodes = [str(x) for x in rng.permutation(m.theta)][:int(rng.integers(1, len(m.theta) + 1))]
    F = Faulty(m.node, m.Q, nodes, col, e['faults'], ctx)
    (L0, it0) = (bound(), m.Q.iter)
    recs = []

    def cb():
        F.run = 0
        recs.append(sum(float(v.lower_bound_contribution()) for v in m.Q.model))
    m.Q.set_callback(cb)
    interrupted = False
    what = What(lambda: 'optimising %s collapsing %s (%s), faults %s: ' % (nodes, col, e, F.fired[:6]) + str(what_))
    what_ = ctx.sample['cfg']
    try:
        m.Q.optimize(*nodes, collapsed=col, method=e['method'], riemannian=e['riemannian'], maxiter=e['maxiter'],
                     tol=e['tol'], verbose=False)
    except Stuck:
        F.restore()
        ctx.fail('no-termination', '%s: more than %d trial steps' % (what, MAXTRIALS))
    except KeyboardInterrupt:
        interrupted = True
    except Exception as x:
        if not F.fired:
            with ctx.call(str(what)):
                raise
        if max([f['times'] for f in e['faults']], default=0) < 5:
            F.restore()
            ctx.fail('no-recovery', '%s: a failing trial step raised %r to the caller' % (what, x))
        interrupted = True
    finally:
        F.restore()
        m.Q.set_callback(None)
    prev = L0
    for L in recs:
        ctx.check(L >= prev - 2e-8 * (abs(prev) + mag()), 'bound-decreases',
                  lambda: '%s: the bound changed from %.12g to %.12g' % (what, prev, L))
        prev = L
    if not interrupted:
        ctx.check(m.Q.iter - it0 == len(recs) and 1 <= len(recs) <= e['maxiter'], 'iterations',
                  lambda: '%s: %d iterations recorded, %d callbacks' % (what, m.Q.iter - it0, len(recs)))
        last = bound()
        ctx.check(abs(last - prev) <= 1e-8 * mag(), 'record', lambda: '%s: bound is %.12g after it, recorded %.12g' % (what, last, prev))

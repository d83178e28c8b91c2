"""C01: every update reaches the optimum of the bound, whatever the schedule."""

import numpy as np

from sim.engine import Sim, OpGen, base_scenario, maxdiff
from sim.ref import Inconsistent

ID = 'C01'
LEVEL = 'exploration'
LEVEL_NOTE = "Seeded exploration of whole models under random schedules of updates, observations, re-initialisations and direct parameter changes. Each update is judged by the engine's own bound (never lower, no sampled competitor posterior better, repeating changes nothing) and by the exact linear identity between the natural parameters and the reference expected log joint."
RUNS = dict(quick=3200, thorough=16000)
STATE_RULE = ('distinct (model family, node kind, kinds of the preceding two operations, observation '
              'pattern, what was dirty) situations in which an update was judged')
COMPONENTS = dict(real=['all nodes', 'message passing', 'masks', 'VB.update'],
                  stub=['data source (ancestral sampler)', 'numpy global RNG seeded by the scenario'])
ASSUMPTIONS = ['float64 rounding: 1e-8 of the sum of absolute bound terms',
               'optimality is judged against sampled competitors and against the linear identity every '
               'optimal natural parameter satisfies; Concentration is a 1e-5 fixed point']
MIX = dict(upd=8, sweep=1.5, obs=1.2, unobs=0.6, initv=0.8, initr=0.8, initp=0.4, setpar=1.0, gstep=0.6,
           query=0.3)
ADDITIVE = {'GaussianARD', 'Gaussian', 'Categorical', 'CMC', 'GMC', 'SGMC', 'VGMC', 'Bernoulli',
            'Binomial', 'Multinomial', 'Poisson'}


def generate(seed, tier):
    sc, rng = base_scenario(seed)
    g = OpGen(sc, rng)
    sc['ops'] = g.ops(int(rng.integers(3, 9 if tier == 'quick' else 16)), MIX)
    return sc


def inner_kind(n):
    return n['inner']['kind'] if n['kind'] == 'Mixture' else n['kind']


def competitors(sim, n, p, rng, pool):
    """Other proper posteriors (natural parameters) of the same variable."""
    k = inner_kind(sim.spec.nodes[n])
    out = []
    ndims = [len(d) for d in sim.m.node[n].dims]

    def platewise(i, x):
        """Random factor per plate element of parameter i."""
        sh = np.shape(x)
        sh = sh[:len(sh) - ndims[i]]
        return rng.standard_normal(sh).reshape(sh + (1,) * ndims[i])
    h = float(rng.choice([1e-3, 1e-2, 0.1]))
    # towards (and away from) other proper posteriors
    for o in pool[-4:]:
        t = float(rng.choice([1e-3, 0.03, 0.5]))
        out.append(('towards', [x + t * (y - x) for (x, y) in zip(p, o)]))
    # scale everything
    for s in (h, -h):
        out.append(('scale', [x * (1 + s) for x in p]))
    # move the first parameter
    if k in ADDITIVE:
        d = rng.standard_normal(np.shape(p[0]))
        scale = np.max(np.abs(p[0]), initial=0.0) + 1.0
        if k in ('Categorical', 'CMC', 'Bernoulli', 'Binomial', 'Multinomial', 'Poisson'):
            scale = 1.0
        for s in (h, -h):
            q = [x.copy() for x in p]
            q[0] = np.where(np.isfinite(q[0]), q[0] + s * scale * d, q[0])
            out.append(('shift', q))
    else:
        r = rng.uniform(-1, 1, np.shape(p[0]))
        if k == 'Wishart':
            D = np.shape(p[0])[-1]
            r = rng.uniform(-1, 1, np.shape(p[0])[:-1])
            for s in (h, -h):
                f = 1 + s * r
                out.append(('precision', [p[0] * f[..., :, None] * f[..., None, :], p[1]]))
        elif k != 'GaussianGamma':
            for s in (h, -h):
                out.append(('first', [p[0] * (1 + s * r)] + [x.copy() for x in p[1:]]))
    if k in ('GMC', 'SGMC', 'VGMC'):
        r = rng.uniform(-1, 1, np.shape(p[1])[:-1])
        for s in (h, -h):
            f = 1 + s * r
            q = [x.copy() for x in p]
            q[1] = p[1] * f[..., :, None] * f[..., None, :]
            q[2] = p[2] * f[..., :-1, :, None] * f[..., 1:, None, :]
            out.append(('precision', q))
    if k in ('GaussianARD', 'Gaussian'):
        D = ndims[0]
        sh = np.shape(p[1])
        base = sh[:len(sh) - D] if D else sh
        r = rng.uniform(-1, 1, base)
        for s in (h, -h):
            f = 1 + s * r
            if D:
                a = f.reshape(base + (1,) * D)
                b = f.reshape(base[:len(base) - D] + (1,) * D + base[len(base) - D:])
                out.append(('precision', [p[0], p[1] * a * b]))
            else:
                out.append(('precision', [p[0], p[1] * f]))
    if k in ('Gamma', 'Wishart', 'GaussianGamma') or len(p) > 1 and k == 'GaussianGamma':
        for s in (h, -h):
            q = [x.copy() for x in p]
            q[-1] = q[-1] * (1 + s)
            out.append(('last', q))
    return out


def base(kind, u):
    """Expected log base measure (up to a constant) of the usual natural
    parameterisation: linear in the reported moments."""
    if kind == 'Gamma':
        return -float(np.sum(u[1]))
    if kind in ('Dirichlet', 'Beta'):
        return -float(np.sum(u[0]))
    if kind == 'Wishart':
        return -0.5 * (np.shape(u[0])[-1] + 1) * float(np.sum(u[1]))
    if kind == 'GaussianGamma':
        return (0.5 * np.shape(u[0])[-1] - 1) * float(np.sum(u[3]))
    return 0.0


class Objective:
    """The bound as a function of one variable's posterior: what the engine
    reports, with the reference standing in for terms of dirty variables."""

    def __init__(self, sim):
        self.sim = sim

    def __call__(self):
        sim = self.sim
        t = sim.terms()
        v = m = 0.0
        for n in sim.names:
            if n in sim.dirty:
                continue
            v += t[n]
            m += abs(t[n])
            if sim.spec.is_point(n):
                sim.ref.q[n] = sim.m.moments(n)
                m += sim.ref.point_term(n)[1]
        if sim.dirty:
            sim.sync()
            inc = sim.ref.included()
            for n in sim.dirty:
                (a, b) = sim.ref.elogp(n, inc)
                v += a
                m += b
        return v, m


def judge(sim, ctx, n, rng, prev):
    """The update of n just happened: is it optimal?"""
    spec = sim.spec
    node = sim.m.node[n]
    point = spec.is_point(n)
    F = Objective(sim)
    (L, mag) = F()
    tol = 1e-8 * (1 + mag)
    kind = spec.nodes[n]['kind']
    ctx.check(np.isfinite(L), 'bound-not-finite', lambda: 'after updating %s (%s): %r' % (n, kind, L))
    before = sim.m.moments(n)
    # once more changes nothing
    sim.update(n)
    again = sim.m.moments(n)
    d = max_abs(before, again)
    ctx.check(d < (1e-3 if point else 1e-7), 'not-idempotent',
              lambda: 'updating %s (%s) again changed its moments by %.3g' % (n, kind, d))
    (L2, _) = F()
    ctx.check(abs(L2 - L) <= tol, 'not-idempotent',
              lambda: 'updating %s (%s) again changed the bound by %.3g' % (n, kind, L2 - L))
    if sim.fully_observed(n):
        return
    if point:
        return judge_point(sim, ctx, n, F, L, tol, rng)
    p = node.get_parameters()
    cands = competitors(sim, n, p, rng, prev)
    pick = rng.permutation(len(cands))[:5]
    ident = set(pick[:1]) if rng.random() < 0.5 else set()
    e0 = None
    kin = inner_kind(spec.nodes[n])
    u0 = sim.m.moments(n)
    for i in pick:
        (what, q) = cands[i]
        if not all(np.all(np.isfinite(x) | ~np.isfinite(y)) for (x, y) in zip(q, p)):
            continue
        try:
            node.set_parameters(q)
        except Exception:
            ctx.count('competitor rejected')
            continue
        u1 = sim.m.moments(n)
        if not all(np.all(np.isfinite(x)) for x in u1):
            ctx.count('competitor rejected')
            continue
        (Lc, mc) = F()
        ctx.count('competitor ' + what)
        ctx.check(not Lc > L + tol + 1e-8 * mc, 'not-optimal',
                  lambda: 'after updating %s (%s) a %s competitor has bound %.12g > %.12g'
                  % (n, kind, what, Lc, L), node=n)
        if i in ident and kin not in ('Multinomial', 'Binomial', 'Poisson', 'Bernoulli'):
            # <phi*, u' - u*> = E'[log joint] - E*[log joint], exactly
            try:
                sim.sync()
                inc = sim.ref.included()
                (e1, m1) = sim.ref.local_energy(n, inc)
                if e0 is None:
                    node.set_parameters(p)
                    sim.sync()
                    (e0, m0) = sim.ref.local_energy(n, inc)
                lhs = sim.ann * (e1 - e0) / sim.ref.weight(n) - sim.ann * (base(kin, u1) - base(kin, u0))
                rhs = size = 0.0
                for (a, b, ph) in zip(u1, u0, sim.m.params(n)):
                    ph = np.where(a != b, ph, 0)
                    rhs += float(np.sum(ph * (a - b)))
                    size += float(np.sum(np.abs(ph * a)) + np.sum(np.abs(ph * b)))
                err = abs(lhs - rhs) / (1 + m0 + m1 + size)
                ctx.maxerr = max(ctx.maxerr, err)
                ctx.check(err < 1e-8, 'parameter-identity',
                          lambda: 'natural parameters of %s (%s) are not those of the expected log joint: '
                          'change %.12g, parameters say %.12g' % (n, kind, lhs, rhs), node=n)
            except Inconsistent as e:
                ctx.fail('impossible-posterior', str(e))
    node.set_parameters(p)
    d = max_abs(sim.m.moments(n), again)
    ctx.check(d < 1e-9, 'set-get-parameters',
              lambda: 'writing back the parameters of %s (%s) changed its moments by %.3g' % (n, kind, d))


def judge_point(sim, ctx, n, F, L, tol, rng):
    node = sim.m.node[n]
    u = sim.m.moments(n)[0]
    h = 3e-3 * rng.choice([1, 10])
    for s in (h, -h):
        x = np.array(u) * (1 + s * rng.uniform(0.2, 1, np.shape(u)))
        sim.m.init_value(n, x)
        (Lc, _) = F()
        ctx.count('competitor point')
        ctx.check(not Lc > L + tol, 'not-optimal', lambda: 'point estimate of %s: %.12g > %.12g' % (n, Lc, L))
    sim.update(n)


def max_abs(a, b):
    w = 0.0
    for (x, y) in zip(a, b):
        scale = np.max(np.abs(x), initial=0) + 1e-12
        d = np.abs(np.asarray(x) - np.asarray(y))
        if np.any(~np.isfinite(d)):
            d = np.where((x == y) | (np.isnan(x) & np.isnan(y)), 0, np.where(np.isfinite(d), d, np.inf))
        w = max(w, float(np.max(d, initial=0)) / scale)
    return w


def execute(sc, ctx):
    sim = Sim(sc, ctx)
    rng = np.random.default_rng([sc['seed'], 99])
    hist = ['-', '-']
    ctx.sample = dict(family=sc['spec']['family'], ops=[o['op'] + ':' + str(o.get('n', '')) for o in sc['ops']])
    ops = list(sc['ops']) + [dict(op='upd', n=n) for n in sim.names]
    F = Objective(sim)
    for op in ops:
        if op['op'] == 'upd':
            n = op['n']
            was = n in sim.dirty
            before = None
            if not was:
                before = F()
            prev = list(sim.pool.get(n, []))
            if not sim.updatable([n]):
                continue
            frozen = sim.m.moments(n) if sim.fully_observed(n) else None
            dirty = sorted(sim.dirty)
            sim.do(op)
            (L, mag) = F()
            if before is not None:
                ctx.check(L >= before[0] - 1e-8 * (1 + mag + before[1]), 'bound-decreased',
                          lambda: 'updating %s (%s): %.12g -> %.12g' % (n, sim.spec.nodes[n]['kind'], before[0], L))
            if frozen is not None:
                ctx.check(max_abs(frozen, sim.m.moments(n)) == 0, 'observed-changed', 'update changed observed ' + n)
            judge(sim, ctx, n, rng, prev)
            ctx.state(sc['spec']['family'], sim.spec.nodes[n]['kind'], hist, sorted(sim.obs),
                      int(sim.obs_mask(n).sum()), dirty)
            ctx.event(op['op'], n, '%.9g' % L)
        elif op['op'] == 'sweep':
            before = F() if not sim.dirty else None
            sim.do(op)
            after = F()
            if before is not None:
                ctx.check(after[0] >= before[0] - 1e-8 * (1 + after[1] + before[1]), 'bound-decreased',
                          lambda: 'sweep %s: %.12g -> %.12g' % (op['names'], before[0], after[0]))
            ctx.event('sweep', '%.9g' % after[0])
        else:
            sim.do(op)
            ctx.event(op['op'], op.get('n'))
        hist = [hist[1], op['op']]

"""C03: the result of an update does not depend on message arrival order, link
creation order, the variable's own old posterior, history, or the order of
updates of variables that share no factor."""

import json

import numpy as np

from sim.engine import Sim, OpGen, base_scenario, kind, NO_INITV, NO_RANDOM
from sim.dsl import Spec

ID = 'C03'
LEVEL = 'exploration'
LEVEL_NOTE = ('Metamorphic simulation: the same history is run on twin models that differ only in what must not '
              'matter (order in which nodes, links and observations were created, extra children created and '
              'deleted, own previous posterior, way the state was reached, order of commuting updates), and all '
              'posteriors and bounds are compared. Agreement is up to rounding amplified by conditioning (1e-6 '
              'relative).')
RUNS = dict(quick=8000, thorough=14000)
STATE_RULE = 'distinct (family, twin kind, node kind, last operations, observation pattern) comparisons'
COMPONENTS = dict(real=['all nodes', 'message passing', 'masks', 'VB.update', 'Node.delete'],
                  stub=['data source (ancestral sampler)', 'numpy global RNG seeded by the scenario'])
ASSUMPTIONS = ['1e-6 relative tolerance on moments (rounding amplified by conditioning)']
MIX = dict(upd=8, sweep=1.5, obs=1.0, unobs=0.5, initv=0.6, initr=0.6, initp=0.4, setpar=0.8, gstep=0.5)
TWINS = ['links', 'own', 'history', 'commute', 'ghost']
SHRINK = ['ops']


def topological(d, rng):
    """Random topological order of the spec's nodes."""
    left = [n for n in d['nodes']]
    done = set()
    out = []
    while left:
        ok = [n for n in left if all(p.get('ref') in done or 'ref' not in p for p in n.get('parents', []))]
        n = ok[int(rng.integers(len(ok)))]
        left.remove(n)
        done.add(n['name'])
        out.append(n)
    return dict(d, nodes=out)


def generate(seed, tier):
    sc, rng = base_scenario(seed)
    g = OpGen(sc, rng)
    sc['ops'] = g.ops(int(rng.integers(1, 7 if tier == 'quick' else 12)), MIX)
    sc['twin'] = g.pick(TWINS)
    sc['tseed'] = int(rng.integers(1 << 30))
    c = [n for n in g.latent] or g.names
    sc['target'] = g.pick(c)
    sc['target2'] = g.pick(c)
    sc['value'] = g.value(sc['target']) if kind(g.spec, sc['target']) not in NO_INITV else None
    return sc


def differ(a, b):
    """Largest relative difference of two snapshots and where."""
    worst = (0.0, None)
    for n in a:
        for (i, (x, y)) in enumerate(zip(a[n], b[n])):
            fin = np.isfinite(x) & np.isfinite(y)
            same = (x == y) | (np.isnan(x) & np.isnan(y))
            if np.any(~fin & ~same):
                return (np.inf, (n, i))
            s = 1e-9 + max(np.max(np.abs(x[fin]), initial=0), np.max(np.abs(y[fin]), initial=0))
            d = float(np.max(np.abs(x[fin] - y[fin]), initial=0)) / s
            if d > worst[0]:
                worst = (d, (n, i))
    return worst


def same(ctx, what, A, B, sc, tol=1e-6):
    (d, where) = differ(A.snapshot(), B.snapshot())
    ctx.maxerr = max(ctx.maxerr, d if np.isfinite(d) else 0)
    ctx.check(d < tol, what, lambda: 'posterior of %s differs by %.3g (moment %d)' % (where[0], d, where[1]))
    if not A.dirty and not B.dirty:
        ta, tb = A.terms(), B.terms()
        for n in ta:
            m = sum(abs(v) for v in ta.values())
            ctx.check(abs(ta[n] - tb[n]) <= tol * (1 + m), what,
                      lambda: 'bound term of %s differs: %.12g, %.12g' % (n, ta[n], tb[n]))


def execute(sc, ctx):
    rng = np.random.default_rng([sc['tseed'], 5])
    twin = sc['twin']
    A = Sim(sc, ctx)
    n = sc['target']
    ctx.sample = dict(family=sc['spec']['family'], twin=twin, target=n, ops=[o['op'] for o in sc['ops']])
    point = lambda x: A.spec.is_point(x)
    tolp = 5e-3 if A.spec.points else 1e-6
    sc2 = dict(sc)
    if twin == 'links':
        sc2['spec'] = topological(sc['spec'], rng)
        keys = [str(k) for k in rng.permutation(list(sc['data']))]
        sc2['data'] = {k: sc['data'][k] for k in keys}
    B = Sim(sc2, ctx)
    if twin == 'ghost':
        # children which come and go leave nothing behind
        ghosts(A, B, rng, ctx)
    for op in sc['ops']:
        A.do(op)
        if twin != 'history':
            B.do(op)
        if twin in ('links', 'ghost'):
            same(ctx, 'order-dependent' if twin == 'links' else 'ghost-child', A, B, sc, tolp)
        ctx.event(op['op'], op.get('n'))
    k = kind(A.spec, n)
    if not A.updatable([n]):
        return
    if twin == 'own':
        # another own posterior before the update
        how = int(rng.integers(4))
        node = B.m.node[n]
        if how == 0 and sc['value'] is not None:
            B.do(dict(op='initv', n=n, x=sc['value']))
        elif how == 1 and k not in NO_RANDOM:
            B.do(dict(op='initr', n=n, seed=int(rng.integers(1 << 30))))
        elif B.spec.is_stoch(n) and not B.fully_observed(n):
            B.do(dict(op='initp', n=n))
            if how == 2 and len(B.pool.get(n, [])):
                B.do(dict(op='setpar', n=n, t=0.3, k=int(rng.integers(1000))))
        A.update(n)
        B.update(n)
        ctx.count('own posterior replaced')
        same(ctx, 'own-posterior-matters', A, B, sc, 2e-3 if point(n) else tolp)
    elif twin == 'commute':
        m = sc['target2']
        if m == n or not independent(A, n, m):
            return
        A.update(n)
        A.update(m)
        B.update(m)
        B.update(n)
        ctx.count('commuting pair')
        same(ctx, 'independent-updates-do-not-commute', A, B, sc, tolp)
    elif twin == 'history':
        # the same state reached without any history
        if A.dirty or any(not A.finite_params(x) and not A.fully_observed(x) for x in A.spec.stoch):
            for x in A.names:
                A.update(x)
        for x in A.names:
            if x in A.obs and A.fully_observed(x):
                B.observe(x, A.obs[x][0], True)
                continue
            if x in A.obs:
                B.observe(x, A.obs[x][0], A.obs[x][1].tolist())
            elif x in B.obs:
                B.unobserve(x)
            if A.spec.is_point(x):
                B.m.init_value(x, A.m.moments(x)[0])
            else:
                with ctx.call('set_parameters'):
                    B.m.node[x].set_parameters(A.m.node[x].get_parameters())
            B.dirty.discard(x)
        ctx.count('state transplanted')
        same(ctx, 'history-matters', A, B, sc, tolp)
        A.update(n)
        B.update(n)
        same(ctx, 'history-matters', A, B, sc, 2e-3 if A.spec.points else tolp)
    ctx.state(sc['spec']['family'], twin, k, [o['op'] for o in sc['ops'][-2:]], sorted(A.obs),
              int(A.obs_mask(n).sum()))
    ctx.event('end', '%.8g' % sum(v for v in A.terms().values() if np.isfinite(v)))


def independent(sim, a, b):
    """No factor contains both variables."""
    ref = sim.ref
    fa = set(ref.factor_children(a)) | {a}
    fb = set(ref.factor_children(b)) | {b}
    return not (fa & fb)


def ghosts(A, B, rng, ctx):
    from bayespy.nodes import GaussianARD, Gamma, Categorical
    for n in B.spec.stoch:
        if rng.random() < 0.5:
            node = B.m.node[n]
            k = kind(B.spec, n)
            with ctx.call('create and delete a child'):
                if k == 'GaussianARD' and not B.spec.nodes[n].get('dim'):
                    g = GaussianARD(node, 1.0, name='ghost')
                elif k == 'Gamma':
                    g = Gamma(2.0, node, name='ghost')
                elif k == 'Dirichlet':
                    g = Categorical(node, name='ghost')
                else:
                    continue
                if rng.random() < 0.5:
                    g.observe(g.random())
                    node.update()
                    g.unobserve()
                g.delete()
                node.initialize_from_prior()
                A.m.init_prior(n)
            ctx.count('ghost child')

"""C08: observed values stay as given; missing values and unobserved
descendants have no influence."""

import json

import numpy as np

from sim.dsl import Spec, Plated, Unrolled
from sim.engine import Sim, OpGen, base_scenario, kind, tolist
from checks.c03 import differ

ID = 'C08'
LEVEL = 'exploration'
LEVEL_NOTE = ('Twin simulations of the same history: one with NaN, infinities or other values stored in the missing '
              'elements, one in which the missing elements do not exist at all, one with additional unobserved '
              'descendants; plus, after every operation, the observed elements compared with the values given.')
RUNS = dict(quick=4500, thorough=15000)
STATE_RULE = 'distinct (family, twin kind, missing pattern, placeholder, operations) comparisons'
COMPONENTS = dict(real=['all nodes', 'masks', 'message passing', 'VB'], stub=['data source (ancestral sampler)'])
ASSUMPTIONS = ['a placeholder outside the support of a discrete distribution may be rejected with an error',
               '1e-6 relative tolerance between twins with different array layouts']
MIX = dict(upd=6, sweep=2, obs=2.5, unobs=0.7, initv=0.8, initr=0.5, initp=0.4, setpar=0.5, gstep=0.5, query=0.5)
DROPMIX = dict(upd=6, sweep=2, initv=0.8, initp=0.4, obs=1.0)
TWINS = ['junk', 'junk', 'drop', 'ghost']
REAL = {'GaussianARD', 'Gaussian', 'GMC', 'SGMC', 'VGMC'}
SHRINK = ['ops']


def generate(seed, tier):
    sc, rng = base_scenario(seed, masks=0.9)
    g = OpGen(sc, rng)
    sc['twin'] = g.pick(TWINS)
    if sc['twin'] == 'drop' and any(n.get('setmult') for n in sc['spec']['nodes']):
        # separate nodes per element do not have the plate to count repeatedly
        sc['twin'] = 'junk'
    n = int(rng.integers(2, 9 if tier == 'quick' else 16))
    if sc['twin'] == 'drop':
        leaves = [o for o in sc['spec']['obs'] if g.spec.leaf(o)]
        ops = g.ops(n, DROPMIX)
        out = []
        for o in ops:
            if o['op'] == 'obs':
                # the missing elements stay the same ones
                if o['n'] in leaves:
                    o['mask'] = sc['data'][o['n']]['mask']
                out.append(o)
            elif o.get('n') in leaves and o['op'] in ('initv',):
                continue
            else:
                out.append(o)
        sc['ops'] = out
        sc['leaves'] = leaves
    else:
        sc['ops'] = g.ops(n, MIX)
    sc['junk'] = int(rng.integers(1 << 30))
    sc['style'] = g.pick(['nan', 'inf', '-inf', 'huge', 'other', 'mixed'])
    sc['other'] = {o['n']: g.value(o['n']) for o in sc['ops'] if o['op'] == 'obs'}
    for o in sc['spec']['obs']:
        sc['other'][o] = g.value(o)
    return sc


def placeholder(sc, spec, n, x, mask, rng):
    """x with something else stored in its missing elements."""
    if mask is True:
        return x
    m = np.array(mask, dtype=bool)
    k = kind(spec, n)
    if k == 'Mixture':
        k = spec.nodes[n]['inner']['kind']
    x = np.array(x)
    other = np.array(sc['other'][n])
    style = sc['style']
    if k in REAL or k == 'Gamma':
        x = x.astype(float)
        bad = dict(nan=np.nan, inf=np.inf, huge=1e300, other=None, mixed=None)
        bad['-inf'] = -np.inf if k in REAL else 0.0
        if style == 'mixed':
            v = rng.choice([np.nan, np.inf, bad['-inf'], 1e150, 0.0], size=x.shape)
        elif style == 'other':
            v = np.broadcast_to(other, x.shape)
        else:
            v = np.full(x.shape, bad[style])
    else:
        v = np.broadcast_to(other, x.shape)
    sel = m.reshape(m.shape + (1,) * (x.ndim - m.ndim))
    return np.where(sel, x, v)


def narrow(mask, rng):
    """The same mask in its broadcasted form."""
    if mask is True:
        return mask
    m = np.array(mask, dtype=bool)
    for ax in range(m.ndim):
        if m.shape[ax] > 1 and rng.random() < 0.7:
            first = np.take(m, [0], axis=ax)
            if np.all(m == first):
                m = first
    return m.tolist()


def junk_observe(sc, spec, rng):
    def f(n, x, mask):
        return tolist(placeholder(sc, spec, n, x, mask, rng)), mask
    return f


def kept(sim, ctx):
    """Every observed element has the value given."""
    for (n, (x, m)) in sim.obs.items():
        if not np.any(m):
            continue
        u = sim.m.moments(n)
        for idx in zip(*np.nonzero(m)) if m.ndim else [()]:
            idx = tuple(int(i) for i in idx)
            if sim.layout != 'plated' and np.isnan(u[0][idx]).any() and not np.isnan(np.asarray(x[idx], float)).any():
                continue
            want = sim.ref.from_data(n, x[idx])
            w0 = first(sim, n, want)
            got = u[0][idx]
            ok = np.shape(w0) == np.shape(got) and np.all(np.abs(np.asarray(got) - w0) <= 1e-9 * (1 + np.abs(w0)))
            ctx.check(ok, 'observed-value-changed', lambda: 'observed element %s of %s is %s, given was %s'
                      % (idx, n, got, w0))


def first(sim, n, v):
    """First moment of a fixed value, in the layout of the node."""
    spec = sim.spec
    k = kind(spec, n)
    inner = spec.nodes[n]['inner'] if k == 'Mixture' else spec.nodes[n]
    k = inner['kind']
    if k == 'Categorical':
        K = sim.m.node[n].dims[0][0] if sim.layout == 'plated' else sim.m.parts(n)[0].dims[0][0]
        out = np.zeros(K)
        out[int(np.asarray(v).ravel()[0])] = 1
        return out
    if k in ('Dirichlet', 'Beta'):
        v = np.asarray(v, dtype=float)
        return v
    return np.asarray(v, dtype=float)


def execute(sc, ctx):
    twin = sc['twin']
    rng = np.random.default_rng([sc['junk'], 11])
    spec = Spec(json.loads(json.dumps(sc['spec'])))
    A = Sim(sc, ctx)
    ctx.sample = dict(family=sc['spec']['family'], twin=twin, style=sc['style'], ops=[o['op'] for o in sc['ops']])
    ghosts = []
    change = lambda n, x, mask: (x, mask)
    if twin == 'junk':
        change = junk_observe(sc, spec, rng)
        sc2 = dict(sc, data={})
        for (n, d) in sc['data'].items():
            (x, mask) = change(n, d['x'], d['mask'])
            sc2['data'][n] = dict(x=x, mask=narrow(mask, rng))
            if mask is not True:
                ctx.fault('placeholder ' + sc['style'], int(np.sum(~np.array(mask, dtype=bool))))
        B = Sim(sc2, ctx)
    elif twin == 'drop':
        drop = {}
        for n in sc['leaves']:
            mask = sc['data'][n]['mask']
            if mask is True:
                continue
            U = [a for a in spec.nodes[n]['axes'] if not spec.sticky(a)]
            m = np.array(mask, dtype=bool)
            fixed = tuple(i for (i, a) in enumerate(spec.nodes[n]['axes']) if spec.sticky(a))
            gone = ~np.any(m, axis=fixed) if fixed else ~m
            drop[n] = set(tuple(int(i) for i in ix) for ix in zip(*np.nonzero(gone))) if gone.ndim else set()
            if len(drop[n]) == gone.size:
                drop[n].discard(min(drop[n]) if drop[n] else None)
            ctx.fault('missing elements that do not exist', len(drop[n]))
        B = Sim(sc, ctx, layout='unrolled', model=lambda s, bp: Unrolled(s, bp, drop=drop))
    else:
        B = Sim(sc, ctx)
        ghosts = ghost(B, rng, ctx)
    tolp = 5e-3 if A.spec.points else 1e-6
    check(ctx, A, B, tolp, twin, spec)
    for (i, op) in enumerate(sc['ops']):
        if op['op'] == 'obs' and twin == 'drop' and op['n'] not in sc['leaves'] and False:
            continue
        A.do(op)
        op2 = dict(op)
        if op['op'] == 'obs':
            (op2['x'], op2['mask']) = change(op['n'], op['x'], op['mask'])
            if twin == 'junk':
                op2['mask'] = narrow(op2['mask'], rng)
        B.do(op2)
        if twin == 'ghost' and ghosts:
            for _ in range(int(rng.integers(0, 3))):
                with ctx.call('ghost update'):
                    ghosts[int(rng.integers(len(ghosts)))].update()
        check(ctx, A, B, tolp, twin, spec)
        ctx.event(op['op'], op.get('n'))
    if not A.spec.points:
        forget(sc, ctx, A)
    ctx.state(sc['spec']['family'], twin, sc['style'], {n: int(A.obs_mask(n).sum()) for n in sorted(A.obs)},
              [o['op'] for o in sc['ops'][-3:]])
    ctx.event('end', '%.8g' % sum(v for v in A.terms().values() if np.isfinite(v)))


def forget(sc, ctx, A):
    """Data that were withdrawn or replaced leave no trace: a model which has only ever had the current data and posteriors
    goes on in the same way."""
    for n in sorted(A.dirty):
        A.update(n)
    data = {n: dict(x=tolist(x), mask=tolist(m)) for (n, (x, m)) in A.obs.items() if np.any(m)}
    C = Sim(dict(sc, data=data), ctx)
    for n in C.names:
        if not C.fully_observed(n):
            with ctx.call('set_parameters'):
                C.m.node[n].set_parameters(A.m.node[n].get_parameters())
    for n in [None] + A.names + A.names[::-1]:
        if n is not None:
            A.update(n)
            C.update(n)
        (a, c) = (A.snapshot(), C.snapshot())
        (d, where) = differ(a, c)
        ctx.check(d < 1e-6, 'old-data-has-influence', lambda: 'posterior of %s differs by %.3g (moment %d) from that of a '
                  'model with the same data but another history: %s, %s' % (
                      where[0], d, where[1], np.ravel(a[where[0]][where[1]])[:6], np.ravel(c[where[0]][where[1]])[:6]))
        (ta, tc) = (A.terms(), C.terms())
        m = 1 + sum(abs(v) for v in ta.values())
        for x in ta:
            ctx.check(ta[x] == tc[x] or abs(ta[x] - tc[x]) <= 1e-6 * m, 'old-data-has-influence',
                      lambda: 'bound term of %s is %.12g, with another history %.12g' % (x, ta[x], tc[x]))
    ctx.count('histories forgotten')


def check(ctx, A, B, tol, twin, spec):
    kept(A, ctx)
    if twin == 'junk':
        kept(B, ctx)
    (a, b) = (A.snapshot(), B.snapshot())
    if twin == 'drop':
        for n in b:
            for i in range(len(b[n])):
                a[n][i] = np.where(np.isnan(b[n][i]), np.nan, a[n][i])
    (d, where) = differ(a, b)
    ctx.maxerr = max(ctx.maxerr, d if np.isfinite(d) else 0)
    ctx.check(d < tol, 'missing-has-influence:' + twin, lambda: 'posterior of %s differs by %.3g (moment %d): %s, %s' % (
        where[0], d, where[1], np.ravel(a[where[0]][where[1]])[:6], np.ravel(b[where[0]][where[1]])[:6]))
    (ta, tb) = (A.terms(), B.terms())
    if not A.dirty and not B.dirty:
        m = 1 + sum(abs(v) for v in ta.values())
        for n in ta:
            ok = ta[n] == tb[n] or abs(ta[n] - tb[n]) <= tol * m
            ctx.check(ok, 'missing-has-influence:' + twin, lambda: 'bound term of %s is %.12g, without %.12g' % (n, tb[n], ta[n]))


def ghost(B, rng, ctx):
    """Unobserved descendants of the model's variables."""
    import bayespy.nodes as bp
    out = []
    for n in B.spec.stoch:
        if rng.random() < 0.35:
            continue
        node = B.m.node[n]
        k = kind(B.spec, n)
        if k == 'Mixture':
            k = B.spec.nodes[n]['inner']['kind']
        if 'nd' in B.spec.nodes[n]:
            k = 'GaussianARD'
        extra = (int(rng.integers(1, 4)),) if rng.random() < 0.4 else ()
        nm = 'ghost_' + n
        with ctx.call('create a child'):
            if k == 'GaussianARD':
                dim = B.spec.sizes(B.spec.nodes[n].get('dim', []))
                if len(dim) == 0:
                    g = bp.GaussianARD(node, 2.0, plates=extra + node.plates, name=nm)
                elif len(dim) == 1 and rng.random() < 0.5:
                    g = bp.GaussianARD(bp.SumMultiply('i,i', node, np.ones(dim)), 2.0, name=nm)
                else:
                    g = bp.GaussianARD(node, 2.0, shape=dim, plates=extra + node.plates, name=nm)
                h = bp.GaussianARD(g, 1.0, name=nm + '2', **(dict(shape=dim) if g.dims[0] else {})) \
                    if rng.random() < 0.3 and g.dims[0] == dim else None
            elif k == 'Gaussian':
                D = node.dims[0][0]
                g = bp.Gaussian(node, np.identity(D), plates=extra + node.plates, name=nm)
                h = None
            elif k == 'Gamma':
                g = bp.GaussianARD(0.5, node, plates=extra + node.plates, name=nm) if rng.random() < 0.5 else \
                    bp.Gamma(2.0, node, plates=extra + node.plates, name=nm)
                h = bp.Poisson(g, name=nm + '2') if isinstance(g, bp.Gamma) and rng.random() < 0.5 else None
            elif k == 'Wishart':
                g = bp.Gaussian(np.zeros(node.dims[0][0]), node, plates=extra + node.plates, name=nm)
                h = None
            elif k == 'Dirichlet':
                g = bp.Categorical(node, plates=extra + node.plates, name=nm)
                h = bp.Mixture(g, bp.GaussianARD, np.arange(float(node.dims[0][0])), 1.0, name=nm + '2') \
                    if rng.random() < 0.5 else None
            elif k == 'Beta':
                g = bp.Bernoulli(node, plates=extra + node.plates, name=nm)
                h = None
            elif k == 'Categorical':
                K = node.dims[0][0]
                g = bp.Mixture(node, bp.GaussianARD, np.arange(float(K)), np.ones(K), plates=extra + node.plates, name=nm)
                h = None
            else:
                continue
        out.append(g)
        if h is not None:
            out.append(h)
        if rng.random() < 0.4:
            # "observed" with every element missing
            t = out[-1]
            with ctx.call('observe nothing'):
                np.random.seed(int(rng.integers(1 << 30)))
                x = t.random()
                t.observe(x, mask=np.zeros(t.plates, dtype=bool))
            ctx.fault('observed with everything missing')
        elif rng.random() < 0.4:
            t = out[-1]
            with ctx.call('observe and unobserve'):
                np.random.seed(int(rng.integers(1 << 30)))
                t.observe(t.random())
                t.unobserve()
            ctx.fault('withdrawn observation')
        ctx.fault('unobserved descendant')
    return out

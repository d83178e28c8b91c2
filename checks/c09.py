"""C09: plates are exactly replication."""

import json

import numpy as np

from sim import zoo
from sim.dsl import Spec, Unrolled
from sim.engine import Sim, OpGen, base_scenario, kind, tolist
from checks import c02
from checks.c03 import differ

ID = 'C09'
LEVEL = 'exploration'
LEVEL_NOTE = ('The same schedule is run on a model with plates and on the same model written out with one node per '
              'element (wholly or along some axes only, elements updated in any order), on a model with plate multipliers '
              'and one with the data repeated, and on every mini-batch model and the full one.')
RUNS = dict(quick=7000, thorough=14000)
STATE_RULE = 'distinct (family, twin kind, axes, multiplier or batch size, operations) comparisons'
COMPONENTS = dict(real=['all nodes', 'plates, broadcasting, slicing, take, concatenate, gate', 'plate multipliers', 'VB'],
                  stub=['data source (ancestral sampler)'])
ASSUMPTIONS = ['1e-6 relative tolerance (different array layouts)',
               'batches partition the data into equally sized, equally likely parts']
MIX = dict(upd=7, sweep=2, obs=1.5, unobs=0.5, initv=1.0, initp=0.5)
MMIX = dict(MIX, gstep=1.0, setpar=0.5)
TWINS = ['unroll', 'unroll', 'mult', 'batch', 'fraction']
SHRINK = ['ops']


def generate(seed, tier):
    sc, rng = base_scenario(seed, mult=0)
    g = OpGen(sc, rng)
    twin = g.pick(TWINS)
    if twin != 'unroll' and not zoo.mult_axes(sc['spec']):
        twin = 'unroll'
    sc['twin'] = twin
    n = int(rng.integers(1, 8 if tier == 'quick' else 14))
    sc['ops'] = g.ops(n, MIX if twin == 'unroll' else MMIX)
    sc['tseed'] = int(rng.integers(1 << 30))
    if twin == 'unroll':
        free = [a for (a, v) in sc['spec']['axes'].items() if not v.get('sticky')]
        # (both sides of a slice are written out, or neither)
        groups = [{n[k] for k in ('axis', 'axis_in', 'axis_out') if k in n} | set(n.get('parts', []))
                  | set(n.get('axes_out', [])) | {a for e in n.get('index', []) for a in [e[0]] + e[3:]}
                  | (set(n.get('ones', [])) if n['kind'] in ('take', 'getitem') else set())
                  for n in sc['spec']['nodes']]
        sc['keep'] = [a for a in free if rng.random() < 0.35 and not any(a in x for x in groups)]
    else:
        sc['axis'] = g.pick(zoo.mult_axes(sc['spec']))
        sc['m'] = int(rng.integers(2, 5)) if twin == 'mult' else float(np.round(rng.uniform(0.3, 7), 2))
        sc['where'] = g.pick(['all', 'roots'])
        if twin == 'batch':
            # data for a longer axis
            s = json.loads(json.dumps(sc['spec']))
            (b, nb) = (s['axes'][sc['axis']]['size'], int(rng.integers(2, 4)))
            sc['batch'] = [b, nb]
            rep = np.random.default_rng([sc['tseed'], 1])
            sc['full'] = resize(s, sc['axis'], b, nb, rep)
            g2 = OpGen(dict(sc, spec=sc['full']), rng)
            sc['fulldata'] = {}
            vals = g2.ref.sample(rng)
            for o in s['obs']:
                sh = g2.spec.sizes(g2.spec.nodes[o]['axes'])
                mask = True if rng.random() < 0.5 else (rng.random(sh) < 0.7).tolist()
                sc['fulldata'][o] = dict(x=tolist(vals[o]), mask=mask)
            sc['order'] = [str(x) for x in rng.permutation(g.names)]
    return sc


def map_axis(d, axis, f, size):
    """Apply f(array, position of the axis) to every constant along the axis."""
    d = json.loads(json.dumps(d))
    d['axes'][axis]['size'] = size

    def const(p):
        if 'const' in p and axis in p.get('axes', []):
            p['const'] = tolist(f(np.array(p['const']), p['axes'].index(axis)))
    for n in d['nodes']:
        for p in n.get('parents', []):
            const(p)
        for t in [n, n.get('inner', {})]:
            if axis in t.get('trials_axes', []):
                t['trials'] = tolist(f(np.array(t['trials']), t['trials_axes'].index(axis)))
    return d


def resize(d, axis, b, nb, rng):
    """The model with nb times as long an axis, with new constants."""
    def f(x, ax):
        # (shuffled copies, so that the batches differ)
        return np.concatenate([np.take(x, rng.permutation(b), axis=ax) for _ in range(nb)], axis=ax)
    return map_axis(d, axis, f, b * nb)


def tile(spec, n, x, axis, m):
    ax = spec.nodes[n]['axes']
    if axis not in ax:
        return x
    return tolist(np.concatenate([np.array(x)] * m, axis=ax.index(axis)))


def execute(sc, ctx):
    ctx.sample = dict(family=sc['spec']['family'], twin=sc['twin'], axis=sc.get('axis'), m=sc.get('m'),
                      ops=[o['op'] for o in sc['ops']])
    dict(unroll=unroll, mult=mult, fraction=fraction, batch=batch)[sc['twin']](sc, ctx)


def compare(ctx, what, a, b, ta, tb, dirty, tol):
    (d, where) = differ(a, b)
    ctx.maxerr = max(ctx.maxerr, d if np.isfinite(d) else 0)
    ctx.check(d < tol, what, lambda: 'posterior of %s differs by %.3g (moment %d): %s, %s' % (
        where[0], d, where[1], np.ravel(a[where[0]][where[1]])[:6], np.ravel(b[where[0]][where[1]])[:6]))
    if not dirty:
        m = 1 + sum(abs(v) for v in ta.values())
        for n in ta:
            ctx.check(ta[n] == tb[n] or abs(ta[n] - tb[n]) <= tol * m, what,
                      lambda: 'bound term of %s is %.12g, %.12g' % (n, ta[n], tb[n]))


def unroll(sc, ctx):
    rng = np.random.default_rng([sc['tseed'], 2])
    A = Sim(sc, ctx)
    keep = sc['keep']
    B = Sim(sc, ctx, layout='unrolled', model=lambda s, bp: Shuffled(s, bp, keep=keep, rng=rng))
    tol = 5e-3 if A.spec.points else 1e-6
    compare(ctx, 'plates-differ', A.snapshot(), B.snapshot(), A.terms(), B.terms(), A.dirty | B.dirty, tol)
    for op in sc['ops']:
        A.do(op)
        B.do(op)
        ctx.event(op['op'], op.get('n'))
        compare(ctx, 'plates-differ', A.snapshot(), B.snapshot(), A.terms(), B.terms(), A.dirty | B.dirty, tol)
    ctx.count('elements unrolled', len(B.m.node))
    ctx.state(sc['spec']['family'], 'unroll', sorted(keep), [o['op'] for o in sc['ops'][-3:]], sc['spec']['axes'])
    ctx.event('end', '%.8g' % sum(v for v in A.terms().values() if np.isfinite(v)))


class Shuffled(Unrolled):
    """Elements of a variable are updated in any order."""

    def __init__(self, *a, rng=None, **kw):
        self.rng = rng
        super().__init__(*a, **kw)

    def update(self, name):
        ps = self.parts(name)
        for i in self.rng.permutation(len(ps)):
            ps[i].update()


def mult(sc, ctx):
    axis, m = sc['axis'], sc['m']
    d1 = zoo.with_mult(sc['spec'], axis, m, sc['where'])
    size = sc['spec']['axes'][axis]['size']
    d2 = map_axis(sc['spec'], axis, lambda x, ax: np.concatenate([x] * m, axis=ax), size * m)
    s0 = Spec(json.loads(json.dumps(sc['spec'])))
    A = Sim(dict(sc, spec=d1), ctx)
    data2 = {n: dict(x=tile(s0, n, d['x'], axis, m),
                     mask=True if d['mask'] is True else tile(s0, n, d['mask'], axis, m)) for (n, d) in sc['data'].items()}
    B = Sim(dict(sc, spec=d2, data=data2), ctx)
    tol = 5e-3 if A.spec.points else 1e-6

    def cmp():
        (a, b) = (A.snapshot(), B.snapshot())
        for n in b:
            ax = s0.nodes[n]['axes']
            if axis in ax:
                i = ax.index(axis)
                for c in range(m):
                    part = [np.take(x, range(c * size, (c + 1) * size), axis=i) for x in b[n]]
                    (e, _) = differ({n: a[n]}, {n: part})
                    ctx.check(e < tol, 'multiplier-differs', lambda: 'posterior of %s differs by %.3g from that of copy %d '
                              'of the repeated data' % (n, e, c))
                b[n] = [np.take(x, range(size), axis=i) for x in b[n]]
        compare(ctx, 'multiplier-differs', a, b, A.terms(), B.terms(), A.dirty | B.dirty, tol)
    cmp()
    for op in sc['ops']:
        op2 = dict(op)
        n = op.get('n')
        if 'x' in op:
            op2['x'] = tile(s0, n, op['x'], axis, m)
        if op.get('mask') not in (None, True):
            op2['mask'] = tile(s0, n, op['mask'], axis, m)
        A.do(op)
        B.do(op2)
        ctx.event(op['op'], op.get('n'))
        cmp()
    ctx.count('multiplier twins')
    ctx.state(sc['spec']['family'], 'mult', axis, m, sc['where'], [o['op'] for o in sc['ops'][-3:]])
    ctx.event('end', '%.8g' % sum(v for v in A.terms().values() if np.isfinite(v)))


def fraction(sc, ctx):
    """Any multiplier: the bound is the weighted one."""
    d1 = zoo.with_mult(sc['spec'], sc['axis'], sc['m'], sc['where'])
    A = Sim(dict(sc, spec=d1), ctx)
    for op in sc['ops']:
        A.do(op)
        ctx.event(op['op'], op.get('n'))
        c02.compare(A, ctx, op['op'])
        if op['op'] == 'upd' and op['n'] not in A.dirty and not A.dirty:
            # updates climb the weighted bound
            L0 = sum(A.terms().values())
            for x in A.updatable():
                if A.spec.is_point(x):
                    continue
                A.update(x)
                L1 = sum(A.terms().values())
                ctx.check(L1 >= L0 - 1e-7 * (1 + abs(L0)), 'multiplied-bound-decreases',
                          lambda: 'update of %s changed the bound by %g' % (x, L1 - L0))
                L0 = L1
    ctx.count('fractional multipliers')
    ctx.state(sc['spec']['family'], 'fraction', sc['axis'], sc['where'], [o['op'] for o in sc['ops'][-3:]])
    ctx.event('end', '%.8g' % sum(v for v in A.terms().values() if np.isfinite(v)))


def batch(sc, ctx):
    """The natural gradient of the full data is the average of the batches'."""
    axis = sc['axis']
    (b, nb) = sc['batch']
    dfull = sc['full']
    spec = Spec(json.loads(json.dumps(dfull)))
    F = Sim(dict(sc, spec=dfull, data=sc['fulldata']), ctx)
    names = [n for n in sc['order'] if n in F.names]
    if F.spec.points:
        return
    for n in names:
        F.update(n)
    local = [n for n in names if axis in spec.nodes[n]['axes']]
    glob = [n for n in names if n not in local and not F.fully_observed(n)]
    if not glob:
        return

    def cut(n, x, k):
        ax = spec.nodes[n]['axes']
        return np.take(np.array(x), range(k * b, (k + 1) * b), axis=ax.index(axis)) if axis in ax else np.array(x)
    batches = []
    for k in range(nb):
        dk = map_axis(dfull, axis, lambda x, ax: np.take(x, range(k * b, (k + 1) * b), axis=ax), b)
        dk = zoo.with_mult(dk, axis, nb, sc['where'])
        data = {n: dict(x=tolist(cut(n, d['x'], k)), mask=True if d['mask'] is True else tolist(cut(n, d['mask'], k)))
                for (n, d) in sc['fulldata'].items()}
        S = Sim(dict(sc, spec=dk, data=data), ctx)
        for n in S.names:
            if not S.fully_observed(n):
                p = F.m.params(n)
                with ctx.call('set_parameters'):
                    S.m.node[n].set_parameters(reshape(S, n, [cut(n, x, k) for x in p]))
        batches.append(S)
    for S in batches + [F]:
        S.ref.obs = S.obs
    inc = F.ref.included()
    for S in batches:
        i2 = S.ref.included()
        if any(axis not in spec.nodes[n]['axes'] and np.any(inc[n] != i2[n]) for n in inc):
            # a batch without any data for some elements of a global variable ignores their terms
            ctx.count('batches without data')
            return
    for r in range(2):
        # local variables first
        for n in local:
            F.update(n)
            for S in batches:
                S.update(n)
        for n in glob:
            with ctx.call('gradient'):
                g = F.m.node[n].get_riemannian_gradient()
                gs = [S.m.node[n].get_riemannian_gradient() for S in batches]
            (p0, p1) = (F.m.node[n].get_parameters(), batches[0].m.node[n].get_parameters())
            for i in range(len(g)):
                full = np.broadcast_to(g[i] + 0 * p0[i], F.m.node[n].get_shape(i))
                mean = np.broadcast_to(sum(x[i] for x in gs) / nb + 0 * p1[i], full.shape)
                fin = np.isfinite(full)
                s = 1 + np.max(np.abs(full[fin]), initial=0) + np.max(np.abs(np.where(np.isfinite(p0[i]), p0[i], 0)), initial=0)
                e = np.max(np.abs((full - mean)[fin]), initial=0) / s
                ctx.maxerr = max(ctx.maxerr, float(e) if np.isfinite(e) else 0)
                ctx.check(e < 1e-6, 'biased-gradient', lambda: 'gradient %d of %s: full %s, mean of %d batches %s'
                          % (i, n, np.ravel(full)[:5], nb, np.ravel(mean)[:5]))
        # bound of the full data is the mean of the batches' bounds
        if not F.dirty:
            L = sum(F.terms().values())
            Ls = sum(sum(S.terms().values()) for S in batches) / nb
            ctx.check(abs(L - Ls) <= 1e-6 * (1 + abs(L)), 'biased-bound', lambda: 'bound %.12g, mean of the batches %.12g'
                      % (L, Ls))
        # one stochastic step, the same in all
        t = 0.3
        for n in glob:
            p = F.m.node[n].get_parameters()
            with ctx.call('gradient step'):
                F.m.node[n].set_parameters([x + t * y for (x, y) in zip(p, F.m.node[n].get_riemannian_gradient())])
            for S in batches:
                with ctx.call('set_parameters'):
                    S.m.node[n].set_parameters(reshape(S, n, F.m.params(n)))
        ctx.event('round', r)
    ctx.count('mini-batches', nb)
    ctx.state(sc['spec']['family'], 'batch', axis, b, nb, sc['where'], sorted(sc['fulldata']))


def reshape(S, n, p):
    """Parameters with the unit plates of the node."""
    node = S.m.node[n]
    return [x.reshape(node.get_shape(i)) for (i, x) in enumerate(p)]

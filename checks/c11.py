"""C11: parameter-expansion rotations never harm inference."""

import warnings

import numpy as np

from sim import zoo
from sim.engine import Sim, OpGen, base_scenario, kind
from sim.zoo import B, ref
from checks import c02
from checks.c03 import differ

ID = 'C11'
LEVEL = 'exploration'
LEVEL_NOTE = ('Rotations (optimised, or by given matrices) at arbitrary points of running schedules on factor-analysis '
              'and state-space models with missing data, with the cost function made to fail at chosen evaluations; '
              'judged by the bound before and after, the quantities which a rotation preserves, the definition of the '
              'bound in the state it leaves behind, and re-deriving the moments from the parameters.')
RUNS = dict(quick=3000, thorough=14000)
STATE_RULE = 'distinct (family, structure of the rotated blocks, action, iterations, missing data pattern, fault) cases'
COMPONENTS = dict(real=['RotationOptimizer, RotateGaussian, RotateGaussianARD, RotateMultiple, RotateGaussianMarkovChain',
                        'rotate methods of the Gaussian nodes', 'all nodes', 'VB'],
                  stub=['data source (ancestral sampler)', 'failing evaluations of the rotation cost (injected exceptions)'])
ASSUMPTIONS = ['rotated variables and their precisions are not observed and were updated at least once',
               'rotated chains have unit innovation noise (documented requirement)',
               'rotations at annealing level one']
MIX = dict(upd=5, sweep=2, obs=1.0, unobs=0.3, setpar=0.3, gstep=0.3)
SHRINK = ['ops']


def precision(b, name, plates, dim, kwargs):
    """Precision of an ARD variable: constant or a gamma variable of some shape."""
    if b.coin(0.3):
        return (b.cpos(plates, dim), None)
    # (the precisions are aligned with the last plates and dimensions)
    full = list(plates) + list(dim)
    k = len(dim) if b.coin(0.5) else b.int(0, len(full))
    ax = full[len(full) - k:]
    kw = {}
    if 'ones' in kwargs and any(a in ax for a in plates):
        kw['ones'] = kwargs['ones']
    if b.coin(0.7):
        pars = [b.cpos([], lo=0.5), b.cpos(ax, lo=0.5)]
    else:
        k = b.int(0, len(ax))
        b.node(name + '_b', 'Gamma', ax[k:], [b.cpos(lo=0.5), b.cpos(lo=0.5)], **kw)
        pars = [b.cpos([], lo=0.5), ref(name + '_b')]
    b.node(name, 'Gamma', ax, pars, **kw)
    return (ref(name), name)


def mean(b, name, plates, dim, kwargs):
    if b.coin(0.4):
        return dict(const=0.0)
    if b.coin(0.7):
        return b.creal(plates, dim, 0.7)
    ax = [a for a in plates if b.coin(0.3)]
    kw = {}
    if 'ones' in kwargs and ax:
        kw['ones'] = kwargs['ones']
    b.node(name, 'GaussianARD', ax, [b.creal([], dim, 0.5), b.cpos([], dim)], dim=dim, **kw)
    return ref(name)


def ard(b, name, plates, dim, rot, other, axis=None, **kw):
    m = mean(b, 'm' + name, plates, dim, kw)
    (p, alpha) = precision(b, 'a' + name, plates, dim, kw)
    b.node(name, 'GaussianARD', plates, [m, p], dim=dim, **kw)
    rot.append(dict(node=name, alpha=alpha, axis=axis, type='ard', precompute=bool(b.coin(0.2))))


def rotfa(rng):
    b = B(rng, 'rotfa')
    rot = dict(one=[], two=[])
    b.axis('M', b.int(1, 4))
    b.axis('M2', b.int(1, 3))
    b.axis('N', b.int(1, 4))
    order = ['D', 'E'] if b.coin() else ['E', 'D']
    for a in order:
        b.axis(a, b.int(1, 3) if a == 'D' else b.int(1, 2), sticky=True)
    views = 2 if b.coin(0.25) else 1
    ones = b.coin()
    if b.coin(0.75):
        ard(b, 'X', ['N'], ['D'], rot['one'], None, **(dict(ones=['M']) if ones and views == 1 else {}))
    else:
        b.node('X', 'Gaussian', ['N'], [b.creal([], ['D'], 0.7), b.cspd(['D'], ['N'])], dim=['D'])
        rot['one'].append(dict(node='X', type='gauss'))
    for v in range(views):
        M = 'M' if v == 0 else 'M2'
        s = '' if v == 0 else '2'
        mat = b.coin(0.25)
        kw = dict(ones=['N']) if b.coin(0.5) or mat else {}
        dim = ['D']
        if mat:
            dim = list(order)
        ax = None
        if mat:
            ax = dim.index('D') - (2 if b.coin() else 0)
        ard(b, 'C' + s, [M], dim, rot['two'], None, axis=ax, **kw)
        pair = [ref('C' + s), ref('X')]
        eins = [dim, ['D']]
        if b.coin(0.3):
            (pair, eins) = (pair[::-1], eins[::-1])
        out = ['E'] if mat else []
        b.node('F' + s, 'dot', [M, 'N'], pair, eins=eins, dim=out)
        f = ref('F' + s)
        if not mat and b.coin(0.2):
            b.node('bias' + s, 'GaussianARD', [M], [b.creal([M]), b.cpos()], ones=['N'] if b.coin() else [])
            b.node('FB' + s, 'add', [M, 'N'], [f, ref('bias' + s)])
            f = ref('FB' + s)
        if mat:
            b.node('y' + s, 'GaussianARD', [M, 'N'], [f, b.cpos([], ['E'])], dim=['E'])
        else:
            b.node('y' + s, 'GaussianARD', [M, 'N'], [f, b.maybe_tau('tau' + s, [M, 'N'])])
        b.observe('y' + s)
    return (b.spec(), rot)


def rotlssm(rng):
    b = B(rng, 'rotlssm')
    rot = dict(one=[], two=[])
    inputs = b.coin(0.25)
    seq = not inputs and b.coin(0.2)
    b.axis('M', b.int(1, 3))
    if seq:
        b.axis('S', b.int(1, 2))
    T = b.int(2, 5)
    b.axis('T', T, sticky=True)
    b.axis('T-1', T - 1, sticky=True)
    D = b.int(1, 3)
    b.axis('D', D, sticky=True)
    b.axis('Ds', D, sticky=True)
    d = 'D'
    if inputs:
        U = b.int(1, 2)
        b.axis('DU', D + U, sticky=True)
        b.axis('U', U, sticky=True)
        d = 'DU'
    sa = ['S'] if seq else []
    tv = b.coin(0.15)
    dyn = []
    ard(b, 'A', (['T-1'] if tv else []) + ['Ds'], [d], dyn, None, axis=-1 if b.coin() else 0)
    m0 = b.creal(sa, ['D'])
    if b.coin(0.25):
        b.node('x0', 'Gaussian', [], [b.creal([], ['D']), b.cspd(['D'])], dim=['D'])
        m0 = ref('x0')
    l0 = b.cspd(['D'])
    if b.coin(0.25):
        b.wishart('L0', ['D'])
        l0 = ref('L0')
    par = [m0, l0, ref('A'), dict(const=np.ones(D).tolist(), axes=['Ds'])]
    if inputs:
        par.append(b.cfull(sa + ['T-1'] if b.coin() else ['T-1'], ['U'], 1.0))
    b.node('X', 'GMC', sa, par, time='T', state='Ds', dim=['D'])
    rot['one'].append(dict(node='X', type='chain', dynamics=dyn[0]))
    ya = ['M'] + sa + ['T']
    ard(b, 'C', ['M'], ['D'], rot['two'], None, ones=sa + ['T'])
    pr = [ref('C'), ref('X')]
    b.node('F', 'dot', ya, pr if b.coin() else pr[::-1], eins=[['D'], ['D']], dim=[])
    b.node('y', 'GaussianARD', ya, [ref('F'), b.maybe_tau('tau', ya)])
    b.observe('y')
    return (b.spec(), rot)


def generate(seed, tier):
    rng = np.random.default_rng([seed, 11])
    (spec, rot) = (rotfa if rng.random() < 0.55 else rotlssm)(rng)
    (sc, rng) = base_scenario(seed, spec=zoo.canonical(spec), masks=0.6, mult=0.2)
    sc['rot'] = rot
    sc['reuse'] = bool(rng.random() < 0.75)
    sc['lazy'] = bool(rng.random() < 0.5)
    g = OpGen(sc, rng)
    # only the data (and noise levels, means) may be observed
    free = rotated(sc['rot'])
    sc['ops'] = []
    for i in range(int(rng.integers(2, 5 if tier == 'quick' else 9))):
        ops = g.ops(int(rng.integers(0, 4)), MIX)
        sc['ops'] += [o for o in ops if not (o['op'] == 'obs' and o['n'] in free)]
        e = dict(op='rot', seed=int(rng.integers(1 << 30)), swap=bool(rng.random() < 0.5),
                 fresh=bool(rng.random() < 0.6),
                 how=g.pick(['optimise', 'optimise', 'optimise', 'given', 'given', 'gradient', 'callback', 'node']))
        e['maxiter'] = int(rng.choice([0, 1, 2, 5, 10, 20]))
        e['check'] = bool(rng.random() < 0.3)
        e['scale'] = float(rng.choice([0.05, 0.3, 1.0]))
        if rng.random() < 0.2 and e['how'] == 'optimise':
            e['fault'] = dict(at=int(rng.integers(0, 8)), error=g.pick(['interrupt', 'linalg', 'memory']))
        sc['ops'].append(e)
    return sc


def rotated(rot):
    out = []
    for r in rot['one'] + rot['two']:
        out += [r['node']] + ([r['alpha']] if r.get('alpha') else [])
        if 'dynamics' in r:
            out += rotated(dict(one=[r['dynamics']], two=[]))
    return out


class Injected(Exception):
    pass


ERRORS = dict(interrupt=KeyboardInterrupt, linalg=np.linalg.LinAlgError, memory=MemoryError)


def rotators(sim, ctx):
    from bayespy.inference.vmp import transformations as tf

    def one(r):
        node = sim.m.node[r['node']]
        if r['type'] == 'gauss':
            return tf.RotateGaussian(node)
        if r['type'] == 'chain':
            return tf.RotateGaussianMarkovChain(node, one(r['dynamics']))
        kw = {}
        if r.get('axis') is not None:
            kw['axis'] = r['axis']
        if r.get('precompute'):
            kw['precompute'] = True
        alpha = [sim.m.node[r['alpha']]] if r.get('alpha') else []
        return tf.RotateGaussianARD(node, *alpha, **kw)

    def block(rs):
        rs = [one(r) for r in rs]
        return rs[0] if len(rs) == 1 else tf.RotateMultiple(*rs)
    # (users make them once and rotate again and again)
    if not sim.sc.get('reuse') or getattr(sim, 'rotators', None) is None:
        with ctx.call('rotators'):
            sim.rotators = (block(sim.sc['rot']['one']), block(sim.sc['rot']['two']), tf)
    return sim.rotators


def execute(sc, ctx):
    sim = Sim(sc, ctx)
    D = sim.spec.size('D')
    ctx.sample = dict(family=sc['spec']['family'], ops=[o.get('how', o['op']) for o in sc['ops']])
    updated = set()
    for op in sc['ops']:
        if op['op'] != 'rot':
            sim.do(op)
            ctx.event(op['op'], op.get('n'))
            continue
        for n in sim.names:
            # everything is a proper posterior which has seen its data
            if n in sim.dirty or (n not in updated and (not sc.get('lazy') or n in rotated(sc['rot']))):
                sim.update(n)
                updated.add(n)
        if op['fresh']:
            for n in rotated(sc['rot']):
                if n.startswith('a'):
                    sim.update(n)
        rotate(sim, op, D, ctx)
        ctx.count(op['how'])
        for n in sim.names:
            sim.remember(n)
        ctx.event('rot', op['how'], '%.8g' % sum(sim.terms().values()))
    # rotations do not disturb ordinary learning
    before = sum(sim.terms().values())
    for n in sim.names:
        sim.update(n)
    mag = 1 + sum(abs(v) for v in sim.terms().values())
    after = sum(sim.terms().values())
    ctx.check(after >= before - 1e-9 * mag, 'bound-decreases', lambda: 'a sweep after rotations decreased the bound from '
              '%.12g to %.12g' % (before, after))
    c02.compare(sim, ctx, 'final sweep')


def preserved(sim):
    """What the rotated variables mean for everybody else."""
    out = {}
    for n in sim.spec.names:
        if sim.spec.nodes[n]['kind'] == 'dot':
            out[n] = [np.array(x) for x in sim.m.node[n].get_moments()]
    return out


def moments(sim):
    return {n: [x.copy() for x in sim.m.params(n)] + [x.copy() for x in sim.m.moments(n)] for n in sim.spec.stoch}


def same(ctx, kind, a, b, what, tol=1e-8):
    (d, w) = differ(a, b)
    ctx.check(d < tol, kind, lambda: '%s: %s differs by %.3g: %s, %s' % (
        what, w[0], d, np.ravel(a[w[0]][w[1]])[:6], np.ravel(b[w[0]][w[1]])[:6]))


def rotate(sim, e, D, ctx):
    rng = np.random.default_rng([e['seed'], 11])
    np.random.seed(e['seed'] % (1 << 31))
    if e['how'] == 'node':
        rotate_node(sim, rng, D, ctx)
        return
    (one, two, tf) = rotators(sim, ctx)
    what = '%s rotation' % e['how']
    (b1, b2) = (two, one) if e['swap'] else (one, two)
    keep = preserved(sim)
    state = moments(sim)
    terms = sim.terms()
    L0 = sum(terms.values())
    mag = 1 + sum(abs(v) for v in terms.values())
    others = [n for n in sim.names if n not in rotated(sim.sc['rot'])]
    scale = 0.0
    if e['how'] in ('given', 'gradient'):
        R = np.eye(D) + e['scale'] * rng.standard_normal((D, D))
        if np.linalg.cond(R) > 50:
            R = np.eye(D) + 0.1 * rng.standard_normal((D, D))
        inv = np.linalg.inv(R)
        logdet = np.linalg.slogdet(R)[1]
        I = np.eye(D)

        def cost(R):
            inv = np.linalg.inv(R)
            logdet = np.linalg.slogdet(R)[1]
            with ctx.call('bound'):
                (u, du) = b1.bound(R, logdet=logdet, inv=inv)
                (v, dv) = b2.bound(inv.T, logdet=-logdet, inv=R.T)
            return (float(np.sum(u)), np.asarray(du), float(np.sum(v)), np.asarray(dv))
        with ctx.call('setup'):
            b1.setup()
            b2.setup()
    if e['how'] == 'gradient':
        for (b, n) in ((b1, 'first'), (b2, 'second')):
            V = rng.standard_normal((D, D))
            with ctx.call('bound'):
                g = float(np.sum(b.bound(R, logdet=logdet, inv=inv)[1] * V))

                def f(h):
                    Q = R + h * V
                    return float(np.sum(b.bound(Q, logdet=np.linalg.slogdet(Q)[1], inv=np.linalg.inv(Q))[0]))
                est = [(f(h) - f(-h)) / (2 * h) for h in (1e-3, 5e-4, 2.5e-4)]
            r1 = (4 * est[1] - est[0]) / 3
            r2 = (4 * est[2] - est[1]) / 3
            err = abs(r2 - r1) + 1e-10 * (1 + abs(f(0))) / 2.5e-4
            if err < 1e-4 * (1 + abs(r2)):
                ctx.check(abs(g - r2) <= 1e-5 * (1 + abs(r2)) + 20 * err, 'wrong-gradient', lambda: 'derivative of the cost of '
                          'the %s block is %.8g, the reported gradient gives %.8g' % (n, r2, g))
                ctx.count('derivatives compared')
        same(ctx, 'changed', state, moments(sim), 'evaluating the cost of rotations', 1e-12)
        return
    if e['how'] == 'given':
        stale = not e['fresh'] and any(r.get('alpha') for r in flat(sim.sc['rot']))
        (u0, _, v0, _) = cost(I)
        (u1, _, v1, _) = cost(R)
        with ctx.call('rotate'):
            b1.rotate(R, inv=inv, logdet=logdet)
            b2.rotate(inv.T, inv=R.T, logdet=-logdet)
        terms1 = sim.terms()
        L1 = sum(terms1.values())
        m = mag + sum(abs(v) for v in terms1.values()) + abs(u1) + abs(v1) + abs(u0) + abs(v0)
        want = u1 - u0 + v1 - v0
        if stale:
            # the cost is relative to updated precisions
            ctx.check(L1 - L0 >= want - 1e-9 * m, 'wrong-cost', lambda: '%s: the bound changed by %.10g, the cost by %.10g'
                      % (what, L1 - L0, want))
        else:
            ctx.check(abs(L1 - L0 - want) <= 1e-9 * m, 'wrong-cost', lambda: '%s: the bound changed by %.10g, the cost by %.10g'
                      % (what, L1 - L0, want))
        scale = np.linalg.cond(R)
    else:
        opt = tf.RotationOptimizer(b1, b2, D)
        what += ' (at most %d iterations)' % e['maxiter']
        if 'fault' in e:
            if not fail(sim, opt, b2, e, state, ctx):
                return
        else:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                with ctx.call(what):
                    if e['how'] == 'callback':
                        sim.Q.set_callback(lambda: opt.rotate(maxiter=e['maxiter']))
                        try:
                            opt.rotate(maxiter=e['maxiter'])
                            it = sim.Q.iter
                            names = sim.updatable()
                            sim.Q.update(*[sim.m.node[n] for n in names], repeat=3, tol=-np.inf, verbose=False)
                        finally:
                            sim.Q.set_callback(None)
                    elif e['check']:
                        opt.rotate(maxiter=e['maxiter'], check_bound=True)
                    else:
                        opt.rotate(maxiter=e['maxiter'])
            bad = [str(x.message) for x in w if 'made the cost function worse' in str(x.message)
                   or 'true lower bound worse' in str(x.message)]
            # (differences within rounding are no news)
            ctx.count('warnings', len(bad))
        terms1 = sim.terms()
        L1 = sum(terms1.values())
        if e['how'] == 'callback':
            for n in sim.names:
                sim.update(n)
            Ls = [L0] + [float(x) for x in sim.Q.L[it:sim.Q.iter]]
            for (x, y) in zip(Ls, Ls[1:]):
                ctx.check(y >= x - 1e-9 * mag, 'bound-decreases', lambda: '%s: iterations with rotations recorded the bounds %s'
                          % (what, Ls))
            c02.compare(sim, ctx, what)
            return
        scale = 10
    ctx.check(e['how'] == 'given' or L1 >= L0 - 1e-9 * (mag + sum(abs(v) for v in terms1.values())), 'bound-decreases',
              lambda: '%s changed the bound from %.12g to %.12g (%s)' % (
                  what, L0, L1, {n: terms1[n] - terms[n] for n in terms if terms1[n] != terms[n]}))
    # what it preserves
    after = preserved(sim)
    same(ctx, 'not-preserved', keep, after, what, 1e-9 * max(scale, 10) ** 2)
    now = moments(sim)
    for n in others:
        if n in now:
            same(ctx, 'not-preserved', {n: state[n]}, {n: now[n]}, what, 1e-12)
    # a proper state
    consistent(sim, ctx, what, now)
    c02.compare(sim, ctx, what)
    ctx.state(sim.d['family'], [(r['type'], bool(r.get('alpha')), r.get('axis')) for r in flat(sim.sc['rot'])], e['how'],
              e['maxiter'], int(sum(np.sum(sim.obs_mask(o)) for o in sim.obs)), e['fresh'])


def flat(rot):
    out = []
    for r in rot['one'] + rot['two']:
        out.append(r)
        if 'dynamics' in r:
            out.append(r['dynamics'])
    return out


def consistent(sim, ctx, what, now):
    """Moments and the bound follow from the parameters."""
    t0 = sim.terms()
    for n in rotated(sim.sc['rot']):
        with ctx.call('set_parameters'):
            sim.m.node[n].set_parameters(sim.m.node[n].get_parameters())
    same(ctx, 'inconsistent', now, moments(sim), what + ', moments against parameters', 1e-6)
    t1 = sim.terms()
    m = 1 + sum(abs(v) for v in t0.values())
    for n in t0:
        ctx.check(abs(t0[n] - t1[n]) <= 1e-8 * m, 'inconsistent', lambda: '%s: bound term of %s is %.12g, from its parameters %.12g'
                  % (what, n, t0[n], t1[n]))


def fail(sim, opt, block, e, state, ctx):
    """The cost function fails: the caller is told, and nothing was rotated."""
    bound = block.bound
    count = [0]

    def g(*a, **k):
        count[0] += 1
        if count[0] > e['fault']['at']:
            raise ERRORS[e['fault']['error']]('injected')
        return bound(*a, **k)
    block.bound = g
    told = None
    try:
        opt.rotate(maxiter=e['maxiter'])
    except (KeyboardInterrupt, np.linalg.LinAlgError, MemoryError) as x:
        if str(x) != 'injected':
            raise
        told = x
    finally:
        del block.bound
    if count[0] > e['fault']['at']:
        ctx.fault('rotation cost fails (%s)' % e['fault']['error'])
        ctx.check(told is not None, 'swallowed', lambda: 'a %s in the cost function did not reach the caller' % e['fault']['error'])
        same(ctx, 'changed', state, moments(sim), 'a rotation whose cost function failed', 1e-12)
        return False
    return True


def rotate_node(sim, rng, D, ctx):
    """Rotating one variable alone."""
    spec = sim.spec
    c = [n for n in sim.names if kind(spec, n) in ('Gaussian', 'GaussianARD', 'GMC') and n in sim.spec.stoch
         and len(spec.nodes[n].get('dim', [])) and not np.any(sim.obs_mask(n))]
    if not c:
        return
    n = c[int(rng.integers(len(c)))]
    node = sim.m.node[n]
    a = [np.array(x) for x in node.get_moments()]
    kw = {}
    axis = -1
    dims = node.dims[0]
    if kind(spec, n) == 'GaussianARD':
        axis = int(rng.integers(-len(dims), 0))
        if rng.random() < 0.5 or axis != -1:
            kw['axis'] = axis if rng.random() < 0.5 else axis + len(dims)
    K = dims[axis]
    R = np.eye(K) + 0.3 * rng.standard_normal((K, K))
    if np.linalg.cond(R) > 50:
        R = np.eye(K)
    if rng.random() < 0.5:
        kw['inv'] = np.linalg.inv(R)
        kw['logdet'] = np.linalg.slogdet(R)[1]
    with ctx.call('rotate'):
        node.rotate(R, **kw)
    b = [np.array(x) for x in node.get_moments()]
    # means and second moments of the rotated variable
    nd = len(dims)
    if kind(spec, n) == 'GMC':
        want = [np.einsum('ij,...j->...i', R, a[0])] + [np.einsum('ij,...jk,lk->...il', R, x, R) for x in a[1:]]
    else:
        x = np.moveaxis(np.tensordot(R, a[0], axes=(1, a[0].ndim + axis)), 0, a[0].ndim + axis)
        y = a[1]
        for ax in (y.ndim - nd + axis, y.ndim + axis):
            y = np.moveaxis(np.tensordot(R, y, axes=(1, ax)), 0, ax)
        want = [x, y]
    what = 'rotating %s (%s)' % (n, kind(spec, n))
    same(ctx, 'wrong-rotation', {n: want}, {n: b}, what)
    now = moments(sim)
    t0 = sim.terms()
    with ctx.call('set_parameters'):
        node.set_parameters(node.get_parameters())
    same(ctx, 'inconsistent', now, moments(sim), what + ', moments against parameters', 1e-6)
    t1 = sim.terms()
    m = 1 + sum(abs(v) for v in t0.values())
    for x in t0:
        ctx.check(abs(t0[x] - t1[x]) <= 1e-8 * m, 'inconsistent', lambda: '%s: bound term of %s is %.12g, from its parameters %.12g'
                  % (what, x, t0[x], t1[x]))
    c02.compare(sim, ctx, what)
    ctx.state(sim.d['family'], 'node', kind(spec, n), axis, nd)

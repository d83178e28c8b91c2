"""C12: one seed, one run.  The same scenario is executed in several simulated
worlds (processes with other hash seeds, address spaces, clocks, working
directories, garbage collection, unrelated objects); every state must agree bit
for bit."""

import gc
import hashlib
import os
import warnings

import numpy as np

from sim.engine import Sim, OpGen, base_scenario
from sim.core import Violation, Ctx, Quiet
from sim import helper, zoo
from checks import c11

ID = 'C12'
LEVEL = 'exploration'
LEVEL_NOTE = ('Whole runs (initialisation, draws, updates, optimisers, rotations, save and load) repeated in processes '
              'whose environment a seeded scheduler perturbs; the digest of every intermediate state must be equal. '
              'BLAS runs with one thread (its thread count is part of the machine, not of the run).')
RUNS = dict(quick=700, thorough=4500)
STATE_RULE = ('distinct (family, operation kinds, perturbation) combinations compared')
COMPONENTS = dict(real=['everything'], stub=['wall clock', 'unrelated objects', 'garbage collector schedule'])
ASSUMPTIONS = ['same machine, same library versions, one BLAS thread']
SHRINK = ['worlds', 'ops']
MIX = dict(upd=3, sweep=3, obs=0.7, unobs=0.4, initv=0.4, initr=1.2, initp=0.4, setpar=0.4, gstep=0.8, draw=2.0,
           opt=1.5, pattern=1.0, saveload=0.8, run=1.5, util=1.0, density=0.7)
ENVS = [
    dict(PYTHONHASHSEED='0', TZ='UTC', LC_ALL='C'),
    dict(PYTHONHASHSEED='1', TZ='Asia/Tokyo', LC_ALL='C.UTF-8'),
    dict(PYTHONHASHSEED='42', TZ='America/New_York', COLUMNS='20', MALLOC_ARENA_MAX='1', MALLOC_PERTURB_='165'),
    dict(PYTHONHASHSEED='987654321', PYTHONMALLOC='malloc', TZ='UTC', USER='nobody', HOME='/nonexistent'),
    dict(PYTHONHASHSEED='31337', PYTHONMALLOC='debug', TMPDIR='/tmp', MALLOC_TOP_PAD_='1000000'),
]
UTILS = ['bernoulli', 'categorical', 'multinomial', 'gamma', 'dirichlet', 'wishart', 'invwishart_rand', 'covariance',
         'correlation', 'orth', 'svd', 'sphere', 'mask', 'intervals']


def contract(rng):
    """Products summed over several axes at once (the order of summation shows
    in the last bits)."""
    b = zoo.B(rng, 'contract')
    b.axis('N', b.int(1, 2))
    for a in 'IJK':
        b.axis(a, b.int(2, 4), sticky=True)
    b.node('x', 'GaussianARD', ['N'], [b.creal([], ['I', 'J']), b.cpos()], dim=['I', 'J'])
    b.node('w', 'GaussianARD', [], [b.creal([], ['J', 'K']), b.cpos()], dim=['J', 'K'])
    out = b.pick([], ['I'], ['K'])
    pair = [zoo.ref('x'), zoo.ref('w'), b.cfull([], ['K', 'I'])]
    eins = [['I', 'J'], ['J', 'K'], ['K', 'I']]
    if b.coin(0.3):
        (pair, eins) = (pair[::-1], eins[::-1])
    b.node('f', 'dot', ['N'], pair, eins=eins, dim=out, style='str' if b.coin(0.7) else None,
           letters=''.join(str(c) for c in rng.permutation(list('abcdefghijklmnopqrstuvwxyz'))[:6]))
    b.node('t', 'Gamma', [], [b.cpos(), b.cpos()])
    b.node('y', 'GaussianARD', ['N'], [zoo.ref('f'), zoo.ref('t')], dim=out)
    b.observe('y')
    return b.spec()


def generate(seed, tier):
    r = np.random.default_rng([seed, 5])
    rot = None
    if r.random() < 0.12:
        (sc, rng) = base_scenario(seed, spec=zoo.canonical(contract(r)))
    elif r.random() < 0.2:
        f = [c11.rotfa, c11.rotlssm][int(r.integers(2))]
        (spec, rot) = f(r)
        (sc, rng) = base_scenario(seed, spec=zoo.canonical(spec))
        sc['rot'] = rot
    else:
        (sc, rng) = base_scenario(seed, str(r.choice(['hub'])) if r.random() < 0.12 else None)
    g = OpGen(sc, rng)
    n = int(rng.integers(3, 8 if tier == 'quick' else 14))
    keys = list(MIX)
    w = np.array([MIX[k] for k in keys])
    ops = []
    for _ in range(n):
        k = keys[int(rng.choice(len(keys), p=w / w.sum()))]
        ops.append(op(g, k, rng))
        if rot and rng.random() < 0.3:
            ops.append(dict(op='rot', maxiter=int(rng.integers(1, 5)), check=bool(rng.random() < 0.5)))
    sc['ops'] = ops
    sc['prefix'] = ''.join('abcdefgh'[int(i)] for i in rng.integers(0, 8, 3)) + '_'
    sc['worlds'] = [world(rng) for _ in range(2)]
    return sc


def op(g, k, rng):
    lat = [x for x in g.names if g.spec.is_stoch(x)]
    if k == 'draw':
        return dict(op=k, n=g.pick(lat))
    if k == 'density':
        return dict(op=k, n=g.pick(lat))
    if k in ('opt', 'pattern'):
        order = [str(x) for x in rng.permutation(lat)]
        j = int(rng.integers(1, min(3, len(order)) + 1))
        return dict(op=k, nodes=order[:j], collapsed=order[j:j + int(rng.integers(0, 3))],
                    riemannian=bool(rng.random() < 0.7), maxiter=int(rng.integers(1, 4)),
                    method=g.pick(['gradient', 'fletcher-reeves']))
    if k == 'saveload':
        return dict(op=k)
    if k == 'run':
        return dict(op=k, repeat=int(rng.integers(1, 4)), tol=g.pick([None, 1e-3]))
    if k == 'util':
        return dict(op=k, f=g.pick(UTILS))
    o = g.op(k)
    if o['op'] == 'initr':
        o.pop('seed')
    return o


def world(rng):
    return dict(env=int(rng.integers(1, len(ENVS))), junk=int(rng.integers(0, 4)), gc=str(rng.choice(['on', 'off', 'often'])),
                clock=str(rng.choice(['real', 'frozen', 'backwards', 'jumps', 'negative'])),
                cwd=str(rng.choice(['/', 'scratch', 'deleted'])), again=bool(rng.random() < 0.3),
                pyrandom=int(rng.integers(1000)), live=bool(rng.random() < 0.5), seed=int(rng.integers(1 << 30)))


HOME = dict(env=0, junk=0, gc='on', clock='real', cwd='/', again=False, pyrandom=0, live=False, seed=0)


# -- in the other process ----------------------------------------------------

def warm():
    pass


def remote(req, d):
    """Execute a scenario in a perturbed world: [(what, digest), ...]"""
    w = req['world']
    sc = req['scenario']
    rng = np.random.default_rng(w['seed'])
    import random
    import time
    random.seed(w['pyrandom'])
    if w['cwd'] == 'scratch':
        os.chdir(d)
    elif w['cwd'] == 'deleted':
        x = os.path.join(d, 'gone')
        os.mkdir(x)
        os.chdir(x)
        os.rmdir(x)
    if w['gc'] == 'off':
        gc.disable()
    elif w['gc'] == 'often':
        gc.set_threshold(40, 2, 2)
    t = [1.6e9]
    if w['clock'] == 'frozen':
        time.time = lambda: t[0]
    elif w['clock'] == 'backwards':
        def back():
            t[0] -= 3.7
            return t[0]
        time.time = back
    elif w['clock'] == 'jumps':
        def jump():
            t[0] += float(rng.choice([-1e6, 0, 1e-9, 1, 1e8]))
            return t[0]
        time.time = jump
    elif w['clock'] == 'negative':
        time.time = lambda: -5.0
    keep = []
    with Quiet():
        for i in range(w['junk']):
            keep.append([bytearray(int(x)) for x in rng.integers(1, 5000, 30)])
            s = base_scenario(int(rng.integers(1 << 30)))[0]
            other = Sim(s, Ctx('C12'))
            other.Q.update(*[other.m.node[n] for n in other.updatable()], repeat=1, verbose=False)
            if w['live']:
                keep.append(other)
        out = body(sc, os.path.join(d, 'a'))
        if w['again']:
            second = body(sc, os.path.join(d, 'b'))
            out = [[a[0], a[1] if a == b else a[1] + ' and then ' + b[1]] for (a, b) in zip(out, second)]
    return out


def digest(sim, extra=()):
    h = hashlib.md5()

    def add(x):
        x = np.ascontiguousarray(np.asarray(x, dtype=float))
        h.update(str(x.shape).encode())
        h.update(x.tobytes())
    if sim is not None:
        for n in sim.names:
            for x in sim.m.moments(n):
                add(x)
        for n in sim.spec.stoch:
            for x in sim.m.params(n):
                add(x)
        t = sim.terms()
        for n in sorted(t):
            add(t[n])
        add(sim.Q.compute_lowerbound())
        add(sim.Q.L[:sim.Q.iter])
        h.update(repr(sim.Q.converged).encode())
    for x in extra:
        add(x)
    st = np.random.get_state()
    h.update(st[1].tobytes() + str(st[2:]).encode())
    return h.hexdigest()[:16]


def util(name):
    from bayespy.utils import random as r
    return dict(
        bernoulli=lambda: r.bernoulli(np.array([0.2, 0.7]), size=(3, 2)),
        categorical=lambda: r.categorical(np.array([[0.1, 0.6, 0.3], [0.3, 0.3, 0.4]])),
        multinomial=lambda: r.multinomial(7, np.array([[0.1, 0.6, 0.3], [0.3, 0.3, 0.4]])),
        gamma=lambda: r.gamma(np.array([0.5, 3.0]), 2.0, size=(4, 2)),
        dirichlet=lambda: r.dirichlet(np.array([[0.5, 3.0, 1.0], [1, 1, 1]])),
        wishart=lambda: r.wishart(4, np.eye(3)),
        invwishart_rand=lambda: r.invwishart_rand(4, np.eye(3)),
        covariance=lambda: r.covariance(3, size=(2,)),
        correlation=lambda: r.correlation(3),
        orth=lambda: r.orth(3),
        svd=lambda: r.svd(np.array([1.0, 2.0])),
        sphere=lambda: r.sphere(5),
        mask=lambda: r.mask(3, 4, p=0.4),
        intervals=lambda: r.intervals(30, 3, amount=2, gap=2),
    )[name]()


def body(sc, path):
    ctx = Ctx('C12')
    out = []
    np.random.seed(sc['seed'])
    sim = Sim(sc, ctx, prefix=sc['prefix'])
    out.append(['start', digest(sim)])
    np.random.seed(sc['seed'])
    mem = {}
    for o in sc['ops']:
        (k, extra) = perform(sim, o, path, ctx, mem)
        try:
            d = digest(sim, extra)
        except Exception as e:
            d = type(e).__name__
        out.append([k, d])
    return out


def perform(sim, o, path, ctx, mem):
    """One operation: (what happened, values it returned)."""
    try:
        return (o['op'], do(sim, o, path, ctx, mem))
    except Violation as v:
        return (o['op'] + ' ' + v.kind + ' ' + type(v.__cause__).__name__, [])
    except Exception as e:
        return (o['op'] + ' ' + type(e).__name__, [])


def do(sim, o, path, ctx, mem):
    k = o['op']
    if k == 'draw':
        return [sim.m.node[o['n']].random()]
    elif k == 'util':
        return list(np.atleast_1d(util(o['f'])))
    elif k == 'density':
        node = sim.m.node[o['n']]
        x = node.random()
        return [x, node.logpdf(x)]
    elif k == 'opt':
        sim.Q.optimize(*[sim.m.node[n] for n in o['nodes']], collapsed=[sim.m.node[n] for n in o['collapsed']],
                       riemannian=o['riemannian'], maxiter=o['maxiter'], method=o['method'], verbose=False)
    elif k == 'pattern':
        sim.Q.pattern_search(*[sim.m.node[n] for n in o['nodes']], maxiter=o['maxiter'],
                             collapsed=[sim.m.node[n] for n in o['collapsed']])
    elif k == 'saveload':
        sim.Q.save(filename=path)
        sim.Q.load(filename=path)
    elif k == 'run':
        names = sim.updatable()
        sim.Q.update(*[sim.m.node[n] for n in names], repeat=o['repeat'], tol=o['tol'], verbose=False)
        sim.dirty -= set(names)
    elif k == 'rot':
        from bayespy.inference.vmp import transformations as tf
        if 'rots' not in mem:
            (a, b, _) = c11.rotators(sim, ctx)
            mem['rots'] = tf.RotationOptimizer(a, b, sim.spec.size('D'))
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            mem['rots'].rotate(maxiter=o['maxiter'], check_bound=o['check'])
        return [len(w)]
    elif k == 'initr' and 'seed' not in o:
        # (from the run's own generator)
        for p in sim.m.parts(o['n']):
            p.initialize_from_random()
        if not sim.fully_observed(o['n']):
            sim.dirty.add(o['n'])
    else:
        sim.do(o)
    return []


# -- the comparison ----------------------------------------------------------

def ask(sc, w):
    s = {k: sc[k] for k in ('spec', 'seed', 'data', 'ops', 'prefix', 'rot') if k in sc}
    h = helper.helper(w['env'], ENVS[w['env']], 'c12')
    h.ask(dict(scenario=s, world=w))
    return h


def execute(sc, ctx):
    ctx.sample = dict(family=sc['spec']['family'], ops=[o['op'] for o in sc['ops']], worlds=sc['worlds'])
    home = ask(sc, HOME).answer()
    if 'result' not in home:
        raise RuntimeError('the reference run failed: %s' % (home,))
    home = home['result']
    for (k, d) in home:
        ctx.count(k.split(' ')[0])
        ctx.event(k, d)
    for w in sc['worlds']:
        r = ask(sc, w).answer()
        ctx.fault('hash seed and address space %d' % w['env'])
        for x in ('gc', 'clock', 'cwd'):
            ctx.fault('%s: %s' % (x, w[x]))
        if w['junk']:
            ctx.fault('unrelated models before')
        if w['again']:
            ctx.fault('second run in the process')
        if 'result' not in r:
            ctx.check(False, 'world-failed', 'the run in %s ended with %s' % (w, str(r)[-700:]))
        r = r['result']
        ctx.check(len(r) == len(home), 'different-run', '%d states instead of %d' % (len(r), len(home)))
        for (i, (a, b)) in enumerate(zip(home, r)):
            ctx.check(a == b, 'different-run', lambda: 'after operation %d (%s) the state is %s in the reference process, %s after (%s) in %s'
                      % (i, a[0], a[1], b[1], b[0], w))
        ctx.state(sc['spec']['family'], sorted({k for (k, d) in home}), w['env'], w['gc'], w['clock'], w['cwd'])
    ctx.event('worlds', len(sc['worlds']))

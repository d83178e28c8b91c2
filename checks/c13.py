"""C13: models that share no nodes never affect each other (interleaved or in
concurrent threads), nor the arrays of the caller."""

import gc
import hashlib
import os

import numpy as np

from sim.engine import Sim, OpGen, base_scenario
from sim.core import Violation, Ctx
from sim.dsl import Plated
from sim.sched import Sched
from sim import zoo
from checks import c11, c12

ID = 'C13'
LEVEL = 'exploration'
LEVEL_NOTE = ('Two or three models run alone, interleaved operation by operation, and in real threads of which a '
              'deterministic scheduler lets exactly one run between seeded switch points (source lines or single '
              'bytecodes of BayesPy); every state must agree bit for bit. Every array handed to BayesPy is compared '
              'with a copy; equal arrays are one object shared by all models.')
RUNS = dict(quick=800, thorough=8000)
STATE_RULE = ('distinct (families, mode, granularity, number of switches, source lines where a thread was suspended) '
              'schedules')
COMPONENTS = dict(real=['everything', 'Python threads'], stub=['thread scheduler (one baton, seeded switch points)'])
ASSUMPTIONS = ["NumPy's global random generator is shared by design: operations that draw from it are seeded and not "
               'suspended half-way', 'code outside BayesPy (NumPy, HDF5) runs without suspension']
SHRINK = ['switches', 'order', 'ops0', 'ops1', 'ops2']
MIX = dict(upd=4, sweep=3, obs=1.0, unobs=0.5, initv=0.6, initr=0.6, initp=0.4, setpar=0.6, gstep=0.8, draw=0.5,
           opt=0.8, pattern=0.4, saveload=0.5, run=1.5, query=1.0, bad=1.0)
BAD = ['plates', 'observe', 'value', 'load', 'node', 'parents', 'update', 'dims']


def generate(seed, tier):
    rng = np.random.default_rng([seed, 13])
    k = int(rng.choice([2, 2, 3]))
    sc = dict(seed=int(seed % (2 ** 31)), models=[], k=k)
    for i in range(k):
        u = rng.random()
        if i and u < 0.3:
            # the same model and data again
            m = dict(sc['models'][0])
            g = OpGen(m, rng)
        elif i and u < 0.6:
            # the same model, other data
            (m, r) = base_scenario(int(rng.integers(1 << 40)), spec=sc['models'][0]['spec'])
            if 'rot' in sc['models'][0]:
                m['rot'] = sc['models'][0]['rot']
            g = OpGen(m, rng)
        else:
            s = int(rng.integers(1 << 40))
            u = rng.random()
            if u < 0.2:
                (m, r) = base_scenario(s, spec=zoo.canonical(crowd(rng)))
            elif u < 0.3:
                (spec, rot) = c11.rotfa(rng)
                (m, r) = base_scenario(s, spec=zoo.canonical(spec))
                m['rot'] = rot
            else:
                (m, r) = base_scenario(s)
            g = OpGen(m, rng)
        sc['models'].append(m)
        ops = []
        keys = list(MIX)
        w = np.array([MIX[x] for x in keys])
        for _ in range(int(rng.integers(1, 6 if tier == 'quick' else 10))):
            x = keys[int(rng.choice(len(keys), p=w / w.sum()))]
            if x == 'bad':
                ops.append(dict(op='bad', what=g.pick(BAD), n=g.pick(g.names)))
            elif x in ('upd', 'sweep', 'obs', 'unobs', 'initv', 'initr', 'initp', 'setpar', 'gstep', 'query'):
                ops.append(g.op(x))
            else:
                ops.append(c12.op(g, x, rng))
            if 'rot' in m and rng.random() < 0.3:
                ops.append(dict(op='rot', maxiter=2, check=False))
        if rng.random() < 0.3:
            ops.append(dict(op=str(rng.choice(['drop', 'delete']))))
        for o in ops:
            if o['op'] in ('draw', 'initr'):
                o['seed'] = int(rng.integers(1 << 30))
        sc['ops%d' % i] = ops
    sc['layout'] = int(rng.integers(1 << 20))
    sc['mode'] = str(rng.choice(['steps', 'threads', 'threads']))
    if sc['mode'] == 'steps':
        order = sum([[i] * (len(sc['ops%d' % i]) + 1) for i in range(k)], [])
        sc['order'] = [int(x) for x in rng.permutation(order)]
    else:
        sc['opcodes'] = bool(rng.random() < 0.4)
        # long calm stretches and bursts
        n = int(rng.integers(3, 120))
        top = 10.0 ** rng.uniform(0.3, 3.6)
        if rng.random() < 0.6:
            # all of it within some functions
            sc['focus'] = [int(rng.integers(1 << 20)), int(rng.choice([4, 15, 40, 100])), None]
            if rng.random() < 0.6:
                # around writes only
                sc['focus'][1:] = [int(rng.choice([1, 4, 15])), 'any'] if rng.random() < 0.5 else [1, 'global']
            sc['opcodes'] = bool(rng.random() < 0.8)
            n = int(rng.integers(20, 400))
            top = float(rng.choice([2, 6, 30, 300, 2000]))
        burst = float(rng.choice([0, 0.3, 0.6]))
        if sc.get('focus', [0, 0, 0])[2] == 'global':
            # (few places: mostly while building)
            sc['opcodes'] = True
            (top, burst) = (float(rng.choice([10, 40, 150])), 0)
        if 'focus' in sc and rng.random() < 0.5:
            # (only the first few times at a place: go on from there for long)
            sc['focus'].append(int(rng.choice([3, 10, 30, 100])))
            top = float(rng.choice([3, 10, 40]))
        sc['switches'] = [[int(rng.integers(1, 5)) if rng.random() < burst else
                           int(1 + np.floor(np.exp(rng.uniform(0, np.log(top))))), int(rng.integers(0, 4))]
                          for _ in range(n)]
    return sc


def crowd(rng):
    """Many variables with a common child."""
    b = zoo.B(rng, 'crowd')
    b.axis('N', b.int(1, 2))
    k = b.int(5, 14)
    for i in range(k):
        b.node('x%d' % i, 'GaussianARD', [], [b.creal(), b.cpos()])
    b.node('s', 'add', [], [zoo.ref('x%d' % i) for i in range(k)], dim=[])
    b.node('y', 'GaussianARD', ['N'], [zoo.ref('s'), b.cpos()])
    b.observe('y')
    return b.spec()


class Given:
    """The caller's arrays: remembers everything that was passed."""

    def __init__(self, salt, memo):
        self.salt = salt
        self.memo = memo

    def __call__(self, x):
        a = np.array(x)
        key = (a.shape, str(a.dtype), a.tobytes())
        if key not in self.memo:
            h = int.from_bytes(hashlib.md5(repr(key[:2]).encode() + key[2] + str(self.salt).encode()).digest()[:4], 'big')
            self.memo[key] = (style(a, h), a.copy())
        return self.memo[key][0]


def style(a, h):
    """What users pass: arrays of all layouts, lists, numbers."""
    s = h % 8
    if s == 0 and a.ndim > 1:
        return np.asfortranarray(a)
    if s == 1 and a.ndim > 0:
        b = np.zeros(tuple(2 * n for n in a.shape), dtype=a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if s == 2:
        b = a.copy()
        b.flags.writeable = False
        return b
    if s == 3:
        return a.tolist()
    if s == 4 and a.dtype.kind == 'f' and np.all(np.isfinite(a)) and np.all(a == np.floor(a)) and np.all(np.abs(a) < 1e9):
        return a.astype(int)
    if s == 5 and a.ndim > 0:
        return a[::-1].copy()[::-1]
    return a.copy()


def unchanged(ctx, memo, when):
    for (x, orig) in memo.values():
        b = np.array(x)
        ctx.check(b.shape == orig.shape and np.array_equal(b, orig, equal_nan=orig.dtype.kind == 'f'), 'caller-array-modified',
                  lambda: '%s: an array of the caller changed from %s to %s' % (when, orig.tolist(), b.tolist()))


class Model:
    """One model and its list of operations; one digest per step."""

    def __init__(self, sc, i, given, path, hold=None):
        self.m = dict(sc['models'][i], seed=sc['seed'])
        self.ops = sc['ops%d' % i]
        self.given = given
        self.path = path
        self.out = []
        self.sim = None
        self.pos = -1
        self.ctx = Ctx('C13')
        self.hold = hold
        self.mem = {}
        self.counts = []

    def step(self):
        if self.pos >= len(self.ops):
            return False
        with np.errstate(all='ignore'):
            if self.pos < 0:
                self.sim = Sim(self.m, self.ctx, prefix='', model=lambda spec, bp: Plated(spec, bp, given=self.given))
                k, extra = 'build', []
            elif self.sim is None:
                return False
            else:
                o = self.ops[self.pos]
                (k, extra) = self.do(o)
            self.pos += 1
            if self.sim is None:
                self.out.append([k, '-'])
                return True
            if self.hold:
                self.hold.hold += 1
            try:
                d = state(self.sim, extra)
            except Exception as e:
                d = type(e).__name__
            finally:
                if self.hold:
                    self.hold.hold -= 1
            self.out.append([k, d])
        return True

    def do(self, o):
        k = o['op']
        sim = self.sim
        if k == 'drop':
            self.sim = None
            del sim
            gc.collect()
            return k, []
        if k == 'delete':
            for n in reversed(sim.spec.names):
                sim.m.node[n].delete()
            self.sim = None
            return k, []
        if k == 'bad':
            return 'bad ' + bad(sim, o, self.path), []
        atomic = k in ('draw', 'initr', 'rot') and self.hold
        if atomic:
            self.hold.hold += 1
        try:
            if 'seed' in o:
                np.random.seed(o['seed'])
            return c12.perform(sim, o, self.path, self.ctx, self.mem)
        finally:
            if atomic:
                self.hold.hold -= 1

    def all(self):
        while self.step():
            pass
        return self.out


def bad(sim, o, path):
    """Mistakes of a user, which raise (or do nothing)."""
    import bayespy.nodes as bp
    node = sim.m.node[o['n']]
    w = o['what']
    try:
        if w == 'plates':
            bp.GaussianARD(np.zeros(3), np.ones(2))
        elif w == 'observe':
            node.observe(np.ones((2, 3, 5, 7)))
        elif w == 'value':
            node.initialize_from_value(np.full((2, 3, 5, 7), -1.5))
        elif w == 'load':
            sim.Q.load(filename=path + '.missing')
        elif w == 'node':
            bp.Mixture(node, bp.Gamma, [1, 2], [-1])
        elif w == 'parents':
            bp.Gaussian([[0, 1]], [[1, 0, 0]])
        elif w == 'update':
            sim.Q.update('no such node')
        elif w == 'dims':
            bp.SumMultiply('i,i->', bp.GaussianARD(0, 1, shape=(2,)), bp.GaussianARD(0, 1, shape=(3,)))
    except Exception as e:
        return w + ' ' + type(e).__name__
    return w


def state(sim, extra):
    h = hashlib.md5()

    def add(x):
        x = np.ascontiguousarray(np.asarray(x, dtype=float))
        h.update(str(x.shape).encode() + x.tobytes())
    for n in sim.names:
        for x in sim.m.moments(n):
            add(x)
    for n in sim.spec.stoch:
        for x in sim.m.params(n):
            add(x)
    t = sim.terms()
    for n in sorted(t):
        add(t[n])
    add(sim.Q.compute_lowerbound())
    add(sim.Q.L[:sim.Q.iter])
    for x in extra:
        add(x)
    return h.hexdigest()[:16]


def execute(sc, ctx):
    k = sc['k']
    fams = [m['spec']['family'] for m in sc['models']]
    ctx.sample = dict(families=fams, mode=sc['mode'], ops=[[o['op'] for o in sc['ops%d' % i]] for i in range(k)])
    alone = []
    for i in range(k):
        memo = {}
        m = Model(sc, i, Given(sc['layout'], memo), os.path.join(ctx.workdir, 'alone%d' % i))
        while m.step():
            unchanged(ctx, memo, 'after %s' % m.out[-1][0])
        alone.append(m.out)
        for (x, d) in m.out:
            ctx.count(x.split(' ')[0])
        ctx.event('alone', i, m.out)
    memo = {}
    given = Given(sc['layout'], memo)
    ctx.count('mode ' + sc['mode'])
    if sc['mode'] == 'steps':
        ms = [Model(sc, i, given, os.path.join(ctx.workdir, 'm%d' % i)) for i in range(k)]
        for i in sc['order']:
            if i < k:
                ms[i].step()
                unchanged(ctx, memo, 'model %d, %s' % (i, ms[i].out[-1][0] if ms[i].out else '-'))
        for m in ms:
            m.all()
        ctx.fault('interleaved operations', len(sc['order']))
        where = []
        together = [m.out for m in ms]
    else:
        s = Sched(sc['switches'], sc['opcodes'], sc.get('focus'))
        ms = [Model(sc, i, given, os.path.join(ctx.workdir, 'm%d' % i), hold=s) for i in range(k)]
        res = s.run([m.all for m in ms])
        together = []
        for (i, r) in enumerate(res):
            if r is None:
                raise RuntimeError('thread %d ended without a result' % i)
            if r[0] == 'raised':
                e = r[1]
                c = e.__cause__ if isinstance(e, Violation) and e.__cause__ is not None else e
                ctx.check(False, 'concurrent-failure', 'model %d (%s) fails in a thread: %s: %s'
                          % (i, fams[i], type(c).__name__, c))
            together.append(r[1])
        ctx.fault('thread switches at %s' % ('bytecodes' if sc['opcodes'] else 'lines'), s.done)
        where = s.where
        ctx.event('steps', s.steps, s.done)
        for w in where:
            ctx.state(w)
    for i in range(k):
        ctx.check(len(alone[i]) == len(together[i]), 'models-interfere', lambda: 'model %d: %s alone, %s together'
                  % (i, alone[i], together[i]))
        for (j, (a, b)) in enumerate(zip(alone[i], together[i])):
            ctx.check(a == b, 'models-interfere', lambda: 'model %d (%s), step %d (%s): state %s, alone (%s) %s'
                      % (i, fams[i], j, b[0], b[1], a[0], a[1]))
    unchanged(ctx, memo, 'together')
    ctx.state(fams, sc['mode'], sc.get('opcodes'), len(sc.get('switches', sc.get('order'))))

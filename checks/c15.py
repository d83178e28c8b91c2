"""C15: interruptions.  A tracer raises an exception at a chosen executed line or
bytecode of any operation: it must reach the caller, harm nothing that was
already observed or recorded, and doing the operation again must give what an
undisturbed twin has."""

import hashlib
import os
import sys
import warnings

import numpy as np

from sim.engine import Sim, OpGen, base_scenario, maxdiff
from sim.core import Violation, Ctx
from sim.sched import SEP, prime
from sim import zoo
from checks import c02, c11, c12, c13

ID = 'C15'
LEVEL = 'exploration'
LEVEL_NOTE = ('An exception (keyboard interrupt, memory error, exit, I/O error) strikes at a seeded step of constructors, '
              'observations, initialisations, updates, sweeps, gradient steps, searches, rotations, annealing, saves, '
              'loads and queries, up to three times in a row; an undisturbed twin executes the same history and the two '
              'must agree bit for bit after the operation was repeated (or resumed).  Interrupted searches and rotations '
              'may leave any posterior: then a sweep must make the state satisfy the reference semantics, and the same '
              'posterior put into both worlds must lead to the same future.')
RUNS = dict(quick=2000, thorough=14000)
STATE_RULE = 'distinct (operation, file, line) places at which an exception struck'
COMPONENTS = dict(real=['everything'], stub=['the instant at which exceptions appear (trace function)'])
ASSUMPTIONS = ['exceptions strike between bytecodes of BayesPy itself, not inside NumPy, SciPy or HDF5',
               'optimisers may treat an ordinary error (not an interrupt) during a trial step as a failed step']
SHRINK = ['ops', 'build', 'strikes']
MIX = dict(upd=5, sweep=3, obs=1.5, unobs=0.8, initv=1, initr=1, initp=0.7, setpar=0.8, query=2, draw=0.7,
           density=0.5, save=0.8, load=0.8, ann=0.5, bad=0.4)
LAST = ['opt', 'opt', 'pattern', 'rot', 'gstep', 'run']


class Interrupt(KeyboardInterrupt):
    pass


class NoMemory(MemoryError):
    pass


class Exit(SystemExit):
    pass


class IOFailure(OSError):
    pass


KINDS = dict(interrupt=Interrupt, memory=NoMemory, exit=Exit, io=IOFailure)


def strike(rng):
    return dict(at=float(np.round(rng.random(), 4)), exc=str(rng.choice(['interrupt', 'interrupt', 'memory', 'exit', 'io'])),
                cap=int(rng.choice([0, 0, 1, 1, 3])), op=bool(rng.random() < 0.5))


def generate(seed, tier):
    rng = np.random.default_rng([seed, 15])
    u = rng.random()
    if u < 0.1:
        (spec, rot) = [c11.rotfa, c11.rotlssm][int(rng.integers(2))](rng)
        (sc, r) = base_scenario(seed, spec=zoo.canonical(spec))
        sc['rot'] = rot
    elif u < 0.15:
        (sc, r) = base_scenario(seed, spec=zoo.canonical(c13.crowd(rng)))
    else:
        (sc, r) = base_scenario(seed)
    g = OpGen(sc, rng)
    keys = list(MIX)
    w = np.array([MIX[k] for k in keys])
    ops = []
    for _ in range(int(rng.integers(1, 7 if tier == 'quick' else 12))):
        k = keys[int(rng.choice(len(keys), p=w / w.sum()))]
        if k in ('save', 'load'):
            o = dict(op=k)
        elif k == 'bad':
            o = dict(op='bad', what=g.pick(c13.BAD), n=g.pick(g.names))
        elif k in ('draw', 'density'):
            o = c12.op(g, k, rng)
        else:
            o = g.op(k)
        if k == 'sweep':
            o['repeat'] = int(rng.integers(1, 3))
        o['strikes'] = [strike(rng) for _ in range(int(rng.choice([0, 1, 1, 1, 2, 3])))]
        ops.append(o)
    if rng.random() < 0.5:
        k = 'rot' if 'rot' in sc and rng.random() < 0.7 else g.pick(LAST)
        if k == 'rot':
            o = dict(op='rot', maxiter=int(rng.integers(1, 5)), check=bool(rng.random() < 0.5)) if 'rot' in sc else None
        elif k == 'gstep':
            o = g.op(k)
        else:
            o = c12.op(g, k, rng)
        if o:
            s = strike(rng)
            s['at'] = int(np.floor(10 ** rng.uniform(0, 4.3 if s['op'] and not s['cap'] else 3.3)))
            o['strikes'] = [s]
            o['last'] = True
            ops.append(o)
    for o in ops:
        o['seed'] = int(rng.integers(1 << 30))
    sc['ops'] = ops
    sc['build'] = []
    if rng.random() < 0.5:
        n = len(sc['spec']['nodes'])
        for _ in range(int(rng.choice([1, 1, 2, n]))):
            sc['build'].append([int(rng.integers(n)), strike(rng)])
    sc['keep'] = bool(rng.random() < 0.5)
    return sc


class Striker:
    """Counts the steps of one operation, and raises at one of them."""

    def __init__(self, s, at=None):
        self.at = at
        self.opcodes = s['op']
        self.cap = s['cap']
        self.exc = KINDS[s['exc']]('simulated ' + s['exc'])
        self.n = 0
        self.visits = {}
        self.fired = None

    def local(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line'):
            if self.cap:
                p = (frame.f_code, frame.f_lineno)
                v = self.visits[p] = self.visits.get(p, 0) + 1
                if v > self.cap * (4 if self.opcodes else 1):
                    return self.local
            self.n += 1
            if self.n == self.at:
                self.fired = (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                raise self.exc
        return self.local

    def tracer(self, frame, event, arg):
        f = frame.f_code.co_filename
        if SEP not in f or '/tests/' in f or frame.f_code.co_name == '__del__' or self.fired:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.local

    def run(self, fn):
        """('done', value) or ('raised', exception)"""
        if self.opcodes:
            prime()
        sys.settrace(self.tracer)
        try:
            r = ('done', fn())
        except BaseException as e:
            sys.settrace(None)
            while isinstance(e, Violation) and e.__cause__ is not None:
                e = e.__cause__
            r = ('raised', e)
        finally:
            sys.settrace(None)
        if r[0] == 'raised' and r[1] is not self.exc and not isinstance(r[1], Exception):
            raise r[1]
        return r


def chain(e, x):
    seen = []
    todo = [e]
    while todo:
        y = todo.pop()
        if y is None or y in seen:
            continue
        if y is x:
            return True
        seen.append(y)
        todo += [y.__cause__, y.__context__]
    return False


class Nodes:
    """The node classes, some of whose constructions are interrupted first."""

    def __init__(self, world):
        import bayespy.nodes as bp
        self._bp = bp
        self._world = world

    def __getattr__(self, name):
        if name == 'MultiMixture':
            from bayespy.inference.vmp.nodes.mixture import MultiMixture
            return Ctor(MultiMixture, self._world)
        return Ctor(getattr(self._bp, name), self._world)


class Ctor:

    def __init__(self, cls, world):
        self.cls = cls
        self.world = world

    def __call__(self, *args, **kwargs):
        args = [a.cls if isinstance(a, Ctor) else a for a in args]
        return self.world.construct(self.cls, args, kwargs)


class World:

    def __init__(self, sc, ctx, path):
        self.sc = sc
        self.ctx = ctx
        self.path = path
        self.twin = None
        self.sim = None
        self.calls = 0
        self.count = []
        self.mem = {}
        self.kept = []
        self.books = {}
        self.order = []
        self.resumed = False
        os.makedirs(path, exist_ok=True)
        self.file = os.path.join(path, 'state.hdf5')

    def construct(self, cls, args, kwargs):
        i = self.calls
        self.calls += 1
        plan = [s for (j, s) in self.sc['build'] if j == i]
        if self.twin is None:
            if not plan:
                return cls(*args, **kwargs)
            c = Striker(plan[0])
            r = c.run(lambda: cls(*args, **kwargs))
            self.count.append((i, c.n))
            if r[0] == 'raised':
                raise r[1]
            return r[1]
        n = dict(self.twin.count).get(i)
        for s in plan[:1]:
            at = 1 + int(s['at'] * n)
            c = Striker(s, at)
            r = c.run(lambda: cls(*args, **kwargs))
            self.struck(c, r, s, 'building ' + cls.__name__)
            del r
            self.keep(c)
        return cls(*args, **kwargs)

    def keep(self, c):
        if self.sc['keep']:
            self.kept.append(c.exc)
        else:
            c.exc.__traceback__ = None
            c.exc = None

    def struck(self, c, r, s, what, absorb=False):
        ctx = self.ctx
        if c.fired is None:
            ctx.check(r[0] == 'done', 'raised', lambda: '%s again raised %r' % (what, r[1]))
            return False
        ctx.fault('%s at a %s' % (s['exc'], 'bytecode' if s['op'] else 'line'))
        ctx.state(what.split(' ')[0], c.fired)
        ctx.event('struck', what, c.fired)
        if r[0] == 'done':
            ctx.check(absorb and isinstance(c.exc, Exception), 'interrupt-swallowed',
                      lambda: '%s: the %s at %s:%d never reached the caller' % ((what, s['exc']) + c.fired))
            return False
        ok = r[1] is c.exc or isinstance(c.exc, Exception) and isinstance(r[1], Exception) and chain(r[1], c.exc)
        ctx.check(ok, 'interrupt-replaced', lambda: '%s: the %s at %s:%d reached the caller as %r'
                  % ((what, s['exc']) + c.fired + (r[1],)))
        return True

    def build(self):
        self.sim = Sim(self.sc, self.ctx, nodes=Nodes(self))
        for n in self.sim.names:
            for p in self.sim.m.parts(n):
                self.wrap(n, p)

    def wrap(self, n, p):
        # (which updates were completed)
        f = p.update

        def update(*a, **k):
            r = f(*a, **k)
            self.order.append(p)
            return r
        p.update = update

    def once(self, o):
        sim = self.sim
        k = o['op']
        np.random.seed(o['seed'])
        self.order = []
        if k == 'save':
            sim.Q.save(filename=self.file)
            self.books = dict(obs=dict(sim.obs), dirty=set(sim.dirty), ann=sim.ann)
            return []
        if k == 'load':
            if self.books:
                sim.Q.load(filename=self.file)
                sim.obs = dict(self.books['obs'])
                sim.dirty = set(self.books['dirty'])
            return []
        if k == 'bad':
            return [c13.bad(sim, o, self.file)]
        return c12.do(sim, o, self.file, self.ctx, self.mem)

    def ask(self, o, c=None):
        if c is not None:
            return c.run(lambda: self.once(o))
        try:
            return ('done', self.once(o))
        except Exception as e:
            while isinstance(e, Violation) and e.__cause__ is not None:
                e = e.__cause__
            return ('raised', e)

    # -- what must survive -----------------------------------------------------

    def observed(self, skip=()):
        """The data, as the model reports them."""
        sim = self.sim
        out = {}
        for (n, (x, m)) in sim.obs.items():
            if n in skip or not np.any(m):
                continue
            L = []
            for u in sim.m.moments(n):
                u = np.asarray(u)
                v = u[np.broadcast_to(m, np.shape(m))] if np.shape(m) == u.shape[:np.ndim(m)] else u
                L.append(np.array(v).tobytes())
            out[n] = L
        return out

    def records(self):
        Q = self.sim.Q
        i = Q.iter
        return (i, np.array(Q.L[:i]), np.array(Q.cputime[:i]), {n.name: np.array(x[:i]) for (n, x) in Q.l.items()})

    def survived(self, before, rec, o, skip):
        ctx = self.ctx
        now = self.observed(skip)
        for n in before:
            ctx.check(before[n] == now.get(n), 'data-changed',
                      lambda: 'interrupting %s (%s) changed the observed values of %s' % (o['op'], o.get('n'), n))
        if o['op'] == 'load':
            return
        (i, L, c, l) = self.records()
        (i0, L0, c0, l0) = rec
        ok = i >= i0 and same(L[:i0], L0) and same(c[:i0], c0) and all(same(l[n][:i0], l0[n]) for n in l0)
        ctx.check(ok, 'record-changed', lambda: 'interrupting %s changed finished records: %s -> %s' % (o['op'], L0, L))
        ctx.check(len(L) == i and len(c) == i and all(len(l[n]) == i for n in l), 'record-torn',
                  lambda: 'after interrupting %s there are %d iterations but records of %s' % (o['op'], i, {n: len(l[n]) for n in l}))

    def content(self):
        return content(self.file)


def same(a, b):
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def content(path):
    import h5py
    if not os.path.exists(path):
        return None
    out = []

    def visit(name, x):
        if isinstance(x, h5py.Dataset) and 'cputime' not in name:
            v = np.asarray(x[()])
            out.append((name, v.shape, v.tobytes()))
    with h5py.File(path, 'r') as f:
        f.visititems(visit)
    return hashlib.md5(repr(sorted(out)).encode()).hexdigest()


def state(sim, extra=()):
    h = hashlib.md5()

    def add(x):
        if isinstance(x, str):
            h.update(x.encode())
            return
        x = np.ascontiguousarray(np.asarray(x, dtype=float))
        h.update(str(x.shape).encode() + x.tobytes())
    for n in sim.names:
        for x in sim.m.moments(n):
            add(x)
    for n in sim.spec.stoch:
        for x in sim.m.params(n):
            add(x)
    t = sim.terms()
    for n in sorted(t):
        add(t[n])
    add(sim.Q.compute_lowerbound())
    for x in extra:
        add(x)
    return h.hexdigest()[:16]


def digest(w, extra):
    try:
        return state(w.sim, extra)
    except Exception as e:
        return type(e).__name__


def execute(sc, ctx):
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        run(sc, ctx)


def run(sc, ctx):
    ctx.sample = dict(family=sc['spec']['family'], ops=[o['op'] for o in sc['ops']], build=len(sc['build']))
    A = World(sc, ctx, os.path.join(ctx.workdir, 'a'))
    B = World(sc, ctx, os.path.join(ctx.workdir, 'b'))
    A.build()
    B.twin = A
    B.build()
    compare(ctx, A, B, 'building')
    for o in sc['ops']:
        ctx.count(o['op'])
        if o.get('last'):
            last(sc, ctx, A, B, o)
            break
        if simple(ctx, A, B, o) is False:
            ctx.count('sweep without proper posterior')
            break


def compare(ctx, A, B, what, a=(), b=()):
    (x, y) = (digest(A, a), digest(B, b))
    ctx.event(what, x)

    def msg():
        d = {}
        for n in A.sim.names:
            d[n] = '%.3g' % maxdiff(A.sim.m.moments(n), B.sim.m.moments(n))
        return 'after %s: state %s, uninterrupted %s; differences of moments %s' % (what, y, x, d)
    ctx.check(x == y, 'not-recovered', msg)


def simple(ctx, A, B, o):
    k = o['op']
    what = '%s %s' % (k, o.get('n', ''))
    plan = o['strikes']
    # (the twin counts the steps)
    c = Striker(plan[0]) if plan else None
    ra = A.ask(o, c)
    order = list(A.order)
    index = {id(p): i for (i, p) in enumerate(all_parts(A))}
    seq = [index[id(p)] for p in order]
    skip = (o.get('n'),) if k in ('obs', 'unobs') else tuple(B.sim.obs) if k == 'load' else ()
    done = []
    parts = all_parts(B)
    resumed = False
    torn = []
    for s in plan:
        n = c.n
        if n == 0:
            break
        sb = dict(s, op=plan[0]['op'], cap=plan[0]['cap'])
        cb = Striker(sb, 1 + int(s['at'] * n))
        data = B.observed(skip)
        rec = B.records()
        old = B.content() if k == 'save' else None
        before = digest(B, ()) if k in ('query', 'draw', 'density', 'save', 'bad') else None
        rb = B.ask(o, cb)
        if ra[0] == 'raised' and cb.fired is None or k == 'bad' and rb[0] == 'done':
            continue
        hit = B.struck(cb, rb, sb, what)
        B.survived(data, rec, o, skip)
        del rb
        B.keep(cb)
        if hit and before is not None:
            now = digest(B, ())
            ctx.check(now == before, 'changed-by-looking', lambda: 'interrupting %s changed the state' % what)
        if k == 'save' and hit:
            try:
                new = B.content()
            except OSError as e:
                new = repr(e)
            torn.append((old, new))
        if k == 'sweep' and hit and ra[0] == 'raised':
            # (an update without a proper posterior: nothing to compare)
            return False
        if k == 'sweep' and hit:
            # what was completed stays completed: go on from there
            got = [parts.index(p) for p in B.order]
            ctx.check(got == seq[:len(got)], 'not-recovered', lambda: 'order of updates %s, %s' % (got, seq))
            for i in seq[len(got):]:
                parts[i].update()
            B.sim.dirty = set(A.sim.dirty)
            B.resumed = resumed = True
            break
    if not resumed:
        rb = B.ask(o)
        ctx.check(ra[0] == rb[0] and (ra[0] == 'done' or type(ra[1]) is type(rb[1])), 'not-recovered',
                  lambda: 'repeating %s gave %r, uninterrupted %r' % (what, rb, ra))
        B.sim.pool = A.sim.pool
    else:
        rb = ra
    for (old, new) in torn:
        ctx.check(new in (old, B.content()), 'file-torn',
                  lambda: 'interrupting save left a file that is neither the old nor the new one (%s)' % new)
    a = ra[1] if ra[0] == 'done' else []
    b = rb[1] if rb[0] == 'done' else []
    lists = (list, tuple)
    compare(ctx, A, B, what, a if isinstance(a, lists) else [], b if isinstance(b, lists) else [])


def all_parts(w):
    return [p for n in w.sim.names for p in w.sim.m.parts(n)]


def last(sc, ctx, A, B, o):
    """An interrupted search may leave any posterior, but nothing else."""
    k = o['op']
    names = A.sim.updatable()
    for w in (A, B):
        try:
            for n in names:
                w.sim.update(n)
        except Violation:
            return
    if A.sim.dirty or any(not A.sim.finite_params(n) and not A.sim.fully_observed(n) for n in A.sim.spec.stoch):
        ctx.count('no proper posterior')
        return
    s = o['strikes'][0]
    c = Striker(s, s['at'])
    data = B.observed()
    rec = B.records()
    rb = B.ask(o, c)
    if c.fired is None:
        if B.resumed:
            # (the record of the resumed sweep is missing, so the convergence
            # of this run may be noticed later)
            return
        ra = A.ask(o)
        ctx.check(ra[0] == rb[0], 'not-recovered', lambda: '%s: %r, %r' % (k, ra, rb))
        return compare(ctx, A, B, k)
    hit = B.struck(c, rb, s, k, absorb=k in ('opt', 'pattern'))
    B.survived(data, rec, o, ())
    del rb
    B.keep(c)
    # a sweep makes everything consistent again
    lat = [n for n in names if not B.sim.fully_observed(n)]
    order = [lat[int(i)] for i in np.random.default_rng(o['seed']).permutation(len(lat))]
    try:
        for n in order + order:
            B.sim.update(n)
    except Violation as v:
        raise Violation('not-recovered', 'a sweep after interrupting %s fails: %s' % (k, v))
    c02.compare(B.sim, ctx, 'recovery')
    if not order:
        return
    # and the same posterior leads to the same future
    for n in A.sim.names:
        if n in lat and A.sim.spec.is_stoch(n):
            p = A.sim.m.node[n].get_parameters()
            for w in (A, B):
                w.sim.m.node[n].set_parameters([x.copy() for x in p])
        elif n in lat:
            x = A.sim.m.moments(n)[0]
            for w in (A, B):
                w.sim.m.init_value(n, np.array(x))
    for i in range(2):
        for n in order:
            for w in (A, B):
                w.sim.Q.update(*w.sim.m.parts(n), verbose=False, tol=-np.inf)
        for n in A.sim.names:
            d = maxdiff(A.sim.m.moments(n), B.sim.m.moments(n))
            ctx.maxerr = max(ctx.maxerr, d if np.isfinite(d) else 0)
            ctx.check(d < 1e-6, 'not-recovered', lambda: 'interrupting %s left a trace: %s differs by %.3g after %d sweeps '
                      'from the same posterior' % (k, n, d, i + 1))
        (ta, tb) = (A.sim.Q.L[A.sim.Q.iter - 1], B.sim.Q.L[B.sim.Q.iter - 1])
        ctx.check(abs(ta - tb) <= 1e-6 * (1 + abs(ta)) or (np.isnan(ta) and np.isnan(tb)), 'not-recovered',
                  lambda: 'recorded bound %.15g, uninterrupted %.15g' % (tb, ta))
    ctx.event('recovered', k)

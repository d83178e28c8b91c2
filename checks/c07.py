"""C07: iteration control and records."""

import io
import logging
import os
import sys
import time
import warnings

import numpy as np

from sim.engine import Sim, OpGen, base_scenario, FAST
from checks import c04

ID = 'C07'
LEVEL = 'exploration'
LEVEL_NOTE = ('A reference state machine of the iteration control (sweeps, records, convergence, autosaves, callbacks) is '
              'run next to the real engine under a simulated clock with jumps, with failing updates, bounds, callbacks, '
              'prints and autosaves injected at seeded positions.')
RUNS = dict(quick=2000, thorough=12000)
STATE_RULE = 'distinct (control operation, limit, tolerance, callback kind, fault, outcome) cases'
COMPONENTS = dict(real=['VB.update/_end_iteration_step/set_annealing/set_autosave/set_callback', 'all nodes', 'autosave'],
                  stub=['clock', 'standard output and log handler', 'progress bar', 'injected exceptions'])
ASSUMPTIONS = ['an iteration whose update, callback, bound or printing raised has no record; one whose autosave raised has']
SHRINK = ['events']
SMALL = ['normal', 'regression', 'dot3', 'betas', 'counts', 'discrete', 'mvn', 'mixture', 'addition',
         'concatenate', 'choose', 'gating', 'pca', 'indexing', 'hmm']
CB = ['none', 'scalar', 'scalar', 'vector', 'sometimes', 'matrix', 'mutate', 'anneal', 'raise', 'unset']
FAULTS = ['update', 'bound', 'callback', 'print', 'autosave', 'warning']
EXC = ['KeyboardInterrupt', 'MemoryError', 'LinAlgError', 'Boom']


class Boom(Exception):
    pass


EX = dict(KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError, LinAlgError=np.linalg.LinAlgError, Boom=Boom)


def generate(seed, tier):
    rng0 = np.random.default_rng([seed, 3])
    sc, rng = base_scenario(seed, family=str(rng0.choice(SMALL)))
    g = OpGen(sc, rng)
    ev = []
    wishart = any(x['kind'] == 'Wishart' for x in sc['spec']['nodes'])
    for _ in range(int(rng.integers(3, 9 if tier == 'quick' else 20))):
        u = rng.random()
        if u < 0.55:
            names = [str(x) for x in rng.permutation(g.names)]
            style = rng.random()
            if style < 0.3:
                names = []
            elif style < 0.5:
                names = names[:int(rng.integers(1, len(names) + 1))]
            elif style < 0.65:
                names = names + [g.pick(names)]
            e = dict(ev='update', names=names, by=g.pick(['node', 'name']),
                     repeat=g.pick([1, 1, 2, 3, 5, 8, 20, 0, None, 105, 210 if tier != 'quick' else 3]),
                     tol=g.pick([None, None, -np.inf, 1e-2, 1e-3, 1e-5, 1e-8, 0.5, 0, 0.0, -0.1]),
                     verbose=bool(rng.random() < 0.5), tqdm=bool(rng.random() < 0.3))
            if e['repeat'] is None:
                e['tol'] = g.pick([1e-2, 1e-3, None, 0.0])
            if rng.random() < 0.35:
                e['fault'] = dict(kind=g.pick(FAULTS), at=int(rng.integers(0, 8)), exc=g.pick(EXC))
            ev.append(e)
        elif u < 0.63:
            ev.append(dict(ev='cb', style=g.pick(CB), k=int(rng.integers(1, 6)), exc=g.pick(EXC),
                           op=g.op(g.pick(['obs', 'initv', 'upd'])), a=float(rng.choice([0.5, 0.9, 1.0]))))
        elif u < 0.7:
            ev.append(dict(ev='autosave', n=int(rng.integers(0, 4)), nodes=[g.pick(g.names)] if rng.random() < 0.4 else None,
                           keep=bool(rng.random() < 0.3)))
        elif u < 0.76 and not wishart:
            ev.append(dict(ev='ann', a=float(rng.choice([0.3, 0.6, 0.9, 1.0]))))
        elif u < 0.8:
            ev.append(dict(ev='checks', ignore=bool(rng.random() < 0.5)))
        elif u < 0.85:
            ev.append(dict(ev='clock', jump=float(rng.choice([-1e6, -1.0, 3600.0, 1e9]))))
        elif u < 0.9:
            ev.append(dict(ev='logging', on=bool(rng.random() < 0.6)))
        else:
            ev.append(dict(ev='op', op=g.op(g.pick(['obs', 'unobs', 'initv', 'initp', 'upd']))))
    sc['events'] = ev
    sc['vbtol'] = g.pick([None, 1e-2, 1e-4, 1e-7, 0.0, 0.5])
    sc['auto0'] = int(rng.choice([0, 0, 0, 1, 2]))
    sc['log0'] = bool(rng.random() < 0.15)
    sc['det'] = bool(rng.random() < 0.3)
    sc['dup'] = bool(rng.random() < 0.2)
    sc['cost'] = [float(x) for x in np.round(rng.uniform(0.001, 2.0, size=3), 3)]
    return sc


class Clock:
    """Simulated wall clock; monotonic clocks do not see its jumps."""

    def __init__(self):
        self.t = 0.0
        self.wall = 1.7e9
        self.used = 0

    def advance(self, dt):
        self.t += dt

    def time(self):
        self.used += 1
        return self.wall + self.t

    def mono(self):
        self.used += 1
        return 5.0 + self.t

    def __enter__(self):
        self.old = {n: getattr(time, n) for n in ('time', 'perf_counter', 'monotonic', 'process_time')}
        time.time = self.time
        time.perf_counter = time.monotonic = time.process_time = self.mono
        return self

    def __exit__(self, *a):
        for (n, f) in self.old.items():
            setattr(time, n, f)


class Out(io.TextIOBase):
    """Standard output which may fail."""

    def __init__(self):
        self.text = ''
        self.fail = None

    def write(self, s):
        if self.fail is not None:
            (n, e) = self.fail
            if n <= 0:
                self.fail = None
                self.fired = True
                raise e
            self.fail = (n - 1, e)
        self.text += s
        return len(s)

    fired = False


class Handler(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, r):
        self.lines.append(r.getMessage())


class Bar:
    """A progress bar in the style of tqdm."""
    made = None

    def __init__(self, total=None, **kw):
        self.total = total
        self.n = 0
        Bar.made = self

    def update(self, n=1):
        self.n += n

    def close(self):
        pass


class Driver:
    """The engine under test (real=True) or the reference twin, which does the
    same elementary operations by hand and keeps its own records."""

    def __init__(self, sc, ctx, clock, out, path, real):
        self.ctx, self.sc, self.clock, self.real, self.out = ctx, sc, clock, real, out
        kw = {}
        if real:
            if sc['vbtol'] is not None:
                kw['tol'] = sc['vbtol']
            if sc['auto0']:
                kw.update(autosave_filename=path, autosave_iterations=sc['auto0'])
            if sc['log0']:
                kw['use_logging'] = True
        self.s = Sim(sc, ctx, engine=False)
        from bayespy.inference import VB
        nodes = self.s.m.vb_nodes()
        if sc['det']:
            dets = [x for (k, x) in sorted(self.s.m.node.items()) if k not in self.s.names]
            for x in dets:
                if x not in nodes and hasattr(x, 'lower_bound_contribution') and x.name:
                    nodes = nodes + [x]
        if sc['dup']:
            nodes = nodes + nodes[:2]
        self.Q = VB(*nodes, **kw)
        self.s.Q = self.Q
        self.tol = sc['vbtol'] if sc['vbtol'] is not None else 1e-5
        self.order = [n for n in self.Q.model]
        self.det = [n.name for n in self.order if not hasattr(n, 'save')]
        self.cb = dict(style='none')
        self.ncb = 0
        self.log = []
        self.plan = None
        self.fired = None
        self.instrument()

    def instrument(self):
        """Watch updates and bound evaluations; let them take simulated time."""
        (cu, cb, self.cc) = self.sc['cost']
        for node in self.order:
            def wrap(node=node):
                upd = getattr(node, 'update', None)
                low = node.lower_bound_contribution
                if callable(upd):
                    def update(*a, **k):
                        self.hit('update')
                        self.clock.advance(cu)
                        self.t_upd += cu
                        self.log.append(node.name)
                        r = upd(*a, **k)
                        return r
                    node.update = update

                def lower(*a, **k):
                    self.hit('bound')
                    self.clock.advance(cb)
                    self.t_bound += cb
                    return low(*a, **k)
                node.lower_bound_contribution = lower
            wrap()
        self.t_upd = self.t_bound = 0.0

    def hit(self, kind):
        p = self.plan
        if p is None or p['kind'] != kind or not self.armed:
            return
        if p['at'] == 0:
            self.plan = None
            e = EX[p['exc']]('injected')
            self.fired = e
            raise e
        self.plan = dict(p, at=p['at'] - 1)

    armed = False

    def callback(self):
        """What the user's function does and returns."""
        self.hit('callback')
        self.ncb += 1
        self.clock.advance(self.cc)
        c = self.cb
        st = c['style']
        s = self.s
        arm, self.armed = self.armed, False
        (tu, tb) = (self.t_upd, self.t_bound)
        try:
            if st == 'scalar':
                return float(self.ncb)
            if st == 'vector':
                return np.array([1.0, self.ncb, self.ncb ** 2])
            if st == 'matrix':
                return self.ncb * np.ones((2, 3))
            if st == 'sometimes':
                return self.ncb if self.ncb % c['k'] == 0 else None
            if st == 'mutate':
                s.do(c['op'])
            if st == 'anneal':
                self.anneal(c['a'])
            if st == 'unset':
                self.set_cb(dict(style='none'))
            if st == 'raise' and self.ncb % c['k'] == 0:
                e = EX[c['exc']]('injected')
                self.fired = e
                raise e
        finally:
            self.armed = arm
            (self.t_upd, self.t_bound) = (tu, tb)
        return None

    def set_cb(self, c):
        self.cb = c
        if self.real:
            self.Q.set_callback(None if c['style'] == 'none' else self.callback)

    def anneal(self, a):
        self.s.ann = a
        if self.real:
            self.Q.set_annealing(a)
        else:
            for n in self.order:
                n.annealing = a


class Book:
    """The reference records."""

    def __init__(self):
        self.iter = 0
        self.L = []
        self.l = []
        self.cpu = []
        self.out = None
        self.converged = False
        self.changed = False
        self.ignore = False
        self.auto = 0
        self.auto_nodes = None


def execute(sc, ctx):
    root = os.path.join(ctx.workdir, 'd')
    os.makedirs(root)
    path = os.path.join(root, 'auto.hdf5')
    out = Out()
    handler = Handler()
    logger = logging.getLogger('bayespy.inference.vmp.vmp')
    old = (sys.stdout, logger.level, logger.propagate)
    logger.addHandler(handler)
    logger.setLevel(logging.INFO)
    logger.propagate = False
    sys.stdout = out
    try:
        with Clock() as clock:
            run(sc, ctx, clock, out, handler, path)
            ctx.sim_time += clock.t
    finally:
        (sys.stdout, logger.level, logger.propagate) = old
        logger.removeHandler(handler)


def run(sc, ctx, clock, out, handler, path):
    R = Driver(sc, ctx, clock, out, path, True)      # real engine
    M = Driver(sc, ctx, clock, out, path, False)     # reference
    B = Book()
    B.auto = sc['auto0']
    lines = dict(log=sc['log0'])
    ctx.sample = dict(family=sc['spec']['family'], events=[(e['ev'], e.get('repeat'), e.get('tol'), e.get('fault'))
                                                           for e in sc['events']])
    autopath = path if sc['auto0'] else None
    for e in sc['events']:
        k = e['ev']
        if k == 'cb':
            for d in (R, M):
                d.set_cb(e)
            B.out = B.out if e['style'] in ('none',) else B.out
            # (outputs of different shapes cannot be recorded together)
            kind = dict(scalar=(), sometimes=(), vector=(3,), matrix=(2, 3)).get(e['style'])
            if kind is not None and B.out is not None and np.shape(B.out[0]) != kind:
                for d in (R, M):
                    d.set_cb(dict(style='none'))
        elif k == 'autosave':
            autopath = path
            B.auto_nodes = e['nodes']
            if not e['keep']:
                B.auto = e['n']
            R.Q.set_autosave(path, iterations=None if e['keep'] else e['n'],
                             nodes=None if e['nodes'] is None else list(e['nodes']))
        elif k == 'ann':
            for d in (R, M):
                d.anneal(e['a'])
            B.changed = True
            B.converged = False
        elif k == 'checks':
            R.Q.ignore_bound_checks = e['ignore']
            B.ignore = e['ignore']
        elif k == 'clock':
            clock.wall += e['jump']
            ctx.fault('clock jump')
        elif k == 'logging':
            R.Q.use_logging(e['on'])
            lines['log'] = e['on']
        elif k == 'op':
            for d in (R, M):
                d.s.do(e['op'])
        else:
            update(sc, ctx, clock, out, handler, lines, R, M, B, e, path, autopath)
        records(ctx, R, M, B)
        ctx.event(k, B.iter, B.converged)


def records(ctx, R, M, B):
    Q = R.Q
    it = B.iter
    ctx.check(int(Q.iter) == it, 'iteration-count', lambda: 'iteration count is %r, %d sweeps were completed' % (Q.iter, it))
    ctx.check(bool(Q.converged) == B.converged and bool(Q.has_converged()) == B.converged, 'convergence-flag',
              lambda: 'converged is %r, expected %r' % (Q.converged, B.converged))
    ctx.check(len(Q.L) >= it and len(Q.cputime) >= it and all(len(Q.l[n]) >= it for n in R.order), 'records',
              'fewer records than iterations')

    def same(kind, a, b, what, tol=1e-9):
        d = c04.close(a, b, 0)
        ctx.check(d <= tol, kind, lambda: '%s: %s, expected %s' % (what, np.asarray(a).ravel()[-4:], np.asarray(b).ravel()[-4:]))
    same('bound-record', Q.L[:it], B.L, 'recorded bounds')
    for (n, m) in zip(R.order, M.order):
        same('bound-record', Q.l[n][:it], [x[m] for x in B.l], 'recorded bounds of ' + n.name)
        same('bound-record', Q.get_iteration_by_nodes()[n][:it], [x[m] for x in B.l], 'recorded bounds of ' + n.name)
    if R.clock.used:
        same('cpu-record', Q.cputime[:it], B.cpu, 'recorded CPU times', 1e-4)
    else:
        ctx.check(np.all(np.isfinite(Q.cputime[:it])), 'cpu-record', 'CPU times not recorded')
    co = Q.callback_output
    if B.out is None:
        ctx.check(co is None, 'callback-record', lambda: 'callback outputs %r, expected none' % (co,))
    else:
        want = np.moveaxis(np.array(B.out), 0, -1)
        ctx.check(co is not None and np.shape(co) == want.shape and np.allclose(co, want, rtol=1e-12), 'callback-record',
                  lambda: 'callback outputs %s, expected %s' % (np.asarray(co), want))
    (u, v) = (R.s.snapshot(), M.s.snapshot())
    for n in v:
        for (a, b) in zip(u[n], v[n]):
            same('state', a, b, 'moments of ' + n)


def sweep(M, names):
    for n in names:
        if hasattr(n, 'update'):
            n.update()


def update(sc, ctx, clock, out, handler, lines, R, M, B, e, path, autopath):
    byname = {n.name: n for n in M.order}
    want = [M.s.m.node[x] for x in M.s.updatable(e['names'] or M.s.names)]
    if not e['names'] and len(want) == len(M.s.names):
        (args, want) = ([], M.order)
    else:
        if not want:
            return
        args = [R.s.m.node[n] if e['by'] == 'node' else R.s.m.node[n].name for n in
                M.s.updatable(e['names'] or M.s.names)]
    fault = e.get('fault')
    repeat = e['repeat']
    if repeat is None and (B.ignore or M.cb['style'] in ('mutate', 'anneal')):
        repeat = 4
    kw = dict(repeat=repeat, verbose=e['verbose'])
    if e['tol'] is not None:
        kw['tol'] = e['tol']
    if e['tqdm']:
        Bar.made = None
        kw['tqdm'] = Bar
    if repeat is None and (not fault or fault['kind'] not in ('update', 'bound', 'callback') or fault['at'] < 0):
        # in case that it never converges
        fault = dict(kind='update', at=60 * len(want), exc='Boom')
    elif repeat is None:
        fault = dict(fault, kind='update')
    # -- the real thing
    R.log.clear()
    handler.lines.clear()
    out.text = ''
    out.fail, out.fired = None, False
    R.fired = M.fired = None
    R.plan = M.plan = None
    bad = False
    if fault:
        if fault['kind'] in ('update', 'bound', 'callback'):
            R.plan, M.plan = dict(fault), dict(fault)
        elif fault['kind'] == 'print' and e['verbose'] and not lines['log']:
            out.fail = (fault['at'], BrokenPipeError('injected'))
        elif fault['kind'] == 'autosave' and B.auto and autopath:
            bad = True
            os.rename(os.path.dirname(path), os.path.dirname(path) + '.away')
    it0 = B.iter
    R.armed = True
    got = None
    mark = {}
    with warnings.catch_warnings(record=True) as W:
        warnings.simplefilter('error' if fault and fault['kind'] == 'warning' else 'always')
        try:
            R.Q.update(*args, **kw)
        except (Exception, KeyboardInterrupt) as ex:
            from sim.core import Violation, HarnessError, Hang
            if isinstance(ex, (Violation, HarnessError, Hang)):
                raise
            got = ex
    R.armed = False
    if bad:
        os.rename(os.path.dirname(path) + '.away', os.path.dirname(path))
    decreased = [w for w in W if 'decreased' in str(w.message)]
    # -- the reference
    tol = e['tol'] if e['tol'] is not None else M.tol
    M.log.clear()
    M.armed = True
    i = 0
    stop = None
    ndec = 0
    texts = []
    ticks = 0
    due = []
    engine_iters = int(R.Q.iter) - it0
    while repeat is None or i < repeat:
        M.t_upd = M.t_bound = 0.0
        if isinstance(got, BrokenPipeError) and i > 0 and len(R.log) == len(M.log):
            stop = BrokenPipeError       # e.g. the line about the autosave
            break
        try:
            sweep(M, want)
            ticks += 1
            i += 1
            z = M.callback() if M.cb['style'] != 'none' else None
            if B.changed or M.cb['style'] == 'anneal':
                pass
            terms = {n: float(n.lower_bound_contribution()) for n in M.order}
        except BaseException as ex:
            if ex is not M.fired:
                raise
            stop = ex
            break
        if M.cb['style'] == 'anneal':
            B.changed = True
        L = sum(terms.values())
        cpu = M.t_upd + M.t_bound
        lines_now = ['Iteration %d:' % (B.iter + 1)] if e['verbose'] else []
        # a failing print
        conv = False
        if not B.ignore and not B.changed and B.iter > 0:
            L0 = B.L[-1]
            if L0 - L > 1e-6:
                ndec += 1
                if fault and fault['kind'] == 'warning':
                    stop = UserWarning
            with np.errstate(all='ignore'):
                r = np.float64(L - L0) / np.float64(0.5 * (abs(L0) + abs(L)))
            conv = bool(r < tol)
            if abs(r - tol) <= 1e-9 * abs(tol) + 1e-14 and np.isfinite(r):
                # undecidable by rounding: what did the engine decide?
                conv = engine_iters == B.iter + 1 - it0 and bool(R.Q.converged)
            if conv and e['verbose']:
                lines_now.append('Converged at iteration %d' % (B.iter + 1))
        if isinstance(got, BrokenPipeError) and engine_iters == B.iter - it0:
            # the print of this iteration failed: it has no record
            stop = BrokenPipeError
        if stop is not None:
            break
        texts += lines_now
        B.L.append(L)
        B.l.append(terms)
        B.cpu.append(cpu)
        if z is not None:
            B.out = (B.out or []) + [np.array(z)]
        B.converged = conv
        B.changed = False
        B.iter += 1
        if B.auto > 0 and B.iter % B.auto == 0:
            due.append(B.iter)
            if bad:
                stop = OSError
                break
        if conv:
            break
    M.armed = False
    if isinstance(got, BrokenPipeError) and stop is None and due and len(R.log) == len(M.log):
        stop = BrokenPipeError
    # -- compare
    what = 'update(repeat=%r, tol=%r)%s' % (e['repeat'], e['tol'], ' with a failing ' + fault['kind'] if fault else '')
    if stop is None:
        if got is not None:
            raise got
    elif isinstance(stop, type):
        ctx.check(isinstance(got, stop), 'exception', lambda: '%s raised %r instead of %s' % (what, got, stop.__name__))
    else:
        ctx.check(got is R.fired and type(got) is type(stop), 'exception',
                  lambda: '%s raised %r instead of the exception of the user (%r)' % (what, got, stop))
    if fault and stop is not None:
        ctx.fault('failing ' + fault['kind'])
    elif stop is not None:
        ctx.fault('failing callback')
    if stop is None:
        ctx.check(engine_iters == B.iter - it0, 'sweep-count', lambda: '%s made %d sweeps, expected %d (converged %s, last bounds %s)'
                  % (what, engine_iters, B.iter - it0, B.converged, B.L[-3:]))
    ctx.check(R.log == M.log, 'update-order', lambda: '%s updated %s, expected %s' % (what, R.log[:12], M.log[:12]))
    if stop is None:
        ctx.check(len(decreased) == ndec, 'decrease-warning', lambda: '%d warnings of a decreasing bound, expected %d'
                  % (len(decreased), ndec))
    if e['tqdm']:
        ctx.check(Bar.made is not None and Bar.made.total == repeat, 'progress', 'wrong total of the progress bar')
        if stop is None:
            ctx.check(Bar.made.n == ticks, 'progress', lambda: '%d ticks for %d sweeps' % (Bar.made.n, ticks))
    if stop is None:
        got_lines = [x for x in (handler.lines if lines['log'] else out.text.split('\n'))]
        (other, _) = (out.text, 0) if lines['log'] else ('\n'.join(handler.lines), 0)
        ctx.check('Iteration' not in other, 'log-destination', 'iterations printed to the wrong place')
        its = [x for x in got_lines if x.startswith('Iteration') or x.startswith('Converged')]
        ctx.check(len(its) == len(texts) and all(a.startswith(b) for (a, b) in zip(its, texts)), 'log-lines',
                  lambda: 'printed %s, expected %s' % (its[:5], texts[:5]))
    if due and not bad:
        ctx.count('autosaves', len(due))
        import h5py
        with h5py.File(path, 'r') as f:
            n = int(f['iter'][()])
            L = f['L'][...]
            names = sorted(f['nodes'])
        ctx.check(n == due[-1], 'autosave', lambda: 'autosave of iteration %d, expected %d' % (n, due[-1]))
        ctx.check(np.array_equal(L[:n], np.array(R.Q.L[:n])), 'autosave', 'autosaved bounds differ')
        wantn = sorted(n.name for n in R.order) if B.auto_nodes is None else sorted(
            R.s.m.node[x].name for x in B.auto_nodes)
        have = [x for x in names]
        ctx.check([x for x in wantn if x in have or x not in R.det] == [x for x in have], 'autosave',
                  lambda: 'autosaved variables %s, expected %s' % (have, wantn))
    elif not due and autopath is None:
        ctx.check(not os.path.exists(path), 'autosave', 'a file was saved without request')
    ctx.count('sweeps', B.iter - it0)
    ctx.state(e['repeat'], e['tol'], R.cb['style'], fault and (fault['kind'], fault['at']), stop is not None, B.converged,
              B.ignore, B.auto, len(e['names']) > 0, e['tqdm'])

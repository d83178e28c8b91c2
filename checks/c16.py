"""C16: looking never changes anything, and draws are always valid.

Twin runs: one executes a history, the other executes it with queries injected
between (and, through engine callbacks, within) the operations; all states must
agree bit for bit.  Draws are judged under an adversarial random generator that
returns extreme but legal values, and their distribution against the reported
posterior."""

import math
import os
import warnings

import numpy as np
from scipy import stats, special

from sim.engine import Sim, OpGen, base_scenario, maxdiff
from sim.core import Violation
from sim import zoo, ref
from checks import c11, c12, c13, c15

ID = 'C16'
LEVEL = 'exploration'
LEVEL_NOTE = ('Seeded histories with 25 kinds of queries injected at seeded places (also during engine iterations), compared '
              'bit for bit with a twin that never looks; draws under a generator that returns extreme values must lie in the '
              'support; distributions of draws are compared with the reported moments (two-stage, 7 standard errors).')
RUNS = dict(quick=5000, thorough=12000)
STATE_RULE = 'distinct (mode, family, operations or queries or node) combinations'
COMPONENTS = dict(real=['everything'], stub=['random generator (adversarial mode)', 'plot window (file back end)'])
ASSUMPTIONS = ["queries draw from NumPy's global generator by design: every operation of both twins is seeded",
               'a draw may raise instead when it underflows to zero (as the library documents)']
SHRINK = ['ops', 'looks', 'inside', 'nodes']
MIX = dict(upd=5, sweep=3, obs=1.2, unobs=0.8, initv=1, initr=1, initp=0.7, setpar=0.8, gstep=1, opt=0.7, pattern=0.4,
           saveload=0.5, run=1.5)
QUERIES = ['moments', 'params', 'lb', 'bound', 'terms', 'rgrad', 'grad', 'logpdf', 'draw', 'draw', 'str', 'plot', 'save',
           'nodesave', 'bynodes', 'getitem', 'mask', 'pdfnodes', 'slice', 'child', 'child', 'child', 'detdraw', 'qgrads',
           'shape', 'loaduser', 'bound_all']
UTILS = ['categorical', 'categorical', 'bernoulli', 'multinomial', 'dirichlet', 'gamma', 'wishart', 'wishart', 'covariance',
         'correlation', 'orth', 'svd', 'sphere', 'mask', 'intervals']


def look(g, rng):
    return dict(q=str(rng.choice(QUERIES)), n=g.pick(g.names), k=int(rng.integers(1 << 20)))


def generate(seed, tier):
    rng = np.random.default_rng([seed, 16])
    mode = str(rng.choice(['look', 'look', 'look', 'look', 'posterior', 'posterior', 'extreme', 'utils', 'edges',
                           'predictive']))
    if mode == 'utils':
        return dict(mode=mode, seed=int(rng.integers(1 << 30)), f=str(rng.choice(UTILS)), p=float(rng.choice([0, 0.1, 0.5])))
    if mode == 'edges':
        return dict(mode=mode, seed=int(rng.integers(1 << 30)), p=float(rng.choice([0.1, 0.5, 0.9])))
    u = rng.random()
    if u < 0.1:
        (spec, rot) = [c11.rotfa, c11.rotlssm][int(rng.integers(2))](rng)
        (sc, r) = base_scenario(seed, spec=zoo.canonical(spec))
        sc['rot'] = rot
    else:
        # (most mixtures of the zoo have one vector of assignments)
        (sc, r) = base_scenario(seed, 'mixture' if mode == 'predictive' and rng.random() < 0.7 else None)
    sc['mode'] = mode
    g = OpGen(sc, rng)
    keys = list(MIX)
    w = np.array([MIX[k] for k in keys])
    ops = []
    for _ in range(int(rng.integers(1, 6 if tier == 'quick' else 10))):
        k = keys[int(rng.choice(len(keys), p=w / w.sum()))]
        o = c12.op(g, k, rng) if k in ('opt', 'pattern', 'saveload', 'run') else g.op(k)
        if 'rot' in sc and rng.random() < 0.3:
            o = dict(op='rot', maxiter=int(rng.integers(1, 4)), check=False)
        o['seed'] = int(rng.integers(1 << 30))
        ops.append(o)
    sc['ops'] = ops
    if mode == 'look':
        sc['looks'] = [[int(rng.integers(len(ops))), look(g, rng)] for _ in range(int(rng.integers(1, 12)))]
        sc['inside'] = [look(g, rng) for _ in range(int(rng.integers(0, 3)))] if rng.random() < 0.5 else []
        sc['autosave'] = int(rng.choice([0, 0, 1, 2]))
    else:
        sc['nodes'] = [n for n in g.names if rng.random() < 0.7]
        sc['p'] = float(rng.choice([0.1, 0.5, 0.9]))
    return sc


def execute(sc, ctx):
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        dict(look=looking, posterior=posterior, extreme=extreme, utils=utils, edges=edges, predictive=predictive)[sc['mode']](sc, ctx)


# -- looking -------------------------------------------------------------------

def looking(sc, ctx):
    A = Sim(sc, ctx)
    B = Sim(sc, ctx)
    ctx.sample = dict(family=sc['spec']['family'], ops=[o['op'] for o in sc['ops']], looks=[q['q'] for (i, q) in sc['looks']],
                      inside=[q['q'] for q in sc['inside']])
    keep = []
    eye = Eye(B, ctx, keep)
    if sc['autosave']:
        B.Q.set_autosave(os.path.join(ctx.workdir, 'auto.hdf5'), iterations=sc['autosave'])
    if sc['inside']:
        def callback():
            s = np.random.get_state()
            for q in sc['inside']:
                eye.look(q, inside=True)
            np.random.set_state(s)
        B.Q.set_callback(callback)
    ma = {}
    mb = {}
    history = []
    for (i, o) in enumerate(sc['ops']):
        for (j, q) in sc['looks']:
            if j == i:
                eye.look(q)
                history.append(q['q'])
        same(ctx, A, B, history)
        ctx.count(o['op'])
        out = []
        for (s, m, w) in ((A, ma, 'a'), (B, mb, 'b')):
            np.random.seed(o['seed'])
            out.append(c12.perform(s, dict(o), os.path.join(ctx.workdir, w + '.hdf5'), ctx, m))
        ctx.check(out[0][0] == out[1][0], 'changed-by-looking', lambda: 'operation %s went %s, after %s %s'
                  % (o['op'], out[0][0], history, out[1][0]))
        history.append(o['op'])
        same(ctx, A, B, history)
    ctx.state('look', sc['spec']['family'], sorted(set(history)))


def same(ctx, A, B, history):
    (x, y) = (state(A), state(B))
    ctx.event(history[-1:] or 'start', x)

    def msg():
        d = {n: '%.3g' % maxdiff(A.m.moments(n), B.m.moments(n)) for n in A.names}
        return 'after %s the state is not the same as without looking; differences of moments: %s' % (history[-6:], d)
    ctx.check(x == y, 'changed-by-looking', msg)


def state(s):
    try:
        i = s.Q.iter
        extra = [s.Q.L[:i]] + [s.Q.l[n][:i] for n in s.Q.model] + [i, float(s.Q.converged)]
        return c15.state(s, extra)
    except Exception as e:
        return type(e).__name__


class Eye:

    def __init__(self, sim, ctx, keep):
        self.sim = sim
        self.ctx = ctx
        self.keep = keep

    def look(self, q, inside=False):
        self.ctx.fault('query %s%s' % (q['q'], ' during an iteration' if inside else ''))
        np.random.seed(q['k'])
        try:
            self.query(q)
        except Exception as e:
            # (not every query exists for every variable)
            self.ctx.count('query %s raises' % q['q'])

    def query(self, q):
        sim = self.sim
        Q = sim.Q
        (w, n, k) = (q['q'], q['n'], q['k'])
        node = sim.m.node[n]
        import bayespy.nodes as bp
        import bayespy.plot as bpplt
        d = self.ctx.workdir
        if w == 'moments':
            node.get_moments()
        elif w == 'params':
            Q.get_parameters(node)
        elif w == 'lb':
            node.lower_bound_contribution(ignore_masked=bool(k % 2))
        elif w == 'bound':
            Q.compute_lowerbound()
        elif w == 'bound_all':
            Q.compute_lowerbound(ignore_masked=False)
        elif w == 'terms':
            Q.compute_lowerbound_terms(*([node] if k % 2 else []))
        elif w == 'rgrad':
            node.get_riemannian_gradient()
        elif w == 'grad':
            node.get_gradient(node.get_riemannian_gradient())
        elif w == 'qgrads':
            Q.get_gradients(node, euclidian=bool(k % 2))
        elif w == 'logpdf':
            x = node.random()
            (node.logpdf if k % 2 else node.pdf)(x)
        elif w == 'draw':
            for _ in range(1 + k % 3):
                node.random()
        elif w == 'str':
            if k % 2:
                str(node)
            else:
                node.show()
        elif w == 'plot':
            self.plot(node, bpplt, k)
        elif w == 'save':
            Q.save(filename=os.path.join(d, 'look.hdf5'))
        elif w == 'nodesave':
            node.save(os.path.join(d, 'node.hdf5'))
        elif w == 'bynodes':
            Q.get_iteration_by_nodes()
            Q.has_converged()
        elif w == 'getitem':
            Q[node.name]
            node in Q.model
        elif w == 'mask':
            node.get_mask()
        elif w == 'shape':
            [node.get_shape(i) for i in range(len(node.dims))]
        elif w == 'pdfnodes':
            node.get_pdf_nodes()
        elif w == 'loaduser':
            Q.load_user_data(os.path.join(d, 'look.hdf5'))
        elif w == 'slice':
            x = node[..., 0] if k % 2 else node[0]
            x.get_moments()
            self.keep.append(x)
        elif w == 'detdraw':
            dets = [m for m in sim.spec.names if m not in sim.names]
            if dets:
                x = sim.m.node[dets[k % len(dets)]]
                x.get_moments()
                x.random()
        elif w == 'child':
            self.child(n, node, bp, k)

    def child(self, n, node, bp, k):
        kind = self.sim.spec.nodes[n]['kind']
        if kind == 'Mixture':
            kind = self.sim.spec.nodes[n].get('inner', self.sim.spec.nodes[n].get('family', 'GaussianARD'))
        if 'nd' in self.sim.spec.nodes[n]:
            c = bp.GaussianARD(node, 2.0)
        elif kind in ('GaussianARD', 'GMC', 'SGMC', 'VGMC', 'GaussianGamma'):
            c = bp.GaussianARD(node, 2.0) if k % 2 else bp.GaussianARD(bp.Add(node, node.random() if k % 4 else node), 1.0)
        elif kind == 'Gaussian':
            D = node.dims[0][0]
            c = bp.Gaussian(node, np.identity(D))
        elif kind == 'Gamma':
            c = [lambda: bp.GaussianARD(0, node), lambda: bp.Poisson(node), lambda: bp.Gamma(2.0, node)][k % 3]()
        elif kind == 'Wishart':
            c = bp.Gaussian(np.zeros(node.dims[0][0]), node)
        elif kind == 'Dirichlet':
            c = bp.Categorical(node) if k % 2 else bp.Multinomial(3, node)
        elif kind == 'Beta':
            c = bp.Bernoulli(node) if k % 2 else bp.Binomial(4, node)
        elif kind == 'Categorical':
            K = node.dims[0][0]
            c = bp.Mixture(node, bp.GaussianARD, np.arange(K), 1.0)
        elif kind == 'CMC':
            K = node.dims[0][0]
            c = bp.Mixture(node, bp.Poisson, 1.0 + np.arange(K))
        elif kind in ('Bernoulli', 'Binomial', 'Multinomial', 'Poisson'):
            return
        else:
            c = bp.Gamma(node, 1.0)
        for x in range(1 + k % 3):
            c.update()
            c.get_moments()
            c.lower_bound_contribution()
        if k % 5 == 0:
            c.initialize_from_random()
        if k % 5 == 1:
            c.initialize_from_prior()
        c.random()
        self.ctx.count('prediction from ' + kind)
        if k % 7 < 3:
            c.delete()
        elif k % 7 < 6:
            self.keep.append(c)

    def plot(self, node, plt, k):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as pp
        Q = self.sim.Q
        f = [lambda: plt.hinton(node), lambda: plt.plot(node), lambda: plt.pdf(node, np.linspace(-2, 2, 7)),
             lambda: plt.contour(node, np.linspace(-1, 1, 4), np.linspace(-1, 1, 4)), lambda: Q.plot(node),
             lambda: Q.plot_iteration_by_nodes(), lambda: Q.plot_iteration_by_nodes(diff=True),
             lambda: Q.plot(), lambda: plt.timeseries_gaussian_mc(node), lambda: plt.timeseries_gaussian(node),
             lambda: plt.gaussian_hinton(node), lambda: plt.timeseries_categorical_mc(node),
             lambda: plt.gamma_hinton(node), lambda: plt.dirichlet_hinton(node), lambda: plt.beta_hinton(node),
             lambda: plt.bernoulli_hinton(node), lambda: plt.categorical_hinton(node),
             lambda: plt.plot_gaussian(node), lambda: plt.plot_bernoulli(node)]
        if k % 3:
            # (the natural ones for most kinds of variables)
            f = f[:2] + f[7:8]
        if node.has_plotter() or k % 7 == 0:
            node.set_plotter([plt.HintonPlotter(), plt.FunctionPlotter(), plt.PDFPlotter(np.linspace(-2, 2, 5)),
                              plt.GaussianHintonPlotter()][k // 7 % 4])
        f = f[k // 50 % len(f)]
        try:
            f()
        finally:
            pp.close('all')


# -- drawing -------------------------------------------------------------------

class Adversary:
    """NumPy's global generator, some of whose values are replaced by legal but
    extreme ones."""

    def __init__(self, seed, p, ctx=None):
        self.rng = np.random.default_rng(seed)
        self.p = p
        self.ctx = ctx
        self.old = {}

    def mix(self, x, choices):
        scalar = np.ndim(x) == 0
        x = np.array(x, dtype=np.result_type(x), ndmin=1)
        m = self.rng.random(x.shape) < self.p
        i = self.rng.integers(len(choices), size=x.shape)
        for (j, c) in enumerate(choices):
            w = m & (i == j)
            x[w] = np.broadcast_to(c, x.shape)[w]
        if self.ctx is not None:
            self.ctx.fault('extreme random values', int(np.sum(m)))
        return x[0] if scalar else x

    def uniform01(self, x):
        return self.mix(x, [0.0, 2.0 ** -53, 1 - 2.0 ** -53, 0.5])

    def __enter__(self):
        o = {k: getattr(np.random, k) for k in ('rand', 'random', 'random_sample', 'uniform', 'randn', 'standard_normal',
                                               'normal', 'gamma', 'standard_gamma', 'binomial', 'poisson', 'multinomial',
                                               'dirichlet', 'multivariate_normal', 'beta', 'choice')}
        self.old = o
        z = [0.0, -0.0, 8.2, -8.2, 1e-17]

        def gamma(a, scale=1.0, size=None):
            x = o['gamma'](a, scale, size=size)
            return self.mix(x, [stats.gamma.ppf(q, a) * scale for q in (1e-15, 1e-6, 1 - 1e-12)])

        def binomial(n, p, size=None):
            x = o['binomial'](n, p, size=size)
            return self.mix(x, [np.where(np.asarray(p) < 1, 0, n), np.where(np.asarray(p) > 0, n, 0)])

        def poisson(lam=1.0, size=None):
            x = o['poisson'](lam, size)
            return self.mix(x, [0 * np.asarray(lam), stats.poisson.ppf(1 - 1e-12, lam)])

        def multinomial(n, p, size=None):
            x = o['multinomial'](n, p, size=size)
            if self.rng.random() < self.p:
                p = np.asarray(p)
                k = self.rng.choice(np.nonzero(p > 0)[0])
                x = np.zeros_like(x)
                x[..., k] = n
            return x
        new = dict(
            rand=lambda *s: self.uniform01(o['rand'](*s)),
            random=lambda size=None: self.uniform01(o['random'](size)),
            random_sample=lambda size=None: self.uniform01(o['random_sample'](size)),
            uniform=lambda low=0.0, high=1.0, size=None: low + (np.asarray(high) - low) * self.uniform01(o['uniform'](0.0, 1.0, np.broadcast(low, high).shape if size is None else size)),
            randn=lambda *s: self.mix(o['randn'](*s), z),
            standard_normal=lambda size=None: self.mix(o['standard_normal'](size), z),
            normal=lambda loc=0.0, scale=1.0, size=None: loc + scale * self.mix(o['normal'](0 * (loc + np.asarray(scale)), 1.0, size), z),
            gamma=gamma, standard_gamma=lambda a, size=None: gamma(a, 1.0, size),
            binomial=binomial, poisson=poisson, multinomial=multinomial)
        for (k, f) in new.items():
            setattr(np.random, k, f)
        return self

    def __exit__(self, *a):
        for (k, f) in self.old.items():
            setattr(np.random, k, f)


def inner(spec, n):
    k = spec.nodes[n]['kind']
    return c12kind(spec.nodes[n]) if k == 'Mixture' else k


def c12kind(d):
    from checks.c01 import inner_kind
    return inner_kind(d)


def ready(sc, ctx):
    """A model in some state, with proper posteriors."""
    sim = Sim(sc, ctx)
    mem = {}
    for o in sc['ops']:
        np.random.seed(o['seed'])
        c12.perform(sim, dict(o), os.path.join(ctx.workdir, 'a.hdf5'), ctx, mem)
    for n in sorted(sim.dirty):
        try:
            sim.update(n)
        except Violation:
            pass
    return sim


def testable(sim, n):
    """Unobserved elements with a proper posterior."""
    if n in sim.dirty or sim.spec.is_point(n) or not sim.finite_params(n):
        return None
    if not all(np.all(np.isfinite(u)) for u in sim.m.moments(n)):
        return None
    if any(o['op'] == 'opt' for o in sim.sc['ops']) and not np.all(sim.m.node[n].mask):
        # (the bound ignores those elements, so nothing keeps gradient steps valid)
        return None
    free = ~np.broadcast_to(sim.obs_mask(n), sim.shape(n))
    return free if np.any(free) else None


def draw(node, ctx, what, underflow=True):
    try:
        return node.random()
    except NotImplementedError:
        return None
    except RuntimeError as e:
        if 'Numerically zero' in str(e):
            ctx.count('draw underflows')
            return None
        raise Violation('draw-failed', 'drawing %s raised %r' % (what, e))
    except Exception as e:
        raise Violation('draw-failed', 'drawing %s raised %r' % (what, e))


def extreme(sc, ctx):
    sim = ready(sc, ctx)
    ctx.sample = dict(family=sc['spec']['family'], nodes=sc['nodes'])
    for (i, n) in enumerate(sc['nodes']):
        free = testable(sim, n)
        if free is None:
            continue
        node = sim.m.node[n]
        kind = inner(sim.spec, n)
        u = sim.m.moments(n)
        for j in range(4):
            np.random.seed((sc['seed'] + 7 * i + j) % 2 ** 31)
            with Adversary([sc['seed'], i, j], sc['p'], ctx):
                x = draw(node, ctx, '%s (%s)' % (n, kind))
            if x is None:
                break
            support(ctx, kind, lead(ctx, x, node, u, n), u, free, n, tuple(node.dims[0]))
            ctx.count('draw ' + kind)
        ctx.state('extreme', sc['spec']['family'], n, kind)


def lead(ctx, x, node, u, n):
    """A draw without the explicit unit plates."""
    if isinstance(x, tuple):
        return tuple(lead(ctx, y, node, u, n) for y in x)
    x = np.asarray(x)
    k = len(node.plates)
    ctx.check(x.shape[:k] == tuple(node.plates), 'outside-support', lambda: 'a draw of %s with plates %s has shape %s'
              % (n, node.plates, x.shape))
    d = u[0].ndim - len(node.dims[0])
    return x.reshape(u[0].shape[:d] + x.shape[k:])


def support(ctx, kind, x, u, free, n, dims):
    def ok(c, why):
        ctx.check(bool(np.all(c)), 'outside-support', lambda: 'a draw of %s (%s) is not valid: %s: %s' % (n, kind, why, x))
    if kind == 'GaussianGamma':
        (x, alpha) = x
        ok(np.shape(alpha) == free.shape, 'shape')
        ok(np.asarray(alpha)[free] > 0, 'positive')
    x = np.asarray(x)
    plates = free.shape
    if kind in ('GaussianARD', 'Gaussian', 'GaussianGamma'):
        ok(x.shape == plates + dims, 'shape')
        ok(np.isfinite(x[free]), 'finite')
    elif kind == 'Gamma':
        ok(x.shape == plates, 'shape')
        ok((x[free] > 0) & np.isfinite(x[free]), 'positive')
    elif kind == 'Beta':
        ok(x.shape == plates, 'shape')
        ok((x[free] >= 0) & (x[free] <= 1), 'in [0, 1]')
    elif kind == 'Dirichlet':
        ok(x.shape == plates + dims, 'shape')
        ok((x[free] >= 0) & (x[free] <= 1), 'in [0, 1]')
        ok(np.abs(np.sum(x[free], axis=-1) - 1) < 1e-12, 'sums to one')
    elif kind == 'Categorical':
        ok(x.shape == plates, 'shape')
        K = u[0].shape[-1]
        ok((x[free] == np.floor(x[free])) & (x[free] >= 0) & (x[free] < K), 'a category')
        p = np.take_along_axis(u[0][free], np.asarray(x[free], dtype=int)[..., None], -1)[..., 0]
        ok(p > 0, 'positive probability')
    elif kind in ('Bernoulli', 'Poisson', 'Binomial'):
        ok(x.shape == plates, 'shape')
        ok((x[free] == np.floor(x[free])) & (x[free] >= 0), 'a count')
        ok((u[0][free] > 0) | (x[free] == 0), 'positive probability')
        if kind == 'Bernoulli':
            ok(x[free] <= 1, 'binary')
    elif kind == 'Multinomial':
        ok(x.shape == plates + dims, 'shape')
        ok((x[free] == np.floor(x[free])) & (x[free] >= 0), 'counts')
        ok(np.abs(np.sum(x[free], -1) - np.sum(u[0][free], -1)) < 1e-6, 'number of trials')
        ok((u[0][free] > 0) | (x[free] == 0), 'positive probability')
    elif kind == 'CMC':
        (z, zz) = onehot_chain(x, u)
        ok(x.shape == plates + (zz.shape[-3] + 1,), 'shape')
        ok((x >= 0) & (x < u[0].shape[-1]), 'a state')
        ok((z == 0) | (u[0] > 0), 'positive probability')
        ok((zz == 0) | (u[1] > 0), 'positive probability')


def onehot_chain(x, u):
    K = u[0].shape[-1]
    e = np.eye(K)[np.asarray(x, dtype=int)]
    return e[..., 0, :], e[..., :-1, :, None] * e[..., 1:, None, :]


def sample_moments(kind, x, u):
    """Sufficient statistics of a draw, as the library reports their means."""
    if kind in ('GaussianARD', 'Gaussian'):
        x = np.asarray(x, dtype=float)
        d = u[1].ndim - u[0].ndim
        return [x, outer(x, d)]
    if kind == 'GaussianGamma':
        (x, a) = x
        d = u[1].ndim - u[0].ndim
        e = np.asarray(a).reshape(np.shape(a) + (1,) * d)
        e2 = np.asarray(a).reshape(np.shape(a) + (2,) * 0 + (1,) * (2 * d))
        return [e * x, e2 * outer(np.asarray(x), d), a, np.log(a)]
    if kind == 'Gamma':
        return [x, np.log(x)]
    if kind == 'Beta':
        return [np.stack([np.log(x), np.log1p(-x)], -1)]
    if kind == 'Dirichlet':
        return [np.log(x)]
    if kind == 'Categorical':
        return [np.eye(u[0].shape[-1])[np.asarray(x, dtype=int)]]
    if kind in ('Bernoulli', 'Binomial', 'Poisson', 'Multinomial'):
        return [np.asarray(x, dtype=float)]
    if kind == 'CMC':
        return list(onehot_chain(x, u))
    return None


def outer(x, d):
    s = x.shape[x.ndim - d:]
    p = x.shape[:x.ndim - d]
    return x.reshape(p + s + (1,) * d) * x.reshape(p + (1,) * d + s)


COUNTS = ('Categorical', 'Bernoulli', 'Binomial', 'Poisson', 'Multinomial', 'CMC')


def posterior(sc, ctx):
    sim = ready(sc, ctx)
    ctx.sample = dict(family=sc['spec']['family'], nodes=sc['nodes'])
    for (i, n) in enumerate(sc['nodes'][:3]):
        free = testable(sim, n)
        if free is None:
            continue
        kind = inner(sim.spec, n)
        node = sim.m.node[n]
        u = sim.m.moments(n)
        follows(ctx, sc, i, node, kind, u, free, n)
        ctx.state('posterior', sc['spec']['family'], n, kind)
        density(ctx, sc, i, node, kind, u, free, n)
    for (i, n) in enumerate(sim.spec.names):
        if sim.spec.nodes[n]['kind'] == 'dot':
            function(ctx, sc, i, sim, n)


def function(ctx, sc, i, sim, n):
    """Draws of a function of variables: the function of their draws."""
    d = sim.spec.nodes[n]
    node = sim.m.node[n]
    refs = [p['ref'] for p in d['parents'] if 'ref' in p]
    if len(set(refs)) < len(refs) or any(r in sim.dirty or r not in sim.names or inner(sim.spec, r) not in ('GaussianARD', 'Gaussian')
                                         or sim.spec.nodes[r].get('nd') is not None for r in refs):
        return
    seed = (sc['seed'] + 17 * i) % 2 ** 31
    try:
        np.random.seed(seed)
        x = node.random()
        np.random.seed(seed)
        ds = [p.random() for p in node.parents]
    except (NotImplementedError, np.linalg.LinAlgError):
        ctx.count('no draws of functions')
        return
    except Exception as e:
        if isinstance(e, AttributeError) and '_compute_function' in str(e):
            # (a function of slices and the like cannot be drawn)
            ctx.count('no draws of functions')
            return
        raise Violation('draw-failed', 'drawing %s (a function) raised %r' % (n, e))
    if isinstance(x, tuple):
        return
    R = sim.ref
    sim.sync()
    R.obs = {}
    env = {}
    for (p, q, v) in zip(d['parents'], node.parents, ds):
        if 'ref' in p:
            sh = sim.shape(p['ref'])
            D = tuple(sim.m.node[p['ref']].dims[0])
            v = np.broadcast_to(v, tuple(q.plates) + D).reshape(tuple(sh) + D)
            for e in np.ndindex(*sh):
                env[(p['ref'], e)] = v[e]
    x = np.asarray(x)
    sizes = sim.spec.sizes(d['axes'])
    D = tuple(node.dims[0])
    try:
        x = np.broadcast_to(x, tuple(node.plates) + D).reshape(tuple(sizes) + D)
    except ValueError:
        ctx.check(False, 'draw-failed', lambda: 'a draw of %s has shape %s, its plates and dimensions are %s and %s'
                  % (n, x.shape, node.plates, D))
    for e in np.ndindex(*sizes):
        r = np.asarray(R.value(n, dict(zip(d['axes'], e)), env))
        ctx.check(np.allclose(x[e], r, rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(x), initial=0))), 'wrong-draw',
                  lambda: 'a draw of the function %s is %s, that of the draws of its arguments is %s' % (n, x[e], r))
    ctx.count('draws of functions')
    ctx.event('function', n, float(np.sum(x)))


def value_of(kind, rng, shape, D, trials):
    """Any valid values of a distribution."""
    if kind in ('GaussianARD', 'Gaussian'):
        return rng.normal(size=shape + D) * 2
    if kind == 'Gamma':
        return rng.gamma(2.0, size=shape)
    if kind == 'Beta':
        return rng.beta(2.0, 2.0, size=shape)
    if kind == 'Dirichlet':
        return rng.dirichlet(np.ones(D[0]) * 2, size=shape)
    if kind == 'Categorical':
        return rng.integers(0, D[0], size=shape)
    if kind == 'Multinomial':
        return rng.multinomial(trials, np.ones(D[0]) / D[0], size=shape)
    return rng.integers(0, dict(Bernoulli=1, Binomial=trials, Poisson=5)[kind] + 1, size=shape)


def predictive(sc, ctx):
    """The approximate predictive density of a mixture: the assignments are
    averaged over, the other parents in log scale."""
    sim = ready(sc, ctx)
    ctx.sample = dict(family=sc['spec']['family'], predictive=True)
    rng = np.random.default_rng(sc['seed'])
    for y in sim.names:
        d = sim.spec.nodes[y]
        if d['kind'] != 'Mixture' or 'clusters' in d or 'ref' not in d['parents'][0]:
            continue
        z = d['parents'][0]['ref']
        if sim.spec.nodes[z]['kind'] != 'Categorical' or any(q in sim.dirty for q in sim.names):
            continue
        if not all(np.all(np.isfinite(m)) for q in sim.names if q != y for m in sim.m.moments(q)):
            continue
        kind = d['inner']['kind']
        node = sim.m.node[y]
        trials = d['inner'].get('trials', 1)
        plates = tuple(node.plates)
        D = tuple(sim.spec.sizes(d['inner'].get('dim') or []))
        shape = ((2,) if rng.random() < 0.3 else ()) + plates
        x = value_of(kind, rng, shape, D, int(np.max(trials)))
        if np.ndim(trials):
            continue
        with ctx.call('predictive density of ' + y):
            L = node.integrated_logpdf_from_parents(x, 0)
        ctx.check(np.shape(L) == shape, 'wrong-density', lambda: 'the predictive density of %s with plates %s at values of shape %s '
                  'has shape %s' % (y, plates, x.shape, np.shape(L)))
        sim.sync()
        R = sim.ref
        R.obs = {k: v for (k, v) in R.obs.items() if k not in (y, z)}
        free = sim.shape(y)
        batch = shape[:len(shape) - len(plates)]
        L = np.reshape(L, batch + tuple(free))
        x = np.reshape(x, batch + tuple(free) + D[:0 if kind in ('Poisson', 'Bernoulli', 'Binomial', 'Categorical', 'Gamma', 'Beta') else None])
        za = sim.spec.nodes[z]['axes']
        for b in np.ndindex(*batch):
            for e in np.ndindex(*free):
                fix = dict(zip(d['axes'], e))
                ze = tuple(fix[a] for a in za)
                p = R.q[z][0][ze]
                ls = []
                for k in range(len(p)):
                    env = {(y, e): R.from_data(y, x[b + e]), (z, ze): k}
                    try:
                        l = sum(R.expect(lambda v: f({**v, **env})) for f in R.logp_terms(y, e))
                    except ref.Inconsistent:
                        return
                    ls.append(l + np.log(p[k]) if p[k] > 0 else -np.inf)
                r = special.logsumexp(ls)
                ctx.check(abs(L[b + e] - r) <= 1e-6 * (1 + abs(r)), 'wrong-density', lambda: 'the predictive log density of %s (%s) '
                          'at %s is %.9g, averaging over the assignments gives %.9g' % (y, kind, x[b + e], L[b + e], r))
                ctx.event('predictive', y, float(L[b + e]))
        ctx.count('predictive density of ' + kind)
        ctx.state('predictive', sc['spec']['family'], y, kind, len(batch))


CHAINS = ('GMC', 'VGMC', 'SGMC')
DENSITIES = ('GaussianARD', 'Gaussian', 'Gamma', 'Beta', 'Dirichlet', 'Wishart', 'Categorical', 'Bernoulli', 'Binomial', 'Poisson',
             'Multinomial', 'GaussianGamma', 'GMC', 'VGMC', 'SGMC')


def density(ctx, sc, i, node, kind, u, free, n):
    """The reported log density of a value is that of the posterior."""
    if kind not in DENSITIES:
        return
    np.random.seed((sc['seed'] + 31 * i) % 2 ** 31)
    x = draw(node, ctx, '%s (%s)' % (n, kind))
    if x is None and (kind == 'Wishart' or kind in CHAINS):
        # (not drawn by the library)
        x = np.random.default_rng(sc['seed']).normal(size=tuple(node.plates) + tuple(node.dims[0]))
        if kind == 'Wishart':
            D = x.shape[-1]
            x = x @ np.swapaxes(x, -1, -2) + 0.5 * np.eye(D)
    if x is None:
        return
    if (kind in ('Gamma', 'Beta', 'Dirichlet', 'GaussianGamma') and np.any(np.asarray(node.get_parameters()[-1]) < 0.05)):
        return
    k = len(node.plates)
    with ctx.call('logpdf %s (%s)' % (n, kind)):
        L = node.logpdf(x)
        P = node.pdf(x)
    y = lead(ctx, x, node, u, n)
    y = np.asarray(y) if kind != 'GaussianGamma' else dict((e, (y[0][e], y[1][e])) for e in np.ndindex(*free.shape))
    L = np.broadcast_to(L, tuple(node.plates)).reshape(free.shape)
    P = np.broadcast_to(P, tuple(node.plates)).reshape(free.shape)
    extra = [np.asarray(p) for p in node.phi]
    if kind in ('Binomial', 'Multinomial'):
        d = node._distribution
        while hasattr(d, 'raw_distribution'):
            d = d.raw_distribution
        extra = [np.asarray(d.N)]
        if extra[0].ndim and d is not node._distribution:
            return
    dims = [d if kind not in ('Binomial', 'Multinomial') else () for d in node.dims]
    extra = [np.broadcast_to(p, tuple(node.plates) + tuple(d)).reshape(free.shape + tuple(d)) for (p, d) in zip(extra, dims)]
    for e in np.ndindex(*free.shape):
        if not free[e]:
            continue
        r = log_density(kind, [m[e] for m in u], y[e], [p[e] for p in extra])
        if r is None:
            continue
        (r, scale) = r
        tol = 1e-6 * (1 + abs(r) + scale)
        ctx.check(abs(L[e] - r) <= tol, 'wrong-density', lambda: 'the log density of %s (%s) at %s is %.9g, that of its posterior is %.9g'
                  % (n, kind, y[e], L[e], r))
        ctx.check(abs(P[e] - np.exp(L[e])) <= 1e-9 * (P[e] + 1e-300), 'wrong-density', lambda: 'the density of %s is not the '
                  'exponential of its log density' % n)
        ctx.count('density of ' + kind)
        ctx.event('density', n, float(L[e]))


def log_density(kind, u, x, par):
    """Log density of a posterior with moments u, and the size of its terms.

    Where the moments do not give the parameters in closed form, par are the
    natural parameters (which are compared to the moments).
    """
    if kind in ('GaussianARD', 'Gaussian'):
        D = x.size
        m = u[0].reshape(D)
        C = u[1].reshape(D, D) - np.outer(m, m)
        d = np.sqrt(np.diag(u[1].reshape(D, D)))
        # (the covariance is a difference of moments)
        w = np.linalg.eigvalsh(C / np.outer(d, d)) if np.all(d > 0) else [0]
        if not np.min(w) > 1e-6:
            return None
        s = np.sqrt(np.diag(C))
        L = np.linalg.cholesky(C / np.outer(s, s))
        z = np.linalg.solve(L, (x.reshape(D) - m) / s)
        r = -0.5 * float(z @ z) - np.sum(np.log(np.diag(L))) - np.sum(np.log(s)) - 0.5 * D * np.log(2 * np.pi)
        return r, (float(z @ z) + D) * 1e-9 / np.min(w)
    if kind == 'Gamma':
        (m, ml) = (float(u[0]), float(u[1]))
        if not (x > 0 and m > 0) or np.log(m) - ml < 1e-6:
            return None
        a = ref.gamma_shape_from_moments(m, ml)
        r = ref.lp_gamma(float(x), a, a / m)
        return r, a * (1 + abs(np.log(m))) * 1e-3
    if kind in ('Beta', 'Dirichlet'):
        p = np.array([x, 1 - x]) if kind == 'Beta' else x
        if np.any(p <= 0) or np.any(p < 1e-12 * np.max(p)):
            return None
        a = par[0]
        if np.any(np.abs(special.digamma(a) - special.digamma(np.sum(a)) - u[0]) > 1e-6 * (1 + np.abs(u[0]))):
            return None
        # (one minus a rounded number)
        return ref.lp_dirichlet(np.log(p), a), np.sum(a) * 1e-9 / np.min(p)
    if kind == 'Wishart':
        V = -2 * par[0]
        k = 2 * float(par[1])
        if k < len(V) - 1 + 1e-3 or np.linalg.cond(V) > 1e8 or np.max(np.abs(np.linalg.inv(V) * k - u[0])) > 1e-6 * np.max(np.abs(u[0])):
            return None
        return ref.lp_wishart(x, k, V), k + float(np.sum(np.abs(V * x)))
    if kind in CHAINS:
        (T, D) = u[0].shape
        (m, C) = (u[0], u[1] - u[0][:, :, None] * u[0][:, None, :])
        X = u[2] - m[:-1, :, None] * m[1:, None, :]
        if min(np.min(np.linalg.eigvalsh(c)) / np.max(np.abs(s)) for (c, s) in zip(C, u[1])) < 1e-6:
            return None
        r = stats.multivariate_normal(m[0], C[0]).logpdf(x[0])
        scale = 0
        for t in range(T - 1):
            A = np.linalg.solve(C[t], X[t]).T
            S = C[t + 1] - A @ X[t]
            if np.min(np.linalg.eigvalsh(S)) < 1e-6 * np.max(np.abs(u[1][t:t + 2])):
                return None
            q = stats.multivariate_normal(m[t + 1] + A @ (x[t] - m[t]), S).logpdf(x[t + 1])
            r += q
            scale += abs(q)
        return float(r), scale
    if kind == 'GaussianGamma':
        (x, alpha) = x
        (x, alpha) = (np.asarray(x).reshape(-1), float(alpha))
        D = x.size
        Lam = -2 * par[1].reshape(D, D)
        mu = np.linalg.solve(Lam, par[0].reshape(D))
        a = float(par[3])
        b = -float(par[2]) - 0.5 * float(mu @ Lam @ mu)
        if not (a > 0 and b > 1e-6 * abs(par[2])) or abs(a / b - u[2]) > 1e-6 * u[2] or np.linalg.cond(Lam) > 1e8:
            return None
        return (ref.lp_mvn(x, mu, alpha * Lam) + ref.lp_gamma(alpha, a, b),
                a + alpha * (abs(par[2]) + float(np.abs(x) @ np.abs(Lam) @ np.abs(x))))
    return DISCRETE[kind](u, x, int(par[0]) if kind in ('Binomial', 'Multinomial') else 0) if kind in DISCRETE else None


def _categorical(u, x, extra):
    p = u[0][int(x)]
    return (float(np.log(p)), 0) if p > 0 else None


def _count(u, x, n):
    p = u[0] / n
    if n == 0 or not 0 < p < 1:
        return None
    # (close to one the moments do not tell the probability)
    return ref.lp_binomial(int(x), n, (np.log(p), np.log1p(-p))), (n - x) * 1e-9 / (1 - p)


def _multinomial(u, x, n):
    if n == 0:
        return None
    return ref.lp_multinomial(x, n, np.log(u[0] / n)), 0


DISCRETE = {'Categorical': _categorical, 'Bernoulli': lambda u, x, n: _count(u, x, 1), 'Binomial': _count, 'Multinomial': _multinomial,
            'Poisson': lambda u, x, n: (ref.lp_poisson(int(x), float(u[0])), 0) if u[0] > 0 else None}


def estimate(ctx, seed, node, kind, u, N, n, free):
    np.random.seed(seed)
    s = [np.zeros(np.shape(x)) for x in u]
    s2 = [np.zeros(np.shape(x)) for x in u]
    # (elements of the plates are drawn independently)
    w = np.random.default_rng([seed, 1])
    w = w.normal(size=u[0].shape[len(free.shape):])
    t = np.zeros((N, min(free.size, 16)))
    pick = np.argsort(~free.ravel(), kind='stable')[:t.shape[1]]
    for k in range(N):
        x = draw(node, ctx, '%s (%s)' % (n, kind))
        if x is None:
            return None
        m = sample_moments(kind, lead(ctx, x, node, u, n), u)
        if m is None:
            return None
        for (a, b, c) in zip(s, s2, m):
            a += c
            b += np.square(c)
        c = np.asarray(m[0], dtype=float) * w
        t[k] = np.sum(c.reshape(free.shape + (-1,)), axis=-1).ravel()[pick]
    t = t[:, free.ravel()[pick]]
    scale = np.sum(t * t, axis=0)
    t -= np.mean(t, axis=0)
    v = np.sum(t * t, axis=0)
    v[~(v > 1e-20 * scale)] = np.inf
    r = t.T @ t / np.sqrt(np.outer(v, v)) * np.sqrt(N)
    np.fill_diagonal(r, 0)
    return ([a / N for a in s], [np.maximum(b / N - (a / N) ** 2, 0) for (a, b) in zip(s, s2)],
            float(np.max(np.abs(np.nan_to_num(r)), initial=0)))


def bad(kind, u, est, N, free, z):
    worst = None
    for (i, (m, a, v)) in enumerate(zip(u, *est)):
        if kind in COUNTS:
            v = np.maximum(v, np.abs(m))
        slack = (15.0 / N if kind in COUNTS else 0) + 1e-7 * np.abs(m) + 1e-12
        d = np.abs(a - m) - slack
        t = d / np.sqrt(v / N + 1e-300)
        t = np.where(np.isfinite(a), t, 0)
        f = np.broadcast_to(free.reshape(free.shape + (1,) * (m.ndim - free.ndim)), m.shape) if kind != 'CMC' else True
        t = np.where(f, t, 0)
        if np.any(t > z):
            j = np.unravel_index(np.argmax(t), t.shape)
            worst = (i, tuple(map(int, j)), float(a[j]), float(m[j]), float(t[j]))
    return worst


def follows(ctx, sc, i, node, kind, u, free, n):
    if kind == 'Gamma' or kind == 'Beta' or kind == 'Dirichlet' or kind == 'GaussianGamma':
        # (draws of very small shapes underflow)
        p = node.get_parameters()
        a = np.asarray(p[-1])
        if np.any(a < 0.05):
            ctx.count('very small shapes')
            return
    N = 600
    e = estimate(ctx, (sc['seed'] + i) % 2 ** 31, node, kind, u, N, n, free)
    if e is None:
        ctx.count('no draws of ' + kind)
        return
    ctx.count('distribution of ' + kind)
    ctx.event('drawn', n, [x.sum().item() for x in e[0]])
    w = bad(kind, u, e[:2], N, free, 5)
    if w is None and e[2] < 5:
        return
    N = 12000
    e = estimate(ctx, (sc['seed'] + i + 1) % 2 ** 31, node, kind, u, N, n, free)
    w = bad(kind, u, e[:2], N, free, 7)
    ctx.check(e[2] < 7, 'wrong-distribution', lambda: 'elements of %s (%s) are drawn independently, but %d draws have a '
              'correlation of %.3g (%.1f standard errors)' % (n, kind, N, e[2] / np.sqrt(N), e[2]))
    ctx.check(w is None, 'wrong-distribution', lambda: 'the mean of moment %d%s of %d draws of %s (%s) is %.6g, the posterior '
              'says %.6g (%.1f standard errors)' % (w[0], w[1], N, n, kind, w[2], w[3], w[4]))


# -- certain and impossible events ------------------------------------------------

def edges(sc, ctx):
    """Distributions with impossible categories."""
    import bayespy.nodes as bp
    rng = np.random.default_rng(sc['seed'])
    K = int(rng.integers(2, 6))

    def prob(*shape):
        p = rng.random(shape + (K,)) * (rng.random(shape + (K,)) < 0.5)
        p[..., int(rng.integers(K))] += 0.1
        # (rounded so that the sum is rarely exactly one)
        return p / np.sum(p, -1, keepdims=True)
    plates = tuple(int(x) for x in rng.integers(1, 4, int(rng.integers(0, 3))))
    what = str(rng.choice(['Categorical', 'CMC', 'Multinomial', 'Bernoulli', 'Mixture']))
    ctx.sample = dict(what=what, plates=plates)
    with ctx.call('build'):
        if what == 'Categorical':
            node = bp.Categorical(prob(*plates))
            kind = what
        elif what == 'Mixture':
            z = bp.Categorical(prob(*plates))
            node = bp.Mixture(z, bp.Categorical, prob(K))
            kind = 'Categorical'
        elif what == 'Multinomial':
            node = bp.Multinomial(int(rng.integers(1, 6)), prob(*plates))
            kind = what
        elif what == 'Bernoulli':
            node = bp.Bernoulli(rng.choice([0.0, 1.0, 0.3], size=plates))
            kind = what
        else:
            T = int(rng.integers(2, 6))
            steps = T - 1 if rng.random() < 0.5 else 1
            node = bp.CategoricalMarkovChain(prob(*plates), prob(*(plates + (steps, K))), states=T)
            kind = 'CMC'
    u = [np.broadcast_to(a, tuple(node.plates) + tuple(d)) for (a, d) in zip(node.get_moments(), node.dims)]
    if not all(np.all(np.isfinite(x)) for x in u):
        ctx.count('edge moments not finite')
        return
    free = np.ones(tuple(node.plates), dtype=bool)
    for j in range(8):
        np.random.seed((sc['seed'] + j) % 2 ** 31)
        with Adversary([sc['seed'], j], sc['p'], ctx):
            x = draw(node, ctx, what)
        ctx.event(what, np.asarray(x).tolist())
        support(ctx, kind, lead(ctx, x, node, u, what), u, free, what, tuple(node.dims[0]))
    follows(ctx, sc, 0, node, kind, u, free, what)
    if kind != 'CMC' and not (kind == 'Bernoulli' and np.any((u[0] == 0) | (u[0] == 1))):
        density(ctx, sc, 0, node, kind, u, free, what)
    ctx.state('edges', what, len(plates), K)


# -- the drawing functions ---------------------------------------------------------

def utils(sc, ctx):
    from bayespy.utils import random as r
    f = sc['f']
    rng = np.random.default_rng(sc['seed'])
    ctx.sample = dict(f=f)
    ctx.state('utils', f, sc['p'])

    def call(g, N):
        out = []
        for j in range(N):
            np.random.seed((sc['seed'] + j) % 2 ** 31)
            try:
                if sc['p']:
                    with Adversary([sc['seed'], j], sc['p'], ctx):
                        out.append(g())
                else:
                    out.append(g())
            except RuntimeError as e:
                if 'Numerically zero' not in str(e):
                    raise Violation('draw-failed', '%s raised %r' % (f, e))
                ctx.count('draw underflows')
            except np.linalg.LinAlgError:
                ctx.count('singular')
            except Exception as e:
                raise Violation('draw-failed', '%s raised %r' % (f, e))
        ctx.event(f, len(out), [np.asarray(x).tolist() for x in out[:2]])
        return out

    def ok(c, why, x):
        ctx.check(bool(np.all(c)), 'outside-support', lambda: '%s: a draw is not valid: %s: %s' % (f, why, x))

    def mean(out, m, var=None, why='mean'):
        """(only without extreme values)"""
        if sc['p'] or not out:
            return
        a = np.mean(out, axis=0)
        v = np.var(out, axis=0) if var is None else var
        t = (np.abs(a - m) - 15.0 / len(out) * (np.max(np.abs(m)) + 0.1)) / np.sqrt(v / len(out) + 1e-300)
        ctx.check(np.all(t < 7), 'wrong-distribution', lambda: '%s: the %s of %d draws is %s, not %s' % (f, why, len(out), a, m))
    sh = tuple(int(x) for x in rng.integers(1, 4, int(rng.integers(0, 3))))
    K = int(rng.integers(1, 6))
    p = rng.random(sh + (K,)) * (rng.random(sh + (K,)) < 0.6)
    p[..., int(rng.integers(K))] += 0.1
    p = p / np.sum(p, -1, keepdims=True)
    if f == 'categorical':
        scale = float(rng.choice([1.0, 3.7]))
        size = None if rng.random() < 0.5 else (2,) + sh
        out = call(lambda: r.categorical(p * scale, size=size), 300)
        for z in out:
            ok(np.shape(z) == (sh if size is None else size), 'shape', z)
            ok((np.asarray(z) >= 0) & (np.asarray(z) < K), 'a category', z)
            ok(np.take_along_axis(np.broadcast_to(p, np.shape(z) + (K,)), np.asarray(z)[..., None], -1) > 0, 'positive probability', z)
        mean([np.eye(K)[z] for z in out], p, var=p * (1 - p) + 1e-9)
    elif f == 'bernoulli':
        q = np.where(rng.random(sh) < 0.5, rng.random(sh), rng.integers(0, 2, sh))
        for z in call(lambda: r.bernoulli(q), 100):
            ok(np.shape(z) == sh, 'shape', z)
            ok((q > 0) | (np.asarray(z) == 0), 'impossible', z)
            ok((q < 1) | (np.asarray(z) == 1), 'certain', z)
    elif f == 'multinomial':
        n = rng.integers(0, 6, sh)
        out = call(lambda: r.multinomial(n, p), 100)
        for x in out:
            ok(np.shape(x) == sh + (K,), 'shape', x)
            ok((x >= 0) & ((p > 0) | (x == 0)), 'positive probability', x)
            ok(np.sum(x, -1) == n, 'number of trials', x)
        mean(out, n[..., None] * p)
    elif f == 'dirichlet':
        a = rng.choice([0.2, 1.0, 5.0], sh + (K,))
        for x in call(lambda: r.dirichlet(a), 100):
            ok(np.shape(x) == sh + (K,), 'shape', x)
            ok((x >= 0) & (x <= 1), 'in [0, 1]', x)
            ok(np.abs(np.sum(x, -1) - 1) < 1e-12, 'sums to one', x)
    elif f == 'gamma':
        (a, b) = (rng.choice([0.2, 1.0, 5.0], sh), rng.choice([0.1, 1.0, 20.0], sh))
        out = call(lambda: r.gamma(a, b, size=sh), 300)
        for x in out:
            ok(np.shape(x) == sh, 'shape', x)
            ok((x > 0) & np.isfinite(x), 'positive', x)
        mean(out, a * b, var=a * b ** 2)
    elif f == 'wishart':
        D = int(rng.integers(1, 4))
        nu = D + int(rng.integers(0, 4))
        A = rng.standard_normal((D, D))
        V = A @ A.T + np.eye(D)
        out = call(lambda: r.wishart(nu, V), 300)
        for x in out:
            ok(np.shape(x) == (D, D), 'shape', x)
            ok(np.abs(x - x.T) <= 1e-9 * np.max(np.abs(x)), 'symmetric', x)
            ok(np.linalg.eigvalsh(x) > -1e-9 * np.max(np.abs(x)), 'positive definite', x)
        mean(out, nu * V)
    elif f == 'covariance':
        D = int(rng.integers(1, 4))
        size = tuple(int(x) for x in rng.integers(1, 3, int(rng.integers(0, 2))))
        nu = D + int(rng.integers(2, 6))
        for x in call(lambda: r.covariance(D, size=size, nu=nu), 30):
            if not np.all(np.isfinite(x)) or np.max(np.abs(x)) > 1e8:
                continue
            ok(np.shape(x) == size + (D, D), 'shape', x)
            ok(np.linalg.eigvalsh(x) > 0, 'positive definite', x)
    elif f == 'correlation':
        D = int(rng.integers(1, 4))
        for x in call(lambda: r.correlation(D), 30):
            if not np.all(np.isfinite(x)):
                # (zero rows)
                continue
            ok(np.shape(x) == (D, D), 'shape', x)
            ok(np.abs(np.diag(x) - 1) < 1e-12, 'unit diagonal', x)
            ok(np.abs(x) <= 1 + 1e-12, 'at most one', x)
            ok(np.linalg.eigvalsh(x) > -1e-9, 'positive semidefinite', x)
    elif f == 'orth':
        D = int(rng.integers(1, 5))
        for x in call(lambda: r.orth(D), 30):
            ok(np.abs(x.T @ x - np.eye(D)) < 1e-9, 'orthogonal', x)
    elif f == 'svd':
        s = rng.random(int(rng.integers(1, 5))) * 3
        for x in call(lambda: r.svd(s), 30):
            ok(np.abs(np.linalg.svd(x)[1] - np.sort(s)[::-1]) < 1e-9, 'singular values', x)
    elif f == 'sphere':
        N = int(rng.integers(1, 20))
        for x in call(lambda: r.sphere(N), 30):
            (lat, lon) = x
            ok(np.shape(lat) == (N,), 'shape', x)
            ok((np.abs(lat) <= 90) & (np.abs(lon) <= 180), 'on the sphere', x)
    elif f == 'mask':
        q = float(rng.choice([0.0, 1.0, 0.5]))
        for x in call(lambda: r.mask(*sh, p=q), 30):
            ok(np.shape(x) == sh, 'shape', x)
            ok((q > 0) | (~np.asarray(x)), 'impossible', x)
            ok((q < 1) | np.asarray(x), 'certain', x)
    elif f == 'intervals':
        (L, amount, gap) = (int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(0, 3)))
        N = L * amount + gap * (amount - 1) + int(rng.integers(0, 5))
        for x in call(lambda: r.intervals(N, L, amount=amount, gap=gap), 60):
            ok(np.shape(x) == (amount,), 'shape', x)
            ok(x[0] >= 0, 'start', x)
            ok(x[-1] + L <= N, 'end', x)
            ok(np.diff(x) >= L + gap, 'overlap', x)

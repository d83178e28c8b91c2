"""The simulated user: a real BayesPy model driven by a scenario of operations,
next to the reference semantics and a book of what is observed and what is
momentarily not a proper posterior ("dirty").

A scenario is JSON: {spec, seed, data: {name: {x, mask}}, ops: [...]}.
Only public API is used.
"""

import copy
import json

import numpy as np

from .dsl import Spec, Plated, Unrolled, CHAINS
from .ref import Ref
from .core import HarnessError
from . import zoo

NO_OBSERVE = {'CMC', 'GaussianGamma', 'GammaShape', 'Concentration'}
NO_INITV = {'GaussianGamma'}
NO_RANDOM = {'GMC', 'SGMC', 'VGMC', 'Wishart', 'GammaShape', 'Concentration', 'GaussianGamma'}
NO_GRADIENT = {'CMC', 'GMC', 'SGMC', 'VGMC', 'GaussianGamma', 'Wishart'}

FAST = ['normal', 'regression', 'pca', 'dot3', 'mixture', 'hmm', 'lssm', 'switching', 'varying',
        'lda', 'gating', 'choose', 'indexing', 'concatenate', 'concatgauss', 'addition', 'mvn',
        'gaussgamma', 'betas', 'multinomials', 'counts', 'discrete']


def kind(spec, name):
    return spec.nodes[name]['kind']


def tolist(x):
    return np.asarray(x).tolist()


def random_mask(rng, sh, p=0.5):
    """True (everything) or a random mask, in varied styles."""
    u = rng.random()
    if u < p or sh == ():
        return True
    if u < p + 0.1:
        m = np.zeros(sh, dtype=bool)
        m[tuple(int(rng.integers(s)) for s in sh)] = True
    elif u < p + 0.2:
        # whole slices missing
        m = np.ones(sh, dtype=bool)
        ax = int(rng.integers(len(sh)))
        ix = [slice(None)] * len(sh)
        ix[ax] = int(rng.integers(sh[ax]))
        m[tuple(ix)] = False
    else:
        m = rng.random(sh) < rng.choice([0.3, 0.7, 0.9])
    return m.tolist()


def base_scenario(seed, family=None, masks=0.5, spec=None, mult=0.08, extremes=0.08):
    """Model, parameters of the world and data."""
    rng = np.random.default_rng([seed, 7])
    s = zoo.make(rng, family) if spec is None else spec
    r2 = np.random.default_rng([seed, 8])
    if r2.random() < mult:
        s = zoo.random_mult(s, r2)
    spec = Spec(json.loads(json.dumps(s)))
    r = Ref(spec)
    vals = r.sample(rng)
    data = {}
    for o in s['obs']:
        sh = spec.sizes(spec.nodes[o]['axes'])
        data[o] = dict(x=tolist(vals[o]), mask=random_mask(rng, sh, 1 - masks))
    if r2.random() < extremes:
        s = zoo.priors(json.loads(json.dumps(s)), r2)
    return dict(spec=json.loads(json.dumps(s)), seed=int(seed % (2 ** 31)), data=data), rng


class OpGen:
    """Random operations valid for a model."""

    def __init__(self, sc, rng):
        self.d = sc['spec']
        self.spec = Spec(json.loads(json.dumps(self.d)))
        self.ref = Ref(self.spec)
        self.rng = rng
        self.names = self.spec.stoch + self.spec.points
        self.latent = [n for n in self.names if n not in self.d['obs']]

    def pick(self, xs):
        if len(xs) == 0:
            return None
        return xs[int(self.rng.integers(len(xs)))]

    def value(self, n):
        return tolist(self.ref.sample(self.rng)[n])

    def op(self, what):
        rng = self.rng
        spec = self.spec
        if what == 'upd':
            return dict(op='upd', n=self.pick(self.latent if rng.random() < 0.85 and self.latent else self.names))
        if what == 'sweep':
            names = [str(n) for n in rng.permutation(self.names)]
            if rng.random() < 0.4:
                names = names[:int(rng.integers(1, len(names) + 1))]
            return dict(op='sweep', names=names)
        if what == 'obs':
            c = [n for n in self.names if kind(spec, n) not in NO_OBSERVE]
            n = self.pick(self.d['obs'] if rng.random() < 0.6 and self.d['obs'] else c)
            if n is None:
                return self.op('upd')
            sh = spec.sizes(spec.nodes[n]['axes'])
            return dict(op='obs', n=n, x=self.value(n), mask=random_mask(rng, sh))
        if what == 'unobs':
            c = [n for n in self.names if kind(spec, n) not in NO_OBSERVE]
            n = self.pick(c)
            return self.op('upd') if n is None else dict(op='unobs', n=n)
        if what == 'initv':
            c = [n for n in self.latent if kind(spec, n) not in NO_INITV]
            if not c:
                return self.op('upd')
            n = self.pick(c)
            return dict(op='initv', n=n, x=self.value(n))
        if what == 'initr':
            c = [n for n in self.latent if kind(spec, n) not in NO_RANDOM]
            if not c:
                return self.op('upd')
            return dict(op='initr', n=self.pick(c), seed=int(rng.integers(1 << 30)))
        if what == 'initp':
            c = [n for n in self.latent if spec.is_stoch(n)]
            if not c:
                return self.op('upd')
            return dict(op='initp', n=self.pick(c))
        if what == 'setpar':
            c = [n for n in self.latent if spec.is_stoch(n)]
            if not c:
                return self.op('upd')
            return dict(op='setpar', n=self.pick(c), t=float(np.round(rng.uniform(0.1, 0.9), 3)),
                        k=int(rng.integers(1 << 20)))
        if what == 'gstep':
            c = [n for n in self.latent if spec.is_stoch(n)]
            if not c:
                return self.op('upd')
            return dict(op='gstep', n=self.pick(c), t=float(rng.choice([0.1, 0.5, 0.9, 1.0])))
        if what == 'query':
            return dict(op='query', n=self.pick(self.names), k=int(rng.integers(1 << 20)))
        if what == 'ann':
            return dict(op='ann', a=float(rng.choice([0.1, 0.3, 0.5, 0.8, 0.95, 1.0])))
        raise ValueError(what)

    def ops(self, n, mix):
        keys = list(mix)
        w = np.array([mix[k] for k in keys], dtype=float)
        w /= w.sum()
        return [self.op(keys[int(self.rng.choice(len(keys), p=w))]) for _ in range(n)]


class Sim:

    def __init__(self, sc, ctx, layout='plated', engine=True, observe=True, prefix='', nodes=None,
                 model=None, **vb):
        import bayespy.nodes as bp
        from bayespy.inference import VB
        self.bp = nodes or bp
        self.ctx = ctx
        self.sc = sc
        self.d = json.loads(json.dumps(sc['spec']))
        self.spec = Spec(self.d)
        self.ref = Ref(self.spec)
        self.layout = layout
        np.random.seed(sc['seed'])
        with ctx.call('build'):
            if model is not None:
                self.m = model(self.spec, self.bp)
            elif layout == 'plated':
                self.m = Plated(self.spec, self.bp, prefix=prefix)
            else:
                self.m = Unrolled(self.spec, self.bp, prefix=prefix)
        self.names = self.spec.stoch + self.spec.points
        self.obs = {}
        self.dirty = set()
        self.ann = 1.0
        self.pool = {}
        self.Q = None
        if engine:
            with ctx.call('build'):
                self.Q = VB(*self.m.vb_nodes(), **vb)
        if observe:
            for (o, d) in sc['data'].items():
                self.observe(o, d['x'], d['mask'])
        if layout == 'plated':
            for n in self.spec.stoch:
                self.remember(n)

    # -- bookkeeping ----------------------------------------------------------

    def shape(self, n):
        return self.spec.sizes(self.spec.nodes[n]['axes'])

    def obs_mask(self, n):
        o = self.obs.get(n)
        return np.zeros(self.shape(n), dtype=bool) if o is None else o[1]

    def fully_observed(self, n):
        return bool(np.all(self.obs_mask(n)))

    def remember(self, n):
        """Keep a few proper posteriors of each variable (for line searches)."""
        if not self.spec.is_stoch(n) or self.layout != 'plated':
            return
        p = self.m.node[n].get_parameters()
        if all(np.all(np.isfinite(x)) for x in p):
            L = self.pool.setdefault(n, [])
            L.append(p)
            del L[3:-3]

    def moments(self):
        return {n: self.m.moments(n) for n in self.names}

    def params(self):
        return {n: self.m.params(n) for n in self.spec.stoch}

    def sync(self):
        """Give the reference the engine's reported posterior and the data."""
        self.ref.set_state(self.obs, self.moments(), self.params())

    def terms(self):
        return self.m.bound_terms()

    def snapshot(self, names=None):
        """What a user can see of the posterior, explicitly broadcast."""
        out = {}
        for n in names or self.names:
            out[n] = [x.copy() for x in self.m.moments(n)]
        return out

    # -- operations -----------------------------------------------------------

    def observe(self, n, x, mask):
        x = np.array(x)
        old = self.obs_mask(n)
        with self.ctx.call('observe'):
            self.m.observe(n, x, True if mask is True else np.array(mask, dtype=bool))
        new = np.ones(self.shape(n), dtype=bool) if mask is True else np.array(mask, dtype=bool)
        vals = x.copy()
        self.obs[n] = (vals, new)
        if np.any(old & ~new):
            self.dirty.add(n)
        if np.all(new):
            self.dirty.discard(n)

    def unobserve(self, n):
        if np.any(self.obs_mask(n)):
            self.dirty.add(n)
        with self.ctx.call('unobserve'):
            self.m.unobserve(n)
        self.obs.pop(n, None)

    def updatable(self, names=None):
        """A maximum likelihood point estimate has no value without data."""
        names = self.names if names is None else names
        if not any(self.spec.is_point(n) for n in names):
            return list(names)
        self.ref.obs = self.obs
        inc = self.ref.included()
        return [n for n in names if not self.spec.is_point(n) or np.any(inc[n])]

    def update(self, n):
        if not self.updatable([n]):
            self.ctx.count('point estimate without data skipped')
            return
        with self.ctx.call('update'):
            self.m.update(n)
        self.dirty.discard(n)

    def do(self, op):
        """Execute one operation; returns the names it may have changed."""
        k = op['op']
        ctx = self.ctx
        ctx.count(k)
        spec = self.spec
        n = op.get('n')
        if k == 'upd':
            self.update(n)
            self.remember(n)
            return [n]
        if k == 'sweep':
            nodes = []
            names = self.updatable(op['names'])
            for x in names:
                nodes += self.m.parts(x)
            if not nodes:
                return []
            with ctx.call('sweep'):
                self.Q.update(*nodes, repeat=op.get('repeat', 1), tol=-np.inf, verbose=False)
            for x in names:
                self.dirty.discard(x)
            return names
        if k == 'obs':
            self.observe(n, op['x'], op['mask'])
            return [n]
        if k == 'unobs':
            self.unobserve(n)
            return [n]
        if k == 'initv':
            x = np.array(op['x'])
            with ctx.call('initialize_from_value'):
                self.m.init_value(n, x)
            if not self.fully_observed(n) and spec.is_stoch(n):
                self.dirty.add(n)
            return [n]
        if k == 'initr':
            np.random.seed(op['seed'])
            with ctx.call('initialize_from_random'):
                for p in self.m.parts(n):
                    p.initialize_from_random()
                    if any(np.any(np.isinf(x)) for x in p.get_moments()):
                        # (the draw underflowed to the edge of the support)
                        self.ctx.count('infinite moments from a random value')
                        p.initialize_from_prior()
            if not self.fully_observed(n):
                self.dirty.add(n)
            return [n]
        if k == 'initp':
            with ctx.call('initialize_from_prior'):
                self.m.init_prior(n)
            self.dirty.discard(n)
            if self.ann != 1.0 and not self.fully_observed(n):
                pass
            return [n]
        if k == 'setpar':
            # a proper posterior between two earlier ones
            L = self.pool.get(n, [])
            if len(L) < 1:
                return []
            node = self.m.node[n]
            a = L[op['k'] % len(L)]
            b = L[(op['k'] // 7) % len(L)]
            p = [op['t'] * x + (1 - op['t']) * y for (x, y) in zip(a, b)]
            with ctx.call('set_parameters'):
                node.set_parameters([self.m.given(x) for x in p])
            self.dirty.discard(n)
            return [n]
        if k == 'gstep':
            if n in self.dirty or self.fully_observed(n):
                self.update(n)
                return [n]
            node = self.m.node[n]
            with ctx.call('gradient step'):
                g = node.get_riemannian_gradient()
                p = node.get_parameters()
                node.set_parameters([self.m.given(x + op['t'] * y) for (x, y) in zip(p, g)])
            return [n]
        if k == 'ann':
            self.Q.set_annealing(op['a'])
            self.ann = op['a']
            return []
        if k == 'query':
            self.query(n, op['k'])
            return []
        raise HarnessError('unknown operation %r' % (k,))

    def query(self, n, k):
        node = self.m.node[n]
        with self.ctx.call('query'):
            what = k % 5
            if what == 0:
                node.get_moments()
            elif what == 1 and self.spec.is_stoch(n):
                node.get_parameters()
            elif what == 2:
                node.lower_bound_contribution()
            elif what == 3:
                self.Q.compute_lowerbound()
            elif what == 4 and self.spec.is_stoch(n):
                node.get_riemannian_gradient()

    def finite_params(self, n):
        return all(np.all(np.isfinite(x)) for x in self.m.params(n))


def maxdiff(a, b):
    """Largest difference of two lists of arrays, relative to their scale."""
    worst = 0.0
    for (x, y) in zip(a, b):
        x = np.asarray(x, dtype=float)
        y = np.asarray(y, dtype=float)
        if x.shape != y.shape:
            (x, y) = np.broadcast_arrays(x, y)
        if x.size == 0:
            continue
        same = (x == y) | (np.isnan(x) & np.isnan(y))
        if np.all(same):
            continue
        fin = np.isfinite(x) & np.isfinite(y)
        if np.any(~fin & ~same):
            return np.inf
        scale = 1e-300 + max(np.max(np.abs(x[fin]), initial=0), np.max(np.abs(y[fin]), initial=0))
        worst = max(worst, float(np.max(np.abs(x[fin] - y[fin]), initial=0)) / max(scale, 1e-12))
    return worst

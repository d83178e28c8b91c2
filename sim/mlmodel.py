"""Models with maximum likelihood parameters: point parameters which enter a
precision matrix through functions given by the user.

The twin of such a model has the precision as a constant array, so nothing of
the machinery for point parameters is involved in it.
"""

import numpy as np

from bayespy import nodes as bn
from bayespy.inference import VB
from bayespy.inference.vmp.nodes.ml import Function, MaximumLikelihood


def sym(x):
    return x + np.swapaxes(x, -1, -2)


def tr(x):
    return np.swapaxes(x, -1, -2)


def make_function(cfg, D, P):
    """Parameter shapes, value and gradients of the function that gives a
    positive definite matrix (or a stack of them)."""
    I = np.eye(D)
    lead = (P,) if P else ()
    kind = cfg['f']
    if kind == 'gram':
        shapes = dict(A=lead + (D, D), s=())

        def f(A, s):
            return A @ tr(A) + np.exp(s) * I
        grads = dict(A=lambda G, A, s: sym(G) @ A,
                     s=lambda G, A, s: np.exp(s) * np.sum(np.einsum('...ii', np.broadcast_to(G, lead + (D, D)))))
    elif kind == 'rbf':
        d2 = np.subtract.outer(np.arange(D), np.arange(D)) ** 2.0
        shapes = dict(v=lead, l=())

        def f(v, l):
            return np.exp(v)[..., None, None] * np.exp(-0.5 * d2 * np.exp(-2 * l)) + 0.3 * I

        def E(v, l):
            return np.exp(v)[..., None, None] * np.exp(-0.5 * d2 * np.exp(-2 * l))
        grads = dict(v=lambda G, v, l: np.sum(G * E(v, l), axis=(-1, -2)),
                     l=lambda G, v, l: np.sum(G * E(v, l) * d2 * np.exp(-2 * l)))
    elif kind == 'diag':
        shapes = dict(d=lead + (D,))

        def f(d):
            return np.exp(d)[..., None] * I
        grads = dict(d=lambda G, d: np.einsum('...ii->...i', G) * np.exp(d))
    else:
        shapes = dict(L=lead + (D, D))

        def low(L):
            return np.tril(L, -1) + np.exp(np.einsum('...ii->...i', L))[..., None] * I

        def f(L):
            return low(L) @ tr(low(L))

        def gL(G, L):
            H = sym(G) @ low(L)
            return np.tril(H, -1) + (np.einsum('...ii->...i', H) * np.exp(np.einsum('...ii->...i', L)))[..., None] * I
        grads = dict(L=gL)
    return shapes, f, grads


def reg(x):
    return 0.5 * np.asanyarray(x) ** 2


class MLModel:
    """X ~ N(mu, K(theta)), optionally seen through Y ~ N(X, tau)."""

    def __init__(self, cfg, theta, K=None):
        self.cfg = cfg
        (D, N, P) = (cfg['D'], cfg['N'], cfg['P'])
        (shapes, f, grads) = make_function(cfg, D, P)
        self.theta = sorted(shapes)
        self.f = f
        inv = cfg['inv']
        self.value = lambda t: np.linalg.inv(f(**t)) if inv else f(**t)
        self.node = {}
        if K is None:
            for n in self.theta:
                self.node[n] = MaximumLikelihood(np.array(theta[n]), name=n,
                                                 regularization=reg if n in cfg['reg'] else None)
            order = list(shapes)
            args = [(self.node[n], self.positional(grads[n], order)) for n in order]
            g = Function(self.positional2(f, order), *args, name='K0')
            if inv:
                def ginv(G, K):
                    Ki = np.linalg.inv(K)
                    return -tr(Ki) @ G @ tr(Ki)
                if cfg.get('shape'):
                    g = Function(np.linalg.inv, (g, ginv), name='K', shape=np.shape(f(**theta)))
                else:
                    g = Function(np.linalg.inv, (g, ginv), name='K')
        else:
            g = K
        rng = np.random.default_rng([cfg['seed'], 1])
        plates = (N, P) if P else (N,)
        if cfg['mu'] == 'const':
            mu = rng.normal(size=D)
        else:
            mu = self.node['mu'] = bn.Gaussian(np.zeros(D), 0.2 * np.eye(D), name='mu',
                                               plates=plates if cfg['mu'] == 'full' else ())
        X = self.node['X'] = bn.Gaussian(mu, g, plates=plates, name='X')
        data = rng.normal(size=plates + (D,)) * cfg['scale']
        mask = np.random.default_rng([cfg['seed'], 2]).random(plates) < cfg['obs']
        if cfg['latent']:
            tau = self.node['tau'] = bn.Gamma(2.0, 1.0, name='tau')
            Y = self.node['Y'] = bn.GaussianARD(X, tau, ndim=1, name='Y')
        else:
            Y = X
        self.observed = Y
        Y.observe(data, mask=mask)
        self.vb = [n for n in ('X', 'mu', 'tau') if n in self.node and not (n == 'X' and Y is X and np.all(mask))]
        names = list(self.node)
        k = cfg['rot'] % len(names)
        names = names[k:] + names[:k]
        self.Q = VB(*[self.node[n] for n in names], tol=0)
        self.Q.print = lambda *a: None

    @staticmethod
    def positional(g, order):
        return lambda G, *x: g(G, **dict(zip(order, x)))

    @staticmethod
    def positional2(f, order):
        return lambda *x: f(**dict(zip(order, x)))

    def get(self):
        return {n: np.array(self.node[n].get_parameters()[0]) for n in self.theta}

    def regularization(self):
        return sum(float(np.sum(reg(v))) for (n, v) in self.get().items() if n in self.cfg['reg'])

    def state(self):
        out = {}
        for n in self.node:
            if n in self.theta:
                out[n] = [np.array(self.node[n].get_moments()[0])]
            else:
                out[n] = [np.array(u) for u in self.node[n].get_moments()]
        return out


def generate(rng):
    D = int(rng.integers(1, 4))
    P = int(rng.choice([0, 0, 1, 2, 3]))
    f = str(rng.choice(['gram', 'rbf', 'diag', 'chol']))
    cfg = dict(D=D, P=P, N=int(rng.integers(1, 5)), f=f, inv=bool(rng.random() < 0.5), seed=int(rng.integers(1 << 30)),
               mu=str(rng.choice(['const', 'shared', 'full'])), latent=bool(rng.random() < 0.6),
               obs=float(rng.choice([1.0, 0.7, 0.4])), scale=float(rng.choice([0.5, 1.0, 3.0])), reg=[],
               rot=int(rng.integers(6)), shape=bool(rng.random() < 0.3))
    shapes = make_function(cfg, D, P)[0]
    if rng.random() < 0.3:
        cfg['reg'] = [n for n in sorted(shapes) if rng.random() < 0.6]
    theta = {n: rng.normal(size=s).tolist() for (n, s) in shapes.items()}
    return cfg, theta

"""Seeded generators of model specs: every family of models that BayesPy's
public nodes can express, with random sizes, priors, broadcasting, link styles
and missing-data patterns."""

import json

import numpy as np

from sim.dsl import Spec


class B:
    """Spec builder."""

    def __init__(self, rng, family):
        self.rng = rng
        self.axes = {}
        self.nodes = []
        self.obs = []
        self.family = family

    def axis(self, name, size, sticky=False):
        self.axes[name] = dict(size=int(size))
        if sticky:
            self.axes[name]['sticky'] = True
        return name

    def node(self, name, kind, axes=(), parents=(), **kw):
        n = dict(name=name, kind=kind, axes=list(axes), parents=list(parents))
        for (k, v) in kw.items():
            if v is not None and v != [] and v is not False:
                n[k] = v
        self.nodes.append(n)
        return name

    def spec(self):
        return dict(family=self.family, axes=self.axes, nodes=self.nodes, obs=self.obs)

    # random ingredients
    def coin(self, p=0.5):
        return bool(self.rng.random() < p)

    def int(self, a, b):
        return int(self.rng.integers(a, b + 1))

    def pick(self, *xs):
        return xs[int(self.rng.integers(len(xs)))]

    def r(self, x):
        return np.round(np.asarray(x, dtype=float), 3).tolist()

    def sz(self, axes):
        return tuple(self.axes[a]['size'] for a in axes)

    def creal(self, axes=(), dim=(), scale=1.0):
        """Real constant over axes (some of them randomly dropped)."""
        axes = [a for a in axes if self.coin()]
        return dict(const=self.r(scale * self.rng.standard_normal(self.sz(axes) + self.sz(dim))),
                    axes=axes, dim=list(dim))

    def cfull(self, axes=(), dim=(), scale=1.0):
        return dict(const=self.r(scale * self.rng.standard_normal(self.sz(axes) + self.sz(dim))),
                    axes=list(axes), dim=list(dim))

    def cpos(self, axes=(), dim=(), lo=0.3, hi=3.0):
        axes = [a for a in axes if self.coin()]
        return dict(const=self.r(np.exp(self.rng.uniform(np.log(lo), np.log(hi),
                                                         self.sz(axes) + self.sz(dim)))),
                    axes=axes, dim=list(dim))

    def cspd(self, dim, axes=(), scale=1.0):
        axes = [a for a in axes if self.coin(0.3)]
        D = self.sz(dim)[0]
        A = self.rng.standard_normal(self.sz(axes) + (D, D)) * 0.5
        M = scale * (np.einsum('...ij,...kj->...ik', A, A) + np.eye(D))
        M = np.round(M, 3)
        M = 0.5 * (M + np.swapaxes(M, -1, -2))
        return dict(const=M.tolist(), axes=axes, dim=[dim[0], dim[0]])

    def cprob(self, dim, axes=()):
        axes = [a for a in axes if self.coin(0.3)]
        p = self.rng.gamma(2.0, size=self.sz(axes) + self.sz(dim)) + 0.1
        return dict(const=(p / p.sum(-1, keepdims=True)).tolist(), axes=axes, dim=list(dim))

    def gamma(self, name, axes=(), **kw):
        return self.node(name, 'Gamma', axes,
                         [self.cpos(axes, lo=0.5), self.cpos(axes, lo=0.5)], **kw)

    def dirichlet(self, name, dim, axes=(), **kw):
        return self.node(name, 'Dirichlet', axes, [self.cpos(axes, dim, lo=0.5)], dim=list(dim), **kw)

    def wishart(self, name, dim, axes=(), **kw):
        D = self.sz(dim)[0]
        n = dict(const=float(D + self.int(0, 3) + 0.5))
        return self.node(name, 'Wishart', axes, [n, self.cspd(dim, axes)], dim=list(dim), **kw)

    def maybe_tau(self, name, axes):
        """Precision argument over a random subset of axes: node or constant."""
        sub = [a for a in axes if self.coin(0.4)]
        if self.coin(0.7):
            ones = [a for a in axes if a not in sub and self.coin(0.3)]
            self.gamma(name, sub, ones=ones)
            return ref(name)
        return self.cpos(sub)

    def observe(self, name):
        self.obs.append(name)


def ref(name):
    return dict(ref=name)


FAMILIES = {}
DETERMINISTIC = {'dot', 'add', 'take', 'index', 'concat', 'gate', 'concatgauss', 'diagwish', 'choose', 'slice', 'getitem',
                 'complement', 'scalewish'}


def family(f):
    FAMILIES[f.__name__] = f
    return f


@family
def normal(rng):
    """Hierarchical scalar/vector normals with ARD precisions."""
    b = B(rng, 'normal')
    b.axis('G', b.int(1, 3))
    b.axis('N', b.int(1, 4))
    top = b.coin()
    if top:
        b.node('m0', 'GaussianARD', [], [b.creal(), b.cpos()])
    axm = ['G'] if b.coin() else []
    b.node('mu', 'GaussianARD', axm, [ref('m0') if top else b.creal(axm), b.maybe_tau('t0', axm)],
           ones=['G'] if (not axm and b.coin(0.3)) else [])
    b.node('x', 'GaussianARD', ['G', 'N'], [ref('mu'), b.maybe_tau('tau', ['G', 'N'])])
    b.observe('x')
    if b.coin(0.4):
        b.node('y', 'GaussianARD', ['G', 'N'], [ref('x'), b.cpos(['G'])])
        b.obs = ['y']
        if b.coin(0.3):
            b.obs = ['x', 'y']
    return b.spec()


@family
def regression(rng):
    b = B(rng, 'regression')
    multi = b.coin()
    if multi:
        b.axis('M', b.int(1, 3))
    b.axis('N', b.int(1, 5))
    b.axis('D', b.int(1, 3), sticky=True)
    wa = ['M'] if multi else []
    if b.coin(0.6):
        b.axis('D1', b.sz(['D'])[0], sticky=True)
        aa = wa if b.coin(0.5) else []
        # ARD precision: plates run over the variable dimension of w
        b.node('alpha', 'Gamma', aa + ['D'], [b.cpos(aa, lo=0.5), b.cpos(['D'], lo=0.5)])
        ap = ref('alpha')
    else:
        ap = b.cpos([], ['D'])
    if b.coin(0.7):
        b.node('w', 'GaussianARD', wa, [b.creal(wa, ['D']), ap], dim=['D'],
               ones=['N'] if (multi and b.coin()) else [])
    else:
        b.nodes = [n for n in b.nodes if n['name'] != 'alpha']
        if b.coin():
            b.wishart('Lw', ['D'])
            lp = ref('Lw')
        else:
            lp = b.cspd(['D'])
        b.node('w', 'Gaussian', wa, [b.creal(wa, ['D']), lp], dim=['D'])
    ya = wa + ['N']
    b.node('f', 'dot', ya, [ref('w'), b.cfull(['N'], ['D'])], eins=[['D'], ['D']], dim=[],
           style=b.pick(None, 'str', 'Dot'))
    b.node('y', 'GaussianARD', ya, [ref('f'), b.maybe_tau('tau', ya)])
    b.observe('y')
    return b.spec()


@family
def pca(rng):
    b = B(rng, 'pca')
    b.axis('M', b.int(1, 4))
    b.axis('N', b.int(1, 4))
    b.axis('D', b.int(1, 3), sticky=True)
    swap = b.coin(0.3)
    aa = []
    if b.coin(0.7):
        b.node('alpha', 'Gamma', ['D'], [b.cpos([], lo=0.5), b.cpos(['D'], lo=0.5)])
        ap = ref('alpha')
    else:
        ap = b.cpos([], ['D'])
    b.node('W', 'GaussianARD', ['M'], [b.creal([], ['D'], 0.5), ap], dim=['D'],
           ones=['N'] if b.coin() else [])
    if b.coin(0.7):
        b.node('X', 'GaussianARD', ['N'], [b.creal([], ['D'], 0.5), b.cpos([], ['D'])], dim=['D'],
               ones=['M'] if b.coin() else [])
    else:
        b.node('X', 'Gaussian', ['N'], [b.creal([], ['D'], 0.5), b.cspd(['D'])], dim=['D'])
    pair = [ref('W'), ref('X')]
    b.node('F', 'dot', ['M', 'N'], pair[::-1] if swap else pair, eins=[['D'], ['D']], dim=[],
           style=b.pick(None, 'str', 'Dot'))
    f = ref('F')
    if b.coin(0.3):
        b.node('bias', 'GaussianARD', ['M'], [b.creal(['M']), b.cpos()], ones=['N'] if b.coin() else [])
        b.node('FB', 'add', ['M', 'N'], [ref('F'), ref('bias')])
        f = ref('FB')
    b.node('y', 'GaussianARD', ['M', 'N'], [f, b.maybe_tau('tau', ['M', 'N'])])
    b.observe('y')
    return b.spec()


@family
def dot3(rng):
    """Three-factor products and matrix-shaped variables."""
    b = B(rng, 'dot3')
    b.axis('M', b.int(1, 3))
    b.axis('N', b.int(1, 3))
    b.axis('D', b.int(1, 2), sticky=True)
    b.axis('E', b.int(1, 2), sticky=True)
    kind = b.pick('matrix', 'three', 'out', 'outer')
    if kind == 'matrix':
        b.node('A', 'GaussianARD', ['M'], [b.creal(['M'], ['D', 'E']), b.cpos([], ['E'])], dim=['D', 'E'],
               ones=['N'] if b.coin() else [])
        b.node('x', 'GaussianARD', ['N'], [b.creal([], ['D']), b.cpos()], dim=['D'])
        b.node('f', 'dot', ['M', 'N'], [ref('A'), ref('x')], eins=[['D', 'E'], ['D']], dim=['E'],
               style=b.pick(None, 'str'))
        b.node('y', 'GaussianARD', ['M', 'N'], [ref('f'), b.cpos([], ['E'])], dim=['E'])
    elif kind == 'three':
        b.node('A', 'GaussianARD', ['M'], [b.creal(['M'], ['D']), b.cpos()], dim=['D'],
               ones=['N'] if b.coin() else [])
        b.node('x', 'GaussianARD', ['N'], [b.creal([], ['D']), b.cpos()], dim=['D'])
        b.node('s', 'GaussianARD', [], [b.creal(), b.cpos()], dim=[])
        b.node('f', 'dot', ['M', 'N'], [ref('A'), ref('s'), ref('x')], eins=[['D'], [], ['D']], dim=[],
               style=b.pick(None, 'str'))
        b.node('y', 'GaussianARD', ['M', 'N'], [ref('f'), b.maybe_tau('tau', ['M', 'N'])])
    elif kind == 'out':
        b.node('x', 'Gaussian', ['N'], [b.creal([], ['D']), b.cspd(['D'])], dim=['D'])
        b.node('f', 'dot', ['M', 'N'], [ref('x'), b.cfull(['M'], ['D', 'E'])], eins=[['D'], ['D', 'E']], dim=['E'])
        b.node('L', 'Wishart', [], [dict(const=float(b.sz(['E'])[0] + 1)), b.cspd(['E'])], dim=['E'])
        b.node('y', 'Gaussian', ['M', 'N'], [ref('f'), ref('L')], dim=['E'])
    else:
        b.node('u', 'GaussianARD', ['M'], [b.creal([], ['D']), b.cpos()], dim=['D'], ones=['N'] if b.coin() else [])
        b.node('v', 'GaussianARD', ['N'], [b.creal([], ['E']), b.cpos()], dim=['E'])
        b.node('f', 'dot', ['M', 'N'], [ref('u'), ref('v')], eins=[['D'], ['E']], dim=['D', 'E'])
        b.node('y', 'GaussianARD', ['M', 'N'], [ref('f'), b.cpos()], dim=['D', 'E'])
    b.observe('y')
    return b.spec()


def mixture_inner(b, kind, K, axes, cdim):
    """Parents of the mixture components over cluster axis + axes."""
    full = list(axes)
    if kind == 'Gaussian':
        b.node('mu', 'Gaussian', full, [b.creal(full, cdim, 2.0), b.cspd(cdim, scale=0.3)], dim=cdim)
        if b.coin(0.7):
            b.wishart('Lam', cdim, full)
            lam = ref('Lam')
        else:
            lam = b.cspd(cdim)
        return [ref('mu'), lam]
    if kind == 'GaussianARD':
        b.node('mu', 'GaussianARD', full, [b.creal(full, scale=2.0), b.cpos(hi=1.0)])
        b.gamma('al', [a for a in full if b.coin(0.7)])
        return [ref('mu'), ref('al')]
    if kind == 'Gamma':
        b.gamma('rate', full)
        return [b.cpos([], lo=0.5), ref('rate')]
    if kind == 'Poisson':
        b.gamma('rate', full)
        return [ref('rate')]
    if kind in ('Bernoulli', 'Binomial'):
        if b.coin(0.8):
            b.axis('two', 2, sticky=True)
            b.node('p', 'Beta', full, [b.cpos(full, ['two'], lo=0.5)], dim=['two'])
            return [ref('p')]
        return [dict(const=b.r(rng_unit(b, b.sz(full))), axes=full)]
    if kind in ('Categorical', 'Multinomial'):
        b.dirichlet('p', cdim, full)
        return [ref('p')]
    if kind in ('Dirichlet',):
        return [dict(const=b.r(b.rng.uniform(0.5, 4, b.sz(full) + b.sz(cdim))), axes=full, dim=cdim)]
    if kind == 'Beta':
        b.axis('two', 2, sticky=True)
        return [dict(const=b.r(b.rng.uniform(0.5, 4, b.sz(full) + (2,))), axes=full, dim=['two'])]
    if kind == 'Wishart':
        D = b.sz(cdim)[0]
        return [dict(const=float(D + 2)), b.cspd(cdim, full)]
    raise ValueError(kind)


def rng_unit(b, shape):
    return b.rng.uniform(0.1, 0.9, shape)


@family
def mixture(rng):
    b = B(rng, 'mixture')
    kind = b.pick('Gaussian', 'Gaussian', 'GaussianARD', 'GaussianARD', 'Gamma', 'Poisson', 'Bernoulli',
                  'Binomial', 'Categorical', 'Multinomial', 'Dirichlet', 'Beta')
    K = b.int(1, 3)
    two = b.coin(0.4)
    b.axis('N', b.int(1, 5))
    b.axis('K', K, sticky=True)
    if two:
        b.axis('M', b.int(1, 3))
    b.axis('D', b.int(1, 3) if kind not in ('Categorical', 'Multinomial', 'Dirichlet') else b.int(2, 3), sticky=True)
    cdim = ['D']
    if b.coin(0.8):
        b.dirichlet('pi', ['K'])
        pz = ref('pi')
    else:
        pz = b.cprob(['K'])
    # z may or may not vary over M
    zm = two and b.coin(0.2)
    b.node('z', 'Categorical', ['N', 'M'] if zm else ['N'], [pz], dim=['K'],
           ones=['M'] if (two and not zm) else [])
    raw = ['N', 'K'] + (['M'] if two else [])
    cax = ['K'] + (['M'] if (two and b.coin(0.7)) else [])
    cpar = mixture_inner(b, kind, K, cax, cdim)
    inner = dict(kind=kind)
    if kind in ('Gaussian', 'Categorical', 'Multinomial', 'Dirichlet'):
        inner['dim'] = cdim
    if kind == 'Beta':
        inner['dim'] = ['two']
    if kind in ('Binomial', 'Multinomial'):
        inner['trials'] = b.int(1, 6)
    b.node('y', 'Mixture', ['N'] + (['M'] if two else []), [ref('z')] + cpar, inner=inner,
           cluster='K', cplate=-2 if two else -1,
           dim=inner.get('dim'))
    b.observe('y')
    if kind in ('Gaussian', 'GaussianARD') and b.coin(0.25):
        # latent mixture variable with a noisy observation
        b.obs = []
        if kind == 'Gaussian':
            b.node('o', 'Gaussian', ['N'] + (['M'] if two else []), [ref('y'), b.cspd(cdim)], dim=cdim)
        else:
            b.node('o', 'GaussianARD', ['N'] + (['M'] if two else []), [ref('y'), b.cpos()])
        b.observe('o')
    elif b.coin(0.25) and not zm:
        # partially labelled clusters
        b.observe('z')
    return b.spec()


@family
def hmm(rng):
    b = B(rng, 'hmm')
    kind = b.pick('Gaussian', 'GaussianARD', 'Categorical', 'Poisson', 'Bernoulli', 'Gamma')
    seq = b.coin(0.4)
    if seq:
        b.axis('S', b.int(1, 3))
    T = b.int(2, 5)
    b.axis('T', T, sticky=True)
    b.axis('T-1', T - 1, sticky=True)
    b.axis('K', b.int(1, 3), sticky=True)
    b.axis('D', b.int(2, 3), sticky=True)
    sa = ['S'] if seq else []
    if b.coin(0.8):
        b.node('a0', 'Dirichlet', [], [b.cpos([], ['K'], lo=0.5)], dim=['K'])
        p0 = ref('a0')
    else:
        p0 = b.cprob(['K'])
    tv = T > 1 and b.coin(0.3)
    # transition matrix: plates (T-1), K
    aax = (['T-1'] if tv else []) + ['K']
    if b.coin(0.8):
        b.axis('K1', b.sz(['K'])[0], sticky=True)
        b.node('A', 'Dirichlet', (['T-1'] if tv else []) + ['K1'], [b.cpos([], ['K'], lo=0.5)], dim=['K'])
        pA = ref('A')
    else:
        b.axis('K1', b.sz(['K'])[0], sticky=True)
        p = b.rng.gamma(2.0, size=b.sz(['K1', 'K'])) + 0.1
        pA = dict(const=(p / p.sum(-1, keepdims=True)).tolist(), axes=['K1'], dim=['K'])
    b.node('z', 'CMC', sa, [p0, pA], time='T', state='K1', dim=['K'])
    cpar = mixture_inner(b, kind, None, ['K'], ['D'])
    inner = dict(kind=kind)
    if kind in ('Gaussian', 'Categorical'):
        inner['dim'] = ['D']
    b.node('y', 'Mixture', sa + ['T'], [ref('z')] + cpar, inner=inner, cluster='K', cplate=-1,
           dim=inner.get('dim'))
    b.observe('y')
    # canonical axis order: plates, time, cluster
    return b.spec()


@family
def lssm(rng):
    b = B(rng, 'lssm')
    inputs = b.coin(0.35)
    seq = b.coin(0.6 if inputs else 0.25)
    b.axis('M', b.int(1, 3))
    if seq:
        b.axis('S', b.int(1, 3))
    T = b.int(2, 5)
    b.axis('T', T, sticky=True)
    b.axis('T-1', T - 1, sticky=True)
    D = b.int(1, 2) if b.coin(0.8) else 3
    b.axis('D', D, sticky=True)
    b.axis('Ds', D, sticky=True)
    ddim = 'D'
    if inputs:
        U = b.int(1, 2)
        b.axis('DU', D + U, sticky=True)
        b.axis('U', U, sticky=True)
        ddim = 'DU'
    sa = ['S'] if seq else []
    tv = T > 1 and b.coin(0.2)
    ax = (['T-1'] if tv else []) + ['Ds']
    if b.coin(0.5):
        b.node('alpha', 'Gamma', [ddim], [b.cpos(lo=0.5), b.cpos(lo=0.5)])
        al = ref('alpha')
    else:
        al = b.cpos([], [ddim])
    if b.coin(0.75):
        b.node('A', 'GaussianARD', ax, [b.creal([], [ddim], 0.5), al], dim=[ddim])
        pA = ref('A')
    else:
        b.nodes = [n for n in b.nodes if n['name'] != 'alpha']
        pA = b.cfull(['Ds'], [ddim], 0.5)
    if b.coin(0.5):
        va = [a for a in ['T-1', 'Ds'] if T > 1 and b.coin(0.5)]
        b.gamma('nu', va, ones=['T-1', 'Ds'] if va == ['T-1'] else [])
        pv = ref('nu')
    else:
        pv = dict(const=b.r(b.rng.uniform(0.5, 3, D)), axes=['Ds'])
    if b.coin(0.3):
        b.node('x0', 'Gaussian', [], [b.creal([], ['D']), b.cspd(['D'])], dim=['D'])
        m0 = ref('x0')
    else:
        m0 = b.creal(sa, ['D'])
    if b.coin(0.3):
        b.wishart('L0', ['D'])
        l0 = ref('L0')
    else:
        l0 = b.cspd(['D'])
    par = [m0, l0, pA, pv]
    if inputs:
        par.append(b.cfull(sa + ['T-1'] if b.coin() else ['T-1'], ['U'], 1.0))
    b.node('X', 'GMC', sa, par, time='T', state='Ds', dim=['D'])
    ya = ['M'] + sa + ['T']
    b.node('C', 'GaussianARD', ['M'], [b.creal([], ['D'], 0.5), b.cpos([], ['D'])], dim=['D'],
           ones=sa + ['T'])
    pr = [ref('C'), ref('X')]
    b.node('F', 'dot', ya, pr if b.coin() else pr[::-1], eins=[['D'], ['D']], dim=[], style=b.pick(None, 'Dot', 'str'))
    b.node('y', 'GaussianARD', ya, [ref('F'), b.maybe_tau('tau', ya)])
    b.observe('y')
    return b.spec()


@family
def switching(rng):
    b = B(rng, 'switching')
    b.axis('M', b.int(1, 2))
    T = b.int(2, 5)
    b.axis('T', T, sticky=True)
    b.axis('T-1', T - 1, sticky=True)
    b.axis('K', b.int(1, 3), sticky=True)
    b.axis('K1', b.sz(['K'])[0], sticky=True)
    D = b.int(1, 2)
    b.axis('D', D, sticky=True)
    b.axis('Ds', D, sticky=True)
    b.node('B', 'GaussianARD', ['K', 'Ds'], [b.creal([], ['D'], 0.5), b.cpos([], ['D'])], dim=['D'])
    if b.coin(0.5) and T > 2:
        b.axis('T-1-1', T - 2, sticky=True)
        b.dirichlet('a0', ['K'])
        b.node('A', 'Dirichlet', ['K1'], [b.cpos([], ['K'], lo=0.5)], dim=['K'])
        b.node('Z', 'CMC', [], [ref('a0'), ref('A')], time='T-1', state='K1', dim=['K'])
    else:
        b.dirichlet('pi', ['K'])
        b.node('Z', 'Categorical', ['T-1'], [ref('pi')], dim=['K'])
    # (learning the innovation noise of a switching chain is not implemented)
    pv = dict(const=b.r(b.rng.uniform(0.5, 3, D)), axes=['Ds'])
    b.node('X', 'SGMC', [], [b.creal([], ['D']), b.cspd(['D']), ref('B'), ref('Z'), pv],
           time='T', state='Ds', cluster='K', dim=['D'])
    ya = ['M', 'T']
    b.node('C', 'GaussianARD', ['M'], [b.creal([], ['D'], 0.5), b.cpos([], ['D'])], dim=['D'], ones=['T'])
    b.node('F', 'dot', ya, [ref('C'), ref('X')], eins=[['D'], ['D']], dim=[])
    b.node('y', 'GaussianARD', ya, [ref('F'), b.maybe_tau('tau', ya)])
    b.observe('y')
    return b.spec()


@family
def varying(rng):
    b = B(rng, 'varying')
    b.axis('M', b.int(1, 2))
    T = b.int(2, 4)
    b.axis('T', T, sticky=True)
    b.axis('T-1', T - 1, sticky=True)
    K = b.int(1, 2)
    b.axis('K', K, sticky=True)
    D = b.int(1, 2)
    b.axis('D', D, sticky=True)
    b.axis('Ds', D, sticky=True)
    b.node('B', 'GaussianARD', ['Ds'], [b.creal([], ['D', 'K'], 0.5), b.cpos([], ['K'])], dim=['D', 'K'])
    if b.coin(0.5):
        b.node('S', 'GaussianARD', ['T-1'], [b.creal([], ['K'], 0.7), b.cpos([], ['K'])], dim=['K'])
        ps = ref('S')
    else:
        ps = b.cfull(['T-1'], ['K'])
    pv = dict(const=b.r(b.rng.uniform(0.5, 3, D)), axes=['Ds'])
    b.node('X', 'VGMC', [], [b.creal([], ['D']), b.cspd(['D']), ref('B'), ps, pv],
           time='T', state='Ds', dim=['D'])
    ya = ['M', 'T']
    b.node('C', 'GaussianARD', ['M'], [b.creal([], ['D'], 0.5), b.cpos([], ['D'])], dim=['D'], ones=['T'])
    b.node('F', 'dot', ya, [ref('C'), ref('X')], eins=[['D'], ['D']], dim=[])
    b.node('y', 'GaussianARD', ya, [ref('F'), b.maybe_tau('tau', ya)])
    b.observe('y')
    return b.spec()


@family
def lda(rng):
    b = B(rng, 'lda')
    b.axis('Doc', b.int(1, 3))
    b.axis('W', b.int(1, 6))
    b.axis('K', b.int(1, 3), sticky=True)
    b.axis('V', b.int(2, 4), sticky=True)
    b.dirichlet('th', ['K'], ['Doc'])
    ind = b.rng.integers(0, b.sz(['Doc'])[0], b.sz(['W'])[0]).tolist()
    b.node('thw', 'take', ['W'], [ref('th')], axis_in='Doc', axis_out='W', indices=ind, dim=['K'])
    b.node('z', 'Categorical', ['W'], [ref('thw')], dim=['K'])
    b.dirichlet('p', ['V'], ['K'])
    b.node('w', 'Mixture', ['W'], [ref('z'), ref('p')], inner=dict(kind='Categorical', dim=['V']),
           cluster='K', cplate=-1, dim=['V'])
    b.observe('w')
    return b.spec()


@family
def gating(rng):
    b = B(rng, 'gating')
    vec = b.coin(0.4)
    two = b.coin(0.3)
    if two:
        b.axis('M', b.int(1, 3))
    b.axis('N', b.int(1, 4))
    b.axis('K', b.int(1, 3), sticky=True)
    b.axis('D', b.int(1, 2), sticky=True)
    dim = ['D'] if vec else []
    b.dirichlet('pi', ['K'])
    b.node('z', 'Categorical', ['N'], [ref('pi')], dim=['K'])
    pre = ['M'] if (two and b.coin()) else []
    xa = pre + ['K']
    if vec:
        b.node('x', 'Gaussian', xa, [b.creal(xa, dim, 2.0), b.cspd(dim, scale=0.4)], dim=dim)
    else:
        b.node('x', 'GaussianARD', xa, [b.creal(xa, scale=2.0), b.cpos(hi=1.0)])
    # raw gate plates: (M) N K ; gated plate is the last one
    b.node('g', 'gate', (['M'] if two else []) + ['N'], [ref('z'), ref('x')], cluster='K', cplate=-1, dim=dim)
    ya = (['M'] if two else []) + ['N']
    if not pre and two:
        b.nodes[-1]['axes'] = ['N']
    if vec:
        b.wishart('L', dim)
        b.node('y', 'Gaussian', ya, [ref('g'), ref('L')], dim=dim)
    else:
        b.node('y', 'GaussianARD', ya, [ref('g'), b.maybe_tau('tau', ya)])
    b.observe('y')
    return b.spec()


@family
def choose(rng):
    b = B(rng, 'choose')
    b.axis('N', b.int(1, 4))
    K = b.int(1, 3)
    b.axis('K', K, sticky=True)
    b.dirichlet('pi', ['K'])
    b.node('z', 'Categorical', ['N'], [ref('pi')], dim=['K'])
    for i in range(K):
        b.node('x%d' % i, 'GaussianARD', [], [b.creal(scale=2.0), b.cpos(hi=1.0)])
    b.node('g', 'choose', ['N'], [ref('z')] + [ref('x%d' % i) for i in range(K)])
    b.node('y', 'GaussianARD', ['N'], [ref('g'), b.maybe_tau('tau', ['N'])])
    b.observe('y')
    return b.spec()


@family
def indexing(rng):
    """Take / slices / integer indices / group effects."""
    b = B(rng, 'indexing')
    kind = b.pick('take', 'take', 'slice', 'index', 'take2', 'tile', 'getitem', 'getitem')
    if kind in ('take2', 'getitem'):
        return indexing2(b, kind)
    vec = b.coin(0.3)
    two = b.coin(0.4)
    b.axis('G', b.int(1, 4))
    if kind == 'tile':
        n = b.sz(['G'])[0] * b.int(1, 3)
        idx = [i % b.sz(['G'])[0] for i in range(n)]
    elif kind == 'take':
        n = b.int(1, 5)
        idx = b.rng.integers(0, b.sz(['G'])[0], n)
        idx = np.where(b.rng.random(n) < 0.3, idx - b.sz(['G'])[0], idx).tolist()
    elif kind == 'slice':
        G = b.sz(['G'])[0]
        while True:
            s = [b.pick(None, *range(-G, G + 1)), b.pick(None, *range(-G, G + 1)), b.pick(None, 1, 2, -1, -2)]
            n = len(range(G)[slice(*s)])
            if n:
                break
    else:
        n = 1
    if kind != 'index':
        b.axis('N', n)
    if two:
        b.axis('M', b.int(1, 3))
    b.axis('D', b.int(1, 2), sticky=True)
    dim = ['D'] if vec else []
    ga = ['G'] + (['M'] if (two and b.coin(0.7)) else [])
    if vec:
        b.node('m', 'GaussianARD', ga, [b.creal(ga, dim), b.cpos()], dim=dim)
    else:
        b.node('m', 'GaussianARD', ga, [b.creal(ga), b.maybe_tau('t0', ['G'])])
    rest = [a for a in ga if a != 'G']
    if kind in ('take', 'tile'):
        b.node('t', 'take', ['N'] + rest, [ref('m')], axis_in='G', axis_out='N', indices=idx, dim=dim, style=kind,
               tuple=b.coin())
        ya = ['N'] + (['M'] if two else [])
        if two and not rest:
            b.nodes[-1]['axes'] = ['N']
    elif kind == 'slice':
        b.node('t', 'slice', ['N'] + rest, [ref('m')], axis_in='G', axis_out='N', slice=s, dim=dim,
               ellipsis=b.coin(0.3))
        ya = ['N'] + (['M'] if two else [])
    else:
        b.node('t', 'index', rest, [ref('m')], axis='G', i=b.int(-b.sz(['G'])[0], b.sz(['G'])[0] - 1), dim=dim)
        ya = (['M'] if two else [])
    if vec:
        b.node('y', 'GaussianARD', ya, [ref('t'), b.cpos()], dim=dim)
    else:
        b.node('y', 'GaussianARD', ya, [ref('t'), b.maybe_tau('tau', ya)])
    b.observe('y')
    if b.coin(0.3):
        # a second, direct child of the group effects
        b.node('y2', 'GaussianARD', ga, [ref('m'), b.cpos()], dim=dim)
        b.observe('y2')
    return b.spec()


def indexing2(b, kind):
    """Indices with several axes; several indexing operations at once."""
    dim = ['D'] if b.coin(0.3) else []
    ones = []
    if kind == 'take2':
        # the picked axis becomes two axes
        b.axis('P', b.int(1, 2))
        b.axis('G', b.int(1, 3))
        b.axis('N1', b.int(1, 3))
        b.axis('N2', b.int(1, 3))
        b.axis('M', b.int(1, 2))
        ga = (['P'] if b.coin(0.4) else []) + ['G'] + (['M'] if b.coin() else [])
        n = b.sz(['G'])[0]
        idx = b.rng.integers(-n, n, b.sz(['N1', 'N2'])).tolist()
        oa = [a for x in ga for a in (['N1', 'N2'] if x == 'G' else [x])]
        (what, kw) = ('take', dict(axis_in='G', axes_out=['N1', 'N2'], indices=idx))
    else:
        ga = [i for i in range(3) if b.coin(0.75)] or [1]
        new = b.int(0, 3) if b.coin() else None
        index = []
        oa = []
        for i in range(3):
            if new == i:
                b.axis('E', b.int(1, 3))
                ones = ['E']
            n = b.int(1, 4)
            g = 'G%d' % i
            if i not in ga:
                continue
            b.axis(g, n)
            u = b.int(0, 3)
            if u == 0:
                index.append([g, 'i', b.int(-n, n - 1)])
            elif u == 1:
                oa.append(g)
            else:
                while True:
                    sl = [b.pick(None, *range(-n, n + 1)), b.pick(None, *range(-n, n + 1)), b.pick(None, 1, 2, -1, -2)]
                    m = len(range(n)[slice(*sl)])
                    if m:
                        break
                b.axis('N%d' % i, m)
                index.append([g, 's', sl, 'N%d' % i])
                oa.append('N%d' % i)
        if new == 3:
            b.axis('E', b.int(1, 3))
            ones = ['E']
        ga = ['G%d' % i for i in ga]
        (what, kw) = ('getitem', dict(index=index, style=b.pick('full', 'ellipsis', 'dots', 'short'), tuple=b.coin()))
    b.axis('D', b.int(1, 2), sticky=True)
    b.node('m', 'GaussianARD', ga, [b.creal(ga, dim), b.cpos() if dim or b.coin() else b.maybe_tau('t0', ga[:1])], dim=dim)
    b.node('t', what, oa, [ref('m')], dim=dim, ones=ones, **kw)
    ya = [a for a in b.axes if a in oa + ones]
    b.node('y', 'GaussianARD', ya, [ref('t'), b.cpos() if dim else b.maybe_tau('tau', ya)], dim=dim)
    b.observe('y')
    if b.coin(0.3):
        b.node('y2', 'GaussianARD', ga, [ref('m'), b.cpos()], dim=dim)
        b.observe('y2')
    return b.spec()


@family
def nested(rng):
    """Mixtures over several axes with separate assignments."""
    b = B(rng, 'nested')
    kind = b.pick('Gaussian', 'GaussianARD', 'GaussianARD', 'Gamma', 'Poisson', 'Bernoulli', 'Categorical', 'Multinomial')
    nc = 2 if b.coin(0.8) else 3
    two = b.coin(0.4)
    if two:
        b.axis('M', b.int(1, 2))
    b.axis('N', b.int(1, 4))
    for i in range(nc):
        b.axis('K%d' % i, b.int(1, 3 if nc == 2 else 2), sticky=True)
    b.axis('D', b.int(2, 3) if kind in ('Categorical', 'Multinomial') else b.int(1, 2), sticky=True)
    cs = ['K%d' % i for i in range(nc)]
    zs = []
    for (i, c) in enumerate(cs):
        if b.coin(0.85):
            if b.coin(0.7):
                b.dirichlet('pi%d' % i, [c])
                pz = ref('pi%d' % i)
            else:
                pz = b.cprob([c])
            # the assignments may be shared by one of the axes
            za = (['M'] if two and b.coin(0.6) else []) + ['N'] if not two or b.coin(0.7) else ['M']
            b.node('z%d' % i, 'Categorical', za, [pz], dim=[c], ones=['N'] if za == ['M'] else [])
            zs.append(ref('z%d' % i))
        else:
            zs.append(dict(const=b.rng.integers(0, b.sz([c])[0], b.sz(['N'])).tolist(), axes=['N'], dtype='int'))
    ya = (['M'] if two else []) + ['N']
    cax = [c for c in cs if b.coin(0.85)] or [cs[0]]
    cax = cs
    if two and b.coin(0.3):
        cax = ['M', 'N'] + cs if b.coin() else ['N'] + cs
    cpar = mixture_inner(b, kind, None, cax, ['D'])
    inner = dict(kind=kind)
    if kind in ('Gaussian', 'Categorical', 'Multinomial'):
        inner['dim'] = ['D']
    if kind == 'Multinomial':
        inner['trials'] = b.int(1, 5)
    b.node('y', 'Mixture', ya, zs + cpar, inner=inner, clusters=cs, dim=inner.get('dim'))
    b.observe('y')
    if kind == 'GaussianARD' and b.coin(0.2):
        b.obs = []
        b.node('o', 'GaussianARD', ya, [ref('y'), b.cpos()])
        b.observe('o')
    return b.spec()


@family
def concatenate(rng):
    b = B(rng, 'concatenate')
    n = b.int(2, 3)
    parts = []
    vec = b.coin(0.3)
    two = b.coin(0.4)
    for i in range(n):
        parts.append(b.axis('P%d' % i, b.int(1, 3)))
    b.axis('P', sum(b.sz(parts)))
    if two:
        b.axis('M', b.int(1, 2))
    b.axis('D', b.int(1, 2), sticky=True)
    dim = ['D'] if vec else []
    mm = ['M'] if two else []
    ps = []
    full = True
    for (i, a) in enumerate(parts):
        ax = [a] + mm
        b.node('x%d' % i, 'GaussianARD', ax, [b.creal(ax, dim), b.cpos()], dim=dim)
        ps.append(ref('x%d' % i))
    b.node('c', 'concat', ['P'] + mm, ps, parts=parts, axis_out='P', dim=dim)
    ya = ['P'] + mm
    if vec:
        b.node('y', 'GaussianARD', ya, [ref('c'), b.cpos()], dim=dim)
    else:
        b.node('y', 'GaussianARD', ya, [ref('c'), b.maybe_tau('tau', ya)])
    b.observe('y')
    return b.spec()


@family
def concatgauss(rng):
    b = B(rng, 'concatgauss')
    n = b.int(1, 3)
    b.axis('N', b.int(1, 4))
    ds = []
    for i in range(n):
        ds.append(b.axis('D%d' % i, b.int(1, 2), sticky=True))
    b.axis('D', sum(b.sz(ds)), sticky=True)
    ps = []
    for (i, d) in enumerate(ds):
        ax = ['N'] if b.coin(0.5) else []
        if b.coin():
            b.node('x%d' % i, 'GaussianARD', ax, [b.creal(ax, [d]), b.cpos([], [d])], dim=[d])
        else:
            b.node('x%d' % i, 'Gaussian', ax, [b.creal(ax, [d]), b.cspd([d])], dim=[d])
        ps.append((ref('x%d' % i), ax))
    ca = ['N'] if any(ax for (_, ax) in ps) else []
    b.node('c', 'concatgauss', ca, [p for (p, _) in ps], dim=['D'])
    if b.coin():
        b.wishart('L', ['D'])
        b.node('y', 'Gaussian', ['N'], [ref('c'), ref('L')], dim=['D'])
    else:
        b.node('f', 'dot', ['N'], [ref('c'), b.cfull(['N'], ['D'])], eins=[['D'], ['D']], dim=[])
        b.node('y', 'GaussianARD', ['N'], [ref('f'), b.maybe_tau('tau', ['N'])])
    b.observe('y')
    return b.spec()


@family
def addition(rng):
    b = B(rng, 'addition')
    b.axis('M', b.int(1, 3))
    b.axis('N', b.int(1, 3))
    b.axis('D', b.int(1, 2), sticky=True)
    vec = b.coin(0.5)
    dim = ['D'] if vec else []
    n = b.int(2, 3)
    ps = []
    axs = [['M'], ['N'], ['M', 'N'], []]
    used = []
    for i in range(n):
        ax = b.pick(*axs)
        used += ax
        b.node('x%d' % i, 'GaussianARD', ax, [b.creal(ax, dim), b.cpos()], dim=dim,
               ones=['N'] if ax == ['M'] else [])
        ps.append(ref('x%d' % i))
    aa = [a for a in ['M', 'N'] if a in used]
    ones = ['N'] if (aa == ['M']) else []
    b.node('s', 'add', aa, ps, ones=ones, dim=dim)
    if vec:
        b.node('y', 'Gaussian', ['M', 'N'], [ref('s'), b.cspd(dim)], dim=dim)
    else:
        b.node('y', 'GaussianARD', ['M', 'N'], [ref('s'), b.maybe_tau('tau', ['M', 'N'])])
    b.observe('y')
    return b.spec()


@family
def mvn(rng):
    """Gaussian with Wishart precision, hierarchical means and scales."""
    b = B(rng, 'mvn')
    b.axis('G', b.int(1, 3))
    b.axis('N', b.int(1, 4))
    b.axis('D', b.int(1, 3), sticky=True)
    ga = ['G'] if b.coin() else []
    lam = None
    u = b.int(0, 3)
    if u == 0:
        b.wishart('V', ['D'])
        b.node('L', 'Wishart', ga, [dict(const=float(b.sz(['D'])[0] + b.int(1, 3))), ref('V')], dim=['D'])
        lam = ref('L')
    elif u == 1:
        b.wishart('L', ['D'], ga)
        lam = ref('L')
    elif u == 2:
        b.axis('Dd', b.sz(['D'])[0], sticky=True)
        b.gamma('d', ga + ['Dd'])
        b.node('L', 'diagwish', ga, [ref('d')], diag='Dd', dim=['D'])
        lam = ref('L')
    else:
        lam = b.cspd(['D'], ['G'])
    if u <= 2 and b.coin(0.25):
        sa = ga if b.coin() else []
        b.gamma('sc', sa)
        b.node('LS', 'scalewish', ga, [lam, ref('sc')], dim=['D'])
        lam = ref('LS')
    if b.coin(0.4):
        b.node('m0', 'Gaussian', [], [b.creal([], ['D']), b.cspd(['D'])], dim=['D'])
        m0 = ref('m0')
    else:
        m0 = b.creal(ga, ['D'])
    b.node('mu', 'Gaussian', ga, [m0, b.cspd(['D'])], dim=['D'], ones=['N'] if (ga and b.coin(0.5)) else [])
    # explicit unit plate on mu requires L to align by name as well
    b.node('y', 'Gaussian', ['G', 'N'], [ref('mu'), lam], dim=['D'])
    b.observe('y')
    return b.spec()


@family
def gaussgamma(rng):
    b = B(rng, 'gaussgamma')
    ga = b.coin(0.4)
    b.axis('G', b.int(1, 3))
    b.axis('N', b.int(1, 5))
    b.axis('D', b.int(1, 3), sticky=True)
    gx = ['G'] if ga else []
    b.node('w', 'GaussianGamma', gx, [b.creal(gx, ['D']), b.cspd(['D']), b.cpos(lo=1.0), b.cpos()], dim=['D'])
    ya = gx + ['N']
    kind = b.pick('dot', 'direct')
    if kind == 'dot':
        b.node('f', 'dot', ya, [ref('w'), b.cfull(['N'], ['D'])], eins=[['D'], ['D']], dim=[])
        b.node('y', 'GaussianARD', ya, [ref('f'), b.cpos(['N'])])
    else:
        b.node('y', 'Gaussian', ya, [ref('w'), b.cspd(['D'])], dim=['D'])
    b.observe('y')
    return b.spec()


@family
def betas(rng):
    b = B(rng, 'betas')
    b.axis('G', b.int(1, 3))
    b.axis('N', b.int(1, 4))
    b.axis('two', 2, sticky=True)
    ga = ['G'] if b.coin() else []
    b.node('p', 'Beta', ga, [b.cpos(ga, ['two'], lo=0.5)], dim=['two'], ones=['N'] if (ga and b.coin()) else [])
    kind = b.pick('Bernoulli', 'Binomial')
    kw = {}
    if kind == 'Binomial':
        ta = [a for a in ['G', 'N'] if b.coin()]
        kw = dict(trials=b.rng.integers(0 if b.coin(0.2) else 1, 8, b.sz(ta)).tolist(), trials_axes=ta)
    par = 'p'
    if b.coin(0.3):
        par = 'c'
        b.node('c', 'complement', ga, [ref('p')], dim=['two'], ones=b.nodes[-1].get('ones'))
    b.node('y', kind, ['G', 'N'], [ref(par)], **kw)
    b.observe('y')
    if b.coin(0.2):
        # heads of one kind, tails of another
        b.node('y2', 'Bernoulli', ['G', 'N'], [ref('p')])
        b.observe('y2')
    return b.spec()


@family
def multinomials(rng):
    b = B(rng, 'multinomials')
    b.axis('G', b.int(1, 3))
    b.axis('N', b.int(1, 4))
    b.axis('K', b.int(2, 4), sticky=True)
    ga = ['G'] if b.coin() else []
    if b.coin(0.3):
        b.node('conc', 'Concentration', [], [], dim=['K'])
        b.node('p', 'Dirichlet', ga, [ref('conc')], dim=['K'])
    else:
        b.dirichlet('p', ['K'], ga, ones=['N'] if (ga and b.coin()) else [])
    kind = b.pick('Categorical', 'Multinomial')
    kw = {}
    if kind == 'Multinomial':
        ta = [a for a in ['G', 'N'] if b.coin()]
        kw = dict(trials=b.rng.integers(1, 8, b.sz(ta)).tolist(), trials_axes=ta)
    b.node('y', kind, ['G', 'N'], [ref('p')], dim=['K'], **kw)
    b.observe('y')
    return b.spec()


@family
def counts(rng):
    b = B(rng, 'counts')
    b.axis('G', b.int(1, 3))
    b.axis('N', b.int(1, 4))
    ga = ['G'] if b.coin() else []
    u = b.int(0, 2)
    if u == 0:
        b.gamma('hr')
        b.node('rate', 'Gamma', ga, [b.cpos(ga, lo=0.5), ref('hr')], ones=['N'] if (ga and b.coin()) else [])
    elif u == 1:
        b.node('sh', 'GammaShape', [], [])
        b.gamma('hr')
        b.node('rate', 'Gamma', ['G'], [ref('sh'), ref('hr')], ones=['N'] if b.coin() else [])
    else:
        b.gamma('rate', ga, ones=['N'] if (ga and b.coin()) else [])
    kind = b.pick('Poisson', 'Gamma')
    ps = [ref('rate')]
    if kind == 'Gamma':
        ps = [b.cpos(['N'], lo=0.5), ref('rate')]
    b.node('y', kind, ['G', 'N'], ps)
    b.observe('y')
    return b.spec()


@family
def discrete(rng):
    """Fully discrete networks: categorical/Bernoulli given categorical."""
    b = B(rng, 'discrete')
    b.axis('N', b.int(1, 4))
    b.axis('K', b.int(1, 3), sticky=True)
    b.axis('J', b.int(2, 3), sticky=True)
    b.dirichlet('pi', ['K'])
    b.node('a', 'Categorical', ['N'], [ref('pi')], dim=['K'])
    b.dirichlet('q', ['J'], ['K'])
    b.node('c', 'Mixture', ['N'], [ref('a'), ref('q')], inner=dict(kind='Categorical', dim=['J']),
           cluster='K', cplate=-1, dim=['J'])
    b.axis('two', 2, sticky=True)
    b.node('p', 'Beta', ['J'], [b.cpos(['J'], ['two'], lo=0.5)], dim=['two'])
    b.node('y', 'Mixture', ['N'], [ref('c'), ref('p')], inner=dict(kind='Bernoulli'), cluster='J', cplate=-1)
    b.observe('y')
    if b.coin(0.3):
        b.observe('c')
    return b.spec()


@family
def hub(rng):
    """Variables with many children of different plates and kinds."""
    b = B(rng, 'hub')
    b.axis('G', b.int(1, 3))
    b.axis('N', b.int(1, 3))
    b.axis('K', b.int(2, 3), sticky=True)
    b.gamma('tau', ['G'] if b.coin() else [])
    gm = ['G'] if b.coin() else []
    b.node('mu', 'GaussianARD', gm, [b.creal(gm), b.cpos(gm)])
    b.dirichlet('p', ['K'], ['G'] if b.coin(0.3) else [])
    for i in range(b.int(3, 6)):
        u = b.int(0, 4)
        y = 'y%d' % i
        # (a child has at least the plates of its parents)
        ax = b.pick(['G'], ['G', 'N'])
        if u <= 1:
            b.node(y, 'GaussianARD', ax, [ref('mu'), ref('tau') if b.coin(0.7) else b.cpos(ax)])
        elif u == 2:
            b.node('s%d' % i, 'dot', gm, [ref('mu'), dict(const=b.r(b.rng.standard_normal()), axes=[], dim=[])],
                   eins=[[], []], style='list')
            b.node(y, 'GaussianARD', ax, [ref('s%d' % i), ref('tau')])
        elif u == 3:
            b.node(y, 'Gamma', ax, [b.cpos(ax, lo=0.5), ref('tau')])
        else:
            b.node(y, 'Categorical', ax, [ref('p')], dim=['K'])
        if b.coin(0.85):
            b.observe(y)
    return b.spec()


@family
def gaussnd(rng):
    """Gaussian variables which are scalars or matrices (argument ndim)."""
    b = B(rng, 'gaussnd')
    two = b.coin(0.3)
    if two:
        b.axis('M', b.int(1, 3))
    b.axis('N', b.int(1, 4))
    b.axis('D', b.int(1, 3), sticky=True)
    b.axis('E', b.int(1, 2), sticky=True)
    dim = [] if b.coin() else ['D', 'E']

    def spd(axes=()):
        if not dim:
            return b.cpos(axes, lo=0.5)
        (D, E) = b.sz(dim)
        axes = [a for a in axes if b.coin(0.3)]
        A = b.rng.standard_normal(b.sz(axes) + (D * E, D * E)) * 0.5
        M = np.round(np.einsum('...ij,...kj->...ik', A, A) + np.eye(D * E), 3)
        M = 0.5 * (M + np.swapaxes(M, -1, -2))
        return dict(const=M.reshape(b.sz(axes) + (D, E, D, E)).tolist(), axes=axes, dim=dim + dim)

    ma = (['M'] if two and b.coin() else []) + (['N'] if b.coin(0.3) else [])
    if b.coin(0.7):
        b.node('mu', 'Gaussian', ma, [b.creal(ma, dim), spd(ma)], dim=dim, nd=len(dim))
    else:
        b.node('mu', 'GaussianARD', ma, [b.creal(ma, dim), b.cpos([], dim)], dim=dim)
    xa = (['M'] if two else []) + ['N']
    b.node('x', 'Gaussian', xa, [ref('mu'), spd(xa)], dim=dim, nd=len(dim))
    if b.coin(0.4):
        if b.coin():
            b.node('y', 'GaussianARD', xa, [ref('x'), b.maybe_tau('tau', xa) if not dim else b.cpos([], dim)], dim=dim)
        else:
            b.node('y', 'Gaussian', xa, [ref('x'), spd(xa)], dim=dim, nd=len(dim))
        b.observe('y')
        if b.coin(0.3):
            b.observe('x')
    else:
        b.observe('x')
    return b.spec()


NAMES = list(FAMILIES)


def make(rng, name=None):
    if name is None:
        name = NAMES[int(rng.integers(len(NAMES)))]
    s = canonical(FAMILIES[name](rng))
    styles(s, rng)
    return s


def mult_axes(d):
    """Plate axes along which data can be repeated or split."""
    if any(n['kind'] in ('concat', 'take') for n in d['nodes']):
        # documented not to support multipliers
        return []
    bad = set()
    for n in d['nodes']:
        for k in ('axis', 'axis_in', 'axis_out', 'time', 'cluster'):
            if k in n:
                bad.add(n[k])
        bad.update(n.get('parts', []) + n.get('axes_out', []))
        for e in n.get('index', []):
            bad.update([e[0]] + e[3:])
        if n['kind'] in ('GammaShape', 'Concentration'):
            bad.update(n['axes'])
    return [a for (a, v) in d['axes'].items() if not v.get('sticky') and a not in bad
            and any(a in n['axes'] for n in d['nodes'])]


def with_mult(d, axis, m, where):
    d = json.loads(json.dumps(d))
    d['axes'][axis]['mult'] = m
    spec = Spec(d)
    has = {}
    for n in d['nodes']:
        up = any(has.get(p.get('ref')) for p in n.get('parents', []))
        has[n['name']] = up
        if axis in n['axes'] and spec.is_stoch(n['name']) and (where == 'all' or not up):
            n['setmult'] = True
            has[n['name']] = True
    return d


def random_mult(d, rng):
    """Some plate axis stands for several (or a fraction of) repetitions."""
    axes = mult_axes(d)
    if not axes:
        return d
    a = axes[int(rng.integers(len(axes)))]
    return with_mult(d, a, float(rng.choice([2, 3, 0.5, 10])), str(rng.choice(['all', 'top'])))


def priors(d, rng):
    """Vague or strong constant priors (the data are typical of neither)."""
    for n in d['nodes']:
        ps = n.get('parents', [])
        if not ps or not all('const' in p for p in ps) or rng.random() < 0.4:
            continue
        c = float(10 ** rng.uniform(*dict(Dirichlet=(-2, 3), Beta=(-2, 3), Gamma=(-1.7, 2), GaussianARD=(-4, 1)).get(n['kind'], (0, 0))))
        which = dict(Dirichlet=[0], Beta=[0], Gamma=[0, 1], GaussianARD=[1]).get(n['kind'], [])
        for i in which:
            if ps[i].get('dtype', 'float') == 'float':
                ps[i]['const'] = times(ps[i]['const'], c)
    return d


def times(x, c):
    return [times(y, c) for y in x] if isinstance(x, list) else float('%.4g' % (x * c))


def styles(s, rng):
    """Ways of constructing the same node: plates given or inferred from the
    parents, shape given or inferred."""
    nodes = {n['name']: n for n in s['nodes']}

    def outer(p):
        if 'const' in p:
            return list(p.get('axes', [])), list(p.get('dim', []))
        m = nodes[p['ref']]
        return list(m['axes']) + ([m['time']] if m['kind'] in ('GMC', 'CMC', 'SGMC', 'VGMC') else []), list(m.get('dim', []))
    for n in s['nodes']:
        if n['kind'] in DETERMINISTIC or n['kind'] in ('GammaShape', 'Concentration') or rng.random() < 0.5:
            continue
        have = set()
        for p in n.get('parents', []):
            have |= set(outer(p)[0])
        if n['axes'] and set(n['axes']) <= have and not n.get('ones'):
            n['infer'] = True
        if n['kind'] == 'GaussianARD' and n.get('dim'):
            # (the last axes of what the parents have are the dimensions)
            full = set()
            for p in n['parents']:
                full |= set(outer(p)[0]) | set(outer(p)[1])
            if set(n['dim']) <= full:
                n['style'] = str(rng.choice(['ndim', 'both', 'shape']))


def canonical(s):
    """Drop axes nobody uses."""
    import json
    txt = json.dumps(s['nodes'])
    s['axes'] = {a: v for (a, v) in s['axes'].items() if '"%s"' % a in txt or ('"%s"' % a[:-2] in txt and a.endswith('-1'))}
    return s

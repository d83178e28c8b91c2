"""Executable reference semantics of a model spec.  Never calls BayesPy.

Everything follows from the textbook definition

    L  =  sum over factors  E_q[ log p(x_e | parents of e) ]  +  sum H[q_e]

evaluated literally: the log densities are ordinary functions of ordinary
values, and the expectation over every latent element is taken with a discrete
measure ("sigma points") which matches the expected sufficient statistics that
the element's posterior reports.  All log densities of conjugate-exponential
models are multilinear in those statistics, so the expectation is exact up to
rounding.  Elements are enumerated lazily: only those an evaluation asks for.
"""

import itertools
import math
import numpy as np
from scipy import special as sp

from .dsl import getitem_fix, clusters, Spec, raw_axes, CHAINS

LOG2PI = math.log(2 * math.pi)


class Need(Exception):
    def __init__(self, key):
        self.key = key


class Inconsistent(Exception):
    """Reported moments are not moments of any distribution of the family."""


def chol(C, m=None):
    C = 0.5 * (C + C.T)
    (ok, L, low) = _chol(C)
    if not ok and m is not None:
        # almost a point: only rounding noise around the mean is left
        (ok, L, low) = _chol(C + np.diag(1e-11 * np.asarray(m) ** 2))
    if not ok:
        raise Inconsistent('covariance not positive: min eig %g' % low)
    return L


def _chol(C):
    s = np.sqrt(np.maximum(np.diag(C), 0))
    s = np.where(s > 0, s, 1)
    R = C / np.outer(s, s)
    if not np.all(np.isfinite(R)):
        return (False, None, np.nan)
    w, V = np.linalg.eigh(R)
    low = w.min()
    return (bool(low > -1e-6 * max(1, len(w))), s[:, None] * (V * np.sqrt(np.maximum(w, 0))), low)


def logdet_cov(C):
    C = 0.5 * (C + C.T)
    s = np.sqrt(np.diag(C))
    if not np.all(np.diag(C) > 0):
        raise Inconsistent('non-positive variance %r' % (np.diag(C).min(),))
    (sg, ld) = np.linalg.slogdet(C / np.outer(s, s))
    if sg <= 0:
        raise Inconsistent('covariance not positive definite')
    return ld + 2 * np.sum(np.log(s))


def gauss_points(m, C):
    D = len(m)
    if D == 0:
        return [(1.0, m)]
    L = chol(C, m) * math.sqrt(D)
    return [(0.5 / D, m + s * L[:, i]) for i in range(D) for s in (1, -1)]


def gamma_points(m, ml):
    g = math.exp(ml)
    r = m * m - g * g
    if r < -1e-9 * m * m or not m > 0:
        raise Inconsistent('E[x]=%g < exp(E[log x])=%g' % (m, g))
    d = math.sqrt(max(r, 0.0))
    hi = m + d
    return [(0.5, hi), (0.5, g * g / hi)]


def gamma_shape_from_moments(m, ml):
    """Solve log a - digamma(a) = log m - ml."""
    c = math.log(m) - ml
    if not c > 0:
        raise Inconsistent('Gamma moments: log E - E log = %g' % c)
    a = (3 - c + math.sqrt((c - 3) ** 2 + 24 * c)) / (12 * c)
    for _ in range(100):
        f = math.log(a) - sp.digamma(a) - c
        fp = 1 / a - sp.polygamma(1, a)
        # Newton in log a
        step = f / (fp * a)
        a *= math.exp(-max(-1.0, min(1.0, step)))
        if abs(step) < 1e-15:
            break
    return a


def gamma_entropy(a, b):
    return a - math.log(b) + sp.gammaln(a) + (1 - a) * sp.digamma(a)


def xlogx(p):
    p = np.asarray(p, dtype=float)
    return np.where(p > 0, p * np.log(np.where(p > 0, p, 1)), 0)


# -- log densities ------------------------------------------------------------

def lp_normal(x, mu, tau):
    d = x - mu
    return 0.5 * math.log(tau) - 0.5 * LOG2PI - 0.5 * tau * d * d


def lp_mvn(x, mu, Lam):
    d = x - mu
    (sg, ld) = np.linalg.slogdet(Lam)
    return 0.5 * ld - 0.5 * len(d) * LOG2PI - 0.5 * float(d @ Lam @ d)


def lp_gamma(x, a, b):
    return a * math.log(b) - math.lgamma(a) + (a - 1) * math.log(x) - b * x


def lp_wishart(X, n, V):
    D = len(X)
    ldX = np.linalg.slogdet(X)[1]
    ldV = np.linalg.slogdet(V)[1]
    return (0.5 * (n - D - 1) * ldX - 0.5 * float(np.sum(V * X)) + 0.5 * n * ldV
            - 0.5 * n * D * math.log(2) - sp.multigammaln(n / 2, D))


def lp_dirichlet(logp, alpha):
    alpha = np.asarray(alpha, dtype=float)
    return float(math.lgamma(alpha.sum()) - np.sum(sp.gammaln(alpha))
                 + np.sum((alpha - 1) * logp))


def lp_binomial(x, n, logp):
    """logp = (log p, log(1-p))"""
    r = math.lgamma(n + 1) - math.lgamma(x + 1) - math.lgamma(n - x + 1)
    if x:
        r += x * logp[0]
    if n - x:
        r += (n - x) * logp[1]
    return r


def lp_multinomial(x, n, logp):
    x = np.asarray(x, dtype=float)
    return float(math.lgamma(n + 1) - np.sum(sp.gammaln(x + 1))
                 + np.sum(np.where(x != 0, x * np.where(x != 0, logp, 0), 0)))


def lp_poisson(x, lam):
    return (x * math.log(lam) if x else 0.0) - lam - math.lgamma(x + 1)


class Ref:
    """Reference semantics with a given posterior and data."""

    def __init__(self, d):
        self.spec = d if isinstance(d, Spec) else Spec(d)
        self.obs = {}       # name -> (values, mask over axes)
        self.q = {}         # name -> list of moments, full plate axes first
        self.par = {}       # name -> list of natural parameters
        self._deps = {}

    # -- concrete evaluation --------------------------------------------------

    def const(self, p, fix):
        v = p.get('_np')
        if v is None:
            v = np.array(p['const'], dtype=p.get('dtype', 'float'))
            p['_np'] = v
        ix = tuple(fix[a] for a in p.get('axes', []))
        return v[ix] if ix else v

    def arg(self, p, fix, env):
        """Value of a parent reference under an axis assignment."""
        if 'const' in p:
            return self.const(p, fix)
        return self.value(p['ref'], fix, env)

    def value(self, name, fix, env):
        spec = self.spec
        n = spec.nodes[name]
        k = n['kind']
        if spec.is_stoch(name) or spec.is_point(name):
            idx = tuple(fix[a] for a in n['axes'])
            if k in CHAINS:
                return self.chain_value(name, n, idx, fix[n['time']], env)
            return self.elem(name, idx, env)
        ps = n.get('parents', [])
        if k == 'dot':
            args = []
            keys = {}
            for e in n['eins'] + [n.get('dim', [])]:
                for a in e:
                    keys.setdefault(a, len(keys))
            tau = None
            for (p, e) in zip(ps, n['eins']):
                v = self.arg(p, fix, env)
                if isinstance(v, tuple):
                    tau = v[1] * (1.0 if tau is None else tau)
                    v = v[0]
                args += [np.asarray(v, dtype=float), [keys[a] for a in e]]
            y = np.einsum(*args, [keys[a] for a in n.get('dim', [])])[()]
            return y if tau is None else (y, tau)
        if k == 'add':
            return sum(np.asarray(self.arg(p, fix, env)) for p in ps)[()]
        if k == 'take':
            f = dict(fix)
            ind = np.array(n['indices'])
            j = tuple(fix[a] for a in n['axes_out']) if 'axes_out' in n else (fix[n['axis_out']],)
            f[n['axis_in']] = int(ind[j]) % spec.size(n['axis_in'])
            return self.arg(ps[0], f, env)
        if k == 'index':
            f = dict(fix)
            f[n['axis']] = n['i'] % spec.size(n['axis'])
            return self.arg(ps[0], f, env)
        if k == 'slice':
            f = dict(fix)
            rng = range(spec.size(n['axis_in']))[slice(*n['slice'])]
            f[n['axis_in']] = rng[fix[n['axis_out']]]
            return self.arg(ps[0], f, env)
        if k == 'getitem':
            return self.arg(ps[0], getitem_fix(spec, n, fix), env)
        if k == 'complement':
            return np.asarray(self.arg(ps[0], fix, env))[::-1]
        if k == 'scalewish':
            return np.asarray(self.arg(ps[0], fix, env)) * self.arg(ps[1], fix, env)
        if k == 'concat':
            i = fix[n['axis_out']]
            for (p, a) in zip(ps, n['parts']):
                if i < spec.size(a):
                    f = dict(fix)
                    f[a] = i
                    return self.arg(p, f, env)
                i -= spec.size(a)
        if k == 'gate':
            z = self.arg(ps[0], fix, env)
            f = dict(fix)
            f[n['cluster']] = int(z)
            return self.arg(ps[1], f, env)
        if k == 'choose':
            z = self.arg(ps[0], fix, env)
            return self.arg(ps[1 + int(z)], fix, env)
        if k == 'concatgauss':
            return np.concatenate([np.atleast_1d(self.arg(p, fix, env)) for p in ps])
        if k == 'diagwish':
            D = n['dim'][0]
            src = ps[0]['ref']
            return np.diag([self.value(src, {**fix, n['diag']: i}, env)
                            for i in range(spec.size(D))])
        raise ValueError(k)

    def elem(self, name, idx, env):
        o = self.obs.get(name)
        if o is not None and o[1][idx]:
            return self.from_data(name, o[0][idx])
        key = (name, idx)
        if key in env:
            return env[key]
        raise Need(key)

    def from_data(self, name, x):
        k = self.family(name)
        if k == 'Dirichlet':
            return np.log(x)
        if k == 'Beta':
            return np.array([math.log(x), math.log1p(-x)])
        return x

    def chain_value(self, name, n, idx, t, env):
        o = self.obs.get(name)
        if o is not None and o[1][idx]:
            return o[0][idx][t]
        full = env.get((name, idx))
        if full is not None:
            return full[t]
        key = (name, idx, t)
        if key in env:
            return env[key]
        raise Need(key)

    def family(self, name):
        n = self.spec.nodes[name]
        return n['inner']['kind'] if n['kind'] == 'Mixture' else n['kind']

    # -- factors --------------------------------------------------------------

    def trials(self, n, idx):
        if 'trials' not in n:
            return np.array(n['inner']['trials'])
        t = np.array(n['trials'])
        ta = n.get('trials_axes', [])
        fix = dict(zip(n['axes'], idx))
        ix = tuple(fix[a] for a in ta)
        return t[ix] if ix else t[()]

    def logp_terms(self, name, idx):
        """List of functions env -> scalar; the factor of element idx is their
        sum.  Each only asks for the latent elements it depends on."""
        spec = self.spec
        n = spec.nodes[name]
        k = n['kind']
        fix = dict(zip(n['axes'], idx))
        ps = n.get('parents', [])

        if k == 'Mixture':
            inner = n['inner']
            cs = clusters(n)

            def f(env):
                ff = dict(fix)
                for (c, p) in zip(cs, ps):
                    ff[c] = int(self.arg(p, fix, env))
                pars = [(p, ff) for p in ps[len(cs):]]
                return self.density(inner, lambda: self.elem(name, idx, env), pars, env, n, idx)
            return [f]

        if k in CHAINS:
            return self.chain_terms(name, n, idx, fix)

        if k == 'GaussianARD' and n.get('dim'):
            dim = n['dim']
            out = []
            for ix in itertools.product(*[range(spec.size(a)) for a in dim]):
                def f(env, ix=ix):
                    x = self.elem(name, idx, env)[ix]
                    mu = self.pick(ps[0], fix, dim, ix, env)
                    al = self.pick(ps[1], fix, dim, ix, env)
                    return lp_normal(x, mu, al)
                out.append(f)
            return out

        if k == 'GaussianGamma':
            def f(env):
                (x, tau) = self.elem(name, idx, env)
                mu = self.arg(ps[0], fix, env)
                Lam = self.arg(ps[1], fix, env)
                a = self.arg(ps[2], fix, env)
                b = self.arg(ps[3], fix, env)
                return (lp_mvn(np.atleast_1d(x), np.atleast_1d(mu), tau * np.atleast_2d(Lam))
                        + lp_gamma(tau, a, b))
            return [f]

        pars = [(p, fix) for p in ps]

        def f(env):
            return self.density(n, lambda: self.elem(name, idx, env), pars, env, n, idx)
        return [f]

    def pick(self, p, fix, dim, ix, env):
        """Scalar element `ix` (over dim) of a parent."""
        if 'const' in p:
            have, pdim = p.get('axes', []), p.get('dim', [])
        else:
            m = self.spec.nodes[p['ref']]
            have, pdim = self.spec.out_axes(p['ref']), m.get('dim', [])
        f = fix
        if any(a in have for a in dim):
            f = dict(fix)
            for (a, i) in zip(dim, ix):
                if a in have:
                    f[a] = i
        v = self.arg(p, f, env)
        if pdim:
            v = np.asarray(v)[tuple(ix[dim.index(a)] for a in pdim)]
        return v

    def density(self, n, xf, pars, env, node, idx):
        k = n['kind']
        A = lambda i: self.arg(pars[i][0], pars[i][1], env)
        x = xf()
        if k == 'GaussianARD':
            mu = A(0)
            if isinstance(mu, tuple):      # Gaussian-gamma parent scales the noise
                return lp_normal(x, mu[0], mu[1] * A(1))
            return lp_normal(x, mu, A(1))
        if k == 'Gaussian':
            mu = A(0)
            if isinstance(mu, tuple):
                return lp_mvn(x, mu[0], mu[1] * A(1))
            if 'nd' in n:
                D = np.size(x)
                return lp_mvn(np.reshape(x, D), np.reshape(mu, D), np.reshape(A(1), (D, D)))
            return lp_mvn(x, mu, A(1))
        if k == 'Gamma':
            return lp_gamma(x, A(0), A(1))
        if k == 'Wishart':
            return lp_wishart(x, A(0), A(1))
        if k == 'Dirichlet':
            return lp_dirichlet(x, A(0))
        if k == 'Beta':
            return lp_dirichlet(x, A(0))
        if k == 'Categorical':
            return float(self.logprob(pars[0], env)[int(x)])
        if k == 'Bernoulli':
            lp = self.logprob2(pars[0], env)
            return lp[0] if x else lp[1]
        if k == 'Binomial':
            return lp_binomial(x, int(self.trials(node, idx)),
                               self.logprob2(pars[0], env))
        if k == 'Multinomial':
            return lp_multinomial(x, int(self.trials(node, idx)),
                                  self.logprob(pars[0], env))
        if k == 'Poisson':
            return lp_poisson(x, A(0))
        raise ValueError(k)

    def logprob(self, pf, env):
        (p, fix) = pf
        if 'const' in p:
            with np.errstate(divide='ignore'):
                return np.log(self.const(p, fix))
        return self.value(p['ref'], fix, env)

    def logprob2(self, pf, env):
        (p, fix) = pf
        if 'const' in p:
            v = float(self.const(p, fix))
            return (math.log(v), math.log1p(-v))
        return self.value(p['ref'], fix, env)

    def chain_terms(self, name, n, idx, fix):
        spec = self.spec
        k = n['kind']
        T = spec.size(n['time'])
        ps = n['parents']
        tm = '%s-1' % n['time']
        if k == 'CMC':
            def first(env):
                z = int(self.chain_value(name, n, idx, 0, env))
                return float(self.logprob((ps[0], fix), env)[z])
            out = [first]
            for t in range(1, T):
                def f(env, t=t):
                    (a, b) = self.pair(name, n, idx, t, env)
                    ff = dict(fix)
                    ff[tm] = t - 1
                    ff[n['state']] = int(a)
                    return float(self.logprob((ps[1], ff), env)[int(b)])
                out.append(f)
            return out

        D = spec.size(n['dim'][0])

        def first(env):
            x = self.chain_value(name, n, idx, 0, env)
            return lp_mvn(x, self.arg(ps[0], fix, env), self.arg(ps[1], fix, env))
        out = [first]
        for t in range(1, T):
            for d in range(D):
                def f(env, t=t, d=d):
                    (a, b) = self.pair(name, n, idx, t, env)
                    ff = dict(fix)
                    ff[tm] = t - 1
                    ff[n['state']] = d
                    if k == 'GMC':
                        row = self.arg(ps[2], ff, env)
                        v = self.arg(ps[3], ff, env)
                        inp = a
                        if len(ps) > 4:
                            inp = np.concatenate([a, np.atleast_1d(self.arg(ps[4], ff, env))])
                        return lp_normal(b[d], float(np.dot(row, inp)), v)
                    v = self.arg(ps[4], ff, env)
                    if k == 'SGMC':
                        ff[n['cluster']] = int(self.arg(ps[3], ff, env))
                        row = self.arg(ps[2], ff, env)
                        return lp_normal(b[d], float(np.dot(row, a)), v)
                    B = np.asarray(self.arg(ps[2], ff, env))       # (D, K)
                    s = np.asarray(self.arg(ps[3], ff, env))       # (K,)
                    return lp_normal(b[d], float(a @ B @ s), v)
                out.append(f)
        return out

    def pair(self, name, n, idx, t, env):
        o = self.obs.get(name)
        if o is not None and o[1][idx]:
            return (o[0][idx][t - 1], o[0][idx][t])
        full = env.get((name, idx))
        if full is not None:
            return (full[t - 1], full[t])
        key = (name, idx, 'p', t)
        if key in env:
            return env[key]
        raise Need(key)

    # -- structure ------------------------------------------------------------

    def deps(self, name, fix):
        """Stochastic elements which the value of node `name` may depend on."""
        spec = self.spec
        n = spec.nodes[name]
        k = n['kind']
        if spec.is_stoch(name) or spec.is_point(name):
            return {(name, tuple(fix[a] for a in n['axes']))}
        ps = n.get('parents', [])

        def dep(p, f):
            return set() if 'const' in p else self.deps(p['ref'], f)
        if k in ('dot', 'add', 'concatgauss', 'choose', 'complement', 'scalewish'):
            return set().union(*[dep(p, fix) for p in ps])
        f = dict(fix)
        if k == 'take':
            ind = np.array(n['indices'])
            j = tuple(fix[a] for a in n['axes_out']) if 'axes_out' in n else (fix[n['axis_out']],)
            f[n['axis_in']] = int(ind[j]) % spec.size(n['axis_in'])
            return dep(ps[0], f)
        if k == 'index':
            f[n['axis']] = n['i'] % spec.size(n['axis'])
            return dep(ps[0], f)
        if k == 'slice':
            f[n['axis_in']] = range(spec.size(n['axis_in']))[slice(*n['slice'])][fix[n['axis_out']]]
            return dep(ps[0], f)
        if k == 'getitem':
            return dep(ps[0], getitem_fix(spec, n, fix))
        if k == 'concat':
            i = fix[n['axis_out']]
            for (p, a) in zip(ps, n['parts']):
                if i < spec.size(a):
                    f[a] = i
                    return dep(p, f)
                i -= spec.size(a)
        if k == 'gate':
            out = dep(ps[0], fix)
            for c in range(spec.size(n['cluster'])):
                f[n['cluster']] = c
                out |= dep(ps[1], f)
            return out
        if k == 'diagwish':
            out = set()
            for c in range(spec.size(n['diag'])):
                f[n['diag']] = c
                out |= dep(ps[0], f)
            return out
        raise ValueError(k)

    def parent_elems(self, name, idx):
        """Stochastic elements which the factor of element idx depends on."""
        key = (name, idx)
        r = self._deps.get(key)
        if r is None:
            r = self._deps[key] = self._parent_elems(name, idx)
        return r

    def _parent_elems(self, name, idx):
        spec = self.spec
        n = spec.nodes[name]
        fix = dict(zip(n['axes'], idx))
        k = n['kind']
        out = set()
        loops = {}
        ps = n.get('parents', [])
        for (i, p) in enumerate(ps):
            if 'const' in p:
                continue
            over = []
            if k == 'Mixture' and i >= len(clusters(n)):
                over = clusters(n)
            elif k == 'GaussianARD':
                over = list(n.get('dim', []))
            elif k == 'CMC' and i == 1:
                over = ['%s-1' % n['time'], n['state']]
            elif k in ('GMC', 'SGMC', 'VGMC') and i > 1:
                over = ['%s-1' % n['time'], n['state']]
                if k == 'SGMC':
                    over = over + [n['cluster']]
            over = [a for a in over if a in spec.axes]
            for ix in itertools.product(*[range(spec.size(a)) for a in over]):
                f = dict(fix)
                f.update(zip(over, ix))
                out |= self.deps(p['ref'], f)
        return out

    def included(self):
        """Elements that are observed or have an observed descendant."""
        spec = self.spec
        inc = {}
        for name in spec.stoch + spec.points:
            sh = spec.sizes(spec.nodes[name]['axes'])
            inc[name] = np.zeros(sh, dtype=bool)
            if name in self.obs:
                inc[name] |= self.obs[name][1]
        for name in reversed(spec.names):
            if not spec.is_stoch(name):
                continue
            for idx in np.ndindex(inc[name].shape):
                if inc[name][idx]:
                    for (pn, pi) in self.parent_elems(name, idx):
                        inc[pn][pi] = True
        return inc

    def weight(self, name):
        w = 1
        for a in self.spec.nodes[name]['axes']:
            w *= self.spec.mult(a)
        return w

    # -- expectations ---------------------------------------------------------

    def expect(self, f):
        env = {}

        def rec():
            try:
                return f(env)
            except Need as e:
                key = e.key
            tot = 0.0
            for (w, v) in self.points(key):
                if w == 0:
                    continue
                env[key] = v
                tot += w * rec()
            del env[key]
            return tot
        return rec()

    def points(self, key):
        r = self._pts.get(key)
        if r is None:
            r = self._pts[key] = self._points(key)
        return r

    def gaussian_moments(self, name, idx):
        n = self.spec.nodes[name]
        u = self.q[name]
        x = u[0][idx]
        D = int(np.prod(np.shape(x), dtype=int)) if np.ndim(x) else 1
        m = np.reshape(x, (D,))
        C = np.reshape(u[1][idx], (D, D)) - np.outer(m, m)
        return m, C, np.shape(x)

    def _points(self, key):
        name = key[0]
        idx = key[1]
        n = self.spec.nodes[name]
        u = self.q[name]
        k = self.family(name)
        if k in CHAINS:
            if k == 'CMC':
                p0, zz = u[0][idx], u[1][idx]
                if key[2] == 'p':
                    t = key[3]
                    K = len(p0)
                    return [(zz[t - 1][a, b], (a, b)) for a in range(K) for b in range(K)]
                t = key[2]
                p = p0 if t == 0 else zz[t - 1].sum(axis=0)
                return [(p[i], i) for i in range(len(p))]
            x, xx, xpx = u[0][idx], u[1][idx], u[2][idx]
            if key[2] == 'p':
                m, C = self.pair_cov(u, idx, key[3])
                D = x.shape[-1]
                return [(w, (v[:D], v[D:])) for (w, v) in gauss_points(m, C)]
            t = key[2]
            return gauss_points(x[t], xx[t] - np.outer(x[t], x[t]))
        if k in ('GaussianARD', 'Gaussian'):
            m, C, sh = self.gaussian_moments(name, idx)
            return [(w, v.reshape(sh)[()]) for (w, v) in gauss_points(m, C)]
        if k == 'Gamma':
            return gamma_points(float(u[0][idx]), float(u[1][idx]))
        if k == 'Wishart':
            E = u[0][idx]
            D = len(E)
            (sg, ld) = np.linalg.slogdet(E)
            if sg <= 0:
                raise Inconsistent('Wishart mean not positive definite')
            r = math.exp(min(0.0, (float(u[1][idx]) - ld) / D))
            if (float(u[1][idx]) - ld) / D > 1e-9:
                raise Inconsistent('E log|X| > log|E X|')
            s = math.sqrt(max(0.0, 1 - r * r))
            return [(0.5, (1 + s) * E), (0.5, (r * r / (1 + s)) * E)]
        if k in ('Dirichlet', 'Beta'):
            return [(1.0, u[0][idx])]
        if k == 'Categorical':
            p = u[0][idx]
            return [(p[i], i) for i in range(len(p))]
        if k == 'Bernoulli':
            p = float(u[0][idx])
            return [(p, 1), (1 - p, 0)]
        if k == 'GaussianGamma':
            (m, iL, t, lt, sh) = self.gg(name, idx)
            out = []
            for (w, tau) in gamma_points(t, lt):
                for (w2, v) in gauss_points(m, iL / tau):
                    out.append((w * w2, (v.reshape(sh)[()], tau)))
            return out
        if k in ('GammaShape',):
            return [(1.0, float(u[0][idx]))]
        if k == 'Concentration':
            return [(1.0, u[0][idx])]
        raise ValueError(k)

    def gg(self, name, idx):
        u = self.q[name]
        t = float(u[2][idx])
        lt = float(u[3][idx])
        m = np.atleast_1d(u[0][idx]) / t
        iL = np.reshape(u[1][idx], (len(m), len(m))) - t * np.outer(m, m)
        return m, iL, t, lt, np.shape(u[0][idx])

    def pair_cov(self, u, idx, t):
        x, xx, xpx = u[0][idx], u[1][idx], u[2][idx]
        m = np.concatenate([x[t - 1], x[t]])
        S = np.block([[xx[t - 1], xpx[t - 1]], [xpx[t - 1].T, xx[t]]])
        return m, S - np.outer(m, m)

    # -- entropy --------------------------------------------------------------

    def entropy(self, name, idx):
        u = self.q[name]
        k = self.family(name)
        if k in ('GaussianARD', 'Gaussian'):
            m, C, sh = self.gaussian_moments(name, idx)
            return 0.5 * len(m) * (1 + LOG2PI) + 0.5 * logdet_cov(C)
        if k == 'Gamma':
            m, ml = float(u[0][idx]), float(u[1][idx])
            a = gamma_shape_from_moments(m, ml)
            return gamma_entropy(a, a / m)
        if k == 'Wishart':
            phi = self.par[name]
            nn = 2 * float(phi[1][idx])
            V = -2 * phi[0][idx]
            V = 0.5 * (V + V.T)
            D = len(V)
            E = nn * np.linalg.inv(V)
            Eld = (np.sum(sp.digamma((nn - np.arange(D)) / 2)) + D * math.log(2)
                   - np.linalg.slogdet(V)[1])
            self.same(name, idx, 'E[X]', E, u[0][idx])
            self.same(name, idx, 'E log|X|', Eld, u[1][idx])
            logB = (-0.5 * nn * D * math.log(2) - sp.multigammaln(nn / 2, D)
                    + 0.5 * nn * np.linalg.slogdet(V)[1])
            return -logB - 0.5 * (nn - D - 1) * Eld + 0.5 * nn * D
        if k in ('Dirichlet', 'Beta'):
            al = self.par[name][0][idx]
            a0 = al.sum()
            K = len(al)
            self.same(name, idx, 'E log p', sp.digamma(al) - sp.digamma(a0), u[0][idx])
            lnB = np.sum(sp.gammaln(al)) - sp.gammaln(a0)
            return float(lnB + (a0 - K) * sp.digamma(a0) - np.sum((al - 1) * sp.digamma(al)))
        if k == 'Categorical':
            p = u[0][idx]
            self.same(name, idx, 'sum p', p.sum(), 1.0)
            return -float(np.sum(xlogx(p)))
        if k == 'Bernoulli':
            p = float(u[0][idx])
            return -float(xlogx(p) + xlogx(1 - p))
        if k == 'GaussianGamma':
            (m, iL, t, lt, sh) = self.gg(name, idx)
            a = gamma_shape_from_moments(t, lt)
            D = len(m)
            return (gamma_entropy(a, a / t) + 0.5 * D * (1 + LOG2PI)
                    + 0.5 * logdet_cov(iL) - 0.5 * D * lt)
        if k == 'CMC':
            p0, zz = u[0][idx], u[1][idx]
            H = 0.0
            prev = p0
            self.same(name, idx, 'sum p', p0.sum(), 1.0)
            for t in range(len(zz)):
                self.same(name, idx, 'pair marginal', zz[t].sum(axis=1), prev)
                H += -float(np.sum(xlogx(zz[t])))
                if t > 0:
                    H -= -float(np.sum(xlogx(prev)))
                prev = zz[t].sum(axis=0)
            if len(zz) == 0:
                H = -float(np.sum(xlogx(p0)))
            return H
        if k in ('GMC', 'SGMC', 'VGMC'):
            x, xx = u[0][idx], u[1][idx]
            T, D = x.shape
            H = 0.0
            for t in range(1, T):
                m, C = self.pair_cov(u, idx, t)
                H += 0.5 * 2 * D * (1 + LOG2PI) + 0.5 * logdet_cov(C)
                if t > 1:
                    H -= (0.5 * D * (1 + LOG2PI)
                          + 0.5 * logdet_cov(xx[t - 1] - np.outer(x[t - 1], x[t - 1])))
            if T == 1:
                H = 0.5 * D * (1 + LOG2PI) + 0.5 * logdet_cov(xx[0] - np.outer(x[0], x[0]))
            return H
        raise ValueError(k)

    def same(self, name, idx, what, a, b, rtol=1e-6):
        a, b = np.asarray(a), np.asarray(b)
        s = 1 + np.max(np.abs(a), initial=0)
        if not np.all(np.abs(a - b) <= rtol * s):
            raise Inconsistent('%s%r: %s: parameters say %r, moments say %r'
                               % (name, idx, what, a.tolist(), b.tolist()))

    # -- the bound ------------------------------------------------------------

    def set_state(self, obs, q, par):
        self.obs, self.q, self.par = obs, q, par
        self._pts = {}

    def term(self, name, inc, T=1.0):
        """(contribution of node, magnitude of what was summed).  With annealing
        (T != 1) densities of latent variables are relative to their base
        measures, both in E[log p] and in the entropy."""
        tot = 0.0
        mag = 0.0
        o = self.obs.get(name)
        w = self.weight(name)
        for idx in np.ndindex(inc[name].shape):
            if not inc[name][idx]:
                continue
            for f in self.logp_terms(name, idx):
                v = self.expect(f)
                tot += v
                mag += abs(v)
            if o is None or not o[1][idx]:
                H = self.entropy(name, idx)
                tot += T * H
                mag += T * abs(H)
                if T != 1.0:
                    h = self.logbase(name, idx)
                    tot += (T - 1) * h
                    mag += (T + 1) * abs(h)
        return w * tot, w * mag

    def logbase(self, name, idx):
        """Expected log base measure of the usual exponential family form."""
        u = self.q[name]
        k = self.family(name)
        if k in ('GaussianARD', 'Gaussian'):
            return -0.5 * LOG2PI * np.size(u[0][idx])
        if k in ('GMC', 'SGMC', 'VGMC'):
            return -0.5 * LOG2PI * np.size(u[0][idx])
        if k == 'Gamma':
            return -float(u[1][idx])
        if k in ('Dirichlet', 'Beta'):
            return -float(np.sum(u[0][idx]))
        if k == 'Wishart':
            return -0.5 * (np.shape(u[0][idx])[-1] + 1) * float(u[1][idx])
        if k == 'GaussianGamma':
            D = np.size(u[0][idx])
            return -0.5 * D * LOG2PI + (0.5 * D - 1) * float(u[3][idx])
        if k in ('Categorical', 'CMC', 'Bernoulli'):
            return 0.0
        raise ValueError(k)

    def elogp(self, name, inc):
        """E[log p] of a node's included elements: (value, magnitude)."""
        tot = mag = 0.0
        for idx in np.ndindex(inc[name].shape):
            if inc[name][idx]:
                for f in self.logp_terms(name, idx):
                    v = self.expect(f)
                    tot += v
                    mag += abs(v)
        w = self.weight(name)
        return w * tot, w * mag

    def factor_children(self, name):
        """Stochastic nodes (by name) whose factor depends on the node."""
        out = []
        for c in self.spec.stoch:
            for idx in np.ndindex(self.spec.sizes(self.spec.nodes[c]['axes'])):
                if any(pn == name for (pn, _) in self.parent_elems(c, idx)):
                    out.append(c)
                    break
        return out

    def local_energy(self, name, inc):
        """E[log p] of everything that depends on the node: its own factor over
        all elements, its children over the included ones."""
        own = dict(inc)
        own[name] = np.ones_like(inc[name])
        (v, m) = self.elogp(name, own) if self.spec.is_stoch(name) else self.point_term(name)
        for c in self.factor_children(name):
            (a, b) = self.elogp(c, inc)
            v += a
            m += b
        return v, m

    def point_term(self, name):
        """Regularisation of a point estimate: one pseudo-observation with
        uniform log-probabilities for Concentration, nothing for GammaShape."""
        if self.spec.nodes[name]['kind'] != 'Concentration':
            return (0.0, 0.0)
        tot = mag = 0.0
        for idx in np.ndindex(self.spec.sizes(self.spec.nodes[name]['axes'])):
            al = np.asarray(self.q[name][0][idx], dtype=float)
            parts = [float(np.sum(al)) * math.log(1.0 / len(al)),
                     math.lgamma(al.sum()), -float(np.sum(sp.gammaln(al)))]
            tot += sum(parts)
            mag += sum(map(abs, parts))
        return tot, mag

    def elbo(self, T=1.0):
        inc = self.included()
        out = {n: self.term(n, inc, T) for n in self.spec.stoch}
        for n in self.spec.points:
            out[n] = self.point_term(n)
        return out

    # -- ancestral sampling and joint density ---------------------------------

    def sample(self, rng):
        """Concrete values for every stochastic/point node: name -> array."""
        spec = self.spec
        vals = {}
        saved = self.obs
        self.obs = {}
        env = {}
        try:
            for name in spec.names:
                n = spec.nodes[name]
                if spec.is_stoch(name) or spec.is_point(name):
                    out = {}
                    for idx in np.ndindex(spec.sizes(n['axes'])):
                        v = self.sample_elem(name, n, idx, env, rng)
                        env[(name, idx)] = self.from_data(name, v)
                        out[idx] = v
                    vals[name] = self.pack(name, out)
        finally:
            self.obs = saved
        return vals

    def pack(self, name, out):
        n = self.spec.nodes[name]
        sh = self.spec.sizes(n['axes'])
        if self.family(name) == 'GaussianGamma':
            xs = np.array([out[i][0] for i in np.ndindex(sh)])
            ts = np.array([out[i][1] for i in np.ndindex(sh)])
            return (xs.reshape(sh + xs.shape[1:]), ts.reshape(sh))
        a = np.array([out[i] for i in np.ndindex(sh)])
        return a.reshape(sh + a.shape[1:])

    def sample_elem(self, name, n, idx, env, rng):
        spec = self.spec
        k = n['kind']
        fix = dict(zip(n['axes'], idx))
        ps = n.get('parents', [])
        node = n
        if k == 'Mixture':
            for (c, p) in zip(clusters(n), ps):
                fix[c] = int(self.arg(p, dict(zip(n['axes'], idx)), env))
            ps = ps[len(clusters(n)):]
            node = n['inner']
            k = node['kind']
        A = lambda i: self.arg(ps[i], fix, env)
        if k == 'GaussianARD':
            dim = n.get('dim', [])
            if dim:
                mu = np.empty(spec.sizes(dim))
                al = np.empty(spec.sizes(dim))
                for ix in np.ndindex(mu.shape):
                    mu[ix] = self.pick(ps[0], fix, dim, ix, env)
                    al[ix] = self.pick(ps[1], fix, dim, ix, env)
                return mu + rng.standard_normal(mu.shape) / np.sqrt(al)
            mu, al = A(0), A(1)
            if isinstance(mu, tuple):
                mu, al = mu[0], mu[1] * al
            return float(mu + rng.standard_normal() / math.sqrt(al))
        if k == 'Gaussian':
            mu, L = A(0), A(1)
            if isinstance(mu, tuple):
                mu, L = mu[0], mu[1] * L
            mu = np.asarray(mu, dtype=float)
            sh = mu.shape
            mu = mu.ravel()
            C = np.linalg.inv(np.reshape(L, (len(mu), len(mu))))
            x = mu + np.linalg.cholesky(0.5 * (C + C.T)) @ rng.standard_normal(len(mu))
            return x.reshape(sh) if sh else float(x[0])
        if k == 'GaussianGamma':
            tau = max(rng.gamma(float(A(2))) / float(A(3)), 1e-3)
            mu = np.atleast_1d(A(0))
            C = np.linalg.inv(np.atleast_2d(A(1))) / tau
            x = mu + np.linalg.cholesky(0.5 * (C + C.T)) @ rng.standard_normal(len(mu))
            return (x if n.get('dim') else float(x[0]), tau)
        if k == 'Gamma':
            return max(float(rng.gamma(float(A(0))) / float(A(1))), 1e-3)
        if k == 'Wishart':
            nn, V = float(A(0)), A(1)
            C = np.linalg.cholesky(np.linalg.inv(V))
            D = len(V)
            X = C @ rng.standard_normal((D, int(round(nn)) + 2))
            return X @ X.T + 1e-3 * np.eye(D)
        if k in ('Dirichlet', 'Beta'):
            g = rng.gamma(np.asarray(A(0), dtype=float)) + 1e-2
            p = g / g.sum()
            return float(p[0]) if k == 'Beta' else p
        if k == 'Categorical':
            return draw(np.exp(self.logprob((ps[0], fix), env)), rng)
        if k == 'Bernoulli':
            return int(rng.random() < math.exp(self.logprob2((ps[0], fix), env)[0]))
        if k == 'Binomial':
            p = math.exp(self.logprob2((ps[0], fix), env)[0])
            N = int(self.trials(n, idx))
            return int(sum(rng.random() < p for _ in range(N)))
        if k == 'Multinomial':
            p = np.exp(self.logprob((ps[0], fix), env))
            N = int(self.trials(n, idx))
            c = np.zeros(len(p), dtype=int)
            for _ in range(N):
                c[draw(p, rng)] += 1
            return c
        if k == 'Poisson':
            return int(min(rng.poisson(float(A(0))), 1000))
        if k == 'GammaShape':
            return 0.5 + 2 * rng.random()
        if k == 'Concentration':
            return 0.5 + 2 * rng.random(spec.size(n['dim'][0]))
        if k in CHAINS:
            T = spec.size(n['time'])
            tm = '%s-1' % n['time']
            if k == 'CMC':
                z = [draw(np.exp(self.logprob((ps[0], fix), env)), rng)]
                for t in range(1, T):
                    ff = {**fix, tm: t - 1, n['state']: z[-1]}
                    z.append(draw(np.exp(self.logprob((ps[1], ff), env)), rng))
                return np.array(z)
            D = spec.size(n['dim'][0])
            mu = np.asarray(A(0), dtype=float)
            C = np.linalg.inv(A(1))
            X = [mu + np.linalg.cholesky(0.5 * (C + C.T)) @ rng.standard_normal(D)]
            for t in range(1, T):
                a = X[-1]
                b = np.empty(D)
                for d in range(D):
                    ff = {**fix, tm: t - 1, n['state']: d}
                    if k == 'GMC':
                        row, v = self.arg(ps[2], ff, env), self.arg(ps[3], ff, env)
                        inp = a
                        if len(ps) > 4:
                            inp = np.concatenate([a, np.atleast_1d(self.arg(ps[4], ff, env))])
                        m = np.dot(row, inp)
                    elif k == 'SGMC':
                        v = self.arg(ps[4], ff, env)
                        ff[n['cluster']] = int(self.arg(ps[3], ff, env))
                        m = np.dot(self.arg(ps[2], ff, env), a)
                    else:
                        v = self.arg(ps[4], ff, env)
                        m = a @ np.asarray(self.arg(ps[2], ff, env)) @ np.asarray(self.arg(ps[3], ff, env))
                    b[d] = m + rng.standard_normal() / math.sqrt(v)
                nb = np.linalg.norm(b)
                if nb > 10:
                    b = b * (10 / nb)
                X.append(b)
            return np.array(X)
        raise ValueError(k)


def draw(p, rng):
    p = np.asarray(p, dtype=float)
    c = np.cumsum(p / p.sum())
    return int(min(np.searchsorted(c, rng.random()), len(p) - 1))

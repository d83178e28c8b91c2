"""Model description language.

A *spec* is a JSON-able description of a probabilistic model.  From one spec we
can build

 * the BayesPy model with plates (``Plated``),
 * the BayesPy model with one separate node per plate element (``Unrolled``),
 * the executable reference semantics (``ref.py``), which never calls BayesPy.

Axes are named.  ``spec['axes']`` is an ordered dict name -> {size, sticky,
mult}; the order is the global plate order.  ``sticky`` axes are never unrolled
(cluster axes, time axes, variable dimensions).
"""

import itertools
import numpy as np

STOCH = {'GaussianARD', 'Gaussian', 'Gamma', 'Wishart', 'Dirichlet', 'Beta',
         'Categorical', 'Bernoulli', 'Binomial', 'Multinomial', 'Poisson',
         'CMC', 'GMC', 'SGMC', 'VGMC', 'GaussianGamma', 'Mixture'}
POINT = {'GammaShape', 'Concentration'}
CHAINS = {'GMC', 'CMC', 'SGMC', 'VGMC'}
DET = {'dot', 'add', 'take', 'index', 'concat', 'gate', 'concatgauss',
       'diagwish', 'choose', 'slice', 'getitem', 'complement', 'scalewish'}


class Spec:

    def __init__(self, d):
        self.d = d
        self.axes = d['axes']
        self.order = list(self.axes)
        self.nodes = {n['name']: n for n in d['nodes']}
        self.names = [n['name'] for n in d['nodes']]
        self.children = {n: [] for n in self.names}
        for n in d['nodes']:
            for (i, p) in enumerate(n.get('parents', [])):
                if 'ref' in p:
                    self.children[p['ref']].append((n['name'], i))

    def size(self, a):
        return self.axes[a]['size']

    def sizes(self, axes):
        return tuple(self.size(a) for a in axes)

    def mult(self, a):
        return self.axes[a].get('mult', 1)

    def sticky(self, a):
        return bool(self.axes[a].get('sticky'))

    def is_stoch(self, name):
        return self.nodes[name]['kind'] in STOCH

    def is_point(self, name):
        return self.nodes[name]['kind'] in POINT

    @property
    def stoch(self):
        return [n for n in self.names if self.is_stoch(n)]

    @property
    def points(self):
        return [n for n in self.names if self.is_point(n)]

    def leaf(self, name):
        return len(self.children[name]) == 0

    # -- axes as seen by children -------------------------------------------

    def out_axes(self, name):
        """Plate axes of the node's output (chains expose their time axis)."""
        n = self.nodes[name]
        if n['kind'] in ('GMC', 'CMC', 'SGMC', 'VGMC'):
            return list(n['axes']) + [n['time']]
        return list(n['axes'])

    def value_shape(self, name):
        n = self.nodes[name]
        return self.sizes(n['axes']) + self.elem_shape(name)

    def elem_shape(self, name):
        """Shape of the value of one plate element."""
        n = self.nodes[name]
        return kind_value_shape(self, n)


def kind_value_shape(spec, n):
    k = n['kind']
    if k == 'Mixture':
        return kind_value_shape(spec, n['inner'])
    if k in ('GaussianARD', 'Gaussian', 'Dirichlet', 'Multinomial', 'dot', 'concatgauss'):
        return spec.sizes(n.get('dim', []))
    if k == 'Wishart':
        return 2 * spec.sizes(n['dim'])
    if k in ('GMC', 'SGMC', 'VGMC'):
        return (spec.size(n['time']),) + spec.sizes(n['dim'])
    if k == 'CMC':
        return (spec.size(n['time']),)
    if k == 'GaussianGamma':
        raise NotImplementedError
    return ()


def clusters(n):
    """Cluster axes of a mixture, the outermost first."""
    return n.get('clusters') or [n['cluster']]


def getitem_fix(spec, n, fix):
    """Axis assignment seen by the source of an indexing operation."""
    f = dict(fix)
    for e in n.get('index', []):
        if e[1] == 'i':
            f[e[0]] = e[2] % spec.size(e[0])
        else:
            f[e[0]] = range(spec.size(e[0]))[slice(*e[2])][fix[e[3]]]
    return f


def align_index(have, want):
    """Index tuple which inserts unit axes into a node/array having axes `have`
    so that it broadcasts against axes `want` (None when nothing is needed)."""
    if not have:
        return None
    for a in have:
        if a not in want:
            raise ValueError('axis %s not in %s' % (a, want))
    start = want.index(have[0])
    idx = tuple(slice(None) if a in have else None for a in want[start:])
    if all(i is not None for i in idx):
        return None
    return idx


def raw_axes(axes, cluster, cplate):
    """Insert the cluster axis at (negative) position cplate."""
    pos = len(axes) + cplate + 1
    return list(axes[:pos]) + [cluster] + list(axes[pos:])


class _Base:
    """Interface shared by the two layouts."""

    def bound_terms(self):
        raise NotImplementedError


class Plated(_Base):

    layout = 'plated'

    def __init__(self, d, bp, prefix='', given=None):
        """bp: the bayespy.nodes module; given: called on every array right
        before it is passed to BayesPy, returns what is passed instead."""
        self.spec = d if isinstance(d, Spec) else Spec(d)
        self.bp = bp
        self.prefix = prefix
        self.node = {}
        self.given = given or (lambda x: x)
        for n in self.spec.d['nodes']:
            self.node[n['name']] = self._build(n, {})

    # -- construction ---------------------------------------------------------

    def _ones(self, n):
        return n.get('ones', [])

    def _have(self, name, fixed):
        """Plate axes (with explicit unit axes) of a built node, in order."""
        spec = self.spec
        n = spec.nodes[name]
        ax = list(n['axes'])
        present = ax + [o for o in self._ones(n) if o not in ax]
        present = [a for a in spec.order if a in present]
        present = [a for a in present if a not in fixed]
        if n['kind'] in ('GMC', 'CMC', 'SGMC', 'VGMC'):
            present = present + [n['time']]
        return present

    def _dims(self, name):
        n = self.spec.nodes[name]
        return list(n.get('dim', []))

    def lookup(self, name, fixed):
        return self.node[name]

    def _arg(self, p, want, dimwant, fixed, idxmap=None):
        """Resolve a parent reference to something BayesPy accepts.

        want: plate axes expected, dimwant: axes that the child treats as
        plates-of-parent but which may be variable dimensions of the parent.
        """
        spec = self.spec
        full = [a for a in list(want) + list(dimwant) if a not in fixed]
        if 'const' in p:
            v = np.array(p['const'], dtype=p.get('dtype', 'float'))
            axes = list(p.get('axes', []))
            dim = list(p.get('dim', []))
            v = take_fixed(v, axes, fixed)
            axes = [a for a in axes if a not in fixed]
            target = [a for a in full if a not in dim]
            ix = align_index(axes, target)
            if ix is not None:
                v = v[ix]
            return self.given(v)
        name = p['ref']
        node = self.lookup(name, fixed)
        have = self._have(name, fixed)
        dim = self._dims(name)
        target = [a for a in full if a not in dim]
        n = spec.nodes[name]
        if n['kind'] in ('GMC', 'CMC', 'SGMC', 'VGMC'):
            # slicing happens on the chain plates, before the time axis appears
            have = [a for a in have if a != n['time']]
            if n['time'] in target:
                cut = target.index(n['time'])
                assert not target[cut + 1:], 'time axis must be last'
                target = target[:cut]
        ix = align_index(have, target)
        if ix is not None:
            node = node[ix]
        return node

    def _plates(self, n, fixed, extra=()):
        present = [a for a in self.spec.order
                   if (a in n['axes'] or a in self._ones(n)) and a not in fixed]
        return tuple(self.spec.size(a) if a in n['axes'] else 1 for a in present)

    def _name(self, n, fixed):
        if not fixed:
            return self.prefix + n['name']
        ids = [str(fixed[a]) for a in n['axes'] if a in fixed]
        return self.prefix + n['name'] + (('@' + '_'.join(ids)) if ids else '')

    def _kwargs(self, n, fixed):
        spec = self.spec
        kw = dict(name=self._name(n, fixed))
        if not n.get('infer'):
            kw['plates'] = self._plates(n, fixed)
        mult = [spec.mult(a) if a in n['axes'] else 1
                for a in spec.order
                if (a in n['axes'] or a in self._ones(n)) and a not in fixed]
        if n.get('setmult') and any(m != 1 for m in mult):
            kw['plates_multiplier'] = tuple(mult)
        return kw

    def _build(self, n, fixed):
        bp = self.bp
        spec = self.spec
        k = n['kind']
        axes = [a for a in n['axes'] if a not in fixed]
        if self._ones(n):
            axes = [a for a in spec.order if a in axes or a in self._ones(n)]
        ps = n.get('parents', [])
        kw = self._kwargs(n, fixed)
        A = lambda i, want=axes, dimwant=(): self._arg(ps[i], want, dimwant, fixed)

        if k == 'Mixture':
            inner = n['inner']
            if n.get('clusters'):
                # several assignments, one axis each, the outermost first
                cs = n['clusters']
                raw = list(n['axes']) + cs
                ik = inner['kind']
                args = [self._arg(p, raw, (), fixed) for p in ps[len(cs):]]
                if ik in ('Binomial', 'Multinomial'):
                    args = [self.given(np.array(inner['trials']))] + args
                MultiMixture = getattr(bp, 'MultiMixture', None)
                if MultiMixture is None:
                    from bayespy.inference.vmp.nodes.mixture import MultiMixture
                return MultiMixture([A(i) for i in range(len(cs))], getattr(bp, ik), *args, **kw)
            c = n['cluster']
            raw = raw_axes(n['axes'], c, n['cplate'])
            cp = -1 - len([a for a in raw[raw.index(c) + 1:] if a not in fixed])
            z = A(0)
            ik = inner['kind']
            dw = inner.get('dim', []) if ik == 'GaussianARD' else ()
            args = [self._arg(p, raw, dw, fixed) for p in ps[1:]]
            if ik in ('Binomial', 'Multinomial'):
                args = [self.given(np.array(inner['trials']))] + args
            if ik == 'GaussianARD' and inner.get('dim'):
                raise ValueError('Mixture of GaussianARD supports scalars only')
            cls = getattr(bp, ik)
            return bp.Mixture(z, cls, *args, cluster_plate=cp, **kw)

        if k == 'GaussianARD':
            dim = n.get('dim', [])
            if dim:
                if n.get('style') == 'ndim':
                    kw['ndim'] = len(dim)
                else:
                    kw['shape'] = spec.sizes(dim)
                    if n.get('style') == 'both':
                        kw['ndim'] = len(dim)
            return bp.GaussianARD(A(0, axes, dim), A(1, axes, dim), **kw)
        if k == 'Gaussian':
            if 'nd' in n:
                # variables with any number of axes
                kw['ndim'] = n['nd']
            return bp.Gaussian(A(0), A(1), **kw)
        if k == 'Gamma':
            return bp.Gamma(A(0), A(1), **kw)
        if k == 'Wishart':
            return bp.Wishart(A(0), A(1), **kw)
        if k == 'Dirichlet':
            return bp.Dirichlet(A(0), **kw)
        if k == 'Beta':
            return bp.Beta(A(0), **kw)
        if k == 'Categorical':
            return bp.Categorical(A(0), **kw)
        if k == 'Bernoulli':
            return bp.Bernoulli(A(0), **kw)
        if k == 'Poisson':
            return bp.Poisson(A(0), **kw)
        if k == 'Binomial':
            return bp.Binomial(self._trials(n, fixed), A(0), **kw)
        if k == 'Multinomial':
            return bp.Multinomial(self._trials(n, fixed), A(0), **kw)
        if k == 'GaussianGamma':
            return bp.GaussianGamma(A(0), A(1), A(2), A(3), **kw)
        if k == 'CMC':
            c = n['dim'][0]
            return bp.CategoricalMarkovChain(
                A(0), self._arg(ps[1], axes + ['%s-1' % n['time'], n['state']], (), fixed),
                states=spec.size(n['time']), **kw)
        if k == 'GMC':
            tm = '%s-1' % n['time']
            w = axes + [tm, n['state']]
            args = [A(0), A(1), self._arg(ps[2], w, (), fixed), self._arg(ps[3], w, (), fixed)]
            if len(ps) > 4:
                kw['inputs'] = self._arg(ps[4], axes + [tm], (), fixed)
            return bp.GaussianMarkovChain(*args, n=spec.size(n['time']), **kw)
        if k == 'SGMC':
            tm = '%s-1' % n['time']
            args = [A(0), A(1),
                    self._arg(ps[2], axes + [n['cluster'], n['state']], (), fixed),
                    self._arg(ps[3], axes + [tm], (), fixed),
                    self._arg(ps[4], axes + [tm, n['state']], (), fixed)]
            return bp.SwitchingGaussianMarkovChain(*args, n=spec.size(n['time']), **kw)
        if k == 'VGMC':
            tm = '%s-1' % n['time']
            args = [A(0), A(1),
                    self._arg(ps[2], axes + [n['state']], (), fixed),
                    self._arg(ps[3], axes + [tm], (), fixed),
                    self._arg(ps[4], axes + [tm, n['state']], (), fixed)]
            return bp.VaryingGaussianMarkovChain(*args, n=spec.size(n['time']), **kw)
        if k == 'GammaShape':
            return bp.GammaShape(name=kw['name'], plates=self._plates(n, fixed)) \
                if self._plates(n, fixed) else bp.GammaShape(name=kw['name'])
        if k == 'Concentration':
            return bp.Concentration(spec.size(n['dim'][0]), name=kw['name'])

        # deterministic nodes
        kw.pop('plates', None)
        kw.pop('plates_multiplier', None)
        if k == 'dot':
            args = []
            keys = {}
            for e in n['eins'] + [n.get('dim', [])]:
                for a in e:
                    keys.setdefault(a, len(keys))
            if n.get('style') == 'str':
                letters = n.get('letters', 'abcdefghijklm')
                s = ','.join(''.join(letters[keys[a]] for a in e) for e in n['eins'])
                s += '->' + ''.join(letters[keys[a]] for a in n.get('dim', []))
                return bp.SumMultiply(s, *[A(i) for i in range(len(ps))], **kw)
            if n.get('style') == 'Dot':
                return bp.Dot(*[A(i) for i in range(len(ps))], **kw)
            for (i, e) in enumerate(n['eins']):
                args += [A(i), [keys[a] for a in e]]
            args.append([keys[a] for a in n.get('dim', [])])
            return bp.SumMultiply(*args, **kw)
        if k == 'add':
            return bp.Add(*[A(i) for i in range(len(ps))], **kw)
        if k == 'gate':
            c = n['cluster']
            raw = raw_axes(n['axes'], c, n['cplate'])
            gp = -1 - len([a for a in raw[raw.index(c) + 1:] if a not in fixed])
            return bp.Gate(A(0), self._arg(ps[1], raw, (), fixed), gated_plate=gp, **kw)
        if k == 'choose':
            return bp.Choose(A(0), *[A(i) for i in range(1, len(ps))])
        if k == 'take':
            src = ps[0]['ref']
            have = self._have(src, fixed)
            ax = have.index(n['axis_in']) - len(have)
            if n.get('style') == 'tile':
                from bayespy.inference.vmp.nodes.deterministic import tile
                t = (len(n['indices']) // spec.size(n['axis_in']),) + (-1 - ax) * (1,)
                return tile(self.lookup(src, fixed), t if len(t) > 1 or n.get('tuple') else t[0])
            return bp.Take(self.lookup(src, fixed), self.given(n['indices']), plate_axis=ax, **kw)
        if k == 'index':
            src = ps[0]['ref']
            have = self._have(src, fixed)
            ix = tuple(n['i'] if a == n['axis'] else slice(None) for a in have)
            return self.lookup(src, fixed)[ix]
        if k == 'slice':
            src = ps[0]['ref']
            have = self._have(src, fixed)
            ix = tuple(slice(*n['slice']) if a == n['axis_in'] else slice(None) for a in have)
            if n.get('ellipsis'):
                # drop leading full slices, replace by an Ellipsis
                j = have.index(n['axis_in'])
                ix = (Ellipsis,) + ix[j:]
            return self.lookup(src, fixed)[ix]
        if k == 'getitem':
            src = ps[0]['ref']
            ops = {e[0]: e for e in n.get('index', [])}
            entries = []
            for a in self._have(src, fixed):
                e = ops.get(a, [a, 's', [None], a])
                if e[1] == 'i':
                    entries.append((None, e[2]))
                else:
                    entries.append((e[3], slice(*e[2])))
            for o in [o for o in self._ones(n) if o not in n['axes']]:
                after = [j for (j, (a, _)) in enumerate(entries)
                         if a is not None and spec.order.index(a) > spec.order.index(o)]
                entries.insert(after[0] if after else len(entries), (o, None))
            ix = [e[1] for e in entries]
            if n.get('style') == 'ellipsis':
                j = 0
                while j < len(ix) and ix[j] == slice(None):
                    j += 1
                ix = [Ellipsis] + ix[j:]
            elif n.get('style') == 'dots':
                ix = ix + [Ellipsis]
            elif n.get('style') == 'short':
                while len(ix) > 1 and ix[-1] == slice(None):
                    ix.pop()
            return self.lookup(src, fixed)[tuple(ix) if len(ix) != 1 or n.get('tuple') else ix[0]]
        if k == 'complement':
            return self.lookup(ps[0]['ref'], fixed).complement()
        if k == 'scalewish':
            x = A(0)
            if hasattr(x, 'scale'):
                return x.scale(A(1))
            from bayespy.inference.vmp.nodes.wishart import _ScaledWishart
            return _ScaledWishart(x, A(1))
        if k == 'concat':
            have = self._have(n['name'], fixed)
            ax = have.index(n['axis_out']) - len(have)
            args = []
            for (i, p) in enumerate(ps):
                want = [n['parts'][i] if a == n['axis_out'] else a for a in axes]
                args.append(self._arg(p, want, (), fixed))
            return bp.Concatenate(*args, axis=ax, **kw)
        if k == 'concatgauss':
            return bp.ConcatGaussian(*[A(i) for i in range(len(ps))], **kw)
        if k == 'diagwish':
            return self.lookup(ps[0]['ref'], fixed).as_diagonal_wishart()
        raise ValueError(k)

    def _trials(self, n, fixed):
        t = np.array(n['trials'])
        axes = list(n.get('trials_axes', []))
        t = take_fixed(t, axes, fixed)
        left = [a for a in axes if a not in fixed]
        ix = align_index(left, [a for a in n['axes'] if a not in fixed])
        return self.given(t if ix is None else t[ix])

    # -- operations -----------------------------------------------------------

    def vb_nodes(self):
        return [self.node[n] for n in self.spec.names
                if self.spec.is_stoch(n) or self.spec.is_point(n)]

    def parts(self, name):
        return [self.node[name]]

    def update(self, name):
        self.node[name].update()

    def observe(self, name, x, mask=True):
        n = self.spec.nodes[name]
        if mask is not True:
            mask = self.given(self._with_ones(n, np.array(mask, dtype=bool), {}))
        self._observe(self.node[name], self.given(self._with_ones(n, np.array(x), {})), mask)

    def unobserve(self, name):
        self.node[name].unobserve()

    def init_value(self, name, x):
        n = self.spec.nodes[name]
        self._init_value(self.node[name], self.given(self._with_ones(n, np.array(x), {})))

    def _with_ones(self, n, x, fixed):
        """Insert the explicit unit plates of a node into an array."""
        left = [a for a in n['axes'] if a not in fixed]
        ones = [o for o in self._ones(n) if o not in fixed]
        for (i, a) in enumerate(a for a in self.spec.order if a in left or a in ones):
            if a in ones and a not in left:
                x = np.expand_dims(x, i)
        return x

    def _observe(self, node, x, mask):
        node.observe(x, mask=mask)

    def _init_value(self, node, x):
        node.initialize_from_value(x)

    def init_prior(self, name):
        self.node[name].initialize_from_prior()

    def moments(self, name):
        """Full (explicitly broadcast) moments with axes n['axes'] first."""
        n = self.spec.nodes[name]
        node = self.node[name]
        u = node.get_moments()
        present = [a for a in self.spec.order if a in n['axes'] or a in self._ones(n)]
        out = []
        for (ui, d) in zip(u, node.dims):
            full = tuple(self.spec.size(a) if a in n['axes'] else 1 for a in present) + tuple(d)
            b = np.broadcast_to(ui, full)
            b = b.reshape(self.spec.sizes(n['axes']) + tuple(d))
            out.append(np.array(b))
        return out

    def params(self, name):
        n = self.spec.nodes[name]
        node = self.node[name]
        present = [a for a in self.spec.order if a in n['axes'] or a in self._ones(n)]
        out = []
        for (ui, d) in zip(node.get_parameters(), node.dims):
            full = tuple(self.spec.size(a) if a in n['axes'] else 1 for a in present) + tuple(d)
            b = np.broadcast_to(ui, full)
            out.append(np.array(b.reshape(self.spec.sizes(n['axes']) + tuple(d))))
        return out

    def bound_terms(self):
        return {n: float(self.node[n].lower_bound_contribution())
                for n in self.spec.stoch + self.spec.points}

    def bound(self):
        return sum(self.bound_terms().values())


def take_fixed(v, axes, fixed):
    ix = tuple(fixed[a] if a in fixed else slice(None) for a in axes)
    return v[ix] if ix else v


class Unrolled(Plated):
    """One node per plate element (of the non-sticky axes)."""

    layout = 'unrolled'

    def __init__(self, d, bp, prefix='', keep=(), drop=None):
        """drop: {name: set(idx)} leaf elements that are not created at all."""
        self.spec = d if isinstance(d, Spec) else Spec(d)
        self.bp = bp
        self.prefix = prefix
        self.node = {}
        self.keep = set(keep)
        self.drop = drop or {}
        self.given = lambda x: x
        for n in self.spec.d['nodes']:
            U = self.uaxes(n)
            for idx in itertools.product(*[range(self.spec.size(a)) for a in U]):
                if idx in self.drop.get(n['name'], ()):
                    continue
                fixed = dict(zip(U, idx))
                self.node[(n['name'], idx)] = self._build_u(n, fixed)

    def unroll_axis(self, a):
        return not self.spec.sticky(a) and a not in self.keep

    def uaxes(self, n):
        return [a for a in n['axes'] if self.unroll_axis(a)]

    def _ones(self, n):
        return [a for a in n.get('ones', []) if not self.unroll_axis(a)]

    def lookup(self, name, fixed):
        n = self.spec.nodes[name]
        return self.node[(name, tuple(fixed[a] for a in self.uaxes(n)))]

    def _have(self, name, fixed):
        h = super()._have(name, {})
        return [a for a in h if not self.unroll_axis(a) or self.spec.sticky(a)]

    def _build_u(self, n, fixed):
        k = n['kind']
        ps = n.get('parents', [])
        if k == 'getitem':
            return self.lookup(ps[0]['ref'], getitem_fix(self.spec, n, fixed))
        if k == 'take' and self.unroll_axis(n['axis_in']):
            f = dict(fixed)
            ind = np.array(n['indices'])
            j = tuple(fixed[a] for a in n['axes_out']) if 'axes_out' in n else (fixed[n['axis_out']],)
            f[n['axis_in']] = int(ind[j]) % self.spec.size(n['axis_in'])
            return self.lookup(ps[0]['ref'], f)
        if k == 'slice' and self.unroll_axis(n['axis_in']):
            f = dict(fixed)
            rng = range(self.spec.size(n['axis_in']))[slice(*n['slice'])]
            f[n['axis_in']] = rng[fixed[n['axis_out']]]
            return self.lookup(ps[0]['ref'], f)
        if k == 'index' and self.unroll_axis(n['axis']):
            f = dict(fixed)
            f[n['axis']] = n['i'] % self.spec.size(n['axis'])
            return self.lookup(ps[0]['ref'], f)
        if k == 'concat' and self.unroll_axis(n['axis_out']):
            i = fixed[n['axis_out']]
            for (p, a) in zip(ps, n['parts']):
                if i < self.spec.size(a):
                    f = dict(fixed)
                    f[a] = i
                    if 'const' in p:
                        return self._arg(p, [x for x in n['axes'] if x not in fixed], (), f)
                    return self.lookup(p['ref'], f)
                i -= self.spec.size(a)
        return self._build(n, fixed)

    def elems(self, name):
        n = self.spec.nodes[name]
        U = self.uaxes(n)
        for idx in itertools.product(*[range(self.spec.size(a)) for a in U]):
            if (name, idx) in self.node:
                yield (idx, dict(zip(U, idx)))

    def parts(self, name):
        return [self.node[(name, idx)] for (idx, _) in self.elems(name)]

    def vb_nodes(self):
        out = []
        for n in self.spec.names:
            if self.spec.is_stoch(n) or self.spec.is_point(n):
                out += self.parts(n)
        return out

    def update(self, name):
        for p in self.parts(name):
            p.update()

    def _sub(self, name, x, fixed):
        return take_fixed(np.array(x), self.spec.nodes[name]['axes'], fixed)

    def observe(self, name, x, mask=True):
        n = self.spec.nodes[name]
        for (idx, fixed) in self.elems(name):
            node = self.node[(name, idx)]
            xi = self._with_ones(n, self._sub(name, x, fixed), fixed)
            mi = True if mask is True else self._sub(name, np.array(mask, dtype=bool), fixed)
            if np.all(mi):
                self._observe(node, xi, True)
            elif np.any(mi):
                self._observe(node, xi, self._with_ones(n, mi, fixed))
            elif np.any(node.observed):
                node.unobserve()

    def unobserve(self, name):
        for p in self.parts(name):
            p.unobserve()

    def init_value(self, name, x):
        n = self.spec.nodes[name]
        for (idx, fixed) in self.elems(name):
            self._init_value(self.node[(name, idx)],
                             self._with_ones(n, self._sub(name, x, fixed), fixed))

    def init_prior(self, name):
        for p in self.parts(name):
            p.initialize_from_prior()

    def moments(self, name):
        n = self.spec.nodes[name]
        out = None
        for (idx, fixed) in self.elems(name):
            node = self.node[(name, idx)]
            left = [a for a in n['axes'] if a not in fixed]
            present = [a for a in self.spec.order if a in left or a in self._ones(n)]
            u = node.get_moments()
            if out is None:
                out = [np.full(self.spec.sizes(n['axes']) + tuple(d), np.nan) for d in node.dims]
            ix = tuple(fixed[a] if a in fixed else slice(None) for a in n['axes'])
            for (o, ui, d) in zip(out, u, node.dims):
                full = tuple(self.spec.size(a) if a in left else 1 for a in present) + tuple(d)
                b = np.broadcast_to(ui, full).reshape(self.spec.sizes(left) + tuple(d))
                o[ix] = b
        return out

    def bound_terms(self):
        return {n: sum(float(p.lower_bound_contribution()) for p in self.parts(n))
                for n in self.spec.stoch + self.spec.points}

"""C02: the reported lower bound is the true ELBO at every point of every
history, per variable and in total."""

import numpy as np

from sim.engine import Sim, OpGen, base_scenario
from sim.ref import Inconsistent

ID = 'C02'
LEVEL = 'exploration'
LEVEL_NOTE = 'After every operation of random histories each reported bound term is compared to the definition E[log p]-E[log q], evaluated literally by a reference that never calls BayesPy (exact up to rounding). Trusts the reference densities and the model generator.'
RUNS = dict(quick=5000, thorough=14000)
STATE_RULE = ('distinct (model family, model structure, operation kinds so far, observation '
              'pattern, node) points of a history at which a bound term was compared')
COMPONENTS = dict(real=['all nodes', 'VB engine', 'message passing', 'masks', 'annealing'],
                  stub=['data source (ancestral sampler)', 'numpy global RNG seeded by the scenario'])
ASSUMPTIONS = ['float64 rounding: agreement to 1e-7 of the sum of absolute terms',
               'a term is not compared while its own variable holds a point initialisation that is '
               'not a proper posterior']
MIX = dict(upd=6, sweep=2, obs=1.5, unobs=0.7, initv=0.7, initr=0.7, initp=0.5, setpar=1.0, gstep=1.0,
           query=0.5)
TOL = 1e-7


def generate(seed, tier):
    sc, rng = base_scenario(seed)
    g = OpGen(sc, rng)
    sc['ops'] = g.ops(int(rng.integers(2, 8 if tier == 'quick' else 14)), MIX)
    return sc


def rounding(sim, n):
    """Extreme parameters (after long trial steps) cancel in the bound: the size of the cancelling terms counts."""
    if not sim.spec.is_stoch(n):
        return 0.0
    with np.errstate(all='ignore'):
        big = max(float(np.max(np.abs(np.nan_to_num(x, nan=0.0, posinf=0.0, neginf=0.0)), initial=0)) for x in sim.m.params(n))
    return big * 1e-6 if big > 1e6 else 0.0


def compare(sim, ctx, where):
    spec = sim.spec
    terms = sim.terms()
    try:
        sim.sync()
        inc = sim.ref.included()
        tot = mag = 0.0
        for n in sim.names:
            if n in sim.dirty:
                continue
            if spec.is_point(n):
                (v, m) = sim.ref.point_term(n)
            else:
                (v, m) = sim.ref.term(n, inc, 1.0 / sim.ann)
            tot += v
            mag += m
            m += rounding(sim, n)
            mag += rounding(sim, n)
            err = abs(terms[n] - v) / (1 + m)
            ctx.maxerr = max(ctx.maxerr, err if np.isfinite(err) else 0)
            ctx.check(err < TOL, 'bound-term',
                      lambda: 'after %s the bound term of %s (%s) is %.15g, the definition gives %.15g'
                      % (where, n, spec.nodes[n]['kind'], terms[n], v), node=n)
            ctx.state(sim.sc['spec']['family'], spec.nodes[n]['kind'], where,
                      sorted(sim.obs), np.asarray(sim.obs_mask(n)).sum().item(), len(spec.names))
    except Inconsistent as e:
        ctx.fail('impossible-posterior', 'after %s: %s' % (where, e))
    if not sim.dirty and sim.Q is not None:
        with ctx.call('compute_lowerbound'):
            L = float(sim.Q.compute_lowerbound())
        ctx.check(abs(L - tot) / (1 + mag) < TOL, 'bound-total',
                  lambda: 'after %s the reported bound is %.15g, the definition gives %.15g' % (where, L, tot))
        with ctx.call('compute_lowerbound_terms'):
            t = sim.Q.compute_lowerbound_terms()
        ctx.check(abs(sum(map(float, t.values())) - L) / (1 + mag) < 1e-10, 'bound-terms-sum',
                  lambda: 'terms sum to %.15g, total %.15g' % (sum(t.values()), L))
    ctx.event(where, {n: '%.9g' % terms[n] for n in terms})
    return terms


def execute(sc, ctx):
    sim = Sim(sc, ctx)
    ctx.sample = dict(family=sc['spec']['family'], ops=[o['op'] + ':' + str(o.get('n', '')) for o in sc['ops']])
    compare(sim, ctx, 'start')
    for op in sc['ops']:
        sim.do(op)
        compare(sim, ctx, op['op'])
    for n in sim.names:
        sim.update(n)
    compare(sim, ctx, 'final sweep')
    # with one latent variable left the bound is the log marginal likelihood of
    # nothing else: covered by the definition; the recorded history must agree
    with ctx.call('sweep'):
        sim.Q.update(*[sim.m.node[n] for n in sim.updatable()], repeat=1, verbose=False)
    L = compare(sim, ctx, 'recorded sweep')
    rec = float(sim.Q.L[sim.Q.iter - 1])
    tot = sum(L.values())
    ctx.check(abs(rec - tot) <= 1e-9 * (1 + sum(abs(v) for v in L.values())), 'recorded-bound',
              lambda: 'recorded %.15g, reported now %.15g' % (rec, tot))

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
N = 'bayespy/inference/vmp/nodes/'
V = 'bayespy/inference/vmp/vmp.py'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook,
                               **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))))

ALLNODES = [V, N+'node.py', N+'stochastic.py', N+'expfamily.py', N+'deterministic.py', N+'gaussian.py', N+'gamma.py', N+'wishart.py',
            N+'dirichlet.py', N+'categorical.py', N+'multinomial.py', N+'mixture.py', N+'gate.py', N+'take.py', N+'dot.py', N+'add.py',
            N+'concatenate.py', N+'concat_gaussian.py', N+'gaussian_markov_chain.py', N+'categorical_markov_chain.py', N+'poisson.py', N+'binomial.py', N+'beta.py']

prop('C01', 'Every update reaches the optimum of the bound, whatever the schedule',
 'Updating any variable of any valid model, in any order, subset or repetition of variables, never lowers the variational lower bound beyond rounding, and afterwards no other setting of that variable\'s posterior gives a higher bound while the rest of the model stays fixed. Updating the same variable again immediately changes nothing.',
 ['schedules', 'inputs', 'programs'],
 'For every model built from conjugate nodes and deterministic links, all plate/broadcast/mask configurations, all data, and every sequence in which single-variable updates are scheduled.',
 'Unit tests compare a few messages with hand formulas for a few shapes and run short fixed schedules; the claim is over all models x schedules x data, and a wrong message in one plate/mask/broadcast configuration only shows as a bound that falls (or is not maximal) in that configuration.',
 ALLNODES,
 [('single-variable update', N+'expfamily.py: ExponentialFamily._update_distribution_and_lowerbound'),
  ('messages to parents', N+'*.py: compute_message_to_parent / _compute_message_to_parent'),
  ('plate summation and masking of messages', N+'node.py: Node._message_to_parent')],
 ['VB.compute_lowerbound', 'node.lower_bound_contribution', 'node.update'])

prop('C02', 'The reported lower bound is the true ELBO of the current posterior',
 'At every point of every inference history, the lower bound the engine reports, in total and per variable, equals the expected log joint density minus the expected log posterior approximation, computed from their definitions for the posterior the variables report and the data given. Hence with a single latent variable it equals the log marginal likelihood, and with everything observed the log joint density.',
 ['histories', 'inputs', 'programs'],
 'For every model, all observed data and missing-data patterns, and every history of initialisations, observations, removals of observations, updates and reloads that leads to a state.',
 'Tests check individual nodes on a few values, mostly with the same formulas as the code; nothing compares the total with an independent definition after a history of operations (observe, unobserve, re-observe with another mask, reload ...), where stale state would show.',
 ALLNODES,
 [('bound terms', N+'expfamily.py: ExponentialFamily.lower_bound_contribution'),
  ('normalisers', N+'*.py: compute_cgf_from_parents, compute_moments_and_cgf, compute_fixed_moments_and_f'),
  ('sum over variables', V+': VB.compute_lowerbound, VB.loglikelihood_lowerbound')],
 ['VB.compute_lowerbound', 'VB.compute_lowerbound_terms', 'VB.L', 'node.get_moments'])

prop('C03', 'Results do not depend on message arrival or update order',
 'The result of an update depends only on the model, the data and the current posteriors of the other variables: it is the same, up to rounding, whatever order the messages from its children are combined in, whatever order the model\'s links were created in, and whatever the variable\'s own posterior was before. Variables that share no factor may be updated in either order with the same outcome.',
 ['schedules', 'histories'],
 'For every model, every order in which child messages are delivered and links are created, and every interleaving of the updates of conditionally independent variables.',
 'Children are kept in an unordered collection, so each process samples one delivery order by chance; tests neither control that order nor permute updates.',
 [N+'node.py', N+'stochastic.py', N+'expfamily.py', N+'deterministic.py', V],
 [('combining child messages', N+'node.py: Node._message_from_children'),
  ('registering links', N+'node.py: Node._add_child'),
  ('overwriting phi before adding messages', N+'expfamily.py: ExponentialFamily._update_distribution_and_lowerbound')],
 ['node.get_moments', 'VB.compute_lowerbound'], state=[('children', 'links through which messages arrive', N+'node.py: Node.children')])

prop('C04', 'Crash and resume: a reloaded run continues as if never interrupted',
 'If a process stops at any point after saving (explicitly or by autosave) and a new process rebuilds the same model and loads the file, then the restored run has the saved posteriors, observations, masks, iteration count, bound history, convergence flag, callback outputs and user data, and continuing it gives the same iterations, numbers and bound history as the run that was never interrupted. This includes files with only some of the variables, and loading into an engine that has already done something else.',
 ['crash_points', 'histories', 'inputs'],
 'For every model and data, every point of an inference history at which the save happened and at which the process died, every save mode (explicit, autosave interval, subset of variables, single variable), and every state of the loading engine.',
 'The tests save once after a fixed number of iterations and compare a handful of attributes; no test continues inference after loading in a fresh engine, uses autosave, partial masks, or loads into a dirty engine.',
 [V, N+'stochastic.py', N+'expfamily.py', N+'point_estimate.py', 'bayespy/utils/misc.py'],
 [('save', V+': VB.save'), ('load', V+': VB.load'), ('autosave at iteration end', V+': VB._end_iteration_step'),
  ('node state', N+'stochastic.py: Stochastic._save/_load; '+N+'expfamily.py: ExponentialFamily._save/_load')],
 ['VB.L', 'VB.iter', 'VB.cputime', 'VB.converged', 'VB.l', 'VB.callback_output', 'VB.load_user_data', 'node.get_moments'])

prop('C05', 'A crash while saving never destroys the previous save',
 'At whatever instant the process or machine stops while a result file is being written or replaced (by a save, an autosave or saving a single variable), the file at that path afterwards is either the complete previous save or the complete new one, and loads as such. A save that returned normally is durable: it survives a power failure right after.',
 ['crash_points', 'fault_sequences'],
 'For every file operation at which execution may stop during a save over an existing file, every subset or torn part of not-yet-synced writes that may be lost, and every model state saved.',
 'Tests never stop a process inside a save and never look at the file system in between; the claim is over all crash points and all write-loss patterns.',
 [V, N+'stochastic.py'],
 [('write to a temporary file, sync, atomic replace', V+': VB.save'), ('single-variable save', N+'stochastic.py: Stochastic.save')],
 ['the file at the save path', 'VB.load', 'node.load'])

prop('C06', 'Failed disk operations are reported and leave the inference state intact',
 'When an operation on the result file fails (no space, I/O error, permission, missing or truncated or foreign file), the save or load raises an error instead of pretending success, the in-memory inference state is exactly what it was before the call, and an earlier good save file is still loadable. Once the fault is gone, the same call succeeds and inference continues to the same results as if the failure had not happened.',
 ['fault_sequences', 'histories'],
 'For every file operation of a save/autosave/load at which an error can be injected, every error kind, every sequence of such failures within an inference run, and every damaged or mismatching file given to load.',
 'No test injects I/O errors or feeds damaged files; each test sees only successful disk operations.',
 [V, N+'stochastic.py', N+'expfamily.py', 'bayespy/utils/misc.py'],
 [('save/close', V+': VB.save'), ('load into memory', V+': VB.load'), ('autosave within an iteration', V+': VB._end_iteration_step')],
 ['exceptions from VB.save / VB.load / VB.update', 'node.get_moments', 'VB.L', 'VB.iter'])

prop('C07', 'Iteration control and records are exact under any clock, callback or failure',
 'An update call runs exactly the requested number of sweeps over exactly the requested variables in the requested order, unless convergence is reached, and stops precisely when the relative bound improvement falls below the tolerance in force. Each completed sweep leaves exactly one record (bound, per-variable bound, CPU time, callback output, progress tick, autosave when due), in order and equal to the values at that moment, whatever the clock does and however many calls, limits, callbacks and failures are interleaved.',
 ['histories', 'schedules', 'fault_sequences'],
 'For every sequence of update calls with any repeat counts, tolerances, variable lists, callbacks (including raising ones), progress reporters, autosave intervals, annealing changes, and every behaviour of the clock (jumps, stalls, steps backwards).',
 'Tests exercise single calls with repeat=1; record keeping over mixed histories, array growth past the preallocated length, failing callbacks and clock jumps are never exercised.',
 [V], [('sweep loop', V+': VB.update'), ('records, convergence, autosave', V+': VB._end_iteration_step'), ('array growth', V+': VB._append_iterations')],
 ['VB.L', 'VB.iter', 'VB.l', 'VB.cputime', 'VB.converged', 'VB.callback_output', 'tqdm.update calls', 'printed lines'])

prop('C08', 'Observed values stay as given and missing values have no influence',
 'Whatever operations run, observed elements keep exactly the values given until they are observed anew or unobserved. Elements marked missing have no influence: whatever is stored in them (also NaN or infinities), the posteriors and the bound are those of the model in which those elements do not exist, and variables without any observed descendant do not change anything.',
 ['inputs', 'histories', 'configurations'],
 'For all models, masks (including masking whole rows/plates, everything or nothing), garbage in masked cells, and all histories of observing, masking differently, re-observing and unobserving mixed with inference.',
 'Tests use a few fixed masks; no test varies the content of masked cells, changes masks during inference, or compares with the reduced model.',
 [N+'expfamily.py', N+'stochastic.py', N+'node.py', N+'deterministic.py', N+'concatenate.py', N+'take.py', N+'gate.py', N+'mixture.py', N+'gaussian_markov_chain.py'],
 [('mask propagation', N+'node.py: Node._update_mask/_mask_to_parent'), ('masking messages', N+'node.py: Node._message_to_parent'),
  ('masking moments', N+'stochastic.py: Stochastic._set_moments')],
 ['node.get_moments', 'node.get_mask', 'VB.compute_lowerbound'])

prop('C09', 'Plates are exactly replication: any split of a model gives the same result',
 'A model written with plates, broadcasting, slicing, gating or concatenation gives, for every schedule, the same posteriors and bound as the model written out with one separate variable per plate element. Plate multipliers give exactly the result of repeating the corresponding part of the data that many times, so that mini-batch steps are unbiased: averaging the natural gradients over all equally likely batches gives the full-data gradient.',
 ['configurations', 'schedules', 'inputs'],
 'For all models, plate shapes (including unit and missing plates), ways of distributing the same model over variables, multipliers, batch partitions, masks and schedules.',
 'Tests check shapes and single messages for chosen plates; equivalence of whole inference runs between different layouts of one model is not tested.',
 [N+'node.py', N+'deterministic.py', N+'take.py', N+'gate.py', N+'concatenate.py', N+'mixture.py', N+'dot.py', N+'gaussian.py', N+'expfamily.py', 'bayespy/utils/misc.py'],
 [('plate mapping and broadcasting multiplier', N+'node.py: Node._message_to_parent, broadcasting_multiplier'),
  ('plates_multiplier', N+'node.py: plates_multiplier; '+N+'expfamily.py: lower_bound_contribution'),
  ('slicing', N+'node.py: Slice/AddPlateAxis')],
 ['node.get_moments', 'VB.compute_lowerbound', 'VB.get_gradients'])

prop('C10', 'Gradient-based learning is consistent with the bound and survives bad steps',
 'A natural-gradient step of length one equals an ordinary update, reading parameters and writing them back changes nothing, and the reported gradients are the derivatives of the bound. The gradient and pattern-search optimisers never finish an iteration with a bound lower than before it, keep the collapsed variables up to date with the optimised ones, always terminate within their iteration limit, and recover when trial steps fail.',
 ['schedules', 'inputs', 'fault_sequences'],
 'For all conjugate models with implemented gradients, current states, subsets of optimised and collapsed variables, step lengths, optimisation methods, and every pattern of failing trial evaluations.',
 'Tests check gradients of some distributions at a few points; optimiser runs, failing trial steps and interplay with collapsed variables are not tested.',
 [V, N+'expfamily.py', N+'gaussian.py', N+'gamma.py', N+'dirichlet.py', N+'categorical.py', N+'multinomial.py'],
 [('natural gradient', N+'expfamily.py: get_riemannian_gradient'), ('line search with back-tracking', V+': VB.optimize'), ('pattern search', V+': VB.pattern_search'), ('step', V+': VB.gradient_step')],
 ['VB.L', 'VB.compute_lowerbound', 'VB.get_parameters', 'VB.get_gradients', 'node.get_moments'])

prop('C11', 'Parameter-expansion transformations never harm inference',
 'Applying a rotation speed-up at any point of any schedule never lowers the bound, and leaves every variable in a consistent posterior: the reported bound is still the true bound of the reported posteriors, the observed data and predictive quantities that the rotation is meant to preserve are unchanged, and later updates continue to increase the bound.',
 ['schedules', 'inputs', 'programs'],
 'For all factor-analysis and state-space models with rotation support (plates, ARD priors, missing data, dynamics), every point of the schedule at which rotations are applied and any number of optimisation iterations.',
 'Tests check gradients and bound terms of single rotations at random states; rotations inside running schedules, with masks, and the exactness of the resulting state are not tested.',
 ['bayespy/inference/vmp/transformations.py', N+'gaussian.py', N+'gaussian_markov_chain.py'],
 [('joint rotation', 'bayespy/inference/vmp/transformations.py: RotationOptimizer.rotate'), ('state transformation', N+'gaussian.py: rotate; '+N+'gaussian_markov_chain.py: rotate')],
 ['VB.compute_lowerbound', 'node.get_moments'])

prop('C12', 'One random seed determines the whole run',
 'With the same random seed, model code and data, an inference run (initialisation, random draws, updates, optimisation, rotations, save and load) gives bit-for-bit the same posteriors, bounds and draws in every process, independent of the wall clock, the working directory, the hash seed, memory layout, and what other objects exist.',
 ['schedules', 'configurations', 'histories'],
 'For all models and runs, and all process environments: hash randomisation, allocation history, clock values, current directory, other models built before.',
 'Tests run in one process with one hash seed; nothing compares two processes.',
 [N+'node.py', N+'dot.py', V, 'bayespy/utils/random.py', 'bayespy/utils/misc.py'],
 [('order of child messages', N+'node.py: Node.children'), ('order of einsum keys', N+'dot.py: SumMultiply.__init__'), ('global NumPy generator as the only randomness', 'bayespy/utils/random.py')],
 ['node.get_moments', 'VB.L', 'node.random'], state=[('children', 'iteration order decides the order of floating-point sums', N+'node.py')])

prop('C13', 'Independent models never affect each other, nor the caller\'s data',
 'Models that share no nodes give the same results whether they run alone, interleaved step by step, or in concurrent threads; building or using one model never changes another or makes it fail. The arrays and lists the caller passes in are never modified, and several models may use the same arrays.',
 ['schedules', 'inputs', 'programs'],
 'For all sets of models, all interleavings of their construction and inference at operation or finer (thread pre-emption) granularity, and all input arrays.',
 'Tests run one model at a time in one thread and do not check inputs for modification.',
 [N+'node.py', N+'stochastic.py', N+'expfamily.py', N+'constant.py', V, 'bayespy/utils/misc.py'],
 [('unique variable identity', N+'stochastic.py: Node._id_counter'), ('class-level shared distribution objects', N+'expfamily.py: _distribution'), ('moment converter registry', N+'node.py: Moments._converters')],
 ['node.get_moments', 'VB.L', 'caller arrays'])

prop('C14', 'Annealing changes the objective consistently and is fully reversible',
 'With any annealing level set, the reported bound is the annealed objective (expected log joint plus entropy divided by the level, both relative to the base measures of the exponential family distributions), every update maximises it, and it never decreases while the level is unchanged. Changing the level neither raises false alarms nor reports convergence by itself, and after returning to level one the run behaves as an ordinary run from the same posteriors.',
 ['schedules', 'histories', 'inputs'],
 'For all models, all schedules of annealing levels in (0, 1] mixed with updates, gradient steps, saves and loads.',
 'No test covers annealing beyond a demo; the objective under annealing is never compared with its definition.',
 [V, N+'expfamily.py'],
 [('annealed update', N+'expfamily.py: _update_distribution_and_lowerbound'), ('annealed bound', N+'expfamily.py: lower_bound_contribution'), ('level changes', V+': VB.set_annealing')],
 ['VB.L', 'VB.compute_lowerbound', 'VB.converged', 'warnings'])

prop('C15', 'An interruption at any point can be recovered from without losing anything',
 'If an exception (such as a keyboard interrupt or running out of memory) strikes at any instant of any operation, it reaches the caller unchanged, and observed data, finished iteration records and result files stay intact. Repeating an interrupted construction, update, observation, initialisation, parameter change, query, load or save gives exactly the result of an uninterrupted one, and an interrupted engine run can be continued from the last completed update. After an interrupted optimiser run, pattern search or rotation, a sweep of updates makes the model fully consistent again, and no trace is left in later inference. (The optimisers may treat an ordinary error during a trial step as a failed step.)',
 ['crash_points', 'fault_sequences', 'histories'],
 'For every operation (update, observe, unobserve, initialise, engine update, gradient step, load, save, optimiser runs), every instant within it at which an exception can appear, and every model state.',
 'No test interrupts an operation; the claim is over all interruption points.',
 [V, N+'expfamily.py', N+'stochastic.py', N+'node.py', N+'deterministic.py'],
 [('recompute from neighbours only', N+'expfamily.py: _update_distribution_and_lowerbound'), ('record then advance', V+': VB._end_iteration_step'), ('error handling in optimisers', V+': VB.optimize, VB.pattern_search')],
 ['node.get_moments', 'VB.L', 'VB.iter', 'the exception seen by the caller'])

prop('C16', 'Looking never changes a model; draws and densities are those of its posterior',
 'Querying a model (moments, parameters, densities, bounds, gradients, printing, plotting, saving, drawing random samples, adding unobserved variables for prediction) any number of times at any point of a run does not change the later course of inference. Random draws, for every outcome of the random generator, lie in the support of the distribution and follow the variable\'s current posterior, independently for each plate; reported (log) densities are those of the current posterior, and predictive densities of mixtures average over the assignments.',
 ['schedules', 'histories', 'inputs'],
 'For all models and states, every placement of query operations in a schedule, and every sequence of values the random generator may produce (including its extreme values).',
 'Tests draw a few samples with ordinary generator values and look at shapes; none compares a run with and without queries.',
 [N+'expfamily.py', N+'stochastic.py', N+'categorical.py', N+'node.py', N+'deterministic.py', V, 'bayespy/utils/random.py', 'bayespy/plot.py'],
 [('sampling', N+'*.py: random; bayespy/utils/random.py'), ('densities', N+'expfamily.py: logpdf'), ('copying getters', N+'stochastic.py: get_moments')],
 ['node.get_moments', 'VB.L', 'node.random'])

prop('C17', 'Invalid model constructions are rejected',
 'Building a node with parents, shapes, plates or values that do not fit together raises an error at construction instead of yielding a node that fails or misbehaves later.',
 ['inputs'], 'For all combinations of node classes, parent types and shapes.',
 'The set of invalid inputs is unbounded and the tests list some of them.',
 [N+'node.py', N+'gaussian.py', N+'gaussian_markov_chain.py'], [('constructor checks', N+'*.py: _constructor')], ['exceptions at construction'])

prop('C18', 'Array and linear-algebra utilities agree with their definitions',
 'The helper functions for broadcasting, masked sums, Cholesky, block-banded solves, special functions and covariance functions return the values of their mathematical definitions for all valid shapes, including broadcast ones.',
 ['inputs'], 'For all valid shapes and values.',
 'Tests sample shapes.',
 ['bayespy/utils/misc.py', 'bayespy/utils/linalg.py', 'bayespy/utils/covfunc'], [('pure functions', 'bayespy/utils/*.py')], ['return values'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))

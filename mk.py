#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the only place where they are edited)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
N = 'neuro_shooting/'
BL, IN, MO, GI, SC = N + 'shooting_blocks.py', N + 'shooting_integrands.py', N + 'shooting_models.py', N + 'generic_integrator.py', N + 'state_costate_and_data_dictionary_utils.py'
OC, HO, ST, PI, AF = N + 'overwrite_classes.py', N + 'shooting_hooks.py', N + 'striding_block.py', N + 'parameter_initialization.py', N + 'activation_functions_and_derivatives.py'
RN, CE, EU, UT, VM = N + 'res_net.py', N + 'command_line_execution_tools.py', N + 'experiment_utils.py', N + 'utils.py', N + 'validation_measures.py'
LR, FU = N + 'custom_lr_scheduler.py', N + 'figure_utils.py'
VV, FS, DL = N + 'vector_visualization.py', N + 'figure_settings.py', N + 'data_loaders.py'
TESTS = 'The existing tests compare closed-form and automatic gradients of several vector models, one fixed size, solver and parameter weight each, and of a convolutional striding chain; '

P = []


def prop(i, title, statement, over, text, why, files, mech, observe, level_note, technique):
    P.append(dict(id=i, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, note=level_note, technique=technique))


prop('C01', 'Dynamics follow the shooting equations',
     'At every evaluation of the dynamics of a particle-based block, the layer parameters are the minimiser of (half their weighted sum of squares minus the particle average of costate times velocity), '
     'particles and data move with the model velocity under these parameters, and costates move with minus the gradient of that coupling with respect to the particles (scaled to single particles). '
     'This holds for every supported model, nonlinearity, number and size of particles, parameter weight and state on or off a trajectory, and trajectories end where integrating these equations ends.',
     ['inputs', 'configurations'], 'all models x nonlinearities x particle counts/sizes/inflation x weights x states, costates, data, times',
     TESTS + 'they never compare against an independent definition of the dynamics.',
     [IN, MO, OC], [('parameters from (co)states', IN + ':compute_parameters_directly, compute_parameters'), ('energy and Lagrangian', IN + ':compute_potential_energy, compute_kinetic_energy, compute_lagrangian'), ('right hand side', IN + ':forward'), ('models', MO + ':rhs_advect_state')],
     ['Lagrangian-gradient hook', 'vector returned to the solver', 'block outputs'],
     'Every right-hand-side evaluation of generated runs is compared with an independent reference (12 models); sampled configurations, float64 1e-8.',
     'runtime monitor on every right-hand-side evaluation (hooked events) against an independent reference model')
prop('C02', 'Closed-form and automatic dynamics agree',
     'Wherever a model offers closed-form parameter and costate equations, switching them on or off changes neither velocities, layer parameters, results, norm penalty nor gradients (up to rounding), in every operating mode of the block. '
     'This holds at every state and time.',
     ['inputs', 'configurations'], 'all models with closed forms x nonlinearities x sizes x weights x modes x states',
     TESTS + 'operating modes, individual weights, other sizes and histories are not covered.',
     [MO, IN], [('closed form', MO + ':optional_rhs_advect_costate_analytic, optional_compute_parameters_analytic'), ('switch', IN + ':use_analytic_solution')],
     ['Lagrangian-gradient hook', 'outputs', 'gradients'], 'Differential monitor over generated runs of both modes from identical parameters; sampled.',
     'differential runtime monitor: both modes traced evaluation by evaluation')
prop('C03', 'Data is transported by the particle flow, sample by sample',
     'A data point which coincides with a particle in its full state stays with that particle, and every sample is mapped independently of the other samples in its batch, of their order and number, and of extra batch dimensions. '
     'The data never influences the particles.',
     ['inputs', 'configurations'], 'all models x batches x layouts x fixed-step solvers (adaptive solvers to tolerance)',
     'No test relates particles and data or compares batches.',
     [IN, BL, SC], [('data advection', IN + ':rhs_advect_data_dict_of_dicts'), ('assembly', SC + ':assemble_tensor'), ('block forward', BL + ':forward')],
     ['block outputs', 'Lagrangian-gradient hook'], 'Metamorphic monitors on generated batches; sampled.',
     'metamorphic runtime monitors (coincidence, permutation, sub-batch, locality, duplication)')
prop('C04', 'Particles act as an unordered normalised ensemble',
     'Reordering the particles only reorders the returned particles, and repeating every particle the same number of times leaves data results, layer parameters and norm penalty unchanged; gradients transform accordingly. '
     'The same holds for particles handed over from an earlier block.',
     ['inputs', 'configurations'], 'all models x permutations x repetition counts x sizes',
     'No test permutes or repeats particles.',
     [IN, MO], [('particle mean', IN + ':compute_potential_energy'), ('closed form means', MO + ':optional_compute_parameters_analytic')],
     ['block outputs', 'gradients', 'norm penalty'], 'Metamorphic monitors on generated runs; sampled.',
     'metamorphic runtime monitors (permutation, replication)')
prop('C05', 'Results are the configured solver\'s values at the requested times',
     'Integration returns one value per requested time, the first being the initial value, and these are the values the configured scheme, step size and tolerances give; a block returns the end value, or all requested times in order when a time vector was set. '
     'Options objects of the caller are never modified, and unsupported solver configurations are rejected.',
     ['inputs', 'configurations'], 'all solvers x options x vector fields x time lists (also unequal and decreasing where supported) x blocks',
     'Tests integrate one problem with one solver configuration.',
     [GI, BL], [('dispatch and options', GI + ':GenericIntegrator.integrate, _integrate_odeint'), ('times', BL + ':set_integration_time, set_integration_time_vector'), ('time selection', BL + ':forward')],
     ['evaluations of the vector field', 'returned trajectory'], 'Own implementations of fixed-step schemes, direct library calls and evaluation logs as oracles; sampled.',
     'trace monitor of field evaluations plus independent solver implementations')
prop('C06', 'Checkpointing is transparent',
     'Integrating with checkpoints (given by count or by interval) returns the same values, penalty and gradients as without, whenever the checkpoints lie on the step grid; elsewhere both agree with the exact solution to solver accuracy. '
     'Every requested time is returned exactly once and every part of the interval is recomputed in the backward pass.',
     ['inputs', 'configurations'], 'all solvers x checkpoint counts and intervals x requested times x fields and blocks',
     'Tests do not use checkpointing with several requested times or compare gradients.',
     [GI], [('checkpoint times and chunks', GI + ':create_integration_time_intervals, _integrate_checkpointed'), ('recomputation', GI + ':_integrate_checkpointed')],
     ['evaluations in forward and backward pass', 'values', 'gradients'], 'Differential monitor plus interval log of recomputation; sampled. One known finding (F2).',
     'differential runtime monitor with a log of forward and recomputed evaluations')
prop('C07', 'Gradients are the true derivatives of the computed values',
     'For any scalar function of anything a block or chain of blocks returns, the gradients for every trainable parameter, the input data and handed-over tensors are the derivatives of the computed values, in every operating mode, also when the function combines several calls (with any numbers and layouts of samples and times), or, for direct integration, contains such gradients itself. '
     'Adjoint integration gives the same values, and gradients converging to the same derivatives as steps shrink.',
     ['inputs', 'configurations'], 'all models x modes x solvers x loss functions x directions',
     'Tests check gradients of one model with one loss.',
     [IN, BL, GI, SC], [('graph kept through parameter computation', IN + ':compute_gradients_autodiff, compute_parameters_directly'), ('adjoint', GI + ':odeint_adjoint'), ('assembly', SC + ':assemble_tensor')],
     ['gradients', 'outputs'], 'Finite-difference oracle in float64 along random directions; sampled. One known finding (F1).',
     'finite-difference oracle on monitored runs, differential monitor for adjoint integration')
prop('C08', 'Flattening states loses and mixes nothing',
     'Flattening named states, costates and data of any number of blocks into one vector and back returns exactly the same entries under the same names, also with a leading time dimension, and every entry occurs exactly once. '
     'What the solver integrates is exactly this vector and what blocks return is its unflattened result.',
     ['inputs', 'programs'], 'all block/name sets x tensor shapes x batch sizes',
     'Tests use one structure.',
     [SC, IN], [('assembly', SC + ':assemble_tensor, disassemble_tensor, plans'), ('use', IN + ':assemble_tensor/disassemble_tensor')],
     ['vectors exchanged with the solver'], 'Unique-entry tracking over generated structures; sampled.',
     'conservation monitor: every entry tagged and accounted for')
prop('C09', 'Chained blocks behave as one flow on the joined features',
     'A block which receives states, costates and data from one or several earlier blocks moves the joined system (received plus own particles, joined along the feature dimension in block-name order, new data features starting at zero); a block without own particles continues the flow. '
     'Splitting a time interval over several such blocks changes nothing, received dictionaries are not modified, and incomplete hand-overs are rejected.',
     ['programs', 'inputs', 'configurations'], 'all chains of blocks x names x feature sizes x models x end time / time vector',
     'Tests run a single block.',
     [BL, IN, SC], [('hand-over', BL + ':forward, pass-through handling'), ('joining', SC + ':_concatenate_*, _deconcatenate_based_on_generic_dict_of_dicts'), ('names', BL + ':names of blocks')],
     ['first evaluation', 'block outputs'], 'Reference flow on the joined features for generated chains; sampled.',
     'runtime monitor of every hand-over against a reference flow on joined features')
prop('C10', 'Hand-over to larger blocks embeds particles centred',
     'Particles handed to a block with spatially larger (or more) particles are embedded centred and unchanged, and the surroundings consist of trainable values, each used exactly once (zero for states kept at zero), stable across calls. '
     'Handing over to smaller blocks, or when enlargement is not possible, is rejected; data and own particles are unaffected.',
     ['inputs', 'configurations'], 'all pairs of sizes x particle counts x models',
     'No test covers enlargement.',
     [BL, IN, PI], [('enlargement parameters', BL + ':_create_raw_enlargement_parameters'), ('embedding', BL + ':_enlarge_tensor, _enlarge_generic_dict_of_dicts')],
     ['first evaluation of the receiving block', 'registered parameters'], 'Unique-entry tracking; sampled sizes.',
     'conservation monitor on the first evaluation of the receiving block')
prop('C11', 'Striding keeps the same positions of states, costates and data',
     'Striding keeps, per strided dimension of length L and stride s, exactly the positions L mod s, L mod s + s, ... of every state, costate and data entry, unchanged and under the same names, and leaves other dimensions and its inputs alone. '
     'Inconsistent strides are rejected; gradients flow to exactly the kept positions.',
     ['inputs', 'configurations'], 'all shapes x strides x dimensions x block sets',
     'The striding script in tests is not an automated test.',
     [ST], [('striding', ST + ':ShootingStridingBlock.forward')],
     ['returned dictionaries'], 'Unique-entry tracking; sampled.',
     'conservation monitor with uniquely tagged entries')
prop('C12', 'Norm penalty is the weighted parameter energy at the start',
     'After a forward call starting at time zero, the norm penalty is half the weighted sum of squares of the layer parameters at the start of that call (of that call only), also with adjoint or checkpointed integration and in all operating modes (averaged over the parameter sets of the intervals in time-dependent direct mode); it is absent when no evaluation at time zero happened. '
     'It is differentiable with respect to everything it depends on.',
     ['inputs', 'configurations', 'histories'], 'all models x modes x solvers x call histories x chains',
     'Tests do not look at the penalty.',
     [BL, IN, OC], [('penalty', IN + ':get_norm_penalty, get_current_norm_penalty'), ('energy', IN + ':compute_kinetic_energy'), ('access', BL + ':get_norm_penalty')],
     ['get_norm_penalty after each call', 'gradients'], 'Reference value and finite differences per call of generated histories; sampled.',
     'history monitor: penalty after every call against the reference energy')
prop('C13', 'Observers see every evaluation as used and never influence it',
     'Registered hooks are called exactly once per evaluation of the dynamics with the time, states, velocities and parameters actually used and the custom data set by the user, until they are removed; attaching them changes no result or gradient. '
     'The evolution recorder stores complete, unaliased copies in evaluation order, and the tensorboard observer writes weight and biases of the first layer at the start of calls in every tenth epoch.',
     ['histories', 'configurations', 'inputs'], 'all models x modes x solvers x histories of registering/removing hooks and forward/backward passes',
     'Tests never attach hooks.',
     [IN, HO], [('hook calls', IN + ':forward (hooks)'), ('registration', IN + ':register_lagrangian_gradient_hook'), ('recorder', HO + ':parameter_evolution_hook'), ('tensorboard observer', 'neuro_shooting/tensorboard_shooting_hooks.py:linear_transform_hook')],
     ['hook arguments', 'vectors exchanged with the solver'], 'One-to-one matching of callbacks with independently logged evaluations; sampled.',
     'exactly-once trace monitor matching callbacks with logged evaluations')
prop('C14', 'Particle-free and frozen modes use the parameter set of the time and call',
     'In directly parameterised mode every evaluation uses the trainable layer parameters of the time interval containing the current time (the only set when not time-dependent), whatever the order of evaluations, and neither particles nor their absence matter for the data. '
     'In frozen mode the parameters computed from the particles at the start of each call are used throughout that call. Contradictory modes are rejected.',
     ['histories', 'inputs', 'configurations'], 'all models x numbers of intervals x query time orders x solvers x histories with parameter updates',
     'Tests do not use these modes.',
     [IN, BL], [('lookup by time', BL + ':get_parameters_at_time'), ('frozen parameters', IN + ':set_externally_managed_rnn_parameter_func, reset'), ('registration', BL + ':register_particle_free_parameters')],
     ['parameters seen by hooks', 'results'], 'Parameters of every evaluation compared with the registered set of that time; sampled.',
     'trace monitor of the parameter set in force at every evaluation')
prop('C15', 'Listed parameters are exactly the trainable content; reloading reproduces',
     'The parameters a block lists after its first forward call are exactly the values entering its computation (particles, costates, enlargements, direct layers, initial-condition predictors as configured), none missing and none twice, and states configured to be kept at zero are zero and not listed. '
     'Saving the parameters and loading them into an equally configured block, or chain, reproduces outputs exactly, also after training; listing before the first forward call is refused.',
     ['histories', 'configurations'], 'all models x modes x enlargement chains x training histories',
     'Tests never save or load.',
     [BL, IN], [('registration', BL + ':register_state_and_costate_parameters, register_integrand_parameters'), ('buffers for zero states', BL + ':keep_initial_state_parameters_at_zero')],
     ['named parameters', 'state_dict', 'first evaluation', 'outputs'], 'Inventory and reload monitors over generated histories; sampled.',
     'inventory monitor and save/load round trip over training histories')
prop('C16', 'Forward calls are pure: no memory, no side effects',
     'What a forward call returns depends only on the current parameters, inputs and requested times, not on earlier calls, other blocks (sharing the solver, or used by other threads at the same time), gradient mode, random state, memory layout or rejected calls, and a call modifies neither inputs nor parameters. '
     'Converting a block to another precision or copying a fresh block preserves its behaviour (to that precision).',
     ['histories', 'programs'], 'all histories of calls (inputs, layouts, times, gradient modes, conversions, failures, interleavings) x modes',
     'Tests make single calls.',
     [BL, IN, GI], [('cached plans and concatenation dimension', IN + ':auto_assembly_plans, concatenation'), ('mode caches', IN + ':frozen parameters'), ('conversion', BL + ':_apply, to')],
     ['outputs', 'inputs and parameters before/after'], 'Bitwise comparison with a history-free twin; sampled histories.',
     'history monitor: bitwise comparison with a history-free twin')
prop('C17', 'Nonlinearities are the named functions with their true derivatives',
     'Every selectable nonlinearity computes the named function elementwise, and its companion is its true derivative, at every real point, precision and shape (relu away from its kink; the option named softmax denotes x times the logistic function); derivatives propagated through it by automatic differentiation are the same and stay finite for large arguments. '
     'Unknown names are rejected.',
     ['inputs'], 'all nonlinearities x reals x shapes x precisions',
     'Tests sample one nonlinearity indirectly.',
     [AF], [('selection', AF + ':get_nonlinearity'), ('functions', AF)],
     ['returned tensors'], 'Scalar high-precision oracle on sampled and extreme points.',
     'runtime oracle with independent scalar evaluation and differences')
prop('C18', 'Parameter-free layers compute what standard layers compute',
     'The layers used inside the dynamics (linear, linear with a dampening input, convolution, group normalisation) compute, for the parameters currently held in their dictionary, exactly what the standard layers with the same options compute (minus dampening parameter times dampening input), with the same gradients. '
     'They register nothing trainable, hold one weight per parameter, do not share state between instances, and follow conversions of precision.',
     ['inputs', 'configurations'], 'all layer kinds x options x parameter values x input shapes',
     'Tests cover linear and one convolution configuration.',
     [OC], [('overwritten layers', OC + ':SNN_*'), ('registration', OC + ':RemoveParameters')],
     ['outputs', 'gradients', 'parameter dictionaries'], 'Differential oracle against torch layers; sampled options.',
     'differential runtime oracle against standard layers')
prop('C19', 'The flow conserves its energy and is reversible',
     'Along every particle-based trajectory the Hamiltonian energy (the weighted parameter energy when velocities are fully parameterised) is conserved up to solver error, in single blocks and chains, so the norm penalty is the same at start and end. '
     'Continuing a trajectory backwards in time returns to its start up to solver error.',
     ['inputs', 'configurations'], 'all models with smooth nonlinearities x states x times',
     'No test integrates and looks at invariants.',
     [IN, MO], [('Hamiltonian structure', IN + ':compute_gradients_analytic, compute_gradients_autodiff'), ('costate equation', IN + ':rhs_advect_costate_reduced_dict_of_dicts')],
     ['parameters and states of every evaluation', 'end states'], 'Invariant monitored at every step, with step refinement to separate solver error; sampled.',
     'online invariant monitor (energy) with step-refinement oracle')
prop('C20', 'Initial values have the requested size, spread and precision',
     'Initialisers create trainable parameters of exactly the requested size and precision: zero, the given constant, normally distributed with the given magnitude, or so distributed around the given sample batch (which stays untouched). '
     'Draws are independent between calls and repeatable with the seed; contradictory or unimplemented requests are rejected; blocks draw states and costates from their own initialisers.',
     ['inputs', 'configurations'], 'all initialisers x request forms x sizes x magnitudes x precisions',
     'No test inspects initial values.',
     [PI, BL, MO], [('creation', PI + ':create_parameters*'), ('use', MO + ':create_initial_state_parameters')],
     ['created parameters'], 'Exact oracle for deterministic values, 8-sigma moment tests for random ones; sampled.',
     'runtime oracle with statistical monitors (8 standard errors)')
prop('C21', 'The residual network is the composition of its layers',
     'The network output is the initial convolution, batch normalisation and nonlinearity, followed per layer by its shooting blocks (first one adding channels, others continuing) and striding between layers, then maximum pooling over space and the final linear map. '
     'Particles start from the given state and costate initialisers. All of it is trained with true gradients, samples are independent in evaluation mode, and saved networks reload exactly.',
     ['inputs', 'configurations'], 'all numbers of layers/blocks, channels, strides, particle sizes, convolutional models, images',
     'No test builds the network.',
     [RN, BL, ST], [('construction', RN + ':_create_shooting_layers'), ('forward', RN + ':forward')],
     ['evaluations inside each block', 'network output'], 'Layer-by-layer reference; sampled configurations.',
     'layer-by-layer trace monitor against a reference composition')
prop('C22', 'Sweeps run every combination once with the right settings',
     'A sweep starts exactly one process per seed and combination of swept values (first key outermost), with template settings overridden by swept ones (true as bare flag, false removing it), its seed, device and output directory, using the requested interpreter and script and logging all output. '
     'Directories are named after seed, function, model and swept values; repeated sweeps skip exactly those which already contain results unless told to recompute; specifications are never modified and arguments and configuration strings arrive as given.',
     ['histories', 'fault_sequences', 'inputs'], 'all sweep specifications x templates x failing runs x repeated sweeps',
     'No test runs sweeps.',
     [CE, EU], [('product', CE + ':recursively_sweep_parameters'), ('execution', CE + ':run_command_with_args, execute_python_script_via_bash'), ('sweep', EU + ':sweep_parameters, merge_args')],
     ['log of started processes', 'directories'], 'Real shell execution with a recording stand-in interpreter and injected failing runs; sampled.',
     'exactly-once monitor over the log of really started processes, with injected failures')
prop('C23', 'Seeding repeats, freezing excludes, counts are true',
     'Setting a seed makes every random source and whole training runs repeatable regardless of what happened before, while -1 leaves them alone. '
     'Freezing excludes exactly the named parameters from training (values kept, no gradient) without changing gradients of the others until unfrozen, and parameter counts are the true numbers of frozen and trainable values.',
     ['histories', 'inputs', 'configurations'], 'all seeds x histories x models x subsets of parameters',
     'No test covers it.',
     [UT, BL], [('seeding', UT + ':setup_random_seed'), ('freezing', UT + ':_freeze_or_unfreeze_parameters'), ('counting', UT + ':compute_number_of_parameters')],
     ['draws', 'parameters after training steps', 'counts'], 'History monitors; sampled.',
     'history monitors over draws, training steps and counts')
prop('C24', 'Parameter norms and complexity measures are as defined',
     'Reported squared Frobenius, nuclear and spectral norms are those of each weight matrix (biases excluded) together with their sums, at each recorded evaluation. '
     'Complexity measures integrate the binary logarithm of the mean of consecutive sums over elapsed time, where steps back in time count as zero; records are not modified.',
     ['inputs', 'histories'], 'all weight matrices, recorded trajectories, time records with restarts',
     'No test covers it.',
     [HO, VM], [('norms', HO + ':compute_parameter_norms'), ('measures', VM + ':compute_complexity_measures')],
     ['recorded data', 'returned measures'], 'Independent eigenvalue-based norms and scalar sums; sampled.',
     'offline checker over recorded event logs')
prop('C25', 'Plateau scheduler reduces exactly on stalls and reports convergence',
     'The learning rate of every group is multiplied by the factor (bounded by its minimum) exactly when the monitored quantity has not improved beyond the threshold for more than the patience outside cooldown; changes not above the minimal decay are not applied and mark convergence. '
     'An applied reduction makes the scheduler forget the best value; saving and restoring its state continues identically; invalid settings are rejected.',
     ['histories', 'configurations'], 'all settings x metric histories x save/restore points',
     'No test covers it.',
     [LR], [('state machine', LR + ':step, _reduce_lr, _reset'), ('comparison', LR + ':_cmp'), ('state', LR + ':state_dict')],
     ['learning rates after every step', 'convergence flag'], 'Online comparison with an independent state machine; sampled histories.',
     'online trace checker against an independent state machine')
prop('C26', 'Escaped text reads back as the original; figures are fully written',
     'Text escaped for LaTeX reads, as LaTeX text, exactly as the original for every string, character by character and without touching ordinary characters. '
     'Saving a figure writes all formats under the given name into the (created if needed) directory and nothing else.',
     ['inputs'], 'all strings; all figure names/directories',
     'No test covers it.',
     [FU], [('escaping', FU + ':escape_latex_special_characters'), ('saving', FU + ':save_all_formats')],
     ['returned text', 'written files'], 'Independent decoder; sampled strings.',
     'round-trip monitor with an independent decoder')
prop('C27', 'Raw inputs are lifted to the full data state as configured',
     'Raw input becomes the first part of the data state, and auxiliary parts start at zero (or as copies of the input in the symmetrised model), or as the trainable constant, linear map or small network of the input when configured so, for every sample and model offering it. '
     'Lifting parameters and raw inputs receive true gradients, constants start at zero, explicitly given data states are not lifted, and unsupported lifting modes are rejected.',
     ['inputs', 'configurations'], 'all models x lifting modes x batches',
     'Tests always use zero initial conditions.',
     [MO, BL], [('lifting', MO + ':get_initial_data_dict_from_data_tensor'), ('use', BL + ':forward')],
     ['data state entering the first evaluation', 'results'], 'Reference lifting from registered parameters; sampled.',
     'runtime monitor of the data state entering the first evaluation')
prop('C28', 'Figures show exactly the given data',
     'Every figure routine draws exactly the values it was given or recorded: all trajectories (true and predicted ones distinguishable), particles at their positions with their momenta as arrows (higher-dimensional states in their two principal directions with momenta projected alike), '
     'every recorded series over its recorded times, and in evolution frames the data up to and the particles at the time of the frame. '
     'Figures are shown or saved exactly as requested, frames numbered in order; plotting settings are restored after saving and inputs are never modified.',
     ['inputs', 'configurations'], 'all trajectories, particle states, dimensions, recorded series and plotting options',
     'No test draws anything.',
     [VV, FS], [('trajectories', VV + ':plot_trajectories'), ('particles', VV + ':plot_particles'), ('series', VV + ':plot_temporal_data'), ('frames', VV + ':visualize_time_evolution'), ('settings', FS + ':setup_pgf_plotting, reset_pgf_plotting')],
     ['contents of every shown or saved figure'], 'Contents of real figures compared with the data; showing/writing recorded; sampled.',
     'monitor on the contents of every figure shown or saved')
prop('C29', 'Loaders deliver the requested data, each sample at most once per pass',
     'Only supported data sets are loaded, with their number of classes. Every batch is complete and contains images with values in [0,1] and their own labels; the training loader shuffles anew each pass (with augmentation: 28x28 crops of the image padded by 4), '
     'evaluation loaders go over the training and test set in fixed order and unaugmented; no sample appears twice in a pass.',
     ['inputs', 'configurations', 'histories'], 'all data sets x sizes x batch sizes x augmentation x passes',
     'Tests never load data.',
     [DL], [('loaders', DL + ':get_data_loaders')],
     ['batches of all loaders'], 'Real torchvision readers on generated files in which each image is recognisable; sampled.',
     'exactly-once monitor over all delivered batches')

SP, FM, CC, RO, BA, AE, SN, DU = ['demos/neurips20/' + n + '.py' for n in
                                  ('spiral', 'simple_functional_mapping_example', 'cc', 'rot', 'balls', 'autoencoder', 'simple_discrete_neural_networks', 'utils')]
prop('C30', 'Data sets, networks and losses of the experiments are what they claim',
     'Spiral trajectories solve the stated system; batches are consecutive windows of them with their own initial values and times, time pieces cover all times and share ends. Circles, rotated digits and bouncing balls are read and '
     'split without overlap; function samples are the named function. Networks have the stated layers and their output follows from their parameters. Losses are the stated norms plus weighted penalty; evaluations count and average over all '
     'samples in evaluation mode.',
     ['inputs', 'configurations'], 'all options, sizes and random draws of the experiment building blocks',
     'Tests never import the experiments.',
     [SP, FM, CC, RO, BA, AE, SN, DU], [('spiral data and batches', SP + ':get_batch'), ('losses', SP + ':compute_loss'), ('autoencoders', AE + ':ShootingAE'), ('networks', SN), ('evaluation', CC + ':evaluate')],
     ['returned data, batches, outputs and losses'], 'Building blocks called with generated options; sampled.',
     'differential monitor: data, network outputs and losses against independent evaluations of their definitions')
prop('C31', 'Experiments train what they state and report what they computed',
     'Run from the command line, an experiment makes one optimiser step per batch of every pass, on all unfrozen parameters, in training mode, with the gradient of the stated loss and the scheduled learning rate; frozen parameters stay. '
     'Saved results (arguments, losses, predictions, parameters, counts) and printed losses are those of the network calls which really happened; a seeded run repeats exactly; sweep scripts start every run with '
     'options the experiment understands.',
     ['configurations', 'histories', 'inputs'], 'all command line options of the experiments x random data x passes',
     'Tests never run the experiments.',
     [SP, FM, CC, RO, BA], [('training loops', SP + ':__main__'), ('saving', FM + ':__main__'), ('sweeps', 'demos/neurips20/run_experiments_spiral.py')],
     ['calls of the networks', 'optimiser steps', 'saved files and printed text'], 'Short real runs as separate processes; sampled.',
     'recorded network calls and optimiser steps of real runs checked offline against saved and printed results')
prop('C32', 'User-defined models get their own equations and all general guarantees',
     'A model a user defines on the vector or convolution base class for velocities linear (affine) in the parameters, with own states (names, number, sizes, lifting of the data), own layers (names, sizes, biases, energy weights, possibly shared between terms) '
     'and own velocities, gets the shooting equations of exactly that definition, whatever its states and layers are called and whether or not every state is read by some velocity. '
     'Consistency of data and particles, permutation and duplication of particles, gradients, penalties, chaining and enlarging blocks, conserved energy, hooks, direct parameter modes, saving and reuse hold for it as for the built-in models. '
     'Where velocities are not affine in the parameters, or the transport energy is used, the parameters of every evaluation are found by descending the Lagrangian of the definition (close to stationary where the descent contracts) and are those which move states and data.',
     ['configurations', 'inputs', 'histories'], 'all models definable on the base classes x nonlinearities x particles x solvers x modes x chains',
     'Tests only use built-in models.',
     [IN, BL, SC], [('base classes', IN + ':ShootingIntegrandBase'), ('automatic equations', IN + ':LinearInParameterAutogradShootingIntegrand'), ('search', IN + ':NonlinearInParameterAutogradShootingIntegrand'), ('built-in definitions', MO)],
     ['every right-hand-side evaluation', 'results, gradients, parameters of the blocks'], 'Definitions drawn at random (up to four states, eight layers); the class handed to the code and the reference are built from it separately.',
     'random model definitions driven through the monitored workloads of the other properties against a reference built from the same definition')


def main():
    have = [p for p in P if os.path.exists(os.path.join(HERE, 'vh', 'props', p['id'].lower() + '.py'))]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                    anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'], hook_needed=None))) + '\n')
    man = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import torch, torchdiffeq, sortedcontainers"',
               checks=[dict(property=p['id'], quick_cmd='bash check.sh {} quick'.format(p['id']), thorough_cmd='bash check.sh {} thorough'.format(p['id']), technique='runtime monitoring: ' + p['technique'],
                            level='exploration', level_note=p['note'], evidence_file='evidence/{}.json'.format(p['id'])) for p in have],
               not_applicable=[dict(property=p['id'], reason='no check yet') for p in P if p not in have],
               notes='Pure Python: checks import the code from the working tree of /repo (no build). See DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    for p in P:
        assert len(p['title']) <= 80, p['id']


main()

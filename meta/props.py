"""Single source of truth for properties.jsonl and MANIFEST.json."""


def P(id, title, statement, over, domain, why, files, mechanism, technique,
      note, state=None, observe=None):
    anchors = dict(files=files, mechanism=[dict(name=n, where=w)
                                           for n, w in mechanism],
                   hook_needed=None)
    if state:
        anchors['state'] = [dict(name=n, meaning=m, where=w)
                            for n, m, w in state]
    if observe:
        anchors['observe_at'] = observe
    assert len(title) <= 80, title
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=domain), why_tests_cant=why,
                anchors=anchors, technique=technique, note=note)


NOT_APPLICABLE = []
D = 'mmrazor/models/architectures/dynamic_ops/'
M = 'mmrazor/models/mutables/'
PROPS = [
    P('C01', 'A dynamic operator computes its selected slice, and so does its export',
      'For every configuration and every history of choices, a searchable operator (convolution, linear, normalisation, attention, patch embedding, block sequence, resizer) gives exactly what the full operator gives when restricted to the selected channels, kernel, depth or shape, and leaves the unselected weights and statistics untouched. Once all choices are fixed, its static export is an ordinary operator of the selected size computing the same function; exporting before everything is fixed, or attaching a choice of the wrong size, is refused.',
      ['configurations', 'inputs', 'histories'],
      'all operator kinds, shapes, groups, strides, dilations, biases; arbitrary channel masks and kernel/depth/shape choices in any order; any input',
      'Unit tests try one prefix mask per operator; slicing mistakes only show for particular combinations of groups, masks, kernel sizes and history.',
      [D + 'mixins/dynamic_conv_mixins.py', D + 'mixins/dynamic_mixins.py',
       D + 'mixins/dynamic_layernorm_mixins.py', D + 'bricks/dynamic_norm.py',
       D + 'bricks/dynamic_multi_head_attention.py', D + 'bricks/dynamic_relative_position.py',
       D + 'bricks/dynamic_container.py', D + 'bricks/dynamic_embed.py', D + 'bricks/dynamic_function.py'],
      [('DynamicConvMixin.get_dynamic_params / forward_mixin / to_static_op', D + 'mixins/dynamic_conv_mixins.py'),
       ('DynamicBatchNormMixin.get_dynamic_params / to_static_op', D + 'mixins/dynamic_mixins.py'),
       ('DynamicMultiheadAttention.forward / to_static_op', D + 'bricks/dynamic_multi_head_attention.py')],
      'property-based testing: generated configurations and mask histories against a scatter/gather full-operator reference',
      'Random exploration; the oracle is an independent full-size computation. Trusts torch CPU kernels; SyncBN forward is not run (CUDA only).'),
    P('C04', 'A searchable choice only ever holds, samples, dumps and fixes legal values',
      'Under every history of set, sample, fix, dump and copy operations, a searchable value, operator or channel mask reports exactly its last accepted legal choice, forwards through exactly the candidates that choice selects, samples only existing candidates (every one of non-negligible probability is reachable), and refuses unknown choices and a second fixing without changing its state. Dumping the choice and fixing a fresh twin to it, or loading its checkpoint, reproduces the same choice; copies and other instances never influence it.',
      ['histories', 'configurations'],
      'all value/operator/channel mutables, any candidate set, any order of set/sample/fix/dump/copy calls, legal and illegal arguments',
      'State corruption by a refused or repeated operation, aliasing of defaults and lossy dumps only appear in multi-step histories.',
      [M + 'mutable_value/mutable_value.py', M + 'mutable_module/one_shot_mutable_module.py',
       M + 'mutable_module/diff_mutable_module.py', M + 'mutable_channel/base_mutable_channel.py',
       M + 'mutable_channel/sequential_mutable_channel.py', M + 'mutable_channel/oneshot_mutable_channel.py'],
      [('OneShotMutableOP.fix_chosen / forward / sample_choice', M + 'mutable_module/one_shot_mutable_module.py'),
       ('BaseMutableChannel.fix_chosen / dump_chosen', M + 'mutable_channel/base_mutable_channel.py'),
       ('MutableValue.current_choice / fix_chosen', M + 'mutable_value/mutable_value.py')],
      'stateful property-based testing against a reference model of the choice life cycle',
      'Random histories up to 12 operations; sampling reachability is statistical with a false-alarm probability below 1e-11 per case.'),
    P('C05', 'Derived choices always equal the arithmetic of their sources',
      'A mutable derived by expansion, division, concatenation or multiplication always reports the choice and mask that this arithmetic gives on the current choices of its sources (mask size from the maximal choices, as many selected channels as the choice says), is fixed exactly when all its sources are, finds all of its sources, refuses direct modification, enumerates its choices without disturbing the sources, and after a deep copy of the model follows the copied sources only.',
      ['inputs', 'histories', 'configurations'],
      'nested derivation expressions over several sources, any sequence of source changes, fixing and copying',
      'Tests check single derivations once; stale closures, mismatched divisors and wrong copies need nesting and history.',
      [M + 'derived_mutable.py', M + 'mutable_channel/sequential_mutable_channel.py', M + 'mutable_channel/simple_mutable_channel.py'],
      [('_expand/_divide/_concat choice and mask functions', M + 'derived_mutable.py'),
       ('DerivedMutable source tracing, is_fixed, choices, copying', M + 'derived_mutable.py')],
      'property-based testing of generated expression trees against an arithmetic reference evaluator',
      'Trees up to depth 3, up to 4 channel and 2 value sources; random exploration.'),
    P('C06', 'Channel ranges stay disjoint, ordered and compose into one exact mask',
      'A channel-range table refuses every empty, malformed or overlapping range (including enclosing ones), keeps its ranges sorted, and answers membership by overlap. A channel container built from any set of disjoint ranges registered in any order exposes the concatenation of their masks with unregistered channels kept, follows later changes of every part, and never exposes a mask of the wrong length.',
      ['histories', 'inputs'],
      'any sequence of insertions, deletions, queries and copies; any partition with gaps, any registration order, shared parts',
      'Tests insert a few adjacent ranges in order; enclosing overlaps and leading gaps need generated interval sets.',
      ['mmrazor/utils/index_dict.py', M + 'mutable_channel/mutable_channel_container.py'],
      [('IndexDict.__setitem__ / __contains__', 'mmrazor/utils/index_dict.py'),
       ('MutableChannelContainer.current_choice / _fill_unregistered_range', M + 'mutable_channel/mutable_channel_container.py')],
      'stateful property-based testing against an interval-set model',
      'Random exploration; ranges up to about 60 channels.'),
    P('C07', 'Channel-unit choices are legal, divisible, exact and reproducible',
      'For every channel count, divisor, minimum and mode, a channel unit turns any requested number or ratio into the nearest divisible count, never more than its channels and never zero; what it reports, selects, samples and accepts agree exactly, setting what was read changes nothing, candidate units accept exactly their candidates, a unit rebuilt from its own template is identical, fixing is final, and magnitude-based units keep exactly the channels with the largest mean absolute weight over all their modules.',
      ['configurations', 'inputs', 'histories'],
      'all unit kinds, channel counts 1..300, divisors, ratio/number modes, arbitrary candidate lists and requests; arbitrary module weights and offsets',
      'Rounding errors only hit particular (ratio, channels, divisor) triples; tests use powers of two.',
      ['mmrazor/models/utils/make_divisible.py', M + 'mutable_channel/units/sequential_mutable_channel_unit.py',
       M + 'mutable_channel/units/one_shot_mutable_channel_unit.py', M + 'mutable_channel/units/l1_mutable_channel_unit.py',
       M + 'mutable_channel/units/channel_unit.py'],
      [('make_divisible', 'mmrazor/models/utils/make_divisible.py'),
       ('SequentialMutableChannelUnit.current_choice/_ratio2num', M + 'mutable_channel/units/sequential_mutable_channel_unit.py'),
       ('L1MutableChannelUnit._generate_mask', M + 'mutable_channel/units/l1_mutable_channel_unit.py')],
      'property-based testing against exact integer arithmetic and an independent ranking',
      'Random exploration; weights have no ties.'),
    P('C02', 'Pruning a traced network keeps every coupled layer consistent',
      'For every network, preparing it for pruning leaves its weights alone, and the traced channel units bind exactly the channels that must change together: any legal choice of every unit gives a network that runs, computes exactly what the original network computes with the unselected channels zeroed or removed, and every freely prunable layer belongs to a unit while network inputs and outputs never do. Units rebuilt from their own template or from a configuration, and the statically exported network, behave identically.',
      ['configurations', 'inputs', 'histories'],
      'random convolutional networks with residual sums, products, gates, concatenations, depthwise and group convolutions, shared modules and flattening; both tracers and all unit kinds; any choice of every unit',
      'Coupling bugs need particular topologies (sums feeding concatenations, siblings, shared modules); tests use a few fixed networks.',
      ['mmrazor/models/task_modules/tracer/backward_tracer.py', 'mmrazor/models/task_modules/tracer/fx_tracer.py',
       'mmrazor/models/task_modules/tracer/channel_analyzer.py', 'mmrazor/models/task_modules/tracer/parsers.py',
       'mmrazor/models/mutators/channel_mutator/channel_mutator.py', 'mmrazor/structures/graph/channel_graph.py',
       'mmrazor/structures/graph/channel_nodes.py', 'mmrazor/structures/graph/module_graph.py',
       M + 'mutable_channel/units/mutable_channel_unit.py'],
      [('ChannelAnalyzer / BackwardTracer', 'mmrazor/models/task_modules/tracer/channel_analyzer.py'),
       ('ChannelMutator.prepare_from_supernet / units / templates', 'mmrazor/models/mutators/channel_mutator/channel_mutator.py')],
      'property-based testing of generated networks against an independent coupling analysis and a masked-network reference',
      'Random networks of up to about 12 nodes, float32 CPU evaluation mode.'),
    P('C03', 'Exporting a subnet and loading it elsewhere gives the same network',
      'For every supernet and every choice, exporting the chosen subnet (as a plain YAML-able description, optionally with a sliced checkpoint, or through a mutator) and loading it into a fresh twin with the weights reproduces the same fixed choices, the same structure and the same outputs; the export changes nothing in the source, is independent of a name prefix, and nothing searchable or dynamic remains after loading.',
      ['configurations', 'histories', 'inputs'],
      'random NAS supernets (one-shot and differentiable operators, routes, values, searchable channels, derived choices, aliases) and random prunable networks; any choice',
      'Round trips fail only for particular combinations of aliases, prefixes, derived choices and nested modules.',
      ['mmrazor/structures/subnet/fix_subnet.py', 'mmrazor/models/mutators/channel_mutator/channel_mutator.py'],
      [('load_fix_subnet / export_fix_subnet', 'mmrazor/structures/subnet/fix_subnet.py')],
      'property-based round-trip testing on generated supernets',
      'Random exploration; supernets up to about 6 searchable blocks.'),
    P('C08', 'Search groups partition the searchable modules and choices reach every member',
      'For every model, the mutator puts every searchable module in exactly one group, groups exactly those sharing an alias, a custom group or a derivation, refuses contradictory custom groups, and sampling or setting choices by group gives every member exactly its group\'s choice; what is read back as the current choices can be set again with no effect, and the maximal and minimal choices are legal extremes.',
      ['configurations', 'histories'],
      'random supernets with aliases, custom groups, derived choices and unregistered values; any group choices',
      'Grouping errors appear only when aliases, custom groups and derivations are combined.',
      ['mmrazor/models/mutators/group_mixin.py', 'mmrazor/models/mutators/nas_mutator.py'],
      [('GroupMixin.build_search_groups', 'mmrazor/models/mutators/group_mixin.py'),
       ('NasMutator.sample_choices / set_choices / current_choices', 'mmrazor/models/mutators/nas_mutator.py')],
      'property-based testing against a set-partition reference',
      'Random exploration; up to about 8 searchable modules.'),
    P('C09', 'The candidate pool is a faithful list of subnets and their resources',
      'Under every sequence of appends, extensions, insertions, removals, resource updates, sorts, slices, copies and dump/load round trips, the pool of search candidates equals a plain list of (subnet, resources): subnets come back exactly as given, resources belong to the right subnet, sorting orders by the named indicator and loses nothing. Pools and the objects put into them never influence each other.',
      ['histories', 'inputs'],
      'any sequence of pool operations with arbitrary subnets and resource values, pickled and dumped in between',
      'Aliasing and mis-attributed resources need several operations on a shared pool.',
      ['mmrazor/structures/subnet/candidate.py'],
      [('Candidates', 'mmrazor/structures/subnet/candidate.py')],
      'stateful property-based testing against a list model',
      'Random histories of up to about 12 operations; scores are compared at two decimals, as documented.'),
    P('C10', 'Evolution search keeps the best legal subnets, and a crash loses nothing',
      'For every search space, metric and constraint, evolution search only evaluates legal subnets within the constraints, keeps after each epoch exactly the best top-k of everything in its pool with their true scores and resources, fills the pool with the configured numbers of mutations and crossovers of those, and finally saves the best one in a loadable form. A search interrupted at any evaluation and resumed from its checkpoint gives the same result as an uninterrupted one given the same random state. In a distributed search all processes score the same candidates, the first one writes, and all of them resume.',
      ['inputs', 'configurations', 'crash_points'],
      'random supernets, metrics with and without ties, constraints, pool sizes, mutation/crossover numbers, interruption at any evaluation',
      'Tests mock the estimator and run one epoch; ranking, attribution and resume errors need several epochs and crashes.',
      ['mmrazor/engine/runner/evolution_search_loop.py', 'mmrazor/engine/runner/utils/genetic.py',
       'mmrazor/engine/runner/utils/check.py'],
      [('EvolutionSearchLoop.run_epoch / update_candidate_pool / gen_*_candidates', 'mmrazor/engine/runner/evolution_search_loop.py'),
       ('crossover', 'mmrazor/engine/runner/utils/genetic.py')],
      'property-based testing with simulated crashes against a reference ranking and an independent resource count',
      'Random supernets of up to about 4 blocks, up to 4 epochs; up to 3 processes.'),
    P('C11', 'Greedy slimming and greedy sampling follow their stated schedules',
      'For every prunable network, metric and list of targets, greedy slimming removes at each step the one channel bin whose removal scores best, reports for each target the first subnet on that path meeting it with its true cost, saves it, and a crashed search that is resumed reports the same subnets. The greedy training sampler trains one by one, in training mode, the top-k of its kept pool of best-scoring legal subnets before refilling it, and its sampling probability rises from the initial to the maximal value over the scheduled iterations (linear or cosine).',
      ['inputs', 'configurations', 'crash_points', 'histories'],
      'random prunable networks and supernets, metrics with ties, target lists with repeats, a crash at any evaluation, pool and top-k sizes, schedules',
      'Tests run one refill and one target; the sampler trained a single candidate for ever and resumed searches lost targets.',
      ['mmrazor/engine/runner/autoslim_greedy_search_loop.py', 'mmrazor/engine/runner/subnet_sampler_loop.py'],
      [('AutoSlimGreedySearchLoop.run / _resume', 'mmrazor/engine/runner/autoslim_greedy_search_loop.py'),
       ('GreedySamplerTrainLoop.sample_subnet / update_cur_prob', 'mmrazor/engine/runner/subnet_sampler_loop.py')],
      'property-based testing with simulated crashes against an independent greedy simulation',
      'Random small networks; up to 4 targets and 10 training iterations.'),
    P('C26', 'The metric predictor encodes subnets consistently and losslessly',
      'For every search space, the predictor encodes every subnet by one fixed, injective encoding that does not depend on the order of the choices and that is the same for the subnets it is trained on and for a model it is asked about, so that a predictor that memorises its training subnets predicts exactly their scores, also after saving and loading it.',
      ['configurations', 'inputs', 'histories'],
      'random search spaces of operators, values and channels; random training sets; both encodings; save and reload',
      'The encoder crashed on every model and disagreed between training and prediction; tests mock the search space.',
      ['mmrazor/models/task_modules/predictor/metric_predictor.py'],
      [('MetricPredictor.model2vector / spec2feats / preprocess', 'mmrazor/models/task_modules/predictor/metric_predictor.py')],
      'property-based testing with a memorising handler and an injectivity check',
      'Random exploration; the numerical quality of the regressors is not judged.'),
    P('C12', 'Recorders and deliveries see exactly the calls and leave no trace',
      'For every set of recorders and deliveries on modules, functions and methods, every sequence of calls, nested or raising, and any number of sessions, each recorder holds exactly what its source received or returned during the last session, in order, and each delivery replays what it recorded first in first out. Outside the session, after normal exit or an exception, functions, classes and modules behave and pickle as if nothing had been observed.',
      ['histories', 'inputs', 'fault_sequences'],
      'random sources, several observers on one source, inherited and overridden methods, exceptions, repeated sessions, deliveries with bounded queues',
      'Patching and unpatching order errors need several observers on one target and leave damage only visible later.',
      ['mmrazor/models/task_modules/recorder/recorder_manager.py', 'mmrazor/models/task_modules/delivery/delivery_manager.py'],
      [('RecorderManager / DistillDeliveryManager', 'mmrazor/models/task_modules/recorder/recorder_manager.py'),
       ('MethodOutputsRecorder, FunctionOutputsDelivery', 'mmrazor/models/task_modules/recorder/method_outputs_recorder.py')],
      'stateful property-based testing against an explicit model of layered observers',
      'Random sessions of a toy module with up to about 6 observers; one process.'),
    P('C13', 'Resource estimation equals an independent count and disturbs nothing',
      'For every network of supported layers, static, dynamic with any chosen widths, or exported, the estimator reports the operations and parameters that an independent count of what actually ran gives, in the requested units and per requested module, and the cost of the dynamic network equals that of the exported one. Estimation is repeatable, obeys its configuration on each call and leaves weights, buffers, random state of the choices and attributes of the model unchanged.',
      ['inputs', 'configurations', 'histories'],
      'random networks of convolutions, deconvolutions, linear, norm, pooling and upsampling layers, widths, batch sizes, shared modules, excluded and selected modules, several calls',
      'Tests compare a handful of fixed numbers; search constraints depend on every layer kind being counted right.',
      ['mmrazor/models/task_modules/estimators/resource_estimator.py',
       'mmrazor/models/task_modules/estimators/counters/flops_params_counter.py'],
      [('ResourceEstimator.estimate / estimate_separation_modules', 'mmrazor/models/task_modules/estimators/resource_estimator.py'),
       ('get_model_flops_params', 'mmrazor/models/task_modules/estimators/counters/flops_params_counter.py')],
      'property-based testing against an independent forward-hook counter, dynamic versus exported',
      'Follows the counters\' published conventions (see DESIGN.md); latency is not judged on CPU.'),
    P('C14', 'Every distillation loss computes its published formula',
      'For all student and teacher tensors, shapes, memory layouts, precisions and options, each distillation loss equals its published formula and so does its gradient towards the student. It scales with its weight, does not depend on the order of the samples, vanishes for equal predictions where the formula does, never changes its inputs, and does not train a detached teacher.',
      ['inputs', 'configurations'],
      'random features and logits, all options and reductions, contiguous, channels-last and strided tensors, single and double precision, several steps of the contrastive memory',
      'The tests only check that a loss is a scalar.',
      ['mmrazor/models/losses/kl_divergence.py', 'mmrazor/models/losses/relational_kd.py',
       'mmrazor/models/losses/crd_loss.py', 'mmrazor/models/losses/decoupled_kd.py'],
      [('all loss classes', 'mmrazor/models/losses/__init__.py'),
       ('ContrastMemory', 'mmrazor/models/losses/crd_loss.py')],
      'property-based testing against independent double-precision formulas and metamorphic relations',
      'Bounded magnitudes; comparison up to floating-point tolerance.'),
    P('C15', 'A distillation step is the student task plus exactly the listed losses',
      'For every configuration of recorders, connectors, deliveries and losses, a training step of a distillation algorithm optimises exactly the task loss (if asked for) plus the configured losses of what the named sources produced in this very step, and moves only the parameters it should: a frozen teacher never changes, not even its statistics when they are frozen. Self, data-free and overhaul distillation follow the same rule, and the steps of generator and student do not leak into each other.',
      ['configurations', 'histories', 'inputs'],
      'random student and teacher networks with in-place activations and repeated modules, random mappings, several steps, stopped distillation, evaluation in between',
      'Wrong records or leaked gradients still give plausible loss values; tests only check the names of the losses.',
      ['mmrazor/models/distillers/configurable_distiller.py',
       'mmrazor/models/algorithms/distill/configurable/single_teacher_distill.py',
       'mmrazor/models/algorithms/distill/configurable/datafree_distillation.py',
       'mmrazor/models/algorithms/base.py'],
      [('ConfigurableDistiller.compute_distill_losses', 'mmrazor/models/distillers/configurable_distiller.py'),
       ('SingleTeacherDistill.loss', 'mmrazor/models/algorithms/distill/configurable/single_teacher_distill.py'),
       ('DataFreeDistillation.train_step', 'mmrazor/models/algorithms/distill/configurable/datafree_distillation.py')],
      'differential property-based testing against a plain reimplementation with hooks and a plain optimiser',
      'Toy networks, up to 3 steps; single process.'),
    P('C16', 'Differentiable search mixes, samples and updates by its definition',
      'For all architecture parameters, a differentiable mutable outputs the mixture, the sampled candidate or the fixed candidates that its definition names, and mutables of one search group share their parameter. A DARTS step (first-order or unrolled, with any gradient accumulation) and a DSNAS step in any of its stages change weights and architecture parameters exactly as the published formula applied to the right data says; neither update leaks into the other. The exported subnet holds the candidates with the largest parameters.',
      ['inputs', 'configurations', 'histories'],
      'random supernets with shared aliases and custom groups, momentum, weight decay, SGD and Adam, several steps and epochs across the DSNAS stages, threshold fixing',
      'Wrong gradients still train; the tests only check that a step returns a loss.',
      ['mmrazor/models/mutables/mutable_module/diff_mutable_module.py',
       'mmrazor/models/algorithms/nas/darts.py', 'mmrazor/models/algorithms/nas/dsnas.py',
       'mmrazor/models/mutators/nas_mutator.py'],
      [('DiffMutableOP / OneHotMutableOP / DiffChoiceRoute.forward', 'mmrazor/models/mutables/mutable_module/diff_mutable_module.py'),
       ('Darts.train_step', 'mmrazor/models/algorithms/nas/darts.py'),
       ('DSNAS.train_step', 'mmrazor/models/algorithms/nas/dsnas.py')],
      'differential property-based testing against a plain double-precision reimplementation',
      'Single process; the wrappers for distributed training share the code by copy and are not run.'),
    P('C22', 'Training and validation loops feed and judge what they say',
      'For all datasets, batch sizes and choices, the DARTS loops pair the two data streams completely and in order, restart and reshuffle them, and validate at the requested points. The validation loops evaluate every requested subnet (or teacher) on the whole dataset in evaluation mode, report each under its own name, and change no weight. BN calibration uses exactly the requested number of samples and leaves precisely the average batch statistics in the active channels of the used norms.',
      ['inputs', 'histories', 'configurations'],
      'random loader lengths and batch sizes, sampled supernets with dynamic channels, 1d/2d/3d norms, repeated and unused norms',
      'Off-by-one batches, wrong calibration or stale subnets only shift metrics; tests mock the loops.',
      ['mmrazor/engine/runner/darts_loop.py', 'mmrazor/engine/runner/subnet_val_loop.py',
       'mmrazor/engine/runner/slimmable_val_loop.py', 'mmrazor/engine/runner/distill_val_loop.py',
       'mmrazor/engine/runner/utils/calibrate_bn_mixin.py'],
      [('EpochMultiLoader / IterMultiLoader', 'mmrazor/engine/runner/darts_loop.py'),
       ('CalibrateBNMixin.calibrate_bn_statistics', 'mmrazor/engine/runner/utils/calibrate_bn_mixin.py'),
       ('SubnetValLoop.run', 'mmrazor/engine/runner/subnet_val_loop.py')],
      'differential property-based testing against reference loops and a reference calibration',
      'Loops are driven with a stub runner.'),
    P('C17', 'Iterative pruning keeps its schedule; DCFF fuses by definition',
      'For all structures, targets, frequencies and step counts (also after a resume), iterative pruning changes the structure only at the scheduled iterations, moves every unit monotonically from its start along the defined (linear) path and reaches exactly the target structure; units without a target stay whole. DCFF replaces each filter by the published mixture (softmax over distances, temperature by epoch) and prunes the filters with the smallest importance. ItePruneValLoop saves a network that equals the pruned one.',
      ['inputs', 'schedules', 'histories', 'configurations'],
      'random CNNs with coupled units, ratio and number mode, divisors, partial targets, frequencies 1..40, up to 12 steps, resume at a random point, random filters and temperatures',
      'Schedules only go wrong for certain step counts, and a wrong fusion still trains; the tests run one fixed network.',
      ['mmrazor/models/algorithms/pruning/ite_prune_algorithm.py', 'mmrazor/models/algorithms/pruning/dcff.py',
       'mmrazor/models/architectures/dynamic_ops/bricks/fused_conv.py', 'mmrazor/models/mutators/channel_mutator/dcff_channel_mutator.py',
       'mmrazor/engine/runner/iteprune_val_loop.py'],
      [('ItePruneConfigManager.prune_at / is_prune_time', 'mmrazor/models/algorithms/pruning/ite_prune_algorithm.py'),
       ('FuseConv2d.get_fused_channel / fuse', 'mmrazor/models/architectures/dynamic_ops/bricks/fused_conv.py'),
       ('ItePruneValLoop._save_fix_subnet', 'mmrazor/engine/runner/iteprune_val_loop.py')],
      'model-based property-based testing against a reference schedule and a functional reference network',
      'The fused choice is not part of a checkpoint; resuming DCFF in the fused state is not checked.'),
    P('C20', 'A slimmable network is exactly its listed subnets, trained together',
      'For every CNN and every list of subnet configurations, slimmable subnet i computes what a separate network with that width and the i-th batch norm of every layer computes. One training step of the whole network changes the shared weights by the sum of the gradients of all subnets and the norms of each subnet by that subnet alone, as accumulating their losses separately would. Deploying subnet i leaves exactly that network.',
      ['inputs', 'configurations', 'histories'],
      'random CNNs with residual, gated and depthwise coupling, 1 to 4 subnets, accumulation, momentum, weight decay, several steps, deployment of each subnet',
      'A norm of the wrong width trains silently; tests build one network.',
      ['mmrazor/models/algorithms/pruning/slimmable_network.py', 'mmrazor/models/mutators/channel_mutator/slimmable_channel_mutator.py',
       'mmrazor/models/mutables/mutable_channel/units/slimmable_channel_unit.py', 'mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py'],
      [('SlimmableNetwork.train_step', 'mmrazor/models/algorithms/pruning/slimmable_network.py'),
       ('SlimmableChannelMutator.set_choices', 'mmrazor/models/mutators/channel_mutator/slimmable_channel_mutator.py'),
       ('SwitchableBatchNorm2d', 'mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py')],
      'differential property-based testing against separate reference networks and plain SGD',
      'DDP wrappers run in a process group of one process; no norm behind a concatenation or group convolution (both refused).'),
    P('C21', 'DMCP samples, trains and exports by its channel probabilities',
      'For all architecture parameters, the max, min, random, direct and expected structures of DMCP are those of its channel Markov process, and in the architecture phase (only) each norm scales each channel group by its marginal probability with the right gradient. Every training step trains the listed subnets with distillation from the configured iterations on, updates the architecture at the configured iterations only, with the stated FLOPs loss, and no update carries gradients of another. The subnets exported after training meet the FLOPs target and can be rebuilt.',
      ['inputs', 'configurations', 'histories', 'schedules'],
      'random CNNs, pruning rates, parameters, strategies, start iterations and frequencies, loss types and targets; sampling frequencies are judged at 6.5 sigma',
      'A biased sampler or a wrong FLOPs loss still trains; tests only look at types.',
      ['mmrazor/models/algorithms/pruning/dmcp.py', 'mmrazor/models/mutators/channel_mutator/dmcp_channel_mutator.py',
       'mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py', 'mmrazor/engine/hooks/dmcp_subnet_hook.py'],
      [('DMCP.train_step / _compute_flops_loss', 'mmrazor/models/algorithms/pruning/dmcp.py'),
       ('DMCPChannelMutator._prune_by_arch', 'mmrazor/models/mutators/channel_mutator/dmcp_channel_mutator.py'),
       ('DMCPBatchNorm2d.forward_arch_param', 'mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py'),
       ('DMCPSubnetHook.after_run', 'mmrazor/engine/hooks/dmcp_subnet_hook.py')],
      'property-based testing with a functional reference network, a reference FLOPs count and statistical bounds',
      'The sampling check accepts deviations below 6.5 sigma of the stated distribution.'),
    P('C24', 'Hooks and builders deliver the described subnets, undisturbed training',
      'DumpSubnetHook writes exactly at the configured epochs or iterations the best subnet of that moment (keeping at most max_keep_subnets), EstimateResourcesHook and the visualization hook report that network at their interval, StopDistillHook ends distillation from its epoch on, and none of the reporting hooks changes the model or the course of training. A feature map is drawn as configured over the part of the image it covers, whatever lies in the padding. SeparateOptimWrapperConstructor gives every submodule its own optimizer with exactly its parameters and settings. A config for sub_model or _return_architecture_ builds, as often as wanted, the described network with the described weights.',
      ['inputs', 'configurations', 'histories'],
      'random differentiable supernets trained by the mmengine runner with and without the hooks, random intervals, file templates, parameter-wise settings, subnet files in both export modes with and without supernet weights',
      'A hook that dumps a stale subnet or perturbs training is invisible in a unit test with a mocked runner.',
      ['mmrazor/engine/hooks/dump_subnet_hook.py', 'mmrazor/engine/hooks/estimate_resources_hook.py',
       'mmrazor/engine/hooks/stop_distillation_hook.py', 'mmrazor/engine/hooks/visualization_hook.py',
       'mmrazor/engine/optimizers/optimizer_constructor.py', 'mmrazor/registry/registry.py',
       'mmrazor/structures/subnet/fix_subnet.py', 'mmrazor/visualization/local_visualizer.py'],
      [('DumpSubnetHook', 'mmrazor/engine/hooks/dump_subnet_hook.py'),
       ('SeparateOptimWrapperConstructor', 'mmrazor/engine/optimizers/optimizer_constructor.py'),
       ('sub_model / build_razor_model_from_cfg', 'mmrazor/registry/registry.py')],
      'differential property-based testing: training with and without the hook, dumped file against recorded parameters, built network against the static export',
      'One process; the labels of the channel grid are not judged.'),
    P('C29', 'Weight-sharing training trains exactly the sandwich or sampled subnets',
      'Each AutoSlim and BigNAS step trains the max subnet, the min subnet and n random legal subnets in this order; the others learn from the max output of the same step (BigNAS from nothing else), drop path acts on the max subnet in the listed stages only, and gradients accumulate as the optimizer wrapper is configured. Each SPOS step trains one freshly sampled subnet and every candidate is reachable. The distributed wrappers make the same update.',
      ['inputs', 'configurations', 'histories', 'schedules'],
      'random CNNs, tiny AttentiveMobileNetV3 spaces and one-shot supernets, accumulation counts, resumed iteration counters, distillation losses, momentum, weight decay, with and without the DDP wrapper (one process)',
      'A wrong subnet, a stale teacher or a lost gradient still lowers the loss; tests only check that a step runs.',
      ['mmrazor/models/algorithms/nas/autoslim.py', 'mmrazor/models/algorithms/nas/bignas.py',
       'mmrazor/models/algorithms/nas/spos.py', 'mmrazor/models/utils/optim_wrapper.py'],
      [('AutoSlim.train_step / AutoSlimDDP.train_step', 'mmrazor/models/algorithms/nas/autoslim.py'),
       ('BigNAS.train_step / BigNASDDP.train_step', 'mmrazor/models/algorithms/nas/bignas.py'),
       ('SPOS.loss', 'mmrazor/models/algorithms/nas/spos.py'),
       ('reinitialize_optim_wrapper_count_status', 'mmrazor/models/utils/optim_wrapper.py')],
      'differential property-based testing against a manual training step with the observed subnets',
      'SGD on CPU; DDP in a process group of one process; teacher outputs are detached by the loss.'),
    P('C27', 'Backbones, operators and heads compute the architecture their config describes',
      'Every searchable operator (MobileNet, ShuffleNet, DARTS, EfficientNet blocks) is the function its settings describe, including widths, strides, dilation, SE, activation, shortcut and stochastic depth. SearchableMobileNetV2, SearchableShuffleNetV2, DartsBackbone, AttentiveMobileNetV3, AutoformerBackbone and WideResNet compute, for every choice of their search variables, exactly the described network with the shared (prefix, centre-cropped) weights and return the requested stages; their search space is the declared one, the exported subnet computes the same with only its own parameters, frozen stages and norm_eval keep parameters and statistics, and no configuration is modified. Heads, pooling, input resizing and the drop-path schedule follow their definitions.',
      ['inputs', 'configurations'],
      'random operator settings, image sizes (non-square, odd), stage tables, widen factors, candidate lists, every combination of search variables, outputs, frozen stages, training and evaluation mode',
      'Tests run a few published configurations and look at output shapes; a wrong stride, group, kernel crop, SE width or a dead option keeps every shape.',
      ['mmrazor/models/architectures/backbones/', 'mmrazor/models/architectures/ops/',
       'mmrazor/models/architectures/heads/', 'mmrazor/models/architectures/classifiers/image.py',
       'mmrazor/models/architectures/necks/squeezemean_with_dropout.py',
       'mmrazor/models/architectures/utils/', 'mmrazor/models/architectures/dynamic_ops/'],
      [('AttentiveMobileNetV3', 'mmrazor/models/architectures/backbones/searchable_mobilenet_v3.py'),
       ('AutoformerBackbone', 'mmrazor/models/architectures/backbones/searchable_autoformer.py'),
       ('DartsBackbone', 'mmrazor/models/architectures/backbones/darts_backbone.py'),
       ('MBBlock, ShuffleBlock, Darts ops', 'mmrazor/models/architectures/ops/')],
      'differential property-based testing against functional reference networks that read the state dict',
      'CPU, double precision; DARTS sizes are even; the last expansion ratio of AttentiveMobileNetV3 is a single value.'),
    P('C25', 'Augmentations and contrastive datasets deliver the samples their settings name',
      'Each AutoAugment operation is applied with its probability, at its magnitude (clipped to 0..10, with its noise and sign), with the configured fill colour, interpolation and translation, to the named image fields only; a policy applies one of its sub-policies in order and leaves the rest of the sample as it is. CRDDataset gives every sample its own index, a positive of its class (or itself) and negatives of other classes, as many as configured, and otherwise the sample of the wrapped dataset; PackCRDClsInputs packs these for every sample alike.',
      ['inputs', 'configurations', 'histories'],
      'random uint8 images, operations, magnitudes, noise, parameter dictionaries, policies, image fields; label multisets, negative counts, percentages, sampling modes; meta keys and sequences of samples',
      'A parameter that is ignored, a wrong fill or a negative of the same class still gives an image and an index array of the expected shape.',
      ['mmrazor/datasets/transforms/auto_augment.py', 'mmrazor/datasets/transforms/auto_augmentv2.py',
       'mmrazor/datasets/transforms/formatting.py', 'mmrazor/datasets/crd_dataset.py'],
      [('AutoAugmentOp, AutoAugment', 'mmrazor/datasets/transforms/auto_augment.py'),
       ('AutoAugmentV2', 'mmrazor/datasets/transforms/auto_augmentv2.py'),
       ('CRDDataset', 'mmrazor/datasets/crd_dataset.py'),
       ('PackCRDClsInputs', 'mmrazor/datasets/transforms/formatting.py')],
      'property-based testing against a Pillow reference of each operation and set-based oracles for the contrastive samples',
      'Three-channel uint8 images; random draws are controlled by stand-ins; each class keeps a negative.'),
    P('C19', 'SparseGPT and GPTQ compress each layer by the optimal brain surgeon recipe',
      'Calibration accumulates exactly the second moments of the inputs of every target layer (dilation, strides, padding, several batches and ranks included) and changes nothing else. SparseGPT prunes in each block the requested share, or N of M weights, of least saliency; GPTQ rounds each weight to the nearest level of its (group) grid; both make up for every change with the remaining columns and return the resulting error. Statistics, biases, layers that are not targets and layers that cannot be compressed stay as they were, packed weights decode to the quantized ones, quantizer parameters follow their definition, and the static model computes what the compressed one does.',
      ['inputs', 'configurations', 'histories'],
      'random linear and convolution layers, calibration batches with dead and correlated features, sparsities, N:M patterns, bits, groups, orders, block sizes, damping, whole models with skipped layers, two simulated ranks',
      'Any wrong Hessian, update or grouping still yields a sparse or quantized layer; the tests print the distance.',
      ['mmrazor/implementations/pruning/sparse_gpt/', 'mmrazor/implementations/quantization/gptq/'],
      [('SparseGptMixIn', 'mmrazor/implementations/pruning/sparse_gpt/ops.py'),
       ('SparseGptCompressor', 'mmrazor/implementations/pruning/sparse_gpt/compressor.py'),
       ('GPTQMixIn', 'mmrazor/implementations/quantization/gptq/gptq.py'),
       ('Quantizer', 'mmrazor/implementations/quantization/gptq/quantizer.py')],
      'differential property-based testing against a double-precision surgeon with explicit inverses, driven by the columns the implementation chose',
      'CPU; ungrouped convolutions; the packed format is decoded by a reference since triton is absent; group grids are fitted to the weights at the start of the column block.'),
    P('C18', 'Quantization schemes, LSQ observers and fake quantizers follow their definitions',
      'A quantization scheme determines exactly the integer range, dtype and torch scheme of the observers and fake quantizers built from it (nothing configured is lost, no config is modified, incomplete configs are refused). A learnable fake quantizer observes, estimates, quantizes and learns exactly when its switches say so, for every sequence of switches, forwards, steps, copies and reloads: estimated scales and zero points, quantized values, and gradients of input, scale and zero point follow the LSQ definition. The plain fake quantizer that replaces a learned one for deployment quantizes like it.',
      ['inputs', 'configurations', 'histories'],
      'random schemes and qconfigs, tensors of any rank, per-tensor and per-channel LSQ fake quantizers with random operation sequences',
      'The switches form a state machine over which the tests walk one path; wrong scales still give plausible outputs.',
      ['mmrazor/models/fake_quants/', 'mmrazor/models/observers/', 'mmrazor/structures/quantization/qconfig.py'],
      [('LearnableFakeQuantize', 'mmrazor/models/fake_quants/lsq.py'),
       ('LSQObserver', 'mmrazor/models/observers/lsq.py'),
       ('QSchemeHandler', 'mmrazor/structures/quantization/qconfig.py'),
       ('QConfigHandler', 'mmrazor/structures/quantization/qconfig.py')],
      'model-based property-based testing: random operation histories against a double-precision reference fake quantizer',
      'CPU, float32; quantization ties are compared up to one step.'),
    P('C30', 'Quantized models are the float model plus the declared fake quantizers',
      'For every traceable network the prepared model computes, with fake quantizers off, exactly what the float model does, in every forward mode, in training and evaluation, with the same gradients, statistics and shared weights, so that training one mode trains the architecture and all modes. Convolution, norm and activation are fused, weights carry the configured scheme, and activation fake quantizers stand everywhere the backend supports them except where it declares them redundant. Statistics are fresh after building, calibration observes predictions only, synchronisation makes all modes quantize alike, and the deployed model has the norms merged and quantizes weights and activations exactly as the trained one, which deployment leaves alone.',
      ['inputs', 'configurations', 'histories'],
      'random networks (fused blocks, joins, reused modules, fixed-parameter ops, direct parameters, containers) x backend x observers and schemes x mode x training, calibration, synchronisation and deployment histories, DDP wrapper',
      'Graph rewriting depends on the topology; the tests use one toy network and mostly check that it runs.',
      ['mmrazor/models/quantizers/', 'mmrazor/models/algorithms/quantization/', 'mmrazor/models/task_modules/tracer/fx/', 'mmrazor/structures/quantization/'],
      [('TorchNativeQuantizer', 'mmrazor/models/quantizers/native_quantizer.py'),
       ('MMArchitectureQuant', 'mmrazor/models/algorithms/quantization/mm_architecture.py'),
       ('recursive_find_erased_nodes', 'mmrazor/models/task_modules/tracer/fx/graph_utils.py'),
       ('build_graphmodule', 'mmrazor/models/task_modules/tracer/fx/custom_tracer.py')],
      'differential property-based testing against the float network, a reference deletion on the full graph and the quantized model for deployment',
      'CPU, no mmdeploy; small networks; fake quantizers that feed a redundant place and another one are not judged.'),
P('C31', 'Quantization-aware training, validation and calibration follow their schedule',
'Quantization-aware training loops put observers, fake quantizers and frozen normalization in the state the schedule asks for at every epoch and iteration, train exactly what a manual loop over the same batches trains, synchronise the quantization parameters of all modes at the end of every epoch and save checkpoints that are ready for inference. LSQ initializes its scales on the first batch only. A training resumed from a checkpoint ends in the state of the uninterrupted one, and early stopping is honoured. The validation loop evaluates the quantized and the original model, and reports the metrics of both to the hooks (logging, best checkpoint) and the caller. Post-training calibration observes the configured number of batches in evaluation mode, freezes the observers, saves the calibrated model and evaluates it.',
['schedules','histories','crash_points'],
'real mmengine runners with random networks, quantizers, schedules (observers, frozen norms, validation), epochs, early stops, resumption points, best-checkpoint keys, calibration lengths',
'unit tests use a toy model without fake quantizers and only look for exceptions; schedules, resumption and their effect on scales depend on histories',
['mmrazor/engine/runner/quantization_loops.py','mmrazor/models/algorithms/quantization/mm_architecture.py'],
[('QATEpochBasedLoop','mmrazor/engine/runner/quantization_loops.py'),('LSQEpochBasedLoop','mmrazor/engine/runner/quantization_loops.py'),('QATValLoop','mmrazor/engine/runner/quantization_loops.py'),('PTQLoop','mmrazor/engine/runner/quantization_loops.py')],
'differential and metamorphic property-based testing of real runners: manual loop, resumed = uninterrupted training',
'one process on the CPU, small networks; resumption at the end of epochs.'),
P('C28','Widening a pruned network leaves what it computes unchanged','For every convolutional network (residual, concatenated, gated, grouped by shared modules, flattened into linears), pruned before or not, in training or evaluation mode: making it expandable changes no weight, statistic or mode; expanding its groups of channels (by unit, by a static structure, or to multiples of a divisor) gives plain layers of exactly the requested widths (the smallest multiple of the divisor), keeping every setting, dtype, mode, counter and old value; with zero weights for the new channels, and likewise with random ones once these are silenced, the wider network computes what the original did.',['inputs','configurations'],'networks with coupled channels x prior pruning x extra widths / divisors x zero or random new weights x modes x norms without affine parameters or statistics','Divisible widths are what the deployment of pruned models runs on; where old weights land inside the widened tensors depends on the coupling structure of the whole network and cannot be covered by a handful of examples.',['mmrazor/models/utils/expandable_utils','mmrazor/models/mutables/mutable_channel/units'],[('ExpandableMixin','mmrazor/models/utils/expandable_utils/ops.py'),('make_channel_divisible','mmrazor/models/utils/expandable_utils/tools.py')],'property-based testing: generated networks widened and compared with the original in function, widths, settings and values','networks of up to ~30 layers of at most 8 channels, CPU, float32; no grouped (non-depthwise) convolutions'),
P('C23','Group fisher pruning drops exactly the least important channel','For every convolutional network (residual, concatenated, gated, shared modules, flattened into linears), normalization and interval: a training step of the group fisher algorithm is an ordinary training step; the importance of a channel is the sum over the batches since the last pruning, over the ranks and over the samples of the squared derivative of the loss with respect to a gate on that channel everywhere it is consumed, divided by the cost of the channel; at every interval exactly the globally least important channel of the groups which have more than one is dropped (none otherwise, none comes back) and the importances start again; all ranks of a distributed run share weights and structure. The static model and the model for deployment built from the pruned algorithm or its structure file compute what it computes, and checkpoints are saved, and the run stopped, at exactly the thresholds passed.',['inputs','histories','configurations'],'networks x normalization x interval x tracers / config-built units x batches, iterations, learning rates x ranks x divisors x thresholds','The dropped channel depends on the whole history of gradients and on the coupling structure; the tests fake the gradients and assert nothing about which channel goes.',['mmrazor/implementations/pruning/group_fisher'],[('GroupFisherChannelUnit','mmrazor/implementations/pruning/group_fisher/unit.py'),('GroupFisherChannelMutator.try_prune','mmrazor/implementations/pruning/group_fisher/mutator.py'),('GroupFisherDDP','mmrazor/implementations/pruning/group_fisher/algorithm.py'),('ResourceInfoHook','mmrazor/implementations/pruning/group_fisher/hook.py')],'property-based testing: generated networks and histories against gate derivatives, a plain training step, and a two-rank run (forked gloo processes)','small networks on the CPU, two ranks, channels tied within 1e-3 are not judged'),
P('C32','Distillation connectors, generators and gathering compute their transforms',
'Every connector and generator of the distillation toolbox computes, in value, gradient and statistics, the transform of its publication for every feature (any size, memory layout, mode): the convolution connector in every order and padding mode, the contrastive (CRD), self-attention (BYOT), factor transfer, margin (OFD), normalization and torch connectors, masked generation (MGD: exactly a fraction lambda of the pixels or channels is dropped before generation), the attention masks and non-local relations of FBKD in all modes and strides, the DAFL and ZSKT generators from given or fresh latents, the two heads of DeiT. None changes the recorded feature it is given; names that are not offered and malformed latents are refused. Losses computed on gathered predictions equal the loss of the whole batch on every rank, with the gradients of all ranks added up.',
['inputs','configurations'],
'features of random sizes, layouts and seeds x every connector / generator / head with random arguments and weights; two or three forked ranks for gathered losses',
'Unit tests look at output shapes; a wrong padding, stride, temperature, order or an in-place change of the recorded feature leaves the shapes as they are and distills something else.',
['mmrazor/models/architectures/connectors','mmrazor/models/architectures/generators','mmrazor/models/architectures/heads/deit_head.py','mmrazor/models/architectures/ops/gather_tensors.py'],
[('BaseConnector','mmrazor/models/architectures/connectors/base_connector.py'),('NonLocal2dMaxpoolNstride','mmrazor/models/architectures/connectors/fbkd_connector.py'),('MGDConnector','mmrazor/models/architectures/connectors/mgd_connector.py'),('DAFLGenerator','mmrazor/models/architectures/generators/dafl_generator.py'),('GatherTensors','mmrazor/models/architectures/ops/gather_tensors.py')],
'differential property-based testing against explicit formulas in double precision; metamorphic relations over ranks',
'features of at most 6 channels and 9x9 pixels, CPU, at most three gloo ranks')
,P('C33','The exported ONNX file computes what the quantized model computes',
'Every calibrated network made ready for deployment can be exported by its quantizer for its backend: the written file is well-formed (every name is defined before it is used, nothing twice, no placeholder operators are left, inputs and outputs are kept), contains every fake quantizer of the model with its range, levels and axis, and computes, run as ONNX prescribes, exactly what the deploy model computes, which exporting leaves as it was. Rewriting an ONNX graph (replacing quantizers, removing paddings of nothing, dead nodes and unused weights, sorting) never changes what the graph computes; sorting orders any permutation of an acyclic graph and refuses a cyclic one.',
['inputs','configurations'],
'random calibrated networks (fused blocks, joins, reused modules, linears over maps, paddings, splits, resizing) x backend x schemes and observers x batch; random hand-made ONNX graphs (shared or own constants, aliases, dead parts, several inputs and outputs, per channel axes) x exporter x node order',
'Tests check that a file is written; lost nodes, ranges along another axis or shared by mistake load and run, and depend on the topology of the graph.',
['mmrazor/models/quantizers/exporters','mmrazor/models/quantizers/openvino_quantizer.py','mmrazor/models/quantizers/tensorrt_quantizer.py','mmrazor/models/quantizers/native_quantizer.py'],
[('OpenVinoQuantizeExportor','mmrazor/models/quantizers/exporters/openvino_quantize_exporter.py'),('BaseQuantizeExportor','mmrazor/models/quantizers/exporters/base_quantize_exporter.py'),('ONNXOptimUtils','mmrazor/models/quantizers/exporters/optim_utils.py'),('OpenVINOQuantizer.export_onnx','mmrazor/models/quantizers/openvino_quantizer.py')],
'differential property-based testing: the exported file run by the ONNX reference evaluator against the deploy model and the graph before conversion, on exactly representable grids',
'the runtimes are not installed: the ONNX reference evaluator and the documented formula of FakeQuantize stand in for them; opset 11 for OpenVINO, 13 otherwise; TensorRT files converted by the exporter itself are per tensor')
,P('C34','Command line tools hand over exactly the parameters and structures they name',
'Every tool of the repository does to files what it announces. Checkpoint converters write every parameter of the converted part, unchanged, under the name the receiving model reads it by (whatever the layers and nested modules are called), leave out the rest, keep the metadata and, unless told to work in place, the input file; students extracted from a distillation checkpoint, quantized checkpoints converted for deployment and subnets converted from a supernet checkpoint load strictly and compute what the trained model computes. Published checkpoints carry the digest of their contents. The pruning tools print the units, choices and costs of the configured model, write configurations that build the announced algorithm, and save the static network and structure of a pruned checkpoint. Training, resuming and testing from the command line honour their options and end in the state a plain loop reaches.',
['inputs','configurations','histories'],
'random names and layouts of checkpoints, depths, distilled pairs, quantized networks x schemes, networks x pruning options, supernets x subnets, training runs x options x resumption',
'The tools have no tests; a wrong or missing parameter loads silently (non-strict loading) and depends on how the layers are named.',
['tools/model_converters','tools/pruning','tools/train.py','tools/test.py','tools/misc'],
[('convert_supernet2subnet','tools/model_converters/convert_supernet2subnet.py'),('convert_quant_ckpt','tools/model_converters/convert_quant_ckpt.py'),('convert_kd_ckpt_to_student','tools/model_converters/convert_kd_ckpt_to_student.py'),('get_static_model','tools/pruning/get_static_model_from_algorithm.py'),('wrap_prune_config','tools/pruning/get_l1_prune_config.py')],
'property-based testing of the scripts themselves in scratch directories: renaming specification, strict loading and functional equality with the source model, direct API calls, a manual training loop',
'one process on the CPU; the released checkpoints are not available: the legacy converters see their layout of names only; no mixed precision')
]

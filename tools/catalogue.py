"""One entry per property; ``gen.py`` writes properties.jsonl, MANIFEST.json
and the per-property part of DESIGN.md from it."""
M = 'mmrazor/models/mutables/'
A = 'mmrazor/models/architectures/'
PROPS = []
NA = []


def prop(id, title, statement, over, quant, tests, files, mech, technique,
         note, design, level='model_checking'):
    PROPS.append(dict(
        id=id, title=title, statement=statement, over=over, quant=quant,
        tests=tests, files=files, mech=mech, technique=technique, note=note,
        design=design, level=level))


def na(id, title, statement, over, quant, tests, files, mech, reason):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over,
                      quant=quant, tests=tests, files=files, mech=mech))
    NA.append(dict(property=id, reason=reason))


prop(
    'P01', 'A searchable channel count is one consistent subset',
    'Whatever sequence of legal choices a searchable channel dimension is '
    'given (a width, a ratio, or an explicit subset; by order or by magnitude), its reported width, its '
    'mask, its exported choice and the width it has after being fixed all '
    'describe the same subset, and it is the subset the choice asked for. '
    'Choosing never disturbs another dimension; fixing is permanent, can be '
    'reproduced on a fresh dimension from the exported choice, and a fixed '
    'dimension refuses a second fix.',
    ['histories', 'inputs'],
    'every history of set / sample / export / fix / re-fix operations on '
    'every kind of searchable channel dimension',
    'Tests set one or two choices on a fixed width; rounding of a ratio, '
    'shared defaults and repeated fixes only show for particular '
    '(width, ratio, history) triples.',
    [M + 'mutable_channel', M + 'base_mutable.py'],
    [('choice to mask', M + 'mutable_channel/sequential_mutable_channel.py'),
     ('candidate list', M + 'mutable_channel/oneshot_mutable_channel.py'),
     ('dump and fix', M + 'mutable_channel/base_mutable_channel.py')],
    'explicit-state search of the real object against a reference subset',
    'Exhaustive over all operation histories to depth 3 (4 thorough), every '
    'width up to 8 and every k/n ratio up to width 64. Trusts torch indexing.',
    'A state is the operation history; each operation is applied to the real '
    'mutable and to a Python set. After every step current_choice, '
    'activated_channels, current_mask and dump_chosen are compared; twins are '
    'kept alive to see interference. Ratios k/n are enumerated for all n up '
    'to 64.')

prop(
    'P02', 'Channel ranges tile a layer dimension exactly once',
    'When searchable parts are registered on ranges of one layer dimension, '
    'every non-overlapping sequence of registrations inside the dimension is '
    'accepted in any order and every overlapping one is refused without '
    'altering what was registered before. Once every channel is covered, the '
    'mask and width of the dimension are exactly the concatenation of the '
    'parts in position order, for every choice of the parts.',
    ['histories', 'inputs'],
    'every order of registering ranges (legal or clashing) on a dimension, '
    'and every width of every part',
    'Tests register two adjacent ranges in order; enclosing ranges, holes and '
    'reversed orders are not reached.',
    [M + 'mutable_channel/mutable_channel_container.py',
     'mmrazor/utils/index_dict.py'],
    [('range map', 'mmrazor/utils/index_dict.py'),
     ('composition', M + 'mutable_channel/mutable_channel_container.py')],
    'explicit-state search against a bitmap model',
    'Every sequence of up to 3 registrations over all ranges of a 4..5-wide '
    'dimension, every assignment of part widths.',
    'Operations register every range [a,b) of a W-wide dimension; the bitmap '
    'model says accept/refuse, and after each step coverage, mask and width '
    'are compared.')

prop(
    'P03', 'A derived dimension always equals its formula',
    'A channel dimension or value defined from others (a multiple, a rounded '
    'fraction, a product with a searchable value, a concatenation, or simply '
    'the same) reports at all times the result of that formula on the '
    'present choices of its sources, including when derivations are nested '
    'and when sources change after it was built. Its width and its mask '
    'agree, and it counts as fixed exactly when its sources are.',
    ['histories', 'inputs', 'programs'],
    'every derivation expression up to nesting depth 2 and every assignment '
    'of its sources before and after construction',
    'Tests derive from one source at one value each; stale captures and '
    'disagreement between width and mask need a second move of a source.',
    [M + 'derived_mutable.py'],
    [('derivations', M + 'derived_mutable.py: DerivedMethodMixin')],
    'exhaustive expression enumeration against a reference evaluator',
    'All grammar expressions to depth 2 over all source assignments; '
    'ratios of searchable values captured at build time are known findings.',
    'Every expression is built from real sources, then every assignment is '
    'visited and the reported choice/mask/choices/is_fixed compared with an '
    'independent evaluator.')

prop(
    'P04', 'Search groups partition the search space and round-trip',
    'In every supernet, each searchable part belongs to exactly one search '
    'group, parts sharing an alias or a user-defined group share a group, and '
    'every other part has its own. Every sample drawn, every choice set and '
    'every exported subnet reads back exactly, assigns every member of a '
    'group the same legal candidate, and reaches derived parts.',
    ['programs', 'configurations', 'inputs'],
    'every supernet of up to three searchable slots, every alias assignment, '
    'every user grouping, and every outcome of the random draw',
    'Tests use one hand-written supernet per mutator and real random draws.',
    ['mmrazor/models/mutators/nas_mutator.py',
     'mmrazor/models/mutators/group_mixin.py'],
    [('grouping', 'mmrazor/models/mutators/group_mixin.py'),
     ('sample/set choices', 'mmrazor/models/mutators/nas_mutator.py')],
    'exhaustive enumeration of supernets and random outcomes',
    'All supernets of up to 3 slots; random draws are replaced by an '
    'exhaustive chooser. Members of a user group are assumed to offer equal '
    'candidates.',
    'A generator yields every slot/alias/grouping combination; the built '
    'groups are compared with a reference partition, then the chooser '
    'enumerates every sample and the choice is set and read back, exported '
    'and loaded.')

prop(
    'P05', 'A one-shot candidate set runs exactly the selected candidate',
    'Whatever history of selections, samples and forward passes a one-shot '
    'candidate set has seen, a forward pass runs the selected candidate and '
    'no other. After it is fixed it runs only the fixed candidate for ever, '
    'exports that name, and refuses another fix, an unknown candidate, and '
    'probabilities that do not form a distribution; sampling only ever '
    'returns declared candidates, each with the probability declared for it.',
    ['histories', 'inputs'],
    'every history of select / sample / forward / fix on every candidate '
    'set up to the bound and every outcome of the draw',
    'Tests run one selection per class.',
    [M + 'mutable_module/one_shot_mutable_module.py'],
    [('forward dispatch',
      M + 'mutable_module/one_shot_mutable_module.py')],
    'explicit-state search against a reference automaton',
    'All histories to depth 4 on 1..3 candidates; all draws and a grid of '
    'probability vectors.',
    'Candidates are probes counting their calls; after each operation the '
    'counters are compared with the automaton.')

prop(
    'P06', 'A differentiable candidate set mixes before and commits after',
    'For every architecture parameter vector, a differentiable candidate set '
    'computes the mixture its weights define (softmax, one-hot or Gumbel) '
    'over all its candidates, and the derived choice is its most likely '
    'candidate. After fixing, only the fixed candidates run, unknown names '
    'and a second fix are refused and leave the set as it was, and parameters '
    'are shared exactly within a search group.',
    ['inputs', 'histories'],
    'every parameter vector on a grid including ties and extremes, every '
    'outcome of the categorical draw, every history of forward / derive / fix',
    'Tests use one random parameter vector and check shapes.',
    [M + 'mutable_module/diff_mutable_module.py',
     'mmrazor/models/algorithms/nas/darts.py'],
    [('mixture', M + 'mutable_module/diff_mutable_module.py'),
     ('shared parameters', 'mmrazor/models/mutators/nas_mutator.py')],
    'exhaustive enumeration on a parameter grid against the closed form',
    'Grid of 3..5 levels per parameter, up to 4 candidates; tolerance 1e-5.',
    'Scalar-map candidates make the mixture observable from one output; it is '
    'compared with the closed form, then the set is derived and fixed and the '
    'single path is checked.')

prop(
    'P07', 'A dynamic layer computes what the layer cut to size computes',
    'For every legal pair of kept input and output channels and every kernel '
    'size candidate, a dynamic convolution, linear, batch-norm or layer-norm '
    'layer computes exactly what the plain layer with the dropped channels '
    'and borders removed would compute, and exporting it yields that plain '
    'layer. The stored weights are not altered, statistics of dropped '
    'channels stay untouched, and exporting is refused while a choice is '
    'open.',
    ['inputs', 'configurations', 'histories'],
    'every layer configuration in the bound x every pair of kept subsets x '
    'every kernel candidate x every sequence of training and evaluation steps',
    'Tests check one prefix mask per layer and mostly compare shapes.',
    [A + 'dynamic_ops'],
    [('slicing', A + 'dynamic_ops/mixins/dynamic_conv_mixins.py'),
     ('statistics write-back', A + 'dynamic_ops/mixins/dynamic_mixins.py'),
     ('switchable norms', A + 'dynamic_ops/bricks/dynamic_norm.py')],
    'exhaustive enumeration of configurations and subsets, differential '
    'against the hand-cut layer',
    'All subsets of 2..4-wide dimensions, all listed geometries; equality '
    'within 1e-5. Trusts torch.nn.functional.',
    'The reference slices the weight by hand from the configuration and '
    'calls the functional; batch norm is explored as a history of (subset, '
    'train/eval) steps with a reference copy of the running statistics.')

prop(
    'P08', 'A searchable block runs, trains and exports as the cut block',
    'A searchable sequence of layers, input resizer, relative-position table, '
    'patch embedding or attention block behaves exactly like its plain '
    'counterpart, whatever its configuration, until something searchable is '
    'attached. After that, for every sequence of choices, it computes what '
    'the block cut to the current choice computes, in training and in '
    'evaluation, and its export is that block; impossible choices, and '
    'exporting while a choice is open, are refused.',
    ['configurations', 'inputs', 'histories'],
    'every configuration in the bound x every sequence of depths, sizes, '
    'heads and widths',
    'Tests check that outputs are not None, for one default configuration.',
    [A + 'dynamic_ops/bricks', A + 'ops/transformer_series.py'],
    [('depth', A + 'dynamic_ops/bricks/dynamic_container.py'),
     ('attention', A + 'dynamic_ops/bricks/dynamic_multi_head_attention.py'),
     ('patches', A + 'dynamic_ops/bricks/dynamic_embed.py'),
     ('resizing', A + 'dynamic_ops/bricks/dynamic_function.py')],
    'exhaustive enumeration of configurations and choice sequences against '
    'reference formulas',
    'Up to 4 layers, 3 heads, widths 1..3 and 64; tolerance 1e-4; widths are '
    'prefixes.',
    'Independent formulas (einsum attention, cell-by-cell position table) '
    'give the expected output for each configuration, choice sequence and '
    'export; dropout is compared in training mode under equal seeds.')

prop(
    'P09', 'Channels that depend on each other are cut together',
    'For any network of convolutions, norms, poolings, sums, products and '
    'concatenations, channel analysis puts two channels into one searchable '
    'position exactly when removing one forces removing the other, never '
    'makes a channel of the network input or output searchable, and leaves '
    'channels alone when it cannot cut them. Whatever widths are then chosen, '
    'the searchable network runs and computes what the original network '
    'computes with the removed channels zeroed, and full width restores the '
    'original function. Both tracers agree.',
    ['inputs', 'configurations', 'programs'],
    'every program of the network grammar to a depth, both tracers, every '
    'width assignment in the bound',
    'Tests run a list of known backbones and check only that forward works.',
    ['mmrazor/models/task_modules/tracer', 'mmrazor/structures/graph',
     'mmrazor/models/mutators/channel_mutator'],
    [('backward tracing', 'mmrazor/models/task_modules/tracer/parsers.py'),
     ('graph conversion', 'mmrazor/structures/graph/module_graph.py'),
     ('dependency', 'mmrazor/structures/graph/channel_graph.py'),
     ('channel flow', 'mmrazor/structures/graph/channel_flow.py')],
    'exhaustive enumeration of small programs against a union-find semantics',
    'Quick: all 2-step programs of 15 steps, one head each; thorough: all '
    '3-step programs. Widths {1, middle, full}. The backward tracer may be '
    'conservative when a sum is concatenated.',
    'A union-find over the meaning of the steps gives the reference classes; '
    'the analysis is observed through how the masks react to every width, and '
    'the pruned network is compared with the masked dense one.')

prop(
    'P10', 'An exported subnet reloads as exactly that subnet',
    'For every supernet or prunable network and every choice, the exported '
    'structure (kept as an object or written to a json or yaml file, loaded '
    'once or repeatedly, into a bare or wrapped network, or through a '
    'sub-model config) rebuilds a plain network with nothing searchable left '
    'that computes what the supernet computes at that choice, with the same '
    'parameter shapes as the sliced export. Exporting does not change the '
    'supernet or earlier exports, loading does not change the record, and a '
    'record missing a needed choice is refused.',
    ['programs', 'configurations', 'histories'],
    'every network or supernet of the grammars x every choice in the bound x '
    'every export mode, serialisation and load path',
    'Tests load one stored file into one network and check that it runs.',
    ['mmrazor/structures/subnet', 'mmrazor/models/mutators/channel_mutator',
     'mmrazor/registry/registry.py'],
    [('export and load', 'mmrazor/structures/subnet/fix_subnet.py'),
     ('unit records',
      'mmrazor/models/mutators/channel_mutator/channel_mutator.py'),
     ('sub models', 'mmrazor/registry/registry.py')],
    'exhaustive enumeration of small supernets, choices and load paths, '
    'differential against the supernet',
    'Quick: networks of <= 1 step and supernets of <= 2 cells; thorough: 2 '
    'steps and 3 cells. Loading by mutator re-creates layers, so the sliced '
    'weights are handed over explicitly.',
    'Programs from a channel grammar (7 unit types) and a 12-cell NAS '
    'grammar; each choice is exported in every mode, serialised, loaded into '
    'fresh networks and compared output for output.')

prop(
    'P11', 'Iterative pruning follows its schedule and ends on target',
    'For every target, step, number of prunes and length of training (counted '
    'in iterations or epochs), iterative pruning changes the network at the '
    'scheduled iterations only, only in training, to the width the schedule '
    'gives, never widens it again, leaves dimensions without a target alone, '
    'and ends exactly on the target. Repeating a pass in one iteration or '
    'evaluating in between changes nothing. Interrupted anywhere and resumed '
    'from the saved state, training goes on from the saved widths and still '
    'ends on the target. Filter fusion accepts exactly one way to give its '
    'schedule, and its temperature falls from 1 along the schedule.',
    ['inputs', 'configurations', 'crash points', 'histories'],
    'every schedule in the bound x every iteration as interruption point x '
    'every kind of pass at each iteration',
    'Tests run one schedule and look at the end.',
    ['mmrazor/models/algorithms/pruning'],
    [('schedule and algorithm',
      'mmrazor/models/algorithms/pruning/ite_prune_algorithm.py'),
     ('filter fusion', 'mmrazor/models/algorithms/pruning/dcff.py')],
    'exhaustive execution of schedules with every interruption point',
    'Steps 1..3, 1..4 prunes (6 thorough), trainings of 4..6 iterations '
    '(12 thorough), count and ratio units, ordered and magnitude based.',
    'The real algorithm is stepped iteration by iteration with the runner '
    'state in the message hub; a rational-arithmetic schedule is the oracle.')

prop(
    'P12', 'Each training step runs the promised subnets and updates only them',
    'One training step runs exactly the subnets its algorithm declares, in '
    'order: every declared width for a slimmable network; the largest, the '
    'smallest, then each random subnet for AutoSlim and BigNAS, with later '
    'subnets also (BigNAS: only) learning from the recorded output of the '
    'largest; one freshly drawn subnet per loss for single-path methods. '
    'Evaluation keeps the subnet that is set. The optimizer moves once per '
    'declared number of losses, by their average, from any start iteration. '
    'With two optimizers, each moves only its own parameters, by the gradient '
    'its own loss gives at that moment, on its schedule; the reported losses '
    'are the ones computed. Deploying width i gives that plain network. The '
    'FLOPs loss pulls the expected FLOPs towards the target.',
    ['inputs', 'configurations', 'histories'],
    'every algorithm x accumulation count x start and horizon x outcome of '
    'the random draws x number of steps in the bound',
    'Tests run one step and look for a positive loss.',
    ['mmrazor/models/algorithms/nas', 'mmrazor/models/algorithms/pruning',
     'mmrazor/models/utils'],
    [('slimmable', 'mmrazor/models/algorithms/pruning/slimmable_network.py'),
     ('sandwich', 'mmrazor/models/algorithms/nas/autoslim.py'),
     ('bilevel', 'mmrazor/models/algorithms/nas/darts.py'),
     ('one-hot', 'mmrazor/models/algorithms/nas/dsnas.py'),
     ('markov channels', 'mmrazor/models/algorithms/pruning/dmcp.py')],
    'stateless exploration of every random outcome and schedule of real '
    'training steps, differential against a re-stated protocol',
    'SlimmableNetwork, AutoSlim, BigNAS, SPOS, Autoformer, Darts (plain and '
    'unrolled), DSNAS, DMCP, most also through their DDP wrapper (one '
    'process); 1..6 steps; 4-wide networks. DMCP draws: one deviation from '
    'the default outcome (two thorough).',
    'After every step weights, subnets run and reported losses are compared '
    'with a plain PyTorch re-statement of the algorithm; unrolled Darts '
    'against its finite-difference formula in double precision.')

prop(
    'P13', 'Recorders capture exactly what happened and leave no trace',
    'Inside its context, a recorder keeps, in order, the very objects its '
    'source (a module, parameter, buffer, function or method) took or gave, '
    'however often, nested or shared it is called; outside, it keeps '
    'nothing. Two recorders never disturb each other, on the same source or '
    'on a subclass, whatever the order of entering and leaving. Leaving the '
    'context, also by an exception or when another recorder of the manager '
    'fails to start, restores every function and method. A new context '
    'starts empty. Any record can be fetched by name, index and position; '
    'what was not recorded is refused.',
    ['histories', 'configurations', 'failures'],
    'every kind of recorder, source and pair of recorders x every history of '
    'calls, contexts and exceptions in the bound',
    'Tests record one call of one source.',
    ['mmrazor/models/task_modules/recorder'],
    [('manager', 'mmrazor/models/task_modules/recorder/recorder_manager.py'),
     ('methods',
      'mmrazor/models/task_modules/recorder/method_outputs_recorder.py'),
     ('functions',
      'mmrazor/models/task_modules/recorder/function_outputs_recorder.py')],
    'exhaustive histories on the real recorders against a list model',
    'Histories of up to 4 steps; pairs of recorders in every nesting; faults '
    'at each start.',
    'Each history runs on freshly defined sources; identity of objects, not '
    'equality, is compared.')

prop(
    'P14', 'Deliveries repeat recorded results in order, and only then',
    'While a delivery overrides, call i of its function or method gives what '
    'call i gave when it was recorded, without running it; otherwise the '
    'original runs. Too many recorded or replayed calls, or replaying what '
    'was never recorded, is refused. Recording keeps first-in first-out '
    'order over any number of contexts. Several deliveries do not disturb '
    'each other or a recorder on the same function. Leaving a context, also '
    'by an exception, restores the originals.',
    ['histories', 'failures'],
    'every history of record and replay phases, calls and exceptions in the '
    'bound x every kind and pair of deliveries',
    'Tests replay a single call.',
    ['mmrazor/models/task_modules/delivery'],
    [('functions',
      'mmrazor/models/task_modules/delivery/function_outputs_delivery.py'),
     ('methods',
      'mmrazor/models/task_modules/delivery/method_outputs_delivery.py'),
     ('manager',
      'mmrazor/models/task_modules/delivery/delivery_manager.py')],
    'explicit-state search over delivery histories against a queue model',
    'Up to 7 operations, queues of at most 3, two deliveries.',
    'The real delivery objects are driven; a queue per delivery is the '
    'oracle.')

prop(
    'P15', 'A distillation step gives the promised losses and gradients',
    'A training step of a distillation algorithm gives the task losses of '
    'the student plus, for each configured loss, its value on the wired '
    'records: right network, record and element index, through the right '
    'connectors. Gradients reach the student and the connectors and never '
    'the teacher, unless it is trained too. The teacher runs in the mode it '
    'was configured for; its weights and running statistics stay, unless '
    'trained or configured. Data-free methods update generator and students '
    'each by its own loss. Deliveries make both networks see the same '
    'randomness. Distillation stops at the configured epoch. A wiring that '
    'cannot work is refused when built. In-place activations never spoil a '
    'record.',
    ['configurations', 'inputs', 'histories'],
    'every combination of algorithm flags x every wiring of a menu x '
    'consecutive steps',
    'Tests check that a loss exists.',
    ['mmrazor/models/algorithms/distill', 'mmrazor/models/distillers'],
    [('teacher', 'mmrazor/models/algorithms/distill/configurable/'
      'single_teacher_distill.py'),
     ('wiring', 'mmrazor/models/distillers/configurable_distiller.py'),
     ('data-free', 'mmrazor/models/algorithms/distill/configurable/'
      'datafree_distillation.py'),
     ('stop', 'mmrazor/engine/hooks/stop_distillation_hook.py')],
    'exhaustive configurations of real training steps, differential against '
    'plain PyTorch',
    'Single teacher, self, data-free and DAFL, overhaul; up to 3 steps; SGD.',
    'Weights, statistics, gradients and losses are compared with the step '
    'written out by hand. The formulas of the ready-made losses are not '
    'examined.')

prop(
    'P16', 'A candidate pool keeps each subnet with its own indicators',
    'Whatever the history of appending, extending, inserting, removing, '
    'slicing, joining, sorting, scoring, updating, copying and pickling, a '
    'candidate pool lists the subnets in the expected order, key types '
    'intact, each with its own score and resources; unknown indicators are '
    '-1 for new subnets and 0 for partly evaluated ones. Sorting is by the '
    'asked indicator, stable, and moves subnet and indicators together. '
    'Updates beyond the end and unknown indicators are refused without '
    'effect.',
    ['histories', 'inputs'],
    'every history of pool operations in the bound x every form of input',
    'Tests run each operation once on one pool.',
    ['mmrazor/structures/subnet'],
    [('pool', 'mmrazor/structures/subnet/candidate.py')],
    'explicit-state search on the real pool against a list model',
    'Depth 3 after 16 first steps, pools of 3 (depth 4 thorough); all score '
    'vectors over 4 values up to length 3 (4).',
    'Breadth-first with states deduplicated by the modelled contents.')

prop(
    'P17', 'Evolution search keeps the best legal subnets and survives crashes',
    'Every candidate an evolution search evaluates, breeds or keeps is a '
    'legal subnet inside the constraints (bounds inclusive, every '
    'resource), recorded with its own resources and score. After each '
    'epoch the survivors are the best of all evaluated so far; no better '
    'one is ever lost. Each child takes every choice from its parents '
    '(mutation: one parent and a fresh sample), and every such child can be '
    'born. Numbers of candidates, children and kept checkpoints are as '
    'configured. After a crash at any point, the newest readable checkpoint '
    'continues the search, from its survivors and children. The subnet and '
    'weights saved at the end are those of the best survivor. A predictor, '
    'trained on true scores or loaded, replaces evaluation.',
    ['inputs', 'histories', 'crash points', 'configurations'],
    'every outcome of the random draws within a deviation bound x '
    'configurations x score tables; every crash point of a search',
    'Tests mock candidates, scores and the network.',
    ['mmrazor/engine/runner', 'mmrazor/structures/subnet'],
    [('search', 'mmrazor/engine/runner/evolution_search_loop.py'),
     ('crossover', 'mmrazor/engine/runner/utils/genetic.py'),
     ('constraints', 'mmrazor/engine/runner/utils/check.py')],
    'stateless exploration of whole real searches: bounded deviations of '
    'the random draws, every crash point, exact offspring sets',
    '9-subnet supernets (candidate ops, widths, aliases, kernels), 1..4 '
    'epochs, one deviation from four default draw sequences (two thorough).',
    'The evaluator recognises each subnet by its output; a table gives its '
    'score and cost. Survivors, children and files are re-derived from the '
    'log. Crash points: every evaluation, cost estimate and file operation '
    '(before, torn, after).')

prop(
    'P18', 'Greedy searches take the best step and stop at the right subnet',
    'Greedy slimming starts from the largest subnet and compares, at each '
    'step, exactly the subnets one choice narrower in one unit; it moves to '
    'a best scoring one, until every target is met, evaluates nothing '
    'more, exports for each target the first subnet on the path to meet it '
    '(which reloads as that subnet), and gives up only on impossible '
    'targets. Interrupted anywhere and resumed, it ends on the same path. '
    'Greedy sampling trains, in training mode, the best of its pool, in '
    'order; the pool keeps the best legal candidates of those drawn and '
    'kept; the share reused follows the configured schedule at every '
    'iteration; batches, iteration counts and validation are as '
    'configured.',
    ['inputs', 'histories', 'crash points', 'configurations'],
    'every target set x score table of small networks, every crash point; '
    'every outcome of the random draws within a deviation bound; every '
    'iteration of each schedule',
    'Tests mock the search or run one step.',
    ['mmrazor/engine/runner'],
    [('slimming', 'mmrazor/engine/runner/autoslim_greedy_search_loop.py'),
     ('sampling', 'mmrazor/engine/runner/subnet_sampler_loop.py')],
    'stateless exploration of whole real searches: exhaustive inputs and '
    'crash points, bounded deviations of the random draws',
    '2 or 3 units, 8 or 9 subnets, 11 target sets, 6 score tables; sampling '
    'up to 7 iterations, one deviation (two thorough).',
    'Each step is re-derived from the log of evaluations, in which subnets '
    'are recognised by their output.')

prop(
    'P19', 'Evaluation loops report each subnet under its name, well calibrated',
    'Slimmable, subnet, distillation and iterative pruning evaluation runs '
    'each promised (sub)network, and no other, over the whole data in '
    'evaluation mode, and reports its metrics under its own name; weights '
    'and statistics stay as they were; the files exported by iterative '
    'pruning reload as the evaluated subnet. Batch norm calibration sets '
    'the statistics of exactly the active channels of the layers used to '
    'the sample-weighted mean over exactly the first N samples, for every '
    'batch form, and leaves the rest, the weights and the hooks alone. '
    'Darts training pairs its loaders, restarts and reshuffles both '
    'together, and counts, validates and stops as configured.',
    ['inputs', 'configurations', 'schedules'],
    'every subnet list, channel subset, batch split, sample count, batch '
    'form, loader length and interval in the bound',
    'Tests run one loop with mocks and check only that it ends.',
    ['mmrazor/engine/runner', 'mmrazor/engine/runner/utils'],
    [('slimmable', 'mmrazor/engine/runner/slimmable_val_loop.py'),
     ('subnet', 'mmrazor/engine/runner/subnet_val_loop.py'),
     ('distill', 'mmrazor/engine/runner/distill_val_loop.py'),
     ('pruning', 'mmrazor/engine/runner/iteprune_val_loop.py'),
     ('calibration', 'mmrazor/engine/runner/utils/calibrate_bn_mixin.py'),
     ('darts', 'mmrazor/engine/runner/darts_loop.py')],
    'exhaustive configurations of real loops, against plain references',
    '4 channels, up to 7 samples in up to 4 batches, up to 4 subnets, '
    'loaders up to 4 items (5 thorough), 5 epochs or iterations.',
    'Metrics, statistics, batches and hooks are derived again from copies '
    'of the networks.')

prop(
    'P20', 'A metric predictor scores the subnet it is asked about',
    'The code of a subnet, as positions or one-hot, follows the search '
    'groups of the mutator (operations, widths, values; custom or not), '
    'depends on the choices alone and not on the order of their keys, '
    'differs between subnets, and decodes to the same choices. What a '
    'predictor says for a network depends only on its current subnet, '
    'leaves it untouched, and equals what the fitted model says for the '
    'code of that subnet; interpolating predictors return the training '
    'scores. Saved and loaded, every predictor predicts the same. An MLP '
    'keeps the network that is best on held-out samples. Unfitted '
    'predictors refuse. A search ranks by the predictor it trained.',
    ['inputs', 'configurations'],
    'every subnet x key order x encoding x predictor x training set x '
    'score table',
    'Tests predict one subnet of a one-group supernet and check the type.',
    ['mmrazor/models/task_modules/predictor', 'mmrazor/engine/runner'],
    [('predictor', 'mmrazor/models/task_modules/predictor/'
      'metric_predictor.py'),
     ('handlers', 'mmrazor/models/task_modules/predictor/handler')],
    'exhaustive enumeration of subnets and configurations on the real '
    'predictors',
    '3..9 subnets in 1..2 groups, 7 predictors, up to 3 training sets.',
    'Codes are derived again from the search groups. Whole searches with '
    'real predictors are replayed from the saved files.')

prop(
    'P21', 'Resource estimates are those of the network and leave no trace',
    'Estimated FLOPs and parameters are the sum of the documented closed '
    'forms over the operations called, per sample, whatever the batch, '
    'nesting, repetition or sharing of modules, units or strings; each named '
    'part gets exactly its own; disabled counters count nothing. Settings of '
    'a call win over those of the estimator, none leaks into later calls, '
    'and invalid ones are refused. A supernet of dynamic operations is '
    'estimated as the exported subnet it currently stands for. An estimate, '
    'failed ones included, leaves weights, attributes, hooks and statistics '
    'of the network as they were (but for evaluation mode). The hook '
    'estimates after the validations of exactly every n-th epoch.',
    ['inputs', 'configurations', 'histories'],
    'every operation x shape x batch; nets, parts, settings and call '
    'sequences in the bound; every choice of small supernets',
    'Tests check a few ops and totals of one net with rounded numbers.',
    ['mmrazor/models/task_modules/estimators', 'mmrazor/engine/hooks'],
    [('estimator', 'mmrazor/models/task_modules/estimators/'
      'resource_estimator.py'),
     ('counters', 'mmrazor/models/task_modules/estimators/counters/'
      'flops_params_counter.py'),
     ('ops', 'mmrazor/models/task_modules/estimators/counters/op_counters'),
     ('hook', 'mmrazor/engine/hooks/estimate_resources_hook.py')],
    'exhaustive enumeration of nets, settings and call sequences on the real '
    'estimator',
    '342 operations, nets of up to 2 of 8 cells (3 thorough), call sequences '
    'of 2 (3 thorough) of 13 calls, 3 setting sources.',
    'Closed forms are evaluated in a separate pass over a copy of the '
    'network; exported subnets are measured by the same forms.')

prop(
    'P22', 'Fake quantization does what its mode says, up to deployment',
    'A learnable fake quantizer observes, learns, quantizes or passes on '
    'exactly as its last switches say, through any sequence of switches, '
    'forwards, updates, copies and save/loads; its outputs, scales, zero '
    'points and gradients follow the documented formulas. Schemes map to '
    'their ranges; deleting redundant fake quantizers removes exactly those '
    'described and rewires the rest. A prepared network with quantization '
    'off computes what it came from. The forward modes share weights and, '
    'once synchronized, scales; the deployed model computes what the trained '
    'one does with its scales. Converting norms keeps their outputs. The QAT, '
    'LSQ, validation and PTQ loops switch observers, learning and norms at '
    'the scheduled epochs, also when resumed, and report both models.',
    ['inputs', 'configurations', 'histories'],
    'every switch sequence, observer input sequence, scheme, small graph, '
    'net of the grammar and loop schedule in the bound',
    'Tests check types and the flags after single calls.',
    ['mmrazor/models/fake_quants', 'mmrazor/models/observers',
     'mmrazor/models/quantizers', 'mmrazor/structures/quantization',
     'mmrazor/models/algorithms/quantization', 'mmrazor/engine/runner'],
    [('lsq', 'mmrazor/models/fake_quants/lsq.py'),
     ('observers', 'mmrazor/models/observers/lsq.py'),
     ('qconfig', 'mmrazor/structures/quantization/qconfig.py'),
     ('quantizer', 'mmrazor/models/quantizers/native_quantizer.py'),
     ('graph', 'mmrazor/models/task_modules/tracer/fx/graph_utils.py'),
     ('algorithm', 'mmrazor/models/algorithms/quantization/'
      'mm_architecture.py'),
     ('loops', 'mmrazor/engine/runner/quantization_loops.py')],
    'exhaustive enumeration of switch sequences, graphs, nets and schedules '
    'on the real quantization code',
    'sequences of 2 free switches plus 6-step patterns (3 thorough), graphs '
    'of up to 3 nodes (4), nets of 2 of 10 cells, 3 modes, 3 epochs.',
    'A reference quantizer is kept in step with the real one; graphs are '
    'rewired by an independent computation; deployed models are compared '
    'with the trained ones on the same inputs. Backends other than the '
    'default configuration of PyTorch cannot be built here.')


prop(
    'P23', 'Fisher pruning removes the least important channel, exactly',
    'With every training step the importance of a channel grows by exactly '
    'the batch sum of its squared, summed input times gradient over all '
    'layers and executions that read it, divided by what one such channel '
    'costs in the layers that write and read it. Every interval exactly one '
    'channel is removed, one of the least importance among units with more '
    'than one left, and importances start anew; invalid importances skip. No '
    'hooks or records stay behind, training is otherwise that of the network '
    'without the removed channels, and all survives save and load. The '
    'resource hook saves each threshold once, on the way down, and ends '
    'after the last. The cut sub-model, its structure file and the model '
    'rebuilt from it compute what the pruned network does.',
    ['inputs', 'configurations', 'histories'],
    'every net of the grammar, normalization, interval, schedule of steps '
    'and pruning pattern in the bound',
    'Tests only check that pruning a ResNet runs.',
    ['mmrazor/implementations/pruning/group_fisher'],
    [('unit', 'mmrazor/implementations/pruning/group_fisher/unit.py'),
     ('mutator', 'mmrazor/implementations/pruning/group_fisher/mutator.py'),
     ('ops', 'mmrazor/implementations/pruning/group_fisher/ops.py'),
     ('algorithm',
      'mmrazor/implementations/pruning/group_fisher/algorithm.py'),
     ('hook', 'mmrazor/implementations/pruning/group_fisher/hook.py'),
     ('sub', 'mmrazor/implementations/pruning/group_fisher/'
      'prune_sub_model.py'),
     ('deploy', 'mmrazor/implementations/pruning/group_fisher/'
      'prune_deploy_sub_model.py')],
    'exhaustive enumeration of nets, schedules and pruning histories on the '
    'real algorithm',
    'nets of up to 2 of 11 cells with 6 heads and 2 tracers, 3 '
    'normalizations, intervals of 1 to 3, up to 9 operations, 4 threshold '
    'lists with 4 histories.',
    'The reference runs the unpruned network with the removed channels set '
    'to zero and takes its gradients with plain autograd. Importances are '
    'compared with a tolerance, so ties may fall either way.')

prop(
    'P24', 'Widening a network keeps what it computes',
    'Growing units of a plain network with zero weights, or rounding all '
    'widths up to a multiple for deployment, yields a plain network in which '
    'every layer of every grown unit has exactly the asked-for channels and '
    'all others keep theirs, and which computes exactly what the original '
    'computes, in training and evaluation. Trained weights are never lost. A '
    'single layer grown by any mask keeps its function on the old channels '
    'and, with zero weights, its new channels carry nothing.',
    ['inputs', 'configurations'],
    'every net of the grammar, growth pattern, divisor and layer mask in the '
    'bound',
    'Tests grow two networks and check that they run.',
    ['mmrazor/models/utils/expandable_utils'],
    [('tools', 'mmrazor/models/utils/expandable_utils/tools.py'),
     ('unit', 'mmrazor/models/utils/expandable_utils/unit.py'),
     ('ops', 'mmrazor/models/utils/expandable_utils/ops.py')],
    'exhaustive enumeration of nets, growths and layer masks on the real '
    'operations',
    'nets of up to 2 of 10 cells with 5 heads, 5 growth patterns, 5 '
    'divisors, masks of up to 3 channels per side (5 thorough).',
    'The original network is the reference. Grouped convolutions with '
    'several channels a group and flattened heads are not supported by the '
    'tools and are left out.')

prop(
    'P25', 'DMCP widths follow the architecture parameters',
    'The widths a unit can take are exactly the documented grid, and '
    'impossible grids are refused. A direct draw takes each further step '
    'while its draw allows it; the expected width is the mean over all draws '
    'and is what the resources are counted with, and the network of the '
    'expected widths has that many channels but for rounding. The sampled '
    'network computes what the network without the left-out channels '
    'computes, each further step scaled by its probability exactly while the '
    'architecture trains, with the gradients that follow, in every order of '
    'modes. The hook saves the asked-for number of structures near the '
    'target and the expected one, all of which can be loaded.',
    ['inputs', 'configurations', 'histories'],
    'every number of channels, rate setting, architecture parameter, outcome '
    'of the draws and sequence of modes in the bound',
    'Tests sample each mode once and check that nothing raises.',
    ['mmrazor/models/mutators/channel_mutator', 'mmrazor/engine/hooks',
     'mmrazor/models/mutables/mutable_channel/units',
     'mmrazor/models/architectures/dynamic_ops'],
    [('mutator', 'mmrazor/models/mutators/channel_mutator/'
      'dmcp_channel_mutator.py'),
     ('unit', 'mmrazor/models/mutables/mutable_channel/units/'
      'dmcp_channel_unit.py'),
     ('norm', 'mmrazor/models/architectures/dynamic_ops/bricks/'
      'dynamic_norm.py'),
     ('hook', 'mmrazor/engine/hooks/dmcp_subnet_hook.py')],
    'exhaustive enumeration of all random draws, settings and mode sequences '
    'on the real mutator',
    '1 to 24 channels (40 thorough), 9 rate settings, all draws of 2 units '
    'with up to 4 steps, 4 parameter vectors, sequences of 2 to 4 modes, 5 '
    'targets.',
    'Probabilities and widths are computed from the formulas in the paper '
    'by a separate program; gradients by autograd on a masked network.')

prop(
    'P26', 'Second-order compression updates weights as it defines',
    'While calibrating, every compressed layer gathers exactly the second '
    'moments of all inputs it sees, from the start of each calibration. '
    'SparseGPT zeroes the weights that cost least, to the asked-for sparsity '
    'or pattern, and GPTQ rounds to the grid of its quantizer, block and '
    'group by group in the asked-for order; the remaining weights of a row '
    'make up for it exactly as the inverse Hessian says. Layers that are '
    'skipped or unsupported stay as they are, sharing survives, inputs and '
    'Hessians are not changed, and the plain model cut out computes the same.',
    ['inputs', 'configurations', 'histories'],
    'every layer shape, calibration history, compression setting, quantizer '
    'setting and value in the bound',
    'Tests compress one network and check that it runs.',
    ['mmrazor/implementations/pruning/sparse_gpt',
     'mmrazor/implementations/quantization/gptq'],
    [('sparse', 'mmrazor/implementations/pruning/sparse_gpt/ops.py'),
     ('gptq', 'mmrazor/implementations/quantization/gptq/gptq.py'),
     ('quantizer', 'mmrazor/implementations/quantization/gptq/quantizer.py'),
     ('compressor', 'mmrazor/implementations/quantization/gptq/'
      'compressor.py')],
    'exhaustive enumeration of layers, calibrations, settings and tensors on '
    'the real compressors',
    'layers of up to 8 inputs and 6 outputs, 1 to 3 calibration batches in '
    'up to 2 calibrations, all sparsities, patterns, block, group and order '
    'settings listed.',
    'The reference does one column after another in double precision with '
    'freshly inverted Hessians, not by a Cholesky factor. A setting whose '
    'reference is near a tie is not compared.')

prop(
    'P27', 'DCFF fuses filters into the mixture it defines',
    'Whenever the DCFF mutator fuses the channels, each layer uses as many '
    'filters as its unit is wide, each a mixture over all filters weighted '
    'by their similarity at the temperature of the schedule, for the filters '
    'that differ most from the others; bias, depthwise, residual and '
    'following layers fit. The layer computes and trains with exactly these '
    'mixtures until the next fusing, over any order of training, saving, '
    'loading and copying, and the exported plain network computes the same.',
    ['inputs', 'configurations', 'histories'],
    'every sequence of operations, layer shape, temperature and width in the '
    'bound',
    'Tests fuse once and check the output shapes.',
    ['mmrazor/models/architectures/dynamic_ops/mixins',
     'mmrazor/models/mutators/channel_mutator'],
    [('mixin', 'mmrazor/models/architectures/dynamic_ops/mixins/'
      'dynamic_conv_mixins.py'),
     ('conv', 'mmrazor/models/architectures/dynamic_ops/bricks/'
      'dynamic_conv.py'),
     ('mutator', 'mmrazor/models/mutators/channel_mutator/'
      'dcff_channel_mutator.py')],
    'exhaustive enumeration of operation sequences and layer settings on the '
    'real network',
    'sequences of up to 3 operations (4 thorough) over 18 networks, layers '
    'of up to 8 filters at 5 temperatures and all widths.',
    'The mixture is recomputed from the filters in double precision and read '
    'off the layer with unit filters. Scores that are nearly equal leave the '
    'choice open.')

prop(
    'P28', 'Distillation losses compute their published formulas',
    'Every distillation loss equals its published formula, scaled by its '
    'weight, with its temperature, margins and reduction, for student and '
    'teacher tensors of any value and shape it accepts; its gradient for the '
    'student is that of the formula, none reaches a detached teacher, its '
    'arguments are not changed and it keeps no memory of earlier calls.',
    ['inputs', 'configurations'],
    'every loss, setting, shape and tensor over the value menu',
    'Tests check that each loss returns a scalar for one random input.',
    ['mmrazor/models/losses'],
    [('kl', 'mmrazor/models/losses/kl_divergence.py'),
     ('dkd', 'mmrazor/models/losses/decoupled_kd.py'),
     ('rkd', 'mmrazor/models/losses/relational_kd.py'),
     ('pkd', 'mmrazor/models/losses/pkd_loss.py'),
     ('dist', 'mmrazor/models/losses/dist_loss.py')],
    'exhaustive enumeration of losses, settings and tensors on the real '
    'losses',
    '20 losses, all settings listed, every student tensor of 2 to 4 entries '
    'over 4 values (every second to fifth where quick) against 3 teachers; '
    'larger tensors with gradients.',
    'The references are written out with loops in double precision.')

prop(
    'P29', 'Contrastive distillation draws and remembers the right samples',
    'The contrast of a training sample is itself (or one of its class) '
    'first, then the asked-for number of samples of other classes, distinct '
    'if there are enough, every such choice possible, from the asked-for part '
    'of each class\'s negatives; test data are untouched. The memory of a '
    'sample moves by the momentum exactly when the sample is positive, the '
    'normalization is fixed by the first batch, both survive save and load, '
    'and the loss is the weighted contrastive formula. The negative sampler '
    'follows its distribution.',
    ['inputs', 'configurations', 'histories'],
    'every labelling, setting, outcome of the draws and sequence of batches '
    'in the bound',
    'Tests build one data set and one loss and check shapes.',
    ['mmrazor/datasets', 'mmrazor/models/losses'],
    [('data', 'mmrazor/datasets/crd_dataset_wrapper.py'),
     ('loss', 'mmrazor/models/losses/crd_loss.py')],
    'exhaustive enumeration of labellings, random draws and batch sequences '
    'on the real data set and loss',
    'up to 4 samples of 3 classes (5 thorough), 3 numbers of negatives, all '
    'draws; up to 3 of 4 batches; tables of up to 4 weights.',
    'Random draws of numpy are answered by the explorer; the alias sampler is '
    'fed a regular grid instead of random numbers.')

prop(
    'P30', 'Searchable backbones: every choice runs the network it describes',
    'A searchable backbone (MobileNetV2 and V3, ShuffleNetV2, Autoformer, '
    'DARTS, WideResNet and their operators) offers exactly the choices its '
    'settings declare, and for every combination of them, in training and in '
    'evaluation and for any input size, its outputs are those of the plain '
    'network with these widths, depths, kernel sizes, ratios and operators, '
    'weights cut accordingly. The stages set to be frozen, and the norms set '
    'to be fixed, stay so whatever calls of train and eval follow; drop '
    'rates grow with depth as documented; building changes no setting it is '
    'given.',
    ['configurations', 'inputs'],
    'every choice in the small spaces listed, every setting of frozen stages '
    'and norms with every sequence of train and eval in the bound',
    'Tests run a backbone of default size once and compare shapes.',
    [A + 'backbones', A + 'ops', A + 'utils/set_dropout.py'],
    [('MobileNetV3', A + 'backbones/searchable_mobilenet_v3.py'),
     ('MobileNetV2', A + 'backbones/searchable_mobilenet_v2.py'),
     ('ShuffleNetV2', A + 'backbones/searchable_shufflenet_v2.py'),
     ('Autoformer', A + 'backbones/searchable_autoformer.py'),
     ('DARTS', A + 'backbones/darts_backbone.py'),
     ('WideResNet', A + 'backbones/wideresnet.py'),
     ('shortcut', A + 'ops/mobilenet_series.py')],
    'exhaustive enumeration of choices and settings on the real backbones '
    'against a functional reference',
    '7 MobileNetV3 spaces, 6 chain-like spaces, 2 Autoformers with up to '
    '64 subnets of each visited; DARTS networks of up to 6 cells; outputs '
    'agree to 1e-4.',
    'The references are written with functional convolutions and read the '
    'weights of the supernet, cut by hand to the choice. Every choice is set '
    'through the mutator. Two defects are recorded, not repaired: the last '
    'expand ratio of AttentiveMobileNetV3 is not searchable, and without '
    'attentive shortcuts blocks of unequal widths fail.')

prop(
    'P31', 'An exported quantized graph computes the fake-quantized model',
    'The graph which is exported for OpenVINO or TensorRT has the inputs and '
    'outputs of the symbolic graph and computes the same values: each fake '
    'quantizer becomes the backend\'s, with its range, number of levels, zero '
    'point and channels. Its nodes are listed after their inputs; nothing a '
    'result needs is removed, no unused constant and no padding by zero '
    'remains. A cyclic graph, and quantization TensorRT cannot run (other '
    'than 8 bits, a zero point), are refused. An exported model agrees with '
    'the fake-quantized PyTorch model it came from.',
    ['configurations', 'inputs'],
    'every graph built of the steps listed, in every form of its constants, '
    'for both backends; every directed graph and order of nodes; every net '
    'of a grammar',
    'Tests export one model and check that the file exists; with the '
    'installed PyTorch they fail before they get there.',
    ['mmrazor/models/quantizers'],
    [('OpenVINO', 'mmrazor/models/quantizers/exporters/'
      'openvino_quantize_exporter.py'),
     ('TensorRT', 'mmrazor/models/quantizers/exporters/'
      'tensorrt_quantize_exporter.py'),
     ('graph utilities', 'mmrazor/models/quantizers/exporters/'
      'optim_utils.py'),
     ('symbolic functions', 'mmrazor/models/quantizers/native_quantizer.py')],
    'exhaustive enumeration of graphs, run before and after by an '
    'interpreter, on the real exporters',
    'Sequences of up to 3 of 15 steps (4 thorough) in 5 forms of constants; '
    'all directed graphs of 3 nodes (4 thorough) in every order; nets of up '
    'to 2 blocks.',
    'The interpreter (numpy, double precision) also runs symbolic nodes. '
    'Scales are powers of 3 and 2 and values are offset so that nothing '
    'falls on a rounding tie; the input meets every level and both ends of '
    'the range. Neither backend is installed, so their own reading of the '
    'exported operators is taken from their documentation.')

# planted bugs: checks that report one, where not just its own property's,
# and what a check lacked that missed one at first
FOUND = {}
MISSED = {
    'p05-prob-order': 'candidates were all declared in alphabetical order',
    'p08-shared-children': 'no sequence held one layer at two positions',
    'p10-prefix-twice': 'no part repeated the prefix in its own name',
    'p17-constraint-cache': 'spaces had a single group, so no two subnets '
                            'gave equal choices to different groups',
    'p09-third-use': 'shared layers were used at most twice',
    'p13-param-suffix': "no parameter's name ended with another's",
    'p24-dw-dilation': 'layers checked alone had no dilation',
    'p20-carts-sorted': 'predictions were only compared with each other, '
                        'not with the fitted trees',
}

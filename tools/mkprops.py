"""Writes /verif/properties.jsonl (kept as a script so that the list stays easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=['src/sims_pars/' + f for f in files],
                               state=[dict(name=a, meaning=b, where='src/sims_pars/' + c) for a, b, c in state],
                               mechanism=[dict(name=a, where='src/sims_pars/' + b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

p('C01', 'A network is exactly what its definitions say',
  'After any history of accepted definitions and redefinitions, a Bayesian network holds exactly the variables that were defined or referred to (those never defined are exogenous), each variable carries its latest definition and description, and its incoming edges are exactly the variables that definition refers to. '
  'The graph is acyclic, and the order, roots, leaves, exogenous variables and random roots that the network reports (before and after it is completed) are those of this graph, every variable coming after its parents; it also tells which variables still depend on chance once some are given.',
  ['histories', 'inputs'], 'every sequence of definitions of value, function, distribution, pseudo and exogenous nodes, in any order, with redefinitions, completing and defrosting in between',
  'the tests build three fixed scripts once, in dependency order; redefinition, forward references and their interplay are never exercised',
  ['bayesnet/bn.py', 'bayesnet/loci.py', 'bayesnet/dag.py'],
  [('append_loci', 'bayesnet/bn.py'), ('complete / defrost', 'bayesnet/bn.py'), ('find_rv_roots, find_exo', 'bayesnet/bn.py')],
  ['BayesianNetwork.DAG edges', 'Order', 'Roots', 'Leaves', 'Exo', 'RVRoots', 'node definitions'],
  [('DAG', 'definitions and edges', 'bayesnet/bn.py')])
p('C02', 'A rejected definition leaves the network as it was',
  'A definition that is ill-formed or would close a cycle, and any definition offered to a completed network, is refused with an error, and afterwards the network has the same variables, definitions, descriptions, edges and completeness as before. '
  'A definition that is well-formed and closes no cycle is never refused by a network that is open.',
  ['histories', 'inputs'], 'every network state reachable by definitions, every definition offered to it',
  'one test asserts that one cyclic definition raises; nothing looks at the network after a refusal',
  ['bayesnet/bn.py', 'bayesnet/loci.py'],
  [('cycle check in append_loci', 'bayesnet/bn.py'), ('parse_loci', 'bayesnet/loci.py'), ('frozen graph', 'bayesnet/bn.py')],
  ['exceptions of append_from_definition / append_loci', 'network before and after'])
p('C03', 'Scripts, JSON, copies and clones reproduce a network',
  'Rebuilding a network from its own script or its own JSON document, copying it and cloning it all give a network with the same name (or the requested one), variables, definitions, parents, descriptions, node kinds and edges. '
  'The two networks are independent: changing one afterwards never changes the other, and producing the document does not change the source.',
  ['histories', 'inputs'], 'every network reachable by definitions, open or completed, every chain of round trips',
  'no test reads back a generated script or JSON document of more than one fixed network',
  ['bayesnet/bn.py', 'bayesnet/loci.py'],
  [('to_json / bayes_net_from_json', 'bayesnet/bn.py'), ('to_script / bayes_net_from_script', 'bayesnet/bn.py'), ('copy, clone', 'bayesnet/bn.py'), ('loci_from_json', 'bayesnet/loci.py')],
  ['to_json', 'to_script', 'copy', 'clone'])
p('C04', 'Merging and extending combine definitions without loss',
  'Merging network B into A gives a new open network in which every variable B really defines (not exogenous or pseudo there) has B\'s definition and every other variable has A\'s, variables still needed but defined by neither are exogenous, exogenous variables nobody uses are dropped, and A and B are unchanged. '
  'Extending B by A gives B completed, in which A\'s really defined variables override (or, without override, only fill the gaps of) B\'s, A\'s exogenous ones never displace a definition, and A is unchanged. '
  'In both cases the edges match the surviving definitions, and a combination without cycles is never refused.',
  ['inputs', 'histories'], 'every pair of networks over a shared set of variables, with overlapping and conflicting definitions, override on and off',
  'one test merges one pair of networks that differ in one node',
  ['bayesnet/bn.py'], [('merge', 'bayesnet/bn.py'), ('extend', 'bayesnet/bn.py'), ('__check_edges', 'bayesnet/bn.py')],
  ['BayesianNetwork.merge', 'BayesianNetwork.extend'])
p('C05', 'Graph queries answer by reachability',
  'On every acyclic graph: parents, children, ancestors, descendants, upstream, downstream and offsprings are the (unions of) direct and transitive relations; roots and leaves are the nodes without parents and without children; order and sort list nodes parents-first. '
  'The sufficient nodes of a target set under given nodes are the targets and everything that reaches them along paths not passing into a given node, the minimal nodes are these without the given ones, the minimal requirements of one target are its ancestors along such paths in order, and the minimal sub-graph of a set is the set plus every node between two of its members. '
  'Removing in- or out-edges, or the upstream or downstream side of nodes, removes exactly those; merging two graphs unites their nodes and edges, and a graph with a cycle is recognised as such. No query changes the graph.',
  ['inputs'], 'every directed acyclic graph, every target node or set, every set of given nodes (also nodes outside the graph), every pair of graphs',
  'the tests query one or two fixed graphs of four nodes',
  ['bayesnet/dag.py'], [('DAG methods', 'bayesnet/dag.py'), ('get_sufficient_nodes, get_minimal_nodes, minimal_requirements, minimal_dag', 'bayesnet/dag.py')],
  ['DAG methods', 'get_sufficient_nodes', 'get_minimal_nodes', 'minimal_requirements', 'minimal_dag', 'get_offsprings', 'merge_dag', 'check_acyclic'])
p('C06', 'Completing a distribution keeps its meaning',
  'Completing a distribution call gives a call of the same distribution in which every parameter is named exactly once: named arguments keep their expressions, positional arguments fill the remaining parameters in declaration order, and the rest take their declared defaults. '
  'Completing is idempotent, refers to the same variables as the original call, and both forms build distributions with the same parameters under every assignment, even when variables share names with distributions; unknown distributions are refused.',
  ['inputs'], 'every registered distribution (and user registered ones), every split of its arguments into positional, named and omitted, arbitrary argument expressions and variable names',
  'the tests complete a handful of calls and never with variables as arguments',
  ['factory/craftstation.py', 'prob.py', 'bayesnet/loci.py', 'util.py'],
  [('Atelier.complete_def', 'factory/craftstation.py'), ('Atelier.get_blueprint', 'factory/craftstation.py'), ('parse_function', 'util.py')],
  ['complete_function', 'parse_distribution', 'DistributionLoci.Func / Parents'])
p('C07', 'Definition lines are read as written',
  'A definition line yields a node of the kind its form says (name, name = constant, name = expression, name ~ distribution, name = f(...)), with the name and description written there; its parents are exactly the variables occurring in the expression, and never function names or keywords. '
  'Evaluating the node gives the value of the expression under ordinary arithmetic and the registered functions for the values of its parents alone, and a missing parent is an error, never a silent value. A call or expression read on its own keeps its name, its arguments in order and by name, and their values.',
  ['inputs'], 'every expression over numbers, variables, arithmetic, comparison, conditionals and logical words, calls (also user registered functions) and nesting, with arbitrary spacing and comments',
  'the tests read a few fixed lines',
  ['bayesnet/loci.py', 'util.py'], [('parse_loci', 'bayesnet/loci.py'), ('find_ast_parents, MathExpression.execute', 'util.py')],
  ['parse_loci', 'FunctionLoci.render', 'Parents', 'parse_math_expression', 'parse_function'])
p('C08', 'Sampling a network is ancestral sampling',
  'Sampling a network with given values returns exactly one value for every variable, plus the given ones unchanged; every variable not given is drawn or computed exactly once from its own definition using the returned values of its parents, after its parents. '
  'If an exogenous variable is not given, sampling is refused, and neither the network nor the given values are changed by sampling.',
  ['inputs', 'programs'], 'every network, every set and every values of given variables (roots, interior nodes, leaves, names outside the network)',
  'no test samples with given interior nodes or checks which parent values a draw used',
  ['fn.py', 'bayesnet/loci.py'], [('sample', 'fn.py'), ('Loci.render', 'bayesnet/loci.py')],
  ['sample', 'sample_chromosome'])
p('C09', 'Minimal sampling draws what is needed and nothing else',
  'Sampling only for some target variables evaluates exactly the variables that reach a target along paths not passing into a given variable, each once and from the returned values of its parents, and keeps the given values. '
  'The targets are returned apart from the mediators, only exogenous variables that are really needed have to be given, and a missing needed one is an error.',
  ['inputs', 'programs'], 'every network, every non-empty set of targets, every set of given values',
  'no test calls minimal sampling',
  ['fn.py', 'bayesnet/dag.py'], [('sample_minimally', 'fn.py'), ('get_sufficient_nodes', 'bayesnet/dag.py')],
  ['sample_minimally'])
p('C10', 'The log-probability of values is the sum over random nodes',
  'The log-probability of an assignment is the sum, over the random variables it contains, of the log-density of the variable\'s value under its own distribution with the assigned values of its parents; values, functions, exogenous variables and unknown names add nothing. '
  'It is minus infinity when a value is impossible or a distribution cannot exist for its parents\' values, and never an undefined number; a sampled or served chromosome carries the log-probability of its own values.',
  ['inputs', 'programs'], 'every network, every full or parent-closed partial assignment including impossible ones',
  'no test evaluates a probability of a network',
  ['fn.py', 'bayesnet/loci.py', 'prob.py'], [('evaluate_nodes', 'fn.py'), ('Loci.evaluate', 'bayesnet/loci.py')],
  ['evaluate_nodes', 'sample_chromosome(...).LogProb', 'DataModel.serve(...).LogProb', 'DataModel.evaluate_prior'])
p('C11', 'An intervention changes its target, what follows, and nothing else',
  'Intervening on a chromosome with a network sets the given values, redraws the variables marked for redrawing, and re-derives every held descendant of them from the current values of its parents in order, once; every other value, and variables it does not hold, stay as they were. '
  'Afterwards (and after any direct change of a value) its cached log-probability is either marked as not evaluated or right for its current values. '
  'Clones, copies and JSON images are equal to the source when made and never change with it.',
  ['histories', 'inputs'], 'every network, every sequence of interventions, assignments, clones and evaluations',
  'two tests intervene once on a chain and compare two numbers',
  ['bayesnet/chromosome.py', 'fit/base.py'], [('Chromosome.impulse', 'bayesnet/chromosome.py'), ('reset_probability', 'bayesnet/chromosome.py'), ('clone, to_json, from_json', 'bayesnet/chromosome.py')],
  ['Chromosome.impulse', 'LogProb / is_evaluated', 'clone', 'to_json / from_json', 'DataModel.evaluate_prior'],
  [('Locus', 'values by variable', 'bayesnet/chromosome.py'), ('LogProb', 'cached log-probability', 'bayesnet/chromosome.py')])
p('C12', 'Every variable finds its place in the group hierarchy',
  'Given a network and a tree of groups with variables declared fixed or floating, each declared fixed variable is fixed in its group or a group above, and everything it stands on is fixed at or above the same group, random ones only once along a branch (a value that is not random may be repeated where it is declared again). '
  'A variable declared floating is offered as a sampler in its group unless the fixed variables already determine it, in which case it is fixed; no variable both fixed and floating in one group; everything needed to determine a group\'s variables is found in it or above it. '
  'Variables that no declaration involves are still offered wherever their parents are available, and declaring a floating variable above a fixed one of the same group is refused. '
  'The ready-made simulation cores fix everything, or float everything that chance has an influence on, and the free parameters of a core are the random roots its own group fixes.',
  ['inputs', 'configurations'], 'every network and group tree, every consistent declaration of fixed and floating variables',
  'four tests allocate one network of four variables in one or two groups',
  ['simulation/nodeset.py'], [('NodeSet.inject_bn', 'simulation/nodeset.py')],
  ['SimulationGroup Fixed/Floating/Exogenous', 'as_simulation_core', 'get_all_float_sc', 'get_all_fixed_sc', 'find_free_parameters', 'list_actors'])
p('C13', 'Parameter cores are consistent with their ancestors',
  'In every core generated from a simulation core, or bred at any depth, each variable fixed in its group has exactly one value, which is the supplied one or else drawn or computed once from the values visible to that core, and looking a variable up gives the nearest value on the way to the root. '
  'Hence all values visible in a core agree with each other, breeding never changes a parent or a sibling, unknown groups and duplicated names are refused, and the core\'s log-probability is that of its own fixed variables.',
  ['histories', 'configurations'], 'every network, group tree, supplied values and sequence of breeding',
  'one test breeds one chain of three deterministic cores',
  ['simulation/simugroup.py', 'simulation/parcore.py', 'simulation/simucore.py'], [('SimulationGroup.generate', 'simulation/simugroup.py'), ('ParameterCore.breed, __getitem__', 'simulation/parcore.py')],
  ['SimulationCore.generate', 'ParameterCore.breed', 'get_prototype', 'get_sibling', 'find_descendant'])
p('C14', 'Samplers draw from the conditional given the core',
  'A sampler of a floating variable taken from a core, shared or local, gives a fresh value of that variable at each call: parents that are visible in the core enter with the values the core currently shows, and those that are not are drawn afresh, each once per call and consistently along every path. '
  'Sampling never changes the core, and asking for several values gives that many independent ones.',
  ['histories', 'configurations'], 'every network, group tree, core, floating variable, shared or local sampler, before and after interventions',
  'the actor tests build single actors by hand and check one expectation each',
  ['simulation/actor.py', 'simulation/nodeset.py', 'simulation/simugroup.py', 'simulation/parcore.py'],
  [('FrozenSingleActor, SingleActor, CompoundActor', 'simulation/actor.py'), ('_define_sampler_blueprints', 'simulation/nodeset.py')],
  ['get_sampler(s)', 'Sampler()', 'Sampler.sample(n)', 'get_child_samplers'])
p('C15', 'An intervention on a core reaches exactly its descendants',
  'Intervening on a core sets the given variables wherever they are fixed in that core or the cores below, re-derives in each of these cores every held variable that follows from them, consistently with the new values, and refreshes the samplers that depend on them, including ones handed out before. '
  'Everything else keeps its value, cores above and beside are untouched, and the log-probability of each affected core is that of its new values or marked unevaluated.',
  ['histories', 'configurations'], 'every network, group tree, tree of cores, and sequence of interventions with values, redraws or lists of variables at any level',
  'one test intervenes twice on a deterministic chain',
  ['simulation/parcore.py', 'simulation/simugroup.py'], [('ParameterCore.impulse, __set_response', 'simulation/parcore.py'), ('SimulationGroup.set_response', 'simulation/simugroup.py')],
  ['ParameterCore.impulse', 'values and samplers of all cores'])
p('C16', 'Cloned, duplicated and detached cores stand alone',
  'Cloning a root core (with or without its simulation core, with or without its children) gives a core tree with the same groups, names, values and log-probabilities; afterwards intervening on either tree never changes the other. '
  'A duplicate is a sibling with the same fixed values; a core detached with its parents\' values keeps every value and sampler it could see, its own values first, and no longer follows its former parent.',
  ['histories', 'configurations'], 'every network, group tree, tree of cores, and sequence of clone, duplicate, detach and interventions',
  'one test clones one chain of three cores',
  ['simulation/parcore.py', 'simulation/simucore.py'], [('ParameterCore.clone, duplicate, detach_from_parent', 'simulation/parcore.py')],
  ['clone', 'duplicate', 'detach_from_parent', 'remove_children', 'reset_sc'])
p('C17', 'A monitor records every step once, in order',
  'Stepping a monitor to a later time stores exactly one record, holding the time being left and the latest value of everything kept since the previous step, and opens an empty one; stepping to the current time stores nothing and stepping backwards is refused without effect. '
  'The stored records never change afterwards except by a reset, and the table of trajectories shows exactly them, values that are missing or undefined included.',
  ['histories'], 'every sequence of keep, step (with and without a time), reset and failed steps',
  'two tests make one or two steps',
  ['monitor.py'], [('Monitor.step / keep / reset', 'monitor.py')],
  ['Monitor.Records', 'Monitor.Time', 'Monitor[...]', 'Trajectories'],
  [('Records', 'closed records', 'monitor.py'), ('Last', 'open record', 'monitor.py')])
p('C18', 'A data model keeps exogenous values and sums its distances',
  'Every parameter set a data model samples or serves holds a value for every variable, the exogenous parameters at their fixed values and, when served, the requested values of the other given variables. '
  'The distance (and likelihood) of a particle is the sum over all data targets of the target\'s own distance for that particle\'s simulated output, computed once and then remembered; flattening lists the values of the domain\'s variables in its order and the outputs named by the data. '
  'The domain has one entry for each random root with the bounds of its distribution, and the free parameters are the random roots that are not exogenous and take real values.',
  ['inputs', 'programs'], 'every network, exogenous assignment, set of targets and simulated output',
  'no test touches the fitting package',
  ['fit/base.py'], [('DataModel', 'fit/base.py')],
  ['DataModel.serve, sample_prior, calc_distance, calc_likelihood, flatten, Domain, FreeParameters'])
p('C19', 'Rejection ABC only accepts simulations within its threshold',
  'The threshold found by approximate Bayesian computation is the requested (interpolated) quantile of the distances of the requested number of finite test simulations of the prior, and the posterior consists of exactly the requested number of particles. '
  'Each of them is a simulation of a parameter set drawn from the prior whose distance is within the threshold, the first such one of its run, and the acceptance reported is accepted over tried; serial and parallel runs obey the same rules.',
  ['histories', 'inputs'], 'every sequence of simulated distances (finite, infinite, undefined, tied), sample sizes and quantiles, serial or parallel',
  'no test runs the algorithm',
  ['fit/abcom/alg.py', 'fit/base.py'], [('sample_fin, sample_ess', 'fit/abcom/alg.py'), ('ApproxBayesCom', 'fit/abcom/alg.py')],
  ['ApproxBayesCom.fit', 'sample_posteriors', 'Notes'])
p('C20', 'ABC-SMC moves down thresholds with a sound population',
  'Over the rounds of sequential ABC the threshold never rises, the population keeps its size, weights are non-negative and sum to one, and every particle with positive weight has a distance within the current threshold and is a simulation of its own parameters. '
  'A particle is replaced only by a mutation possible under the prior and within the threshold; the run stops exactly when the round limit, the stay limit (after three rounds) or the minimal acceptance is met; one record per round is kept. '
  'Given parents, every first particle carries the values of one of them, drawn among all. The next threshold is the quantile of the particles\' distances, at alpha times the share of particles within the current one, unless that would raise it; weights restart as equal, over members drawn among those of positive weight, when the effective size falls below the configured share and else stay with their particles; the run breaks off only when at most two weighted particles are left. '
  'The posterior has the requested size and only holds particles within the threshold: accepted mutations, else the particles they started from.',
  ['histories', 'inputs'], 'every sequence of simulated distances (also tied, infinite or invalid proposals), population sizes and settings, serial or parallel',
  'no test runs the algorithm',
  ['fit/abc_smc/alg.py', 'fit/base.py'], [('_a_round, update_wts, resample, mcmc_proposal', 'fit/abc_smc/alg.py'), ('_check_termination', 'fit/abc_smc/alg.py')],
  ['ApproxBayesComSMC.State after each round', 'Monitor.Trajectories', 'sample_posteriors'],
  [('Eps, Wts, Particles, Round, Stay', 'state of a round', 'fit/abc_smc/alg.py')])
p('C21', 'History matching narrows plausible bounds wave by wave',
  'Each wave of history matching simulates the requested number of parameter sets inside the current bounds, trains every emulator on them, keeps exactly the emulated candidates whose implausibility is within the larger of the cut-off and the quantile of the minimal acceptance, and takes their range as the next bounds, which lie within the previous ones. '
  'The implausibility of a candidate is the largest over the targets, the configured number of waves is run, every simulation gets a full parameter set, and the posterior is drawn inside the final bounds, which are reported on the scale of the parameters together with the cut-off used, the share kept and the mean squared error of the emulators.',
  ['histories', 'inputs'], 'every sequence of emulated means and variances (also tied), bounds, sizes and settings',
  'no test runs the algorithm',
  ['fit/hme/alg.py', 'fit/converter.py'], [('_a_wave, _simulate, _emulate, _keep_plausible', 'fit/hme/alg.py'), ('Matchers.eval_implausibility', 'fit/hme/alg.py')],
  ['BayesHistoryMatching.State after each wave', 'sample_posteriors'],
  [('Bounds, CutOff, Acc, Wave', 'state of a wave', 'fit/hme/alg.py')])
p('C22', 'Converters map the unit interval one-to-one onto a domain',
  'For every domain, bounded or unbounded on either side, the converter chosen for it maps the unit interval onto the domain, increasing and within its bounds, with the ends of the interval going to the bounds, and converting a value back gives the number it came from.',
  ['inputs'], 'every domain (four shapes of bounds, any location and scale), every number in the unit interval and every value in the domain',
  'no test uses the converters',
  ['fit/converter.py'], [('get_converter', 'fit/converter.py')],
  ['uniform2value', 'value2uniform'])
p('C23', 'Particles and parameter sets keep what was put in',
  'A particle written to JSON and read back has the same parameters with the same log-probability, the same simulated output and the same notes; a copy has its own parameters and keeps its inputs and outputs but not its cached distance or likelihood. '
  'A parameter set lists its particles in the order they were added, with one row per particle in its parameter and prediction tables and in its JSON document, and keeps its notes by name.',
  ['inputs', 'histories'], 'every particle and every sequence of additions, notes, copies and exports',
  'no test touches these classes',
  ['fit/base.py', 'fit/results.py'], [('Particle.to_json / from_json / copy', 'fit/base.py'), ('ParameterSet', 'fit/results.py')],
  ['Particle', 'ParameterSet'])
p('C24', 'Genetic operators only recombine, move and pick what is there',
  'Crossover gives two parameter sets over the domain: shuffling hands each parameter\'s two values to the two children, one each, and averaging gives both the mean. '
  'Mutation proposes a value strictly inside the bounds of every parameter. '
  'Selection returns as many members as it was given, each an independent clone of a member with a finite likelihood: tournament selection returns the best of its randomly drawn candidates, importance selection never a member of zero weight; and no operator changes the population it was given.',
  ['inputs'], 'every population, domain, tie and non-finite pattern, tournament size and random choice',
  'no test touches the operators',
  ['fit/ga/cross.py', 'fit/ga/mutate.py', 'fit/ga/select.py'], [('ShuffleCrossover, AverageCrossover', 'fit/ga/cross.py'), ('RwMutator', 'fit/ga/mutate.py'), ('TourSelection, ImpSelection', 'fit/ga/select.py')],
  ['get_crossover', 'get_mutator', 'get_selector'])
p('C25', 'Weighted resampling only returns members with positive weight',
  'Resampling a weighted population returns the requested number (by default the original number) of members, each with finite weight that is positive (on the log scale: not minus infinity), with its own companion parameters when these are given, drawn in proportion to the weights, together with the log of the mean weight over the new size. '
  'Negative weights on the plain scale are refused, and the population and the weights passed in are not changed.',
  ['inputs'], 'every list of weights (plain or log, with infinite and undefined entries and large offsets), sizes, with and without companions',
  'one test resamples one list of four weights',
  ['util.py'], [('resample', 'util.py')],
  ['resample'])
p('C26', 'Distributions stay within their stated support and moments',
  'Every built-in distribution draws as many values as asked, independently of each other, all within its stated bounds and of its stated type; its mean, spread and bounds follow from its parameters by their usual meaning (rates are rates, shapes are shapes; lnorm takes the log-scale mean and spread as the existing tests fix it), and the average of its draws tends to its mean. '
  'Its log-density is minus infinity outside the support and finite inside it, it integrates (over a finite support: sums) to one, categories are drawn in proportion to their weights, and invalid parameters are refused. A distribution tells the definition and parameters it was made from.',
  ['inputs'], 'every built-in distribution and every admissible or inadmissible parameter combination',
  'one test per distribution checks the mean for one parameter choice',
  ['prob.py'], [('AbsDistribution subclasses', 'prob.py'), ('Cre* creators', 'prob.py')],
  ['parse_distribution(...).sample / logpdf / mean / std / Upper / Lower / Type'])
p('C27', 'Registries give back what was registered',
  'Asking twice for a workshop by name gives the same one and different names give different ones; a workshop knows exactly the creators registered with it, the latest under each name, and builds products from the arguments given and the declared defaults. '
  'Functions registered for expressions or data are usable in every definition from then on, and registering or building never changes other entries.',
  ['histories'], 'every sequence of registering, looking up, listing and building over several workshops',
  'no test registers anything',
  ['factory/__init__.py', 'factory/craftstation.py', 'util.py'], [('get_atelier', 'factory/__init__.py'), ('Atelier.register / create / list', 'factory/craftstation.py'), ('add_math_func, add_data_func', 'util.py')],
  ['get_atelier', 'Atelier', 'add_math_func', 'add_data_func'])
p('C28', 'Targets measure how far a simulation is from the data',
  'Reading a dictionary of targets gives one target for each entry, of the kind its form says (number: relative error; mean with range; mean with error; distribution), under its own name, and refuses other forms and ranges that do not enclose their mean. '
  'The distance of a point or range target is zero exactly when the simulated value equals the data, grows with the absolute deviation, is the same on both sides, scales inversely with the stated error, and in proportion when data, error and simulation are expressed in another unit; the distance of a distribution target is the negative of its log-density. '
  'A target reports the mean it was given and a variance that scales with the square of the stated error or range.',
  ['inputs'], 'every dictionary of targets with non-zero error and every simulated value',
  'no test reads targets',
  ['fit/targets/__init__.py', 'fit/targets/single.py', 'fit/targets/base.py'], [('read_targets', 'fit/targets/__init__.py'), ('calc_distance', 'fit/targets/single.py')],
  ['read_targets', 'calc_distance', 'ev'])

p('C29', 'Data tables answer with what they hold',
  'A series over time (one value, several, probabilities, or mortality rates by age) answers with its nearest row, or with the straight line between the two neighbouring rows where that was asked for, and beyond its ends with its earliest or latest row, in whatever order the rows were given. '
  'A conditional probability table draws exactly the combinations it holds, in proportion to their probabilities and never one without probability; conditioning keeps the rows which agree and drops the known columns (on a value that no row has it leaves nothing to draw), marginalising adds up the rows which become the same, in any order and number of steps, and neither changes the table it starts from or the data frame of the user. '
  'A transition matrix moves from each current state in proportion to the row of that state, once for each state asked, and refuses a state it does not know. '
  '(Labels of one type, without the separator ":", every combination at most once.)',
  ['inputs', 'histories'], 'every table, order of rows, time asked, history of conditioning and marginalising, and list of current states',
  'no test touches the data package',
  ['data/timeseries.py', 'data/static.py', 'data/frame.py'], [('TimeSeries, TimeSeriesVector, TimeSeriesProbabilityTable, LeeCarter', 'data/timeseries.py'), ('ConditionalProbabilityTable, TransitionMatrix', 'data/static.py')],
  ['ConditionalProbabilityTable.condition / marginalise / sample', 'TransitionMatrix.sample', 'TimeSeries(t)'])
p('C30', 'Regressions predict from their linear combination',
  'The expectation of a regression is its intercept plus the effects of its regressors (a switch, a multiple, or one of several levels), through the identity, the logistic or the exponential; describing the regressors as JSON and reading them back keeps it. '
  'The sampler and the predictions have that expectation and stay in its support; a multinomial regression gives more probability to a class with a larger predictor, and its probabilities sum to one. '
  'A waiting time has the stated cumulative hazard, which its inverse undoes; its mean, spread, density and draws follow from the cumulative hazard times the risk ratio, with zero drawn in the stated proportion where it is inflated; a Cox regression uses the exponential of its linear combination as risk ratio; an unknown or incomplete baseline, a level out of range, a missing value and an unknown reference are refused, and the descriptions passed in are not changed.',
  ['inputs'], 'every set of regressors and values, baseline hazard, risk ratio and zero inflation',
  'no test touches the data package',
  ['data/reg/linear.py', 'data/reg/glm.py', 'data/reg/hazard.py', 'data/reg/survival.py'],
  [('LinearCombination.predict', 'data/reg/linear.py'), ('LogisticRegression, PoissonRegression, MultinomialLogisticRegression', 'data/reg/glm.py'), ('Hazard, HazardDistribution', 'data/reg/hazard.py'), ('CoxRegression', 'data/reg/survival.py')],
  ['expectation', 'predict', 'get_sampler', 'HazardDistribution.sample / logpdf / mean / std'])

p('C31', 'Every fit starts afresh with the settings given',
  'The settings of a fitter are its defaults with the last value given for each known name (when it was made, updated or asked to fit) in their place; unknown names are ignored, fitting changes no setting of the user, and no fitter changes another. '
  'A fit attaches its model, collects into a new set, runs its phases in order once, and comes to what a new fitter with the same settings and random numbers would come to, whatever was fitted, or failed, before; its trace holds the rounds of this fit alone. '
  'Sampling a posterior leaves the state as it is and depends on the last fit only; when there is none, or the last one failed before it had begun, it is refused.',
  ['histories'], 'every sequence of making, updating, attaching, fitting (also failing), sampling and closing, over several fitters and models',
  'the tests fit one new fitter once',
  ['fit/base.py', 'fit/abcom/alg.py', 'fit/abc_smc/alg.py', 'fit/hme/alg.py'],
  [('Fitter.fit, update_settings, attach, close', 'fit/base.py'), ('initialise, update, sample_posteriors of the fitters', 'fit/abc_smc/alg.py')],
  ['Fitter.Settings', 'Fitter.State', 'Monitor.Records', 'fit', 'update_settings', 'attach / close', 'sample_posteriors'],
  [('Settings', 'settings by name', 'fit/base.py'), ('Model, State, Collector', 'what is attached and what the last fit came to', 'fit/base.py'), ('Monitor', 'the trace of the rounds', 'monitor.py')])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))

WHY_NOT = {}
NOTES = {
 'bayesnet': ('TLA+ model checking (TLC), replay of TLC-generated histories, trace validation',
   'Design: exhaustive for 2-3 names. Conformance: every history of definitions of the stated length and every network over 2 names (sampled over 3) is replayed on the real code and each step validated against the specification; plus seeded random histories. Trusts TLC and the projection through the public interface.'),
}
NOTES.update({
 'dag': ('TLA+ model checking (TLC), exhaustive replay over small graphs, trace validation',
   'Design: exhaustive over all acyclic graphs of 3-4 names. Conformance: all graphs over 3 names and all node sets, sampled larger graphs; every answer of the graph functions is judged by the specification.'),
 'factory': ('TLA+ model checking (TLC), replay of TLC-generated calls and expressions, trace validation',
   'Every admissible call and every expression of the stated depth is generated by TLC and replayed; random deeper ones in addition. Values compared as exact rationals. Trusts the reader of Python syntax (ast) used to project printed calls.'),
 'sampling': ('TLA+ model checking (TLC), exhaustive replay over small networks, trace validation',
   'Design: exhaustive for 3 names and all kinds, 4 names for random nodes. Conformance: harness distributions and functions make every evaluation visible with the values of its parents, so evaluation order, provenance and frame conditions are decided exactly. Trusts TLC and the harness distribution.'),
})
NOTES.update({
 'alloc': ('TLA+ model checking (TLC), enumeration of declarations, trace validation',
   'Design: the reference allocation meets the conditions for every network over 2 names (3 thorough), trees up to 3 groups, every declaration. Conformance: enumerated and random declarations; conditions on the outcome, not on the algorithm.'),
 'simcore': ('TLA+ model checking (TLC), trace validation of random histories of parameter cores',
   'Design: bounded numbers of cores and actions over 2-3 variables. Conformance: random histories over random networks and group trees; harness distributions make each draw visible with its parents values, so staleness and order are decided exactly. Well-formed interventions only (targets not fixed above).'),
})
NOTES.update({
 'monitor': ('TLA+ model checking (TLC), replay of TLC-generated histories, trace validation',
   'Design: every history of up to 3 (thorough 5) actions on two monitors. Conformance: those histories and random longer ones replayed; records, tables and saved files compared after every action. Trusts pandas and csv as readers.'),
 'datamodel': ('TLA+ model checking (TLC), trace validation of data models over random networks',
   'Design: enumerated interplays of prior, restrictions, exogenous values and simulator. Conformance: data models built over random networks with distributions whose draws are visible; every served particle judged by the specification.'),
})
NOTES.update({
 'numeric': ('TLA+ model checking (TLC), replay of TLC-generated or seeded inputs, trace validation with exact rational oracles',
   'The specification states moments, bounds, order and proportions as exact rationals; the driver records the real answers in fixed point or by rank. Density, average and proportion clauses are numerical within the stated tolerance (six standard deviations for anything random, with fixed seeds).'),
})
NOTES.update({
 'fit': ('TLA+ model checking (TLC), trace validation of complete runs of the fitting algorithms',
   'Design: rejection and sequential sampling as transition systems over small particle sets, exhaustively. Conformance: complete runs of the real fitters over networks and data models with recorded simulators; the runs after 1, 2, ... rounds with the same seed give every intermediate state, and each step is judged by the specification. Where the runs cannot be reproduced (processes) only the clauses about the outcome are judged.'),
 'hme': ('TLA+ model checking (TLC), trace validation of complete runs of history matching',
   'Design: waves over small grids, exhaustively. Conformance: complete runs with a stand-in for the absent gpflow library, so that the emulator module of the repository itself is exercised; what is simulated, learned, predicted and discarded in each wave is recorded and judged.'),
 'ga': ('TLA+ model checking (TLC), trace validation of operators and of generations',
   'Design: selection, crossover and mutation over small populations, exhaustively. Conformance: random populations through every registered operator; membership, provenance, bounds and proportions judged by the specification (six standard deviations, fixed seeds).'),
})
NOTES.update({
 'data': ('TLA+ model checking (TLC), replay of TLC-generated histories, trace validation with exact rational oracles',
   'Design: sparse tables over three indices under every history of conditioning and marginalising of the stated length, series of few rows, laws between the definitions of hazards and predictors. Conformance: those histories and random ones replayed with all tables looked at again after every step; answers on logistic and exponential scales are read back on the scale of the linear predictor. Frequencies and averages within six standard deviations, fixed seeds.'),
})
NOTES.update({
 'fitter': ('TLA+ model checking (TLC), replay of TLC-generated histories, trace validation',
   'Design: every history of 3 (thorough 4) actions on two fitters. Conformance: histories replayed and random longer ones over the rejection, sequential and history-matching fitters and one of a user; what a fit comes to is compared with new fitters under the same random numbers (skipped where two new fitters differ), for history matching the numbers of simulations and waves. Stand-in for gpflow as in C21.'),
})

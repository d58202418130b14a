"""The properties: text of properties.jsonl and of the manifest."""
PROPS = []
NOT_APPLICABLE = {}


def prop(id, title, statement, over, quantifier, why, files, mechanism, observe, technique, note=''):
    PROPS.append({'id': id, 'title': title, 'statement': statement, 'over': over, 'quantifier': quantifier, 'why': why,
                  'files': files, 'mechanism': mechanism, 'observe': observe, 'technique': technique, 'note': note})


CH, RE, SP = 'plaschem/chemistry.py', 'plaschem/reactions.py', 'plaschem/species.py'
XM, CL, PP, LA = 'plaschem/xml_inputs.py', 'plaschem/classification.py', 'plaschem/pretty_print.py', 'plaschem/latex.py'
GM, RS, CF = 'pygmo_fwork/global_model.py', 'pygmo_fwork/results.py', 'pygmo_fwork/config.py'
EQ, MO, MP, NM = ('pygmo_fwork/pygmol/' + n for n in ('equations.py', 'model.py', 'model_parameters.py', 'neutral_model.py'))
ER, GR, MR, RD = ('pygmo_fwork/optichem/' + n for n in ('errors.py', 'graph.py', 'morris.py', 'reduction.py'))

prop('P01', 'Disabling leaves exactly the greatest self-consistent sub-network',
     'After any sequence of disabling and resetting, the species and reactions still active are exactly the greatest '
     'self-consistent subset of what was not disabled explicitly: every active species takes part in at least one active '
     'reaction, every active reaction has only active species, and nothing else is removed. Each disabled species or '
     'reaction is reported as such, the original numbering is kept, and a reset restores the whole chemistry.',
     ['histories', 'inputs'],
     'For every chemistry and every sequence of disable, protect and reset calls, in whatever way the species and '
     'reactions are named (id, name, object).',
     'The tests disable a few species of one fixed chemistry and compare sets written by hand; cascades through '
     'arbitrary networks and repeated calls are not reached (one of them fails for an unrelated reason).',
     [CH], [('recursive disabling', CH + ': Chemistry.disable'), ('reset', CH + ': Chemistry.reset')],
     ['get_species', 'get_reactions', 'get_disabled_species', 'get_disabled_reactions'],
     'runtime monitor: lockstep fixpoint reference over random call histories')

prop('P02', 'A refused change of a chemistry leaves it exactly as it was',
     'A request which would remove a protected species, the last positive ion or otherwise leave an inconsistent '
     'chemistry, or which names something unknown or unsupported, is refused with the documented exception and leaves '
     'every observable of the chemistry as it was before the call. Species declared protected stay active through any '
     'history of accepted calls.',
     ['histories', 'inputs', 'fault_sequences'],
     'For every chemistry in every reachable state, and every call which has to be refused, including those which only '
     'become impossible after a cascade of removals.',
     'The tests check that a handful of bad calls raise, not that nothing has changed afterwards nor that it happens '
     'in states reached by longer histories.',
     [CH], [('disable with protected species', CH + ': Chemistry.disable, set_protected_species'),
            ('ad-hoc attributes', CH + ': Chemistry.set_adhoc_species_attributes, set_adhoc_reactions_attributes')],
     ['all public getters of the chemistry before and after the refused call'],
     'runtime monitor: full state snapshots around injected bad calls')

prop('P03', 'All views of a chemistry agree, in every state',
     'All vectors, matrices and tables a chemistry hands out (names, charges, masses, Arrhenius parameters, sticking and '
     'return coefficients, stoichiometric coefficients, return matrix, attribute tables) have the same order and labels, '
     'follow the same filters for disabled parts, and hold the values of the species and reactions they are made of, '
     'with ad-hoc values taking precedence. Stoichiometric views agree with each other and with the reactions.',
     ['inputs', 'histories'],
     'For every chemistry, in every state reached by disabling and ad-hoc changes, under every combination of the '
     'filters the views accept.',
     'The tests compare single views of one chemistry mostly in its initial state.',
     [CH, RE, SP], [('masks and getters', CH + ': get_species_mask ... get_return_matrix, species_attributes')],
     ['every getter and attribute table of the chemistry'],
     'runtime monitor: every view against a reference kept alongside the history')

prop('P04', 'Dumped chemistry attributes restore the state; incoherent ones are refused',
     'Loading what a chemistry dumped makes any instance of the same chemistry equal to the dumping one in everything '
     'observable, whatever its state before, and both are then reported coherent. A file which is truncated, incomplete '
     'or belongs to another input file is refused with the documented exception, and instances in different states are '
     'reported as not coherent.',
     ['histories', 'fault_sequences', 'inputs'],
     'For every state reached by any history, loaded into an instance in any other state, whole or damaged at any byte.',
     'The tests dump and load a single state, whole, into a fresh instance.',
     [CH], [('dump, load and coherence', CH + ': dump_chemistry_attributes, load_chemistry_attributes, check_coherence, xml_hash')],
     ['the dumped file', 'all public getters after loading', 'exceptions'],
     'runtime monitor: dump/load round trips with injected truncation and damage')

prop('P05', 'Copies and returned values are isolated',
     'A copy of a chemistry equals the original in everything observable and is of the same kind, and from then on no '
     'change of one is ever seen in the other. Nothing a getter hands out, nor anything passed in, can be used to change '
     'the chemistry later.',
     ['histories', 'inputs'],
     'For every state, every pair of independent histories after the copy, and every value handed out.',
     'The tests copy one chemistry and look at a few attributes; aliasing shows only under later writes to particular '
     'values.',
     [CH], [('copy', CH + ': Chemistry.copy'), ('getters', CH)],
     ['all public getters of both copies after each step'],
     'runtime monitor: divergent histories and overwritten return values')

prop('P06', 'Ad-hoc values change exactly what they override, until reset',
     'Overriding attributes of species or reactions changes exactly those values, in the units documented, '
     'in every view of the chemistry, and neither the species and reactions themselves nor any other value. A later '
     'override replaces the earlier one, a reset restores the original values, and disabled parts keep their overrides.',
     ['histories', 'inputs'],
     'For every sequence of overrides and resets of any subset of attributes, given in any accepted number type and '
     'naming of the species and reactions, including reactions given in other units.',
     'The tests override a few values of a fixed chemistry once.',
     [CH, RE], [('ad-hoc attributes', CH + ': set_adhoc_*_attributes, reset_adhoc_*_attributes')],
     ['getters and attribute tables of the chemistry', 'values of its species and reactions'],
     'runtime monitor: lockstep reference of override histories')

prop('P07', 'Chemistry input files: what is built in is what is read back',
     'A chemistry written through the builder, in any of the offered ways, is read back with the same species and '
     'reactions, in the same order, with the same values, units and ids; writing, reading and writing again gives the '
     'same file. Sorting and assigning ids only reorders and renumbers, and an existing file is not overwritten unless '
     'asked for.',
     ['inputs', 'histories'],
     'For every chemistry built from attributes, instances, other chemistries or files, with every attribute type, '
     'explicit unit and special character.',
     'The tests build a few elements and compare strings; complete round trips of arbitrary chemistries are not made.',
     [XM, SP, RE], [('builder', XM + ': XmlBuilder'), ('parser', XM + ': XmlParser')],
     ['the written file', 'the parsed species and reactions'],
     'runtime monitor: build/parse round trips against the specification built from')

prop('P08', 'Accepted reactions conserve charge and atoms; stoichiometry is what is written',
     'A reaction is accepted exactly if charge and every element are conserved between its two sides (an unspecified '
     'collision partner and electrons counted as documented) and is otherwise refused with the documented exception. '
     'All its stoichiometric views, strings and sets of members agree with the two lists it was made of.',
     ['inputs'],
     'For every pair of lists of reactants and products over every set of species.',
     'The tests try single reactions.',
     [RE], [('consistency', RE + ': Reaction.assert_consistency'), ('stoichiometry', RE + ': Reaction.get_stoich_coefs')],
     ['construction or exception', 'stoichiometric coefficients and strings of the reaction'],
     'runtime monitor: random reactions against independent balance')

prop('P09', 'Species and reactions have the documented values; anything illegal is refused',
     'Species and reactions report the values given in the units asked for, or the documented defaults, and the rate '
     'coefficient follows from the Arrhenius parameters by the documented formula at every temperature. Any value, type, '
     'unit or combination that is not allowed is refused with the documented exception, at construction or later, and a '
     'refused later change alters nothing.',
     ['inputs'],
     'For every accepted value, type and unit of each attribute, and every single illegal deviation.',
     'The tests use fixed examples of both.',
     [SP, RE], [('species attributes', SP + ': RP'), ('reaction attributes', RE + ': Reaction')],
     ['getters in all units', 'exceptions', 'get_rate_coefficient'],
     'runtime monitor: random attributes and single-fault injection')

prop('P10', 'Every reaction falls in exactly the documented class; sorting only permutes',
     'Each reaction is assigned to exactly one class, the one documented for its reactants and products, whatever the '
     'order of its members, of the reactions or of the species. Sorting permutes species and reactions into the '
     'documented order without losing, adding or changing any, and aligned reaction strings contain exactly the members '
     'of the reaction.',
     ['inputs', 'histories'],
     'For every chemistry and every sequence of sorting, aligning and exchange of the classified chemistry.',
     'The tests check one chemistry against one stored list.',
     [CL], [('classification', CL + ': ReactionClassifier._classify'), ('sorting', CL + ': sort_species, sort_reactions')],
     ['get_classified_reactions', 'sorted lists', 'aligned strings'],
     'runtime monitor: classes recomputed from the documentation, permutation invariance')

prop('P11', 'Volumetric processes conserve charge and atoms',
     'In every state of the plasma, the production and loss of species by volume reactions, as the model computes it, '
     'conserves every element and the total charge including electrons, in total and reaction by reaction.',
     ['inputs', 'histories'],
     'For every chemistry, every part of it disabled or overridden, and every state of densities and electron energy.',
     'The tests evaluate the source terms in a single state of one chemistry against stored numbers.',
     [EQ, CH], [('volumetric source rates', EQ + ': Equations.get_volumetric_source_rates'), ('stoichiometric matrix', CH + ': get_stoichiomatrix')],
     ['rates of change reported by the model in random states'],
     'runtime monitor: conservation of elements and charge on executions')

prop('P12', 'The right-hand side of the global model is the documented one',
     'In every state and at every time, the rates of change of the densities and of the electron energy that the model '
     'integrates are those of the documented equations: reactions, flow and pressure regulation, diffusion to and '
     'return from walls, absorbed power, and the energy lost by electrons in the volume and at walls.',
     ['inputs', 'configurations', 'histories'],
     'For every chemistry, model parameters (including stepped power) and state, including states with trace species '
     'and densities below the minimum.',
     'The tests compare a single state of one chemistry with stored numbers.',
     [EQ], [('equations', EQ + ': Equations'), ('documented model', 'pygmo_fwork/pygmol/documentation/pygmol_doc_content.tex')],
     ['the objective functions and the partial quantities of the equations'],
     'runtime monitor: every evaluation against scalar reference equations')

prop('P13', 'Evaluating the equations has no memory and no side effects',
     'The rates of change and every partial quantity depend only on the chemistry and parameters the equations were '
     'built for and on the time and state passed, never on evaluations made before or in between, and evaluating them '
     'changes nothing that was passed in.',
     ['schedules', 'histories'],
     'For every interleaving of evaluations of several equation sets in several states and at several times.',
     'The tests evaluate each quantity once on a fresh object.',
     [EQ], [('equations', EQ + ': Equations.get_objective_functions')],
     ['results of interleaved evaluations', 'inputs after the evaluation'],
     'runtime monitor: interleaved evaluations compared bit by bit with fresh ones')

prop('P14', 'The model does not depend on how the chemistry is written down',
     'Reordering species and reactions, renumbering them or giving the same values in other units changes no model '
     'quantity of any species or reaction beyond rounding. A chemistry with disabled parts gives the same model as one '
     'written without those parts.',
     ['inputs', 'histories'],
     'For every chemistry, every permutation, numbering and unit, every history of disabling, and every state.',
     'The tests never compare two descriptions of one chemistry.',
     [EQ, CH, MO], [('order of species in the model', MO + ': Model'), ('masks', CH + ': get_species_mask, get_reactions_mask')],
     ['model quantities by species name and reaction string'],
     'runtime monitor: metamorphic comparison of equivalent chemistries')

prop('P15', 'Wall fluxes, returned particles and gas flow have the right sign and add up',
     'Wherever the Debye length exceeds the impact parameters (positive cross sections), only sticking species reach the wall, never out of it, at a rate bounded by their mean speed; what returns is '
     'exactly what the return coefficients say, electrons leave with the ions, and what the feeds bring in and the pump '
     'takes out balances as documented with the pressure regulated towards the wanted one.',
     ['inputs', 'histories'],
     'For every chemistry with any sticking and return coefficients, any history of changes, every state.',
     'The tests compare one state with stored numbers.',
     [EQ], [('walls', EQ + ': get_wall_fluxes, get_diffusion_sinks, get_diffusion_sources'), ('flow', EQ + ': get_flow_source_rates')],
     ['wall fluxes and source rates of the equations'],
     'runtime monitor: signs, bounds and balances of the fluxes on executions')

prop('P16', 'A model run reports the documented quantities of its solution, properly labelled',
     'A successful run starts from the documented initial state and returns times, densities, rates and wall fluxes in '
     'which each column is labelled by, and holds, the documented quantity of the state in that row. A failed run leaves '
     'no results behind, and changes made to the chemistry later are seen by the next run and not in earlier results.',
     ['inputs', 'histories', 'fault_sequences'],
     'For every chemistry in every state, parameters and initial values, repeated runs and a failing solver.',
     'The tests run a few fixed cases and check the shape of what is returned.',
     [MO, EQ], [('initial state', MO + ': Model._build_y0'), ('post-processing', MO + ': Model._post_process, diagnose')],
     ['solution, rates and wall fluxes returned by the run'],
     'runtime monitor: offline checker over the recorded rows of each run, solver faults injected')

prop('P17', 'Initial states are quasi-neutral, at the wanted pressure; bad ones are refused',
     'An initial state built by the model is quasi-neutral, has the wanted pressure and holds the fed species in '
     'proportion to their feeds and everything else in the documented ratios. An initial state given by the user is used '
     'as it is, or refused with the documented exception if it is incomplete, inconsistent or not for this chemistry.',
     ['inputs', 'configurations'],
     'For every chemistry in every state, all model parameters and ratios, all inconsistent initial values.',
     'The tests build the initial state of one chemistry.',
     [GM, MO], [('initial densities', GM + ': GlobalModel.generate_initial_n, validate_initial_n'), ('initial vector', MO + ': Model._build_y0')],
     ['generated densities', 'first row of the solution', 'exceptions'],
     'runtime monitor: balances of generated states, injected bad initial values')

prop('P18', 'Model parameters are complete and consistent or refused, and frozen',
     'Parameters are accepted exactly when all are present, known, of the right type and sign and consistent with each '
     'other, and are refused with the documented exceptions otherwise. Accepted ones read back the same under every '
     'documented name and view, and cannot be changed afterwards by anything passed in or handed out.',
     ['inputs', 'configurations'],
     'For every set of parameters in every accepted spelling, type and container, and each single deviation.',
     'The tests try some examples; aliasing and the mapping views are not reached.',
     [MP], [('validation', MP + ': ModelParameters')],
     ['values under every name and view', 'exceptions'],
     'runtime monitor: single-fault injection and overwriting of shared containers')

prop('P19', 'Results are given only after a success; logs are written only where asked',
     'Results are available exactly after a successful run and belong to it; after a failed, refused or not yet made run '
     'they are refused with the documented exception. A run writes exactly the documented log files in the directory of '
     'its run id, never elsewhere and never over an existing run unless asked, and a run which fails leaves earlier logs '
     'untouched.',
     ['histories', 'fault_sequences', 'crash_points'],
     'For every history of runs (plain, logged, overwriting, compressed, refused, failing, raising), explicit logging, '
     'chemistry changes and reloads of parameters, and every run id.',
     'The tests make one or two runs in a fixed order.',
     [GM, CF], [('run and logging', GM + ': GlobalModel.run, log_results'), ('run ids', GM + ': _validate_run_id')],
     ['availability of results', 'the whole results tree after each step'],
     'runtime monitor: state machine reference over random histories with injected backend faults')

prop('P20', 'What a run logged is what it computed, and enough to repeat it',
     'Everything fetched back from the logs of a run, by any way to address the run, equals what the run computed within '
     'the documented compression and interpolation, with the same labels. The logs alone are enough to set up the run '
     'again, and the repeated run gives the same results.',
     ['histories', 'inputs'],
     'For every chemistry state, parameters and initial values in every accepted number type, all times asked for.',
     'The tests read stored logs, not those of arbitrary runs.',
     [GM, RS], [('logging', GM + ': GlobalModel.log_results'), ('fetching', RS + ': ResultsParser.fetch_*, get_results_frames')],
     ['fetched frames and parameters against the live results', 'the repeated run'],
     'runtime monitor: log round trips and runs repeated from their logs')

prop('P21', 'Compression, convergence and comparison of solutions keep to their rules',
     'A compressed solution has the first and the last row and exactly those rows between which differ from the last '
     'kept one by more than the threshold (relative, for each column, whatever its sign and scale), unchanged and in '
     'order. An output is reported as converged exactly if it changed by less than the tolerance in the window asked '
     'for. Runs compared are given the values of their own last rows, relative ones to the first run.',
     ['inputs'],
     'For every solution (any signs, zeros, scales, time grids and row labels), threshold, window and set of runs.',
     'The tests compress one solution and look at its length.',
     [GM, RS], [('compression', GM + ': compress_solution, compress_rates'), ('convergence', GM + ': check_convergency'),
          ('comparison', RS + ': ResultsParser.compare')],
     ['returned frames'],
     'runtime monitor: row by row reference over random frames and written logs')

prop('P22', 'Production and consumption processes add up to what the model does',
     'The processes listed for a species, in volume and on surfaces, are exactly those which change it, each with the '
     'rate given by its stoichiometry or return coefficient, sorted as documented; together they add up to the source '
     'terms which the equations of the model have. What is printed are these processes, cut and scaled as asked for.',
     ['inputs', 'configurations'],
     'For every chemistry in every state, every solution, species, limit and scaling of the listing.',
     'The tests which print processes look at one solution and do not compare with the equations.',
     [RS, CF], [('rates of processes', RS + ': ResultsParser.get_*_rates'), ('printing', RS + ': ResultsParser.print_*')],
     ['returned series', 'printed lines'],
     'runtime monitor: conservation between listed processes and the source terms of the model')

prop('P23', 'Errors of a reduced solution are the documented distance from the full one',
     'The error of every output at every time is the documented mixed relative error of the interpolated solutions; the '
     'maximal and the rms error are those over the outputs and times asked for, in whatever order, zero for the same '
     'solution and independent of units. Times outside, missing outputs and things which are no solution are refused.',
     ['inputs', 'histories'],
     'For every pair of solutions on their own time grids, outputs and times, and replaced full solutions.',
     'The tests compare one pair of solutions.',
     [ER], [('errors', ER + ': SolutionsDiff')],
     ['returned errors', 'exceptions'],
     'runtime monitor: scalar reference, metamorphic relations and injected bad solutions')

prop('P24', 'Graph searches find widest and shortest paths and maximal flows',
     'Every path returned by a search is a path of the graph and is the best possible, with the score of that path; '
     'nodes which cannot be reached are reported as such. The maximal flow equals the capacity of the smallest cut. '
     'Searches do not change the graph and bad weights are refused.',
     ['inputs', 'histories'],
     'For every directed graph, history of building it, edge attribute and weighting function.',
     'The tests search one graph with hand-written answers.',
     [GR], [('searches', GR + ': Graph.find_shortest_paths, find_max_bottleneck_paths, maximal flow')],
     ['paths, scores, flows', 'exceptions'],
     'runtime monitor: optimality oracles (all-pairs iteration, enumeration of cuts) on random graphs')

prop('P25', 'Couplings of species and their ranking follow the documented schemes',
     'The weight of every edge of the graph of a chemistry is that of the chosen coupling scheme for the rates and wall '
     'fluxes at that time, and there is an edge exactly between coupled species. The ranking holds every species which '
     'may be reduced, exactly once, by its strongest coupling to the important species over all times, sorted.',
     ['inputs', 'configurations'],
     'For every chemistry in every state, all rates and wall fluxes, all schemes and searches, important species and times.',
     'The tests rank the species of one stored solution.',
     [GR], [('couplings', GR + ': ChemistryGraph.distribute_weights'), ('ranking', GR + ': ChemistryGraph.get_ranking')],
     ['edges and weights', 'returned ranking'],
     'runtime monitor: scalar reference of all weights, optimality oracles for the scores')

prop('P26', 'Morris trajectories change one factor at a time, by one step, on the grid',
     'A trajectory starts at the given seed and visits, for dimension k, k + 1 points; between two of them exactly one '
     'factor changes, each factor exactly once over the trajectory, by plus or minus one elementary step, and no point '
     'leaves the grid of levels or the unit interval. Points handed out earlier are not changed by later steps, the '
     'passed seed is never changed, and a seed which is not on the grid is refused.',
     ['inputs', 'histories'],
     'For every dimension, seed and number of trajectories consumed, lazily or at once, interleaved or not.',
     'The tests draw a few trajectories and check their length.',
     [MR], [('trajectory', MR + ': the trajectory generators and seeds')],
     ['every yielded factor, step and vector'],
     'runtime monitor: online checker of the yielded sequence')

prop('P27', 'Morris factors map to the coefficients they stand for, and to nothing else',
     'A factor of one half leaves a coefficient nominal, and other factors scale or shift it by the documented formula '
     'within its uncertainty. Mapping a vector sets exactly the coefficients of the factors (of reactions, of all the '
     'reactions of a species, or of a returned species, with the sum of return coefficients kept), computed from the '
     'nominal values however often it is applied; faulty arguments are refused and change nothing.',
     ['inputs', 'histories'],
     'For every chemistry in every state, all vectors of factors and all sequences of mappings.',
     'The tests map one vector for one chemistry.',
     [MR], [('mapping of factors', MR + ': mapping of factors to rate and return coefficients')],
     ['coefficients of the chemistry before and after'],
     'runtime monitor: values recomputed from the specification, snapshots of the rest')

prop('P28', 'A Morris trajectory evaluates and logs exactly its points',
     'Running a trajectory solves the model once at each of its points, with the coefficients of that point and '
     'everything else nominal, leaves the chemistry passed in unchanged, and logs what was evaluated, so that factors, '
     'steps and solutions can be read back. Runs which do not agree with the logged meta data are refused, and a '
     'trajectory which was interrupted or whose model failed can be run again under the same number.',
     ['inputs', 'histories', 'fault_sequences', 'crash_points'],
     'For every chemistry in every state, every kind of factors, and every evaluation at which the solver fails or the '
     'run is interrupted.',
     'The tests run two trajectories of one chemistry to the end.',
     [MR], [('trajectory runs', MR + ': MorrisRun.run_trajectory'), ('coherence', MR + ': _assert_coherence, _dump_meta')],
     ['state of the chemistry at every model run', 'logged trajectories and meta data'],
     'runtime monitor: recorded evaluations and logs compared, with injected failures and interruptions')

prop('P29', 'Morris statistics and rankings are those of the logged trajectories',
     'The elementary effect of a factor on an output at a time is the difference of that output between consecutive '
     'runs of the trajectory divided by the signed step. The statistics of every factor are the mean and the standard '
     'deviation of its effects over all finished trajectories, also relative to the mean of the output over all runs; '
     'rankings order all factors, least important first, by the documented combination of these over the important '
     'outputs and times. The order of factors in the logs and unfinished trajectories do not matter.',
     ['inputs', 'histories'],
     'For every set of logged trajectories, all outputs and times, with unfinished trajectories present.',
     'The tests compare the statistics of one stored run with stored values.',
     [MR], [('statistics', MR + ': statistics and rankings of Morris runs')],
     ['returned statistics and rankings'],
     'runtime monitor: independent statistics over generated logs')

prop('P30', 'Parallel Morris runs complete all trajectories, whatever the schedule',
     'A Morris run with any number of worker processes leaves as many complete trajectories as were asked for, with '
     'numbers of their own, in addition to those which were there; they are independent of each other, none is lost, '
     'mixed or partly overwritten, and the meta data can always be read.',
     ['schedules', 'histories'],
     'For every number of workers and trajectories, every interleaving of the workers, and repeated runs on the same '
     'results.',
     'The tests run a few trajectories once; races between the workers show up in some schedules only.',
     [MR], [('parallel runs', MR + ': run_morris'), ('shared meta data', MR + ': _dump_meta, _assert_coherence')],
     ['logged trajectories after real multi-process runs'],
     'runtime monitor: real worker processes with injected delays, offline checker of the logs')

prop('P31', 'Reductions remove species as documented, and restore and log every step',
     'A reduction tries the species in the order of the ranking (recalculated after each removal if dynamic), each at '
     'most once and never an important output, a feed or a protected species. A removal which is impossible, whose '
     'model fails or whose error is over the limit is undone exactly, and it ends after the allowed number '
     'of unsuccessful removals in a row, with the complete chemistry. The history and the logs hold every attempt with '
     'its errors, and each accepted state can be restored from its log.',
     ['inputs', 'histories', 'fault_sequences'],
     'For every chemistry, ranking, outputs, times and limits, and every model run which fails or is interrupted.',
     'The tests run a reduction of one chemistry along one ranking without failures.',
     [RD, ER], [('removal', RD + ': ReductionIterator.remove_one_species_and_run'),
                ('reduction', RD + ': ReductionIterator.run_reduction')],
     ['state of the chemistry and solution at every model run', 'reduction history', 'logged runs'],
     'runtime monitor: lockstep reference of the procedure, injected solver failures')

prop('P34', 'Import of HPEM input files keeps every species and reaction',
     'Importing a chemistry from an HPEM input file yields exactly the reactions of that file with the same reactants, '
     'products and rate parameters, and exactly the species they need, whatever its spacing, number formats and comments.',
     ['inputs'],
     'For every file in the supported format.',
     'The tests import one fixed file.',
     [XM], [('import', XM + ': XmlBuilder.add_chemistry_from_hpem')],
     ['parsed species and reactions of the imported chemistry'],
     'runtime monitor: generated files imported and compared')

prop('P32', 'Pretty-printed names and LaTeX of a chemistry are faithful and distinct',
     'Pretty-printed vectors and matrices hold exactly the values of the attribute shown, each labelled by the species '
     'and reactions it belongs to, whatever their ids and whichever of them are disabled, without or with annotations; '
     'what differs from the nominal values or is disabled is marked, and only that. The LaTeX of reactions, species, '
     'numbers and tables shows what it stands for: no digits lost, and different reactions never shown as one.',
     ['inputs', 'histories'],
     'For every chemistry in every state, every attribute, and every annotation; every number and every reaction.',
     'The tests call pretty printing on one chemistry, and most of them fail with current pandas for unrelated reasons.',
     [PP, LA, CH], [('annotations', PP + ': PrettyPrint functions'), ('LaTeX', LA + ': tables of species and reactions')],
     ['rendered frames, labels and styles', 'LaTeX texts'],
     'runtime monitor: rendered output parsed back and compared with the values shown')

prop('P33', 'Configuration and default results directories are read and made as documented',
     'A configuration is the content of its file; a file which is missing or not of the prescribed format, a missing key, '
     'an invalid binary file or an unknown backend raise the documented exceptions and leave nothing on disk. Directories '
     'of the workspace are made when asked for, only then and only those. Runs, sensitivity runs and reductions logged '
     'without a directory are found in the workspace by everything which reads them by default.',
     ['inputs', 'histories', 'configurations'],
     'For every content of the configuration file and every sequence of queries and runs on any number of instances.',
     'The tests read one configuration, and results from directories given explicitly.',
     [CF, RS, GM], [('configuration', CF + ': Config'), ('defaults', RS + ': ResultsParser._fetch_results_dir')],
     ['directory tree after each call', 'exceptions', 'results read by default'],
     'runtime monitor: lockstep reference of the workspace tree, malformed files injected')

prop('P35', 'The model of neutral chemistries follows the documented balances without charges',
     'The model of a chemistry of neutral species solves the documented particle balances (volume reactions, flow, '
     'diffusion to the walls and return from them, pressure regulation) in SI units, with no electrons and the electron '
     'energy held at zero. Solutions, rates and wall fluxes it reports are those of the equations it solves, labelled by '
     'the species and reactions they belong to; chemistries with any charged species are refused.',
     ['inputs', 'configurations'],
     'For every chemistry in every state, parameters and state of the densities.',
     'The tests do not touch the neutral model.',
     [NM, EQ], [('neutral equations', NM + ': neutral equations and model')],
     ['right-hand sides, rates and diagnostics of the neutral model'],
     'runtime monitor: independent balances evaluated next to the real equations')

prop('P36', 'Figures show the logged data',
     'A plot of a logged run shows each asked quantity (or all densities) over the logged times with its own values and '
     'label. A comparison of reductions shows for every run each accepted removal at its number of removed species and '
     'its error, each unsuccessful removal as a dead end from the last accepted state, the common limit of the error and, '
     'if asked, the removed species, all within the limits of the figure; runs with different limits are refused.',
     ['inputs', 'configurations'],
     'For every logged solution and every set of reduction histories, and every combination of options.',
     'The tests do not look at figures.',
     [RS, RD], [('plot of a run', RS + ': ResultsParser.plot_solution'),
                ('comparison of reductions', RD + ': compare_reduction_runs')],
     ['lines, labels, limits, scales and annotations of the drawn figure'],
     'runtime monitor: figures read back from the drawing library against the logs')

prop('P37', 'Import from the QDB database keeps every species, reaction and rate',
     'Importing reactions from QDB records yields one reaction per resolved record, between the species of the lumped one '
     'if there is one, with the Arrhenius parameters of the preferred dataset (cross sections for electron collisions, '
     'otherwise Arrhenius), its energy loss, identifiers, first citation and the resolved reaction as a comment. Exactly '
     'the species needed are added, once each, under their names with multiple charges and states written out, with '
     'their data; records which cannot be imported are refused.',
     ['inputs'],
     'For every set of records of species, reactions, datasets and parameters.',
     'The tests cannot reach the database at all.',
     [XM], [('import', XM + ': XmlBuilder.add_chemistry_from_qdb, add_reaction_from_qdb, add_rp_from_qdb')],
     ['parsed species and reactions of the imported chemistry'],
     'runtime monitor: duck-typed database records imported, dumped, parsed and compared')


prop('P38', 'Only consistent sets of species and reactions become a chemistry',
     'A chemistry is made of exactly the species and reactions given if they are consistent: unique ids and names, every '
     'species used by a reaction and every reaction between the given species objects themselves, electrons and a positive '
     'ion present (or no charge at all in a neutral chemistry), and only known species returned from the walls. Anything '
     'else, incomplete arguments included, is refused, whether the parts are given directly or in an input file.',
     ['inputs', 'configurations'],
     'For every set of species and reactions, and every single inconsistency in it.',
     'The tests build consistent chemistries only, apart from one or two cases.',
     [CH, NM, XM], [('consistency', CH + ': Chemistry.__init__, assert_consistency')],
     ['species and reactions of the chemistry, or the exception'],
     'runtime monitor: single inconsistencies planted in random chemistries, refusals observed')

prop('P39', 'Listings show every species and reaction once, with its values, in its class',
     'A listing of a chemistry contains each asked species or reaction exactly once with the values which the chemistry '
     'has for it, ad-hoc ones included, in the order of the chemistry or sorted if asked. A classified listing has each '
     'reaction below the numbered headings of its type and category, in the order of the scheme, aligned, without empty '
     'headings. Exactly the disabled ones are red, and what is printed is what is returned.',
     ['inputs', 'histories', 'configurations'],
     'For every chemistry in every state, and every combination of options.',
     'The tests do not look at the listings.',
     [CH, CL, PP], [('listings', CH + ': Chemistry.species_attributes, reactions_attributes')],
     ['rows, headings, cells and colours of the returned frame', 'printed text'],
     'runtime monitor: listings read back against the spec, the classifier and the printed text')

prop('P40', 'A diagnosed quantity is the documented one along the whole solution',
     'Diagnosing any partial result of the equations gives one row per time of the solution, with its time, the value of '
     'the quantity in the state of that row and, if asked, its total; quantities of species are labelled by their names, '
     'those of reactions by their ids, whatever their number. The solution is that of the last run or the one given, and '
     'later changes of the chemistry or of what was returned do not change it.',
     ['inputs', 'histories'],
     'For every plasma and neutral chemistry, every quantity and every solution.',
     'The tests diagnose a couple of quantities of one chemistry and check the shape.',
     [MO, EQ, NM], [('diagnostics', MO + ': Model.diagnose')],
     ['columns, times, values and totals of the returned frame'],
     'runtime monitor: independent balances evaluated in the state of every row')

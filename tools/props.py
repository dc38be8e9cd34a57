"""The property list: regenerates properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mechanism, observe, claim=True, reason=None, note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                  mechanism=mechanism, observe=observe, claim=claim, reason=reason, note=note))


EQ = 'pygmo_fwork/pygmol/equations.py'
GR = 'pygmo_fwork/optichem/graph.py'
MS = 'pygmo_fwork/optichem/morris.py'
RD = 'pygmo_fwork/optichem/reduction.py'
MO, MP, NE = 'pygmo_fwork/pygmol/model.py', 'pygmo_fwork/pygmol/model_parameters.py', 'pygmo_fwork/pygmol/neutral_model.py'
CH, RE, SP = 'plaschem/chemistry.py', 'plaschem/reactions.py', 'plaschem/species.py'

prop('C01', 'Reactions conserve elements and charge, or are rejected',
     'A reaction can only be created if both of its sides contain the same number of atoms of every element and the same '
     'total charge (third bodies and electrons counted correctly); any unbalanced combination of species is rejected with '
     'the package\'s own error. The stoichiometric coefficients reported for an accepted reaction are exactly the species '
     'multiplicities on its left side, right side, and their difference.',
     ['inputs'], 'every combination of up to three species per side, every charge, element content and multiplicity',
     'The tests construct a handful of balanced reactions and two unbalanced ones; they cannot cover the combinations of '
     'species, charge spellings, multiplicities and third bodies.',
     [RE, SP], [('balance check at construction', RE), ('atom and charge parsing', SP)],
     ['Reaction(...)', 'Reaction.get_stoich_coefs', 'RP.get_atoms'])

prop('C02', 'Rate coefficients follow the Arrhenius law in the declared units',
     'For every reaction the rate coefficient evaluated for a gas and an electron temperature equals A*(T/300K)^B*exp(-C/T) '
     'of the species temperature that applies to it (gas kelvin for heavy reactions, electron eV for electron ones) with the '
     'declared parameters, and tabulated SI values and ad-hoc values convert by the exact power of 10^-6 which belongs to '
     'the number of reactants. Units are accepted only if they are consistent with the number of reactants.',
     ['inputs', 'configurations'], 'all real Arrhenius parameters, temperatures, all declared units and reaction orders',
     'Tests check a few parameter sets in default units; they do not quantify over units, orders or parameter values.',
     [RE, CH], [('rate law', RE), ('unit table and conversion', RE + ', ' + CH)],
     ['Reaction.get_k', 'Chemistry.get_reactions_arrh_a'])

prop('C03', 'Chemistry tables list exactly the selected species and reactions, in order',
     'Every table a chemistry hands out (species and reaction attributes, stoichiometric matrices, masks, counts) has '
     'exactly one entry per species or reaction selected by the disabled/special/protected filters, keyed by its id, in '
     'the same order in all tables, and each value is the attribute of that species or reaction or the ad-hoc value set for it.',
     ['inputs', 'histories'], 'all filter combinations, attribute values, ad-hoc overrides and disabled subsets',
     'Tests look at single tables of one fixture, never at all filter combinations after disabling and ad-hoc changes.',
     [CH], [('species and reaction masks', CH), ('getters', CH)], ['Chemistry.get_species*', 'Chemistry.get_reactions*',
                                                                  'Chemistry.get_stoichiomatrix'])

prop('C04', 'Disabling leaves the largest self-consistent subnetwork, or changes nothing',
     'After any sequence of disable requests, the enabled part of the network is exactly the largest one in which no enabled '
     'reaction involves a disabled species and every enabled species takes part in some enabled reaction; '
     'a reset brings the full network back. A request that would remove a protected species (the electron, a sole positive ion, '
     'or a chosen one) or the last positive ion is refused with the package\'s own error and leaves everything as it was.',
     ['inputs', 'histories'], 'all networks within the bounds, all subsets disabled in all orders, all protected sets',
     'Tests disable a few species of one chemistry; the recursion depends on the topology of the whole network.',
     [CH], [('recursive disabling', CH)], ['Chemistry.disable', 'Chemistry.reset', 'Chemistry.get_species', 'Chemistry.get_reactions'])

prop('C05', 'Surface data: sticking, return coefficients and the return matrix agree',
     'For every species the effective sticking coefficient and return coefficients are its own or the last ad-hoc ones, nothing '
     'is returned by a species which does not stick or to species which are disabled, and the tables and the square return '
     'matrix cover exactly the species selected by the filters. Species without own data get the documented defaults '
     '(inert ground-state neutrals do not stick; everything else sticks and returns its neutral ground state), and resetting '
     'the ad-hoc values restores the own data.',
     ['inputs', 'histories'], 'all coefficients, ad-hoc overrides, zero sticking, disabled subsets, filter combinations',
     'Tests check single defaults and one ad-hoc override; they never combine overrides with disabling and filters.',
     [CH, SP], [('surface getters', CH), ('defaults', SP)],
     ['Chemistry.get_species_stick_coef', 'Chemistry.get_species_ret_coefs', 'Chemistry.get_return_matrix'])

CL, XM, LA, PP = ('plaschem/classification.py', 'plaschem/xml_inputs.py', 'plaschem/latex.py', 'plaschem/pretty_print.py')

prop('C06', 'Chemistry state files restore exactly the saved state, or are refused',
     'The state of a chemistry (enabled and disabled species and reactions, protected species, ad-hoc values), dumped to a file '
     'after any history and loaded into another instance of the same network in any other state, is restored exactly; the '
     'coherence check says yes exactly when the states are the same. A file written for another or edited input file, or an '
     'incomplete document, is refused with the package\'s own error and leaves the instance unchanged.',
     ['inputs', 'histories'], 'all histories of disabling, ad-hoc values and resets on both sides, all ad-hoc numbers, documents '
     'missing any key', 'Tests round-trip one state; a forgotten field shows only after particular histories.',
     [CH], [('dump and load', CH), ('input file hash', CH)], ['Chemistry.dump', 'Chemistry.load', 'Chemistry.is_coherent'])

prop('C07', 'Copies of a chemistry are equal and independent',
     'A copy of a chemistry (or its neutral-only counterpart) starts with the same class and the same state; afterwards nothing done to the '
     'copy can be seen in the original and nothing done to the original can be seen in the copy. What the getters hand out '
     'belongs to the caller: modifying it changes no later answer of the chemistry.',
     ['histories'], 'all sequences of operations within the bounds on either side, all ad-hoc values',
     'Tests copy once and look at one attribute; aliasing shows only through particular later operations.',
     [CH], [('copy', CH), ('getters', CH)], ['Chemistry.copy', 'Chemistry.get_*'])

prop('C08', 'Networks written to an XML input file are read back identically',
     'A set of species and reactions written to an XML input file and loaded again is identical in ids, order, names and every '
     'attribute, for all values, units and awkward texts; exporting a chemistry with disabled parts gives a loadable file which '
     'equals its enabled part. Merging sources keeps every species once, ids are reassigned in order (electron 0, M 999), and '
     'an existing file is replaced only on request.',
     ['inputs', 'configurations'], 'all attribute values, optional attributes present or missing, texts, units, disabled subsets, '
     'merges', 'Tests parse some prepared files and write one; they do not vary attributes, texts and disabled parts.',
     [XM, RE, SP], [('writing', XM), ('reading', XM + ', ' + CH)], ['XMLChemistry / Chemistry.from_xml', 'Chemistry(...)'])

prop('C09', 'Every reaction falls into its one category of the classification scheme',
     'Classification puts every reaction of a chemistry into exactly one category of the published scheme. The category depends '
     'on the species alone (electrons gained or lost, numbers of heavy reactants and products, charges, excitation), not on the '
     'order in which species are written or on what was classified before. Types, categories and their reactions come in the '
     'documented order.',
     ['inputs', 'histories'], 'all balanced reactions of up to three species per side with any charges and excitation',
     'Tests classify one fixture; most branches of the decision tree are reached only by unusual combinations.',
     [CL], [('decision tree', CL)], ['ReactionClassifier.get_classified_reactions', 'get_reaction_class'])

prop('C10', 'Species and reactions are sorted and listed in the documented order',
     'Species are sorted by number of elements, then lighter first element, its count, second element and so on, ground states '
     'before excited ones, neutrals before positive before negative ions, the electron first and M last, ties keeping their order; '
     'reactions are sorted by the positions of their (sorted) reactants and products. Aligned reaction listings name exactly '
     'the species of each reaction in that order and are aligned, after any sequence of calls.',
     ['inputs', 'histories'], 'all pairs of species within the bounds, all starting orders and call sequences',
     'Tests check the order of one fixture; the packed score key can overflow between digits only for particular pairs.',
     [CL], [('sort keys', CL), ('alignment', CL)], ['ReactionClassifier.sort_species', 'sort_reactions', 'get_aligned_reaction_string'])

prop('C11', 'Reactions proceed by mass action and conserve charge, atoms and mass',
     'Each reaction proceeds at its rate coefficient times the densities of its reactants, with M the total and e the electron '
     'density; the coefficient is the modified Arrhenius form of the electron temperature if an electron collides, otherwise of '
     'the gas temperature, and three-body and unit factors count once. The volume source of a species is the sum of its net '
     'stoichiometry times the rates: it conserves charge, atoms and mass for every state.',
     ['inputs'], 'networks of 2 to 5 species and 3 to 5 reactions with all coefficients, all densities, temperatures',
     'Tests evaluate one chemistry at one state.',
     [EQ], [('rates', EQ + ': get_reaction_rate_coefficients, get_reaction_rates, get_source_rates'), ('electron density', EQ)],
     ['Equations.get_reaction_rates', 'Equations.get_volumetric_source_rates'])

prop('C12', 'Gas flow and the pressure control drive the densities as documented',
     'Feeds arrive at the configured flows and every neutral leaves at a common relative rate such that a state at the set '
     'pressure stays there; pressure regulation pulls towards the set pressure. Species and energy below their lower limits are '
     'pushed back up, never down, and values above are left alone. Feeds unknown to the chemistry are refused.',
     ['inputs'], 'networks of 2 to 5 species, all feeds, pressures, temperatures and densities in the given ranges',
     'Tests check shapes and a few numbers; the balance must hold for all feeds, volumes and pressures.',
     [EQ], [('flow', EQ + ': get_flow_source_rates'), ('corrections', EQ + ': get_min_n_correction, get_min_rho_correction')],
     ['Equations.get_flow_source_rates', 'get_min_n_correction'])

prop('C13', 'Transport to the walls and surface returns follow the documented formulas',
     'Thermal speeds, ion temperature, Debye length, collision cross sections, mean free paths, free and ambipolar diffusivities '
     'and wall fluxes are those of the documentation for every state and both diffusion models, finite and of the right sign. '
     'Every species lost at the wall comes back as its return species with their coefficients; where the return matrix conserves '
     'charge or atoms, so do the wall terms.',
     ['inputs'], 'networks of 2 to 5 species with neutrals and ions of both signs, all geometry, pressure, sticking and return '
     'values', 'Tests compare a few values of one network; sign and limit cases need particular combinations.',
     [EQ], [('transport', EQ), ('walls', EQ + ': get_wall_fluxes, get_diffusion_sinks, get_diffusion_source_rates')],
     ['Equations.get_wall_fluxes', 'get_diffusion_source_rates'])

prop('C14', 'The electron energy balance accounts for every gain and loss once',
     'The electron energy density changes by the absorbed power of that time per volume, minus inelastic and elastic collision '
     'losses, minus the energy of electrons created or destroyed, minus what electrons and ions carry to the wall through the '
     'sheath. Elastic losses use the masses of the partner. The power is piecewise linear through the given points and at '
     'a step it changes only within a short neighbourhood of it.',
     ['inputs'], 'networks of 2 to 5 species, all parameters; power profiles of 2 to 4 points with steps, real and integer times',
     'Tests use one profile and one state.',
     [EQ], [('balance', EQ + ': get_drho_dt_*'), ('power', EQ + ': get_power_ext, __init__')],
     ['Equations.get_dy_dt', 'get_drho_dt_ext'])

prop('C15', 'The right-hand side depends on nothing but time and state',
     'The function handed to the solver returns, for every time and state, exactly the sum of the separately reported '
     'contributions; it does not depend on what was evaluated before on that instance, at any state or time, a fresh instance '
     'gives the same numbers, and the state vector passed in is not modified. The same holds for every partial result.',
     ['inputs', 'histories'], 'networks of 2 to 5 species, any 17 partial results or the full function evaluated before, '
     'at any other state', 'Tests call each method once; results are cached and buffers are shared between the methods.',
     [EQ], [('caches', EQ), ('composition', EQ + ': get_objective_functions')],
     ['Equations.get_objective_functions', 'Equations.get_*'])

prop('C16', 'Initial densities are neutral, add up to the pressure and follow the feed',
     'The initial state a model builds, and the one the wrapper generates, holds one non-negative density per species in the order of the '
     'chemistry; the densities add up to p/(k T), the ions leave exactly the configured electron density, negative ions and species '
     'which are not fed get their configured fractions, and the rest is shared between the fed species in proportion to their flows (or '
     'evenly between the neutrals). Densities given by the user are used as they are, whatever the order of their names; a missing or '
     'unknown species, a wrong length, or densities which leave no room for electrons are refused with the package\'s own errors.',
     ['inputs', 'configurations'], 'all pressures, temperatures, feed flows and subsets, fractions and given densities',
     'Tests build the initial state of one or two chemistries; the neutrality and pressure balance for all feeds and ion charges is not covered.',
     [MO, NE, 'pygmo_fwork/global_model.py'], [('initial state of the model', MO), ('initial densities of the wrapper', 'pygmo_fwork/global_model.py')],
     ['Model._build_y0', 'Model.run(init_n=...)', 'GlobalModel.generate_initial_n', 'GlobalModel.validate_initial_n'])

prop('C17', 'Model parameters are accepted exactly when consistent, and then never change',
     'Model parameters are accepted if and only if all eight are given, each under one of its documented names and nothing else; the five '
     'scalars are positive numbers, feed flows positive numbers under string names, powers non-negative, both power arrays of one length '
     'of at least two, starting at or before zero and reaching at least 1.1 times the end time. Otherwise one of the package\'s errors is '
     'raised. An accepted instance returns the given values under every alias, independent of the order they were given in, cannot be '
     'set or deleted, and does not change when its arguments or the values it handed out are modified.',
     ['inputs'], 'all numeric values, all profile lengths up to the bound, every spelling and order of the keys, every kind of wrong value',
     'Tests check individual bad values; the combination of all conditions and the independence from caller-held objects is not settled by them.',
     [MP], [('validation', MP), ('aliases', MP)], ['ModelParameters(...)', 'ModelParameters[key]', 'dict(ModelParameters)'])

prop('C18', 'Solutions, rates and fluxes are the equations at the states the solver returned',
     'Running a model integrates exactly the equations of the chemistry as it is at that moment, from time zero to the configured end, '
     'from the initial state; the solution, reaction rates and wall fluxes it reports (whole and final), and any diagnosed partial result, '
     'have one row per returned time, are labelled by the right species and reactions, and equal the value of that quantity at that state; '
     'they are independent copies. A failed integration is an error and before a run no results exist.',
     ['inputs', 'configurations', 'histories'], 'all times and states a solver may return, success and failure, repeated runs with changed chemistries',
     'Tests look at one integration of one chemistry; wrong labels, stale equations or mismatched rows show for particular sizes and histories only.',
     [MO], [('solve and post-process', MO), ('diagnose', MO)],
     ['Model.run', 'Model.get_solution', 'Model.get_rates', 'Model.get_wall_fluxes', 'Model.diagnose', 'Model.success'])

prop('C19', 'The neutral model solves the neutral part of the equations, without electrons',
     'A neutral chemistry accepts neutral species only (no ion, no electron). The neutral model\'s density derivatives are the mass-action '
     'sources, gas flow with pressure regulation and free-diffusion wall terms of the documented formulas; its electron density and energy '
     'stay zero and no electron temperature is reported; every result available from the full model (solution, rates, wall fluxes, '
     'diagnosed quantities) is available and consistent with the same state.',
     ['inputs', 'configurations'], 'all densities, sticking and return coefficients, feeds and pressures; all offered combinations of species',
     'There are no tests of the neutral model.',
     [NE], [('neutral equations', NE), ('neutral chemistry', NE)],
     ['NeutralModel.run', 'NeutralModel.get_*', 'NeutralEquations.get_objective_functions', 'NeutralChemistry(...)'])

GM, RS, CF, ER = 'pygmo_fwork/global_model.py', 'pygmo_fwork/results.py', 'pygmo_fwork/config.py', 'pygmo_fwork/optichem/errors.py'

prop('C20', 'The global model serves and logs the results of its last successful run',
     'GlobalModel gives results exactly after a run which succeeded (of the chemistry and parameters at that moment), and only its own '
     'errors otherwise; refused requests leave it usable. Initial densities given to a run are those of every species which is not flagged '
     'otherwise; generated ones are charge neutral. The logged files hold exactly the results, parameters and initial values of the run, '
     'existing logs are replaced only on request. An output is reported converged exactly if its value at the start of the final time '
     'window differs from the last one by no more than the tolerance. Configured directories are those of the file, or an error is raised.',
     ['inputs', 'histories', 'configurations'], 'all values of times, results, tolerances; every history of up to three requests',
     'Tests run one model successfully; they do not quantify over histories with failures, log states or values.',
     [GM, CF], [('results and logs', GM), ('convergence', GM), ('configuration', CF)],
     ['GlobalModel.run', 'GlobalModel.get_*', 'GlobalModel.log_results', 'GlobalModel.check_convergency', 'Config'])

prop('C21', 'Logged results are read, interpolated, compressed and split up faithfully',
     'Interpolated results are linear between the neighbouring rows and times outside are refused. A compressed solution has rows of the '
     'original only, keeps the first and the last, and drops a row only if it changes no output by more than the threshold or is closer than '
     'the minimal step. The volumetric and surface processes of a species are exactly the reactions and wall processes which '
     'change it, each with its rate in the frame, adding up to its net source; printed ones are the largest first in the unit asked for. '
     'Runs are compared by their own final values; a missing log is an error.',
     ['inputs', 'configurations'], 'all values and times of frames up to four rows, all rates, fluxes and coefficients, all disabled subsets',
     'Tests look at one stored result; the properties are about every frame and every chemistry.',
     [RS], [('interpolation and compression', RS), ('process tables', RS), ('log access', RS)],
     ['ResultsParser.get_results_frames', 'ResultsParser.compress_solution', 'ResultsParser.get_volumetric_rates',
      'ResultsParser.get_surface_rates', 'ResultsParser.print_*', 'ResultsParser.compare', 'ResultsParser.fetch_*'])

prop('C22', 'The error of a reduced solution is the documented mixed relative error',
     'The error of an output at a requested time is 2 (reduced - full) / (full + max of the full over the requested times), of linearly '
     'interpolated results; the error of several times and outputs is the largest absolute value, or the root mean square. It '
     'is zero between equal results and positive between different ones. Results which are not in both solutions are refused, and the '
     'solutions stay as they are.',
     ['inputs'], 'all values and times of solutions of up to four rows, three outputs and three request times',
     'There are no tests of the error functions.',
     [ER], [('errors', ER)], ['SolutionsDiff.get_output_errors', 'SolutionsDiff.get_error_max', 'SolutionsDiff.get_error_rms'])

prop('C23', 'Species graphs carry the documented coupling coefficients at each time',
     'For each time there is a graph with an edge from species B to species A exactly when they are coupled, and its weight is the documented '
     'coefficient: the share of the rates of A, reactions and walls together, which involve B, per the norm of the method (gross '
     'turnover for DRG, net production for DRG1 and DRG2, the larger of production and consumption for DRGEP). Without the surface '
     'the walls do not count. The given frames, chemistry and other weights asked for before have no influence and stay as they are.',
     ['inputs', 'configurations'], 'all rates, wall fluxes and coefficients, disabled subsets of networks of up to six species',
     'A test builds graphs of one stored solution; whether each coefficient is right for every solution needs the definition.',
     [GR], [('weights of the graph', GR)], ['ChemistryGraph.distribute_weights', 'Graph.get_edge_attributes'])

prop('C24', 'Paths, bottlenecks, flows and rankings of the species graph are optimal',
     'The path found from each node is a path to the target whose length is minimal (or whose narrowest edge is maximal) among all '
     'paths, with its score; the maximum flow is no larger than any cut and saturates one. The ranking of species is the largest score '
     'over the important species and times, ascending, species without a path being the least important; important species '
     'are not ranked. Weights stay as they are, and graphs without weights are refused.',
     ['inputs', 'configurations'], 'all positive weights on graphs of up to five nodes and seven optional edges',
     'Tests rank one stored graph; optimality is a statement over all weights and all paths.',
     [GR], [('searches', GR), ('ranking', GR)],
     ['Graph.find_shortest_paths', 'Graph.find_max_bottleneck_paths', 'Graph.get_max_flow', 'ChemistryGraph.get_ranking'])

prop('C25', 'Morris trajectories change one factor at a time and run what the factors mean',
     'A trajectory starts at a point of the grid, changes each factor exactly once by the elementary step in either direction and '
     'stays in the unit cube; seeds outside the grid are refused. Each run is of the chemistry in which every factor is mapped as '
     'documented from the nominal values (rate coefficients of reactions, of the reactions of species, return coefficients with '
     'their complement), impossible changes are refused, and the given chemistry never changes. Trajectories of a run have the same setup '
     'or are refused; each has one log for every run and its metadata.',
     ['inputs', 'histories'], 'all seeds, random draws, rate and return coefficients, ranges and histories of up to three trajectories',
     'There are no tests of the Morris method; drawn trajectories differ from run to run.',
     [MS], [('trajectories', MS), ('mapping of factors', MS), ('logs and coherence', MS)], ['MorrisMethod.run_trajectory', 'logged metadata'])

prop('C26', 'Morris statistics and rankings are those of the elementary effects',
     'The elementary effect of a factor on an output at a time is the change of the (interpolated) output over the run which changed the factor, per the '
     'signed step, wherever in the trajectory the factor was changed; mean outputs are over all runs. mu and sigma are the mean and the '
     'sample standard deviation of the effects over the finished trajectories, the relative ones are per the mean outputs; the ranking is the '
     'mean (or the maximum) of |mu_rel| plus sigma_rel over outputs and times, ascending. Times outside a solution and unknown '
     'outputs or methods are refused.',
     ['inputs', 'configurations'], 'all results of each run, orders and directions of factors, up to three trajectories',
     'There are no tests of the Morris method.',
     [MS], [('effects', MS), ('statistics', MS), ('ranking', MS)],
     ['MorrisMethod.evaluate_trajectory', 'MorrisMethod.get_morris_stats', 'MorrisMethod.get_ranking'])

prop('C27', 'A batch of Morris trajectories completes under every schedule, or raises',
     'Running a batch adds exactly the number of trajectories asked for, under the first free names, and leaves the finished ones as they are, under '
     'every interleaving of the workers; if a trajectory fails, the others are completed and the error is raised to the caller. Batches '
     'which do not fit the run (other parameters, other type) are refused, and the run can be continued afterwards.',
     ['histories', 'schedules', 'crash_points'], 'all interleavings with up to two switches at accesses to shared files, any failing run',
     'Tests never run a batch; lost trajectories need a particular interleaving or failure.',
     [MS], [('batch', MS), ('metadata of a run', MS)], ['MorrisMethod.run_morris', 'files of the run'])

prop('C28', 'Reductions remove only what may go and restore what exceeds the error',
     'A reduction never removes feed gas, important or protected species, neither as requested nor along with other species. A removal whose run '
     'fails, is interrupted or (if restoring is asked for) exceeds the maximal error leaves the chemistry exactly in its last state '
     'which was accepted; accepted removals stay. Whole runs try the species in the order of the (static or dynamic) ranking, each once, end '
     'once the limit is exceeded too often in a row or nothing is left, and hand the complete chemistry back. The history tells what happened.',
     ['histories', 'fault_sequences', 'inputs'], 'up to three removals or whole runs over chemistries with cascades; arbitrary results, failures and interrupts of each run',
     'There are no tests of the reduction iterator; the states depend on the sequence of failed, rejected and accepted removals.',
     [RD], [('requests', RD), ('restoring', RD), ('whole runs', RD)], ['ReductionIterator.remove_one_species_and_run', 'ReductionIterator.run_reduction'])

prop('C29', 'LaTeX strings and tables state the data of species and reactions',
     'The LaTeX of a rate coefficient states the pre-exponential factor (in the unit asked for) to three digits, the exponent and the activation energy with '
     'its sign to two decimals, over the temperature of its kind of reaction, and leaves out what is zero. The LaTeX of a reaction shows every species with its '
     'number on its side; that of a species every element, atom count, charge, excitation and state of its name (or its own LaTeX). A table of '
     'reactions has one row per enabled reaction, in order, with its ID, reaction, rate, energy loss and source in the columns asked for; '
     'captions, notes, labels and decorated cells appear where they belong.',
     ['inputs'], 'every value of the numbers and every shape of their digits, every small stoichiometry, formula and selection of reactions and columns',
     'There are no tests of the LaTeX output; errors depend on the digits of the numbers (300.0 K was shown as 3).',
     ['plaschem/latex.py', RE, SP], [('numbers', 'plaschem/latex.py'), ('formulas', 'plaschem/latex.py'), ('reactions', RE)],
     ['Texify.texify_rate_coefficient', 'Texify.texify_species', 'Reaction.get_latex', 'str(ReactionsTable(...))'])

prop('C30', 'Data taken over from the data base keep their species, kinetics and meaning',
     'Adding a species of the data base makes a species named by its formula, with charges spelled out (Ar+2 as Ar++, e- as e), and its states; with its '
     'charge, mass, key and the thermodynamic data which are known. Adding a reaction takes the rate parameters and units of its data set (cross sections '
     'preferred for electron collisions, rate coefficients for others, the first of its kind), the threshold as the electron energy loss when electrons '
     'collide inelastically and survive, special numbers, keys and the first known citation, and adds each missing species once. A reaction which lumps '
     'resolved ones is replaced by those, with the lumped species. What is written reads back as that; incomplete or unknown data are refused.',
     ['inputs'], 'every value of the data and every combination of data sets, formulas, states and lumped reactions within the bounds',
     'There are no tests of the import, which needs the objects of another system; the rules interact (kind of data, kind of reaction, lumping).',
     ['plaschem/xml_inputs.py'], [('species', 'plaschem/xml_inputs.py'), ('reactions', 'plaschem/xml_inputs.py'), ('lumped reactions', 'plaschem/xml_inputs.py')],
     ['XmlBuilder.add_rp_from_qdb', 'XmlBuilder.add_reaction_from_qdb', 'XmlBuilder.add_chemistry_from_qdb', 'XmlParser.get_species_and_reactions'])

# <<< more properties are inserted above this line


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['tests'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                            'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
    note = ('Every feasible path of the real functions within the stated bounds is explored with symbolic numbers and '
            'solver-chosen structure; each assertion is decided by the SMT solver for all values of the path and every '
            'counterexample is confirmed on the unmodified code. Floats are treated as exact reals; numpy and pandas are '
            'executed, not encoded. ')
    man = {
        'version': 1,
        'setup_cmd': './setup.sh',
        'checks': [{
            'property': p['id'],
            'quick_cmd': './check.sh {} quick'.format(p['id']),
            'thorough_cmd': './check.sh {} thorough'.format(p['id']),
            'evidence_file': 'evidence/{}.json'.format(p['id']),
            'technique': 'symbolic execution of the real Python code with SMT (z3)',
            'level': 'model_checking',
            'level_note': note + p['note'],
        } for p in P if p['claim']],
        'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in P if not p['claim']],
        'notes': 'No hooks in /repo: the executor instruments the sources at import time, in memory.',
    }
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)


if __name__ == "__main__":
    main()

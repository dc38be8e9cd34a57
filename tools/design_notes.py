HOW = {
 'C01': 'Species with solver-chosen element counts, charges and multiplicities (up to three per side plus third body) go through the real '
        'Reaction constructor; oracle: linear bookkeeping of atoms and charge on the harness\'s own choice of species. Accepted iff '
        'balanced, on every path.',
 'C02': 'All Arrhenius parameters and temperatures symbolic, units and numbers of reactants chosen by the solver; Reaction.get_k and the tables '
        'of Chemistry are compared with A (T/300)^B exp(-C/T) and the factor 10^(-6(n-1)) as terms; undeclared units must be refused.',
 'C03': 'A nine-species network with symbolic attributes and ad-hoc values, solver-chosen disable requests and all filter flags; all tables of the '
        'chemistry are compared entry by entry with the harness\'s own bookkeeping.',
 'C04': 'Arbitrary small topologies (every membership bit of every reaction symbolic) and one realistic network; sequences of disable requests; '
        'oracle: greatest fixpoint computed by the harness; refused requests must leave the observable state untouched.',
 'C05': 'Symbolic sticking and return coefficients including zero, ad-hoc values set in any order, disabled subsets; oracle: effective '
        'coefficients by last-writer-wins and live species.',
 'C06': 'Histories of requests before the dump, on the loading instance and after; the yaml document is passed through with symbolic numbers; oracle: '
        'the complete observable state before the dump.',
 'C07': 'Every request before and after copying on either side, and scribbling over whatever the getters return; oracle: the state of the other '
        'instance stays what it was.',
 'C08': 'XML documents with symbolic attribute values (numbers are carried through the text by markers), optional attributes toggled by the solver, '
        'awkward texts; loaded by the real loader and compared attribute by attribute.',
 'C09': 'Every pair of sides drawn by the solver from species with all charges/excitations; oracle: an independent transcription of the documented '
        'decision scheme over counts; permutations of a side must classify alike.',
 'C10': 'Pairs of species with symbolic element numbers and counts; oracle: lexicographic comparison of the documented key; reaction listings after '
        'any sequence of calls.',
 'C11': 'Equations with a stub chemistry of symbolic parameters; state vector symbolic; every rate and source is compared as a term with the law of '
        'mass action written independently; conservation of charge and elements asserted separately.',
 'C12': 'As C11; flow terms at the set pressure must cancel, feeds arrive as configured, corrections have the documented sign and vanish above the '
        'limits.',
 'C13': 'As C11; each transport quantity is compared with its documented formula (square roots and logarithms as uninterpreted functions); wall '
        'sources balance the wall losses through the return matrix.',
 'C14': 'As C11; the balance is compared with its independent sum; power profiles with symbolic times and powers including steps.',
 'C15': 'Every getter is compared with its evaluation from a fresh instance, with partial results passed in, and after other calls: no hidden state.',
 'C16': 'Model._build_y0 and relatives, NeutralModel and GlobalModel with symbolic pressure, temperature, fractions and flows; oracle: '
        'conservation laws and shares asserted separately; given densities symbolic under every order of names.',
 'C17': 'The constructor with all numbers symbolic at once; profile lengths, spellings, orders and wrong kinds drawn by the solver; oracle: the '
        'documented conditions as one boolean over the same variables. Then every act on arguments or handed-out values.',
 'C18': 'solve_ivp is replaced by a stub which records its arguments (by signature) and returns arbitrary symbolic times and states or fails; '
        'the derivative it was given is compared with fresh equations at a probe state; every frame is compared with getters of fresh equations '
        'row by row; networks with as many, one more and more reactions than species.',
 'C19': 'As C18 with the neutral classes; derivatives are compared term by term with the documented formulas written in the harness.',
 'C20': 'Histories of requests drawn by the solver against a model whose backend solver is the stub of C18; the expected state is an automaton '
        'kept by the harness. Logs are written through a csv/yaml environment which carries symbolic numbers and read back; convergence is '
        'compared with an independent interpolation for symbolic times, values, tolerance and window.',
 'C21': 'Frames with symbolic times and values; interpolation and compression are compared with their definitions written over the same '
        'variables, process tables with the harness\'s own stoichiometry and wall bookkeeping; log directories are real scratch directories.',
 'C22': 'Two solutions with symbolic rows on different times; the mixed relative error is recomputed from the definition; max and rms are '
        'asserted as bounds which are attained.',
 'C23': 'Frames with symbolic rates and fluxes (and, in turns, return coefficients and dimensions); the coefficients are recomputed from the harness\'s own '
        'stoichiometry and wall bookkeeping for each ordered pair of species, method and time, after optional disabling and earlier requests.',
 'C24': 'Graphs with symbolic weights and optional edges; the oracle lists all simple paths and all cuts; optimality is asserted against each of them, '
        'the dual (a saturated cut, a path with that score) shows attainment. Rankings are the maximum of these oracles.',
 'C25': 'numpy.random is replaced by arbitrary results of its functions, the backend by a recorder of the chemistry it would run; the factors vector '
        'is rebuilt from the logged metadata and every recorded coefficient is compared with the documented mapping. Histories of trajectories '
        'with other types, parameters, chemistries and interrupted ones in real scratch directories.',
 'C26': 'Logged trajectories with symbolic results are written through the csv environment, in every order and direction of factors; effects, means and '
        'deviations are recomputed from the definition (square roots as uninterpreted functions shared by equal arguments); rankings of several '
        'trajectories are over arbitrary statistics.',
 'C27': 'multiprocessing.Pool is replaced by threads of which one runs at a time; the switch points are the accesses to the metadata shared by the workers and '
        'the solver chooses the schedule and the run which fails. Files are real, in a scratch directory.',
 'C29': 'str, format and round of symbolic numbers write out digits: their count and the trailing zeros are forked on, the other digits are symbolic characters, so that the '
        'string code of the package runs as it is; the texts are read back by an independent grammar and the number they mean is compared with the data for all '
        'digits. Names, stoichiometries and tables are solver-chosen.',
 'C28': 'The backend runs are replaced by arbitrary results, failures or interrupts of each run while the chemistry, its dumps, the history and the '
        'solution differences are the real ones; after each request the chemistry is compared with an independent stack of accepted removals, and '
        'the errors with their definition over the symbolic results. What a removal takes along is asked from another instance (C04).',
 'C30': 'Stand-ins for the data base objects (only what the import asks of them: rows with all, filter and count; data sets with their parameters and fits) hold symbolic '
        'numbers; the real builder writes the file and the real parser reads it back, and each datum is compared with an independent statement of the rules.',
}
MISSED = 'missed at first, caught after the check was strengthened'
SEED_RESULTS = {
    's62-formula-memo': MISSED,
    's63-stoich-memo': MISSED,
    's64-arrh-memo': MISSED,
    's66-mask-view': MISSED,
    's67-disabled-already': MISSED,
    's69-hash-start': MISSED,
    's70-copy-adhoc-protected': MISSED,
    's72-two-bodies-M': MISSED,
    's74-impact-parameter': MISSED,
    's76-same-array': MISSED,
    's77-error-base-memo': MISSED,
    's18-last-time': MISSED,
    's21-neutral-speed': MISSED,
    's22-stale-logs': MISSED,
    's26-error-scale': MISSED,
    's29-no-residual': MISSED,
    's31-ranges': MISSED,
    's36-streak': MISSED,
    's40-load-adhoc-rates': MISSED,
    's44-first-popped': MISSED,
    's46-negative-energy': MISSED,
    's47-three-alike': MISSED,
    's48-return-backflow': MISSED,
    's52-adhoc-nominal': MISSED,
    's51-doubly-charged': 'caught by C16 (C20 takes the generated densities as given)',
}

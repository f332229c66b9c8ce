"""Writes /verif/properties.jsonl (the property texts are kept here, one dict each)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))
PA, DI, AN = 'kinisi/parser.py', 'kinisi/diffusion.py', 'kinisi/analyzer.py'
DA, JA, CA, AR = 'kinisi/diffusion_analyzer.py', 'kinisi/jump_diffusion_analyzer.py', 'kinisi/conductivity_analyzer.py', 'kinisi/arrhenius.py'

p('C01', 'Unwrapped displacements do not depend on the periodic images recorded',
  'For a trajectory in a fixed cell in which no atom moves by half a cell or more along any lattice vector between consecutive frames, the displacement reported for each atom and frame equals its true continuous displacement from the first frame, whichever periodic images the frames record and however many boundaries are crossed, for orthorhombic and triclinic cells alike. When the cell changes between frames, each step contributes the difference of the two Cartesian positions reduced to its nearest image in the later frame\'s cell. Every supported input (pymatgen structures, ASE atoms, MDAnalysis universes) gives this same answer.',
  ['inputs', 'histories'], 'every walk (sequence of hops), every start position and every choice of recorded image per frame, every cell shape and cell history',
  'The tests parse a few recorded trajectories and mostly compare shapes; no test covers multi-image jumps, triclinic cells or a changing cell.',
  [PA], [('minimum-image step and cumulative sum', 'Parser.get_disp'), ('frame readers', 'ASEParser/PymatgenParser/MDAnalysisParser.get_structure_coords_latt')],
  [('dc', 'drift-corrected displacement of each site at each frame', 'Parser.dc')], ['Parser.get_disp', 'dc of the three parsers'])
p('C02', 'Every displacement window is present exactly once and paired with its interval',
  'For every evaluated time interval of t frames, multi-origin sampling yields, for each selected atom and in a fixed origin order, one observation for every window of t frames in the displacement series (the displacement reached after t steps, then every later value minus the value t steps before), while single-origin sampling yields only the displacement reached after t steps. The i-th observation array belongs to the i-th reported time interval, and the number of independent observations attached to it is (selected atoms) x (longest interval / interval), or the selected atoms alone with a single origin. An interval is dropped only when a single atom offers fewer than two non-overlapping windows, and dropping never shifts the pairing.',
  ['inputs', 'configurations'], 'every trajectory length, atom count and selection, sampling mode and interval grid',
  'Tests assert array shapes for one trajectory (and none for single-origin sampling); a wrong window, order or interval pairing has the same shape.',
  [PA], [('window construction', 'Parser.get_disps')], [('disp_3d', 'list of [atom, observation, axis] arrays', 'Parser.disp_3d'), ('n_o', 'independent observations per interval', 'Parser._n_o')], ['Parser.disp_3d', 'Parser.delta_t', 'Analyzer.to_dict'])
p('C03', 'The grid of time intervals honours min_dt, max_dt, n_steps and spacing',
  'The evaluated intervals are whole numbers of frames, strictly increasing, start at min_dt (default: one frame) and end at max_dt (default: the trajectory length) when at least two are requested, and there are as many as n_steps asks for or as many distinct ones as exist for linear spacing, at most that many for logarithmic spacing. Linear intervals are evenly spaced and logarithmic ones geometrically spaced, rounded down to whole frames, and the reported time of each is the number of frames times the frame spacing, exactly as decimal inputs say and not changed by floating-point rounding. An unknown spacing or sampling mode, or a min_dt that is not shorter than the trajectory, is rejected with a ValueError.',
  ['inputs', 'configurations'], 'every trajectory length, time_step, step_skip, min_dt, max_dt, n_steps and spacing',
  'Tests sample one time step (1.0) and one trajectory length, where rounding and the endpoint cases never show.',
  [PA], [('interval count clamp', 'Parser.__init__'), ('interval grid', 'Parser.get_time_intervals')], [('time_intervals', 'intervals in frames', 'Parser.time_intervals')], ['Parser.time_intervals', 'Parser.delta_t'])
p('C04', 'Drift correction removes exactly the mean motion of the chosen framework',
  'Reported displacements equal the raw displacements minus the plain average displacement of the framework atoms at each frame, so a rigid motion of the whole system never changes them. The framework is every atom that is not selected unless framework indices are given, in which case it is exactly those atoms, and an empty list (or no remaining atom) means no correction. The selected atoms are exactly those of the requested species (one or several) or the requested indices in the requested order, and requesting a species that is absent is rejected with a ValueError.',
  ['inputs', 'configurations'], 'every assignment of species to atoms, every selection and framework choice, every drift history, every parser',
  'Tests use one mobile atom with a symmetric framework and only compare None with an empty list; explicit framework lists and index selections with them are never run.',
  [PA], [('drift subtraction', 'Parser.correct_drift'), ('selection', 'get_indices of the three parsers, _get_framework')], [('indices / drift_indices', 'selected and framework atoms', 'Parser')], ['dc, indices, drift_indices, disp_3d'])
p('C05', 'Molecule displacements are those of the true mass-weighted centre',
  'When molecules are selected by lists of (one-based) indices, the displacement reported for each molecule is the displacement of its mass-weighted centre (plain centre when no masses are given), wherever the molecule lies relative to the cell boundaries, however its atoms are wrapped and whatever its internal motion, provided it spans less than half the cell. Molecules are reported in the order given, and drift is corrected with the atoms outside every molecule, or with the given framework indices, or not at all for an empty list. Molecules of unequal size, or masses whose number differs from the molecule size, are rejected with a ValueError.',
  ['inputs', 'histories', 'configurations'], 'every molecule placement, wrapping, conformation history, mass set and framework choice',
  'Tests check the centre of one three-atom molecule in its first frame at one place.',
  [PA], [('pseudo centre of mass', '_get_molecules')], (), ['dc, disp_3d, coords_check of the parsers'])
p('C06', 'All input routes agree, in picoseconds and angstroms',
  'The same physical trajectory given as pymatgen structures, an Xdatcar object, an XDATCAR file (time step in femtoseconds), ASE atoms or an MDAnalysis universe (time step in picoseconds) yields the same intervals in picoseconds, the same displacements and derived mean-squared quantities and uncertainties in angstrom units and the same cell volume, from each of the three analyzers. Reading only every k-th frame gives the result of analysing the thinned trajectory with a frame spacing k times as long, and reading only every k-th atom gives the result for those atoms alone (together with explicit indices it is rejected with a ValueError). Integer and floating-point time steps are equivalent.',
  ['inputs', 'configurations'], 'every trajectory, frame and atom thinning, time step and frame spacing, every analyzer and input route',
  'No test compares two routes; the only stable tests of the readers check indices and one frame.',
  [PA, AN, DA, JA, CA], [('route constructors', 'Analyzer._from_pymatgen/_from_ase/_from_Xdatcar/_from_file/_from_universe'), ('frame readers and unit conversion', 'ASEParser, PymatgenParser, MDAnalysisParser')], (), ['dt, msd/mstd/mscd and _std, dr, volume of the analyzers'])
p('C07', 'Several trajectories are pooled or joined without mixing or losing data',
  'For trajectories declared identical, every interval holds the observations of all trajectories as if they were further atoms, in the order given, with the intervals and volume of the first trajectory and the summed number of independent observations. For trajectories declared consecutive, the result is that of the single concatenated trajectory. Trajectories declared identical that differ in their intervals, windows or number of selected atoms are rejected with a ValueError and never mixed, as is an unknown declaration, and consecutive for universes.',
  ['inputs', 'configurations'], 'every number of trajectories, every content, every route and analyzer',
  'Tests (not among the stable ones) pass the same trajectory twice and look at shapes, which cannot show swapped, repeated or dropped trajectories.',
  [AN, DA, JA, CA], [('stacking', 'Analyzer._stack_trajectories'), ('joining', '_flatten_list and the dtype branches of Analyzer._from_*')], (), ['Analyzer.to_dict, msd/mstd/mscd'])
p('C08', 'Mean-squared (total, charge) displacements are the averages they claim to be',
  'At every reported interval the MSD is the average over atoms and observations of the squared displacement along the chosen axes, the MSTD the average over observations of the squared sum of displacements over atoms, and the MSCD the same with each displacement multiplied by the ion\'s charge, all restricted to the chosen axes. Each value is reported with its own interval, also when only every k-th interval is used; the MSD covers all intervals and the collective quantities the first half. The displacement lengths and non-Gaussian parameter reported per interval come from the same restricted displacements, and the reported position of its maximum is the interval where it peaks.',
  ['inputs', 'configurations'], 'every displacement array, axis choice, charge assignment and interval thinning',
  'Tests use random data and compare only array lengths and v = s**2.',
  [DI, DA, JA, CA, AN], [('estimators', 'MSDBootstrap/MSTDBootstrap/MSCDBootstrap.__init__'), ('non-Gaussian parameter', 'Bootstrap.ngp_calculation'), ('axis table', 'DIMENSIONALITY')], [('n, dt, ngp', 'estimates per interval', 'Bootstrap')], ['n, dt, ngp, euclidian_displacements; msd, mstd, mscd, dr, ngp_max'])
p('C09', 'Reported uncertainties scale with the independent observations of each interval',
  'By default the variance reported at an interval is the sample variance (n-1) of the squared quantity divided by the number of independent observations of that same interval (per atom for the collective quantities), and the standard deviation is its square root, also when only every k-th interval is used; these numbers of independent observations are reported with the intervals. With blocking requested, mean and variance are those of the optimal block of a reblocking analysis, or of the last block when there is none. With bootstrapping requested, the extra mean, variance and standard deviation are those of the resampled values of that interval and leave the default estimates unchanged.',
  ['inputs', 'configurations'], 'every displacement array, number of independent observations, interval thinning, axis choice and uncertainty method',
  'Tests pass constant numbers of observations and compare v with s**2 only.',
  [DI], [('variance rescaling', 'MSDBootstrap/MSTDBootstrap/MSCDBootstrap.__init__')], [('v, s', 'variance and standard deviation per interval', 'Bootstrap'), ('n_o', 'independent observations', 'Bootstrap')], ['v, s, n, to_dict'])
p('C10', 'The covariance matrix follows the model and respects the condition limit',
  'The covariance matrix used for a fit covers exactly the intervals not before the given start, is symmetric and positive semi-definite, and its condition number does not exceed the requested maximum. Before reconditioning, element (i, j) with i <= j is the variance at interval i times the ratio of the independent observations at i and j, the variances being the estimated ones or, when modelling is requested, a least-squares fit of a non-negative multiple of time squared over independent observations. Reconditioning raises eigenvalues below (largest eigenvalue / maximum condition number) to that value and changes nothing else.',
  ['inputs', 'configurations'], 'every set of variances, numbers of observations, start time, condition limit and variance model',
  'Tests assert the matrix shape, and reconditioning only on random matrices with limit 1.',
  [DI], [('covariance model', '_populate_covariance_matrix, Bootstrap.generate_covariance_matrix'), ('reconditioning', 'minimum_eigenvalue_method')], [('covariance_matrix', '', 'Bootstrap')], ['covariance_matrix'])
p('C11', 'Fits sample the generalised-least-squares posterior of the diffusive regime only',
  'The gradient and intercept samples follow the posterior proportional to the multivariate normal likelihood of the mean-squared values at the intervals not before the given start, with the reported covariance matrix and a straight line in time, restricted to non-negative gradients. Data before the start have no influence on the fit. Without an intercept the line goes through the origin, and no sampled gradient is negative.',
  ['inputs', 'configurations'], 'every data set, start time, covariance model and fit option; every gradient and intercept on a grid',
  'Tests check sample counts and types, never the target distribution or which points enter.',
  [DI], [('likelihood and sampler set-up', 'Bootstrap.bootstrap_GLS')], [('flatchain', 'posterior samples', 'Bootstrap')], ['gradient, intercept, flatchain, D'])
p('C12', 'Transport coefficients are the documented conversions of every posterior sample',
  'After a fit, each sample of D is gradient/(2 d) in cm2/s, of D_J gradient/(2 d N) with N the number of mobile particles, and of the conductivity gradient/(2 d) e2/(V k T) in mS/cm, V being the volume of all cells that hold the particles and d the number of chosen axes, with gradients in angstrom2/ps, sample for sample and in the same order as the intercept samples. The number of samples is walkers times the whole number of kept steps (sampling steps divided by thinning, burn-in excluded). The sample table and the plotted lines are built from exactly these samples, also when no intercept is fitted.',
  ['inputs', 'configurations'], 'every analyzer, axis choice, atom count, volume, temperature and sampler setting',
  'Tests check sample counts for a few settings; no test checks a conversion factor, a volume or a temperature.',
  [DI, AN, DA, JA, CA], [('conversions', 'Bootstrap.diffusion/jump_diffusion/conductivity'), ('accessors', 'flatchain, distribution, D, D_J, sigma of the analyzers')], (), ['D, D_J, sigma, intercept, flatchain, distribution'])
p('C13', 'A seeded computation is reproducible whatever happened before',
  'A fit, or a bootstrap estimate, that is given a random state with a certain seed returns exactly the same samples every time, independently of anything the process computed before: global random state, other analyzers, earlier fits with or without seed, progress bars, saving and loading. Different seeds give different samples.',
  ['histories', 'inputs'], 'every sequence of preceding operations up to a bound, every seed and analyzer',
  'Tests compare two bootstrap estimates made back to back; the fit itself is never compared, nor any history in between.',
  [DI], [('seeding', 'Bootstrap.bootstrap_GLS'), ('resampling', '_bootstrap, Bootstrap.sample_until_normal')], [('np.random global state', 'used by the sampler', 'numpy')], ['gradient, intercept, D, distributions'])
p('C14', 'Results depend only on the data and the last fit, not on earlier fits',
  'After any sequence of fits with different start times and options, posterior predictive draws, property reads and dictionary or file round trips, the state of an analyzer equals that of a fresh analyzer on the same data on which only the last fit was made. Round trips at any point of such a history change nothing that a later fit or read can observe. Fitting never alters the mean-squared values, uncertainties or intervals.',
  ['histories'], 'every sequence of operations up to a bound on each analyzer',
  'Tests fit each object once, and never fit a restored object.',
  [DI, AN, DA, JA, CA], [('state overwrite per fit', 'Bootstrap.bootstrap_GLS'), ('state restore', 'Bootstrap.from_dict, Analyzer.load')], [('start_dt, model, cond_max, covariance_matrix, gradient, intercept', 'state of the last fit', 'Bootstrap')], ['to_dict and public properties'])
p('C15', 'Saving and restoring an analyzer preserves everything it reports',
  'An analyzer restored from its dictionary or its saved file, at any stage of the analysis and any number of times in a row, reports the same intervals, mean-squared values, uncertainties, displacement lengths, coefficients, intercept, sample tables, covariance matrix, displacements and volume as the original, and accepts the same further operations with the same results. This holds for every analyzer and every option, including axis choices, interval thinning, bootstrapping and fits without intercept. A restored analyzer can itself be saved and restored.',
  ['histories', 'configurations'], 'every analyzer, option set, stage and chain of round trips up to a bound',
  'Tests restore one default analyzer once from a dictionary; saving a fitted or restored analyzer is never tested.',
  [AN, DI, DA, JA, CA], [('HDF5 mapping', '_dict_to_group, _group_to_dict'), ('dictionary mapping', 'to_dict/from_dict')], (), ['public properties after from_dict and load'])
p('C16', 'Saving writes only the named file and never overwrites one',
  'Saving under a name writes exactly one file: that name with its extension, if any, replaced by .hdf, in the directory the name says, whatever dots the directories contain. If that file exists already, saving raises a ValueError and leaves it byte for byte unchanged, and a file that another process creates under that name while the saving is under way is never overwritten either; no other file is created, changed or removed. Loading under a name with any extension reads that same file, returns what was saved there last, and changes nothing.',
  ['histories', 'inputs'], 'every sequence of save, load and delete operations over a set of names up to a bound, and every schedule of two processes with one or two preemptions',
  'Tests save once under one plain name in the working directory.',
  [AN], [('file naming and existence check', 'Analyzer.save, Analyzer.load')], (), ['directory contents and file bytes'])
p('C17', 'An interrupted save is never restored as a shortened analyzer',
  'If saving fails or the process dies at any point while the file is being written, loading that file afterwards either raises an error or returns an analyzer that reports everything the saved one did. It never returns an analyzer with missing or shortened data. Other files are unaffected.',
  ['crash_points', 'fault_sequences'], 'every write of the save as failure point, with an error or an abrupt end of the process, for every analyzer and stage',
  'No test injects a failure.',
  [AN, DI], [('order of writes and required keys', '_dict_to_group, Bootstrap.from_dict, Analyzer.from_dict')], (), ['result of load after an interrupted save'])
p('C18', 'The memory limit is enforced before displacements are built',
  'With multi-origin sampling, parsing raises a MemoryError exactly when the displacement values of all requested intervals together would need more than the limit in gigabytes (10^9 bytes), counting every selected atom, observation and axis; the default limit is 8. With any sampling, parsing that succeeds never holds more displacement data than the limit. Raising or lowering the limit has no other effect on the result.',
  ['inputs', 'configurations'], 'every trajectory size, selection and interval grid, with limits on either side of the boundary',
  'No test sets the limit.',
  [PA], [('memory estimate', 'Parser.get_disps')], (), ['MemoryError, total bytes of disp_3d'])
p('C19', 'Inputs are left untouched and progress bars change nothing',
  'Constructing and using parsers, analyzers, estimators and Arrhenius models never modifies the objects, arrays, lists or parameter dictionaries passed in, so the same inputs can be reused in any order with the same results. Showing progress bars or not gives identical results everywhere.',
  ['histories', 'configurations'], 'every public entry point and option that takes user data, and every order of reuse up to a bound',
  'Tests build fresh inputs for each case and check at most that a progress bar object exists.',
  [PA, DI, AN, DA, JA, CA, AR], [('copies at the boundary', 'parsers, Bootstrap.__init__, Analyzer._from_*')], (), ['inputs before and after; results with progress on and off'])
p('C20', 'Bootstrap resampling stops when normal or at its limit, with true resample means',
  'Bootstrap resampling starts with the requested number of resamples and adds batches of 100 as long as the normality test fails at the given level and the maximum is not reached, then stops, so it always terminates with at least the requested number and fewer than 100 beyond the maximum; reaching the maximum gives a warning, and stopping below it gives none. Every resampled value is the mean of the requested number of observations drawn with replacement from the data with equal chance, and values drawn earlier are kept when batches are added.',
  ['schedules', 'inputs', 'configurations'], 'every sequence of normality-test answers and every sequence of random draws up to a bound',
  'Tests fix a seed, so one answer sequence and one draw sequence is seen.',
  [DI], [('resampling loop', 'Bootstrap.sample_until_normal'), ('resample means', '_bootstrap')], (), ['returned distribution, warnings'])
p('C21', 'Arrhenius models evaluate their formula and start from their own bounds',
  'The standard model evaluates A exp(-Ea/(kB T)) and the super-Arrhenius model A exp(-Ea/(kB (T - T0))) with Ea in electronvolts and T in kelvin; activation energy, prefactor and T0 are the model\'s variables in that order, and the plotted lines and extrapolated values are the formula applied to every sample of those variables. Default bounds are 0 to 1 eV, 0 to 1e20 and 0 K to the model\'s own first temperature, whatever models were created before. Bounds passed in are used as given and not modified.',
  ['inputs', 'histories'], 'every temperature, parameter set and sequence of model constructions up to a bound',
  'Tests evaluate each formula at one point and build one model with explicit bounds.',
  [AR], [('formulae', 'arrhenius, super_arrhenius'), ('bounds', 'StandardArrhenius/SuperArrhenius.__init__')], (), ['bounds, variables, extrapolate, distribution'])
p('C22', 'Posterior predictive draws come from sampled lines and the fitted covariance',
  'Posterior predictive sampling returns (posterior draws) x (predictive draws) rows over exactly the intervals not before the start time. Each block of predictive draws scatters, with the fitted covariance matrix, around one straight line whose gradient and intercept (zero if none was fitted) belong to one and the same posterior sample, and by default there are as many blocks as posterior samples. It leaves the analyzer unchanged.',
  ['inputs', 'configurations'], 'every posterior sample set, start time and draw counts up to a bound',
  'Tests look at the shape for one setting.',
  [DI, AN], [('predictive sampling', 'Bootstrap.posterior_predictive')], (), ['returned array'])
p('C23', 'Credible intervals are statistically calibrated',
  'Over repeated independent simulations of the same diffusive system, the reported credible intervals of the diffusion coefficient contain the true coefficient at their nominal rate and their median is unbiased.',
  ['inputs'], 'the probability distribution of all simulations of a system',
  'Tests see single data sets; coverage is a frequency over an unbounded population.',
  [DI], [('covariance model and posterior sampling', 'Bootstrap.bootstrap_GLS')], (), ['D'])
p('C24', 'A failed or interrupted fit leaves the previous results in place',
  'If a fit raises an error (an unsuitable start time or option, an error during sampling) or is interrupted at any point, the analyzer afterwards reports exactly what it reported before: coefficient, intercept, sample table, covariance matrix, plotted lines and posterior predictive draws all belong to the same earlier fit, or to none. Only when the new fit was already complete may they all belong to the new one. The fit can then be repeated with the result it would have had. Posterior predictive draws, saving and dictionary export that fail or are interrupted change nothing in the analyzer.',
  ['crash_points', 'histories'], 'every point of a fit at which an error or interrupt can occur, after every fit history up to a bound',
  'Tests only see fits that succeed.',
  [DI, DA, JA, CA], [('fit', 'Bootstrap.bootstrap_GLS'), ('conversion', 'Bootstrap.diffusion, jump_diffusion, conductivity')], (), ['D, D_J, sigma, intercept, flatchain, distribution, covariance matrix, posterior predictive after the exception'])
p('C25', 'Warnings about triclinic cells and time units are given exactly when they apply',
  'Reading a trajectory in which the cell vectors of any frame are not along x, y and z (a triclinic or rotated cell) gives a UserWarning that the axes a, b, c are not x, y, z; a trajectory whose cells are all orthorhombic and aligned gives none. The inputs whose time step is in femtoseconds (pymatgen structures, Xdatcar objects and files) give a UserWarning that says so every time, the others never do.',
  ['inputs', 'configurations'], 'every set of non-zero off-diagonal cell elements in every set of frames, for every route and analyzer',
  'Tests do not look at warnings.',
  [PA], [('triclinic test', 'Parser.get_disp'), ('unit reminder', 'PymatgenParser.__init__')], (), ['warnings issued'])
p('C26', 'The same motion described in another way gives the same results',
  'Describing the same physical motion differently changes what is reported only as the description demands: a different origin, order of the atoms (with indices, molecules and charges relabelled alike) or of the molecules, other axes (with the chosen dimensions relabelled), a mirror image, a rotated frame, another choice of lattice vectors for the same lattice, or a motion common to all atoms when a framework is followed, all leave time intervals, mean-squared displacements, uncertainties and displacement lengths the same; scaling all lengths by s scales displacement lengths by s, squared ones by s^2 and the volume by s^3; scaling the time step (and the limits on the intervals) scales the intervals alone; scaling the charges by c scales the charge displacements by c^2.',
  ['inputs', 'configurations'], 'every motion, input route, analyzer and description of it',
  'Tests look at one description of each trajectory.',
  [PA, AN, DI], [('unwrapping', 'Parser.get_disp'), ('molecules', '_get_molecules'), ('drift', 'Parser.correct_drift'), ('axes', 'DIMENSIONALITY')], (), ['dt, mean-squared displacements, uncertainties, dr, ngp_max, volume'])
p('C27', 'Different analyses of the same trajectory agree with each other',
  'For one trajectory: mean-squared displacements along several axes are the sums of those along each; total and unit-charge displacements (and their uncertainties) are the same, the mean-squared charge displacement is a quadratic form of the charges, and for a single ion the own, total and unit-charge displacements coincide; the mean over several ions is the mean of their means, in any order and whether chosen by name or index; the mean and the displacement lengths at an interval do not depend on which other intervals are analysed; and with the same data and seed sigma equals N e^2 D_J / (V k T).',
  ['inputs', 'configurations'], 'every trajectory, input route, set of axes, ions, charges and intervals',
  'Tests compare single results with stored numbers, never two analyses with each other.',
  [PA, DI, DA, JA, CA], [('intervals', 'Parser.get_disps'), ('estimators', 'MSDBootstrap, MSTDBootstrap, MSCDBootstrap'), ('conversions', 'Bootstrap.jump_diffusion, Bootstrap.conductivity')], (), ['dt, mean-squared displacements, uncertainties, dr, D_J, sigma'])
p('C28', 'Requests that cannot be answered are refused with an error',
  'An analysis that is asked for ions that are not there (ValueError) or for none at all (TypeError), molecules of different lengths or masses that do not match them (ValueError), an unknown spacing, sampling or kind of trajectory series (ValueError), a first interval as long as the trajectory or longer (ValueError), more memory than allowed (MemoryError), thinned atoms together with chosen indices (ValueError), unknown or missing parameters (TypeError), indices beyond the atoms, unknown axes or a wrong number of charges, or a fit from a start after the last interval or with impossible sampling options, ends in an error and never in results for something else; so does any combination of these, and the same request without the fault is answered afterwards as before.',
  ['inputs', 'configurations', 'histories'], 'every fault and pair of faults, input route, analyzer, selection and sequence of refused requests',
  'Tests try one fault each on one route.',
  [PA, AN, DI], [('parser errors', 'Parser.__init__, get_disps, _get_molecules'), ('dtype', 'Analyzer._from_*'), ('axes', 'Bootstrap.__init__')], (), ['exceptions', 'reports afterwards'])
p('C29', 'Averaged over all possible motions, means are unbiased and variances honest',
  'For atoms that step at random without a preferred direction, averaged over every motion they can make: the mean-squared displacement reported at an interval is the mean-squared step times the number of steps, for any axes (times the number of atoms for the total displacement, the summed squares of the charges for the charge displacement, and with the share of the framework added when its drift is removed); and the variance reported with it is the variance of that mean wherever the observations are independent of each other (intervals of one frame, of the whole trajectory, and single origins), never less when only short intervals are asked for, and close to it in between.',
  ['inputs', 'configurations'], 'every random motion of any number of atoms and frames, selection, framework, axes, sampling and analyzer',
  'Tests look at single motions, for which neither the true mean nor its variance is known.',
  [PA, DI], [('observations and their number', 'Parser.get_disps'), ('estimators', 'MSDBootstrap, MSTDBootstrap, MSCDBootstrap'), ('drift', 'Parser.correct_drift')], (), ['n, v, dt'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=False) + '\n')
print(len(P))

"""Writes /verif/properties.jsonl (run from anywhere)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    **({'state': state} if state else {}),
                    'observe_at': observe, 'hook_needed': None}})


prop('C01', 'Parallel kernels equal their serial results under every thread schedule',
     'Limb-darkening evaluation, disc integration and the histogram kernels give, when run with several threads, the same numbers as the serial computation, for every number of threads and every interleaving of those threads. No two threads ever touch the same memory location without synchronisation when one of them writes, and no thread reads or writes outside the arrays it was given.',
     ['schedules', 'inputs'], 'All interleavings of the memory accesses of up to 3-4 threads over arrays of up to 6 elements, for each parallel entry point.',
     'The unit tests run each parallel routine a few times on whatever schedule the OS happens to produce, on one array length; a racy accumulator almost always still gives the right sum.',
     ['cpp-ld-funcs/ld_funcs/ld_functions.cpp', 'cpp-disc-integrator/disc_integrator/disc_integrals.cpp', 'cpp-numintegrator/num_integrator/num_integration.cpp', 'histogram_maker/hogg_jacky/cython_jacky/*.pyx'],
     [('OpenMP worksharing loops over private indices', 'ld_functions.cpp, disc_integrals.cpp'), ('prange loops and reductions', 'cython_jacky_*.pyx')],
     ['return values and output arrays of the parallel entry points', 'memory accesses of the compiled loops'])

prop('C02', 'Tabulated integrals follow the composite trapezoid and Simpson rules',
     'Integrating tabulated samples gives the composite trapezoid value for any strictly increasing grid, and the composite Simpson value for an odd number of equally spaced samples; a Simpson request on any other grid gives the trapezoid value instead. The result does not depend on the order in which integrals are requested, nor on earlier integrals.',
     ['inputs', 'histories'], 'All small sample vectors over a small value alphabet on all small grids (even/odd sizes, equal/unequal spacing), both rules, and all short sequences of integrations.',
     'The tests integrate a handful of fixed functions on fine grids with loose tolerances, so a wrong end weight, a parity slip or state carried between calls stays invisible.',
     ['cpp-numintegrator/num_integrator/num_integration.cpp', 'cpp-numintegrator/num_integrator/libcpp_num_integrator.pyx'],
     [('NumericalDoubleInputIntegrator::trapz / simpson', 'num_integration.cpp')],
     ['integrate() of the compiled module'])

prop('C03', 'Disc integrals cover exactly the visible hemisphere with the limb-darkening law',
     'The limb-darkening law returns 1 + 1.5*mu element by element. The two disc integrals equal the composite trapezoid or Simpson quadrature, over exactly those (equally spaced) samples with 0 <= mu <= 1 and in their original order, of mu*f(mu)*LD(mu) and of (2*mu*f\'(mu) + (mu^2-1)*f\'\'(mu))*LD(mu)*mu, whatever lies outside that range and whichever threads and rules are chosen; fewer than two visible samples integrate to zero.',
     ['inputs', 'configurations'], 'All placements of small sample sets over mu in [-1, 1] (including the end points and values just outside), all small integrand vectors, both quadrature rules, serial and parallel.',
     'Existing tests use one symmetric grid and smooth functions; samples at exactly mu=0 or mu=1, odd numbers of visible samples or junk in the hidden hemisphere are never exercised.',
     ['cpp-disc-integrator/disc_integrator/disc_integrals.cpp', 'cpp-disc-integrator/disc_integrator/libcpp_disc_integration.pyx', 'cpp-ld-funcs/ld_funcs/ld_functions.cpp', 'cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx'],
     [('mu filter and integrand construction', 'disc_integrals.cpp')],
     ['first/second disc integral of the compiled module', 'evaluated limb-darkening arrays'])

prop('C04', 'Numerical derivatives are exact for polynomials the scheme can represent',
     'The arbitrary-grid finite-difference derivative reproduces the exact derivative, at every grid point including the edges, of every polynomial of degree not above its accuracy order, on every strictly monotonic grid. The differentiator object returns, for each of its methods and both derivative orders it offers, the derivative its stencil defines, is linear in its input, and does not alter its inputs.',
     ['inputs', 'configurations'], 'All monotonic grids built from a small set of spacings, all monomials up to the accuracy order, all accuracies, derivative orders and methods.',
     'The tests differentiate sin/cos-like functions on one equidistant grid and compare loosely; edge points, uneven grids and high orders are not covered.',
     ['fornberg-num-deriv/fornberg_num_deriv', 'num-tools/num_deriv/num_deriv.py', 'num-tools/num_deriv/stencils.py'],
     [('Fornberg weights on a sliding window', 'fornberg-num-deriv'), ('stencil kernels', 'num_deriv.py')],
     ['arrays returned by the compiled module', 'NumericalDifferentiator.differentiate'])

prop('C05', 'Pairing functions are one-to-one, invertible and symmetric where promised',
     'Each pairing function maps different pairs of admissible integers to different non-negative integers, and the symmetric ones give the same number for a pair and its reverse and for nothing else. Each inverse returns the pair that was encoded (in its canonical order for the symmetric ones), for every lowest admissible integer, for integers up to about a million above it.',
     ['inputs'], 'All pairs of integers in a square window above each lowest integer, plus windows at large magnitudes.',
     'There is no test for the inverses, and injectivity is a statement about all pairs at once.',
     ['py-combinations/pairing_functions/cantor_pairing.py', 'py-combinations/pairing_functions/symmetric_pairing.py', 'py-combinations/pairing_functions/xie_pairing.py'],
     [('closed-form encoding and inverse', 'pairing_functions/*.py')], ['returned integers and pairs'])

prop('C06', 'Combination sets list every combination exactly once, with the right count',
     'The list of two-element combinations of one set, of the Cartesian product of two sets, and of the symmetric product of two sets contains each admissible combination exactly once and nothing else, the last one treating (a, b) and (b, a) as the same pair and keeping (a, a) only if asked. The reported cardinality always equals the length of that list.',
     ['inputs'], 'All sets (ordered, overlapping, disjoint, nested, singletons) over a small universe, all combination sizes, with and without diagonal.',
     'The tests use a few hand-picked sets; overlap patterns in which an element order differs between the two sets are not among them.',
     ['py-combinations/py_combinations'],
     [('combination generation and cardinality formula', 'single_set_combinations.py, cartesian_combinations.py, symmetric_product.py')],
     ['.l and .c of the combination objects'])

prop('C07', 'The triad generator produces exactly the requested mode triads',
     'For requested inclusive radial-order ranges, the generator lists every triad (driven, damped 1, damped 2) once: all unordered daughter pairs with one member in each range (equal orders included) if two damped ranges are given and all unordered distinct daughter pairs if only one is given, each combined with every driven order. The list of degrees and azimuthal orders is handed through unchanged, and the per-triad average radial order and Wu difference statistic belong to the triad at the same position.',
     ['inputs', 'configurations'], 'All small driven/damped ranges (overlapping, nested, disjoint, single-valued), with one and two damped ranges and several degree/order lists.',
     'Four tests compare one fixed range; duplicated or missing triads only show for particular range overlaps.',
     ['aesolver/aesolver/mode_input_generator/input_generator.py', 'py-combinations/py_combinations'],
     [('range expansion and product with daughters', 'input_generator.py'), ('statistics per combination', 'input_generator.py')],
     ['combinations_radial_orders, average_radial_orders, wu_difference_statistics, mode_l, mode_m'])

prop('C08', 'A triad is accepted exactly when selection rules and excitation conditions hold',
     'A mode triad passes the quadratic pre-check if and only if its (conjugation-adapted) azimuthal orders add up to zero, its meridional orders have an even sum, and its linear growth rates satisfy the condition of the interaction type asked for, including linear stability of the fixed point. The verdict depends only on the triad presented, not on triads checked before or on how the conjugation request was spelled.',
     ['inputs', 'configurations', 'histories'], 'All degrees up to a small bound with all azimuthal orders, all conjugation patterns (absent, boolean, per mode), all sign and ordering patterns of the growth rates and detunings over a small alphabet, all trigger combinations.',
     'The parametrised tests fix one triad and vary few flags; most combinations of conjugation, sign of m and growth-rate pattern never run.',
     ['aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py', 'aesolver/aesolver/pre_checks/specific/three_mode_checks.py'],
     [('azimuthal and meridional selection rules', 'generic_quadratic_checks.py'), ('parametric/direct/driven conditions', 'three_mode_checks.py')],
     ['check() and generic_check() verdicts'])

prop('C09', 'Mode frequencies are consistent across units and reference frames',
     'For every supported frequency unit and for modes given in the inertial or the co-rotating frame, the frequency handler reports inertial = co-rotating + m * rotation, the angular and the cyclic version differing by 2*pi, and the same physical frequencies whichever unit and frame they were supplied in. Dimensionless frequencies, spin factors 2*Omega/omega, detunings omega_1 - omega_2 - omega_3, linear driving rates, quality factors and their products follow from those frequencies, mode by mode.',
     ['inputs', 'configurations'], 'All supported units x frames x adiabatic/non-adiabatic x azimuthal-order triples x a small alphabet of frequencies and rotation rates.',
     'The tests check one unit and one frame with all modes alike; units that are rarely used and mixed azimuthal orders are not covered.',
     ['aesolver/aesolver/frequency_handling/frequency_handler.py', 'aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py'],
     [('unit conversion factors', 'enumeration_freq_converter_normalization.py'), ('frame shift and derived quantities', 'frequency_handler.py')],
     ['properties and getters of the frequency handler'])

prop('C10', 'Stationary amplitudes and phases solve the amplitude equations',
     'Whenever a triad is accepted, the reported stationary amplitudes, relative phase and threshold amplitude satisfy the quadratic amplitude equations: inserting them makes all amplitude and phase derivatives vanish, and the parametric threshold is the parent amplitude at which the daughters become unstable. Surface luminosity fluctuations are the amplitudes times the luminosity perturbation, disc integral and viewing-angle factor of the same mode; a rejected triad gets no solution.',
     ['inputs', 'configurations'], 'All sign-consistent combinations of growth rates, detuning, coupling coefficient, quality factors from a small alphabet, all pre-check/hyperbolicity verdicts, real and complex terms.',
     'The tests compare with a re-typed copy of the same formulas for one set of numbers, so a wrong pairing of quality factors to modes survives whenever values coincide.',
     ['aesolver/aesolver/stationary_solving/three_mode/three_mode_stationary.py', 'aesolver/aesolver/stationary_solving/generic/stationary_solve.py'],
     [('closed form of the fixed point', 'three_mode_stationary.py')], ['dictionary returned by the stationary solver'])

prop('C11', 'Stability verdicts agree with the linearised amplitude equations',
     'The hyperbolicity verdict is true exactly when no eigenvalue of the Jacobian has zero real part, and the Jacobian is the derivative of the amplitude equations at the fixed point. The analytic three-mode and two-mode stability conditions return true exactly when the amplitude equations linearised about the fixed point are stable, in particular only if the growth rates sum to a negative number.',
     ['inputs'], 'All matrices with entries from a small alphabet with known spectra, all growth-rate/detuning triples from a small alphabet.',
     'Tests use a few matrices and one set of rates per condition.',
     ['aesolver/aesolver/stability_checker'],
     [('eigenvalue test', 'hyperbolicity/hyperbolicity_checker.py'), ('inequalities', 'three_mode/, two_mode/')],
     ['boolean verdicts and Jacobian matrices'])

prop('C12', 'Angular coupling integrals obey the azimuthal selection rule and quadrature',
     'The integral over the sphere of a product of three angular mode functions is exactly zero unless the azimuthal orders, with a sign change for every conjugated mode, add up to zero, and otherwise equals 2*pi times the integral over colatitude of the product of the functions and of any extra factors. The value does not depend on the order in which the three modes are listed, and every supported spelling of the conjugation request means the same thing.',
     ['inputs', 'configurations'], 'All azimuthal-order triples in a window, all conjugation patterns, all assignments of three distinguishable angular functions to the modes, all extra-factor choices, both quadrature methods.',
     'No test exercises the angular integration on its own.',
     ['aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py', 'aesolver/aesolver/angular_integration/rotating_tar_angular/hough_function_handler.py'],
     [('selection rule and theta quadrature', 'hough_integration.py')], ['value of the angular integral'])

prop('C13', 'The coupling coefficient is symmetric and correctly normalised',
     'The quadratic coupling coefficient of a triad does not change when the three modes are listed in another order, is zero if the azimuthal selection rule fails, is linear in each mode\'s eigenfunction before normalisation and does not depend on the overall scale of any eigenfunction after normalisation. Every one of its four contributions keeps these symmetries, and they add up to the total, also point by point for the radial profile. The contributions equal the integrals of the third-order perturbation tensors of the displacements (conjugated as requested); without rotation, triads of the same degrees depend on the azimuthal orders through the 3j symbol only; the normalised modes have the reference energy.',
     ['inputs', 'configurations'], 'All permutations of small synthetic mode triads (all small degree/order combinations), all conjugation patterns, several small structure models, adiabatic/polytropic options.',
     'The only tests of this module check initialisation; no number it computes is verified.',
     ['aesolver/aesolver/coupling_coefficients'],
     [('symmetrised sums of radial times angular integrals', 'quadratic_coupling_coefficient_rotating.py'), ('mode energies and normalisation', 'coefficient_support_classes/super_coupling_coefficients.py')],
     ['coupling_coefficient and normalised terms of the coupling object'])

prop('C14', 'Grid computations keep every triad\'s results at its own place',
     'In a grid computation the entry at position i of every result list is computed from the modes of triad i alone: it equals the entry obtained when that triad is computed on its own, whatever triads were computed before or after it and whatever their pre-check outcome was. A triad that fails the pre-check, or whose fixed point is not hyperbolic, never inherits numbers of an earlier triad.',
     ['histories', 'inputs'], 'All sequences up to a small length of triads from an alphabet of accepted, rejected, hyperbolic and non-hyperbolic triads.',
     'No test runs the solver over more than one triad.',
     ['aesolver/aesolver/solver/quadratic_solver.py', 'aesolver/aesolver/solver/quadratic_grid.py', 'aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py'],
     [('per-triad computation storing into preallocated lists', 'quadratic_solver.py'), ('same, newer class hierarchy', 'solver_base_classes/quadratic_solver.py, quadratic_grid.py')],
     ['coupling_info, mode_freq_info, stat_sol_info, coupling_statistics'])

prop('C15', 'Saved results read back exactly, whatever was saved before',
     'After a save, the HDF5 file holds, under the documented groups, exactly the values handed in, with their shapes, types and attributes; in read-write mode the latest save wins whatever the shape and type of an earlier dataset of the same name, in append mode earlier datasets are kept, and in write mode nothing earlier survives. Entries that were not part of a save are left untouched.',
     ['histories', 'inputs'], 'All sequences of up to 3 saves over an alphabet of modes, dataset names and values (scalars, vectors and matrices of different sizes and types, strings, booleans, missing values).',
     'There is no test for saving; the interplay of an old and a new dataset of the same name needs at least two saves.',
     ['aesolver/aesolver/data_handling/data_specific/hdf5_saver.py', 'aesolver/aesolver/data_handling/data_specific/hdf5_specific', 'aesolver/aesolver/data_handling/enumeration_files'],
     [('in-place overwrite or delete-and-create', 'overwrite_dataset.py'), ('group and attribute creation', 'hdf5_saver.py')],
     ['contents of the HDF5 file read with h5py'])

prop('C16', 'Every saved quantity carries its own name and its own triad\'s value',
     'Unpacking a finished solver run gives, for each documented output name, the solver\'s value of that very quantity, with row i belonging to triad i and missing values where no stationary solution exists. The mode statistics, frequencies, coupling data, validity flags and mode identifications are never swapped, shifted or truncated. The file of a save lies inside the requested folder and sub-folder under the requested name completed with the mode identification, and saves elsewhere are left alone.',
     ['inputs', 'histories'], 'All runs of up to 3 triads over an alphabet of solved and unsolved entries, with every field carrying a distinguishable value.',
     'There is no test for the unpacking of results, and a swap of two quantities of the same type is invisible unless all values are distinguishable.',
     ['aesolver/aesolver/data_handling/unpacker.py', 'aesolver/aesolver/data_handling/storer.py', 'aesolver/aesolver/solver/quadratic_solver.py'],
     [('tuple positions to named fields', 'unpacker.py'), ('statistics stored per triad', 'quadratic_solver.py')],
     ['attributes and dictionaries of the unpacker', 'datasets written for a run'])

prop('C17', 'Loading a triad reads exactly the files of the requested modes',
     'Given a directory listing, the sub-selection for a requested degree, azimuthal order and radial order returns all and only the file names that carry exactly those numbers (and any extra requested substring), never a file of another mode whose name merely contains similar digits. The model loader attaches to each role of the triad the contents of the file of that role, and refuses to continue if a mode matches no file or more than one. Structure files are told apart by their full suffix and substrings, every column and header value is stored under its own name in the requested units, and a directory that was not given is inferred only when exactly one sub-directory bears its name.',
     ['inputs', 'configurations'], 'All small file-name grammars: degrees, signed azimuthal orders and radial orders with one to three digits, prefixes and suffixes, all requested triples, all small directory contents.',
     'There is no test for the selection; confusion between n=1, n=11 and n=101 needs those files side by side.',
     ['aesolver/aesolver/model_handling/subselection_classes.py', 'aesolver/aesolver/model_handling/load_models.py', 'aesolver/aesolver/model_handling/read_models.py'],
     [('regular-expression conditions per mode', 'subselection_classes.py'), ('one file per mode', 'load_models.py')],
     ['selected file paths', 'loaded dictionaries'])

prop('C18', 'Inlists yield the typed user settings over the defaults',
     'Reading an inlist gives every setting with the value and type written by the user, and the default value for each setting the user did not mention; comments, blank lines, indentation and the order of lines do not matter. In TOML inlists an empty table stands for "no value", at every nesting depth and nowhere else. The run parsers hand every setting to the role it is written for.',
     ['inputs', 'programs'], 'All small inlist texts built from a grammar of value spellings (integers, floats, exponents, booleans, strings, lists, tuples, none), comments and spacing, all subsets of user-set options over the defaults.',
     'Two tests read one fixed file.',
     ['util-tools/inlist_handler/inlist_handler.py', 'util-tools/inlist_handler/toml_inlist_handler.py'],
     [('value typing', 'inlist_handler.py'), ('none adjustment', 'toml_inlist_handler.py')],
     ['returned dictionaries'])

prop('C19', 'File paths and run arguments resolve to the documented location',
     'A requested input file is looked up in the documented order of locations and the first existing one is returned as an absolute path; a file that exists nowhere is never returned silently. A parser given a file name in any supported way (explicit file, directory plus default name, command line) reads that same file. The run scripts find their inlist from any working directory and use the save name of their command line.',
     ['configurations', 'inputs'], 'All existence patterns of the candidate locations, all combinations of the path options.',
     'There is no test for path resolution; each configuration needs its own directory tree.',
     ['util-tools/path_resolver/resolve_paths.py', 'util-tools/generic_parser/generic_parser.py', 'aesolver/aerunners'],
     [('candidate order', 'resolve_paths.py'), ('initialisation modes', 'generic_parser.py')],
     ['returned paths', 'parsed settings'])

prop('C20', 'All histogram backends count every datum exactly once',
     'For every data set and bin number, each histogram backend puts every non-missing datum in exactly one bin, so that the counts add up to the number of valid data, agree with the equal-width reference histogram and with each other; probabilities add up to one and densities integrate to one (with the documented pseudo-count). Missing values never change the result.',
     ['inputs', 'configurations'], 'All data vectors of small length over a small value alphabet (including repeated values, bin-edge values and missing values), all small bin numbers, all backends, serial and parallel.',
     'Tests compare two backends on one random sample per test; edge-valued data and missing values are not covered.',
     ['histogram_maker/hogg_jacky'],
     [('binning and normalisation', 'blas_jacky.py, numexpr_jacky.py, numpy_iterator_jacky.py, cython_jacky/*')],
     ['returned counts, edges, probabilities and densities'])

prop('C21', 'The jackknife bin selection maximises the documented likelihood',
     'For every data set and parameter range, each backend evaluates the Hogg jackknife likelihood of every (pseudo-count, bin number) combination as documented and returns the combination with the largest value. The parameter grid contains every requested combination once, and the linear and logarithmic variants agree with their definitions.',
     ['inputs', 'configurations'], 'All small data vectors over a small alphabet, all small parameter grids, all backends.',
     'Tests check one random data set against the same implementation.',
     ['histogram_maker/hogg_jacky'],
     [('likelihood and argmax', '*_jacky.py'), ('parameter grid', 'shared/shared_computation_functions.py')],
     ['returned likelihoods and binning parameters'])

prop('C22', 'GYRE helpers cut, convert and label mode data exactly',
     'Cutting removes exactly the requested radial slice from exactly the listed mode and model arrays, once, and leaves everything else alone. Frequency-unit labels, unit conversions and tidal-eigenvalue file look-ups are determined by the request alone, with the correct sign for negative orders.',
     ['inputs', 'configurations', 'histories'], 'All subsets of listed attributes, slices and polytrope flags; all repeated cuts; all degrees and azimuthal orders in a window.',
     'One test each for one configuration; negative azimuthal orders are not tested at all.',
     ['gyre-tools/gyre_cutter/gyre_cutter.py', 'gyre-tools/gyre_unit_converter/gyre_unit_converter.py', 'gyre-tools/lam_tar_gyre/lam_tar_gyre.py'],
     [('attribute cutting', 'gyre_cutter.py'), ('label conversion', 'gyre_unit_converter.py'), ('file naming', 'lam_tar_gyre.py')],
     ['attributes of the cut object', 'labels', 'file opened'])

prop('C23', 'Eigenfunction normalisation ends at unit norm for every mode',
     'After normalisation every mode satisfies the chosen energy or norm convention to the requested tolerance or the failure is reported, the eigenfunctions of a mode are all multiplied by one common factor whose accumulated value is reported, and modes do not influence one another. Normalising again changes nothing.',
     ['histories', 'configurations'], 'All normalisation conventions, all small sets of modes with scale factors from an alphabet, all iteration limits.',
     'Two tests run one convention on one mode set.',
     ['gyre-tools/gyre_eigen_norm'],
     [('factor, check and iterative refinement', 'gyre_eigen_norm.py, enumeration_modules/enum_norm.py')],
     ['scaled attributes, normalising factors, check array'])

prop('C24', 'Hough functions keep equatorial parity, their equations and normalisation',
     'The Chebyshev transform reproduces and differentiates every polynomial of the expected parity exactly, and the Hough functions built on it solve the Laplace tidal equation, have definite parity about the equator together with all their derivatives, and are normalised as requested. In the non-rotating limit the eigenvalue is l(l+1).',
     ['inputs', 'configurations'], 'All degrees up to a small bound with all azimuthal orders, both parities, several spin parameters and normalisations, small resolutions.',
     'Tests cover option handling and normalisation factors only.',
     ['hough-func-tools/cheby_transform/cheby_transform.py', 'hough-func-tools/hough_function'],
     [('collocation matrices', 'cheby_transform.py'), ('eigenproblem, parity extension, derivatives', 'hough_function.py'), ('normalisation', 'hough_normalizer.py')],
     ['arrays of the Hough function object'])

prop('C25', 'Polytropic structure obeys hydrostatic and Lane-Emden identities',
     'For every polytropic index above zero, mass and radius the derived structure satisfies the Lane-Emden equation and its derivatives, hydrostatic equilibrium dP/dr = -rho*g, the polytropic relation between pressure and density, mass conservation and the definitions of the structure factors at every radius, with their limits in the centre. Masses, radii and central values scale with the requested mass and radius as physics dictates.',
     ['inputs', 'configurations'], 'The analytically known polytropes and all combinations of a small alphabet of indices, masses, radii and grids.',
     'Two tests look at one polytrope.',
     ['aesolver/aesolver/polytropic_computations'],
     [('chain of analytic derivatives', 'poly_struct_comps.py')], ['property dictionary and profiles'])

prop('C26', 'Analysis masks classify every solution by the stated criteria, once',
     'In the analysis and the plots of a grid of solutions, a triad is stable when its last three checks hold, has valid amplitude equations when its detuning is at most a tenth of its smallest co-rotating frequency, and is isolated when its threshold amplitude is defined, is the lowest among all triads of its parent and of each of its daughters, and the second-lowest threshold of that parent (if any) exceeds the saturation amplitude of its lowest-threshold triad. The combined classes partition the stable triads (harmonics left out of the overview): no triad is in two classes and none is lost. Every derived per-triad quantity (frequencies in each unit, detunings, spin parameters, thresholds, amplitude ratios, nonlinear shifts, validity estimators, mirrored frequencies) is computed from, and belongs to, the triad at the same position, however the results are spread over files, and the printed counts and plotted points are those of the masks.',
     ['inputs', 'histories'], 'All small tables of triads sharing parents and daughters, with thresholds and amplitudes from a small alphabet and all verdict patterns; stored result files over value alphabets, file layouts and row orders.',
     'There is no test for the analysis code.',
     ['aesolver/ae_analyzer/library_functions/masking.py', 'aesolver/aeplotter/library_functions/masking.py', 'aesolver/ae_analyzer/quadratic_stationary_analyzer.py',
      'aesolver/aeplotter/quadratic_plotter.py'],
     [('mask construction', 'masking.py'), ('derived quantities', 'quadratic_stationary_analyzer.py, quadratic_plotter.py')], ['boolean masks and derived arrays'])

prop('C27', 'Information files map each directory and name to its role',
     'Parsing an information file, in the custom or the TOML format, attaches every listed directory and file-name substring to the role it was listed for, the two formats agreeing on equivalent content and quoted entries keeping their spaces. File names generated for loading saved results name exactly the requested mode numbers, with the sign of every azimuthal and meridional order kept, and are the names under which the runs of these modes save their results.',
     ['inputs', 'configurations'], 'All small information files over the keys of both formats, all small mode-number combinations.',
     'There is no test for either.',
     ['aesolver/aesolver/read_load_info'],
     [('custom and TOML parsing', 'read_info_dirs.py'), ('name generation', 'load_name_plots.py')],
     ['parsed dictionaries', 'generated names'])

prop('C28', 'Validity zones of the TAR partition the star',
     'The radial zones in which the traditional approximation is reported valid and those in which it is not, taken together, cover every radial cell exactly once, and each cell is in a valid zone exactly when the frequency hierarchy holds there. The zones are listed from the centre outwards; a star in which every cell is valid may be refused.',
     ['inputs'], 'All valid/invalid patterns over stars of up to 12 cells.',
     'No test reaches this code; its branches depend on whether core and surface are valid.',
     ['aesolver/aesolver/solver/quadratic_solver.py', 'aesolver/aesolver/solver/quadratic_profile.py'],
     [('zone boundaries from the validity mask', 'get_masking_info_tar_validity')], ['masks and index pairs returned'])

prop('C29', 'Complex data survive splitting into real and imaginary parts',
     'Recombining the stored real and imaginary parts of any scalar or array, dimensioned or not, gives back the complex data, element by element and without touching its neighbours; a single stored record counts as an array of one element.',
     ['inputs'], 'All small real/imaginary arrays over a small alphabet including zero, signed zero and missing values, all container kinds.',
     'Two tests check one array each.',
     ['num-tools/carr_conv/carr_conv.py'],
     [('structured-array access and recombination', 'carr_conv.py')], ['returned arrays'])

prop('C30', 'Reported coupling profiles follow from the mode files and the validity zones',
     'A profile run for one mode triad shows and prints the integrated coupling coefficient profile of that triad (and of its four contributions) as it follows from the numbers in the mode and structure files. Its adjusted profile is the same profile without the growth inside the radial zones where the TAR is invalid: it is constant inside such a zone (zero everywhere if no cell is valid), its end value is the coefficient minus the growth of every invalid zone (first invalid cell to the next valid one, or to the last cell), and those growths are the listed zone contributions, from the centre outwards. Amplitudes and luminosity fluctuations are printed for the plain and for the adjusted coefficient: the adjusted ones are positive and larger by the ratio of the magnitudes of the two. Every curve of the radial and angular kernels is the product its term stands for, with the factors its label states, over the modes in each permutation, and each term is shown once. Figures and texts for the same triad do not depend on which solver class computed them, and a rejected triad gives no figures and no error.',
     ['inputs', 'configurations'], 'All valid/invalid patterns of a small star through complete runs; triads, degrees, conjugations, eigenfunctions and display options; all patterns on hand-made profiles.',
     'No test runs a profile computation; its figures and numbers depend on where the valid zones lie.',
     ['aesolver/aesolver/solver/quadratic_profile.py', 'aesolver/aesolver/solver/quadratic_solver.py', 'aesolver/aesolver/solver/profile_helper_classes', 'aesolver/aesolver/solver/profile_plot_classes', 'aesolver/aesolver/solver/profile_print_functions'],
     [('complete profile runs', 'compute_mode_triad_profile'), ('adjusted profiles', 'double_masking_integrated_radial_profile_figure_template_function'), ('kernels', 'RadialKernelData, AngularKernelData'), ('printed results', 'coupling_coefficient_print_functions.py')], ['printed text', 'saved figures'])

prop('C31', 'Comparison figures show the data of the requested modes',
     'The figures that compare adiabatic with nonadiabatic eigenfunctions show, for each mode of the requested triad, the requested part of the requested quantity of exactly that mode from the adiabatic and from the nonadiabatic files (labelled as such), against fractional radius or mass, with title, axis labels and bounds as requested; the structure figures show the requested columns of the structure profile (or the difference of two), each with its own label, divided by the requested normalisation: none, another column, or a function of a column.',
     ['inputs', 'configurations'], 'Triads, degrees and orders with real files; all combinations of quantities, parts, labels, modes, bounds, columns and normalisations.',
     'No test draws these figures; a swapped mode, part or file looks plausible.',
     ['aesolver/aesolver/ad_nad_comparer'],
     [('mode and structure loading per triad', 'comparer.py'), ('eigenfunction figures', 'plotting/gyre_plotter.py'), ('structure figures', 'plotting/mesa_plotter.py, plotter.py')], ['curves, labels and limits of the figures'])

prop('C32', 'Published stability domains and threshold follow from the equations',
     'The stability-domain figure marks a pair of damping ratios at a given detuning as stable exactly when the linearised amplitude equations at the fixed point have no growing solution (the same verdict as the solver\'s own stability check), next to the uncorrected 1982 criterion, which differs only in one term; its grid, axes, extent, labels, names and metadata belong to the same panel. The threshold estimate regresses the damping ratio on the amplitude ratio over exactly the k triads closest to unit ratio on either side and reports value, uncertainty, slope and intercept of that regression.',
     ['inputs', 'configurations'], 'All pairs of damping ratios and detunings of an alphabet, detunings bracketing every exact boundary, all ordered small triad tables, complete runs of both scripts.',
     'No test runs these scripts; a wrong coefficient still draws a plausible domain.',
     ['VB_et_al_2024_additional_plot_compute_scripts'],
     [('stability criteria and panels', 'dziembowski_subplot.py'), ('threshold regression', 'compute_threshold_theta.py')], ['verdicts per grid cell, regression results and printed numbers'])

prop('C33', 'A complete run does what its inlist asks for, in order',
     'A solve, analysis or plot run started from the command line reads the inlist named there (or the default one) and hands every setting, unchanged, to the step it belongs to, leaving everything else at its default. A solve run performs exactly one computation, the one requested (grid or single-triad profile; star or polytrope, each with its own mode files), and a grid run saves exactly that solver\'s results under the requested name; both or neither requested, or a command line of an undefined form, is refused before anything is computed. An analysis run prints exactly the requested analyses and a plot run draws, saves and, if asked, shows the requested figures of the files it was pointed to. Messages appear from the level the verbosity settings ask for. What a complete run saves, prints and draws equals what the same steps give when called directly with those settings, and the files a solve run saves are found again under the same base name.',
     ['inputs', 'configurations', 'histories'], 'Every setting of the shipped inlist changed in turn for each kind of run, all combinations of the switches, all command line forms over a small word list, complete runs on real files.',
     'No test starts a complete run; a setting handed to the wrong argument, or a saved file from another branch, gives plausible output.',
     ['aesolver/aerunners', 'run_scripts', 'util-tools/log_formatter', 'util-tools/generic_parser'],
     [('solve, analysis and plot runs', 'perform_complete_solve_run, perform_complete_analysis_run, perform_complete_plotting_run'), ('message level', 'adjust_root_logger_level')],
     ['constructor arguments and call order', 'saved files, printed text and figures', 'message level'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as fh:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        fh.write(json.dumps(p) + '\n')
print(len(P), 'properties')

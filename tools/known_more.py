known('K-C07-range', 'C07', 'two-ranges-realistic',
      'two damped ranges whose union is not in ascending CPython set order (e.g. 15..16 and 15..16, 6..9 and 15..21) '
      'yield duplicated or unrequested daughter pairs (same defect as K-C06-range)', cases_file='known/c07-range.json')
fixed('C08', 'fix: generic pre-checks of several triads, or of modes numbered other than 1, 2, 3',
      'PreCheckQuadratic indexed its 3-element lists with mode numbers and had one default conjugation for all triads')
fixed('C09', 'fix: co-rotating cyclic frequency of inertial-frame modes in angular units',
      'corot_mode_freqs was computed from uninitialised memory')
fixed('C09', 'fix: dimensionless nonadiabatic frequencies beside dimensioned adiabatic ones',
      'handler exited when nonadiabatic units differ and one of them is NONE')
fixed('C09', 'fix: dynamical time scale is divided by the unit factor of the requested frequencies',
      'dimensionless frequencies were wrong by the square of the unit factor for UHZ and CPD')
known('K-C11-two-mode', 'C11', 'two-mode-parametric',
      'harmonic parametric condition uses (2t(t-1)-1)/(2t(t-1)+1) instead of its inverse as lower bound of q^2, so fixed '
      'points with q^2 between the two are called stable although the linearised equations grow; an existing test expects it',
      message='accepted between the inverted and the true bound on q^2')
known('K-C11-jacobian-direct', 'C11', 'jacobian-two-mode-direct',
      'hyper_jac_three has the opposite sign in the derivative of the phase to the driven amplitude of a direct harmonic resonance '
      '(an existing test expects the value)',
      message='derivative of the phase to the driven amplitude of a direct resonance has the opposite sign')
fixed('C11', 'fix: Jacobian of three amplitude equations has the signs of its derivatives between amplitudes',
      'hyper_jac had the opposite sign in the six amplitude-amplitude entries of parametric triads, which made it singular: stable fixed points were called non-hyperbolic depending on rounding')
fixed('C11', "fix: Jacobian of two amplitude equations keeps the coupling's share of its amplitude derivatives",
      'hyper_jac_three lacked a factor sqrt(2) in the first row and the coupling term on the diagonal of the daughter')
fixed('C28', 'fix: unit factor from rad/s is defined for stars that do not rotate',
      'angular_conv_factor_from_rps was 0/0 for zero rotation, so every cell was judged TAR-invalid')
fixed('C01', 'fix: threads of the parallel trapezoid sum do not share their increments',
      'trapz_parallel on unequally spaced grids kept increment and integrand sum in variables shared by all threads')
fixed('C02', 'fix: integrals over fewer than two samples do not read outside the arrays',
      'one-sample integrals multiplied by the difference to whatever lies behind the array (crash for disc integrals of none)')
fixed('C03', 'fix: limb-darkening functions of strided arrays are refused instead of mixed up',
      'a strided mu or result array was read and written as if contiguous')
fixed('C16', 'fix: saved Wu statistic is the Wu difference, not the average radial order',
      'mode_statistics/wu held the average radial order')
fixed('C15', 'fix: overwritten datasets take the shape of the latest data',
      'read-write saves of other shapes were broadcast into the old dataset (or lost for empty values)')
fixed('C18', 'fix: inlist lists, tuples and quoted text keep the values written in them',
      '[True,False] was read as False, (None,2) as None, a tuple of strings as text, and quoted text lost inner quotes at its ends')
fixed('C18', 'fix: inlist numbers with a sign and an exponent are read', '-1e5, 1e+5 and +4 raised ValueError')
fixed('C19', 'fix: the analysis and plot runs find their inlist in a checkout named AESolver, as the solve run does',
      'their parsers looked for a parent directory named amplitude_equations_solver and refused every inlist')
fixed('C19', 'fix: parser given an inlist path whose name holds several dots reads that file',
      'run.v2.toml was looked up as run.toml')
fixed('C19', 'fix: the solve run reads --save_file_name from the command line',
      'get_save_name raised AttributeError in every solve run')
fixed('C22', 'fix: names of GYRE TAR files of negative orders carry one minus sign', 'the file of m = -1 was looked up as tar_fit.m--1')
fixed('C27', 'fix: results files carry their mode numbers for every save name',
      'save names with a hyphen or a dot got no mode numbers, or got them inside the name or a directory name')
fixed('C17', 'fix: words in mode file names are not mistaken for mode numbers',
      'g_mode_l1m+0n+1_model3.h5 was taken for l=3 (and run+1, um+1, ... for n, m)')
fixed('C17', 'fix: structure files are told apart by their whole suffix, and GYRE files also by their first letters',
      'profile.data and profile.dat.bak were selected for the suffix dat, and gyre_profile.dat was not excluded')
fixed('C17', 'fix: structure files can be selected with a single substring, as documented', 'NotImplementedError for a str')
fixed('C17', 'fix: explicit model directories are used as given without a base directory', "directory /d became None/d")
fixed('C04', 'fix: derivatives with internal interpolation are given at the input points',
      'the refined grid met the input points only by accident, so the derivatives had another length (and another order for falling x)')
fixed('C04', 'fix: Fornberg derivatives of too few points are refused instead of read from outside the arrays',
      'with fewer points than the accuracy order needs, memory next to the arrays entered the derivatives')
fixed('C04', 'fix: Fornberg weights of the highest accuracy order fit their work arrays', 'accuracy 20 wrote behind its weights')
fixed('C12', 'fix: angular integrals use the spacing of the Hough function grid',
      'the regular quadrature took the first step of the Chebyshev grid as the step everywhere')
fixed('C12', 'fix: negative angular integrals are protected against blow-up like positive ones',
      'Chebyshev blow-up protection compared signed values')
fixed('C12', 'fix: lists of conjugation flags are accepted by the angular integrals, as documented',
      'a list of flags raised an error although documented')
fixed('C24', 'fix: Lee (2012) normalization of Hough functions uses the spacing of their grid',
      'the norm used the first step of the Chebyshev grid as the step everywhere')
fixed('C24', 'fix: second derivatives of Hough functions have the equatorial parity of the functions',
      'the southern half of the second derivatives had the sign of the first derivative')
fixed('C24', 'fix: derivatives of azimuthal Hough functions have the sign of the functions',
      'first and second derivatives of the azimuthal functions had the opposite sign of the function')
fixed('C24', 'fix: azimuthal derivatives of Hough functions use the azimuthal order of their definition',
      'theta_phi and phi_phi used m where the definition of the functions flips its sign')
fixed('C23', 'fix: normalisation check understands plain Python numbers', 'check of a norm given as a Python float raised an error')
fixed('C23', 'fix: iterative normalisation with an iteration limit of zero reports instead of failing',
      'an iteration limit of zero raised UnboundLocalError')
fixed('C13', 'fix: mode energies count the azimuthal integration once', 'mode energies were too large by a factor 2*pi')
fixed('C13', 'fix: Coriolis part of the mode energies has the sign of the azimuthal Hough function',
      'the Coriolis term had the wrong sign, so energies of rotating modes were wrong (even negative)')
fixed('C13', 'fix: conj_cc=False requests no complex conjugation', 'conj_cc=False was read as the default conjugation')
fixed('C13', 'fix: coupling coefficients use the complex conjugate of the azimuthal displacements of conjugated modes',
      'terms with an odd number of azimuthal displacements of conjugated modes had the wrong sign; rotated copies of a triad disagreed')
fixed('C25', 'fix: second derivatives of polytropic structures have their limits in the centre',
      'second derivatives of theta, density, pressure and potential were 0 in the centre')
fixed('C25', 'fix: structure factors of polytropes have their limits in the centre', 'V_2, U, c_1 and the buoyancy frequency were NaN in the centre')
fixed('C13', 'fix: polytropic structure on another grid than the modes is interpolated',
      'polytropic models on another grid than the modes raised AttributeError')
fixed('C14', 'fix: surface perturbations are normalised by the mode normalisation factors',
      'surface luminosity and displacement perturbations were multiplied by the adiabaticity flag (1 or 0), also for rejected triads')
fixed('C08', 'fix: a conjugation request of False conjugates no mode in the pre-checks',
      'conjugation=[False] was judged as the default pattern although the coupling coefficient takes it as no conjugation')
fixed('C26', 'fix: a parent with a single resonant triad has no second-lowest threshold',
      'analysing or plotting data in which a parent has one valued triad raised ValueError')
fixed('C26', 'fix: frequencies mirrored three times end up within the Nyquist range',
      'inertial frequencies between two and three Nyquist frequencies below zero were plotted at negative frequencies')
fixed('C26', 'fix: only the triad that attains the lowest threshold of its modes is isolated',
      'a triad of the same modes with a higher threshold (for instance a harmonic one) was called isolated too')
fixed('C26', 'fix: result files of separate objects may start with a single file',
      'a list of objects that starts with a single file name raised DispatchError')
fixed('C20', 'fix: histograms with specified bin edges contain every bin', 'empty bins at the upper end were left out, densities then raised ValueError')
fixed('C20', 'fix: missing values are not counted in histograms with specified bins',
      'missing values were counted in the last bin of histograms with given edges, and in the normalisation')
fixed('C20', 'fix: data that all have the same value are put in a single bin', 'data of one repeated value raised ValueError or gave infinite densities')
fixed('C21', 'fix: the binning parameters contain the optimal binning phase', 'the returned binning phase was always 0')
fixed('C20', 'fix: all backends shift the bins by the binning phase in the same direction',
      'numexpr and cython shifted in the other direction than BLAS; cython raised ValueError for every non-zero phase')
fixed('C20', 'fix: densities of logarithmic BLAS histograms are divided by the width of each bin', 'density of the logarithmic BLAS histogram raised an error')
fixed('C21', 'fix: empty bins do not invalidate the jackknife likelihood',
      'with a smoothing parameter of at most 1 an empty bin made the likelihood NaN, so the combination was never selected (0 * log(<= 0))')
fixed('C20', 'fix: missing values do not affect the histogram of the other data',
      'one datum with missing values raised ValueError; numexpr divided logarithmic histograms by the number of all data')
fixed('C21', 'fix: verbose selection of a constant bin width does not fail', 'verbose=True raised TypeError')
fixed('C20', 'fix: numexpr and cython histograms of a specified width can be computed', 'histogram_numexpr_spec_width and histogram_cython_spec_width raised TypeError')
fixed('C21', 'fix: the cython jackknife likelihood counts the data, not the bins',
      'the cython likelihood was normalised with the number of bins instead of the number of data, and selected other combinations')
fixed('C30', 'fix: apply the stated factors to the angular kernels', 'factors, 1 / sin(theta) and mu had no effect on the angular kernels that are shown')
fixed('C30', 'fix: no division by the sine in the angular kernels of the squared tangential derivatives',
      'kernels 18 and 19 of the third contribution were labelled (and, with the factors applied, computed) as divided by sin(theta)')
fixed('C30', 'fix: adjusted coupling profiles of stars with a TAR-valid core', 'the adjusted profile of a star with a valid core contained the growth of a zone that follows')
fixed('C30', 'fix: adjusted amplitudes stay positive when the adjusted coupling coefficient changes sign',
      'negative adjusted amplitudes and luminosity fluctuations when the adjusted coefficient has the opposite sign')
fixed('C30', 'fix: profile computations stop without an error for rejected mode triads', 'AttributeError for triads that are rejected')
fixed('C26', 'fix: read the loaded dimensionless frequencies in the plotter', 'the dimensionless frequency ratio of the plotter was never computed (looked up under another name than it is loaded under)')
fixed('C26', 'fix: plot the resonance sharpness of a single triad', 'TypeError for the sharpness figure of one triad (or of equal sharpness values)')
fixed('C16', 'fix: save solver results inside the requested sub-directory', 'the sub-directory became the beginning of the name of the file, outside the directory made for it')
fixed('C16', 'fix: no sub-directory called None when none is requested', 'results for which no sub-directory is requested were saved in one called None')
fixed('C17', 'fix: MESA profiles are read with their signs and leading digits beyond the first hundred zones', 'column widths were inferred from the first hundred zones: minus signs and leading digits that only occur deeper in the star were cut off (N2 of a convective core became positive)')
fixed('C20', 'fix: bins of integer data do not have truncated edges',
      'blas and numexpr histograms of integer data had bin edges cut to integers (bins of unequal width, data in other bins than with the other backends)')
known('K-C13-self-coupling', 'C13', 'self-coupling',
      'self_coupling=True (used by no solver; its docstring offers it as a shortcut for a mode coupling to itself) multiplies the sums of the '
      'angular and of the radial integrals and ignores their factors, so that contributions 1 and 3 (with rotation also 4) differ from the general expressions',
      message='the shortcut for a mode coupling to itself gives another value of contributions 1 and 3')

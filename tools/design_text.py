"""Hand-written parts of DESIGN.md: per property the oracle, what the exploration reaches that tests cannot, what is left out."""
TEXT = {
'C01': ("""The C++ sources of the three OpenMP libraries (and the C the Cython histograms are generated into) are compiled with
`-fsanitize=thread`-style instrumentation only, and linked against `mc/sched`: an own runtime that supplies the OpenMP entry points (both the GNU and the LLVM ABI
that the compilers here emit), runs every thread as a fiber of one OS thread, and asks the explorer at every scheduling point which fiber continues. Every memory
access is reported to a vector-clock race detector; accesses outside the arrays and outside live heap blocks are failures. The result of each schedule is compared with
the serial result of the same build.""",
 "All schedules, not the one an idle machine happens to produce: chunk hand-out, reduction merge and array writes are interleaved in every order. Race verdicts hold for every interleaving with the same synchronisation order.",
 "Preemptions at ordinary accesses are bounded by two; sequential consistency is assumed (races are reported, so racy weak-memory effects cannot hide). Where a kernel has more schedules than the budget of a case (a change to dynamic scheduling, say), the preemption bound of that case is lowered to one and then to zero."),
'C02': ("""Composite trapezoid and Simpson sums in exact rational arithmetic on grids with exactly representable samples. Unit vectors as integrands determine a linear rule completely, so
the basis family decides *all* integrands at the grids it covers; the value families check linearity. Request histories are enumerated on one integrator object.""",
 "Edge behaviour at every parity and length, method fall-back on unequal grids, hidden state between requests.", "Unit vectors on grids of up to 41 (121) samples; a few integrands on six kinds of grid of up to 65537 samples."),
'C03': ("""Exact rational quadrature over the samples inside [0, 1], in their original order; sample positions are enumerated as patterns of the classes below / on bound / inside / above.""",
 "Every position of the visible window within the grid, including none, one, and the whole; both derivative integrals.", "Equally spaced visible samples, as the Simpson rule requires; fixed integrands beyond 33 (65) samples."),
'C04': ("""Exact Lagrange weights over the rationals. Unit data give the full weight matrix of the compiled Fortran routine, so that exactness on polynomials and linearity are decided for all data on each
grid. The differentiator object is compared with the documented stencil of each method; grids are also presented in other units of length (2^-120 to 2^60).""",
 "All edge placements and accuracies on all non-uniform grids of the alphabet, where hand-written tests use one smooth function.", "Grids of up to about 20 points."),
'C05': ("Python integers; injectivity by collecting every code of a window, symmetry and inverse pair by pair, `onto` by decoding every code below a bound.", "Complete windows, diagonals and large magnitudes, where float square roots start to lie.", "Magnitudes beyond about 1e6 above the lowest integer (documented int64 domain)."),
'C06': ("Brute-force enumeration of the admissible combinations of every input set over a small universe, all container kinds.", "Every overlap pattern of the two sets.", "Known findings: symmetric product with non-ascending set order."),
'C07': ("Enumeration of the requested triads by nested loops; per-triad statistics recomputed from the triad at the same position.", "All range overlaps, empty ranges, zero and negative orders.", "Requests hit by the recorded symmetric-product finding are compared with its frozen observation."),
'C08': ("Selection rules evaluated directly; excitation conditions by the eigenvalues of independently linearised amplitude equations. Several triads per object in all positions (history independence).", "Every sign pattern of rates and detunings, every conjugation pattern and spelling.", "Configurations closer to the stability boundary than rounding."),
'C09': ("One physical truth (a co-rotating angular frequency in rad/s per mode) from which every supplied and requested spelling is derived.", "The full product of units x frames x requested unit x rotation spelling x nonadiabatic variant, per mode.", "Zero frequencies."),
'C10': ("Substitution: the reported amplitudes and phase are inserted in the amplitude equations written out independently, thresholds in the linearised daughter equations; luminosity from its definition.", "Distinct values per mode expose swaps; rejected triads are interleaved.", "-"),
'C11': ("Eigenvalues of the independently derived Jacobian; matrices with exactly known imaginary-axis eigenvalues for the hyperbolicity test.", "All small integer matrices and all rate/detuning sign patterns.", "Known findings: one sign of the Jacobian of direct harmonic resonances and the inverted two-mode quotient (existing tests enshrine both)."),
'C12': ("2*pi times the reference trapezoid / Simpson / Chebyshev-Gauss value of the product, zero when the adapted orders do not add up.", "Every order triple x conjugation spelling x function list x factor.", "-"),
'C13': ("""Independent tensor integral: the third-order perturbation tensors of displacement fields are contracted with symbolically correct metrics and integrated over the sphere and the radius; plus symmetry oracles (six orderings,
scales, linearity, rotated copies through 3j symbols, running integral = profile, sum of contributions).""", "Coefficient formulas of several hundred terms are decided per triad class rather than at one reference value computed by the same code.", "`use_complex`, structure grids of equal length but different points."),
'C14': ("Each triad alone in a fresh solver; numbers the mode files were written with.", "All sequences of accepted / rejected / marginal parents and pairs: stale state needs a particular predecessor.", "Real Hough and coupling computation on small grids."),
'C15': ("Dictionary model of the file (explicit-state): every history of up to three saves is replayed on the real file and compared entry by entry.", "Shape, type and mode transitions between saves, foreign contents.", "Crash points: the tool does not promise crash consistency of HDF5 files, no property is claimed."),
'C16': ("Reference description of the layout (name -> quantity, row -> triad) with pairwise distinct values; non-interference by changing each scalar in turn.", "Every pair of entries that could be exchanged is distinguishable.", "-"),
'C17': ("The numbers each name was built from.", "All combinations of tokens, paddings, prefixes and suffixes that contain look-alike digits.", "Tokens glued to preceding letters (documented form has separators)."),
'C18': ("A reference reading of the documented inlist grammar; Python / TOML literals for types.", "All layouts and orders of all value forms; all TOML tables up to depth 3.", "Blanks inside lists (refused by the reader)."),
'C19': ("Candidate list in documented order; file content tells which one was read.", "All presence patterns x spellings x working directories.", "-"),
'C20': ("Exact rational binning, with both neighbours allowed for data on rounded inner edges; all backends compared with each other.", "All data vectors over the alphabet incl. NaN and ties; extrema that are not representable.", "Data outside user-specified edges; phases only have to keep totals and agree between backends."),
'C21': ("The documented likelihood of every combination, evaluated independently (leave-one-out sum).", "All vectors x parameter grids x backends.", "Ties are free."),
'C22': ("List slicing on named groups; unit table; file names from the request.", "All cut sequences to depth 3 (4), all orders.", "-"),
'C23': ("A reference run of the iteration with energies supplied by the harness; common-factor and idempotence oracles.", "All mode sets, limits and histories.", "-"),
'C24': ("Independent spectral differentiation of the Laplace tidal equation; l(l+1) limit; parity by reflection.", "All degrees, orders and spins of a lattice, every basis polynomial.", "-"),
'C25': ("Equations of stellar structure evaluated from the returned arrays (finite differences are not used: identities are algebraic in theta and its derivatives).", "All models of the alphabet x spellings of scalars.", "Index zero (no pressure-density relation)."),
'C26': ("The criteria as stated, written as set comprehensions; files read back with h5py.", "All tables of up to three triads with shared parents and daughters, near ties included.", "A flat list of single files (open whether they merge); rotation recovered from the first daughter assumes m = 1 (documented)."),
'C27': ("The role table of the documentation; the real saver as second oracle for names.", "All subsets and orders of roles, both formats.", "Blanks outside quotes."),
'C28': ("Cell-by-cell evaluation of the hierarchy.", "All binary patterns of up to 11 (14) cells and three-level patterns of up to 7 (9).", "Uniform stars refused with PhysicsError."),
'C29': ("Element-wise recombination in numpy structured arrays.", "All arrays over signed zeros, infinities, NaN; layouts; call histories.", "-"),
'C30': ("Tensor integral of the numbers in the files (as in C13/C14) accumulated cell by cell; zones cell by cell from the frequency hierarchy; products of the radial and Hough functions for every kernel, matched as unordered sets of curves.",
        "All 127 zone patterns of a seven-cell star that has an invalid cell, through complete runs with real files; both solver classes; harmonic and rejected triads; conjugations; nonadiabatic eigenfunctions; all patterns of up to 6 (9) cells on the masking function with sign-changing profiles.",
        "Signs of angular kernels beyond what their label states; colours, ticks and legends."),
'C31': ("The numbers written to the files, per file name and quantity.", "All triads of three selections in both radial coordinates; all combinations of quantities, parts, labels, modes and bounds; all columns and normalisations.", "Units of the frequencies in titles; colours and ticks."),
'C32': ("The Hurwitz determinants of the linearised amplitude equations, in rational arithmetic; least squares in rational arithmetic.", "All pairs of an alphabet of damping ratios with all detunings of an alphabet and on both sides of every boundary crossing; all ordered tables of amplitude ratios; complete runs of both scripts (drawing calls recorded).", "The appearance of the figures; whether the listed triads are those of the paper."),
'C33': ("Argument binding of the real constructors (replaced by recorders) against the documented role of every inlist entry (data/settings.json); directly constructed solvers, savers, analysers and plotters for the complete runs.", "Each setting changed in turn for each run, all switch combinations, all command lines of up to five words of a word list; complete runs for accepted, rejected and marginal triads.", "Which mode files the profile of a polytrope uses; `nr_parallel_processes` (changes no result)."),
}

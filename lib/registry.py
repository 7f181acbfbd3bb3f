# claimed checks: id -> (level, technique, level_note)
CLAIMS = {
 'I01': ('model_checking', 'bounded exhaustive enumeration of operation sequences and input files on the real code against a reference model',
   'Every operation sequence / file up to the stated depth was executed on the real implementation and compared with a reference map after every step. Nothing is claimed about longer sequences or characters outside the alphabet.'),
 'C01': ('model_checking', 'stateless model checking of the real code: preemption-bounded exhaustive schedule enumeration under a controlled OpenMP runtime with happens-before race detection',
   'For 26 of the 26 parallel regions of the C++ library compiled here, every thread schedule up to the completed preemption bound (reported per region) with 2 and 3 threads; the Python-interface regions are not included, and memory accesses made inside uninstrumented libraries (libstdc++ internals, GSL, libc except mem*) are not monitored.'),
 'C02': ('model_checking', 'stateless model checking of the real code: exhaustive choice of the failing evaluation combined with bounded schedule enumeration under a controlled OpenMP runtime',
   'Failure positions: all of them when the region makes few calls, otherwise first, last and evenly spaced ones (reported); failures are C++ exceptions with a non-empty message.'),
 'I05': ('exploration', 'bounded exhaustive enumeration of inputs on the real code against reference implementations',
   'All strings up to the stated length over the stated alphabets and all numbers of the stated grid were executed; hexadecimal/inf/nan spellings accepted by strtod and other locales are outside the alphabet.'),
 'X01': ('exploration', 'bounded exhaustive enumeration of points, velocities, focal distances, Euler angles against AD-differentiated reference maps',
   'Points with coordinates up to 1e60; at singular points (axis, foci, origin) derivatives are not compared, only round trips and invariants.'),
 'M06': ('exploration', 'exhaustive enumeration of all simple polygons on small lattices vs exact integer geometry',
   'Lattices 3x3 and 4x4, up to 8 (9) vertices; cubic B-spline integrals over non-rectangular pieces only to 2e-3 (the rule in the code is documented as inexact).'),
 'M04': ('exploration', 'bounded exhaustive exploration of the real routines over enumerated input families against exact oracles',
   'All polynomials with roots from a palette, all small integer coefficients, all ascending node arrays with adjacent floats, all scalings on logarithmic grids over the double range, all members of a function family x bracket x tolerance x derivative availability, all quadrature orders, failure of every evaluation of an integrand.'),
 'P01': ('exploration', 'bounded exhaustive enumeration of models x points x coordinate systems x output subsets on the real code, against an independent chain rule, Laplacian and error-controlled finite differences',
   'real code; finite grid of points; quadrature-based models within their documented accuracy; next to the polar axis expansions are compared with reduced accuracy'),
 'M01': ('exploration', 'exhaustive enumeration of bounded grids and node values against exact per-segment polynomials',
   'tolerances scale with the conditioning of the grid; grids of up to 5 segments only'),
 'M07': ('exploration', 'exhaustive enumeration of orders, symmetries and basis functions against long-double reference recurrences',
   'angular tolerances near the poles follow the documented asymptotics for m>=1'),
 'M02': ('exploration', 'exhaustive enumeration of small matrices and shapes against exact integer or definition-based results',
   'mismatched output sizes in Eigen-backed products abort by an assertion and are not covered; sparse LU objects cannot be copied (documented)'),
 'I02': ('fault_enumeration', 'exhaustive enumeration of file contents, truncation points and I/O fault points on the real code',
   'Every listed particle set, layout, truncation point and I/O fault point was executed on the real readers and writers. Files larger than 200 particles are covered for write faults only at selected byte positions (quick) or all (thorough). NEMO output is read by an independent parser, since UNSIO is not available.'),
 'P03': ('exploration', 'bounded exhaustive enumeration of modifier configurations against reference affine maps',
   'all subsets, argument forms, keyword orders and layerings of modifiers enumerated; reference formulae evaluated on the unmodified model'),
 'I03': ('fault_enumeration', 'bounded exhaustive enumeration of exportable models with reload, and of all write-failure points',
   'round trip of every enumerated expansion; every byte limit and failing system call'),
 'P02': ('exploration', 'exhaustive enumeration of coefficient-defined and source-built expansions against symmetry groups and per-term reference sums',
   'all masks of non-monopole terms up to small orders in every expansion class, evaluated at sets of points related by each symmetry; off the interpolation nodes Multipole with lmax>2 is compared only roughly'),
 'C03': ('exploration', 'exhaustive enumeration of methods x argument forms x batch sizes x layouts against single-point evaluation',
   'bounded: listed numbers of points (around every chunk size), 1 and 4 threads, a finite pool of points including NaN, infinities and singular points; identical results required except for interpolated Rcirc/Tcirc/Rmax in batches of 256 or more (3e-6)'),
 'O01': ('model_checking', 'stateless exploration of run/record/stop histories of the real integrator',
   'C++ and Python; Hermite method only for static potentials; two known findings'),
 'M05': ('model_checking', 'explicit enumeration of step sequences of the real integrators against exact flows',
   'all step sequences to the depth for DOP853, Hermite, GL3, GL4 and a family of systems with known flow'),
 'M03': ('exploration', 'exhaustive enumeration of small integer programs against vertex enumeration',
   'every integer problem with up to 2 constraints and 3 variables, all bound and penalty patterns; solver result compared with enumeration of all vertices; CVXOPT is absent, so the quadratic solver is decided up to its back end (transformation of penalties)'),
 'E01': ('exploration', 'exhaustive enumeration of interface calls against the C++ classes',
   'all models of the palette, output subsets, invalid specifications, handle sequences; C, Fortran and NEMO interfaces'),
 'G01': ('exploration', 'bounded exhaustive enumeration of target configurations x lattice points on the real code against an independent definition of the basis functions',
   'small grids; projections compared to quadrature at the tolerance the class documents'),
 'G02': ('exploration', 'bounded exhaustive enumeration of LOSVD configurations x phase-space lattice on the real code against independent B-spline / rotation / quadrature oracles',
   'N=3 apertures are integrated by an inexact rule in the code (documented), so tolerance there is 4 %'),
 'A01': ('exploration', 'exhaustive enumeration of an orbit lattice x action finders on the real code against numerical orbit integration and independent quadratures',
   'accuracy of highly eccentric orbits in the Staeckel/Fudge finders and of interpolated finders is limited by the method; torus mapper on few tori'),
 'D01': ('exploration', 'bounded exhaustive exploration of the real DF classes: every parameter combination of the declared sets times every point of an action lattice, judged by independently coded formulas and quadratures',
   'DoublePowerLaw, Exponential, QuasiIsothermal, QuasiSpherical (isotropic, constant-beta, Cuddeford-Osipkov-Merritt), composite DFs, factory; action-space scalings; SphericalModel. Not covered: InterpolatedDF, sampling from DFs (see G02).'),
 'I04': ('exploration', 'bounded exhaustive exploration: all ways of specification x orders x cases x synonyms of a complete palette compared bitwise; all single edits of names and values of a declared alphabet must be rejected',
   'Ranges are checked only where documented; trailing characters after a number are documented to be ignored. Not covered: particles= argument, user-defined functions (see P05/P03).'),
 'C04': ('model_checking', 'exhaustive enumeration of call sequences of the real Python module against state models (thread stack, unit table, random stream memo, set of live objects)',
   'depth 3-5; 50 object kinds; freed memory is overwritten (MALLOC_PERTURB_)'),
 'U01': ('exploration', 'exhaustive enumeration of kinds of computation x systems of units, differential oracle in physical units',
   'every Python entry point; 20 unit systems (quick), 6 scalings; thorough: 60+ and 22'),
 'P05': ('exploration', 'exhaustive enumeration of source harmonics x symmetry declarations x expansions x orders x grids against analytic potential-density pairs',
   'l<=4 (thorough: 5, all combinations of orders)'),
 'S01': ('model_checking', 'stateful enumeration of operation sequences on the real SelfConsistentModel over ordered selections of components, against an explicit model of which component contributes what; fixed points of the iteration with real distribution functions',
   'engine: own enumerator (harness/s01.cpp) on the real code, with action finder creation replaced by a recording stand-in for the sequence part'),
 'R01': ('model_checking', 'exhaustive enumeration of task subsets and multi-episode histories of the real RagaCore, every transition (episode) compared with an independent integration of all orbits and an explicit account of masses, black holes, files',
   'engine: own enumerator (harness/r01.cpp); recording tasks are inserted as first and last task through the public task list; runs with one and four threads'),
}

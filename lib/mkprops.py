"""Writes /verif/properties.jsonl from the table below (kept as code because it is easier to review than one-line JSON)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))

prop('C01', 'Parallel computations are race-free and independent of thread schedule',
 'Every library routine that distributes its work over OpenMP threads (action-finder construction, moments and densities of distribution functions, Jeans models, line-of-sight targets, velocity sampling, splines and expansions built from samples, Raga simulation tasks) produces, for any number of threads and any interleaving of them, the result of the single-threaded execution (up to floating-point summation order where partial sums are combined). No two threads access the same memory location without synchronisation when at least one of them writes it (one-byte stop flags that are only ever set are exempt), no thread waits forever, and routines that draw random numbers inside the loop are exempt only from the equality of results.',
 ['schedules'], 'for every interleaving of the threads of each parallel region, at the granularity of chunk dispatch, critical sections and atomic operations, and every assignment of loop chunks to threads',
 'Tests run under one OS schedule with a nondeterministic assignment of iterations; a lost update or a shared scratch buffer shows up only in rare interleavings.',
 ['src/actions_spherical.cpp','src/actions_staeckel.cpp','src/galaxymodel_base.cpp','src/galaxymodel_jeans.cpp','src/galaxymodel_losvd.cpp','src/galaxymodel_velocitysampler.cpp','src/math_sample.cpp','src/math_random.cpp','src/math_spline.cpp','src/potential_cylspline.cpp','src/potential_multipole.cpp','src/raga_core.cpp'],
 [('#pragma omp parallel regions with thread-local scratch and critical sections', 'src/*.cpp'), ('per-thread random generator state', 'src/math_random.cpp')],
 ['results of constructors and batch routines'])
prop('C02', 'Errors inside parallel regions reach the caller; nothing hangs or aborts',
 'If a user-supplied object (density, potential, action finder, function) throws while it is being evaluated inside a multi-threaded library routine - in any iteration, on any thread, or in several iterations at once - the routine fails with an ordinary exception carrying one of the raised messages. It never terminates the process, deadlocks, or returns as if it had succeeded. The only exception is a distribution function or selection function failing inside the moment and projection integrals, where the value counts as zero, as the code documents.',
 ['schedules','fault_sequences'], 'for every choice of one or two failing evaluations and every interleaving of the threads',
 'Tests never make the integrand fail inside a parallel loop, and an exception that escapes an OpenMP region is fatal only when that path is taken.',
 ['src/actions_spherical.cpp','src/actions_staeckel.cpp','src/galaxymodel_base.cpp','src/galaxymodel_jeans.cpp','src/galaxymodel_losvd.cpp','src/galaxymodel_velocitysampler.cpp','src/math_sample.cpp','src/potential_cylspline.cpp','src/potential_multipole.cpp','src/raga_core.cpp'],
 [('try/catch inside the loop body + rethrow after the region', 'src/*.cpp')], ['exceptions leaving the public routines'])
prop('C03', 'Array evaluation in Python equals point-by-point evaluation',
 'For every vectorised Python method and function (potentials, densities, distribution functions, action finders and mappers, moments, splines, orbits), calling it with an array of N points gives, row by row, the same numbers as N calls with a single point, whatever the number of threads, the array shape, memory layout or dtype, and whichever optional outputs are requested together. Input arrays are never modified.',
 ['inputs','configurations','schedules'], 'for every vectorised entry point, every subset of its output flags, array lengths 0..5 and 17, contiguous/strided/reversed/Fortran-ordered/float32/int arrays, 1..4 threads',
 'Tests call a handful of methods with one shape; the cross-product of outputs, layouts and thread counts is never sampled.',
 ['src/interface_python.cpp','py/__init__.py'], [('BatchFunction framework and OpenMP loop with GIL handling','src/interface_python.cpp')], ['return values of Python methods'])
prop('C04', 'Settings and objects keep their meaning over any sequence of Python calls',
 'A Python-level setting or object affects exactly what it documents: the thread-count setting nests and restores as a context manager, the unit system in force is remembered by nothing it should not affect, reseeding reproduces the random stream, and objects (potentials, densities, distribution functions, splines) stay valid and unchanged when other objects built from them or that they were built from are deleted. Failed calls leave all settings and objects as they were.',
 ['histories'], 'for every sequence of up to a few operations over a small alphabet of settings, constructions, deletions, failing calls and evaluations',
 'Tests use each object in one straight-line order.',
 ['src/interface_python.cpp'], [('reference counting of wrapped objects; setNumThreads/setUnits/setRandomSeed','src/interface_python.cpp')], ['Python API'])
prop('I01', 'INI parameter store behaves as an ordered, comment-preserving map',
 'Reading, querying, modifying and saving an INI configuration behaves as an ordered map of sections to ordered, case-insensitive key/value pairs: whatever was set is what is read back (also after saving and reloading), unset items yield the supplied default, deletion removes exactly the named item, and comments and unrelated lines survive an edit unchanged. Typed accessors return the value that the text denotes.',
 ['histories','inputs'], 'for every sequence of operations up to a small depth and every file made of up to a few lines over a small alphabet of line shapes',
 'Tests use one fixed INI file.', ['src/utils_config.cpp','src/utils_config.h'], [('KeyValueMap / ConfigFile','src/utils_config.cpp')], ['ConfigFile, KeyValueMap'])
prop('I02', 'Snapshot files round-trip and write failures are reported',
 'A particle snapshot written in any supported format (text, NEMO) and read back (by readSnapshot for text; by any NEMO reader, as this build cannot read NEMO itself) has the same number of particles with the same positions, velocities and masses up to the precision of the format, under any unit conversion, and also when the text file lacks a final newline or contains comment lines. Malformed text files, files truncated in the middle of a line (so that it has fewer columns than the others), files of unsupported formats, and any failing write during export or failing read during import raise an error instead of silently producing wrong or incomplete data.',
 ['inputs','fault_sequences','crash_points'], 'for every small particle set and format, every unit scaling, every truncation point of the written file and every single write failure',
 'Tests write one snapshot to a healthy disk and never truncate or fail a write.', ['src/particles_io.cpp'], [('IOSnapshotText/IOSnapshotNemo','src/particles_io.cpp')], ['readSnapshot, writeSnapshot'])
prop('I03', 'Exported potential and density models reload as the same model',
 'Any potential or density expansion (Multipole, CylSpline, BasisSet, DensitySphericalHarmonic, DensityAzimuthalHarmonic, and composites of them) written to a file and read back has the same symmetry and evaluates to the same value, force and density everywhere, up to the precision of the text format; exporting the reloaded model reproduces the same file up to the last digits of numbers. An export that could not be written completely is reported as failed. (Other potentials and modifiers are documented not to be stored.)',
 ['inputs','configurations','fault_sequences'], 'for every exportable model type, every symmetry class and small grid/expansion size, and every single write failure',
 'Tests round-trip a few models with one symmetry and size each.', ['src/potential_factory.cpp','src/potential_multipole.cpp','src/potential_cylspline.cpp'], [('writePotential/readPotential, coefficient writers and readers','src/potential_factory.cpp')], ['writePotential/writeDensity/readPotential/readDensity'])
prop('I04', 'All ways of specifying a model agree, and bad specifications are rejected',
 'A potential, density or distribution function created from keyword arguments, from a parameter map, from one string and from an INI file section is the same model, regardless of parameter order, letter case and documented synonyms. A parameter that is out of range, unparsable, unknown for a required choice, or refers to a missing file is rejected with an error before any partial object is returned, and leaves the process (current directory, files) unchanged.',
 ['inputs','configurations'], 'for every model type, every documented parameter and synonym, every case variant, every pairwise parameter order and a set of invalid values for each',
 'Tests exercise one spelling of the parameters of a few models.', ['src/potential_factory.cpp','src/df_factory.cpp','src/interface_python.cpp'], [('parameter parsing, type-name tables','src/potential_factory.cpp')], ['createPotential, createDensity, createDistributionFunction'])
prop('I05', 'Number and string conversions are faithful',
 'Numbers printed with full precision read back as the same number, fixed-width formatting never exceeds the requested width and keeps the value to the precision it displays, integer and boolean parsing accept exactly the documented spellings, and splitting a string on separators is inverted by joining. Case-insensitive comparison, prefix and suffix tests agree with their definition for every string.',
 ['inputs'], 'for every string over a small alphabet up to a small length, every separator set, every width, and every number of the form +-d.ddd x 10^e over the full exponent range',
 'Tests check a list of a few dozen values.', ['src/utils.cpp','src/utils.h'], [('toString, pp, toInt, toBool, toDouble, splitString, stringsEqual','src/utils.cpp')], ['utils:: functions'])
prop('U01', 'Physical results do not depend on the choice of unit system',
 'The same physical model evaluated in any system of units - conversion in the Python interface after setUnits, external units of potential and density files, particle files - gives the same physical numbers; converting to internal units and back is the identity, and every physical quantity scales with its own dimension.',
 ['inputs','configurations'], 'for every triple of mass/length/velocity/time units over a grid, and every quantity kind exposed',
 'Tests use one unit system.', ['src/units.h','src/interface_python.cpp','src/potential_factory.cpp','src/particles_io.cpp'], [('ExternalUnits/InternalUnits conversions','src/units.h')], ['Python API, C++ factory with ExternalUnits'])
prop('P01', 'Potential value, force, force derivatives and density agree everywhere',
 'For every potential type, the force is minus the gradient of the potential, the second derivatives are the derivatives of the force, and 4 pi G times the density is the Laplacian, at every point including the origin, the z axis, the equatorial plane, very small and very large radii; the results are finite wherever the model is. Requesting any subset of these outputs, in any coordinate system, gives the same numbers.',
 ['inputs','configurations'], 'for every potential type with every symmetry class and a grid of shape parameters, at every point of a lattice that includes all degenerate locations, for every subset of outputs and coordinate system',
 'Tests check a few dozen random points for one parameter set per type.', ['src/potential_analytic.cpp','src/potential_base.cpp','src/potential_dehnen.cpp','src/potential_ferrers.cpp','src/potential_disk.cpp','src/potential_king.cpp','src/potential_perfect_ellipsoid.cpp','src/potential_spheroid.cpp','src/potential_multipole.cpp','src/potential_cylspline.cpp'], [('evalCar/evalCyl/evalSph','src/potential_*.cpp')], ['BasePotential::eval, density'])
prop('P02', 'Declared symmetry is the actual symmetry of the model',
 'If a density or potential declares a symmetry (any combination of reflections, triaxial, axisymmetric, spherical), then its value, force and density are invariant (equivariant) under every corresponding transformation of the input point; rotated, shifted or composite models declare no more symmetry than they have. Printing a symmetry type and parsing it back is the identity.',
 ['inputs','configurations'], 'for every model and every generator of its declared symmetry group at every lattice point; for composites, all pairs of component symmetries',
 'Tests never compare mirrored points for most models.', ['src/potential_base.cpp','src/potential_composite.cpp','src/coord.h','src/potential_factory.cpp'], [('symmetry()', 'all models')], ['symmetry(), eval'])
prop('P03', 'Potential modifiers implement the documented transformations exactly',
 'A potential or density wrapped by any combination of modifiers (shift, tilt, rotation, scaling, time dependence, uniform acceleration, composition) equals the reference formula applied to the unmodified model at the transformed point and time: value, gradient, Hessian and density transform together. The order of keywords in the specification is immaterial, and the documented nesting order holds.',
 ['configurations','inputs'], 'for every subset and nesting of modifiers, base models of each symmetry, constant and time-dependent parameters, at lattice points and times inside, at and outside the tabulated interval',
 'Tests check one combination.', ['src/potential_composite.cpp','src/potential_factory.cpp'], [('Shifted, Tilted, Rotating, Scaled, Evolving, UniformAcceleration','src/potential_composite.cpp')], ['eval of modified models'])
prop('P05', 'Expansions reproduce the density or potential they were built from',
 'A Multipole, CylSpline, BasisSet or spherical-harmonic density expansion constructed from a source whose angular dependence fits within the expansion order reproduces the potential, force and density of the source inside the grid to the documented interpolation accuracy and extrapolates with the documented asymptotic power law, for every symmetry class of the source. Expansion terms that the symmetry of the source excludes vanish; the total mass and enclosed mass agree with the density integral.',
 ['configurations','inputs'], 'for every source symmetry, expansion order lmax/mmax over a small range and grid placement, at lattice points inside and outside the grid',
 'Tests cover a few fixed models.', ['src/potential_multipole.cpp','src/potential_cylspline.cpp','src/math_sphharm.cpp'], [('coefficient computation and spline interpolation','src/potential_multipole.cpp, src/potential_cylspline.cpp')], ['createPotential(type=...)'])
prop('X01', 'Coordinate transformations are mutually inverse with exact Jacobians',
 'Transformations of positions, position-velocity pairs, gradients and Hessians between Cartesian, cylindrical, spherical and prolate spheroidal coordinates, and rigid rotations, compose: converting there and back is the identity, the two-step path equals the direct one, conserved physical quantities (radius, speed, angular momentum) agree, and derivatives returned are the derivatives of the map. This holds at every point including the axis, the plane and the origin, up to rounding.',
 ['inputs'], 'for every ordered pair of coordinate systems at every lattice point and velocity, including degenerate points',
 'Tests sample random generic points.', ['src/coord.cpp','src/coord.h'], [('toPos, toPosVel, toGrad, toHess, toPosDeriv','src/coord.cpp')], ['coord:: functions'])
prop('M01', 'Splines interpolate, differentiate, integrate and invert consistently',
 'A spline of any kind (linear, cubic, quintic, B-spline; 1, 2 or 3 dimensions; natural, clamped, derivative-supplied or monotonicity-filtered) passes through its nodes, has the documented continuity and boundary conditions, returns derivatives that are those of its value, integrals (also with powers, with other functions, and convolutions) that are those of its value, finds all its simple roots and extrema on the requested interval, extrapolates as documented, keeps monotone data monotone when asked to, and reproduces polynomials of its own degree exactly. Penalised regression and density fits reproduce data lying in the spline space.',
 ['inputs'], 'for every grid of up to a few nodes with spacings and values from small sets, every spline kind and boundary condition, evaluated at nodes, midpoints, just off nodes and outside',
 'Tests use one or two smooth functions.', ['src/math_spline.cpp','src/math_spline.h'], [('CubicSpline, QuinticSpline, LinearInterpolator2d, CubicSpline2d, QuinticSpline2d, LinearInterpolator3d, CubicSpline3d, BsplineInterpolator, SplineApprox','src/math_spline.cpp')], ['evalDeriv, integrate'])
prop('M02', 'Linear algebra routines agree with their mathematical definition',
 'Matrix and vector operations (products, decompositions LU/Cholesky/QR/SVD and solves, dense and sparse storage in any triplet order, band matrices, block operations) give the exact mathematical result up to rounding for every well-conditioned input of any shape; element access and lists of elements with out-of-range indices, decompositions of non-square matrices where a square one is needed, and Cholesky decomposition of a matrix that is not positive definite are reported by an exception rather than a wrong answer or memory corruption.',
 ['inputs'], 'for every matrix up to 3x3 (and selected larger shapes) with entries from a small integer set, every shape combination, every triplet order',
 'Tests use one random matrix.', ['src/math_linalg.cpp','src/math_linalg.h'], [('Eigen-based wrappers','src/math_linalg.cpp')], ['math:: linear algebra API'])
prop('M03', 'Optimisation solvers return feasible, optimal solutions or an error',
 'The linear and quadratic optimisation solvers with non-negativity/box constraints and penalties return a point that satisfies the constraints to tolerance and attains the minimum of the objective, or report infeasibility by an error; never an infeasible or sub-optimal point as a success.',
 ['inputs'], 'for every small integer problem (up to 2 constraints, 3 variables) compared with brute-force vertex enumeration',
 'Tests solve one problem.', ['src/math_optimization.cpp'], [('GLPK/CVXOPT/Eigen wrappers','src/math_optimization.cpp')], ['linearOptimizationSolve, quadraticOptimizationSolve'])
prop('M04', 'Root finding, minimisation, quadrature and polynomial tools are correct',
 'The one-dimensional root finder returns a root inside the bracket to the requested accuracy whenever the end-points have opposite signs, including infinite and semi-infinite intervals, and NaN otherwise; the minimiser returns a local minimum when the starting point brackets one (otherwise an end-point of the shrunk interval), never above the values it was given; polynomial solvers return all distinct real roots of equations with well-separated roots in ascending order; binary search returns the bin containing the value; quadrature rules of order n integrate polynomials of the degree they promise exactly; endpoint scalings are inverse to each other. No input function makes them loop forever.',
 ['inputs'], 'for every function of a family (polynomials with small integer roots, monotone step and kinked functions, functions with NaN/inf), every bracket from a small set including infinities, every tolerance',
 'Tests use a handful of functions.', ['src/math_core.cpp','src/math_core.h'], [('findRoot, findMin, integrate, ScalingInf etc.','src/math_core.cpp')], ['math:: functions'])
prop('M05', 'ODE integrators meet their tolerance and dense output is consistent',
 'The initial-value solvers advance any smooth system to the requested accuracy, forwards and backwards in time; the interpolated solution inside a step joins the end-points continuously and agrees with the state reported at them; results do not depend on how the interval is divided into calls up to the tolerance.',
 ['inputs','histories'], 'for every system of a family with known solution, tolerance, step partition and query pattern up to a small bound',
 'Tests integrate one or two systems once.', ['src/math_ode.cpp','src/math_ode.h'], [('OdeSolverDOP853, BaseOdeSolver, Hermite','src/math_ode.cpp')], ['OdeSolver API'])
prop('M06', 'Polygon and geometric predicates agree with exact geometry',
 'Point-in-polygon tests, clipping and intersection areas of apertures agree with exact rational geometry for every simple polygon regardless of vertex order or starting vertex, the areas of a partition add up, every point of a partitioned region belongs to exactly one piece, and degenerate polygons have zero area and contain nothing.',
 ['inputs'], 'for every polygon with up to 5 vertices on a small integer lattice and every lattice/half-lattice point',
 'Tests use one polygon.', ['src/math_geometry.cpp','src/math_geometry.h'], [('polygon clipping and spatial binning','src/math_geometry.cpp')], ['math:: geometry API'])
prop('M07', 'Spherical-harmonic transforms are exact inverses within the band limit',
 'For every lmax, mmax and symmetry type, the forward transform of a function followed by synthesis reproduces every function within the band limit, coefficients excluded by symmetry are exactly absent, and Legendre/trigonometric function arrays and their derivatives satisfy their defining recurrences at every angle including the poles.',
 ['inputs','configurations'], 'for every lmax <= 8, mmax <= lmax, symmetry type and basis function',
 'Tests use a few lmax values for one symmetry.', ['src/math_sphharm.cpp','src/math_sphharm.h'], [('SphHarmIndices, SphHarmTransformForward, sphHarmTransformInverse, sphHarmArray, trigMultiAngle','src/math_sphharm.cpp')], ['math::SphHarm*'])
prop('A01', 'Actions, angles and frequencies form a consistent canonical map',
 'For every supported action finder and mapper, actions computed along any orbit of the potential they are made for are constant, angles advance at the returned frequencies, the mapping from actions/angles back to position/velocity is the inverse of the forward one, and frequencies are the derivatives of the Hamiltonian by actions, to the accuracy the method promises (machine-like for isochrone and spherical/Staeckel cases). Limiting orbits (circular, radial, planar, shell, zero angular momentum) are handled without failure; unbound orbits give NaN, not garbage.',
 ['inputs'], 'for every point of a phase-space lattice including degenerate orbits, for each finder on the potentials for which it is exact',
 'Tests sample random generic orbits.', ['src/actions_isochrone.cpp','src/actions_spherical.cpp','src/actions_staeckel.cpp','src/actions_torus.cpp','src/actions_factory.cpp'], [('ActionFinder*, ActionMapper*','src/actions_*.cpp')], ['actions(), actionAngles(), map()'])
prop('O01', 'Orbit integration output is independent of how it is recorded',
 'The trajectory recorded for an orbit does not depend on which other quantities are recorded, on the number of other orbits in the batch, on threads, or on splitting the time interval into consecutive runs (up to the integration tolerance); energy is conserved in static potentials, the rotating-frame description is equivalent to the inertial one, and requested output times are exactly honoured, for forward and backward integration. Sampling at the initial and final time reproduces the state.',
 ['inputs','configurations','histories'], 'for every combination of recording options, direction, frame, time partition and potential of a small set',
 'Tests integrate a few orbits with one recording option.', ['src/orbit.cpp','src/orbit.h','src/orbit_variational.cpp'], [('orbit::OrbitIntegrator, RuntimeTrajectory','src/orbit.cpp')], ['orbit:: and agama.orbit'])
prop('D01', 'Distribution functions are non-negative, additive and normalised consistently',
 'Every distribution function returns finite non-negative values for all physically allowed actions, with derivatives that are those of its value, even or odd in the sign of angular momentum as documented; a composite equals the sum of its components; total mass equals the integral over action space, and (for isotropic and anisotropic inversion) the DF generates the density it was built from.',
 ['inputs','configurations'], 'for every DF family over a grid of parameters (including boundary values), at every action triplet of a lattice including zeros, both signs of Jphi',
 'Tests check one parameter set per family.', ['src/df_base.cpp','src/df_halo.cpp','src/df_disk.cpp','src/df_spherical.cpp','src/df_factory.cpp','src/galaxymodel_spherical.cpp'], [('evalDeriv/value/totalMass','src/df_*.cpp')], ['DistributionFunction API'])
prop('G01', 'Orbit-superposition density targets partition mass correctly',
 'A spatial density target of any type assigns every point to cells with non-negative weights that sum to the mass inside its grid (exactly one cell for histogram-type grids, a partition of unity for finite-element grids), the projection of an analytic density equals the integral of the density against these weights, and point order or grouping does not matter.',
 ['inputs','configurations'], 'for every target type, small grid size and symmetry, at every lattice point including cell boundaries and outside',
 'Tests use one grid.', ['src/galaxymodel_densitygrid.cpp','src/galaxymodel_target.cpp'], [('DensityGrid classes and TargetDensity','src/galaxymodel_densitygrid.cpp')], ['Target API'])
prop('G02', 'Line-of-sight velocity targets record projected kinematics faithfully',
 'The LOSVD data cube recorded from points equals the histogram/B-spline projection of those points through the viewing angles, apertures, PSF and symmetry of the model computed directly; total recorded mass equals the mass of points inside the apertures, converting between B-spline amplitudes and Gauss-Hermite moments is consistent with direct integration, and apertures that extend outside the datacube (or a missing list of apertures) are rejected.',
 ['inputs','configurations'], 'for every small aperture set, B-spline degree 0..3, symmetry and viewing angle of a grid, at every lattice point',
 'Tests use one configuration.', ['src/galaxymodel_losvd.cpp','src/math_gausshermite.cpp'], [('TargetLOSVD, GaussHermiteExpansion','src/galaxymodel_losvd.cpp')], ['Target API, ghMoments'])
prop('F01', 'Fokker-Planck evolution conserves mass and energy and is restartable',
 'Evolving a system with the Fokker-Planck solver conserves total mass and energy up to discretisation and reported boundary fluxes, keeps the distribution function non-negative, reports the elapsed time consistently, and does not depend on how the evolution is divided into calls with the same steps.',
 ['configurations','histories'], 'for every combination of discretisation method, boundary conditions, number of components and step partition up to a small bound',
 'Tests do one run.', ['src/galaxymodel_fokkerplanck.cpp'], [('FokkerPlanckSolver','src/galaxymodel_fokkerplanck.cpp')], ['FokkerPlanckSolver API'])
prop('R01', 'Raga simulation tasks record exactly what happened',
 'In a Raga simulation every task sees each orbit segment exactly once and in time order: recorded trajectory times are the requested ones, particle masses and captured mass account for every particle, the black-hole parameters given in the configuration are those used, and the result of an episode does not depend on which optional tasks are enabled.',
 ['configurations','histories'], 'for every subset of tasks and episode/output interval combination on a small particle set',
 'The repository has no automated test of the Raga program.', ['src/raga_core.cpp','src/raga_losscone.cpp','src/raga_trajectory.cpp','src/raga_potential.cpp','src/raga_relaxation.cpp','src/raga_binary.cpp'], [('RagaCore::doEpisode, tasks','src/raga_core.cpp')], ['RagaCore API'])
prop('S01', 'Self-consistent models honour their components',
 'In an iterative self-consistent model the total potential after an update equals the sum of the fields of all components, dead components and components without distribution function are left unchanged, the order of components does not matter, and one iteration of an already self-consistent model leaves it unchanged up to the stated accuracy.',
 ['configurations','histories'], 'for every set of up to three components of each kind, every order, and up to a few iterations',
 'Tests build one model in one order.', ['src/galaxymodel_selfconsistent.cpp'], [('updateTotalPotential, doIteration','src/galaxymodel_selfconsistent.cpp')], ['SelfConsistentModel API'])
prop('E01', 'C and Fortran interfaces agree with the C++ library',
 'Potentials, densities and actions evaluated through the C interface, the Fortran bindings and the NEMO plugin equal those of the C++ classes (up to the value of G and the rotation with the pattern speed that the plugin adds) for every output combination, including null outputs, inactive particles and values to be added; nothing outside the requested outputs is written; an invalid specification yields a null handle with an error text in the C interface, never a crash or an escaping exception.',
 ['inputs','configurations'], 'for every interface function, every subset of requested outputs and coordinate system, over a lattice of points and a list of valid and invalid specifications',
 'There is one example program per language.', ['src/interface_c.cpp','src/interface_c.h','src/interface_fortran.cpp','src/interface_nemo.cpp'], [('agama_* functions','src/interface_c.cpp')], ['C API'])
json_lines = [json.dumps(p) for p in P]
open(V + '/properties.jsonl', 'w').write('\n'.join(json_lines) + '\n')
print(len(P), 'properties')

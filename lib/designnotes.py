HEAD = r'''# Model checking Agama: design

This file is generated by `lib/mkdesign.py` (text in `lib/designnotes.py`).

## 1. Family of technique and how it is used here

Everything is decided by *exhaustive enumeration of a bounded space of executions of the real code*; there is no sampling and no
solver verdict. Three forms occur:

* **schedules / faults** - stateless exploration of the real OpenMP regions under a controlled scheduler (`harness/omprt`), of every
  position of a failing user callback, of every truncation point / failing system call of an output file (`harness/iofault.h`);
* **histories** - all sequences of operations (map operations, integration steps, runs/stops/recordings, handle operations,
  iterations) up to a depth, executed on the real classes next to a small reference model that is compared after every step
  (so the "model" is bound to the code by construction: every model trace *is* replayed on the implementation);
* **configurations x inputs** - complete products of small parameter sets (type x shape x modifier x coordinate system x requested
  outputs x lattice points, including all degenerate values) executed on the real code, judged by an independent oracle
  (exact integer arithmetic, reference recurrences, automatic differentiation, quadrature, symmetry groups, direct definition).

Why this family reaches what the tests do not: tests in the repository evaluate a handful of generic configurations. Nearly all
defects found (section 4) sit at combinations that a test author does not sample: on the axis *and* in one coordinate system *and*
with only second derivatives requested; the second thread preempted between two statements; a file cut at one particular byte; an
orbit that is circular *and* inclined. These are precisely the points of a bounded complete enumeration.

### Oracles and tolerances
The code is numerical; a "violation" must mean that the code is wrong, not inexact. Each harness therefore carries error models:
conditioning-dependent tolerances (units of the dimension of each quantity, cancellation estimates), documented accuracy of
approximate methods, and exact comparison (bitwise) wherever the property is one of independence (layout, threads, output
subsets, order). When an alarm turned out to be caused by the oracle the machinery was corrected (section 5).

## 2. Infrastructure

* `lib/vbuild.py` compiles /repo's current sources in the flavours `std`, `race` (every load/store instrumented through a GCC
  tsan-callback runtime of our own), `asan`, and links harnesses; objects are cached in `/verif/build` by the hash of source, headers
  and flags, so a change in the working tree is always rebuilt. `build_python` builds the Python extension the same way.
* `lib/vcheck.py` runs harness shards on 8 cores, gathers states / transitions / traces, turns `FAIL <case> <text>` lines into
  `VIOLATION property=<id> replay=<path>` unless the exact case is listed as open in `known_findings.jsonl`, and writes
  `evidence/<id>.json`. A harness that dies (signal, timeout) is itself a violation with the case in progress as the replay.
* `harness/vh.h`, `harness/pyh.py` - deterministic sharding, case ids (replayable: `exe --only <case>`), counters.
* `harness/omprt` - controlled OpenMP runtime: the GOMP entry points are replaced; exactly one thread runs at a time; scheduling points
  are loop-chunk requests, critical sections, barriers, and shared memory accesses; depth-first enumeration of schedules with a
  preemption bound plus happens-before (vector clock) race detection over all instrumented accesses.
* `harness/models.h` - palette of ~80 model specifications used by several checks.
* No hooks are needed in /repo: `MANIFEST.json` lists none. All commits to /repo are `fix:` repairs.

Every check has a quick tier (default) and a thorough tier (`VERIF_TIER=thorough` / `--thorough`, larger bounds).
'''
NOTES = {
'I01': 'Specified by a reference ordered map of sections/keys (20 lines). Enumerated: every sequence of 18 operations (set/unset/contains/get/save/load, sections by name) to depth 4 (5), and every INI text of up to N characters over an alphabet chosen from the parser (brackets, =, comment signs, quotes, blanks, newline). After every step all queries are compared and the file is saved and re-read. ~20 s.',
'I05': 'All strings over small alphabets for toInt/toFloat/toDouble/toBool/splitString/endsWith, all numbers of a grid (every decimal exponent, denormals, infinities) for pp/toString, compared with reference parsers and exact round trip. ~10 s.',
'C01': 'Every parallel region of the library is driven by a harness body (30) on a tiny instance; the runtime enumerates all schedules of 2 and 3 threads to the largest preemption bound completed in the budget (reported per region). On every schedule: results equal the single-thread result, no data race (happens-before), no deadlock. Tests run one schedule. ~60 s.',
'C02': 'As C01, but the k-th user callback evaluation (for all k, or first/last/spaced when many) throws; once, twice, or persistently. Required: the caller receives the exception (or documented NaN), no thread is lost, no state is corrupted, a subsequent call works. ~60 s.',
'C03': 'Every vectorised Python method x models x output flags x number of points around each chunk boundary (1, 63..65, 1023..1025, 2049) x memory layouts (C, Fortran, strided, reversed, lists, integer, read-only) x 1 and 4 threads; each row must be bitwise equal to the single-point call. ~60 s.',
'I02': 'All particle kinds x formats x units x headers with 0..4 particles and a palette of values, independent readers (text, NEMO); every truncation point of the file; every failing write/flush/close at each position (interposed stdio). A failure must be reported, a file that cannot be read must raise. ~10 s.',
'I03': 'All coefficient-defined expansions (every subset of non-monopole terms up to a small order) and source-built ones are exported, re-imported and compared at a lattice of points and coefficient by coefficient; every byte limit and failing system call while writing must be reported. ~10 s.',
'P01': '~75 models x radii x directions (axes, planes, origin, negative coordinates) x 3 coordinate systems x every subset of outputs (value/gradient/hessian) x times. Oracle: independent chain rule between coordinate systems, Laplacian = density, error-controlled finite differences (Ridders), bitwise independence of the outputs requested. ~10 s.',
'P02': 'For every model the symmetry declared is tested as a group (all generators and products) on a lattice; all masks of expansion terms; linearity under composition; per-term reference sums; modifiers reduce the declared symmetry. ~10 s.',
'P03': 'Full product of modifiers (scale, rotation, orientation, center in constant, inline table, file forms) x base models; reference affine map applied to the unmodified model: Phi, gradient, Hessian, density at a lattice of points and times. ~10 s.',
'M01': 'Every grid of up to 4 (5) segments with spacings {1,3,0.05} x node values from {0,1,-2} x end conditions for linear/cubic/quintic/log/B-spline interpolators; values, three derivatives, integrals, roots, extrema, convolutions against exact piecewise polynomials. ~40 s.',
'M02': 'All small-integer matrices up to 3x3 x transposition/side/triangle flags for dense/sparse/band products, and LU/Cholesky/QR/SVD decompositions against exact results; copy/move/empty/out-of-range operations. ~10 s.',
'M03': 'Every small linear/quadratic programme with integer data, all bound and penalty patterns; oracle: vertex enumeration with exact feasibility; solvers through the C++ and Python entry points. ~50 s.',
'M04': 'Root finders, minimisers, quadrature, polynomial solvers, binary search, scalings, fcmp, Hermite interpolation over complete families of inputs against exact answers. ~10 s.',
'M05': 'All sequences of step kinds (forced long, default, zero, reversed, rejected) for DOP853, Hermite, GL3, GL4; oracle: exact flows; order of convergence, dense output continuity, state after rejected steps. ~10 s.',
'M06': 'All simple polygons on 3x3 / 4x4 lattices: point-in-polygon, clipping with every rectangle, integrals; exact integer geometry. ~10 s.',
'M07': 'All (l,m), symmetries and basis functions against long double recurrences, at the poles and within 1e-8 of them; transforms forward and backward. ~10 s.',
'X01': 'Complete products of coordinates (all signs, zeros, foci, huge/tiny values): conversions forward/backward, Jacobians and second derivatives against automatic differentiation (`harness/ad.h`) of the definitions; Euler rotations. ~5 s.',
'O01': 'Histories: every subset and order of recorded quantities, every partition of the interval into <=5 runs, step-limit stops, direction, frames, batch composition and threads. The trajectories must coincide. ~60 s.',
'E01': 'C, Fortran and NEMO interfaces driven through every function x model x output subset x invalid specification x handle sequences and compared bitwise with the C++ classes. ~40 s.',
'G01': 'All density-target types with small grids: for each lattice point the returned weights must equal an independent implementation of the basis function; sum equals mass; permutations/groupings; projection of densities vs quadrature. ~40 s.',
'G02': 'LOSVD / KinemShell targets and Gauss-Hermite moments: every degree, symmetry, PSF and viewing angle of small grids; Cox-de Boor reference basis; quadrature. ~25 s.',
'A01': 'Orbits of a complete lattice (potential x size x eccentricity x inclination x phase; circular, radial, planar, polar included) are integrated numerically, and each finder is asked at every point: J constant and equal to an independent quadrature, angles advance linearly with the frequencies, Poisson brackets, all output subsets, symmetries (rotation, mirror, reflection, time reversal), round trips through mappers, scaling, unbound/NaN input. ~60 s.',
'D01': 'Every DF class is built for every parameter combination of the declared sets and evaluated on a complete lattice of actions (zero, planar, radial, circular, counter-rotating, huge), against independently coded formulas, difference quotients, own quadratures for mass and entropy; composites of all combinations of components up to length 3 (4); inversion DFs against density, velocity dispersions, diffusion coefficients recomputed by quadrature. Excluded (documented limits, not findings): inversion of NFW with finite r_a (1-4 % density error), exponentially truncated spheroids beyond r=10, total mass of an extreme Exponential DF (Jr0=0.05, Jz0=2, coefJz=0; cubature error of several %), derivatives at J=0. ~25 s.',
'I04': 'Each documented type of potential, density and DF is built for subsets of its parameters (none, each value of each, all pairs, all) in every way the library offers and compared bitwise at 6 points and 2 times; the C++ part does the same for the whole palette of 81 composite, modified and time-dependent models with all orders of arguments. Rejection: every parameter x declared bad values, every one-letter deletion/insertion of names, parameters of other types, files missing or damaged, every truncation point of GalPot files; the working directory and the file tree are compared before and after. ~60 s.',
 'C04': 'The real module is driven by every sequence of calls up to a depth, next to small explicit models. Threads: stack of with-blocks, plain calls, rejected calls, exceptions inside blocks; the model is a stack, the observation omp_get_max_threads(). Units: valid and invalid setUnits against a table, plus the physical potential of a Plummer sphere. Seeds: after a seeding, the stream may depend only on the draws made since. Lifetimes: a dependency graph of 50 kinds of objects (composites, modified, sub-objects returned by getters and indexing, orbits, models, targets, splines, user callbacks); for each kind every deletion order of its closure, evaluating all survivors bit for bit after each step while freed memory is overwritten; overwriting input arrays; every failing call and pair of failing calls; reference counts per call; deletion/assignment of every attribute; all histories over a pool of 10 objects. Objects created by __new__ without __init__ are outside the property. ~55 s on 8 idle cores.',
 'U01': 'About 115 kinds of computation reachable from Python (harness/u01_py.py) are described once in kpc, km/s and Msun. Every kind is executed in 20 systems of units set by the three forms of setUnits, and in the trivial system with all lengths and velocities rescaled by powers of two; arguments are divided and results multiplied by the units of their dimension, and the physical numbers must agree. The comparison of unit systems is limited by round-off only (1e-5, because of adaptive integration); the comparison of scales (3e-3) sees absolute constants in formulae that should be scale-free. Not comparable and therefore treated separately: the zero point of the logarithmic potential (only differences), random orientations of orbits in symmetrised LOSVD targets, positions of sampled particles under rescaling (the stream of random numbers depends on the grid), line-of-sight integrals that diverge, the documented inaccuracy of the triaxial Dehnen potential at large radii.',
 'P05': 'Sources are sums of r^l/(1+r^(1/eta))^(eta(2l+1)) Y_lm, for which both potential and density are elementary, with automatic differentiation for the exact force. All single harmonics up to l=4 and the full sets allowed by each symmetry class are expanded by each class with each way of declaring the symmetry, orders equal to or above those of the source, with and without fixOrder and over three grids. Inside the grid potential, force and density agree to the accuracy reached by the interpolation (about 10x the measured error), outside with the extrapolation law, the coefficients excluded by symmetry are exactly zero and the ones absent in the source are at round-off level. The vicinity of the axis (three first cells of CylSpline) for non-axisymmetric sources and cuspy sources in CylSpline are outside the guarantee.',
 'S01': '**Enumerated.** (a) Every ordered selection of up to three components out of eight kinds (static or responding to the potential, spheroidal or disk-like density, analytic potential, both, nothing) and operation sequences of length three over iterate, update the potential, drop the potential, drop the action finder, rotate / shorten / extend the component list. After every operation the total potential is compared with the sum of the fields of the components held by an explicit model, and each component is checked to have been updated exactly once, in the potential and with the action finder that were in force before the step. The stub component records what it was called with; createActionFinder is replaced at link time so a sequence costs milliseconds. (b) Components with genuine distribution functions: an iteration of an already self-consistent model must stay at the fixed point (spheroidal, in an external halo, two halves, potential initially absent, interpolated action finder), the density of each component equals the velocity integral of its DF in the previous potential, and the result does not depend on the order of components.\n**Bounds.** Quick: two- and three-component selections use one residue class of the sequences each (12 or 86 classes); thorough: all. The disk-like component with a real DF is left out: a (R,z) grid affordable here is not accurate enough to compare with anything.',
 'R01': '**Enumerated.** All subsets of {potential update, snapshot output, relaxation} x six black hole set-ups (none, single, single with a stray mass ratio, equal and unequal binaries, a binary with q=0) x three episode lengths x four numbers of samples per episode (chosen so that L/N*N exceeds L by roundoff for some) x three captured-mass fractions; three successive episodes each, with one and with four threads. Recording tasks put first and last in the public task list see the orbit segments: contiguous, from 0 to the end of the episode, the same for both except the segment in which the particle is captured; inactive particles get none. Every orbit is integrated once more outside Raga with a dense scan for pericentre passages, which yields the expected captures (time, distance, energy, hole), the final state, the samples and with them the updated potential, the new mass and mass ratio of the holes. Files (capture list, log, snapshots) are read back.\n**Excluded.** Pericentre distances within 5 % of the capture radius are not judged; with relaxation only the bookkeeping is compared (kicks are pseudo-random). Particles have a small mass when there is a binary: a heavy particle can unbind it, for which evolveBH has no meaning. **Found and repaired:** the four R01 entries in known_findings.jsonl.',
}
NA = {}
TAIL = r'''
## 5. False alarms met while building, and what was changed

Each of these was a mistake of the property text, harness or oracle, and was corrected there (never listed as a finding):

* C01/C02: memcpy and TLS swaps of our own runtime reported as races; the fault counter was itself instrumented; LOSVD projections of a DF document that failed evaluations count as zero.
* I01/I05: denormal precision; INI quoting rules. I02: a first line cut after >=4 columns is indistinguishable from a valid file; "1e" in the last field is legitimately an error; float range of NEMO. I03: byte-identical re-export is too strong (coefficients below 1e-14 of the monopole are eliminated as documented; nested composites are flattened), text precision of CylSpline densities.
* X01: error scales per physical dimension; overflow beyond 1e75. M06: clipped vertices may exceed the rectangle by rounding. M04: ties in findMin, root finder at the iteration limit (reports a warning), Gaussian tails. M01: extrema where the function is constant, rms by cancellation, log-log kinks. M02: Eigen's asserts. M03: infeasible test problems, NaN right-hand sides may be refused. M05: the initial step estimate is direction independent; vanishing initial derivatives. M07: cancellation near the poles for m>=1.
* P01/P02: finite-difference step below the smallest scale of the model, NFW and Ferrers cancellation, near-axis accuracy of expansions, triaxial Dehnen at r>50. P03: order of evaluation of modifiers.
* C03: longdouble arrays unsupported, one-element arrays treated as a scalar, different summation order in a convolved spline, unbound energies. O01: deviation vectors are of limited accuracy, chaotic long orbits, Hermite only for static potentials.
* E01: potential_float takes a float time; addresses in stack traces. G01: points on the outer boundary may or may not belong; NaN particle in the cylindrical top-hat. G02: outer quadrature rule and transposition of the convolution matrix; coarse cubature; std::length_error.
* A01: a "polar" orbit of the harness had Lz at rounding level; bit-exact rotation invariance is too strong; interpolated finders have limited accuracy for e>0.99; the default focal distance of the fudge is not scale invariant; J_r of nearly radial Staeckel orbits is accurate to 1e-3 only; near-circular orbits deep inside a harmonic core are ill-conditioned; for Lz=0 box/loop angle conventions differ.
* D01: the step of a finite-difference derivative must follow f/f'; the odd part of a maximally rotating DF loses relative precision; our velocity quadrature needs t^3 clustering; drift coefficients come multiplied by v; range of the mass quadrature for steep cusps; asymptotic expansion for |q|<=1e-7; a core preserves the mass only "almost" (as documented).
* I04: trailing characters after numbers and NaN values need not be rejected. C04: objects made by `__new__` without `__init__` are outside the interface; a Spline with one node and moments([x,y]) are legal; loop variables of the harness held references.
* U01: agama.G is an object mutated in place; zero point of the logarithmic potential; points on the selection boundary; documented inaccuracy of the triaxial Dehnen model at large radii; random rotation of symmetrised LOSVD orbits; random-number streams under rescaling.
* P05: first cells near the axis of CylSpline for m!=0; cuspy sources in CylSpline; the REFLECTION flag alone is not recoverable from an expansion.
* S01: a disk-like DF component is not accurate enough on a grid of affordable size; interpolated density against a direct velocity integral needs 30 % tolerance.
* R01: exactly radial orbits into the hole; heavy particles that unbind the binary make the semimajor axis NaN; pericentres within 5 % of the capture radius are not judged.

## 6. Seeded bugs (independent of the checks) and which check catches them

Kept under `seeded/<id>/` with a patch, a demonstration and meta.json (all of them pass the stable tests):

| seeded bug | what it needs | caught by |
|---|---|---|
| C02-catch-runtime-only | a DF failing with an exception other than runtime_error in a parallel evaluation | C02 |
| I01-unset-not-saved | a parameter removed and nothing else changed before closing the file | I01 |
| I05-endswith-longer | a suffix one character longer than the string | I05 |
| M06-inside-edge | a point level with the lower end of a descending edge of the polygon | M06 |
| X01-sph-south-pole | a point exactly on the negative z axis with a transverse velocity | X01 |
| P02-unknown-component | a composite in which one component has an unspecified symmetry | P02 (missed at first; models written by the user added) |
| R01-second-hole-first-step | a star starting inside the capture radius of the secondary, moving outwards | R01 (missed at first; stars near each hole added) |

Further mutants, written from the property texts and run once in scratch copies (not kept):

| mutant | check | result |
|---|---|---|
| slope of the drift term in the quasi-isothermal disk DF; coefficient q_Jr used in place of q_Jphi | D01 | caught (both) |
| sign of the angle in Rotating density symmetry mask (TRIAXIAL for BISYMMETRIC) | P02 | caught |
| sign of a velocity in a symmetrised LOSVD copy | G02 | caught |
| sign of nu-dot ignored in the prolate system; Omega_phi for L_z=0 | A01 | caught (both) |
| outward extrapolation slope limit of Multipole | P05 | caught |
| symmetric boundary condition of a spline assumed when both ends are free | M01 | caught |
| first sample of an output interval | O01 | caught |
| stellar-mass column of a text snapshot read one column later | I02 | caught |
| action finder not rebuilt when only the potential is given | S01 | caught |
| omitted black-hole potential in the diagnostic energy of the Raga log; skipping zero amplitudes in a B-spline integral | R01, M01 | equivalent, correctly quiet |

'''

import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('P05', 'exploration')
    c.run_harness([vbuild.build_exe('p05', ['p05.cpp'])], part='cpp', nshards=16, timeout=840)
    return c.finish('every combination of real spherical harmonics in the source (each single l,m up to l=4 and the sets allowed by each class of symmetry) x two radial families with analytic potential-density pairs x way to declare the symmetry (by the source, by the argument, not at all) '
        'x expansion (Multipole and CylSpline from density or potential, BasisSet, spherical- and azimuthal-harmonic density) x orders lmax, mmax equal to or above those of the source x fixOrder x grid (wide, narrow, automatic); '
        'oracle = the analytic potential, force, density, mass at a lattice inside, within and beyond the grid, vanishing of the coefficients absent in the source, exact zero of those excluded by symmetry; outcome = expansion x symmetry x orders')
vcheck.main(run)

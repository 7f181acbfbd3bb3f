import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('M07', 'exploration')
    c.run_harness([vbuild.build_exe('m07', ['m07_sphharm.cpp'])])
    return c.finish('every (l,m) up to the bound x polar angles including the poles and 1e-8..1e-3 away from them against an independent long-double recurrence with second derivatives; every admissible symmetry x lmax x mmax '
        'of the index scheme (bijection, empty coefficients, forward and inverse transform of every single harmonic); multi-angle sines and cosines; axisymmetric integrals/normalisation; '
        'outcome = routine x symmetry x order')
vcheck.main(run)

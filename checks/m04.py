import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('M04', 'exploration')
    c.run_harness([vbuild.build_exe('m04', ['m04_tools.cpp'])])
    return c.finish('polynomials with all sets of well-separated roots from a palette and all small-integer quadratics/cubics against exact root counts; every ascending array of <=9 nodes from palettes with '
        'adjacent floating-point numbers x every query (binary search, six types) against a linear scan; every end-point scaling x logarithmic grids over the whole range of doubles; every function of a family '
        '(smooth, steps, kinks, poles, NaN/inf) x bracket x tolerance x with/without derivatives x scaling for the root finder, and x starting point for the minimiser; every Gauss-Legendre order up to 60 x every '
        'monomial it must integrate exactly; failure of every single evaluation of an integrand; outcome = family x kind of result')
vcheck.main(run)

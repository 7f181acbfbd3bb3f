import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('M01', 'exploration')
    c.run_harness([vbuild.build_exe('m01', ['m01_spline.cpp'])])
    return c.finish('every grid of 1..4 (thorough 5) segments with spacings from {1,3,0.05}, off-centre and centred, x every vector of node values from {0,1,-2}, x all combinations of natural/clamped ends, for the '
        'linear, cubic, regularized, Hermite, quintic interpolators and B-splines of degree 0..3 (every basis function and combinations): the exact polynomial of every segment is extracted and node values, '
        'continuity, boundary conditions, derivatives, integrals, convolutions, roots, extrema, monotonicity are compared with it; 2d/3d splines against tensor products; log-log splines over 81 data vectors; '
        'penalised regression and density fits against exact conditions; invalid inputs of every kind; outcome = interpolator kind x size x number of roots/extrema')
vcheck.main(run)

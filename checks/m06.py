import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('M06', 'exploration')
    c.run_harness([vbuild.build_exe('m06', ['m06_polygon.cpp'])])
    return c.finish('every simple polygon with 3..8 (9) vertices on the 3x3 lattice and 3..5 (6) on the 4x4 lattice, each with every starting vertex and both orientations, x every half-lattice point '
        '(half-open containment in exact integer arithmetic), x clipping rectangles with half-lattice and third corners, x tensor B-spline bases of degree 0..3 on three grids (exact quadrature of '
        'independently computed B-splines); cubic integrals over non-rectangular pieces are only compared to 2e-3, as the rule in the code is documented as inexact; outcome = vertices x area')
vcheck.main(run)

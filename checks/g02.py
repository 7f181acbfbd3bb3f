import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('G02', 'exploration')
    c.run_harness([vbuild.build_exe('g02', ['g02_losvd.cpp'])], part='cpp', timeout=840)
    c.run_harness(['python3', vbuild.VERIF + '/harness/g02_py.py'], env={'PYTHONPATH': vbuild.build_python()}, part='py', tag='py')
    return c.finish('every B-spline degree x grid x viewing angle x symmetry x PSF, all points of a phase-space lattice one by one, six apertures (rectangles, convex, concave, clockwise, overlapping, the entire image); random rotations explained by a search over the angle; density and DF projections; Gauss-Hermite expansions for all functions, parameters and orders of a palette; Python: layouts, threads, specifications; oracle = Cox-de Boor basis, quadrature and explicit rotations; outcome = combination class')
vcheck.main(run)

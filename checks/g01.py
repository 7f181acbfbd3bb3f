import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('G01', 'exploration')
    c.run_harness([vbuild.build_exe('g01', ['g01_grid.cpp'])], part='cpp', timeout=840)
    c.run_harness(['python3', vbuild.VERIF + '/harness/g01_py.py'], env={'PYTHONPATH': vbuild.build_python()}, part='py', tag='py')
    return c.finish('every density target type x small grid x axis ratios / harmonic orders x every lattice point (cell centres, fractions, faces, edges, corners, axes, origin, outside), its mirror images, all permutations and groupings of four points; projections of a palette of densities; Python: all prefixes, orders, groupings, layouts and numbers of threads; oracle = independent definition of the basis functions and quadrature; outcome = combination class')
vcheck.main(run)

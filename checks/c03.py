import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('C03', 'exploration')
    c.run_harness(['python3', vbuild.VERIF + '/harness/c03_py.py'], env={'PYTHONPATH': vbuild.build_python()}, part='py', tag='py', timeout=840)
    return c.finish('every vectorised Python method (potentials, densities, projections, actions and angles, distribution and selection functions, galaxy models, splines, orbits) x models of every class x combinations of optional outputs '
        'x number of points around every chunk size of the batch loops x number of threads x scalar or per-point auxiliary arguments x memory layouts, containers and types of the input, in two unit systems; '
        'oracle = the same method called for each point separately; outcome = method x argument combination x number of points')
vcheck.main(run)

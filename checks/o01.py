import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('O01', 'model_checking')
    c.run_harness([vbuild.build_exe('o01', ['o01_orbit.cpp'])], part='cpp', timeout=840)
    c.run_harness(['python3', vbuild.VERIF + '/harness/o01_py.py'], env={'PYTHONPATH': vbuild.build_python()}, part='py', tag='py')
    return c.finish('every subset of recorded quantities in both orders, every partition into up to five consecutive runs, every number of steps up to the length of the orbit (limit, stop or change of state), '
        'reversal, for the product of potentials (static, rotating, moving, evolving, expansions), initial conditions, coordinates, directions, start times, pattern speeds and accuracies; '
        'all combinations of outputs, data types and batches of agama.orbit; oracle = the same orbit recorded alone (bitwise), an independent fixed-step integration in the inertial frame, energy, '
        'symplecticity and finite differences; outcome = combination class', mc=True)
vcheck.main(run)

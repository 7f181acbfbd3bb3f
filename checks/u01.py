import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('U01', 'exploration')
    c.run_harness(['python3', vbuild.VERIF + '/harness/u01_py.py'], env={'PYTHONPATH': vbuild.build_python()}, part='py', nshards=32, tag='py', timeout=840)
    return c.finish('every kind of computation available in Python (potentials of every type built from parameters, callbacks, particles and files, with every modifier; densities; sampling; distribution functions; actions, angles and tori; selection functions; '
        'moments, velocity and projected distributions of galaxy models; orbits with deviation vectors; targets; self-consistent models; snapshots) x system of units set by setUnits in all three ways (length/velocity/mass, length/time/mass, velocity/time/mass) '
        'and x scaling of all quantities by powers of two in the trivial units; oracle = values in physical units agree with those in the first system; outcome = kind of computation x group')
vcheck.main(run)

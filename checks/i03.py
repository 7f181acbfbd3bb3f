import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('I03', 'fault_enumeration')
    c.run_harness([vbuild.build_exe('i03', ['i03_export.cpp'])], part='cpp', timeout=840)
    c.run_harness(['python3', vbuild.VERIF + '/harness/i03_py.py'], env={'PYTHONPATH': vbuild.build_python()}, part='py', tag='py')
    return c.finish('expansions of every class defined by coefficients (all subsets of non-monopole terms up to a small order x grid sizes x placements x interpolation orders x unit systems), built from sources of every symmetry '
        'class and from particles, all pairs and triples as composites (also nested); every byte at which the disk can fill up and every write() failing, short or interrupted; the same through Python; '
        'oracle = equality of coefficients, values, forces, densities, symmetry and of the re-exported file; outcome = model kind x symmetry x unit system or fault kind', {'fault_points': c.stat('transitions')})
vcheck.main(run)

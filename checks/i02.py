import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('I02', 'fault_enumeration')
    c.run_harness([vbuild.build_exe('i02', ['i02_snapshot.cpp'])], part='cpp')
    c.run_harness(['python3', vbuild.VERIF + '/harness/i02_py.py'], env={'PYTHONPATH': vbuild.build_python()}, part='py', tag='py')
    return c.finish('every particle kind x coordinate system x format x unit system x header x time x append flag x 0..4 particles and a palette of values in each column, read back and parsed by independent readers; '
        'every combination of separators, line ends, comments, headers and columns in hand-written files; every truncation point and every malformed field; every byte at which the disk can fill up (RLIMIT_FSIZE) and every '
        'write()/read() call failing, short or interrupted; the same through Python; outcome = part x kind x result', {'fault_points': c.stat('transitions')})
vcheck.main(run)

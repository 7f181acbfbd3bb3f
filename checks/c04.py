import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('C04', 'model_checking')
    c.run_harness(['python3', vbuild.VERIF + '/harness/c04_py.py'], env={'PYTHONPATH': vbuild.build_python(), 'MALLOC_PERTURB_': '165'}, part='py', tag='py', omp=2, nshards=32, timeout=840)
    return c.finish('all call sequences up to a depth: (1) nested with-blocks / plain calls / failing calls of setNumThreads against a stack model, (2) setUnits valid/invalid x construction/deletion against a unit model (reported units, G, and physical values), (3) seeding x drawing x one unrelated (possibly failing) call: the stream equals a fresh one; '
        '(4) 50 kinds of objects with the closure of objects they are built from: every deletion order (all permutations up to 4-5 objects, otherwise all cyclic strides) with freed memory overwritten, every subset of overwritten input arrays, every failing call and pair of them, reference counts; (5) deletion and assignment of every attribute; (6) all histories of create/delete/fail over a pool of 10 objects; '
        'state = set of live objects; outcome = part x object kind', mc=True)
vcheck.main(run)

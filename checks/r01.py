import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('R01', 'model_checking')
    exe = vbuild.build_exe('r01', ['r01.cpp'])
    c.run_harness([exe], part='episodes', timeout=400)
    c.run_harness([exe], part='episodes, four threads', timeout=400, nshards=4, omp=4, tag='omp')
    return c.finish('every subset of optional tasks (potential update, snapshots, relaxation) x six configurations of the central black hole(s) x episode lengths x samples per episode (including those whose sampling interval times the number of samples exceeds the episode by roundoff) x fraction of captured mass, three successive episodes each, '
        'against an independent integration of every orbit with dense detection of pericenter passages; outcome = black hole configuration, tasks, number of captures', mc=True)
vcheck.main(run)

import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('C02', 'model_checking')
    exe = vbuild.build_exe('c01', ['c01_parallel.cpp', ('omprt/omprt.cpp', ['-O2', '-g1'])], 'race', flags=['-fno-omit-frame-pointer'])
    c.run_harness([exe], env={'C02': '1'})
    return c.finish('every parallel region that evaluates user code (see samples): the k-th evaluation inside the region fails (single, two consecutive, or all later ones) '
        'combined with the thread schedules up to one preemption; the call must raise an error carrying the message of the failed evaluation; outcome = distinct (fired, raised) results', mc=True)
vcheck.main(run)

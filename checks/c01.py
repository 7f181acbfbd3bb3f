import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('C01', 'model_checking')
    exe = vbuild.build_exe('c01', ['c01_parallel.cpp', ('omprt/omprt.cpp', ['-O2', '-g1'])], 'race', flags=['-fno-omit-frame-pointer'])
    c.run_harness([exe])
    return c.finish('every parallel region of the library (30 driver bodies) on the real code under a controlled OpenMP runtime: depth-first enumeration of the thread '
        'schedules with increasing preemption bound (the bound completed per region is in samples), plus pair-separating chunk assignments; every execution is checked '
        'for happens-before races on all memory accesses of instrumented code, deadlock, divergence, and its result is compared with the serial execution; outcome = distinct results', mc=True)
vcheck.main(run)

import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('M03', 'exploration')
    h = vbuild.sha(vbuild.rd(vbuild.SRC + '/math_optimization.cpp'))   # this source file is compiled into the harness
    c.run_harness([vbuild.build_exe('m03', ['m03_opt.cpp'], flags=('-DOPT_SRC_HASH=' + h,))], part='cpp', timeout=840)
    c.run_harness(['python3', vbuild.VERIF + '/harness/m03_py.py'], env={'PYTHONPATH': vbuild.build_python()}, part='py', tag='py')
    return c.finish('every integer matrix (entries in {-1,0,1,2}) with up to 2 constraints and 3 variables, right-hand side, objective, bound pattern (default, box, negative, one-sided, free, fixed, contradictory) and penalty '
        'pattern (0, finite, infinite); oracle = enumeration of all activity patterns (vertices) of the original problem and of its recession cone; the quadratic variant decided by replacing the unavailable back end by the same '
        'enumeration; all stackings, layouts and data types in Python; outcome = status class')
vcheck.main(run)

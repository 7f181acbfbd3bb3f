import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('P03', 'exploration')
    c.run_harness([vbuild.build_exe('p03', ['p03_modif.cpp'])])
    return c.finish('complete product of modifier subsets x argument forms (constant, inline table, table file, with derivatives, single row, without final newline) x base models x unit systems x '
        'times x points x coordinate systems x subsets of outputs; all keyword orders; all layerings of up to three modifier groups, all assignments of modifiers to components; '
        'oracle = reference affine maps applied to the unmodified model; outcome = modifier combination class')
vcheck.main(run)

import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('P02', 'exploration')
    c.run_harness([vbuild.build_exe('p02', ['p02_sym.cpp'])])
    return c.finish('every model of the palette, every modifier and pair of modifiers of different kind, every pair of (modified) components, coefficient-defined expansions of all five classes with every subset of '
        'non-monopole terms up to lmax=2 / mmax=3 (and up to 2 terms for lmax=3), x all generators of the declared symmetry group and their pairwise products x points x times; '
        'oracle = invariance of value/force/hessian/density and direct sum over harmonics; all 64 symmetry codes printed and parsed; outcome = model class and declared symmetry')
vcheck.main(run)

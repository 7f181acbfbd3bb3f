import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('E01', 'exploration')
    c.run_harness([vbuild.build_exe('e01', ['e01_ifc.cpp', vbuild.SRC + '/interface_nemo.cpp'])], part='cpp', timeout=840)
    return c.finish('every model of the palette x point x time x subset of requested outputs x separators and trailing blanks; every function of the C, Fortran and NEMO interfaces; all pairs of valid and invalid '
        'specifications; all sequences of creation and deletion on three (C) and four (Fortran) handles; NEMO: every pattern of active particles, adding flags, dimensions and number types; oracle = the C++ classes; outcome = class')
vcheck.main(run)

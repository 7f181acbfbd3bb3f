import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('M02', 'exploration')
    c.run_harness([vbuild.build_exe('m02', ['m02_linalg.cpp'])])
    return c.finish('matrices up to 3x3 (and longer shapes) with small-integer entries x every transposition, side, triangle and scalar factor of the products; every small integer square matrix for LU, Cholesky, '
        'positive-definite and not; every shape for QR and SVD; every subset and order of triplets for sparse storage; band matrices of every size and bandwidth incl. bandwidth larger than the matrix; element '
        'enumeration and out-of-range access of every type; outcome = routine x shape x ok/exception')
vcheck.main(run)

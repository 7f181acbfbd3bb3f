import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('P01', 'exploration')
    c.run_harness([vbuild.build_exe('p01', ['p01_consist.cpp'])])
    n, m = sum(c.extra.get('n_fd_comparisons', [0])), sum(c.extra.get('n_fd_comparisons_meaningful', [0]))
    if not c.fails and m < 0.7 * n:
        print('only %d of %d finite-difference comparisons were accurate enough' % (m, n)); return 3
    return c.finish('every model of a palette of ~75 (all analytic types and shapes, expansions, composites, every kind of modifier incl. time-dependent ones) x radius x direction incl. the axes, planes, origin and '
        'immediate vicinity of the polar axis x time: every subset of outputs in every coordinate system against the full evaluation, conversions of gradients and Hessians by an independent chain rule, density against the Laplacian, '
        'and derivatives against finite differences with an estimated error; outcome = model type x finiteness of each output')
vcheck.main(run)

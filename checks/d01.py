import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('D01', 'exploration')
    c.run_harness([vbuild.build_exe('d01', ['d01.cpp'])], part='cpp', timeout=840)
    return c.finish('every DF type x parameter combination (slopes, core, cutoff, rotation, mixing coefficients, q, potential) x lattice of actions incl. zero, circular, radial, counter-rotating and huge ones; value vs formula, derivatives vs difference quotients, parity, all output combinations, batch calls, total mass and entropy vs own quadrature, all composites up to length 3, action scalings round trip, quasi-spherical inversion vs density / velocity moments / diffusion coefficients, rejected parameters; outcome = DF class')
vcheck.main(run)

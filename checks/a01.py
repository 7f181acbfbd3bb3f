import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('A01', 'exploration')
    c.run_harness([vbuild.build_exe('a01', ['a01.cpp'])], part='cpp', timeout=840)
    return c.finish('every action finder / mapper x lattice of orbits (potential x apocentre x eccentricity x inclination x phase, including circular, planar, polar and purely radial ones) x every point along the numerically integrated orbit; independent quadratures for actions and frequencies, linear advance of angles, all combinations of outputs, rotations, mirror images, reflections, time reversal, Poisson brackets, round trips through the mappers, scaling, unbound and invalid input, focal-distance estimates; outcome = orbit class')
vcheck.main(run)

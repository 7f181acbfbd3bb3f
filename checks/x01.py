import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('X01', 'exploration')
    c.run_harness([vbuild.build_exe('x01', ['x01_coord.cpp'], names={'utils', 'math_core', 'math_base', 'coord'})])
    return c.finish('complete products of coordinate values (signs, zeros, axis, plane, foci, 1e-10..1e5 and 3 scales), velocities, focal distances (prolate, spherical, oblate) and Euler angles '
        '(all multiples of pi/12 and degenerate ones): every pair of coordinate systems, every subset of outputs; oracle = reference maps differentiated by second-order AD in extended precision; '
        'outcome = pair of systems x degenerate-point class')
vcheck.main(run)

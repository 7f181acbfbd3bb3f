import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('M05', 'model_checking')
    c.run_harness([vbuild.build_exe('m05', ['m05_ode.cpp'])], part='cpp', timeout=840)
    return c.finish('all sequences of steps (forced long, default, forced zero, reversed ...) up to the depth, for every solver (DOP853, Hermite, GL3, GL4), system (linear, nonlinear, rational, non-autonomous with vanishing '
        'derivatives), direction, start time, accuracy and step length; oracle = exact flow of the system at every step, inside every step (dense output) and at its ends, order of convergence, independence of '
        'simultaneous deviation vectors, mirror symmetry in time, limit on the number of steps; outcome = class', mc=True)
vcheck.main(run)

import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('I05', 'exploration')
    c.run_harness([vbuild.build_exe('i05', ['i05_strings.cpp'], names={'utils', 'math_core', 'math_base'})])
    return c.finish('every string of length <=6 (7) over a 9-character number alphabet for the numeric parsers, <=3 over 16 characters for booleans, <=7 (9) over 4 characters x 8 separator sets '
        'for splitting, all pairs of strings <=3 (4) over 5 characters and of all 127 characters for comparisons, every number d.ddd x 10^e over the whole exponent range x widths 0..33 for '
        'printing; against reference implementations; outcome = distinct result classes')
vcheck.main(run)

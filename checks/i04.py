import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('I04', 'exploration')
    c.run_harness([vbuild.build_exe('i04', ['i04.cpp'])], part='cpp', timeout=840)
    c.run_harness(['python3', vbuild.VERIF + '/harness/i04_py.py'], env={'PYTHONPATH': vbuild.build_python()}, part='py', tag='py', timeout=840)
    return c.finish('every documented type of potential, density and DF x subsets of parameters x every way of specifying it (keywords, dictionary, string, argument list, INI file and nested INI files) x letter case x order x synonyms x separators: bitwise equal values; '
        'every parameter x unparsable and out-of-range values, every one-letter edit of parameter and type names, parameters of other types, missing and damaged files, every truncation of GalPot files: rejected, current directory and files unchanged; outcome = type x way')
vcheck.main(run)

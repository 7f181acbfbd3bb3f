import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('I01', 'model_checking')
    c.run_harness([vbuild.build_exe('i01', ['i01_config.cpp'], names={'utils', 'utils_config', 'math_core', 'math_base'})])
    return c.finish('every operation sequence up to depth 4 (5 thorough) over an 18-operation alphabet on the in-memory map from 3 initial states, every '
        'INI text of up to 3 (4) lines over a 17-line alphabet x trailing newline x modified or not, every edit session of up to 3 (4) operations over 7 initial files, '
        'every typed accessor on 20 value spellings; compared on every observer with a reference model; outcome = distinct resulting store content', mc=True)
vcheck.main(run)

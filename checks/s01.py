import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import vcheck, vbuild
def run():
    c = vcheck.Check('S01', 'model_checking')
    c.run_harness([vbuild.build_exe('s01a', ['s01.cpp'], flags=('-DSTUB',), libs=list(vbuild.FLAVOURS['std']['libs'])+['-Wl,--allow-multiple-definition'])], part='sequences', timeout=840)
    c.run_harness([vbuild.build_exe('s01b', ['s01.cpp'])], part='df', nshards=16, timeout=840)
    return c.finish('every ordered selection of up to three components of eight kinds (responding to the potential or static; spheroidal or disk-like density, potential, both, nothing) x sequences of three operations (single components: all; two or three components: a fixed residue class of the sequences per selection, all of them in the thorough tier) out of iterate, update the potential, forget the potential, forget the action finder, '
        'rotate / shorten / extend the list of components, compared with an explicit model (amplitudes of components, sum of fields); components with real distribution functions: an iteration of self-consistent models in five settings, densities against velocity integrals in the previous potential, all orders of components; outcome = list of components x its final length', mc=True)
vcheck.main(run)

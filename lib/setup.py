"""setup_cmd: prebuild what all checks share (only fills the object cache; every check rebuilds whatever is missing or changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
j, o = vbuild.objects('std', None, ['interface_python'])
j2, o2 = vbuild.objects('race')
vbuild.compile_many(j[:1] + j2[:1] + j[1:] + j2[1:])
vbuild.build_python()
print('setup done')

import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import CLAIMS
try: from registry import NOTAPP
except ImportError: NOTAPP = {}
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        lev, tech, note = CLAIMS[i]
        assert os.path.exists(V + '/checks/%s.py' % i.lower()), i
        checks.append(dict(property=i, quick_cmd='python3 checks/%s.py' % i.lower(), thorough_cmd='VERIF_TIER=thorough python3 checks/%s.py' % i.lower(),
            evidence_file='evidence/%s.json' % i, technique=tech, level=lev, level_note=note))
    else: na.append(dict(property=i, reason=NOTAPP.get(i, 'no check has been built for this property yet')))
m = dict(version=1, setup_cmd='python3 lib/setup.py', checks=checks, not_applicable=na,
  notes='No hooks in /repo: the checks rebuild the unmodified sources of /repo/src with their own compiler flags (see lib/vbuild.py).')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed;', len(na), 'not')

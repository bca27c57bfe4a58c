"""python3 tools/claim.py C17 "note" [level] : record a claim, regenerate properties and manifest"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'claims.json')
d = json.load(open(p))
d[sys.argv[1]] = {'note': sys.argv[2]}
if len(sys.argv) > 3:
    d[sys.argv[1]]['level'] = sys.argv[3]
json.dump(d, open(p, 'w'), indent=1, sort_keys=True)
here = os.path.dirname(p)
os.system('%s %s/gen_properties.py && %s %s/gen_manifest.py' % (sys.executable, here, sys.executable, here))

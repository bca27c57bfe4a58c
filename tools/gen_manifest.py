"""writes /verif/MANIFEST.json from the claims below"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
TECH = 'contract-based deductive verification of the real functions (own VC generator over the Python source, z3/cvc5); bounded checks of the real code as stand-in where labelled'
BASE = ('Trusted: the VC generator and its models of Python builtins, z3/cvc5, declared field types, no preemption by signals or '
        'threads inside a function. ')
NOTES = json.load(open(os.path.join(HERE, 'tools', 'claims.json')))
m = {'version': 1, 'setup_cmd': 'bash /verif/tools/setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'checks import /repo in place; no hooks are needed in /repo. fix: commits are listed in KNOWN_FINDINGS.'}
for p in PROPS:
    i = p['id']
    n = NOTES.get(i)
    if n and not n.get('na'):
        m['checks'].append({'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i, 'thorough_cmd': 'python3-vt check.py %s thorough' % i,
                            'technique': n.get('technique', TECH), 'level': n.get('level', 'proof'), 'level_note': n['note'] + ' ' + BASE})
    else:
        m['not_applicable'].append({'property': i, 'reason': n['na'] if n else 'check not built yet'})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed')

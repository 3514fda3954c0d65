# Writes /verif/MANIFEST.json from the specs that exist and the not-applicable reasons below.
import importlib, json, os, sys
sys.path.insert(0, '/verif')
sys.dont_write_bytecode = True
NA = {
}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA or not os.path.exists('/verif/specs/%s.py' % i.lower()):
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
        continue
    s = importlib.import_module('specs.' + i.lower())
    level = getattr(s, 'LEVEL', 'proof')
    note = getattr(s, 'NOTE', 'every obligation generated from the current source is discharged for all inputs')
    checks.append({'property': i, 'quick_cmd': './run %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough ./run %s' % i,
                   'technique': 'contract-based deductive verification: VC generation from the real source, z3',
                   'level': level,
                   'level_note': note + '; trusts the VC generator (dv/), the Jython parser and z3'})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na},
          open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')

import sys,json; sys.path.insert(0,'/verif')
import importlib
from dv import harness
sp=importlib.import_module('specs.'+sys.argv[1])
r=harness.run_task(sp, sys.argv[2], json.loads(sys.argv[3]), [], float(sys.argv[4]) if len(sys.argv)>4 else 200, 30000000)
print(sys.argv[3], '%.1fs'%r['wall'], r['error'], {k:(v['n'],v['ok'],v['ref'],v['unk']) for k,v in r['labels'].items()}, r['stats'], (r.get('trace') or '')[-400:] if r['error'] else '')
for q in r['refuted'][:2]: print('REF',q['label'], {k:v for k,v in (q['inputs'] or {}).items() if v}, (q.get('trace') or '')[-300:])

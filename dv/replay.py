"""Replay a violation file on the real code:  python3-vt -m dv.replay FILE   (exit 1 if it fails there)"""
import json, sys
from dv import check


def main():
    v = json.load(open(sys.argv[1]))
    import importlib
    spec = importlib.import_module('specs.' + v['property'].lower())
    r = check.jython(v['property'].lower(), [{'harness': v['harness'], 'params': v['params'], 'mode': 'replay',
                                              'inputs': v['inputs'], 'history': v.get('history')}], [], bool(getattr(spec, 'STUBS', False)), 120)[0]
    print(json.dumps(r, indent=1))
    sys.exit(1 if r['failed'] or r['status'] == 'error' else 0)


if __name__ == '__main__':
    main()

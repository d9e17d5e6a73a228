"""Replay a recorded counterexample on the real code: python3-vt -m symx.replay FILE"""
import importlib
import json
import os
import sys
import tempfile


def main():
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, verif)
    from . import server
    server.setup(os.environ.get('SYMX_REPO', '/repo'))
    r = json.load(open(sys.argv[1]))
    mod = importlib.import_module('harness.' + r['harness'])
    with tempfile.TemporaryDirectory() as d:
        res = server.run_concrete(mod, r['case'], r['inputs'], d)
    print('case  ', json.dumps(r['case']))
    print('inputs', json.dumps(r['inputs']))
    for n, v in res['obs']:
        print('obs   ', n, json.dumps(v))
    for f in res['fails']:
        print('FAILED', f[0], f[1])
    if res['exc']:
        print('RAISED', res['exc'][0], 'in', res['exc'][1], '\n', res['exc'][2])
    sys.exit(1 if res['fails'] or res['exc'] else 0)


main()

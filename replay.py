#!/usr/bin/env python3
"""replay.py FILE: re-execute a replay file. Exit 1 if the recorded violation shows again, 0 if not."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dst import boot

if __name__ == '__main__':
    boot.reexec()
    from dst import runner
    body = json.load(open(sys.argv[1]))
    mod = runner.prop_module(body['property'])
    boot.load(plots=getattr(mod, 'PLOTS', False))
    runner.setup(mod)
    o = mod.run(body['plan'])
    for v in o['violations']:
        print('violation [%s]: %s' % (v['cls'], v['msg']))
    hit = body['violation']['cls'] in {v['cls'] for v in o['violations']}
    print('reproduced' if hit else 'NOT reproduced')
    sys.exit(1 if hit else 0)

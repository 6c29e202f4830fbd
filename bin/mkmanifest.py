#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the checks that exist and properties.jsonl."""
import json, os, sys, types
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/bin')
m = types.ModuleType('__main__'); m.cfgrec = None; m.NoAnswer = None
src = open(V + '/bin/checks.py').read().replace('from __main__ import', 'from seedmain import')
sm = types.ModuleType('seedmain'); sm.cfgrec = lambda **k: k; sm.NoAnswer = Exception; sm.Trace = object; sm.VERIF = V; sm.REPO = '/repo'; sm.goenv = dict
sys.modules['seedmain'] = sm
ns = {}
exec(compile(src, 'checks.py', 'exec'), ns)
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)['id']
    if p in ns['CHECKS']:
        lvl, tech, note = ns['ABOUT'][p]
        checks.append(dict(property=p, quick_cmd='python3 bin/check.py %s quick' % p, thorough_cmd='python3 bin/check.py %s thorough' % p,
                           technique=tech, level=lvl, level_note=note))
    else:
        na.append(dict(property=p, reason='check not built yet (work in progress)'))
json.dump(dict(version=1, setup_cmd='python3 bin/check.py setup', checks=checks, not_applicable=na,
               hooks=dict(guard='none: /repo carries no hooks; checks build with go build -overlay', enable='bin/check.py builds the driver into the module with an overlay', source_commits=[]),
               notes='Verdicts come from TLC validating traces recorded from the real code against spec/*.tla.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])

"""Writes MANIFEST.json for the checks that exist."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from mc import run_map

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, missing = [], []
for p in props:
    pid = p['id']
    try:
        cls = importlib.import_module('mc.checks.' + run_map.module(pid)).CHECKS[pid]
    except (ImportError, KeyError):
        missing.append(pid)
        continue
    checks.append(dict(property=pid, quick_cmd='./check %s' % pid, thorough_cmd='./check %s --thorough' % pid,
                       evidence_file='evidence/%s.json' % pid, technique=cls.technique, level='model_checking',
                       level_note='Holds for every case within the bounds of the families listed in the evidence file. '
                                  + ' '.join(cls.assumptions)))
json.dump(dict(version=1, setup_cmd='true', checks=checks,
               not_applicable=[dict(property=m, reason='No check has been built yet.') for m in missing],
               notes='Bounded exhaustive exploration of the real code against reference models; see DESIGN.md. No hooks in /repo.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', 'missing', missing)

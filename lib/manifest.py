"""Writes MANIFEST.json from the checks present in checks/ and properties.jsonl."""
import os, json, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0, os.path.join(V, 'lib'))
from main import read_attr
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
  p = json.loads(l); pid = p['id']
  f = os.path.join(V, 'checks', pid.lower() + '.py')
  if not os.path.exists(f):
    na.append(dict(property=pid, reason='check not built yet')); continue
  a = read_attr(pid)
  checks.append(dict(property=pid, quick_cmd='./check %s quick' % pid, thorough_cmd='./check %s thorough' % pid, evidence_file='evidence/%s.json' % pid,
    technique=a['TECHNIQUE'], level=a.get('LEVEL', 'exploration'),
    level_note='Monitored executions of the real code: ' + a['RULE'] + '. Assumes: ' + '; '.join(a['ASSUMPTIONS']) + '. Says nothing about executions not generated.'))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
  notes='Every check rebuilds the compiled modules from /repo\'s working tree in a scratch copy and removes it afterwards. No hooks are added to /repo: the monitors observe the public API and lazy sources written against its extension interface.'),
  open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'missing')

"""Writes MANIFEST.json from properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from t3v import assumptions  # noqa: E402

NA = {}
TECH = ('contract-based deductive verification: pre/postconditions on the real t3f functions, obligations generated by '
        'symbolic execution of the current source and discharged by a tensor-index normaliser and z3')


def main():
  with open(os.path.join(HERE, 'properties.jsonl')) as f:
    props = [json.loads(l) for l in f]
  checks = []
  for p in props:
    if p['id'] in NA:
      continue
    checks.append({
        'property': p['id'],
        'quick_cmd': './check.sh %s quick' % p['id'],
        'thorough_cmd': './check.sh %s thorough' % p['id'],
        'technique': TECH,
        'level': assumptions.LEVEL.get(p['id'], 'proof'),
        'level_note': assumptions.NOTE.get(p['id'], assumptions.NOTE['default']),
    })
  m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
       'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
       'notes': 'No hooks in /repo. See DESIGN.md.'}
  with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')


if __name__ == '__main__':
  main()

"""Runs the contract of a replay file on the real library."""
import json
import logging
import sys


def main():
  logging.disable(logging.WARNING)
  with open(sys.argv[1]) as f:
    rec = json.load(f)
  import tensorflow as tf
  import t3f
  from t3v import con, contracts
  task = {k: rec[k] for k in ('contract', 'cfg', 'env', 'seed', 'mode', 'select', 'dtype', 'held') if k in rec}
  r = con.run_one(t3f, tf, contracts.get(task['contract']), task)
  print(json.dumps(r, indent=1, default=str))
  return 1 if r['status'] == 'fail' else 0


if __name__ == '__main__':
  sys.exit(main())

"""try_bugs.py [ids]: runs each planted change's check against a scratch copy of /repo."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(name):
  meta = json.load(open(os.path.join(HERE, 'seeded', name, 'meta.json')))
  d = tempfile.mkdtemp(prefix='bug-', dir='/tmp')
  try:
    repo, verif = d + '/repo', d + '/verif'
    shutil.copytree('/repo', repo, symlinks=True)
    shutil.copytree(HERE, verif, symlinks=True, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
    subprocess.run(['git', 'apply', os.path.join(HERE, 'seeded', name, 'patch.diff')], cwd=repo, check=True)
    out = ''
    props = sys.argv[sys.argv.index('-p') + 1].split(',') if '-p' in sys.argv else [meta['property']]
    for p in props:
      r = subprocess.run(['./check.sh', p, 'quick'], cwd=verif, env=dict(os.environ, T3V_REPO=repo, VERIF_SEED='1'),
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
      t = r.stdout.decode()
      v = [l for l in t.splitlines() if l.startswith('VIOLATION')]
      out += '%s exit %d, %d violations%s  | %s\n' % (
          p, r.returncode, len(v), ' (no input)' if v and all('no-failing' in l for l in v) else '',
          t.strip().splitlines()[0][:230] if t.strip() else '')
      if r.returncode not in (0, 1) or '-v' in sys.argv:
        out += t
    return name, out
  finally:
    shutil.rmtree(d, ignore_errors=True)


def main():
  skip = sys.argv[sys.argv.index('-p') + 1] if '-p' in sys.argv else None
  names = [a for a in sys.argv[1:] if not a.startswith('-') and a != skip]
  names = names or sorted(os.listdir(os.path.join(HERE, 'seeded')))
  with cf.ThreadPoolExecutor(2) as ex:
    for n, o in ex.map(one, names):
      print(n, o.strip(), flush=True)


main()

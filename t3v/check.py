"""Decides one property: python -m t3v.check <property> [quick|thorough].

1. The verifier executes the functions of /repo's working tree symbolically
   under every contract of the property and discharges the obligations.
2. The same contracts run on the real library (TensorFlow) for sampled inputs:
   this validates the assumed contracts of the dependencies, and replays every
   obligation that was not discharged at the dimensions of its counterexample.

Exit 0: held.  Exit 1 with a VIOLATION line: an obligation failed.
"""
import ast
import hashlib
import json
import multiprocessing
import os
import random
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from t3v import contracts as CT

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('T3V_REPO', '/repo')
PY = os.environ.get('T3V_PYTHON', '/opt/venv/bin/python')
EVIDENCE = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known-findings.txt')
BATCHED = ('batch.', 'approx.', 'tangent.sum', 'unbounded.')   # batch sizes that are not part of the configuration
MODES = ('normal', 'special', 'large', 'small', 'graded', 'tiny')
DEEP = (6, 7, 9, 13)  # numbers of cores for obligations about any number of cores
DEEPER = (7, 8, 9, 11, 12, 14)  # numbers of cores of the deep samples
SIZES = (5, 6, 7, 9, 16, 17, 33, 65, 129, 257)  # the size of one dimension in the large samples
# the samples of these contracts only test moments
STATISTICAL = ('init.random', 'init.layer_initializers', 'unbounded.random', 'unbounded.layer_initializers')

LIMITS = {
    'quick': dict(job=30, total=240, sample=150, rounds=6, replay=150, extra=240),
    'thorough': dict(job=240, total=1800, sample=600, rounds=24, replay=400, extra=2000),
}


# -- the verifier -------------------------------------------------------------
class _Timeout(BaseException):
  pass


def _alarm(*_):
  raise _Timeout()


_W = {}


def _init():
  resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
  sys.stdout = open(os.devnull, 'w')
  sys.stderr = open(os.devnull, 'w')
  signal.signal(signal.SIGALRM, _alarm)
  try:
    from t3v import load, sym
    CT.load()
    _W['sym'] = sym
    _W['t3f'] = load.load()
  except BaseException as e:  # e.g. the sources left the accepted subset
    _W['error'] = '%s: %s' % (type(e).__name__, str(e)[:500])


def _job(a):
  i, name, cfg, seed, select, limit = a
  t0 = time.time()
  z0 = dict(_W['sym'].C.STATS) if 'sym' in _W else {}
  if 'error' in _W:
    r = _undecided('the sources could not be loaded: ' + _W['error'])
  else:
    signal.alarm(limit)
    try:
      r = _W['sym'].run_contract(_W['t3f'], CT.get(name), cfg, seed, select=select)
    except _Timeout:
      r = _undecided('time limit of %d s' % limit)
    except BaseException as e:
      r = _undecided('%s: %s' % (type(e).__name__, traceback.format_exc()[-800:]))
    finally:
      signal.alarm(0)
    z1 = _W['sym'].C.STATS
    r['z3_queries'] = z1['z3_queries'] - z0['z3_queries']
    r['z3_seconds'] = z1['z3_seconds'] - z0['z3_seconds']
  r['seconds'] = time.time() - t0
  return i, json.loads(json.dumps(r, default=str))


def _undecided(why):
  return {'paths': 0, 'obligations': 0, 'proved': 0, 'unsupported': [why], 'by': {}, 'seconds': 0.,
          'failures': [{'env': None, 'obligations': [], 'unsupported': True, 'assumptions': []}]}


def verify(jobs, seed, lim):
  """[(contract, cfg, select)] -> result per job."""
  out = [None] * len(jobs)
  if not jobs:
    return out
  work = [(i, n, cfg, seed, sel, lim['job']) for i, (n, cfg, sel) in enumerate(jobs)]
  deadline = time.time() + lim['total']
  pool = multiprocessing.get_context('spawn').Pool(min(8, len(work)), _init)
  it = pool.imap_unordered(_job, work)
  try:
    while True:
      i, r = it.next(timeout=max(1, deadline - time.time()))
      out[i] = r
  except (StopIteration, multiprocessing.TimeoutError):
    pass
  finally:
    pool.terminate()
    pool.join()
  return [r if r is not None else _undecided('overall time limit') for r in out]


# -- the real library ---------------------------------------------------------
class Real(object):
  """Runs contract samples on the real library in separate processes."""

  def __init__(self, tasks, procs, budget, tmp, tag):
    self.tasks = tasks
    self.budget = budget
    env = dict(os.environ, PYTHONPATH='%s:%s' % (REPO, HERE), PYTHONDONTWRITEBYTECODE='1',
               CUDA_VISIBLE_DEVICES='-1', TF_CPP_MIN_LOG_LEVEL='3', PYTHONHASHSEED='0')
    self.parts = []
    procs = max(1, min(procs, (len(tasks) + 3) // 4))
    for k in range(procs):
      idx = list(range(k, len(tasks), procs))
      if not idx:
        continue
      src = os.path.join(tmp, '%s-%d.json' % (tag, k))
      dst = os.path.join(tmp, '%s-%d.out' % (tag, k))
      with open(src, 'w') as f:
        json.dump([tasks[i] for i in idx], f)
      log = open(dst + '.log', 'w')
      p = subprocess.Popen([PY, '-W', 'ignore', '-m', 't3v.con', src, dst, str(budget)], cwd=HERE, env=env,
                           stdout=log, stderr=log)
      self.parts.append((p, idx, dst))
    self.end = time.time() + budget + 60

  def results(self):
    out = [None] * len(self.tasks)
    self.log = ''
    for p, idx, dst in self.parts:
      try:
        p.wait(timeout=max(1, self.end - time.time()))
      except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
      if os.path.exists(dst):
        with open(dst) as f:
          for l in f:
            try:
              r = json.loads(l)
            except ValueError:
              continue
            out[idx[r['i']]] = r
      if p.returncode != 0:
        with open(dst + '.log') as f:
          self.log += f.read()[-2000:]
    return [r if r is not None else {'status': 'none'} for r in out]


# -- one property -------------------------------------------------------------
def selection(prop, tier):
  """[(contract, cfg, select)] of a property."""
  out = []
  for c in CT.load().values():
    if prop == 'C21' and not c.replay_only:
      out += [(c.name, cfg, 'frame') for cfg in CT.configs(c, tier == 'thorough')]
    if prop in c.props:
      out += [(c.name, cfg, 'main') for cfg in CT.configs(c)]
  return out


def constants():
  """Integer constants of the sources: thresholds at which behaviour may change."""
  out = set()
  d = os.path.join(REPO, 't3f')
  for f in sorted(os.listdir(d)):
    if f.endswith('.py') and not f.endswith('_test.py'):
      try:
        with open(os.path.join(d, f)) as src:
          tree = ast.parse(src.read())
      except (SyntaxError, ValueError):
        continue
      out |= {n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and type(n.value) is int and 5 < n.value <= 300}
  return sorted(out)


def extra_samples(prop, jobs, reg, seed, most):
  """Samples beyond the usual sizes: many cores, one large dimension."""
  rng = random.Random('%s %d' % (prop, seed))
  cs = constants()
  depths = sorted(set(DEEPER) | set(c + j for c in cs for j in (1, 2) if c <= 13))
  sizes = sorted(set(SIZES) | set(c + j for c in cs for j in (0, 1, 2)))
  deep, large, batches, seen = {}, {}, {}, set()
  for n, cfg, sel in jobs:
    c = reg[n]
    if not c.replay or sel != 'main' or n.startswith(STATISTICAL):
      continue
    base = {k: v for k, v in cfg.items() if k != 'd'}
    key = (n, json.dumps(base, sort_keys=True, default=str))
    t = {'contract': n, 'select': sel, 'retries': 20, 'mode': 'normal'}
    if key not in seen:
      seen.add(key)
      if cfg.get('d') == 'any':
        deep.setdefault(n, []).append(dict(t, cfg=cfg, env={'#d': 0}, hi=2, thin=8))
      elif c.deep and 'd' in cfg and 'at' not in cfg:
        deep.setdefault(n, []).append(dict(t, cfg=cfg, hi=2, thin=8))
    if c.large and cfg.get('d', 0) in (0, 1, 2, 3, 'any'):
      large.setdefault(n, []).append(dict(t, cfg=cfg))
      if any(isinstance(v, str) and v[:1].isupper() for v in cfg.values()) or n.startswith(BATCHED):
        batches.setdefault(n, []).append(dict(t, cfg=cfg))
  out = []
  turn = {}
  for t in _take(rng, deep, most // 2):
    # every second sample of a contract with the largest number of cores
    k = turn[t['contract']] = turn.get(t['contract'], 0) + 1
    d = depths[-1] if k % 2 else depths[(k // 2 + len(turn)) % len(depths)]
    t = dict(t, held=k % 4 in (0, 3))
    out.append(dict(t, env={'#d': d}) if 'env' in t else dict(t, cfg=dict(t['cfg'], d=d)))
  for k, t in enumerate(_take(rng, large, most - len(out))):
    out.append(dict(t, grow=sizes[-1 - k % len(sizes)]))
  counts = sorted({7, 8, 9, 12, 16, 17, 20, 33} | set(c + j for c in cs for j in (0, 1, 2) if c <= 40))
  for k, t in enumerate(_take(rng, batches, most // 4)):
    out.append(dict(t, grow=counts[k % len(counts)], batches=True))
  rng.shuffle(out)
  for k, t in enumerate(out):
    t['seed'] = seed * 1000003 + 500009 + k
  return out


def _take(rng, groups, most):
  """Up to most items, evenly from the groups."""
  groups = [list(g) for _, g in sorted(groups.items())]
  for g in groups:
    rng.shuffle(g)
  out, k = [], 0
  while groups and len(out) < most and k < 12:
    out += [g[k % len(g)] for g in groups]
    k += 1
  return out[:most]


def known_findings(prop):
  known = []
  if os.path.exists(KNOWN):
    with open(KNOWN) as f:
      for l in f:
        if l.startswith('{'):
          k = json.loads(l)
          if k['property'] == prop:
            known.append(k)
  return known


def is_known(known, name, cfg):
  return any(k['contract'] == name and k['cfg'] == cfg for k in known)


def write_replay(prop, rec):
  d = os.path.join(EVIDENCE, 'replay')
  os.makedirs(d, exist_ok=True)
  h = hashlib.sha1(json.dumps(rec, sort_keys=True, default=str).encode()).hexdigest()[:10]
  path = os.path.join(d, '%s-%s.json' % (prop, h))
  with open(path, 'w') as f:
    json.dump(rec, f, indent=1, default=str)
  return path


def main(argv):
  prop = argv[0]
  tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
  seed = int(os.environ.get('VERIF_SEED', '1'))
  lim = LIMITS[tier]
  t0 = time.time()
  reg = CT.load()
  known = known_findings(prop)
  jobs = selection(prop, tier)
  if not jobs:
    print('no contracts for ' + prop)
    return 2
  tmp = tempfile.mkdtemp(prefix='t3v-')
  try:
    return decide(prop, tier, seed, lim, t0, reg, known, jobs, tmp)
  finally:
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, tier, seed, lim, t0, reg, known, jobs, tmp):
  symbolic = [j for j in jobs if not reg[j[0]].replay_only]
  rounds = {'C21': 1, 'C18': 3}.get(prop, lim['rounds']) if tier == 'quick' else lim['rounds']
  tasks = []
  for rnd in range(rounds):
    for k, (n, cfg, sel) in enumerate(jobs):
      if reg[n].replay and (rnd == 0 or tier == 'thorough' or cfg in reg[n].quick):
        tasks.append({'contract': n, 'cfg': cfg, 'select': sel, 'mode': MODES[rnd % len(MODES)], 'retries': 20,
                      'even': rnd in (1, 3), 'seed': seed * 1000003 + rnd * 10007 + k})
  if rounds > 1:
    # Single precision, once with cores held by variables and once with zeros.
    tasks += [{'contract': n, 'cfg': cfg, 'select': sel, 'mode': mode, 'retries': 20, 'dtype': 'float32',
               'held': mode == 'normal', 'seed': seed * 1000003 + 400009 + len(mode) * 10007 + k}
              for mode in ('normal', 'special') for k, (n, cfg, sel) in enumerate(jobs)
              if reg[n].replay and cfg in reg[n].quick and not n.startswith(STATISTICAL) and
              not str(cfg.get('bad')).startswith('dtype')]
  tasks += extra_samples(prop, jobs, reg, seed, lim['extra'])
  for k in known:
    tasks.insert(0, {'contract': k['contract'], 'cfg': k['cfg'], 'select': 'main', 'mode': 'normal',
                     'seed': seed, 'retries': 20, 'known': k['what']})
  sampling = Real(tasks, 4, lim['sample'], tmp, 'sample')
  res = verify(symbolic, seed, lim)
  t_verify = time.time() - t0
  sampled = sampling.results()

  violations = []   # (contract, replay record, found)
  undischarged = []
  bad = []
  for (n, cfg, sel), r in zip(symbolic, res):
    if (r['failures'] or r['unsupported']) and not is_known(known, n, cfg):
      bad.append((n, cfg, sel, r))

  # counterexamples on the real library
  replays, owner = [], []
  for b, (n, cfg, sel, r) in enumerate(bad):
    envs = [f['env'] for f in r['failures'] if f['env']][:3]
    for i, e in enumerate(envs + [None] * 2):
      for m in MODES[:3]:
        replays.append({'contract': n, 'cfg': cfg, 'select': sel, 'mode': m, 'env': e, 'retries': 0 if e else 20,
                        'even': i > len(envs), 'seed': seed + 17 * len(replays)})
        owner.append(b)
    if cfg.get('d') == 'any':
      for e in sorted(set(DEEP) | set(c + 2 for c in constants() if c <= 20)):
        for m in MODES[:2]:
          replays.append({'contract': n, 'cfg': cfg, 'select': sel, 'mode': m, 'env': {'#d': e}, 'retries': 20,
                          'hi': 2, 'thin': 8, 'seed': seed + 17 * len(replays)})
          owner.append(b)
  # breadth first, so that the budget reaches every failed contract
  order = sorted(range(len(replays)), key=lambda i: sum(1 for j in owner[:i] if j == owner[i]) if len(replays) < 4000 else i)
  replayed = [None] * len(replays)
  if replays:
    rr = Real([replays[i] for i in order], 8, lim['replay'], tmp, 'replay').results()
    for i, x in zip(order, rr):
      replayed[i] = x

  seen = set()
  for t, r in zip(tasks, sampled):
    if r['status'] == 'fail' and not is_known(known, t['contract'], t['cfg']) and t['contract'] not in seen:
      seen.add(t['contract'])
      violations.append((t['contract'], dict(record(prop, t, r), verifier=verifier_text(symbolic, res, t)), True))
  for b, (n, cfg, sel, r) in enumerate(bad):
    hits = [(t, x) for t, x, o in zip(replays, replayed, owner) if o == b and x['status'] == 'fail']
    refuted = [(f, o) for f in r['failures'] for o in f['obligations'] if o['verdict'] == 'refuted']
    if hits:
      if n not in seen:
        seen.add(n)
        violations.append((n, dict(record(prop, *hits[0]), verifier=r), True))
    elif [f for f, _ in refuted if not disputed(n, f, b, replays, replayed, owner)]:
      f, o = [x for x in refuted if not disputed(n, x[0], b, replays, replayed, owner)][0]
      violations.append((n, {'property': prop, 'contract': n, 'cfg': cfg, 'env': f['env'], 'select': sel,
                             'failed_obligation': o, 'functions': reg[n].functions, 'verifier': r}, False))
    else:
      undischarged.append({'contract': n, 'cfg': cfg, 'why': (r['unsupported'] or
                           [o['name'] + ' ' + o['verdict'] for f in r['failures'] for o in f['obligations']])[:2],
                           'samples_passed': sum(1 for x, o in zip(replayed, owner)
                                                 if o == b and x['status'] == 'ok')})
  # one line per contract; failing inputs first
  lines, named = [], set()
  for n, rec, found in sorted(violations, key=lambda v: not v[2]):
    if n in named:
      continue
    named.add(n)
    path = write_replay(prop, rec)
    lines.append('VIOLATION property=%s replay=%s%s' % (prop, path, '' if found else ' no-failing-input-found'))
    o = rec.get('failed_obligation')
    print('%s %s: %s' % (n, rec['cfg'], rec.get('failures') or o))
  for k in known:
    hit = [r for t, r in zip(tasks, sampled) if t.get('known') == k['what']]
    if any(r['status'] == 'fail' for r in hit):
      print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))

  total = sum(r['obligations'] for r in res)
  good = sum(r['proved'] for r in res)
  status = {}
  for r in sampled:
    status[r['status']] = status.get(r['status'], 0) + 1
  evaluated = sum(r.get('n', 0) for r in sampled if r['status'] in ('ok', 'fail'))
  for l in lines:
    print(l, flush=True)
  if not symbolic or total == 0:
    print('NOTE: no obligations were generated')
  write_evidence(prop, tier, seed, reg, symbolic, res, jobs, tasks, sampled, undischarged, len(lines),
                 time.time() - t0, t_verify, total, good, status, evaluated)
  print('%s %s: %d obligations, %d discharged, %d contract instances undischarged; %d samples on the real '
        'library (%s); %.1f s' % (prop, tier, total, good, len(undischarged), len(sampled),
                                  ', '.join('%s %d' % kv for kv in sorted(status.items())), time.time() - t0))
  for u in undischarged[:20]:
    print('  undischarged: %s' % json.dumps(u, default=str)[:400])
  if sampling.log:
    print(sampling.log[-1500:])
  if not lines and status.get('ok', 0) == 0 and good == 0:
    print('the check explored nothing')
    return 2
  return 1 if lines else 0


def disputed(n, f, b, replays, replayed, owner):
  """Whether the real library satisfies the contract at the dimensions of the
  counterexample, so that the verifier's reading of the code is what is wrong."""
  if not f['env'] or n.startswith(STATISTICAL):
    return False
  return sum(1 for t, x, o in zip(replays, replayed, owner)
             if o == b and t['env'] == f['env'] and x['status'] == 'ok') >= 2


def record(prop, t, r):
  return {'property': prop, 'contract': t['contract'], 'cfg': t['cfg'], 'env': r.get('env'),
          'seed': r.get('seed', t.get('seed')), 'mode': t['mode'], 'select': t['select'], 'dtype': t.get('dtype', 'float64'),
          'held': t.get('held', False),
          'failures': r.get('failures'), 'inputs': r.get('inputs'), 'functions': CT.load()[t['contract']].functions}


def verifier_text(symbolic, res, t):
  for (n, cfg, _), r in zip(symbolic, res):
    if n == t['contract'] and cfg == t['cfg']:
      return r
  return None


def write_evidence(prop, tier, seed, reg, symbolic, res, jobs, tasks, sampled, undischarged, nviol, wall, t_verify,
                   total, good, status, evaluated):
  from t3v import assumptions
  functions = {}
  for n, _, _ in symbolic:
    for f in reg[n].functions:
      functions.setdefault(f, set()).add(n)
  by = {}
  unbounded = dict(obligations=0, discharged=0)
  for (n, cfg, _), r in zip(symbolic, res):
    for k, v in r.get('by', {}).items():
      by[k] = by.get(k, 0) + v
    if cfg.get('d') == 'any':
      unbounded['obligations'] += r['obligations']
      unbounded['discharged'] += r['proved']
  bounded = sorted({str(cfg['d']) for n, cfg, _ in symbolic if isinstance(cfg.get('d'), int)})
  cov = {
      'obligations': total, 'discharged': good,
      'checker_cmd': 'PYTHONHASHSEED=0 VERIF_SEED=%d python3-vt -m t3v.check %s %s' % (seed, prop, tier),
      'trusted_base': assumptions.TRUSTED,
      'any_number_of_cores': unbounded,
      'fixed_number_of_cores': {'d': bounded, 'obligations': total - unbounded['obligations'],
                                'discharged': good - unbounded['discharged']},
      'discharged_by': by,
      'contract_instances': len(symbolic),
      'paths': sum(r['paths'] for r in res),
      'z3_queries': sum(r.get('z3_queries', 0) for r in res),
      'z3_seconds': round(sum(r.get('z3_seconds', 0) for r in res), 2),
      'verifier_cpu_seconds': round(sum(r['seconds'] for r in res), 2),
      'verifier_wall_s': round(t_verify, 2),
      'functions_under_contract': {f: sorted(v) for f, v in sorted(functions.items())},
      'undischarged': undischarged,
      'bounded_samples_on_real_library': {'label': 'bounded, not counted as proved', 'runs': len(sampled),
                                          'by_status': status, 'clauses_evaluated': evaluated,
                                          'sample_only_contracts': sorted({n for n, _, _ in jobs
                                                                           if reg[n].replay_only})},
  }
  ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': assumptions.LEVEL.get(prop, 'proof'), 'coverage': cov,
        'assumptions': assumptions.ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': nviol}
  if ev['level'] == 'other':
    cov['explanation'] = assumptions.EXPLANATION
  os.makedirs(EVIDENCE, exist_ok=True)
  with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
    json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
  sys.exit(main(sys.argv[1:]))

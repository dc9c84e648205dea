"""Driver of one property check.

  main.py <ID> [quick|thorough] [--case N] [--replay FILE] [--n N] [--workers K] [--keep]

Builds a scratch copy of the tree under test (all compiled modules from source),
starts worker processes that run the cases of checks/<id>.py against it, merges what
their monitors observed, writes the evidence file and decides the verdict.

exit 0: held on everything observed; exit 1: violation (VIOLATION line); exit 2: no verdict
(build failure, or a deciding monitor was never reached).
"""
import sys, os, re, json, time, subprocess, shutil, tempfile, argparse, importlib.util, traceback, signal
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'

def load_check(pid):
  path = os.path.join(VERIF, 'checks', pid.lower() + '.py')
  spec = importlib.util.spec_from_file_location('check_' + pid.lower(), path)
  mod = importlib.util.module_from_spec(spec)
  spec.loader.exec_module(mod)
  return mod

def read_attr(pid):
  """Read the static settings of a check without importing pygeode (checks import it lazily)."""
  import ast
  path = os.path.join(VERIF, 'checks', pid.lower() + '.py')
  out = {}
  for node in ast.parse(open(path).read()).body:
    if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
      n = node.targets[0].id
      if n.isupper():
        try: out[n] = ast.literal_eval(node.value)
        except ValueError: pass
  return out

def build(dest, sanitize=False, log=None):
  os.makedirs(dest)
  shutil.copytree(os.path.join(REPO, 'pygeode'), os.path.join(dest, 'pygeode'), symlinks=True,
     ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.pyc'))
  for f in ('setup.py', 'setup.cfg', 'README.md', 'MANIFEST.in', 'LICENSE'):
    if os.path.exists(os.path.join(REPO, f)): shutil.copy(os.path.join(REPO, f), dest)
  env = dict(os.environ, PIP_NO_INDEX='1', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1',
             MPLCONFIGDIR=os.path.join(dest, 'mpl'), HOME=dest)
  if sanitize:
    env['CFLAGS'] = '-O1 -g -DNDEBUG -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer'
    env['LDFLAGS'] = '-fsanitize=address,undefined'
  r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '-j', '8'], cwd=dest, env=env,
     stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
  if r.returncode != 0:
    sys.stdout.write(r.stdout.decode('utf8', 'replace')[-4000:])
    return False
  shutil.rmtree(os.path.join(dest, 'build'), ignore_errors=True)
  return True

def child_env(scratch, work, sanitize):
  env = {k: v for k, v in os.environ.items() if k in ('PATH', 'LANG', 'VERIF_SEED', 'VERIF_TIER', 'VERIF_STOP', 'TMPDIR')}
  env.update(PYTHONPATH=scratch, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore',
     MPLCONFIGDIR=os.path.join(scratch, 'mpl'), OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', TZ='UTC',
     PYTHONHASHSEED='0', LC_ALL='C.UTF-8', HOME=work, VERIF_WORK=work, VERIF_LIB=HERE, VERIF_SCRATCH=scratch)
  if sanitize:
    # (libstdc++ as well: its exceptions must be found when the sanitizer starts)
    env['LD_PRELOAD'] = ' '.join(subprocess.run(['gcc', '-print-file-name=' + n], stdout=subprocess.PIPE).stdout.decode().strip() for n in ('libasan.so', 'libstdc++.so.6'))
    env['PYTHONMALLOC'] = 'malloc'
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:halt_on_error=1:log_path=%s/asan:allocator_may_return_null=1:handle_abort=1' % work
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:log_path=%s/asan' % work
  return env

def known_findings(pid):
  """known_findings.txt: 'known: property=<id> key=<mechanism> <text>' / 'fixed: property=<id> <commit> <text>'"""
  out = {}
  p = os.path.join(VERIF, 'known_findings.txt')
  if os.path.exists(p):
    for line in open(p):
      if not line.startswith('known: '): continue
      parts = line[7:].strip().split(' ', 2)
      if parts[0] == 'property=' + pid and parts[1].startswith('key='):
        out[parts[1][4:]] = parts[2] if len(parts) > 2 else ''
  return out

def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('id'); ap.add_argument('tier', nargs='?', default=None)
  ap.add_argument('--case', type=int); ap.add_argument('--replay'); ap.add_argument('--n', type=int)
  ap.add_argument('--workers', type=int); ap.add_argument('--keep', action='store_true')
  ap.add_argument('--budget', type=float); ap.add_argument('--scratch')
  a = ap.parse_args()
  pid = a.id.upper()
  tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
  seed = int(os.environ.get('VERIF_SEED', '1') or '1')
  if a.replay:
    r = json.load(open(a.replay)); a.case = r['case']; seed = r['seed']; tier = r['tier']; a.n = r.get('n')
  t0 = time.time()
  st = read_attr(pid)
  sanitize = bool(st.get('SANITIZE'))
  root = tempfile.mkdtemp(prefix='pgverif_%s_' % pid.lower())
  try:
    return run(pid, tier, seed, a, st, sanitize, root, t0)
  finally:
    if not a.keep: shutil.rmtree(root, ignore_errors=True)

def run(pid, tier, seed, a, st, sanitize, root, t0):
  scratch = a.scratch or os.path.join(root, 'tree')
  if not a.scratch and not build(scratch, sanitize):
    print('check %s: the tree does not build; no verdict' % pid); return 2
  tbuild = time.time() - t0
  N = a.n or st['N_QUICK' if tier == 'quick' else 'N_THOROUGH']
  budget = a.budget or st.get('BUDGET_QUICK' if tier == 'quick' else 'BUDGET_THOROUGH', 240 if tier == 'quick' else 600)
  K = a.workers or st.get('WORKERS', 8)
  K = max(1, min(K, N))
  if a.case is not None: K = 1
  procs = []
  for k in range(K):
    work = os.path.join(root, 'w%d' % k); os.makedirs(work)
    cmd = [PY, '-B', os.path.join(HERE, 'worker.py'), pid, tier, str(seed), str(N), str(k), str(K), str(budget),
           os.path.join(root, 'out%d.json' % k), str(-1 if a.case is None else a.case)]
    procs.append((k, work, start(cmd, scratch, work, sanitize)))
  results = []; crashes = []
  hard = t0 + budget * 2 + 200
  timeouts = 0
  pending = list(procs)
  restarts = 0
  while pending:
    k, work, p = pending.pop(0)
    try: rc = p.wait(timeout=max(1, hard - time.time()))
    except subprocess.TimeoutExpired:
      os.killpg(p.pid, signal.SIGKILL); p.wait(); timeouts += 1; rc = None
    out = os.path.join(root, 'out%d.json' % k)
    if os.path.exists(out):
      results.append(json.load(open(out))); os.remove(out)
    if rc not in (0, None):
      cur = {}
      try: cur = json.load(open(os.path.join(work, 'current.json')))
      except Exception: pass
      log = open(os.path.join(work, 'log'), errors='replace').read()[-30000:]
      rep = ''
      if ': runtime error: ' in log:
        j = log.rindex(': runtime error: '); j = log.rfind('\n', 0, j) + 1
        rep, log = log[j:j + 3000], log[:j]
      log = log[-3000:]
      for f in sorted(os.listdir(work)):
        if f.startswith('asan'):
          rep += open(os.path.join(work, f), errors='replace').read()[:3000]
          os.remove(os.path.join(work, f))
      crashes.append(dict(rc=rc, cur=cur, log=log, report=rep))
      # continue after the crashed case
      if 'case' in cur and restarts < 6 and a.case is None and (rc < 0 or (rc > 0 and 'Traceback' not in log)):
        restarts += 1
        cmd = [PY, '-B', os.path.join(HERE, 'worker.py'), pid, tier, str(seed), str(N), str(k), str(K), str(budget),
           out, '-1', str(cur['case'] + 1)]
        pending.append((k, work, start(cmd, scratch, work, sanitize)))
  # --- merge
  merged = dict(evaluations=0, counters={}, sigs=set(), samples=[], failures=[], extra={}, cases=0)
  for r in results:
    merged['evaluations'] += r['evaluations']; merged['cases'] += r['cases']
    for k2, v in r['counters'].items(): merged['counters'][k2] = merged['counters'].get(k2, 0) + v
    merged['sigs'].update(r['sigs'])
    merged['samples'] += r['samples'][:2]
    merged['failures'] += r['failures']
  infra = None
  for c in crashes:
    # (not -9: the sandbox ended it; -14: a case ran into its alarm without returning to the interpreter)
    if c['rc'] in (-4, -6, -7, -8, -11, -14) or c['report'] or (c['rc'] > 0 and c['cur'] and 'Traceback' not in c['log']):
      head = [l for l in c['report'].splitlines() if 'ERROR: AddressSanitizer' in l or 'runtime error:' in l]
      where = re.search(r' in (\w+) (?:\S*/)?pygeode/\S+\.[ch]\b', c['report'])
      key = 'native-crash' + (':' + where.group(1) if where else '')
      merged['failures'].append(dict(key=key, case=c['cur'].get('case', -1),
        msg='interpreter died (status %s) in case %s: %s\n%s\n%s' % (c['rc'], c['cur'], head[:1], c['report'][:2500], c['log'][-1500:])))
    else:
      infra = c
  known = known_findings(pid)
  newf = [f for f in merged['failures'] if f['key'] not in known]
  oldf = [f for f in merged['failures'] if f['key'] in known]
  # --- report
  seen = set()
  for f in oldf:
    if f['key'] in seen: continue
    seen.add(f['key'])
    print('KNOWN-FINDING: property=%s key=%s %s' % (pid, f['key'], known[f['key']]))
  if a.case is None:
    for key in known:
      if key not in seen: print('KNOWN-FINDING: property=%s key=%s (listed; not exercised in this run) %s' % (pid, key, known[key]))
  rc = 0
  nviol = 0
  seen = {}
  for f in newf:
    if seen.get(f['key'], 0) >= 1 or len(seen) >= 12: continue
    seen[f['key']] = seen.get(f['key'], 0) + 1
    nviol += 1
    d = os.path.join(VERIF, 'replays'); os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%d-%d.json' % (pid, tier, seed, nviol))
    json.dump(dict(property=pid, tier=tier, seed=seed, case=f['case'], n=N, key=f['key'], msg=f['msg']), open(path, 'w'), indent=1)
    print('--- %s case %s key=%s\n%s' % (pid, f['case'], f['key'], f['msg'][:3000]))
    print('VIOLATION property=%s replay=%s' % (pid, path))
    rc = 1
  # --- inconclusive?
  why = None
  if rc == 0:
    if infra: why = 'a worker failed: rc=%s %s' % (infra['rc'], infra['log'][-2500:])
    elif timeouts: why = '%d workers ran out of time' % timeouts
    elif a.case is None:
      for name, least in st.get('REQUIRE', {}).items():
        have = merged['counters'].get(name, 0)
        if have < (least if a.n is None else 1): why = 'monitor %s was reached only %d times (needs %d)' % (name, have, least); break
  ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=st.get('LEVEL', 'exploration'),
    coverage=dict(evaluations=merged['evaluations'], distinct_nontrivial=len(merged['sigs']), rule=st.get('RULE', ''),
      samples=merged['samples'][:6] or ['none'], cases=merged['cases'], planned_cases=N, monitor_events=merged['counters'],
      build_s=round(tbuild, 2), workers=K),
    assumptions=st.get('ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2), violations=nviol)
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  if a.case is None:
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
  print('%s %s seed=%d: %d cases, %d evaluations, %d distinct, %.1fs (build %.1fs); events %s' % (pid, tier, seed, merged['cases'],
     merged['evaluations'], len(merged['sigs']), ev['wall_s'], tbuild, json.dumps(merged['counters'])))
  if why:
    print('check %s: no verdict: %s' % (pid, why)); return 2
  return rc

def start(cmd, scratch, work, sanitize):
  log = open(os.path.join(work, 'log'), 'w')
  return subprocess.Popen(cmd, cwd=work, env=child_env(scratch, work, sanitize), stdout=log, stderr=subprocess.STDOUT, start_new_session=True)

if __name__ == '__main__':
  sys.exit(main())

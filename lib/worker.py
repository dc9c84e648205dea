"""Worker: runs the cases i = k, k+K, ... of one check and records what the monitors saw."""
import sys, os, json, time, importlib.util, traceback
LIB = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, LIB)
import warnings; warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')

def main():
  pid, tier, seed, N, k, K, budget, out, only = sys.argv[1:10]
  first = int(sys.argv[10]) if len(sys.argv) > 10 else 0
  seed, N, k, K, only, budget = int(seed), int(N), int(k), int(K), int(only), float(budget)
  import vlib
  spec = importlib.util.spec_from_file_location('chk', os.path.join(os.path.dirname(LIB), 'checks', pid.lower() + '.py'))
  mod = importlib.util.module_from_spec(spec)
  sys.modules['chk'] = mod
  spec.loader.exec_module(mod)
  mon = vlib.Monitor(pid, seed, tier)
  cnum = int(pid[1:])
  t0 = time.time()
  if hasattr(mod, 'setup'): mod.setup(mon)
  indices = [only] if only >= 0 else [i for i in range(k, N, K) if i >= first]
  work = os.environ['VERIF_WORK']
  last = 0
  for i in indices:
    if time.time() - t0 > budget: mon.hit('cases_not_run_for_time'); break
    mon.case = i
    if getattr(mod, 'TRACK', True):
      with open(os.path.join(work, 'current.json'), 'w') as f: json.dump(dict(case=i), f)
    rng = np.random.default_rng([seed, cnum, i])
    mon.cases += 1
    try:
      mod.case(rng, i, mon)
    except vlib.Stop:
      pass
    except Exception as e:
      mon.fail('raises:%s' % type(e).__name__, 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-2500:]))
    if len(mon.failures) >= (1 if os.environ.get('VERIF_STOP') else 40): break
    if time.time() - last > 5:
      last = time.time(); mon.dump(out)
  if hasattr(mod, 'finish'): mod.finish(mon)
  mon.dump(out)

main()
sys.stdout.flush(); os._exit(0)

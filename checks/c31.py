"""C31: configuration files take effect where they should, and progress reports do not disturb evaluation."""
N_QUICK = 1600
N_THOROUGH = 30000
BUDGET_QUICK = 60
BUDGET_THOROUGH = 600
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: fresh interpreters start with generated configuration files in the home and the current directory; what they observe (names, formats, tolerances and plot settings of axes of many classes, '
             'dates accepted, sizes of requests, progress output) is compared with a model of the settings; a recorder in place of the progress bar watches evaluations of random expressions')
RULE = ('a case is a fresh interpreter with up to two configuration files, or the evaluation of a random expression tree with a recorded progress bar; non-trivial: a setting differs from the default, or the expression reports progress; '
        'distinct by (kinds of setting, files) or by (operations)')
REQUIRE = {'starts': 120, 'axes': 1700, 'configured': 700, 'given': 450, 'tolerances': 90, 'formats': 20, 'limits': 45, 'dates': 220, 'bars': 55, 'both_files': 55, 'progress': 400, 'updates': 2000}
ASSUMPTIONS = ['no configuration files in /etc and /usr/local/etc']
import os, sys, json, shutil, tempfile, subprocess, atexit
import numpy as np
import vlib
from vlib import choice, chance

ZYG = r'''
import sys, os, json, io
import numpy, scipy, scipy.stats, configparser, threading, datetime
try: import matplotlib; matplotlib.use('Agg'); import matplotlib.pyplot, matplotlib.ticker, matplotlib.colors
except Exception: pass
try: import netCDF4
except Exception: pass
try: import progressbar
except Exception: pass
import warnings; warnings.simplefilter('ignore')
print('ready', flush=True)
for line in sys.stdin:
  r = json.loads(line); pid = os.fork()
  if pid == 0:
    try:
      os.chdir(r['cwd']); os.environ['HOME'] = r['home']
      e = os.open(r['err'], os.O_WRONLY | os.O_CREAT | os.O_TRUNC); os.dup2(e, 2)
      g = {}; exec(compile(r['code'], 'observe', 'exec'), g)
      out = g['observe'](r['job'])
    except BaseException:
      import traceback; out = dict(error=traceback.format_exc())
    with open(r['out'], 'w') as f: json.dump(out, f)
    sys.stderr.flush(); os._exit(0)
  os.waitpid(pid, 0); print('done', flush=True)
'''
OBSERVE = r'''
def observe(job):
  import numpy as np, sys, os
  import pygeode as pyg
  from pygeode import axis as A, timeaxis as T
  from pygeode.var import Var
  class MyPres(A.Pres): pass
  class MyTime(T.StandardTime): pass
  class MyLat(A.Lat): pass
  own = dict(MyPres=MyPres, MyTime=MyTime, MyLat=MyLat)
  def make(kind, values, kw):
    c = own.get(kind) or getattr(A, kind, None) or getattr(T, kind); kw = dict(kw)
    if issubclass(c, T.CalendarTime): kw.update(units=kw.get('units', 'days'), startdate={'day': 0} if kind == 'Yearless' else {'year': 2000, 'month': 1, 'day': 1})
    if issubclass(c, A.Hybrid): kw.update(A=np.arange(len(values)) * 1., B=np.arange(len(values)) * .1)
    return c(np.array(values), **kw)
  out = dict(axes=[], limit=pyg.MAX_ARRAY_SIZE)
  made = []
  for kind, kw in job['axes']:
    a = make(kind, [1., 2., 4.], kw); made.append(a)
    out['axes'].append(dict(name=a.name, units=a.units, formatstr=a.formatstr, rtol=float(a.rtol), plotatts=dict(a.plotatts)))
  # the axes made earlier are not altered by those made later
  out['later'] = [dict(name=a.name, units=a.units, formatstr=a.formatstr, rtol=float(a.rtol), plotatts=dict(a.plotatts)) for a in made]
  out['tol'] = []
  for kind, f in job['tol']:
    v = np.array([100., 200., 400.]); a, b = make(kind, v, {}), make(kind, v * (1 + f), {})
    va, vb = Var([a], values=v), Var([b], values=v)
    try: s = list((va + vb).shape)
    except Exception as e: s = type(e).__name__
    out['tol'].append([bool(a == b), s])
  out['fmt'] = [make(kind, [1., 2.], {}).formatvalue(v) for kind, v in job['fmt']]
  out['dates'] = []
  for kind, text in job['dates']:
    t = make(kind, np.arange(800), {}); v = Var([t], values=np.arange(800.), name='v')
    try: out['dates'].append([float(x) for x in v(time=text).get()] if t.name == 'time' else [float(x) for x in v(**{t.name: text}).get()])
    except Exception as e: out['dates'].append(type(e).__name__)
  if job['mem']:
    log = []
    class Src(Var):
      def __init__(self, axes, data): self._data = data; Var.__init__(self, axes, dtype=data.dtype, name='src')
      def getview(self, view, pbar):
        ix = view.integer_indices; log.append([[int(j) for j in i] for i in ix]); return np.array(self._data[np.ix_(*ix)])
    n, m = job['mem']; d = np.arange(n * m, dtype='d').reshape(n, m)
    s = Src([A.NamedAxis(np.arange(n), name='a'), A.NamedAxis(np.arange(m), name='b')], d)
    out['mean'] = float(np.asarray(s.mean()))
    out['requests'] = log
  if job['bar']:
    b = os.path.join(os.getcwd(), 'x'); sys.stderr.flush(); n0 = os.fstat(2).st_size
    v = Var([A.NamedAxis(np.arange(5), name='a')], values=np.arange(5.), name='progr')
    w = (v * 2).load(pbar=True) if job['bar'] == 'load' else (v * 2).get(pbar=True)
    sys.stderr.flush(); out['bar'] = [int(os.fstat(2).st_size - n0), [float(x) for x in (w.get() if hasattr(w, 'get') else w)]]
  return out
'''
D = None; Z = None
def zygote():
  global D, Z
  if D is None: D = tempfile.mkdtemp(prefix='pgverif_cf_'); atexit.register(shutil.rmtree, D, True)
  if Z is None or Z.poll() is not None:
    env = dict(os.environ, PYTHONPATH=os.pathsep.join(p for p in sys.path if p))
    Z = subprocess.Popen([sys.executable, '-B', '-c', ZYG], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True, cwd=D)
    atexit.register(Z.kill)
    assert Z.stdout.readline().strip() == 'ready'
  return Z

# the settings as the package ships them
BASE = {'plotscale': 'linear', 'plotorder': 1}
DEF = dict(
  Lon=dict(name='lon', units='', formatstr='%.3g E<360', rtol=1e-3, plotatts=dict(BASE, plottitle='', plotfmt='%.3g E')),
  Lat=dict(name='lat', units='', formatstr='%.2g N', rtol=1e-5, plotatts=dict(BASE, plottitle='')),
  Height=dict(name='z', units='m', formatstr='%d', rtol=1e-5, plotatts=dict(BASE, plotname='Height')),
  Hybrid=dict(name='eta', units='', formatstr='%g', rtol=1e-5, plotatts=dict(plotscale='log', plotorder=-1)),
  Pres=dict(name='pres', units='hPa', formatstr='%.2g<100', rtol=1e-5, plotatts=dict(plotscale='log', plotorder=-1, plotname='Pressure')),
  Time=dict(name='time', units='days', formatstr='$b $d, $Y $H:$M:$S', rtol=1e-5, plotatts=dict(BASE, plottitle='', plotofsfmt='')),
  XAxis=dict(name='xaxis', units='', formatstr='%g', rtol=1e-5, plotatts=BASE), YAxis=dict(name='yaxis', units='', formatstr='%g', rtol=1e-5, plotatts=BASE),
  ZAxis=dict(name='zaxis', units='', formatstr='%3g', rtol=1e-5, plotatts=BASE), TAxis=dict(name='taxis', units='', formatstr='%g', rtol=1e-5, plotatts=BASE))
KINDS = dict(Lon='Lon', Lat='Lat', Height='Height', Hybrid='Hybrid', Pres='Pres', MyPres='Pres', MyLat='Lat', StandardTime='Time', MyTime='Time', ModelTime365='Time', ModelTime360='Time', Yearless='Time',
             XAxis='XAxis', YAxis='YAxis', ZAxis='ZAxis', TAxis='TAxis', NamedAxis=None)
OPTS = ['name', 'formatstr', 'units', 'rtol', 'plottitle', 'plotfmt', 'plotscale', 'plotorder']
PATTERNS = [(r'^(?P<year>\d+)/(?P<month>\d+)/(?P<day>\d+)$', lambda y, m, d: '%d/%d/%d' % (y, m, d)),
            (r'^(?P<day>\d+)\.(?P<month>\d+)\.(?P<year>\d+)$', lambda y, m, d: '%d.%d.%d' % (d, m, y)),
            (r'^y(?P<year>\d+)m(?P<month>\d+)d(?P<day>\d+)h(?P<hour>\d+)$', lambda y, m, d: 'y%dm%dd%dh0' % (y, m, d)),
            (r'^(?P<month>[a-zA-Z]+)-(?P<day>\d+)-(?P<year>\d+)$', lambda y, m, d: '%s-%d-%d' % (('Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec')[m - 1], d, y))]
ISO = lambda y, m, d: '%04d-%02d-%02d' % (y, m, d)
DEFPAT = [None, ISO, lambda y, m, d: '%d %s %d' % (d, ('Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec')[m - 1], y)]

def value(rng, opt):
  if opt == 'name': return 'n%d' % rng.integers(100)
  if opt == 'formatstr': return choice(rng, ['%.1f', '%.2f', '%.3f'])
  if opt == 'units': return choice(rng, ['km', 'Pa', 'deg', ''])
  if opt == 'rtol': return choice(rng, ['1e-2', '1e-3', '1e-4', '0.000001'])
  if opt == 'plottitle': return choice(rng, ['Foo', 'A title', ''])
  if opt == 'plotfmt': return choice(rng, ['%.1f', '%g m'])
  if opt == 'plotscale': return choice(rng, ['linear', 'log'])
  return choice(rng, ['1', '-1'])

def case(rng, i, mon):
  mon.context[:] = []
  (k_progress if i % 2 else k_config)(rng, i, mon)

def k_config(rng, i, mon):
  z = zygote(); d = os.path.join(D, 'c%d' % i); os.makedirs(os.path.join(d, 'cwd')); os.makedirs(os.path.join(d, 'home', '.config', 'pygeode'))
  try: _config(rng, d, z, mon)
  finally: shutil.rmtree(d, True)

def _config(rng, d, z, mon):
  # settings of each file; the file of the current directory is read last
  files = {}; cfg = {}; limit = 268435456; show = None; pats = {}
  for where in ('home', 'cwd'):
    if chance(rng, .25): continue
    S = {}
    for cls in [c for c in DEF if chance(rng, .4)]:
      for o in [o for o in OPTS if chance(rng, .35)]:
        if cls == 'Time' and o in ('units', 'formatstr'): continue
        S[(cls, o)] = value(rng, o)
      # (settings are looked up for the nearest class which has a name)
      if cls in ('XAxis', 'YAxis', 'ZAxis', 'TAxis') and (cls, 'name') not in S: S[(cls, 'name')] = value(rng, 'name')
    text = '[Axes]\n' + ''.join('%s.%s = %s\n' % (c, o, v) for (c, o), v in S.items())
    for cls in ('CalendarTime', 'StandardTime', 'ModelTime365'):
      if chance(rng, .2):
        ps = [int(q) for q in rng.permutation(len(PATTERNS))[:int(rng.integers(1, 4))]]; pats[cls] = ps
        text += '%s.parse_patterns =\n' % cls + ''.join('   %s\n' % PATTERNS[q][0] for q in ps)
    if chance(rng, .4): limit = int(choice(rng, [60, 100, 300, 1000, 100000])); text += '[Memory]\nmax_array_size = %d\n' % limit
    if chance(rng, .4): show = choice(rng, ['0', '100000']); text += '[ProgressBar]\nno_show_time = %s\npoll_interval = 0\n' % show
    if chance(rng, .3): text = '# a comment\n\n' + text
    cfg.update(S); files[where] = text
    with open(os.path.join(d, 'cwd', 'pygrc') if where == 'cwd' else os.path.join(d, 'home', '.config', 'pygeode', 'pygrc'), 'w') as f: f.write(text)
  mon.hit('starts')
  if len(files) == 2: mon.hit('both_files')
  job = dict(axes=[], tol=[], fmt=[], dates=[], mem=None, bar=None); want = []
  def settings(kind, kw):
    base = KINDS[kind]
    w = dict(name=kw['name'], units='', formatstr='%g', rtol=1e-5, plotatts=dict(BASE)) if base is None else dict(DEF[base], plotatts=dict(DEF[base]['plotatts']))
    if kind == 'Yearless': w['formatstr'] = 'day $d, $H:$M:$S'; w['plotatts']['plotfmt'] = '$d'
    for o in OPTS:
      if (base, o) not in cfg: continue
      v = cfg[(base, o)]
      if o == 'rtol': w[o] = float(v)
      elif o == 'plotorder': w['plotatts'][o] = int(v)
      elif o.startswith('plot'): w['plotatts'][o] = v
      else: w[o] = v
    if 'name' in kw: w['name'] = kw['name']
    if 'rtol' in kw: w['rtol'] = kw['rtol']
    w['plotatts'].update(kw.get('plotatts', {}))
    return w
  for _ in range(int(rng.integers(8, 22))):
    kind = choice(rng, list(KINDS)); kw = {}
    if kind == 'NamedAxis' or chance(rng, .12): kw['name'] = 'own'
    if chance(rng, .1): kw['rtol'] = 2e-4
    if chance(rng, .12): kw['plotatts'] = dict([choice(rng, [('plottitle', 'Mine'), ('plotscale', 'symlog'), ('plotorder', -1), ('other', 3)])])
    job['axes'].append([kind, kw]); want.append(settings(kind, kw))
  for kind in [c for c in ('Lon', 'Height', 'Pres', 'XAxis') if chance(rng, .25)]:
    r = settings(kind, {})['rtol']; job['tol'].append([kind, choice(rng, [.1, 8]) * r])
  for kind in ('Height', 'Hybrid', 'XAxis'):
    if chance(rng, .4) and (kind, 'formatstr') in cfg: job['fmt'].append([kind, float(np.round(rng.uniform(1, 500), 4))])
  dates = []
  for _ in range(2):
    kind = choice(rng, ['StandardTime', 'ModelTime365', 'ModelTime360', 'MyTime']); day = int(rng.integers(0, 790))
    if kind in ('StandardTime', 'MyTime'):
      import datetime; t = datetime.date(2000, 1, 1) + datetime.timedelta(day); ymd = (t.year, t.month, t.day)
    elif kind == 'ModelTime360': ymd = (2000 + day // 360, day % 360 // 30 + 1, day % 30 + 1)
    else:
      import datetime; q = day % 365; t = datetime.date(2001, 1, 1) + datetime.timedelta(q); ymd = (2000 + day // 365, t.month, t.day)
    near = {'MyTime': 'StandardTime'}.get(kind, kind); p = pats.get(near, pats.get('CalendarTime'))
    if p is None: dates.append((kind, choice(rng, DEFPAT[1:])(*ymd), day)); continue
    q = int(rng.integers(len(PATTERNS) + 1))
    if q == len(PATTERNS): dates.append((kind, ISO(*ymd), None))
    else: dates.append((kind, PATTERNS[q][1](*ymd), day if q in p else None))
  job['dates'] = [[k, t] for k, t, _ in dates]
  if chance(rng, .5): job['mem'] = [int(rng.integers(3, 60)), int(rng.integers(3, 40))]
  if show is not None: job['bar'] = choice(rng, ['load', 'get'])
  mon.context[:] = ['%s: %r' % f for f in files.items()] + [json.dumps(job)]
  q = dict(cwd=os.path.join(d, 'cwd'), home=os.path.join(d, 'home'), err=os.path.join(d, 'err'), out=os.path.join(d, 'out'), code=OBSERVE, job=job)
  z.stdin.write(json.dumps(q) + '\n'); z.stdin.flush()
  assert z.stdout.readline().strip() == 'done'
  with open(q['out']) as f: got = json.load(f)
  if not mon.check('error' not in got, 'raises', lambda: 'the interpreter failed: %s' % got['error'][-2500:]): return
  sig = ('config', tuple(sorted(set(o for c, o in cfg))), tuple(files))
  mon.check(got['limit'] == limit, 'limit', 'MAX_ARRAY_SIZE is %s, %s configured' % (got['limit'], limit), sig)
  for (kind, kw), w, g, l in zip(job['axes'], want, got['axes'], got['later']):
    mon.hit('axes')
    if any(c == KINDS[kind] for c, o in cfg): mon.hit('configured')
    if kw: mon.hit('given')
    for o in w:
      same = abs(g[o] - w[o]) < 1e-12 if o == 'rtol' else g[o] == w[o]
      mon.check(same, 'axis-' + o, '%s of %s(%s): %r, expected %r' % (o, kind, kw, g[o], w[o]), ('axis', kind, o, tuple(kw), (KINDS[kind], o) in cfg))
    mon.check(l == g, 'altered', '%s was altered by later ones: %s became %s' % (kind, g, l))
  for (kind, f), (eq, s) in zip(job['tol'], got['tol']):
    mon.hit('tolerances'); r = settings(kind, {})['rtol']; near = f < r
    mon.check(eq == near, 'tolerance', '%s: coordinates apart by %g, tolerance %g: equal is %s' % (kind, f, r, eq), ('tol', kind, near))
    if near: mon.check(s == [3], 'tolerance', '%s: coordinates apart by %g, tolerance %g: the sum is %s' % (kind, f, r, s))
    elif isinstance(s, list): mon.check(s == [0], 'tolerance', '%s: coordinates apart by %g, tolerance %g: the sum has shape %s' % (kind, f, r, s))
  for (kind, v), g in zip(job['fmt'], got['fmt']):
    mon.hit('formats'); w = cfg[(kind, 'formatstr')] % v; mon.check(g.split()[0] == w, 'format', '%s.formatvalue(%s) is %r, expected %r' % (kind, v, g, w), ('fmt', kind, cfg[(kind, 'formatstr')]))
  for (kind, text, day), g in zip(dates, got['dates']):
    mon.hit('dates')
    if day is None: mon.check(isinstance(g, str), 'date', '%r is in no configured format, gave %s on %s' % (text, g, kind), ('date', kind, 'refused'))
    else: mon.check(g == [float(day)], 'date', '%r on %s gave %s, expected %s' % (text, kind, g, day), ('date', kind, 'found', kind in pats, 'CalendarTime' in pats))
  if job['mem']:
    mon.hit('limits'); n, m = job['mem']; seen = np.zeros((n, m), int)
    for a, b in got['requests']:
      seen[np.ix_(a, b)] += 1
      mon.check(len(a) * len(b) <= limit, 'request', 'a request of %d by %d values with a limit of %d' % (len(a), len(b), limit), ('request', limit))
    mon.check(bool(np.all(seen == 1)), 'cover', 'the requests do not cover the data once: %s' % got['requests'])
    mon.check(abs(got['mean'] - (n * m - 1) / 2.) < 1e-9 * n * m, 'mean', 'mean %s' % got['mean'])
  if job['bar']:
    mon.hit('bars'); n, vals = got['bar']
    mon.check(vals == [0., 2., 4., 6., 8.], 'bar-values', 'values %s' % vals)
    mon.check((n > 0) == (show == '0'), 'bar-shown', '%d bytes of progress shown with no_show_time %s' % (n, show), ('bar', show, job['bar']))
  mon.sample(' ; '.join(mon.context)[:500])

def k_progress(rng, i, mon):
  import exprs
  from pygeode.progress import PBar
  g = exprs.Gen(rng); must = exprs.NAMES[i // 2 % len(exprs.NAMES)] if chance(rng, .7) else None
  n = exprs.grow(rng, g, int(choice(rng, [1, 2, 3])), must=must); v = n.var
  mon.context[:] = ['tree ' + n.desc]
  full = n.full; seen = []
  class Rec(object):
    def update(self, x): seen.append(float(x))
  import pygeode
  old = pygeode.MAX_ARRAY_SIZE
  try:
    if chance(rng, .6): pygeode.MAX_ARRAY_SIZE = int(choice(rng, [64, 256, 1024]))
    lo, hi = (0, 100) if chance(rng, .6) else (20, 60)
    got = mon.op('get', lambda: v.get(pbar=PBar(pbar=Rec(), lower=lo, upper=hi)))
  finally: pygeode.MAX_ARRAY_SIZE = old
  mon.hit('progress'); mon.hit('updates', len(seen))
  sig = ('progress', tuple(sorted(n.uses))) if seen else None
  mon.same(got, full, 'progress-values', 'values with a progress bar', atol=n.tol, sig=(sig,))
  mon.check(all(lo - 1e-6 <= x <= hi + 1e-6 for x in seen), 'progress-range', lambda: 'progress %s of %s..%s' % (seen[:200], lo, hi))
  mon.check(all(b >= a - 1e-6 for a, b in zip(seen, seen[1:])), 'progress-order', lambda: 'progress goes back: %s' % seen[:200])
  if seen: mon.check(abs(seen[-1] - hi) < 1e-6, 'progress-end', lambda: 'progress ends at %s of %s' % (seen[-1], hi))
  mon.sample(n.desc)

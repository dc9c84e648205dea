"""C02: results do not depend on the configured memory limit."""
N_QUICK = 4000
N_THOROUGH = 100000
BUDGET_QUICK = 100
BUDGET_THOROUGH = 600
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: metamorphic comparison across memory limits, and a monitor of every request that reaches the source'
RULE = ('a case is an expression tree, reduction, climatology, statistic or saved dataset evaluated under the default and under several small memory limits; the request monitor checks '
        'that the pieces asked of the source cover exactly the requested region, equally often, and none exceeds the limit; non-trivial: the limit is below the size of the data; '
        'distinct by (operation, axes, limit class)')
REQUIRE = {'tree_limits': 1500, 'requests_seen': 8000, 'chunked_evaluations': 800, 'stats': 100, 'saved': 60, 'config_files': 2}
ASSUMPTIONS = ['numpy is correct', 'tolerances are rounding bounds propagated per operation']
import os
import numpy as np
import vlib, exprs
from vlib import choice, chance

class limit(object):
  def __init__(self, n): self.n = n
  def __enter__(self):
    import pygeode as pyg
    self.old = pyg.MAX_ARRAY_SIZE
    if self.n: pyg.MAX_ARRAY_SIZE = self.n
  def __exit__(self, *a):
    import pygeode as pyg
    pyg.MAX_ARRAY_SIZE = self.old

def limits(rng, size, k=3):
  out = []
  for _ in range(k):
    r = int(rng.integers(0, 4))
    out.append(int([rng.integers(1, 5), rng.integers(1, max(2, size)), rng.integers(1, max(2, int(size ** .5) + 2)), max(1, size - int(rng.integers(0, 3)))][r]))
  return out

def trees(rng, i, mon):
  g = exprs.Gen(rng)
  must = choice(rng, ['reduction', 'reduction', 'climat', 'climat', 'interp', 'smooth', 'integ', 'deriv', 'argred', 'binary', 'concat', 'composite', 'fftsmooth'])
  n = exprs.grow(rng, g, int(choice(rng, [1, 2, 2, 3])), must=must)
  full = n.full
  big = max([s.size for s in g.sources] + [n.var.size])
  mon.sample(n.desc)
  for lim in limits(rng, big):
    mon.context[:] = ['tree %s; limit %d' % (n.desc, lim)]
    with limit(lim): got = mon.op('get', lambda: n.var.get())
    mon.hit('tree_limits')
    mon.same(got, full, 'tree', 'result depends on the memory limit', atol=n.tol, sig=(tuple(sorted(n.uses)), min(lim, 6)) if lim < big else ())
    if chance(rng, .3):
      sels = [vlib.random_selector(rng, len(a)) for a in n.var.axes] if exprs.all_distinct(n.var) and n.distinct else None
      if sels:
        with limit(lim): part = mon.op('slice', lambda: n.var.slice[tuple(s for s, ix in sels)].get())
        mon.same(part, full[np.ix_(*[ix for s, ix in sels])], 'tree-part', 'partial result depends on the memory limit (%s)' % [s for s, ix in sels], atol=n.tol)

def requests(rng, i, mon):
  """What reaches the source while a chunked operation runs."""
  R, C = vlib.source_class()
  from pygeode import climat
  kind = choice(rng, ['reduce', 'reduce', 'arg', 'climat', 'weighted', 'part', 'smooth'])
  nd = int(rng.integers(1, 5))
  axes = vlib.make_axes(rng, nd, nmax=6)
  if kind == 'climat':
    axes = [a for a in axes if vlib.GROUP.get(type(a).__name__) != 'T'][:3]
    axes.insert(int(rng.integers(0, len(axes) + 1)), vlib.make_axis(rng, choice(rng, ['StandardTime', 'ModelTime365', 'ModelTime360']), int(rng.integers(3, 30))))
  shape = [len(a) for a in axes]; size = int(np.prod(shape))
  dt = choice(rng, ['d', 'f', 'i4'])
  v = R(axes, vlib.make_values(rng, shape, dt), name='src')
  nd = len(axes); preserve = []
  red = [int(j) for j in rng.permutation(nd)[:int(rng.integers(1, nd + 1))]]
  part = None
  if kind in ('reduce', 'part'):
    op = choice(rng, ['mean', 'sum', 'min', 'max', 'stdev', 'variance', 'nanmean', 'nansum', 'nanmin', 'nanmax', 'nanstdev', 'nanvariance'])
    w = getattr(v, op)(*red, **({'weights': False} if op in ('mean', 'sum', 'nanmean', 'nansum') else {}))
    if kind == 'part' and w.naxes:
      sels = [vlib.random_selector(rng, len(a)) for a in w.axes]; part = [ix for s, ix in sels]
      w = w.slice[tuple(s for s, ix in sels)]
  elif kind == 'weighted':
    op = choice(rng, ['mean', 'sum', 'nanmean', 'nansum'])
    wt = vlib.make_var(rng, [axes[red[0]]], np.round(rng.uniform(.5, 2, shape[red[0]]), 3), kind='mem', name='w')
    w = getattr(v, op)(*red, weights=wt)
  elif kind == 'arg':
    op = choice(rng, ['argmin', 'argmax']); w = getattr(v, op)(red[0]); preserve = [red[0]]
  elif kind == 'smooth':
    j = int(rng.integers(0, nd))
    if shape[j] < 3: return
    op = 'smooth'; w = v.smooth(j, 3); preserve = [j]
  else:
    op = choice(rng, ['climatology', 'monthlymean', 'dailymean', 'yearlymean', 'nanclimatology', 'monthlystdev', 'dailycount'])
    f = getattr(climat, op, None)
    if f is None: return
    w = f(v)
  lim = choice(rng, limits(rng, size))
  mon.context[:] = ['%s of %s over %s, limit %d, part %s' % (op, vlib.describe(v), red, lim, part)]
  ref = mon.op(op, lambda: w.get())
  del v._log[:]
  with limit(lim): got = mon.op(op, lambda: w.get())
  log = v._log
  scale = float(np.max(np.abs(np.nan_to_num(np.asarray(v._data, 'd'))), initial=0)) + 1
  e = exprs.eps_of(v.dtype) or 2.3e-16
  at = 30 * e * scale ** (2 if 'var' in op else 1) * size
  if 'stdev' in op: at = np.sqrt(e * size) * scale * 10
  mon.same(got, ref, 'chunked:' + op, '%s depends on the memory limit' % op, atol=at)
  # coverage: every element of the region requested, equally often; nothing else
  region = np.zeros(shape, int)
  if part is not None:
    rest = [j for j in range(nd) if j not in red]
    idx = [np.arange(shape[j]) if j in red else np.unique(part[rest.index(j)]) for j in range(nd)]
    region[np.ix_(*idx)] = 1
  else: region[...] = 1
  seen = np.zeros(shape, int)
  allowed = max(lim, 1)
  pres = int(np.prod([shape[j] for j in preserve])) if preserve else 1
  for req in log:
    np.add.at(seen, np.ix_(*[np.array(q) for q in req]), 1)
    n = int(np.prod([len(q) for q in req]))
    mon.check(n <= max(allowed, pres), 'piece-size', lambda: '%s asked the source for %d elements at once; the limit is %d (%d along axes that cannot be split)' % (op, n, lim, pres))
    mon.hit('requests_seen')
  mon.hit('chunked_evaluations')
  # (with one input variable only: weights are variables of their own)
  times = seen[region == 1]
  mon.check(bool(np.all(times >= 1)), 'coverage', lambda: '%s did not request every element of the region: counts %s' % (op, np.unique(times)), (op, nd, len(red), min(lim, 6), part is not None) if lim < size else None)
  mon.check(len(np.unique(times)) == 1, 'coverage', lambda: '%s requested elements unequally often: counts %s' % (op, np.unique(times)))
  if op != 'smooth' or True: mon.check(bool(np.all(seen[region == 0] == 0)), 'coverage', lambda: '%s requested %d elements outside the region' % (op, int((seen[region == 0] > 0).sum())))

def stats(rng, i, mon):
  import pygeode as pyg
  from pygeode import stats as S
  axes = vlib.make_axes(rng, int(rng.integers(1, 4)), nmax=6, nmin=2)
  axes[0] = vlib.make_axis(rng, type(axes[0]).__name__, int(rng.integers(4, 12)))
  shape = [len(a) for a in axes]
  x = vlib.make_var(rng, axes, vlib.make_values(rng, shape, 'd', nan=choice(rng, [0, .1])), name='x')
  order = [int(j) for j in rng.permutation(len(axes))]
  y = vlib.make_var(rng, [axes[j] for j in order], vlib.make_values(rng, [shape[j] for j in order], 'd', nan=choice(rng, [0, .1])), name='y')
  fn = choice(rng, ['correlate', 'regress', 'difference', 'paired_difference', 'isnonzero', 'multiple_regress'])
  red = [0] + [j for j in range(1, len(axes)) if chance(rng, .3)]
  names = [axes[j].name for j in red]
  if len(set(a.name for a in axes)) < len(axes): return
  out = {'correlate': 'r,p', 'regress': 'm,b,p,r2', 'difference': 'd,p,ci', 'paired_difference': 'd,p,ci', 'isnonzero': 'm,p,ci', 'multiple_regress': 'beta,se'}[fn]
  if fn == 'isnonzero': call = lambda: S.isnonzero(x, axes=names, output=out)
  elif fn == 'multiple_regress':
    x = vlib.make_var(rng, axes, vlib.make_values(rng, shape, 'd')); y = y.nan_to_num()
    call = lambda: S.multiple_regress([x], y, axes=names, output=out)
  else: call = lambda: getattr(S, fn)(x, y, axes=names, output=out)
  mon.context[:] = ['%s over %s of %s' % (fn, names, vlib.describe(x))]
  ref = mon.op(fn, call)
  for lim in limits(rng, x.size, 2):
    with limit(lim): got = mon.op(fn, call)
    for a in ref.vars:
      b = [q for q in got.vars if q.name == a.name][0]
      ra, rb = a.get(), b.get()
      if a.name == 'p' and np.size(ra): # p-values of (near) perfect fits amplify rounding
        ok = np.isnan(ra) | (ra > 1e-4); ra, rb = np.where(ok, ra, 0), np.where(ok, rb, 0)
      mon.same(rb, ra, 'stats:' + fn, '%s output %s depends on the memory limit %d' % (fn, a.name, lim), rtol=1e-6, atol=1e-6, sig=(fn, len(red), min(lim, 6)) if lim < x.size else ())
    mon.hit('stats')

def saved(rng, i, mon):
  import pygeode as pyg
  g = exprs.Gen(rng, kinds=['Lat', 'Lon', 'Pres', 'Height', 'StandardTime', 'ModelTime365', 'ModelTime360', 'NamedAxis'])
  n = exprs.grow(rng, g, int(choice(rng, [0, 1, 1])), ops=['reduction', 'unary', 'scalar', 'transpose', 'slicing', 'deriv', 'diff'])
  v = n.var
  if v.dtype.kind not in 'fi' or v.naxes == 0: return
  if len(set(a.name for a in v.axes)) < v.naxes or any(type(a).__name__ in ('Index',) for a in v.axes): return
  v = v.rename('vv'); full = n.full
  lim = choice(rng, limits(rng, v.size))
  ver = choice(rng, [3, 4]) if all(np.asarray(q).dtype != np.int64 for q in [full] + [a.values for a in v.axes]) else 4; path = os.path.join(os.environ['VERIF_WORK'], 'c02.nc')
  mon.context[:] = ['save of %s, version %d, limit %d' % (n.desc, ver, lim)]
  with limit(lim):
    mon.op('save', lambda: pyg.save(path, pyg.asdataset([v]), version=ver))
    got = mon.op('open', lambda: np.array(pyg.open(path).vv.get()))
  mon.same(got, full, 'saved', 'file contents depend on the memory limit', atol=n.tol, sig=('save', ver, v.naxes, min(lim, 6)) if lim < v.size else ())
  mon.hit('saved'); os.remove(path)

def config(rng, i, mon):
  """The limit as the user configures it: a configuration file read at import."""
  import subprocess, sys
  home = os.path.join(os.environ['VERIF_WORK'], 'home%d' % i); os.makedirs(home, exist_ok=True)
  lim = int(rng.integers(2, 40))
  import pygeode
  cfg = os.path.join(home, '.config', 'pygeode'); os.makedirs(cfg)
  with open(os.path.join(cfg, 'pygrc'), 'w') as f: f.write('[Memory]\nmax_array_size = %d\n' % lim)
  code = ("import numpy as np, pygeode as pyg, json\nfrom pygeode.var import Var\nfrom pygeode.axis import Lat, Lon\n"
          "v = Var([Lat(np.arange(6)*10.), Lon(np.arange(8)*20.)], values=np.arange(48.).reshape(6,8)**1.5, name='v')\n"
          "print('OUT'+json.dumps([pyg.MAX_ARRAY_SIZE] + [float(x) for x in v.mean('lon', weights=False).get()] + [float(v.stdev()), float(v.sum(weights=False))]))\n")
  env = dict(os.environ, HOME=home)
  r = subprocess.run([sys.executable, '-c', code], env=env, cwd=home, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
  lines = [l for l in r.stdout.decode().splitlines() if l.startswith('OUT')]
  mon.context[:] = ['configuration file with max_array_size = %d' % lim]
  if not mon.check(len(lines) == 1, 'config', 'evaluation under a configured limit failed: %s' % r.stdout.decode()[-1500:]): return
  import json
  out = json.loads(lines[0][3:])
  x = np.arange(48.).reshape(6, 8) ** 1.5
  mon.check(out[0] == lim, 'config', 'the configured limit %d is not in effect (%s)' % (lim, out[0]))
  mon.same(np.array(out[1:7]), x.mean(1), 'config', 'mean under configured limit', rtol=1e-12)
  mon.same(np.array(out[8]), x.sum(), 'config', 'sum under configured limit', rtol=1e-12)
  mon.hit('config_files')

def case(rng, i, mon):
  mon.context[:] = []
  r = i % 20
  if i % 500 == 7: config(rng, i, mon)
  elif r < 9: trees(rng, i, mon)
  elif r < 16: requests(rng, i, mon)
  elif r < 19: stats(rng, i, mon)
  else: saved(rng, i, mon)

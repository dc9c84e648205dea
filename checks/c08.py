"""C08: evaluation is repeatable and never modifies its inputs."""
N_QUICK = 7200
N_THOROUGH = 120000
BUDGET_QUICK = 150
BUDGET_THOROUGH = 800
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: state snapshots (values, coordinates, weights, attributes, names, caller-supplied arrays and containers) are compared before and after random evaluation histories; returned arrays are scribbled over and everything is evaluated again and compared bit by bit'
RULE = ('a case is a random expression (1 to 4 derived operations) evaluated whole and in parts in a random order with scribbling between, or one call of the wider interface (statistics, EOF, datasets, files, conversions) with snapshots of all arguments; '
        'non-trivial: at least one derived operation; distinct by (operations, source kinds, history) or (call, argument form)')
REQUIRE = {'trees': 1800, 'evaluations': 12000, 'scribbles': 10000, 'snapshots': 10000, 'api_calls': 1000, 'frozen': 1500, 'derived_meta': 1500}
ASSUMPTIONS = ['attribute dictionaries of axis objects are shared by design between a variable and its axes', 'arrays given to Var() become the storage of the variable (documented design: they are then read-only)']
import numpy as np, os, copy
import vlib, exprs
from vlib import choice, chance

def snap_var(v):
  d = dict(name=v.name, units=getattr(v, 'units', None), atts=copy.deepcopy(dict(v.atts)), plotatts=copy.deepcopy(dict(v.plotatts)), dtype=str(v.dtype), shape=v.shape, formatstr=getattr(v, 'formatstr', None))
  d['axes'] = [id(a) for a in v.axes]
  if 'values' in v.__dict__ or hasattr(v, 'values'): d['values'] = np.array(v.values)
  if hasattr(v, '_data'): d['values'] = np.array(v._data)
  return d
def snap_ax(a):
  d = vlib.snap_axis(a); d['units'] = getattr(a, 'units', None)
  w = getattr(a, 'weights', None); d['weights'] = None if w is None else np.array(w)
  return d
def snap_ds(d): return dict(vars=[id(v) for v in d.vars], names=[v.name for v in d.vars], axes=[id(a) for a in d.axes], atts=copy.deepcopy(dict(d.atts)), vd=sorted(d.vardict), ad=sorted(d.axisdict))

class Watch(object):
  """Snapshots of a set of objects."""
  def __init__(self): self.items = []
  def add(self, label, obj):
    import pygeode as pyg
    from pygeode.var import Var
    from pygeode.axis import Axis
    if isinstance(obj, Axis): self.items.append((label, obj, snap_ax, snap_ax(obj)))
    elif isinstance(obj, Var):
      self.items.append((label, obj, snap_var, snap_var(obj)))
      for a in obj.axes: self.items.append((label + '.' + a.name, a, snap_ax, snap_ax(a)))
    elif isinstance(obj, pyg.Dataset):
      self.items.append((label, obj, snap_ds, snap_ds(obj)))
      for v in obj.vars: self.add(label + '[%s]' % v.name, v)
    elif isinstance(obj, np.ndarray): self.items.append((label, obj, lambda x: np.array(x), np.array(obj)))
    elif isinstance(obj, dict):
      self.items.append((label, obj, lambda x: [(k, id(q) if not isinstance(q, (int, float, str, list, tuple, dict, type(None))) else copy.deepcopy(plainlist(q))) for k, q in x.items()], None)); self.items[-1] = self.items[-1][:3] + (self.items[-1][2](obj),)
      for k, q in obj.items(): self.sub('%s[%r]' % (label, k), q)
    elif isinstance(obj, (list, tuple)):
      f = lambda x: [id(q) if not isinstance(q, (int, float, str, type(None))) else q for q in x]
      self.items.append((label, obj, f, f(obj)))
      for k, q in enumerate(obj): self.sub('%s[%d]' % (label, k), q)
  def sub(self, label, q):
    import pygeode as pyg
    from pygeode.var import Var
    if isinstance(q, (Var, pyg.Dataset, np.ndarray, dict, list)): self.add(label, q)
  def verify(self, mon, key):
    for label, obj, f, before in self.items:
      mon.hit('snapshots')
      after = f(obj)
      if not vlib.same_tree(after, before):
        what = [k for k in before if not vlib.same_tree(after.get(k), before[k])] if isinstance(before, dict) else ''
        mon.fail('modified:' + key, '%s was modified (%s):\nbefore %s\nafter  %s' % (label, what, {k: before[k] for k in what} if what else before, {k: after.get(k) for k in what} if what else after))
        return False
      mon.ev()
    return True

def plainlist(q):
  if isinstance(q, (list, tuple)): return [plainlist(x) for x in q]
  return q if isinstance(q, (int, float, str, type(None))) else id(q)

def scribble(mon, arr):
  """The caller writes into what it was given."""
  mon.hit('scribbles')
  if isinstance(arr, np.ndarray) and arr.flags.writeable and arr.size:
    if arr.dtype.kind == 'b': arr[...] = ~arr
    elif arr.dtype.kind in 'OSU': pass
    else: arr[...] = 77

def case(rng, i, mon):
  mon.context[:] = []
  if i % 3 == 2: return api(rng, i // 3, mon)
  tree(rng, i, mon)

def tree(rng, i, mon):
  from pygeode.view import View
  from pygeode.var import Var
  g = exprs.Gen(rng)
  nodes = []
  W = Watch()
  n = g.source(); W.add('source', n.var)
  # growing the tree must not change anything either
  must = exprs.NAMES[i % len(exprs.NAMES)] if chance(rng, .6) else None
  for d in range(int(choice(rng, [1, 1, 2, 2, 3, 4]))):
    m = exprs.grow(rng, g, 1, node=n, must=must if d == 0 else None)
    if m is n: continue
    nodes.append(m); n = m; W.add('intermediate %d' % d, m.var)
  for k, s in enumerate(g.sources[1:]): W.add('operand %d' % k, s)
  mon.context[:] = ['tree ' + n.desc]
  mon.hit('trees'); mon.sample(n.desc)
  every = [('node %d' % k, m) for k, m in enumerate(nodes)] + [('source %d' % k, exprs.Node(s)) for k, s in enumerate(g.sources)]
  seen = {}
  hist = []
  for step in range(int(rng.integers(4, 11))):
    lab, m = choice(rng, every); v = m.var
    how = choice(rng, ['get', 'get', 'part', 'load', 'view', 'call', 'axis', 'str', 'getkw'])
    if not exprs.all_distinct(v) and how in ('part', 'call', 'getkw'): how = 'get'
    hist.append(how)
    if how == 'get': key = (lab, 'get'); f = v.get
    elif how == 'load': key = (lab, 'get'); f = lambda: v.load().get()
    elif how == 'view': key = (lab, 'get'); f = lambda: View(v.axes).get(v)
    elif how == 'part':
      sel = tuple(vlib.random_selector(rng, s)[0] for s in v.shape); key = (lab, str(sel)); f = lambda: v.slice[sel].get()
    elif how in ('call', 'getkw'):
      c = [a for a in v.axes if sum(b.has_alias(a.name) for b in v.axes) == 1]
      if not c: continue
      a = choice(rng, c); j = int(rng.integers(0, len(a))); kw = {'i_' + a.name: j}; key = (lab, str(kw)); f = (lambda: v(**kw).get()) if how == 'call' else (lambda: v.get(**kw))
      kw0 = dict(kw)
    elif how == 'axis':
      if not v.naxes: continue
      j = int(rng.integers(0, v.naxes)); a = v.axes[j]; key = (lab, 'axis', j); f = lambda: a.get()
    else:
      str(v), repr(v), [str(a) for a in v.axes], [a.formatvalue(x) for a in v.axes for x in a.values[:2]]; continue
    r = mon.op(how, f); mon.hit('evaluations')
    r = np.asarray(r) if not isinstance(r, np.ndarray) else r
    if how == 'get' and isinstance(r, np.ndarray) and r.size: mon.check(r.flags.writeable, 'result-read-only', lambda: 'what %s by %s returned cannot be written to' % (key, how))
    if key in seen: mon.same(r, seen[key], 'not-repeatable:' + how, lambda: '%s by %s after %s' % (key, how, hist), sig=(tuple(sorted(n.uses)), how, tuple(hist[-3:])))
    elif key == (lab, 'get'):
      seen[key] = np.array(r)
      mon.same(r, m.full, 'not-repeatable:' + how, lambda: '%s by %s' % (key, how))
    else: seen[key] = np.array(r)
    if chance(rng, .8): scribble(mon, r)
  # what is stored is protected from writing
  for lab, m in every + [('axis', exprs.Node(a)) for a in n.var.axes]:
    vals = getattr(m.var, 'values', None)
    if isinstance(vals, np.ndarray) and vals.size:
      mon.hit('frozen')
      mon.check(not vals.flags.writeable, 'writeable-values', lambda: 'values of %s (%s) can be written to' % (lab, vlib.describe(m.var)))
  # metadata of results are their own
  for lab, m in every:
    if any(m.var is q for q in g.sources): continue
    w = m.var; mon.hit('derived_meta')
    before = W
    try:
      w2 = w * 1 if w.dtype.kind != 'b' and chance(rng, .5) else w.rename('zz')
    except Exception: continue
    for k in ('atts', 'plotatts'):
      getattr(w2, k)['__changed__'] = 1
    w2.units = 'changed'
  for lab, m in every:     # whole evaluations once more
    mon.same(mon.op('get', m.var.get), m.full, 'not-repeatable:end', lambda: '%s after %s' % (lab, hist))
  W.verify(mon, 'tree')
  # a memory variable which a result returned directly must not be reachable through it
  for s in g.sources:
    if isinstance(s, Var) and hasattr(s, '_data'): pass

# ---------------------------------------------------------------- wider interface
API = {}
def call(f): API[f.__name__[2:]] = f; return f

def api(rng, i, mon):
  names = sorted(API); k = names[i % len(names)]
  r = API[k](rng)
  if r is None: return
  fn, args, kwargs = r[:3]
  W = Watch(); W.add('args', list(args)); W.add('kwargs', kwargs)
  for q in args: W.sub('arg', q)
  mon.context[:] = ['%s(%s, %s)' % (k, ', '.join(map(short, args)), {a: short(b) for a, b in kwargs.items()})]
  mon.sample(mon.context[0])
  out1 = mon.op(k, lambda: fn(*args, **kwargs))
  a = mon.op(k, lambda: results(out1)); mon.hit('api_calls')
  for x in a.values(): pass
  keep = {q: np.array(x) for q, x in a.items()}
  for x in a.values(): scribble(mon, x)
  b = mon.op(k, lambda: results(out1)) if not isinstance(out1, (dict, np.ndarray)) else keep
  for q in keep: mon.same(b[q], keep[q], 'api-repeat:' + k, lambda: '%s evaluated again' % q, sig=(k, q, len(args), tuple(sorted(kwargs))))
  out2 = mon.op(k, lambda: fn(*args, **kwargs)); c = mon.op(k, lambda: results(out2))
  if k not in RANDOM:
    mon.check(sorted(c) == sorted(keep), 'api-again', lambda: 'results %s, then %s' % (sorted(keep), sorted(c)))
    for q in keep:
      if q in c: mon.same(c[q], keep[q], 'api-again:' + k, lambda: '%s of a second call' % q)
  W.verify(mon, 'api:' + k)

RANDOM = ('svd',)   # starts from random numbers

def short(x):
  try: return vlib.describe(x) if hasattr(x, 'axes') and hasattr(x, 'dtype') else str(x)[:80]
  except Exception: return type(x).__name__

def results(out):
  import pygeode as pyg
  from pygeode.var import Var
  if isinstance(out, Var): return {'v': out.get()}
  if isinstance(out, pyg.Dataset): return {v.name: v.get() for v in out.vars}
  if isinstance(out, (list, tuple)):
    d = {}
    for k, x in enumerate(out): d.update({'%d%s' % (k, q): y for q, y in results(x).items()})
    return d
  if isinstance(out, np.ndarray): return {'a': out}
  if isinstance(out, dict):
    d = {}
    for k, x in out.items(): d.update({'%s.%s' % (k, q): y for q, y in results(x).items()})
    return d
  return {'s': np.array(str(out))} if isinstance(out, (int, float, str, bool, np.generic)) else {}

def pair(rng, nan=True):
  t = vlib.make_axis(rng, choice(rng, ['StandardTime', 'ModelTime365']), int(rng.integers(8, 20)), order='inc')
  o = vlib.make_axes(rng, int(rng.integers(0, 3)), kinds=['Lat', 'Lon', 'Pres', 'NamedAxis'], nmax=4)
  axes = [t] + o
  mk = lambda nm: vlib.make_var(rng, axes, vlib.make_values(rng, [len(a) for a in axes], 'd', nan=.1 if nan and chance(rng, .5) else 0), name=nm, atts={'units': 'K'})
  return mk('x'), mk('y')

@call
def a_correlate(rng):
  import pygeode as pyg
  x, y = pair(rng); return pyg.correlate, [x, y], {'axes': ['time']}
@call
def a_regress(rng):
  import pygeode as pyg
  x, y = pair(rng); return pyg.regress, [x, y], {'axes': ['time'], 'output': ','.join(['m', 'b', 'p', 'r2', 'sm'][:int(rng.integers(1, 6))])}
@call
def a_mregress(rng):
  import pygeode as pyg
  x, y = pair(rng, False); z, _ = pair(rng, False)
  Xs = [x.mean(*[a.name for a in x.axes[1:]]) if x.naxes > 1 else x, x ** 2]
  return pyg.multiple_regress, [Xs, y], {'axes': ['time'], 'output': ['beta', 'se', 'F', 'p']} if False else {'axes': ['time']}
@call
def a_difference(rng):
  import pygeode as pyg
  x, y = pair(rng); return pyg.difference, [x, y], {'axes': ['time'], 'output': 'd,df,p,ci'}
@call
def a_paired(rng):
  import pygeode as pyg
  x, y = pair(rng); return pyg.paired_difference, [x, y], {'axes': ['time'], 'output': 'd,df,p,ci'}
@call
def a_isnonzero(rng):
  import pygeode as pyg
  x, y = pair(rng); return pyg.isnonzero, [x], {'axes': ['time'], 'output': 'm,p,ci'}
@call
def a_eof(rng):
  import pygeode as pyg
  x, y = pair(rng, False)
  if x.naxes < 2: return None
  return pyg.EOF, [x], {'num': 1, 'iaxis': 'time', 'out': 4} if False else {'num': 1, 'iaxis': 0}
@call
def a_interpolate(rng):
  v = g1(rng); a = v.axes[0]
  ot = type(a)(np.linspace(float(a.values.min()), float(a.values.max()), 4))
  kw = {'interp_type': 'linear'}
  if chance(rng, .5): kw.update(inx=v.axes[0] * 2, outx=ot * 2)
  return v.interpolate, [a.name, ot], kw
def g1(rng, kinds=('Lat', 'Lon', 'Pres', 'Height'), n=6):
  a = vlib.make_axis(rng, choice(rng, kinds), n); o = vlib.make_axes(rng, int(rng.integers(0, 2)), kinds=['NamedAxis', 'Freq'], nmax=4)
  axes = [a] + o
  return vlib.make_var(rng, axes, vlib.make_values(rng, [len(b) for b in axes], 'd'), name='T', atts={'units': 'K'})
@call
def a_smooth(rng):
  v = g1(rng); ker = [1., 2., 1.] if chance(rng, .5) else np.array([1., 2., 1.])
  return v.smooth, [0, ker], {'fft': chance(rng, .5)}
@call
def a_lag(rng):
  x, _ = pair(rng); return x.lag, ['time', [-1, 0, 2]], {}
@call
def a_composite(rng):
  v = g1(rng)
  return v.composite, [], {'li_' + v.axes[0].name: [1, 3], 'evlen': [2, 3], 'evoff': [0, 1]}
@call
def a_slice(rng):
  v = g1(rng); s = [0, 2] if chance(rng, .5) else np.array([2, 0])
  return (lambda v, s: v.slice[(s,)]), [v, s], {}
@call
def a_callvals(rng):
  v = g1(rng); a = v.axes[0]; l = [float(x) for x in a.values[[0, 2]]]
  return v, [], {'l_' + a.name: l}
@call
def a_replace(rng):
  from pygeode.axis import NamedAxis
  v = g1(rng); d = {v.axes[0].name: NamedAxis(6, name='q')}
  return v.replace_axes, [], {'axisdict': d, 'keep_old_name': False}
@call
def a_replace2(rng):
  from pygeode.axis import NamedAxis
  v = g1(rng); return v.replace_axes, [], {'newaxes': [NamedAxis(6, name='q')] + list(v.axes[1:]), 'axisdict': {v.axes[0].name: NamedAxis(6, name='z')}}
@call
def a_rename_axes(rng):
  v = g1(rng); return v.rename_axes, [], {'axisdict': {v.axes[0].name: 'q'}}
@call
def a_sorted(rng):
  v = g1(rng); return v.sorted, [], {v.axes[0].name: -1}
@call
def a_squeeze(rng):
  v = g1(rng); return v.squeeze, [[0]], {}
@call
def a_extend(rng):
  from pygeode.axis import NamedAxis
  v = g1(rng); return v.extend, [0, [NamedAxis(2, name='q'), NamedAxis(3, name='r')]], {}
@call
def a_vsum(rng):
  import pygeode as pyg
  x, y = pair(rng); return pyg.vsum, [x, y], {}
@call
def a_concat(rng):
  import pygeode as pyg
  x, _ = pair(rng); n = x.shape[0] // 2
  return pyg.concatenate if callable(pyg.concatenate) else pyg.concat.concat, [x.slice[(slice(0, n),)], x.slice[(slice(n, None),)]], {}
@call
def a_ensemble(rng):
  from pygeode.ensemble import ensemble
  x, y = pair(rng); return ensemble, [x.rename('e'), y.rename('e')], {}
@call
def a_climat(rng):
  import pygeode as pyg
  x, _ = pair(rng); return getattr(pyg, choice(rng, ['climatology', 'monthlymean', 'dailynanmean', 'seasonalmean', 'yearlymean', 'climtrend', 'monthlystdev'])), [x], {}
@call
def a_detrend(rng):
  from pygeode.climat import detrend
  x, _ = pair(rng, False); return detrend, [x], {}
@call
def a_removeleap(rng):
  from pygeode.timeutils import removeleapyears
  t = vlib.make_axis(rng, 'StandardTime', 12, order='inc')
  return removeleapyears, [vlib.make_var(rng, [t], vlib.make_values(rng, (12,)), name='T')], {}
def dset(rng):
  import pygeode as pyg
  x, y = pair(rng); return pyg.Dataset([x, y], atts={'title': 't', 'h': [1, 2]})
@call
def a_ds_add(rng):
  v = g1(rng).rename('w'); d = dset(rng); return d.add, [v], {}
@call
def a_ds_rename(rng):
  d = dset(rng); return d.rename_vars, [{'x': 'zz'}], {}
@call
def a_ds_replace(rng):
  d = dset(rng); return d.replace_vars, [{'x': (d['x'] * 2)}], {}
@call
def a_ds_remove(rng):
  d = dset(rng); return d.remove, ['x'], {}
@call
def a_ds_map(rng):
  d = dset(rng); return d.map, ['mean', 'time'], {}
@call
def a_ds_call(rng):
  d = dset(rng); return d, [], {'i_time': [0, 3]}
@call
def a_ds_new(rng):
  import pygeode as pyg
  x, y = pair(rng); return pyg.Dataset, [[x, y, y]], {'atts': {'a': 1}, 'print_warnings': False}
@call
def a_ds_concat(rng):
  from pygeode.dataset import concat
  d = dset(rng); n = len(d.x.axes[0]) // 2
  return concat, [[d(si_time=(0, n)), d(si_time=(n, 100))]], {}
@call
def a_asdataset(rng):
  import pygeode as pyg
  x, y = pair(rng); return pyg.asdataset, [[x, dset(rng).rename_vars(x='p', y='q')]], {}
@call
def a_encode(rng):
  from pygeode.formats.cfmeta import encode_cf
  d = dset(rng); return encode_cf, [d], {}
@call
def a_decode(rng):
  from pygeode.formats.cfmeta import encode_cf, decode_cf
  d = encode_cf(dset(rng)); return decode_cf, [d], {}
@call
def a_to_xarray(rng):
  from pygeode.ext_xarray import to_xarray
  d = dset(rng)
  return (lambda d: np.array(to_xarray(d)['x'].values)), [d], {}
@call
def a_save(rng):
  import pygeode as pyg
  d = dset(rng); fn = os.path.join(os.environ['VERIF_WORK'], 'c08.nc')
  ver = choice(rng, [3, 4]) if all(a.values.dtype.kind != 'i' for a in d.axes) else 4   # no 64-bit integers in NetCDF3
  kw = {'version': ver}
  if chance(rng, .5): kw['pack'] = ['x'] if chance(rng, .5) else True
  if chance(rng, .5): kw['cfmeta'] = True
  def f(d, **kw):
    if os.path.exists(fn): os.remove(fn)
    pyg.save(fn, d, **kw)
    r = pyg.open(fn); out = {v.name: v.get() for v in r.vars}; return out
  return f, [d], kw
@call
def a_weights(rng):
  v = g1(rng); w = np.arange(1., 7.)
  from pygeode.var import Var
  return v.mean, [0], {'weights': Var([v.axes[0]], values=w.copy())}
@call
def a_map(rng):
  v = g1(rng); return v.map, [np.sqrt], {}
@call
def a_clip(rng):
  import pygeode as pyg
  v = g1(rng); return pyg.clip, [v, -1., 1.], {}
@call
def a_wavenumber(rng):
  v = g1(rng); return v.fft_smooth, [0, 2], {}
@call
def a_svd(rng):
  import pygeode as pyg
  x, y = pair(rng, False)
  if x.naxes < 2: return None
  return pyg.SVD, [x, y], {'num': 1}
@call
def a_joinsplit(rng):
  from pygeode import timeutils
  t = vlib.make_axis(rng, 'StandardTime', 12, order='inc')
  x = vlib.make_var(rng, [t], vlib.make_values(rng, (12,)), name='T')
  return timeutils.splittimeaxis, [x, 'time'], {}

"""Random expression trees over the library's derived variables.

A Node carries a variable together with a bound on its magnitude and on the rounding
differences that evaluating it along another route may show (so that the comparisons of
the monitors need no guessed tolerances), and whether its coordinates are distinct.
"""
import numpy as np
import vlib
from vlib import choice, chance, make_axes, make_axis, make_values, make_var

EPS = {4: 1.2e-7, 8: 2.3e-16}
def eps_of(dt):
  dt = np.dtype(dt)
  if dt.kind == 'f': return EPS.get(dt.itemsize, 1e-3)
  if dt.kind == 'c': return EPS.get(dt.itemsize // 2, 1e-3)
  return 0.

class Node(object):
  def __init__(self, var, noise=0., distinct=True, desc='', uses=(), exact=False):
    self.var = var; self.noise = noise; self.distinct = distinct; self.desc = desc; self.uses = frozenset(uses); self.exact = exact
    self._full = None; self._scale = None
  @property
  def full(self):
    if self._full is None: self._full = np.array(self.var.get())
    return self._full
  @property
  def scale(self):
    if self._scale is None:
      f = self.full
      with np.errstate(all='ignore'):
        a = np.abs(f.astype('D' if f.dtype.kind == 'c' else 'd')); a = a[np.isfinite(a)]
      self._scale = float(a.max()) if a.size else 0.
    return self._scale
  @property
  def tol(self): return 50 * self.noise
  @property
  def ok(self):
    return np.isfinite(self.noise) and self.noise * 50 <= 1e-3 * (self.scale + 1e-30) if self.noise else True

def derive(n, var, label, L=1., extra=0., exact=False, distinct=None, uses=()):
  out = Node(var, distinct=n.distinct if distinct is None else distinct, desc='%s > %s' % (n.desc, label), uses=n.uses | set(uses), exact=False)
  e = max(eps_of(n.var.dtype), eps_of(var.dtype))
  if exact and n.noise == 0: out.noise = 0.; out.exact = n.exact
  else: out.noise = L * n.noise + extra + 30 * e * max(out.scale, n.scale * min(L, 1.))
  return out

# ------------------------------------------------------------------ sources
class Gen(object):
  """Makes sources; keeps them so that monitors can look at (and disturb) them."""
  def __init__(self, rng, kind=None, nmax=6, dtypes=('d', 'd', 'd', 'f', 'i4'), nan=.3, kinds=None):
    self.rng = rng; self.kind = kind; self.nmax = nmax; self.dtypes = dtypes; self.nan = nan; self.kinds = kinds
    self.sources = []
  def source(self, axes=None, ndim=None, dtype=None, nan=None, tmax=14):
    rng = self.rng
    if axes is None:
      ndim = ndim or int(choice(rng, [1, 2, 2, 3, 3, 4]))
      axes = make_axes(rng, ndim, kinds=self.kinds, nmax=self.nmax)
      # longer time axes are more interesting
      axes = [make_axis(rng, type(a).__name__, int(rng.integers(3, tmax))) if chance(rng, .6) and type(a).__name__ in ('StandardTime', 'ModelTime365', 'ModelTime360') else a for a in axes]
    dtype = dtype or choice(rng, self.dtypes)
    p = (choice(rng, [0., 0., .15]) if chance(rng, self.nan) else 0.) if nan is None else nan
    data = make_values(rng, [len(a) for a in axes], dtype, nan=p)
    v = make_var(rng, axes, data, name=choice(rng, ['T', 'u', 'q', '']), kind=self.kind, atts={'units': 'K', 'n': 3}, plotatts={'plottitle': 'x'})
    self.sources.append(v)
    kind = {'Var': 'mem', 'RecordingSource': 'view', 'ChunkSource': 'chunk'}[type(v).__name__]
    return Node(v, noise=0., desc='%s:%s(%s)%s' % (kind, v.dtype, ','.join('%s%d' % (type(a).__name__, len(a)) for a in axes), '+nan' if p else ''), exact=True)

# ------------------------------------------------------------------ helpers
def axnum(a): return a.values.dtype.kind in 'fiu'
def is_time(a):
  from pygeode.timeaxis import Time
  return isinstance(a, Time)
def is_cal(a):
  from pygeode.timeaxis import CalendarTime, Yearless, StandardTime, ModelTime365, ModelTime360
  return type(a) in (StandardTime, ModelTime365, ModelTime360) and all(f in a.auxarrays for f in ('year', 'month', 'day'))
def floaty(v): return np.dtype(v.dtype).kind == 'f'
def real(v): return np.dtype(v.dtype).kind in 'fiub'
def groups(v): return [a.name for a in v.axes]
def pick_axis(rng, v, cond=lambda a: True):
  c = [i for i, a in enumerate(v.axes) if cond(a)]
  return int(choice(rng, c)) if c else None
def axid(rng, v, i):
  """One of the ways in which a user may name axis i."""
  a = v.axes[i]
  r = int(rng.integers(0, 3))
  if r == 0: return i
  if r == 1 and sum(b.name == a.name for b in v.axes) == 1: return a.name
  if sum(isinstance(b, type(a)) for b in v.axes) == 1: return type(a)
  return i
def axis_subset(rng, v, least=1):
  k = int(rng.integers(least, v.naxes + 1))
  return [int(i) for i in rng.permutation(v.naxes)[:k]]
def spacing(a):
  d = np.abs(np.diff(np.asarray(a.values, 'd')))
  return float(d.min()) if d.size else 0.

OPS = {}
def op(f): OPS[f.__name__] = f; return f

# ------------------------------------------------------------------ element-wise
@op
def unary(rng, g, n):
  v = n.var
  if not real(v) or v.dtype.kind == 'b': return None
  k = choice(rng, ['sin', 'cos', 'tanh', 'arctan', 'absolute', 'neg', 'sqrt', 'log', 'exp', 'square', 'sign'])
  if k == 'sign':
    if not n.exact: return None
    return derive(n, v.sign(), k, exact=True)
  if k in ('sin', 'cos'): return derive(n, getattr(v, k)(), k, L=1., extra=eps_of('d') * n.scale)
  if k in ('tanh', 'arctan'): return derive(n, getattr(v, k)(), k)
  if k == 'absolute': return derive(n, v.absolute(), k, exact=True)
  if k == 'neg': return None if v.dtype.kind == 'u' else derive(n, -v, k, exact=True)
  if k == 'sqrt': return derive(n, (v.absolute() + 1.).sqrt(), 'sqrt(|.|+1)')
  if k == 'log': return derive(n, (v.absolute() + 1.).log(), 'log(|.|+1)')
  if k == 'exp': return derive(n, v.tanh().exp(), 'exp(tanh)', L=3.)
  if n.scale > 1e6: return None
  return derive(n, v ** 2, 'square', L=2 * n.scale)

@op
def scalar(rng, g, n):
  v = n.var
  if v.dtype.kind == 'b': return None
  c = choice(rng, [2, 3.5, -1.25, 7, .1])
  k = choice(rng, ['add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'div', 'rdiv'])
  if k == 'add': w = v + c
  elif k == 'radd': w = c + v
  elif k == 'sub': w = v - c
  elif k == 'rsub': w = c - v
  elif k == 'mul': w = v * c
  elif k == 'rmul': w = c * v
  elif k == 'div': w = v / c
  else:
    if not real(v): return None
    w = c / (v.absolute() + 1.)
  return derive(n, w, '%s %s' % (k, c), L=10.)

@op
def compare(rng, g, n):
  v = n.var
  if not n.exact or not real(v): return None
  thr = choice(rng, [.00051, -3.33333, 20.00007])
  k = choice(rng, ['>', '<', '>=', '<='])
  w = {'>': lambda: v > thr, '<': lambda: v < thr, '>=': lambda: v >= thr, '<=': lambda: v <= thr}[k]()
  return derive(n, w * 1.5, '(%s %s)*1.5' % (k, thr), exact=True)

@op
def binary(rng, g, n):
  """With another variable over some of the same axes, in another order."""
  v = n.var
  if v.dtype.kind == 'b' or not n.distinct or v.size > 4000: return None
  sub = axis_subset(rng, v)
  k2 = int(rng.integers(0, 4))
  if k2 == 0:
    m = g.source(axes=[v.axes[i] for i in sub], dtype='d')
  elif k2 == 1 and v.naxes > 1:
    m = derive(n, v.mean(*sub[:v.naxes - 1], weights=False), 'mean%s' % sub[:v.naxes - 1]) if real(v) else None
    if m is None: return None
  elif k2 == 2:
    order = [int(i) for i in rng.permutation(v.naxes)]
    m = derive(n, v.transpose(*order), 'transpose%s' % order, exact=True)
  else:
    i = pick_axis(rng, v, axnum)
    if i is None: return None
    m = Node(v.axes[i], desc='axis ' + v.axes[i].name)
  w = m.var
  k = choice(rng, ['+', '-', '*', '/', 'max', 'min'])
  S = max(n.scale, m.scale, 1.)
  if S > 1e5 and k in '*/': k = '+'
  if not real(v) or not real(w): k = choice(rng, '+-*')
  a, b, na, nb = (v, w, n, m) if chance(rng, .6) else (w, v, m, n)
  import pygeode as pyg
  if k == '+': x, L = a + b, 1.
  elif k == '-': x, L = a - b, 1.
  elif k == '*': x, L = a * b, S
  elif k == '/': x, L = a / (b ** 2 + 1.), S * S * 4
  elif k == 'max': x, L = pyg.maximum(a, b), 1.
  else: x, L = pyg.minimum(a, b), 1.
  return derive(n, x, '%s [%s]%s' % (k, m.desc, '' if a is v else ' (swapped)'), L=L, extra=L * m.noise, uses=m.uses)

@op
def nary(rng, g, n):
  import pygeode as pyg
  v = n.var
  if not real(v) or v.dtype.kind == 'b' or n.scale > 1e3 or not n.distinct: return None
  k = choice(rng, ['vsum', 'vprod', 'clip', 'arctan2'])
  if k == 'vsum': return derive(n, pyg.vsum(v, v * 2, v.transpose(*[int(i) for i in rng.permutation(v.naxes)])), k, L=4.)
  if k == 'vprod': return derive(n, pyg.vprod(v, v), k, L=2 * n.scale + 1)
  if k == 'clip': return derive(n, pyg.clip(v, -5.5, 5.5), k)
  return derive(n, pyg.arctan2(v, v ** 2 + 1.), k, L=3 * (n.scale + 1))

@op
def cast(rng, g, n):
  v = n.var
  if v.dtype.kind == 'c': return None
  return derive(n, v.as_type(choice(rng, ['d', 'f'])), 'as_type', exact=v.dtype.kind != 'f')

@op
def fills(rng, g, n):
  v = n.var
  if not floaty(v): return None
  if chance(rng, .5): return derive(n, v.fill(-7.5), 'fill', exact=True)
  if n.exact:
    with np.errstate(all='ignore'): f = n.full[np.isfinite(n.full)]
    if f.size: return derive(n, v.unfill(float(f[0])), 'unfill', exact=True)
  return derive(n, v.nan_to_num(), 'nan_to_num', exact=True) if np.all(~np.isinf(n.full)) else None

# ------------------------------------------------------------------ reductions
@op
def reduction(rng, g, n):
  v = n.var
  if not real(v) or v.dtype.kind == 'b' or v.naxes == 0: return None
  ax = axis_subset(rng, v)
  if len(ax) == v.naxes and v.naxes > 1 and chance(rng, .8): ax = ax[:-1]
  ids = [axid(rng, v, i) for i in ax]
  k = choice(rng, ['mean', 'sum', 'min', 'max', 'stdev', 'variance', 'nanmean', 'nansum', 'nanmin', 'nanmax', 'nanstdev', 'nanvariance', 'wmean', 'wsum'])
  npts = int(np.prod([v.shape[i] for i in ax]))
  lab = '%s(%s)' % (k, ','.join(v.axes[i].name for i in ax))
  e = eps_of(v.dtype) or eps_of('d')
  if k in ('stdev', 'variance', 'nanstdev', 'nanvariance'):
    if npts < 2: return None
    vn = (4 * n.noise * n.scale + 20 * e * n.scale ** 2) * npts
    if 'stdev' in k: vn = np.sqrt(vn)
    return derive(n, getattr(v, k)(*ids), lab, L=0., extra=vn)
  if k in ('wmean', 'wsum'):
    w = Node(vlib.make_var(rng, [v.axes[ax[0]]], np.round(rng.uniform(.2, 2., v.shape[ax[0]]), 3), name='w'))
    g.sources.append(w.var)
    return derive(n, getattr(v, k[1:])(*ids, weights=w.var), lab, L=2. * npts, extra=e * n.scale * npts)
  if k in ('min', 'max', 'nanmin', 'nanmax'): return derive(n, getattr(v, k)(*ids), lab, exact=True)
  kw = {'weights': choice(rng, [True, False])} if k in ('mean', 'sum', 'nanmean') else {}
  return derive(n, getattr(v, k)(*ids, **kw), lab + str(kw), L=float(npts), extra=e * n.scale * npts * (30 if 'sum' not in k else 400))

@op
def argred(rng, g, n):
  v = n.var
  if not n.exact or not real(v) or v.naxes == 0 or v.dtype.kind == 'b': return None
  if np.isnan(n.full.astype('d')).any(): return None
  i = pick_axis(rng, v); k = choice(rng, ['argmax', 'argmin'])
  return derive(n, getattr(v, k)(axid(rng, v, i)), '%s(%s)' % (k, v.axes[i].name), exact=True)

# ------------------------------------------------------------------ structure
@op
def transpose(rng, g, n):
  v = n.var
  if v.naxes < 2: return None
  o = [int(i) for i in rng.permutation(v.naxes)]
  return derive(n, v.transpose(*o[:int(rng.integers(1, v.naxes + 1))]), 'transpose%s' % o, exact=True)

@op
def squeeze(rng, g, n):
  v = n.var
  if not n.distinct: return None
  if any(len(a) == 1 for a in v.axes) and chance(rng, .5): return derive(n, v.squeeze(), 'squeeze', exact=True)
  i = pick_axis(rng, v)
  if i is None or v.naxes < 2: return None
  sl = [slice(None)] * v.naxes; j = int(rng.integers(0, v.shape[i])); sl[i] = slice(j, j + 1)
  return derive(n, v.slice[tuple(sl)].squeeze(i), 'slice+squeeze', exact=True)

@op
def extend(rng, g, n):
  v = n.var
  if v.size > 800 or v.naxes > 4: return None
  used = groups(v)
  from pygeode.axis import NamedAxis
  names = [x for x in ['xx', 'yy', 'zz'] if x not in used]
  if not names: return None
  a = NamedAxis(np.arange(int(rng.integers(1, 4))) * 2., name=names[0])
  return derive(n, v.extend(int(rng.integers(0, v.naxes + 1)), a), 'extend', exact=True)

@op
def sort(rng, g, n):
  v = n.var
  i = pick_axis(rng, v, axnum)
  if i is None or not n.distinct: return None
  o = choice(rng, [1, -1, 0])
  name = v.axes[i].name
  if sum(a.name == name for a in v.axes) > 1: return None
  return derive(n, v.sorted(**{name: o}) if o else v.sorted(name), 'sorted(%s=%d)' % (name, o), exact=True)

@op
def relabel(rng, g, n):
  v = n.var
  k = int(rng.integers(0, 3))
  if k == 0: return derive(n, v.rename(choice(rng, ['aa', 'bb'])), 'rename', exact=True)
  i = pick_axis(rng, v, axnum)
  if i is None or sum(a.name == v.axes[i].name for a in v.axes) > 1: return None
  from pygeode.axis import NamedAxis
  if k == 1 and 'rr' not in groups(v):
    return derive(n, v.replace_axes({v.axes[i].name: NamedAxis(np.arange(v.shape[i]) * 1.5 + 2, name='rr')}, keep_old_name=False), 'replace_axes', exact=True, distinct=all_distinct(v, i) if not n.distinct else True)
  return None

def all_distinct(v, but=None):
  return all(len(np.unique(a.values)) == len(a) for j, a in enumerate(v.axes) if j != but)

@op
def slicing(rng, g, n):
  v = n.var
  if not n.distinct or v.naxes == 0: return None
  sl = tuple(vlib.random_selector(rng, len(a))[0] if chance(rng, .6) else slice(None) for a in v.axes)
  return derive(n, v.slice[sl], 'slice%s' % (sl,), exact=True)

@op
def concat(rng, g, n):
  v = n.var
  if v.dtype.kind == 'b' or not n.distinct: return None
  i = pick_axis(rng, v, lambda a: len(a) > 1)
  if i is None: return None
  import pygeode as pyg
  N = v.shape[i]; cuts = sorted(set(int(c) for c in rng.integers(1, N, int(rng.integers(1, 4)))))
  pieces = []
  for k, (a, b) in enumerate(zip([0] + cuts, cuts + [N])):
    sl = [slice(None)] * v.naxes; sl[i] = slice(a, b)
    p = v.slice[tuple(sl)]
    pieces.append(p * 2. if k % 2 else p)
  return derive(n, pyg.concat.concat(pieces, iaxis=i) if hasattr(pyg.concat, 'concat') else pyg.concat(pieces, iaxis=i), 'concat(%s at %s)' % (v.axes[i].name, cuts), L=2.)

@op
def ensemble(rng, g, n):
  v = n.var
  if 'ensemble' in groups(v) or v.size > 800 or v.dtype.kind == 'b' or any(type(a).__name__ == 'Index' for a in v.axes): return None
  import pygeode as pyg
  ens = pyg.ensemble
  ens = getattr(ens, 'ensemble', ens)
  return derive(n, ens(v.rename('e'), (v * 2).as_type(v.dtype).rename('e')), 'ensemble', L=2., exact=False)

# ------------------------------------------------------------------ time
@op
def climat(rng, g, n):
  v = n.var
  i = pick_axis(rng, v, is_cal)
  if i is None or not real(v) or v.dtype.kind == 'b': return None
  if sum(is_time(a) for a in v.axes) > 1: return None   # which one is averaged is ambiguous
  import pygeode as pyg
  per = choice(rng, ['clim', 'daily', 'monthly', 'yearly', 'diurnal', 'seasonal'])
  what = choice(rng, ['mean', 'mean', 'nanmean', 'stdev', 'nanstdev', 'count'])
  name = per + what
  if per == 'clim': name = {'mean': 'climatology', 'nanmean': 'nanclimatology'}.get(what, 'clim' + what)
  f = getattr(pyg.climat, name, None)
  if f is None: return None
  if per == 'diurnal' and 'hour' not in v.axes[i].auxarrays: return None
  if per == 'seasonal' and type(v.axes[i]).__name__ == 'ModelTime360': return None   # documented: not available
  e = eps_of(v.dtype) or eps_of('d')
  if what == 'count': return derive(n, f(v), name, exact=True)
  if 'stdev' in what:
    vn = np.sqrt((4 * n.noise * n.scale + 20 * e * n.scale ** 2) * v.shape[i])
    return derive(n, f(v), name, L=0., extra=vn)
  return derive(n, f(v), name, L=1., extra=e * n.scale * v.shape[i])

@op
def lag(rng, g, n):
  v = n.var
  i = pick_axis(rng, v, lambda a: is_cal(a) and len(a) > 1)
  if i is None or v.dtype.kind == 'b' or any(type(a).__name__ in ('Lag', 'Yearless') for a in v.axes) or v.size > 800: return None
  lags = sorted(set(int(x) for x in rng.integers(-3, 4, 3)))
  return derive(n, v.lag(axid(rng, v, i), lags), 'lag(%s)' % lags, exact=True)

@op
def split(rng, g, n):
  v = n.var
  i = pick_axis(rng, v, lambda a: is_cal(a) and len(a) > 1)
  if i is None or not floaty(v) or not n.distinct or any(a.name in ('year', 'day') for a in v.axes) or v.size > 500: return None
  if any(type(a).__name__ in ('Lag', 'Yearless') for a in v.axes): return None
  from pygeode import timeutils
  s = timeutils.splittimeaxis(v, i)
  if chance(rng, .5): return derive(n, s, 'splittime', exact=True)
  return derive(n, timeutils.jointimeaxes(s, 'year', 'day'), 'split+join', exact=True)

# ------------------------------------------------------------------ calculus
@op
def interp(rng, g, n):
  v = n.var
  i = pick_axis(rng, v, lambda a: axnum(a) and not is_time(a) and type(a).__name__ in ('Lat', 'Lon', 'Pres', 'Height', 'XAxis', 'YAxis', 'NamedAxis') and len(a) >= 2 and monotone(a))
  if i is None or not real(v) or v.dtype.kind == 'b': return None
  a = v.axes[i]; N = len(a)
  types = ['linear'] + (['cspline'] if N >= 3 else []) + (['akima'] if N >= 5 else [])
  t = choice(rng, types)
  x = np.asarray(a.values, 'd'); lo, hi = x.min(), x.max(); m = int(rng.integers(1, 6))
  out = np.sort(rng.uniform(lo - .1 * (hi - lo), hi + .1 * (hi - lo), m))
  if chance(rng, .4): out = out[::-1]
  if chance(rng, .4): out = np.array(sorted(set(out) | {x[0]}))
  from pygeode.axis import NamedAxis
  kw = dict(interp_type=t)
  if chance(rng, .4): kw.update(d_below=.5, d_above=-.25)
  if isinstance(a, NamedAxis): oa = NamedAxis(out, name=a.name)
  else: oa = type(a)(out)
  if chance(rng, .3): kw['inx'] = v.axes[i] * 2.; kw['outx'] = oa * 2.
  L = 4. if t == 'linear' else 3e3
  return derive(n, v.interpolate(axid(rng, v, i), oa, **kw), 'interpolate(%s,%s)' % (a.name, kw.get('interp_type')), L=L, extra=L * eps_of('d') * n.scale * 10)

def monotone(a):
  d = np.diff(np.asarray(a.values, 'd'))
  return bool(np.all(d > 0) or np.all(d < 0))

@op
def deriv(rng, g, n):
  v = n.var
  i = pick_axis(rng, v, lambda a: axnum(a) and len(a) >= 2)
  if i is None or not real(v) or v.dtype.kind == 'b': return None
  d = spacing(v.axes[i])
  if d < 1e-3 or n.scale > 1e6: return None
  df = choice(rng, ['centre', 'left', 'right', '2'])
  if df == '2' and (len(v.axes[i]) < 3 or not monotone(v.axes[i])): return None
  if df == 'centre' and not monotone(v.axes[i]): return None
  L = (2 / d if df != '2' else 8 / d ** 2)
  return derive(n, v.deriv(axid(rng, v, i), df=df), 'deriv(%s,%s)' % (v.axes[i].name, df), L=L, extra=20 * L * (eps_of(v.dtype) or eps_of('d')) * n.scale)

@op
def diff(rng, g, n):
  v = n.var
  k = int(choice(rng, [1, 1, 2]))
  i = pick_axis(rng, v, lambda a: len(a) > k)
  if i is None or not n.distinct or v.dtype.kind in 'bu': return None
  return derive(n, v.diff(axid(rng, v, i), k), 'diff(%s,%d)' % (v.axes[i].name, k), L=2. ** k, extra=8 * eps_of(v.dtype) * n.scale)

@op
def integ(rng, g, n):
  v = n.var
  i = pick_axis(rng, v, lambda a: axnum(a) and len(a) >= 2)
  if i is None or not real(v) or v.dtype.kind == 'b': return None
  a = v.axes[i]; order = choice(rng, [1, -1]); N = len(a)
  if chance(rng, .4):
    return derive(n, v.cumsum(axid(rng, v, i), order=order), 'cumsum(%s,%d)' % (a.name, order), L=float(N), extra=10 * N * eps_of('d') * n.scale)
  r = float(np.abs(np.diff(np.asarray(a.values, 'd'))).sum())
  if r * n.scale > 1e7: return None
  t = choice(rng, ['trapz', 'rectr', 'rectl'])
  v0 = choice(rng, [None, 2.5])
  return derive(n, v.integrate(axid(rng, v, i), v0=v0, order=order, type=t), 'integrate(%s,%s,%d)' % (a.name, t, order), L=r, extra=20 * N * eps_of('d') * r * n.scale)

@op
def smooth(rng, g, n):
  v = n.var
  i = pick_axis(rng, v, lambda a: len(a) >= 3)
  if i is None or not real(v) or v.dtype.kind == 'b': return None
  if np.isinf(n.full).any(): return None
  k = int(rng.integers(3, len(v.axes[i]) + 1))
  ker = k + 2 if chance(rng, .3) and k + 2 <= len(v.axes[i]) else list(np.round(rng.uniform(.1, 1., k), 2))
  return derive(n, v.smooth(axid(rng, v, i), ker, fft=chance(rng, .5)), 'smooth(%s,%d)' % (v.axes[i].name, k), L=1., extra=200 * (eps_of(v.dtype) or eps_of('d')) * n.scale)

@op
def fftsmooth(rng, g, n):
  v = n.var
  i = pick_axis(rng, v, lambda a: len(a) >= 3)
  if i is None or not real(v) or v.dtype.kind == 'b': return None
  return derive(n, v.fft_smooth(axid(rng, v, i), int(rng.integers(1, len(v.axes[i]) // 2 + 1))), 'fft_smooth(%s)' % v.axes[i].name, L=float(v.shape[i]), extra=200 * (eps_of(v.dtype) or eps_of('d')) * n.scale)

@op
def composite(rng, g, n):
  v = n.var
  if v.size > 800 or any(a.name in ('event', 'offset') for a in v.axes) or not real(v) or v.dtype.kind == 'b': return None
  i = pick_axis(rng, v, lambda a: len(a) >= 3 and not is_time(a) or is_cal(a) and len(a) >= 3 and uniform(a))
  if i is None: return None
  a = v.axes[i]
  if is_time(a) and any(type(b).__name__ in ('Yearless', 'Lag') for b in v.axes): return None
  N = len(a); ne = int(rng.integers(2, 4))
  ev = [int(x) for x in rng.permutation(N)[:ne]]
  evlen = int(rng.integers(1, N + 1)); evoff = int(rng.integers(0, evlen + 1))
  if sum(b.has_alias(a.name) for b in v.axes) > 1: return None
  c = v.composite(evlen=evlen, evoff=evoff, **{'li_' + a.name: ev})
  lab = 'composite(%s,%s,len=%d,off=%d)' % (a.name, ev, evlen, evoff)
  if 'fl' not in groups(v) and chance(rng, .4):
    from pygeode.axis import NamedAxis
    j = i + 1
    return derive(n, c.flatten(inner=j, naxis=NamedAxis(np.arange(c.shape[i] * c.shape[j]) * 1., name='fl')), lab + '+flatten', exact=True)
  return derive(n, c, lab, exact=True)

def uniform(a):
  d = np.diff(np.asarray(a.values, 'd'))
  return bool(np.allclose(d, d[0]) and d[0] > 0)

NAMES = sorted(OPS)

def grow(rng, g, depth, ops=None, node=None, must=None):
  """A random tree: a source followed by `depth` operations."""
  n = node or g.source()
  names = ops or NAMES
  done = 0; tries = 0
  while done < depth and tries < depth * 8:
    tries += 1
    k = must if (must and done == 0 and tries < depth * 4) else choice(rng, names)
    m = OPS[k](rng, g, n)
    if m is None: continue
    m.uses = m.uses | {k}
    if m.var.size == 0 or m.var.size > 6000 or m.var.naxes > 5 or m.var.naxes == 0: continue
    if not m.ok: continue
    n = m; done += 1
  return n

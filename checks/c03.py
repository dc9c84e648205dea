"""C03: selecting by coordinate value or index returns exactly the matching points."""
N_QUICK = 27000
N_THOROUGH = 250000
BUDGET_QUICK = 100
BUDGET_THOROUGH = 600
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: every selection is compared with the points an independent matcher keeps'
RULE = ('a case is one selection request (one to four keywords over the axes of a random variable, or one axis, with their prefixes and forms) compared in data, coordinates, weights, auxiliary arrays and attributes; '
        'non-trivial: a proper, non-empty subset is kept; distinct by (axis kinds, keyword forms and prefixes)')
REQUIRE = {'requests': 5000, 'aux_requests': 300, 'text_dates': 200, 'means': 200, 'squeezes': 200, 'refused': 600, 'axis_requests': 500, 'empty': 60, 'repeated_axis': 300}
ASSUMPTIONS = ['numpy is correct', 'coordinates along an axis are distinct; nearest-value requests are generated away from ties']
import numpy as np
import vlib, exprs
from vlib import choice, chance
MON = ['', 'Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']

def near(rng, vals):
  """A value nearest to exactly one coordinate, and its position."""
  j = int(rng.integers(len(vals)))
  x = np.asarray(vals, 'd')
  d = np.abs(x - x[j]); d = d[d > 0]
  gap = d.min() if d.size else 1.
  q = x[j] + choice(rng, [0, 0, .3, -.3]) * gap
  return float(q)

def match_value(vals, q):
  keep = np.zeros(len(vals), bool)
  if vals.dtype.kind == 'f': keep[int(np.argmin(np.abs(vals - q)))] = True
  else: keep |= np.array([v == q for v in vals], bool)
  return keep

def names_of(rng, a):
  import pygeode as pyg
  out = [a.name, type(a).__name__, a.name.upper()]
  for c in type(a).__mro__[1:]:
    if c.__name__ in ('XAxis', 'YAxis', 'ZAxis', 'TAxis', 'Time', 'CalendarTime'): out.append(c.__name__.lower())
  return choice(rng, out)

def unique_name(axes, j, nm):
  return sum(b.has_alias(nm) for b in axes) == 1 and not any(nm in b.auxarrays for k, b in enumerate(axes))

def one_keyword(rng, axes, j, mon):
  """(keyword, value, keep mask, label) for axis j."""
  from pygeode.timeaxis import StandardTime, ModelTime365, ModelTime360
  from pygeode.axis import NonCoordinateAxis
  a = axes[j]; n = len(a)
  key = names_of(rng, a)
  if not unique_name(axes, j, key): return None
  vals = np.asarray(a.values)
  keep = np.zeros(n, bool)
  r = choice(rng, ['value', 'value', 'range', 'range', 'list', 'index', 'ipair', 'istride', 'ilist', 'aux', 'auxrange', 'auxlist', 'text', 'textrange', 'textlist', 'station'])
  neg = chance(rng, .2)
  lab = r
  pre = ''
  if r == 'value':
    q = near(rng, vals) if vals.dtype.kind == 'f' else choice(rng, [vals[int(rng.integers(n))], vals[int(rng.integers(n))], 10 ** 6])
    if isinstance(a, NonCoordinateAxis): q = int(rng.integers(n))
    keep = match_value(vals, q); v = q if not chance(rng, .3) else type(q)(q)
    if chance(rng, .15) and not exprs.is_time(a) and not isinstance(a, NonCoordinateAxis): v = repr(float(q)); lab += 'str'
  elif r == 'range':
    lo, hi = vals.min() - 1, vals.max() + 1
    p = sorted([float(vals[int(rng.integers(n))]) if chance(rng, .5) else float(rng.uniform(lo, hi)) for _ in range(2)])
    keep = (vals >= p[0]) & (vals <= p[1])
    if chance(rng, .4): p = p[::-1]
    v = tuple(p) if chance(rng, .7) else list(p)
  elif r == 'list':
    m = int(rng.integers(1, n + 2))
    v = [near(rng, vals) if vals.dtype.kind == 'f' else vals[int(rng.integers(n))] for _ in range(m)]
    for q in v: keep |= match_value(vals, q)
    pre = 'l'; v = choice(rng, [list, tuple, np.array])(v)
  elif r == 'index': v = int(rng.integers(-n, n)); keep[v] = True; pre = 'i'
  elif r == 'ipair':
    v = tuple(int(x) for x in rng.integers(-n, n + 2, 2)); keep[v[0]:v[1]] = True; pre = 'i'
  elif r == 'istride':
    v = (int(rng.integers(-n, n)), int(rng.integers(-n, n + 2)), int(rng.integers(1, n + 1))); keep[v[0]:v[1]:v[2]] = True; pre = 'i'
  elif r == 'ilist':
    v = [int(x) for x in rng.integers(-n, n, int(rng.integers(1, n + 2)))]
    keep[v] = True
    pre = 'il' if chance(rng, .5) else 'li'
    if len(v) > 3 and chance(rng, .3): pre = 'i'
  elif r in ('aux', 'auxrange', 'auxlist'):
    if not a.auxarrays: return None
    k = choice(rng, sorted(a.auxarrays))
    if sum(k in b.auxarrays or b.has_alias(k) for b in axes) != 1 or '_' in k: return None
    arr = np.asarray(a.auxarrays[k])
    key = k; lab += ':' + k
    if r == 'aux':
      v = arr[int(rng.integers(n))]
      if arr.dtype.kind == 'f': v = near(rng, arr) if len(set(arr)) == n else float(v)
      elif arr.dtype.kind in 'iu': v = choice(rng, [int(v), int(v), int(v) + 1])
      else: v = str(v)
      keep = match_value(arr, v)
    elif r == 'auxrange':
      if arr.dtype.kind not in 'iuf': return None
      p = sorted(float(x) for x in rng.choice(arr, 2)); p[0] -= choice(rng, [0, .5])
      keep = (arr >= p[0]) & (arr <= p[1]); v = tuple(p if chance(rng, .6) else p[::-1])
    else:
      m = int(rng.integers(1, 4)); v = [arr[int(x)] for x in rng.integers(0, n, m)]
      if arr.dtype.kind in 'US': v = [str(x) for x in v]
      for q in v: keep |= match_value(arr, q)
      if arr.dtype.kind == 'f' and len(set(arr)) < n: return None
      pre = 'l'
    mon.hit('aux_requests')
  elif r in ('text', 'textrange', 'textlist'):
    if type(a) not in (StandardTime, ModelTime365, ModelTime360): return None
    secs = lambda i: tuple(int(a.auxarrays[f][i]) if f in a.auxarrays else (1 if f in ('month', 'day') else 0) for f in ('year', 'month', 'day', 'hour', 'minute', 'second'))
    T = [secs(i) for i in range(n)]
    def txt(t):
      s = '%d %s %04d' % (t[2], MON[t[1]], t[0])
      if t[3:] != (0, 0, 0) or chance(rng, .2): s = '%02d:%02d%s %s' % (t[3], t[4], ':%02d' % t[5] if t[5] or chance(rng, .5) else '', s)
      return s
    if r == 'text':
      q = choice(rng, T); keep = np.array([t == q for t in T]); v = txt(q)
    elif r == 'textlist':
      qs = [choice(rng, T) for _ in range(int(rng.integers(1, 4)))]; keep = np.array([t in qs for t in T]); v = [txt(q) for q in qs]; pre = 'l'
    else:
      qs = [list(choice(rng, T)) for _ in range(2)]
      if chance(rng, .5): qs[0][2] = int(rng.integers(1, 29)); qs[1][1] = int(rng.integers(1, 13)); qs[1][2] = int(rng.integers(1, 29))
      qs = [tuple(q) for q in qs]
      keep = np.array([min(qs) <= t <= max(qs) for t in T]); v = tuple(txt(q) for q in qs)
    mon.hit('text_dates')
  else:
    if type(a).__name__ != 'Station': return None
    lab = 'station'; names = list(a.auxarrays['station']); key = 'station'
    if chance(rng, .4):
      v = [str(choice(rng, names)) for _ in range(int(rng.integers(1, 4)))]; keep = np.array([x in v for x in names]); pre = 'l'
    else:
      v = str(choice(rng, names)) if chance(rng, .8) else 'nowhere'; keep = np.array([x == v for x in names])
  if neg: pre = choice(rng, [pre + 'n', 'n' + pre]); keep = ~keep
  return ((pre + '_' if pre else '') + key, v, keep, ('n' if neg else '') + lab)

def check_axis(mon, got, want, idx, msg):
  from pygeode.axis import NonCoordinateAxis
  if not mon.check(type(got) is type(want) and got.name == want.name, 'axis-kind', '%s: axis %s <%s> became %s <%s>' % (msg, want.name, type(want).__name__, got.name, type(got).__name__)): return
  if len(idx) == len(want): idx = np.arange(len(want))
  if isinstance(want, NonCoordinateAxis): mon.check(len(got) == len(idx), 'axis-length', '%s: %d points, expected %d' % (msg, len(got), len(idx)))
  else: mon.same(got.values, np.asarray(want.values)[idx], 'axis-values', msg + ': coordinates of ' + want.name)
  mon.check(set(got.auxarrays) == set(want.auxarrays), 'axis-aux', lambda: '%s: auxiliary arrays %s became %s' % (msg, sorted(want.auxarrays), sorted(got.auxarrays)))
  for k in want.auxarrays:
    if k in got.auxarrays: mon.same(got.auxarrays[k], np.asarray(want.auxarrays[k])[idx], 'axis-aux', '%s: %s of %s' % (msg, k, want.name))
  mon.check(vlib.same_tree(dict(got.auxatts), dict(want.auxatts)), 'axis-auxatts', lambda: '%s: %s became %s' % (msg, want.auxatts, got.auxatts))
  mon.check(dict(got.atts) == dict(want.atts), 'axis-atts', lambda: '%s: attributes %s of %s became %s' % (msg, want.atts, want.name, got.atts))
  if exprs.is_time(want): mon.check(got.startdate == want.startdate and got.units == want.units, 'axis-reference', msg + ': reference date or units changed')

def case(rng, i, mon):
  from pygeode.var import Var
  mon.context[:] = []
  nd = int(choice(rng, [1, 2, 2, 3, 4]))
  axes = vlib.make_axes(rng, nd, nmax=8, order=choice(rng, [None, None, 'any']))
  for a in axes:
    if chance(rng, .2): a.atts['note'] = 'a%d' % int(rng.integers(9))
  nd = len(axes)
  for k, a in enumerate(axes):   # an auxiliary array of text and one of numbers
    if type(a).__name__ in ('Lat', 'XAxis', 'Pres', 'Lon') and chance(rng, .3):
      aux = dict(quality=np.round(rng.uniform(0, 9, len(a)), 2), code=rng.integers(0, 4, len(a)))
      axes[k] = type(a)(np.array(a.values), atts=dict(a.atts), **dict(a.auxatts, **dict({q: np.array(x) for q, x in a.auxarrays.items()}, **aux)))
    elif type(a).__name__ == 'Station' and chance(rng, .5):
      axes[k] = type(a)(**dict({q: np.array(x) for q, x in a.auxarrays.items()}, country=[choice(rng, ['ca', 'fr', 'no']) for _ in range(len(a))]))
  shape = [len(a) for a in axes]
  data = vlib.make_values(rng, shape, choice(rng, ['d', 'd', 'f', 'i4']), nan=choice(rng, [0., .1]))
  v = vlib.make_var(rng, axes, data, name='T', atts={'units': 'K', 'x': 1}, plotatts={'plottitle': 't'})
  r = i % 10
  if r == 9: return refused(rng, mon, v, axes)
  if r == 8: return axis_only(rng, mon, axes)
  kws, masks, labs = {}, [np.ones(n, bool) for n in shape], []
  target = int(rng.integers(1, 5)); tries = 0; used = []
  means, sq = [], []
  while len(labs) < target and tries < 12:
    tries += 1
    j = int(rng.integers(nd))
    if j in used and (j in means or j in sq or chance(rng, .5)): continue
    q = one_keyword(rng, axes, j, mon)
    if q is None or q[0] in kws: continue
    k, val, keep, lab = q
    if j not in used and 'aux' not in lab and chance(rng, .25):
      p = choice(rng, 'ms'); pre, nm = k.split('_', 1) if '_' in k else ('', k)
      if p + pre + '_' + nm in kws or nm in [x.split('_')[-1] for x in kws]: continue
      k = choice(rng, [p + pre, pre + p]) + '_' + nm
      (means if p == 'm' else sq).append(j); lab = p + lab
    if j in used: mon.hit('repeated_axis')
    kws[k] = val; masks[j] &= keep; labs.append((type(axes[j]).__name__, lab)); used.append(j)
  if not kws: return
  idx = [np.flatnonzero(m) for m in masks]
  sub = data[np.ix_(*idx)]
  mon.context[:] = ['%s(%s) of %s' % ('var', kws, vlib.describe(v)) + ' axes %s' % [list(a.values) for a in axes]]
  mon.sample(mon.context[0])
  if sub.size == 0 and means: return
  rest = list(range(nd))
  want = sub; at = 0.
  if means:
    if data.dtype.kind == 'f' and np.isnan(sub).any(): return
    x = sub.astype('d'); w = np.ones(sub.shape)
    for j in means:
      ww = getattr(axes[j], 'weights', None)
      if ww is not None: w = w * np.asarray(ww, 'd')[idx[j]].reshape([-1 if q == j else 1 for q in range(nd)])
    s = float(np.abs(x).max()) + 1
    want = (x * w).sum(tuple(means)) / w.sum(tuple(means)); at = (1e-5 if data.dtype == np.float32 else 1e-11) * s * max(1, (w.max() / max(w.min(), 1e-12)) if w.min() > 0 else 1)
    rest = [j for j in rest if j not in means]; mon.hit('means')
  gone = [j for j in sq if len(idx[j]) == 1]
  if sq:
    mon.hit('squeezes')
    if len(gone) != len(sq): return refused_squeeze(mon, v, kws, want, rest, gone, sq, idx)
    want = want.reshape([len(idx[j]) for j in rest if j not in gone]); rest = [j for j in rest if j not in gone]
  # a full reduction returns a number
  w = mon.op('call', lambda: v(**kws))
  mon.hit('requests')
  if sub.size == 0: mon.hit('empty')
  sig = tuple(sorted(labs)) if 0 < sub.size < data.size else ()
  if not isinstance(w, Var):
    mon.check(not rest, 'not-a-variable', 'returned %s' % type(w)); mon.same(np.asarray(w), want, 'values', atol=at, sig=sig); return
  got = mon.op('get', lambda: w.get())
  mon.same(got, want, 'values', 'selected data', atol=at, sig=sig)
  if not mon.check(w.naxes == len(rest), 'axes', lambda: 'has axes %s, expected %s' % ([a.name for a in w.axes], [axes[j].name for j in rest])): return
  for a, j in zip(w.axes, rest): check_axis(mon, a, axes[j], idx[j], 'selection')
  for a, j in zip(w.axes, rest):
    ww = getattr(axes[j], 'weights', None)
    if ww is not None: mon.same(np.asarray(a.weights), np.asarray(ww)[idx[j]], 'weights', 'weights of %s' % a.name, rtol=1e-12)
  mon.check(w.name == 'T' and dict(w.atts) == {'units': 'K', 'x': 1} and w.plotatts.get('plottitle') == 't', 'attributes', lambda: 'name/attributes became %r %s %s' % (w.name, w.atts, w.plotatts))
  if not means: mon.check(w.dtype == data.dtype == got.dtype, 'dtype', lambda: '%s became %s' % (data.dtype, got.dtype))
  # selecting again within the selection: positions now refer to the kept points
  if rest and got.size and chance(rng, .4) and not means:
    j = int(rng.integers(len(rest)))
    q = one_keyword(rng, w.axes, j, mon)
    if q is None: return
    k, val, keep, lab = q
    mon.context.append('then (%s=%s)' % (k, val))
    w2 = mon.op('call', lambda: w(**{k: val}))
    ii = [np.arange(len(a)) for a in w.axes]; ii[j] = np.flatnonzero(keep)
    mon.same(mon.op('get', lambda: w2.get()), want[np.ix_(*ii)], 'values2', 'second selection', sig=('again', type(w.axes[j]).__name__, lab))
    check_axis(mon, w2.axes[j], axes[rest[j]], idx[rest[j]][ii[j]], 'second selection')

def refused_squeeze(mon, v, kws, want, rest, gone, sq, idx):
  """Squeezing an axis on which several points (or none) were selected: refused, or left in place; never dropped."""
  try: w = v(**kws).get()
  except Exception: mon.ev(); return
  a, b = np.sort(np.ravel(np.asarray(w, 'd'))), np.sort(np.ravel(np.asarray(want, 'd')))
  mon.check(a.size == b.size and np.allclose(a, b, rtol=1e-4, atol=1e-4, equal_nan=True), 'squeeze-many', 'squeezing an axis with several selected points lost data')

def refused(rng, mon, v, axes):
  j = int(rng.integers(len(axes))); a = axes[j]; n = len(a)
  if not unique_name(axes, j, a.name): return
  free = [k for k in ('foo', 'latitud', 'qq') if not any(b.has_alias(k) or k in b.auxarrays for b in axes)]
  k = choice(rng, ['unknown', 'unknown', 'index', 'ilist', 'triple', 'prefix', 'text', 'unknownprefixed', 'axis', 'ignore'])
  mon.context[:] = ['%s of %s' % (k, vlib.describe(v))]
  mon.hit('refused')
  if k == 'unknown': mon.raises(lambda: v(**{choice(rng, free): 3}).get(), 'accepts-unknown', 'unknown name')
  elif k == 'unknownprefixed': mon.raises(lambda: v(**{choice(rng, 'nilms') + '_' + choice(rng, free): (0, 1)}).get(), 'accepts-unknown', 'unknown name with prefix')
  elif k == 'index': mon.raises(lambda: v(**{'i_' + a.name: choice(rng, [n, n + 3, -n - 1])}).get(), 'accepts-index', 'index out of range')
  elif k == 'ilist': mon.raises(lambda: v(**{'li_' + a.name: [0, n]}).get(), 'accepts-index', 'index list out of range')
  elif k == 'triple': mon.raises(lambda: v(**{a.name: (0, 1, 2)}).get(), 'accepts-triple', 'range of three values')
  elif k == 'prefix':
    if any(b.has_alias('zq_' + a.name) for b in axes): return
    mon.raises(lambda: v(**{choice(rng, ['x', 'q', 'zq', 'avg', 'u']) + '_' + a.name: (0, 1)}).get(), 'accepts-prefix', 'unknown prefix')
  elif k == 'text':
    if type(a).__name__ == 'Station': return
    mon.raises(lambda: v(**{a.name: 'not a value'}).get(), 'accepts-text', 'text which is no coordinate')
  elif k == 'axis':
    if 'foo' in free: mon.raises(lambda: a(foo=3), 'accepts-unknown', 'unknown name on an axis')
  else:
    w = mon.op('call', lambda: v(ignore_mismatch=True, **{'foo': 3, 'i_' + a.name: 0}))
    sl = [slice(None)] * len(axes); sl[j] = slice(0, 1)
    mon.same(w.get(), v.get()[tuple(sl)], 'ignore-mismatch', 'unknown names ignored on request')
    for p in ['m_foo', 's_foo', 'l_foo', 'i_foo', 'n_foo', 'im_foo']:
      u = mon.op('call', lambda: v(ignore_mismatch=True, **{p: (0, 1), 'i_' + a.name: 0}))
      mon.check(u.axes == w.axes and vlib.close(np.asarray(u.get(), 'd'), np.asarray(w.get(), 'd')), 'ignore-mismatch', '%s changes the selection' % p)

def axis_only(rng, mon, axes):
  j = int(rng.integers(len(axes))); a = axes[j]
  kws = {}; keep = np.ones(len(a), bool); labs = []
  for _ in range(int(rng.integers(1, 3))):
    q = one_keyword(rng, [a], 0, mon)
    if q is None or q[0] in kws: continue
    kws[q[0]] = q[1]; keep &= q[2]; labs.append(q[3])
  if not kws: return
  mon.context[:] = ['axis %s %s (%s)' % (a.name, list(a.values), kws)]
  mon.hit('axis_requests')
  b = mon.op('axis-call', lambda: a(**kws))
  if not keep.any(): return mon.check(len(b) == 0, 'axis-empty', 'selection of nothing returned %d points' % len(b))
  check_axis(mon, b, a, np.flatnonzero(keep), 'axis selection')
  mon.ev('axis', type(a).__name__, tuple(labs))

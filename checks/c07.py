"""C07: concatenation and ensembles contain each input point exactly once."""
N_QUICK = 14000
N_THOROUGH = 250000
BUDGET_QUICK = 100
BUDGET_THOROUGH = 600
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: concatenated and stacked variables are compared with a numpy reference in which every input point carries a unique value; a conservation monitor counts how often each point occurs and which pieces are read'
RULE = ('a case joins 2 to 6 pieces (partition of a variable, arbitrary or overlapping coordinates, other reference dates or units, permuted other axes, identical axes, mixed dtypes) and requests all and parts of the result; '
        'non-trivial: more than one piece with points; distinct by (kind, axis class, number of pieces, position of the axis, dtypes, source kinds)')
REQUIRE = {'partitions': 1200, 'arbitrary': 450, 'overlapping': 300, 'rebased_times': 250, 'permuted': 300, 'new_axis': 300, 'ensembles': 700, 'datasets': 500, 'requests': 4000, 'refusals': 600, 'mixed_dtypes': 500, 'conserved': 2500, 'reads_watched': 500}
ASSUMPTIONS = ['numpy is correct', 'parts are requested by position only where the coordinates along the joined axis are distinct (the library identifies points by coordinate)']
import numpy as np
import vlib, exprs
from vlib import choice, chance

_n = [0]
def unique_data(rng, shape, dt):
  """Values no two of which are equal within one case (as far as the dtype allows)."""
  n = int(np.prod(shape)); start = _n[0]; _n[0] += n
  x = np.arange(start, start + n)
  return rng.permutation(x).reshape(shape).astype(dt)

def rebase(rng, ax):
  """The same instants, with another reference date or unit."""
  from pygeode import timeaxis as T
  cls = type(ax)
  aux = {k: np.array(v) for k, v in ax.auxarrays.items()}
  j = int(rng.integers(0, len(ax)))
  start = {k: int(aux[k][j]) for k in ('year', 'month', 'day') if k in aux}
  units = choice(rng, ['days', 'hours', 'minutes'])
  return cls(startdate=start, units=units, **aux)

def fields(ax): return [tuple(int(ax.auxarrays[k][j]) for k in ('year', 'month', 'day', 'hour', 'minute', 'second') if k in ax.auxarrays) for j in range(len(ax))]

def requests(rng, mon, v, want, key, n=2):
  for _ in range(n):
    sels = [vlib.random_selector(rng, m) for m in v.shape]
    w = mon.op('slice', lambda: v.slice[tuple(s for s, _ in sels)])
    got = mon.op(key + ':part', lambda: w.get()); mon.hit('requests')
    mon.same(got, vlib.fullsel(want, [q for _, q in sels]), key + ':part', lambda: 'part %s' % ([s for s, _ in sels],))

def case(rng, i, mon):
  import pygeode as pyg
  from pygeode.concat import concat
  mon.context[:] = []; _n[0] = 0
  kind = ['partition', 'partition', 'arbitrary', 'overlap', 'time', 'permuted', 'newaxis', 'ensemble', 'dataset', 'ensemble_ds', 'refuse', 'refuse_ens', 'partition'][i % 13]
  globals()['k_' + kind](rng, mon)

def join(mon, rng, pieces, iaxis=None, key='concat'):
  from pygeode.concat import concat
  kw = {} if iaxis is None else {'iaxis': iaxis}
  if chance(rng, .5): return mon.op(key, lambda: concat(*pieces, **kw))
  given = list(pieces)
  v = mon.op(key, lambda: concat(given, **kw))
  mon.check(len(given) == len(pieces) and all(a is b for a, b in zip(given, pieces)), 'list-modified', 'concat changed the list of pieces')
  return v

def conserve(mon, got, datas, key):
  mon.hit('conserved')
  a = np.sort(np.asarray(got).ravel()); b = np.sort(np.concatenate([np.asarray(d, dtype=np.asarray(got).dtype).ravel() for d in datas]))
  mon.check(np.array_equal(a, b), 'conservation:' + key, lambda: 'the result does not hold every input point exactly once: %s, inputs %s' % (a[:40], b[:40]))

def watch(rng, mon, v, pieces, offs, ax, key):
  """Requests inside one piece read only that piece."""
  srcs = [p for p in pieces if hasattr(p, '_log')]
  if len(srcs) < 2: return
  k = int(rng.integers(0, len(pieces)))
  for p in srcs: del p._log[:]
  sl = [slice(None)] * v.naxes; sl[ax] = slice(offs[k], offs[k + 1])
  mon.op(key + ':one piece', lambda: v.slice[tuple(sl)].get())
  mon.hit('reads_watched')
  other = [q for q, p in enumerate(pieces) if q != k and hasattr(p, '_log') and p._log]
  mon.check(not other, 'extra-reads:' + key, lambda: 'a request inside piece %d read pieces %s' % (k, other))

def k_partition(rng, mon):
  nd = int(choice(rng, [1, 2, 2, 3, 4]))
  axes = vlib.make_axes(rng, nd, nmax=6, nmin=1)
  ax = int(rng.integers(0, nd))
  axes[ax] = vlib.make_axis(rng, type(axes[ax]).__name__, int(rng.integers(2, 13)))
  N = len(axes[ax])
  dt = choice(rng, ['d', 'd', 'f', 'i4', 'i2', 'D'])
  data = unique_data(rng, [len(a) for a in axes], dt)
  v = vlib.make_var(rng, axes, data, name=choice(rng, ['T', '']), atts={'units': 'K'}, plotatts={'plottitle': 't'})
  cuts = [0] + sorted(set(int(c) for c in rng.integers(1, N, int(rng.integers(1, 6))))) + [N]
  pieces = []; dts = []
  how = choice(rng, ['slice', 'fresh', 'fresh'])
  for a, b in zip(cuts[:-1], cuts[1:]):
    sl = [slice(None)] * nd; sl[ax] = slice(a, b)
    if how == 'slice': p = v.slice[tuple(sl)]
    else: p = vlib.make_var(rng, [axes[q].slice[sl[q]] for q in range(nd)], data[tuple(sl)], name=v.name, atts={'units': 'K', 'piece': a}, plotatts={'plottitle': 't'})
    dts.append(p.dtype); pieces.append(p)
  if chance(rng, .3) and dt != 'D':
    q = int(rng.integers(0, len(pieces))); pieces[q] = pieces[q].as_type('d'); dts[q] = np.dtype('d'); mon.hit('mixed_dtypes')
  isidx = type(axes[ax]).__name__ in ('Index',)
  ia = None if chance(rng, .5) and not (isidx or type(axes[ax]).__name__ == 'Station') else exprs.axid(rng, v, ax)
  if type(axes[ax]).__name__ == 'Station' : ia = ax
  mon.context.append('partition of %s along %s at %s, iaxis=%r' % (vlib.describe(v), axes[ax].name, cuts, ia))
  mon.hit('partitions'); mon.sample(mon.context[0])
  w = join(mon, rng, pieces, ia)
  sig = ('partition', type(axes[ax]).__name__, len(pieces), ax, nd, str(dts), how)
  got = mon.op('get', lambda: w.get())
  want = np.asarray(data, np.result_type(*dts))
  mon.same(got, want, 'partition', 'concatenated partition', sig=sig)
  conserve(mon, got, [data], 'partition')
  mon.check(w.dtype == np.result_type(*dts) and np.asarray(got).dtype == w.dtype, 'dtype', lambda: 'dtype %s of pieces %s' % (w.dtype, dts))
  mon.check(w.name == v.name and w.atts.get('units') == 'K' and 'piece' not in w.atts or how == 'slice' or len(pieces) == 1, 'meta', lambda: 'name %r atts %s' % (w.name, w.atts))
  for q, (a, b) in enumerate(zip(w.axes, axes)):
    if type(b).__name__ == 'Station' and q == ax:
      mon.check(type(a) is type(b) and list(a.auxarrays['station']) == list(b.auxarrays['station']) and list(a.auxarrays['lat']) == list(b.auxarrays['lat']), 'axis', 'station axis not restored'); continue
    mon.check(type(a) is type(b) and a == b and a.name == b.name and vlib.close(np.asarray(a.values, 'd'), np.asarray(b.values, 'd'), atol=1e-9), 'axis', lambda: 'axis %s: %s %s, expected %s' % (b.name, type(a), a.values, b.values), 'axis', type(b).__name__)
    wa, wb = getattr(a, 'weights', None), getattr(b, 'weights', None)
    mon.check((wa is None) == (wb is None) and (wa is None or vlib.close(np.asarray(wa), np.asarray(wb))), 'axis-weights', lambda: 'weights of %s: %s expected %s' % (b.name, wa, wb))
    for k in b.auxarrays: mon.check(k in a.auxarrays and list(map(str, a.auxarrays[k])) == list(map(str, b.auxarrays[k])), 'axis-aux', lambda: 'auxiliary array %s of %s: %s expected %s' % (k, b.name, a.auxarrays.get(k), b.auxarrays[k]))
  if type(axes[ax]).__name__ != 'Station':
    requests(rng, mon, w, want, 'partition')
    watch(rng, mon, w, pieces, cuts, ax, 'partition')

def loose(rng, mon, overlap):
  nd = int(choice(rng, [1, 2, 2, 3]))
  kinds = ['XAxis', 'NamedAxis', 'Lat', 'Lon', 'Pres', 'Height', 'YAxis', 'StandardTime', 'ModelTime365', 'Freq', 'Yearless']
  axes = vlib.make_axes(rng, nd, kinds=kinds, nmax=5)
  ax = int(rng.integers(0, nd)); k = type(axes[ax]).__name__
  n = int(rng.integers(2, 5))
  vals = vlib.distinct_sorted(rng, 30, 1., 80.)
  if 'Time' in k or k == 'Yearless': vals = np.arange(30) * 1.
  order = rng.permutation(30)
  pieces = []; datas = []; coords = []; pos = 0; dts = []
  for q in range(n):
    m = int(rng.integers(1, 6))
    idx = rng.permutation(30)[:m] if overlap else order[pos:pos + m]
    pos += m
    c = np.sort(vals[idx]) if chance(rng, .6) else vals[idx]
    if 'Time' in k or k == 'Yearless': a = type(axes[ax])(values=c, units=axes[ax].units, startdate=axes[ax].startdate)
    elif k == 'NamedAxis': a = type(axes[ax])(c, name=axes[ax].name)
    else: a = type(axes[ax])(c)
    full = list(axes); full[ax] = a
    dt = choice(rng, ['d', 'd', 'f', 'i4']); dts.append(np.dtype(dt))
    d = unique_data(rng, [len(b) for b in full], dt)
    pieces.append(vlib.make_var(rng, full, d, name='T')); datas.append(d); coords.append(c)
  if len(set(dts)) > 1: mon.hit('mixed_dtypes')
  mon.context.append('pieces %s along %s with coordinates %s' % (vlib.describe(pieces[0]), axes[ax].name, [list(c) for c in coords]))
  mon.sample(mon.context[0])
  w = join(mon, rng, pieces, ax)
  want = np.concatenate([d.astype(np.result_type(*dts)) for d in datas], axis=ax)
  got = mon.op('get', lambda: w.get())
  key = 'overlapping' if overlap else 'arbitrary'; mon.hit(key)
  mon.same(got, want, key, 'concatenated pieces', sig=(key, k, n, ax, nd, str(dts)))
  conserve(mon, got, datas, key)
  mon.check(vlib.close(np.asarray(w.axes[ax].values, 'd'), np.concatenate(coords), atol=1e-9), 'axis', lambda: 'axis %s' % w.axes[ax].values)
  if not overlap:
    requests(rng, mon, w, want, key, 3)
    watch(rng, mon, w, pieces, list(np.cumsum([0] + [len(c) for c in coords])), ax, key)
    if k in ('XAxis', 'Lat', 'Pres', 'Height') and [a.name for a in axes].count(axes[ax].name) == 1:
      q = int(rng.integers(0, n)); x = float(choice(rng, coords[q])); j = list(np.concatenate(coords)).index(x)
      mon.same(mon.op('select', lambda: w(**{axes[ax].name: x}).get()), np.take(want, [j], ax), 'select', lambda: 'value at %s' % x)

def k_arbitrary(rng, mon): loose(rng, mon, False)
def k_overlap(rng, mon): loose(rng, mon, True)

def k_time(rng, mon):
  """Pieces of a time series whose time axes have their own reference dates and units."""
  nd = int(choice(rng, [1, 2]))
  k = choice(rng, ['StandardTime', 'ModelTime365', 'ModelTime360'])
  t = vlib.make_axis(rng, k, int(rng.integers(2, 15)), order='inc')
  axes = vlib.make_axes(rng, nd, kinds=['XAxis', 'Lat', 'Pres', 'Station'], nmax=4); 
  ax = int(rng.integers(0, len(axes) + 1)); axes = axes[:ax] + [t] + axes[ax:]
  N = len(t); cuts = [0] + sorted(set(int(c) for c in rng.integers(1, N, 2))) + [N]
  data = unique_data(rng, [len(a) for a in axes], 'd'); pieces = []
  for a, b in zip(cuts[:-1], cuts[1:]):
    sl = [slice(None)] * len(axes); sl[ax] = slice(a, b); full = list(axes)
    full[ax] = rebase(rng, t.slice[a:b]) if chance(rng, .7) else t.slice[a:b]
    pieces.append(vlib.make_var(rng, full, data[tuple(sl)], name='T'))
  mon.context.append('%s cut at %s; units %s start %s' % (vlib.describe(pieces[0]), cuts, [p.axes[ax].units for p in pieces], [dict(p.axes[ax].startdate) for p in pieces]))
  w = join(mon, rng, pieces, choice(rng, [None, ax, 'time']), 'concat times')
  mon.hit('rebased_times')
  got = mon.op('get', lambda: w.get())
  mon.same(got, data, 'times', 'concatenated time series', sig=('times', k, len(pieces), tuple(p.axes[ax].units for p in pieces)))
  conserve(mon, got, [data], 'times')
  mon.check(type(w.axes[ax]) is type(t) and fields(w.axes[ax]) == fields(t), 'time-axis', lambda: 'dates %s expected %s' % (fields(w.axes[ax]), fields(t)))
  mon.check(w.axes[ax] == t, 'time-axis-equal', lambda: 'time axis %s is not equal to the original %s' % (w.axes[ax], t))
  requests(rng, mon, w, data, 'times')

def k_permuted(rng, mon):
  """Pieces whose other axes list the same coordinates in another order (matched by coordinate), or lack some (refused)."""
  kinds = ['XAxis', 'NamedAxis', 'Lat', 'Lon', 'Pres', 'Height', 'StandardTime']
  nd = int(choice(rng, [2, 2, 3]))
  axes = vlib.make_axes(rng, nd, kinds=kinds, nmax=5, nmin=2); nd = len(axes)
  ax = int(rng.integers(0, nd)); N = len(axes[ax]); c = int(rng.integers(1, N)) if N > 1 else 1
  data = unique_data(rng, [len(a) for a in axes], 'd')
  o = choice(rng, [q for q in range(nd) if q != ax])
  extra = choice(rng, ['perm', 'perm', 'superset', 'lacking'])
  sl1 = [slice(None)] * nd; sl1[ax] = slice(0, c); sl2 = [slice(None)] * nd; sl2[ax] = slice(c, N)
  p1 = vlib.make_var(rng, [a.slice[s] for a, s in zip(axes, sl1)], data[tuple(sl1)], name='T')
  full2 = [a.slice[s] for a, s in zip(axes, sl2)]; d2 = data[tuple(sl2)]
  m = len(axes[o])
  if extra == 'lacking': p = rng.permutation(m)[:max(1, m - 1)]
  else: p = rng.permutation(m)
  full2[o] = full2[o].slice[[int(q) for q in p]]; d2 = np.take(d2, p, axis=o)
  if extra == 'superset':     # the first piece lacks some: its coordinates are what counts
    keep = np.sort(rng.permutation(m)[:max(1, m - 1)])
    s = [slice(None)] * nd; s[o] = [int(q) for q in keep]
    p1 = vlib.make_var(rng, [a.slice[q] for a, q in zip(p1.axes, s)], np.take(data[tuple(sl1)], keep, axis=o), name='T')
    data = np.take(data, keep, axis=o)
  p2 = vlib.make_var(rng, full2, d2, name='T')
  mon.context.append('%s and %s (%s along %s), joined along %s' % (vlib.describe(p1), vlib.describe(p2), extra, axes[o].name, axes[ax].name))
  if N < 2: return
  if extra == 'lacking':
    if m < 2: return
    mon.hit('refusals')
    mon.raises(lambda: join(mon, rng, [p1, p2], ax).get(), 'lacking', 'concatenation with a piece that lacks coordinates of another axis'); return
  mon.hit('permuted')
  w = join(mon, rng, [p1, p2], ax)
  mon.same(mon.op('get permuted', lambda: w.get()), data, 'permuted', 'pieces with permuted axes', sig=('permuted', extra, type(axes[o]).__name__, nd))
  requests(rng, mon, w, data, 'permuted', 1)

def k_newaxis(rng, mon):
  nd = int(choice(rng, [1, 2, 3])); axes = vlib.make_axes(rng, nd, nmax=4); n = int(rng.integers(2, 5))
  datas = [unique_data(rng, [len(a) for a in axes], 'd') for _ in range(n)]
  pieces = [vlib.make_var(rng, axes, d, name='T') for d in datas]
  mon.context.append('%d variables %s with identical axes' % (n, vlib.describe(pieces[0]))); mon.hit('new_axis')
  w = join(mon, rng, pieces)
  want = np.stack(datas, axis=-1)
  got = mon.op('get stacked', lambda: w.get())
  mon.same(got, want, 'new-axis', 'stack along a new axis', sig=('newaxis', nd, n)); conserve(mon, got, datas, 'newaxis')
  mon.check(w.axes[-1].name == 'concat' and list(w.axes[-1].values) == list(range(n)) and all(a == b for a, b in zip(w.axes, axes)), 'new-axis-axes', lambda: 'axes %s' % (w.axes,))
  requests(rng, mon, w, want, 'new-axis', 1)

def k_ensemble(rng, mon):
  from pygeode.ensemble import ensemble
  nd = int(choice(rng, [0, 1, 2, 3])); axes = vlib.make_axes(rng, nd, nmax=4, kinds=[k for k in vlib.AXIS_KINDS if k != 'Index']); n = int(rng.integers(1, 5))
  dts = [choice(rng, ['d', 'd', 'f', 'i4', 'i2']) for _ in range(n)] if chance(rng, .5) else ['d'] * n
  if len(set(dts)) > 1: mon.hit('mixed_dtypes')
  datas = [unique_data(rng, [len(a) for a in axes], dt) for dt in dts]
  datas = [np.asarray(d + .5, d.dtype) if d.dtype.kind == 'f' else d for d in datas]
  pieces = [vlib.make_var(rng, axes, d, name='T', atts={'units': 'K', 'run': q}) for q, d in enumerate(datas)]
  mon.context.append('ensemble of %d: %s %s' % (n, vlib.describe(pieces[0]), dts)); mon.hit('ensembles')
  w = mon.op('ensemble', lambda: ensemble(*pieces))
  want = np.stack([d.astype(np.result_type(*dts)) for d in datas], axis=0)
  got = mon.op('get ensemble', lambda: w.get())
  mon.same(got, want, 'ensemble', lambda: 'ensemble of %s' % dts, sig=('ensemble', nd, n, str(dts), tuple(type(p).__name__ for p in pieces)))
  mon.check(np.asarray(got).dtype == w.dtype == want.dtype, 'ensemble-dtype', lambda: 'dtype %s, members %s' % (w.dtype, dts))
  mon.check(w.name == 'T' and w.axes[0].name == 'ensemble' and list(w.axes[0].values) == list(range(n)) and all(a == b for a, b in zip(w.axes[1:], axes)), 'ensemble-axes', lambda: 'axes %s' % (w.axes,))
  mon.check(w.atts.get('units') == 'K' and ('run' in w.atts) == (n == 1), 'ensemble-atts', lambda: 'atts %s' % w.atts)
  requests(rng, mon, w, want, 'ensemble', 2)
  j = int(rng.integers(0, n))
  mon.same(mon.op('member', lambda: w(i_ensemble=j).squeeze('ensemble').get()), want[j], 'ensemble-member', lambda: 'member %d' % j)

def dsets(rng, nvar, n, ax):
  """n datasets of nvar variables cut along a common axis"""
  import pygeode as pyg
  t = vlib.make_axis(rng, ax, int(rng.integers(n, 9)))
  N = len(t); cuts = [0] + sorted(int(x) for x in rng.permutation(np.arange(1, N))[:n - 1]) + [N]
  pool = vlib.make_axes(rng, 2, kinds=['YAxis', 'Pres'], nmax=4)
  vs = []
  for q in range(nvar):
    own = [pool[p] for p in vlib.perm(rng, 2)[:int(rng.integers(0, 3))]]
    pos = int(rng.integers(0, len(own) + 1)); own = own[:pos] + [t] + own[pos:]
    vs.append(('v%d' % q, own, pos, unique_data(rng, [len(a) for a in own], 'd')))
  out = []
  for k, (a, b) in enumerate(zip(cuts[:-1], cuts[1:])):
    vars = []
    for nm, own, pos, d in vs:
      sl = [slice(None)] * len(own); sl[pos] = slice(a, b)
      vars.append(vlib.make_var(rng, [x.slice[s] for x, s in zip(own, sl)], d[tuple(sl)], name=nm, atts={'units': 'K'}))
    out.append(pyg.Dataset(vars, atts={'title': 'x', 'piece': k}))
  return t, vs, out

def k_dataset(rng, mon):
  import pygeode as pyg
  n = int(rng.integers(2, 4)); nv = int(rng.integers(1, 4))
  t, vs, ds = dsets(rng, nv, n, choice(rng, ['XAxis', 'NamedAxis', 'Lon', 'StandardTime', 'ModelTime365']))
  lone = None
  if chance(rng, .3):     # a variable found in one of them only
    q = int(rng.integers(0, n)); lone = unique_data(rng, [3], 'd')
    ds[q] = ds[q].add(vlib.make_var(rng, [vlib.make_axis(rng, 'Height', 3)], lone, name='lone'))
  mon.context.append('%d datasets of %s' % (n, [(nm, [a.name for a in own]) for nm, own, _, _ in vs])); mon.hit('datasets')
  from pygeode.dataset import concat
  w = mon.op('concat datasets', (lambda: concat(*ds)) if chance(rng, .5) else (lambda: concat(list(ds))))
  mon.check([v.name for v in w.vars if v.name != 'lone'] == [nm for nm, _, _, _ in vs], 'ds-names', lambda: 'variables %s' % [v.name for v in w.vars])
  mon.check(w.atts == {'title': 'x'}, 'ds-atts', lambda: 'attributes %s' % w.atts)
  for nm, own, pos, d in vs:
    mon.same(mon.op('get', lambda: w[nm].get()), d, 'ds-values', lambda: 'variable %s' % nm, sig=('dataset', n, len(own), pos, type(t).__name__))
    mon.check(all(a == b for a, b in zip(w[nm].axes, own)), 'ds-axes', lambda: 'axes of %s: %s' % (nm, w[nm].axes))
    requests(rng, mon, w[nm], d, 'ds', 1)
  if lone is not None: mon.same(mon.op('get', lambda: w['lone'].get()), lone, 'ds-values', 'variable lone')

def k_ensemble_ds(rng, mon):
  import pygeode as pyg
  from pygeode.ensemble import ensemble
  n = int(rng.integers(2, 4)); axes = vlib.make_axes(rng, 2, nmax=4, kinds=['XAxis', 'Lat', 'Pres', 'StandardTime'])
  D = []; names = ['a', 'b', 'c'][:int(rng.integers(1, 4))]; members = []
  for q in range(n):
    d = {nm: unique_data(rng, [len(a) for a in axes[k % 2:]], 'd') for k, nm in enumerate(names)}; D.append(d)
    vs = [vlib.make_var(rng, axes[k % 2:], d[nm], name=nm) for k, nm in enumerate(names)]
    members.append(pyg.Dataset([vs[p] for p in (vlib.perm(rng, len(vs)) if q else range(len(vs)))], atts={'title': 'x', 'run': q}))
  mon.context.append('ensemble of %d datasets %s' % (n, names)); mon.hit('ensembles')
  w = mon.op('ensemble datasets', lambda: ensemble(*members))
  mon.check([v.name for v in w.vars] == names, 'ens-names', lambda: 'variables %s' % [v.name for v in w.vars])
  mon.check(w.atts == {'title': 'x'}, 'ens-atts', lambda: 'attributes %s' % w.atts)
  for nm in names:
    want = np.stack([d[nm] for d in D])
    mon.same(mon.op('get', lambda: w[nm].get()), want, 'ens-values', lambda: 'variable %s' % nm, sig=('ens_ds', n, len(names)))
    requests(rng, mon, w[nm], want, 'ens', 1)
  mon.check(all(m.atts == {'title': 'x', 'run': q} for q, m in enumerate(members)), 'ens-inputs', 'the datasets were changed')

def k_refuse(rng, mon):
  from pygeode.concat import concat
  from pygeode.axis import XAxis, YAxis, Lat, Lon, Pres
  mon.hit('refusals')
  f = lambda axes: vlib.make_var(rng, axes, unique_data(rng, [len(a) for a in axes], 'd'), name='T')
  x, y = vlib.distinct_sorted(rng, 4, 0., 40.), vlib.distinct_sorted(rng, 3, 0., 40.)
  k = choice(rng, ['two', 'naxes', 'kind', 'some', 'order', 'dataset'])
  if k == 'two': v = [f([XAxis(x), YAxis(y)]), f([XAxis(x + 50), YAxis(y + 1)])]
  elif k == 'naxes': v = [f([XAxis(x), YAxis(y)]), f([XAxis(x + 50)])]
  elif k == 'kind': v = [f([Lon(x), Pres(y + 1)]), f([Lat(x), Pres(y + 1)])]
  elif k == 'some': v = [f([XAxis(x), YAxis(y)]), f([XAxis(x), YAxis(y)]), f([XAxis(x + 1), YAxis(y)])]
  elif k == 'order': v = [f([Lon(x), Lat(y)]), f([Lat(y + 45), Lon(x)])]
  else:
    import pygeode as pyg
    v = [f([XAxis(x)]), pyg.Dataset([f([XAxis(x + 50)])])]
  mon.context.append('refusal: ' + k)
  mon.raises(lambda: concat(*v).get(), 'refuse:' + k, 'concatenation of variables which disagree (%s)' % k)

def k_refuse_ens(rng, mon):
  import pygeode as pyg
  from pygeode.ensemble import ensemble
  from pygeode.axis import XAxis, YAxis, Lat, Lon, Pres
  mon.hit('refusals')
  f = lambda axes, nm='T': vlib.make_var(rng, axes, unique_data(rng, [len(a) for a in axes], 'd'), name=nm)
  x, y = vlib.distinct_sorted(rng, 4, 0., 40.), vlib.distinct_sorted(rng, 4, 0., 40.)
  k = choice(rng, ['coords', 'order', 'kind', 'naxes', 'names', 'dsnames', 'reversed'])
  if k == 'coords': v = [f([XAxis(x)]), f([XAxis(x + 1)])]
  elif k == 'order': v = [f([Lon(x), Lat(y)]), f([Lat(y), Lon(x)])]
  elif k == 'kind': v = [f([Lon(x)]), f([Lat(x)])]
  elif k == 'naxes': v = [f([XAxis(x)]), f([XAxis(x), YAxis(y)])]
  elif k == 'names': v = [f([XAxis(x)]), f([XAxis(x)], 'other')]
  elif k == 'reversed': v = [f([XAxis(x)]), f([XAxis(x[::-1])])]
  else: v = [pyg.Dataset([f([XAxis(x)]), f([XAxis(x)], 'a')]), pyg.Dataset([f([XAxis(x)])])]
  mon.context.append('refusal: ' + k)
  mon.raises(lambda: ensemble(*v), 'refuse-ensemble:' + k, 'ensemble of variables which disagree (%s)' % k)

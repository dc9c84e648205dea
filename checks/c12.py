"""C12: climatologies and period means use each time sample exactly once."""
N_QUICK = 7000
N_THOROUGH = 250000
BUDGET_QUICK = 100
BUDGET_THOROUGH = 700
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: every output of a time average is compared with the definition over exactly the samples whose calendar fields (from an independent calendar) share its period; a conservation monitor checks that the counts add up to the samples'
RULE = ('a case is one time-averaging operation (or a trend, detrending, anomaly, or chain of two averages) on a random series: calendar, sampling, gaps, order, NaN pattern, dtype, axis position, memory limit; then parts of the result; '
        'non-trivial: at least two samples share a period or there are at least two periods; distinct by (operation, calendar, sampling, dtype, axis position, NaN pattern, memory limit)')
REQUIRE = {'averages': 2500, 'periods': 20000, 'shared_periods': 5000, 'counts': 500, 'trends': 250, 'detrended': 250, 'parts': 2500, 'unordered': 200, 'nan_periods': 300, 'seasons': 500, 'limited': 1500, 'anomalies': 150, 'chains': 150, 'refusals': 60}
ASSUMPTIONS = ['numpy is correct', 'the tolerances are the rounding bounds of single-pass sums in the precision of the result', 'times along one axis are distinct']
import numpy as np
import vlib
from vlib import choice, chance

CUM = np.array([0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365])
U = {'days': 86400, 'hours': 3600, 'minutes': 60, 'seconds': 1}
FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second')
CALS = ['StandardTime', 'StandardTime', 'ModelTime365', 'ModelTime360', 'Yearless']
PERIODS = ['clim', 'daily', 'monthly', 'yearly', 'diurnal', 'seasonal']
NAMES = {'mean': dict(clim='climatology', daily='dailymean', monthly='monthlymean', yearly='yearlymean', diurnal='diurnalmean', seasonal='seasonalmean'),
  'nanmean': dict(clim='nanclimatology', daily='dailynanmean', monthly='monthlynanmean', yearly='yearlynanmean', diurnal='diurnalnanmean', seasonal='seasonalnanmean'),
  'stdev': dict(clim='climstdev', daily='dailystdev', monthly='monthlystdev', yearly='yearlystdev', diurnal='diurnalstdev', seasonal='seasonalstdev'),
  'nanstdev': dict(clim='climnanstdev', daily='dailynanstdev', monthly='monthlynanstdev', yearly='yearlynanstdev', diurnal='diurnalnanstdev', seasonal='seasonalnanstdev'),
  'count': dict(clim='climcount', daily='dailycount', monthly='monthlycount', yearly='yearlycount', diurnal='diurnalcount', seasonal='seasonalcount')}

# ---------------------------------------------------------------- reference calendars
def days_from_civil(y, m, d):
  y = np.where(m <= 2, y - 1, y)
  era = y // 400; yoe = y - era * 400
  mp = (m + 9) % 12
  return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + (153 * mp + 2) // 5 + d - 1

def civil_from_days(z):
  era = z // 146097; doe = z - era * 146097
  yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
  doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
  mp = (5 * doy + 2) // 153
  m = np.where(mp < 10, mp + 3, mp - 9)
  return yoe + era * 400 + (m <= 2), m, doy - (153 * mp + 2) // 5 + 1

def daynum(cal, y, m, d):
  y = np.asarray(y, 'i8'); m = np.asarray(m, 'i8'); d = np.asarray(d, 'i8')
  if cal == 'StandardTime': return days_from_civil(y, m, d)
  if cal == 'ModelTime365': return y * 365 + CUM[m - 1] + d - 1
  if cal == 'ModelTime360': return y * 360 + (m - 1) * 30 + d - 1
  return d

def fields(cal, s):
  s = np.asarray(s, 'i8'); z = s // 86400; r = s - z * 86400
  f = dict(hour=r // 3600, minute=r // 60 % 60, second=r % 60)
  if cal == 'StandardTime': f['year'], f['month'], f['day'] = civil_from_days(z)
  elif cal == 'ModelTime365': f['year'] = z // 365; q = z - f['year'] * 365; f['month'] = np.searchsorted(CUM, q, side='right'); f['day'] = q - CUM[f['month'] - 1] + 1
  elif cal == 'ModelTime360': f['year'] = z // 360; q = z - f['year'] * 360; f['month'] = q // 30 + 1; f['day'] = q % 30 + 1
  else: f['day'] = z
  return f

def allowed(cal): return FIELDS if cal != 'Yearless' else FIELDS[2:]

def keyfields(period, have):
  """The fields which define a period, of those the axis has; None if the operation does not apply."""
  have = list(have)
  if period == 'clim': k = [q for q in have if q != 'year']
  elif period == 'diurnal': k = [q for q in have if q not in ('year', 'month', 'day')]
  elif period == 'daily': k = [q for q in have if q in ('year', 'month', 'day')]; k = k if 'day' in k else []
  elif period == 'monthly': k = [q for q in have if q in ('year', 'month')]; k = k if 'month' in k else []
  elif period == 'yearly': k = ['year'] if 'year' in have else []
  else: return ['year', 'season']
  return k or None

def keys(period, f, kf):
  if period == 'seasonal':
    y = f['year'] + (f['month'] == 12); q = f['month'] % 12 // 3 + 1
    return [(int(a), int(b)) for a, b in zip(y, q)]
  return [tuple(int(f[k][j]) for k in kf) for j in range(len(f[kf[0]]))]

# ---------------------------------------------------------------- generation
def times(rng, cal):
  """Distinct instants, and what they look like."""
  y0 = int(choice(rng, [1999, 1896, 2003, int(rng.integers(1, 3000)), int(rng.integers(-20, 50))]))
  lo = int(daynum(cal, y0, int(rng.integers(1, 13)), 1)) * 86400 if cal != 'Yearless' else int(rng.integers(0, 400)) * 86400
  kind = choice(rng, ['6h', 'daily', 'daily', 'monthly', 'hourly', 'irregular', 'pentad', 'days of years', 'yearly', 'boundary', 'one'])
  if cal == 'Yearless' and kind in ('monthly', 'days of years', 'yearly', 'boundary'): kind = 'irregular'
  if kind == '6h': s = lo + np.arange(int(rng.integers(2, 200))) * 21600
  elif kind == 'hourly': s = lo + np.arange(int(rng.integers(2, 100))) * 3600 * int(choice(rng, [1, 1, 3])) + int(choice(rng, [0, 0, 1800]))
  elif kind == 'daily': s = lo + np.arange(int(rng.integers(2, 900))) * 86400 + int(choice(rng, [0, 0, 43200]))
  elif kind == 'pentad': s = lo + np.arange(int(rng.integers(2, 300))) * 86400 * 5
  elif kind == 'irregular': s = lo + np.sort(rng.choice(3000, int(rng.integers(2, 150)), replace=False)) * int(choice(rng, [3600, 86400, 7200, 86400 * 11]))
  elif kind == 'one': s = np.array([lo])
  elif kind == 'boundary':   # around the ends of months and years
    b = np.array([int(daynum(cal, y0 + k, m, 1)) for k in range(int(rng.integers(1, 6))) for m in (1, 3, 6, 9, 12)]) * 86400
    s = np.unique(np.concatenate([b, b - 1, b - 86400, b + 43200]))
  elif kind == 'monthly':
    n = int(rng.integers(2, 80)); m0 = int(rng.integers(0, 12)); q = m0 + np.arange(n)
    s = np.asarray(daynum(cal, y0 + q // 12, q % 12 + 1, int(rng.integers(1, 29)))) * 86400
  elif kind == 'yearly': s = np.asarray(daynum(cal, y0 + np.arange(int(rng.integers(2, 40))), 1, 1)) * 86400
  else:
    ny = int(rng.integers(2, 8)); d = np.sort(rng.choice(360, int(rng.integers(1, 30)), replace=False))
    s = np.concatenate([int(daynum(cal, y0 + k, 1, 1)) + d for k in range(ny)]) * 86400
  if len(s) > 3 and chance(rng, .25): s = s[np.sort(rng.choice(len(s), int(rng.integers(2, len(s))), replace=False))]; kind += ' gaps'
  r = rng.random()
  if r < .1 and len(s) > 1: s = s[::-1].copy(); kind += ' reversed'
  elif r < .2 and len(s) > 1: s = rng.permutation(s); kind += ' shuffled'
  return s, kind

def axis(rng, cal, s):
  from pygeode import timeaxis as T
  C = getattr(T, cal); f = fields(cal, s)
  units = choice(rng, list(U))
  how = choice(rng, ['values', 'values', 'fields'])
  if how == 'fields':
    kw = {k: f[k].astype('i4') for k in allowed(cal)}
    if chance(rng, .5): kw['startdate'] = {k: int(f[k].min() if k == 'year' else 1) for k in ('year', 'month', 'day') if k in allowed(cal)}
    return C(units=units, **kw)
  if cal == 'Yearless': ref = {'day': int(rng.integers(0, 100))}; b = ref['day'] * 86400
  else:
    ref = {'year': int(choice(rng, [1, 1900, int(f['year'].min())])), 'month': int(rng.integers(1, 13)), 'day': int(rng.integers(1, 28))}
    b = int(daynum(cal, ref['year'], ref['month'], ref['day'])) * 86400
  return C(values=(s - b) / float(U[units]), units=units, startdate=ref)

def series(rng, cal, big=False):
  s, kind = times(rng, cal)
  ax = axis(rng, cal, s)
  k = int(choice(rng, [0, 1, 1, 2])); o = vlib.make_axes(rng, k, kinds=['Lat', 'Lon', 'Pres', 'NamedAxis', 'Height'], nmax=3)
  p = int(rng.integers(0, len(o) + 1)); axes = o[:p] + [ax] + o[p:]
  return s, kind, ax, axes, p

def reference(op, x, nanop):
  """x: (points, samples)"""
  if op == 'count': return np.sum(~np.isnan(x), axis=1).astype('d')
  out = np.empty(len(x))
  for k, a in enumerate(x):
    if nanop: a = a[~np.isnan(a)]
    n = len(a)
    if op == 'mean': out[k] = a.mean() if n else np.nan
    else: out[k] = np.sqrt(((a - a.mean()) ** 2).sum() / (n - 1)) if n > 1 else np.nan
  return out

def case(rng, i, mon):
  mon.context[:] = []
  kind = ['average', 'average', 'average', 'average', 'trend', 'anomaly', 'average', 'chain', 'average', 'refuse'][i % 10]
  globals()['k_' + kind](rng, mon)

def data_for(rng, shape, dt):
  data = vlib.make_values(rng, shape, dt)
  if np.dtype(dt).kind != 'f': return data, 'none'
  r = rng.random(); nan = 'none'
  if r < .25: data[rng.random(shape) < .3] = np.nan; nan = 'some'
  elif r < .32: data[rng.random(shape) < .9] = np.nan; nan = 'most'
  elif r < .36: data[...] = np.nan; nan = 'all'
  elif r < .45: data = (data + choice(rng, [300., -1000.])).astype(dt); nan = 'offset'
  elif r < .5: data[...] = choice(rng, [0., 1.1, 288.15]); nan = 'constant'
  return data, nan

def moved(a, p): return np.moveaxis(a, p, -1).reshape(-1, a.shape[p])

def k_average(rng, mon):
  import pygeode as pyg
  cal = choice(rng, CALS)
  s, kind, ax, axes, p = series(rng, cal)
  op = choice(rng, sorted(NAMES)); per = choice(rng, PERIODS)
  if per == 'seasonal' and cal in ('ModelTime360', 'Yearless'): cal = None
  have = allowed(cal) if cal else ()
  kf = keyfields(per, have) if cal else None
  if not kf: mon.ev(); return
  f = fields(cal, s); ks = keys(per, f, kf); uk = sorted(set(ks))
  shape = [len(a) for a in axes]
  dt = choice(rng, ['d', 'd', 'd', 'f', 'f', 'i4', 'i2'])
  data, nan = data_for(rng, shape, dt)
  name = choice(rng, ['T', 'T', ''])
  v = vlib.make_var(rng, axes, data, name=name, atts={'units': 'K'})
  fn = NAMES[op][per]; lim = choice(rng, [None, None, 1, 5, 40, 300])
  if lim and np.prod(shape) / lim > 400: lim = 300
  mon.context[:] = ['%s of %s axis %d, %s %s, dtype %s nan %s, limit %s' % (fn, vlib.describe(v), p, cal, kind, dt, nan, lim)]; mon.sample(mon.context[0])
  groups = [np.array([q for q in range(len(s)) if ks[q] == u]) for u in uk] if len(uk) < 40 else None
  if groups is None:
    d = {}
    for q, k in enumerate(ks): d.setdefault(k, []).append(q)
    groups = [np.array(d[u]) for u in uk]
  x = moved(data.astype('d'), p)
  b = op.replace('nan', '')
  ref = np.stack([reference(b, x[:, g], op.startswith('nan')) for g in groups], axis=-1)
  want = np.moveaxis(ref.reshape([q for j, q in enumerate(shape) if j != p] + [len(uk)]), -1, p)
  e = 1.2e-7 if dt == 'f' else 2.3e-16
  nmax = max(len(g) for g in groups); mx = float(np.nanmax(np.abs(x), initial=0.)) + 1e-300
  at = {'mean': 10 * e * mx * nmax, 'count': 0., 'stdev': None}[b]
  if b == 'stdev': at = 0.; v2 = 40 * e * nmax * mx * mx    # error of the variance
  old = pyg.MAX_ARRAY_SIZE
  sig = (fn, cal, kind, dt, p, len(shape), nan, lim) if len(s) > 1 else ()
  def same(got, want, key):
    if b != 'stdev': return mon.same(got, want, key, mon.context[0], atol=at, sig=sig)
    # compare the variances, where the rounding error is bounded
    return mon.same(np.asarray(got, 'd') ** 2, want ** 2, key, mon.context[0] + ' (variance)', atol=v2, rtol=1e-6 if dt == 'f' else 1e-12, sig=sig)
  try:
    if lim: pyg.MAX_ARRAY_SIZE = lim; mon.hit('limited')
    r = mon.op(fn, lambda: getattr(pyg, fn)(v) if chance(rng, .5) else getattr(v, fn)())
    t = r.axes[p]
    kk = kf
    hv = [tuple(int(t.auxarrays[k][q]) for k in kk if k in t.auxarrays) for q in range(len(t))]
    ok = mon.check(set(t.auxarrays) == set(kk) and hv == uk, 'periods', 'output periods %s: %s, expected %s: %s' % (sorted(t.auxarrays), hv[:10], kk, uk[:10]), *sig)
    mon.hit('averages'); mon.hit('periods', len(uk)); mon.hit('shared_periods', sum(1 for g in groups if len(g) > 1))
    if per == 'seasonal': mon.hit('seasons', len(uk))
    mon.check(all(a is c for j, (a, c) in enumerate(zip(r.axes, v.axes)) if j != p) and len(r.axes) == len(axes) and r.atts.get('units') == 'K', 'others', 'other axes or attributes changed: %s' % (r.axes,), *sig)
    mon.check((not name and not r.name) or r.name.startswith(name + '_'), 'name', 'name %r of the result for %r' % (r.name, name), *sig)
    got = mon.op(fn + ':get', lambda: r.get())
    mon.check(got.dtype == r.dtype and r.dtype == (np.dtype(dt) if np.dtype(dt).kind == 'f' else np.dtype('d')), 'dtype', 'result is %s, declared %s, input %s' % (got.dtype, r.dtype, dt), *sig)
    if not ok: return
    same(got, want, 'value:' + fn)
    mon.hit('nan_periods', int(np.isnan(want).any(axis=tuple(j for j in range(want.ndim) if j != p)).sum()))
    if op == 'count':
      mon.hit('counts'); mon.same(np.asarray(got).sum(axis=p), np.sum(~np.isnan(data.astype('d')), axis=p), 'conservation', 'counts do not add up to the number of valid samples', sig=sig)
    # distinct, increasing times where the fields form a date
    if kf[0] == allowed(cal)[0] and per != 'seasonal' or per == 'seasonal': mon.check(bool((np.diff(np.asarray(t.values, 'd')) > 0).all()), 'order', 'output times not increasing: %s' % t.values, *sig)
    for _ in range(2):
      sels = [vlib.random_selector(rng, m) for m in r.shape]
      w = mon.op('slice', lambda: r.slice[tuple(q for q, _ in sels)])
      mon.hit('parts')
      same(mon.op(fn + ':part', lambda: w.get()), vlib.fullsel(want, [q for _, q in sels]), 'part:' + fn)
    # periods by calendar field
    k = choice(rng, kk); u = choice(rng, uk)[list(kk).index(k)]
    w = mon.op('select', lambda: r(**{k: u}))
    m = [q for q, a in enumerate(uk) if a[list(kk).index(k)] == u]
    same(np.asarray(mon.op('select:get', lambda: w.get())).reshape([len(m) if j == p else q for j, q in enumerate(want.shape)]), np.take(want, m, axis=p), 'select')
  finally: pyg.MAX_ARRAY_SIZE = old
  if 'shuffled' in kind or 'reversed' in kind: mon.hit('unordered')

def k_anomaly(rng, mon):
  import pygeode as pyg
  cal = choice(rng, CALS[:4]); s, kind, ax, axes, p = series(rng, cal)
  per = choice(rng, ['clim', 'daily', 'monthly', 'yearly']) 
  kf = keyfields(per, allowed(cal)); f = fields(cal, s); ks = keys(per, f, kf); uk = sorted(set(ks))
  data = vlib.make_values(rng, [len(a) for a in axes], 'd'); v = vlib.make_var(rng, axes, data, name='T')
  fn = NAMES['mean'][per]
  mon.context[:] = ['%s minus its %s, %s %s' % (vlib.describe(v), fn, cal, kind)]
  # the climatology is matched to the series by its calendar fields
  r = mon.op(fn, lambda: v - getattr(v, fn)())
  x = np.moveaxis(data, p, 0); want = np.empty_like(x)
  idx = {u: [q for q in range(len(s)) if ks[q] == u] for u in uk} if len(uk) * len(s) < 40000 else None
  if idx is None:
    idx = {}
    for q, k in enumerate(ks): idx.setdefault(k, []).append(q)
  for u in uk: want[idx[u]] = x[idx[u]] - x[idx[u]].mean(axis=0)
  want = np.moveaxis(want, 0, p); mon.hit('anomalies')
  sig = ('anomaly', fn, cal, kind, p)
  if not mon.check(r.shape == data.shape, 'anomaly', 'shape %s' % (r.shape,), *sig): return
  order = ax.map_to(r.axes[p]) if not (r.axes[p] == ax) else np.arange(len(s))
  mon.same(mon.op('get', lambda: r.get()), np.take(want, order, axis=p), 'anomaly', 'series minus %s' % fn, atol=1e-10, sig=sig)
  sels = [vlib.random_selector(rng, m) for m in r.shape]
  w = r.slice[tuple(q for q, _ in sels)]
  mon.hit('parts'); mon.same(mon.op('part', lambda: w.get()), vlib.fullsel(np.take(want, order, axis=p), [q for _, q in sels]), 'anomaly:part', 'part', atol=1e-10, sig=sig)

def k_chain(rng, mon):
  """One average of another: the second sees only the fields the first keeps."""
  import pygeode as pyg
  cal = choice(rng, CALS[:4]); s, kind, ax, axes, p = series(rng, cal)
  f = fields(cal, s)
  a, b = choice(rng, [('daily', 'clim'), ('monthly', 'clim'), ('monthly', 'yearly'), ('daily', 'monthly'), ('clim', 'diurnal'), ('clim', 'monthly'), ('clim', 'daily'), ('daily', 'yearly')])
  kfa = keyfields(a, allowed(cal)); kfb = keyfields(b, kfa)
  if not kfb: mon.ev(); return
  ka = keys(a, f, kfa); ua = sorted(set(ka)); kb = [tuple(k[kfa.index(q)] for q in kfb) for k in ua]; ub = sorted(set(kb))
  data = vlib.make_values(rng, [len(q) for q in axes], 'd'); v = vlib.make_var(rng, axes, data, name='T')
  na, nb = NAMES['mean'][a], NAMES[choice(rng, ['mean', 'nanmean'])][b]
  mon.context[:] = ['%s of %s of %s, %s %s' % (nb, na, vlib.describe(v), cal, kind)]
  x = np.moveaxis(data, p, 0); d = {}
  for q, k in enumerate(ka): d.setdefault(k, []).append(q)
  y = np.stack([x[d[u]].mean(axis=0) for u in ua]); d = {}
  for q, k in enumerate(kb): d.setdefault(k, []).append(q)
  want = np.moveaxis(np.stack([y[d[u]].mean(axis=0) for u in ub]), 0, p)
  old = pyg.MAX_ARRAY_SIZE
  try:
    if chance(rng, .5) and data.size < 2000: pyg.MAX_ARRAY_SIZE = int(choice(rng, [30, 300])); mon.hit('limited')
    r = mon.op('chain', lambda: getattr(getattr(v, na)(), nb)())
    t = r.axes[p]; hv = [tuple(int(t.auxarrays[k][q]) for k in kfb) for q in range(len(t))] if set(t.auxarrays) == set(kfb) else sorted(t.auxarrays)
    sig = ('chain', na, nb, cal, kind, p); mon.hit('chains')
    if not mon.check(hv == ub, 'periods', 'output periods %s, expected %s %s' % (hv[:8], kfb, ub[:8]), *sig): return
    mon.same(mon.op('get', lambda: r.get()), want, 'chain', mon.context[0], atol=1e-10, sig=sig)
    sels = [vlib.random_selector(rng, m) for m in r.shape]
    w = r.slice[tuple(q for q, _ in sels)]
    mon.hit('parts'); mon.same(mon.op('part', lambda: w.get()), vlib.fullsel(want, [q for _, q in sels]), 'chain:part', 'part', atol=1e-10, sig=sig)
  finally: pyg.MAX_ARRAY_SIZE = old

def k_trend(rng, mon):
  import pygeode as pyg
  from pygeode import climat
  cal = choice(rng, CALS[:4])
  # several years of the same dates
  y0 = int(rng.integers(1, 2500)); ny = int(rng.integers(2, 12)); nd = int(rng.integers(1, 20))
  d = np.sort(rng.choice(np.arange(0, 58) if chance(rng, .5) else np.arange(60, 350), nd, replace=False))
  if cal == 'StandardTime': 
    md = [civil_from_days(np.array(int(daynum('StandardTime', 2001, 1, 1)) + q)) for q in d]
    s = np.concatenate([[int(daynum(cal, y0 + k, int(m), int(dd))) for _, m, dd in md] for k in range(ny)]) * 86400
  else: s = np.concatenate([int(daynum(cal, y0 + k, 1, 1)) + d for k in range(ny)]) * 86400
  ax = axis(rng, cal, s)
  k = int(choice(rng, [0, 1, 1, 2])); o = vlib.make_axes(rng, k, kinds=['Lat', 'Lon', 'Pres', 'NamedAxis'], nmax=3)
  p = int(rng.integers(0, len(o) + 1)); axes = o[:p] + [ax] + o[p:]; shape = [len(a) for a in axes]
  n = len(s)
  dt = choice(rng, ['d', 'd', 'i4'])
  sec = np.asarray(s - int(round(0)), 'd')
  # relative to the axis' reference date
  sd = {q: int(np.ravel(w)[0]) for q, w in ax.startdate.items()}
  b0 = int(daynum(cal, sd.get('year', 0), sd.get('month', 1), sd.get('day', 1))) * 86400 + sd.get('hour', 0) * 3600 + sd.get('minute', 0) * 60 + sd.get('second', 0)
  tt = (s - b0).astype('d')
  lin = chance(rng, .5)
  f = fields(cal, s); kf = keyfields('clim', allowed(cal)); ks = keys('clim', f, kf); uk = sorted(set(ks))
  bin_ = np.array([uk.index(q) for q in ks])
  osh = [len(a) for a in o]
  if lin:
    A = rng.normal(size=osh + [len(uk)]) * 1e-7; B = rng.normal(size=osh + [len(uk)]) * 10
    x = A[..., bin_] * tt + B[..., bin_]; data = np.moveaxis(x, -1, p); dt = 'd'
  else:
    data = vlib.make_values(rng, shape, dt)
    if dt == 'd' and chance(rng, .2): data[rng.random(shape) < .05] = np.nan
    x = np.moveaxis(data.astype('d'), p, -1)
  v = vlib.make_var(rng, axes, data, name='T')
  mon.context[:] = ['climtrend of %s axis %d, %s, %d years of %d dates, %s' % (vlib.describe(v), p, cal, ny, nd, 'linear' if lin else 'random')]
  old = pyg.MAX_ARRAY_SIZE; sig = ('trend', cal, p, len(shape), lin, dt, ny > 2)
  try:
    if chance(rng, .4) and data.size < 1500: pyg.MAX_ARRAY_SIZE = int(choice(rng, [20, 100])); mon.hit('limited')
    r = mon.op('climtrend', lambda: pyg.climtrend(v)); mon.hit('trends')
    wantA = np.empty(osh + [len(uk)]); wantB = np.empty(osh + [len(uk)])
    for u in range(len(uk)):
      g = bin_ == u; t0 = tt[g]; tm = t0.mean(); xm = x[..., g].mean(axis=-1)
      wantA[..., u] = ((x[..., g] - xm[..., None]) * (t0 - tm)).sum(axis=-1) / ((t0 - tm) ** 2).sum()
      wantB[..., u] = xm - wantA[..., u] * tm
    W = np.stack([np.moveaxis(wantB, -1, p), np.moveaxis(wantA, -1, p)], axis=-1)
    if not mon.check(r.shape == W.shape and r.axes[p].name == ax.name, 'trend-axes', 'axes %s' % (r.axes,), *sig): return
    spread = max(float(((tt[bin_ == u] - tt[bin_ == u].mean()) ** 2).mean()) for u in range(len(uk))) or 1.
    cond = 1e-14 * float((tt ** 2).max()) / spread
    xm = float(np.nanmax(np.abs(x), initial=1.)); got = mon.op('get', lambda: r.get())
    sc = np.sqrt(spread); tmax = float(np.abs(tt).max()); m = [xm * max(tmax / sc, 1), xm / sc]
    for c in (0, 1): mon.same(got[..., c], W[..., c], 'trend', '%s of %s' % (['intercept', 'slope per second'][c], mon.context[0]), atol=50 * cond * m[c] * max(tmax / sc, 1) + 1e-12 * m[c], sig=sig + (c,))
    for _ in range(2):
      sels = [vlib.random_selector(rng, q) for q in r.shape]
      w = r.slice[tuple(q for q, _ in sels)]; mon.hit('parts')
      mon.same(mon.op('part', lambda: w.get()), vlib.fullsel(got, [q for _, q in sels]), 'trend:part', 'part', rtol=1e-6, atol=50 * cond * max(m) * max(tmax / sc, 1) + 1e-12, sig=sig)
    # the linear signal and the remainder add up to the series
    fit = np.moveaxis(wantA[..., bin_] * tt + wantB[..., bin_], -1, p)
    at = 100 * cond * xm * max(tmax / sc, 1) ** 2 + 1e-9 * xm
    both = chance(rng, .5)
    out = mon.op('detrend', lambda: climat.detrend(v, return_clim=True) if both else climat.detrend(v)); mon.hit('detrended')
    if both:
      out, cl = out
      cw = cl.transpose(*[a.name for a in axes])
      mon.same(mon.op('get', lambda: cw.get()), fit, 'detrend-clim', 'linear signal of %s' % mon.context[0], atol=at, sig=sig + ('clim',))
    out = out.transpose(*[a.name for a in axes])
    mon.same(mon.op('get', lambda: out.get()), data.astype('d') - fit, 'detrend', 'detrended %s' % mon.context[0], atol=at, sig=sig + ('detrend',))
    if lin and ny > 1: mon.check(float(np.abs(out.get()).max()) <= at, 'detrend', 'a linear signal is not removed', *sig)
    sels = [vlib.random_selector(rng, q) for q in out.shape]
    w = out.slice[tuple(q for q, _ in sels)]; mon.hit('parts')
    mon.same(mon.op('part', lambda: w.get()), vlib.fullsel(data.astype('d') - fit, [q for _, q in sels]), 'detrend:part', 'part', atol=at, sig=sig)
    # (the coefficients of a single year stand for every year)
    # a signal from given slope and intercept, on another time axis
    ca = r.axes[p]
    if chance(rng, .3): ca = type(ca)(units=ca.units, year=np.full(len(ca), int(choice(rng, [1, 2000]))), **{q: np.array(z) for q, z in ca.auxarrays.items()})
    A2 = pyg.Var([ca], values=np.arange(len(uk)) * 1e-8, name='A'); B2 = pyg.Var([ca], values=np.arange(len(uk)) * 1., name='B')
    ft = mon.op('from_trend', lambda: pyg.from_trend(ax, A=A2, B=B2))
    want = bin_ * 1e-8 * tt + bin_
    mon.same(mon.op('get', lambda: ft.get()), want, 'from_trend', 'signal from coefficients', rtol=1e-12, atol=1e-9, sig=sig + ('from',))
    q, ix = vlib.random_selector(rng, len(s))
    w = ft.slice[(q,)]; mon.same(mon.op('part', lambda: w.get()), want[ix], 'from_trend:part', 'part %s' % (q,), rtol=1e-12, atol=1e-9, sig=sig + ('from',))
  finally: pyg.MAX_ARRAY_SIZE = old

def k_refuse(rng, mon):
  import pygeode as pyg
  cal = choice(rng, CALS); s, kind, ax, axes, p = series(rng, cal); data = vlib.make_values(rng, [len(a) for a in axes], 'd')
  v = vlib.make_var(rng, axes, data, name='T')
  mon.context[:] = ['%s %s' % (vlib.describe(v), cal)]
  def val(fn, x): return lambda: getattr(pyg, fn)(x).get()
  k = int(rng.integers(3)); op = choice(rng, sorted(NAMES))
  if k == 0:
    o = vlib.make_axes(rng, 2, kinds=['Lat', 'Lon', 'Pres']); w = vlib.make_var(rng, o, np.ones([len(a) for a in o]))
    fn = NAMES[op][choice(rng, PERIODS)]; mon.raises(val(fn, w), 'no-time', '%s of a variable without time' % fn)
  elif k == 1:
    if cal == 'Yearless': fn = NAMES[op][choice(rng, ['yearly', 'monthly'])]; mon.raises(val(fn, v), 'no-year', '%s of a year-less axis' % fn)
    elif cal == 'ModelTime360': fn = NAMES[op]['seasonal']; mon.raises(val(fn, v), 'no-season', '%s on a 360-day calendar' % fn)
    else: fn = NAMES[op]['yearly']; mon.raises(val(fn, v.climatology()), 'no-year', '%s of a climatology' % fn)
  else:
    sl = [slice(None)] * v.naxes; sl[p] = slice(0, 1)
    mon.raises(val('climtrend', v.slice[tuple(sl)]), 'one-time', 'trend of one time')
  mon.hit('refusals')

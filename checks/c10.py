"""C10: calendar conversions are exact and invertible."""
N_QUICK = 12000
N_THOROUGH = 300000
BUDGET_QUICK = 100
BUDGET_THOROUGH = 700
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: every date and time value produced by the axes is compared with an independent calendar (days-from-civil arithmetic, cross-checked with datetime and cftime)'
RULE = ('a case is a block of times (single, irregular, or a contiguous sweep of up to 40000 days/hours/seconds) of one calendar relative to a random reference date, converted both ways in a random unit, '
        'or a pair of axes denoting the same instants built in different ways; each time converted is one event; non-trivial: at least two times; distinct by (calendar, unit, block kind, size class, sign, construction)')
REQUIRE = {'dates': 2000000, 'leap_days': 500, 'year_ends': 3000, 'before_reference': 100000, 'negative_years': 10000, 'wrapped_months': 5000, 'same_instants': 700, 'constructed': 1400, 'refusals': 100, 'datetime': 200, 'cftime': 30}
ASSUMPTIONS = ['time values denote whole seconds (the resolution of the library)', 'years between -200000 and 200000']
import datetime
import numpy as np
import vlib
from vlib import choice, chance

CUM = np.array([0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365])
U = {'days': 86400, 'hours': 3600, 'minutes': 60, 'seconds': 1}
CALS = ['StandardTime', 'ModelTime365', 'ModelTime360', 'Yearless']

# ---------------------------------------------------------------- reference calendars
def days_from_civil(y, m, d):
  """Proleptic Gregorian day number (years start in March)."""
  y = np.asarray(y, 'i8'); m = np.asarray(m, 'i8'); d = np.asarray(d, 'i8')
  y = y + (m - 1) // 12; m = (m - 1) % 12 + 1
  y = np.where(m <= 2, y - 1, y)
  era = y // 400; yoe = y - era * 400
  mp = (m + 9) % 12
  doy = (153 * mp + 2) // 5 + d - 1
  return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy

def civil_from_days(z):
  z = np.asarray(z, 'i8'); era = z // 146097; doe = z - era * 146097
  yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
  doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
  mp = (5 * doy + 2) // 153
  d = doy - (153 * mp + 2) // 5 + 1
  m = np.where(mp < 10, mp + 3, mp - 9)
  return yoe + era * 400 + (m <= 2), m, d

def daynum(cal, y, m, d):
  y = np.asarray(y, 'i8'); m = np.asarray(m, 'i8'); d = np.asarray(d, 'i8')
  if cal == 'StandardTime': return days_from_civil(y, m, d)
  if cal == 'ModelTime365':
    y = y + (m - 1) // 12; m = (m - 1) % 12
    return y * 365 + CUM[m] + d - 1
  if cal == 'ModelTime360': return y * 360 + (m - 1) * 30 + d - 1
  return d

def daydate(cal, z):
  z = np.asarray(z, 'i8')
  if cal == 'StandardTime': return civil_from_days(z)
  if cal == 'ModelTime365':
    y = z // 365; r = z - y * 365; m = np.searchsorted(CUM, r, side='right'); return y, m, r - CUM[m - 1] + 1
  if cal == 'ModelTime360': y = z // 360; r = z - y * 360; return y, r // 30 + 1, r % 30 + 1
  return np.zeros_like(z), np.ones_like(z), z

FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second')
def allowed(cal): return FIELDS if cal != 'Yearless' else FIELDS[2:]

def secs(cal, f):
  g = lambda k, dflt: np.asarray(f.get(k, dflt), 'i8')
  return daynum(cal, g('year', 0), g('month', 1), g('day', 1)) * 86400 + g('hour', 0) * 3600 + g('minute', 0) * 60 + g('second', 0)

def fields(cal, s):
  s = np.asarray(s, 'i8'); z = s // 86400; r = s - z * 86400
  y, m, d = daydate(cal, z)
  return dict(year=y, month=m, day=d, hour=r // 3600, minute=r // 60 % 60, second=r % 60)

def cls(cal):
  from pygeode import timeaxis as T
  return getattr(T, cal)

# ---------------------------------------------------------------- generation
def refdate(rng, cal):
  if cal == 'Yearless':
    d = {'day': int(rng.integers(-5, 400))}
  else:
    y = choice(rng, [1, 1900, 2000, 1970, 1899, int(rng.integers(1, 3000)), int(rng.integers(-5000, 10000)), 0, 4, 100, 400])
    m = int(rng.integers(1, 13))
    ml = 30 if cal == 'ModelTime360' else int(daynum(cal, y, m + 1, 1) - daynum(cal, y, m, 1))
    d = {'year': int(y), 'month': m, 'day': choice(rng, [1, ml, int(rng.integers(1, ml + 1))])}
    if chance(rng, .1): d.pop('day')
    elif chance(rng, .05): d = {'year': int(y)}
  if chance(rng, .5): d['hour'] = int(rng.integers(0, 24))
  if chance(rng, .3): d['minute'] = int(rng.integers(0, 60))
  if chance(rng, .2): d['second'] = int(rng.integers(0, 60))
  return d

def offsets(rng, cal, ref):
  """Seconds relative to the reference, and the kind of block."""
  kind = choice(rng, ['one', 'few', 'few', 'days', 'hours', 'seconds', 'years', 'wide', 'century'])
  if kind == 'one': return np.array([int(rng.integers(-10 ** 10, 10 ** 10))]), kind
  if kind == 'few': return np.sort(rng.integers(-10 ** 9, 10 ** 9, int(rng.integers(2, 8)))), kind
  o = int(rng.integers(-3000, 3000)) * 86400 * int(choice(rng, [1, 1, 100]))
  if kind == 'days': return o + np.arange(int(rng.integers(400, 3000))) * 86400, kind
  if kind == 'hours': return o + np.arange(int(rng.integers(24, 1000))) * 3600, kind
  if kind == 'seconds': return o + np.arange(int(rng.integers(60, 2000))) * int(choice(rng, [1, 7])), kind
  if kind == 'years':   # around every new year and every end of February
    y0 = int(ref.get('year', 0)); ys = y0 + np.arange(-40, 41)
    t = np.concatenate([daynum(cal, ys, 1, k) for k in (-1, 0, 1, 2)] + [daynum(cal, ys, 3, k) for k in (-1, 0, 1)]) if cal != 'Yearless' else np.arange(-50, 50)
    s = np.unique(t) * 86400
    return np.unique(np.concatenate([s - 1, s, s + 43200])) - int(secs(cal, refd(cal, ref))), kind
  if kind == 'century': return o * 20 + np.arange(int(rng.integers(3000, 40000))) * 86400, kind
  span = 200000 * 360 * 86400
  return np.sort(rng.integers(-span // 2, span // 2, 300)), kind

def refd(cal, d):
  """Reference with defaults (year 1, day 1 of the constructor)."""
  f = dict(year=1, month=1, day=1, hour=0, minute=0, second=0)
  f.update(d)
  if cal == 'Yearless': f.pop('year'), f.pop('month')
  return f

def check_dates(mon, what, cal, got, s, sig, only=None):
  want = fields(cal, s)
  for k in (only or allowed(cal)):
    if not mon.check(k in got, 'fields', '%s: field %s missing (%s)' % (what, k, sorted(got)), *sig): return
    if not mon.check(np.array_equal(np.asarray(got[k]), want[k]), 'date', '%s: %s is %s, expected %s (first difference at %s)' % (what, k, str(np.asarray(got[k]))[:120], str(want[k])[:120],
      str([(int(x), {q: int(want[q][x]) for q in want}) for x in np.flatnonzero(np.asarray(got[k]) != want[k])[:2]])), *sig): return
  mon.hit('dates', np.size(s))

def case(rng, i, mon):
  cal = CALS[i % 4] if i % 8 < 7 else 'StandardTime'
  (construct if i % 3 == 2 else convert)(rng, i, mon, cal)

def convert(rng, i, mon, cal):
  C = cls(cal)
  ref = refdate(rng, cal); full = refd(cal, ref)
  off, kind = offsets(rng, cal, full)
  base = int(secs(cal, full)); s = base + off
  unit = choice(rng, list(U))
  f = fields(cal, s)
  mon.hit('leap_days', int(((f['month'] == 2) & (f['day'] == 29)).sum()) if cal == 'StandardTime' else 0)
  mon.hit('year_ends', int(((f['month'] == 12) & (f['day'] >= 30)).sum())); mon.hit('before_reference', int((off < 0).sum())); mon.hit('negative_years', int((f['year'] < 0).sum()))
  vals = off / float(U[unit])
  if unit == 'seconds' and chance(rng, .5): vals = off
  sig = (cal, unit, kind, min(len(s), 3), bool((off < 0).any()), len(ref)) if len(s) > 1 else ()
  mon.context[:] = ['%s since %s in %s: %s' % (cal, ref, unit, str(vals)[:200])]
  ax = mon.op('axis', lambda: C(values=vals, units=unit, startdate=dict(ref)))
  check_dates(mon, 'axis fields', cal, ax.auxarrays, s, sig)
  mon.check(np.array_equal(np.asarray(ax.values, 'd'), vals), 'values', 'axis values %s, given %s' % (ax.values, vals), *sig)
  # conversion with the axis's own reference, and with an explicit one
  check_dates(mon, 'val_as_date()', cal, ax.val_as_date(), s, sig)
  ref2 = refd(cal, refdate(rng, cal)); u2 = choice(rng, list(U)); b2 = int(secs(cal, ref2))
  v2 = (s - b2) / float(U[u2])
  check_dates(mon, 'val_as_date(vals, %s, %s)' % (ref2, u2), cal, ax.val_as_date(v2, startdate=dict(ref2), units=u2, allfields=chance(rng, .5)), s, sig)
  # back again
  dates = {k: f[k].astype('int32') for k in allowed(cal)}
  got = ax.date_as_val(dates, startdate=dict(ref2), units=u2)
  mon.check(np.array_equal(np.asarray(got, 'd'), v2), 'value', 'date_as_val since %s in %s gives %s, expected %s' % (ref2, u2, got, v2), *sig)
  got = ax.date_as_val(units=unit)
  mon.check(np.array_equal(np.asarray(got, 'd'), vals), 'roundtrip', 'date_as_val(val_as_date(v)) = %s, v = %s' % (got, vals), *sig)
  # strictly monotone
  key = np.vstack([np.asarray(ax.auxarrays[k], 'i8') for k in allowed(cal)])
  d = np.diff(key, axis=1)
  first = np.argmax(d != 0, axis=0)
  mon.check(bool(np.all(d[first, np.arange(d.shape[1])] > 0)), 'monotone', 'dates are not strictly increasing with time', *sig)
  # scalars
  j = int(rng.integers(len(s)))
  one = ax.val_as_date(vals[j])
  mon.check(all(int(one[k]) == int(f[k][j]) and np.ndim(one[k]) == 0 for k in allowed(cal)), 'scalar', 'val_as_date(%r) = %r, expected %s' % (vals[j], one, {k: int(f[k][j]) for k in f}), *sig)
  back = ax.date_as_val({k: int(f[k][j]) for k in allowed(cal)}, units=unit)
  mon.check(float(back) == float(vals[j]), 'scalar', 'date_as_val of one date gives %r, expected %r' % (back, vals[j]), *sig)
  # independent calendars
  if cal == 'StandardTime' and kind in ('one', 'few') and 1 <= f['year'].min() and f['year'].max() <= 9999 and 1 <= full['year'] <= 9999:
    r0 = datetime.datetime(*[full[k] for k in FIELDS])
    for q in range(len(s)):
      d = r0 + datetime.timedelta(seconds=int(off[q]))
      mon.check((d.year, d.month, d.day, d.hour, d.minute, d.second) == tuple(int(ax.auxarrays[k][q]) for k in FIELDS), 'datetime', 'datetime says %s' % d, *sig)
      mon.hit('datetime')
  if cal != 'Yearless' and kind == 'few' and 0 < full['year'] and i % 5 == 0:
    import cftime
    cc = {'StandardTime': 'proleptic_gregorian', 'ModelTime365': 'noleap', 'ModelTime360': '360_day'}[cal]
    r = cftime.num2date(off, 'seconds since %04d-%02d-%02d %02d:%02d:%02d' % tuple(full[k] for k in FIELDS), calendar=cc)
    for q, d in enumerate(np.ravel(r)):
      if f['year'][q] < 1: continue
      mon.check((d.year, d.month, d.day, d.hour, d.minute, d.second) == tuple(int(ax.auxarrays[k][q]) for k in FIELDS), 'cftime', 'cftime says %s' % d, *sig); mon.hit('cftime')
  # months and days outside their range are carried over
  if cal != 'Yearless':
    n = 40
    y = rng.integers(-3000, 5000, n).astype('int32'); m = rng.integers(-40, 60, n).astype('int32'); dd = rng.integers(-60, 400, n).astype('int32')
    h = rng.integers(-50, 50, n).astype('int32')
    if n and chance(rng, .5): dd[:] = 1
    got = np.asarray(ax.date_as_val(dict(year=y, month=m, day=dd, hour=h), startdate=dict(ref2), units='seconds'))
    want = secs(cal, dict(year=y, month=m, day=dd, hour=h)) - b2
    mon.check(np.array_equal(got, want), 'overflow', 'dates with months/days out of range: %s' % [(int(a), int(b), int(c), int(e), int(g), int(w)) for a, b, c, e, g, w in zip(y, m, dd, h, got, want) if g != w][:3], cal, 'wrapped')
    mon.hit('wrapped_months', n)
    Y = int(rng.integers(1, 3000)); M = int(rng.integers(1, 13))
    got = ax.days_in_month(Y, M); want = int(daynum(cal, Y, M + 1, 1) - daynum(cal, Y, M, 1))
    mon.check(int(got) == want, 'days_in_month', 'days_in_month(%d, %d) = %r, expected %d' % (Y, M, got, want), cal, 'dim')
  if i % 20 == 0 and cal in ('StandardTime', 'ModelTime365'):
    mon.raises(lambda: C(values=np.arange(3.), units='days', startdate={'year': 1, 'month': choice(rng, [0, 13, -3]), 'day': 1}), 'month-range', 'month out of range accepted'); mon.hit('refusals')
  if i % 20 == 1:
    mon.raises(lambda: C(values=np.arange(3.), units='fortnights', startdate={'day': 1}), 'bad-unit', 'unknown unit accepted'); mon.hit('refusals')

def build(rng, cal, s, how):
  """An axis denoting the instants s (seconds of the reference calendar)."""
  C = cls(cal)
  f = fields(cal, s)
  if how == 'offset':
    ref = refdate(rng, cal); u = choice(rng, list(U))
    return C(values=(s - int(secs(cal, refd(cal, ref)))) / float(U[u]), units=u, startdate=ref), how + u
  if how == 'fields':
    kw = {}
    if chance(rng, .5): kw['startdate'] = refd(cal, refdate(rng, cal))
    kw['units'] = choice(rng, list(U))
    t = choice(rng, ['int32', 'int64', 'd', 'list'])
    mk = (lambda x: [int(q) for q in x]) if t == 'list' else (lambda x: x.astype(t))
    return C(**{k: mk(f[k]) for k in allowed(cal)}, **kw), how + t + str('startdate' in kw)
  if how == 'yyyymmdd':
    return C(values=f['year'] * 10000 + f['month'] * 100 + f['day'], datefmt=choice(rng, ['yyyymmdd', 'YYYYMMDD']), units=choice(rng, list(U))), how
  return C(values=f['year'] * 1000000 + f['month'] * 10000 + f['day'] * 100 + f['hour'], datefmt='yyyymmddhh', units=choice(rng, list(U))), how

def construct(rng, i, mon, cal):
  n = int(rng.integers(1, 30))
  res = choice(rng, [1, 60, 3600, 86400, 86400])
  lo = int(daynum(cal, int(rng.integers(1, 4000)), 1, 1)) * 86400 if cal != 'Yearless' else int(rng.integers(0, 1000)) * 86400
  s = lo + np.sort(rng.permutation(20 * n + 5)[:n]) * res * int(choice(rng, [1, 1, 30]))
  ways = ['offset', 'offset', 'fields']
  if res >= 3600 and cal != 'Yearless': ways.append('yyyymmddhh')
  if res == 86400 and cal != 'Yearless': ways.append('yyyymmdd')
  a, ha = build(rng, cal, s, choice(rng, ways)); b, hb = build(rng, cal, s, choice(rng, ways))
  sig = (cal, ha, hb, res, min(n, 3)) if n > 1 else ()
  mon.context[:] = ['%s: a (%s) startdate %s units %s; b (%s) startdate %s units %s; %s' % (cal, ha, a.startdate, a.units, hb, b.startdate, b.units, {k: list(map(int, x[:4])) for k, x in fields(cal, s).items()})]
  for x, h in ((a, ha), (b, hb)):
    mon.hit('constructed')
    check_dates(mon, h, cal, x.auxarrays, s, sig)
    start = int(secs(cal, refd(cal, {k: int(np.ravel(v)[0]) for k, v in x.startdate.items()})))
    mon.check(np.array_equal(np.asarray(x.values, 'd'), (s - start) / float(U[x.units])), 'axis-values', 'axis built from %s has values %s relative to %s, expected %s' % (h, x.values, x.startdate, (s - start) / float(U[x.units])), *sig)
    if h.startswith('offset') or h.endswith('True'): pass
    else: mon.check(float(x.values[0]) == 0., 'first-value', 'default reference date is not the first date', *sig)
  mon.check(a == b and b == a, 'same-instants', 'axes denoting the same instants differ', *sig)
  p = rng.permutation(n)[:int(rng.integers(1, n + 1))]
  bp = b.slice[([int(q) for q in p],)]
  check_dates(mon, 'selected', cal, bp.auxarrays, s[p], sig)
  m = a.map_to(bp)
  mon.check(m is not None and [int(q) for q in m] == [int(q) for q in p], 'same-map', 'a.map_to(selection %s of b) = %r' % (p, m), *sig)
  # the data follow their dates
  from pygeode.var import Var
  x = np.arange(n) * 1.; va = Var([a], values=x); vb = Var([bp], values=x[p] * 2)
  tot = va.slice[([int(q) for q in np.sort(p)],)] + vb; got = tot.get()
  r = fields(cal, s); lab = {tuple(int(r[k][j]) for k in allowed(cal)): j for j in range(n)}
  pos = [lab.get(tuple(int(tot.axes[0].auxarrays[k][j]) for k in allowed(cal)), -1) for j in range(len(tot.axes[0]))]
  mon.check(sorted(pos) == sorted(int(q) for q in p) and np.array_equal(got, 3. * np.array(pos)), 'aligned', 'values added at the same dates: %s at positions %s, expected 3 times the position (selected %s)' % (got, pos, p), *sig)
  # one second (or more) later is another instant
  d = build(rng, cal, s + choice(rng, [1, -1, 86400]), 'offset')[0]
  mon.check(not (a == d), 'other-instants', 'axes denoting different instants compare equal', *sig)
  mon.hit('same_instants')
  # concatenating the parts of an axis gives the axis back
  if n > 1:
    c = int(rng.integers(1, n))
    k = type(a).concat([a.slice[:c], b.slice[c:]])
    check_dates(mon, 'concat', cal, k.auxarrays, s, sig)
    mon.check(k == a, 'concat', 'the two halves do not concatenate to the whole', *sig)
    start = int(secs(cal, refd(cal, {q: int(np.ravel(v)[0]) for q, v in k.startdate.items()})))
    mon.check(np.array_equal(np.asarray(k.values, 'd'), (s - start) / float(U[k.units])), 'concat-values', 'values of the concatenated axis', *sig)

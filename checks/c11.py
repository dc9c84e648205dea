"""C11: time text, ranges and time arithmetic agree with the calendar."""
N_QUICK = 16000
N_THOROUGH = 300000
BUDGET_QUICK = 100
BUDGET_THOROUGH = 700
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: formatted and parsed dates, ranges, selections and time arithmetic are compared with an independent calendar (days-from-civil arithmetic); variables carry one distinct value per date, which an oracle follows through lags, leap-day removal, splitting and joining'
RULE = ('a case is a block of dates to format/parse, a generated range, a selection, a set of relative times/steps/differences/modifications, or a variable lagged, stripped of leap days, split or joined and then requested whole and in parts; '
        'non-trivial: at least two times or a date other than the reference; distinct by (operation, calendar, form or units, size class, direction)')
REQUIRE = {'formatted': 6000, 'parsed': 6000, 'roundtrips': 2000, 'day_of_year': 1500, 'ranges': 600, 'negative_steps': 150, 'selections': 1500, 'arithmetic': 800, 'lagged': 400, 'lag_outside': 100, 'leap_removed': 300, 'split': 300, 'joined': 250, 'parts': 1500, 'refusals': 300}
ASSUMPTIONS = ['times are whole seconds', 'a bare range or single date selects among distinct times']
import numpy as np
import vlib
from vlib import choice, chance

CUM = np.array([0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365])
U = {'days': 86400, 'hours': 3600, 'minutes': 60, 'seconds': 1}
CALS = ['StandardTime', 'ModelTime365', 'ModelTime360', 'Yearless']
MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
MONTH = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November', 'December']

# ---------------------------------------------------------------- reference calendars
def days_from_civil(y, m, d):
  y = np.asarray(y, 'i8'); m = np.asarray(m, 'i8'); d = np.asarray(d, 'i8')
  y = y + (m - 1) // 12; m = (m - 1) % 12 + 1
  y = np.where(m <= 2, y - 1, y)
  era = y // 400; yoe = y - era * 400
  mp = (m + 9) % 12
  return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + (153 * mp + 2) // 5 + d - 1

def civil_from_days(z):
  z = np.asarray(z, 'i8'); era = z // 146097; doe = z - era * 146097
  yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
  doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
  mp = (5 * doy + 2) // 153
  m = np.where(mp < 10, mp + 3, mp - 9)
  return yoe + era * 400 + (m <= 2), m, doy - (153 * mp + 2) // 5 + 1

def daynum(cal, y, m, d):
  y = np.asarray(y, 'i8'); m = np.asarray(m, 'i8'); d = np.asarray(d, 'i8')
  if cal == 'StandardTime': return days_from_civil(y, m, d)
  if cal == 'ModelTime365':
    y = y + (m - 1) // 12; m = (m - 1) % 12
    return y * 365 + CUM[m] + d - 1
  if cal == 'ModelTime360': return y * 360 + (m - 1) * 30 + d - 1
  return d

def daydate(cal, z):
  z = np.asarray(z, 'i8')
  if cal == 'StandardTime': return civil_from_days(z)
  if cal == 'ModelTime365':
    y = z // 365; r = z - y * 365; m = np.searchsorted(CUM, r, side='right'); return y, m, r - CUM[m - 1] + 1
  if cal == 'ModelTime360': y = z // 360; r = z - y * 360; return y, r // 30 + 1, r % 30 + 1
  return np.zeros_like(z), np.ones_like(z), z

FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second')
def allowed(cal): return FIELDS if cal != 'Yearless' else FIELDS[2:]

def secs(cal, f):
  g = lambda k, dflt: np.asarray(f.get(k, dflt), 'i8')
  return daynum(cal, g('year', 0), g('month', 1), g('day', 1)) * 86400 + g('hour', 0) * 3600 + g('minute', 0) * 60 + g('second', 0)

def fields(cal, s):
  s = np.asarray(s, 'i8'); z = s // 86400; r = s - z * 86400
  y, m, d = daydate(cal, z)
  return dict(year=y, month=m, day=d, hour=r // 3600, minute=r // 60 % 60, second=r % 60)

def date(cal, s): return {k: int(v) for k, v in fields(cal, s).items() if k in allowed(cal)}

def axsecs(cal, ax): return secs(cal, {k: ax.auxarrays[k] for k in ax.auxarrays})

def cls(cal):
  from pygeode import timeaxis as T
  return getattr(T, cal)

def full(cal, d):
  f = {k: v for k, v in dict(year=1, month=1, day=1, hour=0, minute=0, second=0).items() if k in allowed(cal)}
  f.update(d); return f

def refdate(rng, cal):
  if cal == 'Yearless': return {'day': int(rng.integers(-3, 300))}
  y = int(choice(rng, [1, 1900, 2000, 1970, int(rng.integers(1, 3000)), int(rng.integers(-500, 5000))]))
  m = int(rng.integers(1, 13)); ml = int(daynum(cal, y, m + 1, 1) - daynum(cal, y, m, 1))
  d = {'year': y, 'month': m, 'day': int(rng.integers(1, ml + 1))}
  if chance(rng, .4): d['hour'] = int(rng.integers(0, 24))
  if chance(rng, .2): d['minute'] = int(rng.integers(0, 60))
  return d

def random_time(rng, cal, lo=-200, hi=5000):
  if cal == 'Yearless': return int(rng.integers(0, 800)) * 86400 + int(rng.integers(0, 86400))
  y = int(choice(rng, [int(rng.integers(lo, hi)), int(rng.integers(1, 120)), 2000, 1900, 2004]))
  m = int(rng.integers(1, 13)); ml = int(daynum(cal, y, m + 1, 1) - daynum(cal, y, m, 1))
  d = int(choice(rng, [1, ml, int(rng.integers(1, ml + 1))]))
  return int(daynum(cal, y, m, d)) * 86400 + int(choice(rng, [0, 43200, 86399, int(rng.integers(0, 86400))]))

def axis(rng, cal, s, units=None, ref=None):
  """An axis of the calendar whose points are the instants s."""
  ref = refdate(rng, cal) if ref is None else ref
  units = units or choice(rng, list(U))
  return cls(cal)(values=(np.asarray(s, 'i8') - int(secs(cal, full(cal, ref)))) / float(U[units]), units=units, startdate=dict(ref))

def case(rng, i, mon):
  mon.context[:] = []
  cal = CALS[(i // 10) % 4]
  kind = ['text', 'text', 'range', 'select', 'select', 'arith', 'lag', 'split', 'leap', 'modify'][i % 10]
  globals()['k_' + kind](rng, mon, cal)

# ---------------------------------------------------------------- text
def expected_codes(cal, s):
  f = {k: int(v) for k, v in fields(cal, s).items()}
  h = f['hour']; y = f['year']
  c = dict(d='%d' % f['day'], D='%02d' % f['day'], H='%02d' % h, I='%02d' % ((h - 1) % 12 + 1), p='am' if h < 12 else 'pm', P='AM' if h < 12 else 'PM', M='%02d' % f['minute'], S='%02d' % f['second'])
  if cal != 'Yearless':
    c.update(b=MON[f['month'] - 1], B=MONTH[f['month'] - 1], m='%d' % f['month'], y='%02d' % (y % 100), a='%d' % y, Y='%d' % y if abs(y) >= 100 else 'y%d' % y,
      j='%d' % (int(daynum(cal, y, f['month'], f['day'])) - int(daynum(cal, y, 1, 1)) + 1))
  return c

def text_forms(rng, cal, f):
  """Texts (by our own formatter) and the date each stands for."""
  f = dict(f); out = []
  sod = {k: 0 for k in ('hour', 'minute', 'second')}
  if cal == 'Yearless':
    out.append(('%d' % f['day'], dict(f, **sod)))
    out.append(('%d:%02d %d' % (f['hour'], f['minute'], f['day']), dict(f, second=0)))
    out.append(('%02d:%02d:%02d %d' % (f['hour'], f['minute'], f['second'], f['day']), f))
    out.append(('%dT%02d:%02d' % (f['day'], f['hour'], f['minute']), dict(f, second=0)))
    out.append(('%dT%02d:%02d:%02d' % (f['day'], f['hour'], f['minute'], f['second']), f))
    return out
  m = MON[f['month'] - 1]; m = choice(rng, [m, m.lower(), m.upper()])
  dmy = '%d %s %d' % (f['day'], m, f['year'])
  if chance(rng, .3): dmy = '%02d %s %04d' % (f['day'], m, f['year'])
  t = '%02d:%02d' % (f['hour'], f['minute']); ts = t + ':%02d' % f['second']
  out.append((dmy, dict(f, **sod)))
  out.append(('%d:%02d %s' % (f['hour'], f['minute'], dmy), dict(f, second=0)))
  out.append((ts + ' ' + dmy, f))
  out.append(('%04d' % f['year'], dict(f, month=1, day=1, **sod)))
  out.append(('%d-%02d' % (f['year'], f['month']), dict(f, day=1, **sod)))
  ymd = '%04d-%02d-%02d' % (f['year'], f['month'], f['day'])
  out.append((ymd, dict(f, **sod))); out.append((ymd + 'T' + t, dict(f, second=0))); out.append((ymd + 'T' + ts, f))
  doy = int(daynum(cal, f['year'], f['month'], f['day'])) - int(daynum(cal, f['year'], 1, 1)) + 1
  yd = '%04d-%03d' % (f['year'], doy)
  out.append((yd, dict(f, **sod))); out.append((yd + 'T' + t, dict(f, second=0))); out.append((yd + 'T' + ts, f))
  return out

def k_text(rng, mon, cal):
  n = int(rng.integers(1, 6)); s = np.array([random_time(rng, cal) for _ in range(n)])
  ax = axis(rng, cal, s)
  mon.context[:] = ['%s since %s in %s' % (cal, ax.startdate, ax.units)]
  for q in range(n):
    v = ax.values[q]; c = expected_codes(cal, s[q])
    sig = (cal, ax.units, int(s[q]) % 86400 == 0)
    for _ in range(3):
      ks = [choice(rng, sorted(c)) for _ in range(int(rng.integers(1, 7)))]
      seps = [choice(rng, [' ', '/', '-', ':', ', ', 'T', ' of $$']) for _ in ks]
      fmt = ''.join('${%s}%s' % (k, p) if chance(rng, .5) or p == 'T' else '$%s%s' % (k, p) for k, p in zip(ks, seps))
      want = ''.join(c[k] + p.replace('$$', '$') for k, p in zip(ks, seps))
      got = mon.op('formatvalue', lambda: ax.formatvalue(v, fmt))
      mon.check(got == want, 'format:' + ('j' if 'j' in ks else 'fields'), '%s: formatvalue(%r, %r) = %r, expected %r' % (date(cal, s[q]), v, fmt, got, want), 'fmt', tuple(sorted(set(ks))), *sig)
      mon.hit('formatted'); mon.hit('day_of_year', ks.count('j'))
    if cal != 'Yearless': want = '%s %s, %s %s:%s:%s' % tuple(c[k] for k in 'bdYHMS')
    else: want = 'day %s, %s:%s:%s' % tuple(c[k] for k in 'dHMS')
    got = ax.formatvalue(v)
    mon.check(got == want, 'format:default', 'formatvalue(%r) = %r, expected %r' % (v, got, want), 'default', *sig)
    if cal != 'Yearless':
      got = ax.formatvalue(v, '$j'); mon.hit('day_of_year')
      mon.check(got == c['j'], 'format:j', '%s is day of the year %s, expected %s' % (date(cal, s[q]), got, c['j']), 'j', *sig)
    # parsing (years from 0 on, as text cannot hold a sign)
    f = date(cal, s[q])
    if f.get('year', 1) < 0 or f['day'] < 0: continue
    for k, (text, want) in enumerate(text_forms(rng, cal, f)):
      w = int(secs(cal, want)); ref = int(secs(cal, full(cal, {a: int(np.ravel(b)[0]) for a, b in ax.startdate.items()})))
      got = mon.op('str_as_val', lambda: ax.str_as_val(None, text))
      mon.check(float(got) == (w - ref) / float(U[ax.units]), 'parse', '%r is parsed as %r (%s), expected %r' % (text, got, ax.str_as_date(None, text), (w - ref) / float(U[ax.units])), 'parse', k, *sig)
      d = ax.str_as_date(None, text)
      mon.check(set(d) <= set(allowed(cal)) and int(secs(cal, full(cal, d))) == w, 'parse', '%r is parsed as %s' % (text, d), 'parse-date', k, *sig)
      mon.hit('parsed')
    # there and back
    if cal == 'Yearless': rt = [('$H:$M:$S $d', 1), ('${d}T$H:$M:$S', 1), ('$H:$M $d', 60), ('$d', 86400)]
    else: rt = [('$H:$M:$S $d $b $a', 1), ('$D $b $a', 86400), ('$H:$M $d $b $a', 60), ('$a', 0)]
    for fmt, res in rt:
      text = ax.formatvalue(v, fmt); back = float(ax.str_as_val('time', text)); mon.hit('roundtrips')
      ref = int(secs(cal, full(cal, {a: int(np.ravel(b)[0]) for a, b in ax.startdate.items()})))
      w = s[q] - s[q] % res if res else int(daynum(cal, f['year'], 1, 1)) * 86400
      mon.check(abs(back * U[ax.units] + ref - w) < .01, 'roundtrip', '%s formatted as %r reads back as %r' % (f, text, back), 'roundtrip', fmt, *sig)
  bad = ['yesterday', '', '12/31/2000', 'Jan 1, 2000', '1 Foo 2000', '2000-1-1', '2000-01-01 00:00', '12:00'] if cal != 'Yearless' else ['yesterday', '', '1 Jan 2000', '12:00', 'day 3']
  t = choice(rng, bad)
  mon.raises(lambda: ax.str_as_val(None, t), 'bad-text', 'text %r accepted as a date' % t, kinds=(ValueError,)); mon.hit('refusals')

# ---------------------------------------------------------------- ranges
def text_of(rng, cal, s):
  f = date(cal, s)
  forms = [(t, w) for t, w in text_forms(rng, cal, f) if int(secs(cal, w)) == s]
  return choice(rng, forms)[0]

def k_range(rng, mon, cal):
  from pygeode import timeaxis as T
  units = choice(rng, list(U)); u = U[units]
  step = choice(rng, [1, 1, 2, 3, 7, .5, 6, 30, 365, .25])
  if units == 'seconds': step = int(np.ceil(step))
  inc = float(step) * u
  n = int(rng.integers(1, 40))
  neg = chance(rng, .35)
  if neg: step = -step; inc = -inc; mon.hit('negative_steps')
  mon.hit('ranges')
  if cal == 'Yearless':
    d0 = int(rng.integers(-5, 100))
    ax = mon.op('yearlessn', lambda: T.yearlessn(n, d0, step, units))
    want = d0 * 86400 + np.round(np.arange(n) * inc).astype('i8')
    mon.check(type(ax) is T.Yearless and len(ax) == n and np.array_equal(axsecs(cal, ax), want), 'range', 'yearlessn(%d, %d, %r, %s): %s' % (n, d0, step, units, ax.auxarrays), 'yearlessn', units, step, n > 1)
    return
  res = choice(rng, [86400, 60, 1])
  s = random_time(rng, cal, 0, 4000); s -= s % res
  nm = {'StandardTime': 'standardtime', 'ModelTime365': 'modeltime365', 'ModelTime360': 'modeltime360'}[cal]
  kw = {}
  if chance(rng, .8) or units != 'days': kw['units'] = units
  if chance(rng, .8) or step != 1: kw['step'] = step
  ref = None
  if chance(rng, .4):
    ref = random_time(rng, cal, 0, 4000); ref -= ref % 86400; kw['ref'] = text_of(rng, cal, ref)
  sig = (nm, units, step, min(n, 2), ref is not None)
  ts = text_of(rng, cal, s)
  if chance(rng, .5):
    ax = mon.op(nm + 'n', lambda: getattr(T, nm + 'n')(ts, n, **kw)); what = '%sn(%r, %d, %s)' % (nm, ts, n, kw); cnt = n; inclusive = False
  else:
    # the end: on a step, or between two steps
    onstep = chance(rng, .5)
    span = int(round(n * inc)); k = n
    if not onstep:
      part = int(abs(inc) // 2) // 60 * 60
      if part: span -= int(np.sign(inc)) * part
    e = s + span
    ed = date(cal, e)
    if ed['year'] < 0: mon.ev(); return
    te = text_of(rng, cal, e)
    inclusive = onstep and chance(rng, .4)
    if inclusive: kw['inc'] = True; cnt = n + 1
    else: cnt = n
    if onstep is False and n == 1 and span == 0: mon.ev(); return
    ax = mon.op(nm + 'range', lambda: getattr(T, nm + 'range')(ts, te, **kw)); what = '%srange(%r, %r, %s)' % (nm, ts, te, kw)
    sig += (onstep, inclusive)
  want = s + np.round(np.arange(cnt) * inc).astype('i8')
  mon.check(type(ax) is getattr(T, cal) and len(ax) == cnt and np.array_equal(axsecs(cal, ax), want), 'range', '%s gives %d times %s ... %s, expected %d: %s ... %s' % (what, len(ax), date(cal, axsecs(cal, ax)[0]), date(cal, axsecs(cal, ax)[-1]), cnt, date(cal, want[0]), date(cal, want[-1])), *sig)
  mon.check(ax.units == units and int(secs(cal, full(cal, {k: int(np.ravel(v)[0]) for k, v in ax.startdate.items()}))) == (s if ref is None else ref), 'range-ref', '%s: reference date %s, units %s' % (what, ax.startdate, ax.units), *sig)
  mon.check(vlib.close(np.asarray(ax.values, 'd'), (want - (s if ref is None else ref)) / float(u)), 'range-values', '%s: values %s' % (what, ax.values), *sig)

# ---------------------------------------------------------------- selections
def k_select(rng, mon, cal):
  from pygeode.var import Var
  n = int(rng.integers(2, 60)); res = choice(rng, [1, 60, 3600, 86400, 86400, 86400 * 28])
  lo = random_time(rng, cal, 1, 3000); lo -= lo % (res if res < 86400 else 86400)
  s = lo + np.sort(rng.permutation(3 * n)[:n]) * res
  if chance(rng, .2): s = s[::-1].copy()
  ax = axis(rng, cal, s); x = np.arange(n) * 1.
  v = Var([ax], values=x, name='v') if chance(rng, .5) else vlib.make_var(rng, [ax], x, kind='view')
  mon.context[:] = ['%s since %s in %s: %s' % (cal, ax.startdate, ax.units, [date(cal, q) for q in s[:3]])]
  def pick():
    if chance(rng, .6): return int(choice(rng, s))
    q = int(rng.integers(s.min() - 3 * res, s.max() + 3 * res)); return q
  def sel(kw, want, key, *sig):
    got = mon.op('select', lambda: v(**kw)); mon.hit('selections')
    ok = np.array_equal(np.sort(np.asarray(got.get()).ravel()), np.sort(x[want])) and np.array_equal(np.asarray(got.get()).ravel(), x[want])
    mon.check(ok, 'select:' + key, 'v(**%r) keeps %s, expected positions %s' % (kw, got.get(), np.flatnonzero(want)), key, cal, res, *sig)
    if ok and got.naxes: mon.check(np.array_equal(axsecs(cal, got.axes[0]), s[want]), 'select-dates', 'dates of the selection', 'dates', cal)
  tname = choice(rng, ['time', 'time', ax.name])
  for _ in range(2):
    a, b = sorted((pick(), pick()))
    if (cal != 'Yearless' and date(cal, a)['year'] < 0) or date(cal, a)['day'] < 0: continue
    ta, tb = text_of(rng, cal, a), text_of(rng, cal, b)
    if chance(rng, .2): ta, tb = tb, ta
    want = (s >= a) & (s <= b)
    if want.any(): sel({tname: (ta, tb)}, want, 'range')
    # nearest
    d = np.abs(s - a)
    if (d == d.min()).sum() == 1 and cal != 'Yearless' or d.min() == 0:
      w = np.zeros(n, bool); w[np.argmin(d)] = True
      t0 = text_of(rng, cal, a)
      sel({tname: t0}, w, 'single')
    k = int(rng.integers(2, 5)); q = sorted(set(int(j) for j in rng.integers(0, n, k)))
    tx = [text_of(rng, cal, int(s[j])) for j in rng.permutation(q)]
    w = np.zeros(n, bool); w[q] = True
    sel({'l_' + tname: tx}, w, 'list', len(q) > 1)
    w = ~((s >= a) & (s <= b))
    if w.any(): sel({'n_' + tname: (ta, tb)}, w, 'complement')
  # by calendar field
  f = fields(cal, s)
  k = choice(rng, allowed(cal)); j = int(rng.integers(n))
  sel({k: int(f[k][j])}, f[k] == f[k][j], 'field', k)
  a, b = sorted(int(q) for q in choice2(rng, f[k])); sel({k: (a, b)}, (f[k] >= a) & (f[k] <= b), 'field-range', k)
  k2 = choice(rng, allowed(cal)); j = int(rng.integers(n))
  if k2 != k: sel({k: int(f[k][j]), k2: int(f[k2][j])}, (f[k] == f[k][j]) & (f[k2] == f[k2][j]), 'two-fields', k, k2)
  q = sorted(set(int(z) for z in choice2(rng, f[k])))
  sel({'l_' + k: q}, np.isin(f[k], q), 'field-list', k)

def choice2(rng, a): return [choice(rng, a), choice(rng, a)]

# ---------------------------------------------------------------- arithmetic
def k_arith(rng, mon, cal):
  from pygeode import timeutils as TU
  n = int(rng.integers(1, 40)); res = choice(rng, [1, 60, 3600, 86400, 86400 * 30])
  lo = random_time(rng, cal)
  uniform = chance(rng, .5); k = int(rng.integers(1, 9)) * int(choice(rng, [1, 1, -1]))
  s = lo + np.arange(n) * k * res if uniform else lo + np.sort(rng.permutation(4 * n)[:n]) * res
  ax = axis(rng, cal, s)
  mon.context[:] = ['%s since %s in %s' % (cal, ax.startdate, ax.units)]
  sig = (cal, ax.units, res, uniform, min(n, 2))
  mon.hit('arithmetic')
  u = choice(rng, list(U)); ref = refdate(rng, cal); b = int(secs(cal, full(cal, ref)))
  got = mon.op('reltime', lambda: TU.reltime(ax, startdate=dict(ref), units=u) if chance(rng, .8) else ax.reltime(startdate=dict(ref), units=u))
  mon.check(np.array_equal(np.asarray(got, 'd'), (s - b) / float(U[u])), 'reltime', 'reltime(%s, %s) = %s, expected %s' % (ref, u, got, (s - b) / float(U[u])), 'reltime', u, *sig)
  got = mon.op('reltime', lambda: TU.reltime(ax, startdate=dict(ref)))
  mon.check(np.array_equal(np.asarray(got, 'd'), (s - b) / float(U[ax.units])), 'reltime', 'reltime(%s) = %s' % (ref, got), 'reltime', *sig)
  got = mon.op('reltime', lambda: TU.reltime(ax, units=u))
  b0 = int(secs(cal, full(cal, {q: int(np.ravel(w)[0]) for q, w in ax.startdate.items()})))
  mon.check(np.array_equal(np.asarray(got, 'd'), (s - b0) / float(U[u])), 'reltime', 'reltime(units=%s) = %s' % (u, got), 'reltime', *sig)
  # steps
  d = np.diff(s)
  if n == 1: mon.check(float(TU.delta(ax)) == 0., 'delta', 'step of a single time', 'delta1')
  elif (d == d[0]).all():
    # (the step must be well resolved at the distance of the reference date)
    for uu in () if abs(s - b0).max() * 1e-15 > 1e-6 * abs(d[0]) else (u, None):
      got = mon.op('delta', lambda: TU.delta(ax, units=uu)); want = d[0] / float(U[uu or ax.units])
      mon.check(np.ndim(got) == 0 and abs(float(got) - want) <= 1e-5 * abs(want), 'delta', 'delta(units=%s) = %r, expected %r' % (uu, got, want), 'delta', uu, *sig)
  elif d.max() > 1.001 * d.min():
    mon.raises(lambda: TU.delta(ax, units=u), 'delta', 'several steps %s reported as one' % d[:5], kinds=(ValueError,)); mon.hit('refusals')
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()): got = TU.delta(ax, units=u, allow_multiple=True)
    mon.check(abs(float(got) - d.min() / float(U[u])) <= 1e-9 * abs(float(got)) + 1e-9 * abs(np.asarray(ax.values, 'd')).max(), 'delta', 'smallest step %r, expected %r' % (got, d.min() / float(U[u])), 'delta-multi', *sig)
  # differences
  for _ in range(4):
    a, c = random_time(rng, cal), random_time(rng, cal)
    da, dc = date(cal, a), date(cal, c)
    got = mon.op('date_diff', lambda: TU.date_diff(ax, dict(da), dict(dc), units=u) if chance(rng, .8) else ax.date_diff(dict(da), dict(dc), units=u))
    mon.check(float(got) == (c - a) / float(U[u]), 'date_diff', 'date_diff(%s, %s, %s) = %r, expected %r' % (da, dc, u, got, (c - a) / float(U[u])), 'diff', u, *sig)
    mon.check(float(TU.date_diff(ax, da, dc)) == (c - a) / float(U[ax.units]), 'date_diff', 'date_diff(%s, %s)' % (da, dc), 'diff', *sig)
  # wrapped dates
  if cal != 'Yearless':
    w = dict(year=int(rng.integers(-50, 3000)), month=int(rng.integers(-30, 40)), day=int(rng.integers(-100, 500)), hour=int(rng.integers(-100, 100)), minute=int(rng.integers(-200, 200)), second=int(rng.integers(-500, 500)))
  else: w = dict(day=int(rng.integers(-100, 500)), hour=int(rng.integers(-100, 100)), minute=int(rng.integers(-200, 200)), second=int(rng.integers(-500, 500)))
  for q in list(w):
    if q != 'year' and q != 'day' and chance(rng, .3): w.pop(q)
  t = int(secs(cal, w)); keep = dict(w)
  got = mon.op('wrapdate', lambda: TU.wrapdate(ax, w) if chance(rng, .8) else ax.wrapdate(w))
  want = date(cal, t)
  want = {q: want[q] for q in want if q in ax.startdate}
  mon.check({q: int(z) for q, z in got.items()} == want, 'wrapdate', 'wrapdate(%s) = %s, expected %s' % (w, got, want), 'wrap', *sig)
  mon.check(w == keep, 'wrapdate', 'wrapdate changed its argument', 'wrap-arg')
  # two axes expressed in the same terms
  s2 = random_time(rng, cal) + np.arange(int(rng.integers(1, 6))) * 86400
  ay = axis(rng, cal, s2)
  x1, y1 = mon.op('conform_values', lambda: TU.conform_values(ax, ay))
  b1 = int(secs(cal, full(cal, {q: int(np.ravel(z)[0]) for q, z in y1.startdate.items()})))
  mon.check(x1.units == y1.units and np.array_equal(axsecs(cal, x1), s) and np.array_equal(axsecs(cal, y1), s2) and np.array_equal(np.asarray(x1.values, 'd'), (s - b1) / float(U[x1.units])) and np.array_equal(np.asarray(y1.values, 'd'), (s2 - b1) / float(U[x1.units])),
    'conform', 'conform_values: %s %s / %s %s' % (x1.startdate, x1.values[:4], y1.startdate, y1.values[:4]), 'conform', *sig)

def k_modify(rng, mon, cal):
  from pygeode import timeutils as TU
  n = int(rng.integers(1, 60)); res = choice(rng, [3600 * 6, 86400, 86400 * 20, 86400 * 200])
  s = random_time(rng, cal) // 3600 * 3600 + np.sort(rng.permutation(2 * n)[:n]) * res
  ax = axis(rng, cal, s, units='hours')
  f = fields(cal, s); al = allowed(cal)
  kw = {}; keep = list(al)
  if chance(rng, .5): r = choice(rng, al); kw['resolution'] = r; keep = [k for k in keep if al.index(k) <= al.index(r)]
  if chance(rng, .4): e = [k for k in al if chance(rng, .4)]; kw['exclude'] = e[0] if len(e) == 1 and chance(rng, .5) else e; keep = [k for k in keep if k not in e]
  if chance(rng, .3):
    e = [k for k in al if chance(rng, .6)]
    if e: kw['include'] = e[0] if len(e) == 1 and chance(rng, .5) else e; keep = [k for k in keep if k in e]
  if not keep: mon.ev(); return
  uq = chance(rng, .6); kw['uniquify'] = uq
  rows = [tuple(int(f[k][q]) for k in keep) for q in range(n)]
  want = sorted(set(rows)) if uq else rows
  got = mon.op('modify', lambda: TU.modify(ax, **kw)); mon.hit('arithmetic')
  mon.context[:] = ['%s %s since %s: %s' % (cal, len(ax), ax.startdate, kw)]
  have = [tuple(int(got.auxarrays[k][q]) for k in keep if k in got.auxarrays) for q in range(len(got))]
  mon.check(set(got.auxarrays) == set(keep) and have == want, 'modify', 'modify keeps %s: %s, expected %s: %s' % (sorted(got.auxarrays), have[:8], keep, want[:8]), 'modify', cal, res, tuple(keep), uq)
  mon.check(type(got) is type(ax) and all(np.array_equal(ax.auxarrays[k], f[k]) for k in al), 'modify', 'the given axis was changed', 'modify-arg')
  d = np.diff(np.asarray(got.values, 'd'))
  mon.check(bool((d > 0).all()) or not uq, 'modify', 'values of the modified axis are not increasing: %s (%s)' % (got.values, have[:8]), 'modify-order', cal, tuple(keep)) if contiguous(al, keep) else None

def contiguous(al, keep):
  i = [al.index(k) for k in keep]; return i == list(range(i[0], i[0] + len(i)))

# ---------------------------------------------------------------- lags
def others(rng, k):
  return vlib.make_axes(rng, k, kinds=['Lat', 'Lon', 'Pres', 'NamedAxis'], nmax=4)

def place(rng, ax):
  """Axes of a variable holding ax somewhere, and its position."""
  k = int(choice(rng, [0, 0, 1, 1, 2])); o = others(rng, k); p = int(rng.integers(0, len(o) + 1))
  return o[:p] + [ax] + o[p:], p

def parts(rng, mon, v, want, key, rtol=0., n=2):
  for _ in range(n):
    sels = [vlib.random_selector(rng, m) for m in v.shape]
    w = mon.op('slice', lambda: v.slice[tuple(q for q, _ in sels)])
    got = mon.op(key + ':part', lambda: w.get()); mon.hit('parts')
    mon.same(got, vlib.fullsel(want, [q for _, q in sels]), key + ':part', lambda: 'part %s' % ([q for q, _ in sels],), rtol=rtol)

def k_lag(rng, mon, cal):
  from pygeode import timeutils as TU
  n = int(rng.integers(2, 25)); res = choice(rng, [3600, 86400, 86400 * 5])
  ax = axis(rng, cal, random_time(rng, cal) + np.arange(n) * res, units=choice(rng, ['days', 'hours']))
  axes, p = place(rng, ax); shape = [len(a) for a in axes]
  dt = choice(rng, ['d', 'd', 'f', 'i4'])
  data = (np.arange(np.prod(shape)).reshape(shape) + 1).astype(dt)
  v = vlib.make_var(rng, axes, data, name='v', atts={'units': 'K'})
  L = int(rng.integers(1, 6)); m = choice(rng, [2, n, 2 * n])
  lags = [int(q) for q in rng.integers(-m, m + 1, L)]
  if chance(rng, .6): lags = sorted(set(lags))
  lags = choice(rng, [list, list, np.array])(lags)
  rev = chance(rng, .3)
  ia = choice(rng, [p, ax.name, type(ax)])
  mon.context[:] = ['lag of %s axis %d by %s reverse=%s' % (vlib.describe(v), p, lags, rev)]
  w = mon.op('lag', lambda: TU.lag(v, ia, lags, reverse=rev) if rev or chance(rng, .5) else TU.lag(v, ia, lags)); mon.hit('lagged')
  lg = [int(q) for q in lags][::-1 if rev else 1]
  out = np.full(data.shape[:p + 1] + (len(lg),) + data.shape[p + 1:], np.nan)
  for k, l in enumerate(lg):
    for t in range(n):
      ix = (slice(None),) * p
      if 0 <= t + l < n: out[ix + (t, k)] = data[ix + (t + l,)]
      else: mon.hit('lag_outside')
  sig = ('lag', cal, p, len(shape), dt, L, rev, m > n)
  got = mon.op('lag:get', lambda: w.get())
  mon.same(got, out, 'lag', 'lagged variable', sig=sig)
  mon.check(w.dtype == np.asarray(got).dtype and w.dtype.kind == 'f', 'lag-dtype', 'dtype %s' % w.dtype, *sig)
  la = w.axes[p + 1]
  d = res / float(U[ax.units]) * (-1 if rev else 1)
  mon.check(la.name == 'lag' and la.units == ax.units and vlib.close(np.asarray(la.values, 'd'), d * np.array(lg), 1e-12, 1e-9), 'lag-axis', 'lag axis %r: %r %r, expected %r %r' % (la.name, list(la.values), la.units, list(d * np.array(lg)), ax.units), *sig)
  mon.check([a is b for a, b in zip(w.axes[:p + 1] + w.axes[p + 2:], v.axes)] == [True] * v.naxes and w.name == 'v' and w.atts.get('units') == 'K', 'lag-meta', 'axes/name/attributes of the lagged variable', *sig)
  if len(set(lg)) == len(lg): parts(rng, mon, w, out, 'lag')

# ---------------------------------------------------------------- leap days
def k_leap(rng, mon, cal):
  from pygeode import timeutils as TU
  from pygeode import timeaxis as T
  if chance(rng, .85): cal = 'StandardTime'
  elif cal in ('Yearless', 'ModelTime360'): cal = 'ModelTime365'
  y0 = int(choice(rng, [1999, 2000, 1899, 1900, 2003, int(rng.integers(1, 3000))])); ny = int(rng.integers(1, 4))
  a = int(daynum(cal, y0, int(rng.integers(1, 13)), int(rng.integers(1, 28)))); nd = int(rng.integers(40, 366 * ny))
  sub = choice(rng, [1, 1, 2, 4]); s = (a * 86400 + np.arange(nd * sub) * (86400 // sub))
  if chance(rng, .3): s = s[np.sort(rng.permutation(len(s))[:int(rng.integers(len(s) // 2, len(s)))])]
  if chance(rng, .2): s = s + int(choice(rng, [3600, 1800]))
  ax = axis(rng, cal, s, units=choice(rng, ['days', 'hours']))
  axes, p = place(rng, ax); axes = [x if x is ax else x.slice[:2] for x in axes]; shape = [len(x) for x in axes]
  data = np.arange(np.prod(shape)).reshape(shape) * 1.
  v = vlib.make_var(rng, axes, data, name='v', atts={'units': 'K'})
  how = choice(rng, ['default', 'default', 'leap', '360', 'both'])
  f = fields(cal, s)
  doy = s // 86400 - daynum(cal, f['year'], 1, 1) + 1
  leap = (daynum(cal, f['year'] + 1, 1, 1) - daynum(cal, f['year'], 1, 1)) == 366
  new = 'ModelTime365'; kw = {}; ol, on = [60], []
  if how == 'leap': ol = [int(rng.integers(1, 367))]; kw = dict(omitdoy_leap=list(ol))
  elif how == 'both': ol = sorted(int(q) for q in rng.permutation(366)[:6] + 1); on = sorted(int(q) for q in rng.permutation(365)[:5] + 1); new = 'ModelTime360'; kw = dict(omitdoy_leap=list(ol), omitdoy_noleap=list(on), new_axis_type=T.ModelTime360)
  elif how == '360': ol = [60, 31, 122, 183, 244, 305][::-1]; on = [31, 122, 183, 244, 305]; new = 'ModelTime360'; kw = dict(omitdoy_leap=list(ol), omitdoy_noleap=list(on), new_axis_type=T.ModelTime360)
  omit = np.where(leap, np.isin(doy, ol), np.isin(doy, on))
  keep = np.flatnonzero(~omit)
  # a year with nothing left is of no interest here
  if set(f['year']) != set(f['year'][keep]) or not len(keep): mon.ev(); return
  mon.context[:] = ['removeleapyears(%s, %s) from %s, %d times, %d a day' % (vlib.describe(v), kw, date(cal, s[0]), len(s), sub)]
  w = mon.op('removeleapyears', lambda: TU.removeleapyears(v, **kw)); mon.hit('leap_removed')
  sig = ('leap', cal, how, sub, p, bool(omit.any()))
  ix = [np.arange(m) for m in shape]; ix[p] = keep
  want = data[np.ix_(*ix)]
  mon.same(mon.op('get', lambda: w.get()), want, 'leap', 'data without the omitted days', sig=sig)
  nd2 = doy[keep] - np.array([sum(1 for q in (ol if l else on) if q < d) for d, l in zip(doy[keep], leap[keep])])
  ws = (daynum(new, f['year'][keep], 1, 1) + nd2 - 1) * 86400 + s[keep] % 86400
  na = w.axes[p]
  mon.check(type(na).__name__ == new and np.array_equal(axsecs(new, na), ws), 'leap-dates', lambda: 'dates after removal: first difference %s' % [(date(cal, s[keep[q]]), date(new, axsecs(new, na)[q]), 'expected', date(new, ws[q])) for q in range(len(ws)) if axsecs(new, na)[q] != ws[q]][:2], *sig)
  mon.check(np.array_equal(np.sort(np.asarray(na.values)), np.asarray(na.values)) and len(set(map(float, na.values))) == len(na), 'leap-order', 'times out of order', *sig)
  mon.check(all(x == y for q, (x, y) in enumerate(zip(w.axes, v.axes)) if q != p), 'leap-axes', 'other axes changed', *sig)
  if len(set(map(int, ws))) == len(ws): parts(rng, mon, w, want, 'leap', n=1)

# ---------------------------------------------------------------- years and days
def k_split(rng, mon, cal):
  from pygeode import timeutils as TU
  if cal == 'Yearless': cal = 'StandardTime'
  res = choice(rng, [86400, 86400 * 30, 6 * 3600, 86400 * 73])
  n = int(rng.integers(1, 50)); y0 = int(rng.integers(1, 2500)); ny = int(rng.integers(1, 5))
  if chance(rng, .5):   # complete years
    d = np.sort(rng.permutation(min(360, 12 * n))[:n]); s = np.concatenate([(daynum(cal, y0 + k, 1, 1) + d) * 86400 for k in range(ny)])
  else: s = int(daynum(cal, y0, int(rng.integers(1, 13)), 1)) * 86400 + np.sort(rng.permutation(6 * n)[:n]) * res
  ax = axis(rng, cal, s, units=choice(rng, ['days', 'hours']))
  axes, p = place(rng, ax); axes = [x if x is ax else x.slice[:3] for x in axes]; shape = [len(x) for x in axes]
  dt = choice(rng, ['d', 'd', 'f', 'i4'])
  data = (np.arange(np.prod(shape)).reshape(shape) + 1).astype(dt)
  v = vlib.make_var(rng, axes, data, name='v', atts={'units': 'K'})
  mon.context[:] = ['split of %s axis %d, from %s, %d times, dtype %s' % (vlib.describe(v), p, date(cal, s[0]), len(s), dt)]
  w = mon.op('splittimeaxis', lambda: TU.splittimeaxis(v) if chance(rng, .5) else TU.splittimeaxis(v, choice(rng, [p, 'time']))); mon.hit('split')
  ya, da = w.axes[p], w.axes[p + 1]
  f = fields(cal, s); fl = ('month', 'day', 'hour', 'minute', 'second')
  years = sorted(set(int(q) for q in f['year'])); days = sorted(set(tuple(int(f[k][q]) for k in fl) for q in range(len(s))))
  have = [tuple(int(da.auxarrays[k][q]) for k in fl) for q in range(len(da))]
  sig = ('split', cal, res, p, len(shape), dt, min(len(years), 3), len(years) * len(days) == len(s))
  mon.check(ya.name == 'year' and [int(q) for q in ya.values] == years and da.name == 'day' and have == days and 'year' not in da.auxarrays, 'split-axes', 'year axis %s, day axis %s; expected %s, %s' % (ya.values, have[:6], years, days[:6]), *sig)
  if have != days or len(ya) != len(years): return
  want = np.full(tuple(shape[:p]) + (len(years), len(days)) + tuple(shape[p + 1:]), np.nan)
  ix = (slice(None),) * p
  for q in range(len(s)):
    want[ix + (years.index(int(f['year'][q])), days.index(tuple(int(f[k][q]) for k in fl)))] = data[ix + (q,)]
  got = mon.op('split:get', lambda: w.get())
  mon.same(got, want, 'split', 'split variable', sig=sig)
  mon.check(w.name == 'v' and w.atts.get('units') == 'K', 'split-meta', 'name/attributes lost: %r %s' % (w.name, w.atts), *sig)
  parts(rng, mon, w, want, 'split')
  # and joined again
  j = mon.op('jointimeaxes', lambda: TU.jointimeaxes(w) if chance(rng, .5) else TU.jointimeaxes(w, p, p + 1)); mon.hit('joined')
  jt = j.axes[p]
  jf = [(int(jt.auxarrays['year'][q]),) + tuple(int(jt.auxarrays[k][q]) for k in fl) for q in range(len(jt))]
  mon.check(type(jt) is type(ax) and jf == [(y,) + d for y in years for d in days], 'join-axis', 'dates after joining: %s' % jf[:6], 'join', *sig)
  back = want.reshape(tuple(shape[:p]) + (-1,) + tuple(shape[p + 1:]))
  mon.same(mon.op('join:get', lambda: j.get()), back, 'join', 'joined variable', sig=('join',) + sig)
  if len(set(map(float, jt.values))) == len(jt):
    parts(rng, mon, j, back, 'join')
    # the original dates hold the original values
    sel = mon.op('map', lambda: jt.map_to(ax))
    mon.check(sel is not None and len(sel) == len(ax), 'join-map', 'not all original dates are found after joining: %r' % (sel,), 'map', *sig)
    if sel is not None and len(sel) == len(ax):
      q = [slice(None)] * j.naxes; q[p] = [int(z) for z in sel]
      mon.same(mon.op('join:orig', lambda: j.slice[tuple(q)].get()), data.astype('d'), 'join-orig', 'values at the original dates', sig=('orig',) + sig)
  mon.check(j.name == 'v' and j.atts.get('units') == 'K', 'join-meta', 'name/attributes lost: %r %s' % (j.name, j.atts), *sig)
  # the day axis may be further right
  if w.naxes > 2 and p + 2 < w.naxes and chance(rng, .5):
    o = [q for q in range(w.naxes) if q != p + 1] + [p + 1]
    t = w.transpose(*o); jj = mon.op('jointimeaxes', lambda: TU.jointimeaxes(t, 'year', 'day'))
    mon.same(mon.op('join:get', lambda: jj.get()), back, 'join-transposed', 'joined variable (day axis last)', sig=('joint',) + sig)
    parts(rng, mon, jj, back, 'join-transposed', n=1)

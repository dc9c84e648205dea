"""C29: axis ticks and labels name the right coordinates."""
N_QUICK = 12000
N_THOROUGH = 250000
BUDGET_QUICK = 100
BUDGET_THOROUGH = 700
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: ticks of every time locator are compared with all calendar boundaries of the view, enumerated by an independent calendar; labels and offsets with the date of their tick; formatted coordinates with their documented form'
RULE = ('a case is a view of a time axis (calendar, units, reference date, span from seconds to millennia, automatic or fixed locator) or a block of coordinates formatted by an axis (longitude, latitude, pressure, other coordinates, stations, printed axes and variables); '
        'non-trivial: at least one tick in the view or one value formatted; distinct by (calendar, units, locator, multiple, size of the span) or (axis class, format, options)')
REQUIRE = {'views': 1500, 'ticks': 20000, 'auto': 900, 'fixed': 500, 'labels': 8000, 'formatted': 4000, 'hemispheres': 2000, 'printed': 500, 'seasonal': 100, 'drawn': 60}
ASSUMPTIONS = ['views span at least ten seconds (ten days for seasonal axes) and at most 3000 years', 'views are increasing']
import os, sys
import numpy as np
sys.path.append(os.path.dirname(os.path.abspath(__file__)))
import vlib
import c11
from vlib import choice, chance

# ---------------------------------------------------------------- boundaries of a calendar
U = c11.U
def bounds(cal, unit, m, s0, s1):
  """Sorted times (in seconds) of all boundaries of the multiples of a unit between s0 and s1, with a margin."""
  lo, hi = c11.fields(cal, np.floor(s0)), c11.fields(cal, np.ceil(s1))
  if unit == 'year':
    a, b = int(lo['year']) // m - 1, int(hi['year']) // m + 2
    return c11.secs(cal, dict(year=np.arange(a, b) * m))
  if unit == 'month':
    a, b = int(lo['year']) - 1, int(hi['year']) + 2
    y, q = np.divmod(np.arange(a * 12, b * 12), 12); k = q % m == 0
    return c11.secs(cal, dict(year=y[k], month=q[k] + 1))
  d = np.arange(int(np.floor(s0 / 86400)) - max(m, 1) * (unit == 'dayno') - 1, int(np.ceil(s1 / 86400)) + max(m, 1) * (unit == 'dayno') + 2)
  if unit == 'dayno': return d[d % m == 0] * 86400
  if unit == 'day':
    y, mo, dd = c11.daydate(cal, d); nxt = c11.daynum(cal, y, mo + 1, 1)
    k = ((dd - 1) % m == 0) & ((nxt - d >= m / 2.) | (dd == 1))
    return d[k] * 86400
  n, u, parent = {'hour': (24, 3600, 86400), 'minute': (60, 60, 3600), 'second': (60, 1, 60)}[unit]
  p = np.arange(int(np.floor(s0 / parent)) - 1, int(np.ceil(s1 / parent)) + 2) * parent
  f = np.arange(0, n, m); f = f[(f == 0) | (n - f >= m / 2.)]
  return (p[:, None] + f * u).ravel()

SIZE = dict(year=360 * 86400, month=28 * 86400, day=86400, dayno=86400, hour=3600, minute=60, second=1)
MULTS = dict(year=[1, 2, 3, 5, 10, 20, 30, 50, 100, 200, 300, 500], month=[1, 2, 3, 6], day=[1, 2, 3, 5, 10, 15], hour=[1, 2, 3, 6, 12], minute=[1, 2, 3, 5, 10, 15, 30], second=[1, 2, 3, 5, 10, 15, 30],
             dayno=[1, 2, 3, 5, 10, 30, 50, 100, 200, 300, 500, 1000, 2000, 3000, 5000, 10000])
class FakeAxis:
  def __init__(self, a, b): self.v = a, b
  def get_view_interval(self): return self.v

def time_axis(rng, cal, s0, s1, units):
  """An axis whose reference date is somewhere near the view."""
  ref = int(s0 + rng.integers(-400, 400) * 86400 * choice(rng, [0, 1, 10, 60])) // 86400 * 86400
  if chance(rng, .3): ref += int(rng.integers(86400))
  f = c11.date(cal, ref); u = U[units]
  v = (np.linspace(s0, s1, 5) - ref) / u
  return c11.cls(cal)(values=v, units=units, startdate=f), ref

def compare(mon, got, unit, m, cal, s0, s1, key, sig):
  """The ticks inside the view are the boundaries inside the view; ticks outside are boundaries, too."""
  b = bounds(cal, unit, m, s0, s1); tol = 1e-7 * (s1 - s0) + 1e-3 + 1e-12 * abs(s0)
  inside = b[(b > s0 + tol) & (b < s1 - tol)]
  g = got[(got > s0 + tol) & (got < s1 - tol)]
  return len(g) == len(inside) and np.abs(g - inside).max(initial=0) < tol

def k_ticks(rng, mon):
  from pygeode import timeticker as tt
  cal = choice(rng, c11.CALS); units = choice(rng, list(U))
  span = 10 ** rng.uniform(1, 10.9 if cal != 'Yearless' else 9.5)
  y = int(choice(rng, [rng.integers(1, 2100), 2000, 1999, 1900, 4, 0, -int(rng.integers(1, 300))]))
  s0 = float(c11.secs(cal, dict(year=y, month=int(rng.integers(1, 13)), day=int(rng.integers(1, 29))))) if cal != 'Yearless' else float(rng.integers(-3000, 3000) * 86400)
  s0 += float(choice(rng, [0, rng.integers(86400), rng.integers(24) * 3600, rng.uniform(0, 86400)]))
  if chance(rng, .3): s0 = np.floor(s0); span = np.ceil(span)
  s1 = s0 + span
  t, ref = time_axis(rng, cal, s0, s1, units); u = U[units]
  v0, v1 = (s0 - ref) / u, (s1 - ref) / u
  mon.context.append('%s in %s since %s: view %.6f to %.6f (%s to %s)' % (cal, units, t.startdate, v0, v1, c11.date(cal, np.floor(s0)), c11.date(cal, np.floor(s1))))
  mon.hit('views'); lab = int(np.log10(span) * 2)
  if chance(rng, .62):
    nt = int(choice(rng, [5, 5, 5, 3, 8, 12])); L = t.locator() if nt == 5 else tt.AutoCalendarLocator(t, nticks=nt)
    L.axis = FakeAxis(v0, v1); mon.context.append('automatic, %d ticks' % nt); mon.hit('auto')
    if chance(rng, .4):                                   # another view before this one (zooming)
      z = 10 ** rng.uniform(-2, 2); L.axis = FakeAxis(v0, v0 + min(max(z * span, 10), 8e10) / u); mon.op('ticks', lambda: L()); L.axis = FakeAxis(v0, v1); mon.context.append('after a view %.3g times as wide' % z)
    got = np.asarray(mon.op('ticks', lambda: L()), 'd') * u + ref
    if not mon.check(np.isfinite(got).all() and (np.diff(got) > 0).all(), 'tick-order', 'ticks %s' % got, cal, units, 'auto'): return
    inside = got[(got >= s0) & (got <= s1)]
    cands = [(un, m) for un in (['year', 'month', 'day', 'hour', 'minute', 'second'] if cal != 'Yearless' else ['dayno', 'hour', 'minute', 'second']) for m in MULTS[un] if span / (SIZE[un] * m) <= 90]
    if not mon.check(any(compare(mon, got, un, m, cal, s0, s1, None, None) for un, m in cands), 'tick-boundaries', 'ticks at %s are not the boundaries of any unit' % [c11.date(cal, round(x)) for x in got[:9]], cal, units, 'auto', lab): return
    if (span >= 60 and cal != 'Yearless') or 60 < span < 3e8: mon.check(1 <= len(inside) <= 10 * nt, 'tick-count', '%d ticks in the view, %d asked for' % (len(inside), nt), cal, units, 'auto', lab)
    mon.hit('ticks', len(inside)); mon.ev(cal, units, 'auto', nt, lab)
    if len(got) >= 1:
      f = mon.op('formatter', lambda: t.formatter()); vals = (got - ref) / u
      text = mon.op('labels', lambda: f.format_ticks(list(vals) if chance(rng, .5) else vals)); ofs = f.get_offset()
      for x, l in zip(vals, text):
        forms = [t.formatvalue(x, a[1]) for a in t.autofmts]
        mon.check(l in forms, 'label', 'label %r at %s' % (l, c11.date(cal, round(x * u + ref))), cal, units, 'label'); mon.hit('labels')
      mon.check(ofs in [''] + [t.formatvalue(x, a[2]) for x in vals[:1] for a in t.autofmts], 'label', 'offset %r' % ofs, cal, units, 'offset')
      mon.check(all(p != q for p, q in zip(text, text[1:])), 'labels-alike', 'labels %s for ticks at %s' % (text, [c11.date(cal, round(x)) for x in got]), cal, units, 'distinct', lab)
  else:
    un = choice(rng, ['year', 'month', 'day', 'hour', 'minute', 'second'] if cal != 'Yearless' else ['dayno', 'hour', 'minute', 'second'])
    n = float(rng.uniform(1.2, 30)); m = int(choice(rng, MULTS[un][:8] + {'year': [7], 'day': [4, 7], 'hour': [4, 5, 8], 'minute': [7, 20], 'second': [20, 12], 'month': [4], 'dayno': [7]}[un]))
    s1 = s0 + max(n * m * SIZE[un] * {'year': 1.02, 'month': 1.1}.get(un, 1), 10); v1 = (s1 - ref) / u
    if s1 - s0 > 9e10: return
    C = dict(year=tt.YearLocator, month=tt.MonthLocator, day=tt.DayOfMonthLocator, dayno=tt.DayLocator, hour=tt.HourLocator, minute=tt.MinuteLocator, second=tt.SecondLocator)[un]
    L = C(t, m); L.axis = FakeAxis(v0, v1); mon.context.append('every %d %s, view to %.6f' % (m, un, v1)); mon.hit('fixed')
    got = np.asarray(mon.op('ticks', lambda: L()), 'd') * u + ref
    if not mon.check(np.isfinite(got).all() and (np.diff(got) > 0).all(), 'tick-order', 'ticks %s' % got, cal, units, un): return
    b = bounds(cal, un, m, s0, s1); e = b[(b >= s0) & (b <= s1)]
    mon.check(compare(mon, got, un, m, cal, s0, s1, None, None), 'tick-boundaries', 'ticks at %s, expected %s' % ([c11.date(cal, round(x)) for x in got[:12]], [c11.date(cal, x) for x in e[:12]]), cal, units, un, m)
    mon.hit('ticks', len(got)); mon.ev(cal, units, un, m, int(n / 5))

def k_seasons(rng, mon):
  from pygeode import timeaxis as T, timeticker as tt
  cal = choice(rng, ['StandardTime', 'ModelTime365']); C = getattr(T, 'Seasonal' + cal)
  y = int(rng.integers(1900, 2050)); n = int(rng.integers(4, 60)); q = np.arange(n) + int(rng.integers(4))
  t = C(year=y + q // 4, season=q % 4 + 1, startdate=dict(year=y), units='days')
  v0, v1 = float(t.values[0]) - rng.uniform(1, 40), float(t.values[-1]) + rng.uniform(1, 40)
  mon.context.append('%s from %d season %d, %d seasons' % (cal, y, q[0] % 4 + 1, n)); mon.hit('seasonal')
  for L, per in [(t.locator(), None), (tt.YearLocator(t, 1), 1)]:
    L.axis = FakeAxis(v0, v1); got = np.asarray(mon.op('ticks', lambda: L()), 'd')
    sig = (cal, per, n // 10)
    if not mon.check(np.isfinite(got).all() and (np.diff(got) > 0).all(), 'tick-order', 'ticks %s' % got, *sig): continue
    g = got[(got >= v0) & (got <= v1)]
    mon.check(len(g) >= 1 or n < 9, 'tick-count', '%d ticks in the view' % len(g), *sig); mon.hit('ticks', len(g))
    # every tick is the date of a season
    d = t.val_as_date(g, allfields=True)
    back = t.date_as_val(dict(year=d['year'], season=d['season']))
    mon.check(vlib.close(np.asarray(back, 'd').ravel(), g), 'tick-boundaries', 'ticks %s, seasons at %s' % (g, back), *sig)
    for x in g[:6]:
      j = np.abs(t.values - x).argmin()
      if abs(t.values[j] - x) < .01:
        s = int(t.auxarrays['season'][j]); yy = int(t.auxarrays['year'][j]); l = t.formatvalue(x, '$s $Y')
        mon.check(l == '%s %d' % (['DJF', 'MAM', 'JJA', 'SON'][s - 1], yy), 'label', 'season %d of %d formatted as %r' % (s, yy, l), *sig); mon.hit('labels')

# ---------------------------------------------------------------- formatted coordinates
def k_format(rng, mon):
  from pygeode.axis import Lon, Lat, Pres, Height, XAxis, ZAxis, Hybrid, NonCoordinateAxis, Station, AxisFormatter, Index, SpectralM, Freq
  from pygeode.var import Var
  kind = choice(rng, ['lon', 'lat', 'pres', 'other', 'station', 'lon', 'lat', 'pres'])
  spec = choice(rng, ['%g', '%d', '%.3g', '%.4g', '%.1f', '%6.2f', '%.2f', '%5g', '%.5e'])
  n = int(rng.integers(1, 6)); us, ustr = choice(rng, [None, False, True]), choice(rng, [None, None, 'UU', 'deg'])
  kw = {} if us is None else dict(units=us)
  if ustr is not None: kw['unitstr'] = ustr
  if kind == 'lon':
    vals = np.round(rng.uniform(-400, 800, n) * 4) / 4; vals[0] = choice(rng, [0., 180., -180., 360., 179.75, 180.25, 540., -.25, vals[0]])
    a = Lon(np.sort(np.unique(vals)), **({} if chance(rng, .7) else dict(units='degE')))
    hem = choice(rng, ['E', ' E', 'E<360', ' E<360', 'E<90', 'E<270', '']); fmt = spec + hem; cut = float(hem.split('<')[1]) if '<' in hem else 180.
    if chance(rng, .15): fmt = None; spec = '%.3g'; hem = ' E<360'; cut = 360.
    def want(x):
      if not hem: return spec % x
      w = x % 360.; pre = hem.split('E')[0]
      return (spec % w + pre + 'E') if w < cut else (spec % (360. - w) + pre + 'W')
    mon.hit('hemispheres', n)
  elif kind == 'lat':
    vals = np.round(rng.uniform(-90, 90, n) * 4) / 4; vals[0] = choice(rng, [0., 90., -90., .25, -.25]); a = Lat(np.unique(vals)); hem = choice(rng, ['N', ' N', '', ' N']); fmt = spec + hem
    if chance(rng, .15): fmt = None; spec = '%.2g'; hem = ' N'
    def want(x):
      if not hem: return spec % x
      return 'EQ' if x == 0 else spec % abs(x) + hem[:-1] + ('N' if x > 0 else 'S')
    mon.hit('hemispheres', n)
  elif kind == 'pres':
    vals = np.unique(np.round(10 ** rng.uniform(-2, 3, n), 3)); vals = np.where(vals > 5, np.round(vals), vals); vals[-1] = choice(rng, [100., 1000., vals[-1]]); a = Pres(np.unique(vals), **({} if chance(rng, .7) else dict(units='Pa')))
    brk = choice(rng, [None, 100., 10., 5.]); fmt = spec + ('' if brk is None else '<%g' % brk)
    if chance(rng, .15): fmt = None; spec = '%.2g'; brk = 100.
    want = lambda x: ('%d' % x) if brk is not None and x >= brk else spec % x
  elif kind == 'other':
    vals = np.unique(np.round(rng.uniform(-50, 50, n), 2)); C = choice(rng, [Height, XAxis, ZAxis, Var]); fmt = choice(rng, [spec, None])
    if C is Var: ax = XAxis(np.arange(len(vals))); a = Var((ax,), values=vals, name='q'); a.units = 'K'
    else: a = C(vals, units=choice(rng, ['m', 'km', '']))
    sp = spec if fmt else a.formatstr
    want = lambda x: sp % x
  else:
    k = int(rng.integers(2, 6)); nm = [choice(rng, 'abcdefgh') + str(q) for q in range(k)]; C = choice(rng, [NonCoordinateAxis, Station]); own = chance(rng, .5)
    a = Station(station=nm, lat=rng.integers(0, 9, k)) if C is Station and own else C(name='p', code=nm)
    mon.context.append('stations %s' % nm); sig = (C.__name__, own); key = 'station' if C is Station and own else 'code'
    b = a
    if chance(rng, .5):
      sl = slice(int(rng.integers(0, k)), None); b = a.slice[sl] if hasattr(a, 'slice') else a; nm = nm[sl]
    for q, x in enumerate(nm):
      got = b.formatvalue(b.values[q]); mon.hit('formatted')
      mon.check((got == x) if key == 'station' else ('code=' + x) in got, 'format:station', 'entry %d is formatted as %r, expected %s' % (q, got, x), *sig)
    return
  mon.context.append('%s %s fmt %r %s' % (type(a).__name__, getattr(a, 'units', ''), fmt, kw)); sig = (type(a).__name__, spec, fmt, us, ustr)
  deflt = not (kind in ('lon', 'lat'))                    # (units shown by default)
  shown = deflt if us is None else us
  for x in np.ravel(vals):
    x = float(x); got = mon.op('formatvalue', lambda: a.formatvalue(x, fmt, **kw)); w = want(x)
    if shown: w += ' ' + (ustr if ustr is not None else a.units)
    mon.check(got == w, 'format:' + kind, 'formatvalue(%r, %r, %s) = %r, expected %r' % (x, fmt, kw, got, w), *sig); mon.hit('formatted')
    mon.check(a.formatvalue(np.float64(x), fmt, **kw) == got and a.formatvalue(np.float32(x), fmt, **kw) == (a.formatvalue(float(np.float32(x)), fmt, **kw)), 'format:' + kind, 'depends on the type of the number', *sig)
  if kind != 'other' or type(a).__name__ != 'Var':
    f = mon.op('formatter', lambda: AxisFormatter(a, fmt=fmt)) if fmt else a.formatter()
    for x in np.ravel(vals)[:3]:
      w = a.formatvalue(x, fmt or a.plotatts.get('plotfmt') or None, units=False)
      mon.check(f(x) == w, 'formatter', 'tick label %r, expected %r' % (f(x), w), *sig)

def k_printed(rng, mon):
  """Printing an axis or a variable gives the name, the length and the first and last coordinate."""
  kind = choice(rng, ['Lat', 'Lon', 'Pres', 'Height', 'XAxis', 'NamedAxis', 'StandardTime', 'ModelTime365', 'ModelTime360', 'Yearless'])
  n = int(rng.integers(1, 9)); a = vlib.make_axis(rng, kind, n, order=choice(rng, ['inc', 'dec'])); mon.context.append(vlib.describe(a) if False else '%s %s' % (kind, a.values))
  s = mon.op('str', lambda: str(a)); first, last = a.formatvalue(a.values[0]), a.formatvalue(a.values[-1])
  mon.check(first in s and a.name in s and (n == 1 or ((first + ' to ' + last) in s and '(%d values)' % n in s)), 'printed', 'axis printed as %r, coordinates %s to %s' % (s, first, last), kind, n); mon.hit('printed')
  from pygeode.var import Var
  b = vlib.make_axis(rng, 'XAxis' if kind != 'XAxis' else 'Lat', int(rng.integers(1, 5)))
  v = Var((a, b), values=np.zeros((n, len(b))), name='temp', atts=dict(long_name='Air temperature')); v.units = 'K'
  t = mon.op('str', lambda: str(v)); mon.check('temp' in t and str(a).strip() in t and str(b).strip() in t and 'K' in t and 'Air temperature' in t and '(%d,%d)' % (n, len(b)) in t, 'printed', 'variable printed as %r' % t, kind, 'var'); mon.hit('printed')
  from pygeode.dataset import Dataset
  d = mon.op('str', lambda: str(Dataset([v], atts=dict(title='A title')))); mon.check('temp' in d and 'A title' in d and str(a).strip() in d, 'printed', 'dataset printed as %r' % d, kind, 'dataset')
  from pygeode.view import View
  j = int(rng.integers(n)); w = mon.op('str', lambda: str(View((a, b), (j, slice(None))))); mon.check(a.name in w and a.formatvalue(a.values[j]) in w, 'printed', 'view printed as %r' % w, kind, 'view')

def k_drawn(rng, mon):
  """Through matplotlib: the drawn tick labels of a time series."""
  os.environ['MPLBACKEND'] = 'Agg'
  import matplotlib; matplotlib.use('Agg')
  from matplotlib import pyplot as plt
  cal = choice(rng, c11.CALS); n = int(rng.integers(5, 40)); step = float(choice(rng, [1, 30, 400, .25, 1 / 24.])); y = int(rng.integers(1950, 2050))
  from pygeode.var import Var
  t = c11.cls(cal)(values=np.arange(n) * step + int(rng.integers(400)), units='days', startdate=dict(year=y) if cal != 'Yearless' else dict(day=1))
  mon.context.append('%s from %s, %d steps of %s days' % (cal, t.startdate, n, step)); mon.hit('drawn')
  fig = plt.figure(); ax = fig.add_subplot(111); ax.plot(t.values, np.arange(n)); ax.set_xlim(t.values[0], t.values[-1])
  ax.xaxis.set_major_locator(t.locator()); ax.xaxis.set_major_formatter(t.formatter())
  try:
    mon.op('draw', lambda: fig.canvas.draw())
    labs = [(x.get_position()[0], x.get_text()) for x in ax.get_xticklabels()]
    for x, l in labs:
      mon.check(l in [t.formatvalue(x, a[1]) for a in t.autofmts], 'label', 'label %r at %s (%s)' % (l, x, t.formatvalue(x)), cal, step, 'drawn'); mon.hit('labels')
    mon.check(len(labs) >= 1, 'tick-count', 'no ticks', cal, step, 'drawn')
  finally: plt.close(fig)

def case(rng, i, mon):
  mon.context[:] = []
  r = i % 20
  if r < 11: k_ticks(rng, mon)
  elif r < 12: k_seasons(rng, mon)
  elif r < 17: k_format(rng, mon)
  elif r < 19: k_printed(rng, mon)
  elif i % 40 == 19: k_drawn(rng, mon)
  else: k_format(rng, mon)

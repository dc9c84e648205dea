"""C28: plots show the variable's data at its coordinates."""
N_QUICK = 4500
N_THOROUGH = 30000
BUDGET_QUICK = 150
BUDGET_THOROUGH = 750
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: the drawing methods of matplotlib are hooked and every call they receive while a plot is rendered is compared with the coordinates and values of the plotted variable; limits, labels, levels, panels, colour bars and the inputs are monitored on the rendered figure'
RULE = ('a case is one plot: line, profile, histogram, scatter, filled and line contours (explicit levels, automatic styles, logarithmic styles), vectors, streamlines, significance masks, maps in several projections and their decorations, pages of figures, single drawing operations, columns and grids of panels, nested layouts, the earlier interface, or contour settings and norms themselves; '
        'axis classes, order, dtype, missing samples, single-point axes, scale factors and offsets on variables and axes, transposition, labels on or off; '
        'non-trivial: at least three points are drawn; distinct by (plot, axis classes, shape, dtype, options)')
REQUIRE = {'lines': 500, 'profiles': 80, 'contours': 600, 'levels': 900, 'vectors': 120, 'streams': 40, 'points': 80, 'histograms': 40, 'panels': 1000, 'boxes': 1400, 'masks': 150, 'maps': 14, 'scaled': 800, 'integers': 700, 'missing': 250, 'limits': 1500, 'labels': 500, 'colorbars': 230, 'norms': 150, 'unchanged': 2500, 'drawn': 250, 'earlier': 150, 'map_decorations': 120, 'pages': 300, 'operations': 600, 'images': 120, 'other_current': 18, 'removed': 35}
ASSUMPTIONS = ['matplotlib draws what it is given', 'numpy is correct']
import os
os.environ['MPLBACKEND'] = 'Agg'
import numpy as np
import vlib
from vlib import choice, chance

_rec = []; _depth = [0]; _done = []
def install():
  if _done: return
  _done.append(1)
  import warnings; warnings.simplefilter('ignore')
  import matplotlib; matplotlib.use('Agg')
  import matplotlib.axes as ma
  import pygeode.plot
  classes = [ma.Axes]
  try:
    from cartopy.mpl.geoaxes import GeoAxes; classes.append(GeoAxes)
  except ImportError: pass
  def wrap(cls, name):
    orig = cls.__dict__[name]
    def f(self, *a, **k):
      _depth[0] += 1
      try:
        if _depth[0] == 1: _rec.append((name, self, a, dict(k)))
        return orig(self, *a, **k)
      finally: _depth[0] -= 1
    setattr(cls, name, f)
  for cls in classes:
    for name in ['plot', 'contour', 'contourf', 'hist', 'scatter', 'quiver', 'streamplot', 'pcolor', 'pcolormesh']:
      if name in cls.__dict__: wrap(cls, name)

def calls(name): return [c for c in _rec if c[0] == name]

def case(rng, i, mon):
  install(); mon.context[:] = []; del _rec[:]
  from matplotlib import pyplot as plt
  kinds = [k_line, k_contour, k_contour, k_auto, k_vec, k_points, k_panels, k_layout, k_mask, k_settings, k_earlier, k_auto, k_lines, k_map, k_pages, k_draw]
  try:
    with np.errstate(all='ignore'): kinds[i % len(kinds)](rng, mon)
  finally:
    plt.close('all')

KINDS = ['Lat', 'Lon', 'Pres', 'Height', 'XAxis', 'YAxis', 'NamedAxis', 'StandardTime', 'ModelTime365', 'ModelTime360', 'Yearless']
def an_axis(rng, kind, n, scale=True):
  a = vlib.make_axis(rng, kind, n, order=choice(rng, ['inc', 'inc', 'dec']))
  if scale and vlib.GROUP[kind] != 'T':
    at = {}
    if chance(rng, .2): at['scalefactor'] = float(choice(rng, [2., .001, 7.]))
    if kind != 'Pres' and chance(rng, .15): at['offset'] = float(choice(rng, [10., -3.]))
    if chance(rng, .15): at['plotorder'] = -1
    if chance(rng, .1): at['plottitle'] = 'The axis'
    if at: a.plotatts = dict(a.plotatts, **at)
  return a

def sc(o, vals):
  f, c = o.plotatts.get('scalefactor'), o.plotatts.get('offset')
  v = np.array(vals, 'd')
  if f is not None: v = v * f
  if c is not None: v = v + c
  return v

def axlabel(a):
  p = {k: v for k, v in a.plotatts.items() if v is not None}
  if 'plottitle' in p: return p['plottitle']
  t = p.get('plotname', a.name) or ''
  u = p.get('plotunits', a.units or a.atts.get('units') or '')
  return t + (' [%s]' % u if u else '')

def degenerate(rng, used):
  out = []
  for k in [q for q in ['Lat', 'Lon', 'Pres', 'NamedAxis', 'StandardTime', 'YAxis'] if vlib.GROUP[q] not in used][:2]:
    if chance(rng, .3) and vlib.GROUP[k] not in used: used.add(vlib.GROUP[k]); out.append(vlib.make_axis(rng, k, 1))
  return out

def a_var(rng, mon, axes, Y, name='T'):
  """A variable holding Y over axes, and single-point axes in random places."""
  used = set(vlib.GROUP.get(type(a).__name__, 'N') for a in axes)
  allax = list(axes); D = Y
  for d in degenerate(rng, used):
    p = int(rng.integers(0, len(allax) + 1)); allax.insert(p, d); D = np.expand_dims(D, p)
  pa = {}
  if chance(rng, .3): pa['scalefactor'] = float(choice(rng, [2.5, 86400., .01]))
  if chance(rng, .2): pa['offset'] = float(choice(rng, [-273.15, 5.]))
  if pa: mon.hit('scaled')
  if Y.dtype.kind == 'i': mon.hit('integers')
  if chance(rng, .1): pa['plottitle'] = 'Temperature'
  v = vlib.make_var(rng, allax, D, name=name, atts=choice(rng, [{}, {'units': 'K'}]), plotatts=pa or None)
  return v

def values(rng, mon, shape, miss=.3):
  dt = choice(rng, ['d', 'd', 'd', 'f', 'i4', 'i2', 'i8'])
  Y = vlib.make_values(rng, shape, dt)
  if dt in 'df' and chance(rng, miss):
    m = rng.random(shape) < .15
    if not m.all(): Y[m] = np.nan; mon.hit('missing')
  return Y

def snapshot(v):
  def at(a): return sorted((k, str(x)) for k, x in a.plotatts.items() if k not in ('plotfmt', 'plotofsfmt'))
  return [(np.array(a.values, copy=True), at(a), sorted((k, str(x)) for k, x in a.atts.items())) for a in v.axes] + [(np.array(v.get()), at(v), sorted((k, str(x)) for k, x in v.atts.items()))]
def untouched(mon, v, snap, what, *sig):
  now = snapshot(v); mon.hit('unchanged')
  ok = all(vlib.close(b[0], a[0]) and a[1:] == b[1:] for a, b in zip(snap, now))
  mon.check(ok, 'inputs-changed', '%s changed the variable it plots: %s -> %s' % (what, snap[-1], now[-1]), *sig)

def flat(a): return np.ma.filled(np.ma.masked_invalid(np.ma.asarray(a, 'd')), np.nan)
def triples(x, y, *zs):
  zs = [flat(z) for z in zs]; x = flat(x); y = flat(y)
  if x.ndim == 1 and zs[0].ndim == 2: x, y = np.meshgrid(x, y)
  if any(z.shape != x.shape for z in zs): return None
  t = np.array([q.ravel() for q in [x, y] + zs])
  return t[:, np.lexsort(np.nan_to_num(np.round(t[:2], 9)))]

def same_points(mon, got, want, key, msg, *sig):
  if got is None or got.shape != want.shape: return mon.check(False, key, '%s: %s points drawn, %s expected' % (msg, None if got is None else got.shape, want.shape), *sig)
  sc_ = np.array([max(1e-30, np.nanmax(np.abs(w)) if np.isfinite(w).any() else 1.) for w in want])[:, None]
  ok = (np.isnan(got) == np.isnan(want)) & (np.isnan(want) | (np.abs(got - want) <= 2e-6 * sc_))
  if ok.all(): return mon.ev(*sig)
  j = int(np.flatnonzero(~ok.all(0))[0])
  mon.check(False, key, '%s: drawn %s, expected %s (first difference of %d)' % (msg, got[:, j].tolist(), want[:, j].tolist(), int((~ok.all(0)).sum())), *sig)

def near(a, b): return np.allclose(a, b, rtol=1e-6, atol=1e-9 * max(1., np.max(np.abs(b))))

def limits(mon, ax, X, Y, sig, which='xy'):
  """The coordinate axes span the coordinates, in their plotting order and scale."""
  mon.hit('limits')
  for w, A in zip('xy', (X, Y)):
    if w not in which or A is None: continue
    v = sc(A, A.values); lim = (np.nanmin(v), np.nanmax(v))[::A.plotatts.get('plotorder', 1)]
    got = ax.get_xlim() if w == 'x' else ax.get_ylim(); scale = ax.get_xscale() if w == 'x' else ax.get_yscale()
    mon.check(near(got, lim), 'limits', 'the %s axis of the plot spans %s, %s spans %s' % (w, got, A.name, lim), *sig)
    mon.check(scale == A.plotatts.get('plotscale', 'linear'), 'scale', '%s scale for %s, %s' % (scale, A.name, A.plotatts.get('plotscale')), *sig)

def labels(mon, ax, v, X, Y, lblx, lbly, sig, title=True):
  mon.hit('labels')
  mon.check(ax.get_xlabel() == (axlabel(X) if lblx else ''), 'axis-label', 'x label %r, expected %r' % (ax.get_xlabel(), axlabel(X) if lblx else ''), *sig)
  mon.check(ax.get_ylabel() == (axlabel(Y) if lbly else ''), 'axis-label', 'y label %r, expected %r' % (ax.get_ylabel(), axlabel(Y) if lbly else ''), *sig)
  if title:
    t = ax.get_title(); want = axlabel(v) if 'plottitle' not in v.plotatts or v.plotatts['plottitle'] is None else v.plotatts['plottitle']
    mon.check(t.startswith(want), 'title', 'title %r, expected to begin with %r' % (t, want), *sig)
    if v.plotatts.get('plottitle') is None:
      for a in [a for a in v.axes if len(a) == 1]: mon.check(a.formatvalue(a.values[0]) in t, 'title-slice', 'title %r does not give %s' % (t, a.formatvalue(a.values[0])), *sig)

def render(rng, mon, ax, draw=.15):
  fig = mon.op('render', lambda: ax.render(show=False))
  if chance(rng, draw): mon.op('draw', lambda: fig.canvas.draw()); mon.hit('drawn')
  return fig

# ---------------------------------------------------------------- lines
def k_line(rng, mon):
  import pygeode as pyg
  from pygeode.axis import ZAxis
  import pygeode.plot as pp
  kind = choice(rng, KINDS + ['Pres', 'Height']); n = int(rng.integers(2, 12)); a = an_axis(rng, kind, n); n = len(a)
  if n < 2: mon.ev(); return
  Y = values(rng, mon, (n,)); v = a_var(rng, mon, [a], Y)
  if not np.isfinite(np.asarray(Y, 'd')).any(): mon.ev(); return
  kw = {}; tr = chance(rng, .25); fn = choice(rng, ['vplot', 'showvar'])
  if tr: kw['transpose'] = True
  lblx, lbly = not chance(rng, .2), not chance(rng, .2)
  kw.update(lblx=lblx, lbly=lbly)
  if chance(rng, .3): kw['fmt'] = choice(rng, ['r--', 'k.', 'b'])
  lab = '%s of %s along %s, %s' % (fn, vlib.describe(v), kind, kw); mon.context[:] = [lab]; mon.sample(lab)
  vert = isinstance(a, ZAxis) != tr
  sig = (fn, kind, n, Y.dtype.str, tr, len(v.axes), lblx, lbly) if n > 2 else ()
  snap = snapshot(v)
  ax = mon.op(fn, lambda: getattr(pp, fn)(v, **kw)); fig = render(rng, mon, ax)
  mon.hit('lines'); mon.hit('profiles', vert)
  c, d = sc(a, a.values), sc(v, Y)
  ls = ax.ax.lines
  if not mon.check(len(ls) == 1, 'line-count', '%d lines drawn' % len(ls), *sig): return
  x, y = flat(ls[0].get_xdata()), flat(ls[0].get_ydata())
  gc, gd = (y, x) if vert else (x, y)
  mon.check(gc.shape == c.shape and near(gc, c) , 'line-coordinates', 'coordinates drawn %s, expected %s' % (gc, c), *sig)
  mon.check(gd.shape == d.shape and vlib.close(gd, d, 2e-6, 1e-9), 'line-values', 'values drawn %s, expected %s' % (gd, d), *sig)
  A = ax.ax
  limits(mon, A, None if vert else a, a if vert else None, sig, 'y' if vert else 'x')
  labels(mon, A, v, v if vert else a, a if vert else v, lblx, lbly, sig)
  untouched(mon, v, snap, fn, *sig)

def k_lines(rng, mon):
  """Several lines in one plot, and columns of line plots."""
  import pygeode.plot as pp
  from pygeode.axis import ZAxis
  kind = choice(rng, ['Lat', 'Lon', 'XAxis', 'StandardTime', 'NamedAxis', 'Pres', 'Height']); n = int(rng.integers(3, 9)); a = an_axis(rng, kind, n); n = len(a)
  m = int(rng.integers(1, 5)); Ys = [values(rng, mon, (n,)) for _ in range(m)]
  if any(not np.isfinite(np.asarray(Y, 'd')).any() for Y in Ys): mon.ev(); return
  vs = [a_var(rng, mon, [a], Y, name='v%d' % j) for j, Y in enumerate(Ys)]
  fn = choice(rng, ['showlines', 'showcol']); kw = {}
  if fn == 'showlines':
    r = rng.random()
    if r < .3: kw['fmts'] = ['r--', 'k.', 'b', 'g-.'][:m]
    elif r < .5: kw['fmts'] = 'r--'
    if chance(rng, .3): kw['labels'] = ['l%d' % j for j in range(m)]
    elif chance(rng, .2): kw['labels'] = 'all of them'
  lab = '%s of %d variables along %s, %s' % (fn, m, kind, kw); mon.context[:] = [lab] + [vlib.describe(v) for v in vs]; mon.sample(lab)
  sig = (fn, kind, n, m, tuple(sorted(kw)), tuple(Y.dtype.str for Y in Ys)); snaps = [snapshot(v) for v in vs]
  ax = mon.op(fn, lambda: getattr(pp, fn)(vs, **kw)); fig = render(rng, mon, ax)
  mon.hit('lines', m); vert = isinstance(a, ZAxis); mon.hit('profiles', vert)
  if fn == 'showlines':
    ls = list(ax.ax.lines); axs = [ax.ax] * m
    leg = ax.ax.get_legend()
    if m and mon.check(leg is not None, 'legend', 'no legend', *sig):
      tx = [t.get_text() for t in leg.get_texts()]; want = kw.get('labels', ['v%d' % j for j in range(m)]); want = [want] * m if isinstance(want, str) else want
      mon.check(tx == list(want), 'legend', 'legend %s, expected %s' % (tx, want), *sig)
    if kw.get('fmts') == 'r--': mon.check(all(l.get_color() == 'r' and l.get_linestyle() == '--' for l in ls), 'line-format', "formats %s for 'r--'" % [(l.get_color(), l.get_linestyle()) for l in ls], *sig)
  else:
    axs = sorted([q for q in fig.axes if q.lines], key=lambda q: -q.get_position().y0); ls = [q.lines[0] for q in axs]
  if not mon.check(len(ls) == m, 'line-count', '%d lines for %d variables' % (len(ls), m), *sig): return
  for j, (l, v, Y, A) in enumerate(zip(ls, vs, Ys, axs)):
    x, y = flat(l.get_xdata()), flat(l.get_ydata()); gc, gd = (y, x) if vert else (x, y); c, d = sc(a, a.values), sc(v, Y)
    mon.check(gc.shape == c.shape and near(gc, c) and gd.shape == d.shape and vlib.close(gd, d, 2e-6, 1e-9), 'line-values', 'line %d: %s against %s, expected %s against %s' % (j, gd, gc, d, c), *sig)
    lim = A.get_ylim() if vert else A.get_xlim(); o = a.plotatts.get('plotorder', 1)
    mon.check(near(lim, (c.min(), c.max())[::o]), 'limits', 'panel %d spans %s, the coordinate %s in order %d' % (j, lim, (c.min(), c.max()), o), *sig)
    if fn == 'showcol' and not vert:
      lo, hi = min(A.get_ylim()), max(A.get_ylim())
      mon.check(lo <= np.nanmin(d) + 1e-6 * abs(np.nanmin(d)) and hi >= np.nanmax(d) - 1e-6 * abs(np.nanmax(d)), 'column-range', 'panel %d shows %s of values from %s to %s' % (j, (lo, hi), np.nanmin(d), np.nanmax(d)), *sig)
    mon.hit('panels', fn == 'showcol')
  for v, s in zip(vs, snaps): untouched(mon, v, s, fn, *sig)

# ---------------------------------------------------------------- contours
def two_axes(rng, scale=True, kinds=None, nmin=2, nmax=7):
  ks = list(kinds or KINDS)
  while True:
    k1, k2 = choice(rng, ks), choice(rng, ks)
    if vlib.GROUP[k1] != vlib.GROUP[k2]: break
  a, b = [an_axis(rng, k, int(rng.integers(nmin, nmax)), scale) for k in (k1, k2)]
  return k1, k2, a, b

def orient(a, b, tr):
  """The horizontal and the vertical axis of a plot over axes (a, b)."""
  from pygeode.axis import ZAxis, Lat, Lon
  if tr is None:
    if isinstance(a, ZAxis): return b, a
    if isinstance(a, Lat) and isinstance(b, Lon): return b, a
    return a, b
  return (b, a) if tr else (a, b)

def field(v, Y, a, b, X):
  """The points a plot of Y over (a, b) with horizontal axis X must show."""
  A, B = np.meshgrid(sc(a, a.values), sc(b, b.values), indexing='ij')
  x, y = (A, B) if X is a else (B, A)
  return x, y, sc(v, Y)

def k_contour(rng, mon):
  import pygeode.plot as pp
  k1, k2, a, b = two_axes(rng) if not chance(rng, .17) else two_axes(rng, False, ['Lat', 'Lon'])
  if min(len(a), len(b)) < 2: mon.ev(); return
  Y = values(rng, mon, (len(a), len(b))); v = a_var(rng, mon, [a, b], Y)
  if np.isfinite(np.asarray(Y, 'd')).sum() < 2 or np.nanmin(Y) == np.nanmax(Y): mon.ev(); return
  tr = choice(rng, [None, None, None, True, False]); kw = {}
  if tr is not None: kw['transpose'] = tr
  X, Yx = orient(a, b, tr)
  D = sc(v, Y); lo, hi = np.nanmin(D), np.nanmax(D); lev = np.linspace(lo - (hi - lo) * .01, hi + (hi - lo) * .01, int(rng.integers(3, 8)))
  style = choice(rng, ['default', 'fill', 'lines', 'both', 'number', 'over'])
  lineslev = lev[1:-1] if len(lev) > 3 else lev
  if style in ('fill', 'both', 'over'): kw['clevs'] = lev
  if style in ('lines', 'both'): kw['clines'] = lineslev
  if style == 'number': kw['clevs'] = int(rng.integers(4, 15))
  if style == 'both' and chance(rng, .3): kw['linewidths'] = 1.5
  islatlon = {k1, k2} == {'Lat', 'Lon'} and X.__class__.__name__ == 'Lon'
  mapped = islatlon and chance(rng, .5)
  if islatlon and not mapped: kw['map'] = False
  if mapped: kw['mapdecor'] = dict(coastlines=False, gridlines=False)
  lblx, lbly = not chance(rng, .2), not chance(rng, .2)
  kw.update(lblx=lblx, lbly=lbly)
  lab = 'vcontour of %s over (%s, %s) %s %s' % (vlib.describe(v), k1, k2, style, sorted(kw)); mon.context[:] = [lab]; mon.sample(lab)
  sig = (k1, k2, Y.shape, Y.dtype.str, style, tr, len(v.axes), mapped, lblx, lbly)
  snap = snapshot(v); keep = lev.copy()
  ax = mon.op('vcontour', lambda: pp.vcontour(v, **kw))
  first = ax
  if style == 'over':                                     # a second variable's lines over the first's
    w = vlib.make_var(rng, [b, a], Y.T * 2., name='w')
    ax = mon.op('overlay', lambda: pp.vcontour(w, clines=lev * 2., axes=ax, transpose=(X is a) if tr is None else (tr != True) if True else None, label=False))
    mon.check(ax is first, 'overlay', 'a new set of axes was made', *sig)
  fig = render(rng, mon, ax)
  mon.hit('contours'); mon.hit('maps', mapped)
  want = triples(*field(v, Y, a, b, X))
  cf, cl = calls('contourf'), calls('contour')
  nf, nl = {'default': (1, 0), 'fill': (1, 0), 'lines': (0, 1), 'both': (1, 1), 'number': (1, 0), 'over': (1, 1)}[style]
  mon.check((len(cf), len(cl)) == (nf, nl), 'contour-calls', '%d filled and %d line contours drawn, expected %d and %d' % (len(cf), len(cl), nf, nl), *sig)
  for c in cf + cl:
    w = want
    if style == 'over' and c[0] == 'contour':
      x, y, z = field(v, Y, a, b, X); w = triples(x, y, np.asarray(Y, 'd') * 2.)
    same_points(mon, triples(*c[2][:3]), w, 'contour-field', c[0], *sig)
    mon.check(c[1] is first.ax, 'contour-axes', 'drawn on other axes', *sig)
    if mapped:
      import cartopy.crs as ccrs
      mon.check(isinstance(c[3].get('transform'), ccrs.PlateCarree), 'map-transform', 'contours on a map with transform %r' % c[3].get('transform'), *sig)
    L = c[2][3] if len(c[2]) > 3 else c[3].get('levels')
    if style in ('fill', 'lines', 'both'): mon.check(near(L, lev if c[0] == 'contourf' else lineslev), 'levels', '%s at %s' % (c[0], L), *sig); mon.hit('levels')
    if style == 'number': mon.check(np.isscalar(L) and L == kw['clevs'], 'levels', '%s levels, asked for %s' % (L, kw['clevs']), *sig)
  mon.check(np.array_equal(lev, keep), 'levels-changed', "the caller's levels were modified", *sig)
  if not mapped:
    limits(mon, first.ax, X, Yx, sig)
    if style != 'over': labels(mon, first.ax, v, X, Yx, lblx, lbly, sig)
  untouched(mon, v, snap, 'vcontour', *sig)

def k_auto(rng, mon):
  """showvar chooses or is given contour intervals."""
  import pygeode.plot as pp
  k1, k2, a, b = two_axes(rng, nmin=3)
  if min(len(a), len(b)) < 2: mon.ev(); return
  Y = values(rng, mon, (len(a), len(b)))
  r = rng.random()
  if r < .25: Y = np.abs(Y) + 1
  elif r < .35: Y = -np.abs(Y) - 1
  elif r < .42: Y = np.zeros(Y.shape) + choice(rng, [0., 5., -3.])
  elif r < .5: Y = Y * 1e-7 if Y.dtype.kind == 'f' else Y
  v = a_var(rng, mon, [a, b], Y)
  if np.isfinite(np.asarray(Y, 'd')).sum() < 2: mon.ev(); return
  X, Yx = orient(a, b, None); D = sc(v, Y)
  lo, hi = np.nanmin(D), np.nanmax(D)
  typ = choice(rng, ['clf', 'clf', 'clfd', 'clfmin', 'cl', 'cld', 'log1s', 'log2s', 'raw'])
  kw = {}; ndiv = int(rng.integers(1, 9)); d = float(choice(rng, [.5, 2., 10., 3., .1, .7]))
  wantf = wantl = None; wantt = None
  if typ == 'clf':
    if chance(rng, .3): kw['style'] = choice(rng, ['div', 'seq'])
    if chance(rng, .3): kw['ndiv'] = ndiv
  elif typ == 'clfd':
    nf, nl = int(rng.integers(1, 7)), int(rng.integers(0, 4)); mid = float(choice(rng, [0., 0., 10.]))
    kw.update(cdelt=d, ndiv=ndiv, nf=nf, nl=nl, mid=mid, style='div')
    wantf = mid + d * np.array([q / nf for q in range(-nf * ndiv, nf * ndiv + 1) if q != 0]); wantt = mid + d * np.arange(-ndiv, ndiv + 1)
    wantl = mid + d * np.arange(-nl * ndiv, nl * ndiv + 1) / nl if nl else []
    if nl and chance(rng, .3): kw['nozero'] = True; wantl = np.delete(wantl, nl * ndiv)
  elif typ == 'clfmin':
    nf, nl = int(rng.integers(1, 7)), int(rng.integers(0, 4)); mn = float(choice(rng, [0., -20., 250.]))
    kw.update(cdelt=d, ndiv=ndiv, nf=nf, nl=nl, min=mn)
    wantf = mn + d * np.arange(nf * ndiv + 1) / nf; wantt = mn + d * np.arange(ndiv + 1); wantl = mn + d * np.arange(nl * ndiv + 1) / nl if nl else []
  elif typ == 'cl': kw['type'] = 'cl'; kw.update({'ndiv': ndiv} if chance(rng, .3) else {}); wantf = []
  elif typ == 'cld':
    kw.update(type='cl', cdelt=d, ndiv=ndiv); wantf = []
    r = rng.random()
    if r < .35: mn = float(choice(rng, [0., -7.])); kw['min'] = mn; wantl = mn + d * np.arange(2 * ndiv + 1)
    elif r < .6: kw['nozero'] = True; wantl = d * np.array([q for q in range(-ndiv, ndiv + 1) if q != 0])
    else: mid = float(choice(rng, [0., 4.])); kw['mid'] = mid; wantl = mid + d * np.arange(-ndiv, ndiv + 1)
  elif typ == 'log1s':
    base = float(choice(rng, [10., 2.])); cm = float(choice(rng, [.1, 1.])); nf, nl = int(rng.integers(1, 5)), int(rng.integers(1, 4)); ndiv = int(rng.integers(1, 6))
    kw.update(type=choice(rng, ['log', 'log1s']), cmin=cm, cdelt=base, nf=nf, nl=nl, ndiv=ndiv)
    wantf = cm * base ** (np.arange(nf * ndiv + 1) / nf); wantl = cm * base ** (np.arange(nl * ndiv + 1) / nl); wantt = cm * base ** np.arange(ndiv + 1.)
  elif typ == 'log2s':
    base = float(choice(rng, [10., 2.])); cm = float(choice(rng, [.1, 1.])); nf, nl = int(rng.integers(1, 5)), int(rng.integers(1, 4)); ndiv = int(rng.integers(2, 5))
    kw.update(type='log2s', cmin=cm, cdelt=base, nf=nf, nl=nl, ndiv=ndiv)
    out = cm * base ** np.arange(float(ndiv)); wantt = np.concatenate([-out[::-1], [0.], out])
  else:
    lev = np.linspace(lo - 1, hi + 1, 5); kw.update(clevs=lev); wantf = lev; wantl = []
  cbar = choice(rng, ['default', 'off', 'dict', 'horizontal']); user = dict(pos=choice(rng, ['r', 'b', 'l', 't']))
  if cbar == 'off': kw['colorbar'] = False
  elif cbar == 'dict': kw['colorbar'] = user
  elif cbar == 'horizontal': kw['colorbar'] = user = dict(pos='b', orientation='horizontal')
  ukeep = dict(user)
  if {k1, k2} == {'Lat', 'Lon'}: kw['map'] = False
  lab = 'showvar %s of %s over (%s, %s) %s' % (typ, vlib.describe(v), k1, k2, kw); mon.context[:] = [lab]; mon.sample(lab)
  sig = (typ, k1, k2, Y.shape, Y.dtype.str, cbar, tuple(sorted(kw)))
  snap = snapshot(v)
  ax = mon.op('showvar', lambda: pp.showvar(v, **kw)); fig = render(rng, mon, ax)
  mon.hit('contours'); want = triples(*field(v, Y, a, b, X)); cf, cl = calls('contourf'), calls('contour')
  lv = {}
  for c in cf + cl:
    same_points(mon, triples(*c[2][:3]), want, 'contour-field', 'showvar ' + c[0], *sig); limits(mon, c[1], X, Yx, sig)
    L = np.asarray(c[2][3] if len(c[2]) > 3 else c[3].get('levels')); lv[c[0]] = L
    mon.check(L.ndim == 0 or (np.diff(L) > 0).all(), 'level-order', '%s levels %s' % (c[0], L), *sig)
  for c, w, nm in ((cf, wantf, 'contourf'), (cl, wantl, 'contour')):
    if w is None: continue
    mon.hit('levels')
    if len(w) == 0: mon.check(not c, 'contour-calls', '%s drawn' % nm, *sig); continue
    mon.check(len(c) == 1 and len(lv[nm]) == len(w) and near(lv[nm], w), 'levels', '%s levels %s, expected %s' % (nm, lv.get(nm), np.asarray(w)), *sig)
  if typ in ('clf', 'cl'):
    nm = 'contourf' if typ == 'clf' else 'contour'
    if mon.check(nm in lv, 'contour-calls', 'no %s' % nm, *sig):
      L = lv[nm]; mon.hit('levels'); F = D[np.isfinite(D)]; p = np.percentile(F, [2, 98]); span = hi - lo
      if kw.get('ndiv', 3) >= 3: mon.check(L[0] <= lo + .5 * span + 1e-9 * abs(lo) and L[-1] >= hi - .5 * span - 1e-9 * abs(hi), 'levels-miss', 'the levels %s..%s chosen for values from %s to %s' % (L[0], L[-1], lo, hi), *sig)
      if kw.get('style') == 'div': mon.check(near(L[0], -L[-1]) and L[-1] >= max(-p[0], p[1]) * (1 - 1e-9), 'levels-div', 'divergent levels %s..%s for %s..%s' % (L[0], L[-1], lo, hi), *sig)
  if typ == 'log2s' and cf:
    L = lv['contourf']; mon.check(near(L, -L[::-1]) and near(L[-1], wantt[-1]), 'levels', 'two-sided levels %s' % L, *sig); mon.hit('levels')
    inner = L[np.abs(L) <= cm * (1 + 1e-9)]; outer = L[L >= cm * (1 - 1e-9)]
    mon.check(len(outer) == nf * (ndiv - 1) + 1 and near(outer, cm * base ** (np.arange(len(outer)) / nf)), 'levels', 'outer levels %s' % outer, *sig)
    mon.check((np.abs(np.diff(inner)) <= 2 * cm / nf * (1 + 1e-9)).all(), 'levels', 'inner levels %s' % inner, *sig)
  cbs = [q for q in fig.axes if q not in [c[1] for c in cf + cl]]
  mon.check(len(cbs) == (1 if cf and cbar != 'off' else 0), 'colorbar', '%d colour bars, %s' % (len(cbs), cbar), *sig)
  if cbs and cf:
    mon.hit('colorbars'); B, P = cbs[0].get_position(), cf[0][1].get_position(); pos = user['pos'] if cbar in ('dict', 'horizontal') else 'r'
    where = dict(r=B.x0 >= P.x1 - 1e-6, l=B.x1 <= P.x0 + 1e-6, b=B.y1 <= P.y0 + 1e-6, t=B.y0 >= P.y1 - 1e-6)[pos]
    mon.check(where, 'colorbar-place', 'colour bar at %s, plot at %s, asked for %r' % (B, P, pos), *sig)
    if wantt is not None:
      cb = ax.find_plot(pp.wrappers.Colorbar) or [p for q in ax.axes for p in q.plots if isinstance(p, pp.wrappers.Colorbar)][0]
      tk = np.asarray(cb._cbar.get_ticks()); mon.check(all(np.abs(np.asarray(wantt) - t).min() <= 1e-6 * np.abs(wantt).max() for t in tk) and len(tk) >= 1, 'colorbar-ticks', 'ticks %s, expected %s' % (tk, wantt), *sig)
  mon.check(user == ukeep, 'options-changed', "the caller's colorbar options became %s" % user, *sig)
  untouched(mon, v, snap, 'showvar', *sig)

# ---------------------------------------------------------------- vectors, points
def k_vec(rng, mon):
  import pygeode.plot as pp
  from pygeode import axis as A
  fn = choice(rng, ['vquiver', 'vquiver', 'vstreamplot'])
  if fn == 'vstreamplot':
    mk = dict(Lat=A.Lat, Lon=A.Lon, XAxis=A.XAxis, YAxis=A.YAxis, Height=A.Height); ks = list(mk)
    while True:
      k1, k2 = choice(rng, ks), choice(rng, ks)
      if vlib.GROUP[k1] != vlib.GROUP[k2]: break
    a, b = [mk[k](np.arange(int(rng.integers(3, 8))) * 2.5 + float(rng.integers(0, 9))) for k in (k1, k2)]
  else: k1, k2, a, b = two_axes(rng)
  if min(len(a), len(b)) < 2: mon.ev(); return
  U, V = values(rng, mon, (len(a), len(b)), 0.), values(rng, mon, (len(a), len(b)), .0 if fn == 'vstreamplot' else .3)
  u, v = a_var(rng, mon, [a, b], U, 'u'), a_var(rng, mon, [a, b], V, 'v')
  tr = choice(rng, [None, None, None, True, False]); X, Yx = orient(a, b, tr); kw = {} if tr is None else dict(transpose=tr)
  C = None
  if fn == 'vquiver' and chance(rng, .3): C = values(rng, mon, (len(a), len(b)), 0.); c = a_var(rng, mon, [a, b], C, 'c'); kw['varc'] = c
  if {k1, k2} == {'Lat', 'Lon'}: kw['map'] = False
  lab = '%s of %s over (%s, %s) %s' % (fn, vlib.describe(u), k1, k2, sorted(kw)); mon.context[:] = [lab]; mon.sample(lab)
  sig = (fn, k1, k2, U.shape, U.dtype.str, V.dtype.str, tr, C is not None)
  su, sv = snapshot(u), snapshot(v)
  ax = mon.op(fn, lambda: getattr(pp, fn)(u, v, **kw)); fig = render(rng, mon, ax)
  mon.hit('vectors' if fn == 'vquiver' else 'streams')
  cs = calls(fn[1:])
  if not mon.check(len(cs) == 1, 'vector-calls', '%d calls of %s' % (len(cs), fn[1:]), *sig): return
  x, y, zu = field(u, U, a, b, X); w = [x, y, zu, sc(v, V)] + ([sc(c, C)] if C is not None else [])
  same_points(mon, triples(*cs[0][2][:5 if C is not None else 4]), triples(*w), 'vector-field', fn, *sig)
  if fn == 'vquiver': limits(mon, ax.ax, X, Yx, sig)
  labels(mon, ax.ax, u, X, Yx, True, True, sig)
  untouched(mon, u, su, fn, *sig); untouched(mon, v, sv, fn, *sig)

def k_points(rng, mon):
  import pygeode.plot as pp
  nd = int(rng.integers(1, 4)); axes = vlib.make_axes(rng, nd, kinds=KINDS, nmax=6); sh = [len(a) for a in axes]
  U, V = values(rng, mon, sh), values(rng, mon, sh)
  if np.isfinite(np.asarray(U, 'd')).sum() < 2 or np.isfinite(np.asarray(V, 'd')).sum() < 2: mon.ev(); return
  u = vlib.make_var(rng, axes, U, name='u', plotatts={'scalefactor': 2.5} if chance(rng, .4) else None); v = vlib.make_var(rng, axes, V, name='v', plotatts={'offset': .5} if chance(rng, .4) else None)
  fn = choice(rng, ['vscatter', 'vscatter', 'vhist'])
  lab = '%s of %s' % (fn, vlib.describe(u)); mon.context[:] = [lab]; mon.sample(lab); sig = (fn, tuple(sh), U.dtype.str, V.dtype.str) if U.size > 2 else ()
  su, sv = snapshot(u), snapshot(v)
  a, b = sc(u, U).ravel(), sc(v, V).ravel()
  if fn == 'vscatter':
    ax = mon.op(fn, lambda: pp.vscatter(u, v)); render(rng, mon, ax); mon.hit('points'); cs = calls('scatter')
    if not mon.check(len(cs) == 1, 'scatter-calls', '%d scatter calls' % len(cs), *sig): return
    same_points(mon, triples(*[flat(q).ravel() for q in cs[0][2][:2]], np.zeros(a.shape)), triples(a, b, np.zeros(a.shape)), 'scatter-points', 'scatter', *sig)
  else:
    bins = int(rng.integers(2, 9))
    ax = mon.op(fn, lambda: pp.vhist(u, bins=bins)); render(rng, mon, ax); mon.hit('histograms'); cs = calls('hist')
    if not mon.check(len(cs) == 1, 'hist-calls', '%d histograms' % len(cs), *sig): return
    got = np.sort(flat(cs[0][2][0]).ravel()); mon.check(vlib.close(got[np.isfinite(got)], np.sort(a[np.isfinite(a)]), 2e-6, 1e-9), 'hist-values', 'histogram of %s, expected %s' % (got, np.sort(a)), *sig)
    h = np.array([p.get_height() for p in ax.ax.patches]); mon.check(len(h) == bins and h.sum() == np.isfinite(a).sum(), 'hist-count', 'the bars hold %s samples of %d' % (h.sum(), np.isfinite(a).sum()), *sig)
  untouched(mon, u, su, fn, *sig); untouched(mon, v, sv, fn, *sig)

# ---------------------------------------------------------------- panels
def k_panels(rng, mon):
  import pygeode.plot as pp
  k1, k2, a, b = two_axes(rng, nmin=3)
  if min(len(a), len(b)) < 2: mon.ev(); return
  fn = choice(rng, ['showgrid', 'showgrid', 'showcol'])
  m = int(rng.integers(1, 6)); ncol = int(rng.integers(1, 4)); mode = choice(rng, ['fill', 'both', 'lines', 'onefill', 'oneline']) if fn == 'showgrid' else 'fill'
  nf = {'fill': m, 'both': m, 'lines': 0, 'onefill': 1, 'oneline': m}[mode]; nl = {'fill': 0, 'both': m, 'lines': m, 'onefill': m, 'oneline': 1}[mode]
  Fs = [vlib.make_values(rng, (len(a), len(b)), choice(rng, ['d', 'f', 'i4'])) for _ in range(nf)]; Ls = [vlib.make_values(rng, (len(a), len(b))) for _ in range(nl)]
  vf = [a_var(rng, mon, [a, b], Y, 'f%d' % j) for j, Y in enumerate(Fs)]; vl = [a_var(rng, mon, [a, b], Y, 'l%d' % j) for j, Y in enumerate(Ls)]
  kw = {}
  if {k1, k2} == {'Lat', 'Lon'}: kw['map'] = False
  cb = choice(rng, ['default', 'off', 'bottom']) if nf else 'default'
  if cb == 'off': kw['colorbar'] = False
  if cb == 'bottom': kw['colorbar'] = dict(pos='b', orientation='horizontal')
  lev = np.linspace(-30, 30, 7)
  if fn == 'showgrid':
    kw['ncol'] = ncol
    if nf and chance(rng, .5): kw['clevs'] = lev
    if not nf or chance(rng, .3): kw['clines'] = lev
    if chance(rng, .2): kw['size'] = (2.5, 2.)
    if nf and nl == 0: kw.pop('clines', None)
    call = lambda: pp.showgrid(vf[0] if len(vf) == 1 and chance(rng, .3) else vf, vl, **kw)
  else:
    ncol = 1; call = lambda: pp.showcol(vf, **kw)
  lab = '%s %s of %d panels in %d columns over (%s, %s) %s' % (fn, mode, m, ncol, k1, k2, sorted(kw)); mon.context[:] = [lab]; mon.sample(lab)
  sig = (fn, mode, m, ncol, k1, k2, cb, tuple(sorted(kw)))
  snaps = [snapshot(v) for v in vf + vl]
  ax = mon.op(fn, call); fig = render(rng, mon, ax, .1)
  X, Yx = orient(a, b, None); cf, cl = calls('contourf'), calls('contour')
  panels = []
  for c in cf + cl:
    if c[1] not in panels: panels.append(c[1])
  if not mon.check(len(panels) == m, 'panel-count', '%d panels for %d variables' % (len(panels), m), *sig): return
  rows = {}
  for p in panels: rows.setdefault(round(p.get_position().y0 + p.get_position().height, 4), []).append(p)
  order = [p for r in sorted(rows, reverse=True) for p in sorted(rows[r], key=lambda q: q.get_position().x0)]
  mon.check(sorted(rows, reverse=True) and [len(rows[r]) for r in sorted(rows, reverse=True)] == [ncol] * (m // ncol) + ([m % ncol] if m % ncol else []), 'panel-layout', 'rows of %s panels for %d in %d columns' % ([len(rows[r]) for r in sorted(rows, reverse=True)], m, ncol), *sig)
  for j, p in enumerate(order):
    mon.hit('panels')
    for cs, vs, Ys in ((cf, vf, Fs), (cl, vl, Ls)):
      if not vs: continue
      mine = [c for c in cs if c[1] is p]; w = vs[j % len(vs)]; Y = Ys[j % len(Ys)]
      if fn == 'showcol' and cs is cl: continue
      if mon.check(len(mine) == 1, 'panel-calls', 'panel %d has %d contour sets' % (j, len(mine)), *sig):
        same_points(mon, triples(*mine[0][2][:3]), triples(*field(w, Y, a, b, X)), 'panel-field', 'panel %d (%s)' % (j, w.name), *sig)
        L = mine[0][2][3] if len(mine[0][2]) > 3 else None
        if cs is cf and 'clevs' in kw: mon.check(near(L, lev), 'levels', 'panel levels %s' % L, *sig); mon.hit('levels')
        if cs is cl and 'clines' in kw: mon.check(near(L, lev), 'levels', 'panel lines %s' % L, *sig); mon.hit('levels')
    limits(mon, p, X, Yx, sig)
  boxes(mon, fig, sig)
  rest = [q for q in fig.axes if q not in panels]; mon.check(len(rest) == (1 if nf and cb != 'off' else 0), 'colorbar', '%d colour bars' % len(rest), *sig); mon.hit('colorbars', len(rest))
  for v, s in zip(vf + vl, snaps): untouched(mon, v, s, fn, *sig)

def boxes(mon, fig, sig):
  """Panels lie inside the figure and do not overlap."""
  bs = [q.get_position() for q in fig.axes]
  for i, p in enumerate(bs):
    mon.hit('boxes')
    mon.check(p.width > 0 and p.height > 0 and p.x0 > -1e-6 and p.y0 > -1e-6 and p.x1 < 1 + 1e-6 and p.y1 < 1 + 1e-6, 'panel-outside', 'panel %d at %s' % (i, p), *sig)
    for q in bs[:i]: mon.check(min(p.x1, q.x1) - max(p.x0, q.x0) < 1e-6 or min(p.y1, q.y1) - max(p.y0, q.y0) < 1e-6, 'panel-overlap', 'panels at %s and %s' % (p, q), *sig)

def k_layout(rng, mon):
  """Nested grids: every panel gets the size asked for, in its place; padding in inches."""
  import pygeode.plot as pp
  leaves = []
  def leaf():
    w = pp.AxesWrapper(size=(round(float(rng.uniform(1.5, 5)), 2), round(float(rng.uniform(1.5, 4)), 2)), pad=choice(rng, [[.4, .3, .2, .1], [.1, .1, .1, .1]]))
    k = len(leaves); leaves.append(w); w.plot([0, 1], [k, k + 1]); return w
  def build(depth):
    if depth == 0 or chance(rng, .3): return leaf()
    nx, ny = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    g = [[None if chance(rng, .1) and nx * ny > 1 else build(depth - 1) for _ in range(nx)] for _ in range(ny)]
    if any(all(q is None for q in r) for r in g) or any(all(r[j] is None for r in g) for j in range(nx)): return leaf()
    W = pp.grid(g); grids.append((g, W)); return W
  grids = []; top = build(2)
  if not grids: mon.ev(); return
  lab = 'layout of %d panels in %d grids' % (len(leaves), len(grids)); mon.context[:] = [lab]; mon.sample(lab); sig = (len(leaves), len(grids), tuple(len(g[0]) for g, _ in grids))
  leaves_in = lambda w: [w] if not w.axes else [l for q in w.axes for l in leaves_in(q)]
  root = top
  if len(grids) > 1 and chance(rng, .3): root = grids[0][1]; mon.context.append('rendering an inner grid by itself')
  fig = mon.op('render', lambda: root.render(show=False)); size = fig.get_size_inches(); mine = leaves_in(root)
  mon.check(near(size, root.size), 'figure-size', 'figure %s for a layout of %s' % (size, root.size), *sig)
  mon.check(len(fig.axes) == len(mine), 'panel-count', '%d axes for %d panels' % (len(fig.axes), len(mine)), *sig)
  for w in mine:
    p = w.ax.get_position(); got = (p.width * size[0] + w.pad[0] + w.pad[2], p.height * size[1] + w.pad[1] + w.pad[3]); mon.hit('panels'); mon.hit('boxes')
    mon.check(near(got, w.size), 'panel-size', 'panel of %s occupies %s inches' % (w.size, got), *sig)
    mon.check(w.ax.lines and w.ax.lines[0].get_ydata()[0] == leaves.index(w), 'panel-content', 'panel %d shows the line of another' % leaves.index(w), *sig)
  boxes(mon, fig, sig)
  def extent(w):
    l = [(q.ax.get_position(), q.pad) for q in leaves_in(w)]
    return min(p.x0 - d[0] / size[0] for p, d in l), min(p.y0 - d[1] / size[1] for p, d in l), max(p.x1 + d[2] / size[0] for p, d in l), max(p.y1 + d[3] / size[1] for p, d in l)
  inside = lambda w: w is root or (w.parent is not None and inside(w.parent))
  for g, W in grids:
    if not inside(W): continue
    E = [[None if q is None else extent(q) for q in r] for r in g]
    for r in E:
      for q, s in zip(r[:-1], r[1:]):
        if q and s: mon.check(q[2] <= s[0] + 1e-6, 'panel-order', 'columns of a grid out of order: %s, %s' % (q, s), *sig)
    for r, s in zip(E[:-1], E[1:]):
      for q, t in zip(r, s):
        if q and t: mon.check(q[1] >= t[3] - 1e-6, 'panel-order', 'rows of a grid out of order: %s, %s' % (q, t), *sig)
  # order of drawing
  ax = pp.AxesWrapper(); k = int(rng.integers(2, 6)); want = []
  for j in range(k):
    o = None if chance(rng, .5) else int(rng.integers(0, j + 1)); op = pp.wrappers.Plot([0, 1], [j, j]); mon.op('add_plot', lambda: ax.add_plot(op, order=o))
    want.insert(len(want) if o is None else o, j)
  mon.op('render', lambda: ax.render(show=False)); got = [int(l.get_ydata()[0]) for l in ax.ax.lines]; mon.check(got == want and ax.nplots == k, 'plot-order', 'drawn in the order %s, asked for %s' % (got, want), *sig)

# ---------------------------------------------------------------- significance
def k_mask(rng, mon):
  import pygeode.plot as pp
  k1, k2, a, b = two_axes(rng, nmin=3)
  if min(len(a), len(b)) < 2: mon.ev(); return
  Y = vlib.make_values(rng, (len(a), len(b))); v = vlib.make_var(rng, [a, b], Y, name='T'); P = np.round(rng.uniform(-1, 1, Y.shape), 3); P.flat[0] = .999; P.flat[-1] = -.999; P.flat[1] = 0.
  p = vlib.make_var(rng, [a, b], P, name='p')
  tr = choice(rng, [None, None, True, False]); X, Yx = orient(a, b, tr); kw = {} if tr is None else dict(transpose=tr)
  ck = dict(kw, map=False) if {k1, k2} == {'Lat', 'Lon'} else kw
  mj = float(choice(rng, [.95, .9, .99])); mn = choice(rng, [None, None, .8, .5]); kw = dict(kw, mjsig=mj)
  if mn is not None: kw['mnsig'] = float(mn)
  lab = 'significance %s over (%s, %s)' % (kw, k1, k2); mon.context[:] = [lab]; mon.sample(lab); sig = (k1, k2, Y.shape, mj, mn, tr); mon.hit('masks')
  ax = mon.op('vcontour', lambda: pp.vcontour(v, **ck)); snap = snapshot(p)
  got = mon.op('vsigmask', lambda: pp.vsigmask(p, ax, **kw)); fig = render(rng, mon, ax, .5)
  mon.check(got is ax, 'mask-axes', 'other axes returned', *sig)
  cf = calls('contourf')
  if not mon.check(len(cf) == 2, 'contour-calls', '%d contour sets' % len(cf), *sig): return
  same_points(mon, triples(*cf[1][2][:3]), triples(*field(p, P, a, b, X)), 'mask-field', 'vsigmask', *sig)
  L = cf[1][2][3]; want = [-1.1, -mj, mj, 1.1] if mn is None else [-1.1, -mj, -mn, mn, mj, 1.1]
  mon.check(near(L, want), 'mask-levels', 'levels %s, expected %s' % (L, want), *sig)
  # what is visible of the mask: hatching over the significant part only
  art = [c for c in ax.ax.collections if c.get_visible()]; hatched = [c for c in art if c.get_hatch()]
  cols = [c for c in hatched if any(len(q.vertices) for q in c.get_paths())]
  from matplotlib.path import Path
  def covered(x, y): return any(q.contains_point((x, y)) for c in cols for q in c.get_paths() if len(q.vertices))
  x, y, z = field(p, P, a, b, X); xs, ys = np.unique(x), np.unique(y)
  # the samples inside the domain: the middle of cells whose corners are all well inside one class
  G = {}
  for q, r, s in zip(x.ravel(), y.ravel(), z.ravel()): G[q, r] = s
  thr = mj if mn is None else mn
  for i0 in range(len(xs) - 1):
    for j0 in range(len(ys) - 1):
      c = np.array([G[xs[i], ys[j]] for i in (i0, i0 + 1) for j in (j0, j0 + 1)]); mid = ((xs[i0] + xs[i0 + 1]) / 2, (ys[j0] + ys[j0 + 1]) / 2)
      if (np.abs(c) < thr - .01).all() : mon.check(not covered(*mid), 'mask-hatched', 'an insignificant cell (%s) is hatched' % c, *sig)
      elif (c > thr + .001).all() or (c < -thr - .001).all(): mon.check(covered(*mid), 'mask-missing', 'a significant cell (%s) is not hatched' % c, *sig)
  untouched(mon, p, snap, 'vsigmask', *sig)

# ---------------------------------------------------------------- settings
def k_settings(rng, mon):
  import pygeode.plot as pp
  from pygeode.plot import cnt_helpers as ch
  from pygeode.plot import cm
  r = int(rng.integers(0, 4)); mon.context[:] = ['settings %d' % r]
  if r == 0:                                              # two-sided logarithmic norm
    vin = float(choice(rng, [.1, 1., 2.])); mx = vin * float(choice(rng, [10., 100., 50.])); mnv = -mx if chance(rng, .7) else -mx * 3; cin = float(choice(rng, [.01, .1, .25]))
    N = ch.LogNorm2Sided(vmin=mnv, vmax=mx, vin=vin, cin=cin); mon.context.append('norm %s %s %s %s' % (mnv, mx, vin, cin)); sig = ('norm', vin, mx, mnv, cin)
    x = np.sort(np.concatenate([rng.uniform(mnv, mx, 9), rng.uniform(-vin, vin, 5), [mnv, mx, 0., -vin, vin]])); y = np.ma.filled(mon.op('norm', lambda: N(x)), np.nan); mon.hit('norms')
    mon.check(np.isfinite(y).all() and (np.diff(y) >= -1e-12).all() and near(y[0], 0.) and near(y[-1], 1.) and near(np.asarray(N(0.)), .5), 'norm', 'the norm maps %s to %s' % (x, y), *sig)
    mon.check(near(np.asarray(N([vin, -vin])), [.5 + cin, .5 - cin]), 'norm', 'inner boundary maps to %s' % N([vin, -vin]), *sig)
    z = np.ma.filled(mon.op('inverse', lambda: N.inverse(y)), np.nan); mon.check(vlib.close(np.asarray(z, 'd'), x, 1e-6, 1e-6 * vin), 'norm-inverse', 'the inverse maps %s to %s, expected %s' % (y, z, x), *sig)
    k = int(rng.integers(len(x))); mon.check(near(float(N.inverse(float(y[k]))), x[k]) or abs(float(N.inverse(float(y[k]))) - x[k]) < 1e-6 * vin, 'norm-inverse', 'inverse(%s) is %s' % (y[k], N.inverse(float(y[k]))), *sig)
    # taken from the data when not given
    D = np.round(rng.normal(0, mx, 7), 4); D[D == 0] = .5; D = np.concatenate([D, [0.]]) if chance(rng, .3) else D; nz = np.abs(D[D != 0]); hi, lo = float(nz.max()), float(nz.min())
    given = {k_: w_ for k_, w_ in dict(vmin=-2 * hi, vmax=3 * hi, vin=.9 * lo).items() if chance(rng, .3)}; G = ch.LogNorm2Sided(cin=cin, **given)
    if not ('vmin' in given and 'vmax' in given): mon.raises(lambda: G.inverse(.3), 'norm-inverse', 'the inverse of a norm without limits', (ValueError,))
    if hi > lo * 1.01:
      g = np.ma.filled(mon.op('norm', lambda: G(D)), np.nan); wl = dict(dict(vmin=-hi, vmax=hi, vin=lo), **given)
      mon.check(all(near(np.asarray(getattr(G, k_)), wl[k_]) for k_ in wl), 'norm-auto', 'limits %s %s %s for %s, given %s' % (G.vmin, G.vmax, G.vin, D, given), *sig)
      mon.check((np.diff(g[np.argsort(D, kind='stable')]) >= -1e-12).all() and (g > -1e-9).all() and (g < 1 + 1e-9).all(), 'norm-auto', 'the norm maps %s to %s' % (D, g), *sig)
      if not given: mon.check(near(np.ma.filled(G(-D), np.nan), 1 - g), 'norm-auto', 'not symmetric: %s and %s' % (g, G(-D)), *sig)
      mon.op('norm', lambda: G.autoscale(2 * D)); mon.check(near(np.array([G.vmin, G.vmax, G.vin], 'd'), np.array([-2 * hi, 2 * hi, 2 * lo])), 'norm-auto', 'autoscale gave %s %s %s' % (G.vmin, G.vmax, G.vin), *sig)
    C = ch.LogNorm2Sided(vmin=mnv, vmax=mx, vin=vin, cin=cin, clip=chance(rng, .5)); far = np.array([mnv * 4, mnv, .1 * vin, mx, mx * 5]); cl = np.ma.filled(mon.op('norm', lambda: C(far, clip=True)), np.nan)
    mon.check(near(cl[[0, 1, 3, 4]], np.array([0., 0., 1., 1.])), 'norm-clip', 'clipped, the norm maps %s to %s' % (far, cl), *sig)
    for lo_, hi_ in ((2., 1.), (1., 5.), (-5., -1.)): mon.raises(lambda: ch.LogNorm2Sided(vmin=lo_, vmax=hi_, vin=.1)(np.array([.3])), 'norm-accepts', 'limits %s to %s' % (lo_, hi_), (ValueError,))
    M = np.ma.masked_greater(x, mx * .8); q = mon.op('norm', lambda: N(M)); mon.check(np.array_equal(np.ma.getmaskarray(q), np.ma.getmaskarray(M)), 'norm-mask', 'mask %s' % q, *sig)
  elif r == 1:                                            # automatic limits
    kind = choice(rng, ['normal', 'positive', 'negative', 'tiny', 'huge', 'outlier', 'constant', 'nan', 'empty', 'inf']); z = np.round(rng.normal(0, 10, (5, 6)), 3)
    z = dict(normal=z, positive=np.abs(z) + 3, negative=-np.abs(z) - 3, tiny=z * 1e-12, huge=z * 1e15, outlier=np.where(np.arange(30).reshape(5, 6) == 7, 1e6, z), constant=np.zeros((5, 6)) + choice(rng, [0., 4., -2.]), nan=np.where(rng.random((5, 6)) < .3, np.nan, z), empty=z * np.nan, inf=np.where(rng.random((5, 6)) < .1, np.inf, z))[kind]
    style, ndiv, clf = choice(rng, [None, 'div', 'seq']), choice(rng, [None, 3, 5, 8, 1]), chance(rng, .6); keep = z.copy()
    mon.context.append('guessclimits %s %s %s %s' % (kind, style, ndiv, clf)); sig = ('guess', kind, style, ndiv, clf); mon.hit('norms')
    res = mon.op('guessclimits', lambda: ch.guessclimits(z, style=style, ndiv=ndiv, clf=clf))
    if not mon.check(isinstance(res, tuple) and len(res) == 2 and isinstance(res[1], dict) and np.isfinite(res[0]) and res[0] > 0, 'guess', 'guessed %s' % (res,), *sig): return
    mon.check(vlib.close(z, keep), 'inputs-changed', 'guessclimits changed its input', *sig)
    kws = mon.op('dict', lambda: (ch.clfdict if clf else ch.cldict)(res[0], **res[1])); L = np.asarray(kws['clevs'] if clf else kws['clines']); mon.check((np.diff(L) > 0).all() and len(L) >= 2, 'level-order', 'levels %s' % L, *sig)
    m = res[0] / 10 ** np.floor(np.log10(res[0]) + 1e-9); mon.check(any(abs(m - q) < 1e-6 for q in [1, 1.5, 2, 3, 4, 5, 6, 10]), 'guess-round', 'interval %s' % res[0], *sig)
    if kind not in ('empty', 'outlier') and ndiv != 1:
      F = z[np.isfinite(z)]; p = F.min(), F.max(); s = p[1] - p[0]
      mon.check(L[0] <= p[0] + .5 * s + 1e-9 * abs(p[0]) and L[-1] >= p[1] - .5 * s - 1e-9 * abs(p[1]), 'levels-miss', 'levels %s..%s for values from %s to %s' % (L[0], L[-1], F.min(), F.max()), *sig)
    mon.raises(lambda: ch.guessclimits(z, style='other'), 'guess-accepts', 'a style that does not exist', (ValueError,))
  elif r == 2:                                            # colour maps
    style, ndiv = choice(rng, ['seq', 'div']), int(rng.integers(1, 12)); mon.context.append('get_cm %s %d' % (style, ndiv)); sig = ('cm', style, ndiv); mon.hit('norms')
    c = mon.op('get_cm', lambda: cm.get_cm(style, ndiv)); q = c(np.linspace(0, 1, 64)); mon.check(q.shape == (64, 4) and (q >= 0).all() and (q <= 1).all(), 'colormap', 'colours %s' % q, *sig)
    if style == 'div': mon.check(np.abs(np.asarray(c(.499))[:3] - 1).max() < .15 and np.abs(np.asarray(c(.501))[:3] - 1).max() < .15, 'colormap', 'the middle of a divergent colour map is %s' % (c(.5),), *sig)
    mon.raises(lambda: cm.get_cm('other', ndiv), 'cm-accepts', 'a style that does not exist', (ValueError,))
    ks = np.sort(rng.permutation(40)[:4]) - 20.; cols = [tuple(np.round(rng.random(3), 3)) for _ in ks]; d = dict(zip([float(k) for k in ks], cols)); extra = chance(rng, .4)
    if extra: d.update(over=(1., 0., 0.), under=(0., 0., 1.))
    dk = dict(d); f = mon.op('cmap_from_cdict', lambda: cm.cmap_from_cdict(d)); xs = (ks - ks[0]) / (ks[-1] - ks[0])
    mon.check(d == dk, 'options-changed', "the caller's colours became %s" % d, *sig)
    slope = (np.abs(np.diff(np.array(cols), axis=0)).max(axis=1) / np.diff(xs)).max()   # a map has 256 entries
    for t, w in zip(xs, cols): mon.check(np.abs(np.asarray(f(float(t)))[:3] - w).max() < .03 + 1.5 * slope / 256, 'colormap', 'colour %s at %s, expected %s' % (f(float(t)), t, w), *sig)
    # two colours at a position, and colours given by hue, saturation and value
    import colorsys
    hsv = chance(rng, .5); two = [tuple(np.round(rng.random(3), 3)) for _ in ks]; conv = (lambda c_: np.array(colorsys.hsv_to_rgb(*c_))) if hsv else np.array
    g2 = mon.op('cmap_from_cdict', lambda: cm.cmap_from_cdict({float(k): (p_, q_) for k, p_, q_ in zip(ks, cols, two)}, **({'colorspace': 'hsv'} if hsv else {}))); eps = 2. / 256
    for j, (t, p_, q_) in enumerate(zip(xs, cols, two)):
      for side, w, near_ in ((-1, p_, two[j - 1] if j else None), (1, q_, cols[j + 1] if j < len(xs) - 1 else None)):
        if near_ is None: continue
        gap = abs(xs[j + side] - t); w, near_ = conv(w), conv(near_)
        if gap > .1: mon.check(np.abs(np.asarray(g2(float(t + side * eps)))[:3] - (w + (near_ - w) * eps / gap)).max() < .03 + 2. * np.abs(near_ - w).max() / gap / 256, 'colormap', 'colour %s beside %s, expected %s (%s)' % (g2(float(t + side * eps)), t, w, side), *sig)
    mon.raises(lambda: cm.cmap_from_cdict(dk, colorspace='other'), 'cm-accepts', 'a colour space that does not exist', (ValueError,))
    # read from a file
    import tempfile, os as os_
    w8 = rng.integers(0, 256, size=(len(ks), 2, 3)); twos = [chance(rng, .3) for _ in ks]; twos[0] = twos[-1] = False
    with tempfile.TemporaryDirectory() as dd:
      fn_ = os_.path.join(dd, 'a.cmap')
      with open(fn_, 'w') as fo:
        for t, w, z_ in zip(xs, w8, twos): fo.write('color-stop(%s, rgb(%d,%d,%d)%s)\n' % (('%.4f' % t) if 0 < t < 1 else '%d' % t, *w[0], ', rgb(%d,%d,%d)' % tuple(w[1]) if z_ else ''))
      r1, r2 = mon.op('read_grad', lambda: (cm.read_grad(fn_), cm.read_grad(fn_, rev=True)))
    for t, w, z_, in zip(xs, w8, twos):
      if z_: continue
      sl = (np.abs(np.diff(w8[:, 0] / 255., axis=0)).max(axis=1).max() + 1) / np.diff(xs).min()
      mon.check(np.abs(np.asarray(r1(float(t)))[:3] - w[0] / 255.).max() < .03 + 1.5 * sl / 256, 'colormap-file', 'colour %s at %s, the file has %s' % (r1(float(t)), t, w[0] / 255.), *sig)
    mon.check(np.abs(r1(np.linspace(0, 1, 256)) - r2(np.linspace(1, 0, 256))).max() < 1.5 * 2 / np.diff(xs).min() / 256 + .02 or any(twos), 'colormap-file', 'the reversed map differs', *sig)
    bad = dict(reversed([(k, x) for k, x in dk.items() if not isinstance(k, str)])); mon.raises(lambda: cm.cmap_from_cdict(bad), 'cm-accepts', 'colours out of order', (ValueError,))
  else:                                                   # settings given to colour bars
    cmn, d, nd = float(choice(rng, [.1, 1.])), float(choice(rng, [10., 3.])), int(rng.integers(1, 6)); fn = choice(rng, ['log1sdict', 'log2sdict', 'clfdict']); cb = choice(rng, [None, False, 'dict']); mon.hit('norms')
    if fn == 'log2sdict': nd = max(nd, 2)
    kw = {} if cb is None else dict(colorbar=False) if cb is False else dict(colorbar=dict(width=.5)); mon.context.append('%s %s %s %s %s' % (fn, cmn, d, nd, kw)); sig = (fn, cmn, d, nd, cb)
    res = mon.op(fn, lambda: getattr(ch, fn)(cmn, **dict(kw, ndiv=nd, linewidths=2.5, **({} if fn == 'clfdict' else dict(cdelt=d)))))
    mon.check((res['colorbar'] is False) == (cb is False) and (cb != 'dict' or res['colorbar']['width'] == .5) and res['linewidths'] == 2.5, 'settings', '%s' % res, *sig)
    z = mon.op(fn, lambda: getattr(ch, fn)(cmn, ndiv=nd, nl=0)); mon.check(z['clines'] is None, 'settings', 'lines %s although none were asked for' % z['clines'], *sig)
    w = mon.op('style', lambda: ch.clfdict(2., style='seq')); mon.check(np.allclose(np.diff(w['clevs']), np.diff(w['clevs'])[0]), 'levels', 'levels %s' % w['clevs'], *sig)
    mon.raises(lambda: ch.clfdict(2., style='other'), 'settings-accept', 'a style that does not exist', (ValueError,))

# ---------------------------------------------------------------- the earlier interface
def k_earlier(rng, mon):
  import pygeode.plot as pp
  from pygeode.axis import ZAxis
  mon.hit('earlier')
  if chance(rng, .4):
    kind = choice(rng, KINDS); n = int(rng.integers(3, 9)); a = an_axis(rng, kind, n); n = len(a); Y = values(rng, mon, (n,)); v = a_var(rng, mon, [a], Y)
    if n < 2 or not np.isfinite(np.asarray(Y, 'd')).any(): mon.ev(); return
    lab = 'plotvar of %s along %s' % (vlib.describe(v), kind); mon.context[:] = [lab]; mon.sample(lab); sig = ('plotvar', kind, n, Y.dtype.str); snap = snapshot(v)
    kw = choice(rng, [{}, {}, dict(lblx=False), dict(lbly=False), dict(logVal=True), dict(scaleAx=True), 'ax', 'ifig'])
    from matplotlib import pyplot as plt
    A = None
    if kw == 'ax': plt.figure(); q = plt.figure(); A = q.add_subplot(); plt.figure(); kw = dict(ax=A)
    if kw == 'ifig': plt.figure(4).add_subplot(); plt.figure(9); kw = dict(ifig=4, hold=chance(rng, .3))
    if a.plotatts.get('plotscale') == 'log' and chance(rng, .4): kw = dict(scaleAx=True); A = None
    area = 'scaleAx' in kw and chance(rng, .7)
    if area: v.plotatts = dict(v.plotatts, preserve='area'); snap = snapshot(v)
    mon.context.append(str(sorted(kw)))
    mon.op('plotvar', lambda: pp.plotvar(v, pbar=False, **kw))
    if 'ifig' in kw: mon.check(plt.gcf().number == 4 and len(plt.gcf().axes) == (2 if kw['hold'] else 1), 'earlier-figure', 'drawn on figure %s' % plt.gcf().number, *sig); A = plt.figure(4).axes[-1]
    A = A or plt.gcf().axes[0]; vert = isinstance(a, ZAxis); l = A.lines[0]; x, y = flat(l.get_xdata()), flat(l.get_ydata()); gc, gd = (y, x) if vert else (x, y); c, d = sc(a, a.values), sc(v, Y)
    if area and a.plotatts.get('plotscale') == 'log': d = d * c; mon.hit('area_scaled')
    if 'logVal' in kw: mon.check((A.get_xscale() if vert else A.get_yscale()) == 'log', 'earlier-log', 'the values are not on a logarithmic scale', *sig)
    mon.check(near(gc, c) and vlib.close(gd, d, 2e-6, 1e-9), 'line-values', 'drawn %s against %s, expected %s against %s' % (gd, gc, d, c), *sig); mon.hit('lines')
    limits(mon, A, None if vert else a, a if vert else None, sig, 'y' if vert else 'x')
  else:
    fn = choice(rng, ['plotvar', 'plotvar', 'plotquiver', 'plotsigmask'])
    k1, k2, a, b = two_axes(rng, scale=fn == 'plotvar', nmin=3)
    if fn == 'plotquiver' and 'Lat' in (k1, k2) and 'Lon' in (k1, k2): k1, k2, a, b = two_axes(rng, False, ['Lat', 'Pres'])
    if min(len(a), len(b)) < 2: mon.ev(); return
    Y = values(rng, mon, (len(a), len(b))); v = a_var(rng, mon, [a, b], Y) if fn == 'plotvar' else vlib.make_var(rng, [a, b], Y, name='T')
    if np.isfinite(np.asarray(Y, 'd')).sum() < 2 or np.nanmin(Y) == np.nanmax(Y): mon.ev(); return
    # here the last axis is horizontal, unless it is vertical by nature, or (latitude, longitude)
    from pygeode.axis import Lat, Lon
    X = a if isinstance(b, ZAxis) or (fn == 'plotvar' and isinstance(b, Lat) and isinstance(a, Lon)) else b; Yx = b if X is a else a
    lab = '%s of %s over (%s, %s)' % (fn, vlib.describe(v), k1, k2); mon.context[:] = [lab]; mon.sample(lab); sig = (fn, k1, k2, Y.shape, Y.dtype.str); snap = snapshot(v)
    from matplotlib import pyplot as plt
    if fn == 'plotvar':
      kw = choice(rng, [{}, {}, dict(clines=5), dict(pcolor=True), dict(perx=True), dict(lblx=False), dict(lbly=False), dict(logVal=True), dict(scaleX=True), dict(scaleY=True), dict(mask=1.)]); mon.context.append(str(kw))
      for k_, q in (('scaleX', X), ('scaleY', Yx)):
        if q.plotatts.get('plotscale') == 'log' and chance(rng, .35): kw = {k_: True}
      if set(kw) & {'scaleX', 'scaleY'}: v.plotatts = dict(v.plotatts, preserve='area'); snap = snapshot(v)
      if 'logVal' in kw:
        Y = np.abs(Y) + 1; v = vlib.make_var(rng, [a, b], Y, name='T'); snap = snapshot(v)
      if 'mask' in kw: med = float(np.nanmedian(sc(v, Y))); kw = dict(mask=lambda z: z > med)
      mon.op('plotvar', lambda: pp.plotvar(v, pbar=False, **kw)); mon.hit('contours'); cs = [c for c in _rec if c[0] in ('contourf', 'contour', 'pcolor')]
      mon.check(sorted(c[0] for c in cs) == sorted(['pcolor' if 'pcolor' in kw else 'contourf'] + (['contour'] if 'clines' in kw else [])), 'contour-calls', 'drawn %s' % [c[0] for c in cs], *sig)
      F = list(field(v, Y, a, b, X))
      for k_, ax_, m_ in (('scaleX', X, F[0]), ('scaleY', Yx, F[1])):
        if k_ in kw and ax_.plotatts.get('plotscale') == 'log': F[2] = F[2] * m_; mon.hit('area_scaled')
      if 'logVal' in kw: F[2] = np.log10(np.asarray(F[2], 'd'))
      if 'mask' in kw: F[2] = np.where(np.asarray(F[2], 'd') > med, np.nan, np.asarray(F[2], 'd'))
      if 'perx' in kw:                                    # one more column, the first again
        h = 0 if X is a else 1; xv = sc(X, X.values); F = [np.concatenate([f, np.take(f, [0], h)], h) for f in F]; F[0][(slice(None),) * h + (-1,)] = 2 * xv[-1] - xv[-1] + xv[1] - xv[0]
      for c in cs: same_points(mon, triples(*c[2][:3]), triples(*F), 'contour-field', 'plotvar ' + c[0], *sig)
      if 'perx' not in kw: limits(mon, cs[0][1], X, Yx, sig)
    elif fn == 'plotquiver':
      W = values(rng, mon, Y.shape); w = vlib.make_var(rng, [a, b], W, name='w'); ev = int(choice(rng, [1, 1, 2]))
      mon.op('plotquiver', lambda: pp.plotquiver(v, w, every=ev)); mon.hit('vectors'); cs = calls('quiver'); x, y, z = field(v, Y, a, b, X)
      same_points(mon, triples(*cs[0][2][:4]), triples(*[q[::ev, ::ev] for q in (x, y, z, sc(w, W))]), 'vector-field', 'plotquiver', *sig)
    else:
      P = np.round(rng.uniform(-1, 1, Y.shape), 3); p = vlib.make_var(rng, [a, b], P, name='p')
      mon.op('plotvar', lambda: pp.plotvar(v, pbar=False, map=False)); A = _rec[0][1]; del _rec[:]
      mon.op('plotsigmask', lambda: pp.plotsigmask(p, A)); mon.hit('masks'); cs = calls('contourf')
      same_points(mon, triples(*cs[0][2][:3]), triples(*field(p, P, a, b, X)), 'mask-field', 'plotsigmask', *sig)
  untouched(mon, v, snap, 'the plot', *sig)

# ---------------------------------------------------------------- maps and pages
def install_map():
  """The coastlines need data from the network: the call is recorded, nothing is drawn."""
  if len(_done) > 1: return
  _done.append(2)
  from cartopy.mpl.geoaxes import GeoAxes
  GeoAxes.coastlines = lambda self, *a, **k: _rec.append(('coastlines', self, a, dict(k)))
  og = GeoAxes.gridlines; os_ = GeoAxes.set_global
  def gridlines(self, *a, **k):
    gl = og(self, *a, **k); _rec.append(('gridlines', self, gl, dict(k))); return gl
  def set_global(self): _rec.append(('set_global', self, (), {})); return os_(self)
  GeoAxes.gridlines = gridlines; GeoAxes.set_global = set_global

PROJ = {'PlateCarree': ({}, {'central_longitude': 30.}), 'Mercator': ({}, {'central_longitude': 90.}), 'Miller': ({},), 'Robinson': ({}, {'central_longitude': -60.}), 'Mollweide': ({},), 'Orthographic': ({}, {'central_longitude': 20., 'central_latitude': 40.}),
        'LambertConformal': ({}, {'central_longitude': 10.}), 'Stereographic': ({'central_latitude': 90.},), 'RotatedPole': ({'pole_latitude': 50.},)}
GLOBAL = ['Robinson', 'Mollweide', 'Orthographic', 'Stereographic']
def k_map(rng, mon):
  import pygeode.plot as pp
  try: import cartopy.crs as ccrs
  except ImportError: mon.ev(); return
  install_map()
  from pygeode.axis import Lat, Lon
  fn = choice(rng, ['vcontour', 'vcontour', 'vcontour', 'vquiver', 'vstreamplot', 'showvar'])
  n, m = int(rng.integers(4, 8)), int(rng.integers(4, 9))
  la = Lat(np.round(-40. + float(rng.integers(0, 30)) + np.arange(n) * 7.5, 3)); lo = Lon(float(rng.integers(0, 200)) + np.arange(m) * 11.)
  if fn != 'vstreamplot':
    if chance(rng, .3): la = Lat(la.values[::-1])
  a, b = (la, lo) if chance(rng, .5) else (lo, la)
  sh = (len(a), len(b)); U, V = values(rng, mon, sh, 0.), values(rng, mon, sh, 0.)
  if np.min(U) == np.max(U): mon.ev(); return
  u, v = a_var(rng, mon, [a, b], U, 'u'), a_var(rng, mon, [a, b], V, 'v')
  name = choice(rng, list(PROJ)); mk = {}; pargs = choice(rng, list(PROJ[name])); inst = chance(rng, .25); default = chance(rng, .2)
  if default: name, pargs, inst = 'PlateCarree', {}, False
  else:
    mk['projection'] = getattr(ccrs, name)(**pargs) if inst else name
    if pargs and not inst: mk['prj_args'] = dict(pargs)
  wantglobal = name in GLOBAL
  if chance(rng, .3): wantglobal = mk['setglobal'] = bool(rng.random() < .5)
  tf = None
  if chance(rng, .2) and fn == 'vcontour': tf = mk['transform'] = ccrs.PlateCarree(central_longitude=float(choice(rng, [0., 45.])))
  deco = choice(rng, ['default', 'default', 'default', 'none', 'nocoast', 'nogrid', 'fine'])
  kw = {}
  if mk or chance(rng, .5): kw['map'] = dict(mk)
  cst, grd = {'resolution': '110m'}, {}
  if deco == 'none': kw['mapdecor'] = False; cst = grd = None
  if deco == 'nocoast': kw['mapdecor'] = dict(coastlines=False); cst = None
  if deco == 'nogrid': kw['mapdecor'] = dict(gridlines=False); grd = None
  if deco == 'fine':
    cst = {'resolution': '50m', 'color': 'r'}; grd = dict(linewidth=2.)
    if chance(rng, .5): grd['xlocs'] = [0, 60, 120]
    if chance(rng, .5): grd['ylocs'] = [-30, 0, 30]
    if name in ('PlateCarree', 'Mercator') and chance(rng, .5): grd[choice(rng, ['top_labels', 'right_labels', 'left_labels', 'bottom_labels'])] = bool(rng.random() < .5)
    kw['mapdecor'] = dict(coastlines=dict(cst), gridlines=dict(grd))
  if fn == 'vcontour':
    lev = np.linspace(sc(u, U).min(), sc(u, U).max(), 6); kw[choice(rng, ['clevs', 'clines'])] = lev
  keep = {k: dict(kw[k]) for k in ('map', 'mapdecor') if isinstance(kw.get(k), dict)}; inner = {k: dict(kw['mapdecor'][k]) for k in ('coastlines', 'gridlines') if isinstance((kw.get('mapdecor') or {}).get(k), dict)}
  lab = '%s of %s on a map: %s, decorations %s' % (fn, vlib.describe(u), sorted(mk.items(), key=str), deco); mon.context[:] = [lab]; mon.sample(lab)
  sig = ('map', fn, name, tuple(pargs), inst, wantglobal, tf is not None, deco, sh, a is la); su = snapshot(u)
  ax = mon.op(fn, lambda: getattr(pp, fn)(*([u, v] if fn in ('vquiver', 'vstreamplot') else [u]), **kw))
  fig = mon.op('render', lambda: ax.render(show=False)); mon.hit('maps')
  if fn == 'showvar': ax = [q for q in [ax] + list(ax.axes) if getattr(q, 'ax', None) is not None and hasattr(q.ax, 'projection')][0]
  P = ax.ax.projection
  want = mk['projection'] if inst else getattr(ccrs, name)(**(pargs or ({'central_longitude': 180.} if name == 'PlateCarree' else {})))
  mon.check(type(P) is type(want) and P == want, 'map-projection', 'drawn in %r, asked for %r' % (P.to_proj4() if hasattr(P, 'to_proj4') else P, want), *sig)
  mon.check(bool(calls('set_global')) == wantglobal, 'map-extent', 'the map %s the whole globe, expected %s' % ('shows' if calls('set_global') else 'does not show', wantglobal), *sig)
  cs = [c for c in _rec if c[0] in ('contour', 'contourf', 'quiver', 'streamplot')]
  mon.check(len(cs) == 1 or (fn == 'showvar' and len(cs) == 2), 'map-calls', '%d drawing calls' % len(cs), *sig)
  for c in cs:
    x, y, zu = field(u, U, a, b, lo); w = [x, y, zu] + ([sc(v, V)] if fn in ('vquiver', 'vstreamplot') else [])
    same_points(mon, triples(*c[2][:len(w)]), triples(*w), 'map-field', c[0], *sig)
    t = c[3].get('transform'); wt = tf if tf is not None else ccrs.PlateCarree()
    mon.check(t == wt, 'map-transform', 'the points are transformed from %r, expected %r' % (t, wt), *sig)
    mon.check(c[1] is ax.ax, 'map-axes', 'drawn on other axes', *sig)
  co = calls('coastlines'); mon.hit('map_decorations')
  mon.check([c[3] for c in co] == ([] if cst is None else [cst]), 'map-coastlines', 'coastlines drawn with %s, expected %s' % ([c[3] for c in co], cst), *sig)
  gl = calls('gridlines')
  if mon.check(len(gl) == (grd is not None), 'map-gridlines', '%d sets of grid lines, expected %d' % (len(gl), grd is not None), *sig) and grd is not None:
    g, k = gl[0][2], gl[0][3]; labels_ = name in ('PlateCarree', 'Mercator')
    mon.check(bool(k.get('draw_labels')) == labels_, 'map-labels', 'labels %s on a %s map' % (k.get('draw_labels'), name), *sig)
    if labels_:
      for side in ('top', 'right'): mon.check(bool(getattr(g, side + '_labels')) == bool(grd.get(side + '_labels', False)), 'map-label-sides', 'labels on the %s: %s, %s asked for' % (side, getattr(g, side + '_labels'), grd.get(side + '_labels')), *sig)
      for side in ('bottom', 'left'): mon.check(bool(getattr(g, side + '_labels')) == bool(grd.get(side + '_labels', True)), 'map-label-sides', 'labels on the %s: %s, %s asked for' % (side, getattr(g, side + '_labels'), grd.get(side + '_labels')), *sig)
      for A_, f in ((lo, g.xformatter), (la, g.yformatter)):
        q = float(A_.values[len(A_) // 2]); mon.check(f(q) == A_.formatter()(q), 'map-label-text', '%s labelled %r, the axis formats %r' % (q, f(q), A_.formatter()(q)), *sig)
    for A_, key, loc in ((lo, 'xlocs', g.xlocator), (la, 'ylocs', g.ylocator)):
      if key in grd: got = list(loc.tick_values(-180, 180)); mon.check(got == list(grd[key]), 'map-grid-places', '%s at %s, asked for %s' % (key, got, grd[key]), *sig)
      else: mon.check(type(loc) is type(A_.locator()), 'map-grid-places', '%s placed by %r, the axis has %r' % (key, loc, A_.locator()), *sig)
    if 'linewidth' in grd: mon.check(k.get('linewidth') == 2., 'map-grid-style', 'grid lines drawn with %s' % k, *sig)
  for k_ in keep: mon.check(kw[k_] == keep[k_] and all(kw['mapdecor'][q] == inner[q] for q in inner), 'inputs-changed', "the caller's %s became %s" % (k_, kw[k_]), *sig)
  t = ax.ax.get_title(); want = u.plotatts.get('plottitle') or axlabel(u)
  if fn != 'showvar': mon.check(t.startswith(want), 'title', 'title %r of a map, expected to begin with %r' % (t, want), *sig)
  untouched(mon, u, su, fn, *sig)

def k_pages(rng, mon):
  """Figures are distributed over the pages of a document, each once and in order."""
  import pygeode as pyg, pygeode.plot as pp, matplotlib.backends.backend_pdf as pdf
  from pygeode.plot import pyg_helpers as ph
  n = int(rng.integers(1, 12)); scl = float(choice(rng, [1., 1., .8])); marg = float(choice(rng, [.5, .5, .3]))
  psize = choice(rng, ['A4', 'A4l', (7., 6.)]); pw, phh = dict(A4=(8.3, 11.7), A4l=(11.7, 8.3)).get(psize, psize)
  one = chance(rng, .6); s0 = (float(rng.uniform(1.5, 5.)), float(rng.uniform(1.5, 4.)))
  sizes = [s0 if one else (float(rng.uniform(1.5, 5.)), s0[1]) for _ in range(n)]
  x = vlib.make_axis(rng, 'XAxis', 4); figs = []
  for j, s in enumerate(sizes):
    A = pp.AxesWrapper(size=s); A.plot(np.arange(3), np.arange(3) + j); figs.append(A)
  lab = 'savepages of %d figures %s on %s, margin %s, scale %s' % (n, [(round(s[0], 2), round(s[1], 2)) for s in sizes], psize, marg, scl); mon.context[:] = [lab]; mon.sample(lab)
  sig = ('pages', n, str(psize), scl, marg, one, round(s0[0]), round(s0[1]))
  pages = []
  class Pages:
    def __init__(self, fn): pages.append([])
    def savefig(self, fig=None, **k): pages[-1].append([(tuple(fig.get_size_inches()), [(float(q.lines[0].get_ydata()[0]), q) for q in fig.axes])])
    def close(self): pages.append('closed')
  P = pdf.PdfPages; pdf.PdfPages = Pages
  try: mon.op('savepages', lambda: ph.savepages(figs, 'pages.pdf', psize=psize, marg=marg, scl=scl))
  finally: pdf.PdfPages = P
  mon.hit('pages', len(pages[0])); mon.check(pages[1:] == ['closed'], 'pages-closed', 'the document was not closed', *sig)
  seen = [int(round(j)) for pg in pages[0] for j, q in pg[0][1]]
  mon.check(seen == list(range(n)), 'pages-figures', 'figures %s on the pages, %d given' % (seen, n), *sig)
  for pg in pages[0]:
    size, axs = pg[0]
    mon.check(near(size, (pw, phh)), 'page-size', 'page of %s, asked for %s' % (size, (pw, phh)), *sig)
    if not axs: mon.check(False, 'pages-empty', 'an empty page', *sig); continue
    boxes = [figs[int(round(j))] for j, q in axs]
    rects = [b.parent.ax_boxes[b.parent.axes.index(b)] for b in boxes]
    for b, r in zip(boxes, rects):
      w, h = (r[2] - r[0]) * pw, (r[3] - r[1]) * phh
      mon.check(near((w, h), (b.size[0] * scl, b.size[1] * scl)), 'page-figure-size', 'a figure of %s is given %s' % (b.size, (w, h)), *sig)
      if b.size[0] * scl < pw - 2 * marg - 1e-3 and b.size[1] * scl < phh - 2 * marg - 1e-3:
        mon.check(r[0] * pw >= marg - 1e-6 and r[1] * phh >= marg - 1e-6 and r[2] * pw <= pw - marg + 1e-6 and r[3] * phh <= phh - marg + 1e-6, 'page-margins', 'a figure at %s on a page of %s with margins %s' % (r, (pw, phh), marg), *sig)
    for i in range(len(rects)):
      for k in range(i):
        p, q = rects[i], rects[k]
        mon.check(min(p[2], q[2]) - max(p[0], q[0]) < 1e-6 or min(p[3], q[3]) - max(p[1], q[1]) < 1e-6, 'page-overlap', 'figures overlap: %s and %s' % (p, q), *sig)

# ---------------------------------------------------------------- single drawing operations
def k_draw(rng, mon):
  """Operations put on axes one at a time draw what the same calls on matplotlib's own axes draw."""
  import pygeode.plot as pp, matplotlib
  from pygeode.plot import wrappers as W
  from matplotlib import pyplot as plt
  geo = chance(rng, .12)
  if geo:
    try: import cartopy.crs as ccrs, shapely.geometry as sg; from pygeode.plot.cartopy import CartopyAxes
    except ImportError: geo = False
  if geo: install_map()
  npan = 1 if geo else int(choice(rng, [1, 1, 2, 3]))
  panels = []; plan = []; bare = []
  for p in range(npan):
    if geo:
      name = choice(rng, ['PlateCarree', 'Robinson', 'Mercator', 'Miller']); ax = mon.op('draw', lambda: CartopyAxes(projection=name, size=(3, 2.4)))
      projection = ax.projection
    else: ax = pp.AxesWrapper(size=(3, 2.4)); projection = None
    ops = []; made = []; have = {}
    # put an operation on the axes through the member, the function or the class
    def put(name, *a, **k):
      how = int(rng.integers(3))
      if how == 0 or not hasattr(pp, name) or name in ('coastlines', 'gridlines'): op = mon.op(name, lambda: getattr(ax, name)(*a, **k))
      else: op = mon.op(name, lambda: getattr(pp, name)(*a, axes=ax, **k))
      k2 = dict(k)
      if geo and name in ('contour', 'contourf', 'pcolor', 'quiver', 'streamplot', 'set_boundary'): k2['transform'] = ax.transform
      ops.append((name, a, k2, op)); made.append(op); mon.hit('operations'); return op
    for _ in range(int(rng.integers(1, 5))):
      n, m = int(rng.integers(3, 7)), int(rng.integers(3, 7))
      if geo: x, y = np.linspace(-120., 120., n), np.linspace(-60., 60., m)
      else: x, y = np.cumsum(.2 + rng.random(n)), np.cumsum(.2 + rng.random(m))
      z = np.round(rng.normal(size=(m, n)), 3); v = np.round(rng.normal(size=n), 3)
      col = choice(rng, ['r', 'k', '#30a060'])
      what = choice(rng, ['contour', 'contourf', 'pcolor', 'quiver', 'add_geometries', 'set_extent', 'gridlines', 'set_boundary'] if geo else
                    ['plot', 'fill_between', 'scatter', 'errorbar', 'bar', 'hist', 'axhline', 'axvline', 'text', 'contour', 'contourf', 'clabel', 'pcolor', 'quiver', 'quiverkey', 'imshow', 'streamplot', 'legend', 'modifycontours'])
      if what == 'plot': put('plot', x, v, *([choice(rng, ['r--', 'k.', 'bo-'])] if chance(rng, .4) else []), **({'label': 'a line', 'lw': 2.} if chance(rng, .6) else {}))
      elif what == 'fill_between': put('fill_between', x, v, *([v + 1.] if chance(rng, .6) else []), **({'color': col, 'alpha': .5} if chance(rng, .5) else {}))
      elif what == 'scatter': put('scatter', x, v, **({'c': np.arange(n) * 1., 's': 30.} if chance(rng, .5) else {'marker': 's'}))
      elif what == 'errorbar': put('errorbar', x, v, yerr=np.abs(v) * .3 + .1, **({'fmt': 'o', 'capsize': 3} if chance(rng, .5) else {}))
      elif what == 'bar': put('bar', x, v, **({'width': .3, 'color': col} if chance(rng, .6) else {}))
      elif what == 'hist': put('hist', z.ravel(), bins=int(rng.integers(3, 9)))
      elif what == 'axhline': put('axhline', float(v[0]), **({'c': col, 'ls': '--'} if chance(rng, .6) else {}))
      elif what == 'axvline': put('axvline', float(x[1]), **({'c': col, 'ymin': .25} if chance(rng, .6) else {}))
      elif what == 'text':
        t = choice(rng, [None, 'Axes', 'Data'])
        if t == 'Axes': put('text', .3, .6, 'text', transform='Axes', color=col)
        else: put('text', float(x[1]), float(v[1]), 'text', **({'transform': t} if t else {}))
      elif what in ('contour', 'contourf', 'pcolor'):
        k = {}
        if what != 'pcolor' and chance(rng, .6): k['levels'] = sorted(set(np.round(np.linspace(z.min(), z.max(), int(rng.integers(3, 7))), 3)))
        if what == 'contour' and chance(rng, .5): k['colors'] = col
        elif chance(rng, .4): k['cmap'] = 'viridis'
        if what == 'pcolor': k['shading'] = 'nearest'
        have[what] = put(what, x, y, z, **k)
      elif what in ('clabel', 'modifycontours'):
        cnt = have.get('contour') or put('contour', x, y, z)
        have['contour'] = cnt
        if what == 'clabel': put('clabel', cnt, **({'fontsize': 7, 'inline': True} if chance(rng, .5) else {}))
        else: put('modifycontours', cnt, ind=None if chance(rng, .6) else [0], linewidths=2.5)
      elif what == 'quiver': have['quiver'] = put('quiver', x, y, z, z[::-1], **({'color': col} if chance(rng, .5) else {}))
      elif what == 'quiverkey':
        q = have.get('quiver') or put('quiver', x, y, z, z[::-1]); have['quiver'] = q
        put('quiverkey', q, .4, .85, 1., 'one', **({'coordinates': 'axes'} if chance(rng, .5) else {}))
      elif what == 'imshow': have['imshow'] = put('imshow', z, **({'extent': (0., 4., 0., 3.), 'origin': 'lower'} if chance(rng, .6) else {'aspect': 'auto'}))
      elif what == 'streamplot': x_, y_ = np.linspace(0, 4, n), np.linspace(0, 3, m); put('streamplot', x_, y_, 1. + 0 * z, np.round(.3 + z * .1, 2))
      elif what == 'legend':
        put('plot', x, v, label='the label'); put('legend', **({'loc': 'upper left'} if chance(rng, .6) else {'loc': 1}))
      elif what == 'add_geometries': put('add_geometries', [sg.box(-40., -30., 20., 35.)], ccrs.PlateCarree(), facecolor=col)
      elif what == 'set_extent': put('set_extent', [-100., 100., -50., 50.], ccrs.PlateCarree())
      elif what == 'gridlines': put('gridlines', xlocs=[-90, 0, 90], ylocs=[-45, 0, 45])
      elif what == 'set_boundary': put('set_boundary', matplotlib.path.Path([[-90, -50], [90, -50], [90, 50], [-90, 50], [-90, -50]]))
    if all(o[0] == 'text' for o in ops): bare.append(ax)   # a text alone does not make the axes visible
    refs = [o[1][0] for o in ops if o[0] in ('clabel', 'quiverkey', 'modifycontours')]
    free = [q for q, o in enumerate(ops) if not any(o[3] is r for r in refs)]
    if len(ops) > 1 and free and chance(rng, .2):
      q = choice(rng, free); mon.hit('removed')
      mon.op('pop', lambda: ax.pop_plot(q)); del ops[q]
    mon.check(ax.nplots == len(ops) and [id(a) for a in ax.plots] == [id(o[3]) for o in ops], 'operations', '%d operations on the axes, expected %s' % (ax.nplots, [o[0] for o in ops]), npan)
    k = type(ops[-1][3]); mon.check(ax.find_plot(k) is [o[3] for o in ops if isinstance(o[3], k)][-1], 'operations', 'find_plot(%s) does not give the last one' % k.__name__, npan)
    st, xs, ys = {}, {}, {}
    if not geo:
      if chance(rng, .4): st['title'] = 'The title'; 
      if chance(rng, .3): st['xlim'] = (-1., 6.)
      if chance(rng, .2): st['ylabel'] = 'ordinate'
      if chance(rng, .15) and not any(o[0] in ('imshow', 'streamplot', 'quiver') for o in ops): st['yscale'] = 'symlog'
      if chance(rng, .25): xs['major_locator'] = 'fixed'
      if chance(rng, .2): ys['inverted'] = True
    A_ = lambda d: {q: (matplotlib.ticker.FixedLocator([0., 1.5, 3.]) if w == 'fixed' else w) for q, w in d.items()}
    if st: mon.op('setp', lambda: ax.setp(**st))
    if xs: mon.op('setp', lambda: ax.setp_xaxis(**A_(xs)))
    if ys: mon.op('setp', lambda: ax.setp_yaxis(**A_(ys)))
    panels.append(ax); plan.append((ops, st, xs, ys, projection))
  top = panels[0] if npan == 1 else mon.op('grid', lambda: pp.grid([panels] if chance(rng, .5) else [[p] for p in panels]))
  lab = 'panels %s' % [[o[0] for o in q[0]] + sorted(q[1]) + sorted(q[2]) + sorted(q[3]) for q in plan]; mon.context[:] = [lab]; mon.sample(lab)
  kinds = sorted(set(o[0] for q in plan for o in q[0])); sig = ('draw', geo, npan, kinds)
  for w in kinds: mon.hit('op-' + w)
  where = choice(rng, ['new', 'new', 'given', 'other', 'number', 'again'])
  other = None
  if where in ('given', 'other'):
    fig = plt.figure(figsize=top.size)
    if where == 'other': other = plt.figure(figsize=(2, 2)); other.add_subplot().plot([0, 1], [1, 0])
    ocount = [len(q.get_children()) for q in other.axes] if other else None
    got = mon.op('render', lambda: top.render(fig, show=False)); mon.check(got is fig, 'draw-figure', 'drawn on another figure than the one given', *sig)
    if other: mon.hit('other_current'); mon.check([len(q.get_children()) for q in other.axes] == ocount, 'draw-elsewhere', 'drawing on a given figure added to the current figure', *sig)
  else:
    got = mon.op('render', lambda: top.render(7 if where == 'number' else None, show=False))
    if where == 'number': mon.check(got.number == 7, 'draw-figure', 'drawn on figure %s, asked for 7' % got.number, *sig)
    if where == 'again': got = mon.op('render', lambda: top.render(got, show=False)); mon.hit('drawn_twice')
  mon.check(tuple(np.round(got.get_size_inches(), 6)) == tuple(np.round(top.size, 6)), 'draw-size', 'a figure of %s, expected %s' % (got.get_size_inches(), top.size), *sig)
  # the same with matplotlib alone
  ref = plt.figure(figsize=got.get_size_inches())
  for ax, (ops, st, xs, ys, projection) in zip(panels, plan):
    if ax.ax is None: mon.check(ax in bare, 'draw-nothing', 'no axes were made for %s' % [o[0] for o in ops], *sig); continue
    b = ax.ax.get_position(original=True); a = ref.add_axes([b.x0, b.y0, b.width, b.height], projection=projection)
    if geo and ax.setglobal: a.set_global()
    made = {}
    def do(o):
      name, args, k, op = o; k = dict(k)
      if name in ('clabel', 'quiverkey'): made[id(op)] = getattr(a, name)(made[id(args[0])], *args[1:], **k)
      elif name == 'modifycontours':
        cs = W.contour_layers(made[id(args[0])]); ind = k.pop('ind')
        plt.setp(cs if ind is None else [cs[q] for q in ind], **k)
      else:
        if name == 'text': k['transform'] = a.transAxes if k.get('transform') == 'Axes' else a.transData
        made[id(op)] = getattr(a, name)(*args, **k)
    for o in ops:
      if o[0] != 'clabel': do(o)
    if 'yscale' in st: a.set_yscale(st['yscale'])
    r = {q: w for q, w in st.items() if q != 'yscale'}
    if r: plt.setp(a, **r)
    if xs: plt.setp(a.xaxis, **A_(xs))
    if ys: plt.setp(a.yaxis, **A_(ys))
    for o in ops:
      if o[0] == 'clabel': do(o)
  def pixels(f): f.canvas.draw(); return np.array(f.canvas.buffer_rgba())
  w = pixels(ref); g = mon.op('draw', lambda: pixels(got)); mon.hit('images')
  if mon.check(g.shape == w.shape, 'draw-pixels', 'an image of %s, expected %s' % (g.shape, w.shape), *sig):
    d = int((g != w).any(axis=-1).sum()); mon.check(d == 0, 'draw-pixels', '%d of %d pixels differ from what the same calls draw' % (d, w.shape[0] * w.shape[1]), *sig)

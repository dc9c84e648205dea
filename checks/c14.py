"""C14: derivatives, differences and integrals follow their discrete definitions."""
N_QUICK = 30000
N_THOROUGH = 300000
BUDGET_QUICK = 90
BUDGET_THOROUGH = 700
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: every derivative, difference, integral and cumulative sum is compared point by point with its discrete formula evaluated in numpy along that axis alone; identities (polynomials, difference of a cumulative sum, sum of an integral from both ends) are monitored as well'
RULE = ('a case is one operator on one variable: class, direction and position of the axis, scheme, order, coordinate given by the axis, a 1-d field or a field varying along other axes, constant of integration (none, number, field), dtype, missing values; then parts of the result; '
        'non-trivial: more points than the scheme needs; distinct by (operator, scheme, axis class, direction, position, rank, coordinate kind, dtype)')
REQUIRE = {'deriv': 2500, 'second': 800, 'diff': 800, 'integrate': 1800, 'cumsum': 800, 'ends': 8000, 'fields': 1000, 'constants': 350, 'reverse': 800, 'polynomials': 400, 'inverse': 900, 'parts': 8000, 'refusals': 400}
ASSUMPTIONS = ['numpy is correct', 'the coordinate is distinct along the axis']
import numpy as np
import vlib, exprs
from vlib import choice, chance

def case(rng, i, mon):
  mon.context[:] = []
  if i % 15 == 14: return k_refuse(rng, mon)
  k_op(rng, i, mon)

def nfd(f, x, how):
  """First derivative along the last axis."""
  n = f.shape[-1]; d = np.empty(f.shape, np.result_type(f, 'd' if f.dtype.kind != 'c' else 'D'))
  s = (f[..., 1:] - f[..., :-1]) / (x[..., 1:] - x[..., :-1])       # slope of each interval
  if how == 'left': d[..., 1:] = s; d[..., 0] = s[..., 0]
  elif how == 'right': d[..., :-1] = s; d[..., -1] = s[..., -1]
  else:
    d[..., 0] = s[..., 0]; d[..., -1] = s[..., -1]
    d[..., 1:-1] = (f[..., 2:] - f[..., :-2]) / (x[..., 2:] - x[..., :-2])
  return d

def nsd(f, x):
  """Second derivative: that of the parabola through the nearest three points."""
  n = f.shape[-1]; c = np.clip(np.arange(n), 1, n - 2)
  s = (f[..., 1:] - f[..., :-1]) / (x[..., 1:] - x[..., :-1])
  return 2 * (s[..., c] - s[..., c - 1]) / (x[..., c + 1] - x[..., c - 1])

def nint(f, x, typ, v0, order):
  n = f.shape[-1]; out = np.empty(f.shape, 'D' if f.dtype.kind == 'c' else 'd')
  if typ == 'cumsum': return (np.cumsum(f, -1) if order == 1 else np.cumsum(f[..., ::-1], -1)[..., ::-1]) + v0
  h = x[..., 1:] - x[..., :-1]
  cell = h * {'trapz': .5 * (f[..., 1:] + f[..., :-1]), 'rectl': f[..., :-1], 'rectr': f[..., 1:]}[typ]
  z = np.zeros(f.shape[:-1] + (1,))
  if order == 1: return np.concatenate([z, np.cumsum(cell, -1)], -1) + v0
  return np.concatenate([np.cumsum(cell[..., ::-1], -1)[..., ::-1], z], -1) + v0

def k_op(rng, i, mon):
  import importlib
  pyg = lambda fn: getattr(importlib.import_module('pygeode.' + {'deriv': 'deriv', 'diff': 'diff'}.get(fn, 'intgr')), fn)
  op = ['deriv', 'integrate', 'second', 'deriv', 'integrate', 'diff', 'deriv', 'cumsum'][i % 8]
  cls = choice(rng, ['Pres', 'Height', 'Lat', 'Lon', 'XAxis', 'NamedAxis', 'StandardTime', 'ModelTime365', 'YAxis'])
  least = {'deriv': 2, 'second': 3, 'integrate': 2, 'cumsum': 2, 'diff': 2}[op]
  n = int(rng.integers(least, 12)); n = n if chance(rng, .85) else least
  a = vlib.make_axis(rng, cls, n, order=choice(rng, ['inc', 'dec', 'inc', 'dec', 'shuf']) if cls not in ('StandardTime', 'ModelTime365') else choice(rng, ['inc', 'dec']))
  n = len(a)
  if n < least: mon.ev(); return
  k = int(choice(rng, [0, 1, 1, 2, 2, 3]))
  o = vlib.make_axes(rng, k, kinds=[q for q in ['Lat', 'Lon', 'Pres', 'NamedAxis', 'ModelTime360'] if vlib.GROUP[q] != vlib.GROUP[cls]], nmax=5); k = len(o)
  p = int(rng.integers(0, k + 1)); axes = o[:p] + [a] + o[p:]; osh = [len(q) for q in o]
  dt = choice(rng, ['d', 'd', 'd', 'f', 'i4', 'i2', 'i8', 'D'])
  if op in ('integrate', 'cumsum') and dt == 'D': dt = 'd'
  Y = vlib.make_values(rng, osh + [n], dt)
  if dt in 'df' and chance(rng, .25): Y[rng.random(Y.shape) < .15] = choice(rng, [np.nan, np.inf, np.nan])
  # coordinate
  xin = np.asarray(a.values, 'd'); how = 'axis'; kw = {}
  X = np.broadcast_to(xin, osh + [n]); poly = None; r = rng.random()
  if op not in ('diff', 'cumsum'):
    if r < .25:
      how = '1d'; x1 = np.cumsum(rng.uniform(.3, 2., n)) * choice(rng, [1, -1]) + choice(rng, [0, 50.])
      xa = a if chance(rng, .7) else vlib.make_axis(rng, 'NamedAxis', n, name='other')
      if len(xa) != n: xa = a
      kw['dx'] = vlib.make_var(rng, [xa], x1, name='x'); X = np.broadcast_to(x1, osh + [n])
    elif r < .5 and k:
      how = 'field'; m = sorted(int(q) for q in rng.permutation(k)[:int(rng.integers(1, k + 1))])
      F = np.cumsum(rng.uniform(.3, 2., [osh[q] for q in m] + [n]), -1) * choice(rng, [1, -1])
      F = F * np.where(rng.random(F.shape[:-1]) < .3, -1, 1)[..., None] if chance(rng, .3) else F
      fa = [o[q] for q in m] + [a]; t = [int(q) for q in rng.permutation(len(fa))]
      kw['dx'] = vlib.make_var(rng, [fa[q] for q in t], F.transpose(t), name='x')
      X = np.broadcast_to(F.reshape([osh[q] if q in m else 1 for q in range(k)] + [n]), osh + [n]); mon.hit('fields')
  deg = None
  if dt == 'd' and op in ('deriv', 'second', 'integrate') and chance(rng, .25):
    deg = 2 if op == 'second' else 1
    c = [np.round(rng.normal(size=osh + [1]), 2) for _ in range(deg + 1)]
    Y = sum(cc * X ** j for j, cc in enumerate(c)); mon.hit('polynomials')
  v = vlib.make_var(rng, axes, np.moveaxis(Y, -1, p), name=choice(rng, ['T', 'T', '']), atts={'units': 'K'}, plotatts={'plottitle': 'temp'})
  Yd = Y.astype(np.result_type(Y.dtype, 'd')); ids = [a, a.name, p, type(a)]; ax = choice(rng, ids)
  meth = chance(rng, .5)
  with np.errstate(all='ignore'):
    scale = np.abs(Yd[np.isfinite(Yd)]).max() if np.isfinite(Yd).any() else 1.
    xs = np.abs(X).max() + 1e-30; hm = np.abs(np.diff(X, axis=-1)).min()
    single = np.dtype(dt) == 'f'; eps = 2e-6 if single else 4e-15
    if single: eps *= 1.
    want_dt = np.dtype(dt) if np.dtype(dt).kind in 'fc' else np.dtype('d')
    oax = list(axes); order = 1; v0 = 0.; typ = ''; slack = None
    if op == 'deriv':
      typ = choice(rng, ['centre', 'left', 'right'])
      if typ != 'centre' or chance(rng, .5): kw['df'] = typ
      W = nfd(Yd, X, typ); f = lambda: v.deriv(ax, **kw) if meth else pyg('deriv')(v, ax, **kw)
      tol = eps * (scale / hm) * (1 + xs / hm * (1 if not single else 1e-9)); name = 'd' + v.name
    elif op == 'second':
      kw['df'] = '2'; W = nsd(Yd, X); f = lambda: v.deriv(ax, **kw) if meth else pyg('deriv')(v, ax, **kw)
      tol = eps * (scale / hm ** 2) * 4 * (1 + xs / hm * (1 if not single else 1e-9)); name = 'd2' + v.name
    elif op == 'diff':
      nn = int(choice(rng, [1, 1, 2, 3])); 
      if nn >= n: nn = n - 1
      typ = nn; W = np.diff(Y, nn, -1).astype(Yd.dtype); kw = {} if nn == 1 and chance(rng, .5) else {'n': nn}
      f = lambda: v.diff(ax, **kw) if meth else pyg('diff')(v, ax, **kw)
      want_dt = np.dtype(dt); tol = 0. if np.dtype(dt).kind in 'iu' else eps * scale * 2 ** nn; name = 'd' + v.name
    else:
      order = int(choice(rng, [1, 1, -1])); typ = 'cumsum' if op == 'cumsum' else choice(rng, ['trapz', 'rectl', 'rectr'])
      r = rng.random(); V0 = np.zeros(osh + [1])
      if r < .3: v0 = float(choice(rng, [2.5, -1., 7])); kw['v0'] = v0 if chance(rng, .5) else int(v0); V0 = V0 + kw['v0']
      elif r < .6:
        m = sorted(int(q) for q in rng.permutation(k)[:int(rng.integers(0, k + 1))]) 
        G = vlib.make_values(rng, [osh[q] for q in m], choice(rng, ['d', 'i4']))
        t = [int(q) for q in rng.permutation(len(m))]
        if m: kw['v0'] = vlib.make_var(rng, [o[m[q]] for q in t], G.transpose(t), name='c'); V0 = V0 + G.reshape([osh[q] if q in m else 1 for q in range(k)] + [1]); mon.hit('constants')
      if order == -1 or chance(rng, .3): kw['order'] = order
      if op == 'integrate' and (typ != 'trapz' or chance(rng, .5)): kw['type'] = typ
      W = nint(Yd, X, typ, V0, order)
      if order == -1: mon.hit('reverse')
      f = {'cumsum': lambda: v.cumsum(ax, **kw) if meth else pyg('cumsum')(v, ax, **kw), 'integrate': lambda: v.integrate(ax, **kw) if meth else pyg('integrate')(v, ax, **kw)}[op]
      want_dt = np.dtype('d'); tol = eps * n * (scale * (np.abs(np.diff(X, axis=-1)).max() if op == 'integrate' else 1.) + np.abs(V0).max() + scale); name = 'i' + v.name
  lab = '%s %s of %s along %s (axis %d), coordinate %s, order %d, %s' % (op, typ, vlib.describe(v), a.name, p, how, order, {z: kw[z] for z in kw if z not in ('dx', 'v0')})
  mon.context[:] = [lab]; mon.sample(lab); mon.hit(op); mon.hit('ends', 2)
  sig = (op, typ, cls, bool(a.values[0] > a.values[-1]), p, k, how, dt, 'v0' in kw, order, deg) if n > least else ()
  g = mon.op(op, f); got = mon.op('get', lambda: g.get())
  if v.name == '': name = name + '(UnknownVar)' if op not in ('x',) else name
  mon.check(g.name == name and g.dtype == want_dt == got.dtype, 'meta:' + op, 'result %r %s data %s, expected %r %s' % (g.name, g.dtype, got.dtype, name, want_dt), *sig)
  if op in ('deriv', 'second', 'diff'): mon.check(g.atts == v.atts and g.plotatts.get('plottitle') == 'temp', 'atts', 'attributes %s %s' % (g.atts, g.plotatts), *sig)
  if op == 'diff':
    want = np.asarray(a.values)[:n - nn]; b = g.axes[p]
    mon.check(type(b) is type(a) and np.array_equal(b.values, want) and b.name == a.name, 'axis:diff', 'axis of the difference %s' % b.values, *sig)
    mon.check(len(g.axes) == k + 1 and all(g.axes[q] == axes[q] for q in range(k + 1) if q != p), 'axes', 'axes %s' % (g.axes,), *sig)
  else: mon.check(len(g.axes) == k + 1 and all(b == c for b, c in zip(g.axes, axes)), 'axes', 'axes changed to %s' % (g.axes,), *sig)
  W = np.moveaxis(W, -1, p)
  if op == 'diff' and np.dtype(dt).kind in 'iu': W = np.moveaxis(np.diff(Y, nn, -1), -1, p)
  with np.errstate(all='ignore'): mon.same(got, W.astype(want_dt), 'value:%s' % op, lab, rtol=eps * 4, atol=tol, sig=sig)
  if deg is not None:
    xx = np.moveaxis(X, -1, p); cc = [np.moveaxis(np.broadcast_to(q, osh + [1]), -1, p) for q in c]
    big = sum(np.abs(q).max() * xs ** j for j, q in enumerate(c))
    if op == 'deriv': mon.same(got, cc[1] + 0 * xx, 'linear', 'derivative of a linear function: ' + lab, atol=1e-13 * big / hm * (1 + xs / hm), sig=sig)
    elif op == 'second': mon.same(got, 2 * cc[2] + 0 * xx, 'quadratic', 'second derivative of a parabola: ' + lab, atol=1e-13 * big / hm ** 2 * (1 + xs / hm), sig=sig)
    elif typ == 'trapz':
      F = cc[0] * xx + .5 * cc[1] * xx ** 2; e = np.take(F, [0 if order == 1 else n - 1], p)
      mon.same(got, (F - e) * order + np.moveaxis(V0, -1, p), 'linear-integral', 'integral of a linear function: ' + lab, atol=1e-13 * n * (big * xs + np.abs(V0).max() + 1), sig=sig)
  # identities on the real operators
  if op == 'cumsum' and order == 1 and np.isfinite(Yd).all():
    mon.hit('inverse'); b = mon.op('diff', lambda: g.diff(ax if not isinstance(ax, int) else p).get())
    mon.same(b, np.moveaxis(Yd[..., 1:], -1, p), 'inverse', 'difference of the cumulative sum: ' + lab, rtol=1e-12, atol=1e-13 * n * (scale + np.abs(V0).max() + 1), sig=sig)
  if op == 'integrate' and np.isfinite(Yd).all() and chance(rng, .4):
    mon.hit('inverse'); h = mon.op(op, lambda: v.integrate(ax, **dict(kw, order=-order)).get())
    tot = np.take(got + h, [0], p)
    mon.same(got + h, tot + 0 * got, 'both-ends', 'integrals from both ends do not add up: ' + lab, rtol=1e-12, atol=4 * tol + 1e-13 * n, sig=sig)
  for _ in range(2):
    sels = [vlib.random_selector(rng, z) for z in g.shape]; mon.hit('parts')
    part = mon.op('slice', lambda: g.slice[tuple(z for z, _ in sels)])
    mon.same(mon.op('part', lambda: part.get()), vlib.fullsel(got, [z for _, z in sels]), 'part:' + op, lambda: 'part %s' % ([z for _, z in sels],), rtol=1e-12 if not single else 1e-5, atol=tol * 1e-2, sig=sig)

def k_refuse(rng, mon):
  E = (AssertionError, ValueError, KeyError, TypeError)
  axes = vlib.make_axes(rng, 2, kinds=['Lat', 'Lon', 'Pres', 'NamedAxis'], nmax=5, nmin=3)
  v = vlib.make_var(rng, axes, vlib.make_values(rng, [len(q) for q in axes]), name='T'); a = axes[0]
  one = v.slice[:1]; two = v.slice[:2]
  x = vlib.make_var(rng, [a], np.arange(len(a)) * 1.)
  w = int(rng.integers(9))
  mon.context[:] = ['refusal %d' % w]; mon.hit('refusals')
  if w == 0: f = lambda: one.deriv(0)
  elif w == 1: f = lambda: two.deriv(0, df='2')
  elif w == 2: f = lambda: v.diff(0, n=len(a))
  elif w == 3: f = lambda: one.integrate(0)
  elif w == 4: f = lambda: v.integrate(0, type='simpson')
  elif w == 5: f = lambda: v.deriv(0, df='middle')
  elif w == 6: f = lambda: v.integrate(0, v0=v)
  elif w == 7: f = lambda: v.deriv('nonesuch')
  else: f = lambda: v.deriv(0, dx=x.slice[1:])
  mon.raises(f, 'refuse:%d' % w, 'bad argument %d accepted' % w, kinds=E)

"""C13: interpolation passes through its data and honours coordinates and edges."""
N_QUICK = 14000
N_THOROUGH = 250000
BUDGET_QUICK = 100
BUDGET_THOROUGH = 700
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: every interpolated profile is compared with an independent interpolant (numpy, scipy) of the valid points of that profile alone, including end slopes and missing points; refused inputs are checked to be refused'
RULE = ('a case is one interpolation: type, direction and position of the input axis, coordinate given by the axis, a 1-d field or a field varying along other axes (also with its own direction in each profile), target coordinates inside, at, and outside the data, '
        'missing points, extrapolation slopes; then parts of the result; non-trivial: at least one profile has enough valid points; distinct by (type, axis class, direction, position, coordinate kinds, missing pattern, slopes)')
REQUIRE = {'interpolations': 5500, 'profiles': 30000, 'short_profiles': 2000, 'outside': 20000, 'extrapolated': 5000, 'at_points': 20000, 'fields_in': 1000, 'fields_out': 800, 'parts': 3000, 'refusals': 500, 'mixed_direction': 200}
ASSUMPTIONS = ['numpy and scipy are correct', 'coordinates of one profile are distinct', 'Akima interpolation is compared on data without equal neighbouring slopes, and on exactly linear data']
import numpy as np
import vlib, exprs
from vlib import choice, chance
TYPES = ['linear', 'linear', 'cspline', 'cspline', 'akima', 'polynomial', 'cspline_periodic', 'akima_periodic']
LEAST = dict(linear=2, cspline=3, akima=5, polynomial=3, cspline_periodic=3, akima_periodic=5)

def interpolant(kind, x, y):
  from scipy import interpolate as I
  if kind == 'linear': return lambda q: np.interp(q, x, y)
  if kind == 'cspline': return I.CubicSpline(x, y, bc_type='natural')
  if kind == 'akima': return I.Akima1DInterpolator(x, y)
  if kind == 'polynomial': return lambda q: lagrange(x, y, q)
  if kind == 'cspline_periodic' and len(x) > 3 and y[0] == y[-1]: return I.CubicSpline(x, y, bc_type='periodic')
  return None

def lagrange(x, y, q):
  q = np.atleast_1d(q); out = np.zeros(len(q))
  for i in range(len(x)):
    p = np.ones(len(q))
    for j in range(len(x)):
      if j != i: p = p * (q - x[j]) / (x[i] - x[j])
    out += y[i] * p
  return out

def profile(kind, x, y, q, below, above, linear):
  """Expected values at q; NaN where undefined; mask of values which are determined."""
  ok = np.isfinite(x) & np.isfinite(y); x, y = x[ok], y[ok]
  out = np.full(len(q), np.nan); known = np.ones(len(q), bool)
  if len(x) < LEAST[kind]: return out, known, False
  o = np.argsort(x); x, y = x[o], y[o]
  lo, hi = q < x[0], q > x[-1]
  ins = ~lo & ~hi
  y0, y1 = y[0], y[-1]
  if kind.endswith('periodic'): pass
  out[lo] = y0 + below * (q[lo] - x[0]); out[hi] = y1 + above * (q[hi] - x[-1])
  if linear is not None: out[ins] = linear[0] + linear[1] * q[ins]; 
  else:
    f = interpolant(kind, x, y)
    if f is None:
      known[ins] = False
      for j in np.flatnonzero(ins):
        m = np.flatnonzero(x == q[j])
        if len(m): out[j] = y[m[0]]; known[j] = m[0] < len(x) - 1 or y[0] == y[-1]
      if y[0] != y[-1]: known[hi] = False
    else: out[ins] = f(q[ins])
  out[np.isnan(q)] = np.nan
  return out, known, True

def coords(rng, n, scale):
  d = rng.uniform(.25, 1., n); x = np.cumsum(d); x = x / x[-1] * scale
  return x + scale * float(choice(rng, [0., 0., -.5, 3.]))

def INTERP(*a, **k):
  from pygeode.interp import interpolate
  return interpolate(*a, **k)

def case(rng, i, mon):
  mon.context[:] = []
  (k_refuse if i % 12 == 11 else k_interp)(rng, i, mon)

def k_interp(rng, i, mon):
  import pygeode as pyg
  from pygeode.var import Var
  from pygeode import axis as A
  kind = TYPES[i % len(TYPES)]
  cls = choice(rng, ['Pres', 'Height', 'Lat', 'Lon', 'XAxis', 'NamedAxis', 'StandardTime', 'ModelTime365', 'YAxis'])
  n = int(rng.integers(1, 9 if kind == 'polynomial' else 16))
  if chance(rng, .8): n = max(n, LEAST[kind] + 1)
  a = vlib.make_axis(rng, cls, n, order=choice(rng, ['inc', 'dec']))
  k = int(choice(rng, [0, 1, 1, 2, 2, 3]))
  free = [q for q in ['Lat', 'Lon', 'Pres', 'NamedAxis', 'ModelTime360'] if vlib.GROUP[q] != vlib.GROUP[cls]]
  o = vlib.make_axes(rng, k, kinds=free, nmax=4); k = len(o)
  p = int(rng.integers(0, k + 1)); axes = o[:p] + [a] + o[p:]; shape = [len(q) for q in axes]
  osh = [len(q) for q in o]
  # --- coordinate of the input
  xin = np.asarray(a.values, 'd')
  inx = None; how_in = 'axis'; r = rng.random()
  X = np.broadcast_to(xin, osh + [n]).copy()
  if r < .25:
    how_in = '1d'; xin = coords(rng, n, 100.) * (1 if chance(rng, .5) else -1)
    if chance(rng, .3): xin = xin[::-1].copy()
    if chance(rng, .15): xin[int(rng.integers(n))] = np.nan
    inx = vlib.make_var(rng, [a], xin, name='x'); X = np.broadcast_to(xin, osh + [n]).copy()
  elif r < .5 and k:
    how_in = 'field'; m = sorted(int(q) for q in rng.permutation(k)[:int(rng.integers(1, k + 1))])
    F = np.empty([osh[q] for q in m] + [n]); mixed = chance(rng, .4)
    sgn = -1 if chance(rng, .5) else 1
    for ix in np.ndindex(*F.shape[:-1]):
      c = coords(rng, n, 100.)
      if mixed and chance(rng, .5): c = c[::-1]
      F[ix] = c[::sgn]
      if chance(rng, .15): F[ix][int(rng.integers(n))] = np.nan
    if mixed: mon.hit('mixed_direction')
    fa = [o[q] for q in m] + [a]; t = [int(q) for q in rng.permutation(len(fa))]
    inx = vlib.make_var(rng, [fa[q] for q in t], F.transpose(t), name='x')
    X = np.broadcast_to(F.reshape([osh[q] if q in m else 1 for q in range(k)] + [n]), osh + [n]).copy(); mon.hit('fields_in')
  # --- data
  lin = None
  dt = choice(rng, ['d', 'd', 'f', 'i4'])
  Y = vlib.make_values(rng, osh + [n], dt).astype('d')
  if dt == 'i4' and kind.startswith('akima'): dt = 'd'; Y = Y + np.round(rng.normal(size=Y.shape), 4)
  if chance(rng, .1) and not kind.endswith('periodic'): lin = (1.5, .25); Y = lin[0] + lin[1] * X; Y[np.isnan(Y)] = 0; dt = 'd'
  if kind.endswith('periodic') and lin is None and chance(rng, .7) and n: Y[..., -1] = Y[..., 0]
  if dt == 'f': Y = Y.astype('f').astype('d')
  nan = 'none'
  if dt != 'i4' and chance(rng, .45):
    nan = choice(rng, ['some', 'many', 'ends', 'inf'])
    if nan == 'some': Y[rng.random(Y.shape) < .15] = np.nan
    elif nan == 'many': Y[rng.random(Y.shape) < .6] = np.nan
    elif nan == 'ends': Y[..., :int(rng.integers(0, n // 2 + 1))] = np.nan; Y[..., n - int(rng.integers(0, n // 2 + 1)):] = np.nan
    else: Y[rng.random(Y.shape) < .15] = choice(rng, [np.inf, -np.inf])
  v = vlib.make_var(rng, axes, np.moveaxis(Y, -1, p).astype(dt), name='T', atts={'units': 'K'})
  # --- target
  m = int(rng.integers(1, 12))
  fin = X[np.isfinite(X)]
  lo, hi = (fin.min(), fin.max()) if len(fin) else (0., 1.)
  w = (hi - lo) or 1.
  q = rng.uniform(lo - .3 * w, hi + .3 * w, m)
  hit = rng.random(m) < .4
  if len(fin): q[hit] = rng.choice(fin, hit.sum())
  if chance(rng, .3) and len(fin): q = np.sort(fin.ravel() if len(fin) < 30 else fin.ravel()[:10])
  q = np.unique(q)
  if chance(rng, .3): q = q[::-1].copy()
  elif chance(rng, .2): q = rng.permutation(q)
  m = len(q)
  ocls = choice(rng, [q2 for q2 in ['Pres', 'Height', 'XAxis', 'Lat', 'Lon', 'NamedAxis'] if vlib.GROUP[q2] not in [vlib.GROUP[type(z).__name__] for z in o] and type(a).__name__ not in ('StandardTime', 'ModelTime365') or True])
  used = [type(z).__name__ for z in o]
  names = set(z.name for z in o)
  cand = [c for c in ['Pres', 'Height', 'XAxis', 'YAxis', 'Lat', 'Lon', 'Hybrid'] if not any(vlib.GROUP.get(c) == vlib.GROUP.get(u) for u in used)]
  if cls in cand and chance(rng, .5): ocls = cls
  elif cand: ocls = choice(rng, cand)
  else: mon.ev(); return
  outx = None; how_out = 'axis'; Q = np.broadcast_to(q, osh + [m]).copy()
  r = rng.random()
  C = getattr(A, ocls)
  mk = lambda vals: C(vals, A=np.zeros(len(vals)), B=np.zeros(len(vals))) if ocls == 'Hybrid' else C(vals)
  if r < .55: oa = mk(q)
  else:
    oa = mk(np.arange(m) * 1.)
    if r < .75 or not k: how_out = '1d'; outx = vlib.make_var(rng, [oa], q, name='q')
    else:
      how_out = 'field'; mm = sorted(int(z) for z in rng.permutation(k)[:int(rng.integers(1, k + 1))])
      G = rng.uniform(lo - .3 * w, hi + .3 * w, [osh[z] for z in mm] + [m])
      pick = rng.random(G.shape) < .3
      if len(fin): G[pick] = rng.choice(fin, int(pick.sum()))
      if chance(rng, .1): G.ravel()[0] = np.nan
      ga = [o[z] for z in mm] + [oa]; t = [int(z) for z in rng.permutation(len(ga))]
      outx = vlib.make_var(rng, [ga[z] for z in t], G.transpose(t), name='q'); mon.hit('fields_out')
      Q = np.broadcast_to(G.reshape([osh[z] if z in mm else 1 for z in range(k)] + [m]), osh + [m]).copy()
  kw = {}; below = above = np.nan
  if chance(rng, .5):
    if chance(rng, .7): below = float(choice(rng, [0., 1.5, -2.])); kw['d_below'] = below
    if chance(rng, .7): above = float(choice(rng, [0., .5, -3.])); kw['d_above'] = above
  if inx is not None: kw['inx'] = inx
  if outx is not None: kw['outx'] = outx
  if kind != 'cspline' or chance(rng, .5): kw['interp_type'] = kind
  tr = choice(rng, [None, None, True, False])
  if tr is not None and ocls not in used: kw['transpose'] = tr
  # --- expected
  W = np.empty(osh + [m]); K = np.ones(osh + [m], bool); any_ok = False
  for ix in np.ndindex(*osh):
    W[ix], K[ix], ok = profile(kind, X[ix], Y[ix], Q[ix], below, above, lin)
    any_ok |= ok; mon.hit('profiles'); mon.hit('short_profiles', 0 if ok else 1)
    if ok:
      g = X[ix][np.isfinite(X[ix]) & np.isfinite(Y[ix])]; out = (Q[ix] < g.min()) | (Q[ix] > g.max())
      mon.hit('outside', int(out.sum())); mon.hit('extrapolated', int((out & ~np.isnan(W[ix])).sum())); mon.hit('at_points', int(np.isin(Q[ix], g).sum()))
  lab = '%s interpolation of %s along %s (axis %d, %s), coordinate %s -> %s, %d targets, missing %s, %s' % (kind, vlib.describe(v), a.name, p, 'dec' if n > 1 and a.values[0] > a.values[-1] else 'inc', how_in, how_out, m, nan, {z: kw[z] for z in kw if z not in ('inx', 'outx')})
  mon.context[:] = [lab]; mon.sample(lab); mon.hit('interpolations')
  ids = [a, a.name, p, type(a)]
  fn = mon.op('interpolate', lambda: v.interpolate(choice(rng, ids), oa, **kw) if hasattr(type(v), 'interpolate') and chance(rng, .5) else INTERP(v, choice(rng, ids), oa, **kw))
  got = mon.op('get', lambda: fn.get())
  have = [z.name for z in fn.axes]
  want_names = [z.name for z in o] + [oa.name]
  sig = (kind, cls, ocls, p, k, how_in, how_out, nan, sorted(z for z in kw if z.startswith('d_')), bool(n > 1 and a.values[0] > a.values[-1]), lin is None) if any_ok else ()
  if not mon.check(sorted(have) == sorted(want_names) and fn.name == 'T' and fn.atts.get('units') == 'K' and fn.dtype == np.dtype('d') == got.dtype, 'meta', 'result %s %r %s %s' % (have, fn.name, fn.atts, fn.dtype), *sig): return
  perm = [have.index(z) for z in want_names] if len(set(want_names)) == len(want_names) else list(range(k + 1))
  for z, b in zip(perm, o + [oa]): mon.check(fn.axes[z] == b, 'axes', 'axis %s changed' % b.name, *sig)
  ys = np.abs(Y[np.isfinite(Y)]).max() if np.isfinite(Y).any() else 1.
  amp = 1. if kind == 'linear' else 1e4 if kind == 'polynomial' else 1e2
  sl = max(abs(below if below == below else 0), abs(above if above == above else 0), abs(lin[1]) if lin else 0)
  at = 1e-12 * amp * (ys + sl * (w + np.abs(fin).max() if len(fin) else 1)) + 1e-12
  if kind == 'polynomial': at *= 10 ** max(0, n - 4)
  W = np.where(K, W, 0.)
  mon.same(np.where(K, got.transpose(perm), 0.), W, 'value:' + kind + (':at' if False else ''), lab, rtol=1e-9, atol=at, sig=sig)
  for _ in range(2):
    sels = [vlib.random_selector(rng, z) for z in fn.shape]
    part = mon.op('slice', lambda: fn.slice[tuple(z for z, _ in sels)]); mon.hit('parts')
    mon.same(mon.op('part', lambda: part.get()), vlib.fullsel(got, [z for _, z in sels]), 'part:' + kind, lambda: 'part %s' % ([z for z, _ in sels],), rtol=1e-11, atol=at * 1e-2, sig=sig)

def k_refuse(rng, i, mon):
  import pygeode as pyg
  from pygeode import axis as A
  o = vlib.make_axes(rng, 1, kinds=['Lon', 'NamedAxis'], nmax=4); n = int(rng.integers(6, 12))
  a = A.Pres(np.sort(rng.uniform(10, 1000, n))); axes = o + [a]
  v = vlib.make_var(rng, axes, rng.normal(size=[len(z) for z in axes]), name='T')
  oa = A.Height(np.linspace(100, 800, 5)); mon.hit('refusals')
  k = int(rng.integers(5)); get = lambda **kw: lambda: INTERP(v, 'pres', oa, **kw).get()
  mon.context[:] = ['refusal %d' % k]
  kind = choice(rng, ['linear', 'cspline', 'akima', 'polynomial'])
  if k == 0:   # coordinate neither increasing nor decreasing in one profile
    F = np.broadcast_to(np.arange(n) * 100., [len(o[0]), n]).copy(); j = int(rng.integers(len(o[0]))); F[j, n // 2] = choice(rng, [F[j, 0], F[j, 1] - 50, F[j, n // 2 + 1], 1e4])
    inx = vlib.make_var(rng, [o[0], a], F, name='x')
    mon.raises(get(inx=inx, interp_type=kind), 'nonmonotone', 'a coordinate field which is not monotonic', kinds=(ValueError,))
  elif k == 1: mon.raises(get(interp_type=choice(rng, ['cubic', 'nearest', ''])), 'bad-type', 'unknown interpolation type')
  elif k == 2: mon.raises(lambda: INTERP(v, 'lat', oa).get(), 'no-axis', 'interpolating along an axis the variable does not have')
  elif k == 3:
    b = A.Pres(np.sort(rng.uniform(10, 1000, n + 1)))
    mon.raises(get(inx=vlib.make_var(rng, [b], np.arange(n + 1.), name='x')), 'other-axis', 'input coordinate on another axis')
  else: mon.raises(get(outx=vlib.make_var(rng, [a], np.arange(n) * 1., name='x')), 'other-axis', 'target coordinate not on the target axis')

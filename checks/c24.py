"""C24: grid constructors, and area weights through selections."""
N_QUICK = 16000
N_THOROUGH = 40000
BUDGET_QUICK = 70
BUDGET_THOROUGH = 700
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: constructed grids compared with closed forms and with exact polynomial integrals; weights tracked by the identity of their points through random histories of selections and reorderings'
RULE = ('a case is a grid constructor (or the log-pressure heights of a pressure axis) with random size, order, origin and options, a rotation of a longitude variable, or a history of 1-5 selections and reorderings of a variable with weighted axes; '
        'non-trivial: at least one point; distinct by (kind, size class, options, operations)')
REQUIRE = {'gauss': 500, 'moments': 3000, 'means': 700, 'regular': 1000, 'rotated': 1000, 'followed': 1200, 'steps': 2500, 'weighted_means': 900, 'refused': 50, 'logp': 150}
ASSUMPTIONS = ['numpy is correct; numpy.polynomial.legendre.leggauss is accurate to 1e-13']
import warnings
import numpy as np
import vlib
from vlib import choice, chance

def case(rng, i, mon):
  mon.context[:] = []
  with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    (logp if i % 40 == 7 else [gauss, regular, rotate, follow, follow, follow, rotate, regular][i % 8])(rng, mon)

def val(m): return np.asarray(m.get() if hasattr(m, 'get') else m)
def size(n): return 'one' if n == 1 else 'odd' if n % 2 else 'even'

def gauss(rng, mon):
  import pygeode as pyg
  from pygeode.axis import Lat
  from pygeode.var import Var
  n = int(choice(rng, [1, 2, 3, 4, 5, int(rng.integers(1, 40)), int(rng.integers(40, 200)), int(rng.integers(200, 700))])); order = choice(rng, [1, -1, None])
  lab = 'gausslat(%d, order=%s)' % (n, order); mon.context[:] = [lab]; mon.hit('gauss')
  ax = mon.op('gausslat', lambda: pyg.gausslat(n) if order is None else pyg.gausslat(n, order) if chance(rng, .5) else pyg.gausslat(n, order=order))
  sig = ('gauss', size(n), order)
  if not mon.check(type(ax) is Lat and len(ax) == n and ax.name == 'lat' and ax.weights.shape == (n,), 'form', '%s is %r' % (lab, ax), *sig): return
  v = np.asarray(ax.values); w = np.asarray(ax.weights); s = 1 if order in (1, None) else -1; x = np.sin(np.radians(v))
  gx, gw = np.polynomial.legendre.leggauss(n)
  mon.check(n == 1 or np.all(np.diff(v) * s > 0), 'order', '%s: latitudes %s' % (lab, v[:5]), *sig)
  mon.check(np.all(np.abs(v) < 90) and np.all(w > 0), 'range', '%s: latitudes %s weights %s' % (lab, v[:5], w[:5]), *sig)
  mon.same(v, np.degrees(np.arcsin(gx[::s])), 'nodes', lab, rtol=0, atol=1e-7, sig=sig)
  mon.same(w / w.sum(), gw[::s] / 2, 'weights', lab, rtol=1e-7, atol=1e-13, sig=sig)
  mon.same(v, -v[::-1], 'symmetry', lab, rtol=0, atol=1e-9, sig=sig); mon.same(w, w[::-1], 'symmetry', lab + ' weights', rtol=1e-11, sig=sig)
  # exact up to degree 2n-1
  degs = sorted({0, 1, 2, 2 * n - 1, 2 * n - 2, *[int(q) for q in rng.integers(0, 2 * n, 4)]})
  for k in degs:
    if k > 2 * n - 1 or k < 0: continue
    mon.hit('moments'); got = np.sum(w * x ** k) / w.sum(); want = 0. if k % 2 else 1. / (k + 1)
    mon.check(abs(got - want) < 2e-12, 'exact', '%s: the mean of sin(lat)^%d is %r, expected %r' % (lab, k, got, want), *sig, k % 2)
  c = rng.uniform(-1, 1, min(2 * n, 12)); P = np.polynomial.legendre.Legendre(c); y = P(x)
  mon.hit('means'); m = mon.op('mean', lambda: Var([ax], values=y, name='p').mean('lat')); m = float(np.asarray(m.get() if hasattr(m, 'get') else m))
  mon.check(abs(m - c[0]) < 1e-11 * max(1, np.abs(c).sum()), 'mean', '%s: area mean of a polynomial of degree %d is %r, expected %r' % (lab, len(c) - 1, m, c[0]), *sig)
  b = pyg.gausslat(n, order=-s); mon.same(np.asarray(b.values), v[::-1], 'reversed', lab, rtol=0, atol=1e-12, sig=sig); mon.same(np.asarray(b.weights), w[::-1], 'reversed', lab, rtol=1e-13, sig=sig)
  mon.same(np.asarray(pyg.gausslat(n, order=s).values), v, 'again', lab, sig=sig)
  if chance(rng, .25): mon.hit('refused'); bad = choice(rng, [0, -1, -5]); mon.raises(lambda: pyg.gausslat(bad), 'refuse', 'gausslat(%d)' % bad)

def logp(rng, mon):
  from pygeode.axis import Pres, ZAxis
  n = int(rng.integers(1, 20)); p = np.round(10. ** rng.uniform(-2, 3.1, n), 4); p = np.unique(p)[::choice(rng, [1, -1])]
  ax = Pres(p); before = vlib.snap_axis(ax); base = dict(ZAxis.plotatts); kw = {}
  if chance(rng, .5): kw['p0'] = float(choice(rng, [1013.25, 850., 1.]))
  if chance(rng, .5): kw['H'] = float(choice(rng, [7., 8.5, 7000.]))
  lab = 'logPAxis(%s) of %s' % (kw, p); mon.context[:] = [lab]; mon.hit('logp'); sig = ('logp', tuple(sorted(kw)), size(n))
  z = mon.op('logPAxis', lambda: ax.logPAxis(**kw))
  mon.check(isinstance(z, ZAxis) and not isinstance(z, Pres) and len(z) == len(p), 'logp-form', '%s is %r' % (lab, z), *sig)
  mon.same(np.asarray(z.values), -kw.get('H', 7.1) * np.log(p / kw.get('p0', 1000.)), 'logp', lab, rtol=1e-9, atol=1e-9, sig=sig)
  mon.check(ZAxis.plotatts == base and vlib.same_tree(vlib.snap_axis(ax), before), 'logp-others', lab + ' changed other axes', *sig)

def regular(rng, mon):
  import pygeode as pyg
  from pygeode.axis import Lat, Lon
  from pygeode.var import Var
  mon.hit('regular'); n = int(choice(rng, [1, 2, 3, int(rng.integers(1, 20)), int(rng.integers(20, 400))])); order = choice(rng, [1, -1]); opt = chance(rng, .5)
  if chance(rng, .5):
    lab = 'regularlat(%d, order=%d, inc_poles=%s)' % (n, order, opt); mon.context[:] = [lab]; sig = ('lat', size(n), order, opt)
    a = mon.op('regularlat', lambda: pyg.regularlat(n, order, opt) if chance(rng, .3) else pyg.regularlat(n, order=order, inc_poles=opt) if not opt or chance(rng, .5) else pyg.regularlat(n, order=order))
    if not mon.check(type(a) is Lat and len(a) == n, 'form', '%s is %r' % (lab, a), *sig): return
    v = np.asarray(a.values)
    if opt and n > 1: want = -90 + 180. * np.arange(n) / (n - 1)
    elif opt: want = np.array([v[0]]); mon.check(-90 <= v[0] <= 90, 'range', lab, *sig)
    else: want = -90 + 180. * np.arange(1, n + 1) / (n + 1)
    mon.same(v, want[::order], 'values', lab, rtol=0, atol=1e-10, sig=sig)
    w = np.asarray(a.weights); c = np.cos(np.radians(v))
    mon.same(w * np.abs(c).sum(), np.abs(c) * w.sum(), 'weights', lab, rtol=0, atol=1e-9, sig=sig)
    y = rng.uniform(-1, 1, n)
    if n > 2:
      mon.hit('means'); m = mon.op('mean', lambda: Var([a], values=y, name='p').mean('lat')); m = float(np.asarray(m.get() if hasattr(m, 'get') else m))
      mon.same(m, np.sum(y * c) / np.sum(c), 'mean', lab, rtol=0, atol=1e-10, sig=sig)
  else:
    org = choice(rng, [0., 0., -180., float(np.round(rng.uniform(-360, 360), 2)), 180])
    lab = 'regularlon(%d, origin=%s, order=%d, repeat_origin=%s)' % (n, org, order, opt); mon.context[:] = [lab]; sig = ('lon', size(n), order, opt, np.sign(org))
    a = mon.op('regularlon', lambda: pyg.regularlon(n, org, order, opt) if chance(rng, .3) else pyg.regularlon(n, origin=org, order=order, repeat_origin=opt))
    if not mon.check(type(a) is Lon and len(a) == n, 'form', '%s is %r' % (lab, a), *sig): return
    want = org + 360. * np.arange(n) / (n - 1 if opt and n > 1 else n)
    mon.same(np.asarray(a.values), want[::order], 'values', lab, rtol=0, atol=1e-10, sig=sig)
    if org == 0 and not opt and order == 1: mon.same(np.asarray(pyg.regularlon(n).values), want, 'default', lab, rtol=0, atol=1e-10, sig=sig)

def rotate(rng, mon):
  import pygeode as pyg
  from pygeode.axis import Lon
  mon.hit('rotated'); n = int(rng.integers(1, 25))
  if chance(rng, .5): base = pyg.regularlon(n, origin=choice(rng, [0, -180, 30.]), order=choice(rng, [1, -1]))
  else: base = vlib.make_axis(rng, 'Lon', n, order=choice(rng, ['inc', 'dec']))
  name = choice(rng, ['lon', 'lon', 'longitude']); kw = {}
  if chance(rng, .4): kw['weights'] = np.round(rng.uniform(.1, 2, n), 4)
  if chance(rng, .3): kw['tag'] = np.array(['p%d' % q for q in range(n)])
  lon = Lon(base.values, name=name, atts={'note': 'x'} if chance(rng, .3) else None, **kw)
  others = vlib.make_axes(rng, int(rng.integers(0, 3)), kinds=['Lat', 'Pres', 'StandardTime', 'NamedAxis'], nmax=3)
  axes = list(others); k = int(rng.integers(0, len(axes) + 1)); axes.insert(k, lon); Y = vlib.make_values(rng, [len(a) for a in axes], choice(rng, ['d', 'f', 'i4']))
  v = vlib.make_var(rng, axes, Y, name='T', atts={'units': 'K'}); v0 = np.asarray(lon.values)
  org = choice(rng, [0, -180, 180, 360, float(np.round(rng.uniform(-400, 400), 1)), float(v0[int(rng.integers(n))]), float(v0[int(rng.integers(n))]) - 360]); dup = chance(rng, .4)
  lab = 'rotatelon(%s, %s, duplicate=%s) of %s' % (name, org, dup, v0); mon.context[:] = [lab]; sig = ('rotate', len(axes), k, dup, size(n), org in (0, -180))
  s0 = [vlib.snap_axis(a) for a in v.axes]
  r = mon.op('rotatelon', lambda: pyg.rotatelon(v, org, duplicate=dup) if dup or chance(rng, .5) else pyg.rotatelon(v, org))
  mon.check(vlib.same_tree([vlib.snap_axis(a) for a in v.axes], s0), 'original', lab + ' changed its argument', *sig)
  m = n + dup
  if not mon.check([len(a) for a in r.axes] == [m if q == k else len(a) for q, a in enumerate(axes)] and type(r.axes[k]) is Lon and r.axes[k].name == name, 'form', '%s gave %r' % (lab, r.axes), *sig): return
  nv = np.asarray(r.axes[k].values); mon.check(np.all(np.diff(nv) > 0) and nv[0] > org - 1e-6 and nv[n - 1] < org + 360 + 1e-6, 'range', '%s: longitudes %s' % (lab, nv), *sig)
  # the same points, relabelled
  d = (nv[:n, None] - v0[None, :]) % 360; d = np.minimum(d, 360 - d); p = np.argmin(d, 1)
  if not mon.check(sorted(p) == list(range(n)) and d.min(1).max() < 1e-6, 'points', '%s: longitudes %s' % (lab, nv), *sig): return
  if dup: mon.check(abs(nv[n] - nv[0] - 360) < 1e-6, 'duplicate', '%s: longitudes %s' % (lab, nv), *sig); p = np.r_[p, p[0]]
  mon.same(mon.op('get', lambda: r.get()), np.take(Y, p, k), 'values', lab, sig=sig)
  for q, w in kw.items(): mon.check(hasattr(r.axes[k], q) and np.array_equal(np.asarray(getattr(r.axes[k], q)), np.asarray(w)[p]), 'aux', '%s: %s are %s, expected %s' % (lab, q, getattr(r.axes[k], q, None), np.asarray(w)[p]), *sig)
  sel = [vlib.random_selector(rng, z) for z in r.shape]
  mon.same(mon.op('part', lambda: r.slice[tuple(s for s, ix in sel)].get()), np.take(Y, p, k)[np.ix_(*[ix for s, ix in sel])], 'values', lab + ' in part', sig=sig)
  if not dup and 'weights' not in kw and n > 1: mon.same(val(mon.op('mean', lambda: r.mean(name))), val(mon.op('mean', lambda: v.mean(name))), 'mean', lab, rtol=1e-5, atol=1e-5, sig=sig)
  w = pyg.rotatelon(vlib.make_var(rng, others, vlib.make_values(rng, [len(a) for a in others]), name='q'), org); mon.check([a.name for a in w.axes] == [a.name for a in others], 'nolon', 'rotatelon of a variable without longitudes', *sig)

def follow(rng, mon):
  """weights (and cosines) stay with their points"""
  import pygeode as pyg
  from pygeode.axis import Lat, Lon, Pres, NamedAxis
  mon.hit('followed')
  kinds = [('Lat', 'gauss'), ('Lat', 'regular'), ('Lat', 'cos'), ('Lat', 'given'), ('Lon', 'given'), ('Pres', 'given'), ('NamedAxis', 'given')]
  use = []
  for q in rng.permutation(len(kinds))[:int(rng.integers(1, 4))]:
    kd = kinds[int(q)]
    if kd[0] not in [u[0] for u in use]: use.append(kd)
  axes = []; W = []
  for kd, how in use:
    n = int(rng.integers(1, 8))
    if how == 'gauss': a = pyg.gausslat(n, order=choice(rng, [1, -1])); w = np.array(a.weights)
    elif how == 'regular': a = pyg.regularlat(n, order=choice(rng, [1, -1]), inc_poles=False); w = np.cos(np.radians(a.values))
    elif how == 'cos':
      a = Lat(vlib.make_axis(rng, 'Lat', n, order='any').values); w = np.cos(np.radians(a.values))
      mon.same(np.asarray(a.weights), w, 'cosine', 'Lat(%s)' % a.values, rtol=1e-12, atol=1e-15, sig=('cos', size(n)))
    else:
      b = vlib.make_axis(rng, kd, n, order=choice(rng, ['inc', 'dec', 'any'])); w = np.round(rng.uniform(.1, 2, n), 4)
      a = {'Lat': Lat, 'Lon': Lon, 'Pres': Pres, 'NamedAxis': NamedAxis}[kd](b.values, name=b.name, weights=w)
    axes.append(a); W.append(dict(zip([float(q) for q in a.values], [float(q) for q in w])))
  plain = vlib.make_axes(rng, int(rng.integers(0, 2)), kinds=['StandardTime', 'Height'] if all(kd != 'Pres' for kd, h in use) else ['StandardTime'], nmax=3, order='inc'); allax = axes + plain
  pm = [int(q) for q in rng.permutation(len(allax))]; allax = [allax[q] for q in pm]; Ws = [(W + [None] * len(plain))[q] for q in pm]
  Y = vlib.make_values(rng, [len(a) for a in allax]); v = vlib.make_var(rng, allax, Y, name='T')
  names = [a.name for a in allax]; hist = []
  for _ in range(int(rng.integers(1, 6))):
    mon.hit('steps'); k = int(rng.integers(v.naxes)); a = v.axes[k]; vals = np.asarray(a.values, dtype='d') if Ws[k] is not None else None
    op = choice(rng, ['slice', 'slice', 'value', 'range', 'index', 'list', 'sorted', 'transpose', 'concat', 'rename', 'weightless', 'squeeze', 'var', 'arith'])
    hist.append('%s %s' % (op, a.name)); mon.context[:] = [str([(x[0], x[1]) for x in use]), ' ; '.join(hist)]
    if op == 'slice': sl = [slice(None)] * v.naxes; s, ix = vlib.random_selector(rng, len(a)); sl[k] = s; v = mon.op(op, lambda: v.slice[tuple(sl)]); Y = np.take(Y, ix, k)
    elif op in ('value', 'range', 'list') and vals is None: continue
    elif op == 'value': j = int(rng.integers(len(a))); z = float(vals[j]); v = mon.op(op, lambda: v(**{a.name: z})); Y = np.take(Y, [j], k)
    elif op == 'range': lo, hi = sorted(float(q) for q in rng.choice(vals, 2)); ix = np.where((vals >= lo) & (vals <= hi))[0]; v = mon.op(op, lambda: v(**{a.name: (lo, hi)})); Y = np.take(Y, ix, k)
    elif op == 'list': ix = np.sort(rng.permutation(len(a))[:int(rng.integers(1, len(a) + 1))]); v = mon.op(op, lambda: v(**{'l_' + a.name: [float(vals[q]) for q in ix]})); Y = np.take(Y, ix, k)
    elif op == 'index': lo = int(rng.integers(len(a))); hi = int(rng.integers(lo + 1, len(a) + 1)); v = mon.op(op, lambda: v(**{'i_' + a.name: (lo, hi)})); Y = np.take(Y, np.arange(lo, hi), k)
    elif op == 'sorted':
      if vals is None: continue
      rev = chance(rng, .5); v = mon.op(op, lambda: v.sorted(**{a.name: -1 if rev else 1})); ix = np.argsort(-vals if rev else vals, kind='stable'); Y = np.take(Y, ix, k)
    elif op == 'transpose': q = [int(z) for z in rng.permutation(v.naxes)]; v = mon.op(op, lambda: v.transpose(*q)); Y = np.transpose(Y, q); Ws = [Ws[z] for z in q]
    elif op == 'concat':
      if len(a) < 2 or vals is None: continue
      c = int(rng.integers(1, len(a))); sl = lambda s: tuple(s if q == k else slice(None) for q in range(v.naxes)); p1, p2 = v.slice[sl(slice(0, c))], v.slice[sl(slice(c, None))]; v = mon.op(op, lambda: pyg.concatenate([p1, p2]))
      # pieces whose values follow on in either direction are put in that order
      got = [float(z) for z in v.axes[k].values]; want = [float(z) for z in vals]
      if not mon.check(sorted(got) == sorted(want), 'concat', 'concatenating %s and %s gave %s' % (vals[:c], vals[c:], got), 'concat'): return
      Y = np.take(Y, [want.index(z) for z in got], k)
    elif op == 'rename': v = mon.op(op, lambda: v.rename('R'))
    elif op == 'squeeze':
      one = [q for q in range(v.naxes) if len(v.axes[q]) == 1]
      if not one or len(one) == v.naxes: continue
      v = mon.op(op, lambda: v.squeeze()); Y = np.squeeze(Y, tuple(one)); Ws = [w for q, w in enumerate(Ws) if q not in one]
    elif op == 'arith': v = mon.op(op, lambda: v + v * 0)
    elif op == 'var':
      from pygeode.var import Var
      v = Var(v.axes, values=v.get(), name='N')
    else: continue
    if not mon.check(v.shape == Y.shape, 'shape', '%s: %s, expected %s' % (hist[-1], v.shape, Y.shape), op): return
    for a, w in zip(v.axes, Ws):
      if w is None: mon.check(not hasattr(a, 'weights'), 'weights', '%s has weights' % a.name, op); continue
      if not mon.check(hasattr(a, 'weights') and a.weights.shape == (len(a),), 'weights', '%s: the weights of %s are %s' % (hist[-1], a.name, getattr(a, 'weights', None)), op): return
      mon.same(np.asarray(a.weights), np.array([w[float(q)] for q in a.values]), 'weights', '%s: weights of %s' % (hist[-1], a.name), rtol=1e-12, atol=1e-15, sig=(op, type(a).__name__, len(v.axes)))
  mon.same(mon.op('get', lambda: v.get()), Y, 'values', 'data', rtol=1e-12, sig=('data', v.naxes))
  mon.sample(' ; '.join(hist))
  # the weighted mean over a subset of the axes
  ks = [q for q in range(v.naxes) if chance(rng, .7)]
  if not ks: return
  wt = np.ones(Y.shape)
  for q in ks:
    if Ws[q] is not None: wt = wt * np.array([Ws[q][float(z)] for z in v.axes[q].values]).reshape([-1 if z == q else 1 for z in range(v.naxes)])
  if np.any(np.abs(wt.sum(tuple(ks))) < 1e-3): return
  mon.hit('weighted_means'); m = mon.op('mean', lambda: v.mean(*[v.axes[q].name for q in ks])); m = m.get() if hasattr(m, 'get') else m
  mon.same(np.asarray(m), np.sum(Y * wt, tuple(ks)) / np.sum(wt, tuple(ks)), 'mean', 'mean over %s after %s' % ([v.axes[q].name for q in ks], '; '.join(hist)), rtol=1e-9, atol=1e-9, sig=('mean', len(ks), v.naxes))
  if any(Ws[q] is not None for q in ks):
    g = mon.op('getweights', lambda: v.getweights(ks)); gw = np.asarray(g.get()); want = [np.array([Ws[q][float(z)] for z in v.axes[q].values]) for q in ks if Ws[q] is not None]; o = want[0]
    for z in want[1:]: o = np.multiply.outer(o, z)
    mon.same(gw, o, 'getweights', 'getweights(%s)' % ks, rtol=1e-12, sig=('getweights', len(ks)))
    mu = mon.op('mean', lambda: v.mean(*[v.axes[q].name for q in ks], weights=False)); mu = mu.get() if hasattr(mu, 'get') else mu
    mon.same(np.asarray(mu), Y.mean(tuple(ks)), 'unweighted', 'unweighted mean', rtol=1e-9, atol=1e-9, sig=('unweighted', len(ks)))

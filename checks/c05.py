"""C05: reductions equal their mathematical definition over the named axes."""
N_QUICK = 36000
N_THOROUGH = 400000
BUDGET_QUICK = 100
BUDGET_THOROUGH = 600
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: every reduction result is compared with the definition evaluated point by point'
RULE = ('a case is one reduction of one random variable (dtype, NaN pattern, axis subset, weights of 0 to n dimensions, memory limit, request); non-trivial: more than one point is reduced; '
        'distinct by (function, dtype, number of axes, axes reduced, kind of weights, NaN pattern, request)')
REQUIRE = {'reductions': 8000, 'weighted': 800, 'nan_points': 2000, 'partial': 1500, 'scalars': 500, 'refused_weights': 50}
ASSUMPTIONS = ['numpy is correct', 'the tolerances are the rounding bounds of the single-pass formulas in the precision of the result']
import numpy as np
import vlib, exprs
from vlib import choice, chance

OPS = ['min', 'max', 'nanmin', 'nanmax', 'argmin', 'argmax', 'sum', 'nansum', 'mean', 'nanmean', 'variance', 'nanvariance', 'stdev', 'nanstdev']
WOPS = ['sum', 'nansum', 'mean', 'nanmean', 'variance']

def reference(op, x, w):
  """x: (points, samples); w: (samples) or None"""
  nanop = op.startswith('nan')
  out = np.empty(x.shape[0], 'd')
  for k in range(x.shape[0]):
    a = x[k]; ww = np.ones(len(a)) if w is None else w
    if nanop: ok = ~np.isnan(a); a, ww = a[ok], ww[ok]
    b = op[3:] if nanop else op
    if b in ('min', 'max'): out[k] = np.nan if len(a) == 0 or np.isnan(a).any() else getattr(np, b)(a)
    elif b in ('argmin', 'argmax'): out[k] = getattr(np, b)(a)
    elif b == 'sum': out[k] = (a * ww).sum() if len(a) else 0.
    elif b == 'mean': out[k] = (a * ww).sum() / ww.sum() if len(a) and ww.sum() > 0 else np.nan
    elif b in ('variance', 'stdev'):
      if w is not None:
        m = (a * ww).sum() / ww.sum(); out[k] = (ww * (a - m) ** 2).sum() / (ww.sum() - 1)
      else:
        out[k] = ((a - a.mean()) ** 2).sum() / (len(a) - 1) if len(a) > 1 else np.nan
      if b == 'stdev': out[k] = np.sqrt(out[k])
  return out

def case(rng, i, mon):
  import pygeode as pyg
  from pygeode.var import Var
  mon.context[:] = []
  op = OPS[i % len(OPS)]
  nd = int(choice(rng, [1, 2, 2, 3, 3, 4]))
  axes = vlib.make_axes(rng, nd, nmax=6)
  shape = [len(a) for a in axes]
  dt = choice(rng, ['d', 'd', 'd', 'f', 'f', 'i4', 'i8', 'i2', 'u1', 'b', '?'])
  fl = np.dtype(dt).kind == 'f'
  nan = choice(rng, ['none', 'some', 'lines', 'all']) if fl and chance(rng, .6) else 'none'
  data = vlib.make_values(rng, shape, dt)
  if fl and chance(rng, .15): data = np.round(data) # ties
  if fl and chance(rng, .3 if 'stdev' in op else .05): data = np.full(shape, rng.uniform(-5, 300), dt)   # no variance at all
  if fl and chance(rng, .1): data = (data * choice(rng, [1e8, 1e-8, 1e15])).astype(dt)
  if nan == 'some': data[rng.random(shape) < .3] = np.nan
  elif nan == 'all': data[...] = np.nan
  elif nan == 'lines':
    sl = [slice(None)] * nd; j = int(rng.integers(0, nd)); sl[j] = int(rng.integers(0, shape[j])); data[tuple(sl)] = np.nan
  v = vlib.make_var(rng, axes, data, name=choice(rng, ['T', '']), atts={'units': 'K'}, plotatts={'plottitle': 't'})
  dup = len(set(a.name for a in axes)) < nd
  if op.startswith('arg'):
    if nan != 'none': return
    red = [int(rng.integers(0, nd))]
    ids = [exprs.axid(rng, v, red[0])]
  else:
    red = [int(j) for j in rng.permutation(nd)[:int(rng.integers(1, nd + 1))]]
    ids = [exprs.axid(rng, v, j) for j in red]
    if len(red) == nd and chance(rng, .5): ids = []          # no axes named: the whole domain
  rest = [j for j in range(nd) if j not in red]
  # --- weights
  kw = {}; w = None; wkind = 'default'
  axw = lambda js: [np.asarray(axes[j].weights, 'd') if getattr(axes[j], 'weights', None) is not None else None for j in js]
  def outer(ws):   # weights over the reduced axes in `red` order
    if all(q is None for q in ws): return None
    full = np.ones([shape[j] for j in red])
    for k, q in enumerate(ws):
      if q is not None: full = full * q.reshape([-1 if m == k else 1 for m in range(len(red))])
    return full.ravel()
  if op in WOPS:
    wkind = choice(rng, ['default', 'default', 'True', 'False', 'None', 'var', 'var', '0d', 'bad'])
    if wkind == 'default': w = outer(axw(red)) if op in ('mean', 'nanmean') else None
    elif wkind == 'True': kw['weights'] = True; w = outer(axw(red))
    elif wkind in ('False', 'None'): kw['weights'] = {'False': False, 'None': None}[wkind]
    elif wkind == '0d': kw['weights'] = Var([], values=2.5)
    elif wkind == 'var':
      k = [int(q) for q in rng.permutation(len(red))[:int(rng.integers(1, len(red) + 1))]]
      wa = np.round(rng.uniform(.2, 3., [shape[red[q]] for q in k]), 3)
      if wa.sum() * np.prod([shape[red[q]] for q in range(len(red)) if q not in k]) < 1.5 and op == 'variance': wa = wa + 2
      if chance(rng, .2) and op != 'variance': wa.ravel()[0] = 0.
      kw['weights'] = vlib.make_var(rng, [axes[red[q]] for q in k], wa, name='w')
      full = wa.transpose(np.argsort(k)); 
      full = full.reshape([shape[red[q]] if q in k else 1 for q in range(len(red))])
      w = np.broadcast_to(full, [shape[q] for q in red]).ravel()
    elif wkind == 'bad':
      if not rest: return
      kw['weights'] = vlib.make_var(rng, [axes[rest[0]]], np.ones(shape[rest[0]]), name='w')
      mon.context[:] = ['%s of %s over %s' % (op, vlib.describe(v), red)]
      def f():
        r = getattr(v, op)(*ids, **kw)
        return r.get() if hasattr(r, 'get') else r
      mon.raises(f, 'bad-weights', '%s with weights along an axis that is not reduced' % op)
      mon.hit('refused_weights'); return
    if w is not None: mon.hit('weighted')
    if op == 'variance' and w is not None and abs(w.sum() - 1) < .3: return
  x = data.astype('d').transpose(rest + red).reshape([int(np.prod([shape[j] for j in rest])), -1])
  n = x.shape[1]
  want = reference(op, x, w).reshape([shape[j] for j in rest])
  # rounding bound
  e = 2.3e-16 if np.dtype(dt).itemsize > 4 or not fl else 1.2e-7
  s = float(np.nanmax(np.abs(x), initial=0.)) + 1e-300
  W = 1. if w is None else float(np.abs(w).max()) + 1
  at = dict(sum=40 * e * s * n * W, nansum=40 * e * s * n * W, mean=40 * e * s * n, nanmean=40 * e * s * n).get(op, 0.)
  if 'variance' in op: at = 60 * e * s * s * n * (W if w is None else W * n / abs(w.sum() - 1))
  if 'stdev' in op: at = np.sqrt(60 * e * n) * s
  if w is not None and op in ('mean', 'nanmean'): at *= 4 * W * n / max(w[w > 0].min() if (w > 0).any() else 1, .1)
  lim = choice(rng, [None, None, None, 1, 2, 7, 30])
  lab = '%s%s of %s over %s (%s), weights %s, nan %s, limit %s' % (op, kw if wkind not in ('var', '0d') else '', vlib.describe(v), red, ids, wkind, nan, lim)
  mon.context[:] = [lab]; mon.sample(lab)
  old = pyg.MAX_ARRAY_SIZE
  route = choice(rng, ['method', 'function'])
  sig = (op, dt, nd, tuple(sorted(red)), wkind, nan, lim) if n > 1 else ()
  try:
    if lim: pyg.MAX_ARRAY_SIZE = lim
    if route == 'function':
      f = getattr(pyg, op, None) if op not in ('min', 'max', 'sum') else None
      f = f or getattr(v, op); r = mon.op(op, (lambda: f(v, *ids, **kw)) if f is getattr(pyg, op, None) else (lambda: f(*ids, **kw)))
    else: r = mon.op(op, lambda: getattr(v, op)(*ids, **kw))
    if not ids and not op.startswith('arg'):
      mon.check(np.ndim(r) == 0 and not hasattr(r, 'axes'), 'scalar', 'reduction of the whole domain returned %s' % type(r))
      got = np.asarray(r.get() if hasattr(r, 'get') else r); mon.hit('scalars')
    else:
      if not mon.check(isinstance(r, Var), 'var', 'returned %s' % type(r)): return
      mon.check([a.name for a in r.axes] == [axes[j].name for j in rest] and all(type(a) is type(axes[j]) for a, j in zip(r.axes, rest)), 'axes', lambda: 'remaining axes are %s, expected %s' % (r.axes, [axes[j] for j in rest]))
      for a, j in zip(r.axes, rest): mon.check(a == axes[j], 'axes', lambda: 'axis %s changed' % a.name)
      mon.check(r.name == v.name, 'name', lambda: 'name %r became %r' % (v.name, r.name))
      if rest and chance(rng, .35):
        sels = [vlib.random_selector(rng, shape[j]) for j in rest]
        r2 = r.slice[tuple(q for q, ix in sels)]
        got = mon.op(op, lambda: r2.get()); want = want[np.ix_(*[ix for q, ix in sels])]
        mon.context[:] = [lab + ' part %s' % [q for q, ix in sels]]; mon.hit('partial')
      else: got = mon.op(op, lambda: r.get())
      mon.check(got.dtype == r.dtype, 'dtype', lambda: '%s returned, %s declared' % (got.dtype, r.dtype))
  finally: pyg.MAX_ARRAY_SIZE = old
  mon.hit('reductions'); mon.hit('nan_points', int(np.isnan(np.asarray(want, 'd')).sum()))
  b = op.replace('nan', '')
  if b in ('min', 'max'): mon.check(np.asarray(got).dtype == np.dtype(dt) or np.asarray(got).dtype.kind == np.dtype(dt).kind, 'dtype', lambda: '%s of %s is %s' % (op, dt, np.asarray(got).dtype))
  if b == 'sum' and np.dtype(dt).kind in 'iu' and w is None: mon.check(np.asarray(got).dtype.kind in 'iu', 'dtype', lambda: 'sum of integers is %s' % np.asarray(got).dtype)
  mon.same(got, want, 'value:' + op, lab, atol=at, rtol=1e-13 if at else 0, sig=sig)

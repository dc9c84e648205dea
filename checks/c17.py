"""C17: statistics equal their reference formulas and ignore missing pairs."""
N_QUICK = 2400
N_THOROUGH = 60000
BUDGET_QUICK = 100
BUDGET_THOROUGH = 600
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: every returned dataset is compared with textbook formulas evaluated sample by sample'
RULE = ('a case is one call of one of the six statistics on random operands (shared-axis layouts, axis orders, reversed coordinates, NaN patterns, factors, levels, '
        'output lists, memory limits); each output at each grid point is one evaluation; non-trivial: at least three valid samples; distinct by (function, layout, options, NaN pattern)')
REQUIRE = {'correlate': 60, 'regress': 60, 'multiple_regress': 60, 'difference': 60, 'paired_difference': 60, 'isnonzero': 60, 'points': 3000, 'missing_points': 100, 'refusals': 20, 'subset_operand': 30}
ASSUMPTIONS = ['scipy.stats.t is correct', 'the single-pass sums of the library are accurate to 1e-7 relative for mean/stdev ratios below 30', 'multiple regression is specified for complete data only']
import itertools
import numpy as np
import vlib
from vlib import choice, chance

def tdist():
  from scipy.stats import t
  return t

def layout(rng, mon, need_shared=True, same_red=True):
  """Two (or more) operands over partly shared axes, with a labelled array for each."""
  kinds = ['Lat', 'Lon', 'Pres', 'StandardTime', 'NamedAxis']
  nd = int(rng.integers(1, 5))
  pool = vlib.make_axes(rng, nd, kinds=kinds, nmax=5, nmin=2)
  pool[0] = vlib.make_axis(rng, type(pool[0]).__name__, int(rng.integers(3, 12)))
  return pool

def labelled(rng, pool, idx, nanstyle, dtype='d', scale=1., off=0.):
  """Data over pool[idx] (in pool order), and a variable with shuffled axes / reversed coordinates holding it."""
  shape = [len(pool[i]) for i in idx]
  x = np.round(rng.normal(0, scale, shape), 4) + off
  if nanstyle == 'random': x[rng.random(shape) < .25] = np.nan
  elif nanstyle == 'block' and x.ndim:
    sl = [slice(None)] * x.ndim; j = int(rng.integers(0, x.ndim)); sl[j] = int(rng.integers(0, shape[j])); x[tuple(sl)] = np.nan
  elif nanstyle == 'heavy': x[rng.random(shape) < .7] = np.nan
  x = x.astype(dtype)
  order = [int(o) for o in rng.permutation(len(idx))]
  axes = [pool[idx[o]] for o in order]
  v = vlib.make_var(rng, axes, x.transpose(order), name=choice(rng, ['a', 'b', '']))
  # the same data with some axes listed in the opposite order
  sl = [slice(None, None, -1) if chance(rng, .2) else slice(None) for a in axes]
  if any(s.step for s in sl): v = v.slice[tuple(sl)]
  return x, v

def expand(x, idx, nd):
  """Broadcastable to the pool's axes."""
  shape = [1] * nd
  for n, i in zip(x.shape, idx): shape[i] = n
  return x.reshape(shape)

def axis_arg(rng, pool, i):
  a = pool[i]
  return choice(rng, [a.name, type(a), a.name])

def got_array(mon, ds, name, pool, oidx, extra=()):
  """Values of an output, with its axes in pool order."""
  if not mon.check(name in [v.name for v in ds.vars], 'outputs', 'output %s missing from %s' % (name, [v.name for v in ds.vars])): raise vlib.Stop()
  v = [w for w in ds.vars if w.name == name][0]
  want = [pool[i].name for i in oidx] + list(extra)
  names = [a.name for a in v.axes]
  if not mon.check(sorted(names) == sorted(want), 'output-axes', 'output %s has axes %s, expected %s' % (name, names, want)): raise vlib.Stop()
  arr = np.array(v.get()).transpose([names.index(n) for n in want])
  for i in oidx:
    a = v.axes[names.index(pool[i].name)]; k = [pool[j].name for j in oidx].index(pool[i].name)
    if len(a) != len(pool[i]): mon.fail('output-axes', 'axis %s of %s has length %d' % (a.name, name, len(a))); raise vlib.Stop()
    # by coordinate
    pos = [int(np.argmin(np.abs(np.asarray(a.values, 'd') - c))) for c in np.asarray(pool[i].values, 'd')]
    mon.check(np.allclose(np.asarray(a.values, 'd')[pos], np.asarray(pool[i].values, 'd')), 'output-axes', 'coordinates of %s changed' % a.name)
    arr = np.take(arr, pos, axis=k)
  return arr

def compare(mon, ds, name, want, pool, oidx, label, rtol=1e-6, atol=1e-7, extra=(), sig=()):
  got = got_array(mon, ds, name, pool, oidx, extra)
  mask = ~np.isneginf(want)          # -inf: not specified (degenerate)
  g = np.where(mask, got, 0.); w = np.where(mask, want, 0.)
  mon.hit('points', int(mask.sum())); mon.hit('missing_points', int(np.isnan(w).sum()))
  mon.same(g, w, '%s:%s' % (label, name), '%s output %s' % (label, name), rtol=rtol, atol=atol, sig=sig)

def columns(full, oidx, ridx):
  """Samples at each output point: array (output shape..., samples)."""
  f = full.transpose(list(oidx) + list(ridx))
  return f.reshape(f.shape[:len(oidx)] + (-1,))

def case(rng, i, mon):
  import pygeode as pyg
  t = tdist()
  fn = ['correlate', 'regress', 'multiple_regress', 'difference', 'paired_difference', 'isnonzero'][i % 6]
  mon.hit(fn)
  pool = layout(rng, mon); nd = len(pool)
  nan = choice(rng, ['none', 'none', 'random', 'block', 'heavy'])
  mem = choice(rng, [None, None, 1, 3, 10, 40])
  old = pyg.MAX_ARRAY_SIZE
  off = choice(rng, [0., 0., 5.])
  dt = choice(rng, ['d', 'd', 'f'])
  tol = dict(rtol=2e-6, atol=2e-6) if dt == 'd' else dict(rtol=2e-6, atol=2e-6)
  # which axes each operand has; axis 0 is always shared
  def some():
    return sorted({0} | {int(j) for j in range(1, nd) if chance(rng, .7)})
  ix, iy = some(), some()
  if fn == 'isnonzero': iy = ix
  x, X = labelled(rng, pool, ix, nan, dt, scale=choice(rng, [1., 10.]), off=off)
  y, Y = labelled(rng, pool, iy, nan if chance(rng, .7) else 'none', dt, scale=1.)
  if fn in ('correlate', 'regress', 'multiple_regress') and chance(rng, .6) and set(ix) == set(iy):
    y2 = (x * .5 + y).astype(dt)
    order = [pool.index(a) for a in Y.axes] if False else None
    y, Y = y2, vlib.make_var(rng, [pool[k] for k in iy], y2, name=Y.name)
  shared = [k for k in ix if k in iy]
  allidx = sorted(set(ix) | set(iy))
  if chance(rng, .4): axes = None; red = shared if fn != 'isnonzero' else list(ix)
  else:
    red = [int(k) for k in rng.permutation(shared)[:int(rng.integers(1, len(shared) + 1))]]
    if fn != 'isnonzero' and 0 not in red and chance(rng, .7): red = red + [0]
    axes = [axis_arg(rng, pool, k) for k in red]
  oidx = [k for k in allidx if k not in red]
  fullx = np.broadcast_to(expand(x.astype('d'), ix, nd), [len(a) if k in allidx else 1 for k, a in enumerate(pool)])
  fully = np.broadcast_to(expand(y.astype('d'), iy, nd), fullx.shape)
  drop = tuple(k for k in range(nd) if k not in allidx)
  fullx = fullx.squeeze(drop); fully = fully.squeeze(drop)
  pos = {k: n for n, k in enumerate(allidx)}
  o, r = [pos[k] for k in oidx], [pos[k] for k in red]
  cx, cy = columns(fullx, o, r), columns(fully, o, r)
  sub = lambda c: [c[ii] for ii in np.ndindex(c.shape[:-1])]
  if fn in ('correlate', 'regress', 'difference') and 0 in red and len(pool[0]) > 5 and chance(rng, .25):
    # the second operand covers only part of the shared axis: pairs are matched by coordinate
    keep = np.sort(rng.permutation(len(pool[0]))[:int(rng.integers(3, len(pool[0])))])
    Y = Y.slice[tuple([int(j) for j in (keep if Y.axes[n].values[0] == pool[0].values[0] else len(pool[0]) - 1 - keep)] if type(a) is type(pool[0]) else slice(None) for n, a in enumerate(Y.axes))]
    m = np.full(len(pool[0]), np.nan); m[keep] = 0.
    m = m.reshape([-1 if k == 0 else 1 for k in allidx])
    if fn == 'difference': cy = columns(fully + m, o, r)
    else: cx, cy = columns(fullx + m, o, r), columns(fully + m, o, r)
    mon.hit('subset_operand')
  kw = {} if axes is None else dict(axes=axes)
  if chance(rng, .1) and fn not in ('isnonzero', 'multiple_regress'):
    alone = [k for k in allidx if k not in shared]
    f = getattr(pyg.stats, fn)
    if alone: mon.raises(lambda: f(X, Y, axes=[pool[alone[0]].name]), 'refuse-axis', '%s over an axis only one operand has' % fn)
    mon.raises(lambda: f(X, Y, axes=['nosuchaxis']), 'refuse-axis', '%s over an unknown axis' % fn)
    mon.raises(lambda: f(X, Y, output='nosuch', **kw), 'refuse-output', '%s with no valid output' % fn)
    mon.hit('refusals')
  fac = choice(rng, [None, None, 2, 3])
  mon.context[:] = ['%s X%s Y%s over %s axes=%s nan=%s mem=%s fac=%s %s off=%s' % (fn, [a.name for a in X.axes], [a.name for a in Y.axes], [pool[k].name for k in red], axes, nan, mem, fac, dt, off)]
  mon.sample(mon.context[0])
  sig0 = (fn, len(ix), len(iy), len(red), axes is None, nan, mem, fac)
  def req(opts):
    k = int(rng.integers(1, len(opts) + 1)); q = [opts[j] for j in rng.permutation(len(opts))[:k]]
    return q, ','.join(q)
  NI = -np.inf
  try:
    if mem: pyg.MAX_ARRAY_SIZE = mem
    if fn == 'correlate':
      q, out = req(['r', 'r2', 'p'])
      ds = mon.op(fn, lambda: pyg.correlate(X, Y, output=out, pbar=False, **kw) if False else pyg.stats.correlate(X, Y, output=out, **kw))
      R = np.full(cx.shape[:-1], np.nan); P = R.copy()
      for ii in np.ndindex(R.shape):
        a, b = cx[ii], cy[ii]; ok = ~(np.isnan(a) | np.isnan(b)); a, b = a[ok], b[ok]; n = len(a)
        if n < 1: continue
        if n < 3 or a.std() < 1e-6 * (1 + abs(a.mean())) or b.std() < 1e-6 * (1 + abs(b.mean())): R[ii] = P[ii] = NI; continue
        c = ((a - a.mean()) * (b - b.mean())).sum() / np.sqrt(((a - a.mean()) ** 2).sum() * ((b - b.mean()) ** 2).sum())
        R[ii] = c
        P[ii] = 2 * t.sf(abs(c) * np.sqrt((n - 2) / (1 - c * c)), n - 2) if 1 - c * c > 1e-5 else NI
      want = dict(r=R, r2=np.where(np.isneginf(R), NI, R ** 2), p=P)
      names = q
    elif fn == 'regress':
      q, out = req(['m', 'b', 'r2', 'p', 'sm', 'se'])
      ds = mon.op(fn, lambda: pyg.stats.regress(X, Y, output=out, N_fac=fac, **kw))
      S = cx.shape[:-1]; W = {k: np.full(S, np.nan) for k in ['m', 'b', 'r2', 'p', 'sm', 'se']}
      for ii in np.ndindex(S):
        a, b = cx[ii], cy[ii]; ok = ~(np.isnan(a) | np.isnan(b)); a, b = a[ok], b[ok]; n = len(a)
        df = n / (fac or 1) - 2
        if df <= 0: continue
        if a.std() < 1e-6 * (1 + abs(a.mean())): 
          for k in W: W[k][ii] = NI
          continue
        sxx = ((a - a.mean()) ** 2).sum(); sxy = ((a - a.mean()) * (b - b.mean())).sum(); syy = ((b - b.mean()) ** 2).sum()
        m = sxy / sxx; W['m'][ii] = m; W['b'][ii] = b.mean() - m * a.mean()
        W['r2'][ii] = sxy ** 2 / sxx / syy if syy > 1e-9 else NI
        sse = max(syy - m * sxy, 0.)
        if sse < 1e-5 * syy or syy < 1e-9: W['se'][ii] = W['sm'][ii] = W['p'][ii] = NI; continue
        se = np.sqrt(sse / df); sm = se / np.sqrt(sxx)
        W['se'][ii], W['sm'][ii] = se, sm; W['p'][ii] = 2 * t.sf(abs(m) / sm, df)
      want = W; names = q
    elif fn == 'multiple_regress':
      multi(rng, i, mon, pool, t, mem, fac); return
    elif fn == 'difference':
      q, out = req(['d', 'df', 'p', 'ci']); alpha = choice(rng, [.05, .1, .01]); fy = choice(rng, [None, 2])
      npts = int(np.prod([len(pool[k]) for k in red]))
      ds = mon.op(fn, lambda: pyg.stats.difference(X, Y, alpha=alpha, Nx_fac=fac, Ny_fac=fy, output=out, **kw))
      # the samples of each operand are its own points along the averaged axes
      S = cx.shape[:-1]; W = {k: np.full(S, np.nan) for k in ['d', 'df', 'p', 'ci']}
      for ii in np.ndindex(S):
        a, b = cx[ii], cy[ii]; a, b = a[~np.isnan(a)], b[~np.isnan(b)]
        n, m = len(a), len(b)
        if n and m: W['d'][ii] = a.mean() - b.mean()
        en, em = n // (fac or 1), m // (fy or 1)
        if en < 2 or em < 2: continue
        va, vb = a.var(ddof=1) / en, b.var(ddof=1) / em
        if va < 1e-10 or vb < 1e-10:
          for k in ('df', 'p', 'ci'): W[k][ii] = NI
          continue
        df = (va + vb) ** 2 / (va ** 2 / (en - 1) + vb ** 2 / (em - 1)); s = np.sqrt(va + vb)
        W['df'][ii] = df; W['p'][ii] = 2 * t.sf(abs(W['d'][ii]) / s, df); W['ci'][ii] = t.ppf(1 - alpha / 2, df) * s
      want = W; names = q
    elif fn == 'paired_difference':
      q, out = req(['d', 'df', 'p', 'ci']); alpha = choice(rng, [.05, .1, .01])
      ds = mon.op(fn, lambda: pyg.stats.paired_difference(X, Y, alpha=alpha, N_fac=fac, output=out, **kw))
      S = cx.shape[:-1]; W = {k: np.full(S, np.nan) for k in ['d', 'df', 'p', 'ci']}
      for ii in np.ndindex(S):
        e = cx[ii] - cy[ii]; e = e[~np.isnan(e)]; n = len(e)
        if n: W['d'][ii] = e.mean()
        en = n // (fac or 1); W['df'][ii] = en - 1 if en >= 2 else NI
        if en < 2: continue
        v = e.var(ddof=1)
        if v < 1e-10: W['p'][ii] = W['ci'][ii] = NI; continue
        s = np.sqrt(v / en)
        W['p'][ii] = 2 * t.sf(abs(e.mean()) / s, en - 1); W['ci'][ii] = t.ppf(1 - alpha / 2, en - 1) * s
      want = W; names = q
    else:
      q, out = req(['m', 'p', 'ci']); alpha = choice(rng, [.05, .1, .01])
      ds = mon.op(fn, lambda: pyg.stats.isnonzero(X, alpha=alpha, N_fac=fac, output=out, **kw))
      S = cx.shape[:-1]; W = {k: np.full(S, np.nan) for k in ['m', 'p', 'ci']}
      for ii in np.ndindex(S):
        a = cx[ii]; a = a[~np.isnan(a)]; n = len(a)
        if n: W['m'][ii] = a.mean()
        en = n // (fac or 1)
        if n and en < 2: W['p'][ii] = W['ci'][ii] = NI; continue
        if n < 2: continue
        v = a.var(ddof=1)
        if v < 1e-10: W['p'][ii] = W['ci'][ii] = NI; continue
        s = np.sqrt(v / en); W['p'][ii] = 2 * t.sf(abs(a.mean()) / s, en - 1); W['ci'][ii] = t.ppf(1 - alpha / 2, en - 1) * s
      want = W; names = q
  except vlib.Stop:
    raise
  finally:
    pyg.MAX_ARRAY_SIZE = old
  got = [v.name for v in ds.vars]
  mon.check(sorted(got) == sorted(names), 'outputs', 'outputs %s requested, %s returned' % (names, got), sig0)
  for k in names: compare(mon, ds, k, want[k], pool, oidx, fn, sig=sig0 + (k,), **tol)

def multi(rng, i, mon, pool, t, mem, fac):
  import pygeode as pyg
  nd = len(pool)
  pool = [vlib.make_axis(rng, type(a).__name__, int(rng.integers(8, 14))) if k == 0 else a for k, a in enumerate(pool)]
  Nr = int(rng.integers(1, 4))
  sets = [sorted({0} | {j for j in range(1, nd) if chance(rng, .5)}) for _ in range(Nr)]
  iy = sorted({0} | {j for j in range(1, nd) if chance(rng, .7)})
  xs, Xs = zip(*[labelled(rng, pool, s, 'none', 'd', scale=choice(rng, [1., 3.]), off=choice(rng, [0., 2.])) for s in sets])
  y, Y = labelled(rng, pool, iy, 'none', 'd', off=1.)
  Xs = [X.rename('x%d' % k) for k, X in enumerate(Xs)]
  ux = sorted(set().union(*sets)); shared = [k for k in ux if k in iy]; allidx = sorted(set(ux) | set(iy))
  if chance(rng, .4): axes = None; red = shared
  else:
    red = sorted({0} | {k for k in shared if chance(rng, .4)}); axes = [axis_arg(rng, pool, k) for k in red]
  oidx = [k for k in allidx if k not in red]
  shape = [len(a) if k in allidx else 1 for k, a in enumerate(pool)]
  drop = tuple(k for k in range(nd) if k not in allidx); pos = {k: n for n, k in enumerate(allidx)}
  full = lambda d, idx: columns(np.broadcast_to(expand(d.astype('d'), idx, nd), shape).squeeze(drop), [pos[k] for k in oidx], [pos[k] for k in red])
  cx = [full(x, s) for x, s in zip(xs, sets)]; cy = full(y, iy)
  opts = ['beta', 'r2', 'p', 'sb', 'covb', 'se']; q = [opts[j] for j in rng.permutation(6)[:int(rng.integers(1, 7))]]
  kw = {} if axes is None else dict(axes=axes)
  default = chance(rng, .15)
  if default: q = ['beta', 'p']
  else: kw['output'] = ','.join(q)
  mon.context[:] = ['multiple_regress Xs%s Y%s over %s axes=%s mem=%s fac=%s out=%s' % ([[a.name for a in X.axes] for X in Xs], [a.name for a in Y.axes], [pool[k].name for k in red], axes, mem, fac, q)]
  if mem: pyg.MAX_ARRAY_SIZE = mem
  ds = mon.op('multiple_regress', lambda: pyg.stats.multiple_regress(list(Xs), Y, N_fac=fac, **kw))
  S = cy.shape[:-1]; n = cy.shape[-1]; en = n // (fac or 1)
  if en - Nr < 1: return
  W = dict(beta=np.zeros(S + (Nr,)), p=np.zeros(S + (Nr,)), sb=np.zeros(S + (Nr,)), covb=np.zeros(S + (Nr, Nr)), r2=np.zeros(S), se=np.zeros(S))
  for ii in np.ndindex(S):
    A = np.stack([c[ii] for c in cx], -1); b = cy[ii]
    beta, _, rank, sv = np.linalg.lstsq(A, b, rcond=None)
    if sv[-1] < 1e-3 * sv[0]: 
      for k in W: W[k][ii] = -np.inf
      continue
    sse = ((b - A @ beta) ** 2).sum()
    s2 = sse / (en - Nr); cov = np.linalg.inv(A.T @ A) * s2; sb = np.sqrt(np.diag(cov))
    W['beta'][ii] = beta; W['covb'][ii] = cov; W['sb'][ii] = sb; W['p'][ii] = 2 * t.sf(np.abs(beta) / sb, en - Nr)
    W['se'][ii] = np.sqrt(s2); W['r2'][ii] = 1 - sse / ((b - b.mean()) ** 2).sum()
  names = [v.name for v in ds.vars]
  mon.check(sorted(names) == sorted(q), 'outputs', 'outputs %s requested, %s returned' % (q, names))
  for k in q:
    extra = {'beta': ['regressor'], 'p': ['regressor'], 'sb': ['regressor'], 'covb': ['regressor', 'regressor2']}.get(k, [])
    compare(mon, ds, k, W[k], pool, oidx, 'multiple_regress', rtol=1e-5, atol=1e-6, extra=extra, sig=('mr', Nr, k, len(oidx), len(red), default, mem))
    if extra:
      v = [w for w in ds.vars if w.name == k][0]
      lab = [a for a in v.axes if a.name == 'regressor'][0]
      mon.check([str(s) for s in lab.auxarrays['regressor']] == ['x%d' % j for j in range(Nr)], 'labels', 'regressors are labelled %s' % (lab.auxarrays['regressor'],))

"""C18: EOF and SVD analyses are orthogonal, ordered, and reconstruct the data."""
N_QUICK = 7200
N_THOROUGH = 30000
BUDGET_QUICK = 100
BUDGET_THOROUGH = 600
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: every decomposition returned is checked against its defining relations (orthonormality, order, variance, reconstruction) recomputed from the data'
RULE = ('a case is one call of EOF, EOF_svd, EOF_cov, EOF_iter or SVD on data with a known, separated spectrum; axis layout, record axes and how they are named, weights, outputs, '
        'memory limit and source kind are drawn at random; each relation checked is one evaluation; non-trivial: at least two modes; distinct by (function, layout, record axes, weights, outputs, limit)')
REQUIRE = {'eof': 250, 'EOF_svd': 40, 'EOF_cov': 40, 'EOF_iter': 40, 'multi_record': 60, 'record_not_first': 100, 'small_memory': 100, 'weighted': 150, 'full_reconstruction': 60, 'svd': 120, 'svd_cor': 30, 'refusals': 10}
ASSUMPTIONS = ['spectra are separated by a factor of at least 1.5, so that every mode is unique up to sign', 'the iterative solvers stop at a relative change of 1e-5', 'numpy.linalg.svd is correct']
import contextlib, io
import numpy as np
import vlib
from vlib import choice, chance

def spectrum(rng, n):
  return float(choice(rng, [1., 30., 1e-3])) * np.cumprod(1. / rng.uniform(1.5, 3., n))

def orth(rng, n, k):
  q, r = np.linalg.qr(rng.normal(size=(n, k)))
  return q

def setup_axes(rng):
  nd = int(rng.integers(2, 5))
  kinds = ['Lat', 'Lon', 'Pres', 'StandardTime', 'ModelTime365', 'NamedAxis']
  return vlib.make_axes(rng, nd, kinds=kinds, nmax=7, nmin=2)

def identifier(rng, v, i):
  a = v.axes[i]
  return choice(rng, [i, a.name, type(a), a])

def weights_for(rng, axes, space):
  """(argument, weight array over the space axes [flattened])."""
  shape = [len(axes[i]) for i in space]
  auto = np.ones(shape)
  for j, i in enumerate(space):
    w = axes[i].auxarrays.get('weights')
    if w is not None: auto = auto * np.asarray(w).reshape([-1 if k == j else 1 for k in range(len(shape))])
  r = int(rng.integers(0, 5))
  if r <= 1: return True, auto.ravel()
  if r == 2: return False, np.ones(auto.size)
  if r == 3: return None, np.ones(auto.size)
  k = int(rng.integers(1, len(space) + 1)); sub = [int(s) for s in rng.permutation(len(space))[:k]]
  w = np.round(rng.uniform(.2, 2., [shape[j] for j in sub]), 3)
  from pygeode.var import Var
  wv = Var([axes[space[j]] for j in sub], values=w.copy(), name='w')
  full = w.transpose(np.argsort(sub)).reshape([shape[j] if j in sub else 1 for j in range(len(shape))])
  return wv, np.broadcast_to(full, shape).ravel().copy()

def quiet(f, *a, **k):
  with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)

OUT = {'eof': ['eof', 'EOFs', 'EOF'], 'eig': ['eig', 'EIG', 'eigenvalue', 'eigenvalues'], 'pc': ['pc', 'PC', 'timeseries'], 'var': ['var', 'VAR', 'variance'], 'frac': ['frac', 'FRAC', 'varfrac'], 'eig2': ['eig2', 'EIG2']}

def case_eof(rng, i, mon):
  import pygeode as pyg
  from pygeode import eof as E
  from pygeode.timeaxis import Time
  axes = setup_axes(rng); nd = len(axes)
  hastime = [j for j, a in enumerate(axes) if isinstance(a, Time)]
  nrec = 1 if nd == 2 or chance(rng, .4) else int(rng.integers(1, nd))
  rec = [int(j) for j in rng.permutation(nd)[:nrec]]
  if chance(rng, .15): rec = hastime[:1] or [0]; default = True
  else: default = False
  space = [j for j in range(nd) if j not in rec]
  # record axes with weights are not specified (weights define orthogonality in space)
  for j in rec:
    if 'weights' in axes[j].auxarrays:
      a = axes[j]; axes[j] = type(a)(np.array(a.values), name=a.name)
      if 'weights' in axes[j].auxarrays: axes[j] = type(a)(np.array(a.values), name=a.name, weights=np.ones(len(a)))
  NT = int(np.prod([len(axes[j]) for j in rec])); NX = int(np.prod([len(axes[j]) for j in space]))
  rank = min(NT, NX)
  wopt, w = weights_for(rng, axes, space)
  wn = w / w.mean()
  s = spectrum(rng, rank)
  # X (in the weighted space) has the chosen singular values
  X = orth(rng, NT, rank) * s @ orth(rng, NX, rank).T
  data = X / np.sqrt(wn)
  perm = rec + space
  full = data.reshape([len(axes[j]) for j in perm]).transpose(np.argsort(perm))
  dtype = 'd' if chance(rng, .85) else 'f'
  full = full.astype(dtype)
  X = full.astype('d').transpose(perm).reshape(NT, NX) * np.sqrt(wn)
  v = vlib.make_var(rng, axes, full, name=choice(rng, ['x', 'temp', '']))
  fname = choice(rng, ['EOF', 'EOF', 'EOF_svd', 'EOF_cov', 'EOF_iter'])
  limit = choice(rng, [None, None, None, NX, NX * 2 + 1, full.size - 1, full.size ** 2 * 2, 10])
  itermay = fname == 'EOF_iter' or (fname == 'EOF' and limit != full.size ** 2 * 2 and limit is not None)
  if fname == 'EOF' and limit is not None:
    m = int(np.sqrt(limit)); itermay = not (full.size <= m) and not (NX ** 2 <= m)
  num = rank if chance(rng, .3) else int(rng.integers(1, rank + 1))
  # the iterative solver needs a unique leading subspace, well inside the rank
  if itermay: num = min(num, 4)
  if default: kw = {}
  else:
    ids = [identifier(rng, v, j) for j in rec]
    kw = {'iaxis': ids[0] if len(ids) == 1 and chance(rng, .7) else (tuple(ids) if chance(rng, .5) else ids)}
  if wopt is not True or chance(rng, .5): kw['weight'] = wopt
  names = ['eof', 'eig', 'pc', 'var', 'frac', 'eig2']
  if chance(rng, .2): outs = ['eof', 'eig', 'pc']
  else:
    outs = [names[j] for j in rng.permutation(6)[:int(rng.integers(1, 7))]]
    spelled = [choice(rng, OUT[o]) for o in outs]
    kw['out'] = choice(rng, [spelled, tuple(spelled), ','.join(spelled)])
  mon.context[:] = ['%s(%s) rec=%s num=%d rank=%d s=%s limit=%s kw=%s' % (fname, vlib.describe(v), [axes[j].name for j in rec], num, rank, s, limit, {k: (x if not hasattr(x, 'values') else repr(x)[:60]) for k, x in kw.items()})]
  f = E.EOF if fname == 'EOF' else getattr(E, fname)
  old = pyg.MAX_ARRAY_SIZE
  if limit: pyg.MAX_ARRAY_SIZE = limit
  try:
    try: res = quiet(f, v, num=num, **kw)
    except AssertionError as e:
      if limit and NX > limit and 'too large' in str(e): mon.hit('refusals'); mon.ev('refused', fname); return
      raise
    # everything the caller gets is read inside the limit as well
    mon.check(len(res) == len(outs), 'outputs', '%d outputs returned for %s' % (len(res), outs))
    r = {}
    for o, x in zip(outs, res):
      if o == 'var': r[o] = float(x)
      else: r[o] = x.get()
      if o == 'eof': mon.check([a.name for a in x.axes] == ['order'] + [axes[j].name for j in space] and all(x.axes[k + 1] == axes[j] for k, j in enumerate(space)), 'eof-axes', 'EOF axes are %r' % (x.axes,))
      elif o == 'pc': mon.check([a.name for a in x.axes] == ['order'] + [axes[j].name for j in rec] and all(x.axes[k + 1] == axes[j] for k, j in enumerate(rec)), 'pc-axes', 'PC axes are %r' % (x.axes,))
      elif o != 'var': mon.check([a.name for a in x.axes] == ['order'], 'order-axis', '%s has axes %r' % (o, x.axes))
      if o not in ('var',): mon.check(x.axes[0].values.tolist() == list(range(num)), 'order', 'orders %r' % (x.axes[0].values,))
  finally: pyg.MAX_ARRAY_SIZE = old
  mon.hit('eof'); mon.hit(fname)
  if len(rec) > 1: mon.hit('multi_record')
  if rec != list(range(len(rec))): mon.hit('record_not_first')
  if limit: mon.hit('small_memory')
  if (w != w[0]).any(): mon.hit('weighted')
  sig = (fname, nd, tuple(rec), str(kw.get('weight', 'dflt'))[:5], tuple(outs), limit is not None, num > 1) if num > 1 else ()
  tol = 2e-3 if itermay else 1e-7
  if dtype == 'f': tol = max(tol, 1e-3)
  if fname == 'EOF_cov' or fname == 'EOF': tol = max(tol, 1e-5 if dtype == 'd' else 5e-3)
  sv = np.linalg.svd(X, compute_uv=False)[:num]
  # singular values below the noise of the squared problem are not resolved by a covariance method
  res = sv > sv[0] * (1e-5 if dtype == 'd' else 3e-3) if len(sv) else sv > 0
  if itermay: res = res & (sv > sv[0] * 1e-3)
  k = int(np.argmin(res)) if not res.all() else len(res)
  if k < len(sv): mon.hit('unresolved')
  if k == 0: return
  rel = lambda x, y: np.max(np.abs(x - y) / np.abs(y))
  total = (X ** 2).sum()
  if 'eig' in r: mon.check(rel(r['eig'][:k], sv[:k]) < tol, 'eig', 'eigenvalues %r, singular values of the data %r' % (r['eig'], sv), *sig)
  if 'eig2' in r: mon.check(rel(r['eig2'][:k], sv[:k] ** 2) < 2 * tol, 'eig2', 'EIG2 %r, squared singular values %r' % (r['eig2'], sv ** 2), *sig)
  if 'var' in r: mon.check(abs(r['var'] - total) < 1e-5 * total, 'var', 'variance %r, expected %r' % (r['var'], total), *sig)
  if 'frac' in r: mon.check(rel(r['frac'][:k], sv[:k] ** 2 / total) < 2 * tol, 'frac', 'fractions %r, expected %r' % (r['frac'], sv ** 2 / total), *sig)
  if 'eof' in r:
    e = r['eof'].reshape(num, NX)[:k]; ew = e * np.sqrt(wn)
    mon.check(np.abs(ew @ ew.T - np.eye(k)).max() < 20 * tol, 'orthonormal', 'EOFs are not orthonormal:\n%r' % (ew @ ew.T), *sig)
    p = X @ ew.T
    mon.check(np.max(np.abs(np.sqrt((p ** 2).sum(0)) - sv[:k]) / sv[:k]) < 20 * tol, 'explained', 'projections on the EOFs have magnitudes %r, expected %r' % (np.sqrt((p ** 2).sum(0)), sv[:k]), *sig)
  if 'pc' in r:
    p = r['pc'].reshape(num, NT)[:k]
    mon.check(np.abs(p @ p.T - np.eye(k)).max() < 20 * tol, 'uncorrelated', 'expansion coefficients are not orthonormal:\n%r' % (p @ p.T), *sig)
  if 'pc' in r and 'eof' in r:
    # each coefficient is the projection on its pattern (same sign, same mode)
    proj = (X @ ew.T) / sv[:k]
    mon.check(np.abs(proj - p.T).max() < 50 * tol, 'projection', 'coefficients differ from the projections of the data: %r' % np.abs(proj - p.T).max(), *sig)
    if 'eig' in r and k == rank:
      rec_ = (p.T * r['eig'][:k]) @ e
      mon.hit('full_reconstruction')
      mon.check(np.abs((rec_ - X / np.sqrt(wn)) * np.sqrt(wn)).max() < 50 * tol * sv[0], 'reconstruct', 'sum of EOF*EIG*PC differs from the data by %r' % np.abs(rec_ - X / np.sqrt(wn)).max(), *sig)
  mon.sample(dict(f=fname, axes=[a.name for a in axes], rec=[axes[j].name for j in rec], num=num))

def case_svd(rng, i, mon):
  import pygeode as pyg
  kinds = ['Lat', 'Lon', 'Pres', 'NamedAxis']
  t = vlib.make_axis(rng, choice(rng, ['StandardTime', 'ModelTime365', 'ModelTime360', 'XAxis']), int(rng.integers(6, 16)), order='inc')
  if 'weights' in t.auxarrays: t = type(t)(np.array(t.values), name=t.name)
  A = [a for a in vlib.make_axes(rng, int(rng.integers(1, 3)), kinds=kinds, nmax=6, nmin=2) if not (a.name == 'lon' and t.name == 'xaxis')]
  B = [a for a in vlib.make_axes(rng, int(rng.integers(1, 3)), kinds=kinds, nmax=6, nmin=2) if not (a.name == 'lon' and t.name == 'xaxis')]
  if not A or not B: return
  if chance(rng, .2): B = list(A)
  NT = len(t); N1 = int(np.prod([len(a) for a in A])); N2 = int(np.prod([len(a) for a in B]))
  w1opt, w1 = weights_for(rng, A, list(range(len(A)))); w2opt, w2 = weights_for(rng, B, list(range(len(B))))
  if w1opt is None: w1opt = False
  if w2opt is None: w2opt = False
  wn1, wn2 = w1 / w1.mean(), w2 / w2.mean()
  r = min(NT, N1, N2)
  s = spectrum(rng, r)
  # X1'X2 has the singular values s when both share orthonormal coefficients
  T = orth(rng, NT, r)
  X1 = (T * np.sqrt(s)) @ orth(rng, N1, r).T; X2 = (T * np.sqrt(s)) @ orth(rng, N2, r).T
  if chance(rng, .6): X1 = X1 + rng.normal(0, .02 * np.sqrt(s[0]), X1.shape); X2 = X2 + rng.normal(0, .02 * np.sqrt(s[0]), X2.shape)
  def build(X, wn, axes, name):
    d = (X / np.sqrt(wn)).reshape([NT] + [len(a) for a in axes])
    pos = int(rng.integers(0, len(axes) + 1))
    ax = list(axes); ax.insert(pos, t)
    return vlib.make_var(rng, ax, np.moveaxis(d, 0, pos), name=name), pos
  x, p1 = build(X1, wn1, A, choice(rng, ['x', '']))
  y, p2 = build(X2, wn2, B, choice(rng, ['y', '']))
  matrix = 'cor' if chance(rng, .3) else 'cov'
  Y1, Y2 = X1, X2
  sd1 = np.ones(N1); sd2 = np.ones(N2)
  if matrix == 'cor':
    sd1 = X1.std(0, ddof=1); sd2 = X2.std(0, ddof=1); Y1 = X1 / sd1; Y2 = X2 / sd2
  C = Y1.T @ Y2
  u, sv, vt = np.linalg.svd(C)
  # number of modes whose neighbours are separated
  ratios = sv[1:] / sv[:-1]
  nmax = 0
  for j in range(min(r, 3)):
    if j < len(ratios) and ratios[j] > .75: break
    if sv[j] < 1e-3 * sv[0]: break
    nmax = j + 1
  if nmax == 0: mon.hit('degenerate'); return
  num = int(rng.integers(1, nmax + 1))
  kw = {}
  ids = [t.name, type(t)] + ([p1] if p1 == p2 else [])
  iax = choice(rng, ids)
  from pygeode.timeaxis import Time
  if not (isinstance(t, Time) and chance(rng, .4)): kw['iaxis'] = iax
  if w1opt is not True: kw['weight1'] = w1opt
  if w2opt is not True: kw['weight2'] = w2opt
  if matrix == 'cor': kw['matrix'] = choice(rng, ['cor', 'corr', 'correlation'])
  elif chance(rng, .3): kw['matrix'] = choice(rng, ['cov', 'covariance'])
  if chance(rng, .2): kw['subspace'] = int(rng.integers(num + 1, num + 6))
  limit = choice(rng, [None, None, max(N1, N2), 3 * max(N1, N2) + 1])
  mon.context[:] = ['SVD(%s, %s) num=%d sv=%s limit=%s kw=%s' % (vlib.describe(x), vlib.describe(y), num, sv[:num + 1], limit, {k: str(z)[:40] for k, z in kw.items()})]
  old = pyg.MAX_ARRAY_SIZE
  if limit: pyg.MAX_ARRAY_SIZE = limit
  np.random.seed(int(rng.integers(0, 2 ** 31)))
  try:
    res = quiet(pyg.SVD, x, y, num=num, **kw)
  finally: pyg.MAX_ARRAY_SIZE = old
  e1, c1, e2, c2 = res
  for e, ax, nm in ((e1, A, 'eof1'), (e2, B, 'eof2')): mon.check([a.name for a in e.axes] == ['order'] + [a.name for a in ax], 'svd-axes', '%s has axes %r' % (nm, e.axes))
  for c, nm in ((c1, 'pc1'), (c2, 'pc2')): mon.check([a.name for a in c.axes] == ['order', t.name] and c.axes[1] == t, 'svd-axes', '%s has axes %r' % (nm, c.axes))
  mon.hit('svd')
  if matrix == 'cor': mon.hit('svd_cor')
  E1 = e1.get().reshape(num, N1) * np.sqrt(wn1) / sd1; E2 = e2.get().reshape(num, N2) * np.sqrt(wn2) / sd2
  P1 = c1.get(); P2 = c2.get()
  sig = ('svd', matrix, len(A), len(B), p1, p2, str(w1opt)[:5], str(w2opt)[:5], limit is not None, num, min(N1, N2) < 2 * num + 8)
  tol = 2e-3
  I = np.eye(num)
  mon.check(np.abs(E1 @ E1.T - I).max() < tol and np.abs(E2 @ E2.T - I).max() < tol, 'svd-orthonormal', 'patterns are not orthonormal:\n%r\n%r' % (E1 @ E1.T, E2 @ E2.T), *sig)
  cc = P1 @ P2.T
  mon.check(np.abs(cc - np.diag(sv[:num])).max() < tol * sv[0], 'svd-covariance', 'cross-covariance of the coefficients\n%r\nexpected the singular values %r' % (cc, sv[:num]), *sig)
  mon.check(np.abs(E1 @ C @ E2.T - np.diag(sv[:num])).max() < tol * sv[0], 'svd-patterns', 'the patterns do not diagonalise the cross-covariance:\n%r\n%r' % (E1 @ C @ E2.T, sv[:num]), *sig)
  # coefficients are the projections
  s1, s2 = np.abs(P1).max(), np.abs(P2).max()
  mon.check(np.abs(P1 - E1 @ Y1.T).max() < 10 * tol * s1 and np.abs(P2 - E2 @ Y2.T).max() < 10 * tol * s2, 'svd-projection', 'coefficients are not the projections on the patterns', *sig)

def case(rng, i, mon):
  (case_svd if i % 3 == 2 else case_eof)(rng, i, mon)

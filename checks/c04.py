"""C04: element-wise operations match operands by axis, not by position."""
N_QUICK = 27000
N_THOROUGH = 250000
BUDGET_QUICK = 100
BUDGET_THOROUGH = 600
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: every element-wise result is compared, coordinate by coordinate, with the function of the operand values found by label'
RULE = ('a case is one function applied to one to four operands whose axes are permuted, reversed, shuffled, restricted, re-referenced or missing; '
        'non-trivial: two operands with at least one shared axis presented differently; distinct by (function, dtypes, variant of each axis of each operand)')
REQUIRE = {'results': 5000, 'shuffled': 1500, 'subset_axes': 1000, 'refusals': 250, 'unary': 500, 'nary': 300, 'anomalies': 100, 'classed': 80, 'zero_d': 60, 'partial': 1500}
ASSUMPTIONS = ['numpy ufuncs are correct', 'coordinates along an axis are distinct and differ by more than the axis tolerance unless equal']
import numpy as np
import operator as O, math
import vlib, exprs
from vlib import choice, chance

BIN = {'+': O.add, '-': O.sub, '*': O.mul, '/': O.truediv, '**': O.pow, '%': O.mod, '<': O.lt, '<=': O.le, '>': O.gt, '>=': O.ge, '==': O.eq, '!=': O.ne}
d2r = np.pi / 180
UN = dict(abs=np.abs, sign=np.sign, exp=np.exp, log=np.log, log10=np.log10, cos=np.cos, sin=np.sin, tan=np.tan, cosd=lambda x: np.cos(x * d2r), sind=lambda x: np.sin(x * d2r),
  tand=lambda x: np.tan(x * d2r), cosh=np.cosh, sinh=np.sinh, tanh=np.tanh, arccos=np.arccos, arcsin=np.arcsin, arctan=np.arctan, arccosd=lambda x: np.arccos(x) / d2r,
  arcsind=lambda x: np.arcsin(x) / d2r, arctand=lambda x: np.arctan(x) / d2r, arccosh=np.arccosh, arcsinh=np.arcsinh, arctanh=np.arctanh, sqrt=np.sqrt, nan_to_num=np.nan_to_num,
  real=np.real, imag=np.imag, conj=np.conj, angle=np.angle)
MET = {'neg': O.neg, 'pos': O.pos, 'abs()': abs, 'trunc': math.trunc}
FUN2 = dict(arctan2=np.arctan2, arctand2=lambda a, b: np.arctan2(a, b) / d2r, minimum=np.minimum, maximum=np.maximum)

def base_axis(rng):
  k = choice(rng, ['Lat', 'Lon', 'Pres', 'XAxis', 'NamedAxis', 'StandardTime', 'ModelTime365', 'Yearless', 'Station', 'Hybrid', 'Height'])
  return k, vlib.make_axis(rng, k, int(rng.integers(1, 7)), order='inc')

def variant(rng, k, a, how):
  """(axis, positions in a) presented differently"""
  n = len(a)
  if how == 'same': return a, np.arange(n)
  if how == 'copy':
    ix = np.arange(n)
    if k == 'Station': return type(a)(**{q: np.array(x) for q, x in a.auxarrays.items()}), ix
    kw = dict(a.auxatts); kw.update({q: np.array(x) for q, x in a.auxarrays.items() if k in ('Hybrid',) or q == 'weights'})
    if k in ('StandardTime', 'ModelTime365', 'Yearless'):
      u = choice(rng, ['days', 'hours']); f = {'days': 86400., 'hours': 3600., 'minutes': 60., 'seconds': 1.}; s = f[a.units] / f[u]
      return type(a)(np.asarray(a.values, 'd') * s, units=u, startdate=dict(a.startdate)), ix
    if k == 'NamedAxis': return type(a)(np.array(a.values), name=a.name), ix
    v = np.array(a.values)
    if v.dtype.kind == 'f' and chance(rng, .3): v = v * (1 + 1e-9)
    if k == 'XAxis' and chance(rng, .3): pass
    return type(a)(v, **kw), ix
  if how == 'reversed': ix = np.arange(n)[::-1]
  elif how == 'shuffled': ix = rng.permutation(n)
  elif how == 'subset': ix = np.sort(rng.permutation(n)[:int(rng.integers(1, n + 1))])
  elif how == 'shuffled subset': ix = rng.permutation(n)[:int(rng.integers(1, n + 1))]
  return a.slice[tuple([list(map(int, ix))])], ix

def case(rng, i, mon):
  import pygeode as pyg
  from pygeode.var import Var
  mon.context[:] = []
  r = i % 20
  if r == 19: return anomaly(rng, mon)
  if r == 18: return classed(rng, mon)
  if r == 17: return refusal(rng, mon)
  # --- the world: base axes with distinct kinds
  base = []
  while len(base) < int(choice(rng, [1, 2, 3, 3, 4])):
    k, a = base_axis(rng)
    if vlib.GROUP[k] in [vlib.GROUP[q] for q, b in base]: 
      if chance(rng, .2): break
      continue
    base.append((k, a))
  kind = choice(rng, ['binary', 'binary', 'binary', 'scalar', 'unary', 'nary', 'fun2', 'map'])
  nops = {'binary': 2, 'fun2': 2, 'scalar': 1, 'unary': 1, 'map': int(choice(rng, [1, 2])), 'nary': int(rng.integers(2, 5))}[kind]
  # nested subsets of coordinates per axis: a chain from the whole axis down
  chain = {}
  for j, (k, a) in enumerate(base):
    sets = [np.arange(len(a))]
    for _ in range(nops - 1): 
      s = sets[-1]
      sets.append(s if chance(rng, .65) else np.sort(rng.permutation(s)[:int(rng.integers(1, len(s) + 1))]))
    chain[j] = [sets[q] for q in rng.permutation(nops)]
  ops, pos, lab = [], [], []
  mix = choice(rng, ['d', 'd', 'f', 'i4', 'mixed', 'u1', 'D'])
  for m in range(nops):
    js = [j for j in rng.permutation(len(base)) if chance(rng, .75)]
    axes, ix, names = [], [], []
    for j in js:
      k, a = base[j]; s = chain[j][m]
      how = choice(rng, ['same', 'same', 'copy', 'reversed', 'shuffled'])
      sub = a if len(s) == len(a) else a.slice[tuple([list(map(int, s))])]
      if len(s) < len(a) and how == 'copy': how = 'same'
      ax, p = variant(rng, k, sub, how)
      if how in ('reversed', 'shuffled'): mon.hit('shuffled')
      if len(s) < len(a): mon.hit('subset_axes')
      axes.append(ax); ix.append(s[p]); names.append((k, how, len(s) < len(a)))
    dt = mix if mix != 'mixed' else choice(rng, ['d', 'f', 'i4', 'i2', 'u1', '?', 'i8'])
    data = vlib.make_values(rng, [len(a) for a in axes], dt, nan=choice(rng, [0, 0, .2]) if dt in 'df' else 0)
    if chance(rng, .3) and dt in 'df': data = np.round(data)
    if not axes: mon.hit('zero_d')
    v = vlib.make_var(rng, axes, data, name=choice(rng, ['a', 'T', '', '(q)']), atts={'units': 'K', 'm': m})
    ops.append((v, data)); pos.append(dict(zip(js, ix))); lab.append((dt, tuple(names)))
  scal = None
  kinds = set(np.dtype(d.dtype).kind for v, d in ops)
  cplx = 'c' in kinds; boo = 'b' in kinds
  # --- the function
  if kind in ('binary', 'scalar'):
    names = ['+', '-', '*', '/', '==', '!='] + ([] if cplx else ['<', '<=', '>', '>=', '%', '**'])
    if boo: names = ['+', '*', '==', '!=', '<', '>=']
    f = choice(rng, names)
    if f == '**':
      if kind == 'binary': f = '*'
    fn = BIN[f]
    if kind == 'scalar':
      scal = choice(rng, [2, 3, 2.5, np.float32(1.5), np.int16(3), 200, 7]) if f != '**' else choice(rng, [2, 2, .5, 3])
      if cplx: scal = choice(rng, [2, 1.5, 1 + 2j])
      if boo: scal = choice(rng, [2, 1.5])
      left = chance(rng, .5) and f not in ('**',)
      if f == '%' : left = False
      call = (lambda x: fn(scal, x)) if left else (lambda x: fn(x, scal))
      lab.append(type(scal).__name__ + ('L' if left else ''))
      if isinstance(scal, np.generic) and left: call = lambda x: fn(x, scal)
    else: call = fn
    ref = call; do = lambda *a: call(*a)
  elif kind == 'unary':
    if boo: return
    if chance(rng, .2):
      f = choice(rng, ['neg', 'pos', 'abs()'] + ([] if cplx else ['trunc'])); 
      if f == 'trunc' and np.isnan(ops[0][1].astype('d')).any(): f = 'neg'
      do = MET[f]; ref = (lambda x: np.asarray(x, int)) if f == 'trunc' else MET[f]
    else:
      f = choice(rng, sorted(UN)) if not cplx else choice(rng, ['real', 'imag', 'conj', 'angle', 'exp', 'abs', 'sqrt'])
      if not cplx and 'u' in kinds | {'i'} & kinds and f in ('imag', 'angle', 'conj', 'real'): f = 'sign'
      ref = UN[f]; do = getattr(pyg, f, None) if chance(rng, .5) else (lambda x: getattr(x, 'absolute' if f == 'abs' else f)())
      if do is None: do = lambda x: getattr(x, 'absolute' if f == 'abs' else f)()
  elif kind == 'fun2':
    if cplx or boo: return
    f = choice(rng, sorted(FUN2)); ref = FUN2[f]; do = getattr(pyg, f)
  elif kind == 'map':
    if cplx or boo: return
    f = 'map'; 
    if nops == 1: ref = lambda x: np.hypot(x, 3.) + 1; do = lambda v: v.map(lambda x, c: np.hypot(x, c) + 1, 3.)
    else: ref = lambda x, y: np.hypot(x, 2 * y); do = lambda v, w: v.map(lambda x, y: np.hypot(x, 2 * y), w)
  else:
    if cplx or boo: return
    f = choice(rng, ['vsum', 'vprod', 'clip'])
    if f == 'clip':
      if nops != 3 or 'u' in kinds or 'i' in kinds: f = 'vsum'
    def ref(*a):
      if f == 'clip': return np.clip(*a)
      o = a[0]
      for b in a[1:]: o = o + b if f == 'vsum' else o * b
      return o
    do = getattr(pyg, f)
  mon.context[:] = ['%s %s of %s' % (f, '' if scal is None else repr(scal), '; '.join('%s %s' % (vlib.describe(v), l) for (v, d), l in zip(ops, lab)))]
  mon.sample(mon.context[0])
  R = mon.op(f, lambda: do(*[v for v, d in ops]))
  if not mon.check(isinstance(R, Var), 'not-a-variable', 'returned %s' % type(R)): return
  # --- expected axes: the union; on each the common (smallest) set of coordinates
  js = [j for j in range(len(base)) if any(j in p for p in pos)]
  need = {}
  for j in js:
    s = [set(map(int, p[j])) for p in pos if j in p]
    need[j] = set.intersection(*s)
  if not mon.check(R.naxes == len(js), 'axes', lambda: 'result has axes %s, expected the union %s' % ([a.name for a in R.axes], [base[j][1].name for j in js])): return
  rpos, order = [], []
  for a in R.axes:
    c = [j for j in js if j not in order and type(a) is type(base[j][1]) and a.name == base[j][1].name]
    if not mon.check(len(c) == 1, 'axes', lambda: 'result axis %s is none of %s' % (a.name, [base[j][1].name for j in js])): return
    j = c[0]; order.append(j); b = base[j][1]
    p = locate(a, b)
    if not mon.check(p is not None and set(p) == need[j] and len(p) == len(need[j]), 'coordinates', lambda: 'axis %s of the result has coordinates %s of %s; common ones are %s' % (a.name, p, list(b.values), sorted(need[j]))): return
    rpos.append(p)
  # --- expected values
  args = []
  for (v, d), p in zip(ops, pos):
    mine = [j for j in p]     # axis order of the operand
    ind = [np.array([int(np.flatnonzero(np.asarray(p[j]) == q)[0]) for q in rpos[order.index(j)]], int) for j in mine]
    x = d[np.ix_(*ind)] if d.ndim else d
    x = x.transpose([mine.index(j) for j in order if j in mine])
    args.append(x.reshape([len(rpos[q]) if j in mine else 1 for q, j in enumerate(order)]))
  rd = R.dtype
  if rd.kind in 'iu':
    args = [a.astype(rd) if a.dtype.kind in 'iu' else a for a in args]
    if scal is not None and not isinstance(scal, float): scal = rd.type(scal)
  want = np.broadcast_to(np.asarray(ref(*args)), [len(p) for p in rpos])
  low = any(d.dtype == np.float32 for v, d in ops) or rd == np.float32 or isinstance(scal, np.float32)
  half = rd == np.float16 or any(d.dtype.itemsize < 4 and d.dtype.kind in 'iub' for v, d in ops) and rd.kind == 'f'
  rt = 0 if rd.kind in 'iub' else 2e-2 if half else 2e-6 if low else 1e-12
  if f == '%' and (low or half): return
  if rd.kind == 'b': rt = 0
  at = rt * max([1.] + [float(np.nanmax(np.abs(a.astype('D')), initial=0)) for a in args])
  if f == 'vprod': at = at * 100
  tol = dict(rtol=rt, atol=at if f in '+-' or f in ('vsum', 'neg', 'clip') or f in UN else 0)
  sl = None
  if rpos and chance(rng, .4):
    sels = [vlib.random_selector(rng, len(p)) for p in rpos]
    sl = tuple(q for q, ix in sels)
    want = want[np.ix_(*[ix for q, ix in sels])]; mon.hit('partial'); mon.context.append('part %s' % (sl,))
    got = mon.op('get', lambda: R.slice[sl].get())
  else: got = mon.op('get', lambda: R.get())
  mon.check(got.dtype == rd, 'dtype', lambda: '%s returned, %s declared' % (got.dtype, rd))
  if rd.kind == 'c' or not cplx or rd.kind in 'fb': pass
  nontriv = len(ops) > 1 and any(h != 'same' for d, nn in lab[:len(ops)] for (_, h, _) in nn)
  mon.same(got, want, 'value:' + kind, 'result', sig=(f, kind, tuple(map(str, lab))) if nontriv or kind in ('unary', 'scalar') else (), **tol)
  mon.hit('results'); mon.hit(kind)

def locate(a, b):
  """Positions in b of the coordinates of a."""
  if type(a).__name__ == 'Station':
    x = [(s, float(l)) for s, l in zip(a.auxarrays['station'], a.auxarrays['lat'])]; y = [(s, float(l)) for s, l in zip(b.auxarrays['station'], b.auxarrays['lat'])]
    try: return [y.index(q) for q in x]
    except ValueError: return None
  if exprs.is_time(a):
    keys = [k for k in ('year', 'month', 'day', 'hour', 'minute', 'second') if k in a.auxarrays and k in b.auxarrays]
    x = list(zip(*[a.auxarrays[k] for k in keys])); y = list(zip(*[b.auxarrays[k] for k in keys]))
    try: return [y.index(q) for q in x]
    except ValueError: return None
  out = []
  bv = np.asarray(b.values, 'd')
  for q in np.asarray(a.values, 'd'):
    d = np.abs(bv - q); j = int(np.argmin(d))
    if d[j] > 1e-7 * max(1., abs(q)): return None
    out.append(j)
  return out

def refusal(rng, mon):
  """Coordinates which overlap only partly, or not at all, are refused."""
  k, a = base_axis(rng)
  n = len(a)
  if n < 3: return
  other = [vlib.make_axis(rng, 'Index', 2)] if chance(rng, .5) else []
  how = choice(rng, ['partial', 'disjoint', 'shifted'])
  if how == 'shifted':
    if k in ('Station', 'StandardTime', 'ModelTime365', 'Yearless', 'Hybrid', 'XAxis', 'NamedAxis'): how = 'disjoint'
  full = a
  if how == 'partial':
    c = int(rng.integers(1, n - 1)); x, y = a.slice[:c + 1], a.slice[c:]
    if len(x) == n or len(y) == n or len(x) < 2 or len(y) < 2: return
  elif how == 'disjoint':
    c = int(rng.integers(1, n)); x, y = a.slice[:c], a.slice[c:]
  else:
    d = np.abs(np.diff(np.asarray(a.values, 'd'))).min()
    x, y = a, type(a)(np.asarray(a.values, 'd') + .4 * d)
  if chance(rng, .5): x, y = y, x
  A = vlib.make_var(rng, other + [x], np.ones([len(q) for q in other + [x]]), name='a')
  B = vlib.make_var(rng, [y], np.ones(len(y)), name='b')
  f = choice(rng, sorted(BIN))
  mon.context[:] = ['%s of %s %s and %s (%s)' % (f, k, list(x.values), list(y.values), how)]
  mon.raises(lambda: BIN[f](A, B).get(), 'combined-unmatched', 'operands with coordinates which cannot be matched')
  mon.hit('refusals')

def anomaly(rng, mon):
  """A climatology combines with its time series by calendar field."""
  k = choice(rng, ['StandardTime', 'ModelTime365', 'ModelTime360'])
  from pygeode import timeaxis as T, timeutils
  n = int(rng.integers(20, 60))
  t = getattr(T, k)(np.arange(n) * float(choice(rng, [5, 11, 31])), units='days', startdate=dict(year=int(rng.integers(1, 2500)), month=int(rng.integers(1, 13)), day=int(rng.integers(1, 29))))
  x = vlib.make_axis(rng, 'Lon', 3)
  ct = timeutils.modify(t, resolution='month', exclude='year', uniquify=True)
  ct = ct if chance(rng, .5) else ct.slice[::-1]
  d1 = vlib.make_values(rng, (n, 3)); d2 = vlib.make_values(rng, (len(ct), 3))
  A = vlib.make_var(rng, [t, x], d1, name='T'); B = vlib.make_var(rng, [ct, x], d2, name='C')
  swap = chance(rng, .5)
  if chance(rng, .5): B = B.transpose(1, 0)
  R = mon.op('-', lambda: (B - A) if swap else (A - B))
  mon.context[:] = ['anomaly %s n=%d months %s' % (k, n, list(ct.auxarrays['month']))]
  m = [list(ct.auxarrays['month']).index(q) for q in t.auxarrays['month']]
  want = d1 - d2[m]
  if swap: want = -want
  if not mon.check(R.naxes == 2 and sorted(R.shape) == sorted(want.shape), 'anomaly-axes', lambda: 'axes %s' % (R.axes,)): return
  i = R.whichaxis(type(t)); got = mon.op('get', lambda: R.get()).transpose(i, 1 - i)
  mon.same(got, want, 'anomaly', 'series minus climatology', sig=('anomaly', k, n)); mon.hit('anomalies')
  sl = [slice(None)] * 2; sl[i], ix = vlib.random_selector(rng, n)
  mon.same(mon.op('get', lambda: R.slice[tuple(sl)].get()).transpose(i, 1 - i), want[ix], 'anomaly', 'part %s of the anomaly' % (sl[i],))

def classed(rng, mon):
  """Axes explicitly classed as different are different axes, even of one kind and with equal values."""
  k = choice(rng, ['XAxis', 'Lat', 'Lon'])
  from pygeode import axis as A
  n = int(rng.integers(2, 6)); v = np.arange(n) * 2.
  a = getattr(A, k)(v, **{'class': 'a'}); b = getattr(A, k)(v if chance(rng, .7) else v[::-1], **{'class': 'b'})
  d1, d2 = vlib.make_values(rng, n), vlib.make_values(rng, n)
  R = vlib.make_var(rng, [a], d1, name='p') * vlib.make_var(rng, [b], d2, name='q')
  mon.context[:] = ['classed %s %d' % (k, n)]
  if not mon.check(R.naxes == 2, 'classed', 'axes of different classes were merged'): return
  want = np.outer(d1, d2)
  if chance(rng, .5): R = mon.op('+', lambda: R + vlib.make_var(rng, [b], d2, name='q2')); want = want + d2
  mon.same(mon.op('get', lambda: R.get()), want, 'classed', 'product over classed axes', rtol=1e-13, sig=('classed', k, n))
  s1, i1 = vlib.random_selector(rng, n); s2, i2 = vlib.random_selector(rng, n)
  mon.context.append('part %s %s' % (s1, s2))
  mon.same(mon.op('get', lambda: R.slice[s1, s2].get()), want[np.ix_(i1, i2)], 'classed', 'part of a product over classed axes', rtol=1e-13)
  mon.hit('classed')

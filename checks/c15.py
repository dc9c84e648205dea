"""C15: smoothing is the documented linear filter and preserves constants."""
N_QUICK = 24000
N_THOROUGH = 250000
BUDGET_QUICK = 90
BUDGET_THOROUGH = 700
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: every smoothed sample is compared with the weighted sum of its window computed one sample at a time (reflected ends), both paths against each other, harmonics against a direct cosine/sine projection; constants and linear combinations are monitored'
RULE = ('a case is one filter on one variable: Hanning or explicit kernel (odd, even, as long as the axis, asymmetric, with zeros, negative weights), direct and Fourier path, or a number of harmonics; axis class, position, dtype, missing and infinite samples; then parts of the result; '
        'non-trivial: kernel of at least three points with unequal weights or at least one harmonic kept or removed; distinct by (filter, kernel length, series length, position, rank, dtype, path)')
REQUIRE = {'kernel': 3000, 'harmonics': 1500, 'even_kernels': 1000, 'odd_kernels': 1000, 'full_length': 200, 'edges': 20000, 'missing': 400, 'constants': 1000, 'linear': 500, 'paths': 1000, 'parts': 6000, 'refusals': 200, 'strans': 300, 'strans_parts': 600}
ASSUMPTIONS = ['numpy is correct', 'a missing or infinite sample under a zero weight is unspecified']
import numpy as np
import vlib
from vlib import choice, chance

def case(rng, i, mon):
  mon.context[:] = []
  if i % 25 == 24: return k_refuse(rng, mon)
  if i % 25 in (7, 16): return k_strans(rng, mon)
  (k_harm if i % 3 == 2 else k_kernel)(rng, mon)

def build(rng, nmin, nmax=24, dts='ddfD4'):
  cls = choice(rng, ['Pres', 'Height', 'Lat', 'Lon', 'XAxis', 'NamedAxis', 'StandardTime', 'ModelTime365', 'YAxis'])
  n = int(rng.integers(nmin, nmax + 1))
  a = vlib.make_axis(rng, cls, n, order=choice(rng, ['inc', 'dec'])); n = len(a)
  k = int(choice(rng, [0, 1, 1, 2, 2, 3]))
  o = vlib.make_axes(rng, k, kinds=[q for q in ['Lat', 'Lon', 'Pres', 'NamedAxis', 'ModelTime360'] if vlib.GROUP[q] != vlib.GROUP[cls]], nmax=4); k = len(o)
  p = int(rng.integers(0, k + 1)); dt = choice(rng, list(dts)); dt = {'4': choice(rng, ['i4', 'i2', 'i8'])}.get(dt, dt)
  osh = [len(q) for q in o]
  Y = vlib.make_values(rng, osh + [n], dt)
  return cls, a, n, o, p, dt, Y

def window(Y, ker):
  """Sum over the window, one sample at a time; second result is False where a missing sample has zero weight."""
  n, L = Y.shape[-1], len(ker); w = ker / ker.sum()
  out = np.zeros(Y.shape, np.result_type(Y.dtype, 'd')); known = np.ones(Y.shape, bool)
  for i in range(n):
    for j in range(L):
      q = i + (L - 1) // 2 - j
      q = -q - 1 if q < 0 else 2 * n - 1 - q if q >= n else q         # reflected, the end point repeated
      s = Y[..., q]
      if w[j] == 0: known[..., i] &= np.isfinite(s); continue
      out[..., i] += w[j] * s
  return out, known

def kernel(rng, n):
  r = rng.random()
  if r < .4:
    L = int(rng.integers(3, n + 1)); return L, np.hanning(L), 'hanning'
  L = n if r < .47 else int(rng.integers(3, n + 1))
  kind = choice(rng, ['box', 'random', 'delta', 'zeros', 'ints', 'tri'])
  k = {'box': lambda: np.ones(L), 'random': lambda: rng.uniform(.1, 1., L), 'delta': lambda: np.eye(L)[int(rng.integers(L))], 'zeros': lambda: np.where(rng.random(L) < .4, 0., 1.) + np.eye(L)[0],
       'ints': lambda: rng.integers(1, 9, L), 'tri': lambda: np.minimum(np.arange(L), np.arange(L)[::-1]) + 1.}[kind]()
  return (list(k) if chance(rng, .3) else tuple(k) if chance(rng, .1) else k), np.asarray(k, 'd'), kind

def k_kernel(rng, mon):
  import pygeode as pyg
  from pygeode.smooth import smooth
  cls, a, n, o, p, dt, Y = build(rng, 3)
  if n < 3: mon.ev(); return
  k = len(o); arg, ker, kind = kernel(rng, n); L = len(ker)
  if ker.sum() == 0: mon.ev(); return
  const = chance(rng, .2); miss = False
  if const: Y = Y[..., :1] + np.zeros(n, Y.dtype)
  elif dt in 'df' and chance(rng, .25): miss = True; Y[rng.random(Y.shape) < .1] = choice(rng, [np.nan, np.nan, np.inf]); mon.hit('missing')
  v = vlib.make_var(rng, o[:p] + [a] + o[p:], np.moveaxis(Y, -1, p), name='T', atts={'units': 'K'}, plotatts={'plottitle': 'temp'})
  fft = bool(choice(rng, [True, False])); kw = {} if fft and chance(rng, .5) else {'fft': fft}
  ax = choice(rng, [a, a.name, p, type(a)]); keep = np.array(arg, copy=True)
  lab = 'smooth %s kernel of %d %r of %s along %s (axis %d), fft=%s' % (kind, L, np.round(ker, 3).tolist(), vlib.describe(v), a.name, p, fft)
  mon.context[:] = [lab]; mon.sample(lab); mon.hit('kernel'); mon.hit('odd_kernels' if L % 2 else 'even_kernels'); mon.hit('full_length', L == n); mon.hit('edges', 2 * min(L // 2, n))
  sig = (kind, L, n, p, k, dt, fft, const, miss) if L > 2 else ()
  s = mon.op('smooth', lambda: v.smooth(ax, arg, **kw) if chance(rng, .5) else smooth(v, ax, arg, **kw))
  got = mon.op('get', lambda: s.get())
  if not np.isscalar(arg): mon.check(np.array_equal(np.asarray(arg), keep), 'kernel-changed', "the caller's kernel was modified", *sig)
  wd = np.dtype(dt) if np.dtype(dt).kind in 'fc' else np.dtype('d')
  mon.check(s.dtype == wd == got.dtype and s.name == 'T' and s.atts == v.atts and s.plotatts.get('plottitle') == 'temp' and len(s.axes) == k + 1 and all(x == y for x, y in zip(s.axes, v.axes)), 'meta', 'result %s %s %s' % (s.dtype, s.name, s.atts), *sig)
  Yd = Y.astype(np.result_type(Y.dtype, 'd')); single = dt == 'f'
  with np.errstate(all='ignore'):
    W, K = window(Yd, ker)
    sc = np.abs(Yd[np.isfinite(Yd)]).max() if np.isfinite(Yd).any() else 1.
    amp = np.abs(ker / ker.sum()).sum(); tol = sc * amp * (3e-6 if single else 1e-13)
    Kp = np.moveaxis(K, -1, p)
    mon.same(np.where(Kp, got, 0), np.where(Kp, np.moveaxis(W, -1, p).astype(wd), 0), 'value', lab, rtol=0, atol=tol, sig=sig)
    if const and np.isfinite(Yd).all():
      mon.hit('constants'); mon.same(got, np.moveaxis(Yd, -1, p).astype(wd), 'constant', 'constant changed: ' + lab, atol=tol, sig=sig)
    if chance(rng, .4):
      mon.hit('paths'); b = mon.op('other path', lambda: smooth(v, ax, arg, fft=not fft).get())
      mon.same(np.where(Kp, b, 0), np.where(Kp, got, 0), 'paths', 'direct and Fourier paths differ: ' + lab, atol=2 * tol, sig=sig)
    if dt == 'd' and not miss and chance(rng, .3):
      mon.hit('linear'); z = vlib.make_var(rng, v.axes, rng.normal(size=v.shape)); c = float(choice(rng, [2., -3.5]))
      b = mon.op('linear', lambda: (v * c + z).smooth(p, arg, **kw).get()); zz = z.smooth(p, arg, **kw).get()
      mon.same(b, got * c + zz, 'linear', 'filter is not linear: ' + lab, atol=1e-12 * amp * (abs(c) * sc + 10), sig=sig)
  parts(rng, mon, s, got, tol, Kp, sig)

def parts(rng, mon, s, got, tol, K, sig):
  for _ in range(2):
    sels = [vlib.random_selector(rng, z) for z in s.shape]; mon.hit('parts')
    part = mon.op('slice', lambda: s.slice[tuple(z for z, _ in sels)]); idx = [z for _, z in sels]; kk = vlib.fullsel(K, idx)
    mon.same(np.where(kk, mon.op('part', lambda: part.get()), 0), np.where(kk, vlib.fullsel(got, idx), 0), 'part', lambda: 'part %s' % (idx,), atol=tol, sig=sig)

def k_harm(rng, mon):
  from pygeode.fft_smooth import fft_smooth
  cls, a, n, o, p, dt, Y = build(rng, 1)
  k = len(o); m = int(choice(rng, [1, 2, 3, 4, int(rng.integers(1, n + 3)), n // 2, n // 2 + 1, n])); m = max(m, 1)
  const = chance(rng, .15)
  if const: Y = Y[..., :1] + np.zeros(n, Y.dtype)
  v = vlib.make_var(rng, o[:p] + [a] + o[p:], np.moveaxis(Y, -1, p), name='T', atts={'units': 'K'}, plotatts={'plottitle': 'temp'})
  ax = choice(rng, [a, a.name, p, type(a)])
  lab = 'fft_smooth of %s along %s (axis %d), maxharm %d' % (vlib.describe(v), a.name, p, m)
  mon.context[:] = [lab]; mon.sample(lab); mon.hit('harmonics')
  sig = ('harm', m, n, p, k, dt, const) if n > 1 else ()
  s = mon.op('fft_smooth', lambda: v.fft_smooth(ax, m) if hasattr(v, 'fft_smooth') and chance(rng, .5) else fft_smooth(v, ax, m)); got = mon.op('get', lambda: s.get())
  wd = np.dtype(dt) if np.dtype(dt).kind in 'fc' else np.dtype('d')
  mon.check(s.dtype == wd == got.dtype and s.name == 'T' and s.atts == v.atts and s.plotatts.get('plottitle') == 'temp' and len(s.axes) == k + 1 and all(x == y for x, y in zip(s.axes, v.axes)), 'meta', 'result %s %s %s' % (s.dtype, s.name, s.atts), *sig)
  Yd = Y.astype(np.result_type(Y.dtype, 'd')); t = np.arange(n); W = np.zeros(Yd.shape, Yd.dtype)
  for h in range(0, min(m, n // 2 + 1)):
    c, z = np.cos(2 * np.pi * h * t / n), np.sin(2 * np.pi * h * t / n)
    f = 1. / n if h == 0 or 2 * h == n else 2. / n
    W += f * ((Yd * c).sum(-1, keepdims=True) * c + (Yd * z).sum(-1, keepdims=True) * z)
  sc = np.abs(Yd).max(); tol = sc * (1e-5 if dt == 'f' else 1e-12)
  mon.same(got, np.moveaxis(W, -1, p).astype(wd), 'harmonics', lab, atol=tol, sig=sig)
  if const: mon.hit('constants'); mon.same(got, np.moveaxis(Yd, -1, p).astype(wd), 'constant', 'constant changed: ' + lab, atol=tol, sig=sig)
  if dt == 'd' and chance(rng, .3):
    mon.hit('linear'); b = mon.op('twice', lambda: s.fft_smooth(p, m).get() if hasattr(s, 'fft_smooth') else fft_smooth(s, p, m).get())
    mon.same(b, got, 'projection', 'second application changes the result: ' + lab, atol=2 * tol, sig=sig)
  parts(rng, mon, s, got, tol, np.ones(s.shape, bool), sig)

def k_refuse(rng, mon):
  from pygeode.smooth import smooth
  axes = vlib.make_axes(rng, 2, kinds=['Lat', 'Lon', 'Pres', 'NamedAxis'], nmax=5, nmin=3)
  v = vlib.make_var(rng, axes, vlib.make_values(rng, [len(q) for q in axes]), name='T')
  mon.hit('refusals'); w = int(rng.integers(3)); mon.context[:] = ['refusal %d' % w]
  if w == 0: mon.raises(lambda: v.smooth(0, len(axes[0]) + 1), 'refuse', 'kernel longer than the axis accepted', kinds=(AssertionError, ValueError))
  elif w == 1: mon.raises(lambda: v.smooth('nonesuch', 3), 'refuse', 'unknown axis accepted', kinds=(AssertionError, KeyError, ValueError))
  else:
    arr = v.get(); c = choice(rng, [1, 2]); mon.same(mon.op('short', lambda: v.smooth(0, c).get()), arr, 'short', 'Hanning window of %d' % c, sig=('short', c))

def k_strans(rng, mon):
  """S-transform: the spectrum seen through a Gaussian window as wide as the frequency, at each time"""
  import pygeode as pyg
  from pygeode.s_trans2 import Strans
  from pygeode import timeaxis
  n = int(rng.integers(3, 22)); cls = choice(rng, ['StandardTime', 'ModelTime365', 'ModelTime360']); unit = choice(rng, ['days', 'hours']); step = float(choice(rng, [1, 1, 2, 6]))
  t = getattr(timeaxis, cls)(values=np.arange(n) * step, units=unit, startdate=vlib.start_fields(rng, cls))
  o = vlib.make_axes(rng, int(choice(rng, [0, 1, 1, 2])), kinds=['Lat', 'Lon', 'Pres', 'NamedAxis'], nmax=4); p = int(rng.integers(0, len(o) + 1))
  dt = choice(rng, ['d', 'd', 'f', 'i4']); Y = vlib.make_values(rng, [len(a) for a in o] + [n], dt)
  v = vlib.make_var(rng, o[:p] + [t] + o[p:], np.moveaxis(Y, -1, p), name='x')
  by = choice(rng, ['days', 'hours']); d = step * {('days', 'hours'): 24., ('hours', 'days'): 1 / 24.}.get((unit, by), 1.)
  lo, hi = 1, n // 2; kw = {}
  if chance(rng, .6): lo = int(rng.integers(0, n // 2 + 1)); kw['minfreq'] = lo / (n * d)
  if chance(rng, .4) or n % 2: hi = int(rng.integers(max(lo, 1), n // 2 + 1)) if lo <= n // 2 else lo; kw['maxfreq'] = hi / (n * d)
  else: hi = n // 2
  ns = 100
  if chance(rng, .4): ns = kw['nsamples'] = int(rng.integers(2, 8))
  if hi < lo: return
  gap = max((hi - lo) // (ns - 1), 1); K = np.arange(hi, lo - 1, -gap)[::-1]
  lab = 'S-transform of %s, %d %s steps of %g %s, per %s %s' % (vlib.describe(v), n, cls, step, unit, by, kw); mon.context[:] = [lab]; mon.sample(lab); mon.hit('strans'); sig = ('strans', n, p, len(o), dt, lo == 0, unit, by)
  s = mon.op('Strans', lambda: Strans(v, by, **kw))
  mon.check([a.name for a in s.axes] == [a.name for a in o] + ['freq', 'time'] and s.axes[-1] == t, 'strans-axes', '%s' % (s.axes,), *sig)
  if not mon.same(np.asarray(s.axes[-2].values, 'd'), K / (n * d), 'strans-freq', 'frequencies of ' + lab, rtol=1e-6, sig=sig): return
  X = np.fft.fft(Y.astype('d'), axis=-1); m = np.arange(n); m = np.where(2 * m > n, m - n, m)
  want = np.empty(Y.shape[:-1] + (len(K), n), complex); T = np.arange(n)
  for j, k in enumerate(K):
    if k == 0: want[..., j, :] = Y.astype('d').mean(-1)[..., None]; continue
    want[..., j, :] = sum(X[..., (q + k) % n][..., None] * np.exp(-2 * (np.pi * q / k) ** 2) * np.exp(2j * np.pi * q * T / n) for q in m) / n
  tol = (1e-5 if dt == 'f' else 1e-9) * (1 + np.abs(Y.astype('d')).max() if Y.size else 1)
  lim = int(choice(rng, [n, n + 1, 3 * n])) if chance(rng, .3) else 0; old = pyg.MAX_ARRAY_SIZE
  try:
    if lim: pyg.MAX_ARRAY_SIZE = lim
    got = mon.op('get', lambda: s.get()); mon.same(got, want, 'strans', lab, atol=tol, sig=sig + (bool(lim),))
    for _ in range(2):
      sel = [vlib.random_selector(rng, z) for z in s.shape]; mon.hit('strans_parts')
      w = mon.op('part', lambda: s.slice[tuple(q for q, _ in sel)].get()); mon.same(w, want[np.ix_(*[q for _, q in sel])], 'strans-part', '%s of %s' % ([q for q, _ in sel], lab), atol=tol, sig=sig + (bool(lim),))
  finally: pyg.MAX_ARRAY_SIZE = old

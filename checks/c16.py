"""C16: composites and flattening place every sample at its event and offset."""
N_QUICK = 24000
N_THOROUGH = 200000
BUDGET_QUICK = 90
BUDGET_THOROUGH = 700
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: every sample of a composite or flattened variable is compared with the sample of the source found by index arithmetic on the event, offset and window; lazy source objects record which samples were read'
RULE = ('a case is one composite (events selected by index list, slice, values, dates, calendar fields; one window or one per event; offsets positive, zero, negative, past either end) or one flattening (nested axes anywhere, of composites, of lazy results), then parts of it and what follows (mean over events, flattening); '
        'non-trivial: at least two events or offsets; distinct by (axis class, position, rank, how selected, window kind, dtype, clipped ends)')
REQUIRE = {'composites': 2500, 'events': 8000, 'clipped': 2000, 'per_event': 600, 'negative_offset': 200, 'dates': 500, 'flattened': 1200, 'nested': 500, 'parts': 6000, 'chains': 400, 'refusals': 200}
ASSUMPTIONS = ['events are taken in the order of the axis', 'the axis values of a flattened composite are unspecified unless given']
import numpy as np
import vlib
from vlib import choice, chance

def case(rng, i, mon):
  mon.context[:] = []
  if i % 25 == 24: return k_refuse(rng, mon)
  (k_flat if i % 3 == 2 else k_comp)(rng, i, mon)

def build(rng, least=2, nmax=16):
  cls = choice(rng, ['Pres', 'Lat', 'Lon', 'XAxis', 'NamedAxis', 'StandardTime', 'StandardTime', 'ModelTime365', 'ModelTime360'])
  istime = 'Time' in cls
  n = int(rng.integers(least, nmax + 1))
  if istime:
    from pygeode import timeaxis as TX
    step = choice(rng, [1, 1, 2, .25, 6. / 24]); units = choice(rng, ['days', 'hours'])
    f = {'days': 1, 'hours': 24}[units]
    a = getattr(TX, cls)(values=np.arange(n) * step * f + choice(rng, [0, 40 * f]), units=units, startdate={'year': int(rng.integers(1990, 2010)), 'month': int(rng.integers(1, 13)), 'day': 1})
  else: a = vlib.make_axis(rng, cls, n, order=choice(rng, ['inc', 'dec'])); n = len(a); step = None
  k = int(choice(rng, [0, 1, 1, 2, 2, 3]))
  o = vlib.make_axes(rng, k, kinds=[q for q in ['Lat', 'Lon', 'Pres', 'NamedAxis', 'YAxis'] if vlib.GROUP[q] != vlib.GROUP[cls]], nmax=4); k = len(o)
  p = int(rng.integers(0, k + 1)); dt = choice(rng, ['d', 'd', 'f', 'i4', 'i8', 'D'])
  return cls, istime, a, len(a), o, k, p, dt

def events(rng, a, istime, n):
  """-> (how, selection, indices of the events)"""
  how = choice(rng, ['li', 'li', 'li', 'i', 'i', 'value', 'range'] + (['date', 'dates', 'field', 'dates'] if istime else ['values']))
  nm = a.name; vals = np.asarray(a.values)
  if how == 'li':
    q = [int(z) for z in rng.permutation(n)[:int(rng.integers(1, min(n, 6) + 1))]]; q = sorted(q) if chance(rng, .6) else q
    if chance(rng, .3): q = [z - n if chance(rng, .5) else z for z in q]
    return how, {'li_' + nm: q if chance(rng, .8) else np.array(q)}, sorted(z % n for z in q)
  if how == 'i':
    if chance(rng, .3): j = int(rng.integers(n)); return 'i1', {'i_' + nm: j - n if chance(rng, .3) else j}, [j]
    lo, hi = sorted(int(z) for z in rng.permutation(n + 1)[:2]); st = int(rng.integers(1, 4))
    return how, {'i_' + nm: (lo, hi, st) if st > 1 or chance(rng, .3) else (lo, hi)}, list(range(lo, hi, st))
  if how == 'value' and not istime: j = int(rng.integers(n)); return how, {nm: float(vals[j])}, [j]
  if how == 'range' and not istime:
    lo, hi = sorted(float(z) for z in rng.choice(vals, 2)); return how, {nm: (lo, hi)}, [int(z) for z in np.flatnonzero((vals >= lo) & (vals <= hi))]
  if how == 'values': q = sorted(int(z) for z in rng.permutation(n)[:int(rng.integers(1, 5))]); return how, {'l_' + nm: [float(vals[z]) for z in q]}, q
  if how == 'field':
    f = choice(rng, ['day', 'month', 'hour']); x = np.asarray(getattr(a, f)); z = int(rng.choice(x))
    return how, {f: z}, [int(z) for z in np.flatnonzero(x == z)]
  if istime:
    txt = lambda j: a.formatvalue(vals[j], fmt='$H:$M:$S $d $b $Y')
    if how == 'date' or how == 'value': j = int(rng.integers(n)); return 'date', {nm: txt(j)}, [j]
    if how == 'range': i, j = sorted(int(z) for z in rng.permutation(n)[:2]) if n > 1 else (0, 0); return 'dates-range', {nm: (txt(i), txt(j))}, list(range(i, j + 1))
    q = [int(z) for z in rng.permutation(n)[:int(rng.integers(1, 5))]]; q = sorted(q) if chance(rng, .6) else q
    return 'dates', {'l_' + nm: [txt(z) for z in q]}, sorted(q)

def k_comp(rng, i, mon):
  from pygeode.composite import composite
  cls, istime, a, n, o, k, p, dt = build(rng)
  if n < 2: mon.ev(); return
  Y = vlib.make_values(rng, [len(q) for q in o] + [n], dt)
  if dt == 'd' and chance(rng, .3): Y[rng.random(Y.shape) < .1] = np.nan
  v = vlib.make_var(rng, o[:p] + [a] + o[p:], np.moveaxis(Y, -1, p), name='T', atts={'units': 'K'}, plotatts={'plottitle': 'temp'})
  how, sel, ev = events(rng, a, istime, n)
  if not ev: mon.ev(); return
  ne = len(ev); kind = 'one'
  L = int(rng.integers(1, n + 4)); O = int(choice(rng, [0, 0, 1, 2, int(rng.integers(0, L + 1)), L - 1])); O = max(O, 0)
  if chance(rng, .1): O = -int(rng.integers(1, 4)); mon.hit('negative_offset')
  elif chance(rng, .05): O = L + int(rng.integers(0, 3))
  lens, offs = [L] * ne, [O] * ne; kw = {'evlen': L}
  if O or chance(rng, .5): kw['evoff'] = O
  if chance(rng, .3):
    kind = 'lens'; lens = [int(z) for z in rng.integers(1, n + 3, ne)]; kw['evlen'] = lens if chance(rng, .6) else np.array(lens)
  if chance(rng, .2):
    kind += '+offs'; offs = [int(z) for z in rng.integers(0, 5, ne)]; kw['evoff'] = offs if chance(rng, .6) else np.array(offs)
  if kind != 'one': mon.hit('per_event')
  if 'date' in how: mon.hit('dates')
  keep = {z: np.array(q) for z, q in kw.items()}
  lab = 'composite of %s along %s (axis %d) by %s -> events %s, %s' % (vlib.describe(v), a.name, p, sel, ev, {z: np.asarray(q).tolist() for z, q in kw.items()})
  mon.context[:] = [lab]; mon.sample(lab); mon.hit('composites'); mon.hit('events', ne)
  mo = max(offs); ml = max(l - q + mo for l, q in zip(lens, offs))
  K = np.arange(-mo, ml - mo); W = np.full([len(q) for q in o] + [ne, len(K)], np.nan, np.result_type(Y.dtype, 'f' if dt == 'f' else 'd')); clip = False
  for e in range(ne):
    for j, kk in enumerate(K):
      if -offs[e] <= kk < lens[e] - offs[e]:
        if 0 <= ev[e] + kk < n: W[..., e, j] = Y[..., ev[e] + kk]
        else: clip = True
  mon.hit('clipped', clip)
  sig = (cls, p, k, how, kind, dt, clip, int(np.sign(O))) if ne > 1 or len(K) > 1 else ()
  c = mon.op('composite', lambda: v.composite(**dict(sel, **kw)) if chance(rng, .6) else composite(v, **dict(sel, **kw)))
  got = mon.op('get', lambda: c.get())
  mon.check(all(np.array_equal(keep[z], kw[z]) for z in kw), 'arguments', 'argument modified', *sig)
  wd = np.dtype(dt) if np.dtype(dt).kind in 'fc' else np.dtype('d')
  mon.check(c.name == 'T' and c.atts == v.atts and c.plotatts.get('plottitle') == 'temp' and c.dtype == wd == got.dtype, 'meta', 'result %s %s %s' % (c.name, c.atts, c.dtype), *sig)
  if not mon.check(len(c.axes) == k + 2 and type(c.axes[p]).__name__ == 'Event' and type(c.axes[p + 1]).__name__ == ('Yearless' if istime else 'Offset') and all(c.axes[q + (2 if q >= p else 0)] == o[q] for q in range(k)), 'axes', 'axes %s' % (c.axes,), *sig): return
  mon.check(np.array_equal(c.axes[p].indices, ev), 'indices', 'events at %s, expected %s' % (c.axes[p].indices, ev), *sig)
  mon.check(np.array_equal(c.axes[p].values, np.arange(ne) + 1), 'event-axis', 'events numbered %s' % c.axes[p].values, *sig)
  off = c.axes[p + 1]; d = float(a.values[1] - a.values[0]) if istime else 1.
  mon.check(len(off) == len(K) and np.allclose(off.values, K * d, rtol=1e-12, atol=1e-12) and (not istime or off.units == a.units and (off.startdate.get('day', 0) == 0)), 'offset-axis', 'offsets %s, expected %s' % (off.values, K * d), *sig)
  W = np.moveaxis(W, [-2, -1], [p, p + 1]).astype(wd)
  if not mon.same(got, W, 'value', lab, sig=sig): return
  parts(rng, mon, c, got, sig)
  if chance(rng, .25):
    mon.hit('chains'); import warnings
    with warnings.catch_warnings():
      warnings.simplefilter('ignore')
      import importlib
      m = mon.op('nanmean', lambda: c.nanmean('event').get() if dt != 'D' else c.mean('event').get())
      with np.errstate(all='ignore'): w = np.nanmean(W.astype('d'), axis=p) if dt != 'D' else W.mean(p)
    mon.same(m, w.astype(m.dtype), 'mean', 'composite mean: ' + lab, rtol=1e-5 if dt == 'f' else 1e-12, atol=1e-4 if dt == 'f' else 1e-10, sig=sig)
  if chance(rng, .3):
    mon.hit('flattened')
    f = mon.op('flatten', lambda: c.flatten()); w = W.reshape(W.shape[:p] + (-1,) + W.shape[p + 2:])
    mon.same(mon.op('get', lambda: f.get()), w, 'flatten', 'flattened composite: ' + lab, sig=sig); parts(rng, mon, f, w, sig)
  if chance(rng, .2):
    b = choice(rng, range(ne)); g = mon.op('event', lambda: c(event=b + 1).get())
    mon.same(g, np.take(W, [b], p), 'event', 'event %d of %s' % (b + 1, lab), sig=sig)

def parts(rng, mon, s, got, sig):
  # (a part of a variable is found by its coordinates)
  if any(len(np.unique(a.values)) < len(a) for a in s.axes): return
  for _ in range(2):
    sels = [vlib.random_selector(rng, z) for z in s.shape]; mon.hit('parts')
    part = mon.op('slice', lambda: s.slice[tuple(z for z, _ in sels)]); idx = [z for _, z in sels]
    mon.same(mon.op('part', lambda: part.get()), vlib.fullsel(got, idx), 'part', lambda: 'part %s' % (idx,), sig=sig)
    for q, z in enumerate(idx):
      if type(s.axes[q]).__name__ == 'Event' and 'indices' in s.axes[q].auxarrays: mon.check(np.array_equal(part.axes[q].indices, s.axes[q].indices[z]), 'part-indices', 'part %s has events %s' % (z, part.axes[q].indices), *sig)

def k_flat(rng, i, mon):
  from pygeode.composite import flatten
  from pygeode import axis as A
  k = int(rng.integers(2, 5)); axes = vlib.make_axes(rng, k, nmax=6); k = len(axes)
  if k < 2: mon.ev(); return
  Y = vlib.make_values(rng, [len(q) for q in axes], choice(rng, ['d', 'f', 'i4', 'D', '?']))
  v = vlib.make_var(rng, axes, Y, name='T')
  j = int(rng.integers(1, k)); no, ni = Y.shape[j - 1], Y.shape[j]
  given = chance(rng, .5) or hasattr(axes[j - 1], 'startdate') or type(axes[j - 1]).__name__ in ('Hybrid', 'Station', 'TAxis') or axes[j].values.dtype.kind not in 'fiu' or axes[j - 1].values.dtype.kind not in 'fiu'
  na = A.NamedAxis(np.arange(no * ni) * 1., name='flat') if given else None
  lab = 'flatten %s, axis %d into %d, new axis %s' % (vlib.describe(v), j, j - 1, given)
  mon.context[:] = [lab]; mon.sample(lab); mon.hit('flattened'); mon.hit('nested')
  sig = (k, j, type(axes[j - 1]).__name__, type(axes[j]).__name__, given, str(Y.dtype), no > 1, ni > 1)
  f = mon.op('flatten', lambda: v.flatten(j, na) if chance(rng, .5) else flatten(v, inner=j, naxis=na)); got = mon.op('get', lambda: f.get())
  W = Y.reshape(Y.shape[:j - 1] + (-1,) + Y.shape[j + 1:])
  mon.check(f.dtype == Y.dtype == got.dtype and f.name == 'T' and len(f.axes) == k - 1, 'meta', 'result %s %s' % (f.dtype, f.name), *sig)
  mon.same(got, W, 'flat', lab, sig=sig)
  mon.check(all(f.axes[q] == axes[q] for q in range(j - 1)) and all(f.axes[q - 1] == axes[q] for q in range(j + 1, k)), 'axes', 'axes %s' % (f.axes,), *sig)
  b = f.axes[j - 1]
  if given: mon.check(b == na, 'axis', 'axis %s' % b, *sig)
  else:
    want = np.concatenate([q * ni + np.asarray(axes[j].values) for q in range(no)])
    mon.check(type(b) is type(axes[j - 1]) and np.array_equal(b.values, want) and b.name == axes[j - 1].name, 'axis', 'axis %s %s, expected %s' % (type(b), b.values, want), *sig)
  parts(rng, mon, f, W, sig)
  for q in range(2 if len(np.unique(b.values)) == len(b) else 0):
    # a contiguous range over several outer points
    lo, hi = sorted(int(z) for z in rng.permutation(no * ni + 1)[:2]); st = int(choice(rng, [1, 1, 2, 3]))
    sl = tuple([slice(None)] * (j - 1) + [slice(lo, hi, st)]); mon.hit('parts')
    if hi > lo: mon.same(mon.op('range', lambda: f.slice[sl].get()), W[sl], 'range', 'range %s of %s' % ((lo, hi, st), lab), sig=sig)

def k_refuse(rng, mon):
  from pygeode.composite import flatten
  axes = vlib.make_axes(rng, 2, kinds=['Lat', 'Lon', 'Pres'], nmax=6, nmin=3)
  v = vlib.make_var(rng, axes, vlib.make_values(rng, [len(q) for q in axes]), name='T'); nm = axes[0].name
  w = int(rng.integers(7)); mon.hit('refusals'); mon.context[:] = ['refusal %d' % w]; E = (AssertionError, ValueError, KeyError, TypeError, NotImplementedError)
  f = [lambda: v.composite(evlen=3), lambda: v.composite(evlen=3, nonesuch=3), lambda: v.composite(**{'li_' + nm: [0, 1], 'evlen': [2]}), lambda: v.composite(**{'li_' + nm: [0, 1], 'evlen': 2, 'evoff': [1, 1, 1]}),
       lambda: v.composite(**{'li_' + nm: [0, 1]}), lambda: v.flatten(), lambda: v.flatten(0)][w]
  mon.raises(f, 'refuse:%d' % w, 'bad request %d accepted' % w, kinds=E)

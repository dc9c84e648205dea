"""C01: a slice of any derived variable equals the same slice of its full evaluation."""
N_QUICK = 7000
N_THOROUGH = 150000
BUDGET_QUICK = 100
BUDGET_THOROUGH = 700
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: each partial request on a random expression tree is compared with the full evaluation'
RULE = ('a case is a random expression tree (1-4 derived-variable operations over sources of four kinds) and up to five random '
        'selections requested through five different routes; non-trivial: at least one operation and a proper sub-selection; '
        'distinct by (operations, route, kinds of selection)')
REQUIRE = {'selection': 8000, 'spellings': 2000, 'numpy_integers': 120, 'derived_axes_compared': 8000}
ASSUMPTIONS = ['numpy is correct', 'tolerances are rounding bounds propagated per operation, at most 1e-3 relative',
               'coordinates along each axis are distinct (the library addresses points by coordinate)']
import numpy as np
import vlib, exprs
from vlib import choice, chance

def axis_subset_same(mon, got, want, idx, key, msg):
  """`got` must be `want` restricted to the integer positions idx."""
  if type(got) is not type(want): return mon.check(False, key, '%s: axis class %s became %s' % (msg, type(want).__name__, type(got).__name__))
  from pygeode.axis import NonCoordinateAxis
  ok = isinstance(want, NonCoordinateAxis) or mon.same(got.values, np.asarray(want.values)[idx], key, msg + ': coordinates of %s' % want.name, rtol=1e-12)
  mon.check(got.name == want.name, key, '%s: axis name %s became %s' % (msg, want.name, got.name))
  for k, arr in want.auxarrays.items():
    if not mon.check(k in got.auxarrays, key, '%s: auxiliary array %s of %s lost' % (msg, k, want.name)): continue
    mon.same(np.asarray(got.auxarrays[k]), np.asarray(arr)[idx], key, msg + ': auxiliary array %s of %s' % (k, want.name), rtol=1e-12)
  if getattr(want, 'weights', None) is not None:
    if mon.check(getattr(got, 'weights', None) is not None, key, '%s: weights of %s lost' % (msg, want.name)):
      mon.same(np.asarray(got.weights), np.asarray(want.weights)[idx], key, msg + ': weights of %s' % want.name, rtol=1e-12)
  mon.hit('derived_axes_compared')
  return ok

def one_selection(rng, mon, n, full):
  v = n.var
  style = choice(rng, ['getitem', 'slice', 'slice2', 'index', 'view', 'load'])
  sels, idxs, kinds = [], [], []
  for a in v.axes:
    if chance(rng, .25): s, ix = slice(None), np.arange(len(a))
    else: s, ix = vlib.random_selector(rng, len(a))
    sels.append(s); idxs.append(ix)
    kinds.append(type(s).__name__ if not isinstance(s, slice) else 'slice%s' % ('-' if s.step and s.step < 0 else '' if s.step in (None, 1) else 's'))
  want = full[np.ix_(*idxs)]
  msg = 'tree %s; selection %s by %s' % (n.desc, sels, style)
  mon.context[:] = [msg]
  w = None
  if style in ('getitem', 'slice', 'load') and sels:
    # equivalent spellings: trailing or inner full selections left out, a single selector without a tuple
    spelled = tuple(sels); r = int(rng.integers(0, 4)); full_at = [j for j, s in enumerate(sels) if isinstance(s, slice) and s == slice(None)]
    if r == 1:
      while spelled and isinstance(spelled[-1], slice) and spelled[-1] == slice(None): spelled = spelled[:-1]
      if not spelled: spelled = (Ellipsis,)
    elif r == 2 and full_at:
      j = k = choice(rng, full_at)
      while k + 1 in full_at: k += 1
      spelled = spelled[:j] + (Ellipsis,) + spelled[k + 1:]
    if len(spelled) == 1 and not isinstance(spelled[0], list) and chance(rng, .6): spelled = spelled[0]
    if spelled != tuple(sels): mon.hit('spellings'); msg += ' as %s' % (spelled,); mon.context[:] = [msg]
  else: spelled = tuple(sels)
  if style == 'getitem':
    if chance(rng, .3):      # integers of numpy are integers
      num = lambda q: (np.int64 if chance(rng, .5) else np.int32)(q) if isinstance(q, int) else q
      new = tuple(num(q) for q in spelled) if isinstance(spelled, tuple) else num(spelled)
      if any(isinstance(q, np.integer) for q in (new if isinstance(new, tuple) else (new,))): spelled = new; mon.hit('numpy_integers'); mon.context[:] = [msg + ' as %r' % (spelled,)]
    got = np.asarray(mon.op('getitem', lambda: v[spelled]))
    want = want.reshape([len(ix) for s, ix in zip(sels, idxs) if not isinstance(s, int)])   # (a single index removes the dimension)
  elif style in ('slice', 'load'):
    w = mon.op('slice', lambda: v.slice[spelled])
    if style == 'load': got = mon.op('load', lambda: w.load(pbar=None).get())
    else: got = mon.op('slice-get', lambda: w.get())
  elif style == 'slice2':
    w1 = mon.op('slice', lambda: v.slice[tuple(sels)])
    s2 = [slice(None)] * v.naxes; j = int(rng.integers(0, v.naxes)); s2[j], ix2 = vlib.random_selector(rng, len(idxs[j]))
    idxs[j] = idxs[j][ix2]; want = full[np.ix_(*idxs)]
    mon.context[:] = [msg + ' then axis %d %s' % (j, s2[j])]
    w = mon.op('slice', lambda: w1.slice[tuple(s2)])
    got = mon.op('slice-get', lambda: w.get())
  elif style == 'index':
    # Var.__call__ by index: keeps axis order, takes index lists and ranges
    kw = {}
    for i, a in enumerate(v.axes):
      if sum(b.has_alias(a.name) for b in v.axes) > 1 or chance(rng, .3) or isinstance(sels[i], slice): idxs[i] = np.arange(len(a)); continue
      kw['li_' + a.name if not isinstance(sels[i], int) else 'i_' + a.name] = sels[i]
      idxs[i] = np.sort(idxs[i])
    want = full[np.ix_(*idxs)]
    w = mon.op('call', lambda: v(**kw))
    got = mon.op('call-get', lambda: w.get())
    if got.shape != want.shape: return     # documented index forms are C03's subject
  else:
    from pygeode.view import View
    got = mon.op('View.get', lambda: View(v.axes, [list(map(int, ix)) for ix in idxs]).get(v))
  mon.hit('selection')
  sig = (tuple(sorted(n.uses)), style, tuple(sorted(kinds))) if n.uses and want.size < full.size else None
  mon.ev(sig)
  mon.check(got.dtype == v.dtype, 'dtype', lambda: 'dtype %s returned, %s declared' % (got.dtype, v.dtype))
  mon.same(got, want, 'slice-values', 'slice differs from the full evaluation', rtol=0, atol=n.tol)
  if w is not None:
    if mon.check(w.shape == want.shape, 'slice-shape', lambda: 'selected variable has shape %s, expected %s' % (w.shape, want.shape)):
      for a, b, ix in zip(w.axes, v.axes, idxs): axis_subset_same(mon, a, b, ix, 'slice-axes', 'selected variable')

def case(rng, i, mon):
  g = exprs.Gen(rng)
  must = exprs.NAMES[i % len(exprs.NAMES)] if chance(rng, .7) else None
  mon.context[:] = []
  n = exprs.grow(rng, g, int(choice(rng, [1, 1, 2, 2, 3, 4])), must=must)
  mon.context[:] = ['tree ' + n.desc]
  v = n.var
  for u in n.uses: mon.hit('op:' + u)
  full = n.full
  mon.check(full.dtype == v.dtype, 'dtype', lambda: 'full evaluation has dtype %s, declared %s' % (full.dtype, v.dtype))
  mon.check(full.shape == tuple(len(a) for a in v.axes) == v.shape, 'shape', lambda: 'full evaluation has shape %s, axes %s' % (full.shape, v.shape))
  if not n.distinct or not exprs.all_distinct(v): mon.hit('skipped_duplicate_coordinates'); return
  for _ in range(5): one_selection(rng, mon, n, full)
  mon.context[:] = ['tree ' + n.desc]
  # sources deliver the same whatever was asked before
  again = mon.op('get again', lambda: v.get())
  mon.same(again, full, 'repeat', 'second full evaluation differs', atol=0)
  mon.sample(n.desc)

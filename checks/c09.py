"""C09: axis comparison and mapping are exact about coordinates."""
N_QUICK = 36000
N_THOROUGH = 400000
BUDGET_QUICK = 100
BUDGET_THOROUGH = 600
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: every comparison and mapping of two axes is judged by a brute-force oracle on their coordinates, calendar fields and reference data'
RULE = ('a case is a pair of axes of any kinds, the second derived from the first (copied, permuted, subset, extended, perturbed inside or outside the tolerance, renamed, re-referenced, other class, '
        'other auxiliary data) or unrelated; equality in both directions, is_equivalent with options, and both mappings are evaluated; non-trivial: at least two coordinates; distinct by (kinds, relation, sizes, options)')
REQUIRE = {'pairs': 10000, 'equal': 1500, 'unequal': 1500, 'mapped': 4000, 'absent': 1500, 'no_map': 500, 'perturbed_in': 300, 'perturbed_out': 300, 'time_subset': 300, 'options': 1500, 'duplicates': 300, 'common_map': 500}
ASSUMPTIONS = ['coordinates are finite', 'perturbations are 0.4 times or at least 2.5 times the tolerance, so rounding at the tolerance itself is not tested']
import numpy as np
import vlib
from vlib import choice, chance

KINDS = ['Lat', 'Lon', 'Pres', 'Height', 'XAxis', 'YAxis', 'ZAxis', 'NamedAxis', 'Axis', 'Index', 'Hybrid', 'Station', 'Freq', 'StandardTime', 'ModelTime365', 'ModelTime360', 'Yearless', 'Values']

def cls(k):
  from pygeode import axis as A, timeaxis as T
  return getattr(A, k) if hasattr(A, k) else getattr(T, k)

def fresh(rng, k, n):
  from pygeode import axis as A
  if k in ('ZAxis',): return A.ZAxis(vlib.distinct_sorted(rng, n, 1., 100.))
  if k == 'Axis': return A.Axis(vlib.distinct_sorted(rng, n, -50., 50.), name=choice(rng, ['foo', 'bar']))
  if k == 'Values':  # awkward magnitudes
    s = float(choice(rng, [1e-12, 1e-6, 1., 1e8, 1e20]))
    v = vlib.distinct_sorted(rng, n, -1., 1.) * s
    if chance(rng, .4): v[int(rng.integers(n))] = 0.
    v = np.unique(v)
    kw = {'rtol': choice(rng, [1e-10, 1e-3, 1e-5])} if chance(rng, .4) else {}
    return choice(rng, [A.XAxis, A.ZAxis, A.Lon])(v, **kw)
  a = vlib.make_axis(rng, k, n)
  return a

def big_years(rng):
  from pygeode import timeaxis as T
  y = int(rng.integers(60000, 400000)); c = choice(rng, [T.ModelTime360, T.ModelTime365])
  s = {'year': y, 'month': 1, 'day': 1}; n = int(rng.integers(1, 5))
  return c(np.arange(n) * 1., units='days', startdate=s), c(np.arange(n) * 1., units='days', startdate=dict(s, year=y + int(rng.integers(0, 2))))

def istime(a):
  from pygeode.timeaxis import Time
  return isinstance(a, Time)

def isstation(a):
  from pygeode.axis import NonCoordinateAxis
  return isinstance(a, NonCoordinateAxis)

def rebuild(a, values=None, c=None, rng=None, **over):
  from pygeode.axis import NamedAxis
  c = c or type(a)
  kw = dict(a.auxatts); kw.update({k: np.array(v) for k, v in a.auxarrays.items()})
  if issubclass(c, NamedAxis) or a.name != type(a).name: kw['name'] = a.name
  kw['rtol'] = a.rtol
  if not hasattr(c, 'A') and c.__name__ != 'Hybrid' and type(a).__name__ == 'Hybrid': kw.pop('A', 0); kw.pop('B', 0)
  kw.update(over)
  return c(np.array(a.values) if values is None else values, **kw)

def relate(rng, k, a, mon):
  """A second axis and the relation's name."""
  n = len(a)
  if istime(a):
    r = choice(rng, ['copy', 'units', 'startdate', 'reversed', 'shuffled', 'subset', 'superset', 'shift', 'fields', 'fields_nouniq', 'calendar', 'dup'])
    if r == 'copy': return type(a)(np.array(a.values), units=a.units, startdate=dict(a.startdate)), r
    if r == 'units':
      f = {'days': 86400., 'hours': 3600., 'minutes': 60., 'seconds': 1.}; u = choice(rng, list(f))
      v = np.round(np.asarray(a.values, 'd') * f[a.units]) / f[u]
      return type(a)(v, units=u, startdate=dict(a.startdate)), r
    if r == 'startdate':
      if k == 'Yearless': return type(a)(np.asarray(a.values) , units=a.units, startdate=dict(a.startdate)), 'copy'
      off = float(choice(rng, [1, 10, 400]))
      s = a.val_as_date(-off if a.units == 'days' else -24 * off)
      return type(a)(np.asarray(a.values) + (off if a.units == 'days' else 24 * off), units=a.units, startdate=s), r
    if r == 'reversed': return a.slice[::-1], r
    if r == 'shuffled': return a.slice[([int(j) for j in rng.permutation(n)],)], r
    if r == 'subset': return a.slice[([int(j) for j in np.sort(rng.permutation(n)[:int(rng.integers(1, n + 1))])],)], r
    if r == 'superset':
      v = np.asarray(a.values, 'd'); step = 1. if a.units == 'days' else 24.
      if k == 'Yearless': v2 = np.concatenate([v, v.max() + step * np.arange(1, 4)])
      else: v2 = np.concatenate([v, v.min() - step * np.arange(1, 3), v.max() + step * np.arange(1, 4)])
      return type(a)(np.sort(v2) if chance(rng, .5) else v2[rng.permutation(len(v2))], units=a.units, startdate=dict(a.startdate)), r
    if r == 'shift':
      d = float(choice(rng, [1, 6, 24])) * {'days': 1 / 24., 'hours': 1., 'minutes': 60., 'seconds': 3600.}[a.units]
      v = np.array(a.values, 'd'); j = int(rng.integers(n))
      if chance(rng, .5): v[j] += d
      else: v += d
      return type(a)(v, units=a.units, startdate=dict(a.startdate)), r
    if r in ('fields', 'fields_nouniq'):
      from pygeode import timeutils
      ex = choice(rng, [['year'], ['hour', 'minute', 'second'], ['year', 'hour', 'minute', 'second'], ['day', 'hour', 'minute', 'second'], ['year', 'month', 'day']])
      if k == 'Yearless': ex = ['hour', 'minute', 'second']
      mon.hit('time_subset')
      return timeutils.modify(a, exclude=ex, uniquify=(r == 'fields')), r + ''.join(e[0] for e in ex)
    if r == 'dup':
      mon.hit('duplicates')
      return a.slice[([int(j) for j in rng.integers(0, n, n + 1)],)], r
    o = choice(rng, [q for q in ('StandardTime', 'ModelTime365', 'ModelTime360') if q != k])
    s = {q: x for q, x in a.startdate.items()}
    if k == 'Yearless': s = dict(year=1, month=1, day=1)
    return cls(o)(np.array(a.values), units=a.units, startdate=s), r
  if isstation(a):
    r = choice(rng, ['copy', 'shuffled', 'subset', 'other', 'lesskeys', 'morekeys', 'dup'])
    aux = {q: np.array(x) for q, x in a.auxarrays.items()}
    if r == 'shuffled': ix = rng.permutation(n)
    elif r == 'subset': ix = np.sort(rng.permutation(n)[:int(rng.integers(1, n + 1))])
    elif r == 'dup': ix = rng.integers(0, n, n + 1); mon.hit('duplicates')
    else: ix = np.arange(n)
    aux = {q: x[ix] for q, x in aux.items()}
    if r == 'other':
      q = choice(rng, sorted(aux)); j = int(rng.integers(n))
      x = np.array(aux[q], dtype=object) if aux[q].dtype.kind in 'OSU' else aux[q].copy()
      x[j] = 'zzz' if aux[q].dtype.kind in 'OSU' else x[j] + 1
      aux[q] = list(x) if aux[q].dtype.kind in 'OSU' else x
    if r == 'lesskeys': aux.pop(choice(rng, ['lat', 'alt']))
    if r == 'morekeys': aux['elev'] = np.arange(len(ix)) * 1.5
    return type(a)(**aux), r
  r = choice(rng, ['copy', 'reversed', 'shuffled', 'subset', 'superset', 'in', 'in', 'out', 'out', 'edge', 'name', 'class', 'aux', 'dup', 'dtype', 'sign'])
  v = np.array(a.values)
  if r == 'copy': return rebuild(a), r
  if r in ('reversed', 'shuffled', 'subset', 'dup'):
    ix = {'reversed': np.arange(n)[::-1], 'shuffled': rng.permutation(n), 'subset': np.sort(rng.permutation(n)[:int(rng.integers(1, n + 1))]), 'dup': rng.integers(0, n, n + int(rng.integers(0, 2)))}[r]
    if r == 'dup': mon.hit('duplicates')
    return (a.slice[([int(j) for j in ix],)] if chance(rng, .5) else rebuild(a, v[ix], **{q: x[ix] for q, x in a.auxarrays.items()})), r
  if r == 'superset':
    s = float(np.abs(v).max()) or 1.
    extra = v.max() + s * np.array([.5, 1.]) if v.dtype.kind == 'f' else v.max() + np.array([3, 7])
    w = np.concatenate([v, extra]); p = rng.permutation(len(w)) if chance(rng, .5) else np.arange(len(w))
    return rebuild(a, w[p], **{q: np.concatenate([x, x[:1], x[:1]])[p] if len(x) else x for q, x in a.auxarrays.items()}), r
  if r in ('in', 'out'):
    v = v.astype('d'); j = int(rng.integers(n))
    d = .4 if r == 'in' else float(choice(rng, [2.5, 10., 1000.]))
    mon.hit('perturbed_' + r)
    s = choice(rng, [1, -1])
    if chance(rng, .5): v[j] += s * d * a.rtol * abs(v[j])
    else: v = v + s * d * a.rtol * np.abs(v)
    return rebuild(a, v), r
  if r == 'edge':
    v = v.astype('d'); j = int(rng.integers(n)); v[j] *= 1 + choice(rng, [-1, 1]) * choice(rng, [.97, .99, 1., 1.01, 1.03]) * a.rtol
    return rebuild(a, v), r
  if r == 'sign': return rebuild(a, -v), r
  if r == 'name': return rebuild(a, name='other'), r
  if r == 'dtype': return rebuild(a, v.astype('f') if v.dtype.kind == 'f' else v.astype('d')), r
  if r == 'aux':
    if a.auxarrays:
      q = choice(rng, sorted(a.auxarrays)); x = np.array(a.auxarrays[q], 'd'); x[int(rng.integers(n))] += choice(rng, [.1, .01])
      if chance(rng, .3): x = np.array(a.auxarrays[q], 'd') + .1
      return rebuild(a, **{q: x}), r
    return rebuild(a, weights=np.ones(n)) if chance(rng, .5) else rebuild(a, note=choice(rng, ['x', 'y'])), r
  c = choice(rng, ['XAxis', 'YAxis', 'ZAxis', 'Lat', 'Lon', 'Pres', 'Axis', 'Height'])
  kw = {}
  C = cls(c)
  w = np.array(a.values)
  return C(w, rtol=a.rtol, **({'name': a.name} if c == 'Axis' else {}), **({q: np.array(x) for q, x in a.auxarrays.items() if q == 'weights'})), 'class ' + c

# ---------------------------------------------------------------- oracle
def comparable(a, b):
  from pygeode.axis import Axis, NamedAxis
  if istime(a) or istime(b): return type(a) is type(b)
  if isstation(a) or isstation(b): return None  # handled separately
  if isinstance(a, NamedAxis) != isinstance(b, NamedAxis): return False
  if isinstance(a, NamedAxis) and a.name != b.name: return False
  return isinstance(a, type(b)) or isinstance(b, type(a))

def sametext(x, y): return [str(q) for q in x] == [str(q) for q in y]

def eqclose(x, y, rtol, atol=0.):
  x = np.asarray(x, 'd'); y = np.asarray(y, 'd')
  if x.shape != y.shape: return False
  m = np.maximum(np.abs(x), np.abs(y))
  d = np.abs(x - y)
  if np.all(d <= .7 * (rtol * m) + 1e-30): return True
  if np.any((d > 1.5 * (rtol * m)) & (d > 1e-8 * 1.01 if atol else d > 0)): return False
  return None    # too close to the tolerance to call

def auxequal(a, b):
  if set(a.auxatts) != set(b.auxatts) or any(a.auxatts[q] != b.auxatts[q] for q in a.auxatts): return False
  if set(a.auxarrays) != set(b.auxarrays): return False
  for q in a.auxarrays:
    x, y = np.asarray(a.auxarrays[q]), np.asarray(b.auxarrays[q])
    if len(x) != len(y): return False
    if x.dtype.kind in 'OSU':
      if not sametext(x, y): return False
    else:
      e = eqclose(x, y, 1e-5, 1e-8)
      if e is not True: return e
  return True

def equal(a, b, check_class=False, check_aux=True, check_name=False, rtol='max'):
  from pygeode.axis import Axis
  if istime(a) or istime(b):
    if type(a) is not type(b) or set(a.auxarrays) != set(b.auxarrays) or len(a) != len(b): return False
    return all(np.array_equal(a.auxarrays[q], b.auxarrays[q]) for q in a.auxarrays)
  if isstation(a) or isstation(b):
    if type(a) is not type(b) or set(a.auxarrays) != set(b.auxarrays): return False
    return all(list(a.auxarrays[q]) == list(b.auxarrays[q]) for q in a.auxarrays)
  if not comparable(a, b): return False
  if check_class and type(a) is not type(b): return False
  if (check_name or (type(a) is Axis and type(b) is Axis)) and a.name != b.name: return False
  if len(a) != len(b): return False
  r = max(a.rtol, b.rtol) if rtol == 'max' else min(a.rtol, b.rtol) if rtol == 'min' else rtol
  m = max(np.abs(a.values).max(), np.abs(b.values).max()) if len(a) else 1.
  # a coordinate within rounding of zero is compared with the scale of the axis (at most 1e-8)
  e = eqclose(a.values, b.values, r)
  if e is None: return None
  if not e:
    atol = min(1e-8, r * m)
    d = np.abs(np.asarray(a.values, 'd') - np.asarray(b.values, 'd')); mm = np.maximum(np.abs(a.values), np.abs(b.values))
    if np.all(d <= (r * mm + atol) * 1.2): return None     # inside the absolute tolerance: unspecified
    return False
  if not check_aux: return True
  return auxequal(a, b)

def unusual(a):
  from pygeode.axis import NamedAxis
  return istime(a) or isstation(a) or isinstance(a, NamedAxis)

def check_map(mon, a, b, sig, got):
  """got = a.map_to(b): for each coordinate of b present in a, its position in a."""
  from pygeode.axis import Axis
  # a bare Axis and a calendar axis: the raw offsets may be compared, nothing is specified
  if type(a) is Axis and unusual(b) or type(b) is Axis and unusual(a): return
  if istime(a) or istime(b):
    if type(a) is not type(b) or not set(a.auxarrays) <= set(b.auxarrays):
      mon.check(got is None, 'map-incompatible', '%r maps to %r as %r' % (a, b, got), *sig); mon.hit('no_map'); return
    F = [f for f in a.allowed_fields if f in a.auxarrays]
    ka = list(zip(*[np.asarray(a.auxarrays[f]).tolist() for f in F])); kb = list(zip(*[np.asarray(b.auxarrays[f]).tolist() for f in F]))
    pos = {}
    for j, q in enumerate(ka): pos.setdefault(q, []).append(j)
    want = [pos[q] for q in kb if q in pos]
    absent = sum(q not in pos for q in kb)
  elif isstation(a) or isstation(b):
    if not isinstance(b, type(a)): mon.check(got is None, 'map-incompatible', '%r maps to %r as %r' % (a, b, got), *sig); mon.hit('no_map'); return
    F = sorted(set(a.auxarrays) & set(b.auxarrays))
    if not F: mon.check(got is None, 'map-incompatible', 'mapped without common information'); return
    ka = list(zip(*[[str(x) for x in a.auxarrays[f]] for f in F])); kb = list(zip(*[[str(x) for x in b.auxarrays[f]] for f in F]))
    pos = {}
    for j, q in enumerate(ka): pos.setdefault(q, []).append(j)
    want = [pos[q] for q in kb if q in pos]; absent = sum(q not in pos for q in kb)
  else:
    if not comparable(a, b):
      mon.check(got is None, 'map-incompatible', '%r maps to %r as %r' % (a, b, got), *sig); mon.hit('no_map'); return
    if equal(a, b) is None or (equal(a, b) and not all(abs(x - y) <= .7 * a.rtol * abs(y) for x, y in zip(a.values, b.values))): mon.hit('tolerance_unclear'); return
    want = []; absent = 0
    for y in np.asarray(b.values, 'd'):
      d = np.abs(np.asarray(a.values, 'd') - y); t = a.rtol * abs(y)
      if np.any((d > .7 * t) & (d < 1.5 * t)): mon.hit('tolerance_unclear'); return
      c = [int(j) for j in np.flatnonzero(d <= t)]
      if c: want.append(c)
      else: absent += 1
  if not mon.check(got is not None, 'map-none', 'no mapping from %r to %r' % (a, b), *sig): return
  got = [int(g) for g in got]
  mon.check(len(got) == len(want) and all(g in w for g, w in zip(got, want)), 'map', 'mapping %s\n  values %s\nonto %s\n  values %s\ngives %s, expected %s' % (a, show(a), b, show(b), got, want), *sig)
  mon.hit('mapped', len(want)); mon.hit('absent', absent)

def show(a):
  if istime(a): return {f: np.asarray(x).tolist() for f, x in a.auxarrays.items()}
  if isstation(a): return {f: list(x) for f, x in a.auxarrays.items()}
  return np.asarray(a.values).tolist()

def case(rng, i, mon):
  from pygeode.axis import is_equivalent
  k = choice(rng, KINDS)
  n = int(rng.integers(1, 9)) if chance(rng, .95) else int(rng.integers(20, 60))
  a = fresh(rng, k, n); rel = None
  if chance(rng, .01): a, b = big_years(rng); k = type(a).__name__; rel = 'big years'
  elif chance(rng, .1) and not istime(a) and not isstation(a): a = rebuild(a, rtol=float(choice(rng, [1e-8, 1e-3, .05, .2])))
  if rel: pass
  elif istime(a) and chance(rng, .25):
    from pygeode import timeutils
    ex = ['year'] if k != 'Yearless' else ['hour', 'minute', 'second']
    if chance(rng, .5): a = timeutils.modify(a, exclude=ex, uniquify=True); rel = 'shuffled'; b = a.slice[([int(j) for j in rng.permutation(len(a))],)]; k += '-' + ex[0]
    else: b = timeutils.modify(a, exclude=ex, uniquify=chance(rng, .7)); rel = 'excluded'; a, b = b, a; mon.hit('time_subset')
  elif chance(rng, .15):
    k2 = choice(rng, KINDS); b = fresh(rng, k2, n if chance(rng, .7) else int(rng.integers(1, 9))); rel = 'unrelated ' + k2
  else: b, rel = relate(rng, k, a, mon)
  n = len(a)
  mon.context[:] = ['%s %s: a=%r %s\n b=%r %s' % (k, rel, a, str(show(a))[:300], b, str(show(b))[:300])]
  mon.hit('pairs')
  sig = (k, rel, min(n, 3), min(len(b), 3)) if n > 1 else ()
  # reflexive, symmetric, consistent
  mon.check((a == a) is True and not (a != a), 'reflexive', '%r is not equal to itself' % a, *sig)
  e1, e2 = (a == b), (b == a)
  mon.check(bool(e1) == bool(e2), 'symmetric', 'a == b is %r but b == a is %r' % (e1, e2), *sig)
  mon.check((a != b) == (not e1) and (b != a) == (not e2), 'not-equal', '!= disagrees with ==', *sig)
  mon.check(a.alleq(b) == bool(e1), 'alleq', 'alleq disagrees with ==', *sig)
  w = equal(a, b)
  if w is None: mon.hit('tolerance_unclear')
  else:
    mon.check(bool(e1) == w, 'equal', 'a == b is %r, expected %r' % (e1, w), *sig)
    mon.hit('equal' if w else 'unequal')
  for other in (None, 3, 'lat', np.array(a.values)):
    mon.check(not (a == other) if not isinstance(other, np.ndarray) else True, 'equal-foreign', '%r equals %r' % (a, other))
  if not istime(a) and not istime(b) and not isstation(a) and not isstation(b):
    from pygeode.axis import NamedAxis
    kw = {}
    if chance(rng, .4): kw['check_class'] = chance(rng, .5)
    if chance(rng, .4): kw['check_aux'] = chance(rng, .3)
    if chance(rng, .4): kw['check_name'] = chance(rng, .5)
    if chance(rng, .4): kw['rtol'] = choice(rng, ['max', 'min', 1e-8, .1])
    if not isinstance(a, NamedAxis) and not isinstance(b, NamedAxis) or comparable(a, b):
      w = equal(a, b, **kw)
      if w is not None:
        g = is_equivalent(a, b, **kw)
        mon.check(bool(g) == w, 'is_equivalent', 'is_equivalent(a, b, %r) is %r, expected %r' % (kw, g, w), tuple(sorted(kw)), *sig); mon.hit('options')
        g = is_equivalent(b, a, **kw); mon.check(bool(g) == w, 'is_equivalent', 'is_equivalent(b, a, %r) is %r, expected %r' % (kw, g, w), tuple(sorted(kw)), *sig)
  check_map(mon, a, b, ('ab',) + sig if sig else (), mon.op('a.map_to(b)', lambda: a.map_to(b)))
  check_map(mon, b, a, ('ba',) + sig if sig else (), mon.op('b.map_to(a)', lambda: b.map_to(a)))
  check_map(mon, a, a, sig, mon.op('a.map_to(a)', lambda: a.map_to(a)))
  # the common map of two time axes pairs every coordinate they share
  if istime(a) and type(a) is type(b):
    F = [f for f in a.allowed_fields if f in a.auxarrays and f in b.auxarrays]
    if F:
      ka = list(zip(*[np.asarray(a.auxarrays[f]).tolist() for f in F])); kb = list(zip(*[np.asarray(b.auxarrays[f]).tolist() for f in F]))
      if len(set(ka)) == len(ka) or len(set(kb)) == len(kb):
        ma, mb = mon.op('common_map', lambda: a.common_map(b))
        got = sorted(zip(map(int, ma), map(int, mb))); want = sorted((x, y) for x in range(len(ka)) for y in range(len(kb)) if ka[x] == kb[y])
        mon.check(got == want, 'common_map', 'common map of %s and %s is %s, expected %s' % (ka, kb, got, want), *sig); mon.hit('common_map')

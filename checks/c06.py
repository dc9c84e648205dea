"""C06: structural operations move data without losing or altering any of it."""
N_QUICK = 27000
N_THOROUGH = 300000
BUDGET_QUICK = 100
BUDGET_THOROUGH = 600
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: a labelled reference model (values attached to coordinates) is carried through random chains of structural operations and compared after every step; inverse chains must restore the variable'
RULE = ('a case is a random chain of 1 to 5 structural operations on one random variable; after each step values, dtype, axes (class, name, coordinates, auxiliary arrays, weights) and metadata are compared with a reference model; '
        'non-trivial: the variable has more than one point; distinct by (operation chain, dtype, axis classes)')
REQUIRE = {'steps': 12000, 'inverses': 800, 'fills': 500, 'casts': 500, 'sorts': 900, 'replaced': 900, 'requests': 4000, 'refusals': 300, 'class_replacements': 150}
ASSUMPTIONS = ['numpy is correct']
import numpy as np
import vlib
from vlib import choice, chance

class Ref(object):
  """values + one record per axis"""
  def __init__(self, data, axes, name, atts, plotatts):
    self.data = data; self.axes = [dict(a) for a in axes]; self.name = name; self.atts = atts; self.plotatts = plotatts
  def copy(self): return Ref(self.data, self.axes, self.name, self.atts, self.plotatts)

def record(a):
  d = dict(type=type(a), name=a.name, values=np.array(a.values), atts=dict(a.atts), plotatts=dict(a.plotatts), auxatts=dict(a.auxatts), units=getattr(a, 'units', None), rtol=a.rtol)
  d['aux'] = {k: np.array(v) for k, v in a.auxarrays.items()}
  return d
def plain(x):
  x = np.asarray(x)
  return [str(q) for q in x.ravel()] if x.dtype.kind in 'US' else x
def take(r, idx):
  r = dict(r); 
  r['values'] = np.arange(len(idx)) if r['type'].__name__ == 'Station' else r['values'][idx]
  r['aux'] = {k: v[idx] for k, v in r['aux'].items()}
  return r

def compare(mon, v, ref, lab, sig):
  k = lab
  mon.hit('steps')
  got = mon.op(lab, lambda: v.get())
  ok = mon.same(got, ref.data, 'values:' + k, lambda: 'values after %s' % lab, sig=sig)
  mon.check(np.asarray(got).dtype == v.dtype, 'dtype:' + k, lambda: 'declares %s, returns %s' % (v.dtype, np.asarray(got).dtype))
  mon.check(v.dtype == ref.data.dtype, 'dtype2:' + k, lambda: 'dtype %s, expected %s' % (v.dtype, ref.data.dtype))
  mon.check(v.shape == tuple(len(r['values']) for r in ref.axes) and v.naxes == len(ref.axes) and v.size == ref.data.size, 'shape:' + k, lambda: 'shape %s' % (v.shape,))
  mon.check(v.name == ref.name, 'name:' + k, lambda: 'name %r expected %r' % (v.name, ref.name))
  mon.check(dict(v.atts) == ref.atts and dict(v.plotatts) == ref.plotatts, 'atts:' + k, lambda: 'atts %s %s expected %s %s' % (v.atts, v.plotatts, ref.atts, ref.plotatts))
  for a, r in zip(v.axes, ref.axes):
    mon.ev()
    if not (type(a) is r['type'] and a.name == r['name']): mon.fail('axis:' + k, 'axis %s %r expected %s %r' % (type(a), a.name, r['type'], r['name']))
    elif not vlib.close(np.asarray(a.values), r['values']): mon.fail('axisvalues:' + k, 'axis %s has %s expected %s' % (a.name, a.values, r['values']))
    elif not vlib.same_tree({q: plain(a.auxarrays[q]) for q in sorted(a.auxarrays)}, {q: plain(r['aux'][q]) for q in sorted(r['aux'])}): mon.fail('auxarrays:' + k, 'axis %s aux arrays %s expected %s' % (a.name, a.auxarrays, r['aux']))
    elif not vlib.same_tree({q: a.auxatts[q] for q in sorted(a.auxatts)}, {q: r['auxatts'][q] for q in sorted(r['auxatts'])}): mon.fail('auxatts:' + k, 'axis %s aux atts %s expected %s' % (a.name, a.auxatts, r['auxatts']))
    elif dict(a.atts) != r['atts'] or dict(a.plotatts) != r['plotatts'] or getattr(a, 'units', None) != r['units'] or a.rtol != r['rtol']:
      mon.fail('axisatts:' + k, 'axis %s: atts %s/%s plotatts %s/%s units %s/%s rtol %s/%s' % (a.name, a.atts, r['atts'], a.plotatts, r['plotatts'], getattr(a, 'units', None), r['units'], a.rtol, r['rtol']))
  return ok

def request(rng, mon, v, ref, lab):
  if v.naxes == 0 or not distinct(ref): return
  sels = [vlib.random_selector(rng, n) for n in v.shape]
  w = mon.op('slice', lambda: v.slice[tuple(s for s, _ in sels)])
  got = mon.op(lab + '+slice', lambda: w.get())
  mon.hit('requests')
  mon.same(got, vlib.fullsel(ref.data, [i for _, i in sels]), 'request:' + lab, lambda: 'part %s of %s' % ([s for s, _ in sels], lab))

def distinct(ref): return all(len(np.unique(r['values'])) == len(r['values']) for r in ref.axes)

def axid(rng, v, ref, i):
  from pygeode.axis import Axis
  names = [r['name'] for r in ref.axes]; types = [r['type'] for r in ref.axes]
  o = [i]
  if names.count(names[i]) == 1: o += [names[i]]
  if sum(issubclass(t, types[i]) for t in types) == 1: o.append(types[i])
  if names.count(names[i]) == 1: o.append(v.axes[i])
  return choice(rng, o)

def case(rng, i, mon):
  import pygeode as pyg
  from pygeode.axis import NamedAxis, XAxis, YAxis, Lat, Pres, Index, Axis
  mon.context[:] = []
  nd = int(choice(rng, [0, 1, 2, 2, 3, 3, 4])) if i % 17 else 0
  axes = vlib.make_axes(rng, nd, nmax=5)
  if chance(rng, .35) and nd:
    j = int(rng.integers(0, nd)); axes[j] = vlib.make_axis(rng, type(axes[j]).__name__, 1)
  for a in axes:
    if chance(rng, .3): a.atts['long'] = 'abc'
    if chance(rng, .3): a.plotatts['plottitle'] = 'xyz'
    if chance(rng, .15): a.units = 'furlong'
    if chance(rng, .15): a.rtol = 1e-4
  dt = choice(rng, ['d', 'd', 'd', 'f', 'i4', 'i8', 'i2', 'u1', '?', 'D'])
  data = vlib.make_values(rng, [len(a) for a in axes], dt, nan=choice(rng, [0., .2]))
  nm = choice(rng, ['T', 'u', ''])
  atts = {'units': 'K', 'k': [1, 2]}; patts = {'plottitle': 'TT', 'plotfmt': '%g'}
  v = vlib.make_var(rng, axes, data, name=nm, atts=dict(atts), plotatts=dict(patts))
  mon.check(all(v.plotatts.get(q) == x for q, x in patts.items()) and v.atts == atts, 'source-atts', 'the variable does not hold the attributes it was given')
  patts = dict(v.plotatts)
  ref = Ref(np.array(data), [record(a) for a in axes], nm, atts, patts)
  mon.context.append(vlib.describe(v))
  depth = int(rng.integers(1, 6))
  chain = []
  for step in range(depth):
    if ref.data.size > 2500: break
    op = choice(rng, ['transpose', 'transpose', 'squeeze', 'extend', 'sorted', 'sorted', 'rename', 'rename_axes', 'replace', 'replace', 'fill', 'unfill', 'cast', 'slice', 'refuse', 'inverse'])
    r = STEPS[op](rng, mon, v, ref)
    if r is None: continue
    v, ref, lab = r
    chain.append(op); mon.context.append(lab)
    sig = (tuple(chain), str(ref.data.dtype), tuple(q['type'].__name__ for q in ref.axes)) if ref.data.size > 1 else ()
    nf = len(mon.failures)
    compare(mon, v, ref, op, sig)
    if len(mon.failures) > nf: return
    if chance(rng, .5): request(rng, mon, v, ref, op)
  if chain: mon.sample(' | '.join(mon.context))

STEPS = {}
def step(f): STEPS[f.__name__[2:]] = f; return f

@step
def s_transpose(rng, mon, v, ref):
  n = v.naxes
  if n < 1: return None
  p = vlib.perm(rng, n); k = int(rng.integers(1, n + 1))
  ids = [axid(rng, v, ref, j) for j in p[:k]]
  full = p[:k] + [j for j in range(n) if j not in p[:k]]
  w = mon.op('transpose', lambda: v.transpose(*ids))
  out = ref.copy(); out.data = ref.data.transpose(full); out.axes = [ref.axes[j] for j in full]
  return w, out, 'transpose(%s)' % (ids,)

@step
def s_squeeze(rng, mon, v, ref):
  n = v.naxes
  ones = [j for j in range(n) if len(ref.axes[j]['values']) == 1]
  kind = choice(rng, ['all', 'some', 'list', 'select'])
  if kind == 'all': drop = ones; f = lambda: v.squeeze()
  elif kind in ('some', 'list'):
    if n == 0: return None
    js = vlib.perm(rng, n)[:int(rng.integers(1, n + 1))]; ids = [axid(rng, v, ref, j) for j in js]
    drop = [j for j in js if j in ones]           # longer axes are documented to stay
    f = (lambda: v.squeeze(*ids)) if kind == 'some' else (lambda: v.squeeze(ids))
  else:
    c = [j for j in range(n) if ref.axes[j]['values'].dtype.kind in 'fi' and ref.axes[j]['type'].__name__ in ('XAxis', 'YAxis', 'NamedAxis', 'Lat', 'Lon', 'Pres', 'Height') and [r['name'] for r in ref.axes].count(ref.axes[j]['name']) == 1]
    c = [j for j in c if not any(ref.axes[j]['name'] in r['aux'] for r in ref.axes)]   # the name would also select by that array
    if not c or not distinct(ref): return None
    j = choice(rng, c); m = int(rng.integers(0, len(ref.axes[j]['values'])))
    val = ref.axes[j]['values'][m].item(); nm = ref.axes[j]['name']
    w = mon.op('squeeze', lambda: v.squeeze(**{nm: val}))
    out = ref.copy(); out.data = np.take(ref.data, m, axis=j); out.axes = [r for q, r in enumerate(ref.axes) if q != j]
    # other axes are only squeezed when no axis is named
    others = [q for q in ones if q != j]
    if others:
      # 'squeeze()' without positional axes removes every degenerate axis
      out.data = out.data.reshape([len(r['values']) for q, r in enumerate(ref.axes) if q != j and q not in others])
      out.axes = [r for q, r in enumerate(ref.axes) if q != j and q not in others]
    return w, out, 'squeeze(%s=%s)' % (nm, val)
  w = mon.op('squeeze', f)
  out = ref.copy(); out.axes = [r for j, r in enumerate(ref.axes) if j not in drop]
  out.data = ref.data.reshape([len(r['values']) for r in out.axes])
  return w, out, 'squeeze[%s]%s' % (kind, drop)

@step
def s_extend(rng, mon, v, ref):
  if v.naxes > 4: return None
  from pygeode.axis import NamedAxis
  names = [x for x in ['xx', 'yy', 'zz', 'ww'] if all(r['name'] != x for r in ref.axes)]
  new = [NamedAxis(np.round(rng.normal(0, 5, int(rng.integers(1, 4))), 2), name=q) for q in names[:int(rng.integers(1, 3))]]
  if not new: return None
  pos = int(rng.integers(0, v.naxes + 1))
  w = mon.op('extend', (lambda: v.extend(pos, *new)) if chance(rng, .5) else (lambda: v.extend(pos, new)))
  out = ref.copy(); out.axes = ref.axes[:pos] + [record(a) for a in new] + ref.axes[pos:]
  shp = ref.data.shape
  out.data = np.array(np.broadcast_to(ref.data.reshape(shp[:pos] + (1,) * len(new) + shp[pos:]), shp[:pos] + tuple(len(a) for a in new) + shp[pos:]))
  return w, out, 'extend(%d,%s)' % (pos, [len(a) for a in new])

@step
def s_sorted(rng, mon, v, ref):
  n = v.naxes
  names = [r['name'] for r in ref.axes]
  c = [j for j in range(n) if ref.axes[j]['type'].__name__ not in ('Station', 'Index') and len(set(map(float, ref.axes[j]['values']))) == len(ref.axes[j]['values'])]
  if not distinct(ref): return None
  kind = choice(rng, ['one', 'kw', 'none'])
  import pygeode.axis as A
  todo = {}
  if kind == 'none':
    if len(c) < n or n == 0: return None
    todo = {j: 0 for j in range(n)}; f = lambda: v.sorted()
  elif kind == 'one':
    if not c: return None
    js = [c[q] for q in vlib.perm(rng, len(c))[:2]]; todo = {j: 0 for j in js}
    ids = [axid(rng, v, ref, j) for j in js]; f = lambda: v.sorted(*ids)
  else:
    js = [j for j in c if names.count(names[j]) == 1]
    if not js: return None
    js = [js[q] for q in vlib.perm(rng, len(js))[:2]]
    todo = {j: int(choice(rng, [1, -1, 0])) for j in js}
    kw = {names[j]: o for j, o in todo.items()}; f = lambda: v.sorted(**kw)
  # natural order: increasing, except classes that say otherwise (plotorder)
  out = ref.copy(); data = ref.data
  for j, o in todo.items():
    if o == 0: o = 1 if ref.axes[j]['plotatts'].get('plotorder', 1) >= 0 else -1
    idx = np.argsort(ref.axes[j]['values'], kind='stable')
    if o < 0: idx = idx[::-1]
    out.axes[j] = take(ref.axes[j], idx); data = np.take(data, idx, axis=j)
  out.data = data
  w = mon.op('sorted', f); mon.hit('sorts')
  return w, out, 'sorted[%s]%s' % (kind, todo)

@step
def s_rename(rng, mon, v, ref):
  nm = choice(rng, ['a1', 'b2', 'T'])
  out = ref.copy(); out.name = nm
  return mon.op('rename', lambda: v.rename(nm)), out, 'rename(%s)' % nm

@step
def s_rename_axes(rng, mon, v, ref):
  names = [r['name'] for r in ref.axes]
  c = [j for j in range(v.naxes) if names.count(names[j]) == 1]
  if not c: return None
  js = [c[q] for q in vlib.perm(rng, len(c))[:2]]
  new = {names[j]: nm for j, nm in zip(js, ['q1', 'q2']) if nm not in names}
  if not new: return None
  kw = dict(new)
  if chance(rng, .3): kw.update(nonexistent='q9', ignore_mismatch=True)
  w = mon.op('rename_axes', (lambda: v.rename_axes(**kw)) if chance(rng, .6) else (lambda: v.rename_axes(axisdict=dict(new))))
  out = ref.copy()
  for q, r in enumerate(out.axes):
    if r['name'] in new: out.axes[q] = dict(r, name=new[r['name']])
  return w, out, 'rename_axes(%s)' % new

@step
def s_replace(rng, mon, v, ref):
  from pygeode.axis import NamedAxis, XAxis, YAxis, Lat, Pres
  names = [r['name'] for r in ref.axes]
  c = [j for j in range(v.naxes) if names.count(names[j]) == 1]
  if not c: return None
  j = choice(rng, c); n = v.shape[j]
  used = {q for k in (XAxis, YAxis, Lat, Pres) for q in (k,) for r in ref.axes if issubclass(r['type'], k) or issubclass(k, r['type'])}
  mon.hit('replaced')
  out = ref.copy()
  kind = choice(rng, ['axis', 'axis', 'list', 'class'])
  fresh = [x for x in ['r1', 'r2', 'r3'] if x not in names]
  if kind == 'class':
    cls = [k for k in (XAxis, YAxis, Lat, Pres) if k not in used and k.name not in names]
    r = ref.axes[j]
    if not cls or r['aux'] or r['auxatts'] or r['values'].dtype.kind not in 'fi' or r['type'].__name__ in ('Index', 'Station'): return None
    k = choice(rng, cls)
    if k is Lat and np.abs(r['values']).max() > 90: return None
    keep = chance(rng, .5); kwk = {} if keep and chance(rng, .5) else dict(keep_old_name=keep)
    w = mon.op('replace_axes', lambda: v.replace_axes({names[j]: k}, **kwk))
    a = k(r['values'], name=names[j] if keep else k.name)
    out.axes[j] = record(a); mon.hit('class_replacements')
    # the class's own name is used when the old one is not kept
    return w, out, 'replace_axes(%s -> %s, keep=%s)' % (names[j], k.__name__, keep)
  if not fresh: return None
  a = NamedAxis(np.round(np.cumsum(rng.uniform(.1, 3, n)), 3), name=fresh[0])
  if kind == 'axis':
    w = mon.op('replace_axes', (lambda: v.replace_axes({names[j]: a}, keep_old_name=False)) if chance(rng, .5) else
       (lambda: v.replace_axes(keep_old_name=False, ignore_mismatch=True, nonexistent=a, **{names[j]: a})))
    out.axes[j] = record(a)
  else:
    new = list(v.axes); new[j] = a; given = list(new); form = chance(rng, .5)
    w = mon.op('replace_axes', lambda: v.replace_axes(newaxes=given if form else tuple(given)))
    mon.check(len(given) == len(new) and all(p is q for p, q in zip(given, new)), 'newaxes-modified', 'replace_axes changed the list it was given')
    out.axes[j] = record(a)
  return w, out, 'replace_axes[%s](%s)' % (kind, names[j])

@step
def s_fill(rng, mon, v, ref):
  if ref.data.dtype.kind not in 'fc': return None
  val = choice(rng, [0, -999., 1e20, 3])
  out = ref.copy(); out.data = np.array(ref.data); out.data[np.isnan(out.data)] = val
  mon.hit('fills')
  return mon.op('fill', lambda: v.fill(val)), out, 'fill(%s)' % val

@step
def s_unfill(rng, mon, v, ref):
  k = ref.data.dtype.kind
  val = choice(rng, list(np.unique(ref.data.ravel())[:3]) + [5]) if ref.data.size else 5
  if val != val or k == 'c': return None
  val = np.asarray(val).item()
  out = ref.copy()
  dt = ref.data.dtype if k == 'f' else np.result_type(ref.data.dtype, 'f4')
  out.data = np.array(ref.data, dt); out.data[ref.data == val] = np.nan
  w = mon.op('unfill', lambda: v.unfill(val))
  if k != 'f' and w.dtype != dt and w.dtype.kind == 'f': out.data = out.data.astype(w.dtype) if np.array_equal(out.data.astype(w.dtype).astype('d'), out.data.astype('d'), equal_nan=True) else out.data
  mon.hit('fills')
  return w, out, 'unfill(%r)' % val

@step
def s_cast(rng, mon, v, ref):
  src = ref.data.dtype
  dts = {'f': ['f4', 'f8'], 'i': ['f4', 'f8', 'i8', 'i4'], 'u': ['f4', 'i4', 'u1'], 'b': ['f8', 'i4', '?'], 'c': ['c16']}[src.kind]
  dt = np.dtype(choice(rng, dts))
  out = ref.copy(); out.data = ref.data.astype(dt)
  mon.hit('casts')
  arg = choice(rng, [dt, dt.type, dt.str])
  return mon.op('as_type', lambda: v.as_type(arg)), out, 'as_type(%s)' % dt

@step
def s_slice(rng, mon, v, ref):
  if v.naxes == 0 or not distinct(ref): return None
  sels = [vlib.random_selector(rng, n) for n in v.shape]
  w = mon.op('slice', lambda: v.slice[tuple(s for s, _ in sels)])
  out = ref.copy(); out.data = vlib.fullsel(ref.data, [q for _, q in sels]); out.axes = [take(r, q) for r, (_, q) in zip(ref.axes, sels)]
  if any(r['type'].__name__ == 'Index' for r in ref.axes): pass
  return w, out, 'slice%s' % (tuple(s for s, _ in sels),)

@step
def s_inverse(rng, mon, v, ref):
  """A pair of operations which cancel."""
  n = v.naxes; names = [r['name'] for r in ref.axes]
  k = choice(rng, ['transpose', 'extend', 'rename', 'rename_axes', 'replace', 'fill', 'reverse', 'cast', 'sort'])
  same = ref.copy()
  if k == 'transpose':
    if n < 2: return None
    p = vlib.perm(rng, n); w = mon.op('inverse', lambda: v.transpose(*p).transpose(*[p.index(j) for j in range(n)]))
  elif k == 'extend':
    from pygeode.axis import NamedAxis
    if 'e1' in names: return None
    pos = int(rng.integers(0, n + 1)); w = mon.op('inverse', lambda: v.extend(pos, NamedAxis([3.], name='e1')).squeeze('e1'))
  elif k == 'rename': w = mon.op('inverse', lambda: v.rename('tmp').rename(ref.name))
  elif k == 'rename_axes':
    if not n or 'tmp1' in names: return None
    j = int(rng.integers(0, n))
    if names.count(names[j]) > 1: return None
    w = mon.op('inverse', lambda: v.rename_axes(**{names[j]: 'tmp1'}).rename_axes(tmp1=names[j]))
  elif k == 'replace':
    from pygeode.axis import NamedAxis
    if not n or 'tmp2' in names: return None
    j = int(rng.integers(0, n))
    if names.count(names[j]) > 1: return None
    w = mon.op('inverse', lambda: v.replace_axes({names[j]: NamedAxis(np.arange(v.shape[j]) * 1., name='tmp2')}, keep_old_name=False).replace_axes({'tmp2': v.axes[j]}, keep_old_name=False))
  elif k == 'fill':
    if ref.data.dtype.kind != 'f' or (ref.data == -12345.).any(): return None
    w = mon.op('inverse', lambda: v.fill(-12345.).unfill(-12345.))
  elif k == 'reverse':
    if not n or not distinct(ref): return None
    R = slice(None, None, -1)
    if any(r['type'].__name__ == 'Station' for r in ref.axes): return None
    w = mon.op('inverse', lambda: v.slice[(R,) * n].slice[(R,) * n])
  elif k == 'cast':
    if ref.data.dtype.kind not in 'iu' or ref.data.dtype.itemsize > 4: return None
    w = mon.op('inverse', lambda: v.as_type('d').as_type(ref.data.dtype))
  else:
    if not n or not distinct(ref): return None
    j = int(rng.integers(0, n)); x = ref.axes[j]['values']
    if names.count(names[j]) > 1 or ref.axes[j]['type'].__name__ in ('Station', 'Index') or len(x) < 2: return None
    d = np.diff(x.astype('d'))
    if not (np.all(d > 0) or np.all(d < 0)): return None
    o = 1 if d[0] > 0 else -1
    w = mon.op('inverse', lambda: v.sorted(**{names[j]: -o}).sorted(**{names[j]: o}))
  mon.hit('inverses')
  return w, same, 'inverse:' + k

@step
def s_refuse(rng, mon, v, ref):
  """Requests which cannot be satisfied."""
  from pygeode.axis import NamedAxis
  n = v.naxes
  k = choice(rng, ['transpose', 'squeeze', 'sorted', 'replace', 'length', 'count', 'rename_axes', 'order'])
  mon.hit('refusals')
  if k == 'transpose': mon.raises(lambda: v.transpose('nosuch').get(), 'refuse', 'transpose onto an unknown axis')
  elif k == 'squeeze': mon.raises(lambda: v.squeeze('nosuch').get(), 'refuse', 'squeeze of an unknown axis')
  elif k == 'sorted': mon.raises(lambda: v.sorted(nosuch=1).get(), 'refuse', 'sorting an unknown axis')
  elif k == 'replace': mon.raises(lambda: v.replace_axes(nosuch=NamedAxis(3, name='x')).get(), 'refuse', 'replacing an unknown axis')
  elif k == 'rename_axes': mon.raises(lambda: v.rename_axes(nosuch='y').get(), 'refuse', 'renaming an unknown axis')
  elif n == 0: return None
  elif k == 'order': mon.raises(lambda: v.sorted(**{ref.axes[0]['name']: 2}).get(), 'refuse', 'sorting in order 2')
  elif k == 'length': mon.raises(lambda: v.replace_axes({ref.axes[0]['name']: NamedAxis(v.shape[0] + 1, name='x')}).get(), 'refuse', 'replacing an axis by a longer one')
  else: mon.raises(lambda: v.replace_axes(newaxes=list(v.axes)[:-1]).get(), 'refuse', 'replacing axes by fewer')
  return None

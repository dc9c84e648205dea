"""C22: datasets behave as ordered collections of consistently-axed variables."""
N_QUICK = 12000
N_THOROUGH = 40000
BUDGET_QUICK = 70
BUDGET_THOROUGH = 700
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: random histories of dataset operations are run next to an ordered model (name, axes, data, attributes); after every operation the result is compared with the model and all earlier datasets with their snapshots'
RULE = ('a case is a history of 3-10 operations (construct, add, remove, rename, replace, copy, select, map, methods, concatenate, merge) on a pool of datasets of 0-6 variables with shared, equal and clashing axes and names; '
        'non-trivial: the dataset is not empty; distinct by (operation, number of variables, clashes, axis kinds)')
REQUIRE = {'operations': 15000, 'datasets': 15000, 'name_clashes': 3000, 'axis_clashes': 900, 'variables': 45000, 'snapshots': 40000, 'mapped': 1400, 'methods': 1400, 'selected': 900, 'concat': 400, 'refused': 700}
ASSUMPTIONS = ['numpy is correct', 'equal axes of one name are shared; when equal axes carry different attributes, the first one is kept']
import warnings
import numpy as np
import vlib
from vlib import choice, chance

class M(object):
  """model of one variable"""
  def __init__(self, name, axes, Y, atts): self.name, self.axes, self.Y, self.atts = name, list(axes), Y, dict(atts)
  def but(self, **k):
    m = M(self.name, self.axes, self.Y, self.atts)
    for q, w in k.items(): setattr(m, q, w)
    return m

KINDS = ['Lat', 'Lon', 'Pres', 'StandardTime', 'NamedAxis', 'Station', 'Hybrid', 'Yearless']
def axis_pool(rng):
  pool = []
  for _ in range(int(rng.integers(2, 6))):
    k = choice(rng, KINDS); pool.append(vlib.make_axis(rng, k, int(rng.integers(1, 5)), order=choice(rng, ['inc', 'dec']) if k not in ('StandardTime', 'Yearless') else None))
  if chance(rng, .5): a = choice(rng, pool); pool.append(a.slice[:] if chance(rng, .5) else a.rename(a.name))       # an equal one
  return pool

def group(a): return vlib.GROUP[type(a).__name__]
def make(rng, pool, name=None):
  use = []
  for q in rng.permutation(len(pool))[:int(rng.integers(0, 4))]:
    a = pool[int(q)]
    if a.name not in [b.name for b in use] and group(a) not in [group(b) for b in use]: use.append(a)
  shape = [len(a) for a in use]; Y = vlib.make_values(rng, shape, choice(rng, ['d', 'd', 'f', 'i4']))
  nm = name or choice(rng, ['T', 'U', 'V', 'T', 'Z1', 'x_y', 'T01'])
  at = {'units': choice(rng, ['K', 'm'])} if chance(rng, .5) else {}
  if chance(rng, .4): at['note'] = 'n%d' % int(rng.integers(9))
  return vlib.make_var(rng, use, Y, name=nm, atts=at), M(nm, use, Y, at)

def plain(ds, a):
  """the name of a means only a, in all variables"""
  return all(any(b is a for b in v.axes) or not v.hasaxis(a.name) for v in ds.vars) and not any(a.name in b.auxarrays for b in ds.axes)

def snap(ds): return [dict(ds.atts), [id(v) for v in ds.vars], [v.name for v in ds.vars], list(ds.vardict), [id(a) for a in ds.axes], [a.name for a in ds.axes], list(ds.axisdict),
                      [(dict(v.atts), [a.name for a in v.axes], v.shape) for v in ds.vars]]

def agree(rng, ds, models, atts, mon, lab, sig, loose_atts=None, exact=False, deep=True):
  """ds must hold exactly the modelled variables. exact: the names are given (no clash resolution expected)."""
  from pygeode.dataset import Dataset
  mon.hit('datasets'); sig = sig + (len(models),) if models else ()
  if not mon.check(isinstance(ds, Dataset) and len(ds.vars) == len(models), 'count', '%s: %d variables, expected %d (%s)' % (lab, len(ds.vars), len(models), [m.name for m in models]), *sig): return False
  names = [v.name for v in ds.vars]; want = [m.name for m in models]
  ok = mon.check(len(set(names)) == len(names), 'unique', '%s: names %s' % (lab, names), *sig)
  clash = {n for n in want if want.count(n) > 1}
  if clash: mon.hit('name_clashes')
  for n, w in zip(names, want):
    ok &= mon.check(n == w if w not in clash else n.startswith(w), 'name', '%s: names %s, expected %s' % (lab, names, want), *sig)
  ok &= mon.check(list(ds) == list(ds.vars) if not ds.vars else all(p is q for p, q in zip(ds, ds.vars)), 'iteration', '%s: iteration differs from vars' % lab, *sig)
  ok &= mon.check(sorted(ds.vardict) == sorted(names) and all(ds[v.name] is v and ds.vardict[v.name] is v and v.name in ds and (not v.name.isidentifier() or hasattr(type(ds), v.name) or getattr(ds, v.name) is v) for v in ds.vars), 'lookup', '%s: lookup by name, %s' % (lab, list(ds.vardict)), *sig)
  # axes: one object for each name; equal axes shared; different ones renamed apart
  seen = {}
  for v, m in zip(ds.vars, models):
    mon.hit('variables')
    if not mon.check(len(v.axes) == len(m.axes) and v.shape == m.Y.shape, 'shape', '%s: %s%s, expected %s%s' % (lab, v.name, [a.name for a in v.axes], m.name, [a.name for a in m.axes]), *sig): return False
    for a, b in zip(v.axes, m.axes):
      mon.check(a.name not in seen or seen[a.name] is a, 'shared', '%s: two axes called %s' % (lab, a.name), *sig); seen[a.name] = a
      mon.check(type(a) is type(b) and (a == b or a.name != b.name) and np.array_equal(np.asarray(a.values), np.asarray(b.values)), 'axis', '%s: axis %s of %s is %r, expected %r' % (lab, b.name, m.name, a, b), *sig)
    ok &= mon.check(vlib.same_tree(dict(v.atts), m.atts), 'atts', '%s: attributes of %s are %s, expected %s' % (lab, v.name, v.atts, m.atts), *sig)
    if deep and chance(rng, .4): mon.same(mon.op('get', lambda: v.get()), m.Y, 'values', '%s: %s' % (lab, v.name), sig=sig, **tol(m.Y))
  byname = {}
  for m in models:
    for b in m.axes:
      l = byname.setdefault(b.name, [])
      if not any(b is c or b == c for c in l): l.append(b)
  for n, l in byname.items():
    got = {id(a): a for v, m in zip(ds.vars, models) for a, b in zip(v.axes, m.axes) if b.name == n}
    if len(l) > 1: mon.hit('axis_clashes')
    ok &= mon.check(len(got) == len(l), 'shared', '%s: %d different axes called %s became %d' % (lab, len(l), n, len(got)), *sig)
    for a in got.values(): mon.check(a.name == n if len(l) == 1 else a.name.startswith(n), 'axis-name', '%s: axis %s became %s' % (lab, n, a.name), *sig)
  ok &= mon.check({id(a) for a in ds.axes} == {id(a) for v in ds.vars for a in v.axes} and len(ds.axes) == len(seen), 'axes', '%s: axes %s of variables with %s' % (lab, ds.axes, list(seen)), *sig)
  ok &= mon.check(all(ds.hasaxis(a.name) and ds.getaxis(a.name) is a and a.name in ds and (a.name in ds.vardict or ds[a.name] is a) for a in ds.axes), 'axis-lookup', '%s: lookup of axes' % lab, *sig)
  if atts is not None: ok &= mon.check(vlib.same_tree(dict(ds.atts), dict(atts)), 'global', '%s: global attributes %s, expected %s' % (lab, ds.atts, atts), *sig)
  elif loose_atts is not None:
    a, b = loose_atts; ok &= mon.check(all(k in ds.atts and ds.atts[k] == w for k, w in a.items() if b.get(k) == w) and all(k in a or k in b for k in ds.atts), 'global', '%s: global attributes %s of %s and %s' % (lab, ds.atts, a, b), *sig)
  return True

def new_names(old, new): return '(' in old or '(' in new

def tol(Y): return {'rtol': 4e-6, 'atol': 4e-6} if Y.dtype == 'f' else {}

def observed(ds, models):
  """After clash resolution the names and axes are those of the dataset."""
  return [m.but(name=v.name, axes=v.axes) for v, m in zip(ds.vars, models)]

def case(rng, i, mon):
  import pygeode as pyg
  mon.context[:] = []
  with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    history(rng, mon) if i % 8 else joins(rng, mon)

def history(rng, mon):
  import pygeode as pyg
  from pygeode.var import Var
  pool = axis_pool(rng); state = []; hist = []
  def build(k=None):
    mods = [make(rng, pool) for _ in range(int(rng.integers(0, 5)) if k is None else k)]
    at = {'title': choice(rng, ['a', 'b']), 'n': int(rng.integers(5))} if chance(rng, .6) else {}
    given = list(v for v, m in mods); before = [id(v) for v in given]
    d = mon.op('Dataset', lambda: pyg.Dataset(given, atts=at, print_warnings=False))
    mon.check([id(v) for v in given] == before and [v.name for v in given] == [m.name for v, m in mods], 'arguments', 'the list or variables given were changed')
    return d, [m for v, m in mods], at
  def put(lab, ds, models, atts, loose=None):
    hist.append(lab); mon.context[:] = [' ; '.join(hist)]
    if not agree(rng, ds, models, atts, mon, lab, (lab.split(' ')[0], sorted(set(type(a).__name__ for m in models for a in m.axes))), loose): raise vlib.Stop()
    for d, s, q, w in state:
      mon.hit('snapshots'); mon.check(vlib.same_tree(snap(d), s), 'original', '%s changed an existing dataset' % lab)
    state.append((ds, snap(ds), observed(ds, models), dict(ds.atts)))
    if len(state) > 5: state.pop(0)
  d, m, at = build(); put('construct %s' % [(q.name, [a.name for a in q.axes]) for q in m], d, m, at)
  for _ in range(int(rng.integers(3, 10))):
    mon.hit('operations'); ds, _, ms, at = choice(rng, state)
    op = choice(rng, ['construct', 'add', 'add', 'add', 'remove', 'rename_vars', 'replace_vars', 'rename_axes', 'replace_axes', 'copy', 'select', 'select', 'map', 'map', 'method', 'method', 'merge', 'merge', 'asdataset', 'refuse', 'var'])
    if op == 'construct': d, m, a2 = build(); put(op, d, m, a2)
    elif op in ('add', 'var'):
      new = [make(rng, pool) for _ in range(int(rng.integers(1, 4)))]
      how = choice(rng, ['add', '+', 'r+', '+one'])
      if how == '+one': new = new[:1]
      vs = [v for v, q in new]
      r = mon.op('add', lambda: ds.add(*vs) if how == 'add' else ds + vs if how == '+' else vs + ds if how == 'r+' and False else ds + vs[0] if how == '+one' else ds + tuple(vs))
      put('add %s' % [q.name for v, q in new], r, ms + [q for v, q in new], at)
    elif op == 'merge':
      other, _, m2, a2 = choice(rng, state)
      how = choice(rng, ['add', '+', 'asdataset', 'mixed'])
      if how == 'mixed':
        v, q = make(rng, pool); r = mon.op('asdataset', lambda: pyg.asdataset([ds, v, other])); m2 = None
        names = [x.name for x in r.vars]
        if not mon.check(len(r.vars) == len(ms) + 1 + len(other.vars), 'count', 'asdataset([ds, v, ds2]) of %d+1+%d variables gave %s' % (len(ms), len(other.vars), names), 'mixed'): return
        continue
      r = mon.op(how, lambda: ds.add(other) if how == 'add' else ds + other if how == '+' else pyg.asdataset([ds, other]))
      put('merge %s and %s' % ([q.name for q in ms], [q.name for q in m2]), r, ms + m2, None, (at, a2))
    elif op == 'remove':
      names = [q.name for q in ms if chance(rng, .4)]
      r = mon.op('remove', lambda: ds.remove(*names) if chance(rng, .5) else ds - names if chance(rng, .6) or len(names) != 1 else ds - names[0])
      put('remove %s' % names, r, [q for q in ms if q.name not in names], at)
    elif op == 'rename_vars':
      names = {q.name: choice(rng, ['A', 'B', 'C', 'T', 'U']) for q in ms if chance(rng, .5)}
      r = mon.op('rename_vars', lambda: ds.rename_vars(names) if chance(rng, .5) else ds.rename_vars(**names))
      put('rename_vars %s' % names, r, [q.but(name=names.get(q.name, q.name)) for q in ms], at)
    elif op == 'replace_vars':
      new = {q.name: make(rng, pool, q.name) for q in ms if chance(rng, .4)}
      r = mon.op('replace_vars', lambda: ds.replace_vars({n: v for n, (v, q) in new.items()}) if chance(rng, .5) else ds.replace_vars(**{n: v for n, (v, q) in new.items()}))
      put('replace_vars %s' % list(new), r, [new[q.name][1] if q.name in new else q for q in ms], at)
    elif op == 'rename_axes':
      if not ds.axes: continue
      a = choice(rng, ds.axes); nn = choice(rng, ['axA', 'axB', 'axC'])
      if nn in [b.name for b in ds.axes] or not plain(ds, a): continue
      new = a.rename(nn); form = chance(rng, .5)
      r = mon.op('rename_axes', lambda: ds.rename_axes(axisdict={a.name: nn}) if form else ds.rename_axes(**{a.name: nn}))
      put('rename_axes %s %s' % (a.name, nn), r, [q.but(axes=[new if b is a else b for b in q.axes]) for q in ms], at)
    elif op == 'replace_axes':
      if not ds.axes: continue
      a = choice(rng, ds.axes); from pygeode.axis import Height
      if not plain(ds, a) or any(any(b is a for b in v.axes) and any(b is not a and group(b) == 'Z' for b in v.axes) for v in ds.vars): continue
      new = Height(np.arange(len(a)) * 3. + 1., name=a.name)
      r = mon.op('replace_axes', lambda: ds.replace_axes({a.name: new}))
      put('replace_axes %s' % a.name, r, [q.but(axes=[new if b is a else b for b in q.axes]) for q in ms], at)
    elif op == 'copy':
      r = mon.op('copy', lambda: ds.copy() if chance(rng, .5) else pyg.asdataset(ds, copy=True)); put('copy', r, ms, at)
      # changing the copy leaves the original alone
      r.atts['changed'] = 1; r.vars.append(None); r.vars.pop(); r.vardict['zz'] = 1; del r.vardict['zz']
      mon.check('changed' not in ds.atts, 'copy', 'attributes of the copy are those of the original'); del r.atts['changed']
    elif op == 'asdataset':
      vs = list(ds.vars); r = mon.op('asdataset', lambda: pyg.asdataset(vs if chance(rng, .6) else vs[0] if len(vs) == 1 else tuple(vs), print_warnings=False)); put('asdataset', r, ms, {})
      mon.check(len(vs) == len(ms), 'arguments', 'asdataset changed its argument')
    elif op == 'select':
      ax = [a for a in ds.axes if group(a) in 'YXZN' and type(a).__name__ != 'Station' and plain(ds, a)]
      if not ax: continue
      mon.hit('selected'); a = choice(rng, ax); v = np.asarray(a.values); lo, hi = sorted(float(q) for q in rng.choice(v, 2))
      one = chance(rng, .3); keep = np.where((v >= lo) & (v <= hi))[0] if not one else np.where(v == lo)[0]
      r = mon.op('select', lambda: ds(**{a.name: lo if one else (lo, hi)})); new = a.slice[keep]
      put('select %s=%s..%s' % (a.name, lo, hi), r, [q.but(axes=[new if b is a else b for b in q.axes], Y=np.take(q.Y, keep, [k for k, b in enumerate(q.axes) if b is a][0]) if any(b is a for b in q.axes) else q.Y) for q in ms], at)
    elif op == 'map':
      mon.hit('mapped'); k = int(rng.integers(5)); drop = {q.name for q in ms if chance(rng, .3)}
      if k == 0: r = mon.op('map', lambda: ds.map(lambda v: v * 2)); new = [q.but(Y=q.Y * 2) for q in ms]
      elif k == 1: r = mon.op('map', lambda: ds.map(lambda v, f, g=1: v + (f + g), 2, g=3)); new = [q.but(Y=q.Y + 5) for q in ms]
      elif k == 2: r = mon.op('map', lambda: ds.map(lambda v: None if v.name in drop else v)); new = [q for q in ms if q.name not in drop]
      elif k == 3: r = mon.op('map', lambda: ds.map('load')); new = ms
      else:
        import functools
        f = functools.partial(lambda c, v: v - c, 4); r = mon.op('map', lambda: ds.map(f)); new = [q.but(Y=q.Y - 4) for q in ms]
      if k in (0, 1, 4): new = [q.but(atts=dict(v.atts), name=v.name if new_names(q.name, v.name) else q.name) for q, v in zip(new, r.vars)]       # C08 decides these
      put('map %d' % k, r, new, at)
    elif op == 'method':
      mon.hit('methods'); k = choice(rng, ['absolute', 'squeeze', 'sorted', 'rename', 'load', 'exp', 'as_type', 'sqrt', 'sign'])
      args = ()
      if k == 'as_type': args = ('d',)
      r = mon.op(k, lambda: getattr(ds, k)('new' if k == 'rename' else args[0]) if k in ('rename', 'as_type') else getattr(ds, k)())
      each = [mon.op(k, lambda: getattr(v, k)(*(('new',) if k == 'rename' else args))) for v in ds.vars]
      put('method %s' % k, r, [M(e.name, e.axes, e.get(), e.atts) for e in each], at)
    elif op == 'refuse':
      mon.hit('refused'); miss = 'nosuch'
      mon.raises(lambda: ds.remove(miss), 'refuse', 'removing an unknown variable'); mon.raises(lambda: ds[miss], 'refuse', 'looking up an unknown name', (KeyError,))
      mon.raises(lambda: getattr(ds, miss), 'refuse', 'unknown attribute', (AttributeError,)); mon.check(miss not in ds and not ds.hasaxis(miss), 'refuse', 'holds an unknown name')
      mon.raises(lambda: pyg.Dataset([1]), 'refuse', 'a dataset of a number'); mon.raises(lambda: ds.add('x'), 'refuse', 'adding text')
      mon.raises(lambda: ds.map(lambda v: 3), 'refuse', 'mapping to numbers') if ms else None
  mon.sample(' ; '.join(hist))
  for ds, s, ms, at in state:
    for v, q in zip(ds.vars, ms): mon.same(mon.op('get', lambda: v.get()), q.Y, 'final', 'after %s: %s' % ('; '.join(hist), v.name), **tol(q.Y))

def joins(rng, mon):
  """Datasets cut along an axis and joined again."""
  import pygeode as pyg
  from pygeode import dataset as DS
  k = choice(rng, ['Lat', 'Lon', 'Pres', 'StandardTime', 'ModelTime365', 'NamedAxis', 'Station'])
  n = int(rng.integers(2, 9)); a = vlib.make_axis(rng, k, n, order='inc'); others = [b for b in axis_pool(rng) if group(b) != group(a) and b.name != a.name][:2]
  if len({b.name for b in others}) < len(others) or len({group(b) for b in others}) < len(others): others = others[:1]
  names = ['T', 'U', 'V'][:int(rng.integers(1, 4))]; full = {}; axs = {}
  for nm in names:
    use = [b for b in others if chance(rng, .6)]; use.insert(int(rng.integers(0, len(use) + 1)), a); axs[nm] = use
    full[nm] = vlib.make_values(rng, [len(b) for b in use], choice(rng, ['d', 'f', 'i4']))
  at0 = {'units': 'K'}
  ds = pyg.Dataset([vlib.make_var(rng, axs[nm], full[nm], name=nm, atts=at0) for nm in names], atts={'title': 'x', 'p': 1}, print_warnings=False)
  cuts = sorted(int(q) for q in rng.choice(np.arange(1, n), int(rng.integers(1, min(4, n))), False)); bounds = [0] + cuts + [n]
  parts = [mon.op('cut', lambda: ds.map(lambda v: v.slice[tuple(slice(lo, hi) if b.name == a.name else slice(None) for b in v.axes)])) for lo, hi in zip(bounds[:-1], bounds[1:])]
  for j, p in enumerate(parts): p.atts['p'] = j
  snaps = [snap(p) for p in parts]
  lab = 'concat of %s cut at %s along %s' % ([(nm, [b.name for b in axs[nm]]) for nm in names], cuts, a); mon.context[:] = [lab]; mon.hit('concat'); mon.hit('operations')
  r = mon.op('concat', lambda: DS.concat(*parts) if chance(rng, .5) else DS.concat(parts))
  ms = [M(nm, axs[nm], full[nm], at0) for nm in names]
  agree(rng, r, ms, {'title': 'x'} if len(parts) > 1 else None, mon, lab, ('concat', k, len(parts)))
  for v, m in zip(r.vars, ms):
    sel = [vlib.random_selector(rng, q) for q in m.Y.shape]
    mon.same(mon.op('get', lambda: v.get()), m.Y, 'joined', v.name, sig=('concat', k)); mon.same(mon.op('part', lambda: v.slice[tuple(s for s, ix in sel)].get()), m.Y[np.ix_(*[ix for s, ix in sel])], 'joined', v.name, sig=('concat', k, 'part'))
  mon.check(all(vlib.same_tree(snap(p), s) for p, s in zip(parts, snaps)), 'original', 'joining changed the parts')
  # variables held by only some of the datasets are kept
  extra, q = make(rng, others, 'only'); p2 = [parts[0] + extra] + parts[1:]; r = mon.op('concat', lambda: DS.concat(*p2))
  agree(rng, r, ms[:0] + ms + [q], None, mon, lab + ' with one more', ('concat+', k, len(parts)))

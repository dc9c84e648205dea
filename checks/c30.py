"""C30: collections found by scanning files hold the stored data."""
N_QUICK = 4800
N_THOROUGH = 30000
BUDGET_QUICK = 60
BUDGET_THOROUGH = 700
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: random universes of coordinates are cut into files; the datasets found by the scanner are compared with the set of all maximal boxes of stored points, and their data, under random requests, '
             'with the function the files were written from; a monitor on the opener records which files are opened; manifests are re-used over histories of added, changed and deselected files')
RULE = ('a case is a set of files (in memory, or written through either back end), each with some variables over some of the coordinates, scanned into datasets; or a history of scans with one manifest file; or a query of datasets; '
        'non-trivial: data spread over two files or more; distinct by (kind, axes, number of files, variables, cut)')
REQUIRE = {'scans': 800, 'real_files': 100, 'datasets': 1800, 'reads': 8000, 'partial': 3800, 'across': 4200, 'maximal': 700, 'histories': 200, 'reused': 400, 'changed': 300, 'unopened': 550, 'queries': 200, 'descending': 330, 'aux': 150, 'mixed_dims': 65}
ASSUMPTIONS = ['the files of a collection use one reference date and unit for time, as the scanner states', 'modification times of files increase when they change (by a second or more)']
import os, shutil, tempfile, itertools, io, contextlib
import numpy as np
import vlib
from vlib import choice, chance

D = None
def case(rng, i, mon):
  global D
  mon.context[:] = []
  if D is None: D = tempfile.mkdtemp(prefix='pgverif_ds_'); import atexit; atexit.register(shutil.rmtree, D, True)
  d = os.path.join(D, 'c%d' % i); os.mkdir(d)
  try: (k_history if i % 6 == 5 else k_query if i % 6 == 4 else k_scan)(rng, d, mon)
  finally: shutil.rmtree(d, True)

# ---- universes: named dimensions with coordinates, variables as functions of them
def mkaxis(name, idx, U):
  """the axis of a dimension, at the given positions"""
  from pygeode import axis, timeaxis
  kind, vals, aux = U[name]; v = np.asarray(vals)[list(idx)]
  if kind == 'time': return timeaxis.StandardTime(values=v, units='days', startdate=aux)
  if kind == 'time365': return timeaxis.ModelTime365(values=v, units='hours', startdate=aux)
  if kind == 'lat': return axis.Lat(v)
  if kind == 'lon': return axis.Lon(v)
  if kind == 'pres': return axis.Pres(v)
  if kind == 'hybrid': return axis.Hybrid(v, A=aux[0][list(idx)], B=aux[1][list(idx)])
  return axis.NamedAxis(v, name=name)
NAMES = {'time': 'time', 'time365': 'time', 'lat': 'lat', 'lon': 'lon', 'pres': 'pres', 'hybrid': 'eta'}
def universe(rng, nd, nmax):
  U = {}; desc = False
  kinds = [choice(rng, ['time', 'time', 'time365'])] if chance(rng, .85) else []
  pool = ['lat', 'lon', 'pres', 'hybrid', 'xx', 'yy']
  while len(kinds) < nd:
    k = choice(rng, pool)
    if k in kinds or (k in ('pres', 'hybrid') and {'pres', 'hybrid'} & set(kinds)): continue
    kinds.append(k)
  for k in kinds:
    n = int(rng.integers(2, nmax + 1)); aux = None
    if k in ('time', 'time365'):
      aux = dict(year=int(rng.integers(1900, 2050)), month=int(rng.integers(1, 13)), day=int(rng.integers(1, 28)))
      vals = np.cumsum(rng.integers(1, 4, n)) * choice(rng, [1., .25]) + 40 * rng.integers(0, 5)
    elif k == 'lat': vals = np.linspace(-80, 80, 17)[np.sort(rng.permutation(17)[:n])]
    elif k == 'lon': vals = np.arange(0, 360, 30.)[np.sort(rng.permutation(12)[:n])]
    elif k in ('pres', 'hybrid'): vals = np.array([1000., 850, 500, 300, 100, 50, 10])[np.sort(rng.permutation(7)[:n])][::-1]
    else: vals = np.arange(1., 1 + n)      # (several named axes with the same coordinates)
    if k == 'hybrid': aux = (rng.integers(0, 100, n) * 1., rng.integers(0, 100, n) / 100.)
    if k not in ('time', 'time365') and chance(rng, .4):
      vals = vals[::-1]; desc = True
      if k == 'hybrid': aux = tuple(a[::-1] for a in aux)
    U[NAMES.get(k, k)] = (k, np.array(vals, 'd'), aux)
  return U, desc

def truth(var, U, dims, idx, version=0, S=0):
  """stored values of a variable at positions of its dimensions (a hash of the coordinates)"""
  out = np.zeros([len(x) for x in idx]) + (sum(map(ord, var)) % 97) * 1000. + 17 * version
  for j, (dname, x) in enumerate(zip(dims, idx)):
    w = np.asarray(U[dname][1])[list(x)] * (1.37 + .61 * sum(map(ord, dname)) % 5) 
    out = out + w.reshape([-1 if q == j else 1 for q in range(len(dims))])
  if S: out[(np.floor(out * 7) % S) == 0] = np.nan
  return out

class Files(object):
  """files of a collection: in memory (with an empty file on disk), or written"""
  def __init__(self, rng, d, U, dims, atts, real=None):
    self.d, self.U, self.dims, self.atts, self.real = d, U, dims, atts, real
    self.content = {}; self.opened = []; self.n = 0; self.S = int(choice(rng, [0, 0, 0, 7])); self.clock = 1500000000 + int(rng.integers(10 ** 6))
  def dataset(self, pieces, version, fatts):
    import pygeode as pyg
    from pygeode.var import Var
    vs = []
    for var, sel in pieces:
      dm = self.dims[var]
      ax = [mkaxis(x, sel[x], self.U) for x in dm]
      vs.append(Var(ax, values=truth(var, self.U, dm, [sel[x] for x in dm], version, self.S), name=var, atts=dict(self.atts[var], **fatts)))
    return pyg.Dataset(vs, print_warnings=False)
  def write(self, fn, pieces, version=0, fatts={}, tick=60):
    self.content[fn] = (pieces, version, fatts)
    if self.real:
      import importlib
      with contextlib.redirect_stdout(io.StringIO()): importlib.import_module('pygeode.formats.' + self.real).save(fn, self.dataset(pieces, version, fatts))
    else: open(fn, 'w').close()
    self.clock += tick; os.utime(fn, (self.clock, self.clock))
  def add(self, pieces, **kw):
    fn = os.path.join(self.d, 'f%02d.nc' % self.n); self.n += 1
    self.write(fn, pieces, **kw); return fn
  def opener(self, fn, **kw):
    self.opened.append(os.path.normpath(fn))
    if self.real:
      import importlib
      return importlib.import_module('pygeode.formats.' + self.real).open(fn)
    return self.dataset(*self.content[os.path.normpath(fn)])

def cut(rng, n, k):
  """cut positions 0..n-1 into k nonempty parts: contiguous, or scattered"""
  k = min(k, n)
  order = np.arange(n) if chance(rng, .7) else rng.permutation(n)
  b = np.sort(rng.permutation(np.arange(1, n))[:k - 1])
  return [np.sort(p) for p in np.split(order, b)]

def points(pieces, dims):
  """all (variable, position along all dimensions) of a list of pieces (same dimensions for all variables)"""
  return {(v,) + p for v, sel in pieces for p in itertools.product(*[map(int, sel[x]) for x in dims])}

def boxes(P, nd):
  """all maximal boxes of a set of points"""
  lab = [sorted({p[j] for p in P}) for j in range(nd)]
  def subsets(s):
    for r in range(1, len(s) + 1):
      for c in itertools.combinations(s, r): yield c
  # closure: choose the parts along all but one dimension (the longest), the rest follows
  L = max(range(nd), key=lambda j: len(lab[j])); rest = [j for j in range(nd) if j != L]
  fibre = {}
  for p in P: fibre.setdefault(tuple(p[j] for j in rest), set()).add(p[L])
  cand = set()
  for parts in itertools.product(*[list(subsets(lab[j])) for j in rest]):
    common = None
    for q in itertools.product(*parts):
      f = fibre.get(q)
      if not f: common = None; break
      common = f if common is None else common & f
      if not common: break
    if common:
      b = [None] * nd; b[L] = frozenset(common)
      for j, s in zip(rest, parts): b[j] = frozenset(s)
      cand.add(tuple(b))
  return {b for b in cand if not any(c != b and all(x <= y for x, y in zip(b, c)) for c in cand)}

def position(U, name, vals):
  at = np.asarray(U[name][1]); out = []
  for v in vals:
    k = np.flatnonzero(at == v)
    if len(k) != 1: return None
    out.append(int(k[0]))
  return out

def as_box(ds, U, alldims, mon, sig):
  """a dataset as (variables, positions along each dimension)"""
  b = [frozenset(v.name for v in ds.vars)]
  for x in alldims:
    a = [a for a in ds.axes if a.name == x]
    if not a: b.append(None); continue
    p = position(U, x, a[0].values)
    if not mon.check(p is not None, 'coordinates', 'axis %s has coordinates %s which are not in the files (%s)' % (x, a[0].values[:8], U[x][1]), *sig): return None
    if not mon.check(len(set(p)) == len(p), 'coordinates', 'repeated coordinates along %s: %s' % (x, a[0].values), *sig): return None
    mon.check(type(a[0]) is type(mkaxis(x, [0], U)), 'axiskind', 'axis %s is a %s' % (x, type(a[0]).__name__), *sig)
    v = np.diff(a[0].values)
    mon.check((v > 0).all() or (v < 0).all(), 'order', 'coordinates of %s are not in order: %s' % (x, a[0].values), *sig)
    w = mkaxis(x, p, U)
    for k in w.auxarrays:
      if k == 'weights' : continue
      mon.same(a[0].auxarrays.get(k, np.nan), w.auxarrays[k], 'auxarrays', 'auxiliary array %s of %s' % (k, x), sig=sig)
    b.append(frozenset(p))
  return tuple(b)

def scan(mon, F, files, **kw):
  from pygeode.formats import data_scanner
  itf = kw.pop('interface', F.opener)
  with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    return data_scanner.from_files(files, itf, **kw)

def read_checks(rng, mon, F, datasets, alldims, sig, nreads, stored):
  """stored: {variable: {point: version}}"""
  U = F.U
  for ds in datasets:
    for v in ds.vars:
      dm = [a.name for a in v.axes]
      pos = [position(U, a.name, a.values) for a in v.axes]
      if any(p is None for p in pos): continue
      V = stored[v.name]
      order = [dm.index(x) for x in F.dims[v.name]] if sorted(dm) == sorted(F.dims[v.name]) else None
      if not mon.check(order is not None, 'dims', '%s has axes %s, in the files %s' % (v.name, dm, F.dims[v.name]), *sig): continue
      ver = np.array([V.get(tuple(p[j] for j in order), -1) for p in itertools.product(*pos)]).reshape([len(p) for p in pos])
      if not mon.check((ver >= 0).all(), 'unsound', '%s%s of a dataset has points which no file has' % (v.name, [len(p) for p in pos]), *sig): continue
      full = np.zeros(ver.shape)
      for u in np.unique(ver):
        t = truth(v.name, U, F.dims[v.name], [pos[j] for j in order], int(u), F.S)
        inv = [F.dims[v.name].index(x) for x in dm]
        t = np.transpose(t, inv) if t.ndim else t
        full[ver == u] = t[ver == u]
      for k in range(nreads):
        sel = [vlib.random_selector(rng, len(p)) if k else (slice(None), np.arange(len(p))) for p in pos]
        F.opened[:] = []
        src = v if k == 0 else v.slice[tuple(s for s, _ in sel)] if sel else v
        lab = '%s%s' % (v.name, [s for s, _ in sel] if k else '')
        mon.context.append('read ' + lab)
        got = mon.op('read ' + lab, lambda: src.get())
        want = vlib.fulldata(full, sel) if hasattr(vlib, 'fulldata') else full[np.ix_(*[i for _, i in sel])]
        ok = mon.same(got, want, 'values', 'values of %s' % lab, rtol=1e-12, sig=sig + (k > 0,))
        mon.hit('reads'); mon.hit('partial', k > 0 and want.size < full.size); mon.hit('across', len(set(F.opened)) > 1)
        mon.context.pop()
        if not ok: return

def k_scan(rng, d, mon):
  nd = int(choice(rng, [1, 2, 2, 2, 3, 3])); mixed = chance(rng, .25)
  U, desc = universe(rng, nd, 5 if nd < 3 else 4); alldims = list(U)
  nv = int(rng.integers(1, 4)); names = ['u', 'v', 'w'][:nv]
  dims = {}
  for k, n in enumerate(names):
    # some variables have fewer dimensions
    dims[n] = alldims if k == 0 or not mixed else [x for x in alldims if x == alldims[0] or chance(rng, .5)]
  mixed = any(len(dims[n]) < len(alldims) for n in names)
  real = choice(rng, ['netcdf', 'netcdf4']) if chance(rng, .15) else None
  F = Files(rng, d, U, dims, {n: dict(code=k, where='here') for k, n in enumerate(names)}, real)
  how = choice(rng, ['chunks', 'chunks', 'grid', 'random', 'random', 'vars'])
  full = {x: np.arange(len(U[x][1])) for x in alldims}; pieces = []
  if how in ('chunks', 'vars'):
    x = alldims[0]
    for part in cut(rng, len(full[x]), int(rng.integers(1, 5))):
      if how == 'vars':
        for n in names: pieces.append([(n, dict(full, **{x: part}))])
      else: pieces.append([(n, dict(full, **{x: part})) for n in names if chance(rng, .85) or n == names[0]])
  elif how == 'grid':
    pc = [cut(rng, len(full[x]), int(rng.integers(1, 3))) for x in alldims]
    for c in itertools.product(*pc):
      if chance(rng, .9): pieces.append([(n, dict(zip(alldims, c))) for n in names])
  if not pieces:
    for _ in range(int(rng.integers(2, 5))):
      sel = {x: np.sort(rng.permutation(len(full[x]))[:int(rng.integers(1, len(full[x]) + 1))]) if chance(rng, .5) else full[x] for x in alldims}
      use = [n for n in names if chance(rng, .7)] or [names[0]]
      pieces.append([(n, sel) for n in use])
  if len(pieces) > 8: pieces = pieces[:8]
  fatts = chance(rng, .4)
  files = [F.add(p, fatts=dict(part=k, same=3) if fatts else {}) for k, p in enumerate(pieces)]
  lab = '%s: %d files of %s over %s%s' % (how, len(files), ','.join('%s(%s)' % (n, ','.join(dims[n])) for n in names), {x: list(U[x][1]) for x in alldims}, ' ' + real if real else '')
  mon.context[:] = [lab] + ['%s: %s' % (os.path.basename(f), [(n, {x: [int(q) for q in s[x]] for x in dims[n]}) for n, s in p]) for f, p in zip(files, pieces)]
  mon.sample(lab); mon.hit('scans'); mon.hit('descending', desc); mon.hit('aux', 'eta' in U); mon.hit('mixed_dims', mixed); mon.hit('real_files', real is not None)
  sig = ('scan', how, tuple(U[x][0] for x in alldims), len(files), nv, mixed, real)
  arg = [files[k] for k in rng.permutation(len(files))]; kw = {}
  if real:
    q = int(rng.integers(4))
    if q == 0: arg = os.path.join(d, '*.nc')
    if q == 1: kw['interface'] = real
    if q == 2: import importlib; kw['interface'] = importlib.import_module('pygeode.formats.' + real)
  elif chance(rng, .2): arg = [os.path.join(os.path.dirname(f), '.', os.path.basename(f)) for f in arg]
  elif chance(rng, .1): arg = arg + arg[:1]
  dss = mon.op('from_files', lambda: scan(mon, F, arg, **kw))
  mon.hit('datasets', len(dss))
  got = [as_box(ds, U, alldims, mon, sig) for ds in dss]
  if any(b is None for b in got): return
  # (with variables of fewer dimensions, combinations can be found more than once)
  mixed or mon.check(len(set(got)) == len(got), 'twice', 'a dataset is there twice: %s' % got, *sig)
  allp = [q for p in pieces for q in p]
  stored = {n: {p: 0 for m, s in allp if m == n for p in itertools.product(*[map(int, s[x]) for x in dims[n]])} for n in names}
  # everything that is stored is in some dataset
  for n in names:
    have = set()
    for b in got:
      if n in b[0]: have |= set(itertools.product(*[b[1 + alldims.index(x)] or () for x in dims[n]]))
    lost = set(stored[n]) - have
    mon.check(not lost, 'lost', '%d of %d stored points of %s are in no dataset, e.g. %s' % (len(lost), len(stored[n]), n, sorted(lost)[:2]), *sig)
  for b, c in itertools.permutations(got, 2) if not mixed else ():
    same_dims = [x is None for x in b] == [x is None for x in c]
    mon.check(not (same_dims and all(x is None or x <= y for x, y in zip(b, c))), 'subdomain', 'a dataset is part of another: %s %s' % (b, c), *sig)
  if not mixed:
    want = boxes(points(allp, alldims), 1 + len(alldims)); mon.hit('maximal')
    ext = set(got) - want; mis = want - set(got)
    mon.check(not ext, 'notmaximal', 'not a maximal combination: %s' % (sorted(map(str, ext))[:2],), *sig)
    mon.check(not mis, 'combination', 'a combination of variables and coordinates was not found: %s' % (sorted(map(str, mis))[:2],), *sig)
  for ds in dss:
    for v in ds.vars:
      w = dict(F.atts[v.name]); mine = [k for k, p in enumerate(pieces) if any(n == v.name for n, _ in p)]
      if fatts: w['same'] = 3
      if fatts and len(mine) == 1: w['part'] = mine[0]
      mon.check({k: v.atts.get(k) for k in ('code', 'where', 'same', 'part')} == {k: w.get(k) for k in ('code', 'where', 'same', 'part')}, 'atts', 'attributes of %s are %s, expected %s' % (v.name, v.atts, w), *sig)
  read_checks(rng, mon, F, dss, alldims, sig, 3, stored)

def k_history(rng, d, mon):
  U, desc = universe(rng, int(choice(rng, [1, 2, 2])), 5); alldims = list(U); x = alldims[0]
  n = len(U[x][1]); names = ['u', 'v'][:int(rng.integers(1, 3))]
  real = None      # (a file that is still open could not be written again)
  F = Files(rng, d, U, {m: alldims for m in names}, {m: dict(code=1) for m in names}, real); F.S = 0
  full = {y: np.arange(len(U[y][1])) for y in alldims}
  parts = [np.array([k]) for k in range(n)] if chance(rng, .5) else cut(rng, n, 3)
  man = os.path.join(d, 'manifest.gz')
  ver = {}; have = {}      # part -> version; part -> file
  def write(k, again=False, tick=60):
    ver[k] = ver.get(k, -1) + 1
    use = names if chance(rng, .7) else names[:1]
    pc = [(m, dict(full, **{x: parts[k]})) for m in use]
    if again: F.write(have[k], pc, version=ver[k], tick=tick)
    else: have[k] = F.add(pc, version=ver[k], tick=tick)
  first = [k for k in range(len(parts)) if chance(rng, .7)] or [0]
  for k in first: write(k)
  mon.hit('histories'); log = []; sig = ('history', len(parts), len(names), real)
  seen = {}      # file -> version it was scanned with
  for step in range(int(rng.integers(2, 5))):
    if step:
      act = choice(rng, ['add', 'change', 'change', 'none', 'fewer', 'several'])
      new = [k for k in range(len(parts)) if k not in have]
      if act in ('add', 'several') and new: write(new[0]); log.append('add %d' % new[0])
      if act in ('change', 'several') and have:
        ks = [k for k in have if chance(rng, .6)] or [list(have)[0]]
        # (the order of the files is not that of the changes)
        for k in [ks[q] for q in rng.permutation(len(ks))]: write(k, True, tick=int(choice(rng, [1, 60, 3600]))); log.append('change %d' % k); mon.hit('changed')
    use = list(have) if not (step and act == 'fewer') else [k for k in have if chance(rng, .6)] or list(have)[:1]
    use = [use[q] for q in rng.permutation(len(use))]
    log.append('scan %s' % use); mon.context[:] = ['%s of %s over %s; parts %s: %s' % (real, names, {y: list(U[y][1]) for y in alldims}, [list(map(int, p)) for p in parts], '; '.join(log))]
    F.opened[:] = []
    kw = {}; 
    dss = mon.op('from_files', lambda: scan(mon, F, [have[k] for k in use], manifest=man))
    mon.hit('datasets', len(dss)); opened = set(F.opened)
    need = {have[k] for k in use if seen.get(have[k]) != ver[k]}
    mon.check(need <= opened, 'stale', 'new or changed files were not looked at: %s' % sorted(map(os.path.basename, need - opened)), *sig)
    mon.check(opened <= need, 'rescan', 'unchanged files were scanned again: %s' % sorted(map(os.path.basename, opened - need)), *sig)
    mon.hit('unopened', len(use) - len(opened) if step else 0); mon.hit('reused', 1 if step else 0)
    for k in use: seen[have[k]] = ver[k]
    pieces = [q for k in use for q in F.content[have[k]][0]]
    got = [as_box(ds, U, alldims, mon, sig) for ds in dss]
    if any(b is None for b in got): return
    want = boxes(points(pieces, alldims), 1 + len(alldims))
    if not mon.check(set(got) == want, 'history', 'datasets %s, expected %s' % (sorted(map(str, got)), sorted(map(str, want))), *sig): return
    stored = {m: {} for m in names}
    for k in use:
      for m, s in F.content[have[k]][0]:
        for p in itertools.product(*[map(int, s[y]) for y in alldims]): stored[m][p] = ver[k]
    read_checks(rng, mon, F, dss, alldims, sig, 2, stored)

def k_query(rng, d, mon):
  import pygeode as pyg
  from pygeode.var import Var
  from pygeode.axis import Lat, NamedAxis
  from pygeode.formats.data_scanner import DataInterface
  names = ['a', 'b', 'c']; sets = []
  for k in range(int(rng.integers(1, 6))):
    use = [n for n in names if chance(rng, .6)] or ['a']
    ax = (NamedAxis(np.arange(int(rng.integers(1, 6))), name='lev'), Lat(np.linspace(-60, 60, int(rng.integers(2, 6)))))
    vs = [Var(ax, values=np.full([len(q) for q in ax], 10. * k + names.index(n)), name=n) for n in use]
    sets.append(pyg.Dataset(vs) if chance(rng, .7) else vs)
  data = DataInterface(sets); mon.hit('queries')
  info = [({v.name for v in s}, len(list(s)[0].axes[0]), len(list(s)[0].axes[1])) for s in sets]
  mon.context[:] = ['datasets (variables, levels, latitudes): %s' % info]; sig = ('query', len(sets))
  mon.check(len(list(data)) == len(sets), 'iter', 'iterates over %d of %d' % (len(list(data)), len(sets)), *sig)
  for n in names + ['z']: mon.check(data.have(n) == any(n in s for s, _, _ in info), 'have', 'have(%r) is %s' % (n, data.have(n)), *sig)
  want = [n for n in names if chance(rng, .5)] or ['a']
  lim = int(rng.integers(1, 5)) if chance(rng, .4) else None
  req = None if lim is None else (lambda ds: len(ds.lev) >= lim)
  ok = [k for k, (s, l, m) in enumerate(info) if set(want) <= s and (lim is None or l >= lim)]
  lab = 'find(%s%s)' % (','.join(want), '' if lim is None else ', at least %d levels' % lim)
  mon.context.append(lab)
  got = mon.op(lab, lambda: list(data.find(*want, **({} if req is None else dict(requirement=req)))))
  got = [[g] if len(want) == 1 else g for g in got]
  def ident(g): return (tuple(v.name for v in g), int(g[0].get().ravel()[0] // 10), {int(v.get().ravel()[0] // 10) for v in g})
  mon.check([ident(g) for g in got] == [(tuple(want), k, {k}) for k in ok], 'find', 'found %s, expected datasets %s' % ([ident(g)[:2] for g in got], ok), *sig)
  # the best one: by one or several criteria, of the variables found
  nlev = lambda vs: len(list(vs)[0].getaxis('lev')); nlat = lambda vs: len(list(vs)[0].getaxis('lat'))
  crit = choice(rng, ['none', 'max', 'min', 'max2', 'min2', 'maxlist'])
  kw = {'none': {}, 'max': dict(maximize=nlev), 'min': dict(minimize=nlat), 'max2': dict(maximize=(nlat, nlev)), 'min2': dict(minimize=(nlev, nlat)), 'maxlist': dict(maximize=[nlat, nlev])}[crit]
  key = {'none': lambda k: 0, 'max': lambda k: -info[k][1], 'min': lambda k: info[k][2], 'max2': lambda k: (-info[k][2], -info[k][1]), 'min2': lambda k: (info[k][1], info[k][2]), 'maxlist': lambda k: (-info[k][2], -info[k][1])}[crit]
  if req is not None: kw['requirement'] = req
  arg = want[0] if len(want) == 1 and chance(rng, .5) else want
  f = lambda: data.find_best(arg, **kw)
  if not ok: mon.raises(f, 'nomatch', 'find_best without any match', kinds=(KeyError,)); return
  g = mon.op('find_best (%s)' % crit, f)
  if isinstance(arg, str): g = [g]
  nm, k, ks = ident(g)
  mon.check(nm == tuple(want) and ks == {k} and k in ok and key(k) == min(key(q) for q in ok), 'best', 'find_best (%s) gives dataset %s, of %s' % (crit, k, ok), *sig + (crit,))
  mon.ev('query', crit, len(ok))

"""C25: a failed read (or write) is reported and leaves everything re-usable."""
N_QUICK = 640
N_THOROUGH = 8000
BUDGET_QUICK = 100
BUDGET_THOROUGH = 700
LEVEL = 'fault_enumeration'
TECHNIQUE = ('runtime monitoring under fault injection: reads of sources, calls of the netCDF library, whole files and the disk are made '
             'to fail at chosen points; monitors check that the error surfaced and that re-evaluation, files, descriptors and settings are intact')
RULE = ('a case is an expression over lazy sources or files, a way to ask for its values (whole, slice, load, chunked loops, save, xarray, '
        'function that computes at once) and a set of fault points: the k-th read of the evaluation for up to eight k (first and last '
        'included), the k-th library call, a file that vanished or was damaged, a full disk; distinct by (request, operations, fault kind)')
REQUIRE = {'faults_injected': 1800, 'errors_surfaced': 2400, 'reevaluations': 1500, 'library_faults': 400, 'disk_faults': 80, 'file_faults': 50, 'multi_faults': 45, 'calls': 220, 'trees': 150}
ASSUMPTIONS = ['the netCDF library reports the failures it is told of; truncated classic files read as zeros by the library itself are not asserted']
import sys, os, gc, signal, warnings
import numpy as np
import vlib, exprs, filesrc, nclib
from vlib import choice, chance

class Boom(Exception): pass
class BoomBase(BaseException): pass
KINDS = [IOError, ValueError, KeyError, IndexError, AttributeError, TypeError, AssertionError, RuntimeError, MemoryError, ImportError,
         ZeroDivisionError, EOFError, StopIteration, NotImplementedError, Boom, BoomBase, KeyboardInterrupt]

def setup(mon): nclib.install()

def fds(): return len(os.listdir('/proc/self/fd'))
def settings():
  import pygeode as pyg
  return dict(err=str(np.geterr()), limit=pyg.MAX_ARRAY_SIZE, print=str(np.get_printoptions()), cwd=os.getcwd(),
              out=id(sys.stdout), stderr=id(sys.stderr))

class Injector(object):
  """Counts the reads of a group of sources and fails chosen ones."""
  def __init__(self, srcs):
    self.n = 0; self.at = (); self.exc = None; self.fired = 0
    self.srcs = [s for s in srcs if hasattr(s, '_hook')]
    for s in self.srcs: s._hook = self
  def __call__(self, n, view):
    k = self.n; self.n += 1
    if k in self.at or (self.at == 'all'):
      self.fired += 1
      raise self.exc('BOOM-%d' % k)
  def arm(self, at, exc): self.n = 0; self.at = at; self.exc = exc; self.fired = 0
  def off(self): self.at = (); self.n = 0; self.fired = 0

def chain(e):
  seen = []
  while e is not None and id(e) not in [id(x) for x in seen]:
    seen.append(e); e = e.__cause__ or e.__context__
  return seen

def attempt(fn):
  """-> ('value', v) or ('error', exception)."""
  try: return 'value', fn()
  except (Exception, BoomBase, KeyboardInterrupt) as e: return 'error', e

def same_all(mon, got, want, key, msg, tol):
  got = got if isinstance(got, (list, tuple)) else [got]
  want = want if isinstance(want, (list, tuple)) else [want]
  if not mon.check(len(got) == len(want), key, '%s: %d results instead of %d' % (msg, len(got), len(want))): return
  for a, b in zip(got, want): mon.same(np.asarray(a), np.asarray(b), key, msg, atol=tol)

def inject(rng, mon, what, fn, inj, want, tol, uses, maxpoints=6):
  """Fail fn at chosen reads; then it must work again."""
  inj.off()
  st0 = settings()
  clean = mon.op('clean run', fn)
  same_all(mon, clean, want, 'clean', '%s without faults' % what, tol)
  del clean
  R = inj.n
  mon.hit('reads_seen', R)
  if R == 0: return
  pts = sorted(set([0, R - 1] + [int(x) for x in rng.integers(0, R, maxpoints)]))
  gc.collect(); f0 = fds()
  for k in pts:
    exc = choice(rng, KINDS)
    at = (k,) if chance(rng, .7) else 'all' if chance(rng, .3) else tuple(range(k, R + 5))
    reps = int(choice(rng, [1, 1, 2]))
    for _ in range(reps):
      inj.arm(at, exc)
      r, v = attempt(fn)
      fired = inj.fired
      inj.off()
      mon.hit('faults_injected', fired)
      mon.ev((what.split(' ')[0], uses, exc.__name__))
      if not fired: mon.hit('fault_point_not_reached'); continue
      if r == 'value':
        mon.fail('swallowed', '%s: a %s raised by read %d of %d did not reach the caller, who got a result' % (what, exc.__name__, k, R)); continue
      mon.check(any('BOOM-' in str(x) for x in chain(v)) or exc is AttributeError and what == 'xarray', 'replaced', lambda: '%s: %s of read %d of %d was replaced by an unrelated %s: %s' % (what, exc.__name__, k, R, type(v).__name__, str(v)[:300]))
      mon.hit('errors_surfaced')
    v = None
    if chance(rng, .5) or k == pts[-1]:
      got = mon.op('after fault', fn)
      same_all(mon, got, want, 'after', '%s after a %s in read %d of %d' % (what, exc.__name__, k, R), tol)
      mon.hit('reevaluations')
      del got
  gc.collect()
  mon.check(fds() <= f0, 'descriptors', lambda: '%s: %d file descriptors before the faults, %d after' % (what, f0, fds()))
  st1 = settings()
  mon.check(st0 == st1, 'settings', lambda: '%s: settings changed by a failed read: %s' % (what, [(k, st0[k], st1[k]) for k in st0 if st0[k] != st1[k]]))

# ---------------------------------------------------------------- trees over failing sources
SAVEABLE = ('Lat', 'Lon', 'Pres', 'NamedAxis', 'StandardTime', 'ModelTime365', 'ModelTime360', 'XAxis', 'YAxis', 'Height')
def requests(rng, n):
  """Ways to ask for the values of n: (label, thunk, expected, tolerance)."""
  import pygeode as pyg
  v, full = n.var, n.full
  out = [('get', lambda: v.get(), full, n.tol)]
  if n.distinct and v.naxes:
    sl = tuple(vlib.random_selector(rng, len(a))[0] if chance(rng, .7) else slice(None) for a in v.axes)
    want = v.slice[sl].get()
    out.append(('slice', lambda: v.slice[sl].get(), want, n.tol))
    out.append(('getitem', lambda: np.asarray(v[sl]).ravel(), want.ravel(), n.tol))
  out.append(('load', lambda: v.load(pbar=None).get(), full, n.tol))
  if v.naxes and len(set(a.name for a in v.axes)) == v.naxes and n.distinct:
    names = [a.name for a in v.axes]
    from pygeode.axis import NonCoordinateAxis
    if v.dtype.kind in 'fi' and v.dtype.itemsize > 1 and all(type(a).__name__ in SAVEABLE and type(a).__name__ not in ('ModelTime360',) for a in v.axes) and v.name not in names:
      u = v.rename('w')
      mod = filesrc.backend(choice(rng, ['netcdf', 'netcdf4'])); path = filesrc.scratch() if chance(rng, .5) and mod.__name__.endswith('netcdf') else None   # (netCDF4 files stay open until collected)
      def save():
        p = path or filesrc.scratch()
        mod.save(p, u, version=4)
        d = mod.open(p)
        return np.asarray(d['w'].get())
      out.append(('save', save, full, n.tol + 1e-12))
      from pygeode.ext_xarray import to_xarray
      import dask
      def conv():
        # in this thread: dask's own threads keep reading for a while after one of them failed
        with dask.config.set(scheduler='synchronous'): return np.asarray(to_xarray(pyg.asdataset([u]))['w'].values)
      if attempt(conv)[0] == 'value': out.append(('xarray', conv, full, n.tol))    # (years below 1 cannot be converted)
  if exprs.real(v) and v.dtype.kind != 'b' and v.naxes:
    i = int(rng.integers(0, v.naxes))
    m = v.mean(i); out.append(('mean', lambda: v.mean(i).get(), m.get(), n.tol * 2 + 1e-12 * n.scale))
    ds = pyg.asdataset([v.rename('a'), (v * 2).rename('b')]) if v.dtype.kind == 'f' else None
    if ds is not None: out.append(('dataset', lambda: [q.get() for q in ds.load().vars] if hasattr(ds, 'load') else [q.get() for q in ds.vars], [full, full * np.array(2, full.dtype)], n.tol * 4))
  return out

def w_trees(rng, mon):
  import pygeode as pyg
  g = exprs.Gen(rng, nmax=5, kind=choice(rng, ['view', 'chunk']), kinds=SAVEABLE if chance(rng, .4) else None)
  n = exprs.grow(rng, g, int(rng.integers(1, 5)))
  old = pyg.MAX_ARRAY_SIZE
  try:
    if chance(rng, .5): pyg.MAX_ARRAY_SIZE = int(rng.integers(3, 60))
    reqs = requests(rng, n)
    inj = Injector(g.sources)
    mon.hit('trees')
    for j in ([0] + vlib.perm(rng, len(reqs))[:2]):
      label, fn, want, tol = reqs[j]
      mon.context[:] = ['tree %s; %s; memory limit %s' % (n.desc, label, pyg.MAX_ARRAY_SIZE)]
      inject(rng, mon, label, fn, inj, want, tol, tuple(sorted(n.uses)), maxpoints=5)
  finally: pyg.MAX_ARRAY_SIZE = old

# ---------------------------------------------------------------- functions which compute at once
def w_calls(rng, mon):
  import pygeode as pyg
  from pygeode import timeaxis as T, timeutils, eof, svd, stats
  from pygeode.axis import Lat, Lon, NamedAxis
  nt, ny, nx = int(rng.integers(8, 20)), int(rng.integers(2, 5)), int(rng.integers(2, 5))
  cls = choice(rng, [T.StandardTime, T.ModelTime365])
  tm = cls(np.arange(nt) * float(choice(rng, [1, 5, 31])), units='days', startdate=dict(year=2001, month=3, day=1))
  lat, lon = Lat(np.linspace(-60, 60, ny)), Lon(np.arange(nx) * 30.)
  mk = lambda axes, name: vlib.make_var(rng, axes, vlib.make_values(rng, [len(a) for a in axes]), name=name, kind=choice(rng, ['view', 'chunk']))
  X, Y, Z, W = mk((tm, lat, lon), 'X'), mk((tm, lat), 'Y'), mk((tm,), 'Z'), mk((tm,), 'W')
  flat = lambda o: [np.asarray(q.get() if hasattr(q, 'get') else q) for q in (o.vars if hasattr(o, 'vars') else o if isinstance(o, (tuple, list)) else [o])]
  def saved(mod):
    p = filesrc.scratch(); mod.save(p, pyg.asdataset([X, Y.rename('q')])); d = mod.open(p)
    return [np.asarray(d['X'].get()), np.asarray(d['q'].get())]
  calls = {
    'correlate': lambda: flat(stats.correlate(X, Z, axes=['time'])),
    'regress': lambda: flat(stats.regress(Z, X)),
    'multiple_regress': lambda: flat(stats.multiple_regress([Z, W], X)),
    'difference': lambda: flat(stats.difference(X, Y, ['time'])),
    'paired_difference': lambda: flat(stats.paired_difference(X, X * 2., ['time'])),
    'isnonzero': lambda: flat(stats.isnonzero(X, ['time'])),
    'EOF': lambda: [np.abs(q) for q in flat(eof.EOF(X, num=2, iaxis=0))[1:2]],
    'SVD': lambda: [np.abs(q) for q in flat(svd.SVD(X, Y, num=2, iaxis='time'))[1:2]],
    'climatology': lambda: flat(pyg.climat.climatology(X)),
    'monthlymean': lambda: flat(pyg.climat.monthlymean(X)),

    'dataset-mean': lambda: flat(pyg.asdataset([X, Y.rename('q')]).mean('time')),
    'anomaly': lambda: flat(X - X.mean('time')),
    'composite': lambda: flat(X.composite(evlen=3, li_time=[2, 4])),
    'sorted': lambda: flat(X.sorted(lat=-1, lon=-1)),
    'save-netcdf': lambda: saved(filesrc.backend('netcdf')),
    'save-netcdf4': lambda: saved(filesrc.backend('netcdf4')),
    'smooth': lambda: flat(X.smooth('time', 3)),
    'unfill-min': lambda: [np.asarray(float(X.min())), np.asarray(float(Y.mean()))],
    'composite-flatten': lambda: flat(X.composite(evlen=2, li_time=[2, 4]).flatten(inner=1)) ,
    'interp': lambda: flat(X.interpolate('lat', Lat(np.linspace(-50, 50, 4)))),
    'rotatelon': lambda: flat(pyg.axis.rotatelon(X, 45.)),
    'ensemble': lambda: flat(getattr(pyg.ensemble, 'ensemble', pyg.ensemble)(Z.rename('z'), W.rename('z'))),
    'concat': lambda: flat(pyg.concat.concat([X.slice[:3], X.slice[3:]]) if hasattr(pyg.concat, 'concat') else pyg.concat([X.slice[:3], X.slice[3:]])),
  }
  inj = Injector([X, Y, Z, W])
  old = pyg.MAX_ARRAY_SIZE
  try:
    if chance(rng, .5): pyg.MAX_ARRAY_SIZE = int(rng.integers(5, 60))
    for k in [str(x) for x in rng.permutation(list(calls))[:5]]:
      inj.off()
      try: want = calls[k]()
      except Exception: mon.hit('call_refused'); continue     # other checks judge these
      mon.context[:] = ['%s of sources %s' % (k, [type(q).__name__ for q in (X, Y, Z, W)])]
      mon.hit('calls')
      inject(rng, mon, k, calls[k], inj, want, 1e-4 if k == 'SVD' else 1e-9, (), maxpoints=5)   # SVD iterates from a random guess
  finally: pyg.MAX_ARRAY_SIZE = old

# ---------------------------------------------------------------- failing library calls
STATUS = [2, 5, 13, 24, -31, -33, -34, -36, -40, -43, -45, -46, -51, -57, -61, -101, -103, -120]
QUIET = ('nc_strerror', 'nc_inq_libvers', 'nc_free_string')
def w_library(rng, mon):
  import pygeode as pyg
  fn, be, ver, vals, axes = filesrc.make_file(rng)
  mod = filesrc.backend('netcdf')
  ds = mod.open(fn)
  nm = list(vals)
  want = [np.asarray(ds[k].get()) for k in nm]
  sl = [tuple(vlib.random_selector(rng, len(a))[0] for a in ds[k].axes) for k in nm]
  ver2 = int(choice(rng, [3, 4])); unlim = choice(rng, [None, ds[nm[0]].axes[0].name])
  p = filesrc.scratch() 
  comp = chance(rng, .3)
  def save():
    mod.save(p, ds, version=ver2, unlimited=unlim, compress=comp)
    d = mod.open(p)
    return [np.asarray(d[k].get()) for k in nm]
  jobs = [('lib-read', lambda: [np.asarray(ds[k].get()) for k in nm], want),
          ('lib-slice', lambda: [np.asarray(ds[k].slice[s].get()) for k, s in zip(nm, sl)], [ds[k].slice[s].get() for k, s in zip(nm, sl)]),
          ('lib-open', lambda: (lambda d: [np.asarray(d[k].get()) for k in nm])(mod.open(fn)), want),
          ('lib-save', save, want)]
  old = pyg.MAX_ARRAY_SIZE
  if chance(rng, .5): pyg.MAX_ARRAY_SIZE = int(rng.integers(3, 60))
  try:
    for label, f, w in [jobs[int(j)] for j in rng.permutation(4)[:2]]:
      mon.context[:] = ['%s, file by %s version %d axes %s, saved as version %d, unlimited %s' % (label, be, ver, [(type(a).__name__, len(a)) for a in axes], ver2, unlim)]
      names = []
      made = []
      def record(name, args):
        if name == 'nc_close' and any(args[0] is q for q in made): name = 'nc_close (written file)'
        if name == 'nc_create': made.append(args[2]._obj)
        names.append(name)
      nclib.Hook.before = record
      try: same_all(mon, mon.op('clean run', f), w, 'clean', label, 0.)
      finally: nclib.Hook.before = None
      # fault points: one for each kind of call made, plus some at random
      calls = [k for k, x in enumerate(names) if x not in QUIET]
      if not calls: continue
      firsts = [names.index(x) for x in sorted(set(names[k] for k in calls))]
      pts = sorted(set([firsts[int(j)] for j in rng.permutation(len(firsts))[:4]] + [calls[int(j)] for j in rng.integers(0, len(calls), 3)]))
      gc.collect(); f0 = fds()
      for k in pts:
        name = names[k]
        if name == 'nc_close': continue       # not a failing read
        status = int(choice(rng, STATUS)); cnt = [-1, 0]
        def before(nm_, args, k=k):
          cnt[0] += 1
          if cnt[0] == k and nm_ != 'nc_close': cnt[1] += 1; return status
        def after(nm_, args, r, k=k):
          if cnt[0] == k and nm_ == 'nc_close': cnt[1] += 1; return status
        nclib.Hook.before, nclib.Hook.after = before, after
        try: r, v = attempt(f)
        finally: nclib.Hook.before = nclib.Hook.after = None
        mon.ev((label, name, be, ver, ver2 if label == 'lib-save' else 0))
        mon.hit('library_faults', cnt[1])
        if not cnt[1]: continue
        if r == 'value': mon.fail('swallowed:' + name, '%s: status %d of %s (call %d of %d) did not reach the caller' % (label, status, name, k, len(names)))
        else: mon.hit('errors_surfaced')
        v = None
        same_all(mon, mon.op('after fault', f), w, 'after', '%s after status %d of %s' % (label, status, name), 0.)
        mon.hit('reevaluations')
      gc.collect()
      mon.check(fds() <= f0, 'descriptors', lambda: '%s: %d file descriptors before the faults, %d after' % (label, f0, fds()))
      for q, w_ in zip(nm, want): mon.same(np.asarray(ds[q].get()), w_, 'after', 'the open dataset after %s faults' % label)
  finally: pyg.MAX_ARRAY_SIZE = old

# ---------------------------------------------------------------- damaged files
def damage(rng, path, how):
  """-> restore()"""
  raw = open(path, 'rb').read(); bak = path + '.bak'
  os.rename(path, bak)
  if how == 'garbage':
    with open(path, 'wb') as f: f.write(bytes(rng.integers(0, 256, len(raw), dtype='u1')))
  elif how == 'empty': open(path, 'wb').close()
  elif how == 'directory': os.mkdir(path)
  elif how == 'truncated':
    with open(path, 'wb') as f: f.write(raw[:int(len(raw) * rng.uniform(.05, .9))])
  def restore():
    if how == 'directory': os.rmdir(path)
    elif os.path.exists(path): os.remove(path)
    os.rename(bak, path)
  return restore

def w_damage(rng, mon):
  fn, be, ver, vals, axes = filesrc.make_file(rng)
  mod = filesrc.backend('netcdf'); nm = list(vals)
  ds = mod.open(fn)
  want = [np.asarray(ds[k].get()) for k in nm]
  g = exprs.Gen(rng, nmax=5)
  n = exprs.grow(rng, g, int(rng.integers(0, 3)), node=exprs.Node(ds[nm[0]], exact=True, distinct=True))
  full = n.full
  for _ in range(2):
    how = choice(rng, ['removed', 'garbage', 'empty', 'directory'] + (['truncated'] if ver == 4 else []))
    mon.context[:] = ['file %s of %s version %d; tree %s' % (how, be, ver, n.desc)]
    rb = filesrc.backend(choice(rng, ['netcdf', 'netcdf4']))
    gc.collect(); f0 = fds()
    restore = damage(rng, fn, how)
    try:
      a = attempt(lambda: n.var.get()); b = attempt(lambda: rb.open(fn)[nm[0]].get())
    finally: restore()
    for lab, (r, v) in (('read of an opened file', a), ('opening', b)):
      mon.hit('file_faults'); mon.ev((lab, how, be, ver, rb.__name__, tuple(sorted(n.uses))))
      if r == 'value': mon.fail('swallowed-file', '%s: %s file, but values came back' % (lab, how))
      else: mon.hit('errors_surfaced')
    a = b = r = v = None
    mon.same(mon.op('after fault', lambda: n.var.get()), full, 'after', 'file restored after being %s' % how, atol=n.tol)
    d = mon.op('after fault', lambda: rb.open(fn))
    for k, w in zip(nm, want): mon.same(np.asarray(d[k].get()), w, 'after', 're-opened after being %s' % how)
    mon.hit('reevaluations')
    del d; gc.collect()
    mon.check(fds() <= f0, 'descriptors', lambda: '%d file descriptors before, %d after a file was %s' % (f0, fds(), how))

def w_multi(rng, mon):
  import pygeode as pyg
  from pygeode import timeaxis as T
  from pygeode.axis import Lat
  from pygeode.var import Var
  from pygeode.formats import multifile
  be = choice(rng, ['netcdf', 'netcdf4']); mod = filesrc.backend(be)
  base = filesrc.scratch(''); nf = int(rng.integers(2, 5)); nt = int(rng.integers(1, 5)); m = int(rng.integers(2, 5))
  cls = choice(rng, [T.StandardTime, T.ModelTime365])
  tm = cls(np.arange(nf * nt) * 1., units='days', startdate=dict(year=2001, month=3, day=1))
  x = vlib.make_values(rng, (nf * nt, m)); v = Var((tm, Lat(np.linspace(-60, 60, m))), values=x, name='v')
  paths = []
  for i in range(nf):
    p = v.slice[i * nt:(i + 1) * nt]; a = p.axes[0]
    paths.append('%s_%04d%02d%02d.nc' % (base, a.year[0], a.month[0], a.day[0])); mod.save(paths[-1], p)
  how_open = choice(rng, ['open_multi', 'openall']) if be == 'netcdf' else 'open_multi'   # openall keeps netCDF4 files open
  opn = (lambda: multifile.open_multi(base + '_*.nc', opener=mod.open, pattern=os.path.basename(base) + '_$Y$m$d')) if how_open == 'open_multi' else (lambda: multifile.openall(base + '_*.nc', opener=mod.open))
  w = opn().v
  mon.same(w.get(), x, 'clean', 'serial read')
  for _ in range(2):
    i = int(rng.integers(0, nf)); how = choice(rng, ['removed', 'garbage', 'empty', 'directory'])
    mon.context[:] = ['%s of %d files of %d steps by %s; file %d %s' % (how_open, nf, nt, be, i, how)]
    gc.collect(); f0 = fds()
    restore = damage(rng, paths[i], how)
    try:
      a = attempt(lambda: w.get()); b = attempt(lambda: w.mean('time').get())
      j = int(rng.integers(0, nf))
      c = attempt(lambda: w.slice[j * nt:(j + 1) * nt].get())
    finally: restore()
    mon.hit('multi_faults', 2); mon.ev((how_open, be, how, nf, nt))
    for r, q in (a, b):
      if r == 'value': mon.fail('swallowed-multi', 'file %d of %d was %s, but values came back' % (i, nf, how))
      else: mon.hit('errors_surfaced')
    if j == i: mon.check(c[0] == 'error', 'swallowed-multi', 'the requested file was %s, but values came back' % how)
    elif c[0] == 'value': mon.same(c[1], x[j * nt:(j + 1) * nt], 'other-file', 'part of an intact file while file %d was %s' % (i, how))
    a = b = c = r = q = None
    mon.same(mon.op('after fault', lambda: w.get()), x, 'after', 'file %d restored after being %s' % (i, how))
    gc.collect()
    mon.check(fds() <= f0, 'descriptors', lambda: '%d file descriptors before, %d after' % (f0, fds()))

# ---------------------------------------------------------------- full disk
def w_disk(rng, mon):
  """A save which runs out of space must say so; one which says nothing must have saved everything."""
  import pygeode as pyg, resource
  from pygeode.var import Var
  from pygeode.axis import NamedAxis, Lat
  n, m = int(rng.integers(2, 60)), int(rng.integers(2, 60))
  x = rng.normal(size=(n, m)); y = rng.normal(size=m)
  ds = pyg.asdataset([Var((NamedAxis(np.arange(n) * 1., 'a'), Lat(np.linspace(-60, 60, m))), values=x, name='x'), Var((Lat(np.linspace(-60, 60, m)),), values=y, name='y')])
  be = choice(rng, ['netcdf', 'netcdf4']); mod = filesrc.backend(be); ver = int(choice(rng, [3, 4])); comp = chance(rng, .3)
  ref = filesrc.scratch(); mod.save(ref, ds, version=ver, compress=comp); size = os.path.getsize(ref)
  for _ in range(3):
    limit = int(size * rng.uniform(0., 1.05)); p = filesrc.scratch()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
      code = 3
      try:
        signal.alarm(60)
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 2)
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        try: mod.save(p, ds, version=ver, compress=comp); code = 0
        except Exception: code = 1
      finally: os._exit(code)
    _, st = os.waitpid(pid, 0)
    mon.context[:] = ['%s version %d compress=%s, %d bytes needed, %d available' % (be, ver, comp, size, limit)]
    mon.hit('disk_faults'); mon.ev((be, ver, comp, int(10 * limit / size)))
    if os.WIFSIGNALED(st): mon.fail('disk-crash', 'save on a full disk died of signal %d' % os.WTERMSIG(st)); continue
    code = os.WEXITSTATUS(st)
    mon.check(code in (0, 1), 'disk', 'save ended with %d' % code)
    if code == 0:
      r, v = attempt(lambda: (lambda d: (np.asarray(d.x.get()), np.asarray(d.y.get()), d.x.axes[0].values, d.x.axes[1].values))(mod.open(p)))
      if r == 'error': mon.fail('disk-silent', 'save returned normally, but the file cannot be read: %s' % v)
      else:
        ok = np.array_equal(v[0], x) and np.array_equal(v[1], y) and np.array_equal(v[2], np.arange(n)) and np.allclose(v[3], np.linspace(-60, 60, m))
        mon.check(ok and os.path.getsize(p) >= min(size, os.path.getsize(p)), 'disk-silent', 'save returned normally, but the file does not hold the data')
        mon.hit('disk_fits')
    else:
      mon.hit('errors_surfaced')

def case(rng, i, mon):
  k = int(rng.integers(0, 20))
  if k < 10: w_trees(rng, mon)
  elif k < 13: w_calls(rng, mon)
  elif k < 16: w_library(rng, mon)
  elif k < 17: w_damage(rng, mon)
  elif k < 18: w_multi(rng, mon)
  else: w_disk(rng, mon)

"""C26: concurrent evaluation gives the answers of serial evaluation."""
N_QUICK = 1600
N_THOROUGH = 20000
BUDGET_QUICK = 100
BUDGET_THOROUGH = 700
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: threads released together on shared expressions and files, with tiny switch intervals and injected '
             'delays inside sources and library calls; each result compared with serial evaluation; calls into the netCDF library '
             'watched for overlap')
RULE = ('a case is a workload (random expression trees over shared lazy sources; variables of one file, written with either back end '
        'in either version, read, re-opened, saved and combined; files joined by open_multi/openall; chunked xarray conversion computed '
        'by dask threads) run by 2-8 threads; an event is one retrieval by one thread; distinct by (workload, operations, '
        'observed order of thread switches)')
REQUIRE = {'retrievals': 12000, 'switches': 15000, 'file_retrievals': 1000, 'library_calls': 80000, 'trees': 300, 'dask': 90, 'multi': 50, 'calls': 250}
ASSUMPTIONS = ['the netCDF C library allows one thread at a time (its documentation)',
               'thread schedules are those the interpreter produces under a switch interval of 1-50 us with injected delays: sampled, not enumerated']
import sys, os, time, threading, zlib
import numpy as np
import vlib, exprs, filesrc
from vlib import choice, chance

# ---------------------------------------------------------------- library monitor
class Lib(object):
  lock = threading.Lock(); inside = {}; overlaps = []; calls = 0; delay = 0.; log = None
HARMLESS = ('nc_strerror', 'nc_inq_libvers', 'nc_free_string')

def setup(mon):
  import ctypes
  real = ctypes.CDLL
  class MonCDLL(real):
    def __init__(self, name, *a, **k):
      real.__init__(self, name, *a, **k)
      if 'netcdf' not in str(name): return
      base = self._FuncPtr
      class Func(base):
        _flags_ = base._flags_
        _restype_ = base._restype_
        def __call__(self, *args):
          name = getattr(self, '__name__', '?')
          if name in HARMLESS: return base.__call__(self, *args)
          me = threading.get_ident()
          with Lib.lock:
            Lib.calls += 1
            if Lib.log is not None: Lib.log.append(me)
            others = [n for t, n in Lib.inside.items() if t != me]
            if others: Lib.overlaps.append((name, others[0]))
            Lib.inside[me] = name
          try:
            if Lib.delay and (Lib.calls * 2654435761 >> 7) % 8 == 0: time.sleep(Lib.delay)
            return base.__call__(self, *args)
          finally:
            with Lib.lock: Lib.inside.pop(me, None)
      self._FuncPtr = Func
  ctypes.CDLL = MonCDLL
  import pygeode, pygeode.formats.netcdf, pygeode.formats.netcdf4
  ctypes.CDLL = real
  import pygeode.tools
  # progress bars are silenced once, not per thread
  sys.stderr = open(os.devnull, 'w') if False else sys.stderr

def finish(mon): mon.hit('library_calls', Lib.calls)

# ---------------------------------------------------------------- running threads
class Tasks(object):
  """Thread bodies: lists of (label, thunk, expected, tolerance)."""
  def __init__(self, rng): self.rng = rng

def run(rng, mon, kind, tasks, nthreads, uses, log):
  """Each thread runs all of `tasks` in an order of its own."""
  orders = [vlib.perm(rng, len(tasks)) for _ in range(nthreads)]
  results = [[] for _ in range(nthreads)]
  gate = threading.Barrier(nthreads)
  def body(t):
    try: gate.wait(30)
    except threading.BrokenBarrierError: return
    for j in orders[t]:
      label, fn, want, tol = tasks[j]
      try: r = fn(t)
      except Exception as e:
        r = e; import traceback; r.text = traceback.format_exc()[-1500:]
      results[t].append((j, r))
  old = sys.getswitchinterval()
  sys.setswitchinterval(float(choice(rng, [1e-6, 5e-6, 5e-5])))
  del Lib.overlaps[:]
  Lib.log = log; Lib.delay = float(choice(rng, [0., 2e-5, 2e-4]))
  ts = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(nthreads)]
  try:
    for t in ts: t.start()
    end = time.time() + 60
    for t in ts: t.join(max(.1, end - time.time()))
  finally:
    sys.setswitchinterval(old); Lib.log = None; Lib.delay = 0.
  if any(t.is_alive() for t in ts):
    frames = sys._current_frames(); import traceback
    st = [''.join(traceback.format_stack(frames[t.ident])[-3:]) for t in ts if t.is_alive() and t.ident in frames]
    mon.fail('deadlock', '%d of %d threads did not finish within 60 s (%s)\n%s' % (sum(t.is_alive() for t in ts), nthreads, kind, '\n'.join(st)[:1500]))
    os.environ['C26_STUCK'] = '1'
    raise vlib.Stop()
  mon.check(not Lib.overlaps, 'library-overlap', lambda: 'two threads were inside the netCDF library at once: %s' % Lib.overlaps[:3])
  order = list(log)
  sw = sum(a != b for a, b in zip(order, order[1:]))
  ids = {}; mon.hit('switches', sw)
  h = zlib.crc32(bytes(ids.setdefault(x, len(ids)) % 250 for x in order))
  for t in range(nthreads):
    for j, r in results[t]:
      label, fn, want, tol = tasks[j]
      mon.hit('retrievals')
      mon.ev((kind, uses, label.split(' ')[0], h) if sw > 1 else None)
      if isinstance(r, Exception):
        mon.fail('error:%s' % type(r).__name__, '%s by thread %d of %d: %s: %s (serially it works)\n%s' % (label, t, nthreads, type(r).__name__, str(r)[:400], r.text))
        continue
      got = r if isinstance(r, (list, tuple)) else [r]
      exp = want if isinstance(want, (list, tuple)) else [want]
      for a, b in zip(got, exp):
        mon.same(np.asarray(a), np.asarray(b), 'values', '%s by thread %d of %d differs from serial evaluation' % (label, t, nthreads), atol=tol)

def hooks(rng, srcs, log):
  seed = int(rng.integers(1 << 30)); p = float(choice(rng, [0., .2, .5])); d = float(choice(rng, [1e-5, 2e-4]))
  def hook(n, view):
    log.append(threading.get_ident())
    if ((n * 40503 + seed) >> 4) % 100 < p * 100: time.sleep(d)
  for s in srcs:
    if hasattr(s, '_hook'): s._hook = hook

def selections(rng, v, k):
  out = []
  for _ in range(k):
    out.append(tuple(vlib.random_selector(rng, len(a))[0] if chance(rng, .7) else slice(None) for a in v.axes))
  return out

def var_tasks(rng, v, full, tol, sels, whole=True):
  tasks = []
  if whole: tasks.append(('get of the whole', lambda t: v.get(), full, tol))
  for sl in sels:
    want = v.slice[sl].get()
    tasks.append(('slice %s' % (sl,), lambda t, sl=sl: v.slice[sl].get(), want, tol))
  return tasks

# ---------------------------------------------------------------- workloads
def w_trees(rng, mon):
  seed = int(rng.integers(1 << 40)); depth = int(rng.integers(1, 5))
  g = exprs.Gen(np.random.default_rng(seed), nmax=5)
  n = exprs.grow(np.random.default_rng(seed + 1), g, depth)
  v = n.var; full = n.full
  mon.context[:] = ['tree %s' % n.desc]
  sels = selections(rng, v, int(rng.integers(1, 4))) if n.distinct else []
  tasks = var_tasks(rng, v, full, n.tol, sels)
  # the same expression built anew by the thread
  def rebuild(t):
    g2 = exprs.Gen(np.random.default_rng(seed), nmax=5)
    return exprs.grow(np.random.default_rng(seed + 1), g2, depth).var.get()
  if chance(rng, .4): tasks.append(('rebuild', rebuild, full, n.tol))
  # another expression over the same sources and axes
  g3 = exprs.Gen(np.random.default_rng(seed + 2), nmax=5)
  src = [s for s in g.sources if s.naxes]
  if src and chance(rng, .6):
    s = choice(rng, src)
    m = exprs.grow(np.random.default_rng(seed + 3), g3, int(rng.integers(1, 3)), node=exprs.Node(s, exact=True, distinct=all(len(np.unique(a.values)) == len(a) for a in s.axes)))
    tasks.append(('sibling %s' % m.desc, lambda t: m.var.get(), m.full, m.tol))
    mon.context.append('sibling %s' % m.desc)
  if chance(rng, .3):
    w = v.load(pbar=None) if chance(rng, .5) else v
    tasks.append(('load', lambda t: w.load(pbar=None).get(), full, n.tol))
  import pygeode as pyg
  old = pyg.MAX_ARRAY_SIZE
  if chance(rng, .4): pyg.MAX_ARRAY_SIZE = int(rng.integers(3, 60))
  log = []
  hooks(rng, g.sources, log)
  mon.hit('trees')
  try: run(rng, mon, 'tree', tasks, int(rng.integers(2, 7)), tuple(sorted(n.uses)), log)
  finally: pyg.MAX_ARRAY_SIZE = old
  # nothing is left behind
  hooks(rng, [], [])
  mon.same(v.get(), full, 'afterwards', 'serial evaluation after the threads finished', atol=n.tol)

def w_file(rng, mon):
  import pygeode as pyg
  fn, be, ver, vals, axes = filesrc.make_file(rng)
  mod = filesrc.backend(be if chance(rng, .7) else choice(rng, ['netcdf', 'netcdf4']))
  rb = mod.__name__.split('.')[-1]
  ds = mod.open(fn)
  mon.context[:] = ['file by %s version %d, read by %s, axes %s' % (be, ver, rb, [(type(a).__name__, len(a)) for a in axes])]
  tasks = []
  uses = set()
  log = []
  for name in vals:
    v = ds[name]; full = np.asarray(v.get())
    mon.same(full, vals[name].astype(full.dtype), 'file-values', 'serial read of %s' % name, rtol=1e-6)
    tasks += [t for t in var_tasks(rng, v, full, 0., selections(rng, v, 2))]
    if chance(rng, .6):
      g = exprs.Gen(np.random.default_rng(int(rng.integers(1 << 40))), nmax=5)
      n = exprs.grow(rng, g, int(rng.integers(1, 3)), node=exprs.Node(v, exact=True, distinct=True))
      tasks.append(('tree %s' % n.desc, lambda t, n=n: n.var.get(), n.full, n.tol)); uses |= n.uses
      mon.context.append(n.desc)
  nm = list(vals)
  def reopen(t):
    d = mod.open(fn)
    return [np.asarray(d[k].get()) for k in nm]
  tasks.append(('reopen', reopen, [np.asarray(ds[k].get()) for k in nm], 0.))
  if chance(rng, .5):
    b2 = filesrc.backend(choice(rng, ['netcdf', 'netcdf4'])); ver2 = int(choice(rng, [3, 4]))
    if not (b2.__name__.endswith('4') and ver2 == 3 and any(a.values.dtype.kind == 'i' and a.values.dtype.itemsize > 4 for k in nm for a in ds[k].axes)):
      paths = [filesrc.scratch() for _ in range(8)]
      def save(t):
        b2.save(paths[t], ds, version=ver2)
        d = b2.open(paths[t])
        return [np.asarray(d[k].get()) for k in nm]
      tasks.append(('save+open', save, [np.asarray(ds[k].get()) for k in nm], 0.))
      uses.add('save-%s-%d' % (b2.__name__.split('.')[-1], ver2))
  old = pyg.MAX_ARRAY_SIZE
  if chance(rng, .3): pyg.MAX_ARRAY_SIZE = int(rng.integers(3, 60))
  before = mon.n.get('retrievals', 0) if hasattr(mon, 'n') else 0
  try: run(rng, mon, 'file-%s-%d-%s' % (be, ver, rb), tasks, int(rng.integers(2, 8)), tuple(sorted(uses)), log)
  finally: pyg.MAX_ARRAY_SIZE = old
  mon.hit('file_retrievals', len(tasks))
  for k in nm: mon.same(np.asarray(ds[k].get()), vals[k].astype(ds[k].dtype), 'afterwards', 'serial read of %s after the threads finished' % k, rtol=1e-6)

def w_multi(rng, mon):
  import pygeode as pyg
  from pygeode import timeaxis as T
  from pygeode.axis import Lat, NamedAxis
  from pygeode.var import Var
  from pygeode.formats import multifile
  be = choice(rng, ['netcdf', 'netcdf4']); mod = filesrc.backend(be)
  base = filesrc.scratch(''); nf = int(rng.integers(2, 5)); nt = int(rng.integers(1, 5)); m = int(rng.integers(2, 5))
  cls = choice(rng, [T.StandardTime, T.ModelTime365])
  time_ = cls(np.arange(nf * nt) * 1., units='days', startdate=dict(year=2001, month=3, day=1))
  lat = Lat(np.linspace(-60, 60, m))
  x = vlib.make_values(rng, (nf * nt, m))
  v = Var((time_, lat), values=x, name='v')
  for i in range(nf):
    p = v.slice[i * nt:(i + 1) * nt]
    a = p.axes[0]
    mod.save('%s_%04d%02d%02d.nc' % (base, a.year[0], a.month[0], a.day[0]), p)
  if chance(rng, .5): ds = multifile.open_multi(base + '_*.nc', opener=mod.open, pattern=os.path.basename(base) + '_$Y$m$d'); how = 'open_multi'
  else: ds = multifile.openall(base + '_*.nc', opener=mod.open); how = 'openall'
  w = ds.v
  mon.context[:] = ['%s of %d files of %d steps by %s' % (how, nf, nt, be)]
  full = w.get()
  mon.same(full, x, 'multi-values', 'serial read')
  mon.hit('multi')
  tasks = var_tasks(rng, w, full, 0., selections(rng, w, 3)) + var_tasks(rng, w.mean('lat'), w.mean('lat').get(), 1e-9, [])
  run(rng, mon, how + be, tasks, int(rng.integers(2, 7)), (), [])

def w_dask(rng, mon):
  import pygeode as pyg, dask
  from pygeode.ext_xarray import to_xarray
  if chance(rng, .5):
    fn, be, ver, vals, axes = filesrc.make_file(rng)
    ds = filesrc.backend(be).open(fn); src = []
    what = 'file %s %d' % (be, ver)
    nodes = [exprs.Node(ds[k], exact=True, distinct=True) for k in vals]
    g = exprs.Gen(rng, nmax=5)
  else:
    g = exprs.Gen(rng, nmax=5, dtypes=('d', 'd', 'f'), kinds=filesrc.FILEKINDS)
    nodes = [g.source() for _ in range(int(rng.integers(1, 3)))]; what = 'lazy sources'
  vs, wants = [], []
  for i, n in enumerate(nodes):
    m = exprs.grow(rng, g, int(rng.integers(0, 3)), node=n, ops=['unary', 'scalar', 'reduction', 'smooth', 'deriv', 'transpose', 'fftsmooth', 'cast'])
    u = m.var.rename('w%d' % i)
    vs.append(u); wants.append((m, u))
  log = []
  hooks(rng, g.sources, log)
  mon.context[:] = ['%s: %s' % (what, [m.desc for m, u in wants])]
  mon.hit('dask')
  kw = dict(rng=rng)
  for m, u in wants:
    if any(type(a).__name__ not in filesrc.FILEKINDS + ['NamedAxis'] for a in u.axes): continue
    full = m.full
    old = pyg.MAX_ARRAY_SIZE
    pyg.MAX_ARRAY_SIZE = int(rng.integers(2, 40))
    try: x = to_xarray(pyg.asdataset([u]))
    finally: pyg.MAX_ARRAY_SIZE = old
    da = x[u.name]
    with dask.config.set(scheduler='threads', num_workers=int(rng.integers(2, 7))):
      # dask's threads and threads of our own
      def comp(t): return np.asarray(da.values)
      tasks = [('xarray', comp, full, m.tol), ('get', lambda t, u=u: u.get(), full, m.tol)]
      run(rng, mon, 'dask ' + what.split(' ')[0], tasks, int(rng.integers(1, 4)), tuple(sorted(m.uses)), log)

def w_calls(rng, mon):
  """Functions which compute when called, and constructors which share objects between their callers."""
  import pygeode as pyg
  from pygeode import timeaxis as T, timeutils, eof, svd, stats
  from pygeode.axis import Lat, Lon, NamedAxis, gausslat
  from pygeode.var import Var
  nt, ny, nx = int(rng.integers(8, 30)), int(rng.integers(2, 6)), int(rng.integers(2, 6))
  cls = choice(rng, [T.StandardTime, T.ModelTime365, T.ModelTime360])
  tm = cls(np.arange(nt) * float(choice(rng, [1, 5, 31])), units='days', startdate=dict(year=2001, month=3, day=1))
  lat, lon = Lat(np.linspace(-60, 60, ny)), Lon(np.arange(nx) * 30.)
  mk = lambda axes, name: vlib.make_var(rng, axes, vlib.make_values(rng, [len(a) for a in axes]), name=name)
  X, Y, Z = mk((tm, lat, lon), 'X'), mk((tm, lat), 'Y'), mk((tm,), 'Z')
  log = []
  hooks(rng, [X, Y, Z], log)
  flat = lambda o: [np.asarray(q.get() if hasattr(q, 'get') else q) for q in (o.vars if hasattr(o, 'vars') else o if isinstance(o, (tuple, list)) else [o])]
  ng = int(rng.integers(2, 40)); ne = int(rng.integers(2, 9))
  other = tm.slice[::-2]
  calls = {
    'correlate': lambda: flat(stats.correlate(X, Z, axes=['time'])),
    'regress': lambda: flat(stats.regress(Z, X)),
    'difference': lambda: flat(stats.difference(X, Y.slice[:nt // 2], ['time'])),
    'EOF': lambda: [np.abs(q) for q in flat(eof.EOF(X, num=2, iaxis=0))[1:2]],
    'climatology': lambda: flat(pyg.climat.climatology(X)),
    'monthlymean': lambda: flat(pyg.climat.monthlymean(X)),
    'dailymean': lambda: flat(pyg.climat.dailymean(Y)),
    'gausslat': lambda: [gausslat(ng).values, gausslat(ng).weights],
    'ensemble': lambda: flat(pyg.ensemble.ensemble([Y] * ne) if hasattr(pyg.ensemble, 'ensemble') else pyg.ensemble([Y] * ne)),
    'reltime': lambda: [timeutils.reltime(tm, units='hours'), timeutils.reltime(other, startdate=dict(year=1999, month=1, day=1))],
    'val_as_date': lambda: [np.array([tm.formatvalue(t) for t in tm.values])],
    'common_map': lambda: list(tm.common_map(other)),
    'map_to': lambda: [np.asarray(other.map_to(tm))],
    'selection': lambda: flat(X(time=(tm.values[1], tm.values[-2]), s_lat=0.)),
    'dataset': lambda: flat(pyg.asdataset([X, Y.rename('q')]).mean('time')),
    'anomaly': lambda: flat(X - X.mean('time')),
    'weighted': lambda: flat(X.mean('lat', 'lon')),
    'str': lambda: [np.array([str(X), repr(tm), str(pyg.asdataset([X, Z]))])],
    'composite': lambda: flat(X.composite(evlen=3, li_time=[2, 4])),
    'sorted': lambda: flat(X.sorted(lat=-1, lon=-1)),
  }
  names = [str(k) for k in rng.permutation(list(calls))[:int(rng.integers(2, 7))]]
  tasks = []
  for k in names:
    try: want = calls[k]()
    except Exception: mon.hit('call_refused_serially'); continue    # other checks judge those
    tasks.append((k, lambda t, k=k: calls[k](), want, 1e-9))
  if not tasks: return
  mon.context[:] = ['calls %s on %s of %d steps' % (names, cls.__name__, nt)]
  mon.hit('calls', len(tasks))
  run(rng, mon, 'calls', tasks, int(rng.integers(2, 7)), tuple(sorted(names)), log)

def case(rng, i, mon):
  if os.environ.get('C26_STUCK'): raise vlib.Stop()
  k = int(rng.integers(0, 24))
  if k >= 20: w_calls(rng, mon)
  elif k < 10: w_trees(rng, mon)
  elif k < 15: w_file(rng, mon)
  elif k < 17: w_multi(rng, mon)
  else: w_dask(rng, mon)

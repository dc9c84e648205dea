"""C23: the compiled kernels stay within bounds and never bring the interpreter down."""
SANITIZE = True
N_QUICK = 4800
N_THOROUGH = 120000
BUDGET_QUICK = 110
BUDGET_THOROUGH = 700
LEVEL = 'exploration'
TECHNIQUE = ('AddressSanitizer and UndefinedBehaviorSanitizer: every compiled module is rebuilt from the tree with both, and driven through the API with hostile arguments; '
             'monitors on every native entry point also compare argument reference counts and catch errors returned without an exception')
RULE = ('a case is a short sequence of API calls that reach the compiled code (time axes of every calendar and their maps, coordinate maps, interpolation, partial sums, EOF and SVD analyses, '
        'Gaussian grids, whole derived-variable expressions) with arguments of hostile shape and content (length 0 and 1, unsorted, repeated, not finite, huge, strided, odd types); '
        'each native call is one evaluation; distinct by (entry point, argument types and shapes class, outcome)')
REQUIRE = {'native_calls': 15000, 'time_axes': 900, 'time_maps': 700, 'axis_maps': 300, 'interpolations': 350, 'sums': 250, 'eofs': 150, 'expressions': 300, 'grids': 30, 'grib_files': 180, 'accepted': 6000, 'refused': 250, 'empty_args': 60, 'instrumented_modules': 6}
ASSUMPTIONS = ['GSL, LAPACK and numpy themselves are not instrumented (accesses they make into freed or undersized blocks are only seen when the allocator notices)',
               'arguments larger than 2^31 elements are not exercised']
import contextlib, gc, glob, io, os, signal, sys
import numpy as np
import vlib, exprs
from vlib import choice, chance

STATE = {}

def shape_class(a):
  return (a.dtype.char, a.ndim, min(a.size, 2), a.flags.c_contiguous)

def wrap(mon, mod, name, fn):
  def monitored(*args):
    arrs = [a for a in args if isinstance(a, np.ndarray)]
    gc.disable()   # (a collection may drop references to the arguments)
    try: return call(args, arrs)
    finally: gc.enable()
  def call(args, arrs):
    before = [sys.getrefcount(a) for a in arrs]
    label = '%s.%s' % (mod, name)
    sig = (label,) + tuple(shape_class(a) for a in arrs)
    mon.hit('native_calls'); mon.hit('native:' + label)
    if any(a.size == 0 for a in arrs): mon.hit('empty_args')
    out = 'ok'
    try:
      r = fn(*args)
    except SystemError as e:
      mon.fail('no-exception:' + label, '%s reported an error without an exception: %s (arguments %s)' % (label, e, [shape_class(a) for a in arrs]))
      raise
    except Exception as e:
      out = type(e).__name__; e.__traceback__ = None
      after = [sys.getrefcount(a) for a in arrs]
      mon.check(after == before, 'refcount:' + label, '%s (refusing its arguments) left reference counts of its arguments at %s, were %s' % (label, after, before), *(sig + (out,)))
      raise
    after = [sys.getrefcount(a) - (r is a) for a in arrs]
    mon.check(after == before, 'refcount:' + label, '%s left reference counts of its arguments at %s, were %s' % (label, after, before), *(sig + (out,)))
    return r
  return monitored

def setup(mon):
  """Wraps every function of every compiled module, wherever the library keeps a reference to it."""
  import pygeode as pyg, importlib, types
  root = os.path.dirname(pyg.__file__)
  natives = []
  for so in glob.glob(root + '/**/*.so', recursive=True):
    rel = os.path.relpath(so, os.path.dirname(root)).split('.')[0].replace('/', '.')
    data = open(so, 'rb').read()
    if b'__asan_' not in data or b'__ubsan_' not in data: continue
    try: natives.append(importlib.import_module(rel))
    except ImportError: continue
  mon.hit('instrumented_modules', len(natives) if os.environ.get('LD_PRELOAD') else 0)
  table = {}
  for m in natives:
    for k, f in list(vars(m).items()):
      if isinstance(f, types.BuiltinFunctionType):
        table[id(f)] = (f, wrap(mon, m.__name__.split('.')[-1], k, f)); setattr(m, k, table[id(f)][1])
  import pygeode.eof, pygeode.svd, pygeode.interp, pygeode.climat
  def subst(owner, is_class):
    for k, f in list(vars(owner).items()):
      if isinstance(f, types.BuiltinFunctionType) and id(f) in table and table[id(f)][0] is f:
        setattr(owner, k, staticmethod(table[id(f)][1]) if is_class else table[id(f)][1])
  for name, m in list(sys.modules.items()):
    if not name.startswith('pygeode') or m is None: continue
    subst(m, False)
    for c in list(vars(m).values()):
      if isinstance(c, type) and c.__module__.startswith('pygeode'): subst(c, True)

def attempt(mon, label, fn):
  """Either a result, or an ordinary exception."""
  try:
    with contextlib.redirect_stdout(io.StringIO()): r = fn()
  except SystemError as e:
    mon.fail('system-error', '%s: %s' % (label, e)); return None
  except Exception as e:
    mon.hit('refused'); mon.ev(label.split('(')[0], type(e).__name__); return None
  mon.hit('accepted')
  return r

# ------------------------------------------------------------------ hostile arguments
INF = float('inf'); NAN = float('nan')
def hostile(rng, n, dtype='d'):
  """n values of an awkward kind."""
  k = int(rng.integers(0, 9))
  x = np.round(rng.normal(0, 10, n), 2)
  if k == 1 and n: x[:] = x[0]
  elif k == 2: x = np.repeat(x, 2)[:n]
  elif k == 3: x[rng.random(n) < .4] = NAN
  elif k == 4: x[:] = NAN
  elif k == 5: x[rng.random(n) < .3] = choice(rng, [INF, -INF])
  elif k == 6: x = x * 1e300
  elif k == 7: x = np.sort(x)[::choice(rng, [1, -1])]
  elif k == 8: x = np.array([choice(rng, [0., -0., 1e-310, 1e15, -1e15, 2.**31, -2.**31, 2.**63, -2.**63, 1e18, NAN, INF, 3., 3., 1e9, -1e9]) for j in range(n)])
  return layout(rng, np.asarray(x).astype(dtype))

def layout(rng, a):
  """The same values in another memory layout."""
  if a.ndim == 0 or not chance(rng, .4): return a
  k = int(rng.integers(0, 4))
  if k == 0:
    b = np.zeros(tuple(2 * s for s in a.shape), a.dtype); v = b[tuple(slice(None, None, 2) for s in a.shape)]; v[...] = a; return v
  if k == 1: return np.asfortranarray(a)
  if k == 2: return np.ascontiguousarray(a[::-1])[::-1]
  return a.astype(a.dtype.newbyteorder('>')).astype(a.dtype.newbyteorder('>')) if chance(rng, .3) else a

def length(rng): return int(choice(rng, [0, 1, 1, 2, 2, 3, 4, 5, 8, 13, 30]))
INTS = [0, 1, 2, 12, 13, -1, 29, 31, 60, 366, 24, 59, 100, 1999, 2000, 2004, 9999, 10**6, -10**6, 2**31 - 1, -2**31]

def time_axis(rng, mon, cls=None, n=None, benign=False):
  from pygeode import timeaxis as T
  cls = cls or choice(rng, [T.StandardTime, T.ModelTime365, T.ModelTime360, T.Yearless])
  n = length(rng) if n is None else n
  mon.hit('time_axes')
  mode = int(rng.integers(0, 4)) if not benign else int(choice(rng, [0, 2]))
  units = choice(rng, ['days', 'hours', 'minutes', 'seconds', 'days'])
  if cls is T.Yearless: start = {'day': int(choice(rng, [0, 1, 5]))}
  else:
    start = dict(year=int(choice(rng, [1, 1999, 2000, 0, -4, 2004])), month=int(choice(rng, [1, 2, 12, 6])), day=int(choice(rng, [1, 28, 29, 31])))
  if not benign and chance(rng, .15): start[choice(rng, list(start) + ['hour', 'second'])] = int(choice(rng, INTS))
  if mode == 0:
    v = np.sort(rng.integers(0, max(2 * n, 2), n)).astype('d') if chance(rng, .5) else rng.integers(-3, max(n // 2, 1), n).astype('d')
    return attempt(mon, '%s(values)' % cls.__name__, lambda: cls(layout(rng, v), units=units, startdate=start))
  if mode == 1:
    v = hostile(rng, n, choice(rng, ['d', 'd', 'f', 'i4', 'i8']))
    return attempt(mon, '%s(hostile values)' % cls.__name__, lambda: cls(v, units=units, startdate=start))
  f = list(cls.allowed_fields)
  keep = [k for k in f if chance(rng, .6)] or [choice(rng, f)]
  small = dict(year=(1999, 2003), month=(1, 13), day=(1, 29), hour=(0, 24), minute=(0, 60), second=(0, 60))
  flds = {}
  for k in keep:
    lo, hi = small.get(k, (0, 5))
    flds[k] = rng.integers(lo, lo + int(choice(rng, [1, 2, hi - lo])), n)
    if mode == 3 and n and chance(rng, .4): flds[k] = np.array([int(choice(rng, INTS)) for j in range(n)])
    flds[k] = layout(rng, flds[k].astype(choice(rng, ['i4', 'i8', 'd', 'i2']) if mode == 3 else choice(rng, ['i4', 'i8'])))
  kw = dict(units=units)
  if chance(rng, .4): kw['startdate'] = start
  return attempt(mon, '%s(fields)' % cls.__name__, lambda: cls(**dict(flds, **kw)))

def case_time(rng, mon):
  from pygeode import timeaxis as T, timeutils as U
  t = time_axis(rng, mon)
  if t is None: return
  # conversions
  for r in range(int(rng.integers(1, 4))):
    k = int(rng.integers(0, 7))
    if k == 0: attempt(mon, 'val_as_date', lambda: t.val_as_date(hostile(rng, length(rng)), units=choice(rng, ['days', 'hours', 'seconds']), allfields=chance(rng, .5)))
    elif k == 1: attempt(mon, 'val_as_date', lambda: t.val_as_date(float(choice(rng, [NAN, INF, 1e300, -1e9, 0., 1e12, 4.5]))))
    elif k == 2: attempt(mon, 'date_as_val', lambda: t.date_as_val({f: np.array([int(choice(rng, INTS)) for j in range(3)]) for f in list(t.allowed_fields)[:int(rng.integers(1, 7))]}))
    elif k == 3: attempt(mon, 'date_as_val', lambda: t.date_as_val({f: int(choice(rng, INTS)) for f in list(t.allowed_fields)[:int(rng.integers(1, 7))]}, startdate={f: int(choice(rng, INTS)) for f in t.allowed_fields}))
    elif k == 4: attempt(mon, 'wrapdate', lambda: U.wrapdate(t, {f: int(choice(rng, INTS)) for f in t.allowed_fields}))
    elif k == 5: attempt(mon, 'date_diff', lambda: U.date_diff(t, {f: int(choice(rng, INTS)) for f in t.allowed_fields}, {f: int(choice(rng, INTS)) for f in t.allowed_fields}))
    else: attempt(mon, 'format', lambda: (str(t), [t.formatvalue(x) for x in hostile(rng, 3)]))
  case_timemap(rng, mon, t)

def case_timemap(rng, mon, t=None):
  from pygeode import timeaxis as T, timeutils as U
  cls = type(t) if t is not None else choice(rng, [T.StandardTime, T.ModelTime365, T.ModelTime360, T.Yearless])
  t = t if t is not None else time_axis(rng, mon, cls, benign=chance(rng, .8))
  u = time_axis(rng, mon, cls if chance(rng, .95) else None, benign=chance(rng, .8))
  if t is None or u is None: return
  mon.hit('time_maps')
  if chance(rng, .3): u = attempt(mon, 'subset', lambda: u.slice[::int(choice(rng, [1, -1, 2]))]) or u
  if chance(rng, .3): u = attempt(mon, 'concat', lambda: u.concat([u, t])) or u
  for k in rng.permutation(6)[:3]:
    if k == 0: attempt(mon, 'map_to', lambda: t.map_to(u))
    elif k == 1: attempt(mon, 'common_map', lambda: t.common_map(u))
    elif k == 2: attempt(mon, 'uniquify', lambda: U.uniquify(t))
    elif k == 3: attempt(mon, 'modify', lambda: U.modify(t, resolution=choice(rng, [None, 'month', 'day', 'year']), exclude=choice(rng, [[], ['year'], ['year', 'month', 'day', 'hour', 'minute', 'second']]), uniquify=chance(rng, .7)))
    elif k == 4: attempt(mon, 'arith', lambda: (var_on(rng, [t]) + var_on(rng, [u])).get())
    else: attempt(mon, 'is_in', lambda: (t == u, t.isparentof(u), U.delta(t), U.reltime(t)))

def var_on(rng, axes, dtype=None):
  from pygeode.var import Var
  shape = [len(a) for a in axes]
  x = hostile(rng, int(np.prod(shape)), dtype or choice(rng, ['d', 'd', 'f'])).reshape(shape)
  return Var(axes, values=layout(rng, x), name='v')

def case_axes(rng, mon):
  from pygeode import axis as A
  kind = choice(rng, [A.Lat, A.Lon, A.Pres, A.XAxis, A.NamedAxis, A.Height])
  mk = lambda: attempt(mon, kind.__name__, lambda: kind(hostile(rng, length(rng), choice(rng, ['d', 'd', 'f', 'i4'])), **({'name': 'q'} if kind is A.NamedAxis else {})))
  a, b = mk(), mk()
  if a is None or b is None: return
  if chance(rng, .3): b = attempt(mon, 'subset', lambda: a.slice[::int(choice(rng, [1, -1, 2]))]) or b
  mon.hit('axis_maps')
  attempt(mon, 'map_to', lambda: (a.map_to(b), b.map_to(a)))
  attempt(mon, 'eq', lambda: (a == b, a.isparentof(b)))
  attempt(mon, 'arith', lambda: (var_on(rng, [a]) + var_on(rng, [b])).get())
  attempt(mon, 'select', lambda: var_on(rng, [a])(**{a.name: choice(rng, [(0., 5.), NAN, INF, 3., (NAN, 1.)])}).get())
  attempt(mon, 'common_map', lambda: a.common_map(b))

TYPES = ['linear', 'cspline', 'akima', 'polynomial', 'cspline_periodic', 'akima_periodic', 'nosuch']
def case_interp(rng, mon):
  from pygeode.interp import interpolate
  from pygeode.axis import XAxis, Pres, NamedAxis, Lat
  n, m = length(rng), length(rng)
  mon.hit('interpolations')
  xin = attempt(mon, 'axis', lambda: Pres(hostile(rng, n) if chance(rng, .5) else np.sort(np.round(rng.uniform(0, 9, n), 1))[::choice(rng, [1, -1])]))
  xout = attempt(mon, 'axis', lambda: Pres(hostile(rng, m) if chance(rng, .5) else rng.uniform(-3, 12, m)))
  if xin is None or xout is None: return
  others = [NamedAxis(np.arange(int(rng.integers(1, 4))), 'o1'), Lat(np.arange(int(rng.integers(1, 3))) * 10.)][:int(rng.integers(0, 3))]
  axes = others[:]; axes.insert(int(rng.integers(0, len(axes) + 1)), xin)
  v = attempt(mon, 'var', lambda: var_on(rng, axes))
  if v is None: return
  kw = {}
  if chance(rng, .3): kw['inx'] = attempt(mon, 'var', lambda: var_on(rng, [xin] if chance(rng, .4) else axes, 'd'))
  if chance(rng, .3): kw['outx'] = attempt(mon, 'var', lambda: var_on(rng, [xout] if chance(rng, .4) else others + [xout], 'd'))
  if chance(rng, .4): kw['d_below'] = float(choice(rng, [0., 1., NAN, INF, 1e308]))
  if chance(rng, .4): kw['d_above'] = float(choice(rng, [0., -1., NAN, INF, 1e308]))
  if chance(rng, .3): kw['omit_nonmonotonic'] = True
  kw['interp_type'] = choice(rng, TYPES)
  def run():
    r = interpolate(v, xin if chance(rng, .5) else 'pres', xout, **kw)
    r.get()
    if r.size: r.slice[tuple(int(rng.integers(0, s)) for s in r.shape)].get()
  attempt(mon, 'interpolate', run)

def case_sums(rng, mon):
  from pygeode import climat as C, timeaxis as T
  t = time_axis(rng, mon, choice(rng, [T.StandardTime, T.ModelTime365, T.ModelTime360]), benign=True)
  if t is None: return
  mon.hit('sums')
  from pygeode.axis import Lat
  axes = [t] + [Lat(np.arange(int(rng.integers(1, 4))) * 10.)] * int(rng.integers(0, 2))
  if chance(rng, .5): axes = axes[::-1]
  dt = choice(rng, ['d', 'f', 'i4', 'i8', 'F', 'D', 'i2', 'u1'])
  def build():
    from pygeode.var import Var
    shape = [len(a) for a in axes]
    x = hostile(rng, int(np.prod(shape)), 'd')
    with np.errstate(all='ignore'): x = np.nan_to_num(x, posinf=0, neginf=0).clip(-100, 100).astype(dt) if np.dtype(dt).kind in 'iu' else x.astype(dt)
    return Var(axes, values=x.reshape(shape), name='v')
  v = attempt(mon, 'var', build)
  if v is None: return
  names = sorted(k for k in dir(C) if k.islower() and k.startswith(('clim', 'nanclim', 'daily', 'monthly', 'seasonal', 'yearly', 'diurnal')) and callable(getattr(C, k)))
  for k in range(2):
    f = choice(rng, names)
    def evaluate(w): return [evaluate(x) for x in w] if isinstance(w, (list, tuple)) else w.get()
    attempt(mon, f, lambda: evaluate(getattr(C, f)(v)))
  attempt(mon, 'detrend', lambda: C.detrend(v).get())
  attempt(mon, 'reduce', lambda: getattr(v, choice(rng, ['mean', 'sum', 'stdev', 'nanmean', 'nansum', 'nanstdev', 'nanvariance', 'variance', 'min', 'max', 'nanmax', 'argmax']))(t.name).get())

def case_eof(rng, mon):
  from pygeode import eof as E, svd as S
  from pygeode.axis import NamedAxis, Lat, Lon
  import pygeode as pyg
  mon.hit('eofs')
  nt, nx = int(choice(rng, [0, 1, 1, 2, 3, 5, 9, 17])), int(choice(rng, [1, 1, 2, 3, 7, 12]))
  rank = int(rng.integers(0, 4))
  axes = [NamedAxis(np.arange(nt), 't')] + ([Lon(np.arange(nx) * 5.)] if chance(rng, .6) else [Lat(np.arange(2) * 30.), Lon(np.arange(nx) * 5.)])
  shape = [len(a) for a in axes]; sp = int(np.prod(shape[1:]))
  from pygeode.var import Var
  def build():
    if chance(rng, .5): x = rng.normal(size=(nt, rank)) @ rng.normal(size=(rank, sp))
    elif chance(rng, .7): x = rng.normal(size=(nt, sp))
    else: x = hostile(rng, nt * sp)
    return Var(axes, values=layout(rng, x.reshape(shape).astype(choice(rng, ['d', 'f']))), name='v')
  v = attempt(mon, 'var', build)
  if v is None: return
  num = int(choice(rng, [1, 1, 2, 3, 5, 9, 0, -1, 20]))
  old = pyg.MAX_ARRAY_SIZE
  if chance(rng, .4): pyg.MAX_ARRAY_SIZE = int(choice(rng, [sp, 2 * sp, 3 * sp + 1]))
  try:
    k = int(rng.integers(0, 6))
    kw = dict(iaxis='t', weight=choice(rng, [True, False]))
    fin = bool(np.isfinite(np.asarray(v.values, 'd')).all()) if hasattr(v, 'values') else True
    if k <= 2: attempt(mon, 'EOF_guess', lambda: E.EOF_guess(v, num, **kw))
    elif k == 3: attempt(mon, 'EOF_iter', lambda: E.EOF_iter(v, num, subspace=int(choice(rng, [-1, 1, 4])), max_iter=20, **kw))
    elif k == 4: attempt(mon, 'EOF', lambda: E.EOF(v, num, **kw))
    elif num <= 5: attempt(mon, 'SVD', lambda: S.SVD(v, v if chance(rng, .5) else v * 2, num, subspace=int(choice(rng, [-1, 1, 4])), iaxis='t', weight1=False, weight2=False))
  finally: pyg.MAX_ARRAY_SIZE = old

def case_bigeof(rng, mon):
  """Many patterns: the work arrays are as large as they get."""
  from pygeode import eof as E
  from pygeode.axis import NamedAxis
  from pygeode.var import Var
  n = int(choice(rng, [400, 700])); nt = n + int(rng.integers(-5, 9))
  v = Var([NamedAxis(np.arange(nt), 't'), NamedAxis(np.arange(12), 'x')], values=rng.normal(size=(nt, 12)), name='v')
  mon.hit('big_eofs')
  attempt(mon, 'EOF_guess(many)', lambda: E.EOF_guess(v, n, iaxis='t', weight=False))

def case_grid(rng, mon):
  from pygeode import axis as A
  for r in range(3):
    n = int(choice(rng, [0, 1, 2, 3, 4, 7, 16, 31, 64, -1, -5, 200]))
    mon.hit('grids')
    attempt(mon, 'gausslat', lambda: A.gausslat(n, axis_dict=choice(rng, [None, {}]), order=int(choice(rng, [1, -1]))))
  attempt(mon, 'regularlat', lambda: A.regularlat(length(rng)))
  attempt(mon, 'legendre', lambda: __import__('pygeode.quadrulepy', fromlist=['x']).legendre_compute(int(choice(rng, [1, 2, 5, 50]))))

def case_expr(rng, mon):
  import pygeode as pyg
  g = exprs.Gen(rng, nmax=4, dtypes=('d', 'd', 'f', 'i4', 'u1', 'i8'))
  mon.hit('expressions')
  def run():
    node = exprs.grow(rng, g, int(rng.integers(1, 4)), must=choice(rng, ['interp', 'climat', 'binary', 'composite', 'lag', 'reduction', 'concat', 'sort']))
    v = node.var
    v.get()
    for r in range(2):
      sel, idx = [], []
      for n in v.shape:
        s, i = vlib.random_selector(rng, n); sel.append(s)
      v.slice[tuple(sel)].get()
  old = pyg.MAX_ARRAY_SIZE
  if chance(rng, .4): pyg.MAX_ARRAY_SIZE = int(choice(rng, [5, 20, 60]))
  try: attempt(mon, 'expression', run)
  finally: pyg.MAX_ARRAY_SIZE = old

def case_grib(rng, mon):
  """Damaged GRIB files (and indices that were cut short)."""
  import os, gribsrc, filesrc
  from pygeode.formats import grib
  class NoMon(object):
    def hit(self, *a): pass
  cwd = os.getcwd()
  path = filesrc.scratch('.grb'); os.chdir(os.path.dirname(path)); path = os.path.basename(path)
  try:
    msgs, vs = gribsrc.make_file(rng, NoMon(), big=chance(rng, 0.02))
    gribsrc.write(rng, path, msgs)
    mon.hit('grib_files')
    raw = bytearray(open(path, 'rb').read())
    r = int(rng.integers(0, 6))
    if r == 0: pass
    elif r == 1: raw = raw[:int(rng.integers(0, len(raw)))]
    else:
      for k in range(int(choice(rng, [1, 1, 2, 4, 8]))):
        # mostly in the first headers
        p = int(rng.integers(0, min(len(raw), 110))) if chance(rng, .7) else int(rng.integers(0, len(raw)))
        raw[p] = int(choice(rng, [0, 1, 127, 128, 255, raw[p] ^ (1 << int(rng.integers(0, 8))), int(rng.integers(0, 256))]))
    def use():
      # (fields as large as the headers make them are not asked for)
      ds = grib.open(path)
      for x in ds.vars:
        n = int(np.prod([float(k) for k in x.shape]))
        if n < 10**6: x.get()
        if n: x.slice[tuple(int(rng.integers(0, k)) for k in x.shape)].get() if x.shape[-1] * x.shape[-2] < 10**6 else None
    if r and chance(rng, .3): attempt(mon, 'grib', use)   # an index of the undamaged file is there
    with open(path, 'wb') as f: f.write(raw)
    attempt(mon, 'grib', use)
    ix = path + '.index'
    if os.path.exists(ix):
      if chance(rng, .4):
        n = os.path.getsize(ix)
        with open(ix, 'r+b') as f: f.truncate(int(rng.integers(0, n)))
      attempt(mon, 'grib', use)
      os.remove(ix)
    os.remove(path)
  finally: os.chdir(cwd)

KINDS = [case_time, case_time, case_timemap, case_axes, case_interp, case_interp, case_sums, case_eof, case_expr, case_expr, case_grib]
def case(rng, i, mon):
  signal.signal(signal.SIGALRM, signal.SIG_DFL)
  signal.alarm(150)
  try:
    if i % 400 == 7: case_bigeof(rng, mon)
    elif i % 100 == 3: case_grid(rng, mon)
    else: KINDS[i % len(KINDS)](rng, mon)
  finally: signal.alarm(0)

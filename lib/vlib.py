"""Monitors, generators and the labelled reference model shared by the checks."""
import os, json, hashlib, threading, traceback
import numpy as np

class Stop(Exception): pass

# ---------------------------------------------------------------- monitor
class Monitor(object):
  """Records what was observed. Thread-safe: its state is only touched under its lock."""
  def __init__(self, pid, seed, tier):
    self.pid, self.seed, self.tier = pid, seed, tier
    self.lock = threading.RLock()
    self.case = -1; self.cases = 0
    self.evaluations = 0
    self.counters = {}; self.sigs = set(); self.samples = []; self.failures = []
    self.context = []
  def hit(self, name, n=1):
    with self.lock: self.counters[name] = self.counters.get(name, 0) + n
  def ev(self, *sig):
    """One oracle evaluation; sig describes the case for the distinct count (None: trivial)."""
    with self.lock:
      self.evaluations += 1
      if sig and sig[0] is not None:
        self.sigs.add(hashlib.md5(repr(sig).encode()).hexdigest()[:12])
  def sample(self, text):
    with self.lock:
      if len(self.samples) < 3: self.samples.append(str(text)[:600])
  def fail(self, key, msg):
    with self.lock:
      self.failures.append(dict(key=key, case=self.case, msg=msg + (('\ncontext: ' + ' | '.join(self.context)) if self.context else '')))
  def check(self, cond, key, msg, *sig):
    self.ev(*sig)
    if not cond: self.fail(key, msg() if callable(msg) else msg)
    return bool(cond)
  def same(self, got, want, key, msg='', rtol=0., atol=0., sig=(), dtype=True):
    """got must equal want (shape, NaN positions, values)."""
    self.ev(*sig)
    g, w = np.asarray(got), np.asarray(want)
    text = None
    if g.shape != w.shape: text = 'shape %s, expected %s' % (g.shape, w.shape)
    elif not close(g, w, rtol, atol):
      text = 'values differ%s' % diff_text(g, w)
    if text:
      self.fail(key, '%s: %s' % (msg() if callable(msg) else msg, text)); return False
    return True
  def raises(self, fn, key, msg, kinds=(Exception,)):
    self.ev()
    try: r = fn()
    except kinds: return True
    except Exception as e:
      self.fail(key, '%s: raised %s (%s)' % (msg, type(e).__name__, e)); return False
    self.fail(key, '%s: no error raised, returned %s' % (msg, str(r)[:500])); return False
  def op(self, label, fn):
    """Run an operation of the library which must succeed."""
    try: return fn()
    except Stop: raise
    except Exception as e:
      self.fail('raises:%s:%s' % (label, type(e).__name__), '%s raised %s: %s\n%s' % (label, type(e).__name__, e, traceback.format_exc()[-2500:]))
      raise Stop()
  def dump(self, path):
    with self.lock:
      d = dict(evaluations=self.evaluations, cases=self.cases, counters=self.counters, sigs=list(self.sigs),
               samples=self.samples, failures=self.failures)
      tmp = path + '.tmp'
      with open(tmp, 'w') as f: json.dump(d, f)
      os.replace(tmp, path)

def close(g, w, rtol=0., atol=0.):
  if g.dtype.kind in 'OSU' or w.dtype.kind in 'OSU': return list(map(str, g.ravel())) == list(map(str, w.ravel()))
  if g.dtype.kind == 'c' or w.dtype.kind == 'c':
    return close(g.real, w.real, rtol, atol) and close(g.imag, w.imag, rtol, atol)
  if rtol == 0 and atol == 0 and g.dtype.kind in 'biu' and w.dtype.kind in 'biu': return bool(np.array_equal(g, w))
  g = g.astype('d'); w = w.astype('d')
  with np.errstate(all='ignore'):
    ok = (g == w) | (np.isnan(g) & np.isnan(w))
    if rtol or atol: ok |= np.isfinite(g) & np.isfinite(w) & (np.abs(g - w) <= atol + rtol * np.abs(w))
  return bool(np.all(ok))

def diff_text(g, w):
  try:
    with np.errstate(all='ignore'):
      bad = ~((g == w) | ((g != g) & (w != w)))
      idx = np.argwhere(bad)
      i = tuple(idx[0]) if len(idx) else ()
      d = np.nanmax(np.abs(np.asarray(g, 'd') - np.asarray(w, 'd'))) if g.dtype.kind not in 'OSU' else '?'
    return ': %d of %d differ, first at %s: got %r expected %r, max |diff| %s\ngot  %s\nwant %s' % (len(idx), g.size, list(map(int, i)), g[i], w[i], d,
       np.array2string(g, threshold=60)[:700], np.array2string(w, threshold=60)[:700])
  except Exception as e: return ' (%s)' % e

# ---------------------------------------------------------------- random helpers
def choice(rng, seq): return seq[int(rng.integers(len(seq)))]
def chance(rng, p): return rng.random() < p
def perm(rng, n): return [int(i) for i in rng.permutation(n)]

# ---------------------------------------------------------------- axes
def start_fields(rng, cal):
  from collections import OrderedDict
  y = int(rng.integers(1, 3000)); m = int(rng.integers(1, 13)); d = int(rng.integers(1, 29))
  if cal == 'Yearless': return dict(month=1, day=1)
  f = dict(year=y, month=m, day=d)
  if chance(rng, .4): f['hour'] = int(rng.integers(0, 24))
  if chance(rng, .2): f['minute'] = int(rng.integers(0, 60))
  if chance(rng, .2): f['second'] = int(rng.integers(0, 60))
  return f

def distinct_sorted(rng, n, lo, hi, decimals=1):
  """n distinct values in [lo, hi], increasing, irregularly spaced."""
  step = (hi - lo) / max(n, 1)
  v = lo + step * (np.arange(n) + .1 + .8 * rng.random(n))
  return np.round(v, 6)

AXIS_KINDS = ['Lat', 'Lon', 'Pres', 'Height', 'XAxis', 'YAxis', 'NamedAxis', 'StandardTime', 'ModelTime365', 'ModelTime360', 'Yearless', 'Index', 'Hybrid', 'Station', 'Freq']
GROUP = dict(Lat='Y', YAxis='Y', Lon='X', XAxis='X', Pres='Z', Height='Z', Hybrid='Z', StandardTime='T', ModelTime365='T', ModelTime360='T', Yearless='T',
             NamedAxis='N', Index='I', Station='S', Freq='F')

def make_axis(rng, kind, n, order=None, name=None):
  """An axis of n distinct points; order: 'inc', 'dec', 'any'."""
  import pygeode as pyg
  from pygeode import axis as A, timeaxis as T
  order = order or choice(rng, ['inc', 'inc', 'dec'])
  if kind == 'Lat': v = distinct_sorted(rng, n, -85., 85.)
  elif kind == 'Lon': v = distinct_sorted(rng, n, 0., 350.)
  elif kind == 'Pres': v = distinct_sorted(rng, n, 10., 1000.)
  elif kind == 'Height': v = distinct_sorted(rng, n, 0., 50000.)
  elif kind == 'Hybrid': v = distinct_sorted(rng, n, 0.01, 1.)
  elif kind in ('XAxis', 'YAxis', 'NamedAxis', 'Freq'):
    if chance(rng, .3): v = np.arange(n).astype('d') if chance(rng, .5) else np.arange(n) * 2 + 1
    else: v = distinct_sorted(rng, n, -10., 10.)
  elif kind == 'Index': return A.Index(n)
  elif kind == 'Station':
    lab = ['st%d_%d' % (i, int(rng.integers(1000))) for i in range(n)]
    return A.Station(station=lab, lat=np.round(rng.uniform(-90, 90, n), 2), alt=rng.integers(0, 3000, n))
  else:
    cls = getattr(T, kind)
    units = choice(rng, ['days'] * 8 + ['hours'] * 4 + ['minutes', 'seconds'])
    if chance(rng, .5): v = np.arange(n) * float(choice(rng, [1, 1, 5, 30])) * (1 if units == 'days' else 6)
    else: v = np.sort(rng.permutation(6 * n + 5)[:n]).astype('d') * (1 if units == 'days' else 3)
    if kind == 'Yearless':
      return cls(v, units=units, startdate=dict(day=0))
    if order == 'dec' and chance(rng, .5): v = v[::-1]
    return cls(v, units=units, startdate=start_fields(rng, kind))
  if order == 'dec': v = v[::-1].copy()
  elif order == 'any': v = v[rng.permutation(n)]
  kw = {}
  if kind == 'Hybrid': kw = dict(A=np.round(rng.uniform(0, 1e4, n), 3), B=np.round(rng.uniform(0, 1, n), 5))
  if kind == 'NamedAxis': return A.NamedAxis(v, name=name or choice(rng, ['band', 'lev2', 'mode']))
  cls = getattr(A, kind)
  if kind in ('Lat', 'Pres', 'XAxis', 'Lon', 'YAxis') and chance(rng, .25):
    kw['weights'] = np.round(rng.uniform(.1, 2., n), 4)
  return cls(v, **kw)

def make_axes(rng, ndim, kinds=None, nmax=7, order=None, nmin=1):
  kinds = list(kinds or AXIS_KINDS)
  out = []; used = set()
  while len(out) < ndim:
    k = choice(rng, kinds)
    if GROUP[k] in used: 
      if all(GROUP[q] in used for q in kinds): break
      continue
    used.add(GROUP[k])
    out.append(make_axis(rng, k, int(rng.integers(nmin, nmax + 1)), order))
  return out

# ---------------------------------------------------------------- variables
def make_values(rng, shape, dtype='d', nan=0., positive=False):
  dt = np.dtype(dtype)
  if dt.kind == 'b': return rng.random(shape) < .5
  if dt.kind == 'u': return rng.integers(0, 200, shape).astype(dt)
  if dt.kind == 'i': return rng.integers(0 if positive else -100, 100, shape).astype(dt)
  x = np.round(rng.normal(0., 10., shape), 3)
  if positive: x = np.abs(x) + .5
  if dt.kind == 'c': x = x + 1j * np.round(rng.normal(0., 10., shape), 3)
  if nan: x = np.where(rng.random(shape) < nan, np.nan, x)
  return x.astype(dt)

_src_cache = {}
def source_class():
  """A lazy data source of our own, written against the library's extension interface
  (axes + getview). It logs every request and can delay or fail on demand."""
  if 'c' in _src_cache: return _src_cache['c']
  from pygeode.var import Var
  class RecordingSource(Var):
    def __init__(self, axes, data, name='src', atts=None, plotatts=None):
      self._data = data
      self._log = []
      self._hook = None
      self._loglock = threading.Lock()
      Var.__init__(self, axes, dtype=data.dtype, name=name, atts=atts or {}, plotatts=plotatts or {})
    def getview(self, view, pbar):
      with self._loglock:
        n = len(self._log)
        self._log.append(tuple(tuple(int(j) for j in ind) for ind in view.integer_indices))
      if self._hook is not None: self._hook(n, view)
      out = self._data[np.ix_(*view.integer_indices)] if self._data.ndim else self._data.copy()
      return np.array(out)
  class ChunkSource(Var):
    """A source which can only return contiguous blocks (like a file)."""
    def __init__(self, axes, data, name='src', atts=None, plotatts=None):
      self._data = data
      self._log = []
      self._hook = None
      Var.__init__(self, axes, dtype=data.dtype, name=name, atts=atts or {}, plotatts=plotatts or {})
    def getvalues(self, start, count):
      n = len(self._log)
      self._log.append((tuple(int(s) for s in start), tuple(int(c) for c in count)))
      if self._hook is not None: self._hook(n, None)
      return np.array(self._data[tuple(slice(s, s + c) for s, c in zip(start, count))])
  _src_cache['c'] = (RecordingSource, ChunkSource)
  return _src_cache['c']

def make_var(rng, axes, data, name='v', kind=None, atts=None, plotatts=None):
  """kind: 'mem', 'view', 'chunk'."""
  from pygeode.var import Var
  kind = kind or choice(rng, ['mem', 'view', 'chunk'])
  data = np.array(data)
  if kind == 'mem' or data.ndim == 0:
    return Var(axes, values=data.copy(), name=name, atts=atts, plotatts=plotatts)
  R, C = source_class()
  return (R if kind == 'view' else C)(axes, data, name=name, atts=atts, plotatts=plotatts)

# ---------------------------------------------------------------- selections
def random_selector(rng, n, empty=False):
  """A slice-like selector of an axis of length n, and the integer positions it stands for (numpy semantics)."""
  r = int(rng.integers(0, 9))
  if r == 0: sl = slice(None)
  elif r == 1:
    a, b = sorted(int(x) for x in rng.integers(0, n + 1, 2))
    if a == b: a, b = (a, a + 1) if a < n else (a - 1, a)
    sl = slice(a, b)
  elif r == 2: sl = slice(int(rng.integers(0, n)), None, int(rng.integers(1, n + 1)))
  elif r == 3: sl = slice(None, None, -1)
  elif r == 4:
    a = int(rng.integers(0, n)); sl = slice(a, None, -int(rng.integers(1, n + 1)))
  elif r == 5: sl = int(rng.integers(-n, n))
  elif r == 6: sl = [int(i) for i in np.sort(rng.permutation(n)[:int(rng.integers(1, n + 1))])]
  elif r == 7: sl = [int(i) for i in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
  else:
    a = int(rng.integers(-n, 0)); sl = slice(a, None)
  idx = np.arange(n)[sl]
  idx = np.atleast_1d(idx)
  return sl, idx

def fullsel(data, idxs):
  return data[np.ix_(*idxs)] if data.ndim else data

def axis_sig(a): return (type(a).__name__, len(a))

def describe(v):
  try: return '%s%s %s' % (type(v).__name__, tuple('%s[%d]' % (a.name, len(a)) for a in v.axes), v.dtype)
  except Exception as e: return repr(e)

# snapshot of everything a user can see of a var/axis/dataset
def snap_axis(a):
  d = dict(type=type(a).__name__, name=a.name, values=np.array(a.values, copy=True), atts=dict(a.atts), plotatts=dict(a.plotatts),
    auxatts={k: v for k, v in a.auxatts.items()}, auxarrays={k: np.array(v, copy=True) for k, v in a.auxarrays.items()}, rtol=getattr(a, 'rtol', None))
  if hasattr(a, 'startdate'): d['startdate'] = dict(a.startdate); d['units'] = a.units
  return d

def same_tree(a, b):
  if isinstance(a, dict): return isinstance(b, dict) and list(a) == list(b) and all(same_tree(a[k], b[k]) for k in a)
  if isinstance(a, (list, tuple)): return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same_tree(x, y) for x, y in zip(a, b))
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and close(a, b)
  if isinstance(a, float) and isinstance(b, float) and a != a and b != b: return True
  try: return bool(a == b) or a is b
  except Exception: return a is b

"""C20: partial reads and multi-file reads return the bytes stored for that region."""
N_QUICK = 2600
N_THOROUGH = 40000
BUDGET_QUICK = 60
BUDGET_THOROUGH = 700
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: files written by an independent library are read through random requests and compared with the stored array; a monitor on the opener records which files each request opens'
RULE = ('a case is one file (classic to NetCDF-4, chunked, compressed, several unlimited dimensions, either byte order; 0-5 dimensions) read through random requests with both back ends, or one set of dated files (three calendars; one or many times per file; offsets, step and units; dated by pattern or function) opened together; '
        'non-trivial: a request that is not the whole array; distinct by (kind, back end, file kind, selectors, memory limit class)')
REQUIRE = {'files': 800, 'reads': 5000, 'partial': 4000, 'chunked': 800, 'scattered': 1500, 'nested': 800, 'multi': 250, 'multi_reads': 1000, 'multi_partial': 500, 'openall': 200, 'missing': 30, 'integer_multi': 60, 'untimed': 40, 'checked': 25, 'bad_files': 18, 'by_format': 50, 'decorated_args': 5}
ASSUMPTIONS = ['the netCDF and HDF5 libraries, netCDF4-python and cftime are correct']
import os, shutil, tempfile, warnings, io, contextlib
import numpy as np
import vlib
from vlib import choice, chance

D = None
def case(rng, i, mon):
  global D
  mon.context[:] = []
  if D is None: D = tempfile.mkdtemp(prefix='pgverif_pr_'); import atexit; atexit.register(shutil.rmtree, D, True)
  d = os.path.join(D, 'c%d' % i); os.mkdir(d)
  try:
    with warnings.catch_warnings():
      warnings.simplefilter('ignore')
      (k_multi if i % 5 == 4 else k_openall if i % 10 == 3 else k_file)(rng, d, mon)
  finally:
    shutil.rmtree(d, True)

class limited(object):
  def __init__(self, n): self.n = n
  def __enter__(self):
    import pygeode as pyg
    self.old = pyg.MAX_ARRAY_SIZE
    if self.n: pyg.MAX_ARRAY_SIZE = self.n
  def __exit__(self, *a):
    import pygeode as pyg
    pyg.MAX_ARRAY_SIZE = self.old

def k_file(rng, d, mon):
  import netCDF4 as nc, pygeode as pyg
  fn = os.path.join(d, 'f.nc'); mon.hit('files')
  kind = choice(rng, ['NETCDF3_CLASSIC', 'NETCDF3_64BIT', 'NETCDF4_CLASSIC', 'NETCDF4', 'NETCDF4', 'NETCDF4'])
  nd = int(choice(rng, [0, 1, 2, 2, 3, 3, 4, 5])); shape = [int(rng.integers(1, 7)) for _ in range(nd)]
  names = [choice(rng, ['time', 'lat', 'lon', 'lev', 'x', 'member'])[:4] + str(j) for j in range(nd)]
  unl = [False] * nd
  if nd and chance(rng, .4):
    if kind == 'NETCDF4': unl = [chance(rng, .5) for _ in names]
    else: unl[0] = True
  dts = ['i1', 'i2', 'i4', 'f4', 'f8', 'f8'] + (['u1', 'u2', 'u4', 'i8', 'u8'] if kind == 'NETCDF4' else [])
  data = {}
  with nc.Dataset(fn, 'w', format=kind) as f:
    f.set_auto_mask(False)
    for n, s, u in zip(names, shape, unl): f.createDimension(n, None if u else s)
    for n, s in zip(names, shape):
      if chance(rng, .6): f.createVariable(n, choice(rng, ['f8', 'f4', 'i4']), (n,))[:] = np.cumsum(rng.integers(1, 5, s)) * choice(rng, [1, -1])
    for k in range(int(rng.integers(1, 4))):
      dt = choice(rng, dts)
      use = list(range(nd)) if k == 0 else sorted(int(q) for q in rng.permutation(nd)[:int(rng.integers(0, nd + 1))])
      if k and kind == 'NETCDF4': use = [int(q) for q in rng.permutation(use)]
      if kind != 'NETCDF4' and any(unl) and 0 in use: use = [0] + [q for q in use if q]
      sh = [shape[q] for q in use]
      Y = vlib.make_values(rng, sh, dt) if not chance(rng, .2) else np.arange(int(np.prod(sh)) or 1).reshape(sh).astype(dt)
      if Y.dtype.kind == 'f' and chance(rng, .2): Y = np.where(rng.random(sh) < .2, np.nan, Y).astype(dt)
      kw = {}
      if kind.startswith('NETCDF4') and sh:
        if chance(rng, .3): kw = dict(zlib=True, complevel=1, shuffle=bool(chance(rng, .5)))
        if chance(rng, .3): kw['chunksizes'] = [int(rng.integers(1, s + 1)) for s in sh]
        if chance(rng, .2): kw['endian'] = choice(rng, ['big', 'little'])
        if chance(rng, .1): kw['fletcher32'] = True
      v = f.createVariable('v%d' % k, dt, [names[q] for q in use], **kw); v.set_auto_maskandscale(False)
      v[...] = Y; data['v%d' % k] = (Y, use)
  for fmt in ['netcdf', 'netcdf4']:
    ds = mon.op('open', lambda: pyg.open(fn, format=fmt, **({} if chance(rng, .8) else {'cfmeta': False})))
    for nm, (Y, use) in data.items():
      v = ds[nm]
      for r in range(2):
        requests(rng, v, Y, mon, (fmt, kind, len(use), any(unl)), '%s file read by %s, %s' % (kind, fmt, vlib.describe(v)))

def requests(rng, v, Y, mon, sig, lab):
  from pygeode.view import View
  how = choice(rng, ['slice', 'slice', 'slice', 'whole', 'nested', 'nested', 'transpose', 'view', 'expr', 'sum', 'bracket', 'load'])
  lim = int(choice(rng, [1, 2, 5, 20])) if chance(rng, .3) else 0
  sels = [vlib.random_selector(rng, n) for n in Y.shape]
  S = tuple(s for s, ix in sels); I = [ix for s, ix in sels]; want = Y[np.ix_(*I)] if Y.ndim else Y
  scatter = any(isinstance(s, list) and len(s) > 1 for s in S); part = want.size < Y.size or scatter
  if how in ('whole', 'load', 'sum'): S = (); want = Y; part = False; scatter = False
  mon.context[:] = ['%s: %s %s, memory %s' % (lab, how, S, lim)]; mon.sample(mon.context[0])
  mon.hit('reads'); mon.hit('partial', part); mon.hit('scattered', scatter); mon.hit('chunked', bool(lim))
  kinds = tuple('i' if isinstance(s, int) else 'l' if isinstance(s, list) else 'n' if (s.step or 1) < 0 else 's' if (s.step or 1) > 1 else 'c' for s in S)
  sig = sig + (how, kinds, lim) if Y.size > 1 else ()
  with limited(lim):
    if how == 'whole': got = mon.op('get', lambda: v.get())
    elif how == 'load': got = mon.op('load', lambda: v.load().get())
    elif how == 'slice': got = mon.op('slice', lambda: v.slice[S].get() if Y.ndim else v.get())
    elif how == 'bracket': got = mon.op('bracket', lambda: np.asarray(v[S] if Y.ndim else v.get())); want = want.reshape(got.shape) if got.size == want.size else want
    elif how == 'nested':
      mon.hit('nested'); w = v
      want = Y
      for _ in range(int(rng.integers(2, 4))):
        sl = [vlib.random_selector(rng, n) for n in want.shape]
        if Y.ndim: w = mon.op('slice', lambda: w.slice[tuple(s for s, ix in sl)]); want = want[np.ix_(*[ix for s, ix in sl])]
      got = mon.op('nested', lambda: w.get())
    elif how == 'transpose':
      p = [int(q) for q in rng.permutation(Y.ndim)]
      w = mon.op('transpose', lambda: v.transpose(*p) if Y.ndim else v)
      got = mon.op('transpose', lambda: w.slice[tuple(S[q] for q in p)].get() if Y.ndim else w.get()); want = want.transpose(p)
    elif how == 'view':
      if not Y.ndim: got = mon.op('view', lambda: View(v.axes).get(v))
      else:
        vw = mon.op('view', lambda: View(v.axes, tuple(s % n if isinstance(s, int) else s for s, n in zip(S, Y.shape)))); got = mon.op('view', lambda: vw.get(v)); want = want.reshape(got.shape) if got.size == want.size else want
    elif how == 'expr':
      w = v * 1 + 0 if Y.dtype.kind != 'u' else v * 1
      got = mon.op('expr', lambda: w.slice[S].get() if Y.ndim else w.get())
    else:
      if Y.dtype.kind not in 'iu' or not Y.ndim: return
      j = int(rng.integers(Y.ndim)); got = mon.op('max', lambda: v.max(j).get()); want = Y.max(axis=j)
  mon.same(got, want, 'read', 'the values read', sig=sig)
  if chance(rng, .15): mon.same(mon.op('again', lambda: v.get()), Y, 'again', 'the whole array read afterwards', sig=sig)

# ------------------------------------------------------------------ several files
STEP = {'standard': None, '365_day': None, '360_day': None}
def write_time_file(fn, cal, dates, ref, units, lat, arrays, rng, fmt, timevar=True, extra=None):
  import netCDF4 as nc, cftime
  with nc.Dataset(fn, 'w', format=fmt) as f:
    f.createDimension('time', None if fmt == 'NETCDF4' else len(dates)); f.createDimension('lat', len(lat))
    y = f.createVariable('lat', 'f8', ('lat',)); y[:] = lat; y.units = 'degrees_north'
    if timevar:
      t = f.createVariable('time', 'f8', ('time',)); t.units = '%s since %04d-%02d-%02d %02d:00:00' % ((units,) + ref); t.calendar = cal
      t[:] = [(q - cftime.datetime(*ref, calendar=cal)).total_seconds() / {'days': 86400., 'hours': 3600.}[units] for q in dates]
    for n, (dims, Y) in arrays.items():
      v = f.createVariable(n, Y.dtype, dims); v.set_auto_maskandscale(False); v[...] = Y; v.setncattr('long_name', n)
    for k, w in (extra or {}).items(): f.setncattr(k, w)

def k_multi(rng, d, mon):
  import cftime, pygeode as pyg
  from datetime import timedelta
  cal = choice(rng, ['standard', '365_day', '360_day']); K = int(rng.integers(2, 8))
  mode = choice(rng, ['month', 'month', 'day', 'hour', 'year', 'one', 'one', 'untimed', 'untimed'])
  if mode == 'untimed': cal = 'standard'      # a calendar cannot be told from the files
  y0, m0 = int(rng.integers(1950, 2020)), int(rng.integers(1, 13))
  units = choice(rng, ['days', 'hours']); common = chance(rng, .5)
  starts = []
  dt0 = cftime.datetime(y0, m0, 1, 0, calendar=cal)
  def month(k): return cftime.datetime(y0 + (m0 - 1 + k) // 12, (m0 - 1 + k) % 12 + 1, 1, calendar=cal)
  files = []; nper = None
  if mode == 'month': starts = [month(k) for k in range(K + 1)]; step = timedelta(days=int(choice(rng, [1, 1])) ) if chance(rng, .6) else timedelta(hours=12)
  elif mode == 'year': starts = [cftime.datetime(y0 + k, 1, 1, calendar=cal) for k in range(K + 1)]; step = timedelta(days=1)
  elif mode == 'day': L = int(choice(rng, [1, 2, 5])); starts = [dt0 + timedelta(days=L * k) for k in range(K + 1)]; step = timedelta(hours=int(choice(rng, [3, 6, 12])))
  elif mode == 'hour': starts = [dt0 + timedelta(hours=6 * k) for k in range(K + 1)]; step = timedelta(hours=int(choice(rng, [1, 3])))
  else:
    gaps = rng.integers(1, 40, K) if chance(rng, .5) else np.full(K, int(choice(rng, [1, 5, 30])))
    starts = [dt0]
    for g in gaps: starts.append(starts[-1] + timedelta(days=int(g)))
    step = None
  off = timedelta(0) if mode == 'untimed' or chance(rng, .6) else timedelta(hours=1 if mode == 'hour' and step == timedelta(hours=3) else 0 if mode == 'hour' else choice(rng, [1, 2]))
  if mode == 'one' and chance(rng, .3): off = timedelta(hours=int(choice(rng, [12, 6])))
  nlat = int(rng.integers(1, 5)); lat = np.linspace(-60, 60, nlat) if nlat > 1 else np.array([10.])
  dtypes = {'T': choice(rng, ['f8', 'f4']), 'N': choice(rng, ['i4', 'i2'])}
  lead = chance(rng, .7)
  fmtname = choice(rng, ['$Y$m$d$H', 'date_$Y-$m-$d_$H', '$Y/$m$d$H'[0:0] + 'r$Y$m$d$H', 'fn'])
  times = []; which = []; parts = {n: [] for n in dtypes}
  fmt = choice(rng, ['NETCDF3_CLASSIC', 'NETCDF4'])
  ref0 = (y0 - int(rng.integers(0, 3)), 1, 1, 0) if common else None
  for k in range(K):
    s, e = starts[k], starts[k + 1]
    if step is None: ts = [s + off]
    else:
      ts = []; t = s + off
      while t < e: ts.append(t); t = t + step
    stem = {'fn': 'part%02d' % k}.get(fmtname) or fmtname.replace('$Y', '%04d' % s.year).replace('$m', '%02d' % s.month).replace('$d', '%02d' % s.day).replace('$H', '%02d' % s.hour)
    # the alphabetical order need not be the order of the dates
    if fmtname == 'fn' and chance(rng, .5): stem = '%03d_%s' % (int(rng.integers(1000)), stem)
    fn = os.path.join(d, stem + '.nc'); files.append(fn)
    A = {}
    for n, dt in dtypes.items():
      Y = vlib.make_values(rng, (len(ts), nlat), dt)
      if dt[0] == 'f' and chance(rng, .3): Y[rng.random(Y.shape) < .2] = np.nan
      parts[n].append(Y); dims = ('time', 'lat') if lead else ('lat', 'time'); A[n] = (dims, Y if lead else Y.T)
      if mode == 'untimed': A[n] = (('lat',), Y[0])
    write_time_file(fn, cal, ts, ref0 or (s.year, s.month, s.day, s.hour), units, lat, A, rng, fmt, mode != 'untimed', {'source': 'model', 'part': k})
    times += ts; which += [k] * len(ts)
  full = {n: np.concatenate(p) for n, p in parts.items()}; which = np.array(which)
  calls = []
  back = choice(rng, ['netcdf', 'netcdf4'])
  def opener(f, **kw):
    tags.append(kw.pop('tag', None)); calls.append(f); return pyg.open(f, format=back, **kw)
  tags = []
  byname = {f: s for f, s in zip(files, starts)}
  def file2date(f): s = byname[f]; return dict(year=s.year, month=s.month, day=s.day, hour=s.hour, minute=0, second=0)
  kw = dict(opener=opener); how = 'opener'
  if chance(rng, .25):
    # the format by name, as a module, or told from the file names
    how = choice(rng, ['name', 'module', 'auto', 'decorated']); mon.hit('by_format')
    if how == 'name': kw = dict(format=back)
    elif how == 'module': import importlib; kw = dict(format=importlib.import_module('pygeode.formats.' + back))
    elif how == 'auto': kw = {}
    if how != 'decorated' and chance(rng, .4): kw['namemap'] = {}
    elif how == 'decorated' and chance(rng, .7): kw['tag'] = 'given'; mon.hit('decorated_args')
  if fmtname == 'fn': kw['file2date'] = file2date
  else: kw['pattern'] = fmtname
  T = {'standard': 'StandardTime', '365_day': 'ModelTime365', '360_day': 'ModelTime360'}[cal]
  arg = os.path.join(d, '*.nc') if chance(rng, .6) else [files[q] for q in rng.permutation(K)]
  lab = '%d %s files (%s, %s, %s, offset %s, %s, %s)' % (K, mode, cal, units, 'common reference' if common else 'own reference', off, fmtname, back)
  mon.context[:] = [lab]; mon.sample(lab); mon.hit('multi'); mon.hit('untimed', mode == 'untimed')
  from pygeode.formats.multifile import multifile
  def open_them(arg, **k): return multifile(k.pop('opener'))(arg, **k) if how == 'decorated' else pyg.open_multi(arg, **k)
  ds = mon.op('open_multi (%s)' % how, lambda: open_them(arg, **kw))
  sig0 = ('multi', mode, cal, units, common, fmtname, back, K)
  if how in ('opener', 'decorated'): mon.check(set(tags) == {kw.get('tag')}, 'opener-args', 'the opener was given %s, asked for %s' % (tags, kw.get('tag')), *sig0)
  ends = {files[0], files[-1], min(files)}     # the first by name tells the calendar
  mon.check(set(calls) <= ends, 'opened', 'opening looked into %s' % sorted(os.path.basename(c) for c in set(calls) - ends), *sig0)
  mon.check(sorted(v.name for v in ds.vars) == sorted(dtypes), 'names', '%s' % [v.name for v in ds.vars], *sig0)
  for n, Y in full.items():
    v = ds[n]; it = v.whichaxis('time'); t = v.axes[it]
    mon.check(type(t).__name__ == T and len(t) == len(times), 'time', 'time axis %r, expected %d times of %s' % (t, len(times), T), *sig0)
    if len(t) != len(times): return
    want = np.array([(q.year, q.month, q.day, q.hour) for q in times])
    mon.same(np.stack([np.asarray(t.auxarrays[f]) for f in ('year', 'month', 'day', 'hour')], 1), want, 'time', 'the dates', sig=sig0)
    jl = 1 - it
    mon.check(v.axes[jl].name == 'lat' and v.dtype == Y.dtype, 'meta', '%s %s' % (v.axes, v.dtype), *sig0)
    if Y.dtype.kind == 'i': mon.hit('integer_multi')
    for _ in range(4):
      whole = chance(rng, .2)
      (S1, I1), (S2, I2) = vlib.random_selector(rng, len(times)), vlib.random_selector(rng, nlat)
      if whole: S1, I1, S2, I2 = slice(None), np.arange(len(times)), slice(None), np.arange(nlat)
      S = [None, None]; S[it] = S1; S[jl] = S2
      lim = int(choice(rng, [1, 3, 10])) if chance(rng, .2) and len(I1) < 60 else 0
      mon.context[:] = ['%s: %s%s memory %s' % (lab, n, S, lim)]; mon.hit('multi_reads'); mon.hit('multi_partial', not whole)
      del calls[:]
      with limited(lim): got = mon.op('read', lambda: v.slice[tuple(S)].get())
      w = Y[np.ix_(I1, I2)]
      mon.same(got, w if it == 0 else w.T, 'multi', 'values of the requested times', sig=sig0 + (isinstance(S1, list), lim, whole))
      need = {files[which[q]] for q in I1}
      mon.check(set(calls) <= need, 'opened', 'opened %s, needed only %s' % (sorted(map(os.path.basename, set(calls) - need)), sorted(map(os.path.basename, need))), *sig0)
  # dates by name
  if mode != 'untimed' and cal == 'standard':
    q = int(rng.integers(len(times))); q2 = int(rng.integers(q, len(times))); v = ds['T']
    a, b = ['%d:00 %d %s %d' % (x.hour, x.day, ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec'][x.month - 1], x.year) for x in (times[q], times[q2])]
    w = mon.op('dates', lambda: v(time=(a, b)).transpose('time', 'lat').get()); mon.same(w, full['T'][q:q2 + 1], 'dates', 'times %s to %s' % (a, b), sig=sig0)
  if mode in ('month', 'day', 'hour') and chance(rng, .5) and 2 < K and len(times) < 200:
    mon.hit('checked'); from pygeode.formats.multifile import check_multi
    def run():
      buf = io.StringIO()
      with contextlib.redirect_stdout(buf): check_multi(arg, **{q: w for q, w in kw.items() if q != 'tag'})
      return buf.getvalue()
    k = int(rng.integers(1, K - 1)); mine = [q for q in range(len(times)) if which[q] == k]
    bad = choice(rng, ['none', 'none', 'lost', 'short', 'novar', 'novars', 'extra', 'broken', 'overlap'])
    if files[k] == min(files): bad = 'none'      # (opened first, for its calendar)
    if bad == 'short' and len(mine) < 2: bad = 'none'
    if bad == 'overlap' and off: bad = 'none'
    fk = files[k]; s = starts[k]
    if bad == 'none':
      # every file is complete: the validator agrees
      out = mon.op('check_multi', run)
      mon.check('without any errors' in out and 'ERROR' not in out and 'One or more' not in out, 'validate', 'complete files: %s' % out[-600:], *sig0)
      mon.check([l for l in out.split('\n') if l.startswith('Scanning')] == ['Scanning ' + f for f in files], 'validate', 'files scanned: %s' % out[-600:], *sig0)
    else:
      mon.hit('bad_files'); mon.context[:] = ['%s: file %d %s' % (lab, k, bad)]
      if isinstance(arg, list) and bad == 'lost': arg = os.path.join(d, '*.nc')
      aside = os.path.join(d, 'aside'); os.rename(fk, aside)      # (pygeode may still have it open)
      A = {n: (('time', 'lat') if lead else ('lat', 'time'), full[n][mine] if lead else full[n][mine].T) for n in full}; ts = [times[q] for q in mine]
      if bad == 'short': ts = ts[:-1]; A = {n: (dm, Y[:-1] if lead else Y[:, :-1]) for n, (dm, Y) in A.items()}
      if bad == 'overlap': ts = ts + [times[mine[-1] + 1]]; A = {n: (dm, np.concatenate([Y, Y[:1]], 0) if lead else np.concatenate([Y, Y[:, :1]], 1)) for n, (dm, Y) in A.items()}
      if bad == 'novar': del A['N']
      if bad == 'novars': A = {'X': A['T']}
      if bad == 'extra': A['X'] = A['T']
      if bad == 'broken':
        with open(fk, 'wb') as f: f.write(b'this is not a file\n' * 3)
      elif bad != 'lost': write_time_file(fk, cal, ts, ref0 or (s.year, s.month, s.day, s.hour), units, lat, A, rng, fmt, True, {'source': 'model', 'part': k})
      out = mon.op('check_multi', run)
      os.path.exists(fk) and os.unlink(fk); os.rename(aside, fk)
      mon.check('One or more errors' in out and 'without any errors' not in out, 'validate-bad', '%s file is not reported: %s' % (bad, out[-800:]), *sig0 + (bad,))
      # what is said about each file, and the summary
      parts, cur = {}, None
      for l in out.split('\n'):
        if l.startswith('Scanning '): cur = l[9:]; parts[cur] = []
        elif l.startswith('ERROR'): cur = 'all'; parts.setdefault('all', []).append(l)
        elif l.strip() and cur: parts[cur].append(l)
      word = {'novar': "missing variable 'N'", 'novars': "missing variable 'T'", 'extra': "unexpected variable 'X'", 'broken': 'open', 'overlap': 'beyond'}.get(bad)
      if word: mon.check(any(word in l for l in parts.get(fk, [])), 'validate-bad', '%s: file %s: %s' % (bad, os.path.basename(fk), parts.get(fk)), *sig0 + (bad,))
      else: mon.check(any('coverage' in l for l in parts.get('all', [])) and (files[k - 1] if bad == 'lost' else fk) in parts['all'], 'validate-bad', '%s: %s' % (bad, parts.get('all')), *sig0 + (bad,))
      if bad in ('novar', 'novars', 'extra'): mon.check(not any('timestep' in l for l in parts.get(fk, [])), 'validate-bad', '%s: file %s: %s' % (bad, os.path.basename(fk), parts.get(fk)), *sig0 + (bad,))
      wrong = [f for f in files if f != fk and any('ERROR' in l for l in parts.get(f, [])) and not (bad in ('overlap', 'lost') and f in (files[k - 1], files[k + 1]))]
      mon.check(not wrong, 'validate-good', '%s %s: errors in other files %s' % (bad, os.path.basename(fk), [(f, parts[f]) for f in wrong][:2]), *sig0 + (bad,))
  if mode in ('month', 'day', 'hour', 'year') and K > 2 and chance(rng, .6):
    # a file is gone: its times are refused, the others are still read
    k = int(rng.integers(1, K - 1)); os.unlink(files[k]); mon.hit('missing')
    # or it does not hold the variable, or holds other times, or cannot be read
    loss = choice(rng, ['gone', 'gone', 'novar', 'elsewhere', 'broken']) if files[k] != min(files) else 'gone'; mon.context.append(loss); mon.hit('loss_' + loss)
    if loss != 'gone':
      mine = [q for q in range(len(times)) if which[q] == k]; s = starts[k]; shift = timedelta(days=7200 if loss == 'elsewhere' else 0)
      A = {n: (('time', 'lat') if lead else ('lat', 'time'), full[n][mine] if lead else full[n][mine].T) for n in full}
      if loss == 'novar': A = {'N': A['N']}
      if loss == 'broken':
        with open(files[k], 'wb') as f: f.write(b'CDF\x01 nothing of use\n' * 3)
      else: write_time_file(files[k], cal, [times[q] + shift for q in mine], ref0 or (s.year, s.month, s.day, s.hour), units, lat, A, rng, fmt, True, {'source': 'model', 'part': k})
    v = ds['T'] if chance(rng, .5) else mon.op('open_multi', lambda: open_them(os.path.join(d, '*.nc'), **kw))['T']
    if len(v.getaxis('time')) != len(times): return mon.check(False, 'missing', 'without file %d there are %d times' % (k, len(v.getaxis('time'))))
    it = v.whichaxis('time'); keep = np.where(which != k)[0]
    mon.raises(lambda: v.get(), 'missing', 'reading times of a file which is %s (%s)' % (loss, os.path.basename(files[k])))
    pick = [int(q) for q in keep[np.sort(rng.permutation(len(keep))[:8])]]; S = [slice(None)] * 2; S[it] = pick
    got = mon.op('rest', lambda: v.slice[tuple(S)].get()); w = full['T'][pick]
    mon.same(got, w if it == 0 else w.T, 'rest', 'times of the other files', sig=sig0)

def k_openall(rng, d, mon):
  """Files joined along whatever axis differs."""
  import netCDF4 as nc, pygeode as pyg
  mon.hit('openall'); along = choice(rng, ['lat', 'time', 'z']); K = int(rng.integers(1, 6)); n2 = int(rng.integers(1, 4))
  lens = [int(rng.integers(1, 4)) for _ in range(K)]; tot = sum(lens)
  vals = np.sort(rng.permutation(80)[:tot]) * 1. - (40 if along == 'lat' else 0)
  pieces = np.split(vals, np.cumsum(lens)[:-1]); order = rng.permutation(K)
  back = choice(rng, ['netcdf', 'netcdf4']); srt = chance(rng, .7); dt = choice(rng, ['f4', 'f8', 'i4', 'i2']); lead = chance(rng, .7)
  full = vlib.make_values(rng, (tot, n2), dt); bounds = np.concatenate([[0], np.cumsum(lens)])
  names = []
  for pos, k in enumerate(order):
    fn = os.path.join(d, 'p%d_%d.nc' % (pos, k)); names.append(fn)
    with nc.Dataset(fn, 'w', format=choice(rng, ['NETCDF3_CLASSIC', 'NETCDF4'])) as f:
      f.createDimension(along, lens[k]); f.createDimension('x', n2)
      c = f.createVariable(along, 'f8', (along,)); c[:] = pieces[k]; c.units = {'lat': 'degrees_north', 'time': 'days since 2001-01-01', 'z': 'm'}[along]
      if along == 'time': c.calendar = 'noleap'
      f.createVariable('x', 'f8', ('x',))[:] = np.arange(n2) * 2.
      v = f.createVariable('T', dt, (along, 'x') if lead else ('x', along)); v[...] = full[bounds[k]:bounds[k + 1]] if lead else full[bounds[k]:bounds[k + 1]].T
      w = f.createVariable('fixed', 'f8', ('x',)); w[:] = np.arange(n2)
      f.title = 'whole'; f.part = int(k)
  lab = 'openall along %s, %d files in order %s, sorted %s, %s' % (along, K, list(map(int, order)), srt, back)
  mon.context[:] = [lab]; mon.sample(lab)
  kw = dict(format=back); calls = []; keep = list(range(K))
  if chance(rng, .3):
    def opener(f, **k2):
      calls.append(f); return pyg.open(f, format=back, **k2)
    kw = dict(opener=opener)
  arg = os.path.join(d, 'p*.nc') if srt and chance(rng, .6) else names
  ds = mon.op('openall', lambda: pyg.openall(arg, sorted=srt, **kw))
  if 'opener' in kw: mon.check(sorted(calls) == sorted(names), 'opened', 'opened %s' % calls)
  seq = np.arange(tot) if srt else np.concatenate([np.arange(bounds[k], bounds[k + 1]) for k in order]).astype(int)
  sig = ('openall', along, K, srt, back, lead)
  v = ds['T']; j = 0 if lead else 1
  if not mon.check([a.name for a in v.axes] == ([along, 'x'] if lead else ['x', along]) and len(v.axes[j]) == tot, 'axes', '%s' % (v.axes,), *sig): return
  a = v.axes[j]; got = np.asarray(a.values, 'd') 
  if along == 'time': mon.same(np.asarray(pyg.timeutils.reltime(a, startdate=dict(year=2001, month=1, day=1), units='days'), 'd'), vals[seq], 'coordinates', along, sig=sig)
  else: mon.same(got, vals[seq], 'coordinates', along, sig=sig)
  want = full[seq]; want = want if lead else want.T
  mon.same(mon.op('get', lambda: v.get()), want, 'joined', 'values', sig=sig)
  mon.check(v.dtype == np.dtype(dt), 'dtype', '%s' % v.dtype, *sig)
  for _ in range(3):
    sels = [vlib.random_selector(rng, n) for n in want.shape]
    mon.same(mon.op('slice', lambda: v.slice[tuple(s for s, ix in sels)].get()), want[np.ix_(*[ix for s, ix in sels])], 'joined-part', '%s' % [s for s, ix in sels], sig=sig + ('part',))
  w = mon.op('fixed', lambda: ds['fixed'].get())       # one along a new axis for each file
  mon.same(w, np.arange(n2) * 1. if K == 1 else np.repeat(np.arange(n2) * 1., K).reshape(n2, K), 'fixed', 'the variable common to all files', sig=sig)
  mon.check(ds.atts.get('title') == 'whole' and (K == 1 or 'part' not in ds.atts), 'atts', '%s' % ds.atts, *sig)

"""C19: a dataset saved to NetCDF reads back as the same dataset."""
N_QUICK = 5000
N_THOROUGH = 40000
BUDGET_QUICK = 100
BUDGET_THOROUGH = 700
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: random datasets are saved and opened again by the real back ends; an oracle compares every variable, axis, auxiliary array and attribute with the originals, and snapshots show that saving altered nothing'
RULE = ('a case is one dataset (1-5 variables on subsets of 1-4 axes of mixed kinds; in memory, lazy, chunk-reading or derived; all integer and floating types, missing and infinite values, attributes) saved with one combination of back end, file version, compression, unlimited axis, packing, CF metadata, memory limit, '
        'and opened by the same or the other back end, with and without renaming, selection and axis types; non-trivial: at least one variable with an axis; distinct by (back end, version, options, axis kinds, dtypes)')
REQUIRE = {'saved': 1500, 'variables': 4000, 'axes': 5000, 'attributes': 8000, 'packed': 300, 'nan_values': 500, 'cross_backend': 400, 'unlimited': 300, 'compressed': 300, 'chunked': 300, 'stations': 200, 'times': 700, 'weights': 400, 'groups': 80, 'open_options': 200, 'override': 80, 'time_arrays': 150, 'odd_names': 100, 'climatologies': 60, 'refused_options': 300, 'raw': 150}
ASSUMPTIONS = ['the netCDF and HDF5 libraries and netCDF4-python are correct', 'data types a file version cannot hold may be refused', 'attributes reserved by the CF conventions may be added on reading']
import os, shutil, tempfile, warnings
import numpy as np
import vlib
from vlib import choice, chance

RESERVED = {'standard_name', 'coordinates', 'ancillary_variables', 'Conventions', 'featureType', 'axis', 'units', 'calendar', 'positive', 'packing_convention'}
D = None

def case(rng, i, mon):
  global D
  mon.context[:] = []
  if D is None: D = tempfile.mkdtemp(prefix='pgverif_nc_'); import atexit; atexit.register(shutil.rmtree, D, True)
  fn = os.path.join(D, 'f%d.nc' % i)
  try:
    with warnings.catch_warnings():
      warnings.simplefilter('ignore')
      k_group(rng, fn, mon) if i % 25 == 24 else k_names(rng, fn, mon) if i % 25 == 12 else k_save(rng, fn, mon)
  finally:
    if os.path.exists(fn): os.unlink(fn)

def attributes(rng, n=None):
  out = {}
  for j in range(int(rng.integers(0, 5)) if n is None else n):
    nm = choice(rng, ['long_name', 'history', 'source', 'valid', 'count', 'title', 'note', 'level_desc', 'x_%d' % j])
    out[nm] = choice(rng, [lambda: 'some text', lambda: 'Temp\u00e9rature \u2103', lambda: 'line one\nline two', lambda: int(rng.integers(-1000, 1000)), lambda: float(np.round(rng.normal(), 4)), lambda: np.float32(2.5),
                           lambda: np.int16(7), lambda: np.round(rng.normal(size=3), 3), lambda: np.arange(4, dtype='i4'), lambda: [1.5, 2.5], lambda: np.float64(1e300), lambda: 2 ** 31 - 1, lambda: ' padded ', lambda: np.int32(-5)])()
    if nm in ('long_name', 'title'): out[nm] = choice(rng, ['some text', 'Temp\u00e9rature \u2103', 'line one\nline two'])
  return out

def build_axes(rng, mon):
  import pygeode as pyg
  from pygeode import axis as A
  kinds = ['Lat', 'YAxis', 'Lon', 'XAxis', 'Pres', 'Hybrid', 'StandardTime', 'ModelTime365', 'ModelTime360', 'Yearless', 'NamedAxis', 'Station', 'StandardTime', 'ZAxis', 'Dummy', 'gauss']
  out = []; used = set()
  for _ in range(int(rng.integers(1, 5))):
    k = choice(rng, kinds); g = dict(vlib.GROUP, ZAxis='Z', Dummy='D', gauss='Y')[k]
    if g in used: continue
    used.add(g); n = int(rng.integers(1, 8))
    if k == 'gauss': a = pyg.gausslat(max(2, n))
    elif k == 'ZAxis': a = A.ZAxis(np.round(np.cumsum(rng.uniform(.1, 5, n)), 4))
    elif k == 'Dummy': a = A.DummyAxis(n, name='obs')
    else: a = vlib.make_axis(rng, k, n, order=choice(rng, ['inc', 'dec', 'any']) if 'Time' not in k and k != 'Yearless' else None)
    if k not in ('Station', 'Dummy') and 'Time' not in k and k != 'Yearless' and chance(rng, .3):
      dt = choice(rng, ['f', 'd', 'i4'])
      v = np.asarray(a.values).astype(dt)
      if len(np.unique(v)) == len(v): a = a.withnewvalues(v) if False else type(a)(v, name=a.name, **{q: w for q, w in a.auxarrays.items()})
    if k in ('StandardTime', 'ModelTime365', 'ModelTime360') and chance(rng, .15):   # a climatology: dates without years
      mon.hit('climatologies'); from pygeode import timeaxis as TX
      q = np.sort(rng.permutation(12)[:n]) + 1; f = {'month': q, 'day': rng.integers(1, 29, size=len(q))}
      if chance(rng, .3): f['hour'] = rng.integers(0, 24, size=len(q))
      a = getattr(TX, k)(startdate=choice(rng, [{'month': 1, 'day': 1}, {'month': 1}]), units=choice(rng, ['days', 'hours']), **f)
    if ('Time' in k or k == 'Yearless') and chance(rng, .25):     # arrays which are not part of the date
      mon.hit('time_arrays'); e = {}
      if chance(rng, .7): e['weights'] = np.round(rng.uniform(.5, 2, len(a)), 3)
      if chance(rng, .6): e['score'] = np.round(rng.normal(size=len(a)), 3).astype(choice(rng, ['d', 'f', 'i4']))
      a = type(a)(np.array(a.values), startdate=dict(a.startdate), units=a.units, name=a.name, atts=dict(a.atts), **e) if 'year' in a.auxarrays or k == 'Yearless' else type(a)(startdate=dict(a.startdate), units=a.units, name=a.name, **dict({q: w for q, w in a.auxarrays.items()}, **e))
    if k not in ('Dummy', 'Station') and chance(rng, .3): a.atts.update(attributes(rng, 2))
    if chance(rng, .25) and k not in ('Station', 'Hybrid'): a = a.rename({'Y': 'south_north', 'X': 'west_east', 'Z': 'level', 'T': 'when', 'N': 'member', 'D': 'record'}[g])
    out.append(a)
  # the arrays of a station axis are saved under their own names
  names = [a.name for a in out]
  if any(q in names for a in out if isinstance(a, A.Station) for q in a.auxarrays if q != 'station'): out = [a for a in out if not isinstance(a, A.Station)]
  return out

def build(rng, mon, fmt, version, packed):
  from pygeode.var import Var
  axes = build_axes(rng, mon)
  ok = ['d', 'd', 'd', 'f', 'f', 'i1', 'i2', 'i4']
  if version == 4 or fmt == 'netcdf': ok += ['u1', 'u2', 'u4', 'i8'] 
  if version == 4: ok += ['u8', 'i8']
  vs = []
  for j in range(int(rng.integers(1, 5))):
    m = [int(q) for q in rng.permutation(len(axes))[:int(rng.integers(0, len(axes) + 1))]]
    if chance(rng, .6): m = sorted(m)
    if j == 0 and not m: m = [0]
    ax = [axes[q] for q in m]; shape = [len(a) for a in ax]; dt = choice(rng, ok) if not packed else choice(rng, ['d', 'f', 'f', 'i4', 'i2'])
    Y = vlib.make_values(rng, shape, dt)
    if np.dtype(dt).kind == 'f':
      Y = (Y * float(choice(rng, [1, 1e-6, 1e8])) + float(choice(rng, [0, 0, 300.]))).astype(dt)
      if chance(rng, .4): Y = np.where(rng.random(shape) < choice(rng, [.2, .2, 1.]), np.array(np.nan, dt), Y).astype(dt)
      if not packed and chance(rng, .15): Y = np.where(rng.random(shape) < .2, np.array(choice(rng, [np.inf, -np.inf]), dt), Y).astype(dt)
    elif chance(rng, .3) and Y.size and not packed: Y = Y.copy(); ii = np.iinfo(dt); Y.ravel()[0] = ii.max if dt != 'i8' and dt != 'u8' or version == 4 else 2 ** 40; Y.ravel()[-1] = ii.min if dt != 'i8' or version == 4 else -2 ** 40
    if packed and chance(rng, .15): Y = np.full(shape, 3, dt)
    nm = choice(rng, ['T', 'U', 'precip', 'Z500', 'A', 'weights', 'flux_1']) + ('' if chance(rng, .7) else '_%d' % j)
    if nm in [v.name for v, _ in vs] or nm in [a.name for a in axes]: nm = 'v%d' % j
    at = attributes(rng); 
    if chance(rng, .5): at['units'] = choice(rng, ['K', 'm s-1', '%'])
    v = vlib.make_var(rng, ax, Y, name=nm, atts=at, plotatts={'plottitle': 'title'})
    if dt == 'd' and chance(rng, .15): v = (v * 2.).rename(nm); Y = Y * 2.; at = dict(v.atts)
    vs.append((v, Y))
  return vs, attributes(rng)

def stored(dt, fmt, version):
  if version == 4: return np.dtype(dt)
  return np.dtype({'u1': 'i2', 'u2': 'i4', 'u4': 'd', 'i8': 'd', 'u8': 'd'}.get(np.dtype(dt).str[1:], dt))

def same_att(a, b):
  if isinstance(a, str) or isinstance(b, str): return isinstance(a, str) and isinstance(b, str) and a == b
  a, b = np.ravel(a), np.ravel(b)
  return a.shape == b.shape and bool(np.all(a == b)) and (a.dtype.kind == b.dtype.kind or {a.dtype.kind, b.dtype.kind} <= set('iuf'))

def atts_ok(mon, want, got, what, sig, fixed=()):
  mon.hit('attributes', len(want))
  for k, w in want.items():
    if k in fixed: continue
    if not mon.check(k in got and same_att(w, got[k]), 'attribute', 'attribute %s of %s is %r, was %r' % (k, what, got.get(k, 'missing'), w), *sig): return
  extra = set(got) - set(want) - RESERVED
  mon.check(not extra, 'extra-attribute', 'attributes %s of %s appeared' % (sorted(extra), what), *sig)

TIMEF = ('year', 'month', 'day', 'hour', 'minute', 'second')
def axis_ok(mon, a, b, sig, cf):
  from pygeode import axis as A, timeaxis as TX
  mon.hit('axes')
  what = 'axis %s <%s>' % (a.name, type(a).__name__)
  if not mon.check(b.name == a.name and len(b) == len(a), 'axis-name', '%s came back as %s of %d' % (what, b.name, len(b)), *sig): return
  if not cf:
    if not isinstance(a, (A.NonCoordinateAxis, A.DummyAxis)): mon.same(b.values, np.asarray(a.values), 'axis-values', what, sig=sig)
    return
  if isinstance(a, A.DummyAxis): mon.check(type(b) is A.NamedAxis or isinstance(b, A.DummyAxis), 'axis-kind', '%s came back as %s' % (what, type(b).__name__), *sig); mon.same(np.asarray(b.values, 'd'), np.arange(len(a)) * 1., 'axis-values', what, sig=sig); return
  if not mon.check(type(b) is type(a), 'axis-kind', '%s came back as %s' % (what, type(b).__name__), *sig): return
  aux, got = dict(a.auxarrays), dict(b.auxarrays)
  if isinstance(a, TX.Time):
    mon.hit('times'); st = {k: int(v) for k, v in a.startdate.items() if int(v) != (1 if k in ('month', 'day') else 0) or k == 'year'}
    bt = {k: int(v) for k, v in b.startdate.items() if int(v) != (1 if k in ('month', 'day') else 0) or k == 'year'}
    mon.check(b.units == a.units and (type(a).__name__ == 'Yearless' or st == bt), 'time-units', '%s in %s since %s came back in %s since %s' % (what, a.units, a.startdate, b.units, b.startdate), *sig)
    mon.same(np.asarray(b.values, 'd'), np.asarray(a.values, 'd'), 'time-values', what, sig=sig)
  elif isinstance(a, A.NonCoordinateAxis): mon.hit('stations')
  else: mon.check(np.asarray(b.values).dtype == np.asarray(a.values).dtype or np.asarray(a.values).dtype == np.int64, 'axis-dtype', '%s %s came back as %s' % (what, a.values.dtype, b.values.dtype), *sig); mon.same(np.asarray(b.values), np.asarray(a.values).astype(b.values.dtype), 'axis-values', what, sig=sig)
  if 'weights' in aux: mon.hit('weights')
  if isinstance(a, TX.Time) and 'year' not in aux and type(a).__name__ != 'Yearless':
    more = [q for q in got if q in TIMEF and q not in aux]; mon.check('year' not in got and all((np.asarray(got[q]) == (1 if q in ('month', 'day') else 0)).all() for q in more), 'climatology', '%s with dates %s came back with %s' % (what, aux, got), *sig)
    for q in more: got.pop(q)
  if mon.check(set(aux) == set(got), 'aux', '%s with arrays %s came back with %s' % (what, sorted(aux), sorted(got)), *sig):
    for k, w in aux.items():
      w = np.asarray(w); z = np.asarray(got[k])
      mon.check(z.shape == w.shape and (list(z) == list(w) if w.dtype.kind in 'USO' else np.array_equal(z, w)), 'aux', 'array %s of %s is %s, was %s' % (k, what, z, w), *sig)
  atts_ok(mon, dict(a.atts), dict(b.atts), what, sig, fixed=('units', 'standard_name', 'axis', 'calendar', 'positive'))

def snap(ds):
  return [dict(ds.atts), [(v.name, dict(v.atts), dict(v.plotatts), str(v.dtype), [vlib.snap_axis(a) for a in v.axes]) for v in ds.vars]]

def expect_ds(mon, ds, back, src, fmt, version, pack, cf, sig, lab):
  names = [v.name for v in ds.vars]
  if not cf: back_names = [v.name for v in back.vars if v.name in names]
  else: back_names = [v.name for v in back.vars]
  if not mon.check(back_names == names, 'names', 'variables %s came back as %s: %s' % (names, [v.name for v in back.vars], lab), *sig): return
  if cf or True: atts_ok(mon, dict(ds.atts), dict(back.atts), 'the dataset', sig)
  for v in ds.vars:
    w = back[v.name]; Y = src[v.name]; mon.hit('variables')
    if not mon.check([a.name for a in w.axes] == [a.name for a in v.axes] and w.shape == v.shape, 'shape', '%s%s came back as %s%s' % (v.name, [a.name for a in v.axes], [a.name for a in w.axes], w.shape), *sig): continue
    for a, b in zip(v.axes, w.axes): axis_ok(mon, a, b, sig, cf)
    got = mon.op('read', lambda: w.get()); mon.hit('nan_values', int(np.isnan(Y).sum()) if Y.dtype.kind == 'f' else 0)
    packed = pack is not None and (pack is True or v.name in pack)
    if packed:
      mon.hit('packed')
      F = Y.astype('d'); fin = F[np.isfinite(F)]
      if not cf: continue
      step = (fin.max() - fin.min()) / 65534. if len(fin) else 0.
      tol = .5 * step * 1.01 + 4e-7 * (np.abs(fin).max() if len(fin) else 0.)
      mon.same(got, F.astype(got.dtype), 'packed', 'packed %s: %s' % (v.name, lab), atol=tol, sig=sig)
      mon.check(w.dtype.kind == 'f' == got.dtype.kind, 'dtype', 'packed data came back as %s' % w.dtype, *sig)
    else:
      dt = stored(Y.dtype.str[1:], fmt, version)
      mon.check(w.dtype == dt == got.dtype, 'dtype', '%s %s came back as %s (data %s)' % (v.name, Y.dtype, w.dtype, got.dtype), *sig)
      mon.same(got, Y.astype(dt), 'value', '%s: %s' % (v.name, lab), sig=sig)
    atts_ok(mon, dict(v.atts), dict(w.atts), v.name, sig, fixed=() if not packed or cf else ('scale_factor', 'add_offset'))

def k_save(rng, fn, mon):
  import pygeode as pyg
  fmt = choice(rng, ['netcdf', 'netcdf4']); version = choice(rng, [3, 4]); compress = chance(rng, .25)
  if compress: version = 4
  pack = choice(rng, [None, None, None, True, 'some'])
  vs, gat = build(rng, mon, fmt, version, pack is not None)
  cf = chance(rng, .88)
  kw = {'version': version}
  if chance(rng, .3) and version == (3 if fmt == 'netcdf' else 4): kw = {}
  if compress: kw['compress'] = True
  ds = pyg.Dataset([v for v, _ in vs], atts=gat, print_warnings=False) if True else None
  names = [v.name for v in ds.vars]; src = {n: Y for n, (_, Y) in zip(names, vs)}
  if pack == 'some': pack = [n for n in names if chance(rng, .5)] or names[:1]
  if pack is not None: kw['pack'] = pack
  u = None
  if chance(rng, .25):
    lead = [v.axes[0].name for v in ds.vars if v.naxes]
    ok = [a for a in lead if version == 4 or all(a not in [q.name for q in v.axes[1:]] for v in ds.vars)]
    if ok: u = choice(rng, ok); kw['unlimited'] = u; mon.hit('unlimited')
  if not cf: kw['cfmeta'] = False; mon.hit('raw')
  # what the classic format cannot hold
  refuse = fmt == 'netcdf4' and version == 3 and any(np.asarray(w).dtype.kind in 'iu' and np.asarray(w).dtype.str[1:] not in ('i1', 'i2', 'i4') for v in ds.vars for a in v.axes for w in ([a.values] if not hasattr(a, 'startdate') else []) + ([] if hasattr(a, 'startdate') else list(a.auxarrays.values())) if True)
  old = pyg.MAX_ARRAY_SIZE
  if chance(rng, .3): pyg.MAX_ARRAY_SIZE = int(choice(rng, [1, 4, 16])); mon.hit('chunked')
  before = snap(ds); ids = [id(v) for v in ds.vars]
  kinds = sorted(set(type(a).__name__ for v in ds.vars for a in v.axes))
  lab = '%s %s, variables %s, memory %s' % (fmt, kw, [vlib.describe(v) for v in ds.vars], pyg.MAX_ARRAY_SIZE)
  mon.context[:] = [lab]; mon.sample(lab)
  sig = (fmt, version, compress, pack is not None, u is not None, cf, kinds, sorted(set(str(Y.dtype) for Y in src.values()))) if kinds else ()
  arg = ds if chance(rng, .7) else list(ds.vars)
  if arg is not ds: ds = pyg.asdataset(arg, print_warnings=False); before = snap(ds); ids = [id(v) for v in ds.vars]; arg = list(ds.vars)
  try:
    try: pyg.save(fn, arg, format=fmt if fmt == 'netcdf' or chance(rng, .5) else None, **kw)
    except Exception as e:
      if refuse: mon.hit('refused'); mon.ev(); return
      import traceback
      mon.check(False, 'save:' + type(e).__name__, 'save failed with %s: %s\n%s\n%s' % (type(e).__name__, str(e)[:300], lab, ''.join(traceback.format_tb(e.__traceback__)[-2:])), *sig); return
  finally: pyg.MAX_ARRAY_SIZE = old
  mon.hit('saved'); mon.hit('compressed', compress)
  mon.check(vlib.same_tree(before, snap(ds)) and ids == [id(v) for v in ds.vars], 'altered', 'saving changed the dataset: ' + lab, *sig)
  rf = fmt if chance(rng, .6) else choice(rng, ['netcdf', 'netcdf4'])
  if rf != fmt: mon.hit('cross_backend')
  rkw = {} if cf else {'cfmeta': False}
  back = mon.op('open', lambda: pyg.open(fn, format=rf, **rkw))
  expect_ds(mon, ds, back, src, fmt, version, pack, cf, sig, lab)
  for v in ds.vars:
    if chance(rng, .3): mon.same(mon.op('again', lambda: v.get()), src[v.name], 'source', 'the saved variable changed', sig=sig)
  # opening with options
  if cf and pack is None and chance(rng, .3):
    mon.hit('open_options'); r = rng.random(); n0 = choice(rng, names)
    if r < .3:
      # other values for some variables and coordinates, with everything else as stored
      mon.hit('override'); over = {}; cn = {}
      for n in names:
        if chance(rng, .5) or n == n0: over[n] = (rng.integers(-90, 90, size=src[n].shape) if chance(rng, .3) else rng.normal(size=src[n].shape)).astype(choice(rng, ['f8', 'f4', 'i4']))
      for a in back.axes:
        if type(a).__name__ in ('NamedAxis', 'XAxis', 'YAxis', 'ZAxis', 'Lat', 'Lon', 'Height', 'Pres', 'Hybrid') and chance(rng, .4) and len(a):
          cn[a.name] = np.cumsum(1 + rng.integers(0, 3, size=len(a))) * .5; over[a.name] = cn[a.name].tolist() if chance(rng, .3) else cn[a.name]
      kw2 = {}; m = {}
      if chance(rng, .4): m = {n0: 'renamed'}; kw2['namemap'] = dict(m)
      pick = names
      if chance(rng, .4): pick = [n for n in names if n == n0 or chance(rng, .5)]; kw2['varlist'] = list(pick)
      bad = chance(rng, .15)
      if bad:
        o2 = dict(over); o2[n0] = np.zeros((2,) + src[n0].shape)
        try: pyg.open(fn, format=rf, value_override=o2); mon.check(False, 'override', 'values of the wrong shape were accepted for ' + n0, *sig)
        except AssertionError: mon.ev()
      keep = {k: np.array(w) for k, w in over.items()}
      b = mon.op('override', lambda: pyg.open(fn, format=rf, value_override=over, **kw2))
      mon.check([v.name for v in b.vars] == [m.get(n, n) for n in pick], 'override', 'with value_override %s and %s the variables are %s' % (sorted(over), kw2, [v.name for v in b.vars]), *sig)
      for n in pick:
        w = b[m.get(n, n)]; v0 = back[n]
        mon.same(mon.op('override', lambda: w.get()), keep[n] if n in over else v0.get(), 'override', '%s with value_override %s' % (n, sorted(over)), sig=sig)
        mon.check([a.name for a in w.axes] == [a.name for a in v0.axes] and vlib.same_tree(dict(w.atts), dict(v0.atts)), 'override', '%s: %s %s became %s %s' % (n, v0.axes, v0.atts, w.axes, w.atts), *sig)
        for a0, a1 in zip(v0.axes, w.axes):
          mon.check(np.array_equal(a1.values, cn[a0.name] if a0.name in cn else a0.values), 'override', 'axis %s is %s with value_override %s' % (a0.name, a1.values, {k: cn[k] for k in cn}), *sig)
      mon.check(sorted(keep) == sorted(over) and all(np.array_equal(keep[k], np.asarray(over[k])) for k in keep), 'override', 'the table of values changed', *sig)
    elif r < .5:
      pick = [n for n in names if chance(rng, .5)] or names[:1]; b = mon.op('varlist', lambda: pyg.open(fn, format=rf, varlist=pick))
      mon.check([v.name for v in b.vars] == pick, 'varlist', 'varlist %s gave %s' % (pick, [v.name for v in b.vars]), *sig)
      for n in pick: mon.same(b[n].get(), back[n].get(), 'varlist', n, sig=sig)
    elif r < .75:
      ax = [a.name for a in ds[n0].axes]; m = {n0: 'renamed'}
      if ax: m[ax[0]] = 'axis_renamed'
      b = mon.op('namemap', lambda: pyg.open(fn, format=rf, namemap=m))
      mon.check([v.name for v in b.vars] == [m.get(n, n) for n in names] and [a.name for a in b['renamed'].axes] == [m.get(q, q) for q in ax], 'namemap', 'namemap %s gave %s' % (m, [v.name for v in b.vars]), *sig)
      mon.same(b['renamed'].get(), back[n0].get(), 'namemap', n0, sig=sig)
    else:
      from pygeode import axis as A
      ax = [a for a in ds[n0].axes if type(a).__name__ in ('NamedAxis', 'XAxis', 'ZAxis', 'YAxis')]
      if ax:
        a = ax[0]; how = int(rng.integers(4)); new = A.Height(np.arange(len(a)) * 2.) 
        dt = [A.Height, (A.Height, {'values': np.asarray(new.values)}), new, lambda old: A.Height(np.arange(len(old)) * 2.)][how]
        b = mon.op('dimtypes', lambda: pyg.open(fn, format=rf, dimtypes={a.name: dt})); c = b[n0].axes[ds[n0].whichaxis(a)]
        mon.check(type(c) is A.Height and np.array_equal(c.values, a.values if how == 0 else new.values), 'dimtypes', 'dimtypes %r gave %r %s' % (dt, c, c.values), *sig)
        mon.same(b[n0].get(), back[n0].get(), 'dimtypes', n0, sig=sig)
        for wrong in (A.Height(np.arange(len(a) + 1.)), (A.Height,), 3, lambda old: A.Height(np.arange(len(a) + 2.)), (A.Height, {'values': np.arange(len(a) + 1.)})):
          if chance(rng, .3): mon.raises(lambda: pyg.open(fn, format=rf, dimtypes={a.name: wrong}), 'dimtypes-accept', 'dimtypes %s=%r for %d points' % (a.name, wrong, len(a)), (ValueError, AssertionError)); mon.hit('refused_options')
  del back

def k_names(rng, fn, mon):
  """Names which are not CF-compliant, formats given as modules, files which cannot be recognised."""
  import pygeode as pyg
  from pygeode.axis import NamedAxis
  a = NamedAxis(np.arange(int(rng.integers(1, 5))) * 1., 'q'); vs = []; want = []
  for j in range(int(rng.integers(1, 5))):
    n = ''.join(choice(rng, list('abXY019_- .+/(%')) for _ in range(int(rng.integers(1, 6)))) if chance(rng, .8) else 'plain'
    f = ''.join(c if c in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789' else '_' for c in n); f = '_' + f if f[0].isdigit() else f
    if f in want or f == 'q' or n in [v.name for v in vs]: continue
    want.append(f); vs.append(vlib.make_var(rng, [a], np.round(rng.normal(size=len(a)), 3) + j, name=n))
  if not vs: mon.ev(); return
  names = [v.name for v in vs]; fmt = choice(rng, ['netcdf', 'netcdf4']); lab = 'names %r to %s' % (names, fmt); mon.context[:] = [lab]; mon.sample(lab); mon.hit('odd_names', sum(n != w for n, w in zip(names, want)))
  import importlib
  g = importlib.import_module('pygeode.formats.' + fmt) if chance(rng, .5) else fmt
  mon.op('save', lambda: pyg.save(fn, vs, format=g)); d = mon.op('open', lambda: pyg.open(fn, format=g))
  mon.check([v.name for v in d.vars] == want, 'fixed-names', '%r came back as %r' % (names, [v.name for v in d.vars]), 'names', len(vs), fmt)
  for v, w in zip(vs, d.vars): mon.same(w.get(), v.get(), 'fixed-names', '%r' % v.name, sig=('names', len(vs), fmt))
  mon.check([v.name for v in vs] == names, 'altered', 'saving renamed %r' % names, 'names')
  ext = choice(rng, ['.foo', '', '.txt']); other = fn[:-3] + ext
  mon.raises(lambda: pyg.save(other, vs), 'format-accepts', 'extension %r' % ext, (ValueError,)); mon.check(not os.path.exists(other), 'format-accepts', 'a file %s was made' % other, 'names')
  mon.raises(lambda: pyg.open(other), 'format-accepts', 'extension %r' % ext, (ValueError,)); mon.raises(lambda: pyg.open(fn, format='no_such'), 'format-accepts', 'a format that does not exist', (ValueError,)); mon.raises(lambda: pyg.save(fn, vs, format='no_such'), 'format-accepts', 'a format that does not exist', (ValueError,))
  mon.hit('refused_options', 4)
  again = mon.op('open', lambda: pyg.open(fn, format=fmt)); mon.check([v.name for v in again.vars] == want, 'format-damage', 'a refused request changed the file', 'names')
  missing = fn[:-3] + '_none.nc'
  mon.raises(lambda: pyg.open(missing, format=fmt), 'missing-file', 'a file that does not exist', (OSError, IOError, AssertionError, ValueError, RuntimeError)); mon.check(not os.path.exists(missing), 'missing-file', 'opening %s made it' % missing, 'names')

def k_group(rng, fn, mon):
  """Several datasets in the groups of one file."""
  import pygeode as pyg
  D2 = {}; S2 = {}
  for g in ['one', 'two', 'three'][:int(rng.integers(1, 4))]:
    vs, at = build(rng, mon, 'netcdf4', 4, False); ds = pyg.Dataset([v for v, _ in vs], atts=at, print_warnings=False)
    D2[g] = ds; S2[g] = {v.name: Y for v, (_, Y) in zip(ds.vars, vs)}
  lab = 'groups %s' % {g: [vlib.describe(v) for v in d.vars] for g, d in D2.items()}
  mon.context[:] = [lab]; mon.hit('groups')
  mon.op('save', lambda: pyg.save(fn, D2)); back = mon.op('open', lambda: pyg.open(fn))
  sig = ('groups', sorted(D2), sorted(set(type(a).__name__ for d in D2.values() for v in d.vars for a in v.axes)))
  if mon.check(isinstance(back, dict) and sorted(back) == sorted(D2), 'groups', 'groups %s' % (back,), *sig):
    for g in D2: expect_ds(mon, D2[g], back[g], S2[g], 'netcdf4', 4, None, True, sig, 'group %s' % g)

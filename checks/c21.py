"""C21: CF metadata and xarray conversion preserve meaning in both directions."""
N_QUICK = 6000
N_THOROUGH = 40000
BUDGET_QUICK = 70
BUDGET_THOROUGH = 700
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: metadata is encoded and decoded, files with foreign CF metadata and xarray objects are read, and an oracle (own unpacking, cftime, xarray) checks values, dates, axes and attributes'
RULE = ('a case is one dataset encoded and decoded in memory, one file of foreign CF metadata (packing, fill and missing values of all types, calendars, time units in many spellings, axis hints, hybrid and station auxiliaries) read with both back ends, or one conversion to xarray and back; '
        'non-trivial: at least one axis; distinct by (kind, types, packing, calendar, units spelling, axis kinds)')
REQUIRE = {'codec': 500, 'foreign': 800, 'xarray': 400, 'unpacked': 1500, 'filled': 800, 'zero_fill': 60, 'times': 900, 'partial': 1000, 'dated': 300, 'lazy': 150, 'axis_hints': 400, 'aux': 150}
ASSUMPTIONS = ['netCDF4-python, cftime and xarray are correct', 'climatological and yearless times cannot be expressed in xarray', 'dates before 1600 are not compared between calendars']
import os, shutil, tempfile, warnings, importlib.util
import numpy as np
import vlib
from vlib import choice, chance

spec = importlib.util.spec_from_file_location('c19', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c19.py'))
c19 = importlib.util.module_from_spec(spec); spec.loader.exec_module(c19)

D = None
def case(rng, i, mon):
  global D
  mon.context[:] = []
  if D is None: D = tempfile.mkdtemp(prefix='pgverif_cf_'); import atexit; atexit.register(shutil.rmtree, D, True)
  with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    (k_codec, k_foreign, k_foreign, k_times, k_xarray)[i % 5](rng, os.path.join(D, 'f%d.nc' % i), mon)

# ------------------------------------------------------------------ encode and decode
def k_codec(rng, fn, mon):
  import pygeode as pyg
  from pygeode.formats.cfmeta import encode_cf, decode_cf
  vs, at = c19.build(rng, mon, 'netcdf4', 4, False); mon.hit('codec')
  ds = pyg.Dataset([v for v, _ in vs], atts=at, print_warnings=False); src = {v.name: Y for v, (_, Y) in zip(ds.vars, vs)}
  lab = 'encode and decode %s' % [vlib.describe(v) for v in ds.vars]; mon.context[:] = [lab]; mon.sample(lab)
  sig = ('codec', sorted(set(type(a).__name__ for v in ds.vars for a in v.axes)), sorted(set(str(Y.dtype) for Y in src.values())))
  before = c19.snap(ds)
  enc = mon.op('encode', lambda: encode_cf(ds))
  E = {'Lat': ('latitude', 'degrees_north', 'Y'), 'Lon': ('longitude', 'degrees_east', 'X'), 'Pres': ('air_pressure', 'hPa', 'Z'), 'Hybrid': ('atmosphere_hybrid_sigma_pressure_coordinate', None, 'Z')}
  cal = {'StandardTime': ('standard', 'gregorian', 'proleptic_gregorian'), 'ModelTime365': ('365_day', 'noleap'), 'ModelTime360': ('360_day',)}
  for v in ds.vars:
    for a, b in zip(v.axes, enc[v.name].axes):
      k = type(a).__name__
      if k in E:
        s, u, x = E[k]
        mon.check(b.atts.get('standard_name') == s and (u is None or b.atts.get('units') == u) and b.atts.get('axis') == x, 'encoded', '%s is written as %s' % (k, b.atts), *sig)
      if k in cal:
        import cftime
        mon.check(b.atts.get('calendar') in cal[k], 'encoded', '%s is written as %s' % (k, b.atts), *sig)
        if set(a.auxarrays) == set(a.allowed_fields) | (set(a.auxarrays) - set(a.allowed_fields)) and 'year' in a.auxarrays and a.startdate.get('year', 0) >= 1600:
          want = [tuple(int(a.auxarrays[f][j]) if f in a.auxarrays else 0 for f in ('year', 'month', 'day', 'hour', 'minute', 'second')) for j in range(len(a))]
          q = cftime.num2date(np.asarray(b.values, 'd'), b.atts['units'], 'proleptic_gregorian' if k == 'StandardTime' else b.atts['calendar'])
          q = [d + __import__('datetime').timedelta(microseconds=500) for d in q]
          mon.check([(d.year, d.month, d.day, d.hour, d.minute, d.second) for d in q] == want, 'encoded-time', '%s %s are %s, dates %s' % (b.atts['units'], b.values, q, want), *sig)
  back = mon.op('decode', lambda: decode_cf(enc))
  c19.expect_ds(mon, ds, back, src, 'netcdf4', 4, None, True, sig, lab)
  mon.check(vlib.same_tree(before, c19.snap(ds)), 'altered', 'encoding changed the dataset', *sig)

# ------------------------------------------------------------------ foreign metadata
def k_foreign(rng, fn, mon):
  import netCDF4 as nc, pygeode as pyg
  mon.hit('foreign'); kind = choice(rng, ['NETCDF3_CLASSIC', 'NETCDF4', 'NETCDF4_CLASSIC'])
  hints = [choice(rng, [('lat', 'Lat', dict(units='degrees_north')), ('y', 'Lat', dict(standard_name='latitude')), ('latitude', 'Lat', {}), ('rlat', 'YAxis', dict(axis='Y', units='m')), ('j', 'Lat', dict(long_name='Latitude')), ('yy', 'Lat', dict(axis='Y', standard_name='latitude', units='degrees_north'))]),
           choice(rng, [('lon', 'Lon', dict(units='degrees_east')), ('x', 'Lon', dict(standard_name='longitude')), ('i', 'XAxis', dict(axis='X')), ('longitude', 'Lon', {}), ('plain', 'NamedAxis', dict(units='km', note='hi')), ('nounits', 'NamedAxis', dict(units=np.int32(1)))]),
           choice(rng, [('lev', 'Pres', dict(units='hPa')), ('plev', 'Pres', dict(units='mbar', positive='down')), ('p', 'Pres', dict(standard_name='air_pressure')), ('z', 'ZAxis', dict(axis='Z', units='m', positive='up')), ('eta', 'Hybrid', dict(standard_name='atmosphere_hybrid_sigma_pressure_coordinate', ancillary_variables='ca cb'))])]
  hints = [hints[int(q)] for q in rng.permutation(3)[:int(rng.integers(1, 4))]]
  shape = [int(rng.integers(1, 6)) for _ in hints]; vals = [np.cumsum(rng.integers(1, 9, n)) * float(choice(rng, [1, -1])) for n in shape]
  vals = [(v if 'lat' not in h[1].lower() else v) for v, h in zip(vals, hints)]
  aux = {}; want = {}
  with nc.Dataset(fn, 'w', format=kind) as f:
    for (n, k, at), s, v in zip(hints, shape, vals):
      f.createDimension(n, s); c = f.createVariable(n, choice(rng, ['f8', 'f4', 'i4']), (n,)); c[:] = v
      for q, w in at.items(): c.setncattr(q, w)
      if k == 'Hybrid':
        for q in ('ca', 'cb'):
          aux[q] = np.round(rng.normal(size=s), 3); f.createVariable(q, 'f8', (n,))[:] = aux[q]
        # named as the decoder expects them
        c.setncattr('ancillary_variables', 'A B'); f.renameVariable('ca', 'A'); f.renameVariable('cb', 'B')
    for j in range(int(rng.integers(1, 4))):
      dt = choice(rng, ['i2', 'i2', 'i1', 'i4', 'f4', 'f8'] + (['u1', 'u2'] if kind == 'NETCDF4' else []))
      use = sorted(int(q) for q in rng.permutation(len(shape))[:int(rng.integers(0 if j else 1, len(shape) + 1))])
      sh = [shape[q] for q in use]; raw = vlib.make_values(rng, sh, dt)
      names = ['_FillValue', 'missing_value', '_FillValue', None, 'both', 'both', 'FillValue', 'vector']
      fl = choice(rng, names); fills = []
      ty = np.dtype(dt).type
      fv = ty(choice(rng, [-99, 0, 0, 100, -1])) if dt[0] == 'i' else ty(choice(rng, [0, 0, 199, 255])) if dt[0] == 'u' else ty(choice(rng, [0., 1e20, -999., 9.96921e36, np.nan]))
      mv = ty(fv + ty(1)) if dt[0] != 'f' else ty(choice(rng, [-9999., 1e20]))
      v = f.createVariable('v%d' % j, dt, [hints[q][0] for q in use], fill_value=fv if fl in ('_FillValue', 'both') else None); v.set_auto_maskandscale(False)
      if fl in ('_FillValue', 'both'): fills.append(fv)
      if fl == 'missing_value': v.setncattr('missing_value', fv); fills.append(fv)
      if fl == 'FillValue': v.setncattr('FillValue', fv); fills.append(fv)
      if fl == 'both': v.setncattr('missing_value', mv); fills.append(mv)
      if fl == 'vector': v.setncattr('missing_value', np.array([fv, mv], dt)); fills += [fv, mv]
      at = {}
      for q in fills:
        if raw.ndim: raw[rng.random(raw.shape) < .25] = q
        elif chance(rng, .3): raw = np.array(q)
      sc = ad = None; big = chance(rng, .15)
      if chance(rng, .55): sc = choice(rng, [np.float32, np.float64])(choice(rng, [.01, .5, 2., 1e-5, 10.]))
      if chance(rng, .45): ad = choice(rng, [np.float32, np.float64])(choice(rng, [273.15, 0., -5., 1e5]))
      if sc is not None: v.scale_factor = sc
      if ad is not None: v.add_offset = ad
      at = c19.attributes(rng, 1)
      if chance(rng, .5): at['units'] = choice(rng, ['K', '1', 'm/s'])
      at.pop('valid', None)
      for q, w in at.items():
        try: v.setncattr(q, w)
        except Exception: at.pop(q); break
      at = {q: w for q, w in at.items() if q in v.ncattrs()}
      v[...] = raw
      want['v%d' % j] = (raw, fills, sc, ad, use, at)
    f.title = 'foreign'
  for fmt in ('netcdf', 'netcdf4'):
    ds = mon.op('open', lambda: pyg.open(fn, format=fmt))
    for nm, (raw, fills, sc, ad, use, at) in want.items():
      lab = '%s file by %s: %s %s%s, fill %s, scale %r, offset %r' % (kind, fmt, nm, raw.dtype, [hints[q] for q in use], fills, sc, ad)
      mon.context[:] = [lab]; mon.sample(lab)
      sig = ('foreign', fmt, str(raw.dtype), len(fills), sc is None, ad is None, [hints[q][1] for q in use]) if use else ()
      v = ds[nm]; X = raw.astype('d'); miss = np.zeros(raw.shape, bool)
      for q in fills: miss |= raw == q
      if sc is not None: X = X * float(sc)
      if ad is not None: X = X + float(ad)
      X = np.where(miss, np.nan, X)
      mon.hit('filled', int(miss.any())); mon.hit('zero_fill', int((miss & (raw == 0)).any())); mon.hit('unpacked', bool(fills) or sc is not None or ad is not None)
      changed = bool(fills) or sc is not None or ad is not None
      if not changed: mon.check(v.dtype == raw.dtype, 'dtype', '%s, stored %s' % (v.dtype, raw.dtype), *sig)
      else: mon.check(v.dtype.kind == 'f', 'dtype', '%s' % v.dtype, *sig)
      e = 6e-7 if v.dtype == np.float32 else 1e-14
      wide = raw.dtype in (np.dtype('f8'), np.dtype('i4'))
      if wide and changed: mon.check(v.dtype == np.float64, 'precision', '%s stored, %s read' % (raw.dtype, v.dtype), *sig); 
      if wide: e = 1e-14 if (sc is None or sc.dtype == np.float64) else 1e-6
      tol = e * (np.nanmax(np.abs(raw.astype('d')) , initial=0, where=~miss & np.isfinite(raw)) * (abs(float(sc)) if sc is not None else 1) + (abs(float(ad)) if ad is not None else 0)) if changed else 0.
      mon.same(mon.op('get', lambda: v.get()), X, 'unpack', 'decoded values', atol=tol, sig=sig)
      sel = [vlib.random_selector(rng, n) for n in raw.shape]
      if raw.ndim: mon.hit('partial'); mon.same(mon.op('part', lambda: v.slice[tuple(s for s, ix in sel)].get()), X[np.ix_(*[ix for s, ix in sel])], 'unpack-part', 'decoded part', atol=tol, sig=sig)
      gone = [q for q in ('_FillValue', 'missing_value', 'FillValue', 'scale_factor', 'add_offset') if q in v.atts]
      mon.check(not gone, 'packing-attributes', 'still has %s' % gone, *sig)
      for q, w in at.items(): mon.check(q in v.atts and c19.same_att(v.atts[q], w), 'attribute', '%s is %r, stored %r' % (q, v.atts.get(q), w), *sig)
      for q, a in zip(use, v.axes):
        n, k, hat = hints[q]; mon.hit('axis_hints')
        mon.check(type(a).__name__ == k and a.name == n, 'axis-kind', '%s %s read as %s %s' % (n, hat, type(a).__name__, a.name), *sig); mon.same(np.asarray(a.values, 'd'), vals[q], 'axis-values', n, sig=sig)
        if k == 'Hybrid': mon.hit('aux'); mon.check(np.array_equal(a.auxarrays.get('A'), aux['ca']) and np.array_equal(a.auxarrays.get('B'), aux['cb']), 'aux', 'hybrid coefficients %s' % a.auxarrays, *sig)
        if k == 'NamedAxis':
          for w, z in hat.items(): mon.check(w in a.atts and c19.same_att(a.atts[w], z), 'axis-attribute', '%s of %s is %r' % (w, n, a.atts.get(w)), *sig)
    extra = [v.name for v in ds.vars if v.name not in want]
    mon.check(not extra, 'extra', 'variables %s' % extra)
  os.unlink(fn)

# ------------------------------------------------------------------ dates
def k_times(rng, fn, mon):
  import netCDF4 as nc, pygeode as pyg, cftime
  cal = choice(rng, ['standard', 'gregorian', 'proleptic_gregorian', '365_day', 'noleap', '360_day', None])
  cls = {'365_day': 'ModelTime365', 'noleap': 'ModelTime365', '360_day': 'ModelTime360'}.get(cal, 'StandardTime')
  Y, M, Dd, h, m, s = int(rng.integers(1600, 2200)), int(rng.integers(1, 13)), int(rng.integers(1, 29)), int(rng.integers(0, 24)), int(rng.integers(0, 60)), int(rng.integers(0, 60))
  if chance(rng, .4): h = m = s = 0
  form = int(rng.integers(0, 8))
  if form in (0, 3): h = m = s = 0
  if form in (1, 4): s = 0
  if form == 6: m = s = 0
  ref = ['%04d-%02d-%02d' % (Y, M, Dd), '%04d-%02d-%02d %02d:%02d' % (Y, M, Dd, h, m), '%04d-%02d-%02d %02d:%02d:%02d' % (Y, M, Dd, h, m, s), '%d-%d-%d' % (Y, M, Dd), '%d-%d-%d %d:%02d' % (Y, M, Dd, h, m),
         '%04d-%02d-%02dT%02d:%02d:%02d' % (Y, M, Dd, h, m, s), '%d-%d-%d %d:00:00' % (Y, M, Dd, h), '%04d-%02d-%02d %02d:%02d:%02d.0' % (Y, M, Dd, h, m, s)][form]
  unit = choice(rng, ['days', 'days', 'hours', 'minutes', 'seconds', 'day', 'hour', 'second', 'Days', 'minute'])
  n = int(rng.integers(1, 8)); mul = {'d': 1, 'h': 24, 'm': 1440, 's': 86400}[unit[0].lower()]
  raw = rng.integers(-40, 4000, n).astype('d')
  if chance(rng, .5): raw = raw + rng.integers(0, 24, n) / 24.
  if chance(rng, .7): raw = np.sort(raw)
  raw = np.unique(raw) if chance(rng, .8) else raw
  num = np.round(raw * mul, 9); n = len(num)
  if unit[0].lower() in 'hms': num = np.round(num)
  dt = 'f8' if (num != np.round(num)).any() or chance(rng, .5) else 'i4'
  units = '%s%s%s' % (unit, choice(rng, [' since ', ' since ', '  since ']), ref)
  nm = choice(rng, ['time', 'time', 't', 'valid_time']); extra = {}
  if unit not in ('days', 'hours', 'minutes', 'seconds') or '  ' in units: nm = 'time'     # unusual spellings are only recognised by the name
  if nm != 'time' and chance(rng, .5): extra = choice(rng, [dict(standard_name='time'), dict(axis='T')])
  with nc.Dataset(fn, 'w', format=choice(rng, ['NETCDF3_CLASSIC', 'NETCDF4'])) as f:
    f.createDimension(nm, None if chance(rng, .5) else n); t = f.createVariable(nm, dt, (nm,)); t.set_auto_maskandscale(False); t.units = units
    if cal is not None: t.calendar = cal
    for q, w in extra.items(): t.setncattr(q, w)
    t[:] = num; f.createVariable('v', 'f8', (nm,))[:] = np.arange(n) * 1.
  lab = '%s calendar %s: %s (%s)' % (units, cal, num, extra); mon.context[:] = [lab]; mon.sample(lab); mon.hit('times')
  sig = ('times', cal, form, unit, dt, nm, sorted(extra))
  dates = [cftime.datetime(Y, M, Dd, h, m, s, calendar={'StandardTime': 'proleptic_gregorian', 'ModelTime365': '365_day', 'ModelTime360': '360_day'}[cls]) + __import__('datetime').timedelta(seconds=float(round(q * 86400 / mul))) for q in num]
  want = np.array([(q.year, q.month, q.day, q.hour, q.minute, q.second) for q in dates])
  for fmt in ('netcdf', 'netcdf4'):
    a = mon.op('open', lambda: pyg.open(fn, format=fmt))['v'].axes[0]
    if not mon.check(type(a).__name__ == cls and a.name == nm, 'calendar', '%s %s' % (type(a).__name__, a.name), *sig): continue
    got = np.stack([np.asarray(a.auxarrays[q]) for q in ('year', 'month', 'day', 'hour', 'minute', 'second')], 1)
    mon.same(got, want, 'dates', 'the dates', sig=sig)
    mon.same(np.asarray(a.values, 'd'), num, 'time-values', 'the values', sig=sig, atol=1e-9)
    if len(set(map(tuple, want))) == n:
      j = int(rng.integers(n)); d = dates[j]
      v = pyg.open(fn, format=fmt)['v']
      mon.hit('dated')
      q = mon.op('by fields', lambda: v(**{'l_year': [d.year], 'l_month': [d.month], 'l_day': [d.day], 'l_hour': [d.hour], 'l_minute': [d.minute], 'l_second': [d.second]}).get())
      mon.same(q, np.array([k for k in range(n) if tuple(want[k]) == tuple(want[j])], 'd'), 'dated', 'value on %s' % d, sig=sig)
  os.unlink(fn)

# ------------------------------------------------------------------ xarray
def k_xarray(rng, fn, mon):
  import pygeode as pyg, xarray as xr
  from pygeode import ext_xarray as X
  vs, at = c19.build(rng, mon, 'netcdf4', 4, False); mon.hit('xarray')
  vs = [(v, Y) for v, Y in vs if not any(type(a).__name__ == 'Yearless' or (hasattr(a, 'startdate') and 'year' not in a.auxarrays) for a in v.axes)]
  if not vs: return
  for v, _ in vs:
    for a in v.axes:
      if hasattr(a, 'startdate') and a.startdate.get('year', 0) < 1600: return
  ds = pyg.Dataset([v for v, _ in vs], atts=at, print_warnings=False); src = {v.name: Y for v, (_, Y) in zip(ds.vars, vs)}
  old = pyg.MAX_ARRAY_SIZE; lim = int(choice(rng, [1, 4, 16])) if chance(rng, .4) else 0
  lab = 'xarray %s, memory %s' % ([vlib.describe(v) for v in ds.vars], lim); mon.context[:] = [lab]; mon.sample(lab)
  sig = ('xarray', sorted(set(type(a).__name__ for v in ds.vars for a in v.axes)), sorted(set(str(Y.dtype) for Y in src.values())), lim)
  before = c19.snap(ds)
  try:
    if lim: pyg.MAX_ARRAY_SIZE = lim
    x = mon.op('to_xarray', lambda: X.to_xarray(ds))
    mon.check(vlib.same_tree(before, c19.snap(ds)), 'altered', 'conversion changed the dataset', *sig)
    for v in ds.vars:
      Y = src[v.name]
      if not mon.check(v.name in x.variables and list(x[v.name].dims) == [a.name for a in v.axes], 'x-dims', '%s has dims %s in xarray, %s here' % (v.name, x[v.name].dims if v.name in x else None, [a.name for a in v.axes]), *sig): continue
      w = x[v.name]; mon.check(w.dtype == Y.dtype, 'x-dtype', '%s %s' % (w.dtype, Y.dtype), *sig)
      mon.hit('lazy', w.chunks is not None)
      if chance(rng, .5): mon.same(mon.op('compute', lambda: w.values), Y, 'x-values', v.name, sig=sig)
      else:
        sel = {a.name: slice(*sorted(int(q) for q in rng.choice(len(a) + 1, 2, False))) for a in v.axes}
        mon.same(mon.op('isel', lambda: w.isel(sel).values), Y[tuple(sel[a.name] for a in v.axes)] if Y.ndim else Y, 'x-part', v.name, sig=sig)
      if v.naxes and Y.dtype.kind == 'f' and chance(rng, .3): mon.same(mon.op('xsum', lambda: w.sum(skipna=False).values), Y.astype('d').sum(), 'x-sum', v.name, rtol=1e-4, atol=1e-3 * float(np.nanmax(np.abs(np.where(np.isfinite(Y), Y, 0)), initial=1)), sig=sig) if np.isfinite(Y).all() else None
      for q, z in v.atts.items(): mon.check(q in w.attrs and c19.same_att(w.attrs[q], z), 'x-attribute', '%s of %s is %r, was %r' % (q, v.name, w.attrs.get(q), z), *sig)
      for a in v.axes:
        if type(a).__name__ in ('Station',): mon.hit('aux'); mon.check(all(q in x.variables and list(map(str, np.asarray(x[q].values).ravel()))[:1] for q in ('lat', 'alt')), 'x-station', 'variables %s' % list(x.variables), *sig); continue
        c = x[v.name].coords[a.name] if a.name in x[v.name].coords else None
        if c is None: mon.check(type(a).__name__ == 'DummyAxis', 'x-coords', 'no coordinate %s' % a.name, *sig); continue
        if hasattr(a, 'startdate'):
          mon.hit('times')
          want = [tuple(int(a.auxarrays[f][j]) for f in ('year', 'month', 'day', 'hour', 'minute', 'second')) for j in range(len(a))]
          t = c.dt; got = list(zip(*[[int(q) for q in np.asarray(getattr(t, f).values)] for f in ('year', 'month', 'day', 'hour', 'minute', 'second')]))
          rounded = (c + np.timedelta64(500, 'us')).dt if c.dtype.kind == 'M' else c.dt
          got2 = list(zip(*[[int(q) for q in np.asarray(getattr(rounded, f).values)] for f in ('year', 'month', 'day', 'hour', 'minute', 'second')]))
          mon.check(want in (got, got2), 'x-dates', '%s are %s in xarray' % (want, got), *sig)
        elif type(a).__name__ != 'DummyAxis': mon.same(np.asarray(c.values), np.asarray(a.values), 'x-coords', a.name, sig=sig)
    for q, z in ds.atts.items(): mon.check(q in x.attrs and c19.same_att(x.attrs[q], z), 'x-attribute', 'global %s is %r, was %r' % (q, x.attrs.get(q), z), *sig)
    # and back
    if any(type(a).__name__ == 'Station' for v in ds.vars for a in v.axes): 
      b = mon.op('from_xarray', lambda: X.from_xarray(x))
      for v in ds.vars: mon.same(mon.op('get', lambda: b[v.name].get()), src[v.name], 'back', v.name, sig=sig)
      return
    x = x[[v.name for v in ds.vars] + [q for q in x.data_vars if q not in ds]] if chance(rng, .5) else x
    if chance(rng, .4): x = mon.op('load', lambda: x.load())
    b = mon.op('from_xarray', lambda: X.from_xarray(x))
    keep = [v.name for v in ds.vars]
    b2 = pyg.Dataset([b[n] for n in keep if n in b], atts=b.atts, print_warnings=False)
    mon.check(not [v.name for v in b.vars if v.name not in keep], 'back-extra', 'extra variables %s' % [v.name for v in b.vars if v.name not in keep], *sig)
    c19.expect_ds(mon, ds, b2, src, 'netcdf4', 4, None, True, sig, lab)
    for v in ds.vars:
      if v.naxes and v.name in b:
        Y = src[v.name]; sel = [vlib.random_selector(rng, n) for n in Y.shape]; mon.hit('partial')
        mon.same(mon.op('part', lambda: b[v.name].slice[tuple(s for s, ix in sel)].get()), Y[np.ix_(*[ix for s, ix in sel])], 'back-part', '%s %s' % (v.name, [s for s, ix in sel]), sig=sig)
  finally: pyg.MAX_ARRAY_SIZE = old

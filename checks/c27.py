"""C27: GRIB files decode to the stored fields and dates."""
N_QUICK = 4800
N_THOROUGH = 30000
BUDGET_QUICK = 90
BUDGET_THOROUGH = 700
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: GRIB edition 1 files written by an encoder of our own (from the WMO specification) are opened, and monitors '
             'compare coordinates and every requested field with the packed integers; damaged and unsupported messages must be reported; '
             'index files are left over, replaced and mixed up between files')
RULE = ('a case is a file of 1-3 variables over dates x levels in shuffled message order (all bit widths 0-32, signed scale factors, regular and '
        'Gaussian grids, eight kinds of levels, extended sections, records left out), a series of whole and partial requests in any order, and possibly an '
        'index left over from another file; or a valid file with one fault; distinct by (grid, level type, bits, request)')
REQUIRE = {'files': 500, 'fields': 9000, 'requests': 1800, 'constant_fields': 60, 'wide_fields': 80, 'negative_scales': 150, 'missing_records': 150,
           'stale_indices': 80, 'two_byte_levels': 200, 'gaussian': 100, 'faulty': 250, 'hybrid': 40, 'many': 4}
ASSUMPTIONS = ['reference dates only: forecast steps are not asserted; layers are identified by their lower bound; names only for the parameter tables pygeode has']
import os, itertools
import numpy as np
import vlib, gribenc as G
from vlib import choice, chance
from gribsrc import LEVELS, make_file, write

_n = itertools.count()
def folder():
  d = os.path.join(os.environ['VERIF_WORK'], 'grib-%d-%d' % (os.getpid(), next(_n)))
  os.makedirs(d)
  return d

def check_file(mon, rng, d, msgs, vs, sel=3):
  from pygeode.formats import grib as gm
  order = [k for k, m in msgs]
  got = {}
  for x in d.vars:
    k = tuple(int(x.atts[a]) for a in ('center_id', 'table_id', 'var_id', 'level_type'))
    mon.check(k not in got, 'grib:vars', 'two variables for %r' % (k,)); got[k] = x
  mon.check(set(got) == set((v.center, v.table, v.param, v.lt) for v in vs), 'grib:vars', 'variables %r' % sorted(got))
  todo = []
  for v in vs:
    k = (v.center, v.table, v.param, v.lt); x = got.get(k)
    if x is None: continue
    table = gm.international_params[v.table] if v.table == 2 else gm.params[v.center][v.table]
    mon.check(x.name.startswith(table[v.param][2]), 'grib:name', 'name %r of %r' % (x.name, k))
    # dates in order of appearance, levels sorted
    times = []; levs = set()
    for w, t, lev in order:
      if w is v:
        if t not in times: times.append(t)
        levs.add(lev)
    levs = sorted(levs)
    from pygeode.axis import Lat, Lon, ZAxis, Hybrid
    from pygeode.timeaxis import Time
    ax = x.axes
    T, Y, X = x.getaxis(Time), x.getaxis(Lat), x.getaxis(Lon)
    have = list(zip(*[[int(i) for i in getattr(T, f)] for f in ('year', 'month', 'day', 'hour', 'minute')]))
    if not mon.check(sorted(have) == sorted(times), 'grib:dates', 'dates %r instead of %r' % (have[:5], times[:5])): continue
    mon.same(np.asarray(Y.values, 'd'), v.lats, 'grib:lat', 'latitudes', atol=v.latol, sig=('lat', v.grid['type']))
    # the same places, whichever turn of the globe
    xs = np.asarray(X.values, 'd')
    mon.check(len(xs) == len(v.lons) and np.allclose(np.abs((xs - v.lons + 180) % 360 - 180), 0, atol=1e-9) and np.allclose(np.diff(xs), np.diff(v.lons), atol=1e-9),
              'grib:lon', 'longitudes %s instead of %s' % (xs, v.lons))
    if x.hasaxis(ZAxis):
      Z = x.getaxis(ZAxis)
      if not mon.check(sorted(int(z) for z in Z.values) == levs, 'grib:levels', 'levels %r instead of %r' % (Z.values, levs)): continue
      zs = [int(z) for z in Z.values]
      if LEVELS[v.lt] == 'two': mon.hit('two_byte_levels')
      if v.ab is not None and len(levs) == len(v.ab[0]) - 1:
        mon.hit('hybrid')
        if mon.check(isinstance(Z, Hybrid), 'grib:hybrid', 'no hybrid axis'):
          mon.same(np.asarray(Z.A, 'd'), np.array([v.ab[0][z] for z in zs]), 'grib:hybrid', 'A coefficients', rtol=1e-6)
          mon.same(np.asarray(Z.B, 'd'), np.array([v.ab[1][z] for z in zs]), 'grib:hybrid', 'B coefficients', rtol=1e-6)
    else:
      if not mon.check(len(levs) == 1 and (v.lt in (1, 20, 102) or v.lt == 109), 'grib:levels', 'no level axis for levels %r of type %d' % (levs, v.lt)): continue
      zs = levs
    want = np.full((len(have), len(zs), len(v.lats), len(v.lons)), np.nan); tol = np.zeros(want.shape)
    for i, t in enumerate(have):
      for j, z in enumerate(zs):
        f = v.fields.get((t, z))
        if f is not None: want[i, j] = f[0]; tol[i, j] = f[1] * 1e-12
    if not x.hasaxis(ZAxis): want, tol = want[:, 0], tol[:, 0]
    # as a plain list of messages
    if not mon.check(x.shape == want.shape, 'grib:shape', 'shape %r instead of %r' % (x.shape, want.shape)): continue
    if v.grid['type'] == 4: mon.hit('gaussian')
    todo.append((v, x, want, tol))
  if not todo: return
  todo = [todo[i] for i in rng.permutation(len(todo))]
  for v, x, want, tol in todo:
    for q in range(sel):
      if q == 0: idx = [np.arange(n) for n in x.shape]; sl = None; g = x.get()
      else:
        pairs = [vlib.random_selector(rng, n) for n in x.shape]
        sl = tuple(p[0] for p in pairs); idx = [p[1] for p in pairs]
        g = x.slice[sl].get() if q % 2 else x[sl]
      w = want[np.ix_(*idx)]; a = tol[np.ix_(*idx)]
      mon.hit('requests'); mon.hit('fields', int(w.shape[0] * (w.shape[1] if w.ndim == 4 else 1)))
      g = np.asarray(g)
      if q and g.shape != w.shape and g.size == w.size: g = g.reshape(w.shape)
      if not mon.check(g.shape == w.shape, 'grib:values', 'shape %r instead of %r' % (g.shape, w.shape)): break
      bad = ~((np.isnan(g) & np.isnan(w)) | (np.abs(g - w) <= a + 1e-300))
      if bad.any():
        p = tuple(int(i) for i in np.argwhere(bad)[0])
        f = [f for f in v.fields.values()]
        mon.fail('grib:values', 'request %r of %s: %r instead of %r at %r (grid %r, bit widths %r)' % (sl, x.name, g[p], w[p], p, v.grid, [z[2] for z in f][:6]))
        break
      mon.ev('values', v.lt, v.grid['type'], 'whole' if not q else 'part', tuple(sorted(set(z[2] for z in v.fields.values())))[:2])
  # a coordinate picked by value
  v, x, want, tol = todo[0]
  from pygeode.axis import ZAxis
  if x.hasaxis(ZAxis):
    Z = x.getaxis(ZAxis); j = int(rng.integers(0, len(Z)))
    g = x(**{Z.name: float(Z.values[j])}).get()
    mon.same(g, want[:, j:j+1], 'grib:values', 'level picked by value', atol=float(np.nanmax(tol)) + 1e-300, rtol=1e-12)

FAULTS = ['cut', 'edition', 'bitmap', 'nogds', 'gridtype', 'flag', 'nbits', 'end', 'short', 'quasi', 'scan', 'empty', 'mixed', 'notgrib', 'missing', 'pdslen', 'gdslen', 'bdslen']

def faulty(rng, mon, path, msgs, vs):
  """Writes a file with a fault; -> what was wrong (None if nothing)."""
  kind = choice(rng, FAULTS)
  k = int(rng.integers(0, len(msgs))); (v, t, lev), m = msgs[k]
  n = v.grid['ni'] * v.grid['nj']
  raw = dict(v.levels and [(b, a) for a, b in v.levels])[lev]
  P = G.pds(v.center, v.table, v.param, v.lt, raw, t, 0); Gd = G.gds(v.grid, v.nv); B = G.bds([1] * n, 4, G.ibm(1.)[0], 0)
  if kind == 'edition': m = G.message(P, Gd, B, edition=2)
  elif kind == 'bitmap':
    bits = b'\xff' * (n // 8 + 1); m = G.message(G.pds(v.center, v.table, v.param, v.lt, raw, t, 0, flag=128 | 64), Gd, B, bms=G.u(6 + len(bits), 3) + bytes([(8 - n % 8) % 8]) + G.u(0, 2) + bits)
  elif kind == 'nogds': m = G.message(G.pds(v.center, v.table, v.param, v.lt, raw, t, 0, flag=0), b'', B)
  elif kind == 'gridtype': m = G.message(P, G.gds(dict(v.grid, type=int(choice(rng, [1, 3, 5, 10, 50, 90])))), B)
  elif kind == 'flag': m = G.message(P, Gd, G.bds([1] * n, 4, G.ibm(1.)[0], 0, flag=int(choice(rng, [8, 4, 1]))))
  elif kind == 'nbits': b = bytearray(B + b'\0' * 400); b[10] = int(choice(rng, [33, 40, 64, 255])); b[0:3] = G.u(len(b), 3); m = G.message(P, Gd, bytes(b))
  elif kind == 'end': m = m[:-4] + choice(rng, [b'7776', b'777G', b'\0\0\0\0'])
  elif kind == 'short':
    b = bytearray(G.bds([1] * n, 24, G.ibm(1.)[0], 0)); cut = int(rng.integers(3, len(b) - 10)); b = b[:-cut]; b[0:3] = G.u(len(b), 3); m = G.message(P, Gd, bytes(b))
  elif kind == 'quasi': m = G.message(P, G.gds(dict(v.grid, ni=65535)), B)
  elif kind == 'scan': m = G.message(P, G.gds(dict(v.grid, scan=v.grid['scan'] | 32)), B)
  elif kind == 'mixed':
    # the same variable on another grid
    g2 = dict(v.grid, ni=v.grid['ni'] + 1); m2 = G.message(G.pds(v.center, v.table, v.param, v.lt, raw, (1951, 1, 1, 0, 0), 0), G.gds(g2, v.nv), G.bds([1] * (g2['ni'] * g2['nj']), 4, G.ibm(1.)[0], 0))
    msgs = msgs + [(None, m2)]
  elif kind in ('pdslen', 'gdslen', 'bdslen'):
    P, Gd, B = bytearray(P), bytearray(Gd), bytearray(B)
    x = {'pdslen': P, 'gdslen': Gd, 'bdslen': B}[kind]
    x[0:3] = G.u(int(choice(rng, [1, 10, 27, 31] if kind != 'bdslen' else [0, 1, 5, 10])) if chance(rng, .6) else len(x) + int(choice(rng, [1, 3, 10, 100000])), 3)
    if kind == 'pdslen' and int.from_bytes(x[0:3], 'big') == 31: x[2] = 27
    m = G.message(bytes(P), bytes(Gd), bytes(B))
  msgs = list(msgs)
  if kind == 'missing': return kind
  if kind in ('empty', 'notgrib'):
    with open(path, 'wb') as f: f.write(b'' if kind == 'empty' else b'GRI' + bytes(int(x) for x in rng.integers(0, 200, 500)))
    if kind == 'notgrib' and b'GRIB' in open(path, 'rb').read(): return None
    return kind
  msgs[k] = (msgs[k][0], m)
  data = b''.join(m for _, m in msgs)
  if kind == 'cut':
    start = sum(len(m) for _, m in msgs[:k]); n = int(rng.integers(4, len(m)))
    data = data[:start + n]
  with open(path, 'wb') as f: f.write(data)
  return kind

def case(rng, i, mon):
  from pygeode.formats import grib
  cwd = os.getcwd(); d = folder(); os.chdir(d)
  path = None
  try:
    if chance(rng, 0.25):
      msgs, vs = make_file(rng, mon)
      path = 'bad.grb'
      kind = faulty(rng, mon, path, msgs, vs)
      if kind is None: return
      mon.context[:] = ['fault %s' % kind]
      mon.hit('faulty')
      def use():
        ds = grib.open(path)
        for x in ds.vars: x.get()
        return [x.shape for x in ds.vars]
      mon.raises(use, 'grib:fault', 'file with fault %r' % kind)
      mon.ev('fault', kind)
      return
    big = i % 100 == 7
    msgs, vs = make_file(rng, mon, big=big)
    if big: mon.hit('many')
    stale = chance(rng, 0.3)
    path = 'a.grb'
    if stale:
      # something else of that name was opened before, perhaps somewhere else
      mon.hit('stale_indices')
      m2, v2 = make_file(rng, mon)
      r = int(rng.integers(0, 3))
      other = path if r < 2 else os.path.join('sub', path)
      os.makedirs('sub', exist_ok=True)
      write(rng, other, m2)
      ds = grib.open(other); check_file(mon, rng, ds, m2, v2, sel=1)
      if r == 1: os.remove(path)
      # an older index format, or a damaged one
      if chance(rng, 0.2):
        for f in os.listdir('.'):
          if f.endswith('.index'):
            with open(f, 'r+b') as h: h.truncate(int(rng.integers(0, 40)))
      del ds
    write(rng, path, msgs)
    mon.hit('files')
    mon.context[:] = ['%s: %d messages, stale index %s, vars %r' % (path, len(msgs), stale, [(v.center, v.table, v.param, v.lt, v.grid['type'], len(v.times), len(v.levels)) for v in vs])]
    ds = grib.open(path)
    check_file(mon, rng, ds, msgs, vs)
    # again, now with the index there; and through the general interface
    if chance(rng, 0.3):
      ds2 = grib.open(path); check_file(mon, rng, ds2, msgs, vs, sel=2)
      check_file(mon, rng, ds, msgs, vs, sel=1)
    mon.check(sorted(f for f in os.listdir('.') if f not in ('sub',)) == ['a.grb', 'a.grb.index'], 'grib:litter', 'files left: %r' % os.listdir('.'))
  finally:
    os.chdir(cwd)
    import shutil
    shutil.rmtree(d, ignore_errors=True)

"""GRIB files with known contents."""
import numpy as np
import vlib, gribenc as G
from vlib import choice, chance

def make_grid(rng, fine=False):
  """-> (section contents, latitudes, longitudes, tolerance of the latitudes)"""
  ni = int(choice(rng, [1, 2, 3, 5, 8])); scan = 0
  dx = int(choice(rng, [1000, 2500, 30000, 1125] if fine else [2500, 30000, 7500])); lo1 = int(choice(rng, [0, -180000, 350000, 12500, -5000]))
  lons = lo1 + dx * np.arange(ni)
  if chance(rng, 0.15) and ni > 1: lons = lons[::-1]; scan |= 128
  def wrap(x):
    # written as -180..180 or 0..360
    return int((x + 180000) % 360000 - 180000) if west else int(x % 360000)
  west = chance(rng, 0.5)
  lo = [wrap(lons[0]), wrap(lons[-1])]
  if chance(rng, 0.3):
    n = int(choice(rng, [2, 4, 6, 10]))
    full = np.rad2deg(np.arcsin(np.polynomial.legendre.leggauss(n)[0]))
    north = chance(rng, 0.6)
    full = np.sort(full)[::-1] if north else np.sort(full)
    a, b = 0, n
    if n > 2 and chance(rng, 0.3): a = int(rng.integers(0, n - 2)); b = int(rng.integers(a + 2, n + 1))
    lats = full[a:b]; nj = b - a; typ = 4; dj = n // 2
    la = [int(round(x * 1000)) for x in (lats[0], lats[-1])]
    if (a, b) == (0, n) and chance(rng, 0.2): dj = int(choice(rng, [0, 65535]))
    latol = 1e-7
  else:
    nj = int(choice(rng, [1, 2, 3, 5])); dj = int(choice(rng, [1000, 2500, 20000])); s = int(choice(rng, [-40000, 0, 1500, -2500]))
    la = s + dj * np.arange(nj)
    if chance(rng, 0.5): la = la[::-1]
    lats = la / 1000.; la = [int(la[0]), int(la[-1])]; typ = 0; latol = 1e-9
    if nj > 1 and la[0] < la[1]: scan |= 64
  if typ == 4 and la[0] < la[1]: scan |= 64
  g = dict(type=typ, ni=ni, nj=nj, la1=la[0], lo1=lo[0], la2=la[1], lo2=lo[1], di=dx if chance(rng, .7) else 65535, dj=dj, scan=scan)
  return g, lats, lons / 1000., latol

LEVELS = {1: 'none', 102: 'none', 100: 'two', 103: 'two', 105: 'two', 107: 'two', 109: 'two', 111: 'two', 113: 'two', 160: 'two', 20: 'two', 112: 'layer', 106: 'layer', 108: 'layer'}

def make_levels(rng, lt, n):
  """-> list of (raw bytes, value on the axis)"""
  kind = LEVELS[lt]
  if kind == 'none': return [(b'\0\0', 0)]
  if kind == 'two':
    pool = [1, 2, 10, 50, 100, 200, 232, 255, 256, 257, 500, 512, 700, 850, 925, 1000, 1256, 5000, 40000] if lt != 109 else list(range(1, 140))
    vals = [pool[i] for i in rng.permutation(len(pool))[:n]]
    return [(G.u(v, 2), v) for v in vals]
  vals = [int(i) for i in rng.permutation(200)[:n]]
  return [(bytes([int(rng.integers(0, 255)), v]), v) for v in vals]

def make_times(rng, n):
  seen = set()
  base = int(choice(rng, [1979, 1999, 2000, 2001, 2020, 1900, 1850]))
  while len(seen) < n:
    y = base + int(rng.integers(0, 3))
    if chance(rng, 0.3): t = (y, 12, 31, int(choice(rng, [0, 6, 23])), int(choice(rng, [0, 30])))
    elif chance(rng, 0.1): t = (y, 1, 1, 0, 0)
    elif chance(rng, 0.2): t = (2000, 2, 29, int(rng.integers(0, 24)), 0)
    else: t = (y, int(rng.integers(1, 13)), int(rng.integers(1, 29)), int(choice(rng, [0, 6, 12, 18, 3])), int(choice(rng, [0, 0, 0, 15])))
    seen.add(t)
  ts = sorted(seen)
  return [ts[i] for i in rng.permutation(n)] if chance(rng, 0.4) else ts

def make_field(rng, n, mon):
  nb = int(choice(rng, [0, 1, 2, 3, 5, 7, 8, 9, 11, 12, 13, 16, 17, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32])) if chance(rng, .8) else int(rng.integers(0, 33))
  ints = [int(x) for x in rng.integers(0, 2**nb, n)] if nb else [0] * n
  if nb and chance(rng, 0.3): ints[int(rng.integers(0, n))] = 2**nb - 1
  if nb and chance(rng, 0.3): ints[-1] = 2**nb - 1
  r = choice(rng, [0., 1., -1., 273.15, -5000.5, 101325., 1e-9, -3e12, 0.1])
  if chance(rng, 0.3): r = float(rng.normal()) * 10.**int(rng.integers(-12, 12))
  ref, r = G.ibm(r)
  e = int(choice(rng, [0, 0, 1, -1, -3, 4, -10, -20, 9, -33]))
  D = int(choice(rng, [0, 0, 0, 1, 2, 3, -1, -2, -4, 5]))
  if nb == 0: mon.hit('constant_fields')
  if nb > 25: mon.hit('wide_fields')
  if e < 0 or D < 0: mon.hit('negative_scales')
  vals = (r + np.array(ints, 'd') * 2.**e) * 10.**(-D)
  scale = max(abs(r), 2.**(nb + e)) * 10.**(-D)
  return ints, nb, ref, e, D, vals, scale

class V(object): pass

def make_file(rng, mon, big=False):
  """-> (list of messages with keys, list of variables)"""
  vs = []; used = set()
  only = chance(rng, 0.5)
  grids = [make_grid(rng, only)]
  nvar = int(choice(rng, [1, 1, 2, 3]))
  for i in range(nvar):
    v = V()
    while True:
      v.center, v.table = choice(rng, [(98, 128), (7, 2), (98, 2), (54, 2)])
      v.param = int(choice(rng, [130, 131, 11, 33, 54, 129, 246]))
      v.lt = int(choice(rng, list(LEVELS)))
      if (v.center, v.table, v.param, v.lt) not in used: break
    used.add((v.center, v.table, v.param, v.lt))
    if not only and chance(rng, 0.5): grids.append(make_grid(rng))
    v.grid, v.lats, v.lons, v.latol = choice(rng, grids)
    nz = int(choice(rng, [1, 2, 3, 5])); nt = int(choice(rng, [1, 2, 3, 4]))
    if big and i == 0:
      # more levels or dates than fit one byte
      v.grid = dict(v.grid, ni=1, nj=1, type=0, la1=1000, la2=1000, lo1=2000, lo2=2000); v.lats = np.array([1.]); v.lons = np.array([2.]); v.latol = 1e-9
      if chance(rng, 0.5): nt, nz = 300, 1
      else: nt, nz, v.lt = 1, 300, 100
    v.nv = b''; v.ab = None
    if v.lt == 109 and chance(rng, 0.7):
      k = int(choice(rng, [1, 2, 3, 5, 60, 126]))
      a = [G.ibm(float(x)) for x in rng.random(k + 1) * 30000]; b = [G.ibm(float(x)) for x in rng.random(k + 1)]
      v.nv = b''.join(x[0] for x in a + b)
      if k <= 5:
        v.levels = [(G.u(j + 1, 2), j + 1) for j in vlib.perm(rng, k)]; v.ab = [x[1] for x in a], [x[1] for x in b]
      else: v.levels = make_levels(rng, 109, nz)
    elif big and nz == 300: v.levels = [(G.u(j, 2), j) for j in vlib.perm(rng, 600)[:300]]
    else: v.levels = make_levels(rng, v.lt, nz)
    if nt == 300:
      v.times = [(2000 + j // 336, j // 28 % 12 + 1, j % 28 + 1, 0, 0) for j in range(nt)]
    else: v.times = make_times(rng, nt)
    v.extra = b'\0' * int(choice(rng, [0, 0, 0, 2, 12])); v.gextra = b'\0' * int(choice(rng, [0, 0, 0, 4, 10]))
    v.plen = 0 if not v.extra and chance(rng, 0.1) else None
    v.fields = {}; vs.append(v)
  msgs = []
  p = choice(rng, [0, 0, 0.25])
  for v in vs:
    n = len(v.lats) * len(v.lons); first = True
    for t in v.times:
      for raw, lev in v.levels:
        if not first and chance(rng, p): mon.hit('missing_records'); continue
        first = False
        ints, nb, ref, e, D, vals, scale = make_field(rng, n, mon)
        v.fields[t, lev] = vals.reshape(len(v.lats), len(v.lons)), scale, nb
        P = G.pds(v.center, v.table, v.param, v.lt, raw, t, D, extra=v.extra, length=v.plen)
        msgs.append(((v, t, lev), G.message(P, G.gds(v.grid, v.nv, v.gextra), G.bds(ints, nb, ref, e))))
  r = int(rng.integers(0, 3))
  if r: msgs = [msgs[i] for i in rng.permutation(len(msgs))] if r == 1 else msgs[::-1]
  return msgs, vs

JUNK = [b'', b'', b'', b'G', b'GRI', b'\0' * 7, b'HEADER GR', b'7777', b'GGR', b'Gg RIB', b'IBGR']
def write(rng, path, msgs):
  data = b''
  for k, m in msgs:
    j = choice(rng, JUNK)
    data += j + m
  if chance(rng, 0.2): data += choice(rng, JUNK)
  with open(path, 'wb') as f: f.write(data)


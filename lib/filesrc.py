"""File-backed sources for the checks: variables saved to a fresh file and opened again."""
import os, itertools
import numpy as np
import vlib
from vlib import choice, chance

_n = itertools.count()
def scratch(ext='.nc'):
  d = os.path.join(os.environ['VERIF_WORK'], 'files-%d' % os.getpid())
  os.makedirs(d, exist_ok=True)
  return os.path.join(d, 'f%d%s' % (next(_n), ext))

def backend(name):
  import importlib
  return importlib.import_module('pygeode.formats.' + name)

FILEKINDS = ['Lat', 'Lon', 'Pres', 'NamedAxis', 'StandardTime', 'ModelTime365']

def make_file(rng, nvars=2, nmax=7, backends=('netcdf', 'netcdf4')):
  """-> (path, back end name, version, {name: values}, [axes])"""
  import pygeode as pyg
  from pygeode.var import Var
  k = int(rng.integers(1, 4))
  axes = vlib.make_axes(rng, k, kinds=FILEKINDS, nmax=nmax, nmin=2)
  seen = set(); axes = [a for a in axes if not (a.name in seen or seen.add(a.name))]
  vs, vals = [], {}
  for i in range(nvars):
    ax = axes if i == 0 else [axes[j] for j in sorted(int(x) for x in rng.permutation(len(axes))[:int(rng.integers(1, len(axes) + 1))])]
    d = vlib.make_values(rng, [len(a) for a in ax], choice(rng, ['d', 'd', 'f', 'i4']))
    vs.append(Var(ax, values=d, name='v%d' % i)); vals['v%d' % i] = d
  be = choice(rng, list(backends)); ver = int(choice(rng, [3, 4]))
  # the netCDF4 back end refuses 64-bit integers in version 3
  if be == 'netcdf4' and any(np.dtype(a.values.dtype) == np.int64 for a in axes): ver = 4
  fn = scratch()
  backend(be).save(fn, pyg.asdataset(vs), version=ver)
  return fn, be, ver, vals, axes

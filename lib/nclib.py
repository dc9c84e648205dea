"""Puts a monitor between pygeode and the netCDF C library (which it calls through ctypes)."""
import threading

class Hook(object):
  """before(name, args) may return a status to return instead of calling; after(name, args, ret) -> status."""
  before = None
  after = None

def install():
  import ctypes
  real = ctypes.CDLL
  class MonCDLL(real):
    def __init__(self, name, *a, **k):
      real.__init__(self, name, *a, **k)
      if 'netcdf' not in str(name): return
      base = self._FuncPtr
      class Func(base):
        _flags_ = base._flags_
        _restype_ = base._restype_
        def __call__(self, *args):
          name = getattr(self, '__name__', '?')
          b, a = Hook.before, Hook.after
          if b is not None:
            r = b(name, args)
            if r is not None: return r
          try: r = base.__call__(self, *args)
          except BaseException:
            if a is not None: a(name, args, None)
            raise
          if a is not None:
            r2 = a(name, args, r)
            if r2 is not None: return r2
          return r
      self._FuncPtr = Func
  ctypes.CDLL = MonCDLL
  try:
    import pygeode, pygeode.formats.netcdf, pygeode.formats.netcdf4
  finally: ctypes.CDLL = real

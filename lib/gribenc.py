"""An encoder for GRIB edition 1 messages, written from the WMO specification."""
import numpy as np


def u(x, n):
  return int(x).to_bytes(n, 'big')


def sm(x, n):
  """Sign and magnitude."""
  x = int(x)
  return (abs(x) | ((1 << (8*n-1)) if x < 0 else 0)).to_bytes(n, 'big')


def ibm(x):
  """Nearest IBM single precision number not above x: (bytes, value)."""
  if x == 0: return b'\0\0\0\0', 0.
  sign, x = x < 0, abs(x)
  a = 0
  from fractions import Fraction
  f = Fraction(x)
  while f >= 1: f /= 16; a += 1
  while f < Fraction(1, 16): f *= 16; a -= 1
  m = f * 2**24
  m = -(-m.numerator // m.denominator) if sign else m.numerator // m.denominator
  if m == 2**24: m = 2**20; a += 1
  assert -64 <= a < 64
  val = float(Fraction(m, 2**24) * Fraction(16)**a)
  return bytes([(a+64) | (128 if sign else 0)]) + u(m, 3), -val if sign else val


def pack_bits(ints, nbits):
  """The integers as a stream of bits: (bytes, unused bits)."""
  total = len(ints) * nbits
  acc = 0
  for x in ints: acc = (acc << nbits) | int(x)
  nbytes = -(-total // 8)
  # the length of the section must be even
  if (11 + nbytes) % 2: nbytes += 1
  unused = nbytes * 8 - total
  return (acc << unused).to_bytes(nbytes, 'big') if nbytes else b'', unused


def bds(ints, nbits, ref, e, flag=0):
  data, unused = pack_bits(ints, nbits)
  return u(11+len(data), 3) + bytes([(flag << 4) | (unused & 15)]) + sm(e, 2) + ref + bytes([nbits]) + data


def pds(center, table, param, level_type, level, date, D, flag=128, p1=0, extra=b'', length=None, unit=1, tri=0, p2=0):
  y, m, d, H, M = date
  century, year = (y-1)//100 + 1, (y-1) % 100 + 1
  s = bytes([table, center, 0, 255, flag, param, level_type]) + level + \
      bytes([year, m, d, H, M, unit, p1, p2, tri]) + u(0, 2) + bytes([0, century, 0]) + sm(D, 2) + extra
  return u(3+len(s) if length is None else length, 3) + s


def gds(grid, nv=b'', extra=b''):
  """grid: dict(type, ni, nj, la1, lo1, la2, lo2 (millidegrees), di, dj, scan)"""
  s = bytes([len(nv)//4, 33 if nv else 255, grid['type']]) + u(grid['ni'], 2) + u(grid['nj'], 2) + \
      sm(grid['la1'], 3) + sm(grid['lo1'], 3) + bytes([128]) + sm(grid['la2'], 3) + sm(grid['lo2'], 3) + \
      u(grid['di'], 2) + u(grid['dj'], 2) + bytes([grid['scan']]) + b'\0\0\0\0' + nv + extra
  return u(3+len(s), 3) + s


def message(P, G, B, edition=1, end=b'7777', bms=b''):
  n = 8 + len(P) + len(G) + len(bms) + len(B) + len(end)
  return b'GRIB' + u(n, 3) + bytes([edition]) + P + G + bms + B + end

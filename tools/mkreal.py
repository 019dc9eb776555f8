#!/usr/bin/env python3-vt
"""Writes spec/Real.tla: values of the real functions at sample arguments, as intervals of single-precision floats."""
import os, struct, math
from sympy import Rational, N, sin, cos, tan, asin, acos, exp, log, sqrt, atan2, S
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
def bits(x): return struct.unpack("<I", struct.pack("<f", x))[0]
def frombits(b): return struct.unpack("<f", struct.pack("<I", b))[0]
def f32(x): return frombits(bits(x))
def dyad(x):
    if x == 0: return (0, 0)
    n, d = x.as_integer_ratio()
    e = -(d.bit_length() - 1)
    while n % 2 == 0: n //= 2; e += 1
    return (n, e)
def step(x, k):
    """k floats up (or down)"""
    b = bits(x)
    i = b if b < 1 << 31 else (1 << 31) - b
    i += k
    return frombits(i if i >= 0 else (1 << 31) - i)
ARGS = [0.0, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 3.75, -3.75, 0.25, -0.25, 2.25, 0.1, -0.1, 0.75, -0.75, 1.0, -1.0, 2.0, -2.0, 3.0, -3.0, 4.0, 5.0, 6.25, 7.0, -7.0, 8.0, 9.0, 10.0, -10.0, 16.0, 20.0, 50.0,
        64.0, 100.0, 255.0, 256.0, 1000.0, 0.001, 1024.0, 65535.0, 65536.0, 1000000.0, 0.125, 0.9, 0.3, 0.7, -0.9, 0.01, 12.5, 33.0, 1.1, 1.9]
FUN = {"log": log, "log2": lambda x: log(x) / log(2), "log10": lambda x: log(x) / log(10), "exp": exp, "sqrt": sqrt, "sin": sin, "cos": cos, "tan": tan, "asin": asin, "acos": acos}
OK = {"log": lambda x: x > 0, "log2": lambda x: x > 0, "log10": lambda x: x > 0, "exp": lambda x: abs(x) < 60, "sqrt": lambda x: x >= 0, "asin": lambda x: abs(x) <= 1, "acos": lambda x: abs(x) <= 1}
def row(key, val, ulps=4):
    v = float(N(val, 30))
    c = f32(v)
    if c == 0 and val == 0: lo = hi = 0.0
    else: lo, hi = step(c, -ulps), step(c, ulps)
    t = lambda x: '<<"f",%d,%d>>' % dyad(x)
    return "   <<%s, %s, %s>>" % (key, t(lo), t(hi))
def key(f, *a): return '<<"%s"%s>>' % (f, "".join(',<<"f",%d,%d>>' % dyad(x) for x in a))
rows = []
for f, g in FUN.items():
    for x in ARGS:
        x = f32(x)
        if OK.get(f, lambda x: abs(x) < 2000)(x): rows.append(row(key("math." + f, x), g(Rational(*x.as_integer_ratio()))))
for y in (0.0, 1.0, -1.0, 2.0, 0.5, -2.5, 10.0):
    for x in (0.0, 1.0, -1.0, 3.0, 0.5, -2.5):
        if (y, x) != (0.0, 0.0): rows.append(row(key("math.atan", y, x), atan2(Rational(*y.as_integer_ratio()), Rational(*x.as_integer_ratio()))))
for b in (2.0, 3.0, 0.5, 10.0, 2.5, 100.0, 9.0, 4.0, 7.0, 0.25):
    for e in (0.5, 1.5, -0.5, 2.5, 0.25, -1.5, -2.0, -1.0, -3.0, 0.75, 3.5):
        rows.append(row(key("pow", b, e), Rational(*b.as_integer_ratio()) ** Rational(*e.as_integer_ratio())))
open(os.path.join(V, "spec", "Real.tla"), "w").write("""-------------------------------- MODULE Real --------------------------------
(* The real-valued functions at sample arguments, written by tools/mkreal.py *)
(* from their mathematical definitions: <<name, argument...>>, then the     *)
(* floats four steps below and above the true value.                       *)
EXTENDS Integers
RealTable == <<
%s
>>
=============================================================================
""" % ",\n".join(rows))
print(len(rows))

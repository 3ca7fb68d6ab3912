"""ctypes view of the freshly built library (functions not exposed through the Python glue)."""
import ctypes, glob, os
import numpy as np
from pymaster import nmtlib

_so = [p for p in glob.glob(os.path.join(os.path.dirname(nmtlib._nmtlib.__file__), '_nmtlib*.so'))][0]
L = ctypes.CDLL(_so)
D, I, LG = ctypes.c_double, ctypes.c_int, ctypes.c_long
PD, PI = ctypes.POINTER(D), ctypes.POINTER(I)


def dp(a): return a.ctypes.data_as(PD)
def ip(a): return a.ctypes.data_as(PI)


def fn(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f

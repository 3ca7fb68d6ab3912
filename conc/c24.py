"""C24: Moore-Penrose conditions, C and Python implementations."""
import ctypes
import numpy as np
import pymaster as nmt
import pymaster.utils as ut
from . import clib


class M(ctypes.Structure):
    _fields_ = [('size1', ctypes.c_size_t), ('size2', ctypes.c_size_t), ('tda', ctypes.c_size_t), ('data', clib.PD), ('block', ctypes.c_void_p), ('owner', ctypes.c_int)]


def cpinv(A, tol):
    a = np.ascontiguousarray(A).copy()
    m = M(a.shape[0], a.shape[1], a.shape[1], clib.dp(a), None, 0)
    clib.fn('moore_penrose_pinv', None, ctypes.POINTER(M), clib.D)(ctypes.byref(m), tol)
    return a


def matrix(rng):
    n = int(rng.integers(1, 9))
    q = np.linalg.qr(rng.normal(size=(n, n)))[0]
    kind = rng.choice(['full', 'singular', 'graded', 'gram', 'null', 'diag'])
    tol = float(rng.choice([1e-12, 1e-10, 1e-6, 1e-3, .1, .5]))
    w = rng.uniform(.6, 1., n)
    if kind == 'singular': w[rng.integers(0, n):] = 0
    elif kind == 'graded': w = w * np.where(rng.integers(0, 2, n), 1., tol * rng.choice([.01, 100.])) ; w[0] = 1
    elif kind == 'null': w[:] = 0
    if kind == 'diag': q = np.eye(n)
    w = np.minimum(w, 1.) * 10 ** rng.uniform(-30, 30)
    A = (q * w) @ q.T
    if kind == 'gram':
        v = rng.normal(size=(n, int(rng.integers(1, 12)))); A = v @ v.T
        w, q = np.linalg.eigh(A)
    return n, q, w, (A + A.T) / 2, tol, kind


def run(c):
    rng = c.rng; K = 0
    while c.more() and K < (20000 if c.thorough else 2500):
        K += 1
        n, q, w, A, tol, kind = matrix(rng)
        top = w.max()
        r = np.divide(w, top, out=np.zeros(n), where=top > 0)
        r = np.abs(r)
        # skip spectra with an eigenvalue too close to the threshold, or lost in rounding above it, to decide
        if np.any((r > tol * .5) & (r < tol * 2)) or tol < 1e-13 or np.any((r > tol) & (r < 1e-11)): continue
        c.case(matrix=A, tol=tol, kind=kind)
        good = r > tol
        g = q[:, good]
        want = (g / w[good]) @ g.T
        P = g @ g.T
        Ag = (g * w[good]) @ g.T
        cond = 1 / r[good].min() if good.any() else 1
        acc = 1e-13 * cond * max(cond, 1)
        for nm, f in (('C', cpinv), ('python', ut.moore_penrose_pinvh)):
            B = f(A, tol)
            s = np.abs(want).max() if good.any() else 1.
            c.close(nm + ': pseudo-inverse above the threshold, zero below', B, want, 100 * acc + 1e-9, scale=s)
            c.close(nm + ': symmetric', B, B.T, 1e-9 + acc, scale=s)
            if good.any() and cond < 1e8:
                c.close(nm + ': A+ A projects on the retained space', B @ Ag, P, 1e-9 + acc, scale=1.)
                c.close(nm + ': A+ A A+ = A+', B @ A @ B, B, 1e-9 + acc, scale=s)
                c.close(nm + ': A A+ A = A on the retained space', A @ B @ A, Ag, 1e-9 + acc, atol=0, scale=top)
            if kind == 'full':
                c.close(nm + ': inverse of a well-conditioned matrix', B @ A, np.eye(n), 1e-9, scale=1.)
        if kind == 'full':
            for t in (None, 0., -1.):
                c.close('python: no threshold, plain inverse', ut.moore_penrose_pinvh(A, t) @ A, np.eye(n), 1e-9, scale=1.)
    for t in (-.1, 1.1):
        c.raises('thresholds outside [0,1] are refused', lambda: ut.set_tol_pinv_default(t))

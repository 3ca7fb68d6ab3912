"""Assumed contracts of the external functions the verified code calls
(C library, GSL, FFTW, and NaMaster's allocation/error primitives)."""
from .terms import *
from .engine import *
from .engine import Mal, FALSE_Q

LIB = {}


def contract(*names):
    def d(f):
        for n in names:
            LIB[n] = f
        return f
    return d


def ev(eng, st, args):
    out = []
    for a in args:
        v = eng.ex(st, a)
        if isinstance(v, T):
            v = as_num(v)
        out.append(v)
    return out


@contract('my_malloc', 'malloc', 'dftw_malloc', 'fftw_malloc')
def c_malloc(eng, st, args, e):
    (n,) = ev(eng, st, args)
    m = Mal(n, None, False, 'm%d' % e.uid)
    return eng_malloc(eng, st, m, e)


@contract('my_calloc', 'calloc')
def c_calloc(eng, st, args, e):
    n, s = ev(eng, st, args)
    return eng_malloc(eng, st, Mal(s, n, True, 'm%d' % e.uid), e)


def eng_malloc(eng, st, m, e):
    return m


@contract('free', 'dftw_free', 'fftw_free')
def c_free(eng, st, args, e):
    (p,) = ev(eng, st, args)
    free_ptr(eng, st, p, e.line)
    return UNDEF


def free_ptr(eng, st, p, line):
    if isinstance(p, PIte):
        p = eng.simp_ptr(st, p)
    if isinstance(p, PIte):
        s1 = st.copy(); s1.assume(p.c)
        free_ptr(eng, s1, p.a, line)
        s2 = st.copy(); s2.assume(not_(p.c))
        free_ptr(eng, s2, p.b, line)
        m = eng.merge(p.c, s1, s2, st)
        st.env, st.mem = m.env, m.mem
        return
    if isinstance(p, (Null, Opq)):
        return
    if not isinstance(p, Ptr):
        raise Unsupported('free of %r' % (p,))
    eng.oblige(st, eq(p.off, ZERO), 'free of an interior pointer (%s)' % p.obj.name, 'mem', line)
    key = (p.obj.name, '$freed')
    c = st.mem.get(key)
    if c is None:
        c = Content(Base('freed0', lambda loc: ZERO))
        st.mem[key] = c
    fr = eng.eval_content(st, c, p.idx + (ZERO,))
    eng.oblige(st, eq(fr, ZERO), 'no double free of %s' % p.obj.name, 'mem', line)
    st.mem[key] = c.add(St(TRUE, p.idx + (ZERO,), ONE, eng.prot > 0))


@contract('report_error')
def c_error(eng, st, args, e):
    a = []
    try:
        a = ev(eng, st, args[:1])
    except Unsupported:
        pass
    eng.pending.append(Exit('error', st.copy(), a[0] if a else UNDEF))
    raise Abort()


@contract('exit', 'longjmp', 'abort')
def c_exit(eng, st, args, e):
    eng.pending.append(Exit('error', st.copy(), UNDEF))
    raise Abort()


@contract('fprintf', 'printf', 'sprintf', 'snprintf')
def c_print(eng, st, args, e):
    return ZERO


@contract('memcpy', 'memmove')
def c_memcpy(eng, st, args, e):
    d, s, n = ev(eng, st, args)
    d, s = eng.simp_ptr(st, d), eng.simp_ptr(st, s)
    if not isinstance(d, Ptr) or not isinstance(s, Ptr):
        raise Unsupported('memcpy of %r' % (d,))
    ety = d.obj.ety
    cnt = Mal(n, None, False, '').count(eng, ety)
    eng.check_range(st, d, cnt, e.line, 'memcpy dst')
    eng.check_range(st, s, cnt, e.line, 'memcpy src')
    for part in (('re', 'im') if is_cx_ty(ety) else (None,)):
        fld = s.fld if part is None else part
        c = eng.content(st, s.obj, fld, ety)
        sc = st.copy()

        def val(v, c=c, s=s, sc=sc):
            s2 = sc.copy()
            s2.assume(and_(le(ZERO, v), lt(v, cnt)))
            return eng.eval_content(s2, c, s.idx + (add(s.off, v),))
        eng.bulk(st, d, cnt, val, part, ety, e.line)
    return d


@contract('memset')
def c_memset(eng, st, args, e):
    d, v, n = ev(eng, st, args)
    d = eng.simp_ptr(st, d)
    if const_val(v) != 0 or not isinstance(d, Ptr):
        raise Unsupported('memset')
    ety = d.obj.ety
    cnt = Mal(n, None, False, '').count(eng, ety)
    eng.check_range(st, d, cnt, e.line, 'memset')
    for part in (('re', 'im') if is_cx_ty(ety) else (None,)):
        eng.bulk(st, d, cnt, lambda k: ZERO, part, ety, e.line)
    return d


PI = app('$pi', (), 'R')


def math1(name, fname, sort='R'):
    @contract(fname)
    def f(eng, st, args, e):
        (x,) = ev(eng, st, args)
        return app(name, (x,), sort)
    return f


for _n in ('cos', 'sin', 'exp', 'log', 'tan', 'acos', 'asin', 'atan', 'log10'):
    math1('$' + _n, _n)


def sqrt_(x):
    x = num(x)
    c = const_val(x)
    if c is not None and c >= 0:
        import math
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return R(Fraction(a, b))
    return app('$sqrt', (x,), 'R')


@contract('sqrt')
def c_sqrt(eng, st, args, e):
    (x,) = ev(eng, st, args)
    return sqrt_(x)


@contract('fabs')
def c_fabs(eng, st, args, e):
    (x,) = ev(eng, st, args)
    return ite(ge(x, 0), x, neg(x))


@contract('abs', 'labs')
def c_abs(eng, st, args, e):
    (x,) = ev(eng, st, args)
    return ite(ge(x, 0), x, neg(x))


@contract('copysign')
def c_copysign(eng, st, args, e):
    x, y = ev(eng, st, args)
    a = ite(ge(x, 0), x, neg(x))
    # the sign of a zero is not modelled
    return ite(gt(y, 0), a, ite(lt(y, 0), neg(a), mul(a, app('$signbit0', (y,), 'I'))))


@contract('fmin')
def c_fmin(eng, st, args, e):
    x, y = ev(eng, st, args)
    return ite(le(x, y), x, y)


@contract('fmax')
def c_fmax(eng, st, args, e):
    x, y = ev(eng, st, args)
    return ite(ge(x, y), x, y)


@contract('pow')
def c_pow(eng, st, args, e):
    x, y = ev(eng, st, args)
    c = const_val(y)
    if c is not None and c.denominator == 1 and 0 <= c <= 8:
        return mul(ONE, *([x] * int(c)))
    return app('$pow', (x, y), 'R')


@contract('atan2')
def c_atan2(eng, st, args, e):
    x, y = ev(eng, st, args)
    return app('$atan2', (x, y), 'R')


@contract('floor')
def c_floor(eng, st, args, e):
    (x,) = ev(eng, st, args)
    return app('$floor', (x,), 'I')


@contract('ceil')
def c_ceil(eng, st, args, e):
    (x,) = ev(eng, st, args)
    return app('$ceil', (x,), 'I')


@contract('creal')
def c_creal(eng, st, args, e):
    return tocx(ev(eng, st, args)[0]).re


@contract('cimag')
def c_cimag(eng, st, args, e):
    return tocx(ev(eng, st, args)[0]).im


@contract('conj')
def c_conj(eng, st, args, e):
    v = tocx(ev(eng, st, args)[0])
    return Cx(v.re, neg(v.im))


@contract('cpow')
def c_cpow(eng, st, args, e):
    x, y = ev(eng, st, args)
    x, y = tocx(x), tocx(y)
    if x.re is ZERO and x.im in (ONE, I(-1)) and y.im is ZERO:
        n = imod(y.re, I(4)) if y.re.sort == 'I' else None
        if n is not None:     # i^s for integer s
            re = ite(eq(n, ZERO), ONE, ite(eq(n, I(2)), I(-1), ZERO))
            im = ite(eq(n, ONE), x.im, ite(eq(n, I(3)), neg(x.im), ZERO))
            return Cx(re, im)
    raise Unsupported('cpow')


# ------------------------------------------------------------ GSL matrices and vectors
def gsl_new(eng, st, e, kind, dims, zero):
    idx = tuple(v for v, _, _ in eng.loopvars)
    o = eng.new_obj('new:gsl_%s@%d' % (kind, e.uid), len(idx), 'gsl_' + kind, lambda i: ONE)
    o.kind = 'heap'
    p = Ptr(o, idx)
    for f, d in zip(('size1', 'size2') if kind == 'matrix' else ('size',), dims):
        eng.upd(st, Ptr(o, idx, ZERO, f), None, d, None, 'int')
    nm = o.name + '.data'
    if zero:
        st.mem[(o.name, '$data')] = Content(Base(nm + '#0', lambda loc: ZERO))
    else:
        st.mem[(o.name, '$data')] = Content(Base('uninit:' + nm, lambda loc: app('uninit:' + nm, loc, 'R')))
    for d in dims:
        eng.oblige(st, gt(d, 0), 'gsl_%s_alloc: positive size' % kind, 'mem', e.line)
    return p


@contract('gsl_matrix_alloc')
def c_gma(eng, st, args, e): return gsl_new(eng, st, e, 'matrix', ev(eng, st, args), False)


@contract('gsl_matrix_calloc')
def c_gmc(eng, st, args, e): return gsl_new(eng, st, e, 'matrix', ev(eng, st, args), True)


@contract('gsl_vector_alloc')
def c_gva(eng, st, args, e): return gsl_new(eng, st, e, 'vector', ev(eng, st, args), False)


@contract('gsl_vector_calloc')
def c_gvc(eng, st, args, e): return gsl_new(eng, st, e, 'vector', ev(eng, st, args), True)


@contract('gsl_permutation_alloc')
def c_gpa(eng, st, args, e):
    return gsl_new(eng, st, e, 'permutation', ev(eng, st, args), False)


@contract('gsl_matrix_free', 'gsl_vector_free', 'gsl_permutation_free')
def c_gfree(eng, st, args, e):
    (p,) = ev(eng, st, args)
    free_ptr(eng, st, p, e.line)
    return UNDEF


def gsl_size(eng, st, p, kind):
    fs = ('size1', 'size2') if kind == 'matrix' else ('size',)
    out = []
    for f in fs:
        c = eng.content(st, p.obj, f, 'int')
        out.append(eng.eval_content(st, c, p.idx + (p.off,)))
    return out


def gsl_data(eng, st, p):
    key = (p.obj.name, '$data')
    c = st.mem.get(key)
    if c is None:
        nm = p.obj.name + '.$data'
        c = Content(Base(nm, lambda loc: app(nm, loc, 'R')))
        st.mem[key] = c
    return key, c


def gsl_get(eng, st, p, ij):
    _, c = gsl_data(eng, st, p)
    return eng.eval_content(st, c, p.idx + tuple(ij))


def gsl_ptr(eng, st, p):
    p = eng.simp_ptr(st, p)
    if not isinstance(p, Ptr):
        raise Unsupported('gsl object %r' % (p,))
    return p


def gsl_bounds(eng, st, p, kind, ij, line):
    for i, n in zip(ij, gsl_size(eng, st, p, kind)):
        eng.oblige(st, and_(le(ZERO, i), lt(i, n)), 'gsl_%s index in bounds' % kind, 'mem', line)


@contract('gsl_matrix_get')
def c_gmget(eng, st, args, e):
    p, i, j = ev(eng, st, args)
    p = gsl_ptr(eng, st, p)
    gsl_bounds(eng, st, p, 'matrix', (i, j), e.line)
    return gsl_get(eng, st, p, (i, j))


@contract('gsl_matrix_set')
def c_gmset(eng, st, args, e):
    p, i, j, x = ev(eng, st, args)
    p = gsl_ptr(eng, st, p)
    gsl_bounds(eng, st, p, 'matrix', (i, j), e.line)
    key, c = gsl_data(eng, st, p)
    st.mem[key] = c.add(St(TRUE, p.idx + (i, j), x, eng.prot > 0))
    return UNDEF


@contract('gsl_vector_get')
def c_gvget(eng, st, args, e):
    p, i = ev(eng, st, args)
    p = gsl_ptr(eng, st, p)
    gsl_bounds(eng, st, p, 'vector', (i,), e.line)
    return gsl_get(eng, st, p, (i,))


@contract('gsl_vector_set')
def c_gvset(eng, st, args, e):
    p, i, x = ev(eng, st, args)
    p = gsl_ptr(eng, st, p)
    gsl_bounds(eng, st, p, 'vector', (i,), e.line)
    key, c = gsl_data(eng, st, p)
    st.mem[key] = c.add(St(TRUE, p.idx + (i,), x, eng.prot > 0))
    return UNDEF


@contract('gsl_interp_accel_alloc')
def c_gia(eng, st, args, e): return Opq('accel')


@contract('gsl_interp_accel_free')
def c_giaf(eng, st, args, e): return UNDEF


# ------------------------------------------------------------ GSL linear algebra
def pair_tag(eng, p):
    """matrix and permutation of one LU factorisation share a tag"""
    nm = p.obj.name
    t = eng.opts.setdefault('$pair', {}).get(nm)
    return t if t is not None else nm.rsplit('.', 1)[0]


def lu_tag(eng, p):
    return eng.opts.setdefault('$lutag', {}).get(p.obj.name, p.obj.name)


def gsl_fill2(eng, st, p, n, m, valfn, key='$data'):
    """all elements of a matrix := valfn(i, j)"""
    if key == '$data':
        k, c = gsl_data(eng, st, p)
    else:
        k = (p.obj.name, key)
        c = st.mem.get(k) or Content(Base(p.obj.name + '.' + key, lambda loc: app(p.obj.name + '.' + key, loc, 'R')))
    i, j = fresh('mi'), fresh('mj')
    eng.touched_objs.add(p.obj.name)
    eng.opts.setdefault('$filled', set()).add(p.obj.name)
    u = Loop(i, ZERO, n, [Loop(j, ZERO, m, [St(TRUE, p.idx + (i, j), valfn(i, j), eng.prot > 0)])])
    st.mem[k] = c.add(u)


def gsl_fill1(eng, st, p, n, valfn):
    k, c = gsl_data(eng, st, p)
    i = fresh('mi')
    eng.touched_objs.add(p.obj.name)
    st.mem[k] = c.add(Loop(i, ZERO, n, [St(TRUE, p.idx + (i,), valfn(i), eng.prot > 0)]))


def snap(eng, st, p):
    """reader of the present contents of a matrix or vector"""
    _, c = gsl_data(eng, st, p)
    sc = st.copy()

    def get(*ij):
        s = sc.copy()
        for x, n in zip(ij, dims):
            s.assume(and_(le(ZERO, x), lt(x, n)))
        return eng.eval_content(s, c, p.idx + tuple(ij))
    dims = gsl_size(eng, st, p, 'matrix' if 'gsl_matrix' in p.obj.name or p.obj.ety == 'gsl_matrix' else 'vector')
    return get


@contract('gsl_linalg_LU_decomp')
def c_ludec(eng, st, args, e):
    p, perm, sg = ev(eng, st, args)
    p, perm = gsl_ptr(eng, st, p), gsl_ptr(eng, st, perm)
    n, m = gsl_size(eng, st, p, 'matrix')
    (k,) = gsl_size(eng, st, perm, 'permutation')
    eng.oblige(st, and_(eq(n, m), eq(n, k)), 'LU_decomp: square matrix and permutation of the same size', 'mem', e.line)
    get = snap(eng, st, p)
    tag = 'lu@%d' % e.uid
    eng.opts.setdefault('$pair', {})[p.obj.name] = tag
    eng.opts['$pair'][perm.obj.name] = tag
    eng.opts.setdefault('$lutag', {})[p.obj.name] = tag
    if eng.loopvars:
        gsl_fill2(eng, st, p, n, n, get, key='$lu')
    else:
        eng.touched_objs.add(p.obj.name)
        st.mem[(p.obj.name, '$lu')] = gsl_data(eng, st, p)[1]     # ghost: the contents before the factorisation
    gsl_fill2(eng, st, p, n, n, lambda i, j: app('LUdata:' + tag, p.idx + (i, j), 'R'))
    if isinstance(sg, (Ptr, LRef)):
        try:
            eng.store(st, sg, 'int', app('LUsign', (), 'I'), e.line)
        except Exception:
            if isinstance(sg, LRef):
                st.env[sg.id] = app('LUsign', (), 'I')
    return ZERO


def lu_check(eng, st, p, perm, e):
    n, m = gsl_size(eng, st, p, 'matrix')
    (k,) = gsl_size(eng, st, perm, 'permutation')
    eng.oblige(st, and_(eq(n, m), eq(n, k)), 'LU: square matrix and permutation of the same size', 'mem', e.line)
    eng.oblige(st, TRUE if pair_tag(eng, p) == pair_tag(eng, perm) else FALSE_Q,
               'LU: the permutation belongs to the factorised matrix', 'post', e.line)
    return n


def lu_inv(eng, p, i, j):
    """element of the inverse of the matrix whose factorisation p holds"""
    return app('luinv:' + lu_tag(eng, p), p.idx + (num(i), num(j)), 'R')


@contract('gsl_linalg_LU_invert')
def c_luinv(eng, st, args, e):
    p, perm, q = [gsl_ptr(eng, st, x) for x in ev(eng, st, args)]
    n = lu_check(eng, st, p, perm, e)
    a, b = gsl_size(eng, st, q, 'matrix')
    eng.oblige(st, and_(eq(n, a), eq(n, b)), 'LU_invert: output of the same size', 'mem', e.line)
    gsl_fill2(eng, st, q, n, n, lambda i, j: lu_inv(eng, p, i, j))
    return ZERO


@contract('gsl_linalg_LU_solve')
def c_lusolve(eng, st, args, e):
    p, perm, b, x = [gsl_ptr(eng, st, x) for x in ev(eng, st, args)]
    n = lu_check(eng, st, p, perm, e)
    (nb,) = gsl_size(eng, st, b, 'vector')
    (nx,) = gsl_size(eng, st, x, 'vector')
    eng.oblige(st, and_(eq(n, nb), eq(n, nx)), 'LU_solve: vectors of the same size', 'mem', e.line)
    get = snap(eng, st, b)

    def val(i):
        k = fresh('k')
        return sum_(k, ZERO, n, mul(lu_inv(eng, p, i, k), get(k)))
    gsl_fill1(eng, st, x, n, val)
    return ZERO


@contract('gsl_blas_dgemm')
def c_dgemm(eng, st, args, e):
    ta, tb, al, A_, B_, be, C_ = ev(eng, st, args)
    A_, B_, C_ = [gsl_ptr(eng, st, x) for x in (A_, B_, C_)]
    fl = {'enum:CblasNoTrans': 111, 'enum:CblasTrans': 112}
    ta, tb = [fl[t.a[0]] if t.op == 'f' and t.a[0] in fl else const_val(t) for t in (ta, tb)]
    if ta not in (111, 112) or tb not in (111, 112):
        raise Unsupported('dgemm flags')
    a1, a2 = gsl_size(eng, st, A_, 'matrix')
    b1, b2 = gsl_size(eng, st, B_, 'matrix')
    c1, c2 = gsl_size(eng, st, C_, 'matrix')
    if ta == 112: a1, a2 = a2, a1
    if tb == 112: b1, b2 = b2, b1
    eng.oblige(st, and_(eq(a1, c1), eq(b2, c2), eq(a2, b1)), 'dgemm: sizes agree', 'mem', e.line)
    if C_.obj.name in (A_.obj.name, B_.obj.name):
        eng.oblige(st, FALSE_Q, 'dgemm: output does not alias an input', 'mem', e.line)
    ga, gb, gc = snap(eng, st, A_), snap(eng, st, B_), snap(eng, st, C_)

    def val(i, j):
        k = fresh('k')
        s = mul(al, sum_(k, ZERO, a2, mul(ga(*((i, k) if ta == 111 else (k, i))), gb(*((k, j) if tb == 111 else (j, k))))))
        return s if const_val(num(be)) == 0 else add(s, mul(be, gc(i, j)))
    gsl_fill2(eng, st, C_, c1, c2, val)
    return ZERO


@contract('gsl_matrix_memcpy')
def c_gmemcpy(eng, st, args, e):
    d, s = [gsl_ptr(eng, st, x) for x in ev(eng, st, args)]
    a1, a2 = gsl_size(eng, st, s, 'matrix')
    d1, d2 = gsl_size(eng, st, d, 'matrix')
    eng.oblige(st, and_(eq(a1, d1), eq(a2, d2)), 'gsl_matrix_memcpy: sizes agree', 'mem', e.line)
    gsl_fill2(eng, st, d, d1, d2, snap(eng, st, s))
    return ZERO


@contract('gsl_matrix_set_zero')
def c_gmzero(eng, st, args, e):
    (p,) = [gsl_ptr(eng, st, x) for x in ev(eng, st, args)]
    n, m = gsl_size(eng, st, p, 'matrix')
    gsl_fill2(eng, st, p, n, m, lambda i, j: ZERO)
    return UNDEF


# ------------------------------------------------------------ FFTW (two-dimensional real transforms)
# $ftc(ny,nx,k,p), $fts(ny,nx,k,p): cosine and sine of 2 pi (kx x/nx + ky y/ny), mode k = kx + (nx/2+1) ky, pixel p = x + nx y;
# $ftw(nx,k): number of modes of the full plane the stored mode k stands for (1 on the kx=0 and even-nx Nyquist columns, 2 elsewhere)
@contract('fftw_plan_dft_r2c_2d', 'fftw_plan_dft_c2r_2d')
def c_plan(eng, st, args, e):
    ny, nx, a, b, fl = ev(eng, st, args)
    c = e.ch[0]
    while c.k != 'Ref':
        c = c.ch[0]
    r2c = 'r2c' in c.a[2]
    a, b = eng.simp_ptr(st, a), eng.simp_ptr(st, b)
    if not isinstance(a, Ptr) or not isinstance(b, Ptr):
        raise Unsupported('FFT arrays %r %r' % (a, b))
    m, k = (a, b) if r2c else (b, a)
    eng.check_range(st, m, mul(ny, nx), e.line, 'FFT map')
    eng.check_range(st, k, mul(ny, add(idiv(nx, I(2)), ONE)), e.line, 'FFT modes')
    if const_val(fl) not in (64, 65):       # anything but FFTW_ESTIMATE may overwrite the arrays while planning
        raise Unsupported('FFTW planner flags')
    return Opq('plan', (r2c, ny, nx, (m, ), (k, )))


@contract('fftw_execute')
def c_fft(eng, st, args, e):
    p = eng.ex(st, args[0])
    if not isinstance(p, Opq) or p.name != 'plan':
        raise Unsupported('FFT plan %r' % (p,))
    r2c, ny, nx, (m,), (k,) = p.args
    nm = mul(ny, add(idiv(nx, I(2)), ONE))
    np_ = mul(ny, nx)
    sc = st.copy()

    def rd(c, ptr, i, n):
        s = sc.copy()
        s.assume(and_(le(ZERO, i), lt(i, n)))
        return eng.eval_content(s, c, ptr.idx + (add(ptr.off, i),))
    K = lambda f, kk, pp: app(f, (ny, nx, kk, pp), 'R')
    if r2c:
        c = eng.content(st, m.obj, m.fld, 'double')

        def val(f):
            def g(kk):
                q = fresh('px')
                s = sum_(q, ZERO, np_, mul(rd(c, m, q, np_), K(f, kk, q)))
                return s if f == '$ftc' else neg(s)
            return g
        eng.bulk(st, k, nm, val('$ftc'), 're', 'double', e.line)
        eng.bulk(st, k, nm, val('$fts'), 'im', 'double', e.line)
    else:
        cr, ci = eng.content(st, k.obj, 're', 'double'), eng.content(st, k.obj, 'im', 'double')

        def val(pp):
            q = fresh('kk')
            return sum_(q, ZERO, nm, mul(app('$ftw', (nx, q), 'R'), sub(mul(rd(cr, k, q, nm), K('$ftc', q, pp)), mul(rd(ci, k, q, nm), K('$fts', q, pp)))))
        eng.bulk(st, m, np_, val, None, 'double', e.line)
        for f in ('re', 'im'):      # multi-dimensional c2r transforms destroy their input
            nm_ = 'destroyed:%s@%d.%s' % (k.obj.name, e.uid, f)
            eng.bulk(st, k, nm, lambda kk, nm_=nm_: app(nm_, tuple(k.idx) + (kk,), 'R'), f, 'double', e.line)
    return UNDEF


@contract('fftw_destroy_plan')
def c_fftd(eng, st, args, e):
    eng.ex(st, args[0])
    return UNDEF

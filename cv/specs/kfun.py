"""Functions of wavenumber (nmt_k_function) and GSL splines."""
from .common import *
from ..libc import LIB, gsl_new, gsl_ptr, ev, free_ptr, gsl_size


def c_spl_alloc(eng, st, args, e):
    n = as_num(eng.ex(st, args[1]))
    eng.oblige(st, ge(n, 2), 'gsl_spline_alloc(linear): at least two points', 'mem', e.line)
    idx = tuple(v for v, _, _ in eng.loopvars)
    o = eng.new_obj('new:gsl_spline@%d_%d' % (e.uid, eng.opts.setdefault('$nspl', 0)), len(idx), 'gsl_spline', lambda i: ONE)
    eng.opts['$nspl'] += 1
    o.kind = 'heap'
    eng.opts.setdefault('$spln', {})[o.name] = (idx, n)
    return Ptr(o, idx)


def src(eng, st, p, n, line):
    p = eng.simp_ptr(st, p)
    if not isinstance(p, Ptr):
        raise Unsupported('spline data %r' % (p,))
    eng.check_range(st, p, n, line, 'spline data')
    c = eng.content(st, p.obj, p.fld, 'double')
    if c.ups or p.off is not ZERO:
        return ('%s#%d' % (p.obj.name, id(c)), p.idx)
    return (p.obj.name, p.idx)


def c_spl_init(eng, st, args, e):
    p, x, y, n = ev(eng, st, args)
    p = gsl_ptr(eng, st, p)
    idx, m = eng.opts['$spln'][p.obj.name]
    eng.oblige(st, eq(n, m), 'gsl_spline_init: number of points as allocated', 'mem', e.line)
    X, Y = src(eng, st, x, n, e.line), src(eng, st, y, n, e.line)
    t = eng.opts.setdefault('$spl', {})
    new = (idx, 'SPL:%s:%s' % (X[0], Y[0]), tuple(X[1]) + tuple(Y[1]) + (n,))
    if t.get(p.obj.name, new) != new:
        raise Unsupported('spline initialised twice')
    t[p.obj.name] = new
    return ZERO


def c_spl_eval(eng, st, args, e):
    p = eng.simp_ptr(st, eng.ex(st, args[0]))
    x = as_num(eng.ex(st, args[1]))
    eng.oblige(st, FALSE_Q if isinstance(p, Null) else TRUE, 'gsl_spline_eval: spline allocated', 'mem', e.line)
    if isinstance(p, PIte):
        for c, q in ((p.c, p.a), (not_(p.c), p.b)):
            if isinstance(q, Null):
                eng.oblige(st, not_(c), 'gsl_spline_eval: spline allocated', 'mem', e.line)
                p = p.b if q is p.a else p.a
                break
    if not isinstance(p, Ptr) or p.obj.name not in eng.opts.get('$spl', {}):
        raise Unsupported('spline %r' % (p,))
    idx, nm, a = eng.opts['$spl'][p.obj.name]
    m = dict(zip(idx, p.idx))
    return app(nm, tuple(subst(num(t), m) for t in a) + (x,), 'R')


def c_spl_free(eng, st, args, e):
    return UNDEF


SPLC = {'gsl_spline_alloc': c_spl_alloc, 'gsl_spline_init': c_spl_init, 'gsl_spline_eval': c_spl_eval, 'gsl_spline_free': c_spl_free}


def kspl(xn, yn, xi, yi, n, x, y0, yf, lo, hi):
    """value of the tabulated function at x (linear interpolation inside the table)"""
    return ite(le(x, lo), y0, ite(ge(x, hi), yf, app('SPL:%s:%s' % (xn, yn), tuple(num(t) for t in tuple(xi) + tuple(yi)) + (num(n), x), 'R')))


# ---- nmt_k_function_alloc / _eval
SPECS = []


def k_at(x, const):
    n = v('nk')
    if const:
        return v('y0', 'R')
    return kspl('karr', 'farr', (), (), n, x, v('y0', 'R'), v('yf', 'R'), A('karr', 0, s='R'), A('karr', sub(n, 1), s='R'))


def alloc_post(const):
    def post(q):
        f = q.ret
        yield ('constant flag', eq(q.fld(f, 'is_const'), const))
        yield ('value below the table', eq(q.fld(f, 'y0', 'double'), v('y0', 'R')))
        if not const:
            yield ('lower edge', eq(q.fld(f, 'x0', 'double'), A('karr', 0, s='R')))
            yield ('upper edge', eq(q.fld(f, 'xf', 'double'), A('karr', sub(v('nk'), 1), s='R')))
            yield ('value above the table', eq(q.fld(f, 'yf', 'double'), v('yf', 'R')))
            if const == 0:
                q1 = q.at(gt(v('nk'), 1))
                p = q1.eng.simp_ptr(q1.st, q1.fld(f, 'spl', 'gsl_spline *'))
                ok = isinstance(p, Ptr) and q1.eng.opts.get('$spl', {}).get(p.obj.name, (0, 0))[1] == 'SPL:karr:farr'
                yield ('tabulated values are interpolated', TRUE if ok else FALSE_Q, gt(v('nk'), 1))
    return post


for const in (0, 1):
    SPECS.append(Spec('nmt_k_function_alloc', name='nmt_k_function_alloc[%s]' % ('const' if const else 'table'), args={'is_const': const},
                      lens={} if const else {'karr': v('nk'), 'farr': v('nk')}, pre=lambda e, const=const: [] if const else [ge(v('nk'), 1)],
                      contracts=SPLC, post=alloc_post(const)))


def c_keval(eng, st, args, e):
    """value of a function object: uninterpreted for the caller's, computed for the ones the code builds"""
    p, x, acc = [eng.ex(st, a) for a in args]
    x = as_num(x)
    p = eng.simp_ptr(st, p)
    if isinstance(p, Ptr) and p.obj.kind == 'param':
        return app('kfun:' + p.obj.name, tuple(p.idx) + (x,), 'R')
    eng.path.append(('call', e.uid))
    try:
        return eng.inline(st, 'nmt_k_function_eval', [p, x, acc])
    finally:
        eng.path.pop()


KC = dict(SPLC, nmt_k_function_eval=c_keval)

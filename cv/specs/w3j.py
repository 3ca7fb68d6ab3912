"""Contracts of the Wigner-3j routines (drc3jj_000 proved against its closed form in its own spec; drc3jj assumed)."""
from .common import *
from ..libc import ev, sqrt_


def absI(x):
    x = num(x)
    return ite(ge(x, 0), x, neg(x))


def maxI(x, y):
    x, y = num(x), num(y)
    return ite(ge(x, y), x, y)


def minI(x, y):
    x, y = num(x), num(y)
    return ite(le(x, y), x, y)


def LNF(i):
    """log(i!)"""
    j = fresh('j')
    return sum_(j, 2, add(i, 1), app('$log', (j,), 'R'))


def W3J(l1, l2, l3, m2, m3):
    return app('W3j', tuple(num(x) for x in (l1, l2, l3, m2, m3)), 'R')


def c_drc3jj(zero):
    def f(eng, st, args, e):
        if zero:
            l2, l3, pmin, pmax, lf, out, size = ev(eng, st, args)
            m2 = m3 = ZERO
        else:
            l2, l3, m2, m3, pmin, pmax, out, size = ev(eng, st, args)
        m2, m3 = num(m2), num(m3)
        l1max = add(l2, l3)
        l1min = absI(sub(l2, l3)) if zero else maxI(absI(sub(l2, l3)), absI(add(m2, m3)))
        eng.oblige(st, and_(ge(l2, 0), ge(l3, 0)), 'drc3jj: multipoles are not negative', 'mem', e.line)
        n = add(sub(l1max, l1min), 1)
        eng.oblige(st, le(n, size), 'drc3jj: all values fit in the output array', 'mem', e.line)
        out = eng.simp_ptr(st, out)
        eng.check_range(st, out, size, e.line, 'drc3jj output')
        if zero:
            lf = eng.simp_ptr(st, lf)
            eng.check_range(st, lf, add(add(l1max, l2), add(l3, 2)), e.line, 'drc3jj_000 log-factorial table')
            i = fresh('i')
            s = st.copy()
            s.assume(and_(rng(i, 0, add(l1max, l2, l3, 2))))
            g = eng.load_fld(s, eng.padd(s, lf, i), '', 'double')
            eng.oblige(s, eq(g, LNF(i)), 'drc3jj_000: the table holds log-factorials', 'post', e.line)
        eng.bulk(st, out, n, lambda k: W3J(add(l1min, k), l2, l3, m2, m3), None, 'double', e.line)
        for p, x in ((pmin, l1min), (pmax, l1max)):
            if isinstance(p, LRef):
                st.env[p.id] = x
            else:
                eng.store(st, p, 'int', x, e.line)
        return ZERO
    return f


W3JC = {'drc3jj_000': c_drc3jj(True), 'drc3jj': c_drc3jj(False)}


# drc3jj_000 against the closed form of the 3j symbols with vanishing m
SPECS = []


def w000_post(q):
    k = sk()
    l2, l3 = v('il2'), v('il3')
    lmin = absI(sub(l2, l3))
    l1 = add(lmin, k)
    J = add(l1, l2, l3)
    g = idiv(J, I(2))
    d = rng(k, 0, add(l2, l3, sub(1, lmin)))
    q1 = q.at(d)
    lf = lambda i: A('lfac', i, s='R')
    arg = add(mul(R(Fraction(1, 2)), sub(add(lf(sub(J, mul(2, l1))), lf(sub(J, mul(2, l2))), lf(sub(J, mul(2, l3)))), lf(add(J, 1)))),
              lf(g), neg(lf(sub(g, l1))), neg(lf(sub(g, l2))), neg(lf(sub(g, l3))))
    sg = lambda x: ite(eq(imod(x, I(2)), 0), 1, -1)
    closed = ite(eq(imod(J, I(2)), 1), 0, mul(sg(g), app('$exp', (arg,), 'R')))
    one = rdiv(sg(lmin), sqrt_(add(J, 1)))
    yield ('3j symbol', eq(q1.rd('thrcof', k), ite(eq(add(l2, l3), lmin), one, closed)), d)
    for p, x in (('l1min_out', lmin), ('l1max_out', add(l2, l3))):
        yield (p, eq(q.rd(p, 0, ty='int'), x))


_n = add(v('il2'), v('il3'), sub(1, absI(sub(v('il2'), v('il3')))))
SPECS.append(Spec('drc3jj_000', lens={'l1min_out': 1, 'l1max_out': 1, 'lfac': add(mul(2, add(v('il2'), v('il3'))), 2), 'thrcof': v('size')},
                  pre=lambda e: [ge(v('il2'), 0), ge(v('il3'), 0), le(_n, v('size'))], post=w000_post))


def drc_post(case):
    def post(q):
        m1 = add(v('im2'), v('im3'))
        lmin = maxI(absI(sub(v('il2'), v('il3'))), absI(m1))
        for p, x in (('l1min_out', lmin), ('l1max_out', add(v('il2'), v('il3')))):
            yield (p, eq(q.rd(p, 0, ty='int'), x))
        if case == 'vanishing':
            k = sk()
            d = rng(k, 0, add(v('il2'), v('il3'), sub(1, lmin)))
            yield ('symbols with |m|>l vanish', eq(q.at(d).rd('thrcof', k), 0), d)
        else:
            sg = ite(eq(imod(sub(add(v('il2'), v('im2'), v('im3')), v('il3')), I(2)), 0), 1, -1)
            yield ('single symbol', eq(q.rd('thrcof', 0), rdiv(sg, sqrt_(add(lmin, v('il2'), v('il3'), 1)))))
    return post


_lm = maxI(absI(sub(v('il2'), v('il3'))), absI(add(v('im2'), v('im3'))))
_nd = add(v('il2'), v('il3'), sub(1, _lm))
_van = or_(gt(absI(v('im2')), v('il2')), gt(absI(v('im3')), v('il3')))
for _c, _p in (('vanishing', _van), ('single', and_(not_(_van), eq(add(v('il2'), v('il3')), _lm)))):
    # the remaining case (the two-sided recurrence with rescaling) is assumed, and evaluated at run time
    SPECS.append(Spec('drc3jj', name='drc3jj[%s]' % _c, lens={'l1min_out': 1, 'l1max_out': 1, 'thrcof': v('size')},
                      pre=lambda e, _p=_p: [ge(v('il2'), 0), ge(v('il3'), 0), le(_nd, v('size')), ge(v('size'), 1), _p], post=drc_post(_c)))

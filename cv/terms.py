"""Hash-consed terms over mathematical integers, reals and booleans.

Numbers are kept as polynomials over opaque atoms (a canonical form), so that
re-associating or re-ordering arithmetic in the code under verification does
not change the terms.  Sorts: 'I', 'R', 'B'.  An integer atom may occur inside
a real polynomial (the embedding Z -> R is implicit).
"""
from fractions import Fraction


class T:
    __slots__ = ('op', 'a', 'sort', 'h', 'fv', 'id', 'bh')
    _tab = {}
    _n = 0

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    # convenience operators for contracts
    def __add__(self, o): return add(self, num(o))
    def __radd__(self, o): return add(num(o), self)
    def __sub__(self, o): return sub(self, num(o))
    def __rsub__(self, o): return sub(num(o), self)
    def __mul__(self, o): return mul(self, num(o))
    def __rmul__(self, o): return mul(num(o), self)
    def __truediv__(self, o): return rdiv(self, num(o))
    def __rtruediv__(self, o): return rdiv(num(o), self)
    def __neg__(self): return neg(self)


def _mk(op, a, sort):
    key = (op, a, sort)
    t = T._tab.get(key)
    if t is None:
        t = T.__new__(T)
        t.op, t.a, t.sort = op, a, sort
        t.h = hash(key)
        T._n += 1
        t.id = T._n
        fv = frozenset()
        bh = 0
        for c in children(t):
            if c.fv:
                fv = fv | c.fv if fv else c.fv
            if c.bh > bh:
                bh = c.bh
        if op == 'v':
            fv = frozenset((t,))
        elif op == 'sum':
            fv = fv - frozenset((a[0],))
            bh = bh + 1
        t.fv = fv
        t.bh = bh
        T._tab[key] = t
    return t


def children(t):
    op = t.op
    if op in ('c', 'v'):
        return ()
    if op == 'p':
        return [x for (m, _) in t.a for (x, _) in m]
    if op == 'f':
        return t.a[1:]
    if op == 'sum':
        return t.a[1:]
    return t.a


# ---------------------------------------------------------------- constants
def I(n): return _mk('p', (((), Fraction(n)),) if n else (), 'I')
def R(x):
    x = Fraction(x)
    return _mk('p', (((), x),) if x else (), 'R' if x.denominator != 1 else 'I')


TRUE = _mk('c', (True,), 'B')
FALSE = _mk('c', (False,), 'B')


def B(b): return TRUE if b else FALSE


def num(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return I(int(x))
    if isinstance(x, int):
        return I(x)
    if isinstance(x, Fraction):
        return R(x)
    if isinstance(x, float):
        return R(Fraction(x))
    raise TypeError(x)


def var(name, sort='I'): return _mk('v', (name,), sort)


_ctr = [0]


def fresh(name, sort='I'):
    _ctr[0] += 1
    return var('%s!%d' % (name, _ctr[0]), sort)


def app(f, args, sort='R'):
    return _mk('f', (f,) + tuple(num(x) for x in args), sort)


# ---------------------------------------------------------------- polynomials
def _poly(t):
    """dict monomial->coef ; monomial = tuple of (atom, exp) sorted by id"""
    if t.op == 'p':
        return dict(t.a)
    return {((t, 1),): Fraction(1)}


def _mkpoly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1 and items[0][0][0][1] == 1:
        return items[0][0][0][0]
    items.sort(key=lambda mc: tuple((x.id, e) for x, e in mc[0]))
    sort = 'I'
    for m, c in items:
        if c.denominator != 1 or any(x.sort == 'R' for x, e in m):
            sort = 'R'
            break
    return _mk('p', tuple(items), sort)


def const_val(t):
    """python number if t is a numeric constant, else None"""
    if t.op == 'p':
        if not t.a:
            return Fraction(0)
        if len(t.a) == 1 and t.a[0][0] == ():
            return t.a[0][1]
    return None


def add(*ts):
    d = {}
    for t in ts:
        t = num(t)
        for m, c in (t.a if t.op == 'p' else ((((t, 1),), Fraction(1)),)):
            d[m] = d.get(m, 0) + c
    return _mkpoly(d)


def neg(t): return scale(t, -1)


def scale(t, k):
    k = Fraction(k)
    return _mkpoly({m: c * k for m, c in _poly(t).items()})


def sub(a, b): return add(num(a), scale(num(b), -1))


def _mulmono(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for x, e in m2:
        d[x] = d.get(x, 0) + e
    # idempotent 0/1 atoms (Iverson brackets), and sqrt(x)^2 -> x left alone
    out = []
    for x, e in d.items():
        if e == 0:
            continue
        if x.op == 'ite' and e > 1 and is_iv(x):
            e = 1
        out.append((x, e))
    out.sort(key=lambda xe: xe[0].id)
    return tuple(out)


ZERO = I(0)
ONE = I(1)


def is_iv(x):
    return x.op == 'ite' and x.a[1] is ONE and x.a[2] is ZERO


def mul(*ts):
    r = None
    for t in ts:
        t = num(t)
        if r is None:
            r = t
            continue
        p, q = _poly(r), _poly(t)
        if len(p) * len(q) > 4000:
            # refuse to expand enormous products
            r = _mkpoly({_mulmono(((_opq(r), 1),), ((_opq(t), 1),)): Fraction(1)})
            continue
        d = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = _mulmono(m1, m2)
                d[m] = d.get(m, 0) + c1 * c2
        r = _mkpoly(d)
    return r


def _opq(t):
    return _mk('opq', (t,), t.sort) if t.op == 'p' else t


def inv(t):
    """real reciprocal, with the usual total-function convention left open"""
    t = num(t)
    c = const_val(t)
    if c is not None:
        if c == 0:
            return _mk('inv', (t,), 'R')
        return R(1 / c)
    p = _poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        out = R(1 / c)
        for x, e in m:
            if x.op == 'inv':
                # 1/(1/y) = y only where y != 0; keep opaque
                f = _mk('inv', (x,), 'R')
            else:
                f = _mk('inv', (x,), 'R')
            for _ in range(e):
                out = mul(out, f)
        return out
    # normalise sign / leading coefficient
    c = t.a[0][1]
    if c != 1:
        return scale(_mk('inv', (scale(t, 1 / c),), 'R'), 1 / c)
    return _mk('inv', (t,), 'R')


def rdiv(a, b): return mul(num(a), inv(num(b)))


def idiv(a, b):
    a, b = num(a), num(b)
    """floor division of integers"""
    ca, cb = const_val(a), const_val(b)
    if cb is not None and cb != 0:
        if cb == 1:
            return a
        if ca is not None:
            return I(int(ca // cb))
        # pull out multiples
        d = {m: c for m, c in _poly(a).items()}
        out = {}
        rest = {}
        for m, c in d.items():
            q = c // cb
            if c % cb == 0:
                out[m] = q
            else:
                rest[m] = c
        if cb > 0 and out:
            r = _mkpoly(rest)
            cr = const_val(r)
            if cr is not None:
                return add(_mkpoly(out), I(int(cr // cb)))
            return add(_mkpoly(out), _mk('div', (r, b), 'I'))
    return _mk('div', (a, b), 'I')


def imod(a, b):
    a, b = num(a), num(b)
    ca, cb = const_val(a), const_val(b)
    if cb is not None and cb > 0:
        if ca is not None:
            return I(int(ca % cb))
        rest = {m: c % cb for m, c in _poly(a).items()}
        a = _mkpoly(rest)
        ca = const_val(a)
        if ca is not None:
            return I(int(ca % cb))
    return _mk('mod', (a, b), 'I')


def trunc(t):
    """C conversion double -> int"""
    if t.sort == 'I':
        return t
    c = const_val(t)
    if c is not None:
        return I(int(c))
    return _mk('trunc', (t,), 'I')


def to_real(t):
    return t


# ---------------------------------------------------------------- booleans
def not_(c):
    if c is TRUE: return FALSE
    if c is FALSE: return TRUE
    if c.op == 'not': return c.a[0]
    if c.op == 'le':      # not (t<=0)  <=>  t>0 <=> -t<0
        t = c.a[0]
        if t.sort == 'I':
            return le0(add(neg(t), ONE))
        return lt0(neg(t))
    if c.op == 'lt':
        return le0(neg(c.a[0]))
    return _mk('not', (c,), 'B')


def and_(*cs):
    out = []
    seen = set()
    st = list(reversed(cs))
    while st:
        c = st.pop()
        if c is TRUE: continue
        if c is FALSE: return FALSE
        if c.op == 'and':
            st.extend(reversed(c.a))
            continue
        if c in seen: continue
        if not_(c) in seen: return FALSE
        seen.add(c)
        out.append(c)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    out.sort(key=lambda t: t.id)
    return _mk('and', tuple(out), 'B')


def or_(*cs):
    out = []
    seen = set()
    st = list(reversed(cs))
    while st:
        c = st.pop()
        if c is FALSE: continue
        if c is TRUE: return TRUE
        if c.op == 'or':
            st.extend(reversed(c.a))
            continue
        if c in seen: continue
        if not_(c) in seen: return TRUE
        seen.add(c)
        out.append(c)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    out.sort(key=lambda t: t.id)
    return _mk('or', tuple(out), 'B')


def implies(a, b): return or_(not_(a), b)


def _norm_sign(t):
    """divide by positive content so that comparisons are canonical"""
    if t.op != 'p':
        return t
    from math import gcd
    n, d = 0, 1
    for m, c in t.a:
        n = gcd(n, abs(c.numerator))
        d = d * c.denominator // gcd(d, c.denominator)
    if n == 0:
        return t
    k = Fraction(d, n)
    if k == 1:
        return t
    if t.sort == 'I':
        # only exact division of every coefficient except the constant is sound for <=
        return t
    return scale(t, k)


def _ite_split(t):
    """a + b*ite(c, m, n) with numbers a, b, m, n -> (c, a+b*m, a+b*n)"""
    if t.op == 'ite':
        c, x, y = t.a
        if const_val(x) is not None and const_val(y) is not None:
            return c, x, y
        return None
    if t.op != 'p' or len(t.a) > 2:
        return None
    k0, it, co = ZERO, None, None
    for m, cc in t.a:
        if m == ():
            k0 = num(cc)
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ite' and it is None:
            it, co = m[0][0], cc
        else:
            return None
    if it is None:
        return None
    c, x, y = it.a
    if const_val(x) is None or const_val(y) is None:
        return None
    return c, add(k0, scale(x, co)), add(k0, scale(y, co))


def le0(t):
    c = const_val(t)
    if c is not None:
        return B(c <= 0)
    q = _ite_split(t)
    if q is not None:
        return or_(and_(q[0], le0(q[1])), and_(not_(q[0]), le0(q[2])))
    if t.sort == 'I' and t.op == 'p':
        from math import gcd, floor
        g = 0
        k0 = Fraction(0)
        for m, cc in t.a:
            if m == ():
                k0 = cc
            else:
                g = gcd(g, abs(cc.numerator))
        if g > 1:
            # sum + k0 <= 0, g | sum  <=> sum/g <= floor(-k0/g)
            d = {m: cc / g for m, cc in t.a if m != ()}
            b = (-k0) // g
            d[()] = Fraction(-b)
            t = _mkpoly(d)
    return _mk('le', (_norm_sign(t),), 'B')


def lt0(t):
    c = const_val(t)
    if c is not None:
        return B(c < 0)
    q = _ite_split(t)
    if q is not None:
        return or_(and_(q[0], lt0(q[1])), and_(not_(q[0]), lt0(q[2])))
    if t.sort == 'I':
        return le0(add(t, ONE))
    return _mk('lt', (_norm_sign(t),), 'B')


def le(a, b): return le0(sub(num(a), num(b)))
def lt(a, b): return lt0(sub(num(a), num(b)))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)


def eq(a, b):
    a, b = num(a), num(b)
    if a.sort == 'B' or b.sort == 'B':
        if a is b: return TRUE
        return or_(and_(a, b), and_(not_(a), not_(b)))
    d = sub(a, b)
    c = const_val(d)
    if c is not None:
        return B(c == 0)
    q = _ite_split(d)
    if q is not None:
        return or_(and_(q[0], eq(q[1], ZERO)), and_(not_(q[0]), eq(q[2], ZERO)))
    # canonical sign
    if d.op == 'p' and d.a[0][1] < 0:
        d = neg(d)
    if d.op == 'p' and d.sort == 'I':
        from math import gcd
        g = 0
        k0 = Fraction(0)
        for m, cc in d.a:
            if m == ():
                k0 = cc
            else:
                g = gcd(g, abs(cc.numerator))
        if g > 1:
            if k0 % g != 0:
                return FALSE
            d = scale(d, Fraction(1, g))
    else:
        d = _norm_sign(d)
    return _mk('eq', (d,), 'B')


def ne(a, b): return not_(eq(a, b))


def ite(c, a, b):
    if isinstance(a, (int, float, Fraction)) or isinstance(b, (int, float, Fraction)):
        a, b = num(a), num(b)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == 'not':
        return ite(c.a[0], b, a)
    # canonicalise polarity of order comparisons
    n = not_(c)
    if n.id < c.id and n.op in ('le', 'lt', 'eq'):
        c, a, b = n, b, a
    # nested same condition
    if a.op == 'ite' and a.a[0] is c: a = a.a[1]
    if b.op == 'ite' and b.a[0] is c: b = b.a[2]
    if a is b: return a
    sort = 'R' if 'R' in (a.sort, b.sort) else 'I'
    if a is ZERO and b is ONE:
        return sub(ONE, _mk('ite', (c, ONE, ZERO), 'I'))
    return _mk('ite', (c, a, b), sort)


def iv(c):
    """Iverson bracket"""
    return ite(c, ONE, ZERO)


def as_bool(t):
    t = num(t) if not isinstance(t, T) else t
    if t.sort == 'B':
        return t
    if t.op == 'ite':
        c, a, b = t.a
        return or_(and_(c, as_bool(a)), and_(not_(c), as_bool(b)))
    return ne(t, ZERO)


def as_num(t):
    return iv(t) if t.sort == 'B' else t


# ---------------------------------------------------------------- sums
def sum_(v, lo, hi, body):
    """Sum_{v=lo}^{hi-1} body ; v is a variable free in body"""
    lo, hi, body = num(lo), num(hi), num(body)
    if body is ZERO:
        return ZERO
    if v not in body.fv:
        cnt = sub(hi, lo)
        c = const_val(cnt)
        if c is not None:
            return mul(I(max(0, int(c))), body)
        return mul(ite(le(lo, hi), cnt, ZERO), body)
    cl, ch = const_val(lo), const_val(hi)
    if cl is not None and ch is not None and ch - cl <= 8:
        return add(ZERO, *[subst(body, {v: I(int(k))}) for k in range(int(cl), int(ch))])
    # factor out v-free atoms of monomials; group the rest
    groups = {}
    for m, c in _poly(body).items():
        out = tuple((x, e) for x, e in m if v not in x.fv)
        inn = tuple((x, e) for x, e in m if v in x.fv)
        groups.setdefault(out, {})
        groups[out][inn] = groups[out].get(inn, 0) + c
    res = []
    for out, inner in groups.items():
        b = _mkpoly(inner)
        f = _mkpoly({out: Fraction(1)})
        if v not in b.fv:
            res.append(mul(f, sum_(v, lo, hi, b)))
            continue
        k = Fraction(1)
        if b.op == 'p':
            k = b.a[0][1]
            if k != 1:
                b = scale(b, 1 / k)
        bv = var('#%d' % (b.bh + 1), 'I')
        if bv is not v:
            b2 = subst(b, {v: bv})
        else:
            b2 = b
        res.append(mul(f, R(k), _mk('sum', (bv, lo, hi, b2), b2.sort)))
    return add(*res)


# ---------------------------------------------------------------- substitution
def rebuild(t, ch):
    """rebuild t with new children (normalising)"""
    op = t.op
    if op in ('c', 'v'):
        return t
    if op == 'f':
        return _mk('f', (t.a[0],) + tuple(ch), t.sort)
    if op == 'p':
        it = iter(ch)
        acc = {}
        for m, c in t.a:
            d, ps = {}, []
            for x, e in m:
                y = next(it)
                if y.op == 'p':
                    ps += [y] * e
                else:
                    d[y] = d.get(y, 0) + e
            mono = [(y, 1 if e > 1 and y.op == 'ite' and is_iv(y) else e) for y, e in d.items() if e]
            mono.sort(key=lambda ye: ye[0].id)
            mono = tuple(mono)
            if not ps:
                acc[mono] = acc.get(mono, 0) + c
            else:
                r = mul(_mkpoly({mono: c}), *ps)
                for mm, cc in (r.a if r.op == 'p' else ((((r, 1),), Fraction(1)),)):
                    acc[mm] = acc.get(mm, 0) + cc
        return _mkpoly(acc)
    if op == 'ite': return ite(*ch)
    if op == 'not': return not_(ch[0])
    if op == 'and': return and_(*ch)
    if op == 'or': return or_(*ch)
    if op == 'le': return le0(ch[0])
    if op == 'lt': return lt0(ch[0])
    if op == 'eq': return eq(ch[0], ZERO)
    if op == 'inv': return inv(ch[0])
    if op == 'div': return idiv(*ch)
    if op == 'mod': return imod(*ch)
    if op == 'trunc': return trunc(ch[0])
    if op == 'opq': return _opq(ch[0]) if ch[0].op == 'p' else ch[0]
    raise Exception(op)


def subst(t, m, memo=None):
    """simultaneous substitution of variables by terms"""
    if not m:
        return t
    if memo is None:
        memo = {}
    keys = frozenset(m)
    plain = all(x.bh == 0 for x in m.values())
    vfv = frozenset().union(*[x.fv for x in m.values()]) if plain else None

    def go(t):
        if not (t.fv & keys):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == 'v':
            r = m[t]
        elif t.op == 'sum':
            bv, lo, hi, b = t.a
            if plain and bv not in keys and bv not in vfv:
                # no capture and no deeper binder can appear: keep the bound variable
                r = sum_(bv, go(lo), go(hi), go(b))
            else:
                nv = fresh('b')
                b1 = subst(b, {bv: nv})
                r = sum_(nv, go(lo), go(hi), go(b1))
        else:
            r = rebuild(t, [go(c) for c in children(t)])
        memo[t] = r
        return r
    return go(t)


def contains_app(t, names, memo=None):
    """does t contain an application of one of the named functions?"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'f' and t.a[0] in names:
        r = True
    else:
        r = any(contains_app(c, names, memo) for c in children(t))
    memo[t] = r
    return r


def map_apps(t, fn, memo=None):
    """bottom-up replacement: fn(app term with mapped args) -> term or None"""
    if memo is None:
        memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t.op in ('c', 'v'):
            r = t
        elif t.op == 'sum':
            bv, lo, hi, b = t.a
            b2 = go(b)
            l2, h2 = go(lo), go(hi)
            if b2 is b and l2 is lo and h2 is hi:
                r = t
            else:
                nv = fresh('b')
                r = sum_(nv, l2, h2, subst(b2, {bv: nv}))
        else:
            ch = children(t)
            n = [go(c) for c in ch]
            r = t if all(x is y for x, y in zip(ch, n)) else rebuild(t, n)
            if r.op == 'f':
                q = fn(r)
                if q is not None:
                    r = q
        memo[t] = r
        return r
    return go(t)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(children(x))
    return seen


# ---------------------------------------------------------------- printing
def show(t, d=0):
    op = t.op
    if d > 12:
        return '…'
    if op == 'c': return str(t.a[0])
    if op == 'v': return t.a[0]
    if op == 'f': return '%s(%s)' % (t.a[0], ','.join(show(x, d + 1) for x in t.a[1:]))
    if op == 'p':
        if not t.a: return '0'
        s = []
        for m, c in t.a:
            fs = [show(x, d + 1) + ('^%d' % e if e > 1 else '') for x, e in m]
            if c != 1 or not fs:
                fs.insert(0, str(c))
            s.append('*'.join(fs))
        return '(' + ' + '.join(s) + ')'
    if op == 'ite': return 'ite(%s, %s, %s)' % tuple(show(x, d + 1) for x in t.a)
    if op == 'sum':
        return 'SUM[%s=%s..%s](%s)' % (t.a[0].a[0], show(t.a[1], d + 1), show(t.a[2], d + 1), show(t.a[3], d + 1))
    if op in ('le', 'lt', 'eq'):
        return '%s %s 0' % (show(t.a[0], d + 1), {'le': '<=', 'lt': '<', 'eq': '=='}[op])
    return '%s(%s)' % (op, ', '.join(show(x, d + 1) for x in t.a))


# ---------------------------------------------------------------- evaluation
def evaluate(t, env, funs, memo=None):
    """numeric evaluation; env: var->value; funs: name->callable"""
    if memo is None:
        memo = {}

    def go(t, env, memo):
        r = memo.get(t)
        if r is not None:
            return r
        op = t.op
        if op == 'c': r = t.a[0]
        elif op == 'v': r = env[t.a[0]]
        elif op == 'p':
            r = 0
            for m, c in t.a:
                x = int(c) if c.denominator == 1 else c.numerator / c.denominator
                for y, e in m:
                    if x == 0:
                        break
                    x = x * go(y, env, memo) ** e
                r = r + x
        elif op == 'f': r = funs[t.a[0]](*[go(x, env, memo) for x in t.a[1:]])
        elif op == 'ite': r = go(t.a[1] if go(t.a[0], env, memo) else t.a[2], env, memo)
        elif op == 'and': r = all(go(x, env, memo) for x in t.a)
        elif op == 'or': r = any(go(x, env, memo) for x in t.a)
        elif op == 'not': r = not go(t.a[0], env, memo)
        elif op == 'le': r = go(t.a[0], env, memo) <= 0
        elif op == 'lt': r = go(t.a[0], env, memo) < 0
        elif op == 'eq': r = go(t.a[0], env, memo) == 0
        elif op == 'inv':
            x = go(t.a[0], env, memo)
            r = 1. / x if x != 0 else float('inf')
        elif op == 'div': r = go(t.a[0], env, memo) // go(t.a[1], env, memo)
        elif op == 'mod': r = go(t.a[0], env, memo) % go(t.a[1], env, memo)
        elif op == 'trunc': r = int(go(t.a[0], env, memo))
        elif op == 'opq': r = go(t.a[0], env, memo)
        elif op == 'sum':
            bv, lo, hi, b = t.a
            r = 0
            lo, hi = go(lo, env, memo), go(hi, env, memo)
            for k in range(lo, hi):
                e2 = dict(env)
                e2[bv.a[0]] = k
                m2 = {}
                r = r + go(b, e2, m2)
        else: raise Exception(op)
        memo[t] = r
        return r
    return go(t, env, memo)


def cis_pow(a, c, n):
    """real and imaginary part of (a + i c)^n, sign of c normalised"""
    neg_ = False
    q = _poly(c)
    if q and all(x < 0 for x in q.values()):
        c, neg_ = neg(c), True
    im = app('$pwim', (a, c, n), 'R')
    return app('$pwre', (a, c, n), 'R'), neg(im) if neg_ else im

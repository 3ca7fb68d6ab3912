"""Verification-condition generation for the C functions of NaMaster.

Forward symbolic execution of one function at a time over symbolic memory.
Loops are not unrolled: the engine infers an invariant for every loop
(induction variables, running sums, arrays written once per iteration, arrays
accumulated into) and emits the obligations that make the inferred invariant
inductive (disjoint footprints of distinct iterations, no read of a location
another iteration writes, closed forms of the loop-carried scalars).  Calls are
replaced by the callee's contract when it has one, and by its extracted body
otherwise.  Every array access yields an in-bounds obligation.
"""
import re
import sys
from fractions import Fraction
from .terms import *
from .terms import _poly, _mkpoly, _mk
from . import terms as TT
from .prover import Prover, Fact, ext, has_sum, has_ite, assume_cond
from . import prover as PR

sys.setrecursionlimit(100000)


PI = app('$pi', (), 'R')


class Unsupported(Exception):
    pass


class Inexact(Exception):
    pass


class VObj:
    """a family of memory regions, indexed by nidx integers"""
    def __init__(self, name, nidx, ety, length, kind='mem', pfld=None):
        self.name, self.nidx, self.ety, self.length, self.kind = name, nidx, ety, length, kind
        self.pfld = pfld

    def __repr__(self):
        return self.name


class Ptr:
    __slots__ = ('obj', 'idx', 'off', 'fld')

    def __init__(self, obj, idx=(), off=ZERO, fld=''):
        self.obj, self.idx, self.off, self.fld = obj, tuple(idx), off, fld

    def __repr__(self):
        return 'Ptr(%s%s+%s.%s)' % (self.obj, list(self.idx), self.off, self.fld)

    def same(self, o):
        return isinstance(o, Ptr) and o.obj is self.obj and o.idx == self.idx and o.off is self.off and o.fld == self.fld


class Null:
    def same(self, o): return isinstance(o, Null)
    def __repr__(self): return 'NULL'


NULL = Null()


class PIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b
    def __repr__(self): return 'PIte(%s,%s,%s)' % (self.c, self.a, self.b)
    def same(self, o): return isinstance(o, PIte) and o.c is self.c and self.a.same(o.a) and self.b.same(o.b)


class LRef:
    """address of a scalar local"""
    def __init__(self, id): self.id = id
    def same(self, o): return isinstance(o, LRef) and o.id == self.id
    def __repr__(self): return 'LRef(%s)' % self.id


class Cx:
    __slots__ = ('re', 'im')

    def __init__(self, re, im): self.re, self.im = re, im
    def same(self, o): return isinstance(o, Cx) and o.re is self.re and o.im is self.im
    def __repr__(self): return 'Cx(%s,%s)' % (self.re, self.im)


class Str:
    def __init__(self, s): self.s = s
    def same(self, o): return isinstance(o, Str) and o.s == self.s


class Opq:
    """opaque handle (fftw plans, gsl accelerators, ...)"""
    def __init__(self, name, args=()): self.name, self.args = name, tuple(args)
    def same(self, o): return isinstance(o, Opq) and o.name == self.name and o.args == self.args
    def __repr__(self): return 'Opq(%s%s)' % (self.name, list(self.args))


class FnRef:
    def __init__(self, n): self.n = n
    def same(self, o): return isinstance(o, FnRef) and o.n == self.n


class Undef:
    def same(self, o): return isinstance(o, Undef)


UNDEF = Undef()


def vsame(a, b):
    if isinstance(a, T):
        return a is b
    return a.same(b)


def vite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if isinstance(a, T) and isinstance(b, T):
        if a.sort == 'B' or b.sort == 'B':
            if a.sort != b.sort:
                return ite(c, as_num(a), as_num(b))
        return ite(c, a, b)
    if isinstance(a, Cx) or isinstance(b, Cx):
        if isinstance(a, Undef): return b
        if isinstance(b, Undef): return a
        a, b = tocx(a), tocx(b)
        return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if isinstance(a, Undef): return b      # reading an uninitialised value is undefined behaviour anyway
    if isinstance(b, Undef): return a
    if vsame(a, b): return a
    return PIte(c, a, b)


def tocx(v):
    if isinstance(v, Cx): return v
    return Cx(v, ZERO)


def vmap(v, f):
    if isinstance(v, T): return f(v)
    if isinstance(v, Cx): return Cx(f(v.re), f(v.im))
    if isinstance(v, Ptr): return Ptr(v.obj, [f(x) for x in v.idx], f(v.off), v.fld)
    if isinstance(v, PIte): return pite(f(v.c), vmap(v.a, f), vmap(v.b, f))
    if isinstance(v, Opq): return Opq(v.name, [vmap(x, f) if not isinstance(x, str) else x for x in v.args])
    return v


def pite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a.same(b): return a
    return PIte(c, a, b)


# ------------------------------------------------------------------ contents
class St:
    __slots__ = ('g', 'loc', 'val', 'prot')
    def __init__(self, g, loc, val, prot=False): self.g, self.loc, self.val, self.prot = g, tuple(loc), val, prot
    def __repr__(self): return 'St[%s](%s := %s)' % (self.g, list(self.loc), self.val)


class Acc:
    __slots__ = ('g', 'loc', 'e', 'prot')
    def __init__(self, g, loc, e, prot=False): self.g, self.loc, self.e, self.prot = g, tuple(loc), e, prot
    def __repr__(self): return 'Acc[%s](%s += %s)' % (self.g, list(self.loc), self.e)


class Loop:
    """for v in [lo,hi): ups, iterations with disjoint footprints"""
    __slots__ = ('v', 'lo', 'hi', 'ups', 'g')
    def __init__(self, v, lo, hi, ups, g=TRUE): self.v, self.lo, self.hi, self.ups, self.g = v, lo, hi, tuple(ups), g
    def __repr__(self): return 'Loop[%s](%s=%s..%s %s)' % (self.g, self.v, self.lo, self.hi, list(self.ups))


class LAcc:
    __slots__ = ('bs', 'g', 'loc', 'e', 'prot')
    def __init__(self, bs, g, loc, e, prot=False): self.bs, self.g, self.loc, self.e, self.prot = tuple(bs), g, tuple(loc), e, prot
    def __repr__(self): return 'LAcc[%s](%s: %s += %s)' % (self.g, self.bs, list(self.loc), self.e)


def u_subst(u, m):
    """substitute variables in an update"""
    return u_map(u, lambda t: subst(t, m))


def u_map(u, f):
    if isinstance(u, St): return St(f(u.g), [f(x) for x in u.loc], vmap(u.val, f), u.prot)
    if isinstance(u, Acc): return Acc(f(u.g), [f(x) for x in u.loc], f(u.e), u.prot)
    if isinstance(u, Loop):
        return Loop(u.v, f(u.lo), f(u.hi), [u_map(x, f) for x in u.ups], f(u.g))
    if isinstance(u, LAcc):
        return LAcc([(v, f(l), f(h)) for v, l, h in u.bs], f(u.g), [f(x) for x in u.loc], f(u.e), u.prot)
    raise Exception(u)


def u_guard(u, c):
    if isinstance(u, St): return St(and_(c, u.g), u.loc, u.val, u.prot)
    if isinstance(u, Acc): return Acc(and_(c, u.g), u.loc, u.e, u.prot)
    if isinstance(u, Loop): return Loop(u.v, u.lo, u.hi, u.ups, and_(c, u.g))
    if isinstance(u, LAcc): return LAcc(u.bs, and_(c, u.g), u.loc, u.e, u.prot)
    raise Exception(u)


def u_leaves(u, bs=(), g=TRUE):
    """leaf writes with their binders and guards: (binders, guard, loc, leaf)"""
    if isinstance(u, (St, Acc)):
        yield bs, and_(g, u.g), u.loc, u
    elif isinstance(u, LAcc):
        yield bs + u.bs, and_(g, u.g), u.loc, u
    else:
        for x in u.ups:
            yield from u_leaves(x, bs + ((u.v, u.lo, u.hi),), and_(g, u.g))


class Content:
    """value of one (object family, field): a base function and a list of updates"""
    __slots__ = ('base', 'ups', 'uid')
    _n = 0

    def __init__(self, base, ups=()):
        self.base, self.ups = base, tuple(ups)
        Content._n += 1
        self.uid = Content._n

    def add(self, u):
        return Content(self.base, self.ups + (u,))


class Base:
    """base(loc) -> value"""
    def __init__(self, name, fn, numeric=True): self.name, self.fn, self.numeric = name, fn, numeric


class State:
    __slots__ = ('env', 'mem', 'pc', 'facts')

    def __init__(self, env, mem, pc, facts):
        self.env, self.mem, self.pc, self.facts = env, mem, pc, facts

    def copy(self):
        return State(dict(self.env), dict(self.mem), self.pc, self.facts)

    def assume(self, c):
        if c is not TRUE:
            self.pc = ext(self.pc, c)


class Exit:
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val=None): self.kind, self.st, self.val = kind, st, val


class Obl:
    __slots__ = ('name', 'asm', 'goal', 'facts', 'kind', 'line', 'status', 'func')

    def __init__(self, name, asm, goal, facts, kind, line, func):
        self.name, self.asm, self.goal, self.facts, self.kind, self.line, self.func = name, asm, goal, facts, kind, line, func
        self.status = None


NUMT = {'int', 'double', 'float', 'flouble', 'long', 'unsigned int', 'char', 'long long', 'size_t', 'unsigned long',
        'unsigned char', 'short', 'int64', 'unsigned int', '_Bool'}
TYPEDEF = {'flouble': 'double', 'fcomplex': '_Complex double', 'size_t': 'unsigned long', 'int64': 'long',
           'fftw_complex': '_Complex double', '_Complex flouble': '_Complex double', '_Complex float': '_Complex double',
           'gsl_complex_packed_ptr': 'double *'}


def norm_ty(t):
    t = t.replace('const ', '').replace('restrict', '').replace('struct ', '').replace('__restrict', '').strip()
    s = 0
    while t.endswith('*'):
        t = t[:-1].strip()
        s += 1
    t = TYPEDEF.get(t, t)
    while t.endswith('*'):
        t = t[:-1].strip()
        s += 1
    return t + (' ' + '*' * s if s else '')


def elem_ty(t):
    t = norm_ty(t)
    assert t.endswith('*'), t
    return t[:-1].strip()


def is_int_ty(t):
    return norm_ty(t) in ('int', 'long', 'unsigned int', 'char', 'long long', 'unsigned long', 'unsigned char', 'short',
                          'unsigned', '_Bool', 'unsigned long long')


def is_real_ty(t):
    return norm_ty(t) in ('double', 'float')


def is_cx_ty(t):
    t = norm_ty(t)
    return t.startswith('_Complex') and not t.endswith('*')


class Engine:
    def __init__(self, funcs, structs, globs, contracts, fname, prover=None, lens=None, opts=None):
        self.funcs, self.structs, self.globs = funcs, structs, globs
        self.contracts = contracts
        self.fname = fname
        self.P = prover or Prover()
        self.obls = []
        self.quiet = 0
        self.lens = lens or {}
        self.objs = {}
        self.loopvars = []       # (var, lo, hi)
        self.parallel = 0
        self.prot = 0
        self.opts = opts or {}
        self.phs = {}            # placeholder function name -> Content (to be substituted)
        self.wcache = {}
        self.calls = set()       # functions inlined
        self.ext_used = set()    # contracts of external functions relied on
        self.opaque = {}
        self.facts = []          # global facts (preconditions)
        self.depth = 0
        self.int_vals = []
        self.inl = []
        self.nonnull = set()
        self.touched_objs = set()
        self.user_inv = {}
        self.oblkeys = set()
        self.path = []
        self.gobj = {}
        self.pathids = {}
        self.retries = 0
        self.pending = []
        self.loopcount = 0
        self.nloops = set()
        self.in_par = False
        self.ws = 0              # inside a work-sharing construct
        self.par_depth = 0
        self.cline = 0
        self.par_objs = set()

    # ------------------------------------------------------------ obligations
    def oblige(self, st, goal, name, kind, line=0):
        if self.quiet:
            return
        key = (name, st.pc, goal)
        if key in self.oblkeys:
            return
        self.oblkeys.add(key)
        self.obls.append(Obl(name, self.asm(st), goal, tuple(st.facts), kind, line, self.fname))

    def asm(self, st):
        return st.pc

    def entails(self, st, c):
        self.P.facts = self.facts + list(st.facts)
        return self.P.entails(st.pc, c)

    # ------------------------------------------------------------ objects
    def new_obj(self, name, nidx, ety, length, base='uninit', kind='mem'):
        # allocation sites are identified by the calling path; the array itself by the loop indices
        pk = (name, tuple(self.path))
        if pk not in self.pathids:
            self.pathids[pk] = len(self.pathids)
        k = '%s#%d' % (name, self.pathids[pk])
        o = VObj(k, nidx, ety, length, kind)
        o.init = base
        self.objs[k] = o
        if self.in_par and not name.startswith('glob:'):
            self.par_objs.add(k)        # allocated by the thread itself
        return o

    def param_obj(self, name, nidx, ety, pfld=None):
        """object family reachable from the parameters; created lazily by name"""
        o = self.objs.get(name)
        if o is None:
            ln = self.lens.get(name)
            if ln is None:
                fn = lambda idx, name=name: app('len:' + name, idx, 'I')
            elif callable(ln):
                fn = lambda idx, ln=ln: num(ln(*idx))
            else:
                fn = lambda idx, ln=ln: num(ln)
            o = VObj(name, nidx, ety, fn, 'param')
            o.init = 'param'
            self.objs[name] = o
        return o

    def content(self, st, obj, fld, fty):
        key = (obj.name, fld)
        c = st.mem.get(key)
        if c is None:
            c = Content(self.base_for(obj, fld, fty))
            st.mem[key] = c
        return c

    def base_for(self, obj, fld, fty):
        nm = obj.name + ('.' + fld if fld else '')
        init = obj.init
        ty = norm_ty(fty)
        if init == 'param':
            if ty.endswith('*'):
                ety = elem_ty(ty)
                dim = obj.kind_arr if hasattr(obj, 'kind_arr') else None
                scal = self.is_scalar_obj(obj)

                def fn(loc, nm=nm, ety=ety, scal=scal):
                    # loc = (idx..., off)
                    idx = loc[:-1] if (scal and loc[-1] is ZERO) else loc
                    if nm in self.opts.get('null', ()):
                        return NULL
                    al = self.opts.get('alias', {}).get(nm)
                    if al is not None:
                        return al(idx)
                    o = self.param_obj(nm if scal else nm + '[]', len(idx), ety)
                    mn = self.opts.get('maybe_null', {}).get(nm)
                    if mn is not None:
                        return PIte(mn, NULL, Ptr(o, idx))
                    return Ptr(o, idx)
                return Base(nm, fn, False)
            sort = 'I' if is_int_ty(ty) else 'R'
            vf = self.opts.get('valfn', {}).get(nm)
            if vf is not None:
                return Base(nm, vf)
            fixed = self.opts.get('fixed', {}).get(nm)
            if fixed is not None:
                return Base(nm, lambda loc: num(fixed))
            if self.is_scalar_obj(obj):
                def fn(loc, nm=nm, sort=sort):
                    if loc[-1] is ZERO and len(loc) == 1:
                        return app(nm, (), sort)
                    return app(nm, loc[:-1] if loc[-1] is ZERO else loc, sort)
                return Base(nm, fn)
            return Base(nm, lambda loc, nm=nm, sort=sort: app(nm, loc, sort))
        if init == 'zero':
            if ty.endswith('*'):
                return Base(nm + '#0', lambda loc: NULL, False)
            return Base(nm + '#0', lambda loc: ZERO)
        sort = 'I' if is_int_ty(ty) else 'R'
        if ty.endswith('*'):
            return Base('uninit:' + nm, lambda loc: UNDEF, False)
        return Base('uninit:' + nm, lambda loc, nm=nm, sort=sort: app('uninit:' + nm, loc, sort))

    def is_scalar_obj(self, obj):
        """struct-like objects of length 1: the offset 0 is not shown as an index"""
        return obj.ety in self.structs and not obj.name in self.opts.get('arrays', ())

    # ------------------------------------------------------------ content evaluation
    def solve(self, st, bs, g, loc, x, order_vars, fmatch=True):
        """solve loc(vars) == x for the binders; returns (substitution, residual conditions) or None.
        order_vars: list of vars to solve for"""
        eqs = [(a, b) for a, b in zip(loc, x)]
        sub_ = {}
        conds = []
        todo = list(eqs)
        vs = list(order_vars)
        guard = 0
        while todo:
            guard += 1
            if guard > 40:
                return None
            progress = False
            nt = []
            for a, b in todo:
                a2 = subst(a, sub_)
                if a2 is b:
                    progress = True
                    continue
                free = [v for v in vs if v in a2.fv and v not in sub_]
                if not free:
                    c = eq(a2, b)
                    if c is FALSE:
                        return False
                    conds.append(c)
                    progress = True
                    continue
                if a2.op == 'v':
                    sub_ = self.bind(sub_, a2, b)
                    progress = True
                    continue
                if a2.op == 'f':
                    if fmatch and b.op == 'f' and b.a[0] == a2.a[0] and len(a2.a) == len(b.a):
                        nt += list(zip(a2.a[1:], b.a[1:]))
                        progress = True
                        continue
                    dom = [x for w, lo, hi in bs for x in (le(subst(lo, sub_), sub_.get(w, w)), lt(sub_.get(w, w), subst(hi, sub_)))]
                    if self.ent(st, dom, ne(a2, b)):
                        return False
                    return None
                if a2.op == 'p':
                    r = self.lin(st, a2, b, free, bs, sub_)
                    if r is False:
                        return False
                    if r is not None:
                        s2, extra_eqs, cs = r
                        for v, t in s2.items():
                            sub_ = self.bind(sub_, v, t)
                        nt += extra_eqs
                        conds += cs
                        progress = True
                        continue
                nt.append((a, b))
            todo = nt
            if todo and not progress:
                return None
        return sub_, conds

    def bind(self, sub_, v, t):
        r = {k: subst(x, {v: t}) for k, x in sub_.items()}
        r[v] = t
        return r

    def lin(self, st, a, b, free, bs, sub_):
        """solve a(free)==b for one variable of `free`"""
        d = _poly(a)
        if len(free) == 1:
            v = free[0]
            co = d.get(((v, 1),))
            rest = _mkpoly({m: c for m, c in d.items() if m != ((v, 1),)})
            if co is not None and v not in rest.fv:
                r = sub(b, rest)
                if abs(co) == 1:
                    if co == 1:
                        for t in subterms(rest):
                            # b - A*(b div A) is b mod A
                            if t.op == 'div' and t.a[0] is b and rest is mul(t.a[1], t):
                                r = imod(b, t.a[1])
                    return {v: scale(r, 1 / co)}, [], []
                # integer coefficient: every coefficient divisible?
                k = int(abs(co))
                pr = _poly(r)
                if all(c.denominator == 1 for c in pr.values()):
                    if all(int(c) % k == 0 for m, c in pr.items() if m != ()):
                        c0 = int(pr.get((), 0))
                        if c0 % k != 0:
                            return False
                        return {v: scale(r, 1 / co)}, [], []
                    q = idiv(r if co > 0 else neg(r), I(k))
                    return {v: q}, [], [eq(imod(r, I(k)), ZERO)]
                return None
            # symbolic coefficient: a = A*v + rest ; b must be A*y + rest'
            As = [m for m, c in d.items() if any(x is v for x, e in m)]
            if len(As) == 1 and v not in rest_without(d, As[0]).fv:
                m = As[0]
                if dict(m)[v] == 1:
                    A = _mkpoly({tuple((x, e) for x, e in m if x is not v): d[m]})
                    rem = rest_without(d, m)
                    return self.radix(st, A, v, rem, b, bs, sub_)
            if len(As) >= 1:
                r = self.polycoef(st, d, v, b, bs, sub_)
                if r is not None:
                    return r
                return None
        # several unknowns: mixed radix. choose v with coefficient A, remainder bounded by A
        bv = {w for w, _, _ in bs} | set(free)
        known = _mkpoly({m: c for m, c in d.items() if not any(x.fv & bv or x in bv for x, e in m)})
        a0, b0 = a, b
        if known is not ZERO:
            b = sub(b, known)
            d = {m: c for m, c in d.items() if any(x.fv & bv or x in bv for x, e in m)}
        if len(d) == 1:
            (m, c), = d.items()
            if abs(c) == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'f' and a0 is not m[0][0]:
                return {}, [(m[0][0], scale(b, 1 / c))], []
        # common integer factor
        pb, pk = _poly(b0), _poly(known)
        if a.sort == 'I' and d and all(c.denominator == 1 for q in (d, pb, pk) for c in q.values()):
            import math
            g = math.gcd(*[int(c) for c in d.values()])
            if g > 1:
                I_ = I(g)
                lo_ = lambda p: _mkpoly({m: (c % g if m == () else c) for m, c in p.items() if int(c) % g != 0})
                RB, RK = lo_(pb), lo_(pk)
                R = sub(RB, RK)
                dv = lambda q: _mkpoly({m: c / g for m, c in _poly(q).items()})
                nxt = (dv(sub(a0, RK)), dv(sub(b0, RB)))
                if const_val(R) is not None:
                    if const_val(R) != 0:
                        return False
                    return {}, [nxt], []
                dom = [x for w, lo, hi in bs for x in (le(subst(lo, sub_), sub_.get(w, w)), lt(sub_.get(w, w), subst(hi, sub_)))]
                if self.ent(st, dom, and_(lt(neg(I_), R), lt(R, I_))):
                    return {}, [nxt], [eq(R, ZERO)]
        cands = []
        for v in free:
            ms = [m for m, c in d.items() if any(x is v for x, e in m)]
            co = ZERO
            ok = True
            rest = dict(d)
            for m in ms:
                if dict(m)[v] != 1:
                    ok = False
                co = add(co, _mkpoly({tuple((x, e) for x, e in m if x is not v): d[m]}))
                rest.pop(m)
            rest = _mkpoly(rest)
            if ok and not any(w in co.fv for w in free) and v not in rest.fv:
                cands.append((v, co, rest))
        # largest coefficient first
        for v, co, rest in sorted(cands, key=lambda z: -cmp_key(z[1])):
            if const_val(co) == 1:
                continue
            r = self.radix(st, co, v, rest, b, bs, sub_)
            if r is not None:
                return r
        # data-dependent digits: a coefficient times an uninterpreted function of the unknowns
        cands = {}
        for m, c in d.items():
            ts = [x for x, e in m if x.fv & bv or x in bv]
            if len(ts) == 1 and ts[0].op == 'f' and dict(m)[ts[0]] == 1:
                t = ts[0]
                cands[t] = add(cands.get(t, ZERO), _mkpoly({tuple((x, e) for x, e in m if x is not t): c}))
        for t, co in sorted(cands.items(), key=lambda z: -cmp_key(z[1])):
            if const_val(co) == 1:
                continue
            rest = sub(a0, mul(co, t))
            if any(x is t for x in subterms(rest)):
                continue
            r = self.radix(st, co, t, rest, b0, bs, sub_)
            if r is None and known is not ZERO:
                r = self.radix(st, co, t, sub(rest, known), b, bs, sub_)
            if r is not None and not (r[0][t].op == 'f' and r[0][t].a[0] in ('div', 'mod')):
                return {}, [(t, r[0][t])] + r[1], r[2]
        return None

    def digits(self, st, bs, loc, x):
        """equations equivalent to loc == x, with positional indices decoded"""
        todo = list(zip(loc, x))
        out, n = [], 0
        vs = [b[0] for b in bs]
        while todo and n < 30:
            n += 1
            a, b = todo.pop()
            free = [v for v in vs if v in a.fv]
            r = self.lin(st, a, b, free, bs, {}) if a.op == 'p' and len(free) > 1 else None
            if r is False:
                return None
            if r is None:
                out.append(eq(a, b))
                continue
            out += [eq(v, t) for v, t in r[0].items()] + list(r[2])
            todo += r[1]
        return out + [eq(a, b) for a, b in todo]

    def polycoef(self, st, d, v, b, bs, sub_):
        co = ZERO
        rest = dict(d)
        for m in [m for m, c in d.items() if any(x is v for x, e in m)]:
            if dict(m)[v] != 1:
                return None
            co = add(co, _mkpoly({tuple((x, e) for x, e in m if x is not v): d[m]}))
            rest.pop(m)
        return self.radix(st, co, v, _mkpoly(rest), b, bs, sub_)

    def radix(self, st, A, v, rem, b, bs, sub_):
        """A*v + rem == b, with 0<=rem<A: if b = A*y + z with 0<=z<A then v=y, rem=z"""
        dom = []
        for w, lo, hi in bs:
            w2 = sub_.get(w, w)
            dom += [le(subst(lo, sub_), w2), lt(w2, subst(hi, sub_))]
        y, z = divide(b, A)
        if y is None:
            # generic: v = b div A, rem = b mod A
            if not rem.fv & {w for w, _, _ in bs} and const_val(A) is None:
                q = idiv(sub(b, rem), A)
                return {v: q}, [], [eq(mul(A, q), sub(b, rem))]
            c1 = and_(le(ZERO, rem), lt(rem, A))
            if self.ent(st, dom, c1):
                return {v: idiv(b, A)}, [(rem, imod(b, A))], []
            return None
        if z is rem:
            if self.ent(st, dom, gt(A, ZERO)) or self.ent(st, dom, lt(A, ZERO)):
                return {v: y}, [], []
            return None
        if (self.ent(st, dom, and_(le(ZERO, rem), lt(rem, A))) or self.rem_bounded(st, dom, rem, A, bs, sub_)) and \
                (self.ent(st, dom, and_(le(ZERO, z), lt(z, A))) or bool(self.zbs) and self.rem_bounded(st, dom, z, A, self.zbs, {})):
            return {v: y}, [(rem, z)], []
        if y is ZERO and rem.fv & {w for w, _, _ in bs} and self.ent(st, dom, and_(le(ZERO, rem), lt(rem, A))):
            return {v: idiv(b, A)}, [(rem, imod(b, A))], []
        return None

    zbs = ()

    def rem_bounded(self, st, dom, rem, A, bs, sub_):
        """0 <= rem < A by interval arithmetic over the binders"""
        lo_t = hi_t = rem
        for w, lo, hi in bs:
            if w in sub_ or w not in rem.fv:
                continue
            lo, hi = subst(lo, sub_), subst(hi, sub_)
            d = _poly(rem)
            co = ZERO
            for m, c in d.items():
                if any(x is w for x, e in m):
                    if dict(m)[w] != 1:
                        return False
                    co = add(co, _mkpoly({tuple((x, e) for x, e in m if x is not w): c}))
                elif any(w in x.fv for x, e in m):
                    return False
            if not self.ent(st, dom, ge(co, ZERO)):
                return False
            lo_t, hi_t = subst(lo_t, {w: lo}), subst(hi_t, {w: sub(hi, ONE)})
        return self.ent(st, dom, le(ZERO, lo_t)) and self.ent(st, dom, lt(hi_t, A))

    def ent(self, st, dom, c):
        self.P.facts = self.facts + list(st.facts)
        pc = st.pc
        for d in dom:
            pc = ext(pc, d)
        return self.P.entails(pc, c)

    def eval_content(self, st, c, x):
        """value of content c at location x (tuple of terms) in state st"""
        return self.ev(st, c, c.ups, len(c.ups) - 1, tuple(x), lambda pc: c.base.fn(tuple(x)), st.pc)

    def ev(self, st, c, ups, i, x, rest0, pc):
        if i < 0:
            return rest0(pc)
        u = ups[i]
        rest = lambda pc=pc: self.ev(st, c, ups, i - 1, x, rest0, pc)
        if isinstance(u, St):
            cond = and_(u.g, *[eq(a, b) for a, b in zip(u.loc, x)])
            cond = self.dec(st, pc, cond)
            if cond is TRUE: return u.val
            if cond is FALSE: return rest()
            return vite(cond, u.val, rest())
        if isinstance(u, Acc):
            cond = and_(u.g, *[eq(a, b) for a, b in zip(u.loc, x)])
            cond = self.dec(st, pc, cond)
            if cond is FALSE: return rest()
            r = rest()
            return add(num_(r), ite(cond, u.e, ZERO))
        if isinstance(u, LAcc):
            r = rest()
            return add(num_(r), self.lacc_val(st, u, x, pc))
        if isinstance(u, Loop):
            cands = []
            opaque = False
            for bs, g, loc, leaf in u_leaves(Loop(u.v, u.lo, u.hi, u.ups)):
                vs = [b[0] for b in bs]
                s = self.solve(State({}, {}, pc, st.facts), bs, g, loc, x, vs)
                if s is False:
                    continue
                if s is None or u.v not in s[0]:
                    opaque = True
                    break
                iv_ = s[0][u.v]
                if iv_.fv & frozenset(b[0] for b in bs):
                    opaque = True
                    break
                if iv_ not in cands:
                    cands.append(iv_)
            if opaque:
                if self.untouched(st, u, x, pc):
                    return rest()
                return self.opaque_read(st, c, ups, i, x, rest)
            exact = all(self.exact(st, l, u.v, x, cands, pc) for l in u_leaves(Loop(u.v, u.lo, u.hi, u.ups)) if self.fdest(l, x))
            if not exact:
                rest1 = rest

                def rest(pc=None):
                    raise Inexact()
            r = rest

            def apply(k, pc):
                if k == len(cands):
                    return rest(pc)
                i_ = cands[k]
                # two candidates that coincide are one iteration
                cond = and_(u.g, le(u.lo, i_), lt(i_, u.hi), *[ne(i_, q) for q in cands[:k]])
                cond = self.dec(st, pc, cond)
                if cond is FALSE:
                    return apply(k + 1, pc)
                body = [u_subst(w, {u.v: i_}) for w in u.ups]
                pc2 = ext(pc, cond)
                inner = lambda pc: apply(k + 1, pc)
                v1 = self.ev(State({}, {}, pc2, st.facts), c, body, len(body) - 1, x, inner, pc2)
                if cond is TRUE:
                    return v1
                return vite(cond, v1, apply(k + 1, pc))
            try:
                return apply(0, pc)
            except Inexact:
                if self.untouched(st, u, x, pc):
                    return rest1()
                return self.opaque_read(st, c, ups, i, x, rest1)
        raise Exception(u)

    def fdest(self, leaf, x):
        """was the location solved by matching an uninterpreted function (data-dependent index)?"""
        bs = frozenset(b[0] for b in leaf[0])
        return any(t.op == 'f' and t.fv & bs and not t.a[0].startswith('$') for l in leaf[2] for t in subterms(l))

    def exact(self, st, leaf, v, x, cands, pc):
        """the only iterations writing x are the candidates"""
        bs, g, loc, _ = leaf
        m = {b[0]: fresh('t') for b in bs}
        a = pc
        for w, lo, hi in bs:
            a = ext(a, and_(le(subst(lo, m), m[w]), lt(m[w], subst(hi, m))))
        a = ext(a, subst(g, m))
        self.P.facts = self.facts + list(st.facts)
        goal = or_(*[eq(m[v], c) for c in cands]) if cands else FALSE_Q
        if self.P.entails(ext(a, and_(*[eq(subst(l, m), y) for l, y in zip(loc, x)])), goal):
            return True
        ds = self.digits(State({}, {}, pc, st.facts), [(m[w], subst(lo, m), subst(hi, m)) for w, lo, hi in bs], [subst(l, m) for l in loc], x)
        if ds is None:
            return True
        self.P.facts = self.facts + list(st.facts)
        return self.P.entails(ext(a, and_(*ds)), goal)

    def untouched(self, st, u, x, pc):
        """can the solver show that no iteration writes location x?"""
        for bs, g, loc, leaf in u_leaves(u):
            m = {b[0]: fresh('t') for b in bs}
            a = pc
            for v, lo, hi in bs:
                a = ext(a, and_(le(subst(lo, m), m[v]), lt(m[v], subst(hi, m))))
            a = ext(a, subst(g, m))
            self.P.facts = self.facts + list(st.facts)
            if self.P.entails(ext(a, and_(*[eq(subst(l, m), y) for l, y in zip(loc, x)])), FALSE_Q):
                continue
            ds = self.digits(State({}, {}, pc, st.facts), [(m[v], subst(lo, m), subst(hi, m)) for v, lo, hi in bs], [subst(l, m) for l in loc], x)
            if ds is None:
                continue
            self.P.facts = self.facts + list(st.facts)
            if not self.P.entails(ext(a, and_(*ds)), FALSE_Q):
                return False
        return True

    def opaque_read(self, st, c, ups, i, x, rest):
        """location whose writer cannot be determined: an uninterpreted function naming this version"""
        u = ups[i]
        key = ('ct', id(c.base), tuple(id(w) for w in ups[:i + 1]))
        nm = None
        for k, v in self.opaque.items():
            if v[0] == key:
                nm = k
        sort = 'R'
        for bs, g, loc, leaf in u_leaves(u):
            v = leaf.val if isinstance(leaf, St) else leaf.e
            if isinstance(v, T):
                sort = v.sort if v.sort != 'B' else 'I'
            else:
                raise Unsupported('opaque read of a pointer')
        if nm is None:
            nm = 'ct!%d' % (len(self.opaque) + 1)
            self.opaque[nm] = (key, c, ups[:i + 1])
            ls = list(u_leaves(u))
            if isinstance(u, Loop) and len(ls) == 1 and isinstance(ls[0][3], St):
                # what each (unique) writing iteration stored
                bs, g, loc, leaf = ls[0]
                bv = [b[0] for b in bs]
                m = {b: fresh('j') for b in bv}
                dom = and_(*[and_(le(lo, w), lt(w, hi)) for w, lo, hi in bs])
                body = subst(implies(and_(dom, g), eq(app(nm, loc, sort), leaf.val)), m)
                self.P.stored.append((nm, [m[b] for b in bv], subst(and_(dom, g), m), [subst(l, m) for l in loc], subst(leaf.val, m)))
                for t in set(y for l in list(loc) + [leaf.val, g] for y in subterms(l)):
                    if t.op == 'f' and all(b in t.fv for b in bv) and not any(w.a[0].startswith('#') for w in t.fv if w.op == 'v' and isinstance(w.a[0], str)):
                        self.facts.append(Fact(tuple(m[b] for b in bv), subst(t, m), body, 'stored value'))
        return app(nm, x, sort)

    def lacc_val(self, st, u, x, pc):
        bs = list(u.bs)
        vs = [b[0] for b in bs]
        s = self.solve_part(st, bs, u.g, u.loc, x, vs, pc)
        if s is False:
            return ZERO
        sub_, conds = s
        e = subst(u.e, sub_)
        g = and_(subst(u.g, sub_), *conds)
        for v, lo, hi in bs:
            if v in sub_:
                g = and_(g, le(subst(lo, sub_), sub_[v]), lt(sub_[v], subst(hi, sub_)))
        g = subst(g, sub_)
        left = [(v, subst(lo, sub_), subst(hi, sub_)) for v, lo, hi in bs if v not in sub_]
        # guards independent of the remaining binders go outside
        gs = g.a if g.op == 'and' else (g,)
        out = [q for q in gs if not any(v in q.fv for v, _, _ in left)]
        inn = [q for q in gs if any(v in q.fv for v, _, _ in left)]
        t = ite(and_(*inn), e, ZERO)
        for v, lo, hi in reversed(left):
            t = sum_(v, lo, hi, t)
        co = self.dec(st, pc, and_(*out))
        return ite(co, t, ZERO)

    def solve_part(self, st, bs, g, loc, x, vs, pc):
        """like solve, but equations that cannot be solved become conditions"""
        sub_, conds = {}, []
        for a, b in zip(loc, x):
            s = self.solve(State({}, {}, pc, st.facts), bs, g, [subst(a, sub_)], [b], [v for v in vs if v not in sub_], False)
            if s is False:
                return False
            if s is None:
                conds.append((a, b))
                continue
            for v, t in s[0].items():
                sub_ = self.bind(sub_, v, t)
            conds += s[1]
        out = []
        for q in conds:
            if isinstance(q, tuple):
                q = eq(subst(q[0], sub_), q[1])
            out.append(subst(q, sub_))
        return sub_, out

    def dec(self, st, pc, c):
        """decide a condition under the path condition, conjunct by conjunct"""
        if c is TRUE or c is FALSE:
            return c
        self.P.facts = self.facts + list(st.facts)
        out = []
        for q in (c.a if c.op == 'and' else (c,)):
            if self.P.entails(pc, q):
                continue
            out.append(q)
        r = and_(*out)
        if r is TRUE or r is FALSE:
            return r
        if self.P.entails(pc, not_(r)):
            return FALSE
        return r

    # ------------------------------------------------------------ load/store
    def check_access(self, st, p, line, what, ety=None):
        if isinstance(p, Null):
            self.oblige(st, FALSE, 'null dereference (%s)' % what, 'mem', line)
            return
        o = p.obj
        ln = o.length(p.idx)
        if ln is not None:
            self.oblige(st, and_(le(ZERO, p.off), lt(p.off, ln)), '%s[%s] in bounds' % (o.name, what), 'mem', line)
        fk = (o.name, '$freed')
        if fk in st.mem:
            fr = self.eval_content(st, st.mem[fk], p.idx + (ZERO,))
            self.oblige(st, eq(fr, ZERO), '%s not freed' % o.name, 'mem', line)

    def simp_ptr(self, st, p):
        while isinstance(p, PIte):
            if self.entails(st, p.c): p = p.a
            elif self.entails(st, not_(p.c)): p = p.b
            else: break
        return p

    def load(self, st, p, ty, line):
        p = self.simp_ptr(st, p)
        if isinstance(p, PIte):
            s1, s2 = st.copy(), st.copy()
            s1.assume(p.c)
            s2.assume(not_(p.c))
            a = self.load(s1, p.a, ty, line)
            b = self.load(s2, p.b, ty, line)
            for k, v in list(s1.mem.items()) + list(s2.mem.items()):
                st.mem.setdefault(k, v)
            return vite(p.c, a, b)
        if isinstance(p, LRef):
            return self.get_local(st, p.id, ty)
        if isinstance(p, Null):
            self.check_access(st, p, line, 'read')
            raise Unsupported('dereference of NULL')
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        self.check_access(st, p, line, 'read')
        if is_cx_ty(ty):
            return Cx(self.load_num(st, p, 're'), self.load_num(st, p, 'im'))
        return self.load_fld(st, p, p.fld, ty)

    def load_num(self, st, p, part):
        fld = (p.fld + '.' if p.fld else '') + part
        c = self.content(st, p.obj, fld, 'double')
        return self.eval_content(st, c, p.idx + (p.off,))

    def load_fld(self, st, p, fld, ty):
        c = self.content(st, p.obj, fld, ty)
        v = self.eval_content(st, c, p.idx + (p.off,))
        return v

    def store(self, st, p, ty, val, line, acc=None):
        p = self.simp_ptr(st, p)
        if isinstance(p, PIte):
            s1 = st.copy()
            s1.assume(p.c)
            self.store(s1, p.a, ty, val, line, acc)
            s2 = st.copy()
            s2.assume(not_(p.c))
            self.store(s2, p.b, ty, val, line, acc)
            m = self.merge(p.c, s1, s2, st)
            st.env, st.mem = m.env, m.mem
            return
        if isinstance(p, LRef):
            if self.in_par and not self.ws and not self.prot and not self.quiet and self.depth == self.par_depth and p.id not in self.par_private(None):
                self.obls.append(Obl('no shared scalar is written by every thread', (), FALSE_Q, (), 'race', line, self.fname))
            st.env[p.id] = val if acc is None else self.arith('+', st.env[p.id], acc)
            return
        if not isinstance(p, Ptr):
            self.check_access(st, p if isinstance(p, (Null,)) else NULL, line, 'write')
            raise Unsupported('store through %r' % (p,))
        self.check_access(st, p, line, 'write')
        if is_cx_ty(ty):
            if acc is not None:
                a = tocx(acc)
                self.upd(st, p, 're', None, a.re)
                self.upd(st, p, 'im', None, a.im)
            else:
                v = tocx(val)
                self.upd(st, p, 're', v.re, None)
                self.upd(st, p, 'im', v.im, None)
            return
        self.upd(st, p, None, val, acc, ty)

    def upd(self, st, p, part, val, acc, ty='double'):
        fld = p.fld
        if part:
            fld = (fld + '.' if fld else '') + part
        c = self.content(st, p.obj, fld, ty)
        loc = p.idx + (p.off,)
        self.touched_objs.add(p.obj.name)
        pr = self.prot > 0
        self.replicated(p, self.cline)
        if acc is not None:
            u = Acc(TRUE, loc, acc, pr)
        else:
            u = St(TRUE, loc, val, pr)
            # straight-line overwrite of the same location
            ups = c.ups
            if ups and isinstance(ups[-1], (St, Acc)) and ups[-1].loc == u.loc and ups[-1].g is TRUE:
                c = Content(c.base, ups[:-1])
        st.mem[(p.obj.name, fld)] = c.add(u)

    def replicated(self, p, line):
        """code of a parallel region outside work sharing is executed by every thread: it may write private memory only"""
        if self.in_par and not self.ws and not self.prot and not self.quiet and p.obj.name not in self.par_objs:
            self.obls.append(Obl('shared %s is not written by every thread' % p.obj.name, (), FALSE_Q, (), 'race', line, self.fname))

    def bulk(self, st, p, n, valfn, part=None, ty='double', line=0):
        """p[0..n) := valfn(k)"""
        v = fresh('m')
        fld = p.fld
        if part:
            fld = (fld + '.' if fld else '') + part
        c = self.content(st, p.obj, fld, ty)
        self.touched_objs.add(p.obj.name)
        self.replicated(p, line)
        u = Loop(v, ZERO, n, [St(TRUE, p.idx + (add(p.off, v),), valfn(v), self.prot > 0)])
        st.mem[(p.obj.name, fld)] = c.add(u)

    def check_range(self, st, p, n, line, what):
        """p[0..n) is in bounds"""
        p = self.simp_ptr(st, p)
        if isinstance(p, Null):
            self.oblige(st, le(n, ZERO), 'null pointer passed (%s)' % what, 'mem', line)
            return
        if not isinstance(p, Ptr):
            return
        ln = p.obj.length(p.idx)
        if ln is not None:
            self.oblige(st, or_(le(n, ZERO), and_(le(ZERO, p.off), le(add(p.off, n), ln))),
                        '%s[%s] range in bounds' % (p.obj.name, what), 'mem', line)

    # ------------------------------------------------------------ locals
    def get_local(self, st, id, ty):
        v = st.env.get(id)
        if v is None:
            g = self.global_val(st, id)
            if g is not None:
                return g
            raise Unsupported('unknown variable %s' % id)
        if isinstance(v, Undef):
            # uninitialised: arbitrary value
            if norm_ty(ty).endswith('*') or not (is_int_ty(ty) or is_real_ty(ty) or is_cx_ty(ty)):
                return UNDEF
            if is_cx_ty(ty):
                return Cx(fresh('undef', 'R'), fresh('undef', 'R'))
            return fresh('undef', 'I' if is_int_ty(ty) else 'R')
        return v

    def global_val(self, st, id):
        for n, (gid, ty, ini) in self.globs.items():
            if gid == id:
                return self.global_obj(st, n, ty, ini)
        return None

    def global_obj(self, st, n, ty, ini):
        if ini is not None and ini.k == 'Init':
            o = self.gobj.get(n)
            if o is None:
                vals = [self.const_expr(x) for x in ini.ch]
                o = self.new_obj('glob:' + n, 0, ty.split('[')[0].strip(), lambda idx, k=len(vals): I(k))
                o.init = 'glob'
                self.gobj[n] = o
                self.gvals = getattr(self, 'gvals', {})
                self.gvals[o.name] = vals
                o.vals = vals
            key = (o.name, '')
            if key not in st.mem:
                vals = o.vals
                sort = 'I' if is_int_ty(o.ety) else 'R'

                def fn(loc, vals=vals):
                    k = const_val(loc[-1])
                    if k is not None and 0 <= k < len(vals):
                        return vals[int(k)]
                    t = vals[-1]
                    for j in range(len(vals) - 2, -1, -1):
                        t = ite(eq(loc[-1], I(j)), vals[j], t)
                    return t
                st.mem[key] = Content(Base('glob:' + n, fn))
            return Ptr(o)
        if ini is not None:
            return self.const_expr(ini)
        if is_int_ty(ty):
            return app('glob:' + n, (), 'I')
        return Opq('glob:' + n)

    def const_expr(self, e):
        v = self.ex(State({}, {}, (), ()), e)
        return v

    # ------------------------------------------------------------ expressions
    def truthy(self, v):
        if isinstance(v, T):
            return as_bool(v)
        if isinstance(v, Null): return FALSE
        if isinstance(v, (Ptr, LRef, Opq, Str, FnRef)): return TRUE
        if isinstance(v, PIte):
            return or_(and_(v.c, self.truthy(v.a)), and_(not_(v.c), self.truthy(v.b)))
        if isinstance(v, Cx):
            return or_(ne(v.re, 0), ne(v.im, 0))
        raise Unsupported('truth of %r' % (v,))

    def num(self, v):
        if isinstance(v, T):
            return as_num(v)
        if isinstance(v, Undef):
            return fresh('undef', 'R')
        raise Unsupported('number expected, got %r' % (v,))

    def arith(self, op, a, b, isint=False):
        if isinstance(a, Cx) or isinstance(b, Cx):
            a, b = tocx(a), tocx(b)
            if op == '+': return Cx(add(a.re, b.re), add(a.im, b.im))
            if op == '-': return Cx(sub(a.re, b.re), sub(a.im, b.im))
            if op == '*':
                return Cx(sub(mul(a.re, b.re), mul(a.im, b.im)), add(mul(a.re, b.im), mul(a.im, b.re)))
            if op == '/':
                if b.im is ZERO:
                    return Cx(rdiv(a.re, b.re), rdiv(a.im, b.re))
                n = add(mul(b.re, b.re), mul(b.im, b.im))
                return Cx(rdiv(add(mul(a.re, b.re), mul(a.im, b.im)), n),
                          rdiv(sub(mul(a.im, b.re), mul(a.re, b.im)), n))
            raise Unsupported('complex ' + op)
        a, b = self.num(a), self.num(b)
        if op == '+': return add(a, b)
        if op == '-': return sub(a, b)
        if op == '*': return mul(a, b)
        if op == '/':
            if isint:
                return None
            return rdiv(a, b)
        raise Unsupported('op ' + op)

    def lval(self, st, e):
        """address of an lvalue expression"""
        k = e.k
        if k == 'Ref':
            kind, id, name = e.a
            v = st.env.get(id)
            if v is None:
                g = self.global_val(st, id)
                if g is None and kind != 'FunctionDecl':
                    raise Unsupported('unknown variable ' + name)
                return ('glob', g)
            return LRef(id)
        if k == 'Mem':
            name, arrow = e.a
            b = e.ch[0]
            if arrow:
                p = self.ex(st, b)
            else:
                p = self.lval(st, b)
            return self.fld_ptr(st, p, name)
        if k == 'Idx':
            p = self.ex(st, e.ch[0])
            i = self.num(self.ex(st, e.ch[1]))
            if isinstance(p, Ptr) and p.fld:
                return self.elem_ptr(st, p, i, e)
            return self.padd(st, p, i)
        if k == 'Un' and e.a[0] == '*':
            return self.ex(st, e.ch[0])
        if k == 'Cast':
            return self.lval(st, e.ch[0])
        if k == 'Un' and e.a[0] in ('__real', '__imag', '__extension__'):
            raise Unsupported('complex part lvalue')
        raise Unsupported('lvalue ' + k)

    def elem_ptr(self, st, p, i, e):
        """element of an array embedded in a struct: one field per element"""
        b = e.ch[0]
        while b.k == 'Cast':
            b = b.ch[0]
        m = re.search(r'\[(\d+)\]$', b.ty)
        if b.k != 'Mem' or not m:
            return self.padd(st, p, i)
        n = int(m.group(1))
        self.oblige(st, and_(le(ZERO, i), lt(i, I(n))), '%s.%s[] in bounds' % (p.obj.name, p.fld), 'mem', e.line)
        at = lambda j: Ptr(p.obj, p.idx, p.off, '%s#%d' % (p.fld, j))
        c = const_val(i)
        if c is not None:
            if not 0 <= c < n:
                raise Unsupported('constant index outside of an array')
            return at(int(c))
        if n > 8:
            raise Unsupported('symbolic index into an embedded array of %d elements' % n)
        r = at(n - 1)
        for j in reversed(range(n - 1)):
            r = PIte(eq(i, I(j)), at(j), r)
        return r

    def fld_ptr(self, st, p, name):
        if isinstance(p, PIte):
            p = self.simp_ptr(st, p)
        if isinstance(p, PIte):
            return PIte(p.c, self.fld_ptr(st, p.a, name), self.fld_ptr(st, p.b, name))
        if isinstance(p, Ptr):
            return Ptr(p.obj, p.idx, p.off, (p.fld + '.' if p.fld else '') + name)
        if isinstance(p, Null):
            self.oblige(st, FALSE, 'null dereference (->%s)' % name, 'mem', 0)
            raise Unsupported('member of NULL')
        if isinstance(p, Opq):
            return ('opqfld', p, name)
        raise Unsupported('member %s of %r' % (name, p))

    def padd(self, st, p, i):
        if isinstance(p, Ptr):
            if p.fld:
                if self.entails(st, eq(i, ZERO)):
                    return p
                raise Unsupported('arithmetic on a field address')
            return Ptr(p.obj, p.idx, add(p.off, i), p.fld)
        if isinstance(p, PIte):
            p = self.simp_ptr(st, p)
            if isinstance(p, PIte):
                return PIte(p.c, self.padd(st, p.a, i), self.padd(st, p.b, i))
            return self.padd(st, p, i)
        if isinstance(p, LRef) and const_val(i) == 0:
            return p
        if isinstance(p, Null):
            return NULL
        if isinstance(p, Str):
            return p
        raise Unsupported('pointer arithmetic on %r' % (p,))

    def ex(self, st, e):
        k = e.k
        if k == 'Int': return I(e.a)
        if k == 'Flt':
            if abs(float(e.a) - 3.141592653589793) < 1e-12:
                return PI
            return R(frac_of(e.a))
        if k == 'Str': return Str(e.a)
        if k == 'Imag':
            v = self.ex(st, e.ch[0])
            return Cx(ZERO, v)
        if k == 'Sizeof':
            return self.sizeof(e.a)
        if k == 'Cast':
            return self.cast(st, e)
        if k == 'Ref':
            kind, id, name = e.a
            if kind == 'FunctionDecl':
                return FnRef(name)
            if kind == 'EnumConstantDecl':
                return app('enum:' + name, (), 'I')
            return self.get_local(st, id, e.ty)
        if k in ('Mem', 'Idx') or (k == 'Un' and e.a[0] == '*'):
            p = self.lval(st, e)
            if isinstance(p, tuple):
                return self.opq_field(st, p, e)
            if self.is_array_ty(e.ty):
                return p
            return self.load(st, p, e.ty, e.line)
        if k == 'Un':
            return self.unary(st, e)
        if k == 'Bin':
            return self.binary(st, e)
        if k == 'Asg':
            v = self.ex(st, e.ch[1])
            p = self.lval(st, e.ch[0])
            v = self.detect_acc(st, p, e, v)
            return v
        if k == 'CAsg':
            return self.casg(st, e)
        if k == 'Cond':
            c = self.truthy(self.ex(st, e.ch[0]))
            c = self.quick(st, c)
            if c is TRUE: return self.ex(st, e.ch[1])
            if c is FALSE: return self.ex(st, e.ch[2])
            s1 = st.copy(); s1.assume(c)
            a = self.ex(s1, e.ch[1])
            s2 = st.copy(); s2.assume(not_(c))
            b = self.ex(s2, e.ch[2])
            m = self.merge(c, s1, s2, st)
            st.env, st.mem = m.env, m.mem
            return vite(c, a, b)
        if k == 'Call':
            return self.call(st, e)
        if k == 'Init':
            return [self.ex(st, x) for x in e.ch]
        raise Unsupported('expression ' + k)

    def is_array_ty(self, ty):
        return ty.endswith(']')

    def opq_field(self, st, p, e):
        if p[0] == 'glob':
            return p[1]
        return app('fld:%s.%s' % (p[1].name, p[2]), [x for x in p[1].args if isinstance(x, T)],
                   'I' if is_int_ty(e.ty) else 'R')

    def quick(self, st, c):
        if c is TRUE or c is FALSE:
            return c
        if self.entails(st, c): return TRUE
        if self.entails(st, not_(c)): return FALSE
        return c

    def sizeof(self, ty):
        # sizes are symbolic units: malloc contracts divide them out again
        t = norm_ty(ty)
        if t.endswith('*'):
            t = 'double'        # LP64: pointers and doubles have the same size
        return app('sizeof:' + t, (), 'I')

    def cast(self, st, e):
        ck = e.a
        inner = e.ch[0]
        if ck == 'LValueToRValue' or ck is None:
            return self.ex(st, inner)
        if ck in ('ArrayToPointerDecay',):
            if inner.k == 'Str':
                return Str(inner.a)
            if inner.k == 'Ref':
                v = st.env.get(inner.a[1])
                if v is None:
                    return self.global_val(st, inner.a[1])
                return v
            return self.lval(st, inner)
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'NoOp'):
            return self.ex(st, inner)
        if ck == 'NullToPointer':
            return NULL
        if ck == 'BitCast':
            v = self.ex(st, inner)
            return self.bitcast(st, v, e.ty)
        v = self.ex(st, inner)
        if ck in ('IntegralToFloating', 'FloatingCast'):
            return as_num(v) if isinstance(v, T) else v
        if ck == 'IntegralCast':
            return as_num(v) if isinstance(v, T) else v
        if ck == 'FloatingToIntegral':
            return trunc(self.num(v))
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return as_num(self.truthy(v))
        if ck in ('FloatingRealToComplex', 'IntegralRealToComplex', 'IntegralToFloatingComplex'):
            return tocx(v)
        if ck in ('FloatingComplexCast', 'IntegralComplexToFloatingComplex', 'IntegralComplexCast'):
            return v
        if ck == 'FloatingComplexToReal':
            return tocx(v).re
        if ck == 'ToVoid':
            return v
        if ck in ('PointerToIntegral', 'IntegralToPointer'):
            return v
        raise Unsupported('cast ' + str(ck))

    def bitcast(self, st, v, ty):
        if isinstance(v, Mal):
            return self.alloc(st, v, ty)
        return v

    def unary(self, st, e):
        op, post = e.a
        if op == '&':
            p = self.lval(st, e.ch[0])
            if isinstance(p, tuple):
                if p[0] == 'glob': return p[1]
                raise Unsupported('address of opaque field')
            return p
        if op in ('++', '--'):
            p = self.lval(st, e.ch[0])
            old = self.ex(st, e.ch[0])
            d = ONE if op == '++' else I(-1)
            if isinstance(old, T):
                new = add(self.num(old), d)
                if isinstance(p, LRef):
                    st.env[p.id] = new
                else:
                    self.store(st, p, e.ty, None, e.line, acc=d)
            else:
                new = self.padd(st, old, d)
                self.store(st, p, e.ty, new, e.line)
            return old if post else new
        v = self.ex(st, e.ch[0])
        if op == '-':
            if isinstance(v, Cx): return Cx(neg(v.re), neg(v.im))
            return neg(self.num(v))
        if op == '+': return v
        if op == '!': return as_num(not_(self.truthy(v)))
        if op == '__extension__': return v
        if op == '~':
            return sub(neg(self.num(v)), ONE)
        if op == '__real': return tocx(v).re
        if op == '__imag': return tocx(v).im
        raise Unsupported('unary ' + op)

    def pcmp(self, a, b):
        if isinstance(a, PIte):
            return or_(and_(a.c, self.pcmp(a.a, b)), and_(not_(a.c), self.pcmp(a.b, b)))
        if isinstance(b, PIte):
            return self.pcmp(b, a)
        if isinstance(a, Null) or isinstance(b, Null):
            return B(isinstance(a, Null) and isinstance(b, Null))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is not b.obj: return FALSE
            return and_(*[eq(x, y) for x, y in zip(a.idx, b.idx)], eq(a.off, b.off))
        raise Unsupported('pointer comparison')

    def binary(self, st, e):
        op = e.a
        if op in ('&&', '||'):
            a = self.truthy(self.ex(st, e.ch[0]))
            if op == '&&':
                if a is FALSE: return ZERO
                s = st.copy(); s.assume(a)
                b = self.truthy(self.ex(s, e.ch[1]))
                self.sync(st, s, a)
                return as_num(and_(a, b))
            if a is TRUE: return ONE
            s = st.copy(); s.assume(not_(a))
            b = self.truthy(self.ex(s, e.ch[1]))
            self.sync(st, s, not_(a))
            return as_num(or_(a, b))
        if op == ',':
            self.ex(st, e.ch[0])
            return self.ex(st, e.ch[1])
        a = self.ex(st, e.ch[0])
        b = self.ex(st, e.ch[1])
        if op in ('==', '!='):
            if not isinstance(a, (T, Cx)) or not isinstance(b, (T, Cx)):
                c = self.pcmp(a, b)
            elif isinstance(a, Cx) or isinstance(b, Cx):
                a, b = tocx(a), tocx(b)
                c = and_(eq(a.re, b.re), eq(a.im, b.im))
            else:
                c = eq(self.num(a), self.num(b))
            return as_num(c if op == '==' else not_(c))
        if op in ('<', '<=', '>', '>='):
            a, b = self.num(a), self.num(b)
            c = {'<': lt, '<=': le, '>': gt, '>=': ge}[op](a, b)
            return as_num(c)
        if isinstance(a, (Ptr, PIte)) and op in '+-' and isinstance(b, T):
            return self.padd(st, a, b if op == '+' else neg(b))
        if isinstance(b, (Ptr, PIte)) and op == '+':
            return self.padd(st, b, a)
        return self.binop(st, op, a, b, e.ty, e.line)

    def binop(self, st, op, a, b, ty, line):
        if op in ('+', '-', '*'):
            return self.arith(op, a, b)
        if op == '/':
            if is_int_ty(ty):
                return self.cdiv(st, self.num(a), self.num(b), line)
            return self.arith('/', a, b)
        if op == '%':
            a, b = self.num(a), self.num(b)
            q = self.cdiv(st, a, b, line)
            if q.op == 'div' and q.a == (a, b):
                return imod(a, b)
            if self.entails(st, and_(ge(a, 0), gt(b, 0))):
                return imod(a, b)
            return sub(a, mul(b, q))
        if op == '&':
            a, b = self.num(a), self.num(b)
            cb = const_val(b)
            if cb is not None and cb >= 0 and (int(cb) + 1) & int(cb) == 0:
                return imod(a, I(int(cb) + 1))
            return app('bitand', (a, b), 'I')
        if op == '|':
            return app('bitor', (self.num(a), self.num(b)), 'I')
        if op == '^':
            return app('bitxor', (self.num(a), self.num(b)), 'I')
        if op == '<<':
            cb = const_val(self.num(b))
            if cb is not None:
                return mul(self.num(a), I(2 ** int(cb)))
            return mul(self.num(a), app('pow2', (b,), 'I'))
        if op == '>>':
            cb = const_val(self.num(b))
            if cb is not None:
                return idiv(self.num(a), I(2 ** int(cb)))
            return idiv(self.num(a), app('pow2', (b,), 'I'))
        raise Unsupported('operator ' + op)

    def cdiv(self, st, a, b, line):
        """C integer division (truncation)"""
        self.oblige(st, ne(b, 0), 'division by zero', 'mem', line)
        ca, cb = const_val(a), const_val(b)
        if ca is not None and cb is not None and cb != 0:
            q = abs(ca) // abs(cb)
            return I(int(q if (ca >= 0) == (cb > 0) else -q))
        if self.entails(st, gt(b, 0)):
            if self.entails(st, ge(a, 0)):
                return idiv(a, b)
            return ite(ge(a, 0), idiv(a, b), neg(idiv(neg(a), b)))
        r = app('cdiv', (a, b), 'I')
        return r

    def sync(self, st, s, cond):
        """side effects of the right operand of a short-circuit operator"""
        for k, v in s.mem.items():
            if st.mem.get(k) is not v:
                if k in st.mem and st.mem[k].ups != v.ups:
                    raise Unsupported('side effect in condition')
                st.mem[k] = v
        for k, v in s.env.items():
            if st.env.get(k) is not v and k in st.env and not vsame(st.env[k], v):
                st.env[k] = vite(cond, v, st.env[k])
        st.facts = st.facts + tuple(guard_fact(f, cond) for f in s.facts if f not in st.facts)

    def detect_acc(self, st, p, e, v):
        ty = e.ty
        if isinstance(p, tuple):
            raise Unsupported('assignment to opaque location')
        if isinstance(p, LRef):
            if isinstance(v, T):
                v = as_num(v)
            if isinstance(v, Mal):
                v = self.alloc(st, v, ty)
            if is_cx_ty(ty): v = tocx(v)
            st.env[p.id] = v
            return v
        if isinstance(v, T):
            v = as_num(v)
        if isinstance(v, Mal):
            v = self.alloc(st, v, ty)
        self.store(st, p, ty, v, e.line)
        return v

    def casg(self, st, e):
        op, cty = e.a
        p = self.lval(st, e.ch[0])
        r = self.ex(st, e.ch[1])
        if isinstance(p, LRef):
            old = self.ex(st, e.ch[0])
            if isinstance(old, (Ptr, PIte)):
                new = self.padd(st, old, r if op == '+' else neg(r))
            else:
                new = self.binop(st, op, old, r, cty, e.line)
                if is_int_ty(e.ty) and isinstance(new, T) and new.sort == 'R':
                    new = trunc(new)
            st.env[p.id] = new
            return new
        if op in ('+', '-') and isinstance(r, (T, Cx)):
            if not isinstance(r, Cx):
                r = self.num(r)
                d = r if op == '+' else neg(r)
            else:
                d = r if op == '+' else Cx(neg(r.re), neg(r.im))
            if not (is_int_ty(e.ty) and isinstance(d, T) and d.sort == 'R'):
                self.store(st, p, e.ty, None, e.line, acc=d)
                return UNDEF
        old = self.load(st, p, e.ty, e.line)
        new = self.binop(st, op, old, r, cty, e.line)
        if is_int_ty(e.ty) and isinstance(new, T) and new.sort == 'R':
            new = trunc(new)
        self.store(st, p, e.ty, new, e.line)
        return new

    # ------------------------------------------------------------ calls
    def call(self, st, e):
        f = self.ex(st, e.ch[0])
        if not isinstance(f, FnRef):
            raise Unsupported('indirect call')
        name = f.n
        if name in self.contracts:
            self.ext_used.add(name)
            return self.contracts[name](self, st, e.ch[1:], e)
        if name in self.funcs:
            args = [self.ex(st, a) for a in e.ch[1:]]
            self.path.append(('call', e.uid))
            args = [self.bitcast(st, a, p[2]) if isinstance(a, Mal) else a for a, p in zip(args, self.funcs[name].params)]
            try:
                return self.inline(st, name, args)
            finally:
                self.path.pop()
        raise Unsupported('call to %s without contract' % name)

    def inline(self, st, name, args):
        if self.depth > 12:
            raise Unsupported('recursion')
        self.calls.add(name)
        fn = self.funcs[name]
        for (pid, pn, pt), a in zip(fn.params, args):
            if isinstance(a, T):
                a = as_num(a)
                if is_int_ty(pt) and a.sort == 'R':
                    a = trunc(a)
            st.env[pid] = a
        self.depth += 1
        saved = self.addr_taken_guard(st, fn)
        try:
            base = st.copy()
            s, exits = self.stmt(base, fn.body)
        finally:
            self.depth -= 1
        rets = [x for x in exits if x.kind == 'return']
        errs = [x for x in exits if x.kind == 'error']
        self.pending += errs
        outs = [(x.st, x.val) for x in rets]
        if s is not None:
            outs.append((s, UNDEF))
        if not outs:
            st.pc = ext(st.pc, FALSE)
            raise Abort()
        cur, val = outs[-1]
        for s2, v2 in reversed(outs[:-1]):
            c = self.rel_pc(st.pc, s2.pc)
            m = self.merge(c, s2, cur, st)
            val = vite(c, v2, val) if v2 is not UNDEF or val is not UNDEF else UNDEF
            cur = m
        st.env, st.mem, st.pc, st.facts = cur.env, cur.mem, cur.pc, cur.facts
        return val

    def addr_taken_guard(self, st, fn):
        return None

    def rel_pc(self, base, pc):
        return and_(*[c for c in pc if c not in base])

    # ------------------------------------------------------------ merging
    def merge(self, c, s1, s2, base):
        """state equal to s1 if c, s2 otherwise"""
        env = {}
        for k in set(s1.env) | set(s2.env):
            a, b = s1.env.get(k), s2.env.get(k)
            if a is None: env[k] = b
            elif b is None: env[k] = a
            elif a is b or vsame(a, b): env[k] = a
            elif k in base.env or True:
                try:
                    env[k] = vite(c, a, b)
                except Unsupported:
                    env[k] = UNDEF
        mem = {}
        for k in set(s1.mem) | set(s2.mem):
            a, b = s1.mem.get(k), s2.mem.get(k)
            if a is None: a = base.mem.get(k) or Content(b.base)
            if b is None: b = base.mem.get(k) or Content(a.base)
            if a is b or (a.base is b.base and a.ups == b.ups):
                mem[k] = a
                continue
            if a.base is not b.base and a.base.name != b.base.name:
                ca, cb = a, b
                bn = 'mrg'

                def fn(loc, ca=ca, cb=cb, c=c, st=base):
                    return vite(c, self.eval_content(st, ca, loc), self.eval_content(st, cb, loc))
                mem[k] = Content(Base('mrg%d' % Content._n, fn))
                continue
            n = 0
            while n < len(a.ups) and n < len(b.ups) and a.ups[n] is b.ups[n]:
                n += 1
            ups = list(a.ups[:n])
            ups += [u_guard(u, c) for u in a.ups[n:]]
            ups += [u_guard(u, not_(c)) for u in b.ups[n:]]
            mem[k] = Content(a.base, ups)
        common = tuple(x for x in s1.pc if x in s2.pc)
        r1 = and_(*[x for x in s1.pc if x not in common])
        r2 = and_(*[x for x in s2.pc if x not in common])
        pc = common
        d = or_(r1, r2)
        pc = ext(pc, d)
        facts = tuple(f for f in s1.facts if f in s2.facts)
        f1 = [guard_fact(f, c) for f in s1.facts if f not in s2.facts]
        f2 = [guard_fact(f, not_(c)) for f in s2.facts if f not in s1.facts]
        return State(env, mem, pc, facts + tuple(f1) + tuple(f2))

    # ------------------------------------------------------------ statements
    def stmt(self, st, s):
        """returns (fallthrough state or None, exits)"""
        if s is None:
            return st, []
        k = s.k
        if k == 'Block':
            exits = []
            for x in s.ch:
                st, ex_ = self.stmt(st, x)
                exits += ex_
                if st is None:
                    return None, exits
            return st, exits
        pend, self.pending = getattr(self, 'pending', []), []
        try:
            r, exits = self.stmt1(st, s)
        except Abort:
            r, exits = None, []
        exits = self.pending + exits
        self.pending = pend
        return r, exits

    def stmt1(self, st, s):
        k = s.k
        self.cline = s.line
        if k == 'Decls':
            for d in s.ch:
                self.decl(st, d)
            return st, []
        if k == 'If':
            return self.if_(st, s)
        if k in ('For', 'While', 'Do'):
            return self.loop(st, s, False)
        if k == 'Ret':
            v = UNDEF
            if s.ch and s.ch[0] is not None:
                v = self.ex(st, s.ch[0])
                if isinstance(v, T):
                    v = as_num(v)
            return None, [Exit('return', st, v)]
        if k == 'Break': return None, [Exit('break', st)]
        if k == 'Continue': return None, [Exit('continue', st)]
        if k == 'Omp':
            return self.omp(st, s)
        if k == 'Switch':
            return self.switch(st, s)
        if k.startswith('?'):
            raise Unsupported('statement ' + k)
        self.ex(st, s)
        return st, []

    def omp(self, st, s):
        kind, red = s.a
        body = s.ch[0]
        if kind == 'Parallel':
            old = self.in_par
            self.in_par = True
            self.par_depth = self.depth
            try:
                return self.stmt(st, body)
            finally:
                self.in_par = old
        if kind in ('For', 'ParallelFor'):
            while body.k == 'Block' and len(body.ch) == 1:
                body = body.ch[0]
            old = self.in_par
            self.ws += 1
            self.in_par = True
            try:
                return self.loop(st, body, True)
            finally:
                self.ws -= 1
                self.in_par = old
        if kind in ('Atomic', 'Critical'):
            self.prot += 1
            try:
                return self.stmt(st, body)
            finally:
                self.prot -= 1
        if kind in ('Master', 'Single'):
            self.ws += 1
            try:
                return self.stmt(st, body)
            finally:
                self.ws -= 1
        if kind == 'Barrier':
            return self.stmt(st, body)
        raise Unsupported('omp ' + kind)

    def decl(self, st, d):
        id, name, stor = d.a
        ty = d.ty
        if stor == 'static' and 'const' not in ty:
            raise Unsupported('static local variable %s' % name)
        if self.is_array_ty(ty):
            dims = [int(x[:-1]) for x in ty.replace(' ', '').split('[')[1:]] if all(
                x[:-1].isdigit() for x in ty.replace(' ', '').split('[')[1:]) else None
            if not dims or len(dims) > 1:
                raise Unsupported('array declaration ' + ty)
            ety = ty.split('[')[0].strip()
            idx = tuple(v for v, _, _ in self.loopvars)
            o = self.new_obj('local:' + name, 0, norm_ty(ety), lambda i, n=dims[0]: I(n))
            p = Ptr(o)
            st.env[id] = p
            if d.ch:
                if d.ch[0].k == 'Init':
                    for j, x in enumerate(d.ch[0].ch):
                        self.store(st, self.padd(st, p, I(j)), ety, self.ex(st, x), d.line)
                    if norm_ty(ety) != 'char':
                        for j in range(len(d.ch[0].ch), dims[0]):
                            self.store(st, self.padd(st, p, I(j)), ety, ZERO, d.line)
            return
        if d.ch:
            v = self.ex(st, d.ch[0])
            if isinstance(v, Mal):
                v = self.alloc(st, v, ty)
            if isinstance(v, T):
                v = as_num(v)
            if is_cx_ty(ty):
                v = tocx(v)
            st.env[id] = v
        else:
            if norm_ty(ty) in self.structs:
                o = self.new_obj('local:' + name, 0, norm_ty(ty), lambda i: ONE)
                st.env[id] = Ptr(o)
            else:
                st.env[id] = UNDEF

    def if_(self, st, s):
        c = self.truthy(self.ex(st, s.ch[0]))
        c = self.quick(st, c)
        if c is TRUE:
            return self.stmt(st, s.ch[1])
        if c is FALSE:
            return self.stmt(st, s.ch[2])
        base = st.copy()
        s1 = st.copy(); s1.assume(c)
        s2 = st.copy(); s2.assume(not_(c))
        r1, e1 = self.stmt(s1, s.ch[1])
        r2, e2 = self.stmt(s2, s.ch[2])
        if r1 is None and r2 is None:
            return None, e1 + e2
        if r1 is None:
            return r2, e1 + e2
        if r2 is None:
            return r1, e1 + e2
        return self.merge(c, r1, r2, base), e1 + e2

    def switch(self, st, s):
        v = self.num(self.ex(st, s.ch[0]))
        # only the pattern: cases each ended by break/return
        body = s.ch[1]
        groups = []
        cur = None
        for x in body.ch:
            y = x
            labels = []
            while y is not None and y.k in ('Case', 'Default'):
                labels.append(y.ch[0] if y.k == 'Case' else None)
                y = y.ch[1] if y.k == 'Case' else y.ch[0]
            if labels:
                cur = (labels, [])
                groups.append(cur)
            if y is not None:
                cur[1].append(y)
        res = None
        exits = []
        rem = st
        outs = []
        conds = []
        allc = FALSE
        for labels, stmts in groups:
            if any(l is None for l in labels):
                c = not_(allc)
            else:
                c = or_(*[eq(v, self.num(self.ex(st, l))) for l in labels])
            allc = or_(allc, c)
            if self.quick(st, c) is FALSE:
                continue
            s1 = st.copy(); s1.assume(c)
            r, e = self.stmt(s1, N_block(stmts))
            br = [x for x in e if x.kind == 'break']
            exits += [x for x in e if x.kind != 'break']
            if r is not None and stmts is not groups[-1][1]:
                raise Unsupported('switch fallthrough')
            for x in br:
                outs.append((self.rel_pc(st.pc, x.st.pc), x.st))
            if r is not None:
                outs.append((self.rel_pc(st.pc, r.pc), r))
        if self.quick(st, allc) is not TRUE:
            s1 = st.copy(); s1.assume(not_(allc))
            outs.append((not_(allc), s1))
        if not outs:
            return None, exits
        cur = outs[-1][1]
        for c, s1 in reversed(outs[:-1]):
            cur = self.merge(c, s1, cur, st)
        return cur, exits

    # ------------------------------------------------------------ loops
    def assigned(self, node):
        """ids of scalars assigned in the loop, and ids declared inside"""
        r = getattr(node, '_asg', None) if False else self.wcache.get(('asg', node.uid))
        if r is not None:
            return r
        w, d = set(), set()
        for x in node.walk():
            if x.k in ('Asg', 'CAsg') or (x.k == 'Un' and x.a[0] in ('++', '--')):
                y = x.ch[0]
                while y.k == 'Cast':
                    y = y.ch[0]
                if y.k == 'Ref':
                    w.add(y.a[1])
            if x.k == 'Un' and x.a[0] == '&':
                y = x.ch[0]
                if y.k == 'Ref':
                    w.add(y.a[1])
            if x.k == 'Var':
                d.add(x.a[0])
        self.wcache[('asg', node.uid)] = (w, d)
        return w, d

    def loop(self, st, s, par):
        self.nloops.add((s.uid))
        exits0 = []
        if s.k == 'For':
            init, cond, inc, body = s.ch
            if init is not None:
                st, e = self.stmt(st, init)
                exits0 += e
        elif s.k == 'While':
            cond, body = s.ch
            inc = None
        else:
            raise Unsupported('do loop')
        r, e = self.loop1(st, s, cond, inc, body, par)
        return r, exits0 + e

    def loop_bounds(self, st, cond, inc, body, w):
        """recognise `v < H` / `v <= H` with v incremented by one: returns (id, lo, hi expr) or None"""
        if cond is None:
            return None
        c = cond
        while c.k == 'Cast':
            c = c.ch[0]
        if c.k != 'Bin' or c.a not in ('<', '<=', '>', '>='):
            return None

        def ref(x):
            while x.k == 'Cast' and x.a in ('LValueToRValue', 'IntegralCast', 'IntegralToFloating'):
                x = x.ch[0]
            return x.a[1] if x.k == 'Ref' else None
        a, b = c.ch
        for (x, y, op) in ((a, b, c.a), (b, a, {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[c.a])):
            id = ref(x)
            if id is None or id not in w:
                continue
            if op in ('<', '<='):
                return id, y, op
            return id, y, op
        return None

    def loop1(self, st, s, cond, inc, body, par):
        w_all, decl_in = self.assigned(s)
        carried = [i for i in w_all if i in st.env and i not in self.assigned(body)[1]]
        lb = self.loop_bounds(st, cond, inc, body, set(carried))
        # constant trip count: unroll
        if lb is not None and not par and inc is not None:
            u = self.try_unroll(st, s, cond, inc, body, lb)
            if u is not None:
                return u
        entry = st
        known = self.wcache.get(('mem', s.uid, tuple(self.path)), {})
        # predicted placeholders from earlier visits
        res = self.loop_try(entry.copy(), s, cond, inc, body, par, carried, lb, known)
        return res[1], res[2]

    def try_unroll(self, st, s, cond, inc, body, lb):
        id, y, op = lb
        if id in (self.assigned(body)[0] if body is not None else ()):
            return None
        lo = st.env.get(id)
        if not isinstance(lo, T) or const_val(lo) is None:
            return None
        self.quiet += 1
        try:
            hi = self.ex(st.copy(), y)
        except (Unsupported, Abort):
            return None
        finally:
            self.quiet -= 1
        if not isinstance(hi, T) or const_val(hi) is None:
            return None
        n = const_val(hi) - const_val(lo)
        if abs(n) > self.opts.get('unroll', 9):
            return None
        exits = []
        cur = st
        brk = []
        for it in range(int(abs(n)) + 2):
            c = self.quick(cur, self.truthy(self.ex(cur, cond)))
            if c is FALSE:
                break
            if c is not TRUE:
                return None
            base = cur.copy()
            self.path.append(('it', s.uid, it))
            cur, e = self.stmt(cur, body)
            self.path.pop()
            conts = [x for x in e if x.kind == 'continue']
            brks = [x for x in e if x.kind == 'break']
            exits += [x for x in e if x.kind not in ('continue', 'break')]
            for x in conts:
                cur = x.st if cur is None else self.merge(self.rel_pc(base.pc, x.st.pc), x.st, cur, base)
            brk += [(base, x.st) for x in brks]
            if cur is None:
                break
            cur, e2 = self.stmt(cur, inc)
        else:
            raise Unsupported('unroll')
        for base, b in reversed(brk):
            cur = b if cur is None else self.merge(self.rel_pc(base.pc, b.pc), b, cur, base)
        return cur, exits

    def loop_try(self, st, s, cond, inc, body, par, carried, lb, known):
        entry = st.copy()
        k = fresh('i', 'I')
        # --- placeholders for carried scalars
        phv = {}
        s0 = st.copy()
        prim = None
        lo = None
        for id in carried:
            v = st.env[id]
            if isinstance(v, T):
                phv[id] = fresh('c', v.sort if v.sort != 'B' else 'I')
                s0.env[id] = phv[id]
            elif isinstance(v, Cx):
                a, b = fresh('c', 'R'), fresh('c', 'R')
                phv[id] = Cx(a, b)
                s0.env[id] = phv[id]
            elif isinstance(v, Undef):
                phv[id] = None
            else:
                phv[id] = 'ptr'
        # --- placeholders for memory
        phm = {}
        for key in known:
            c = st.mem.get(key)
            if c is None:
                continue
            nm = 'ph!%d:%s' % (TT._ctr[0], key[0] + '.' + key[1])
            TT._ctr[0] += 1
            if c.base.numeric:
                sort = self.sort_key(key)
                b = Base(nm, lambda loc, nm=nm, sort=sort: app(nm, loc, sort))
            else:
                b = Base(nm, lambda loc, c=c, e=entry: self.ptr_ph(e, c, loc), False)
            phm[key] = (nm, b)
            s0.mem[key] = Content(b)
        # --- primary induction variable
        hi = None
        primary = None
        step = None
        if lb is not None and isinstance(entry.env.get(lb[0]), T):
            step = self.incr_of(lb[0], inc, body) or self.wcache.get(('step', s.uid, tuple(self.path)))
            if step in (1, -1):
                primary = lb[0]
        nobl = len(self.obls)
        keys0 = set(self.oblkeys)
        if primary is not None:
            lo = as_num(entry.env[primary])
            if step == 1:
                s0.env[primary] = k
            else:
                s0.env[primary] = sub(add(lo, ZERO), k)      # lo - k, k=0,1,..
            phv.pop(primary, None)
        mem_before = dict(s0.mem)
        # condition at iteration k
        pc_in = s0.pc
        base_facts = s0.facts
        if primary is not None:
            kv = k
            s0.assume(le(lo if step == 1 else ZERO, k))
        else:
            s0.assume(le(ZERO, k))
            lo = ZERO
        if cond is not None:
            c = self.truthy(self.ex(s0, cond))
        else:
            c = TRUE
        body_guard = c
        hi_known = None
        if primary is not None:
            op = lb[2]
            H = self.num(self.ex(s0, lb[1]))
            dep = H.fv & frozenset(x for v in phv.values() for x in self.vvars(v)) or k in H.fv or \
                contains_app(H, {nm for nm, _ in phm.values()})
            if not dep:
                if H.sort == 'R':
                    H = app('$ceil', (H,), 'I') if op in ('<', '>=') else app('$floor', (H,), 'I')
                if step == 1 and op in ('<', '<='):
                    hi_known = H if op == '<' else add(H, ONE)
                    c = lt(k, hi_known)
                elif step == -1 and op in ('>', '>='):
                    hi_known = sub(lo, H) if op == '>' else add(sub(lo, H), ONE)
                    c = lt(k, hi_known)
        lo_k = lo if (primary is not None and step == 1) else ZERO
        s0.assume(c)
        sb = s0
        self.loopvars.append((k, lo_k, hi_known))
        pcb = sb.pc
        par0 = self.parallel
        if par:
            self.parallel += 1
        try:
            infeasible = self.entails(sb, FALSE_Q)
            r, exits = self.stmt(sb, body)
            conts = [x for x in exits if x.kind == 'continue']
            base_b = State(dict(s0.env), dict(mem_before), pcb, base_facts)
            for x in reversed(conts):
                r = x.st if r is None else self.merge(self.rel_pc(pcb, x.st.pc), x.st, r, base_b)
            exits = [x for x in exits if x.kind != 'continue']
            if r is not None and inc is not None:
                r, e2 = self.stmt(r, inc)
                exits += e2
        finally:
            self.loopvars.pop()
            self.parallel = par0
        # --- induction variable advanced in the body
        if primary is None and lb is not None and r is not None and isinstance(phv.get(lb[0]), T) and isinstance(r.env.get(lb[0]), T) and ('step', s.uid, tuple(self.path)) not in self.wcache:
            d = self.minus(as_num(r.env[lb[0]]), phv[lb[0]])
            d = const_val(d) if d is not None else None
            if d in (1, -1):
                self.wcache[('step', s.uid, tuple(self.path))] = int(d)
                del self.obls[nobl:]
                self.oblkeys = keys0
                return self.loop_try(st, s, cond, inc, body, par, carried, lb, known)
        # --- discover written memory
        written = set()
        for state in ([r] if r is not None else []) + [x.st for x in exits if x.kind not in ('error',)]:
            for key, cc in state.mem.items():
                b0 = mem_before.get(key)
                if b0 is None:
                    if cc.ups:
                        # object created (or first touched) in the loop
                        if key not in phm:
                            written.add(key)
                elif cc.base is not b0.base or cc.ups != b0.ups:
                    written.add(key)
        missing = [key for key in written if key not in phm]
        if missing:
            # make sure contents exist before the loop, then retry with placeholders
            for key in missing:
                if key not in entry.mem:
                    o = self.objs[key[0]]
                    src = None
                    for state in ([r] if r is not None else []) + [x.st for x in exits]:
                        if key in state.mem:
                            src = state.mem[key]
                            break
                    entry_c = Content(src.base)
                    st.mem[key] = entry_c
            # discard the obligations of this attempt and start again with placeholders
            del self.obls[nobl:]
            self.oblkeys = keys0
            kn = dict(known)
            for m in missing:
                kn[m] = 1
            self.wcache[('mem', s.uid, tuple(self.path))] = kn
            self.retries += 1
            if self.retries > 3000:
                raise Unsupported('loop retries')
            return self.loop_try(st, s, cond, inc, body, par, carried, lb, kn)
        return self.summarise(entry, s, k, lo_k, hi_known, body_guard, r, exits, phv, phm, primary, step, lo, par,
                              nobl, cond, infeasible)

    def sort_key(self, key):
        o = self.objs[key[0]]
        if key[1] == '$freed':
            return 'I'
        ty = o.ety
        if key[1]:
            base = key[1].split('.')
            t = ty
            for f in base:
                fs = dict(self.structs.get(norm_ty(t), ()))
                if f in fs:
                    t = fs[f]
                else:
                    return 'R' if f in ('re', 'im') else 'R' if not (o.ety in self.structs) else 'R'
            ty = t
        return 'I' if is_int_ty(ty) else 'R'

    def ptr_ph(self, entry, c, loc):
        return self.eval_content(entry, c, loc)

    def vvars(self, v):
        if isinstance(v, T): return v.fv
        if isinstance(v, Cx): return v.re.fv | v.im.fv
        return ()

    def incr_of(self, id, inc, body):
        """constant step of variable id per iteration, from the increment or the body (syntactic)"""
        def step_of(x):
            if x.k == 'Un' and x.a[0] in ('++', '--') and x.ch[0].k == 'Ref' and x.ch[0].a[1] == id:
                return 1 if x.a[0] == '++' else -1
            if x.k == 'CAsg' and x.ch[0].k == 'Ref' and x.ch[0].a[1] == id and x.ch[1].k == 'Int' and x.a[0] in '+-':
                return x.ch[1].a if x.a[0] == '+' else -x.ch[1].a
            if x.k == 'Asg' and x.ch[0].k == 'Ref' and x.ch[0].a[1] == id:
                e = x.ch[1]
                if e.k == 'Bin' and e.a in '+-' and e.ch[1].k == 'Int':
                    y = e.ch[0]
                    while y.k == 'Cast': y = y.ch[0]
                    if y.k == 'Ref' and y.a[1] == id:
                        return e.ch[1].a if e.a == '+' else -e.ch[1].a
            return None
        if inc is not None and id not in self.assigned(body)[0]:
            for x in inc.walk():
                r = step_of(x)
                if r is not None:
                    return r
        return None

    def summarise(self, entry, s, k, lo, hi, guard, r, exits, phv, phm, primary, step, lo0, par, nobl, cond, infeasible):
        line = s.line
        phnames = {nm: key for key, (nm, _) in phm.items()}
        # ---------- scalars
        closed = {}        # ph var -> term in k
        unsolved = {}
        if r is not None:
            pend = {}
            for id, ph in phv.items():
                if ph is None or ph == 'ptr':
                    continue
                new = r.env.get(id)
                comps = [(ph, new)] if isinstance(ph, T) else [(ph.re, tocx(new).re), (ph.im, tocx(new).im)]
                e0 = entry.env[id]
                olds = [e0] if isinstance(ph, T) else [tocx(e0).re, tocx(e0).im]
                if not isinstance(new, (T, Cx)):
                    raise Unsupported('loop-carried value changes type')
                for (p, n), o in zip(comps, olds):
                    pend[p] = (n, as_num(o))
            allph = frozenset(pend)
            progress = True
            order = dict(pend)
            while order and progress:
                progress = False
                for p in list(order):
                    n, o = order[p]
                    n = subst(n, {q: t for q, t in closed.items()})
                    n = self.clean(n, phm, closed)
                    bad = (n.fv & frozenset(order))
                    if n is p:
                        closed[p] = o
                    elif p not in n.fv:
                        if bad:
                            continue
                        if contains_app(n, phnames):
                            # value read from memory the loop writes: resolved after memory
                            nn = n
                        prev = subst(n, {k: sub(k, ONE)})
                        closed[p] = ite(gt(k, lo), prev, o)
                        self.overw = getattr(self, 'overw', set())
                    else:
                        d = self.minus(n, p)
                        if d is None or p in d.fv or (d.fv & frozenset(order)):
                            mm = self.minmax(n, p, order)
                            if mm is not None:
                                closed[p] = self.minmax_closed(mm, o, k, lo)
                                del order[p]
                                progress = True
                            continue
                        if k not in d.fv:
                            closed[p] = add(o, mul(d, sub(k, lo)))      # lo <= k always holds where this is used
                        else:
                            j = fresh('j')
                            closed[p] = add(o, sum_(j, lo, k, subst(d, {k: j})))
                    del order[p]
                    progress = True
            for p, q in [(p, q) for p in order for q in order if p is not q]:
                # repeated complex multiplication: (p + i q) := (p + i q) (a + i c)
                if p in order and q in order:
                    rot = self.rotation(p, q, order, closed, phm, k)
                    if rot is not None:
                        a, c = rot
                        C, S = cis_pow(a, c, sub(k, lo))
                        op, oq = order[p][1], order[q][1]
                        closed[p] = sub(mul(op, C), mul(oq, S))
                        closed[q] = add(mul(op, S), mul(oq, C))
                        del order[p], order[q]
            for p in order:
                # no closed form: arbitrary value at each iteration (sound)
                nm = 'hv!%d' % TT._ctr[0]
                TT._ctr[0] += 1
                closed[p] = ite(gt(k, lo), app(nm, (k,) + tuple(v for v, _, _ in self.loopvars), p.sort), order[p][1])
                unsolved[p] = nm
            if unsolved and self.opts.get('inv'):
                self.infer_inv(entry, r, k, lo, hi, {p: order[p] for p in unsolved}, unsolved, {q: t for q, t in closed.items() if q not in unsolved})
        else:
            for id, ph in phv.items():
                if isinstance(ph, T): closed[ph] = as_num(entry.env[id])
                elif isinstance(ph, Cx):
                    e0 = tocx(entry.env[id])
                    closed[ph.re], closed[ph.im] = e0.re, e0.im
        # triangular closure
        for _ in range(len(closed) + 1):
            ch = False
            for p in list(closed):
                t = closed[p]
                if t.fv & frozenset(closed):
                    closed[p] = subst(t, {q: closed[q] for q in t.fv if q in closed and q is not p})
                    ch = True
            if not ch:
                break

        def fix(t):
            return subst(t, closed)
        # ---------- memory
        ups = {}
        for key, (nm, b) in phm.items():
            if r is None:
                ups[key] = ()
                continue
            cc = r.mem.get(key)
            if cc is None:
                ups[key] = ()
            elif cc.base is not b:
                ups[key] = None       # havoc'd
            else:
                ups[key] = tuple(u_map(u, fix) for u in cc.ups)
        modes = {}
        # convert self-referential stores into accumulations
        for key in ups:
            if ups[key]:
                ups[key] = self.normalise_ups(ups[key], phm[key][0])
        pcb = r.pc if r is not None else ()
        pcb = tuple(fix(c) for c in pcb)
        rngk = and_(le(lo, k), lt(k, hi)) if hi is not None else le(lo, k)
        st_b = State({}, {}, ext(entry.pc, rngk), entry.facts)
        later = []
        for key in ups:
            if ups[key] is None:
                modes[key] = 'havoc'
            elif not ups[key]:
                modes[key] = 'none'
            else:
                leaves = [x for u in ups[key] for x in u_leaves(u)]
                allacc = all(isinstance(l[3], (Acc, LAcc)) for l in leaves)
                selfread = any(contains_app(t, {phm[key][0]}) for l in leaves for t in self.leaf_terms(l))
                if allacc and not selfread:
                    modes[key] = 'acc'
                else:
                    later.append(key)
        # reads of untouched / accumulated memory are resolved before the disjointness of the other writes is examined
        if later:
            def early(a):
                key = phnames.get(a.a[0])
                if key is None or modes.get(key) not in ('none', 'acc'):
                    return None
                if modes[key] == 'acc' and any(contains_app(t, phnames) for u in ups[key] for l in u_leaves(u) for t in self.leaf_terms(l)):
                    return None
                stq = State({}, {}, ext(entry.pc, rngk), entry.facts)
                c0 = entry.mem[key]
                if modes[key] == 'none':
                    return self.eval_content(stq, c0, a.a[1:])
                j = fresh('j')
                cc = Content(c0.base, c0.ups + tuple(self.loop_acc(u, j, lo, k, k) for u in ups[key]))
                return self.eval_content(stq, cc, a.a[1:])
            em = {}
            fe = lambda t: map_apps(t, early, em) if contains_app(t, phnames) else t
            for key in later:
                ups[key] = tuple(u_map(u, fe) for u in ups[key])
        for key in later:
            modes[key] = 'disj' if self.disjoint(st_b, ups[key], k, lo, hi, phm, phnames) else 'other'
        if par:
            for key in ups:
                if ups[key]:
                    self.race_obl(st_b, key, ups[key], k, lo, hi, line, phnames)
        if par:
            self.race_scalars(entry, s, phv, r, line)
        # ---------- resolve placeholder reads
        #   'none'  : the entry content;  'acc': entry + partial sum ; 'disj': entry, provided no other iteration wrote it
        prefix = {}
        for key in ups:
            c0 = entry.mem[key]
            if modes[key] == 'none':
                prefix[key] = ('entry', c0)
            elif modes[key] == 'acc':
                prefix[key] = ('acc', c0)
            elif modes[key] == 'disj':
                prefix[key] = ('disj', c0)
            else:
                prefix[key] = ('havoc', c0)
        self.resolving = True
        hav = {}

        def resolver(kterm, pc):
            memo = {}

            def fn(a):
                key = phnames.get(a.a[0])
                if key is None:
                    return None
                mode, c0 = prefix[key]
                x = a.a[1:]
                stq = State({}, {}, pc, entry.facts)
                if mode == 'entry':
                    return self.eval_content(stq, c0, x)
                if mode == 'acc':
                    j = fresh('j')
                    cc = Content(c0.base, c0.ups + tuple(self.loop_acc(u, j, lo, kterm, k) for u in ups[key]))
                    return self.eval_content(stq, cc, x)
                if mode == 'havoc' and ups[key] and self.not_written(stq, ups[key], k, lo, hi, kterm, x, phnames):
                    return self.eval_content(stq, c0, x)
                if mode == 'disj':
                    # not written by any other iteration?
                    if self.not_written(stq, ups[key], k, lo, hi, kterm, x, phnames):
                        return self.eval_content(stq, c0, x)
                    if self.is_prefix_ok():
                        j = fresh('j')
                        cc = Content(c0.base, c0.ups + (Loop(j, lo, kterm, [u_subst(u, {k: j}) for u in ups[key]]),))
                        if not any(contains_app(t, phnames) for u in ups[key] for l in u_leaves(u) for t in self.leaf_terms(l)):
                            return self.eval_content(stq, cc, x)
                # unknown value (depends on the iteration)
                nm = hav.get(key)
                if nm is None:
                    nm = hav[key] = 'hm!%d' % TT._ctr[0]
                    TT._ctr[0] += 1
                return app(nm, tuple(x) + (kterm,) + tuple(v for v, _, _ in self.loopvars), a.sort)
            return lambda t: map_apps(t, fn, memo) if contains_app(t, phnames) else t

        def fixpoint(t, pc, kt):
            f = resolver(kt, pc)
            for _ in range(6):
                if not contains_app(t, phnames):
                    return t
                t = f(t)
            return t
        pcr = ext(entry.pc, rngk)
        for p in list(closed):
            closed[p] = fixpoint(closed[p], pcr, k)
        res_memo = {}

        def fix2(t):
            t = subst(t, closed)
            if not contains_app(t, phnames):
                return t
            q = res_memo.get(t)
            if q is None:
                q = fixpoint(t, pcr, k)
                res_memo[t] = q
            return q
        def fixpc(t, pc):
            t = subst(t, closed)
            return fixpoint(t, pc, k) if contains_app(t, phnames) else t
        # recurrences  a[k] := a[k-1] + e(k)
        for key in ups:
            if modes[key] == 'disj' and len(ups[key]) == 1:
                u = self.recurrence(ups[key][0], k, lo, phm[key][0], entry.mem[key], State({}, {}, pcr, entry.facts))
                if u is not None:
                    ups[key] = (u,)
        fin_ups = {}
        for key in ups:
            if ups[key]:
                fin_ups[key] = tuple(self.u_fix(u, fix2, pcr, fixpc) for u in ups[key])
        # ---------- obligations generated inside the body: close them
        for o in self.obls[nobl:]:
            o.asm = tuple(fix2(c) for c in o.asm)
            o.goal = fix2(o.goal)
            o.facts = tuple(fact_map(f, fix2) for f in o.facts)
        # ---------- exits
        out_exits = []
        facts_after = list(entry.facts)
        exit_conds = []
        for x in exits:
            sx = self.state_at(entry, x.st, k, lo, phm, fin_ups, modes, closed, fix2, prefix)
            sx.facts = tuple(fact_map(f, fix2) for f in x.st.facts)
            rel = and_(*[c for c in sx.pc if c not in entry.pc])
            exit_conds.append(rel)
            out_exits.append(Exit(x.kind, sx, vmap(x.val, fix2) if x.val is not None else None))
        # iterations before exit / all iterations did not exit; they satisfied the loop condition
        stay = TRUE
        if r is not None:
            stay = and_(*[fix2(c) for c in r.pc if c not in entry.pc])
        elif exits:
            stay = FALSE
        # facts: forall j in [lo, k): stay(j)
        inner_terms = self.stay_parts(stay, rngk, k)
        # ---------- after the loop
        after = entry.copy()
        if hi is not None:
            kend = ite(le(lo, hi), hi, lo)
            if self.entails(entry, le(lo, hi)):
                kend = hi
            elif self.entails(entry, lt(hi, lo)):
                kend = lo
        else:
            kend = fresh('kend', 'I')
            after.assume(le(lo, kend))
        for q in inner_terms:
            self.add_range_fact(after, q, k, lo, kend)
        for x in out_exits:
            for q in inner_terms:
                self.add_range_fact(x.st, q, k, lo, k)
        # scalars
        m_end = {k: kend}
        for id, ph in phv.items():
            if ph is None:
                # undefined before the loop
                if r is not None and isinstance(r.env.get(id), (T,)):
                    nv = fix2(r.env[id])
                    nv = subst(nv, {k: sub(kend, ONE)})
                    after.env[id] = ite(gt(kend, lo), nv, fresh('undef', nv.sort if nv.sort != 'B' else 'I'))
                elif r is not None and isinstance(r.env.get(id), Cx):
                    after.env[id] = UNDEF
                else:
                    v = r.env.get(id) if r is not None else None
                    after.env[id] = v if isinstance(v, (Opq,)) else UNDEF
                continue
            if ph == 'ptr':
                v0, v1 = entry.env[id], (r.env.get(id) if r is not None else entry.env[id])
                if v1 is not None and vsame(v0, v1):
                    after.env[id] = v0
                else:
                    after.env[id] = UNDEF
                continue
            if isinstance(ph, T):
                after.env[id] = subst(closed.get(ph, entry.env[id]), m_end)
            else:
                after.env[id] = Cx(subst(closed[ph.re], m_end), subst(closed[ph.im], m_end))
        if primary is not None:
            after.env[primary] = kend if step == 1 else sub(lo0, kend)
        # memory
        for key in ups:
            c0 = entry.mem[key]
            after.mem[key] = self.content_after(c0, key, fin_ups.get(key), modes[key], k, lo, kend)
        # memory first touched inside the loop but unmodified
        for state in ([r] if r is not None else []) + [x.st for x in exits]:
            for key, cc in state.mem.items():
                if key not in after.mem and not cc.ups and key not in phm:
                    after.mem[key] = cc
        # exit condition when leaving normally without known bound
        if hi is None:
            if cond is not None:
                g = fix2(guard)
                after.assume(not_(subst(g, {k: kend})))
                after.assume(or_(le(kend, lo), subst(g, {k: sub(kend, ONE)})))
            else:
                after = None
        # `break` exits join the state after the loop
        brks = [x for x in out_exits if x.kind == 'break']
        out_exits = [x for x in out_exits if x.kind != 'break']
        for x in brks:
            # at a skolem iteration: rename k
            if after is None:
                after = x.st
                continue
            rel = and_(*[c for c in x.st.pc if c not in entry.pc])
            # the loop ran to the end only if no iteration exited
            after = self.merge(rel, x.st, after, entry)
        return ('ok', after, out_exits)

    def rotation(self, p, q, order, closed, phm, k):
        bad = frozenset(order)
        n = []
        for x in (p, q):
            t = self.clean(subst(order[x][0], closed), phm, closed)
            if (t.fv & bad) - {p, q}:
                return None
            n.append(t)
        co = [[subst(t, {p: ONE, q: ZERO}), subst(t, {p: ZERO, q: ONE})] for t in n]
        for t, (a, b) in zip(n, co):
            if const_val(sub(t, add(mul(a, p), mul(b, q)))) != 0 or k in a.fv or k in b.fv:
                return None
        if const_val(sub(co[0][0], co[1][1])) != 0 or const_val(add(co[0][1], co[1][0])) != 0:
            return None
        return co[0][0], co[1][0]

    def infer_inv(self, entry, r, k, lo, hi, order, unsolved, closed):
        """loop invariants of scalars without closed form: the inductive subset (Houdini) of the spec's templates"""
        cand = [(p, i, t) for p in order if p.sort == 'I' for i, t in enumerate(self.opts['inv'])]
        cand = [c for c in cand if self.entails(entry, c[2](order[c[0]][1]))]
        f = lambda t: subst(t, closed)
        while cand:
            s = State({}, {}, tuple(f(c) for c in r.pc), r.facts)
            s.assume(le(lo, k) if hi is None else and_(le(lo, k), lt(k, hi)))
            for p, i, t in cand:
                s.assume(t(p))
            keep = [(p, i, t) for p, i, t in cand if self.entails(s, t(f(order[p][0])))]
            if len(keep) == len(cand):
                break
            cand = keep
        for p, i, t in cand:
            vs = tuple(fresh('iv') for _ in range(1 + len(self.loopvars)))
            a = app(unsolved[p], vs, p.sort)
            self.facts.append(Fact(vs, a, t(a), 'loop invariant'))
        self.P.facts = list(self.facts)

    def is_prefix_ok(self):
        return True

    def recurrence(self, u, k, lo, ph, c0, st):
        if not isinstance(u, St) or u.g is not TRUE or not isinstance(u.val, T):
            return None
        pk = {k: sub(k, ONE)}
        prev = app(ph, tuple(subst(x, pk) for x in u.loc), u.val.sort)
        e = sub(u.val, prev)
        if contains_app(e, {ph}) or all(x is subst(x, pk) for x in u.loc):
            return None
        first = self.eval_content(st, c0, tuple(subst(x, {k: sub(lo, ONE)}) for x in u.loc))
        j = fresh('j')
        return St(u.g, u.loc, add(first, sum_(j, lo, add(k, ONE), subst(e, {k: j}))), u.prot)

    def u_fix(self, u, f, pc, fpc):
        """resolve placeholder reads inside an update, under the bounds of its enclosing loops and its guard"""
        g = f(u.g)
        if isinstance(u, Loop):
            lo, hi = f(u.lo), f(u.hi)
            pc2 = ext(ext(pc, and_(le(lo, u.v), lt(u.v, hi))), g)
            return Loop(u.v, lo, hi, [self.u_fix(x, lambda t: fpc(t, pc2), pc2, fpc) for x in u.ups], g)
        if isinstance(u, LAcc):
            return u_map(u, f)
        pc2 = ext(pc, g)
        f2 = lambda t: fpc(t, pc2)
        v = u_map(u, f2)
        v.g = g
        return v

    def stay_parts(self, stay, rngk, k):
        out = []
        rp = rngk.a if rngk.op == 'and' else (rngk,)
        for c in (stay.a if stay.op == 'and' else (stay,)):
            if c is TRUE or c in rp:
                continue
            out.append(c)
        return out

    def add_range_fact(self, st, q, k, lo, hi):
        """forall j in [lo,hi): q(j)"""
        j = fresh('q')
        b = implies(and_(le(lo, j), lt(j, hi)), subst(q, {k: j}))
        # triggers: applications in q that mention k
        trigs = []
        for t in subterms(q):
            if t.op == 'f' and k in t.fv and any(x is k or True for x in t.a[1:]):
                trigs.append(t)
        trigs = [t for t in trigs if not any(w.a[0].startswith('#') for w in t.fv)]
        if not trigs:
            st.facts = tuple(st.facts) + (Fact((j,), None, b, 'loop'),)
        for t in trigs[:6]:
            st.facts = tuple(st.facts) + (Fact((j,), subst(t, {k: j}), b, 'loop'),)

    def state_at(self, entry, sx, k, lo, phm, fin_ups, modes, closed, fix2, prefix):
        """state of an exit taken at iteration k, with placeholders resolved"""
        env = {id: vmap(v, fix2) if v is not None and not isinstance(v, (Undef,)) else v for id, v in sx.env.items()}
        mem = {}
        for key, cc in sx.mem.items():
            if key in phm:
                pre = self.content_after(entry.mem[key], key, fin_ups.get(key), modes[key], k, lo, k)
                mem[key] = Content(pre.base, pre.ups + tuple(u_map(u, fix2) for u in cc.ups))
            else:
                mem[key] = Content(cc.base, tuple(u_map(u, fix2) for u in cc.ups)) if cc.ups else cc
        pc = tuple(dict.fromkeys(fix2(c) for c in sx.pc))
        return State(env, mem, pc, sx.facts)

    def content_after(self, c0, key, ups, mode, k, lo, kend):
        if mode == 'none' or not ups and mode != 'havoc':
            return c0
        j = fresh('j')
        if mode == 'acc':
            return Content(c0.base, c0.ups + tuple(self.loop_acc(u, j, lo, kend, k) for u in ups))
        if mode == 'disj':
            return Content(c0.base, c0.ups + (Loop(j, lo, kend, [u_subst(u, {k: j}) for u in ups]),))
        # last iteration wins when every iteration writes the same fixed locations unconditionally
        nm = 'hvmem!%d:%s' % (TT._ctr[0], key[0])
        TT._ctr[0] += 1
        if not c0.base.numeric:
            return Content(Base(nm, lambda loc: UNDEF, False))
        sort = self.sort_key(key)
        lvs = tuple(v for v, _, _ in self.loopvars)
        hb = Base(nm, lambda loc, nm=nm, sort=sort: app(nm, tuple(loc) + lvs, sort))
        return Content(hb)

    def loop_acc(self, u, j, lo, hi, k):
        if isinstance(u, Acc):
            return LAcc(((j, lo, hi),), subst(u.g, {k: j}), [subst(x, {k: j}) for x in u.loc], subst(u.e, {k: j}), u.prot)
        if isinstance(u, LAcc):
            return LAcc(((j, lo, hi),) + tuple((v, subst(a, {k: j}), subst(b, {k: j})) for v, a, b in u.bs),
                        subst(u.g, {k: j}), [subst(x, {k: j}) for x in u.loc], subst(u.e, {k: j}), u.prot)
        if isinstance(u, Loop):
            # loop whose leaves are all accumulations
            ls = list(u_leaves(u))
            if len(ls) == 1:
                bs, g, loc, leaf = ls[0]
                return self.loop_acc(LAcc(bs, g, loc, leaf.e, leaf.prot), j, lo, hi, k)
            raise Unsupported('nested accumulation')
        raise Exception(u)

    def leaf_terms(self, l):
        bs, g, loc, leaf = l
        out = [g] + list(loc)
        v = leaf.val if isinstance(leaf, St) else leaf.e
        if isinstance(v, T): out.append(v)
        elif isinstance(v, Ptr): out += list(v.idx) + [v.off]
        for _, a, b in bs:
            out += [a, b]
        return out

    def normalise_ups(self, ups, ph):
        """St(loc, PH(loc)+e) -> Acc ; nested loops flattened where they contain a single accumulation"""
        out = []

        def conv(u, clean):
            if isinstance(u, St) and clean and isinstance(u.val, T):
                a = None
                for m, c in _poly(u.val).items():
                    if len(m) == 1 and m[0][1] == 1 and c == 1 and m[0][0].op == 'f' and m[0][0].a[0] == ph and \
                            tuple(m[0][0].a[1:]) == u.loc:
                        a = m[0][0]
                if a is not None:
                    e = sub(u.val, a)
                    if not contains_app(e, {ph}):
                        return Acc(u.g, u.loc, e, u.prot)
            return u
        for i, u in enumerate(ups):
            if isinstance(u, St):
                u = conv(u, True)
            elif isinstance(u, Loop):
                ls = list(u_leaves(u))
                if len(u.ups) == 1 and isinstance(u.ups[0], St):
                    v = conv(u.ups[0], True)
                    if isinstance(v, Acc):
                        u = LAcc(((u.v, u.lo, u.hi),), and_(u.g, v.g), v.loc, v.e, v.prot)
                elif all(isinstance(l[3], (Acc, LAcc)) for l in ls):
                    for bs, g, loc, leaf in ls:
                        out.append(LAcc(bs, g, loc, leaf.e, leaf.prot))
                    continue
            out.append(u)
        return tuple(out)

    def drop_ph(self, cs, phnames):
        return [c for c in cs if not contains_app(c, phnames)]

    def disjoint(self, st, ups, k, lo, hi, phm, phnames):
        """footprints of two different iterations do not overlap"""
        leaves = [x for u in ups for x in u_leaves(u)]
        k1, k2 = fresh('k'), fresh('k')
        base = list(st.pc)
        a0 = tuple(c for c in base if k not in c.fv)
        for kk in (k1, k2):
            a0 = ext(a0, le(lo, kk))
            if hi is not None:
                a0 = ext(a0, lt(kk, hi))
            for c in base:
                if k in c.fv:
                    a0 = ext(a0, subst(c, {k: kk}))
        n = len(leaves)
        for i in range(n):
            for j in range(i, n):
                b1, g1, l1, f1 = leaves[i]
                b2, g2, l2, f2 = leaves[j]
                if len(l1) != len(l2):
                    continue
                m1 = {b[0]: fresh('a') for b in b1}
                m2 = {b[0]: fresh('b') for b in b2}
                m1[k], m2[k] = k1, k2
                a = a0
                for bs, m, g in ((b1, m1, g1), (b2, m2, g2)):
                    for v, x, y in bs:
                        a = ext(a, and_(le(subst(x, m), m[v]), lt(m[v], subst(y, m))))
                    gg = subst(g, m)
                    for q in (gg.a if gg.op == 'and' else (gg,)):
                        if not contains_app(q, phnames):
                            a = ext(a, q)
                e = [eq(subst(x, m1), subst(y, m2)) for x, y in zip(l1, l2)]
                if any(q is FALSE for q in e):
                    continue
                if any(contains_app(q, phnames) for q in e):
                    # use only the placeholder-free coordinates
                    e = [q for q in e if not contains_app(q, phnames)]
                self.P.facts = self.facts + list(st.facts)
                # fast path: some coordinate equation implies k1==k2 on its own
                if not self.P.entails(ext(a, and_(*e)), eq(k1, k2), timeout=3000) and not self.radix_disjoint(st, leaves[i], leaves[j], m1, m2, a, k1, k2, lo, hi, phnames):
                    return False
        return True

    def radix_disjoint(self, st, f1, f2, m1, m2, a, k1, k2, lo, hi, phnames):
        """the same by positional decoding of the index: loc1(k1,..) == loc2(k2,..) has the only solution k1 = k2"""
        b1, g1, l1, _ = f1
        b2, g2, l2, _ = f2
        if hi is None or any(contains_app(q, phnames) for q in l1 + l2):
            return False
        s2 = State({}, {}, a, st.facts)
        bs = [(k1, lo, hi)] + [(m1[v], subst(x, m1), subst(y, m1)) for v, x, y in b1]
        self.zbs = [(k2, lo, hi)] + [(m2[v], subst(x, m2), subst(y, m2)) for v, x, y in b2]
        try:
            r = self.solve(s2, bs, TRUE, [subst(x, m1) for x in l1], [subst(x, m2) for x in l2], [b[0] for b in bs], False)
            if r is False or bool(r) and r[0].get(k1) is k2:
                return True
            ds = self.digits(s2, bs, [subst(x, m1) for x in l1], [subst(x, m2) for x in l2])
        finally:
            self.zbs = ()
        if ds is None:
            return True
        self.P.facts = self.facts + list(st.facts)
        return self.P.entails(ext(a, and_(*ds)), eq(k1, k2), timeout=3000)

    def not_written(self, st, ups, k, lo, hi, kterm, x, phnames):
        """no iteration other than kterm writes location x"""
        leaves = [y for u in ups for y in u_leaves(u)]
        k1 = fresh('k')
        for bs, g, loc, leaf in leaves:
            m = {b[0]: fresh('a') for b in bs}
            m[k] = k1
            a = st.pc
            a = ext(a, and_(le(lo, k1), lt(k1, kterm)))
            for v, p, q in bs:
                a = ext(a, and_(le(subst(p, m), m[v]), lt(m[v], subst(q, m))))
            gg = subst(g, m)
            for q in (gg.a if gg.op == 'and' else (gg,)):
                if not contains_app(q, phnames):
                    a = ext(a, q)
            e = [eq(subst(l, m), y) for l, y in zip(loc, x)]
            if any(q is FALSE for q in e):
                continue
            e = [q for q in e if not contains_app(q, phnames)]
            a = ext(a, and_(*e))
            self.P.facts = self.facts + list(st.facts)
            if not self.P.entails(a, FALSE_Q, timeout=3000):
                return False
        return True

    def race_obl(self, st, key, ups, k, lo, hi, line, phnames):
        """parallel loop: writes of different iterations are disjoint or protected"""
        if self.quiet or key[0] in self.par_objs:
            return
        leaves = [x for u in ups for x in u_leaves(u)]
        if all(l[3].prot for l in leaves):
            return
        lst = [u for u in ups]
        ok = self.disjoint(st, lst, k, lo, hi, None, phnames)
        self.obls.append(Obl('no write-write race on %s in parallel loop' % key[0], (), TRUE if ok else FALSE_Q, (), 'race', line, self.fname))

    def race_scalars(self, entry, s, phv, r, line):
        """scalars written in the body must be private (declared inside the parallel region)"""
        if self.quiet or r is None:
            return
        priv = self.par_private(s)
        for id, ph in phv.items():
            if id in priv:
                continue
            self.obls.append(Obl('scalar written by a parallel loop is private', (), FALSE_Q, (), 'race', line, self.fname))

    def par_private(self, s):
        """ids declared inside the enclosing parallel region"""
        r = self.wcache.get('parpriv')
        if r is None:
            r = set()
            for f in self.funcs.values():
                for x in f.body.walk():
                    if x.k == 'Omp' and x.a[0] in ('Parallel', 'ParallelFor'):
                        for y in x.walk():
                            if y.k == 'Var':
                                r.add(y.a[0])
            self.wcache['parpriv'] = r
        return r

    def minus(self, n, p):
        """n - p if n = p + d (also through conditionals), else None"""
        if n.op == 'ite' and p in n.fv:
            c, a, b = n.a
            if p in c.fv:
                return None
            da = self.minus(a, p)
            db = self.minus(b, p)
            if da is None or db is None:
                return None
            return ite(c, da, db)
        d = sub(n, p)
        if p in d.fv:
            # conditionals multiplied in
            items = _poly(d)
            tot = ZERO
            for m, c in items.items():
                if any(p in x.fv for x, e in m):
                    if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ite' and c == 1:
                        return self.minus_ite(n, p)
                    return None
            return None
        return d

    def minus_ite(self, n, p):
        # n = rest + ite(c, ..p.., ..)
        items = dict(_poly(n))
        for m, c in items.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ite' and p in m[0][0].fv and c == 1:
                x = m[0][0]
                rest = _mkpoly({q: w for q, w in items.items() if q != m})
                if p in x.a[0].fv:
                    return None
                return self.minus(ite(x.a[0], add(rest, x.a[1]), add(rest, x.a[2])), p)
        return None

    def minmax(self, n, p, order):
        """x' = (c(x,g) ? g : x): running maximum / minimum, possibly under a condition"""
        if n.op == 'ite':
            c, a, b = n.a
            if p in c.fv and (a is p or b is p):
                g = b if a is p else a
                cond = c if b is p else not_(c)     # condition for taking g
                if (g.fv & frozenset(order)):
                    return None
                # cond is g > p  or g >= p  (max), g < p or g <= p (min); extra conjuncts allowed
                cs = cond.a if cond.op == 'and' else (cond,)
                cmpc = [q for q in cs if p in q.fv]
                oth = [q for q in cs if p not in q.fv]
                if len(cmpc) != 1:
                    return None
                q = cmpc[0]
                gg = and_(*oth)
                if q in (gt(g, p), ge(g, p)): return ('max', gg, g)
                if q in (lt(g, p), le(g, p)): return ('min', gg, g)
                return None
            if p not in c.fv:
                # conditional update around a plain one
                if b is p:
                    r = self.minmax(a, p, order)
                    return r and (r[0], and_(c, r[1]), r[2])
                if a is p:
                    r = self.minmax(b, p, order)
                    return r and (r[0], and_(not_(c), r[1]), r[2])
        return None

    def minmax_closed(self, mm, o, k, lo):
        kind, g, e = mm
        nm = '%s!%d' % (kind, TT._ctr[0])
        TT._ctr[0] += 1
        lvs = tuple(v for v, _, _ in self.loopvars)
        self.mmdefs = getattr(self, 'mmdefs', {})
        t = app(nm, (k,) + lvs, e.sort if e.sort == o.sort else 'R')
        self.mmdefs[nm] = (kind, k, lvs, lo, g, e, o)
        j, kk = fresh('j'), fresh('k')
        tk = app(nm, (kk,) + lvs, t.sort)
        cmp_ = ge if kind == 'max' else le
        # upper bound of every element, attained (or initial)
        body = implies(and_(le(lo, j), lt(j, kk), subst(g, {k: j})), cmp_(tk, subst(e, {k: j})))
        trig_terms = [x for x in subterms(and_(g, eq(e, ZERO))) if x.op == 'f' and k in x.fv]
        wit = app('arg' + nm, (kk,) + lvs, 'I')
        att = or_(eq(tk, o), and_(le(lo, wit), lt(wit, kk), subst(g, {k: wit}), eq(tk, subst(e, {k: wit}))))
        f1 = Fact((kk,), tk, and_(cmp_(tk, o), att), 'extremum attained')
        self.facts.append(f1)
        for x in trig_terms[:3]:
            # two-trigger facts are encoded by nesting: instantiate j on x, kk at the terms seen
            self.facts.append(Fact2((j, kk), subst(x, {k: j}), tk, body, 'extremum bound'))
        return t

    def clean(self, t, phm, closed):
        return t

    # ------------------------------------------------------------ allocation
    def alloc(self, st, m, ty):
        ety = elem_ty(ty)
        if ety == 'void':
            return m
        n = m.count(self, ety)
        idx = tuple(v for v, _, _ in self.loopvars)
        params = idx

        def length(i, params=params, n=n):
            return subst(n, dict(zip(params, i)))
        nm = 'new:%s@%s' % (norm_ty(ety).replace(' ', ''), m.tag)
        o = self.new_obj(nm, len(idx), norm_ty(ety), length, 'zero' if m.zero else 'uninit')
        o.kind = 'heap'
        o.alloc_pc = st.pc
        return Ptr(o, idx)


class Mal:
    """result of malloc before its type is known"""
    def __init__(self, size, n, zero, tag):
        self.size, self.n, self.zero, self.tag = size, n, zero, tag

    def same(self, o): return self is o

    def count(self, eng, ety):
        sz = eng.sizeof(ety)
        t = self.size if self.n is None else mul(self.size, self.n)
        d = {}
        for m, c in _poly(t).items():
            mm = dict(m)
            hit = None
            for x in mm:
                if x.op == 'f' and x.a[0].startswith('sizeof:'):
                    hit = x
            if hit is None:
                return app('bytes', (t,), 'I') if norm_ty(ety) != 'char' else t
            if hit is not sz and not same_size(hit.a[0][7:], norm_ty(ety)):
                return idiv(t, sz)
            q = tuple((x, e) for x, e in m if x is not hit)
            d[q] = d.get(q, 0) + c
        return _mkpoly(d)


def same_size(a, b):
    pa, pb = a.endswith('*'), b.endswith('*')
    if pa and pb:
        return True
    D = {'double', 'flouble', 'long', 'unsigned long'}
    if a in D and b in D: return True
    return a == b


class Fact2:
    """fact with two triggers"""
    def __init__(self, vs, t1, t2, body, name): self.vs, self.t1, self.t2, self.body, self.name = vs, t1, t2, body, name


class Abort(Exception):
    """no path continues"""


FALSE_Q = _mk('eq', (_mk('p', (((), Fraction(1)),), 'I'),), 'B')   # 1 == 0, kept symbolic


def guard_fact(f, c):
    if isinstance(f, Fact2):
        return Fact2(f.vs, f.t1, f.t2, implies(c, f.body), f.name)
    return Fact(f.vs, f.trig, implies(c, f.body), f.name)


def fact_map(f, g):
    if isinstance(f, Fact2):
        return Fact2(f.vs, g(f.t1), g(f.t2), g(f.body), f.name)
    return Fact(f.vs, f.trig and g(f.trig), g(f.body), f.name)


def num_(v):
    if isinstance(v, T):
        return as_num(v)
    raise Unsupported('accumulation into %r' % (v,))


def frac_of(s):
    from decimal import Decimal
    return Fraction(Decimal(s))


def rest_without(d, m):
    return _mkpoly({q: c for q, c in d.items() if q != m})


def cmp_key(t):
    c = const_val(t)
    if c is not None:
        return float(c)
    return 1e9 + len(t.a) if t.op == 'p' else 1e9


def divide(b, A):
    """b = A*y + z syntactically (y,z polynomials), or (None,None)"""
    cA = const_val(A)
    if cA is not None:
        if cA == 0:
            return None, None
        y, z = {}, {}
        for m, c in _poly(b).items():
            if c % cA == 0 and m != ():
                y[m] = c / cA
            elif m == ():
                q = c // cA
                y[m] = q
                z[m] = c - q * cA
            else:
                z[m] = c
        if not any(m != () for m in y):
            return None, None
        return _mkpoly(y), _mkpoly(z)
    pa = _poly(A)
    # leading monomial division
    lead = max(pa, key=lambda m: (sum(e for _, e in m), tuple((x.id, e) for x, e in m)))
    cl = pa[lead]
    ld = dict(lead)
    y, r = ZERO, b
    for _ in range(12):
        hit = None
        for m, c in _poly(r).items():
            md = dict(m)
            if abs(c / cl) >= 1 and all(md.get(x, 0) >= e for x, e in ld.items()):
                hit = (m, cl * int(c / cl))
                break
        if hit is None:
            break
        m, c = hit
        md = dict(m)
        q = tuple((x, e - ld.get(x, 0)) for x, e in m if e - ld.get(x, 0) > 0)
        qt = _mkpoly({q: c / cl})     # whole quotient
        y = add(y, qt)
        r = sub(r, mul(qt, A))
    if const_val(y) == 0:
        if lead == ():
            return None, None
        return ZERO, r
    return y, r


def N_block(stmts):
    from .cast import N
    return N('Block', '', stmts, None, 0)

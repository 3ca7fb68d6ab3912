"""Discharging verification conditions with z3 (cvc5 as second back end).

Terms (terms.py) are translated to SMT.  Quantified assumptions ("facts") are
instantiated by matching their trigger applications against the ground terms
of the query; nonlinear monomials are uninterpreted, with explicit lemma
instances (products of integers, reciprocals, truncation, div/mod).  Equalities
between finite sums are proved by extensionality (equal domain and summand for
an arbitrary index), by case-splitting on conditions, and by exchanging the
order of independent binders.
"""
import time, itertools
from fractions import Fraction
import z3
from .terms import *
from .terms import _poly, _mkpoly, _mk
from . import terms as TT

STATS = {'z3_calls': 0, 'z3_time': 0.0, 'cvc5_calls': 0, 'cvc5_time': 0.0, 'unknown': 0}


class Fact:
    """forall vs: body, instantiated on terms matching `trigger` (an app over vs)"""
    __slots__ = ('vs', 'trig', 'body', 'name')

    def __init__(self, vs, trig, body, name=''):
        self.vs, self.trig, self.body, self.name = tuple(vs), trig, body, name


def match(pat, t, vs, b):
    """one-way matching of app pattern; returns list of residual equations or None"""
    if pat.op == 'v' and pat in vs:
        if pat in b:
            return [] if b[pat] is t else [(b[pat], t)]
        b[pat] = t
        return []
    if pat is t:
        return []
    if pat.op == 'f' and t.op == 'f' and pat.a[0] == t.a[0] and len(pat.a) == len(t.a):
        res = []
        for p, q in zip(pat.a[1:], t.a[1:]):
            r = match(p, q, vs, b)
            if r is None:
                return None
            res += r
        return res
    if pat.op in ('p', 'f', 'ite'):
        # linear pattern v + c
        free = [v for v in vs if v in pat.fv]
        nb = [v for v in free if v not in b]
        if not nb:
            return [(subst(pat, b), t)]
        if len(nb) == 1 and pat.op == 'p':
            v = nb[0]
            d = dict(pat.a)
            c = d.get(((v, 1),))
            rest = _mkpoly({m: k for m, k in d.items() if m != ((v, 1),)})
            if c in (1, -1) and v not in rest.fv and all(w in b for w in vs if w in rest.fv):
                b[v] = scale(sub(t, subst(rest, b)), Fraction(1, c))
                return []
        return None
    return None


class Z3Conv:
    def __init__(self):
        self.memo = {}
        self.funs = {}
        self.lem = []          # terms whose lemmas are needed
        self.seenlem = set()
        self.nl = False

    def fun(self, name, args, sort):
        key = (name, len(args), sort)
        f = self.funs.get(key)
        if f is None:
            real = name.startswith('$')
            dom = [z3.RealSort() if real else z3.IntSort() for _ in args]
            rng = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}[sort]
            f = z3.Function(name, *dom, rng) if args else z3.Const(name, rng)
            self.funs[key] = f
        if not args:
            return f
        real = name.startswith('$')
        aa = []
        for x in args:
            z = self.c(x)
            if real and x.sort == 'I':
                z = z3.ToReal(z)
            elif not real and x.sort == 'R':
                z = z3.ToInt(z)
            elif x.sort == 'B':
                z = z3.If(z, z3.IntVal(1), z3.IntVal(0))
            aa.append(z)
        return f(*aa)

    def opaque(self, t):
        return z3.Const('op!%d' % t.id, z3.IntSort() if t.sort == 'I' else z3.RealSort())

    def mono(self, m):
        """product of atoms"""
        # ite atoms are distributed
        for k, (x, e) in enumerate(m):
            if x.op == 'ite':
                rest = _mkpoly({m[:k] + m[k + 1:]: Fraction(1)})
                c, a, b = x.a
                for _ in range(e):
                    pa = rest = rest
                t = ite(c, mul(rest, *([a] * e)), mul(rest, *([b] * e)))
                return self.c(t), t.sort
        if len(m) == 1 and m[0][1] == 1:
            x = m[0][0]
            return self.c(x), x.sort
        sort = 'R' if any(x.sort == 'R' for x, e in m) else 'I'
        t = _mkpoly({m: Fraction(1)})
        if self.nl:
            r = None
            for x, e in m:
                z = self.c(x)
                if sort == 'R' and x.sort == 'I':
                    z = z3.ToReal(z)
                for _ in range(e):
                    r = z if r is None else r * z
            return r, sort
        fs = []
        for x, e in m:
            fs += [x] * e
        S = z3.IntSort() if sort == 'I' else z3.RealSort()
        key = ('mul', sort)
        f = self.funs.get(key)
        if f is None:
            f = z3.Function('mul' + sort, S, S, S)
            self.funs[key] = f
        r = None
        for x in fs:
            z = self.c(x)
            if sort == 'R' and x.sort == 'I':
                z = z3.ToReal(z)
            r = z if r is None else f(r, z)
        if sort == 'I':
            self.note(('imul', m))
        elif all(e % 2 == 0 for x, e in m):
            self.note(('sq', m))
        return r, sort

    def note(self, k):
        self.stack[-1][k] = 1

    def begin(self):
        """new query: conversions are kept, lemma requests are collected afresh"""
        self.lem, self.seenlem = [], set()

    def top(self, t):
        """convert an asserted formula and collect the lemmas it needs"""
        self.stack = [{}]
        r = self.c(t)
        for k in self.stack[0]:
            if k not in self.seenlem:
                self.seenlem.add(k)
                self.lem.append(k)
        return r

    def c(self, t):
        h = self.memo.get(t)
        if h is not None:
            if h[1]:
                self.stack[-1].update(h[1])
            return h[0]
        self.stack.append({})
        try:
            r = self.c1(t)
        finally:
            n = self.stack.pop()
        self.memo[t] = (r, n)
        if n:
            self.stack[-1].update(n)
        return r

    def c1(self, t):
        op = t.op
        if op == 'c':
            r = z3.BoolVal(t.a[0])
        elif op == 'v':
            r = self.fun('v:' + t.a[0], [], t.sort)
        elif op == 'f':
            r = self.fun(t.a[0], t.a[1:], t.sort)
        elif op == 'p':
            acc = []
            isr = t.sort == 'R'
            for m, c in t.a:
                if m == ():
                    acc.append(z3.RealVal(str(c)) if isr else z3.IntVal(int(c)))
                    continue
                z, s = self.mono(m)
                if isr and z.sort() == z3.IntSort():
                    z = z3.ToReal(z)
                if c != 1:
                    z = (z3.RealVal(str(c)) if isr else z3.IntVal(int(c))) * z
                acc.append(z)
            r = z3.Sum(acc) if len(acc) > 1 else (acc[0] if acc else (z3.RealVal(0) if isr else z3.IntVal(0)))
        elif op == 'ite':
            a, b = self.c(t.a[1]), self.c(t.a[2])
            if t.sort == 'R':
                if a.sort() == z3.IntSort(): a = z3.ToReal(a)
                if b.sort() == z3.IntSort(): b = z3.ToReal(b)
            r = z3.If(self.c(t.a[0]), a, b)
        elif op == 'and':
            r = z3.And(*[self.c(x) for x in t.a])
        elif op == 'or':
            r = z3.Or(*[self.c(x) for x in t.a])
        elif op == 'not':
            r = z3.Not(self.c(t.a[0]))
        elif op in ('le', 'lt', 'eq'):
            z = self.c(t.a[0])
            zero = z3.IntVal(0) if z.sort() == z3.IntSort() else z3.RealVal(0)
            r = z <= zero if op == 'le' else (z < zero if op == 'lt' else z == zero)
        elif op == 'inv':
            r = self.fun('$inv', [t.a[0]], 'R')
            self.note(('inv', t))
        elif op in ('div', 'mod'):
            cb = const_val(t.a[1])
            if cb is not None and cb > 0:
                z = self.c(t.a[0])
                r = z / z3.IntVal(int(cb)) if op == 'div' else z % z3.IntVal(int(cb))
            else:
                r = self.fun(op, list(t.a), 'I')
                self.note(('divmod', t.a))
        elif op == 'trunc':
            r = self.fun('$trunc', [t.a[0]], 'I')
            self.note(('trunc', t))
        elif op == 'sum':
            r = self.opaque(t)
            self.note(('sum', t))
        elif op == 'opq':
            r = self.c(t.a[0])
        else:
            raise Exception('conv ' + op)
        return r


MATH_AX = {}


def math_lemmas(t):
    """axioms for the mathematical functions of the trusted library contracts"""
    n = t.a[0]
    x = t.a[1] if len(t.a) > 1 else None
    if n == '$sqrt':
        return [implies(ge(x, 0), and_(ge(t, 0), eq(mul(t, t), x))), implies(gt(x, 0), gt(t, 0))]
    if n == '$cos' or n == '$sin':
        return [le(t, 1), ge(t, -1)]
    if n == '$floor':
        return [le(t, x), lt(x, add(t, ONE))]
    if n == '$pi':
        return [gt(t, Fraction(314159265, 100000000)), lt(t, Fraction(314159266, 100000000))]
    if n == '$exp':
        return [gt(t, 0)]
    return []


class Budget(Exception):
    pass


class Prover:
    hard = None

    def __init__(self, facts=(), timeout=4000):
        self.facts = list(facts)
        self.timeout = timeout
        self.cache = {}
        self.convs = {}
        self.imc = {}
        self.fic = {}
        self.sum_lemmas = True
        self.log = None
        self.deadline = None
        self.stored = []

    # ------------------------------------------------------------ lemmas
    def lemmas(self, k):
        kind = k[0]
        if kind == 'inv':
            t = k[1]
            x = t.a[0]
            return [implies(ne(x, 0), eq(mul(x, t), 1)), implies(gt(x, 0), gt(t, 0)), implies(lt(x, 0), lt(t, 0))]
        if kind == 'divmod':
            a, b = k[1]
            q, m = _mk('div', (a, b), 'I'), _mk('mod', (a, b), 'I')
            return [implies(gt(b, 0), and_(eq(add(mul(b, q), m), a), ge(m, 0), lt(m, b),
                                           implies(ge(a, 0), ge(q, 0))))]
        if kind == 'trunc':
            t = k[1]
            x = t.a[0]
            return [implies(ge(x, 0), and_(le(t, x), lt(x, add(t, ONE)), ge(t, 0))),
                    implies(lt(x, 0), and_(ge(t, x), lt(sub(t, ONE), x), le(t, 0)))]
        if kind == 'sq':
            return [ge(_mkpoly({k[1]: Fraction(1)}), 0)]
        return []

    def imul_lemmas(self, monos):
        """order lemmas between products sharing a factor"""
        out = []
        by = {}
        for m in monos:
            for i, (x, e) in enumerate(m):
                cof = m[:i] + (((x, e - 1),) if e > 1 else ()) + m[i + 1:]
                by.setdefault(x, {})[m] = _mkpoly({cof: Fraction(1)})
        C = self.imc
        for n, d in by.items():
            keys = tuple(d)[:14]
            items = [(m, _mkpoly({m: Fraction(1)}), d[m]) for m in keys]
            ext = items + [(None, n, ONE), (0, ZERO, ZERO)]
            n0 = ge(n, 0)
            for i in range(len(items)):
                m1, p1, q1 = items[i]
                for j in range(len(ext)):
                    if i == j:
                        continue
                    m2, p2, q2 = ext[j]
                    ck = (n, m1, m2)
                    r = C.get(ck)
                    if r is None:
                        r = [implies(and_(n0, le(q1, q2)), le(p1, p2)), implies(and_(n0, lt(q1, q2)), le(add(p1, n), p2))]
                        if j >= len(items):
                            r += [implies(and_(n0, ge(q1, q2)), ge(p1, p2)), implies(and_(n0, gt(q1, q2)), ge(p1, add(p2, n)))]
                        C[ck] = r
                    out += r
            # triples q1 <= q2 + q3 + c
            if len(items) <= 5:
                for i in range(len(items)):
                    for j in range(len(items)):
                        for k in range(j + 1, len(items)):
                            if i in (j, k): continue
                            m1, p1, q1 = items[i]; m2, p2, q2 = items[j]; m3, p3, q3 = items[k]
                            ck = (n, m1, m2, m3)
                            r = C.get(ck)
                            if r is None:
                                r = C[ck] = implies(and_(n0, le(q1, add(q2, q3))), le(p1, add(p2, p3)))
                            out.append(r)
        return out

    def sum_lems(self, sums):
        out = []
        for s in sums:
            bv, lo, hi, b = s.a
            out.append(implies(le(hi, lo), eq(s, ZERO)))
            if b.op == 'ite' or is_nonneg_count(b):
                if is_nonneg_count(b):
                    out.append(ge(s, ZERO))
                    if is_iv(b):
                        out.append(implies(ge(hi, lo), le(s, sub(hi, lo))))
        for s1, s2 in itertools.permutations(sums, 2):
            b1, l1, h1, e1 = s1.a
            b2, l2, h2, e2 = s2.a
            if e1 is e2 and b1 is b2 and l1 is l2:
                if is_nonneg_count(e1):
                    out.append(implies(and_(le(h1, h2), le(l1, h1)), le(s1, s2)))
                    out.append(implies(and_(lt(h1, h2), le(l1, h1)), le(add(s1, subst(e1, {b1: h1})), s2)))
                out.append(implies(and_(eq(h2, add(h1, ONE)), le(l1, h1)), eq(s2, add(s1, subst(e1, {b1: h1})))))
                out.append(implies(eq(h1, h2), eq(s1, s2)))
        return out

    # ------------------------------------------------------------ raw query
    def query(self, asm, goal, nl=False, timeout=None, want_model=False):
        """is asm => goal valid?  returns True / False(sat) / None(unknown)"""
        if self.deadline is not None and time.time() > self.deadline:
            return None
        if goal.op == 'and' and len(goal.a) == 0:
            return True
        if has_sum(goal) or any(has_sum(x) for x in asm):
            rules = []
            asm, goal = rewrite_eqs(asm, goal, rules)
        else:
            rules = ()
        conv = self.convs.get(nl)
        if conv is None or len(conv.memo) > 200000:
            conv = self.convs[nl] = Z3Conv()
            conv.nl = nl
        conv.begin()
        ground = list(asm) + [not_(goal)]
        zs = []
        done = set()
        seen = set()
        inst = set()
        pending = ground
        rounds = 0
        ninst = 0
        allmon = []
        sums = []
        allapps = []
        while pending and rounds < 5:
            newt = set()
            for t in pending:
                if t is TRUE or t in done:
                    continue
                if t is FALSE:
                    return True
                done.add(t)
                zs.append(conv.top(t))
                newt |= subterms_nobind(t, seen)
            nxt = []
            # fact instantiation
            apps = [t for t in newt if t.op == 'f']
            for t in apps:
                nxt += math_lemmas(t)
            if ninst < 600:
                for fct in self.facts:
                    if hasattr(fct, 't1'):
                        continue
                    if fct.trig is None:
                        # no usable trigger: instantiate at the integer variables of the query
                        for t in newt:
                            if t.op == 'v' and t.sort == 'I' and (id(fct), t) not in inst and not t.a[0].startswith('#'):
                                inst.add((id(fct), t))
                                nxt.append(subst(fct.body, {fct.vs[0]: t}))
                        continue
                    for t in apps:
                        if t.a[0] != fct.trig.a[0]:
                            continue
                        b = {}
                        r = match(fct.trig, t, fct.vs, b)
                        if r is None or len(b) < len(fct.vs):
                            continue
                        key = (fct, tuple(b[v] for v in fct.vs))
                        if key in inst:
                            continue
                        inst.add(key)
                        ninst += 1
                        g = self.fic.get(key)
                        if g is None:
                            g = self.fic[key] = subst(fct.body, b)
                        if r:
                            g = implies(and_(*[eq(x, y) for x, y in r]), g)
                        nxt.append(g)
                allapps += apps
                newset = set(apps)
                for fct in self.facts:
                    if not hasattr(fct, 't1'):
                        continue
                    for t in allapps:
                        if t.a[0] != fct.t1.a[0]:
                            continue
                        for u in allapps:
                            if u.a[0] != fct.t2.a[0] or not (t in newset or u in newset):
                                continue
                            b = {}
                            r = match(fct.t1, t, fct.vs, b)
                            if r is None:
                                continue
                            r2 = match(fct.t2, u, fct.vs, b)
                            if r2 is None or len(b) < len(fct.vs):
                                continue
                            key = (fct, tuple(b[v] for v in fct.vs))
                            if key in inst:
                                continue
                            inst.add(key)
                            g = self.fic.get(key)
                            if g is None:
                                g = self.fic[key] = subst(fct.body, b)
                            if r or r2:
                                g = implies(and_(*[eq(x, y) for x, y in r + r2]), g)
                            nxt.append(g)
            # lemma generation
            lem, conv.lem = conv.lem, []
            newm = False
            for k in lem:
                if k[0] == 'imul':
                    allmon.append(k[1])
                    newm = True
                elif k[0] == 'sum':
                    sums.append(k[1])
                    newm = True
                else:
                    nxt += self.lemmas(k)
            if newm and not nl:
                nxt += self.imul_lemmas(allmon)
            if newm and sums and self.sum_lemmas:
                nxt += self.sum_lems(sums[:12])
            for f in rules:
                nxt = [f(x) for x in nxt]
            pending = nxt
            rounds += 1
        for t in pending:      # leftovers of the last round
            if t is FALSE:
                return True
            if t not in done and t is not TRUE:
                zs.append(conv.top(t))
        s = z3.Solver()
        s.set('timeout', int(timeout or self.timeout))
        s.set('random_seed', 1)
        s.add(*zs)
        t0 = time.time()
        r = s.check()
        STATS['z3_calls'] += 1
        STATS['z3_time'] += time.time() - t0
        if r == z3.unsat:
            return True
        if r == z3.sat:
            if want_model:
                self.last_model = s.model()
            return False
        STATS['unknown'] += 1
        return None

    def entails(self, asm, c, timeout=1500):
        if c is TRUE: return True
        if c is FALSE: return False
        if self.hard is not None and time.time() > self.hard:
            raise Budget('time budget of the symbolic execution exhausted')
        key = (asm, c)
        r = self.cache.get(key)
        if r is not None:
            return r[0]
        flat = set()
        for x in asm:
            if x.op == 'and':
                flat.update(x.a)
            else:
                flat.add(x)
        if c in flat:
            r = True
        elif not_(c) in flat:
            r = False
        elif c.op == 'and':
            r = all(self.entails(asm, x, timeout) for x in c.a)
        else:
            r = self.query(self.relevant(asm, c), c, timeout=timeout) is True
        self.cache[key] = (r,)
        return r

    def relevant(self, asm, c):
        return asm

    # ------------------------------------------------------------ simplification
    def simp(self, asm, t, memo=None):
        """prune ites decided by the assumptions"""
        if memo is None:
            memo = {}

        def go(t, asm):
            key = (t, asm)
            r = memo.get(key)
            if r is not None:
                return r
            if t.op in ('c', 'v'):
                r = t
            elif not has_ite(t):
                r = t
            elif t.op == 'ite':
                c = go(t.a[0], asm)
                if c is TRUE or self.entails(asm, c):
                    r = go(t.a[1], asm)
                elif c is FALSE or self.entails(asm, not_(c)):
                    r = go(t.a[2], asm)
                else:
                    r = ite(c, go(t.a[1], ext(asm, c)), go(t.a[2], ext(asm, not_(c))))
            elif t.op == 'sum':
                bv, lo, hi, b = t.a
                nv = fresh('k')
                lo, hi = go(lo, asm), go(hi, asm)
                b2 = subst(b, {bv: nv})
                b3 = go(b2, ext(asm, and_(le(lo, nv), lt(nv, hi))))
                r = sum_(nv, lo, hi, b3)
            else:
                ch = children(t)
                n = [go(x, asm) for x in ch]
                r = t if all(x is y for x, y in zip(ch, n)) else rebuild(t, n)
            memo[key] = r
            return r
        return go(t, asm)

    # ------------------------------------------------------------ goals
    def prove(self, asm, goal, depth=0):
        """True if asm |- goal is established"""
        asm = tuple(x for x in asm if x is not TRUE)
        if goal is TRUE:
            return True
        if goal.op == 'and':
            return all(self.prove(asm, g, depth) for g in goal.a)
        if goal.op == 'or' and not any(has_sum(x) for x in goal.a):
            return self.q(asm, goal)
        if goal.op == 'or':
            # prove some disjunct assuming the negation of the sum-free ones
            a2 = asm
            rest = []
            for x in goal.a:
                if has_sum(x):
                    rest.append(x)
                else:
                    a2 = ext(a2, not_(x))
            if len(rest) == 1:
                return self.prove(a2, rest[0], depth)
            return self.q(asm, goal)
        if goal.op == 'eq':
            return self.zero(asm, goal.a[0], depth)
        return self.q(asm, goal) or (has_ite(goal) and self.q(asm, self.simp(asm, goal)))

    def q(self, asm, goal):
        if goal is TRUE:
            return True
        r = self.query(asm, goal)
        if r is True:
            return True
        if has_nonlin(goal) or any(has_nonlin(a) for a in asm):
            r = self.query(asm, goal, nl=True, timeout=min(self.timeout, 3000))
            if r is True:
                return True
        return False

    def rewrite_stored(self, asm, d):
        """replace reads of an array by the value a known iteration stored there"""
        names = {x[0] for x in self.stored}
        apps = [t for t in subterms_nobind(d, set()) if t.op == 'f' and t.a[0] in names]
        vs = [t for a in (d,) + asm for t in subterms_nobind(a, set()) if t.op == 'v' and t.sort == 'I' and not t.a[0].startswith('#')]
        vs = list(dict.fromkeys(vs))[:8]
        rep = {}
        for a in apps:
            for nm, bv, g, loc, val in self.stored:
                if nm != a.a[0] or a in rep or len(bv) > 1:
                    continue
                for w in vs:
                    m = {bv[0]: w}
                    if self.entails(asm, and_(subst(g, m), *[eq(subst(l, m), x) for l, x in zip(loc, a.a[1:])])):
                        rep[a] = subst(val, m)
                        break
        if not rep:
            return d
        return map_apps(d, lambda t: rep.get(t), {})

    def zero(self, asm, d, depth=0):
        if const_val(d) == 0:
            return True
        if depth == 0 and has_sum(d) and has_ite(d) and self.decided(asm, d):
            return True
        if self.stored and depth == 0:
            d = self.rewrite_stored(asm, d)
            if const_val(d) == 0:
                return True
        if not has_sum(d):
            r = self.query(asm, eq(d, ZERO))
            if r is True:
                return True
        if has_ite(d):
            d2 = self.simp(asm, d)
            if const_val(d2) == 0:
                return True
            d = d2
        if not has_sum(d):
            return self.q(asm, eq(d, ZERO))
        d = self.unify_sums(asm, d, depth)
        if const_val(d) == 0:
            return True
        # case split on top-level conditions
        c = split_cond(d)
        if c is not None and depth < 8:
            ok = True
            for cc in (c, not_(c)):
                a2 = ext(asm, cc)
                if self.query(asm, not_(cc), timeout=1000) is True:
                    continue        # infeasible case
                d2 = assume_cond(d, c, cc is c)
                if not self.zero(a2, d2, depth + 1):
                    ok = False
                    break
            if ok:
                return True
            return False
        # plain arithmetic with the sums opaque
        if self.query(asm, eq(d, ZERO), timeout=1500) is True:
            return True
        return self.sums_zero(asm, d, depth)

    def decided(self, asm, d, n=3):
        """syntactically zero once conditionals are in decision form, splitting on conditions without bound variables"""
        d = decision(d)
        if const_val(d) == 0:
            return True
        cs = closed_conds(d) if n else ()
        for c in cs[:1]:
            for val in (True, False):
                q = c if val else not_(c)
                if not_(q) in asm:
                    continue
                d2 = assume_cond(d, c, val)
                if q.op == 'eq':
                    _, g = rewrite_eqs((q,), eq(d2, ZERO), [])
                    if g is TRUE:
                        continue
                    if g.op != 'eq':
                        return False
                    d2 = g.a[0]
                if not self.decided(ext(asm, q), d2, n - 1):
                    return False
            return True
        return False

    def unify_sums(self, asm, d, depth):
        """sums inside conditions and denominators: replace provably equal ones by a single representative"""
        bs = buried(d)
        if len(bs) < 2 or len(bs) > 6 or depth > 3:
            return d
        rep = {}
        for i, x in enumerate(bs):
            for y in bs[:i]:
                if y in rep or x.sort != y.sort or len(binders(x)) != len(binders(y)):
                    continue
                if self.sums_zero(asm, sub(x, y), depth + 4):
                    rep[x] = y
                    break
        return replace_terms(d, rep) if rep else d

    def sums_zero(self, asm, d, depth):
        if depth > 14:
            return False
        rest, leaves = flatten(d)
        if leaves is None or not leaves:
            return False
        # delta elimination
        L2 = []
        for bs, term in leaves:
            bs, term = delta(bs, term)
            if not bs:
                rest = add(rest, term)
            else:
                L2.append((bs, term))
        if const_val(rest) != 0:
            if not self.zero(asm, rest, depth + 1) if L2 else not self.zero(asm, rest, depth + 1):
                return False
        groups = {}
        for bs, term in L2:
            groups.setdefault(len(bs), []).append((bs, term))
        for n, ls in groups.items():
            if not self.group_zero(asm, n, ls, depth):
                return False
        return True

    def group_zero(self, asm, n, ls, depth):
        ks = [fresh('k') for _ in range(n)]

        def inst(bs, term, perm):
            m = {b[0]: ks[perm[i]] for i, b in enumerate(bs)}
            dom = and_(*[and_(le(subst(lo, m), subst(v, m)), lt(subst(v, m), subst(hi, m))) for v, lo, hi in bs])
            return dom, subst(term, m)
        ident = tuple(range(n))
        perms = [ident] + [p for p in itertools.permutations(range(n)) if p != ident]
        doms, terms = [], []
        used = []
        keyset = {}
        for bs, term in ls:
            choice = ident
            if n > 1 and used:
                best = None
                for p in perms:
                    dm, tt = inst(bs, term, p)
                    if skeleton(tt) & keyset.keys():
                        best = p
                        break
                if best is not None:
                    choice = best
            dm, tt = inst(bs, term, choice)
            for s in skeleton(tt):
                keyset[s] = 1
            used.append((dm, tt))
        alld = []
        for dm, tt in used:
            if dm not in alld:
                alld.append(dm)
        if len(alld) == 1:
            tot = add(ZERO, *[tt for dm, tt in used])
            if const_val(tot) == 0 or self.zero(ext(asm, alld[0]), tot, depth + 1):
                return True
            return False
        tot = add(ZERO, *[mul(iv(dm), tt) for dm, tt in used])
        if self.zero(asm, tot, depth + 1):
            return True
        if n > 1:
            # try every permutation of each later leaf against the first ones
            import itertools as it
            if len(ls) <= 3:
                for combo in it.product(perms, repeat=len(ls) - 1):
                    us = [inst(*ls[0], ident)] + [inst(*ls[i + 1], combo[i]) for i in range(len(ls) - 1)]
                    tot = add(ZERO, *[mul(iv(dm), tt) for dm, tt in us])
                    if self.zero(asm, tot, depth + 2):
                        return True
        return False


def ext(asm, c):
    if c is TRUE:
        return asm
    cs = c.a if c.op == 'and' else (c,)
    out = list(asm)
    for x in cs:
        if x not in out:
            out.append(x)
    return tuple(out)


def rewrite_eqs(asm, goal, rules):
    """use the equations between atoms as rewrite rules (so that equal sums become syntactically equal)"""
    for _ in range(6):
        rule = None
        for q in asm:
            if q.op != 'eq':
                continue
            d = q.a[0]
            if d.op != 'p' or len(d.a) != 2:
                continue
            (m1, c1), (m2, c2) = d.a
            if c1 + c2 != 0 or abs(c1) != 1 or len(m1) != 1 or len(m2) != 1 or m1[0][1] != 1 or m2[0][1] != 1:
                continue
            x, y = m1[0][0], m2[0][0]
            if x.sort != y.sort or x.op not in ('f', 'v') or y.op not in ('f', 'v'):
                continue
            if x.id < y.id:
                x, y = y, x
            if x in subterms(y):
                continue
            if x.op == 'v':
                f = lambda t, x=x, y=y: subst(t, {x: y})
            else:
                memo = {}
                f = lambda t, x=x, y=y, memo=memo: map_apps(t, lambda a: y if a is x else None, memo)
            new = tuple(f(t) if t is not q else t for t in asm)
            g2 = f(goal)
            if g2 is not goal or any(a is not b for a, b in zip(new, asm)):
                rule = True
                rules.append(f)
                asm, goal = tuple(t for t in new if t is not TRUE), g2
                break
        if rule is None:
            break
    return asm, goal


_hs = {}


def has_sum(t):
    r = _hs.get(t)
    if r is None:
        r = t.op == 'sum' or any(has_sum(c) for c in children(t))
        _hs[t] = r
    return r


_hi = {}


def has_ite(t):
    r = _hi.get(t)
    if r is None:
        r = t.op == 'ite' or any(has_ite(c) for c in children(t))
        _hi[t] = r
    return r


def has_nonlin(t):
    for x in subterms(t):
        if x.op == 'p':
            for m, c in x.a:
                if sum(e for _, e in m) > 1:
                    return True
        if x.op in ('inv',):
            return True
    return False


def is_nonneg_count(b):
    if const_val(b) is not None:
        return const_val(b) >= 0
    if b.op == 'ite':
        return is_nonneg_count(b.a[1]) and is_nonneg_count(b.a[2])
    if b.op == 'p':
        return all(c >= 0 and all(e % 2 == 0 or is_nonneg_count(x) for x, e in m) for m, c in b.a)
    if b.op == 'f' and b.a[0] in NONNEG:
        return True
    if b.op == 'sum':
        return is_nonneg_count(b.a[3])
    return False


NONNEG = {'$sqrt', '$exp', '$abs'}


def subterms_nobind(t, seen):
    """ground subterms (skip the inside of sums, whose bound variables are not ground)"""
    out = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        out.add(x)
        if x.op == 'sum':
            st.extend((x.a[1], x.a[2]))
        else:
            st.extend(children(x))
    return out


def split_cond(d):
    """a condition of an ite outside sums whose branches matter (contain sums or guard them)"""
    best = None
    st = [d]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            return x.a[0] if not has_ite(x.a[0]) else (split_cond(x.a[0]) or x.a[0])
        if x.op == 'sum':
            st.extend((x.a[1], x.a[2]))
            continue
        st.extend(children(x))
    return best


def assume_cond(t, c, val):
    memo = {}
    nc = not_(c)

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t is c:
            r = B(val)
        elif t is nc:
            r = B(not val)
        elif t.op in ('c', 'v'):
            r = t
        elif t.op == 'sum':
            bv, lo, hi, b = t.a
            b2 = go(b)
            l2, h2 = go(lo), go(hi)
            if b2 is b and l2 is lo and h2 is hi:
                r = t
            else:
                nv = fresh('b')
                r = sum_(nv, l2, h2, subst(b2, {bv: nv}))
        else:
            ch = children(t)
            n = [go(x) for x in ch]
            r = t if all(x is y for x, y in zip(ch, n)) else rebuild(t, n)
        memo[t] = r
        return r
    return go(t)


def buried(d):
    """outermost sums in non-linear positions"""
    out, seen = [], set()
    st = [(d, False)]
    while st:
        x, inside = st.pop()
        if (x, inside) in seen or not has_sum(x):
            continue
        seen.add((x, inside))
        if x.op == 'sum':
            if inside and x not in out:
                out.append(x)
            continue
        if x.op == 'p':
            for m, c in x.a:
                st.extend((y, inside) for y, e in m)
        elif x.op == 'ite':
            st.append((x.a[0], True))
            st.extend((y, inside) for y in x.a[1:])
        else:
            st.extend((y, True) for y in children(x))
    return sorted(out, key=lambda t: t.id)


def binders(t):
    out = []
    while t.op == 'sum':
        out.append(t.a[0])
        t = t.a[3]
    return out


def replace_terms(t, rep):
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t in rep:
            r = rep[t]
        elif t.op in ('c', 'v', 'sum') or not has_sum(t):
            r = t
        else:
            ch = children(t)
            n = [go(x) for x in ch]
            r = t if all(x is y for x, y in zip(ch, n)) else rebuild(t, n)
        memo[t] = r
        return r
    return go(t)


def flatten(d):
    """d = rest + sum of leaves (binders, term) ; term has no top-level sums"""
    rest = ZERO
    leaves = []
    for m, c in _poly(d).items():
        ss = [(x, e) for x, e in m if x.op == 'sum']
        its = [(x, e) for x, e in m if x.op == 'ite' and (has_sum(x.a[1]) or has_sum(x.a[2]))]
        if its:
            x, e = its[0]
            others = _mkpoly({tuple(y for y in m if y[0] is not x): c})
            cnd, a, b = x.a
            ex = add(mul(iv(cnd), a), mul(iv(not_(cnd)), b))
            r2, l2 = flatten(mul(others, *([ex] * e)))
            if l2 is None:
                return rest, None
            rest = add(rest, r2)
            leaves += l2
            continue
        if not ss:
            rest = add(rest, _mkpoly({m: c}))
            continue
        # take the first sum; the others remain as factors (handled recursively)
        x, e = ss[0]
        others = []
        for y, f in m:
            if y is x:
                if f > 1:
                    others.append((y, f - 1))
            else:
                others.append((y, f))
        co = _mkpoly({tuple(others): c})
        bv, lo, hi, b = x.a
        nv = fresh('s')
        body = mul(co, subst(b, {bv: nv}))
        r2, l2 = flatten(body)
        if l2 is None:
            return rest, None
        if const_val(r2) != 0:
            leaves.append(([(nv, lo, hi)], r2))
        for bs, term in l2:
            leaves.append(([(nv, lo, hi)] + bs, term))
    return rest, leaves


def delta(bs, term):
    """eliminate binders fixed by an equality bracket: only for single monomials"""
    if term.op != 'p' or len(term.a) != 1:
        items = _poly(term)
        if len(items) != 1:
            return bs, term
    (m, c), = _poly(term).items()
    for x, e in m:
        if not is_iv(x):
            continue
        cnd = x.a[0]
        cs = cnd.a if cnd.op == 'and' else (cnd,)
        for q in cs:
            if q.op != 'eq':
                continue
            for k, (v, lo, hi) in enumerate(bs):
                if v not in q.fv:
                    continue
                p = _poly(q.a[0])
                co = p.get(((v, 1),))
                if co is None or abs(co) != 1:
                    continue
                rest = _mkpoly({mm: cc for mm, cc in p.items() if mm != ((v, 1),)})
                if v in rest.fv:
                    continue
                # rest must not depend on binders inside k whose ranges depend on v ... substitute everywhere
                val = scale(rest, Fraction(-1, co))
                inner = [b[0] for b in bs[k + 1:]]
                if any(b in val.fv for b in inner):
                    continue
                mp = {v: val}
                dom = and_(le(lo, val), lt(val, hi))
                nb = bs[:k] + [(w, subst(l, mp), subst(h, mp)) for w, l, h in bs[k + 1:]]
                nt = mul(iv(dom), subst(term, mp))
                if nt.op != 'p' and nt.op != 'ite':
                    return nb, nt
                return delta(nb, nt) if len(_poly(nt)) == 1 else (nb, nt)
    return bs, term


def closed_conds(d):
    """atomic conditions inside sums that do not depend on bound variables or sums"""
    out, seen = {}, set()

    def go(t, inside):
        if (t, inside) in seen or t.op in ('c', 'v'):
            return
        seen.add((t, inside))
        if t.op == 'ite' and inside:
            s = set()
            atoms_of(t.a[0], s)
            for c in s:
                if not has_sum(c) and not any(v.a[0].startswith('#') for v in c.fv):
                    out[c] = 1
        for x in children(t):
            go(x, inside or t.op == 'sum')
    go(d, False)
    return sorted(out, key=lambda c: (c.op != 'eq', c.id))


def atoms_of(c, out):
    if c.op in ('and', 'or', 'not'):
        for x in c.a:
            atoms_of(x, out)
    elif c.op != 'c':
        n = not_(c)
        out.add(n if n.op != 'not' and n.id < c.id else c)


def decision(t, limit=6, memo=None):
    """t with every tree of conditionals over few atomic conditions brought to ordered-decision-tree form"""
    memo = {} if memo is None else memo

    def tree_atoms(t, out):
        if t.op == 'ite':
            atoms_of(t.a[0], out)
            tree_atoms(t.a[1], out)
            tree_atoms(t.a[2], out)

    def holds(c, asg):
        if c.op == 'c':
            return c is TRUE
        if c.op == 'not':
            return not holds(c.a[0], asg)
        if c.op == 'and':
            return all(holds(x, asg) for x in c.a)
        if c.op == 'or':
            return any(holds(x, asg) for x in c.a)
        r = asg.get(c)
        return asg[not_(c)] ^ True if r is None else r

    def leaf(t, asg):
        while t.op == 'ite':
            t = t.a[1] if holds(t.a[0], asg) else t.a[2]
        return t

    def build(t, ats, i, asg):
        if i == len(ats):
            return leaf(t, asg)
        a = ats[i]
        x = build(t, ats, i + 1, {**asg, a: True})
        y = build(t, ats, i + 1, {**asg, a: False})
        return x if x is y else ite(a, x, y)

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t.op in ('c', 'v') or not has_ite(t):
            r = t
        elif t.op == 'sum':
            bv, lo, hi, b = t.a
            r = sum_(bv, go(lo), go(hi), go(b))
        else:
            ch = children(t)
            n = [go(x) for x in ch]
            r = t if all(x is y for x, y in zip(ch, n)) else rebuild(t, n)
            if r.op == 'ite':
                out = set()
                tree_atoms(r, out)
                if len(out) <= limit:
                    r = build(r, sorted(out, key=lambda x: x.id), 0, {})
        memo[t] = r
        return r
    return go(t)


def skeleton(t):
    """syntactic keys of the monomials of t without brackets and coefficients"""
    out = set()
    for m, c in _poly(t).items():
        out.add(tuple((x, e) for x, e in m if not is_iv(x)))
    return out

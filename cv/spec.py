"""Contracts: set-up of a symbolic pre-state and checking of postconditions."""
import time, traceback, os
from .terms import *
from .engine import *
from .prover import Prover, Fact, STATS, ext, Budget
from .libc import LIB, gsl_get, gsl_size
from . import cast

REG = {}


class Result:
    def __init__(self, name):
        self.name, self.obls, self.error, self.time, self.funcs, self.ext, self.loops = name, [], None, 0, [], [], 0


class Spec:
    """one function under contract (one case of it)"""
    def __init__(self, fn, name=None, lens=None, pre=None, facts=None, post=None, opts=None, contracts=None, args=None,
                 error_ok=None, timeout=6000, files=None, slow=False, cost=1):
        self.slow, self.cost = slow, cost      # slow: thorough tier only
        self.fn, self.name = fn, name or fn
        self.lens, self.pre, self.facts, self.post = lens or {}, pre, facts, post
        self.opts, self.contracts, self.args, self.error_ok = opts or {}, contracts or {}, args or {}, error_ok
        self.timeout = timeout

    obl_time = 60
    exec_time = 300

    def run(self, funcs, structs, globs, kinds=('post', 'mem', 'race', 'err')):
        t0 = time.time()
        res = Result(self.name)
        try:
            self.run1(funcs, structs, globs, res, kinds)
        except (Unsupported, Abort, RecursionError, Budget) as ex:
            res.error = '%s: %s' % (type(ex).__name__, ex)
            res.tb = traceback.format_exc()
        res.time = time.time() - t0
        return res

    def engine(self, funcs, structs, globs):
        con = dict(LIB)
        con.update(self.contracts)
        con.pop(self.fn, None)
        P = Prover(timeout=self.timeout)
        eng = Engine(funcs, structs, globs, con, self.fn, P, self.lens, dict(self.opts))
        return eng

    def run1(self, funcs, structs, globs, res, kinds):
        if self.fn not in funcs:
            raise Unsupported('function %s not found in the current source' % self.fn)
        eng = self.engine(funcs, structs, globs)
        fn = funcs[self.fn]
        st = State({}, {}, (), ())
        self.av = {}
        for pid, pn, pt in fn.params:
            if pn in self.args:
                v = self.args[pn]
                v = v(eng, st) if callable(v) else v
                if isinstance(v, (int, float)):
                    v = num(v)
            elif norm_ty(pt).endswith('*'):
                v = Ptr(eng.param_obj(pn, 0, elem_ty(pt)))
            elif is_cx_ty(pt):
                v = Cx(app(pn + '.re', (), 'R'), app(pn + '.im', (), 'R'))
            elif is_int_ty(pt):
                v = app(pn, (), 'I')
            else:
                v = app(pn, (), 'R')
            st.env[pid] = v
            self.av[pn] = v
        if self.pre:
            for c in self.pre(eng):
                st.assume(c)
        if self.facts:
            eng.facts += list(self.facts(eng))
        eng.P.facts = list(eng.facts)
        # vacuity: the precondition must be satisfiable (not refutable)
        if eng.P.entails(st.pc, FALSE_Q):
            raise Unsupported('contradictory precondition')
        pre = st.copy()
        eng.P.hard = time.time() + self.exec_time
        eng.pre_state = pre
        pend = []
        eng.pending = pend
        r, exits = eng.stmt(st, fn.body)
        exits = exits + [x for x in eng.pending if x not in exits]
        outs = [x for x in exits if x.kind == 'return']
        errs = [x for x in exits if x.kind == 'error']
        if r is not None:
            outs.append(Exit('return', r, UNDEF))
        n = len(eng.obls)
        if self.post:
            self.post_obl(eng, pre, outs, errs)
        for x in errs:
            if self.error_ok is None:
                eng.oblige(x.st, FALSE_Q, 'no error is reported for valid input', 'err', 0)
            else:
                g = self.error_ok(eng, x)
                eng.oblige(x.st, g, 'errors only under the documented conditions', 'err', 0)
        res.nloops = len(eng.nloops)
        res.funcs = [self.fn] + sorted(eng.calls)
        res.ext = sorted(eng.ext_used)
        for o in eng.obls:
            if o.kind not in kinds:
                continue
            t1 = time.time()
            eng.P.facts = eng.facts + list(o.facts)
            eng.P.deadline = t1 + self.obl_time
            eng.P.hard = t1 + 2 * self.obl_time
            try:
                o.status = bool(eng.P.prove(o.asm, o.goal))
            except Budget:
                o.status = False
            eng.P.deadline = eng.P.hard = None
            o_t = time.time() - t1
            res.obls.append((o.name, o.kind, o.line, o.status, o_t, o, 'normaliser' if o.goal is TRUE else 'z3'))
        res.eng = eng
        if not outs:
            raise Unsupported('no path returns')

    def post_obl(self, eng, pre, outs, errs):
        for x in outs:
            q = Q(eng, x.st, x.val, pre)
            for item in self.post(q):
                name, goal = item[0], item[1]
                asm = item[2] if len(item) > 2 else TRUE
                s = x.st.copy()
                s.assume(asm)
                eng.oblige(s, goal, name, 'post', 0)


class Q:
    """query interface on the final state"""
    def __init__(self, eng, st, ret, pre):
        self.eng, self.st, self.ret, self.pre = eng, st, ret, pre

    def at(self, asm):
        s = self.st.copy()
        s.assume(asm)
        return Q(self.eng, s, self.ret, self.pre)

    def rd(self, objname, *loc, fld='', ty='double'):
        """final value of a parameter array at a location"""
        o = self.eng.objs.get(objname) or self.eng.param_obj(objname, len(loc) - 1, ty)
        c = self.eng.content(self.st, o, fld, ty)
        return self.eng.eval_content(self.st, c, tuple(num(x) for x in loc))

    def fld(self, p, name, ty='int'):
        return self.eng.load_fld(self.st, Ptr(p.obj, p.idx, p.off, name), name, ty)

    def idx(self, p, i, ty='double'):
        """p[i]"""
        p = self.eng.simp_ptr(self.st, p)
        q = self.eng.padd(self.st, p, num(i))
        if is_cx_ty(ty):
            return Cx(self.eng.load_num(self.st, q, 're'), self.eng.load_num(self.st, q, 'im'))
        q = self.eng.simp_ptr(self.st, q)
        return self.eng.load_fld(self.st, q, q.fld, ty)

    def length(self, p):
        return p.obj.length(p.idx)

    def gsl(self, p, *ij):
        return gsl_get(self.eng, self.st, p, tuple(num(x) for x in ij))


def v(name, sort='I'):
    return app(name, (), sort)


def rng(x, lo, hi):
    return and_(le(lo, x), lt(x, hi))

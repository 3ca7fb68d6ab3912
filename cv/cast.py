"""Mechanical extraction of the C functions under verification.

On every run the current text of /repo/src/*.c is parsed by clang
(-fopenmp -ast-dump=json) and each function body is converted, node by node, to
the small tree below.  Nothing is rewritten by hand; what the extraction drops
is listed in DESIGN.md (comments, storage classes, numeric width of arithmetic
types, and the OpenMP scheduling clauses).
"""
import json, os, subprocess, sys
from concurrent.futures import ProcessPoolExecutor

REPO = os.environ.get('NMT_REPO', '/repo')


class N:
    __slots__ = ('k', 'ty', 'ch', 'a', 'line', 'uid')
    _uid = 0

    def __init__(self, k, ty, ch, a, line):
        self.k, self.ty, self.ch, self.a, self.line = k, ty, ch, a, line
        N._uid += 1
        self.uid = N._uid

    def __repr__(self):
        return f"{self.k}<{self.ty}>{self.a}({', '.join(map(repr, self.ch))})"

    def walk(self):
        yield self
        for c in self.ch:
            if c is not None:
                yield from c.walk()


class Func:
    def __init__(self, name, ret, params, body, file, line):
        self.name, self.ret, self.params, self.body = name, ret, params, body
        self.file, self.line = file, line


def _ty(d):
    t = d.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType') or ''


class Conv:
    def __init__(self):
        self.line = 0

    def loc(self, d):
        r = d.get('range', {}).get('begin', {})
        for rr in (r, r.get('expansionLoc', {}), r.get('spellingLoc', {})):
            if 'line' in rr:
                self.line = rr['line']

    def st(self, d):
        if d is None or not d.get('kind'):
            return None
        self.loc(d)
        ln = self.line
        k = d['kind']
        inner = d.get('inner', [])
        ty = _ty(d)
        if k in ('ParenExpr', 'ConstantExpr', 'FullComment', 'ExprWithCleanups'):
            return self.st(inner[0])
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            return N('Cast', ty, [self.st(inner[0])], d.get('castKind'), ln)
        if k == 'IntegerLiteral':
            return N('Int', ty, [], int(d['value']), ln)
        if k == 'CharacterLiteral':
            return N('Int', ty, [], int(d['value']), ln)
        if k == 'FloatingLiteral':
            return N('Flt', ty, [], d['value'], ln)
        if k == 'StringLiteral':
            return N('Str', ty, [], d.get('value'), ln)
        if k == 'PredefinedExpr':
            return N('Str', ty, [], d.get('name', ''), ln)
        if k == 'ImaginaryLiteral':
            return N('Imag', ty, [self.st(inner[0])], None, ln)
        if k == 'DeclRefExpr':
            r = d['referencedDecl']
            return N('Ref', ty, [], (r['kind'], r['id'], r['name']), ln)
        if k == 'MemberExpr':
            return N('Mem', ty, [self.st(inner[0])], (d['name'], d.get('isArrow', False)), ln)
        if k == 'ArraySubscriptExpr':
            return N('Idx', ty, [self.st(inner[0]), self.st(inner[1])], None, ln)
        if k == 'UnaryOperator':
            return N('Un', ty, [self.st(inner[0])], (d['opcode'], d.get('isPostfix', False)), ln)
        if k == 'BinaryOperator':
            if d['opcode'] == '=':
                return N('Asg', ty, [self.st(inner[0]), self.st(inner[1])], None, ln)
            return N('Bin', ty, [self.st(inner[0]), self.st(inner[1])], d['opcode'], ln)
        if k == 'CompoundAssignOperator':
            return N('CAsg', ty, [self.st(inner[0]), self.st(inner[1])],
                     (d['opcode'][:-1], (d.get('computeResultType') or {}).get('qualType', ty)), ln)
        if k == 'ConditionalOperator':
            return N('Cond', ty, [self.st(x) for x in inner], None, ln)
        if k == 'CallExpr':
            return N('Call', ty, [self.st(x) for x in inner], None, ln)
        if k == 'UnaryExprOrTypeTraitExpr':
            at = d.get('argType')
            t = (at.get('desugaredQualType') or at.get('qualType')) if at else _ty(inner[0])
            return N('Sizeof', ty, [], t, ln)
        if k == 'InitListExpr':
            return N('Init', ty, [self.st(x) for x in inner], None, ln)
        if k == 'ImplicitValueInitExpr':
            return N('Int', ty, [], 0, ln)
        if k == 'CompoundStmt':
            return N('Block', '', [self.st(x) for x in inner], None, ln)
        if k == 'DeclStmt':
            out = []
            for x in inner:
                self.loc(x)
                if x['kind'] == 'VarDecl':
                    ini = [self.st(y) for y in x.get('inner', []) if y.get('kind') and 'Comment' not in y['kind']]
                    out.append(N('Var', _ty(x), ini[:1], (x['id'], x.get('name', ''), x.get('storageClass')), self.line))
            return N('Decls', '', out, None, ln)
        if k == 'IfStmt':
            ch = [self.st(x) for x in inner]
            if len(ch) == 2:
                ch.append(None)
            return N('If', '', ch, None, ln)
        if k == 'ForStmt':
            # init, condvar, cond, inc, body
            ch = [self.st(x) for x in inner]
            return N('For', '', [ch[0], ch[2], ch[3], ch[4]], None, ln)
        if k == 'WhileStmt':
            ch = [self.st(x) for x in inner]
            return N('While', '', ch[-2:], None, ln)
        if k == 'DoStmt':
            ch = [self.st(x) for x in inner]
            return N('Do', '', ch, None, ln)
        if k == 'ReturnStmt':
            return N('Ret', '', [self.st(x) for x in inner], None, ln)
        if k == 'BreakStmt':
            return N('Break', '', [], None, ln)
        if k == 'ContinueStmt':
            return N('Continue', '', [], None, ln)
        if k == 'NullStmt':
            return N('Block', '', [], None, ln)
        if k == 'SwitchStmt':
            ch = [self.st(x) for x in inner]
            return N('Switch', '', ch, None, ln)
        if k in ('CaseStmt', 'DefaultStmt'):
            ch = [self.st(x) for x in inner]
            return N('Case' if k == 'CaseStmt' else 'Default', '', ch, None, ln)
        if k.startswith('OMP') and k.endswith('Directive'):
            # last child that is a statement; clauses carry reduction info
            body = None
            red = []
            for x in inner:
                kk = x.get('kind', '')
                if kk == 'CapturedStmt':
                    body = self.captured(x)
                elif kk.endswith('Clause'):
                    if 'Reduction' in kk:
                        red.append(x)
                elif kk:
                    b = self.st(x)
                    if b is not None:
                        body = b
            name = k[3:-9]
            return N('Omp', '', [body], (name, bool(red)), ln)
        if k == 'CapturedStmt':
            return self.captured(d)
        if k == 'StmtExpr':
            return N('StmtExpr', ty, [self.st(x) for x in inner], None, ln)
        return N('?' + k, ty, [], None, ln)

    def captured(self, d):
        cd = [x for x in d['inner'] if x['kind'] == 'CapturedDecl'][0]
        return self.st(cd['inner'][0])


def parse_file(path, extra=()):
    inc = ['-I' + os.path.join(REPO, 'src'), '-I' + REPO, '-I' + os.path.join(REPO, '_deps/include')]
    r = subprocess.run(['clang', '-fopenmp', '-Xclang', '-ast-dump=json', '-fsyntax-only', '-w', *inc,
                        '-I' + os.path.join(os.path.dirname(__file__), 'fallback'), *extra, path],
                       capture_output=True)
    if r.returncode != 0:
        raise RuntimeError('clang cannot parse %s:\n%s' % (path, r.stderr.decode()[:2000]))
    ast = json.loads(r.stdout)
    funcs, structs, globs, tdefs = {}, {}, {}, {}
    conv = Conv()
    recs = {}
    for d in ast['inner']:
        conv.loc(d)
        k = d['kind']
        if k == 'RecordDecl' and d.get('completeDefinition'):
            recs[d['id']] = d
            fields = [(x['name'], _ty(x)) for x in d.get('inner', []) if x['kind'] == 'FieldDecl' and 'name' in x]
            if d.get('name'):
                structs[d['name']] = fields
            last = fields
        elif k == 'TypedefDecl':
            # typedef struct {...} name;
            tdefs[d['name']] = _ty(d)
            for x in d.get('inner', []):
                o = x.get('ownedTagDecl') or (x.get('decl') if x.get('kind') in ('RecordType', 'ElaboratedType') else None)
                if o and o['id'] in recs:
                    rd = recs[o['id']]
                    structs[d['name']] = [(y['name'], _ty(y)) for y in rd.get('inner', [])
                                          if y['kind'] == 'FieldDecl' and 'name' in y]
        elif k == 'FunctionDecl':
            body = [c for c in d.get('inner', []) if c.get('kind') == 'CompoundStmt']
            if body and d.get('name'):
                params = [(c['id'], c.get('name', ''), _ty(c)) for c in d['inner'] if c['kind'] == 'ParmVarDecl']
                ln = conv.line
                funcs[d['name']] = (d, params, ln)
        elif k == 'VarDecl':
            globs[d['name']] = d
    out = {}
    for n, (d, params, ln) in funcs.items():
        # only functions from /repo are converted (system headers contain inline ones)
        body = [c for c in d['inner'] if c.get('kind') == 'CompoundStmt'][0]
        conv.line = ln
        try:
            b = conv.st(body)
        except Exception as e:      # outside the subset: function is reported as unsupported if needed
            b = N('?' + repr(e), '', [], None, ln)
        out[n] = Func(n, _ty(d).split('(')[0].strip(), params, b, path, ln)
    gl = {}
    for n, d in globs.items():
        ini = [x for x in d.get('inner', []) if x.get('kind') and 'Comment' not in x['kind']]
        if ini:
            try:
                gl[n] = (d['id'], _ty(d), conv.st(ini[0]))
            except Exception:
                pass
        else:
            gl[n] = (d['id'], _ty(d), None)
    return out, structs, gl


_cache = {}


def load_all(files=None):
    """All functions of the library, extracted from the current tree."""
    src = os.path.join(REPO, 'src')
    fs = sorted(f for f in os.listdir(src) if f.endswith('.c'))
    if files:
        fs = [f for f in fs if f in files]
    funcs, structs, globs = {}, {}, {}
    sys.setrecursionlimit(100000)
    if len(fs) == 1:
        res = [parse_file(os.path.join(src, fs[0]))]
    else:
        with ProcessPoolExecutor(8, initializer=sys.setrecursionlimit, initargs=(100000,)) as ex:
            res = list(ex.map(parse_file, [os.path.join(src, f) for f in fs]))
    count = {}
    for fn, st, gl in res:
        for n, f in fn.items():
            if f.file.startswith(REPO) or True:
                count[n] = count.get(n, 0) + 1
    for fn, st, gl in res:
        # static functions of the same name in several files
        dup = [n for n in fn if count[n] > 1 and not n.startswith('__')]
        for n in dup:
            f = fn.pop(n)
            q = n + '@' + os.path.basename(f.file)
            f.name = q
            fn[q] = f
            collisions.add(q)
        if dup:
            done = set()
            for f in fn.values():
                for x in f.body.walk():
                    if x.k == 'Ref' and x.a[0] == 'FunctionDecl' and x.a[2] in dup and id(x) not in done:
                        done.add(id(x))
                        x.a = (x.a[0], x.a[1], x.a[2] + '@' + os.path.basename(f.file))
        funcs.update(fn)
        structs.update(st)
        for n, v in gl.items():
            if v[2] is not None or n not in globs:
                globs[n] = v
    for f in funcs.values():
        renumber(f)
    globs = {n: ('G:' + n, v[1], v[2]) for n, v in globs.items()}
    return funcs, structs, globs


collisions = set()


def renumber(f):
    """unique node and variable ids (each file is parsed by its own process)"""
    loc = {p[0] for p in f.params}
    for x in f.body.walk():
        if x.k == 'Var':
            loc.add(x.a[0])
    pre = os.path.basename(f.file) + ':' + f.name + ':'
    f.params = [(pre + p[0], p[1], p[2]) for p in f.params]
    seen = set()
    for x in f.body.walk():
        if id(x) in seen:
            continue
        seen.add(id(x))
        N._uid += 1
        x.uid = N._uid
        if x.k == 'Var':
            x.a = (pre + x.a[0],) + tuple(x.a[1:])
        elif x.k == 'Ref':
            kind, i, name = x.a
            if i in loc:
                x.a = (kind, pre + i, name)
            elif kind == 'VarDecl':
                x.a = (kind, 'G:' + name, name)


if __name__ == '__main__':
    import time
    t = time.time()
    f, s, g = load_all()
    print(len(f), len(s), time.time() - t)
    print(s['nmt_binning_scheme'], s.get('nmt_workspace'))
    bad = {}
    for n, fu in f.items():
        for x in fu.body.walk():
            if x.k.startswith('?'):
                bad.setdefault(x.k, set()).add(n)
    print(bad)
    print(f['nmt_bin_cls'].body)

"""Lowers the C shims (clang AST) to the representation used for the Rust program (mir.Fn), so that the same
dataflow engine analyses both sides of the native interface."""
from . import cast, mir

SKIP = ('FullComment', 'ParagraphComment', 'TextComment', 'BlockCommandComment', 'ParamCommandComment')
OPS = {'==': 'Eq', '!=': 'Ne', '<': 'Lt', '<=': 'Le', '>': 'Gt', '>=': 'Ge', '+': 'Add', '-': 'Sub', '*': 'Mul', '/': 'Div', '%': 'Rem',
       '&': 'BitAnd', '|': 'BitOr', '^': 'BitXor', '<<': 'Shl', '>>': 'Shr'}


class CBlock:
    __slots__ = ('s', 't', 'c', 'fn', 'stack')

    def __init__(self):
        self.s, self.t, self.c, self.fn, self.stack = [], None, 0, None, ()


def inner(n):
    return [c for c in n.get('inner', []) or [] if isinstance(c, dict) and c.get('kind') not in SKIP]


def qt(n):
    return n.get('type', {}).get('qualType', '')


def k(v, ty='int', named=None):
    d = {'v': v, 'ty': ty}
    if named:
        d['named'] = named
    return ('k', d)


class Lower:
    def __init__(self, cf, node):
        self.cf = cf
        fn = self.fn = mir.Fn()
        fn.key = fn.path = node['name']
        fn.kind, fn.file, fn.line = 'C', cf.rel, cast.line(node)
        fn.pub = fn.reach = node.get('storageClass') != 'static'
        fn.crate = 'c:' + cf.name
        fn.preds, fn.impl_self, fn.impl_trait, fn.parent, fn.gparams, fn.upvars, fn.unsafe = [], None, None, None, [], [], False
        ty = qt(node)
        fn.out = ty[:ty.index('(')].strip()
        fn.locals = [(fn.out, '')]
        self.vars = {}
        ps = [c for c in node.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        fn.ins = [qt(p) for p in ps]
        fn.anames = [p.get('name', '') for p in ps]
        for p in ps:
            self.vars[p['id']] = len(fn.locals)
            fn.locals.append((cty(qt(p)), p.get('name', '')))
        fn.argc = len(ps)
        fn.blocks = []
        self.cur = self.new()
        self.loops = []
        self.tree = node
        body = [c for c in node['inner'] if c.get('kind') == 'CompoundStmt'][0]
        self.stmt(body)
        if self.cur is not None:
            self.term(('return',))
        for b in fn.blocks:
            if b.t is None:
                b.t = ('unreachable',)

    # ------------------------------------------------------------------------------------------------
    def new(self):
        b = CBlock()
        b.fn = self.fn
        self.fn.blocks.append(b)
        return len(self.fn.blocks) - 1

    def emit(self, p, rv, n):
        if self.cur is None:
            self.cur = self.new()
        self.fn.blocks[self.cur].s.append(('=', p, rv, (self.cf.rel, cast.line(n))))

    def term(self, t):
        if self.cur is None:
            self.cur = self.new()
        self.fn.blocks[self.cur].t = t
        self.cur = None

    def temp(self, ty):
        self.fn.locals.append((cty(ty), ''))
        return (len(self.fn.locals) - 1,)

    def ln(self, n):
        return (self.cf.rel, cast.line(n))

    def fail(self, n, what):
        raise mir.AnchorError('%s: %s: unsupported C construct %s (%s)' % (self.cf.rel, cast.line(n), n.get('kind'), what))

    # -- statements ----------------------------------------------------------------------------------
    def stmt(self, n):
        kd = n['kind']
        if kd in SKIP or kd == 'NullStmt':
            return
        if kd == 'CompoundStmt':
            for c in inner(n):
                self.stmt(c)
        elif kd == 'DeclStmt':
            for c in inner(n):
                if c['kind'] == 'VarDecl':
                    self.vars[c['id']] = len(self.fn.locals)
                    self.fn.locals.append((cty(qt(c)), c.get('name', '')))
                    i = [x for x in inner(c) if x['kind'] not in ('FullComment',)]
                    if c.get('init') and i:
                        self.assign((self.vars[c['id']],), i[-1], c)
        elif kd == 'IfStmt':
            i = inner(n)
            cond, then = i[0], i[1]
            els = i[2] if len(i) > 2 else None
            bt, bf = self.new(), self.new()
            self.branch(cond, bt, bf)
            self.cur = bt
            self.stmt(then)
            end_t = self.cur
            self.cur = bf
            if els is not None:
                self.stmt(els)
            end_f = self.cur
            if end_t is None and end_f is None:
                self.cur = None
                return
            j = self.new()
            for e in (end_t, end_f):
                if e is not None:
                    self.fn.blocks[e].t = ('goto', j)
            self.cur = j
        elif kd == 'ReturnStmt':
            i = inner(n)
            if i:
                self.assign((0,), i[0], n)
            self.term(('return',))
        elif kd in ('ForStmt', 'WhileStmt', 'DoStmt'):
            raw = [c for c in n.get('inner', [])]
            if kd == 'ForStmt':
                # init, condition variable, condition, increment, body
                init, _, cond, inc, body = raw
                if init and init.get('kind'):
                    self.stmt(init)
            elif kd == 'WhileStmt':
                cond, body, inc = raw[-2], raw[-1], None
            else:
                body, cond, inc = raw[0], raw[1], None
            head, b, step, exit_ = self.new(), self.new(), self.new(), self.new()
            if self.cur is None:
                self.cur = self.new()
            self.term(('goto', head if kd != 'DoStmt' else b))
            self.cur = head
            if cond and cond.get('kind'):
                self.branch(cond, b, exit_)
            else:
                self.term(('goto', b))
            self.loops.append((exit_, step))
            self.cur = b
            self.stmt(body)
            if self.cur is not None:
                self.term(('goto', step))
            self.loops.pop()
            self.cur = step
            if inc and inc.get('kind'):
                self.val(inc)
            self.term(('goto', head))
            self.cur = exit_
        elif kd == 'BreakStmt':
            self.term(('goto', self.loops[-1][0]))
        elif kd == 'ContinueStmt':
            self.term(('goto', self.loops[-1][1]))
        elif kd == 'SwitchStmt':
            self.switch(n)
        else:
            self.val(n)

    def switch(self, n):
        i = inner(n)
        o = self.val(i[0])
        head = self.cur
        exit_ = self.new()
        self.loops.append((exit_, self.loops[-1][1] if self.loops else None))
        cases, default = [], None
        self.cur = None
        todo = list(inner(i[1]))
        while todo:
            c = todo.pop(0)
            if c['kind'] in ('CaseStmt', 'DefaultStmt'):
                b = self.new()
                if self.cur is not None:
                    self.term(('goto', b))
                self.cur = b
                ci = inner(c)
                if c['kind'] == 'CaseStmt':
                    kv = self.val(ci[0])
                    cases.append((kv[1].get('v'), b))
                    todo.insert(0, ci[-1])
                else:
                    default = b
                    todo.insert(0, ci[-1])
            else:
                self.stmt(c)
        if self.cur is not None:
            self.term(('goto', exit_))
        self.loops.pop()
        self.fn.blocks[head].t = ('switch', o, 'i32', tuple(cases), default if default is not None else exit_, self.ln(n))
        self.cur = exit_

    def branch(self, c, bt, bf):
        c = strip(c)
        if c['kind'] == 'BinaryOperator' and c['opcode'] in ('&&', '||'):
            l, r = inner(c)
            mid = self.new()
            if c['opcode'] == '&&':
                self.branch(l, mid, bf)
            else:
                self.branch(l, bt, mid)
            self.cur = mid
            self.branch(r, bt, bf)
            return
        if c['kind'] == 'UnaryOperator' and c['opcode'] == '!':
            self.branch(inner(c)[0], bf, bt)
            return
        if c['kind'] == 'BinaryOperator' and c['opcode'] in ('==', '!=', '<', '<=', '>', '>='):
            o = self.val(c)
        else:
            v = self.val(c)
            t = self.temp('bool')
            self.emit(t, ('bin', 'Ne', v, k(0), 'int'), c)
            o = ('c', t)
        if self.cur is None:
            self.cur = self.new()
        self.term(('switch', o, 'bool', ((0, bf),), bt, self.ln(c)))

    # -- expressions ---------------------------------------------------------------------------------
    def assign(self, p, e, n):
        s = strip(e)
        if s['kind'] == 'CallExpr':
            self.call(s, p)
            return
        if s['kind'] == 'InitListExpr':
            for i, x in enumerate(inner(s)):
                self.assign(p + (('ci', i),), x, n)
            return
        self.emit(p, ('use', self.val(e)), n)

    def lv(self, n):
        """place of an lvalue expression"""
        n0 = n
        kd = n['kind']
        if kd == 'ParenExpr':
            return self.lv(inner(n)[0])
        if kd == 'DeclRefExpr':
            r = n['referencedDecl']
            if r['id'] in self.vars:
                return (self.vars[r['id']],)
            # a file-scope variable gets its own local
            self.vars[r['id']] = len(self.fn.locals)
            self.fn.locals.append((cty(qt(n)), r.get('name', '')))
            return (self.vars[r['id']],)
        if kd == 'MemberExpr':
            b = inner(n)[0]
            nm = n.get('name', '')
            if n.get('isArrow'):
                o = self.val(b)
                if o[0] == 'k':
                    t = self.temp(qt(b))
                    self.emit(t, ('use', o), n)
                    o = ('c', t)
                return o[1] + ('*', ('f', nm, nm))
            return self.lv(b) + (('f', nm, nm),)
        if kd == 'ArraySubscriptExpr':
            b, i = inner(n)
            sb = b
            while sb['kind'] in ('ParenExpr',):
                sb = inner(sb)[0]
            if sb['kind'] == 'ImplicitCastExpr' and sb.get('castKind') == 'ArrayToPointerDecay':
                base = self.lv(inner(sb)[0])
            else:
                o = self.val(b)
                if o[0] == 'k':
                    self.fail(n, 'constant pointer')
                base = o[1] + ('*',)
            iv = self.val(i)
            if iv[0] == 'k' and isinstance(iv[1].get('v'), int):
                return base + (('ci', iv[1]['v']),)
            if iv[0] in ('c', 'm') and len(iv[1]) == 1:
                return base + (('i', iv[1][0]),)
            t = self.temp('int')
            self.emit(t, ('use', iv), n)
            return base + (('i', t[0]),)
        if kd == 'UnaryOperator' and n['opcode'] == '*':
            o = self.val(inner(n)[0])
            if o[0] == 'k':
                self.fail(n, 'constant pointer')
            return o[1] + ('*',)
        if kd in ('ImplicitCastExpr', 'CStyleCastExpr') and n.get('castKind') in ('NoOp', 'BitCast', 'LValueBitCast'):
            return self.lv(inner(n)[0])
        if kd == 'StringLiteral':
            t = self.temp(qt(n))
            return t
        if kd == 'CompoundLiteralExpr':
            t = self.temp(qt(n))
            self.assign(t, inner(n)[0], n)
            return t
        return self.fail(n0, 'as lvalue')

    def val(self, n):
        """operand holding the value of an expression"""
        kd = n['kind']
        if kd in ('ParenExpr', 'ConstantExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr'):
            return self.val(inner(n)[0])
        if kd == 'IntegerLiteral':
            return k(int(n['value']), qt(n))
        if kd == 'FloatingLiteral':
            return ('k', {'v': {'lit': n.get('value')}, 'ty': qt(n), 'lit': float(n.get('value'))})
        if kd == 'CharacterLiteral':
            return k(n.get('value'), qt(n))
        if kd in ('GNUNullExpr', 'CXXNullPtrLiteralExpr'):
            return k(0, 'ptr')
        if kd == 'CXXBoolLiteralExpr':
            return k(1 if n.get('value') else 0, 'bool')
        if kd == 'StringLiteral':
            return ('k', {'v': {'str': n.get('value')}, 'ty': qt(n)})
        if kd == 'UnaryExprOrTypeTraitExpr':
            a = n.get('argType', {}).get('qualType') or (qt(inner(n)[0]) if inner(n) else '')
            return ('k', {'v': {'sizeof': a}, 'ty': qt(n), 'sizeof': a})
        if kd == 'DeclRefExpr':
            r = n.get('referencedDecl', {})
            if r.get('kind') == 'EnumConstantDecl':
                nm = r.get('name', '')
                if nm in SUCCESS:
                    return k(0, qt(n), nm)
                return ('k', {'v': {'enumerator': nm}, 'ty': qt(n), 'named': nm})
            return ('c', self.lv(n))
        if kd in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXReinterpretCastExpr'):
            ck = n.get('castKind')
            i = inner(n)[0]
            if ck == 'NullToPointer':
                return k(0, 'ptr')
            if ck == 'ArrayToPointerDecay':
                if strip(i)['kind'] == 'StringLiteral':
                    return self.val(strip(i))
                t = self.temp(qt(n))
                self.emit(t, ('raw', 'mut', self.lv(i)), n)
                return ('c', t)
            if ck == 'LValueToRValue':
                return ('c', self.lv(i))
            if ck in ('NoOp', 'FunctionToPointerDecay', 'BitCast', 'ToVoid', 'LValueBitCast'):
                if i.get('valueCategory') == 'lvalue' and n.get('valueCategory') == 'lvalue':
                    return ('c', self.lv(i))
                return self.val(i)
            v = self.val(i)
            if v[0] == 'k':
                return v
            t = self.temp(qt(n))
            self.emit(t, ('cast', ck, v, qt(i), qt(n)), n)
            return ('c', t)
        if kd == 'BinaryOperator':
            op = n['opcode']
            l, r = inner(n)
            if op == '=':
                p = self.lv(l)
                self.assign(p, r, n)
                return ('c', p)
            if op == ',':
                self.val(l)
                return self.val(r)
            if op in ('&&', '||'):
                bt, bf, j = self.new(), self.new(), self.new()
                t = self.temp('bool')
                self.branch(n, bt, bf)
                self.cur = bt
                self.emit(t, ('use', k(1, 'bool')), n)
                self.term(('goto', j))
                self.cur = bf
                self.emit(t, ('use', k(0, 'bool')), n)
                self.term(('goto', j))
                self.cur = j
                return ('c', t)
            a, b = self.val(l), self.val(r)
            if a[0] == 'k' and b[0] == 'k' and isinstance(a[1].get('v'), int) and isinstance(b[1].get('v'), int) and op in ('+', '-', '*'):
                x, y = a[1]['v'], b[1]['v']
                return k({'+': x + y, '-': x - y, '*': x * y}[op], qt(n))
            t = self.temp('bool' if OPS.get(op) in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') else qt(n))
            self.emit(t, ('bin', OPS[op], a, b, qt(l)), n)
            return ('c', t)
        if kd == 'CompoundAssignOperator':
            l, r = inner(n)
            p = self.lv(l)
            self.emit(p, ('bin', OPS[n['opcode'][:-1]], ('c', p), self.val(r), qt(l)), n)
            return ('c', p)
        if kd == 'UnaryOperator':
            op = n['opcode']
            i = inner(n)[0]
            if op == '&':
                t = self.temp(qt(n))
                self.emit(t, ('raw', 'mut', self.lv(i)), n)
                return ('c', t)
            if op == '*':
                return ('c', self.lv(n))
            if op in ('++', '--'):
                p = self.lv(i)
                self.emit(p, ('bin', 'Add' if op == '++' else 'Sub', ('c', p), k(1), qt(i)), n)
                return ('c', p)
            v = self.val(i)
            if op == '-' and v[0] == 'k' and isinstance(v[1].get('v'), int):
                return k(-v[1]['v'], qt(n))
            if op == '+':
                return v
            t = self.temp('bool' if op == '!' else qt(n))
            if op == '!':
                self.emit(t, ('bin', 'Eq', v, k(0), qt(i)), n)
            else:
                self.emit(t, ('un', {'-': 'Neg', '~': 'BitNot'}[op], v, qt(i)), n)
            return ('c', t)
        if kd == 'ConditionalOperator':
            c, a, b = inner(n)
            bt, bf, j = self.new(), self.new(), self.new()
            t = self.temp(qt(n))
            self.branch(c, bt, bf)
            self.cur = bt
            self.assign(t, a, n)
            self.term(('goto', j))
            self.cur = bf
            self.assign(t, b, n)
            self.term(('goto', j))
            self.cur = j
            return ('c', t)
        if kd == 'CallExpr':
            t = self.temp(qt(n))
            self.call(n, t)
            return ('c', t)
        if kd in ('MemberExpr', 'ArraySubscriptExpr'):
            return ('c', self.lv(n))
        return self.fail(n, 'as value')

    def call(self, n, dest):
        i = inner(n)
        f = strip(i[0])
        nm = f.get('referencedDecl', {}).get('name') if f['kind'] == 'DeclRefExpr' else None
        args = []
        for a in i[1:]:
            v = self.val(a)
            args.append(v)
        if self.cur is None:
            self.cur = self.new()
        nx = self.new()
        self.term(('call', {'path': nm or '<indirect>', 'c': True, 'rk': 'item', 'res': nm}, tuple(args), dest, nx, self.ln(n), None))
        self.cur = nx


SUCCESS = ('CUDSS_STATUS_SUCCESS', 'cudaSuccess')


def strip(n):
    while n['kind'] in ('ParenExpr', 'ConstantExpr', 'ExprWithCleanups') or (
            n['kind'] in ('ImplicitCastExpr',) and n.get('castKind') in ('FunctionToPointerDecay', 'NoOp') and n.get('valueCategory') != 'lvalue'):
        n = inner(n)[0]
    return n


def cty(t):
    """C type text in the notation the engine looks at (pointers first)"""
    t = t.strip()
    if t.endswith('*'):
        return '*mut ' + t[:-1].strip()
    return t


class CProgram:
    """functions of one C file; offers the interface mir.inline and flow.Flow need"""

    def __init__(self, cf):
        self.cf = cf
        self.fns = {}
        for nm, node in cf.funcs.items():
            self.fns[nm] = Lower(cf, node).fn
        self.adts, self.trait_impls, self.closure_by_ty = {}, {}, {}

    def callee_fn(self, c):
        return self.fns.get(c.get('path')) if c.get('c') else None


def programs(d):
    return [CProgram(f) for f in cast.cfiles(d)]

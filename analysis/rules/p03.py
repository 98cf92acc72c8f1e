"""P03: sizes and indices never wrap when narrowed for native code."""
import re
from .. import cast, errflow, facts, mir
from ..report import Report

RULE = ('every integer conversion that can lose bits (in Rust and in the C shims) is shown to fit by a bound derived from constants, masks, '
        'enumeration codes, dominating comparisons, loop ranges and values that were 32-bit before; checked conversions must fail loudly; products '
        'of two 32-bit sizes and wrapping or saturating operations on 32-bit sizes are refused')

BITS = {'i8': 8, 'u8': 8, 'i16': 16, 'u16': 16, 'i32': 32, 'u32': 32, 'i64': 64, 'u64': 64, 'isize': 64, 'usize': 64, 'i128': 128, 'u128': 128}
SPARSE = re.compile(r'Num(Coo|Csc|Csr)Matrix')
SCOPE = ('russell_lab::matrix::', 'russell_lab::matvec::', 'russell_lab::vector::', 'russell_sparse::')
INF = float('inf')


def tmax(ty):
    if ty == 'bool':
        return 1
    if ty not in BITS:
        return INF
    return 2 ** (BITS[ty] - (1 if ty[0] == 'i' else 0)) - 1


def narrowing(a, b):
    if a not in BITS or b not in BITS:
        return False
    return tmax(b) < tmax(a) and BITS[b] < BITS[a] or (BITS[a] == BITS[b] and a[0] == 'u' and b[0] == 'i' and a != 'usize')


class Bound:
    """upper bounds of value expressions of one function"""

    def __init__(self, prog, fn):
        self.prog, self.fn, self.V, self.g = prog, fn, mir.values(fn), mir.cfg(fn)
        self.busy = set()
        self._guards = None

    def guards(self):
        """(expr, c, block): expr <= c holds in blocks dominated by block"""
        if self._guards is None:
            self._guards = []
            for b in self.g.rpo:
                t = self.fn.blocks[b].t
                if t[0] != 'switch' or t[2] != 'bool':
                    continue
                e = self.V.expr(t[1])
                neg = False
                while e[0] == 'un' and e[1] == 'Not':
                    e, neg = e[2], not neg
                if e[0] != 'bin' or e[1] not in ('Lt', 'Le', 'Gt', 'Ge', 'Eq'):
                    continue
                f = [y for v, y in t[3] if v == 0]
                if not f:
                    continue
                bt, bf = t[4], f[0]
                if neg:
                    bt, bf = bf, bt
                op, x, y = e[1], e[2], e[3]
                cy, cx = self.const(y), self.const(x)
                if cy is not None:
                    if op in ('Lt', 'Le', 'Eq'):
                        self._guards.append((x, cy - (op == 'Lt'), bt, b))
                    else:
                        self._guards.append((x, cy - (op == 'Ge'), bf, b))
                elif cx is not None:
                    if op in ('Gt', 'Ge', 'Eq'):
                        self._guards.append((y, cx - (op == 'Gt'), bt, b))
                    else:
                        self._guards.append((y, cx - (op == 'Le'), bf, b))
        return self._guards

    def const(self, e):
        if e[0] == 'const' and isinstance(e[1], int):
            return e[1]
        if e[0] == 'cast':
            return self.const(e[3])
        if e[0] == 'call' and re.search(r'::(try_into|into|from)$', e[1]) and e[2]:
            return self.const(e[2][0])
        return None

    def guarded(self, e, bi):
        best = INF
        for x, c, blk, src in self.guards():
            if x == e and (self.g.pred[blk] == [src] and self.g.dominates(blk, bi)):
                best = min(best, c)
        return best

    def ub(self, e, bi, depth=0):
        """(bound, None) or (inf, reason)"""
        if depth > 30:
            return INF, 'expression too deep'
        g = self.guarded(e, bi)
        if g < INF:
            return g, None
        k = e[0]
        if k == 'const':
            return (e[1], None) if isinstance(e[1], int) else (INF, 'constant')
        if k == 'discr':
            return 255, None
        if k == 'cast':
            lim = tmax(e[1])
            if lim <= 2 ** 31 - 1:
                b, why = self.ub(e[3], bi, depth + 1)
                return min(b, lim), None
            b, why = self.ub(e[3], bi, depth + 1)
            return b, why
        if k == 'bin':
            op = e[1]
            a, b = e[2], e[3]
            if op == 'BitAnd':
                r = min(self.ub(a, bi, depth + 1)[0], self.ub(b, bi, depth + 1)[0])
                return (r, None) if r < INF else (INF, 'unbounded')
            if op in ('Sub', 'Shr', 'Div'):
                return self.ub(a, bi, depth + 1)
            if op == 'Rem':
                return self.ub(b, bi, depth + 1)
            if op in ('Add', 'Mul'):
                x, wx = self.ub(a, bi, depth + 1)
                y, wy = self.ub(b, bi, depth + 1)
                if wx or wy:
                    return INF, wx or wy
                return (x + y if op == 'Add' else x * y), None
            return INF, 'operation %s' % op
        if k == 'call':
            nm = e[1].rsplit('::', 1)[-1]
            if nm in ('min', 'clamp') and len(e[2]) >= 2:
                r = min(self.ub(x, bi, depth + 1)[0] for x in e[2][-2:])
                return (r, None) if r < INF else (INF, 'unbounded minimum')
            if nm == 'max':
                r = [self.ub(x, bi, depth + 1) for x in e[2]]
                return max(x[0] for x in r), next((x[1] for x in r if x[1]), None)
            if nm in ('unwrap', 'expect') and e[2]:
                return self.ub(e[2][0], bi, depth + 1)
            if nm in ('clone', 'from', 'into', 'deref', 'saturating_sub') and e[2]:
                return self.ub(e[2][0], bi, depth + 1)
            return INF, 'result of %s' % nm
        if k == 'load':
            return self.load(e[1], bi, depth)
        if k == 'loc':
            return self.local(e[1], bi, depth)
        if k == 'arg':
            t = self.fn.locals[e[1]][0]
            if tmax(t) <= 2 ** 31 - 1:
                return tmax(t), None
            return INF, 'argument %s' % (self.fn.name(e[1]) or '')
        return INF, 'expression %s' % k

    def local(self, l, bi, depth):
        """a variable assigned several times: bounded seed values plus increments by one inside loops"""
        if l in self.busy:
            return 0, None          # its own previous value
        ty = self.fn.locals[l][0]
        if tmax(ty) <= 2 ** 31 - 1:
            return tmax(ty), None
        if l in self.V.atm:
            return INF, 'variable modified through a reference'
        self.busy.add(l)
        try:
            best = 0
            for d in self.V.defs.get(l, []):
                if d[2] == 'rv':
                    e = self.V._rv(d[3], 0, l)
                elif d[2] == 'call':
                    e = ('call', mir.callee_name(d[3][1]), tuple(self.V.expr(a) for a in d[3][2]))
                else:
                    e = ('arg', l)
                if e == ('loc', l):
                    # checked increment: (l + 1).0
                    if d[2] == 'rv' and d[3][0] == 'use' and d[3][1][0] in ('c', 'm') and len(d[3][1][1]) == 2:
                        dd = self.V.single(d[3][1][1][0])
                        if dd and dd[2] == 'rv' and dd[3][0] == 'bin':
                            e = ('bin', dd[3][1][:-12], self.V.expr(dd[3][2]), self.V.expr(dd[3][3]))
                inc = e[0] == 'bin' and e[1] in ('Add', 'Sub') and e[2] == ('loc', l) and e[3][0] == 'const'
                if inc:
                    continue        # as often as the loop that bounds the seed values runs
                b, why = self.ub(e, d[0] if d[0] >= 0 else bi, depth + 1)
                if why:
                    return INF, why
                best = max(best, b)
            return (best, None) if self.V.defs.get(l) else (INF, 'unknown variable')
        finally:
            self.busy.discard(l)

    def load(self, path, bi, depth):
        # payload of an iterator step
        if path and path[0][0] == 'loc' and len(path) >= 3 and path[1][0] == 'd':
            d = self.V.single(path[0][1])
            if d and d[2] == 'call' and mir.callee_name(d[3][1]).endswith('::next'):
                src = self.iter_source(d[3][2][0], 0)
                if src:
                    return self.range_bound(src, bi, depth)
                return INF, 'an item of an iteration'
            if d and d[2] == 'call':
                e = ('call', mir.callee_name(d[3][1]), tuple(self.V.expr(a) for a in d[3][2]))
                return self.ub(e, bi, depth + 1)
        # element of a work array: what this function stores there
        if any(isinstance(x, tuple) and x[0] == 'i' for x in path):
            return self.array(path, bi, depth)
        ty = None
        if len(path) == 1 and path[0][0] == 'arg':
            return self.ub(('arg', path[0][1]), bi, depth + 1)
        return INF, 'value of %s' % (mir.fmt_path(self.fn, path) or 'a field')

    def array(self, path, bi, depth):
        base = strip(path)
        key = ('arr', base)
        if key in self.busy:
            return 0, None
        self.busy.add(key)
        try:
            best, n = 0, 0
            for b in self.g.rpo:
                for s in self.fn.blocks[b].s:
                    if s[0] != '=' or len(s[1]) < 2:
                        continue
                    q = self.V.path(s[1])
                    if q is None or strip(q) != base or not any(isinstance(x, tuple) and x[0] == 'i' for x in q):
                        continue
                    n += 1
                    r, why = self.ub(self.V._rv(s[2], 0), b, depth + 1)
                    if why:
                        return INF, why
                    best = max(best, r)
                # stores through IndexMut
                t = self.fn.blocks[b].t
            if n == 0:
                n, best, why = self.index_stores(base, bi, depth)
                if why:
                    return INF, why
            return (best, None) if n else (INF, 'element of an array')
        finally:
            self.busy.discard(key)

    def index_stores(self, base, bi, depth):
        n, best = 0, 0
        for b in self.g.rpo:
            for s in self.fn.blocks[b].s:
                if s[0] == '=' and len(s[1]) >= 2 and s[1][1] == '*' and len(s[1]) == 2:
                    d = self.V.single(s[1][0])
                    if d and d[2] == 'call' and mir.callee_name(d[3][1]).endswith('index_mut'):
                        p = self.V.oppath(d[3][2][0])
                        if p is not None and strip(p) == base:
                            n += 1
                            r, why = self.ub(self.V._rv(s[2], 0), b, depth + 1)
                            if why:
                                return n, INF, why
                            best = max(best, r)
        return n, best, None

    def iter_source(self, o, depth):
        """the call or aggregate an iterator value comes from"""
        if depth > 12 or o[0] not in ('c', 'm'):
            return None
        l = o[1][0]
        if len(o[1]) > 1:
            return None
        ds = [d for d in self.V.defs.get(l, [])]
        if len(ds) != 1:
            return None
        d = ds[0]
        if d[2] == 'rv':
            r = d[3]
            if r[0] in ('ref',):
                return self.iter_source(('c', (r[2][0],)), depth + 1)
            if r[0] == 'use':
                return self.iter_source(r[1], depth + 1)
            if r[0] == 'agg':
                return r
            return None
        if d[2] == 'call':
            nm = mir.callee_name(d[3][1])
            if re.search(r'::(into_iter|rev|step_by|take|skip|enumerate|zip|iter|iter_mut|by_ref|filter)$', nm):
                s = self.iter_source(d[3][2][0], depth + 1)
                if s is not None:
                    return s
                if re.search(r'::(iter|iter_mut|into_iter)$', nm):
                    return ('slice', self.V.oppath(d[3][2][0]))
            if re.search(r'RangeInclusive::<.*>::new$', nm):
                return ('incl', d[3][2])
        return None

    def range_bound(self, src, bi, depth):
        if src[0] == 'agg' and src[1][0] == 'adt' and src[1][1].endswith('Range'):
            e = self.V.expr(src[2][1])
        elif src[0] == 'incl':
            e = self.V.expr(src[1][1])
        elif src[0] == 'slice':
            if src[1] is not None and self.sparse_path(src[1]):
                return 2 ** 31 - 1, None
            return INF, 'a position in an array'
        else:
            return INF, 'an iteration'
        # a counter below a stored dimension of an existing sparse matrix
        if self.sparse_dim(e):
            return 2 ** 31 - 1, None
        r, why = self.ub(e, bi, depth + 1)
        return r, why

    def sparse_dim(self, e):
        if e[0] == 'load':
            return self.sparse_path(e[1]) and e[1][-1][0] == 'f'
        if e[0] == 'call' and e[1].endswith('::max'):
            return all(self.sparse_dim(x) for x in e[2])
        return False

    def sparse_path(self, path):
        r = path[0]
        ty = self.fn.locals[r[1]][0]
        return SPARSE.search(ty) is not None


def strip(path):
    out = []
    for x in path:
        if isinstance(x, tuple) and x[0] in ('i', 'ie'):
            break
        if x == '*':
            continue
        out.append(x)
    return tuple(out)


def exponent_only(prog, fn, l, depth=0):
    """the converted value is only used as an exponent, or only its low bits are used"""
    n = 0
    for b in mir.cfg(fn).rpo:
        for s in fn.blocks[b].s:
            if s[0] == '=' and s[2][0] == 'bin' and s[2][1] in ('BitAnd', 'Rem') and s[2][3][0] == 'k' and s[2][2][0] in ('c', 'm') and s[2][2][1] == (l,):
                n += 1
            elif s[0] == '=' and s[2][0] == 'bin' and s[2][1] == 'BitAnd' and s[2][2][0] == 'k' and s[2][3][0] in ('c', 'm') and s[2][3][1] == (l,):
                n += 1
            elif s[0] == '=' and s[2][0] == 'use' and uses(s[2], l) and len(s[1]) == 1 and depth < 6:
                if not exponent_only(prog, fn, s[1][0], depth + 1):
                    return False
                n += 1
            elif s[0] == '=' and uses(s[2], l):
                return False
        t = fn.blocks[b].t
        if t[0] == 'call' and any(a[0] in ('c', 'm') and a[1][0] == l for a in t[2]):
            if not re.search(r'::powi$', mir.callee_name(t[1])):
                cf = prog.callee_fn(t[1])
                if cf is None or depth > 4 or len(t[2]) != cf.argc:
                    return False
                for i, a in enumerate(t[2]):
                    if a[0] in ('c', 'm') and a[1][0] == l and not exponent_only(prog, cf, i + 1, depth + 1):
                        return False
            n += 1
        elif t[0] in ('switch', 'assert') and t[1][0] in ('c', 'm') and t[1][1][0] == l:
            return False
    return n > 0


def uses(r, l):
    def op(o):
        return o[0] in ('c', 'm') and o[1][0] == l
    if r[0] in ('use', 'repeat'):
        return op(r[1])
    if r[0] in ('cast', 'un'):
        return op(r[2])
    if r[0] == 'bin':
        return op(r[2]) or op(r[3])
    if r[0] in ('ref', 'raw'):
        return r[2][0] == l
    if r[0] == 'agg':
        return any(op(o) for o in r[2])
    return False


def callers_of(prog):
    out = {}
    for fn in prog.fns.values():
        for b in mir.cfg(fn).rpo:
            t = fn.blocks[b].t
            if t[0] == 'call':
                cf = prog.callee_fn(t[1])
                if cf is not None:
                    out.setdefault(cf.key, set()).add(fn.key)
    return out


def check():
    rep = Report('P03', RULE)
    rep.assumptions.append('a counter running below a stored dimension of an existing sparse matrix stays within the 32-bit range its constructors enforce; '
                           'a constant multiple of one checked dimension of a dense matrix held in memory stays within 32 bits')
    for variant in (None, 'mumps', 'cudss'):
        prog = mir.Program(variant)
        callers = callers_of(prog)
        for fn in prog.fns.values():
            if variant and (fn.crate != 'russell_sparse' or variant not in fn.file):
                continue
            scan(rep, prog, fn, callers)
    c_side(rep)
    rep.floor('narrowing conversions', 12)
    rep.floor('checked conversions', 2)
    rep.floor('C integer conversions', 20)
    return rep


def in_scope(fn):
    return fn.path.lstrip('<').startswith(SCOPE)


def scan(rep, prog, fn, callers):
    B = None
    for bi in mir.cfg(fn).rpo:
        blk = fn.blocks[bi]
        for s in blk.s:
            if s[0] != '=':
                continue
            r = s[2]
            if r[0] == 'cast' and r[1] == 'IntToInt' and narrowing(r[3], r[4]):
                rep.count('narrowing conversions')
                B = B or Bound(prog, fn)
                e = B.V.expr(r[2])
                ub, why = B.ub(e, bi)
                if why is None and ub <= tmax(r[4]):
                    rep.ok('%s: %s fits %s' % (fn.where(s[3]), mir.fmt_expr(fn, e)[:60], r[4]))
                    continue
                if len(s[1]) == 1 and exponent_only(prog, fn, s[1][0]):
                    rep.ok('%s: exponent' % fn.where(s[3]))
                    continue
                if not fn.reach and callers.get(fn.key) and lifted(prog, fn, callers, (bi, s)):
                    rep.ok()
                    continue
                rep.bad('%s: %s as %s' % (fn.key, mir.fmt_expr(fn, e)[:80], r[4]), fn.where(s[3]),
                        '%s converts %s from %s to %s without a check (%s)' % (fn.path, mir.fmt_expr(fn, e)[:80], r[3], r[4], why or 'bound %d' % ub))
            elif r[0] == 'cast' and r[1] == 'FloatToInt' and r[4] in ('i32', 'u32', 'i16', 'u16', 'i8', 'u8') and in_scope(fn):
                rep.count('conversions from floating point')
                B = B or Bound(prog, fn)
                e = B.V.expr(r[2])
                if has_int_cast(e):
                    rep.bad('%s: %s as %s' % (fn.key, mir.fmt_expr(fn, e)[:80], r[4]), fn.where(s[3]),
                            '%s computes a 32-bit size in floating point: out-of-range values saturate silently' % fn.path)
                else:
                    rep.ok()
            elif r[0] == 'bin' and r[4] == 'i32' and r[1] in ('MulWithOverflow', 'Mul', 'MulUnchecked', 'Shl') and in_scope(fn):
                rep.count('products of 32-bit sizes')
                B = B or Bound(prog, fn)
                if B.const(B.V.expr(r[2])) is None and B.const(B.V.expr(r[3])) is None:
                    rep.bad('%s: product of 32-bit values' % fn.key, fn.where(s[3]), '%s multiplies two 32-bit sizes: %s * %s wraps in optimised builds' % (
                        fn.path, mir.fmt_expr(fn, B.V.expr(r[2]))[:40], mir.fmt_expr(fn, B.V.expr(r[3]))[:40]))
                else:
                    rep.ok()
        t = blk.t
        if t[0] == 'call':
            nm = mir.callee_name(t[1])
            m = re.search(r'TryFrom<(\w+)> for (\w+)>::try_from$', nm) or re.search(r'TryInto<(\w+)> for (\w+)>::try_into$', nm)
            if m or re.search(r'::(try_from|try_into)$', nm):
                dt = fn.locals[t[3][0]][0]
                d = re.match(r'core::result::Result<(\w+),', dt)
                if not d or d.group(1) not in BITS:
                    continue
                rep.count('checked conversions')
                probs = [p for p in errflow.follow(prog, fn, bi, lambda c: True, None) if p.kind != 'panic']
                if probs:
                    rep.bad('%s: checked conversion' % fn.key, fn.where(t[5]), '%s: a value that does not fit is replaced silently (%s)' % (fn.path, probs[0].detail))
                else:
                    rep.ok('%s: checked conversion fails loudly' % fn.where(t[5]))
            elif in_scope(fn) and re.search(r'num::<impl (i32|u32|usize|i64)>::(wrapping_\w+|overflowing_\w+|unchecked_\w+|saturating_(add|mul|pow))$|intrinsics::(wrapping|unchecked|saturating)_', nm):
                rep.count('wrapping operations')
                rep.bad('%s: %s' % (fn.key, nm.rsplit('::', 1)[-1]), fn.where(t[5]), '%s uses %s on a size or index' % (fn.path, nm.rsplit('::', 1)[-1]))
            elif in_scope(fn) and re.search(r'to_int_unchecked$|mem::transmute', nm):
                rep.bad('%s: %s' % (fn.key, nm.rsplit('::', 1)[-1]), fn.where(t[5]), '%s uses %s' % (fn.path, nm))


def has_int_cast(e):
    if not isinstance(e, tuple):
        return False
    if e and e[0] == 'cast' and e[1] in BITS:
        return True
    return any(has_int_cast(x) for x in e if isinstance(x, tuple))


def lifted(prog, fn, callers, site):
    """a private helper: the conversion fits in the context of every caller"""
    bi, s = site
    for ck in callers[fn.key]:
        cf = prog.fns[ck]
        inl = mir.inline(prog, cf, lambda f, t, st: f.key == fn.key, max_depth=2)
        B = Bound(prog, inl)
        n = 0
        for b in mir.cfg(inl).rpo:
            if inl.blocks[b].fn is not fn:
                continue
            for x in inl.blocks[b].s:
                if x[0] == '=' and x[2][0] == 'cast' and x[3] == s[3] and x[2][3] == s[2][3] and x[2][4] == s[2][4]:
                    n += 1
                    ub, why = B.ub(B.V.expr(x[2][2]), b)
                    if why or ub > tmax(x[2][4]):
                        return False
        if n == 0:
            return False
    return True


CT = {'char': 8, 'short': 16, 'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}


def c_side(rep):
    for f in cast.cfiles(facts.extract()):
        for name, fn in f.funcs.items():
            for n, _ in cast.walk(fn):
                if n['kind'] not in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr'):
                    continue
                ck = n.get('castKind')
                if ck not in ('IntegralCast', 'FloatingToIntegral'):
                    continue
                src, dst = n['inner'][0]['type'], n['type']
                a = src.get('desugaredQualType', src['qualType']).replace('const ', '')
                b = dst.get('desugaredQualType', dst['qualType']).replace('const ', '')
                rep.count('C integer conversions')
                if ck == 'IntegralCast' and a in CT and b in CT and CT[b] < CT[a]:
                    inner = n['inner'][0]
                    while inner['kind'] == 'ParenExpr':
                        inner = inner['inner'][0]
                    if inner['kind'] in ('IntegerLiteral', 'UnaryExprOrTypeTraitExpr'):
                        rep.ok()
                        continue
                    rep.bad('%s: %s: %s to %s' % (f.rel, name, a, b), '%s:%s' % (f.rel, cast.line(n)), '%s narrows a value from %s to %s' % (name, a, b))
                elif ck == 'FloatingToIntegral' and CT.get(b, 64) < 64:
                    inner = n['inner'][0]
                    refs = [x.get('name') or x.get('referencedDecl', {}).get('name') for x, _ in cast.walk(inner) if x['kind'] in ('MemberExpr', 'DeclRefExpr')]
                    if any(r in ('info', 'control') for r in refs):
                        rep.ok()
                    else:
                        rep.bad('%s: %s: %s to %s' % (f.rel, name, a, b), '%s:%s' % (f.rel, cast.line(n)), '%s computes a 32-bit size in floating point' % name)
                else:
                    rep.ok()

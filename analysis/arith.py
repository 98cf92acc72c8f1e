"""Polynomial relations between the integers of a function.

Forward dataflow on the engine of flow.py. Every integer is a polynomial over opaque quantities; lengths of vectors, slices
and texts are kept as the pseudo field 'len' of their access path. Branches, range loops and checked operations contribute
facts `p >= 0`. At the head of a loop the quantities the loop changes become opaque; relations between them (bounds by other
quantities, equal growth, a length that is a product) are proposed from the state before the loop and kept when every way
round the loop preserves them. A goal is decided by cancelling its negative terms with facts multiplied by non-negative terms.
"""
import math
import re
import zlib
from . import flow, mir

SIGNED = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}
UNSIGNED = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}
LEN = 'len'
WORDY = 2 ** 63 - 1


def tmin(ty):
    return 0 if ty in UNSIGNED else -2 ** (SIGNED[ty] - 1) if ty in SIGNED else None


def tmax(ty):
    return 2 ** UNSIGNED[ty] - 1 if ty in UNSIGNED else 2 ** (SIGNED[ty] - 1) - 1 if ty in SIGNED else None


def tag(x):
    return zlib.crc32(str(x).encode()) & 0xffffff


def isint(ty):
    return ty in SIGNED or ty in UNSIGNED


# -- polynomials: sorted tuple of (monomial, coefficient); a monomial is a sorted tuple of names --------
ZERO = ()


def con(c):
    return (((), c),) if c else ()


def sym(s):
    return (((s,), 1),)


def mk(d):
    return tuple(sorted((m, c) for m, c in d.items() if c))


def add(a, b, k=1):
    d = dict(a)
    for m, c in b:
        d[m] = d.get(m, 0) + k * c
    return mk(d)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    d = {}
    for m, c in a:
        for n, e in b:
            x = tuple(sorted(m + n))
            d[x] = d.get(x, 0) + c * e
    return mk(d)


def cval(p):
    if not p:
        return 0
    if len(p) == 1 and p[0][0] == ():
        return p[0][1]
    return None


def syms(p):
    return {s for m, c in p for s in m}


def show(p):
    if not p:
        return '0'
    return ' + '.join(('%s*' % c if c != 1 or not m else '') + '*'.join(m) if m else str(c) for m, c in p)


def sym_ty(s):
    return s.rsplit(':', 1)[-1]


class Prover:
    """p >= 0 from facts; memo per fact set"""

    def __init__(self, counts=()):
        self.memo = {}
        self.counts = counts

    def lower(self, s):
        return tmin(sym_ty(s))

    def upper(self, s):
        if s in self.counts or ('len' in s.split('@')[0].split('.') and sym_ty(s) == 'usize'):
            return 2 ** 62
        return tmax(sym_ty(s))

    def nonneg(self, s):
        return self.lower(s) == 0

    def holds(self, p, facts, depth=6):
        c = cval(p)
        if c is not None:
            return c >= 0
        if all(k > 0 and all(self.nonneg(s) for s in m) for m, k in p if m) and dict(p).get((), 0) >= 0:
            return True
        key = (p, facts, depth)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        self.budget = 4000
        rel = self.relevant(p, facts)
        r = any(self.search(p, rel, d, set()) for d in (2, 4, depth))
        self.memo[key] = r
        return r

    def relevant(self, p, facts):
        """facts connected with the goal"""
        want = syms(p)
        left = list(facts)
        out = []
        ch = True
        while ch and left:
            ch = False
            rest = []
            for f in left:
                if syms(f) & want:
                    out.append(f)
                    if not syms(f) <= want:
                        want |= syms(f)
                        ch = True
                else:
                    rest.append(f)
            left = rest
        return sorted(out, key=lambda f: (len(f), f))

    def search(self, p, facts, depth, seen):
        c = cval(p)
        if c is not None:
            return c >= 0
        if p in seen:
            return False
        self.budget -= 1
        if self.budget < 0:
            return False
        seen = seen | {p}
        bad = [(m, k) for m, k in p if m and (k < 0 or not all(self.nonneg(s) for s in m))]
        if not bad:
            c0 = dict(p).get((), 0)
            if c0 >= 0:
                return True
            # constant still negative: a fact with a positive lower bound may help
            if depth == 0:
                return False
            for f in facts:
                d = dict(f)
                if d.get((), 0) >= 0:
                    continue
                # p = k*f + rest for the smallest k making the constant non-negative
                for m, k in f:
                    if m and k > 0 and dict(p).get(m, 0) >= 1:
                        kk = max(1, dict(p)[m] // k) if dict(p)[m] >= k else 0
                        if kk and self.search(sub(p, mul(con(kk), f)), facts, depth - 1, seen):
                            return True
            return False
        if depth == 0:
            return False
        m, k = bad[0]
        if k < 0:
            for f in facts:
                for n, e in f:
                    if e < 0 and n and self.divides(n, m):
                        q = self.quot(m, n)
                        if not all(self.nonneg(s) for s in q):
                            continue
                        if (-k) % (-e):
                            if (-k) < (-e):
                                # scale the goal instead
                                fac = -e // math.gcd(-e, -k)
                                g2 = mul(con(fac), p)
                                kk = -k * fac // -e
                                if self.search(sub(g2, mul(((q, kk),), f)), facts, depth - 1, seen):
                                    return True
                                continue
                        kk = -k // -e
                        if kk and self.search(sub(p, mul(((q, kk),), f)), facts, depth - 1, seen):
                            return True
            # bounds of the type
            for i, s in enumerate(m):
                u = self.upper(s)
                q = m[:i] + m[i + 1:]
                if u is not None and all(self.nonneg(x) for x in q):
                    f = sub(con(u), sym(s))
                    if self.search(sub(p, mul(((q, -k),), f)), facts, depth - 1, seen):
                        return True
        else:
            # positive coefficient of a signed quantity: use a lower bound
            for f in facts:
                for n, e in f:
                    if e > 0 and n and self.divides(n, m):
                        q = self.quot(m, n)
                        if not all(self.nonneg(s) for s in q) or k % e:
                            continue
                        if self.search(sub(p, mul(((q, k // e),), f)), facts, depth - 1, seen):
                            return True
            for i, s in enumerate(m):
                lo = self.lower(s)
                q = m[:i] + m[i + 1:]
                if lo is not None and lo < 0 and all(self.nonneg(x) for x in q):
                    f = sub(sym(s), con(lo))
                    if self.search(sub(p, mul(((q, k),), f)), facts, depth - 1, seen):
                        return True
        return False

    @staticmethod
    def divides(n, m):
        m = list(m)
        for s in n:
            if s not in m:
                return False
            m.remove(s)
        return True

    @staticmethod
    def quot(m, n):
        m = list(m)
        for s in n:
            m.remove(s)
        return tuple(m)


UNWRAP = re.compile(r'(Result|Option)::<.*>::(unwrap|expect|unwrap_err|expect_err)$')
NEXT = re.compile(r'::next$')
NEG = flow.NEG


class Arith(flow.Flow):
    """the client is asked for obligations through client.oblige(flow, st, env, b, t, kind, goal, detail)"""

    def __init__(self, prog, fn, client, limit=60000):
        super().__init__(prog, fn, client, limit)
        from .rules.p10 import natural_loops
        self.strings = True
        self.loops = dict(natural_loops(fn))
        self.hav, self.dropped, self.refuted = {}, {}, {}
        self.notcount = set()
        self.counts = set()
        self.castof, self.minof = {}, {}
        self.prover = Prover(self.counts)
        self.final = False
        self.quiet = False
        self.at = (0, 0)
        self.restarts = 0

    # -- state ---------------------------------------------------------------------------------------
    def proves(self, st, p):
        return self.prover.holds(p, st[0])

    def learn(self, st, *ps):
        new = {p for p in ps if cval(p) is None}
        if any(cval(p) is not None and cval(p) < 0 for p in ps):
            return None
        if new <= st[0]:
            return st
        return (st[0] | new, st[1])

    def fresh(self, tag, ty, extra=''):
        return sym('%s@%d.%d%s:%s' % (tag, self.at[0], self.at[1], extra, ty))

    def poly(self, env, o, ty=None):
        """polynomial of an operand of integer type; unknown memory gets a name"""
        if o[0] == 'k':
            v = mir.decode(o[1].get('v'))
            if isinstance(v, bool):
                return None
            if isinstance(v, int):
                return con(v)
            t = o[1].get('ty')
            return self.fresh('const', t) if isint(t) else None
        cur = self.place(env, o[1])
        v = self.load(env, o[1])
        if v is not None:
            if v[0] == 'p':
                return v[1]
            if v[0] == 'k' and isinstance(v[1], int) and not isinstance(v[1], bool):
                return con(v[1])
            return None
        if len(o[1]) == 1:
            ty = self.fn.locals[o[1][0]][0]
        if not isint(ty or ''):
            return None
        p = self.fresh('m', ty, '.' + str(tag(cur)))
        if '[]' not in cur:
            env[cur] = ('p', p)
        return p

    def load(self, env, p):
        cur = self.place(env, p)
        if '[]' in cur:
            return None
        return super().load(env, p)

    def length(self, env, path):
        q = path + (LEN,)
        v = env.get(q)
        if v and v[0] == 'p':
            return v[1]
        given = self.client.length(self, env, path)
        if given is None:
            given = self.fresh('len', 'usize', '.' + str(tag(path)))
        if '[]' not in path:
            env[q] = ('p', given)
        return given

    # -- expressions ---------------------------------------------------------------------------------
    def rv(self, env, r):
        raise NotImplementedError

    def assign(self, env, st, dest, r, b):
        """effect of an assignment; returns the state"""
        k = r[0]
        dty = self.fn.locals[dest[0]][0] if len(dest) == 1 else None
        if k == 'use' and r[1][0] in ('c', 'm'):
            if isint(dty or ''):
                p = self.poly(env, r[1], dty)
                self.store(env, dest, ('p', p) if p is not None else None)
            else:
                src = self.place(env, r[1][1])
                if (dty or '').startswith(('&', '*')) and self.load(env, r[1][1]) is None and '[]' not in src:
                    # two names of one unknown place
                    env[src] = ('ref', src + ('*',))
                if dty == 'bool' and len(src) > 1 and self.load(env, r[1][1]) is None and '[]' not in src:
                    self.store(env, dest, ('isb', src, True))
                    return st
                self.copy(env, dest, r[1][1])
            return st
        if k == 'use':
            p = self.poly(env, r[1])
            v = ('p', p) if p is not None else self.val(env, r[1])
            if v is None and isinstance(mir.decode(r[1][1].get('v')), str):
                v = ('k', mir.decode(r[1][1].get('v')))
            self.store(env, dest, v)
            return st
        if k in ('ref', 'raw'):
            if r[2][-1] == '*':
                v = self.load(env, r[2][:-1])
                if v and v[0] in ('txt', 'k', 'var'):
                    self.store(env, dest, v)
                    return st
            self.store(env, dest, ('ref', self.place(env, r[2])))
            return st
        if k == 'len':
            self.store(env, dest, ('p', self.length(env, self.place(env, r[1]))))
            return st
        if k == 'cast':
            src = r[2]
            p = self.poly(env, src) if isint(self.op_ty(src) or '') else None
            to = dty or r[3] if isint(dty or '') else dty
            if p is not None and isint(to or ''):
                ok = self.proves(st, sub(p, con(tmin(to)))) and self.proves(st, sub(con(tmax(to)), p))
                if ok:
                    self.store(env, dest, ('p', p))
                else:
                    f = self.fresh('cast', to)
                    if to == 'usize':
                        self.castof[f] = p
                    self.store(env, dest, ('p', f))
                return st
            v = self.val(env, src)
            if v and v[0] == 'k' and isinstance(v[1], bool) and isint(to or ''):
                self.store(env, dest, ('p', con(int(v[1]))))
                return st
            self.store(env, dest, v if v and v[0] in ('ref', 'p', 'txt') else None)
            return st
        if k == 'discr':
            v = self.load(env, r[1])
            if v and v[0] == 'var':
                self.store(env, dest, ('k', self.discr_of(r[2], v[1])))
            else:
                self.store(env, dest, ('discr', self.place(env, r[1])))
            return st
        if k == 'un':
            v = self.val(env, r[2])
            if r[1] == 'Not':
                self.store(env, dest, self.negate(v) if v and v[0] != 'p' else None)
                return st
            if r[1] == 'Neg':
                p = self.poly(env, r[2], dty)
                self.store(env, dest, ('p', mul(con(-1), p)) if p is not None else None)
                return st
            if r[1] == 'PtrMetadata' and v and v[0] == 'ref':
                self.store(env, dest, ('p', self.length(env, v[1])))
                return st
            self.store(env, dest, None)
            return st
        if k == 'bin':
            return self.binary(env, st, dest, dty, r)
        if k == 'agg':
            fields = [(self.poly(env, o) if self.op_ty(o) and isint(self.op_ty(o)) else None, self.val(env, o)) for o in r[2]]
            srcs = [self.place(env, o[1]) if o[0] in ('c', 'm') else None for o in r[2]]
            parts = []
            for i, sp in enumerate(srcs):
                if sp is not None:
                    for q, w in env.items():
                        if q[:len(sp)] == sp and len(q) > len(sp):
                            parts.append((i, q[len(sp):], w))
            head = None
            base_extra = ()
            if r[1][0] == 'adt':
                a = self.prog.adts.get(r[1][1])
                if (a and a['kind'] == 'Enum') or r[1][1] in ('core::result::Result', 'core::option::Option', 'core::ops::control_flow::ControlFlow'):
                    head = ('var', r[1][3], None)
                    base_extra = (('d', r[1][3]),)
            self.store(env, dest, head)
            base = self.place(env, dest) + base_extra
            if r[1][0] == 'array':
                env[self.place(env, dest) + (LEN,)] = ('p', con(len(r[2])))
                return st
            for i, (p, v) in enumerate(fields):
                w = ('p', p) if p is not None else v
                if w is not None:
                    env[base + (('f', i),)] = w
            for i, rest, w in parts:
                env[base + (('f', i),) + rest] = w
            return st
        self.store(env, dest, None)
        return st

    def op_ty(self, o):
        if o[0] == 'k':
            return o[1].get('ty')
        if len(o[1]) == 1:
            return self.fn.locals[o[1][0]][0]
        v = None
        return v

    def binary(self, env, st, dest, dty, r):
        op = r[1]
        over = op.endswith('WithOverflow')
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        ety = None
        for o in (r[2], r[3]):
            ety = ety or self.op_ty(o)
        if base in NEG:
            a, b2 = self.val(env, r[2]), self.val(env, r[3])
            pa = self.poly(env, r[2], ety) if isint(ety or '') else None
            pb = self.poly(env, r[3], ety) if isint(ety or '') else None
            if pa is not None and pb is not None:
                self.store(env, dest, ('rel', base, sub(pa, pb)))
                return st
            v = None
            if a and b2 and a[0] == 'k' and b2[0] == 'k' and base in ('Eq', 'Ne'):
                v = ('k', (a[1] == b2[1]) == (base == 'Eq'))
            elif base in ('Eq', 'Ne') and b2 and b2[0] == 'k' and isinstance(b2[1], bool) and a:
                v = a if b2[1] == (base == 'Eq') else self.negate(a)
            self.store(env, dest, v)
            return st
        if ety == 'bool':
            a, b2 = self.val(env, r[2]), self.val(env, r[3])
            v = None
            if base == 'BitAnd':
                v = b2 if a == ('k', True) else a if b2 == ('k', True) else ('k', False) if ('k', False) in (a, b2) else ('and', a, b2) if a and b2 else None
            elif base == 'BitOr':
                v = b2 if a == ('k', False) else a if b2 == ('k', False) else ('k', True) if ('k', True) in (a, b2) else ('or', a, b2) if a and b2 else None
            self.store(env, dest, v)
            return st
        if not isint(ety or ''):
            self.store(env, dest, None)
            return st
        pa, pb = self.poly(env, r[2], ety), self.poly(env, r[3], ety)
        res = None
        if pa is not None and pb is not None:
            if base == 'Add':
                res = add(pa, pb)
            elif base == 'Sub':
                res = sub(pa, pb)
            elif base == 'Mul':
                res = mul(pa, pb)
            elif base in ('Div', 'Rem'):
                c = cval(pb)
                f = self.fresh(base.lower(), ety)
                res = f
                if ety in UNSIGNED:
                    if base == 'Div' and c:
                        st = self.learn(st, sub(pa, mul(con(c), f)), sub(add(mul(con(c), f), con(c - 1)), pa)) or st
                    elif base == 'Div':
                        st = self.learn(st, sub(pa, f)) or st
                    elif base == 'Rem':
                        st = self.learn(st, sub(sub(pb, con(1)), f), sub(pa, f)) or st
            elif base == 'BitAnd' and ety in UNSIGNED:
                f = self.fresh('and', ety)
                st = self.learn(st, sub(pb, f), sub(pa, f)) or st
                res = f
            elif base == 'Shl' and cval(pb) is not None and 0 <= cval(pb) < 63:
                res = mul(pa, con(2 ** cval(pb)))
            else:
                res = self.fresh(base.lower(), ety)
        if res is not None and not over and base in ('Add', 'Sub', 'Mul', 'Shl'):
            # unchecked arithmetic: exact only when it fits
            if not (self.proves(st, sub(res, con(tmin(ety)))) and self.proves(st, sub(con(tmax(ety)), res))):
                res = self.fresh('wrap', ety)
        self.store(env, dest, None)
        if res is not None:
            d = self.place(env, dest)
            if over:
                env[d + (('f', 0),)] = ('p', res)
            else:
                env[d] = ('p', res)
        return st

    @staticmethod
    def negate(v):
        if not v:
            return None
        if v[0] == 'rel':
            return ('rel', NEG[v[1]], v[2])
        if v[0] == 'isb':
            return ('isb', v[1], not v[2])
        if v[0] == 'and':
            return ('or', Arith.negate(v[1]), Arith.negate(v[2]))
        if v[0] == 'or':
            return ('and', Arith.negate(v[1]), Arith.negate(v[2]))
        return flow.Flow.negate(v)

    def assume(self, env, st, v, truth):
        """(environment, state) after learning the truth of a boolean, or None when impossible"""
        if v is None:
            return env, st
        if not truth:
            v = self.negate(v)
            if v is None:
                return env, st
        if v[0] == 'k':
            return (env, st) if v[1] else None
        if v[0] == 'rel':
            op, p = v[1], v[2]
            m = mul(con(-1), p)
            one = con(1)
            if op == 'Ge':
                new, imp = [p], sub(m, one)
            elif op == 'Gt':
                new, imp = [sub(p, one)], m
            elif op == 'Le':
                new, imp = [m], sub(p, one)
            elif op == 'Lt':
                new, imp = [sub(m, one)], p
            elif op == 'Eq':
                if self.proves(st, sub(p, one)) or self.proves(st, sub(m, one)):
                    return None
                st = self.learn(st, p, m)
                return (env, st) if st else None
            else:
                if self.proves(st, p) and self.proves(st, m):
                    return None
                new = []
                if self.proves(st, p):
                    new.append(sub(p, one))
                elif self.proves(st, m):
                    new.append(sub(m, one))
                st = self.learn(st, *new)
                return (env, st) if st else None
            if self.proves(st, imp):
                return None
            st = self.learn(st, *new)
            return (env, st) if st else None
        if v[0] == 'and':
            for x in v[1:]:
                r = self.assume(env, st, x, True)
                if r is None:
                    return None
                env, st = r
            return env, st
        if v[0] == 'isb':
            e2 = dict(env)
            cur = e2.get(v[1])
            if cur and cur[0] == 'k' and cur[1] != v[2]:
                return None
            e2[v[1]] = ('k', v[2])
            return e2, st
        if v[0] == 'isvar':
            e2 = dict(env)
            if v[3] or v[2] in (0, 1):
                i = v[2] if v[3] else 1 - v[2]
                cur = e2.get(v[1])
                if cur and cur[0] == 'var' and cur[1] != i:
                    return None
                if cur is None:
                    e2[v[1]] = ('var', i, None)
            return e2, st
        return env, st

    # -- exploration ---------------------------------------------------------------------------------
    def run(self, env0=None, st0=None, start=0):
        facts = frozenset(st0 or ())
        for k in range(80):
            self.changed = False
            self.seen, self.states, self.W = {}, 0, {}
            self.prover = Prover(self.counts)
            self.client.restart(self)
            self.explore(dict(env0 or {}), (facts, ()), start)
            self.restarts = k
            if not self.changed:
                return self
        raise flow.Limit('no stable loop state in %s' % self.fn.path)

    def explore(self, env0, st0, start):
        work = [(start, env0, st0, None)]
        while work:
            b, env, st, frm = work.pop()
            env = self.prune(b, env)
            lp = tuple((h, i) for h, i in st[1] if b in self.loops.get(h, ()))
            st = (st[0], lp)
            if b in self.loops:
                if frm is not None and frm in self.loops[b] and dict(lp).get(b) is not None:
                    self.back(b, env, st, dict(lp)[b])
                    continue
                env, st = self.enter(b, env, st)
            st = (self.facts_for(env, st), st[1])
            key = (frozenset(env.items()), st)
            s = self.seen.setdefault(b, set())
            if key in s:
                continue
            s.add(key)
            self.states += 1
            if self.states > self.limit:
                raise flow.Limit('state limit exceeded in %s' % self.fn.path)
            for nb, ne, ns in self.step(b, dict(env), st):
                work.append((nb, ne, ns, b))

    def facts_for(self, env, st):
        """facts that can still matter"""
        live = set()
        for v in env.values():
            if v[0] == 'p':
                live |= syms(v[1])
            elif v[0] == 'rel':
                live |= syms(v[2])
            elif v[0] == 'txt':
                live |= syms(v[1])
            elif v[0] in ('and', 'or'):
                for x in v[1:]:
                    if x and x[0] == 'rel':
                        live |= syms(x[2])
        for h, i in st[1]:
            for f in self.W[i][3]:
                live |= syms(f)
        facts = [f for f in st[0]]
        ch = True
        out = set()
        while ch:
            ch = False
            for f in facts:
                if f not in out and syms(f) & live:
                    out.add(f)
        return frozenset(out)

    def ints(self, env):
        return {q: v[1] for q, v in env.items() if v[0] == 'p'}

    def enter(self, b, env, st):
        hav, drop = self.hav.setdefault(b, set()), self.dropped.setdefault(b, set())
        ent = dict(env)
        key = (b, frozenset(env.items()), st)
        if key in self.W:
            return dict(self.W[key][0]), (self.W[key][1], st[1] + ((b, key),))
        phi = {}
        for q in list(env):
            if q in drop:
                del env[q]
            elif q in hav and env[q][0] == 'p':
                ty = self.path_ty(env[q][1], q)
                name = 'phi%s@%d.%d:%s' % ('.len' if q[-1] == LEN else '', b, tag(q), ty)
                phi[q] = name
                env[q] = ('p', sym(name))
                if name not in self.notcount and q[-1] != LEN and ty in ('usize', 'u64', 'i64', 'isize'):
                    self.counts.add(name)
        cands = self.candidates(b, ent, env, st, phi)
        facts = set(st[0])
        for cid, ps in cands.items():
            facts |= {p for p in ps if cval(p) is None}
        self.W[key] = (dict(env), frozenset(facts), cands, [f for ps in cands.values() for f in ps], phi, ent)
        return env, (frozenset(facts), st[1] + ((b, key),))

    def path_ty(self, p, q):
        if len(q) == 1:
            ty = self.fn.locals[q[0]][0]
            if isint(ty):
                return ty
        for s in syms(p):
            if isint(sym_ty(s)):
                return sym_ty(s)
        if q[-1] == LEN:
            return 'usize'
        ty = self.field_ty(q)
        return ty if isint(ty or '') else 'i128'

    def field_ty(self, q):
        """type of a field path below a local, by its structure"""
        ty = self.fn.locals[q[0]][0]
        i = 1
        while i < len(q):
            ty = re.sub(r"^&('\w+ )?(mut )?", '', ty)
            e = q[i]
            if e == '*':
                i += 1
                continue
            if isinstance(e, tuple) and e[0] == 'f':
                if ty.startswith('('):
                    parts = [x.strip() for x in ty[1:-1].split(',') if x.strip()]
                    if e[1] >= len(parts):
                        return None
                    ty = parts[e[1]]
                elif re.match(r'core::ops::range::Range', ty):
                    ty = ty[ty.index('<') + 1:-1]
                else:
                    a = self.prog.adts.get(ty.split('<')[0])
                    if not a or a['kind'] != 'Struct' or e[1] >= len(a['variants'][0]['fields']):
                        return None
                    ty = a['variants'][0]['fields'][e[1]][1]
                i += 1
                continue
            return None
        return ty

    def candidates(self, b, ent, env, st, phi):
        """relations between the changing quantities that hold before the loop: {id: [p >= 0 ...]}"""
        out = {}
        ref = self.refuted.setdefault(b, set())
        ints = self.ints(env)
        inv = {q: p for q, p in ints.items() if q not in phi}
        old = self.ints(ent)

        def offer(cid, before, after):
            if cid in ref or cid in out:
                return
            if all(self.proves(st, p) for p in before):
                out[cid] = after
        for q, n in phi.items():
            x, e = sym(n), old[q]
            offer(('mono', q), [], [sub(x, e)])
            offer(('anti', q), [], [sub(e, x)])
            for r, y in inv.items():
                if len(inv) > 60 and cval(y) is not None:
                    continue
                offer(('le', q, r), [sub(y, e)], [sub(y, x)])
                offer(('ge', q, r), [sub(e, y)], [sub(x, y)])
            for r, n2 in phi.items():
                if r == q:
                    continue
                y, f = sym(n2), old[r]
                offer(('lep', q, r), [sub(f, e)], [sub(y, x)])
                if q < r if type(q) == type(r) and str(q) < str(r) else str(q) < str(r):
                    d = sub(sub(x, e), sub(y, f))
                    offer(('delta', q, r), [], [d, mul(con(-1), d)])
            if q[-1] == LEN:
                others = {**{r: (old[r], sym(phi[r])) for r in phi}, **{r: (p, p) for r, p in inv.items() if cval(p) is None}}
                for r1 in phi:
                    if r1[-1] == LEN or r1 == q:
                        continue
                    for r2, (o2, n2) in others.items():
                        if r2[-1] == LEN or r2 == q:
                            continue
                        d0 = sub(e, mul(old[r1], o2))
                        d1 = sub(x, mul(sym(phi[r1]), n2))
                        offer(('prod', q) + tuple(sorted((r1, r2), key=str)), [d0, mul(con(-1), d0)], [d1, mul(con(-1), d1)])
        return out

    def back(self, b, env, st, key):
        W, facts, cands, cf, phi, ent = self.W[key]
        hav, drop, ref = self.hav[b], self.dropped[b], self.refuted[b]
        now = {}
        for q, v in W.items():
            w = env.get(q)
            if q in phi:
                if w is None or w[0] != 'p':
                    drop.add(q)
                    self.changed = True
                    continue
                now[phi[q]] = w[1]
                c = cval(sub(w[1], sym(phi[q])))
                if phi[q] in self.counts and (c is None or c < 0) and not self.countable(w[1], phi[q]):
                    self.counts.discard(phi[q])
                    self.notcount.add(phi[q])
                    self.changed = True
                continue
            if w != v:
                if v[0] == 'p' and w is not None and w[0] == 'p':
                    hav.add(q)
                else:
                    drop.add(q)
                self.changed = True
        if self.changed and len(now) < len(phi):
            return
        for cid, ps in cands.items():
            if cid in ref:
                continue
            for p in ps:
                if not self.proves(st, subst(p, now)):
                    ref.add(cid)
                    self.changed = True
                    break

    def countable(self, p, me):
        return all(c >= 0 and c <= 1024 and (not m or len(m) == 1 and (m[0] in self.counts or m[0] == me or '.len@' in m[0] or m[0].startswith('len@'))) for m, c in p)

    # -- transfer ------------------------------------------------------------------------------------
    def step(self, b, env, st):
        blk = self.fn.blocks[b]
        if blk.c:
            return []
        for i, s in enumerate(blk.s):
            self.at = (b, i)
            if s[0] == '=':
                st = self.assign(env, st, s[1], s[2], b)
        t = blk.t
        k = t[0]
        self.at = (b, 999)
        if k == 'return':
            self.client.ret(self, st, env, b)
            return []
        if k == 'switch':
            return self.switch(b, env, st, t)
        if k == 'assert':
            return self.check_assert(b, env, st, t)
        if k == 'call':
            r = self.client.call(self, st, env, b, t)
            if r is not None:
                return [(t[4], e, s) for s, e in r if t[4] is not None]
            return self.default_call(b, env, st, t)
        return [(x, dict(env), st) for x in mir.isuccs(t)]

    def check_assert(self, b, env, st, t):
        kind = t[3]
        ops = t[4]
        goals = None
        if kind == 'bounds' or kind.startswith('bounds') or kind.startswith('index'):
            ln, ix = self.poly(env, ops[0], 'usize'), self.poly(env, ops[1], 'usize')
            goals = [sub(sub(ln, ix), con(1))] if ln is not None and ix is not None else None
        elif kind.startswith('overflow'):
            op = kind.split(':')[1]
            ty = None
            for o in ops:
                ty = ty or self.op_ty(o)
            if len(ops) == 2 and isint(ty or ''):
                a, c = self.poly(env, ops[0], ty), self.poly(env, ops[1], ty)
                if a is not None and c is not None and op in ('Add', 'Sub', 'Mul'):
                    r = add(a, c) if op == 'Add' else sub(a, c) if op == 'Sub' else mul(a, c)
                    goals = [sub(r, con(tmin(ty))), sub(con(tmax(ty)), r)]
                elif op in ('Shl', 'Shr') and c is not None:
                    goals = [c, sub(con((UNSIGNED.get(ty) or SIGNED.get(ty)) - 1), c)]
        elif kind.startswith('negoverflow') or kind.startswith('overflow_neg'):
            goals = None
        elif 'zero' in kind:
            ty = self.op_ty(ops[0]) if ops else None
            # the divisor is the operand of the comparison that was asserted
            v = self.val(env, t[1])
            if v and v[0] == 'rel':
                ok = self.assume(env, st, v, not t[2] if False else (not bool(t[2])))
                goals = [] if ok is None else None
        good = goals is not None and all(self.proves(st, g) for g in goals)
        if kind != 'other':
            self.client.oblige(self, st, env, b, t, kind, goals, good)
        st2 = st
        if goals:
            st2 = self.learn(st, *goals)
            if st2 is None:
                return []
        v = self.val(env, t[1])
        if v is not None and v[0] == 'rel':
            r = self.assume(env, st2, v, bool(t[2]))
            if r is None:
                return []
            env, st2 = r
        return [(t[5], env, st2)]

    def val(self, env, o):
        if o[0] == 'k':
            v = mir.decode(o[1].get('v'))
            if isinstance(v, int) and not isinstance(v, bool):
                return ('p', con(v))
            if isinstance(v, dict) and 'str' in v:
                return ('k', v['str'])
        return super().val(env, o)

    def switch(self, b, env, st, t):
        o = t[1]
        v = self.val(env, o)
        if t[2] == 'bool':
            out = []
            tt = {x: y for x, y in t[3]}
            for truth in (True, False):
                y = tt.get(int(truth), t[4])
                r = self.assume(dict(env), st, v, truth)
                if r is None:
                    continue
                e2, s2 = r
                if v is None and o[0] in ('c', 'm'):
                    e2[self.place(e2, o[1])] = ('k', truth)
                out.append((y, e2, s2))
            return out
        if v and v[0] == 'p':
            out = []
            rest = st
            for x, y in t[3]:
                d = sub(v[1], con(x))
                r = self.assume(dict(env), st, ('rel', 'Eq', d), True)
                if r is not None:
                    out.append((y, r[0], r[1]))
                if rest is not None:
                    r = self.assume(env, rest, ('rel', 'Ne', d), True)
                    rest = r[1] if r else None
            if rest is not None:
                out.append((t[4], dict(env), rest))
            return out
        if v and v[0] == 'discr':
            cur = env.get(v[1])
            if cur and cur[0] == 'var':
                v = None
        return super().switch(b, env, st, t)

    # -- calls ---------------------------------------------------------------------------------------
    def deref_val(self, env, v):
        n = 0
        while v is not None and v[0] == 'ref' and n < 6:
            v = env.get(v[1])
            n += 1
        return v

    def target(self, env, v):
        """the path a chain of references ends at"""
        n = 0
        p = None
        while v is not None and v[0] == 'ref' and n < 6:
            p = v[1]
            v = env.get(p)
            n += 1
        return p

    def default_call(self, b, env, st, t):
        c = self.client
        nm = mir.callee_name(t[1])
        if t[4] is None:
            c.diverge(self, st, env, b, t)
            return []
        args = [self.val(env, a) for a in t[2]]
        dest = t[3]
        dty = self.fn.locals[dest[0]][0] if len(dest) == 1 else ''
        short = nm.rsplit('::', 1)[-1]

        def done(v=None, **kw):
            self.store(env, dest, v)
            return [(t[4], env, kw.get('st', st))]

        def payload(frm, to):
            n = len(frm)
            for q, w in list(env.items()):
                if q[:n] == frm:
                    env[to + q[n:]] = w
        # containers
        if re.search(r'(Vec|String|VecDeque)(::<.*>)?::(new|with_capacity)$', nm):
            self.store(env, dest, None)
            env[self.place(env, dest) + (LEN,)] = ('p', ZERO)
            return [(t[4], env, st)]
        if nm.endswith('vec::from_elem') and len(t[2]) == 2:
            n = self.poly(env, t[2][1], 'usize')
            self.store(env, dest, None)
            if n is not None:
                env[self.place(env, dest) + (LEN,)] = ('p', n)
                if n in self.castof:
                    # a negative number would have been refused by the allocator
                    d = sub(self.castof[n], n)
                    st = self.learn(st, d, mul(con(-1), d)) or st
            return [(t[4], env, st)]
        if re.search(r'(Vec::<.*>|<impl \[T\]>|<impl str>|String)::(len|is_empty)$', nm) and args:
            if args[0] and args[0][0] == 'ref':
                q = self.target(env, args[0])
                w = env.get(q)
                ln = w[1] if w and w[0] == 'txt' else self.length(env, q)
            elif args[0] and args[0][0] == 'txt':
                ln = args[0][1]
            elif args[0] and args[0][0] == 'k' and isinstance(args[0][1], str):
                ln = con(len(args[0][1]))
            elif t[2][0][0] in ('c', 'm'):
                ln = self.length(env, self.place(env, t[2][0][1]) + ('*',))
            else:
                return done()
            return done(('p', ln) if short == 'len' else ('rel', 'Eq', ln))
        if re.search(r'Vec::<.*>::(push|clear|resize|pop)$', nm) and args and args[0] and args[0][0] == 'ref':
            q = self.target(env, args[0])
            old = self.length(env, q)
            new = None
            if short == 'push':
                new = add(old, con(1))
            elif short == 'clear':
                new = ZERO
            elif short == 'resize':
                new = self.poly(env, t[2][1], 'usize')
            if short == 'pop':
                self.store(env, dest, None)
                new = self.fresh('len', 'usize', '.pop')
                st = self.learn(st, sub(old, new)) or st
            else:
                self.store(env, dest, None)
            if new is not None:
                env[q + (LEN,)] = ('p', new)
            else:
                env.pop(q + (LEN,), None)
            return [(t[4], env, st)]
        if re.search(r'box_assume_init_into_vec_unsafe$|::into_vec$', nm) and t[2] and re.search(r'; (\d+)\]', self.op_ty(t[2][0]) or ''):
            self.store(env, dest, None)
            env[self.place(env, dest) + (LEN,)] = ('p', con(int(re.search(r'; (\d+)\]', self.op_ty(t[2][0])).group(1))))
            return [(t[4], env, st)]
        if re.search(r'<impl \[T\]>::to_vec$', nm) and args and args[0] and args[0][0] == 'ref':
            ln = self.length(env, self.target(env, args[0]))
            self.store(env, dest, None)
            env[self.place(env, dest) + (LEN,)] = ('p', ln)
            return [(t[4], env, st)]
        if re.search(r'Option::<.*>::(as_ref|as_mut)$', nm) and args and args[0] and args[0][0] == 'ref':
            q = args[0][1]
            v = env.get(q)
            self.store(env, dest, ('var', v[1], None) if v and v[0] == 'var' else None)
            env[self.place(env, dest) + (('d', 1), ('f', 0))] = ('ref', q + (('d', 1), ('f', 0)))
            return [(t[4], env, st)]
        if re.search(r'<impl \*(const|mut) T>::add$', nm) and len(args) == 2 and args[0] and args[0][0] == 'ref':
            sp = args[0][1] + (('r', b),)
            k = self.poly(env, t[2][1], 'usize')
            ln = self.length(env, args[0][1])
            self.kill(env, sp)
            if k is not None:
                env[sp + (LEN,)] = ('p', sub(ln, k))
            return done(('ref', sp))
        if re.search(r'::(deref|deref_mut|as_slice|as_mut_slice|as_ref|as_mut|borrow|borrow_mut|as_str|as_bytes|as_ptr|as_mut_ptr|into_boxed_slice|as_mut_data|as_data)$', nm) and args:
            v = args[0]
            if v and v[0] == 'ref':
                tgt = env.get(v[1])
                if tgt and tgt[0] in ('txt', 'ref'):
                    v = tgt
                return done(v)
            if v and v[0] == 'txt':
                return done(v)
            if v is None and t[2][0][0] in ('c', 'm') and self.op_ty(t[2][0]) and self.op_ty(t[2][0]).startswith('&'):
                return done(('ref', self.place(env, t[2][0][1]) + ('*',)))
            return done()
        # texts
        if re.search(r'<impl str>::(trim|trim_start|trim_end|trim_matches|trim_end_matches|trim_start_matches|trim_left|trim_right)$', nm):
            v = self.deref_val(env, args[0]) if args[0] and args[0][0] == 'ref' else args[0]
            was = bool(v and v[0] == 'txt' and v[2])
            lead = short in ('trim', 'trim_start', 'trim_left') or was and short in ('trim_end', 'trim_end_matches', 'trim_right')
            return done(('txt', self.fresh('txtlen', 'usize'), lead))
        if re.search(r'<impl str>::split_whitespace$', nm):
            v = self.deref_val(env, args[0]) if args[0] and args[0][0] == 'ref' else args[0]
            if v and v[0] == 'txt' and v[2]:
                self.store(env, dest, None)
                env[self.place(env, dest) + ('words',)] = v
                return [(t[4], env, st)]
            return done()
        if re.search(r'PartialEq.*::(eq|ne)$', nm) and len(args) == 2:
            vs = [self.deref_val(env, a) if a and a[0] == 'ref' else a for a in args]
            for x, y in (vs, vs[::-1]):
                if x and y and x[0] == 'txt' and y == ('k', ''):
                    return done(('rel', 'Eq' if short == 'eq' else 'Ne', x[1]))
            ps = [v[1] for v in vs if v and v[0] == 'p']
            if len(ps) == 2:
                return done(('rel', 'Eq' if short == 'eq' else 'Ne', sub(ps[0], ps[1])))
            if re.search(r'tuple', nm) and all(a and a[0] == 'ref' for a in args):
                # component by component
                q = [self.target(env, a) for a in args]
                tys = [x.strip() for x in (t[1].get('self') or self.field_ty(q[0]) or '').strip('()').split(',')]
                rels = []
                for i, ty in enumerate(tys):
                    if not isint(ty):
                        continue
                    ps = []
                    for x in q:
                        w = env.get(x + (('f', i),))
                        if not (w and w[0] == 'p'):
                            w = ('p', self.fresh('m', ty, '.' + str(tag(x + (('f', i),)))))
                            if '[]' not in x:
                                env[x + (('f', i),)] = w
                        ps.append(w[1])
                    rels.append(('rel', 'Eq', sub(ps[0], ps[1])))
                if rels and len(rels) == len(tys):
                    v = rels[0]
                    for r in rels[1:]:
                        v = ('and', v, r)
                    return done(v if short == 'eq' else self.negate(v))
            if all(v and v[0] == 'var' for v in vs) and re.search(r'option::Option<', nm + (t[1].get('self') or '')):
                if vs[0][1] != vs[1][1]:
                    return done(('k', short == 'ne'))
                if vs[0][1] == 0:
                    return done(('k', short == 'eq'))
                ps = [env.get(self.target(env, a) + (('d', 1), ('f', 0))) for a in args]
                if all(p and p[0] == 'p' for p in ps):
                    return done(('rel', 'Eq' if short == 'eq' else 'Ne', sub(ps[0][1], ps[1][1])))
                return done()
            if all(v and v[0] == 'var' for v in vs) and vs[0][2] is None:
                a = self.prog.adts.get((t[1].get('self') or '').split('<')[0])
                if a and a['kind'] == 'Enum' and not any(x['fields'] for x in a['variants']):
                    return done(('k', (vs[0][1] == vs[1][1]) == (short == 'eq')))
            known = [v for v in vs if v and v[0] == 'var']
            other = args[0] if vs[0] is None else args[1]
            if len(known) == 1 and other and other[0] == 'ref':
                a = self.prog.adts.get((t[1].get('self') or '').split('<')[0])
                if a and a['kind'] == 'Enum' and not any(x['fields'] for x in a['variants']):
                    q = self.target(env, other)
                    out = []
                    for i in range(len(a['variants'])):
                        e2 = dict(env)
                        e2[q] = ('var', i, None)
                        self.store(e2, dest, ('k', (i == known[0][1]) == (short == 'eq')))
                        out.append((t[4], e2, st))
                    return out
            return done()
        # iteration
        if short == 'into_iter' or short in ('iter', 'iter_mut') and args:
            v = args[0]
            if v and v[0] == 'ref':
                self.store(env, dest, None)
                env[self.place(env, dest) + ('over',)] = ('ref', self.target(env, v))
                return [(t[4], env, st)]
            if t[2][0][0] in ('c', 'm'):
                self.copy(env, dest, t[2][0][1])
                return [(t[4], env, st)]
            return done()
        if short == 'enumerate' and t[2] and t[2][0][0] in ('c', 'm'):
            src = self.place(env, t[2][0][1])
            ov = env.get(src + ('over',))
            self.store(env, dest, None)
            if ov:
                env[self.place(env, dest) + ('enum',)] = ov
            return [(t[4], env, st)]
        if short in ('map', 'rev', 'cloned', 'copied', 'zip') and 'iter' in nm and t[2] and t[2][0][0] in ('c', 'm') and short != 'zip':
            n = self.count(env, st, self.place(env, t[2][0][1]))
            self.store(env, dest, None)
            if n is not None:
                env[self.place(env, dest) + ('cnt',)] = ('p', n)
            return [(t[4], env, st)]
        if short == 'collect' and t[2] and t[2][0][0] in ('c', 'm') and dty.startswith('alloc::vec::Vec<'):
            n = self.count(env, st, self.place(env, t[2][0][1]))
            self.store(env, dest, None)
            if n is not None:
                env[self.place(env, dest) + (LEN,)] = ('p', n)
            return [(t[4], env, st)]
        if NEXT.search(nm) and args and args[0] and args[0][0] == 'ref':
            return self.next(b, env, st, t, args[0][1])
        # results
        if UNWRAP.search(nm) and t[2]:
            good = {'Result': {'unwrap': 0, 'expect': 0, 'unwrap_err': 1, 'expect_err': 1}, 'Option': {'unwrap': 1, 'expect': 1}}['Result' if 'result::Result' in nm else 'Option'][short]
            v = args[0]
            src = self.place(env, t[2][0][1]) if t[2][0][0] in ('c', 'm') else None
            ok = bool(v and v[0] == 'var' and v[1] == good)
            c.oblige(self, st, env, b, t, 'unwrap', None, ok)
            if v and v[0] == 'var' and v[1] != good:
                return []
            self.store(env, dest, v[2] if v and v[0] == 'var' and v[2] is not None else None)
            if src is not None:
                payload(src + (('d', good), ('f', 0)), self.place(env, dest))
            return [(t[4], env, st)]
        if flow.BRANCH.search(nm) and t[2] and t[2][0][0] in ('c', 'm'):
            ty = t[1].get('self') or t[1].get('rpath') or ''
            opt = 'option::Option' in ty.split('<')[0] or ty.startswith('<core::option::Option')
            good = 1 if opt else 0
            src = self.place(env, t[2][0][1])
            v = args[0]
            out = []
            for var in (0, 1):
                if v and v[0] == 'var' and v[1] != var:
                    continue
                e2 = dict(env)
                self.store(e2, dest, ('var', 0 if var == good else 1, None))
                if var == good:
                    n = len(src) + 2
                    pre = src + (('d', good), ('f', 0))
                    d = self.place(e2, dest) + (('d', 0), ('f', 0))
                    for q, w in list(e2.items()):
                        if q[:n] == pre:
                            e2[d + q[n:]] = w
                out.append((t[4], e2, st))
            return out
        if re.search(r'Result::<.*>::map_err$', nm) and t[2][0][0] in ('c', 'm'):
            src = self.place(env, t[2][0][1])
            v = args[0]
            out = []
            for var in (0, 1):
                if v and v[0] == 'var' and v[1] != var:
                    continue
                e2 = dict(env)
                self.store(e2, dest, ('var', var, None))
                if var == 0:
                    pre = src + (('d', 0), ('f', 0))
                    d = self.place(e2, dest) + (('d', 0), ('f', 0))
                    for q, w in list(e2.items()):
                        if q[:len(pre)] == pre:
                            e2[d + q[len(pre):]] = w
                out.append((t[4], e2, st))
            return out
        if re.search(r'::(index|index_mut)$', nm) and 'ops::index::' in nm and len(t[2]) == 2:
            return self.index(b, env, st, t, args)
        if re.search(r'cmp::Ord(?: for \w+)?>?::(min|max)$|cmp::(min|max)$', nm) and len(t[2]) == 2 and isint(dty):
            x, y = self.poly(env, t[2][0], dty), self.poly(env, t[2][1], dty)
            f = self.fresh(short, dty)
            if x is not None and y is not None:
                s2 = self.learn(st, sub(x, f), sub(y, f)) if short == 'min' else self.learn(st, sub(f, x), sub(f, y))
                if short == 'min':
                    self.minof[f] = (x, y)
                return done(('p', f), st=s2 or st)
            return done(('p', f))
        m = re.search(r'Result<(\w+), ', dty)
        if short in ('try_from', 'try_into') and m and isint(m.group(1)) and isint(self.op_ty(t[2][0]) or ''):
            p, ty = self.poly(env, t[2][0]), m.group(1)
            goals = [sub(p, con(tmin(ty))), sub(con(tmax(ty)), p)]
            out = []
            s2 = self.learn(st, *goals)
            if s2 is not None:
                e2 = dict(env)
                self.store(e2, dest, ('var', 0, None))
                e2[self.place(e2, dest) + (('d', 0), ('f', 0))] = ('p', p)
                out.append((t[4], e2, s2))
            if not all(self.proves(st, g) for g in goals):
                self.store(env, dest, ('var', 1, None))
                out.append((t[4], env, st))
            return out
        m = re.search(r'<impl (\w+)>::checked_(add|sub|mul)$', nm)
        if m and isint(m.group(1)) and len(t[2]) == 2:
            x, y, ty = self.poly(env, t[2][0], m.group(1)), self.poly(env, t[2][1], m.group(1)), m.group(1)
            if x is not None and y is not None:
                p = add(x, y) if m.group(2) == 'add' else sub(x, y) if m.group(2) == 'sub' else mul(x, y)
                goals = [sub(p, con(tmin(ty))), sub(con(tmax(ty)), p)]
                out = []
                s2 = self.learn(st, *goals)
                if s2 is not None:
                    e2 = dict(env)
                    self.store(e2, dest, ('var', 1, None))
                    e2[self.place(e2, dest) + (('d', 1), ('f', 0))] = ('p', p)
                    out.append((t[4], e2, s2))
                if not all(self.proves(st, g) for g in goals):
                    self.store(env, dest, ('var', 0, None))
                    out.append((t[4], env, st))
                return out
        if re.search(r'<impl usize>::(saturating_sub|abs_diff)$', nm) and isint(dty):
            x = self.poly(env, t[2][0], dty)
            f = self.fresh(short, dty)
            return done(('p', f), st=(self.learn(st, sub(x, f)) or st) if x is not None and short == 'saturating_sub' else st)
        if short == 'clone' and args and args[0] and args[0][0] == 'ref':
            src = args[0][1]
            if isint(dty) and src not in env and '[]' not in src:
                env[src] = ('p', self.fresh('m', dty, '.' + str(tag(src))))
            top = env.get(src)
            parts = {q[len(src):]: w for q, w in env.items() if q[:len(src)] == src}
            if not any(w[0] == 'ref' for w in parts.values()):
                if src + (LEN,) not in env and re.match(r'alloc::vec::Vec<', dty):
                    parts[(LEN,)] = ('p', self.length(env, src))
                self.store(env, dest, None)
                d = self.place(env, dest)
                for r, w in parts.items():
                    env[d + r] = w
                if top is not None:
                    env[d] = top
                return [(t[4], env, st)]
        got = c.model(self, st, env, b, t, nm, args)
        if got is not None:
            return got
        if nm.endswith('::from_residual') or re.search(r'(Result|Option)::<.*>::(is_err|is_ok|is_some|is_none|ok_or|ok_or_else|ok|err)$', nm):
            return super().default_call(b, env, st, t)
        self.havoc_args(env, t)
        self.store(env, dest, None)
        return [(t[4], env, st)]

    def count(self, env, st, q):
        """how many items an iterator yields, None when unknown"""
        c, ov = env.get(q + ('cnt',)), env.get(q + ('over',)) or env.get(q + ('enum',))
        if c:
            return c[1]
        if ov:
            return self.length(env, ov[1])
        lo, hi = env.get(q + (('f', 0),)), env.get(q + (('f', 1),))
        if lo and hi and lo[0] == 'p' and hi[0] == 'p' and len(q) == 1 and re.match(r'core::ops::range::Range<', self.fn.locals[q[0]][0]):
            d = sub(hi[1], lo[1])
            if self.proves(st, d):
                return d
        return None

    def next(self, b, env, st, t, q):
        dest = t[3]
        nm = mir.callee_name(t[1])
        dty = self.fn.locals[dest[0]][0] if len(dest) == 1 else ''
        if 'range::Range<' in nm or 'range::Range<' in (t[1].get('self') or ''):
            m = re.search(r'Option<(\w+)>', dty)
            ty = m.group(1) if m else 'usize'
            lo, hi = env.get(q + (('f', 0),)), env.get(q + (('f', 1),))
            if isint(ty):
                if not (lo and lo[0] == 'p'):
                    lo = ('p', self.fresh('lo', ty))
                if not (hi and hi[0] == 'p'):
                    hi = ('p', self.fresh('hi', ty))
                out = []
                d = sub(hi[1], lo[1])
                r = self.assume(dict(env), st, ('rel', 'Gt', d), True)
                if r is not None:
                    e2, s2 = r
                    self.store(e2, dest, ('var', 1, None))
                    e2[self.place(e2, dest) + (('d', 1), ('f', 0))] = lo
                    e2[q + (('f', 0),)] = ('p', add(lo[1], con(1)))
                    e2[q + (('f', 1),)] = hi
                    out.append((t[4], e2, s2))
                r = self.assume(dict(env), st, ('rel', 'Le', d), True)
                if r is not None:
                    e2, s2 = r
                    self.store(e2, dest, ('var', 0, None))
                    e2[q + (('f', 0),)], e2[q + (('f', 1),)] = lo, hi
                    out.append((t[4], e2, s2))
                return out
        w = env.get(q + ('words',))
        if w is not None:
            some = self.proves(st, sub(w[1], con(1)))
            out = []
            for var in ((1,) if some else (0, 1)):
                e2 = dict(env)
                del e2[q + ('words',)]
                self.store(e2, dest, ('var', var, None))
                out.append((t[4], e2, st))
            return out
        en = env.get(q + ('enum',))
        ov = env.get(q + ('over',))
        if en is not None or ov is not None:
            out = []
            for var in (0, 1):
                e2, s2 = dict(env), st
                self.store(e2, dest, ('var', var, None))
                if var == 1 and en is not None:
                    i = self.fresh('idx', 'usize')
                    ln = self.length(e2, en[1])
                    s2 = self.learn(s2, sub(sub(ln, i), con(1))) or s2
                    e2[self.place(e2, dest) + (('d', 1), ('f', 0), ('f', 0))] = ('p', i)
                    e2[self.place(e2, dest) + (('d', 1), ('f', 0), ('f', 1))] = ('ref', en[1] + ('[]',))
                elif var == 1:
                    e2[self.place(e2, dest) + (('d', 1), ('f', 0))] = ('ref', ov[1] + ('[]',))
                out.append((t[4], e2, s2))
            return out
        self.havoc_args(env, t)
        out = []
        for var in (0, 1):
            e2 = dict(env)
            self.store(e2, dest, ('var', var, None))
            out.append((t[4], e2, st))
        return out

    def index(self, b, env, st, t, args):
        q = self.target(env, args[0]) if args[0] and args[0][0] == 'ref' else None
        if q is None and t[2][0][0] in ('c', 'm'):
            q = self.place(env, t[2][0][1]) + ('*',)
        nm = mir.callee_name(t[1])
        it = self.op_ty(t[2][1]) or ''
        seq = re.search(r'Vec<|\[T\]|VecDeque|alloc::vec|slice', nm + (t[1].get('self') or '')) and not re.search(r'HashMap|BTreeMap|String|for str', nm)
        dest = t[3]
        if it == 'usize' and seq and q is not None:
            ln, ix = self.length(env, q), self.poly(env, t[2][1], 'usize')
            goals = [sub(sub(ln, ix), con(1))] if ix is not None else None
            good = goals is not None and all(self.proves(st, g) for g in goals)
            self.client.oblige(self, st, env, b, t, 'index', goals, good)
            if goals:
                st = self.learn(st, *goals)
                if st is None:
                    return []
            self.store(env, dest, ('ref', q + ('[]',)))
            return [(t[4], env, st)]
        m = re.match(r'core::ops::range::(Range|RangeTo|RangeFrom|RangeFull|RangeInclusive|RangeToInclusive)\b', it)
        if m and seq and q is not None and t[2][1][0] in ('c', 'm'):
            r = self.place(env, t[2][1][1])
            ln = self.length(env, q)
            k = m.group(1)
            f0, f1 = [env.get(r + (('f', i),)) for i in (0, 1)]
            f0 = f0[1] if f0 and f0[0] == 'p' else None
            f1 = f1[1] if f1 and f1[0] == 'p' else None
            lo = ZERO if k in ('RangeTo', 'RangeFull', 'RangeToInclusive') else f0
            hi = ln if k in ('RangeFrom', 'RangeFull') else f0 if k == 'RangeTo' else add(f0, con(1)) if k == 'RangeToInclusive' and f0 is not None else f1 if k == 'Range' else None
            goals = [sub(hi, lo), sub(ln, hi)] if lo is not None and hi is not None else None
            good = goals is not None and all(self.proves(st, g) for g in goals)
            if k != 'RangeFull':
                self.client.oblige(self, st, env, b, t, 'slice', goals, good)
            if goals:
                st = self.learn(st, *goals)
                if st is None:
                    return []
            sp = q + (('r', b),)
            self.kill(env, sp)
            self.store(env, dest, ('ref', sp))
            if goals:
                env[sp + (LEN,)] = ('p', sub(hi, lo))
            return [(t[4], env, st)]
        self.client.oblige(self, st, env, b, t, 'lookup', None, False)
        self.store(env, dest, None)
        return [(t[4], env, st)]

    def havoc_args(self, env, t):
        for a in t[2]:
            if a[0] not in ('c', 'm'):
                continue
            v = self.val(env, a)
            ty = self.op_ty(a) or ''
            if v and v[0] == 'ref' and (ty.startswith(('&mut', '*mut')) or not ty.startswith(('&', '*'))):
                self.kill_reach(env, v[1])
            elif ty.startswith(('&mut', '*mut')):
                self.kill_reach(env, self.place(env, a[1]) + ('*',))

    def prune(self, b, env):
        lv = self.live[b]
        keep = {}
        work = [p for p in env if p[0] in lv or self.escapes(p)]
        seen = set()
        while work:
            p = work.pop()
            if p in seen or p not in env:
                continue
            seen.add(p)
            v = env[p]
            keep[p] = v
            tgt = v[1] if v[0] in ('ref', 'discr', 'isvar', 'isb') else None
            if v[0] == 'var' and v[2] and v[2][0] == 'ref':
                tgt = v[2][1]
            if tgt:
                for q in env:
                    if q[:len(tgt)] == tgt and q not in seen:
                        work.append(q)
                    elif tgt[:len(q)] == q and env[q][0] == 'ref' and q not in seen:
                        work.append(q)
        return keep


class Client(flow.Client):
    def restart(self, flow):
        pass

    def oblige(self, flow, st, env, b, t, kind, goals, good):
        """a condition the code must meet here to not panic"""

    def length(self, flow, env, path):
        """length of a container the function did not build, or None"""
        return None

    def model(self, flow, st, env, b, t, nm, args):
        return None


def subst(p, m):
    out = ZERO
    for mono, c in p:
        q = con(c)
        for s in mono:
            q = mul(q, m[s]) if s in m else mul(q, sym(s))
        out = add(out, q)
    return out

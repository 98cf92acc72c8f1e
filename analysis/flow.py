"""Forward dataflow over an (inlined) function with a finite abstract domain.

The abstract environment maps access paths to values of a finite domain:
  ('k', c)          a literal (integer, boolean); arithmetic on literals is not folded, so the domain stays finite
  ('var', i, v)     an enumeration value known to be variant i, with abstract payload v (or None)
  ('ref', p)        a reference or raw pointer to the access path p
  ('sym', s)        a value the client tracks
  ('cmp', s, op, c) the outcome of comparing tracked value s with a literal
  ('not', v)        negation of one of the above
  ('discr', p)      the discriminant of the value at access path p
  ('isvar', p, i, pos)  boolean: value at p is (pos) / is not variant i
States of a block are kept apart by (environment, client state), so correlations through flags and
Result/Option values survive joins; infeasible branches of known values are not followed.
"""
import re
from . import mir

LIMIT = 400000


class Limit(mir.AnchorError):
    pass


class Client:
    """client state must be hashable"""

    def start(self, flow):
        return None

    def stmt(self, flow, st, env, b, s):
        return st

    def call(self, flow, st, env, b, t):
        """returns None (default treatment) or a list of (state, env) continuing at the call's target"""
        return None

    def refine(self, flow, st, sym, op, c, truth):
        """state after learning that `sym op c` is truth; None when impossible"""
        return st

    def value(self, flow, st, env, rv):
        """abstract value of an expression the engine does not know, or None"""
        return None

    def ret(self, flow, st, env, b):
        pass

    def diverge(self, flow, st, env, b, t):
        """a call that does not return (panic)"""

    def other_edge(self, flow, st, env, b, t, x):
        return st


NEG = {'Lt': 'Ge', 'Ge': 'Lt', 'Gt': 'Le', 'Le': 'Gt', 'Eq': 'Ne', 'Ne': 'Eq'}
SWAP = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le', 'Eq': 'Eq', 'Ne': 'Ne'}
BRANCH = re.compile(r'Try>?::branch$')
DEREF = re.compile(r'::(deref|deref_mut|as_ref|as_mut|borrow|borrow_mut|as_ptr|as_mut_ptr)$')


class Flow:
    def __init__(self, prog, fn, client, limit=LIMIT):
        self.prog, self.fn, self.client = prog, fn, client
        self.live = live_in(fn)
        self.seen = {}
        self.states = 0
        self.limit = limit
        self.trace = {}
        self.strings = False      # track text constants too
        self.fold = None          # additions of literals are folded up to this value
        self.keep = None          # optional filter (path, value) of the facts carried from block to block

    # -- environment -------------------------------------------------------------------------------
    def place(self, env, p):
        """access path of a place, following known references"""
        cur = (p[0],)
        for e in p[1:]:
            if e == '*':
                v = env.get(cur)
                if v and v[0] == 'ref':
                    cur = v[1]
                else:
                    cur = cur + ('*',)
            elif isinstance(e, tuple) and e[0] == 'f':
                # payload of a known enumeration value
                cur = cur + (('f', e[1]),)
            elif isinstance(e, tuple) and e[0] == 'd':
                cur = cur + (('d', e[1]),)
            elif isinstance(e, tuple) and e[0] in ('i', 'c', 's'):
                cur = cur + ('[]',)
            else:
                cur = cur + (e,)
        return cur

    def load(self, env, p):
        cur = self.place(env, p)
        v = env.get(cur)
        if v is not None:
            return v
        # payload of an aggregate: X.d.f0 with env[X] = ('var', i, payload)
        if len(cur) >= 2 and cur[-1] == ('f', 0):
            base = cur[:-1]
            if isinstance(base[-1], tuple) and base[-1][0] == 'd':
                b = env.get(base[:-1])
                if b and b[0] == 'var' and b[2] is not None and b[1] == base[-1][1]:
                    return b[2]
        return None

    def val(self, env, o):
        if o[0] == 'k':
            v = mir.decode(o[1].get('v'))
            if isinstance(v, (bool, int)) or self.strings and isinstance(v, str):
                return ('k', v)
            if isinstance(v, tuple) and v[0] == 'adt':
                i = self.variant_index(v[1], v[2])
                if i is not None:
                    return ('var', i, None)
            return None
        return self.load(env, o[1])

    def variant_index(self, adt, name):
        std = {'Ok': 0, 'Err': 1, 'None': 0, 'Some': 1, 'Continue': 0, 'Break': 1}
        a = self.prog.adts.get(adt)
        if a:
            for i, v in enumerate(a['variants']):
                if v['name'] == name:
                    return i
        return std.get(name)

    def discr_of(self, adt, idx):
        a = self.prog.adts.get((adt or '').split('<')[0])
        if a:
            d = a['variants'][idx].get('discr')
            return d if d is not None else idx
        return idx

    def kill(self, env, cur):
        n = len(cur)
        for q in [q for q in env if q[:n] == cur]:
            del env[q]
        # facts that mention the path
        for q in [q for q, v in env.items() if v[0] in ('discr', 'isvar', 'isb') and v[1][:n] == cur]:
            del env[q]
        # an enclosing enumeration value loses its payload
        for k in range(1, n):
            b = env.get(cur[:k])
            if b and b[0] == 'var':
                env[cur[:k]] = ('var', b[1], None)

    def store(self, env, p, v):
        cur = self.place(env, p)
        self.kill(env, cur)
        if v is not None:
            env[cur] = v

    def copy(self, env, dst, srcplace):
        """whole-value copy, bringing known parts along"""
        s = self.place(env, srcplace)
        n = len(s)
        parts = {q[n:]: v for q, v in env.items() if q[:n] == s and v[0] != 'discr'}
        top = self.load(env, srcplace)
        d = self.place(env, dst)
        self.kill(env, d)
        for r, v in parts.items():
            env[d + r] = v
        if top is not None:
            env[d] = top

    def rv(self, env, r):
        k = r[0]
        if k == 'use':
            return self.val(env, r[1])
        if k == 'ref' or k == 'raw':
            return ('ref', self.place(env, r[2]))
        if k == 'cast':
            v = self.val(env, r[2])
            if v and v[0] in ('ref', 'sym', 'k'):
                return v
            return None
        if k == 'discr':
            v = self.load(env, r[1])
            if v and v[0] == 'var':
                return ('k', self.discr_of(r[2], v[1]))
            return ('discr', self.place(env, r[1]))
        if k == 'agg' and r[1][0] == 'adt':
            a = self.prog.adts.get(r[1][1])
            if (a and a['kind'] == 'Enum') or r[1][1] in ('core::result::Result', 'core::option::Option', 'core::ops::control_flow::ControlFlow'):
                pay = self.val(env, r[2][0]) if len(r[2]) == 1 else None
                return ('var', r[1][3], pay)
            return None
        if k == 'un' and r[1] == 'Not':
            v = self.val(env, r[2])
            return self.negate(v)
        if k == 'bin':
            op = r[1]
            a, b = self.val(env, r[2]), self.val(env, r[3])
            if a and b and a[0] == 'k' and b[0] == 'k' and op in NEG:
                x, y = a[1], b[1]
                return ('k', {'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y, 'Eq': x == y, 'Ne': x != y}[op])
            if op in ('Eq', 'Ne') and a and b and (a[0] == 'ref' and b == ('k', 0) or b[0] == 'ref' and a == ('k', 0)):
                return ('k', op == 'Ne')
            if op in NEG and a and b:
                if a[0] == 'sym' and b[0] == 'k':
                    return ('cmp', a[1], op, b[1])
                if b[0] == 'sym' and a[0] == 'k':
                    return ('cmp', b[1], SWAP[op], a[1])
                if op in ('Eq', 'Ne') and b[0] == 'k' and isinstance(b[1], bool):
                    pos = (b[1] == (op == 'Eq'))
                    return a if pos else self.negate(a)
            if op == 'BitAnd' and a == ('k', False) or op == 'BitAnd' and b == ('k', False):
                return ('k', False)
            if op == 'BitOr' and (a == ('k', True) or b == ('k', True)):
                return ('k', True)
            if op == 'BitAnd' and a == ('k', True):
                return b
            if op == 'BitAnd' and b == ('k', True):
                return a
            if op == 'BitOr' and a == ('k', False):
                return b
            if op == 'BitOr' and b == ('k', False):
                return a
        return None

    @staticmethod
    def negate(v):
        if not v:
            return None
        if v[0] == 'k' and isinstance(v[1], bool):
            return ('k', not v[1])
        if v[0] == 'cmp':
            return ('cmp', v[1], NEG[v[2]], v[3])
        if v[0] == 'isvar':
            return ('isvar', v[1], v[2], not v[3])
        if v[0] == 'not':
            return v[1]
        return ('not', v)

    # -- exploration -------------------------------------------------------------------------------
    def run(self, env0=None, st0=None, start=0):
        c = self.client
        env0 = dict(env0 or {})
        st0 = c.start(self) if st0 is None else st0
        work = [(start, env0, st0)]
        self.push(work, None)
        while work:
            b, env, st = work.pop()
            env = self.prune(b, env)
            key = (frozenset(env.items()), st)
            s = self.seen.setdefault(b, set())
            if key in s:
                continue
            s.add(key)
            self.states += 1
            if self.states > self.limit:
                raise Limit('state limit exceeded in %s' % self.fn.path)
            work.extend(self.step(b, dict(env), st))
        return self

    def push(self, work, x):
        pass

    def prune(self, b, env):
        lv = self.live[b]
        keep = {}
        work = [p for p in env if p[0] in lv or self.escapes(p)]
        seen = set()
        while work:
            p = work.pop()
            if p in seen or p not in env:
                continue
            seen.add(p)
            v = env[p]
            if self.keep is not None and not self.keep(p, v):
                continue
            keep[p] = v
            tgt = v[1] if v[0] in ('ref', 'discr', 'isvar') else None
            if v[0] == 'var' and v[2] and v[2][0] == 'ref':
                tgt = v[2][1]
            if tgt:
                for q in env:
                    if q[:len(tgt)] == tgt and q not in seen:
                        work.append(q)
        return keep

    def escapes(self, p):
        """facts about memory behind parameters stay (the caller can see it)"""
        return p[0] <= self.fn.argc and p[0] > 0 and '*' in p

    def step(self, b, env, st):
        c = self.client
        blk = self.fn.blocks[b]
        if blk.c:
            return []
        for s in blk.s:
            if s[0] == '=':
                st = c.stmt(self, st, env, b, s)
                if st is False:
                    return []
                p, r = s[1], s[2]
                if r[0] == 'use' and r[1][0] in ('c', 'm'):
                    self.copy(env, p, r[1][1])
                else:
                    v = self.rv(env, r)
                    if v is None:
                        v = c.value(self, st, env, r)
                    fields = None
                    if r[0] == 'agg':
                        fields = [self.val(env, o) for o in r[2]]
                        srcs = [self.place(env, o[1]) if o[0] in ('c', 'm') else None for o in r[2]]
                        sub = []
                        for i, sp in enumerate(srcs):
                            if sp is not None:
                                for q, w in env.items():
                                    if q[:len(sp)] == sp and len(q) > len(sp):
                                        sub.append((i, q[len(sp):], w))
                    total = None
                    if self.fold is not None and r[0] == 'bin' and r[1] in ('Add', 'AddWithOverflow'):
                        x, y = self.val(env, r[2]), self.val(env, r[3])
                        if x and y and x[0] == 'k' and y[0] == 'k' and not isinstance(x[1], bool) and isinstance(x[1], int) and isinstance(y[1], int) and 0 <= x[1] + y[1] <= self.fold:
                            total = ('k', x[1] + y[1])
                    self.store(env, p, total if total and r[1] == 'Add' else v)
                    if total and r[1] != 'Add':
                        env[self.place(env, p) + (('f', 0),)] = total
                    if fields:
                        base = self.place(env, p)
                        if r[1][0] == 'adt' and v is not None and v[0] == 'var':
                            base = base + (('d', r[1][3]),)
                        for i, fv in enumerate(fields):
                            if fv is not None:
                                env[base + (('f', i),)] = fv
                        for i, rest, w in sub:
                            env[base + (('f', i),) + rest] = w
        t = blk.t
        k = t[0]
        if k == 'return':
            c.ret(self, st, env, b)
            return []
        if k == 'switch':
            return self.switch(b, env, st, t)
        if k == 'call':
            r = c.call(self, st, env, b, t)
            if r is None:
                return self.default_call(b, env, st, t)
            return [(t[4], e, s) for s, e in r if t[4] is not None]
        out = []
        for x in mir.isuccs(t):
            out.append((x, env, st))
        return out

    def havoc_args(self, env, t):
        """effects of a call the analysis does not look into"""
        for a in t[2]:
            if a[0] not in ('c', 'm'):
                continue
            v = self.val(env, a)
            ty = self.fn.locals[a[1][0]][0] if len(a[1]) == 1 else ''
            if v and v[0] == 'ref':
                if ty.startswith(('&mut', '*mut', '*const')) or not ty.startswith('&'):
                    self.kill_reach(env, v[1])
            elif ty.startswith(('&mut', '*mut')):
                self.kill_reach(env, self.place(env, a[1]) + ('*',))

    def kill_reach(self, env, p):
        for q in [q for q in env if q[:len(p)] == p]:
            v = env.pop(q)
            if v[0] == 'ref':
                self.kill_reach(env, v[1])
        self.kill(env, p)

    def default_call(self, b, env, st, t):
        c = self.client
        if t[4] is None:
            c.diverge(self, st, env, b, t)
            return []
        nm = mir.callee_name(t[1])
        args = [self.val(env, a) for a in t[2]]
        if BRANCH.search(nm) and args and args[0] and args[0][0] == 'var':
            ty = t[1].get('self') or t[1].get('rpath') or ''
            v = args[0]
            is_opt = 'option::Option' in ty.split('<')[0] or ty.startswith('<core::option::Option')
            ok = (v[1] == 1) if is_opt else (v[1] == 0)
            src = self.place(env, t[2][0][1]) if t[2][0][0] in ('c', 'm') else None
            self.store(env, t[3], ('var', 0, v[2]) if ok else ('var', 1, None))
            return [(t[4], env, st)]
        if BRANCH.search(nm) and t[2] and t[2][0][0] in ('c', 'm'):
            src = self.place(env, t[2][0][1])
            v = self.load(env, t[2][0][1])
            self.store(env, t[3], v if v and v[0] == 'sym' else None)
            return [(t[4], env, st)]
        if nm.endswith('::from_residual'):
            self.store(env, t[3], ('var', 0 if 'Option' in self.fn.locals[t[3][0]][0].split('<')[0] else 1, None))
            return [(t[4], env, st)]
        if re.search(r'Result::<.*>::(is_err|is_ok)$|Option::<.*>::(is_some|is_none)$', nm) and args and args[0] and args[0][0] == 'ref':
            v = env.get(args[0][1])
            one = nm.endswith('is_err') or nm.endswith('is_some')
            if v and v[0] == 'var':
                self.store(env, t[3], ('k', (v[1] == 1) == one))
            else:
                self.store(env, t[3], ('isvar', args[0][1], 1, one))
            return [(t[4], env, st)]
        if re.search(r'Result::<.*>::(map_err|map)$', nm) and args and args[0] and args[0][0] == 'var':
            self.havoc_args(env, t)
            self.store(env, t[3], ('var', args[0][1], None))
            return [(t[4], env, st)]
        if re.search(r'<impl bool>::(then_some|then)$', nm) and args:
            out = []
            for truth, e, s2 in self.split(env, st, t[2][0]):
                self.havoc_args(e, t)
                self.store(e, t[3], ('var', 1, None) if truth else ('var', 0, None))
                out.append((t[4], e, s2))
            return out
        if re.search(r'Option::<.*>::(ok_or|ok_or_else)$', nm) and args and args[0] and args[0][0] == 'var':
            self.havoc_args(env, t)
            self.store(env, t[3], ('var', 0 if args[0][1] == 1 else 1, None))
            return [(t[4], env, st)]
        if re.search(r'Result::<.*>::(ok|err)$', nm) and args and args[0] and args[0][0] == 'var':
            self.havoc_args(env, t)
            self.store(env, t[3], ('var', 1 if (args[0][1] == 0) == nm.endswith('::ok') else 0, None))
            return [(t[4], env, st)]
        if re.search(r'Result::<.*>::and$', nm) and len(args) == 2 and args[0] and args[0][0] == 'var':
            self.store(env, t[3], ('var', 1, None) if args[0][1] == 1 else args[1])
            return [(t[4], env, st)]
        if re.search(r'Result::<.*>::(unwrap|expect)$|Option::<.*>::(unwrap|expect)$', nm) and args and args[0] and args[0][0] == 'var':
            good = 0 if 'Result' in nm else 1
            if args[0][1] != good:
                c.diverge(self, st, env, b, t)
                return []
            self.store(env, t[3], args[0][2])
            return [(t[4], env, st)]
        if DEREF.search(nm) and args and args[0] and args[0][0] == 'ref':
            self.store(env, t[3], ('ref', args[0][1] + ('view',)))
            return [(t[4], env, st)]
        self.havoc_args(env, t)
        self.store(env, t[3], None)
        return [(t[4], env, st)]

    def split(self, env, st, o):
        """feasible outcomes (truth, environment, state) of a boolean operand"""
        v = self.val(env, o)
        neg = False
        while v and v[0] == 'not':
            v = v[1]
            neg = not neg
        out = []
        for truth in (True, False):
            t2 = truth != neg
            if v and v[0] == 'k' and bool(v[1]) != t2:
                continue
            s2, e2 = st, dict(env)
            if v and v[0] == 'cmp':
                s2 = self.client.refine(self, st, v[1], v[2], v[3], t2)
                if s2 is None:
                    continue
            if v and v[0] == 'isvar':
                pos = t2 == v[3]
                if (pos or v[2] in (0, 1)) and v[1] not in e2:
                    e2[v[1]] = ('var', v[2] if pos else 1 - v[2], None)
            out.append((truth, e2, s2))
        return out

    def switch(self, b, env, st, t):
        o = t[1]
        v = self.val(env, o)
        listed = t[3]
        c = self.client
        isbool = t[2] == 'bool'

        def target(val):
            for x, y in listed:
                if x == val:
                    return y
            return t[4]
        if v is None:
            out = []
            cur = self.place(env, o[1]) if o[0] in ('c', 'm') else None
            for x, y in listed:
                e = dict(env)
                if cur is not None:
                    e[cur] = ('k', bool(x) if isbool else x)
                out.append((y, e, st))
            e = dict(env)
            if cur is not None and isbool and len(listed) == 1:
                e[cur] = ('k', not bool(listed[0][0]))
            out.append((t[4], e, st))
            return out
        neg = False
        while v[0] == 'not':
            v = v[1]
            neg = not neg
        if v[0] == 'k':
            return [(target(int(v[1]) if not neg else 1 - int(v[1])), env, st)]
        if v[0] == 'cmp':
            out = []
            for truth in (True, False):
                s2 = c.refine(self, st, v[1], v[2], v[3], truth)
                if s2 is not None:
                    out.append((target(int(truth != neg)), dict(env), s2))
            return out
        if v[0] == 'sym':
            out = []
            for x, y in listed:
                s2 = c.refine(self, st, v[1], 'Eq', bool(x) if isbool else x, True)
                if s2 is not None:
                    out.append((y if not neg else target(1 - x), dict(env), s2))
            s2 = st
            for x, y in listed:
                s2 = c.refine(self, s2, v[1], 'Eq', bool(x) if isbool else x, False)
                if s2 is None:
                    break
            if s2 is not None:
                out.append((t[4] if not neg else target(listed[0][0]), dict(env), s2))
            return out
        if v[0] == 'discr':
            out = []
            for x, y in listed:
                e = dict(env)
                cur = v[1]
                if cur not in e:
                    e[cur] = ('var', x, None)
                out.append((y, e, st))
            e = dict(env)
            out.append((t[4], e, st))
            return out
        if v[0] == 'isvar':
            out = []
            for truth in (True, False):
                e = dict(env)
                pos = (truth == v[3])
                if pos or v[2] in (0, 1):
                    if v[1] not in e:
                        e[v[1]] = ('var', v[2] if pos else 1 - v[2], None)
                out.append((target(int(truth != neg)), e, st))
            return out
        return [(x, dict(env), st) for x in mir.succs(t)]


def live_in(fn):
    """locals live at block entry"""
    if 'live' in fn._cache:
        return fn._cache['live']
    g = mir.cfg(fn)
    use, de = {}, {}

    def uses_place(p, u, d):
        if p[0] not in d:
            u.add(p[0])
        for e in p[1:]:
            if isinstance(e, tuple) and e[0] == 'i' and e[1] not in d:
                u.add(e[1])

    def uses_op(o, u, d):
        if o[0] in ('c', 'm'):
            uses_place(o[1], u, d)
    for b in g.rpo:
        u, d = set(), set()
        blk = fn.blocks[b]
        for s in blk.s:
            if s[0] != '=':
                continue
            r = s[2]
            k = r[0]
            if k in ('use', 'repeat'):
                uses_op(r[1], u, d)
            elif k in ('ref', 'raw'):
                uses_place(r[2], u, d)
            elif k == 'cast':
                uses_op(r[2], u, d)
            elif k == 'bin':
                uses_op(r[2], u, d)
                uses_op(r[3], u, d)
            elif k == 'un':
                uses_op(r[2], u, d)
            elif k == 'discr':
                uses_place(r[1], u, d)
            elif k == 'agg':
                for o in r[2]:
                    uses_op(o, u, d)
            if len(s[1]) == 1:
                d.add(s[1][0])
            else:
                uses_place(s[1], u, d)
        t = blk.t
        if t[0] == 'switch':
            uses_op(t[1], u, d)
        elif t[0] == 'call':
            for a in t[2]:
                uses_op(a, u, d)
            if len(t[3]) > 1:
                uses_place(t[3], u, d)
            else:
                d.add(t[3][0])
        elif t[0] == 'assert':
            uses_op(t[1], u, d)
        elif t[0] == 'return':
            u.add(0)
        use[b], de[b] = u, d
    live = {b: set() for b in range(len(fn.blocks))}
    ch = True
    order = list(reversed(g.rpo))
    while ch:
        ch = False
        for b in order:
            o = set()
            for x in g.succ[b]:
                o |= live[x]
            n = use[b] | (o - de[b])
            if n != live[b]:
                live[b] = n
                ch = True
    fn._cache['live'] = live
    return live

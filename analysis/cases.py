"""Case analysis of a function over the finite set of outcomes of its own conditions.

The conditions of a function are reduced to atoms over normal forms of the compared values: the order of two numbers
(less, equal, greater, and unordered for floating point), the variant of an enumeration, the truth of a flag. A profile
fixes the outcome of every atom met; the dataflow of the function is then followed for that profile. Values the function
does not know are kept as terms (normal forms), nothing is computed with them. A loop over an iterator is followed for one
generic element.
"""
import re
from . import flow, mir


class Need(Exception):
    """the outcome of an atom is missing from the profile"""

    def __init__(self, atom, cells):
        super().__init__(str(atom))
        self.atom, self.cells = atom, cells


class Unknown(Exception):
    """a construct the analysis does not follow"""


INT = re.compile(r'^[iu](8|16|32|64|128|size)$')
CMP = {'Lt': ('lt',), 'Le': ('lt', 'eq'), 'Gt': ('gt',), 'Ge': ('gt', 'eq'), 'Eq': ('eq',), 'Ne': ('lt', 'gt', 'un')}
MIRROR = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq', 'un': 'un'}
# calls that only hand on their argument
SAME = re.compile(r'::(as_str|as_ref|as_mut|deref|deref_mut|borrow|to_owned|clone|into|from|as_bytes|to_string|into_string|copied|cloned|unwrap|expect|to_vec|as_slice|as_mut_slice|iter|iter_mut|into_iter|by_ref)$')


class Cases(flow.Flow):
    def __init__(self, prog, fn, client, profile, limit=20000):
        super().__init__(prog, fn, client, limit)
        self.profile = profile
        self.strings = True
        self.fold = 1 << 20
        self.visits = {}

    # -- atoms ----------------------------------------------------------------------------------------
    def ask(self, atom, cells):
        if atom not in self.profile:
            raise Need(atom, cells)
        return self.profile[atom]

    def order(self, a, b, isfloat):
        """outcome of comparing two values"""
        a, b = self.canon(a), self.canon(b)
        if a == b and not isfloat:
            return 'eq'
        if a[0] == 'k' and b[0] == 'k':
            return 'lt' if a[1] < b[1] else 'gt' if a[1] > b[1] else 'eq'
        swap = repr(a) > repr(b)
        if swap:
            a, b = b, a
        c = self.ask(('order', a, b), ('lt', 'eq', 'gt', 'un') if isfloat else ('lt', 'eq', 'gt'))
        return MIRROR[c] if swap else c

    def canon(self, v):
        """normal form of a compared value, for clients that know more about it"""
        return v

    def truth(self, v):
        """boolean outcome of a value"""
        neg = False
        while v[0] == 'not':
            v = v[1]
            neg = not neg
        if v[0] == 'k':
            return bool(v[1]) != neg
        if v[0] == 'sym':
            return self.ask(('flag', v[1]), (True, False)) != neg
        raise Unknown(str(v)[:80])

    def variant(self, v, adt):
        """variant index of an enumeration value"""
        if v[0] == 'var':
            return v[1]
        a = self.prog.adts.get((adt or '').split('<')[0])
        if a and a['kind'] == 'Enum':
            return self.ask(('variant', v[1]), tuple(range(len(a['variants']))))
        return self.ask(('variant', v[1]), (0, 1))

    # -- values ---------------------------------------------------------------------------------------
    def prune(self, b, env):
        return env

    def term(self, v):
        return v if v is not None else ('sym', ('?',))

    def val(self, env, o):
        if o[0] == 'k':
            v = mir.decode(o[1].get('v'))
            if isinstance(v, (bool, int, float, str)):
                return ('k', v)
            if isinstance(v, tuple) and v and v[0] == 'adt':
                i = self.variant_index(v[1], v[2])
                if i is not None:
                    return ('var', i, None)
            if isinstance(v, list):
                return ('k', tuple(v)) if all(isinstance(x, (int, float, str)) for x in v) else ('sym', ('const', repr(v)))
            return ('sym', ('const', repr(o[1].get('named') or o[1].get('v'))))
        return self.load(env, o[1])

    def load(self, env, p):
        cur = self.place(env, p)
        return self.load_path(env, cur)

    def load_path(self, env, cur):
        v = env.get(cur)
        if v is not None:
            return v
        for k in range(len(cur) - 1, 0, -1):
            b = env.get(cur[:k])
            if b is None:
                continue
            rest = cur[k:]
            if b[0] == 'var' and len(rest) == 2 and rest[0][0] == 'd' and rest[1] == ('f', 0) and b[2] is not None:
                return b[2]
            if b[0] == 'ref' and rest[0] == '*':
                if b[1] + rest[1:] == cur:
                    break
                return self.load_path(env, b[1] + rest[1:])
            if b[0] == 'k' and rest == ('*',):
                return b
            if b[0] == 'var' and rest == ('*',):
                return b
            if b[0] == 'sym':
                return self.project(b[1], rest)
            break
        if 0 < cur[0] <= self.fn.argc:
            return ('sym', ('mem', cur))
        return None

    def project(self, t, rest):
        if t[0] in ('Add', 'Sub', 'Mul') and rest == (('f', 0),):
            return ('sym', t)
        rest = tuple(e for e in rest if e != '*')
        if not rest:
            return ('sym', t)
        # elements of paired iterators
        if t[0] == 'each' and t[1][0] == 'sym' and t[1][1][0] == 'call' and rest[0] in (('f', 0), ('f', 1)):
            c = t[1][1]
            if c[1] == 'zip' and len(c[2]) == 2:
                return self.project(('each', c[2][rest[0][1]]), rest[1:])
            if c[1] == 'enumerate' and rest[0] == ('f', 1):
                return self.project(('each', c[2][0]), rest[1:])
        if t[0] == 'proj':
            return ('sym', ('proj', t[1], t[2] + rest))
        return ('sym', ('proj', t, rest))

    def place(self, env, p):
        cur = (p[0],)
        for e in p[1:]:
            if e == '*':
                v = env.get(cur)
                cur = v[1] if v and v[0] == 'ref' else cur + ('*',)
            elif isinstance(e, tuple) and e[0] == 'f':
                cur = cur + (('f', e[1]),)
            elif isinstance(e, tuple) and e[0] == 'd':
                cur = cur + (('d', e[1]),)
            elif isinstance(e, tuple) and e[0] == 'i':
                cur = cur + (('i', self.term(env.get((e[1],)))),)
            elif isinstance(e, tuple) and e[0] in ('c', 's'):
                cur = cur + (tuple(e),)
            else:
                cur = cur + (e,)
        return cur

    def isfloat(self, o):
        if o[0] == 'k':
            return o[1].get('ty') in ('f64', 'f32')
        ty = self.place_ty(o[1])
        return ty in ('f64', 'f32')

    def place_ty(self, p):
        return self.fn.locals[p[0]][0] if len(p) == 1 else ''

    def rv(self, env, r):
        k = r[0]
        if k == 'bin':
            op = r[1].replace('WithOverflow', '').replace('Unchecked', '')
            a, b = self.val(env, r[2]), self.val(env, r[3])
            if a is None or b is None:
                return None
            if op in CMP and all(v[0] in ('k', 'sym') for v in (a, b)):
                if isinstance(a[1], bool) or isinstance(b[1], bool):
                    if a[0] == 'k' and b[0] == 'k':
                        return ('k', (a[1] == b[1]) == (op == 'Eq'))
                    c, o = (a, b) if a[0] == 'k' else (b, a)
                    return o if c[1] == (op == 'Eq') else self.negate(o)
                return ('k', self.order(a, b, self.isfloat(r[2]) or self.isfloat(r[3])) in CMP[op])
            if op in ('BitAnd', 'BitOr', 'BitXor') and a[0] in ('k', 'sym', 'not') and b[0] in ('k', 'sym', 'not'):
                ty = self.place_ty(r[2][1]) if r[2][0] in ('c', 'm') else r[2][1].get('ty')
                if ty == 'bool':
                    x, y = self.truth(a), self.truth(b)
                    return ('k', {'BitAnd': x and y, 'BitOr': x or y, 'BitXor': x != y}[op])
            if op in ('Add', 'Sub', 'Mul') and a[0] == 'k' and b[0] == 'k' and isinstance(a[1], int) and isinstance(b[1], int):
                return ('k', {'Add': a[1] + b[1], 'Sub': a[1] - b[1], 'Mul': a[1] * b[1]}[op])
            if a[0] in ('k', 'sym') and b[0] in ('k', 'sym'):
                if op in ('Add', 'Mul') and repr(a) > repr(b):
                    a, b = b, a
                return ('sym', (op, a, b))
            return None
        if k == 'un':
            v = self.val(env, r[2])
            if v is None:
                return None
            if r[1] == 'Not':
                return self.negate(v)
            if r[1] == 'Neg' and v[0] == 'k' and not isinstance(v[1], bool):
                return ('k', -v[1])
            return ('sym', (r[1], v))
        if k == 'discr':
            v = self.load(env, r[1])
            if v is None:
                return None
            return ('k', self.discr_of(r[2], self.variant(v, r[2])))
        if k == 'cast':
            return self.val(env, r[2])
        return super().rv(env, r)

    def step(self, b, env, st):
        n = self.visits[b] = self.visits.get(b, 0) + 1
        if n > 8:
            raise Unknown('a loop of %s is not bounded by an iterator' % self.fn.path)
        return super().step(b, env, st)

    def switch(self, b, env, st, t):
        v = self.val(env, t[1])
        if v is None:
            raise Unknown('condition at %s:%d' % t[5])
        if t[2] == 'bool':
            x = int(self.truth(v))
        elif v[0] == 'k':
            x = int(v[1])
        elif v[0] == 'sym':
            cells = tuple(x for x, y in t[3]) + ('other',)
            x = self.ask(('value', v[1]), cells)
        else:
            raise Unknown('condition at %s:%d' % t[5])
        for val, y in t[3]:
            if val == x:
                return [(y, env, st)]
        return [(t[4], env, st)]

    # -- calls ----------------------------------------------------------------------------------------
    def default_call(self, b, env, st, t):
        if t[4] is None:
            self.client.diverge(self, st, env, b, t)
            return []
        nm = mir.callee_name(t[1])
        vals = [self.val(env, a) for a in t[2]]
        # loops
        if nm.endswith('::next') and vals and vals[0] and vals[0][0] == 'ref':
            q = vals[0][1]
            mark = q + ('seen',)
            if mark in env:
                del env[mark]
                self.store(env, t[3], ('var', 0, None))
                return [(t[4], env, st)]
            if re.search(r"'call', '(filter|map|filter_map|flat_map|flatten|skip_while|take_while|map_while|scan|step_by|skip|chain|peekable)'", repr(self.whole(env, q))):
                raise Unknown('an iterator adaptor at %s:%d' % t[5])
            env[mark] = ('k', True)
            self.store(env, t[3], ('var', 1, ('sym', ('each', self.whole(env, q)))))
            return [(t[4], env, st)]
        if nm.endswith('::into_iter') and t[2][0][0] in ('c', 'm'):
            self.copy(env, t[3], t[2][0][1])
            for q in [q for q in env if q[0] == t[3][0] and q[-1] == 'seen']:
                del env[q]
            return [(t[4], env, st)]
        if re.search(r'cmp::PartialEq(<.*>)?>?::(eq|ne)$', nm) and len(vals) == 2:
            xs = [self.behind(env, v) for v in vals]
            ty = (t[1].get('self') or '')
            a = self.prog.adts.get(ty)
            if all(xs) and a and a['kind'] == 'Enum' and not any(v['fields'] for v in a['variants']):
                same = self.variant(xs[0], ty) == self.variant(xs[1], ty)
                self.store(env, t[3], ('k', same == nm.endswith('eq')))
                return [(t[4], env, st)]
        if re.search(r'Try>?::branch$', nm) and vals[0]:
            ty = t[1].get('self') or t[1].get('rpath') or ''
            opt = 'option::Option' in ty.split('<')[0] or ty.startswith('<core::option::Option')
            i = self.variant(vals[0], 'core::result::Result')
            ok = (i == 1) if opt else (i == 0)
            self.store(env, t[3], ('var', 0, vals[0][2] if vals[0][0] == 'var' else ('sym', ('ok', vals[0][1]))) if ok else ('var', 1, None))
            return [(t[4], env, st)]
        if nm.endswith('::from_residual'):
            self.store(env, t[3], ('var', 0 if 'Option' in self.fn.locals[t[3][0]][0].split('<')[0] else 1, None))
            return [(t[4], env, st)]
        if re.search(r'::(index|index_mut|get_unchecked|get_unchecked_mut)$', nm) and len(vals) == 2:
            base = self.behind(env, vals[0])
            self.store(env, t[3], ('sym', ('item', base, self.term(vals[1]))))
            return [(t[4], env, st)]
        if re.search(r'::(unwrap|expect)$', nm) and vals[0] and vals[0][0] == 'var':
            self.store(env, t[3], vals[0][2])
            return [(t[4], env, st)]
        if SAME.search(nm) and len(vals) == 1:
            self.store(env, t[3], vals[0])
            return [(t[4], env, st)]
        for a in t[2]:
            # what a mutable reference leads to is not known any more
            if a[0] in ('c', 'm') and len(a[1]) == 1 and self.fn.locals[a[1][0]][0].startswith('&mut'):
                v = self.val(env, a)
                if v and v[0] == 'ref':
                    self.kill_reach(env, v[1])
        args = tuple(self.whole(env, v[1]) if v and v[0] == 'ref' else self.term(v) for v in vals)
        self.store(env, t[3], ('sym', ('call', re.sub(r'<.*?>', '', nm).rsplit('::', 1)[-1], args)))
        return [(t[4], env, st)]

    def behind(self, env, v):
        """the value a reference leads to"""
        n = 0
        while v is not None and v[0] == 'ref' and n < 8:
            v = self.load_path(env, v[1])
            n += 1
        return v

    def whole(self, env, q):
        """normal form of the contents of a place"""
        v = env.get(q)
        if v is not None:
            return self.behind(env, v) if v[0] == 'ref' else v
        parts = tuple(sorted(((p[len(q):], w) for p, w in env.items() if p[:len(q)] == q and p[-1] != 'seen'), key=repr))
        if parts:
            return ('sym', ('parts', tuple((p, self.behind(env, w) if w[0] == 'ref' else w) for p, w in parts)))
        return self.term(self.load_path(env, q))


def profiles(run, limit=20000):
    """[(profile, result)] over all outcomes of the atoms met; run(profile) may raise Need"""
    out, work = [], [{}]
    n = 0
    while work:
        p = work.pop()
        n += 1
        if n > limit:
            raise flow.Limit('too many cases')
        try:
            out.append((p, run(p)))
        except Need as e:
            work.extend({**p, e.atom: c} for c in e.cells)
    return out

"""Dataflow under the assumption that measured values are not numbers.

From one evaluation of a user-supplied function on, everything it delivers is taken to be NaN. The abstract domain marks the
values that are NaN then ('nan'), those computed from a NaN by an operation that discards it ('lost', for example the maximum
of a NaN and a number) and sizes of containers ('size', taken to be at least one). A comparison with a NaN has one outcome
only; all other comparisons have both. Loops over the elements of containers are taken to run at least once.
"""
import re
from . import counting, flow, mir

NAN, LOST, SIZE, ARGMAX = ('sym', 'nan'), ('sym', 'lost'), ('sym', 'size'), ('sym', 'argmax')
ARITH = ('Add', 'Sub', 'Mul', 'Div', 'Rem')
FLOATY = re.compile(r'\b(f64|f32|Complex)\b')
PLAIN = re.compile(r'^(f64|f32|num_complex::Complex<f64>|num_complex::Complex<f32>)$')
SIZES = re.compile(r'::(dim|len|nrow|ncol|dims|size)$')
SWALLOW = re.compile(r'(<impl f64>|<impl f32>|f64|f32|cmp)::(max|min|clamp)$')
VIEW = re.compile(r'::(index|index_mut|get|get_mut|get_unchecked|get_unchecked_mut|as_data|as_mut_data|as_slice|as_mut_slice|deref|deref_mut|as_ref|as_mut|iter|iter_mut|as_ptr|as_mut_ptr|borrow|borrow_mut|by_ref|enumerate|rev|skip|take|zip|copied|cloned|chunks|windows|unwrap|expect)$')


class Nan(flow.Flow):
    def __init__(self, prog, fn, client, limit=200000):
        super().__init__(prog, fn, client, limit)
        self.compared = set()
        self.tests, self.heads, self.nexts = counting.analyse(prog, fn)

    # -- memory ---------------------------------------------------------------------------------------
    def tag(self, env, cur):
        """mark of the nearest enclosing place"""
        for k in range(len(cur), 0, -1):
            v = env.get(cur[:k])
            if v is not None:
                if v in (NAN, LOST, ('sym', 'num')):
                    return v
                if v[0] == 'var' and k < len(cur) and v[2] in (NAN, LOST):
                    return v[2]
                if k == len(cur):
                    return None
        return None

    def tainted(self, env, cur):
        """a place that is, lies in or contains a NaN"""
        t = self.tag(env, cur)
        if t is not None:
            return t
        n = len(cur)
        below = {v for q, v in env.items() if q[:n] == cur and v in (NAN, LOST)}
        return NAN if NAN in below else LOST if LOST in below else None

    def load(self, env, p):
        v = super().load(env, p)
        if v is None:
            t = self.tag(env, self.place(env, p))
            if t in (NAN, LOST):
                return t
        return v

    def copy(self, env, dst, src):
        s = self.place(env, src)
        t = self.tag(env, s)
        super().copy(env, dst, src)
        d = self.place(env, dst)
        ty = self.ty(dst)
        if t in (NAN, LOST) and (ty is None or FLOATY.search(ty)):
            if env.get(d) is None:
                env[d] = t
        elif env.get(d) in (NAN, LOST) and ty is not None and not FLOATY.search(ty):
            del env[d]
        if env.get(d) is None and ty == 'bool' and len(s) > 1 and s[-1] in self.assigned():
            env[d] = ('flag', s)
        if env.get(d) is None and ty is not None and ty.startswith('alloc::boxed::Box<'):
            env[d] = ('ref', s + ('box',))
        if t is None and env.get(d) is None:
            self.settle(env, d, ty)

    def kill(self, env, cur):
        super().kill(env, cur)
        n = len(cur)
        for q in [q for q, v in env.items() if v[0] == 'flag' and v[1][:n] == cur]:
            del env[q]

    def ty(self, p):
        return self.fn.locals[p[0]][0] if len(p) == 1 else None

    def settle(self, env, d, ty=None):
        """an ordinary value replaces part of a marked object"""
        if len(d) > 1 and '[]' not in d[1:] and self.tag(env, d[:-1]) in (NAN, LOST):
            env[d] = ('sym', 'num')

    def store(self, env, p, v):
        super().store(env, p, v)
        if v is None:
            self.settle(env, self.place(env, p))

    # -- values ---------------------------------------------------------------------------------------
    def val(self, env, o):
        v = super().val(env, o)
        return None if v == ('sym', 'num') else v

    def isfloat(self, o):
        if o[0] == 'k':
            return o[1].get('ty') in ('f64', 'f32')
        t = self.ty(o[1])
        return t is None or t in ('f64', 'f32')

    def rv(self, env, r):
        if id(r) in self.tests:
            return ('last',) + self.tests[id(r)]
        if id(r) in self.heads:
            key, more = self.heads[id(r)]
            first = key + ('seen',) not in env
            env[key + ('seen',)] = ('k', True)
            if env.pop(key, None) is not None or first:
                return ('k', more)
            return None
        if r[0] == 'bin':
            op = r[1].replace('WithOverflow', '').replace('Unchecked', '')
            a, b = self.val(env, r[2]), self.val(env, r[3])
            if op in ARITH:
                if NAN in (a, b):
                    return NAN
                if LOST in (a, b):
                    return LOST
                return None
            if op in flow.NEG:
                if NAN in (a, b):
                    for o, v in ((r[2], a), (r[3], b)):
                        if v == NAN and o[0] != 'k':
                            self.compared.add(self.place(env, o[1]))
                    return ('k', op == 'Ne')
                if a == SIZE and b == ('k', 0):
                    return ('k', op in ('Gt', 'Ge', 'Ne'))
                if b == SIZE and a == ('k', 0):
                    return ('k', op in ('Lt', 'Le', 'Ne'))
                if op == 'Lt' and a == ('k', 0) and r[2][0] != 'k' and b is None and not self.isfloat(r[3]):
                    return ('k', True)
                if any(v in (LOST, SIZE, ARGMAX) for v in (a, b)):
                    return None
        if r[0] == 'un':
            v = self.val(env, r[2])
            if v in (NAN, LOST):
                return v
        if r[0] == 'cast' and r[1] == 'BoxDerefTransmute' and r[2][0] != 'k':
            q = self.place(env, tuple(r[2][1])[:-1])
            v = env.get(q)
            return v if v and v[0] == 'ref' else ('ref', q + ('box',))
        if r[0] == 'cast':
            v = self.val(env, r[2])
            if v in (NAN, LOST) and r[3] not in ('f64', 'f32'):
                return None
        v = super().rv(env, r)
        if v is not None and v[0] == 'cmp':
            return None
        return v

    def assigned(self):
        """fields that are written somewhere (settings are not)"""
        if 'assigned' not in self.fn._cache:
            self.fn._cache['assigned'] = {s[1][-1][:2] for b in mir.cfg(self.fn).rpo for s in self.fn.blocks[b].s if s[0] == '=' and len(s[1]) > 1 and '*' in s[1] and isinstance(s[1][-1], tuple)}
        return self.fn._cache['assigned']

    def switch(self, b, env, st, t):
        """a branch on the copy of a flag tells the flag"""
        v, neg = self.val(env, t[1]), False
        while v is not None and v[0] == 'not':
            v, neg = v[1], not neg
        if v is not None and v[0] == 'last':
            out = []
            for truth in (True, False):
                e = dict(env)
                e.pop(v[1], None)
                if truth == v[2]:
                    e[v[1]] = ('k', True)
                x = int(truth != neg)
                out.append((next((y for w, y in t[3] if w == x), t[4]), e, st))
            return out
        if v is not None and v[0] == 'flag':
            out = []
            for truth in (True, False):
                e = dict(env)
                self.store(e, t[1][1], ('k', truth != neg))
                e[v[1]] = ('k', truth)
                x = int(truth != neg)
                out.append((next((y for w, y in t[3] if w == x), t[4]), e, st))
            return out
        return super().switch(b, env, st, t)

    # -- calls ----------------------------------------------------------------------------------------
    def mark(self, env, cur, t=NAN):
        for q in [q for q in env if q[:len(cur)] == cur and len(q) > len(cur) and env[q][0] != 'ref']:
            del env[q]
        if env.get(cur) is None or env[cur][0] != 'ref':
            env[cur] = t

    def default_call(self, b, env, st, t):
        if t[4] is None:
            self.client.diverge(self, st, env, b, t)
            return []
        nm = mir.callee_name(t[1])
        args = [self.val(env, a) for a in t[2]]
        dty = self.ty(t[3]) or ''
        go = lambda: [(t[4], env, st)]
        if nm.endswith('::next') and args and args[0] and args[0][0] == 'ref':
            q = args[0][1]
            src = env.get(q)
            some = ('var', 1, src if src and src[0] == 'ref' and '&' in dty else None)
            mark = q + ('seen',)
            outs = [1] if mark not in env else [0, 1]
            if b in self.nexts and env.pop(self.nexts[b], None) is not None:
                outs = [1]
            res = []
            for i in outs:
                e = dict(env)
                self.store(e, t[3], some if i else ('var', 0, None))
                e[mark] = ('k', True)
                res.append((t[4], e, st))
            return res
        if nm.endswith('::into_iter') and t[2] and t[2][0][0] in ('c', 'm'):
            self.copy(env, t[3], t[2][0][1])
            d = self.place(env, t[3])
            for q in [q for q in env if q[:len(d)] == d and q[-1] == 'seen']:
                del env[q]
            return go()
        if re.search(r'cmp::PartialEq(<.*>)?>?::(eq|ne)$', nm) and len(args) == 2:
            xs = []
            for v in args:
                while v is not None and v[0] == 'ref':
                    # a reference to a constant holds the constant itself
                    v = env.get(v[1]) or (env.get(v[1][:-1]) if v[1][-1] == '*' else None)
                xs.append(v)
            a = self.prog.adts.get(t[1].get('self') or '')
            if all(v is not None and v[0] == 'var' for v in xs) and a and a['kind'] == 'Enum':
                if xs[0][1] != xs[1][1] or not a['variants'][xs[0][1]]['fields']:
                    self.store(env, t[3], ('k', (xs[0][1] == xs[1][1]) == nm.endswith('eq')))
                    return go()
        m = re.search(r'::is_(nan|finite|infinite|normal)$', nm)
        if m and args:
            v = args[0]
            if v and v[0] == 'ref':
                v = self.tainted(env, v[1])
            self.store(env, t[3], ('k', m.group(1) == 'nan') if v == NAN else None)
            return go()
        if 'partial_cmp' in nm and any(a == NAN or a and a[0] == 'ref' and self.tag(env, a[1]) == NAN for a in args):
            self.store(env, t[3], ('var', 0, None))
            return go()
        if SWALLOW.search(nm) and PLAIN.match(dty):
            k = [a for a in args if a in (NAN, LOST)]
            self.store(env, t[3], NAN if len(args) == 2 and args == [NAN, NAN] else LOST if k else None)
            return go()
        if re.search(r'i[dsz]a?max$|idamax', nm):
            self.store(env, t[3], ARGMAX)
            return go()
        if SIZES.search(nm):
            self.store(env, t[3], SIZE if not dty.startswith('(') else None)
            if dty.startswith('('):
                d = self.place(env, t[3])
                env[d + (('f', 0),)] = SIZE
                env[d + (('f', 1),)] = SIZE
            return go()
        if len(args) == 1 and args[0] == SIZE and re.match(r'^([iu]|core::result::Result<[iu])', dty):
            self.store(env, t[3], SIZE)
            return go()
        if ARGMAX in args and args[0] and args[0][0] == 'ref' and self.tainted(env, args[0][1]):
            if dty.startswith(('&', '*')):
                q = args[0][1] + ('argmax',)
                env[q] = LOST
                self.store(env, t[3], ('ref', q))
            else:
                self.store(env, t[3], LOST)
            return go()
        if flow.BRANCH.search(nm) or nm.endswith('::from_residual') or re.search(r'(Result|Option)::<.*>::(is_err|is_ok|is_some|is_none|map_err|map|ok_or|ok_or_else|ok|err|and|unwrap|expect)$', nm) and args and args[0] and args[0][0] == 'var':
            return super().default_call(b, env, st, t)
        refs = [a[1] for a in args if a and a[0] == 'ref']
        # what closures and tuples capture
        for a in t[2]:
            if a[0] in ('c', 'm') and self.val(env, a) is None:
                base = self.place(env, a[1])
                refs += [w[1] for q, w in env.items() if q[:len(base)] == base and w[0] == 'ref']
        tags = [a for a in args if a in (NAN, LOST)] + [x for x in (self.tainted(env, q) for q in refs) if x in (NAN, LOST)]
        for a in t[2]:
            # objects moved in
            if a[0] in ('c', 'm') and self.val(env, a) is None:
                x = self.tainted(env, self.place(env, a[1]))
                if x in (NAN, LOST):
                    tags.append(x)
        tg = NAN if NAN in tags else LOST if LOST in tags else None
        if dty.startswith(('&', '*')) or VIEW.search(nm) and refs and not PLAIN.match(dty):
            self.store(env, t[3], ('ref', refs[0] + ('[]',)) if refs else None)
            if tg and not refs and FLOATY.search(dty):
                env[self.place(env, t[3])] = tg
            return go()
        for a, v in zip(t[2], args):
            ty = (self.ty(a[1]) if a[0] in ('c', 'm') else '') or ''
            if ty.startswith('&mut') and v and v[0] == 'ref':
                q = v[1]
                for x in [x for x in env if x[:len(q)] == q and env[x] not in (NAN, LOST) and env[x][0] != 'ref' and env[x] != ('sym', 'num')]:
                    del env[x]
                if tg and (FLOATY.search(ty) or 'Vector' in ty or 'Matrix' in ty or 'dyn ' in ty or re.search(r'::\w+$', ty)):
                    self.mark(env, q, tg)
        if tg:
            for a in t[2]:
                ty = (self.ty(a[1]) if a[0] in ('c', 'm') else '') or ''
                if ty in self.prog.closure_by_ty:
                    base = self.place(env, a[1])
                    for q in [w[1] for q, w in env.items() if q[:len(base)] == base and w[0] == 'ref']:
                        self.mark(env, q, tg)
        self.store(env, t[3], None)
        if tg and FLOATY.search(dty):
            d = self.place(env, t[3])
            if dty.startswith(('core::result::Result<f64', 'core::result::Result<f32')):
                e2 = dict(env)
                env[d] = ('var', 0, tg)
                e2[d] = ('var', 1, None)
                return [(t[4], env, st), (t[4], e2, st)]
            if not dty.startswith(('core::result::', 'core::option::')):
                env[d] = tg
        return go()

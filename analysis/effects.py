"""Caller-visible memory effects of functions (which parts of the arguments are read and written).

Paths are tuples: a root ('arg', i) or ('loc', l) followed by field names and '[]' for elements. Dereferences are
dropped: the path of an argument stands for the argument and for what it refers to.
"""
import re
from . import mir

DEPTH = 6
# std functions that only hand out a pointer into (or an iterator over) their receiver
HANDOUT = re.compile(r'(::deref|::deref_mut|::as_ref|::as_mut|::as_deref|::as_deref_mut|::as_ptr|::as_mut_ptr|::as_slice|::as_mut_slice|::borrow|::borrow_mut|::index|::index_mut|::iter|::iter_mut|'
                     r'::into_iter|::chunks|::chunks_mut|::chunks_exact|::chunks_exact_mut|::split_at|::split_at_mut|::get|::get_mut|::get_unchecked|::get_unchecked_mut|::first|::first_mut|::last|::last_mut|'
                     r'::by_ref|::zip|::enumerate|::rev|::skip|::take|::step_by|::chain|::peekable|::windows|::unwrap|::expect|::ok_or|::branch|::from_residual|::from_output|::map_err|::new|::from|::into|'
                     r'slice::from_raw_parts|slice::from_raw_parts_mut|::as_chunks|::as_mut|::cloned|::copied|::values|::values_mut|::keys|::entry|::or_insert|::or_insert_with)$')
SHAPE = re.compile(r'(::len|::is_empty|::capacity)$')
POINTERY = re.compile(r"&|\*mut|\*const|Iter\b|Iter<|IterMut|Chunks|Zip<|Enumerate<|Rev<|Skip<|Take<|StepBy<|Chain<|Peekable<|\{closure@|Drain<|Windows|Entry<|RefMut<|Ref<|MutexGuard|dyn ")


# an error message refers to constant text
MESSAGE = re.compile(r", &('\w+ )?str>")
SCALAR = {'usize', 'isize', 'i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'f32', 'f64', 'bool', 'char', '()'}


def extend(p, rest):
    q = tuple(p) + tuple(rest)
    return q[:DEPTH]


def rest_of(proj):
    out = []
    for e in proj:
        if e == '*' or isinstance(e, tuple) and e[0] == 'd':
            continue
        if isinstance(e, tuple) and e[0] == 'f':
            out.append(e[2] if isinstance(e[2], str) and e[2] else e[1])
        else:
            out.append('[]')
    return out


class FnEffects:
    """points-to sets of one function"""

    def __init__(self, eff, fn):
        self.eff, self.fn = eff, fn
        self.g = mir.cfg(fn)
        self.pts = {}
        self.solve()

    def get(self, l):
        return self.pts.get(l, frozenset())

    def place(self, p):
        """memory a place denotes: set of paths"""
        l = p[0]
        if '*' in p[1:]:
            i = p.index('*')
            pre = rest_of(p[1:i])
            base = self.get(l)
            if 0 < l <= self.fn.argc and not self.fn.locals[l][0].startswith(('&', '*')) and pre:
                base = base | {(('arg', l),) + tuple(pre)}
            return {extend(b, rest_of(p[i + 1:])) for b in base}
        if 0 < l <= self.fn.argc:
            return {extend((('arg', l),), rest_of(p[1:]))}
        return {extend((('loc', l),), rest_of(p[1:]))}

    def pointers(self, o):
        """what an operand may point to, including what it carries"""
        if o[0] not in ('c', 'm'):
            return frozenset()
        p = o[1]
        if len(p) == 1:
            return self.get(p[0])
        if '*' in p[1:]:
            # a pointer stored in memory: the path goes on; or carried by a local container
            out = set(self.place(p))
            for b in self.get(p[0]):
                if b[0][0] == 'loc':
                    out |= self.get(b[0][1])
            return frozenset(out)
        return self.get(p[0])

    def carried(self, o):
        """pointers of an operand, followed through local containers"""
        out, work = set(), list(self.pointers(o))
        while work:
            b = work.pop()
            if b in out:
                continue
            out.add(b)
            if b[0][0] == 'loc':
                work.extend(self.get(b[0][1]))
        return out

    def solve(self):
        fn = self.fn
        for i in range(1, fn.argc + 1):
            self.pts[i] = frozenset({(('arg', i),)})
        ch = True
        n = 0
        while ch and n < 40:
            ch = False
            n += 1
            for bi in self.g.rpo:
                b = fn.blocks[bi]
                for s in b.s:
                    if s[0] == '=':
                        v = self.rv(s[2])
                        if v:
                            ch |= self.add(s[1], v)
                t = b.t
                if t[0] == 'call':
                    ty = fn.locals[t[3][0]][0]
                    if POINTERY.search(MESSAGE.sub('>', ty)):
                        v = set()
                        idx = t[1].get('trait') in ('core::ops::index::Index', 'core::ops::index::IndexMut') and (t[1].get('args') or [''])[-1] == 'usize'
                        ret = self.eff.returns(t[1])
                        for k, a in enumerate(t[2]):
                            if ret is not None and k + 1 not in ret:
                                continue
                            c = self.carried(a)
                            if ret is not None:
                                for x in c:
                                    for r in ret[k + 1]:
                                        v.add(extend(x, r))
                            elif idx and k == 0:
                                v |= {extend(x, ['[]']) for x in c}
                            else:
                                v |= c
                        if v:
                            ch |= self.add(t[3], frozenset(v))
        return self

    def add(self, p, v):
        l = p[0]
        if '*' in p[1:] or self.fn.locals[l][0] in SCALAR or self.eff.bare(self.fn.locals[l][0]):
            return False
        old = self.get(l)
        new = old | v
        if len(new) > 60:
            new = frozenset({x[:2] for x in new})
        if new != old:
            self.pts[l] = new
            return True
        return False

    def rv(self, r):
        k = r[0]
        if k in ('ref', 'raw'):
            out = set(self.place(r[2]))
            return frozenset(out)
        if k == 'use' or k == 'repeat':
            return self.pointers(r[1])
        if k == 'cast':
            return self.pointers(r[2])
        if k == 'agg':
            out = set()
            for o in r[2]:
                out |= self.pointers(o)
            return frozenset(out)
        return frozenset()

    # -- effects -----------------------------------------------------------------------------------
    def stmt(self, s):
        """[(kind, path, line)] of a statement"""
        if s[0] != '=':
            return []
        out = []
        for o in mir_operands(s[2]):
            out += self.read_op(o, s[3])
        if s[2][0] == 'discr':
            out += [('r', q, s[3]) for q in self.place(s[2][1]) if q[0][0] == 'arg']
        out += [('w', q, s[3]) for q in self.place(s[1]) if q[0][0] == 'arg' and '*' in s[1][1:]]
        return out

    def read_op(self, o, ln):
        if o[0] in ('c', 'm') and len(o[1]) > 1:
            return [('r', q, ln) for q in self.place(o[1]) if q[0][0] == 'arg']
        return []

    def call(self, t):
        """[(kind, path, line)] of a call; kinds r, w, s (shape), cb (user function; path None)"""
        ln = t[5]
        out = []
        for a in t[2]:
            out += self.read_op(a, ln)
        if '*' in t[3][1:]:
            out += [('w', q, ln) for q in self.place(t[3]) if q[0][0] == 'arg']
        fns = self.eff.callees(t[1])
        if fns is not None:
            for cf in fns:
                for k, p in self.eff.summary(cf):
                    if k == 'cb':
                        out.append(('cb', None, ln))
                        continue
                    i = p[0][1]
                    if i - 1 >= len(t[2]):
                        continue
                    for q in self.carried(t[2][i - 1]):
                        if q[0][0] == 'arg':
                            out.append((k, extend(q, p[1:]), ln))
            return out
        if mir.is_user_callback(t[1]):
            out.append(('cb', None, ln))
        nm = mir.callee_name(t[1])
        if HANDOUT.search(nm):
            if re.search(r'::(unwrap|expect|from|into|get|first|last|cloned|copied|index|new)$', nm):
                pass
            return out
        for a in self.spread(t[2]):
            if a[0] not in ('c', 'm'):
                continue
            l = a[1][0]
            ty = self.fn.locals[l][0] if len(a[1]) == 1 else ''
            mut = ty.startswith(('&mut ', '*mut ')) or not ty.startswith(('&', '*')) and re.search(r'&mut |\*mut |IterMut|ChunksMut|ChunksExactMut', ty)
            if ty.startswith('&mut ') and re.match(r'&mut (core::(iter|slice::iter|ops::range|str|option)|std::collections::hash::map)::', ty):
                mut = re.search(r'&mut |\*mut |IterMut|ChunksMut|ChunksExactMut|ValuesMut', ty[5:])
            for q in (self.carried(a) if not re.search(r'Iterator>?::next|::next$|::next_back$', nm) else ()):
                if q[0][0] != 'arg':
                    continue
                if SHAPE.search(nm):
                    out.append(('s', q, ln))
                else:
                    out.append(('r', q, ln))
                    if mut:
                        out.append(('w', q, ln))
            if '{closure@' in ty:
                cf = self.eff.closure(ty)
                if cf is not None:
                    env = self.carried(a)
                    others = set()
                    for b in t[2]:
                        if b is not a:
                            others |= self.carried(b)
                    for k, p in self.eff.summary(cf):
                        if k == 'cb':
                            out.append(('cb', None, ln))
                            continue
                        for q in (env if p[0][1] == 1 else others):
                            if q[0][0] == 'arg':
                                out.append((k, extend(q, [x for x in p[1:] if not isinstance(x, int)]), ln))
        return out

    def spread(self, ops):
        """operands, with tuples built for the call replaced by their parts"""
        out = []
        v = mir.values(self.fn)
        for a in ops:
            if a[0] in ('c', 'm') and len(a[1]) == 1:
                d = v.single(a[1][0])
                if d is not None and d[2] == 'rv' and d[3][0] == 'agg' and d[3][1][0] == 'tuple':
                    out += list(d[3][2])
                    continue
            out.append(a)
        return out

    def block(self, bi):
        b = self.fn.blocks[bi]
        out = []
        for s in b.s:
            out += self.stmt(s)
        t = b.t
        if t[0] == 'call':
            out += self.call(t)
        elif t[0] == 'switch':
            out += self.read_op(t[1], t[5])
        return out


def mir_operands(r):
    k = r[0]
    if k in ('use', 'repeat'):
        return [r[1]]
    if k == 'cast':
        return [r[2]]
    if k == 'bin':
        return [r[2], r[3]]
    if k == 'un':
        return [r[2]]
    if k == 'agg':
        return list(r[2])
    return []


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.sums, self.busy, self.fes, self.rets = {}, set(), {}, {}

    def of(self, fn):
        fe = fn._cache.get('effects')
        if fe is None:
            fe = fn._cache['effects'] = FnEffects(self, fn)
        return fe

    def bare(self, ty):
        """an enumeration without contents"""
        a = self.prog.adts.get(ty)
        return bool(a and a['kind'] == 'Enum' and not any(v['fields'] for v in a['variants']))

    def closure(self, ty):
        m = re.search(r'\{closure@[^}]*\}', ty)
        k = m and self.prog.closure_by_ty.get(m.group(0))
        return self.prog.fns.get(k) if isinstance(k, str) else k

    def callees(self, c):
        """workspace functions a call may run, or None"""
        cf = self.prog.callee_fn(c)
        if cf is not None:
            return [cf]
        if c.get('trait') and (c.get('rk') == 'virtual' or 'dyn ' in c.get('self', '')):
            fs = self.prog.implementations(c)
            if fs:
                return list(fs)
        return None

    def returns(self, c):
        """for a workspace callee: argument -> set of path suffixes its result may point to"""
        fs = self.callees(c)
        if fs is None:
            return None
        out = {}
        for cf in fs:
            if cf.key not in self.rets:
                if cf.key in self.busy:
                    return None
                self.summary(cf)
                fe = cf._cache.get('effects')
                r = {}
                for q in (fe.carried(('c', (0,))) if fe else ()):
                    if q[0][0] == 'arg':
                        r.setdefault(q[0][1], set()).add(q[1:])
                self.rets[cf.key] = r
            for i, x in self.rets[cf.key].items():
                out.setdefault(i, set()).update(x)
        return out

    def summary(self, fn):
        """frozenset of (kind, path)"""
        if fn.key in self.sums:
            return self.sums[fn.key]
        if fn.key in self.busy:
            return frozenset()
        self.busy.add(fn.key)
        fe = self.of(fn)
        out = set()
        for bi in fe.g.rpo:
            if fn.blocks[bi].c:
                continue
            for k, q, ln in fe.block(bi):
                out.add((k, q))
        self.busy.discard(fn.key)
        self.sums[fn.key] = frozenset(out)
        return self.sums[fn.key]


def show(fn, q):
    out = fn.name(q[0][1]) or 'argument %d' % q[0][1]
    for e in q[1:]:
        out += '[..]' if e == '[]' else '.%s' % e
    return out

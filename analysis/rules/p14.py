"""P14: changing a parameter equals constructing with it."""
import re
from .. import deps, mir
from ..report import Report

RULE = ('for every object whose constructor stores an argument in one field and computes other fields from the same argument, every method that later replaces the stored value from its own arguments also writes each '
        'computed field on every path that succeeds, and not from the value the parameter had before; parts of the parameter that the method refuses to change are exempt')


def owner(prog, fn):
    """structure whose value a constructor returns and the path of that value"""
    if not fn.impl_self or fn.kind == 'Closure':
        return None
    adt = fn.impl_self.split('<')[0]
    if adt not in prog.adts or prog.adts[adt]['kind'] != 'Struct':
        return None
    if any(adt in x and i == 0 and x.startswith('&') for i, x in enumerate(fn.ins)):
        return None
    out = re.sub(r"<.*", '', fn.out)
    if out == adt:
        return adt, (0,)
    if fn.out.startswith('core::result::Result<' + adt):
        return adt, (0, ('d', 0), ('f', 0))
    return None


def near(prog, home):
    """calls expanded: methods of the same type and private helpers of its module"""
    def want(cf, t, stack):
        if cf.kind == 'Closure':
            return True
        return bool(cf.impl_self) and cf.impl_self.split('<')[0] == home or cf.path.rsplit('::', 1)[0] == home.rsplit('::', 1)[0] and len(cf.blocks) < 60
    return want


def related(a, b):
    n = min(len(a), len(b))
    return a[:n] == b[:n]


def construct(prog, fn, adt, base):
    """per field: (exact input path or None, atoms)"""
    inl = mir.inline(prog, fn, near(prog, adt), max_depth=4, max_blocks=4000)
    d = deps.Deps(prog, inl)
    env = d.final()
    if env is None:
        return None
    out = {}
    for i, f in enumerate(prog.adts[adt]['variants'][0]['fields']):
        q = base + (('f', i),)
        atoms = d.read(env, q)
        top = d.read(env, q, sub=False)
        exact = [p for k, p in top if k == 'in']
        out[i] = (exact[0] if len(exact) == 1 and len(atoms) == 1 else None, atoms)
    return out


class Written:
    """which of two fields a method has replaced, per path"""

    def __init__(self, prog, inl):
        self.prog, self.inl = prog, inl
        self.d = deps.Deps(prog, inl, control=False)
        self.ev = {}
        for b in self.d.reach:
            if b in self.d.at:
                self.ev[b] = self.events(b)

    def events(self, b):
        """places behind self written in the block: (place, assigned as a whole)"""
        env = dict(self.d.at[b])
        out = set()
        self.values = getattr(self, 'values', [])
        pr = object.__new__(deps.Deps)
        pr.__dict__.update(self.d.__dict__)

        def write(env, places, atoms, tg, parts=None):
            mine = [q for q in places if q[0] == 1 and len(q) > 2]
            out.update((q, True) for q in mine)
            self.values += [(q, atoms) for q in mine]
            deps.Deps.write(pr, env, places, atoms, tg, parts)
        pr.write = write
        pr.block(b, env)
        t = self.inl.blocks[b].t
        if t[0] == 'call' and t[4] is not None:
            for a in t[2]:
                if a[0] in ('c', 'm'):
                    ty = self.inl.locals[a[1][0]][0] if len(a[1]) == 1 else ''
                    if ty.startswith('&mut') or ty.startswith('*mut'):
                        out.update((q, False) for q in self.d.operand(env, a)[1] if q[0] == 1 and len(q) > 2)
        return out

    def outcomes(self, f, dfield):
        """set of (f written, d written, parts of f known to stay the same) at successful returns"""
        state = {0: {(False, False, frozenset())}}
        work = [0]
        res = set()
        while work:
            b = work.pop()
            ev = self.ev.get(b, ())
            fw = any(related(q, f) for q, _ in ev)
            dw = any(related(q, dfield) for q, _ in ev)
            new = {(x or fw, y or dw, e) for x, y, e in state[b]}
            if b in self.d.exits:
                res |= new
            eq = self.equal(b, f)
            for x in self.d.g.successors(b) if b in self.d.reach else ():
                nx = new
                if eq and x == eq[0]:
                    nx = {(p, q, e | eq[1]) for p, q, e in new}
                if not nx <= state.get(x, set()):
                    state[x] = state.get(x, set()) | nx
                    work.append(x)
        return res

    def equal(self, b, f):
        """(block reached when old and new value agree, parts of f compared)"""
        t = self.inl.blocks[b].t
        if t[0] != 'switch' or b not in self.d.at:
            return None
        c = comparison(self.inl, b, t[1])
        if c is None:
            return None
        op, sides = c
        env = dict(self.d.at[b])
        self.d.block(b, env)
        x, y = (behind(self.d, env, o) for o in sides)
        parts = frozenset(p[len(f):] for u, v in ((x, y), (y, x)) for p in u if p[:len(f)] == f and any(q[0] != 1 for q in v))
        zero = [to for v, to in t[3] if v == 0]
        if not parts or not zero or zero[0] == t[4]:
            return None
        return (t[4] if op == 'eq' else zero[0]), parts


def fixed_paths(prog, inl, arg):
    """parts of an argument that must equal something for the function to go on: compared, unequal means error"""
    d = deps.Deps(prog, inl)
    out = set()
    cut = set(range(len(inl.blocks))) - d.reach
    for b in range(len(inl.blocks)):
        t = inl.blocks[b].t
        if t[0] != 'switch' or b not in d.at or t[2] != 'bool':
            continue
        ss = {v: x for v, x in t[3]}
        zero, other = ss.get(0), t[4]
        dead = [(v, x) for v, x in ((0, zero), (1, other)) if x is not None and (x in cut)]
        if len(dead) != 1:
            continue
        c = comparison(inl, b, t[1])
        if c is None:
            continue
        op, sides = c
        if (op == 'ne') != (dead[0][0] == 1):
            continue
        env = dict(d.at[b])
        d.block(b, env)
        for o in sides:
            for q in behind(d, env, o):
                if q[0] == arg:
                    out.add(q)
    return out


def behind(d, env, o):
    a, t = d.operand(env, o)
    res = {p for k, p in a if k == 'in'}
    for q in t:
        res |= {p for k, p in d.read(env, q) if k == 'in'}
    return res


def comparison(inl, b, o):
    """(eq|ne, operands) behind a boolean"""
    if o[0] not in ('c', 'm') or len(o[1]) != 1:
        return None
    l = o[1][0]
    for i, blk in enumerate(inl.blocks):
        for s in blk.s:
            if s[0] == '=' and s[1] == (l,) and s[2][0] == 'bin' and s[2][1] in ('Eq', 'Ne'):
                return s[2][1].lower(), [s[2][2], s[2][3]]
        t = blk.t
        if t[0] == 'call' and t[3] == (l,):
            m = re.search(r'PartialEq.*::(eq|ne)$', mir.callee_name(t[1]))
            if m:
                return m.group(1), list(t[2])
    return None


def exempt(prog, fn, arg, callers):
    """parts of the argument no caller lets change"""
    inl = mir.inline(prog, fn, near(prog, fn.impl_self.split('<')[0]), max_depth=3, max_blocks=4000) if fn.impl_self else fn
    own = fixed_paths(prog, inl, arg)
    if fn.reach:
        return own
    cs = callers(fn)
    if not cs:
        return own
    res = None
    for caller, b, t in cs:
        a = t[2][arg - 1] if arg - 1 < len(t[2]) else None
        got = set()
        if a and a[0] in ('c', 'm'):
            d = deps.Deps(prog, caller)
            if b in d.at:
                env = dict(d.at[b])
                d.block(b, env)
                src = {p for k, p in d.operand(env, a)[0] if k == 'in'}
                for p in src:
                    for q in fixed_paths(prog, caller, p[0]):
                        if q[:len(p)] == p:
                            got.add((arg,) + q[len(p):])
        res = got if res is None else res & got
    return own | (res or set())


def check():
    rep = Report('P14', RULE)
    prog = mir.Program()
    cons, methods = {}, {}
    for fn in prog.fns.values():
        o = owner(prog, fn)
        if o:
            cons.setdefault(o[0], []).append((fn, o[1]))
        if fn.impl_self and fn.ins and fn.ins[0].startswith('&mut') and fn.impl_self.split('<')[0] in fn.ins[0] and len(fn.ins) > 1:
            methods.setdefault(fn.impl_self.split('<')[0], []).append(fn)
    calls = {}

    def callers(fn):
        if not calls:
            for f in prog.fns.values():
                for i, b in enumerate(f.blocks):
                    if not b.c and b.t[0] == 'call':
                        nm = mir.callee_name(b.t[1]).split('::')[-1]
                        calls.setdefault(nm, []).append((f, i, b.t))
        nm = fn.path.split('::')[-1]
        out = []
        for f, i, t in calls.get(nm, ()):
            cf = prog.callee_fn(t[1])
            tr = t[1].get('trait')
            if cf is fn or fn.impl_trait and tr and tr in str(fn.impl_trait):
                out.append((f, i, t))
        return out
    cache = {}

    def views(m):
        if m.key not in cache:
            inl = mir.inline(prog, m, near(prog, m.impl_self.split('<')[0]), max_depth=4, max_blocks=4000)
            cache[m.key] = Written(prog, inl) if len(inl.blocks) <= 3000 else None
        return cache[m.key]
    for adt in sorted(set(cons) & set(methods)):
        rep.count('objects with constructors and mutators')
        fields = prog.adts[adt]['variants'][0]['fields']
        pairs = {}        # (param field, derived field) -> sub paths of the parameter
        for fn, base in cons[adt]:
            try:
                c = construct(prog, fn, adt, base)
            except RecursionError:
                c = None
            if not c:
                rep.count('constructors not understood')
                continue
            rep.count('constructors')
            for i, (q, _) in c.items():
                if q is None or not (0 < q[0] <= fn.argc):
                    continue
                for j, (q2, atoms) in c.items():
                    if j == i:
                        continue
                    for k, p in atoms:
                        if related(p, q) and p[0] == q[0]:
                            pairs.setdefault((i, j), set()).add(p[len(q):] if len(p) >= len(q) else ())
        if not pairs:
            continue
        rep.count('derived fields', len({j for i, j in pairs}))
        for m in methods[adt]:
            w = views(m)
            if w is None:
                rep.count('methods too large')
                continue
            env = w.d.final()
            if env is None:
                continue
            rep.count('methods examined')
            for i in sorted({i for i, j in pairs}):
                f = (1, '*', ('f', i))
                subs, direct = set(), set()
                for q in {q for ev in w.ev.values() for q, whole in ev if whole and q[:len(f)] == f and '[]' not in q and '*' not in q[2:]}:
                    new = w.d.read(env, q)
                    now = {(k, p) for k, p in new if p != q}
                    if now and all(p[0] != 1 for k, p in now):
                        subs.add(q[len(f):])
                        direct |= {(q[len(f):], p) for k, p in now if k == 'in'}
                if not subs:
                    continue
                keep = set()
                for s, p in direct:
                    keep |= {s + q[len(p):] for q in exempt(prog, m, p[0], callers) if q[:len(p)] == p}
                rep.count('parameter changes')
                for (i2, j), ps in sorted(pairs.items()):
                    if i2 != i:
                        continue
                    need = {p for p in ps if any(related(p, s) for s in subs) and not any(p[:len(k)] == k for k in keep)}
                    if not need:
                        rep.count('derived fields of unchanged parts')
                        continue
                    dfield = (1, '*', ('f', j))
                    res = w.outcomes(f, dfield)
                    nf, nd = fields[i][0], fields[j][0]
                    if any(x and not y and any(not any(p[:len(k)] == k for k in e) for p in need) for x, y, e in res):
                        if elsewhere(prog, adt, f, dfield, methods, views):
                            rep.ok('%s: %s is computed again from %s at every start' % (m.path, nd, nf))
                            rep.count('derived fields computed at every start')
                            continue
                        rep.bad('%s|%s|%s' % (m.path, nf, nd), m.where(), '%s replaces %s but leaves %s, which the constructor computes from it (part %s)' % (m.path, nf, nd, part(prog, adt, i, sorted(need, key=str)[0])))
                        continue
                    lost = missing(prog, w, dfield, direct, need)
                    if lost:
                        rep.bad('%s|%s|%s|part' % (m.path, nf, nd), m.where(), '%s writes %s without regard to %s, which the constructor computes it from' % (m.path, nd, part(prog, adt, i, lost[0])))
                        continue
                    old = [p for k, p in w.d.read(env, dfield) if related(p, f) and len(p) >= len(f)]
                    if old:
                        rep.bad('%s|%s|%s|old' % (m.path, nf, nd), m.where(), '%s computes %s from the value %s had before' % (m.path, nd, nf))
                        continue
                    rep.ok('%s: %s follows %s' % (m.path, nd, nf))
    rep.floor('objects with constructors and mutators', 20)
    rep.floor('parameter changes', 4)
    return rep


def missing(prog, w, dfield, direct, need):
    """parts of the parameter the constructor uses for a field and the method does not"""
    full = w.full = getattr(w, 'full', None) or deps.Deps(prog, w.inl)
    env = full.final()
    got = {p for k, p in full.read(env, dfield)}
    out = []
    for r in sorted(need, key=str):
        for s, p in direct:
            if r[:len(s)] == s and not any(related(q, p + r[len(s):]) for q in got):
                out.append(r)
    return out


def elsewhere(prog, adt, f, dfield, methods, views):
    """a method run on its own sets the field from the stored parameter, so the value the constructor left is only a start"""
    inner = set()
    for fn in prog.fns.values():
        if fn.impl_self and fn.impl_self.split('<')[0] == adt:
            for b in fn.blocks:
                if b.t[0] == 'call':
                    cf = prog.callee_fn(b.t[1])
                    if cf is not None:
                        inner.add(cf.key)
    for m in methods.get(adt, ()):
        if m.key in inner:
            continue
        w = views(m)
        if w and any(related(q, dfield) and any(p[:len(f)] == f for k, p in atoms) for q, atoms in w.values):
            return True
    return False


def part(prog, adt, i, p):
    """name of a part of a field"""
    f = prog.adts[adt]['variants'][0]['fields'][i]
    out, ty = [f[0]], f[1]
    for x in p:
        a = prog.adts.get(ty.split('<')[0])
        if not (isinstance(x, tuple) and x[0] == 'f' and a and a['kind'] == 'Struct'):
            break
        g = a['variants'][0]['fields'][x[1]]
        out.append(g[0])
        ty = g[1]
    return '.'.join(out)

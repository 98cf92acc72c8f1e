"""P13: a reused solver behaves like a fresh one."""
import itertools
import re
from .. import effects, flow, mir
from ..report import Report
from . import p10, p21

RULE = ('for every operation that works with functions supplied by the user and keeps state in its object, every field the operation may change is followed separately: on no path from the start of the '
        'operation may the field be read before the operation has set it (flags and counters set on the way decide branches; helpers and every implementation behind a trait object are looked into)')


def run_functions(prog, eff):
    """public operations on an object that invoke user functions and change fields of the object"""
    out = []
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if not f.pub or f.kind == 'Closure' or f.argc < 1 or not f.ins or not re.match(r"&('\w+ )?mut ", f.ins[0]):
            continue
        if f.anames[:1] != ['self'] and f.name(1) != 'self':
            continue
        s = eff.summary(f)
        if any(k == 'cb' for k, q in s) and any(k == 'w' and q[0] == ('arg', 1) and len(q) > 1 for k, q in s):
            if f.crate != 'russell_pde' and p21.base(f.ins[0]) in prog.adts and not p21.base(f.ins[0]).startswith('russell_lab::vector'):
                out.append(f)
    return out


def traits_of(prog, fn, eff):
    """trait objects of the crate used by the operation: trait -> implementing types"""
    out = {}
    seen, work = set(), [fn]
    while work:
        f = work.pop()
        if f.key in seen:
            continue
        seen.add(f.key)
        for b in f.blocks:
            if b.t[0] != 'call' or b.c:
                continue
            c = b.t[1]
            fs = eff.callees(c)
            if fs is None:
                continue
            if c.get('trait') and prog.callee_fn(c) is None and fs and all(x.crate == fn.crate for x in fs):
                out.setdefault(c['trait'], set()).update(p21.base(x.impl_self) for x in fs if x.impl_self)
            work.extend(x for x in fs if x.crate == fn.crate)
    return out


class Where:
    """names locations behind `self`: cut where the crate's own types end"""

    def __init__(self, prog, fn, choice):
        self.prog, self.fn, self.choice = prog, fn, choice
        self.cache = {}

    def fields(self, ty):
        t = p21.base(ty)
        m = re.match(r'.*dyn ([\w:]+)', ty)
        if m and m.group(1) in self.choice:
            t = self.choice[m.group(1)]
        a = self.prog.adts.get(t)
        if not a or a['kind'] != 'Struct' or not t.startswith(self.fn.crate + '::') or generic_container(t):
            return None
        return {x[0]: x[1] for x in a['variants'][0]['fields']}

    def type_of(self, loc):
        ty = self.fn.ins[0]
        for e in loc:
            ty = (self.fields(ty) or {}).get(e, '')
        return ty

    def foreign(self, ty):
        """user functions, and solver objects of another crate with a life cycle of their own"""
        if re.search(r'dyn [^>]*Fn(Mut|Once)?\(|dyn .*ops::function', ty):
            return True
        t = p21.base(ty)
        a = self.prog.adts.get(t)
        return bool(a and not t.startswith(self.fn.crate + '::') and a['kind'] == 'Struct' and any('dyn ' in x[1] for x in a['variants'][0]['fields']))

    def cut(self, q):
        """(location, type, exact) of an effect path, or None when it is not about the object"""
        if q in self.cache:
            return self.cache[q]
        r = None
        if q[0] == ('arg', 1):
            ty = self.fn.ins[0]
            out = []
            for e in q[1:]:
                f = self.fields(ty)
                if f is None or e not in f:
                    break
                out.append(e)
                ty = f[e]
            r = (tuple(out), ty)
        self.cache[q] = r
        return r


def named(wh, p):
    """location of an access path of the explorer behind `self`"""
    if p[0] != 1 or '*' not in p:
        return None
    ty, out = wh.fn.ins[0], []
    for e in p[1:]:
        if isinstance(e, tuple) and e[0] == 'f':
            f = wh.fields(ty)
            if f is None or not isinstance(e[1], int) or e[1] >= len(f):
                break
            nm = list(f)[e[1]]
            out.append(nm)
            ty = f[nm]
    return tuple(out)


def generic_container(t):
    return bool(re.search(r'::(NumVector|NumMatrix|Stopwatch)$', t))


COUNTER = re.compile(r'^(bool|[iu](8|16|32|64|size))$')
SCALAR = re.compile(r'^(bool|[iu](8|16|32|64|size)|f32|f64|char)$')


HANDS = re.compile(r'::(branch|is_some|is_none|is_ok|is_err|as_ref|as_mut|as_deref|as_deref_mut|map_err|ok_or|ok|err|eq|ne)$')


class Track(flow.Client):
    """follows one location until it is written"""

    def __init__(self, inl, at, loc):
        self.inl, self.at, self.loc = inl, at, loc
        self.hit = None

    def start(self, fl):
        return frozenset([self.loc])

    def touch(self, st, items):
        """stale places after the accesses; None when the path ends here"""
        for k, loc, ln, agg in items:
            if k == 'r' and any(related(loc, l) and len(loc) >= len(l) for l in st if isinstance(l, tuple)):
                self.hit = ln
                return None
            if k == 'w':
                st = frozenset(l for l in st if not (isinstance(l, tuple) and related(loc, l)))
        return st or None

    def stmt(self, fl, st, env, b, s):
        items = self.at(b, s)
        p, r = s[1], s[2]
        ops = [o[1] for o in effects.mir_operands(r) if o[0] in ('c', 'm')]
        if any(len(o) == 1 and o[0] in st for o in ops) or any(k == 'r' for k, *_ in items):
            stale = any(len(o) == 1 and o[0] in st for o in ops) or any(k == 'r' and l in st for k, l, ln, agg in items)
            if stale:
                if r[0] != 'use':
                    self.hit = s[3]
                    return False
                # a plain copy hands the stale value on
                st = frozenset(x for x in st if not (isinstance(x, tuple) and any(k == 'w' and related(l, x) for k, l, ln, agg in items)))
                if len(p) == 1:
                    return st | {p[0]}
                tgt = [l for k, l, ln, agg in items if k == 'w']
                if not tgt:
                    self.hit = s[3]
                    return False
                return st | {tgt[0]}
        if len(p) == 1 and p[0] in st:
            st = st - {p[0]}
        st = self.touch(st, items)
        return st if st else False

    def call(self, fl, st, env, b, t):
        if any(o[0] in ('c', 'm') and len(o[1]) == 1 and o[1][0] in st for o in t[2]):
            self.hit = t[5]
            return []
        if len(t[3]) == 1 and t[3][0] in st:
            st = st - {t[3][0]}
        s2 = self.touch(st, self.at(b, t))
        if not s2:
            return []
        nm = mir.callee_name(t[1])
        a = t[2][0][1] if t[2] and t[2][0][0] in ('c', 'm') else None
        if nm.endswith('::into_iter') and a and 'ops::range::Range<' in fl.fn.locals[a[0]][0] and len(a) == 1:
            fl.copy(env, t[3], a)
            return [(s2, env)]
        if nm.endswith('::next') and a and 'ops::range::Range<' in fl.fn.locals[a[0]][0]:
            r = env.get(a) if len(a) > 1 else env.get((a[0],))
            q = r[1] + (('f', 0),) if r and r[0] == 'ref' else None
            v = env.get(q) if q else None
            e0 = dict(env)
            fl.store(e0, t[3], ('var', 0, None))
            if v and v[0] == 'k' and isinstance(v[1], int):
                first = v[1] == 0
                fl.store(env, t[3], ('var', 1, v))
                if v[1] < fl.fold and not first:
                    env[q] = ('k', v[1] + 1)
                else:
                    del env[q]
                if first:
                    # bounds of iterations are positive
                    return [(s2, env)]
            else:
                fl.store(env, t[3], ('var', 1, None))
            return [(s2, env), (s2, e0)]
        if re.search(r'cmp::PartialEq(>?::|<.*>>?::)(eq|ne)$', nm) and len(t[2]) == 2:
            r = self.same(fl, env, t)
            if r is not None:
                pos = nm.endswith('eq')
                out = []
                for truth, e in r:
                    fl.store(e, t[3], ('k', truth == pos))
                    out.append((s2, e))
                return out
        out = fl.default_call(b, env, s2, t)
        return [(s, e) for x, e, s in out]

    def same(self, fl, env, t):
        """[(equal?, env)] of comparing an enumeration value with a constant"""
        ps, vs = [], []
        for o in t[2]:
            v = fl.val(env, o)
            if v and v[0] == 'ref':
                ps.append(v[1])
                # a reference constant is known by what it refers to
                vs.append(env.get(v[1]) or (env.get(v[1][:-1]) if v[1][-1] == '*' and (env.get(v[1][:-1]) or ' ')[0] == 'var' else None))
            else:
                ps.append(None)
                vs.append(v)
        if vs[0] and vs[0][0] == 'var' and vs[0][2] is None and not (vs[1] and vs[1][0] == 'var'):
            ps.reverse()
            vs.reverse()
        a = fl.prog.adts.get(t[1].get('self') or '')
        if not a or a['kind'] != 'Enum' or not vs[1] or vs[1][0] != 'var' or a['variants'][vs[1][1]]['fields']:
            return None
        i, v = vs[1][1], vs[0]
        if v and v[0] == 'var':
            return [(v[1] == i, env)]
        if v == ('nvar', i):
            return [(False, env)]
        if ps[0] is None:
            return None
        e = dict(env)
        fl.store(e, ps[0], ('nvar', i)) if len(ps[0]) == 1 else e.__setitem__(ps[0], ('nvar', i))
        env[ps[0]] = ('var', i, None)
        return [(True, env), (False, e)]


class Sets(flow.Client):
    """looks for a write of one location"""

    def __init__(self, at, loc):
        self.at, self.loc = at, loc
        self.hit = None

    def start(self, fl):
        return frozenset([self.loc])

    def touch(self, st, items):
        for k, loc, ln, agg in items:
            if k == 'w' and related(loc, self.loc):
                self.hit = ln
        return st

    def stmt(self, fl, st, env, b, s):
        return self.touch(st, self.at(b, s))

    def call(self, fl, st, env, b, t):
        self.touch(st, self.at(b, t))
        return None


def related(a, b):
    return a[:len(b)] == b or b[:len(a)] == a


SHORT = re.compile(r'^(bool|[iu]\d+|[iu]size|\(|core::(result::Result|option::Option|ops::control_flow::ControlFlow|ops::range::Range))')


class Explorer(flow.Flow):
    """Search for a path to a read of the location.

    Facts are carried only about the places in `facts`; when a path found turns out to contradict itself, the place whose
    value rules it out is added and the search repeated."""

    def __init__(self, prog, fn, client, exits, wh):
        super().__init__(prog, fn, client, limit=60000)
        self.exits, self.wh = exits, wh
        self.locs, self.objs = set(), set()
        self.fold = 4
        self.full = False
        self.bans = []
        self.keep = self.keeps

    def keeps(self, p, v):
        if v[0] == 'sym':
            return False
        if v[0] == 'ref':
            return True
        n = named(self.wh, p)
        if n is not None:
            return (self.full or n in self.objs) and v[0] != 'var'
        if not self.trackable(p[0]):
            return False
        if 'ops::range::Range' in self.fn.locals[p[0]][0] and v == ('k', 0):
            return True
        return self.full or p[0] in self.locs

    def trackable(self, l):
        ty = self.fn.locals[l][0]
        if 0 < l <= self.fn.argc:
            return False
        if SHORT.match(ty):
            return True
        a = self.prog.adts.get(ty)
        return bool(a and a['kind'] == 'Enum' and ty not in [self.fn.locals[i][0] for i in range(1, self.fn.argc + 1)])

    def step(self, b, env, st):
        t = self.fn.blocks[b].t
        out = super().step(b, env, st)
        if t[0] == 'switch' and out:
            s1 = out[0][2]
            if t[1][0] in ('c', 'm') and len(t[1][1]) == 1 and t[1][1][0] in s1:
                self.client.hit = t[5]
                return []
            if self.client.touch(s1, self.client.at(b, t)) is None:
                return []
            out = [(x, self.learn(b, t, x, e), s) for x, e, s in out]
        ex = self.exits.get(b)
        if ex:
            new = []
            for x, e, s in out:
                for tgt, locs in ex:
                    if tgt == x:
                        s = frozenset(l for l in s if not (isinstance(l, tuple) and any(related(l, w) for w in locs)))
                if s:
                    new.append((x, e, s))
            out = new
        # stale temporaries die with their locals
        res = []
        for x, e, s in out:
            s = frozenset(l for l in s if isinstance(l, tuple) or l in self.live[x])
            if s:
                res.append((x, e, s))
        return res

    def learn(self, b, t, x, env):
        """a condition read from memory is a fact about that memory"""
        if t[1][0] not in ('c', 'm') or len(t[1][1]) != 1:
            return env
        v = env.get((t[1][1][0],))
        if not v or v[0] != 'k':
            return env
        for s in self.fn.blocks[b].s:
            if s[0] == '=' and s[1] == t[1][1] and s[2][0] == 'use' and s[2][1][0] in ('c', 'm') and len(s[2][1][1]) > 1:
                env[self.place(env, s[2][1][1])] = v
        return env

    def search(self, env0):
        """block path to a stale read, or None"""
        parent = {}
        first = (0, frozenset(self.prune(0, env0).items()), self.client.start(self))
        parent[first] = None
        work, k = [first], 0
        while k < len(work):
            node = work[k]
            k += 1
            self.states += 1
            if self.states > self.limit:
                raise flow.Limit('state limit exceeded in %s' % self.fn.path)
            self.client.hit = None
            out = self.step(node[0], dict(node[1]), node[2])
            if self.client.hit is not None and not any(all(node[1] >= {x} for x in ban) for ban in self.bans):
                path, n = [], node
                while n is not None:
                    path.append(n[0])
                    n = parent[n]
                return path[::-1]
            for x, e, s in out:
                n = (x, frozenset(self.prune(x, e).items()), s)
                if n not in parent:
                    parent[n] = node
                    work.append(n)
        return None

    def replay(self, path, env0):
        """index of the block where the path contradicts itself, or None"""
        self.full = True
        try:
            envs = [(self.prune(0, env0), self.client.start(self))]
            for i, b in enumerate(path):
                nxt = path[i + 1] if i + 1 < len(path) else None
                self.client.hit = None
                new = {}
                for env, st in envs:
                    for x, e, s in self.step(b, dict(env), st):
                        if x == nxt:
                            e = self.prune(x, e)
                            new[(frozenset(e.items()), s)] = (e, s)
                if nxt is None:
                    self.final = [dict(env) for env, st in envs]
                    return None if self.client.hit is not None else i
                if not new:
                    return i
                envs = list(new.values())[:50]
            return None
        finally:
            self.full = False

    def sources(self, b):
        """places the condition of a block is computed from"""
        t = self.fn.blocks[b].t
        locs, objs = set(), set()
        if t[0] == 'switch':
            work = [t[1]]
        elif t[0] == 'call':
            work = list(t[2][:1])
        else:
            return locs, objs
        d = mir.values(self.fn).defs
        while work:
            o = work.pop()
            if o[0] not in ('c', 'm'):
                continue
            p = o[1]
            l = p[0]
            if '*' in p[1:]:
                for q in self.client.fe.place(p):
                    c = self.wh.cut(q)
                    if c and c[0]:
                        objs.add(c[0])
            if l in locs:
                continue
            locs.add(l)
            for df in list(d.get(l, ())) + list(d.get(('part', l), ())):
                if df[2] == 'rv':
                    r = df[3]
                    work += effects.mir_operands(r)
                    if r[0] in ('discr',):
                        work.append(('c', r[1]))
                    elif r[0] in ('ref', 'raw'):
                        work.append(('c', r[2]))
                elif df[2] == 'call' and HANDS.search(mir.callee_name(df[3][1])):
                    work += list(df[3][2][:1])
        return locs, objs

    def decide(self, env0):
        """(block path to a stale read) or None"""
        for _ in range(60):
            path = self.search(env0)
            if path is None:
                return None
            i = self.replay(path, env0)
            if i is None:
                return path
            locs, objs = self.sources(path[i])
            locs = {l for l in locs if self.trackable(l)}
            if locs <= self.locs and objs <= self.objs:
                raise flow.Limit('a path contradicts itself in a way that is not tracked')
            self.locs |= locs
            self.objs |= objs
        raise flow.Limit('too many refinements')


def exposed(inl, g, at, loc, exits):
    """is a read reachable without a write when no condition is taken into account?"""
    seen, work = {0}, [0]
    while work:
        b = work.pop()
        blk = inl.blocks[b]
        end = False
        for x in list(blk.s) + [blk.t]:
            if x[0] not in ('=', 'call', 'switch'):
                continue
            for k, l, ln, agg in at(b, x):
                if related(l, loc):
                    if k == 'r' and len(l) >= len(loc):
                        return True
                    if k == 'w':
                        end = True
                        break
            if end:
                break
        if end:
            continue
        for x in mir.isuccs(blk.t):
            if x in seen or any(tgt == x and any(related(w, loc) for w in locs) for tgt, locs in exits.get(b, ())):
                continue
            seen.add(x)
            work.append(x)
    return False


def boxes(inl):
    """pointers taken out of a box refer to what the box holds"""
    src = {}
    for b in inl.blocks:
        for x in b.s:
            if x[0] == '=' and len(x[1]) == 1 and x[2][0] == 'use' and x[2][1][0] in ('c', 'm'):
                src.setdefault(x[1][0], []).append(x[2][1][1])
    for b in inl.blocks:
        for i, x in enumerate(b.s):
            if x[0] == '=' and x[2][0] == 'cast' and x[2][1] == 'BoxDerefTransmute' and x[2][2][0] in ('c', 'm'):
                l = x[2][2][1][0]
                if len(src.get(l, ())) == 1:
                    b.s[i] = ('=', x[1], ('raw', 'mut', src[l][0] + ('*',)), x[3])


def check():
    rep = Report('P13', RULE)
    prog = mir.Program()
    eff = effects.Effects(prog)
    runs = run_functions(prog, eff)
    seen = set()
    for fn in runs:
        traits = traits_of(prog, fn, eff)
        names = sorted(traits)
        for combo in itertools.product(*[sorted(traits[t]) for t in names]):
            choice = dict(zip(names, combo))
            one(rep, prog, eff, fn, choice, seen)
    rep.count('operations with state', len(runs))
    rep.floor('operations with state', 6)
    rep.floor('fields followed', 40)
    return rep


def one(rep, prog, eff, fn, choice, seen):
    def silent(cf):
        return cf.out == '()' and not any(k in ('w', 'cb') for k, q in eff.summary(cf))

    def printing(cf):
        if cf.path not in prints:
            prints[cf.path] = cf.out == '()' and any(b.t[0] == 'call' and re.search(r'::(_print|_eprint|print)$|::format$|::write_fmt$', mir.callee_name(b.t[1])) for b in cf.blocks) \
                and not any(k == 'cb' or k == 'w' and q[0] != ('arg', 1) for k, q in eff.summary(cf))
        return prints[cf.path]
    prints = {}

    def want(cf, t, stack):
        c = t[1]
        if cf.crate != fn.crate or len(cf.blocks) > 900:
            return False
        if prog.callee_fn(c) is None and c.get('trait') in choice:
            # the implementation of the chosen type, or the default one of the trait
            own = [f for f in prog.trait_impls.get((c['trait'], c['path'].rsplit('::', 1)[-1]), []) if p21.base(f.impl_self or '') == choice[c['trait']]]
            return cf in own if own else not cf.impl_trait
        if silent(cf) or printing(cf):
            return False
        if cf.impl_trait == 'core::cmp::PartialEq' and (prog.adts.get(cf.impl_self) or {}).get('kind') == 'Enum':
            return False
        return True
    inl = mir.inline(prog, fn, want, max_depth=7, max_blocks=30000)
    boxes(inl)
    fe = effects.FnEffects(eff, inl)
    wh = Where(prog, fn, choice)
    g = mir.cfg(inl)
    memo = {}

    def closures(x):
        return any(o[0] in ('c', 'm') and '{closure@' in inl.locals[o[1][0]][0] for o in x[2])

    def at(b, x):
        """[(kind, location, line, aggregate)] with reads first"""
        k = (b, id(x))
        if k not in memo:
            cf = prog.callee_fn(x[1]) if x[0] == 'call' else None
            es = [] if cf is not None and silent(cf) else fe.stmt(x) if x[0] == '=' else fe.call(x) if x[0] == 'call' else [('r', q, x[5]) for o in [x[1]] for _, q, _ in fe.read_op(o, x[5])] if x[0] == 'switch' else []
            out = []
            if cf is not None and printing(cf) or x[0] == 'call' and '::fmt::' in mir.callee_name(x[1]):
                es = [e for e in es if e[0] == 'w']
            if x[0] == 'call' and closures(x):
                es = [e for e in es if e[0] == 'w']
            amb = len({wh.cut(q) for kind, q, ln in es if kind == 'r' and q is not None and wh.cut(q)}) > 1 and x[0] == '='
            for kind, q, ln in es:
                if kind == 'r' and amb:
                    continue
                if kind not in ('r', 'w') or q is None:
                    continue
                c = wh.cut(q)
                if c is None or not c[0] or wh.foreign(c[1]) or kind == 'r' and wh.fields(c[1]) is not None:
                    continue
                out.append((kind, c[0], ln, not SCALAR.match(c[1])))
            # a call that changes an object whole sets it
            w = {l for kind, l, ln, a in out if kind == 'w' and a}
            if x[0] == 'call':
                out = [e for e in out if not (e[0] == 'r' and e[3] and e[1] in w)]
            out.sort(key=lambda e: e[0])
            memo[k] = out
        return memo[k]
    written, readat = {}, {}
    for b in g.rpo:
        blk = inl.blocks[b]
        if blk.c:
            continue
        for x in list(blk.s) + [blk.t]:
            if x[0] in ('=', 'call', 'switch'):
                for kind, loc, ln, agg in at(b, x):
                    if kind == 'w' and x[0] == 'call' and closures(x):
                        continue
                    (written if kind == 'w' else readat).setdefault(loc, agg)
    # arrays filled by loops
    exits = {}
    for h, body in p10.natural_loops(inl):
        locs = set()
        for b in body:
            blk = inl.blocks[b]
            for x in list(blk.s) + [blk.t]:
                if x[0] in ('=', 'call'):
                    locs |= {l for kind, l, ln, agg in at(b, x) if kind == 'w' and agg}
        if not locs:
            continue
        for b in body:
            for x in mir.isuccs(inl.blocks[b].t):
                if x not in body:
                    exits.setdefault(b, []).append((x, locs))
    # a whole-object write sets its parts
    leaf = {l for l in readat if any(w[:len(l)] == l or l[:len(w)] == w for w in written)}
    label = fn.path if not choice else '%s with %s' % (fn.path, ', '.join(v.rsplit('::', 1)[-1] for v in choice.values()))
    env0 = {(i,): ('ref', (i, '*')) for i in range(1, inl.argc + 1) if inl.locals[i][0].startswith('&')}
    for loc in sorted(leaf):
        if not exposed(inl, g, at, loc, exits):
            rep.count('fields followed')
            rep.ok()
            continue
        tr = Track(inl, at, loc)
        tr.fe = fe
        ex = Explorer(prog, inl, tr, exits, wh)
        rep.count('fields followed')
        path, lost = None, False
        for _ in range(8):
            try:
                path = ex.decide(env0)
            except flow.Limit:
                path = None
                if COUNTER.match(wh.type_of(loc)):
                    lost = True
                else:
                    rep.count('fields left undecided')
            if path is None:
                break
            tr.hit = None
            ex.replay(path, env0)
            ln = tr.hit
            # the earlier run had the same settings: could it set the field at all?
            done = False
            for env in ex.final:
                facts = {p: v for p, v in env.items() if v[0] == 'k' and named(wh, p) and not any(related(named(wh, p), w) for w in written)}
                se = Explorer(prog, inl, Sets(at, loc), {}, wh)
                se.objs = {named(wh, p) for p in facts}
                try:
                    done = not facts or se.search({**env0, **facts}) is not None
                except flow.Limit:
                    done = True
                if done:
                    break
                ex.bans.append(facts.items())
                ex.objs |= se.objs
            if done:
                break
            path = None
        rep.count('states', ex.states)
        if lost and '%s: stale %s' % (fn.path, '.'.join(loc)) not in seen:
            # flags and counters are set at the start of a run: no path needs to be understood to see that
            seen.add('%s: stale %s' % (fn.path, '.'.join(loc)))
            rep.bad('%s: stale %s' % (fn.path, '.'.join(loc)), fn.where(), '%s: a read of %s is reachable and no write comes before it at the start of the run (value left by an earlier run)' % (label, '.'.join(loc)))
            continue
        if path is None:
            rep.ok()
            continue
        blk = inl.blocks[path[-1]]
        key = '%s: stale %s' % (fn.path, '.'.join(loc))
        if key in seen:
            continue
        seen.add(key)
        rep.bad(key, blk.fn.where(ln), '%s may read %s before this run has set it (value left by an earlier run), in %s' % (label, '.'.join(str(x) for x in loc), blk.fn.path))

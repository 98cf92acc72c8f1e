"""P15: recorded series stay aligned."""
import re
from .. import effects, mir
from ..report import Report
from .p10 import natural_loops
from .p21 import base, fields

RULE = ('in every function that appends to several series of one recorder, the number of entries added to each series (and the steps of each running number) is followed along every path to every exit, '
        'keeping apart the configurations the branches test: all series enabled by a configuration receive the same number of entries, none more than one; a series that depends on the state of the run must '
        'carry the index of its station; a series stored by position is stored exactly once before the position advances; every operation that starts a run empties all series of the recorder before the first entry')

PUSH = re.compile(r'(Vec::?<.*>|VecDeque::?<.*>)::(push|push_back|insert|extend_from_slice)$')
POP = re.compile(r'(Vec::?<.*>|VecDeque::?<.*>)::(pop|pop_back|remove)$')
CLEAR = re.compile(r'(Vec::?<.*>|HashMap::?<.*>|BTreeMap::?<.*>)::clear$')
MAPS = re.compile(r'(HashMap|BTreeMap)')
ITERMUT = re.compile(r'::(iter_mut|values_mut|into_iter)$')
PEEK = re.compile(r'::(as_ref|as_mut|as_deref|as_deref_mut|is_some|is_none|is_empty|len|dim|deref|deref_mut|eq|ne)$')
SHAPE = re.compile(r'::(len|dim|is_empty|dims)$')


def is_series(ty):
    ty = re.sub(r"^&('\w+ )?(mut )?", '', ty or '')
    return ty.startswith('alloc::vec::Vec<') or bool(re.match(r'std::collections::(hash::map::)?HashMap<[^,]*, alloc::vec::Vec<', ty)) or bool(re.match(r'alloc::collections::btree::map::BTreeMap<[^,]*, alloc::vec::Vec<', ty))


class Recorder:
    """events of one inlined function on the series of one object"""

    def __init__(self, prog, eff, inl):
        self.prog, self.inl = prog, inl
        self.fe = eff.of(inl)
        self.v = mir.values(inl)
        self.g = mir.cfg(inl)
        self.loops = natural_loops(inl)
        self.inloop = {}
        for h, body in self.loops:
            for b in body:
                self.inloop.setdefault(b, []).append((h, body))
        self.events = {}      # block -> [(kind, object, series, payload)]
        self.collect()

    def target(self, o):
        """object path and series of the vector an operand refers to"""
        out = set()
        for q in self.fe.carried(o):
            if q[0][0] != 'arg':
                continue
            q = tuple(x for x in q if x != '[]')
            if len(q) >= 2 and isinstance(q[-1], (str, int)):
                out.add((q[:-1], q[-1]))
        return out.pop() if len(out) == 1 else None

    def mapped(self, o):
        """the operand is an element handed out by a loop over a map of series"""
        l = o[1][0]
        q = self.v.ptr(l)
        ty = self.inl.locals[l][0]
        return ty

    def add(self, b, *ev):
        self.events.setdefault(b, []).append(ev)

    def collect(self):
        inl, fe = self.inl, self.fe
        for bi in self.g.rpo:
            blk = inl.blocks[bi]
            for s in blk.s:
                if s[0] != '=' or '*' not in s[1]:
                    continue
                for q in fe.place(s[1]):
                    if q[0][0] != 'arg' or len(q) < 2:
                        continue
                    e = self.v._rv(s[2], 0)
                    if isinstance(q[-1], str) and self.scalar(s[1]):
                        step = self.step_of(e, s[1])
                        if step == 'inc':
                            self.add(bi, 'step', q[:-1], q[-1], s[3])
                        elif e[0] == 'const':
                            self.add(bi, 'zero', q[:-1], q[-1], s[3])
                    elif isinstance(q[-1], str):
                        self.add(bi, 'assign', q[:-1], q[-1], s[3])
                    # element stored by position
                    p = self.v.path(s[1])
                    if p is not None:
                        ix = [x[1] for x in p if isinstance(x, tuple) and x[0] == 'i']
                        if ix and ix[-1][0] == 'load':
                            k = ix[-1][1]
                            if k is not None and k[0][0] == 'arg' and isinstance(k[-1], tuple) and k[-1][0] == 'f':
                                obj = tuple(x for x in q if x != '[]')
                                self.add(bi, 'store', obj[:-1], obj[-1], k[-1][1])
            t = blk.t
            if t[0] != 'call' or not t[2]:
                continue
            nm = mir.callee_name(t[1])
            for rx, kind in ((PUSH, 'push'), (POP, 'pop'), (CLEAR, 'clear')):
                if rx.search(nm):
                    r = self.target(t[2][0])
                    if r is not None:
                        self.add(bi, kind, r[0], r[1], t)
            if nm.endswith('::fill') or nm.endswith('::resize'):
                r = self.target(t[2][0])
                if r is not None:
                    self.add(bi, nm.rsplit('::', 1)[-1], r[0], r[1], t)

    def scalar(self, p):
        last = p[-1]
        return isinstance(last, tuple) and last[0] == 'f' and not any(isinstance(x, tuple) and x[0] in ('i', 'c', 's') for x in p)

    def step_of(self, e, place):
        """the statement adds one to the place it writes"""
        me = self.v.path(place)
        if e[0] == 'bin' and e[1] == 'Add' and ('const', 1) in e[2:4]:
            o = e[2] if e[3] == ('const', 1) else e[3]
            if o == ('load', me):
                return 'inc'
        return None

    # -- configuration conditions ------------------------------------------------------------------
    def config(self, e, depth=0):
        """canonical form of a condition that cannot change during a run, or None"""
        if depth > 12:
            return None
        k = e[0]
        if k in ('const', 'enum'):
            return e
        if k in ('load', 'ref', 'discr'):
            q = e[1]
            if q is None:
                return None
            if q[0][0] == 'loc':
                if len(q) == 1 and k == 'discr':
                    r = self.config(self.v.expr_local(q[0][1]), depth + 1)
                    return None if r is None else ('discr', r)
                return None
            if q[0][0] != 'arg':
                return None
            n = tuple(x[1] if x[0] == 'f' else x for x in q if x != '*')
            if q[0][1] != 1 and k != 'ref':
                return None
            if any(isinstance(x, tuple) and x[0] == 'i' for x in n):
                return None
            if any(n[:len(w)] == w for w in self.written()):
                return None
            return (k, n)
        if k == 'arg':
            return None
        if k == 'call':
            if SHAPE.search(e[1]) and len(e[2]) == 1 and e[2][0][0] in ('ref', 'arg'):
                q = e[2][0][1]
                if e[2][0][0] == 'arg':
                    return ('shape', e[1], ('arg', q))
                n = tuple(x[1] if x[0] == 'f' else x for x in (q or ()) if x != '*')
                if q and q[0][0] == 'arg' and not any(w == n for w in self.grown()):
                    return ('shape', e[1], n)
                return None
            if PEEK.search(e[1]):
                rs = [self.config(a, depth + 1) for a in e[2]]
                return None if None in rs else ('call', e[1].rsplit('::', 1)[-1], tuple(rs))
            return None
        if k in ('bin', 'un', 'cast', 'not'):
            rs = [self.config(a, depth + 1) if isinstance(a, tuple) else a for a in e[1:]]
            return None if None in rs else (k,) + tuple(rs)
        return None

    def written(self):
        if not hasattr(self, '_w'):
            self._w = {q for bi in self.g.rpo for k, q, ln in self.fe.block(bi) if k == 'w'}
            # only what this function itself changes counts: opaque calls receive read-only views
        return self._w

    def grown(self):
        return {o + (s,) for evs in self.events.values() for k, o, s, p in evs if k in ('push', 'pop', 'clear', 'resize', 'assign')}

    def atom(self, bi):
        t = self.inl.blocks[bi].t
        if t[0] != 'switch':
            return None
        return self.config(self.v.expr(t[1]))


def loop_over_map(rec, bi):
    """blocks of the innermost loop around bi when it visits every series of a map"""
    best = None
    for h, body in rec.inloop.get(bi, ()):
        if best is None or len(body) < len(best[1]):
            best = (h, body)
    return best


def follow(rec, obj, names, kinds):
    """[(exit block, kind of exit, counts, configuration)] over all paths"""
    inl, g = rec.inl, rec.g
    names = sorted(names, key=str)
    idx = {n: i for i, n in enumerate(names)}
    # a series reached through a loop over a map counts once, when the loop starts
    at, problems = {}, []
    for b, evs in rec.events.items():
        for k, o, s, p in evs:
            if o != obj or s not in idx or k not in kinds:
                continue
            lp = loop_over_map(rec, b)
            if lp is not None and k in ('push', 'pop', 'store', 'clear') and mapped(rec, s, obj):
                h, body = lp
                if not once_per_round(rec, h, body, obj, s, k):
                    problems.append((b, s))
                at.setdefault(('enter', h), []).append((k, s))
            else:
                at.setdefault(b, []).append((k, s))
    for k in [x for x in at if isinstance(x, tuple)]:
        seen = []
        for ev in at[k]:
            if ev not in seen:
                seen.append(ev)
        at[k] = seen
    heads = {k[1]: v for k, v in at.items() if isinstance(k, tuple)}
    bodies = {h: body for h, body in rec.loops}
    exits, bounds = [], []
    start = (0, (0,) * len(names), frozenset(), frozenset())
    seen, work = {start}, [start]
    n = 0
    while work:
        b, cnt, cfg, env = work.pop()
        n += 1
        if n > 200000:
            return None
        blk = inl.blocks[b]
        c = list(cnt)
        for k, s in at.get(b, ()):
            i = idx[s]
            if k == 'store':
                c[i] = min(c[i] + 1, 2)
            elif k == 'push' or k == 'step':
                c[i] = min(c[i] + 1, 2)
            elif k == 'pop':
                c[i] = max(c[i] - 1, -2)
        cnt = tuple(c)
        if blk.t[0] == 'return':
            exits.append((b, cnt, cfg))
            continue
        for x, cfg2, env2 in nexts(rec, b, cfg, env):
            c2 = cnt
            if x in heads and b not in bodies.get(x, ()):
                c = list(cnt)
                for k, s in heads[x]:
                    i = idx[s]
                    c[i] = max(min(c[i] + (-1 if k == 'pop' else 1), 2), -2)
                c2 = tuple(c)
            st = (x, c2, cfg2, env2)
            if st not in seen:
                seen.add(st)
                work.append(st)
    return names, exits, problems


def flags(rec):
    """boolean locals assembled from constants on different branches"""
    if not hasattr(rec, '_flags'):
        rec._flags = {l for l, ds in rec.v.defs.items() if isinstance(l, int) and len(ds) > 1 and rec.inl.locals[l][0] == 'bool' and
                      any(d[2] == 'rv' and d[3][0] == 'use' and d[3][1][0] == 'k' for d in ds)}
    return rec._flags


def assume(rec, b, env):
    """constants held by the flags after the statements of block b"""
    fl = flags(rec)
    env = dict(env)
    for s in rec.inl.blocks[b].s:
        if s[0] == '=' and len(s[1]) == 1:
            l = s[1][0]
            if s[2][0] == 'use' and s[2][1][0] == 'k' and l in fl:
                env[l] = bool(mir.decode(s[2][1][1].get('v')))
            elif s[2][0] == 'use' and s[2][1][0] in ('c', 'm') and len(s[2][1][1]) == 1 and s[2][1][1][0] in env:
                env[l] = env[s[2][1][1][0]]
            elif s[2][0] == 'un' and s[2][1] == 'Not' and s[2][2][0] in ('c', 'm') and isinstance(env.get(s[2][2][1][0]), bool):
                env[l] = not env[s[2][2][1][0]]
            else:
                env.pop(l, None)
                a = rec.config(rec.v._rv(s[2], 0)) if l in fl else None
                if a is not None:
                    env[l] = ('a', a)
    t = rec.inl.blocks[b].t
    if t[0] == 'call' and len(t[3]) == 1 and t[3][0] in fl:
        a = rec.config(('call', mir.callee_name(t[1]), tuple(rec.v.expr(x) for x in t[2])))
        env.pop(t[3][0], None)
        if a is not None:
            env[t[3][0]] = ('a', a)
    return env


def nexts(rec, b, cfg, env):
    """feasible successors: (block, configuration, flags)"""
    t = rec.inl.blocks[b].t
    env = assume(rec, b, env)
    keep = frozenset(env.items())
    if t[0] != 'switch':
        return [(x, cfg, keep) for x in rec.g.succ[b]]
    out = []
    known = None
    if t[1][0] in ('c', 'm') and len(t[1][1]) == 1 and t[1][1][0] in env:
        known = env[t[1][1][0]]
    if isinstance(known, tuple):
        a, known = known[1], None
    else:
        a = rec.atom(b)
    if known is not None:
        tgt = next((x for v, x in t[3] if v == int(known)), t[4])
        return [(tgt, cfg, keep)]
    for x in rec.g.succ[b]:
        c2 = cfg
        if a is not None and (getattr(rec, 'relevant', None) is None or a in rec.relevant):
            val = edge(t, x)
            old = dict(cfg).get(a)
            if old is not None and old != val:
                continue
            c2 = frozenset(set(cfg) | {(a, val)})
        out.append((x, c2, keep))
    return out


def edge(t, x):
    for v, b in t[3]:
        if b == x:
            return v
    return 'else' if len(t[3]) != 1 else ('not', t[3][0][0])


def mapped(rec, s, obj):
    for b, evs in rec.events.items():
        pass
    # the object type tells
    ty = rec.types.get((obj, s), '')
    return bool(MAPS.search(ty))


def once_per_round(rec, h, body, obj, s, kind):
    """every round of the loop adds exactly one entry"""
    has = {b for b in body if any(k == kind and o == obj and x == s for k, o, x, p in rec.events.get(b, ()))}
    # rounds: paths from the header back to it
    seen, work, ok = set(), [(h, 0)], True
    while work:
        b, c = work.pop()
        c = min(c + (1 if b in has else 0), 2)
        for x in rec.g.succ[b]:
            if x == h:
                if c != 1:
                    ok = False
                continue
            if x in body and (x, c) not in seen:
                seen.add((x, c))
                work.append((x, c))
            if x not in body and c != 0:
                ok = False
    return ok


def compatible(a, b):
    da = dict(a)
    return all(da.get(k, v) == v for k, v in b)


def controls(rec, b):
    """conditions outside the configuration on which block b is control dependent: (block, edge)"""
    g = rec.g
    out = set()
    post = postdom(rec)
    for p in g.rpo:
        if rec.inl.blocks[p].t[0] != 'switch' or len(g.succ[p]) < 2:
            continue
        for x in g.succ[p]:
            if b in post.get(x, ()) and b not in post.get(p, ()) - {p}:
                out.add((p, x))
    return out


def postdom(rec):
    if hasattr(rec, '_pd'):
        return rec._pd
    g = rec.g
    exits = [b for b in g.rpo if rec.inl.blocks[b].t[0] == 'return']
    back, work = set(exits), list(exits)
    while work:
        for p in g.pred[work.pop()]:
            if p not in back:
                back.add(p)
                work.append(p)
    nodes = [b for b in g.rpo if b in back]
    allb = set(nodes)
    pd = {b: ({b} if b in exits else set(allb)) for b in nodes}
    ch = True
    while ch:
        ch = False
        for b in reversed(nodes):
            if b in exits:
                continue
            ss = [pd[x] for x in g.succ[b] if x in pd]
            n = {b} | (set.intersection(*ss) if ss else set())
            if n != pd[b]:
                pd[b] = n
                ch = True
    rec._pd = pd
    return pd


def field_types(prog, fn, obj):
    """types of the members of the object at path obj (rooted at an argument)"""
    ty = (fn.ins or [''] * obj[0][1])[obj[0][1] - 1] if obj[0][1] - 1 < len(fn.ins or []) else ''
    for x in obj[1:]:
        ty = member(prog, ty, x)
        if ty is None:
            return {}
    out = {}
    t = peel(ty)
    if t.startswith('('):
        for i, e in enumerate(split_args(t[1:-1])):
            out[i] = e
    for nm, fty in fields(prog, base(ty)):
        out[nm] = fty
    return out


def peel(ty):
    while True:
        t = re.sub(r"^&('\w+ )?(mut )?", '', (ty or '').strip())
        m = re.match(r'core::option::Option<(.*)>$', t)
        if m:
            t = m.group(1)
        if t == ty:
            return ty
        ty = t


def member(prog, ty, x):
    for nm, fty in fields(prog, base(ty)):
        if nm == x:
            return fty
    t = peel(ty)
    if t.startswith('(') and isinstance(x, int):
        a = split_args(t[1:-1])
        return a[x] if x < len(a) else None
    return None


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            d += 1
        if ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def check():
    rep = Report('P15', RULE)
    prog = mir.Program()
    eff = effects.Effects(prog)
    recorders = {}
    callers = {}
    for f in prog.fns.values():
        for bi in mir.cfg(f).rpo:
            t = f.blocks[bi].t
            if t[0] == 'call':
                cf = prog.callee_fn(t[1])
                if cf is not None:
                    callers.setdefault(cf.key, set()).add(f.key)
    found = []
    for fn in sorted(prog.fns.values(), key=lambda f: f.key):
        if fn.kind == 'Closure' or re.search(r'Deserialize|Clone', fn.impl_trait or ''):
            continue
        own = base(fn.ins[0]) if fn.ins else ''
        # helpers of the same object are followed where they are called
        up = [prog.fns[k] for k in callers.get(fn.key, ()) if k in prog.fns]
        if up and own in prog.adts and all(u.ins and base(u.ins[0]) == own for u in up) and not fn.reach:
            continue
        if not quick(prog, fn, own):
            continue
        inl = mir.inline(prog, fn, lambda cf, t, s: helper(prog, cf, t, own), max_depth=4, max_blocks=3000)
        rec = Recorder(prog, eff, inl)
        objs = {}
        for evs in rec.events.values():
            for k, o, s, p in evs:
                if k in ('push', 'pop', 'store', 'step'):
                    objs.setdefault(o, {}).setdefault(s, set()).add(k)
        for obj, ser in sorted(objs.items(), key=str):
            types = field_types(prog, inl, obj)
            rec.types = {(obj, s): t for s, t in types.items()}
            vecs = {s for s, ks in ser.items() if ks & {'push', 'pop'} and (is_series(types.get(s, '')) or isinstance(s, int) and is_series(types.get(s, '')))}
            stores = {s for s, ks in ser.items() if 'store' in ks and is_series(types.get(s, ''))}
            if len(vecs) >= 2 and not in_loop(rec, obj, vecs):
                found.append((fn, rec, obj, vecs, ser))
                recorders.setdefault(owner(prog, inl, obj), set()).update(vecs)
                align(rep, prog, fn, rec, obj, vecs, ser)
            if stores:
                positions(rep, prog, fn, rec, obj, stores, ser, recorders)
    rep.count('recording functions', len({f.key for f, *_ in found}))
    starts(rep, prog, eff, found, recorders)
    rep.floor('recording functions', 4)
    rep.floor('series', 14)
    rep.floor('exits compared', 20)
    rep.floor('runs examined', 2)
    return rep


def owner(prog, inl, obj):
    ty = inl.ins[obj[0][1] - 1]
    for x in obj[1:]:
        ty = member(prog, ty, x) or ''
    return base(ty)


def quick(prog, fn, own):
    """something is appended here or in a helper"""
    for bi in mir.cfg(fn).rpo:
        t = fn.blocks[bi].t
        if t[0] != 'call':
            continue
        nm = mir.callee_name(t[1])
        if PUSH.search(nm) or POP.search(nm) or t[1].get('trait') == 'core::ops::index::IndexMut':
            return True
        cf = prog.callee_fn(t[1])
        if cf is not None and helper(prog, cf, t, own) and cf.key != fn.key and any(PUSH.search(mir.callee_name(b.t[1])) for b in cf.blocks if b.t[0] == 'call'):
            return True
    return False


def helper(prog, cf, t, own):
    if cf.kind == 'Closure':
        return True
    if t[1].get('rk') == 'virtual' or 'dyn ' in (t[1].get('self') or ''):
        return False
    return bool(cf.ins) and (any(base(x) == own for x in cf.ins) and own in prog.adts or any(x.startswith('&mut ') and is_series(x) for x in cf.ins)) and len(cf.blocks) < 400


def in_loop(rec, obj, vecs):
    """the series are filled element by element in a loop of the function itself"""
    for b, evs in rec.events.items():
        for k, o, s, p in evs:
            if o == obj and s in vecs and k == 'push' and rec.inloop.get(b) and not mapped(rec, s, obj):
                return True
    return False


def align(rep, prog, fn, rec, obj, vecs, ser):
    inl = rec.inl
    k_fields = {p for evs in rec.events.values() for k, o, s, p in evs if k == 'store' and o == obj}
    counters = {s for s, ks in ser.items() if 'step' in ks and s not in k_fields and not stepped_in_loop(rec, obj, s)}
    if not any(tied(rec, obj, s, vecs) for s in counters):
        counters = set()
    names = vecs | counters
    rec.relevant = relevant(rec, obj, names)
    r = follow(rec, obj, names, ('push', 'pop', 'step'))
    rec.relevant = None
    rep.count('series', len(names))
    if r is None:
        rep.bad('%s: too many paths' % fn.path, fn.where(fn.line), '%s has too many paths' % fn.path)
        return
    names, exits, problems = r
    sites = {}
    for b, evs in rec.events.items():
        for k, o, s, p in evs:
            if o == obj and s in names and k in ('push', 'pop', 'step'):
                sites.setdefault(s, []).append((b, p))
    for b, s in problems:
        rep.bad('%s: %s: not one entry per series' % (fn.path, s), inl.blocks[b].fn.where(line_of(inl, b)), '%s does not add exactly one entry to every series of %s' % (fn.path, s))
    # series that depend on the state of the run
    events = {}
    for s in names:
        cs = set()
        for b, p in sites[s]:
            lp = loop_over_map(rec, b) if mapped(rec, s, obj) else None
            bb = lp[0] if lp else b
            cs |= {(p2, x) for p2, x in controls(rec, bb) if rec.atom(p2) is None and not is_result(rec, p2)}
        events[s] = frozenset(cs)
    groups = {}
    for s in names:
        groups.setdefault(events[s], []).append(s)
    rest = groups.get(frozenset(), [])
    for ev, ss in sorted(groups.items(), key=str):
        if not ev:
            continue
        if common(groups, ev, names):
            rest = rest + ss
            continue
        tagged = [s for s in ss if re.search(r'Vec<(usize|u32|u64|i32|i64)>', rec.types.get((obj, s), ''))]
        if not tagged:
            for s in ss:
                b = sites[s][0][0]
                rep.bad('%s: %s depends on the run' % (fn.path, s), inl.blocks[b].fn.where(line_of(inl, b)),
                        '%s adds an entry to %s only in some states of the run, and nothing records to which station it belongs' % (fn.path, s))
        compare(rep, fn, rec, names, exits, ss, sites)
    compare(rep, fn, rec, names, exits, sorted(rest, key=str), sites)


def relevant(rec, obj, names):
    """configuration conditions that decide about some entry"""
    out, seen = set(), set()
    work = []
    for b, evs in rec.events.items():
        if any(o == obj and s in names for k, o, s, p in evs):
            work.append(b)
            work += [h for h, body in rec.inloop.get(b, ())]
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        for p, x in controls(rec, b):
            a = rec.atom(p)
            if a is not None:
                out.add(a)
            work.append(p)
    return out


def common(groups, ev, names):
    """every series of the function sits under the same condition"""
    return len(groups) == 1


def is_result(rec, b):
    """a branch on the outcome of a fallible call or of an observer only decides whether the function goes on"""
    t = rec.inl.blocks[b].t
    e = rec.v.expr(t[1])
    if e[0] in ('discr', 'load') and e[1] is not None and e[1][0][0] == 'loc':
        l = e[1][0][1]
        ty = rec.inl.locals[l][0]
        if e[0] == 'discr' and any(d[2] == 'call' and re.search(r'::next$', mir.callee_name(d[3][1])) for d in rec.v.defs.get(l, ())):
            return True
        return 'ControlFlow' in ty or ty.startswith('core::result::Result')
    return False


def tied(rec, obj, s, vecs):
    return s is not None and isinstance(s, str) and re.search(r'count|index|num|^n_', s) is not None


def stepped_in_loop(rec, obj, s):
    return any(rec.inloop.get(b) for b, evs in rec.events.items() for k, o, x, p in evs if o == obj and x == s and k == 'step')


def line_of(inl, b):
    t = inl.blocks[b].t
    if t[0] == 'call':
        return t[5]
    for s in inl.blocks[b].s:
        if s[0] == '=':
            return s[3]
    return inl.line


def compare(rep, fn, rec, names, exits, ss, sites):
    """all series of the group receive the same number of entries at every exit"""
    idx = {n: i for i, n in enumerate(names)}
    seen = set()
    exits = sorted({(b, cnt, cfg) for b, cnt, cfg in exits}, key=str)
    for b, cnt, cfg in exits:
        rep.count('exits compared')
        exp = [s for s in ss if any(c2[idx[s]] != 0 and compatible(cfg, cfg2) for b2, c2, cfg2 in exits)]
        vals = {s: cnt[idx[s]] for s in exp}
        for s, n in vals.items():
            if abs(n) > 1 and (s, 'twice') not in seen:
                seen.add((s, 'twice'))
                x = sites[s][-1][0]
                rep.bad('%s: %s twice' % (fn.path, s), rec.inl.blocks[x].fn.where(line_of(rec.inl, x)), '%s can add more than one entry to %s' % (fn.path, s))
        if len(set(vals.values())) <= 1:
            continue
        some = [s for s in exp if vals[s] != 0]
        none = [s for s in exp if vals[s] == 0]
        for s in none:
            # the configuration may switch off this one: there must be an exit where both receive an entry
            both = [o for o in some if any(c2[idx[s]] != 0 and c2[idx[o]] != 0 and compatible(cfg, cfg2) for b2, c2, cfg2 in exits)]
            if both and (s, 'missing') not in seen:
                seen.add((s, 'missing'))
                x = sites[s][0][0]
                rep.bad('%s: %s without an entry' % (fn.path, s), rec.inl.blocks[x].fn.where(line_of(rec.inl, x)),
                        '%s can return after adding an entry to %s but none to %s' % (fn.path, both[0], s))
    for s in ss:
        if not any(k[0] == s for k in seen):
            rep.ok()


def positions(rep, prog, fn, rec, obj, stores, ser, recorders):
    """series stored by position: once before the position advances"""
    for s in sorted(stores, key=str):
        ks = {p for evs in rec.events.values() for k, o, x, p in evs if k == 'store' and o == obj and x == s}
        if len(ks) != 1:
            continue
        key = ks.pop()
        steps = {b for b, evs in rec.events.items() for k, o, x, p in evs if k == 'step' and o == obj and x == key}
        if not mapped(rec, s, obj):
            continue
        recorders.setdefault(owner(prog, rec.inl, obj), set()).add(s)
        rep.count('series')
        rep.count('series stored by position')
        st = station(rec, obj, s, key, steps)
        if st is None:
            rep.bad('%s: too many paths' % fn.path, fn.where(fn.line), '%s has too many paths' % fn.path)
            continue
        bounds, exits = st
        what = bounds if steps else exits
        rep.count('exits compared', len(what))
        bad = [b for b, c, cfg in what if c != 1 and any(c2 == 1 and compatible(cfg, cfg2) for b2, c2, cfg2 in what)]
        if not steps:
            bad = [b for b, c, cfg in what if c == 0 and any(c2 == 1 and compatible(cfg, cfg2) for b2, c2, cfg2 in what)]
        if bad:
            x = bad[0]
            rep.bad('%s: %s not stored at every station' % (fn.path, s), rec.inl.blocks[x].fn.where(line_of(rec.inl, x)),
                    '%s can %s without storing exactly one entry of %s' % (fn.path, 'advance %s' % key if steps else 'succeed', s))
        else:
            rep.ok()


def station(rec, obj, s, key, steps):
    inl, g = rec.inl, rec.g
    at, heads = set(), set()
    bodies = {h: body for h, body in rec.loops}
    for b, evs in rec.events.items():
        for k, o, x, p in evs:
            if k == 'store' and o == obj and x == s:
                lp = loop_over_map(rec, b)
                if lp is None or not once_per_round(rec, lp[0], lp[1], obj, s, 'store'):
                    at.add(b)
                else:
                    heads.add(lp[0])
    bounds, exits = [], []
    start = (0, 0, frozenset(), frozenset())
    seen, work = {start}, [start]
    while work:
        b, c, cfg, env = work.pop()
        if len(seen) > 200000:
            return None
        if b in steps:
            bounds.append((b, c, cfg))
            c = 0
        if b in at:
            c = min(c + 1, 2)
        t = inl.blocks[b].t
        if t[0] == 'return':
            exits.append((b, c, cfg))
            continue
        for x, cfg2, env2 in nexts(rec, b, cfg, env):
            c2 = min(c + 1, 2) if x in heads and b not in bodies[x] else c
            if fails(inl.blocks[x]):
                continue
            st = (x, c2, cfg2, env2)
            if st not in seen:
                seen.add(st)
                work.append(st)
    return bounds, exits


def fails(blk):
    """leaving through an error is not a station"""
    if any(q[0] == '=' and q[2][0] == 'agg' and q[2][1][0] == 'adt' and q[2][1][2] == 'Err' for q in blk.s):
        return True
    return blk.t[0] == 'call' and mir.callee_name(blk.t[1]).endswith('::from_residual')


def starts(rep, prog, eff, found, recorders):
    """every run empties the series before the first entry"""
    rfns = {}
    for fn, rec, obj, vecs, ser in found:
        if obj[0] == ('arg', 1) and len(obj) == 1 and fn.ins and base(fn.ins[0]) in recorders:
            rfns.setdefault(base(fn.ins[0]), set()).add(fn.key)
    for ty, keys in sorted(rfns.items()):
        series = recorders[ty]
        memo = {}
        runs = [f for f in prog.fns.values() if f.reach and f.kind != 'Closure' and f.ins and base(f.ins[0]) != ty and any(base(x) == ty for x in f.ins)]
        runs = [f for f in runs if reaches(prog, f, keys)]
        for f in sorted(runs, key=lambda f: f.key):
            rep.count('runs examined')
            inl = mir.inline(prog, f, lambda cf, t, s: cf.key not in keys and any(base(x) == ty for x in cf.ins or []), max_depth=5, max_blocks=6000)
            missing = uncleared(rep, prog, eff, inl, ty, keys, series)
            for s in sorted(series, key=str):
                if s in missing:
                    b = missing[s]
                    rep.bad('%s: %s.%s not emptied' % (f.path, ty, s), inl.blocks[b].fn.where(line_of(inl, b)),
                            '%s can record the first station while %s still holds entries of an earlier run' % (f.path, s))
                else:
                    rep.ok()


def reaches(prog, f, keys):
    seen, work = {f.key}, [f]
    while work:
        x = work.pop()
        for bi in mir.cfg(x).rpo:
            t = x.blocks[bi].t
            if t[0] == 'call':
                cf = prog.callee_fn(t[1])
                if cf is not None and cf.key in keys:
                    return True
                if cf is not None and cf.key not in seen and len(seen) < 60:
                    seen.add(cf.key)
                    work.append(cf)
    return False


def uncleared(rep, prog, eff, inl, ty, keys, series):
    """series -> block of a recording call that may be reached with old entries"""
    g = mir.cfg(inl)
    loops = natural_loops(inl)
    fe = eff.of(inl)
    v = mir.values(inl)
    gen = {}
    heads = {}

    for bi in g.rpo:
        blk = inl.blocks[bi]
        for s in blk.s:
            if s[0] == '=' and len(s[1]) >= 2 and isinstance(s[1][-1], tuple) and s[1][-1][0] == 'f' and s[1][-1][2] in series:
                gen.setdefault(bi, set()).add(s[1][-1][2])
        t = blk.t
        if t[0] == 'call' and t[2]:
            nm = mir.callee_name(t[1])
            if CLEAR.search(nm) or nm.endswith('::fill') or nm.endswith('::truncate') or nm.endswith('mem::take'):
                for s in series:
                    if names_series(inl, v, fe, t[2][0], s, ty):
                        lp = None
                        for h, body in loops:
                            if bi in body and (lp is None or len(body) < len(lp[1])):
                                lp = (h, body)
                        if lp and not is_run_loop(inl, lp[1], prog, keys):
                            heads.setdefault(lp[0], set()).add(s)
                        else:
                            gen.setdefault(bi, set()).add(s)
            if len(t[3]) >= 2 and isinstance(t[3][-1], tuple) and t[3][-1][0] == 'f' and t[3][-1][2] in series:
                gen.setdefault(bi, set()).add(t[3][-1][2])
    # all paths, keeping apart runs with and without an output
    rec = Recorder(prog, eff, inl)
    only = {}
    for b in g.rpo:
        a = rec.atom(b)
        only[b] = a if a is not None and a[0] == 'discr' else None
    rec.atom = lambda b: only.get(b)
    rec._flags = set()
    missing = {}
    start = (0, frozenset(), frozenset(), frozenset())
    seen, work = {start}, [start]
    while work:
        b, st, cfg, env = work.pop()
        if len(seen) > 100000:
            raise mir.AnchorError('%s has too many paths' % inl.path)
        st = st | gen.get(b, set()) | heads.get(b, set())
        t = inl.blocks[b].t
        if t[0] == 'call':
            cf = prog.callee_fn(t[1])
            if cf is not None and cf.key in keys:
                for s in series - st:
                    missing.setdefault(s, b)
                # later entries belong to this run
                st = frozenset(series)
        for x, cfg2, env2 in nexts(rec, b, cfg, env):
            if fails(inl.blocks[x]):
                continue
            n = (x, frozenset(st), cfg2, env2)
            if n not in seen:
                seen.add(n)
                work.append(n)
    return missing


def is_run_loop(inl, body, prog, keys):
    return any(inl.blocks[b].t[0] == 'call' and (prog.callee_fn(inl.blocks[b].t[1]) or inl).key in keys for b in body)


def names_series(inl, v, fe, o, s, ty):
    """the operand refers to the series s of the recorder"""
    if o[0] not in ('c', 'm'):
        return False
    q = v.oppath(o)
    if q is not None and any(x == ('f', s) for x in q):
        return True
    return any(s in x for x in fe.carried(o))

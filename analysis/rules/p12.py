"""P12: rejected arguments leave outputs untouched."""
import re
from .. import effects, flow, mir
from ..report import Report
from .p10 import natural_loops

RULE = ('in every public operation that can refuse its arguments, the parts of the caller\'s objects written so far are carried along every path (through helpers); '
        'wherever an error is raised by a test on the arguments alone and leaves the operation, nothing may have been written; refusals of a public operation called '
        'in passing must have been ruled out by an earlier test on the same values')


class Writes(flow.Client):
    """state: (caller-visible paths written so far, user code was called, (refusal, what was written))"""

    def __init__(self, inl, fe, sites, own):
        self.inl, self.fe, self.sites, self.own = inl, fe, sites, own
        self.generic = {i + 1 for i, ty in enumerate(inl.ins or []) if re.fullmatch(r"&mut [A-Z]\w*", ty) and ty[5:] in self.params(inl)}
        self.hits = {}
        self.judged = set()

    @staticmethod
    def params(inl):
        return set(re.findall(r'\w+', ' '.join(map(str, inl.gparams or ()))))

    def start(self, f):
        return (frozenset(), False, None)

    def write(self, st, effs):
        w, cb, r = st
        new = {q[:3] for k, q, ln in effs if k == 'w' and not (q[0][0] == 'arg' and q[0][1] in self.generic)}
        if any(k == 'cb' for k, q, ln in effs):
            cb = True
        return (w | new if new - w else w, cb, r)

    def stmt(self, f, st, env, b, s):
        if b in self.sites and s is self.sites[b] and not st[1]:
            self.judged.add(b)
            st = (st[0], st[1], (b, st[0]))
        elif st[2] is not None and s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1:3] == ('core::result::Result', 'Ok'):
            st = (st[0], st[1], None)
        return self.write(st, self.fe.stmt(s))

    def call(self, f, st, env, b, t):
        if t[4] is None and self.sites.get(b) is t and not st[1]:
            self.judged.add(b)
            if st[0]:
                self.hits.setdefault(b, set()).add(st[0])
        st2 = self.write(st, self.fe.call(t))
        if st2 == st:
            return None
        r = f.default_call(b, env, st2, t)
        return [(s, e) for _, e, s in r] if t[4] is not None else None

    def ret(self, f, st, env, b):
        if st[2] is None or not st[2][1]:
            return
        if env.get((0,), ('?',))[:2] == ('var', 0):
            return
        self.hits.setdefault(st[2][0], set()).add(st[2][1])


def wants(cf, t, home):
    if t[1].get('rk') == 'virtual' or 'dyn ' in (t[1].get('self') or ''):
        return False
    if re.search(r'ops::index::Index|fmt::|PartialEq|PartialOrd', (cf.impl_trait or '') + cf.path):
        return False
    return len(cf.blocks) <= 120


ITER = re.compile(r'^(core::ops::range::Range|core::slice::iter|core::iter::adapters|alloc::vec::into_iter|core::array::iter|core::option::(Iter|IntoIter))')
LIB = re.compile(r'^(core|alloc|std|num_traits|num_complex)::')


class Inputs:
    """which caller-visible values take part in the computation of a value"""

    def __init__(self, prog, inl):
        self.prog, self.inl, self.v = prog, inl, mir.values(inl)
        self.inloop = set()
        for h, body in natural_loops(inl):
            self.inloop |= body
        self.memo = {}

    def op(self, o):
        """frozenset of argument paths, or None when something besides the arguments takes part"""
        if o[0] == 'k':
            return frozenset()
        return self.place(o[1])

    def place(self, p):
        q = self.v.path(p)
        if q is not None and q[0][0] == 'arg':
            return frozenset({tuple(x for x in q if x != '*')})
        return self.local(q[0][1] if q is not None and q[0][0] == 'loc' else p[0])

    def local(self, l):
        if l in self.memo:
            return self.memo[l]
        self.memo[l] = None
        r = self._local(l)
        if r is None:
            # a value on its own cycle is settled as soon as its other inputs are
            self.memo[l] = frozenset()
            r = self._local(l) if self.counter(l) else None
        self.memo[l] = r
        return r

    def counter(self, l):
        """an integer that starts somewhere and is moved by constants only"""
        ds = self.v.defs.get(l, ())
        return len(ds) > 1 and self.inl.locals[l][0] in ('usize', 'i32', 'u32', 'i64', 'u64', 'isize')

    def _local(self, l):
        ty = self.inl.locals[l][0]
        if l in self.v.atm and not ITER.match(ty):
            return None
        if 1 <= l <= self.inl.argc:
            return None if self.v.defs.get(('part', l)) or len(self.v.defs[l]) > 1 else frozenset({(('arg', l),)})
        ds = self.v.defs.get(l, ())
        if not ds:
            return None
        if not self.counter(l) and len({d[0] in self.inloop for d in ds}) > 1:
            return None  # carried around a loop
        out = frozenset()
        if len(ds) > 1 and not self.counter(l):
            # alternatives: what selects one takes part too
            for d in ds:
                for p in controlling(self.inl, mir.cfg(self.inl), d[0]) or ():
                    r = self.op(self.inl.blocks[p].t[1])
                    if r is None:
                        return None
        for d in list(ds) + list(self.v.defs.get(('part', l), ())):
            r = self.rv(d[3][2] if d[3][0] == '=' else d[3]) if d[2] == 'rv' else self.called(d[3]) if d[2] == 'call' else None
            if r is None:
                return None
            out |= r
        return out

    def rv(self, rv):
        k = rv[0]
        if k in ('use', 'repeat'):
            return self.op(rv[1])
        if k == 'ref':
            return self.place(rv[2])
        if k == 'raw':
            return None
        if k == 'discr':
            d = self.v.single(rv[1][0]) if len(rv[1]) == 1 else None
            if d is not None and d[2] == 'call' and re.search(r'::next(_back)?$', mir.callee_name(d[3][1])):
                return None  # the end of a loop
            return self.place(rv[1])
        out = frozenset()
        for o in flat(rv[1:]):
            r = self.op(o)
            if r is None:
                return None
            out |= r
        return out

    def called(self, t):
        nm = mir.callee_name(t[1])
        cf = self.prog.callee_fn(t[1])
        if mir.is_user_callback(t[1]):
            return None
        if cf is not None and not re.search(r'PartialEq|PartialOrd|Index', (cf.impl_trait or '')) or cf is None and not LIB.match(nm.lstrip('<')) and not self.accessor(t):
            return None
        out = frozenset()
        for o in t[2]:
            r = self.op(o)
            if r is None:
                return None
            out |= r
        return out


    def accessor(self, t):
        """a method of an abstract argument that cannot change anything"""
        return (t[1].get('trait') or '').startswith('russell_') and all(o[0] == 'k' or not self.inl.locals[o[1][0]][0].startswith('&mut') for o in t[2])


def flat(x):
    for y in x:
        if isinstance(y, tuple):
            if len(y) == 2 and y[0] in ('c', 'm', 'k'):
                yield y
            else:
                yield from flat(y)


def raise_sites(inl):
    """block -> statement that creates an error, or call that stops the program"""
    out = {}
    for bi in mir.cfg(inl).rpo:
        for s in inl.blocks[bi].s:
            if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] == 'core::result::Result' and s[2][1][2] == 'Err':
                out[bi] = s
        t = inl.blocks[bi].t
        if t[0] == 'call' and t[4] is None and re.search(r'panicking::(assert_failed|panic|panic_fmt)$', mir.callee_name(t[1])):
            out[bi] = t
    return out


def controlling(inl, g, b):
    """the branches that decide directly whether block b runs"""
    region, out, grown = {b}, set(), True
    while grown:
        grown = False
        for x in list(region):
            for p in g.pred[x]:
                if p not in region and all(y in region or inl.blocks[y].t[0] == 'unreachable' for y in g.succ[p]):
                    region.add(p)
                    grown = True
    if 0 in region:
        return None
    for x in region:
        out |= {p for p in g.pred[x] if p not in region}
    return sorted(p for p in out if inl.blocks[p].t[0] == 'switch') or None


def message(v, s):
    """the text of an error"""
    todo, out, seen = [s[2][2][0]] if s[0] == '=' else list(s[2]), set(), set()
    while todo:
        o = todo.pop()
        if o[0] == 'k':
            d = mir.decode(o[1].get('v'))
            if isinstance(d, (str, bytes)):
                out.add(d if isinstance(d, str) else d.decode('utf8', 'replace'))
            continue
        l = o[1][0]
        if l in seen:
            continue
        seen.add(l)
        for d in v.defs.get(l, ()):
            if d[2] == 'rv':
                rv = d[3]
                if rv[0] in ('use', 'repeat'):
                    todo.append(rv[1])
                elif rv[0] == 'ref':
                    todo.append(('c', rv[2]))
                elif rv[0] == 'cast':
                    todo.extend(x for x in rv[1:] if isinstance(x, tuple) and x and x[0] in ('c', 'm', 'k'))
    return ' / '.join(sorted(out))


def check():
    rep = Report('P12', RULE)
    prog = mir.Program()
    eff = effects.Effects(prog)
    for fn in sorted(prog.fns.values(), key=lambda f: f.key):
        if not fn.reach or fn.kind == 'Closure':
            continue
        if not any(ty.startswith('&mut ') for ty in fn.ins or []):
            continue
        rep.count('operations examined')
        operation(rep, prog, eff, fn)
    for k, n in (('operations examined', 150), ('operations that refuse arguments', 40), ('refusals', 150)):
        rep.floor(k, n)
    return rep


def operation(rep, prog, eff, fn):
    for depth in (4, 2, 1, 0):
        inl = mir.inline(prog, fn, lambda cf, t, s: wants(cf, t, fn), max_depth=depth, max_blocks=4000)
        sites = raise_sites(inl)
        v = mir.values(inl)
        inp = Inputs(prog, inl)
        g = mir.cfg(inl)
        judged, cond, own = {}, {}, set()
        for b, s in sites.items():
            es = controlling(inl, g, b)
            rs = [inp.op(inl.blocks[p].t[1]) for p in es or ()]
            if es and None not in rs:
                if s[0] != '=' and inl.blocks[b].stack:
                    continue
                judged[b] = s
                cond[b] = (es, set().union(*rs))
                if not any(x.reach for x in chain(prog, inl.blocks[b])):
                    own.add(b)
        if not judged:
            return
        cl = Writes(inl, eff.of(inl), judged, own)
        try:
            flow.Flow(prog, inl, cl, limit=40000).run({})
            break
        except flow.Limit:
            continue
    else:
        rep.count('operations too large to follow')
        rep.assumptions.append('%s is too large to follow' % fn.path)
        return
    rep.count('operations that refuse arguments')
    rep.count('refusals', len(cl.judged))
    for b in sorted(cl.judged):
        s = judged[b]
        w = [q for q in cl.hits.get(b, ()) if q]
        w = [q for q in ({x for x in ws if not scratch(prog, eff, fn, x)} for ws in w) if q]
        if w and b in own and any(computed(c, q) for c in cond[b][1] for ws in w for q in ws):
            rep.count('errors about computed values')
            w = []
        if w and b not in own:
            # the refusal of a public operation called in passing
            early, need, deep = set(), plain(cond[b][1]), inl.blocks[b].stack
            for p in g.rpo:
                if inl.blocks[p].t[0] == 'switch' and p != b and g.dominates(p, b):
                    st = inl.blocks[p].stack
                    if not any(x.reach for x in chain(prog, inl.blocks[p])):
                        early |= inp.op(inl.blocks[p].t[1]) or set()
                    elif st == deep and not need:
                        need |= plain(inp.op(inl.blocks[p].t[1]) or ())
            # a value set by the operation itself is not an argument any more
            own_values = {q for q in need if q in {tuple(x if isinstance(x, tuple) else ('f', x) for x in p) for ws in w for p in ws}}
            if need <= early or (need & early and need - own_values <= early):
                rep.count('refusals of a callee ruled out beforehand')
                w = []
            elif not concerns(need - early, w, cond[b][1]):
                rep.count('refusals of a callee about something else')
                w = []
        if not w:
            rep.ok()
            continue
        q = sorted(w[0], key=str)[0]
        txt = message(v, s)
        rep.bad('%s: %s' % (fn.path, txt[:80]), inl.blocks[b].fn.where(s[3] if s[0] == '=' else s[5]), '%s refuses its arguments ("%s") after writing %s' % (fn.path, txt, effects.show(inl, q)))


def names(q):
    return tuple(x[-1] if isinstance(x, tuple) and x[0] == 'f' else x if isinstance(x, tuple) and x[0] == 'arg' else '[]' for x in q if not (isinstance(x, tuple) and x[0] == 'd'))


def computed(c, q):
    """the tested value is an element of an array the operation has written to"""
    n = names(c)
    k = min(len(n), len(q))
    return '[]' in n and '[]' in q and n[:k] == q[:k]


def scratch(prog, eff, fn, q):
    """a private part that every operation fills before it looks at it"""
    if len(q) < 2 or q[0] != ('arg', 1) or not isinstance(q[1], str):
        return False
    memo = eff.__dict__.setdefault('scratch', {})
    ty = re.sub(r"^&('\w+ )?(mut )?", '', (fn.ins or [''])[0]).split('<')[0]
    key = (ty, q[1])
    if key not in memo:
        memo[key] = all(filled_first(eff, f, q[:2]) for f in prog.fns.values() if f.kind != 'Closure' and f.ins and not re.search(r'::(Clone|Debug|Serialize|Deserialize)\b', f.impl_trait or '') and
                        re.sub(r"^&('\w+ )?(mut )?", '', f.ins[0]).split('<')[0] == ty and f.ins[0].startswith('&'))
    return memo[key]


def filled_first(eff, fn, path):
    fe = eff.of(fn)
    g = mir.cfg(fn)
    reads, fills = set(), set()
    for bi in g.rpo:
        b = fn.blocks[bi]
        full = b.t[0] == 'call' and re.search(r'::fill$', mir.callee_name(b.t[1])) and any(x[:2] == path and set(x[2:]) <= {'data', '[]'} for x in fe.carried(b.t[2][0]))
        if full or any(s[0] == '=' and '*' in s[1] and path in fe.place(s[1]) for s in b.s):
            fills.add(bi)
        effs = [e for s in b.s for e in fe.stmt(s)] + (fe.call(b.t) if b.t[0] == 'call' and not full else [])
        if any(k == 'r' and x[:2] == path for k, x, ln in effs):
            reads.add(bi)
    return all(any(g.dominates(w, r) and w != r for w in fills) for r in reads)


def plain(rs):
    """the values themselves, without elements of arrays"""
    return {q for q in rs if len(q) > 1 and all(x[0] in ('arg', 'f') for x in q if isinstance(x, tuple))}


def concerns(need, written, tested):
    """the refusal is about an argument or about the object that was changed"""
    for q in need:
        if q[0] != ('arg', 1) or len(q) == 1:
            return True
        base = tuple(x[-1] if isinstance(x, tuple) and x[0] == 'f' else x for x in q[:-1])
        if len(base) == 1 and not any(names(x) in ws for x in tested for ws in written):
            continue
        if any(w[:-1] == base or (w[-1] == '[]' and w[:-2] == base) for ws in written for w in ws):
            return True
    return False


def chain(prog, blk):
    return [prog.fns[x[0]] for x in blk.stack if x[0] in prog.fns]

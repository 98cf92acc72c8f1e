"""P21: configurations are validated before anything happens."""
import re
from .. import effects, flow, mir
from ..report import Report
from . import p12

RULE = ('every validator (a function that only inspects its object and refuses) is located; every operation that receives, stores or works with a validated kind of configuration must '
        'consult the validator on every path before the first user function is invoked and before data of the caller are changed, and must return its error; validators consult the validators of their parts; '
        'no test on the arguments alone refuses them after a user function was invoked')

SIMPLE = re.compile(r'(::(len|is_empty|is_some|is_none|eq|ne|lt|le|gt|ge|dim|branch|from_residual|from_output|abs|is_nan|is_finite|get|contains|contains_key|as_ref|deref|index|iter|into_iter|next|min|max)$)')


def base(ty):
    """the workspace type behind references and options"""
    ty = (ty or '').strip()
    while True:
        t = re.sub(r"^&('\w+ )?(mut )?", '', ty)
        m = re.match(r'core::option::Option<(.*)>$', t) or re.match(r'alloc::(?:boxed::Box|sync::Arc|rc::Rc)<(.*)>$', t)
        if m:
            t = m.group(1)
        if t == ty:
            return ty.split('<')[0]
        ty = t


def validators(prog, eff):
    """type -> set of validator keys"""
    cand, calls = {}, {}
    for f in prog.fns.values():
        if f.kind == 'Closure' or not f.ins or not f.ins[0].startswith('&') or f.ins[0].startswith('&mut') or not re.match(r'core::result::Result<\(\),', f.out or ''):
            continue
        t = base(f.ins[0])
        if t not in prog.adts or any(ty.startswith('&mut') for ty in f.ins):
            continue
        if any(k in ('w', 'cb') for k, q in eff.summary(f)):
            continue
        own, ok = set(), True
        for bi in mir.cfg(f).rpo:
            x = f.blocks[bi].t
            if x[0] == 'call':
                cf = prog.callee_fn(x[1])
                if cf is not None and not re.search('PartialEq|PartialOrd|Index', cf.impl_trait or '') and not SIMPLE.search(mir.callee_name(x[1])):
                    own.add(cf.key)
                elif not SIMPLE.search(mir.callee_name(x[1])):
                    ok = False
        if ok:
            cand[f.key] = t
            calls[f.key] = own
    good = set(cand)
    while True:
        bad = {k for k in good if calls[k] - good}
        # something must be refused
        live = {k for k in good if any(s[0] == '=' for s in p12.raise_sites(prog.fns[k]).values())}
        while True:
            more = {k for k in good - live if calls[k] & live}
            if not more:
                break
            live |= more
        bad |= good - live
        if not bad:
            break
        good -= bad
    out = {}
    for k in good:
        out.setdefault(cand[k], set()).add(k)
    return out, calls


class Guard(flow.Client):
    """state: (validated types, refused, done) """

    def __init__(self, prog, inl, fe, vals, need, self_ok):
        self.prog, self.inl, self.fe, self.vals, self.need, self.self_ok = prog, inl, fe, vals, need, self_ok
        self.bad = {}
        self.generic = p12.Writes.params(inl)
        self.consulted = set()
        self.oks = 0

    def start(self, f):
        return (frozenset(), None)

    def outward(self, q):
        """a path the caller owns: anything but the operation's own object"""
        i = q[0][1]
        if q[0][0] != 'arg':
            return False
        ty = self.inl.ins[i - 1] if i - 1 < len(self.inl.ins or []) else ''
        return not (i == 1 and self.self_ok) and ty.startswith('&mut ')

    def effects(self, st, b, effs, ln):
        for k, q, _ in effs:
            if k == 'cb' or k == 'w' and self.outward(q):
                what = 'a user function is invoked' if k == 'cb' else '%s is changed' % effects.show(self.inl, q)
                for t in self.need:
                    if t not in st[0] or st[1] == t:
                        self.bad.setdefault((t, 'before'), (b, ln, what))

    def stmt(self, f, st, env, b, s):
        self.effects(st, b, self.fe.stmt(s), s[3])
        return st

    def call(self, f, st, env, b, t):
        cf = self.prog.callee_fn(t[1])
        if cf is not None:
            for ty in self.need:
                if cf.key in self.vals[ty]:
                    self.consulted.add(ty)
                    out = []
                    for _, e, s in f.default_call(b, env, st, t):
                        d = f.place(e, t[3])
                        for v, s2 in ((('var', 0, None), (s[0] | {ty}, s[1])), (('var', 1, None), (s[0] | {ty}, ty))):
                            e2 = dict(e)
                            f.kill(e2, d)
                            e2[d] = v
                            out.append((s2, e2))
                    return out
        self.effects(st, b, self.fe.call(t), t[5])
        return None

    def ret(self, f, st, env, b):
        v = env.get((0,))
        if v and v[:2] == ('var', 1):
            return
        if not (self.inl.out or '').startswith('core::result::Result'):
            v = ('var', 0)
        if st[1] is not None and v and v[:2] == ('var', 0):
            self.bad.setdefault((st[1], 'ignored'), (b, self.inl.line, ''))
        self.oks += 1
        for t in self.need:
            if t not in st[0]:
                self.bad.setdefault((t, 'never'), (b, self.inl.line, ''))


def reaches(prog, targets):
    callers = {}
    for fn in prog.fns.values():
        for bi in mir.cfg(fn).rpo:
            t = fn.blocks[bi].t
            if t[0] == 'call':
                cf = prog.callee_fn(t[1])
                if cf is not None:
                    callers.setdefault(cf.key, set()).add(fn.key)
        if fn.kind == 'Closure' and fn.parent:
            callers.setdefault(fn.key, set()).add(fn.parent)
    out, work = set(targets), list(targets)
    while work:
        for c in callers.get(work.pop(), ()):
            if c not in out:
                out.add(c)
                work.append(c)
    return out


def fields(prog, t):
    a = prog.adts.get(t)
    if not a or a['kind'] != 'Struct':
        return []
    return [(f[0], f[1]) for v in a['variants'] for f in v['fields']]


def check():
    rep = Report('P21', RULE)
    prog = mir.Program()
    eff = effects.Effects(prog)
    vals, vcalls = validators(prog, eff)
    allv = set().union(*vals.values()) if vals else set()
    reach = {t: reaches(prog, ks) for t, ks in vals.items()}
    rep.count('validators', len(allv))
    # parts of a validated configuration are validated with it
    for t, ks in sorted(vals.items()):
        for nm, ty in fields(prog, t):
            b = base(ty)
            if b in vals and b != t:
                rep.count('validated parts')
                if any(reach[b] & {k} for k in ks):
                    for k in sorted(ks):
                        if k in reach[b]:
                            follow(rep, prog, eff, vals, reach, b, prog.fns[k])
                else:
                    rep.bad('%s.%s' % (t, nm), prog.fns[sorted(ks)[0]].where(prog.fns[sorted(ks)[0]].line), 'the validator of %s does not validate its part %s' % (t, nm))
    pubs = [f for f in prog.fns.values() if f.reach and f.kind != 'Closure']
    for t, ks in sorted(vals.items()):
        parents = {p for p in vals if any(base(ty) == t for _, ty in fields(prog, p))}
        users = [f for f in pubs if f.key in reach[t] and f.key not in allv]
        if not users:
            rep.bad('%s: unused' % t, prog.fns[sorted(ks)[0]].where(prog.fns[sorted(ks)[0]].line), 'no public operation consults the validator of %s' % t)
            continue
        if parents:
            continue
        required(rep, prog, eff, vals, reach, t, pubs)
    late(rep, prog, eff)
    rep.floor('validators', 8)
    rep.floor('operations that must validate', 12)
    rep.floor('refusals in operations invoking user functions', 20)
    return rep


def required(rep, prog, eff, vals, reach, t, pubs):
    holders = {a for a in prog.adts if any(base(ty) == t for _, ty in fields(prog, a))} - set(vals)
    need = {}
    # methods of the configured object itself
    own = [f for f in pubs if f.ins and base(f.ins[0]) == t]
    if any(f.key in reach[t] for f in own if f.key not in vals[t]):
        for f in own:
            if f.key in vals[t]:
                continue
            s = eff.summary(f)
            if any(k == 'cb' for k, q in s):
                need[f.key] = f
    # operations that receive one
    built = set()
    for f in pubs:
        ins = f.ins or []
        if f.key in vals[t] or not any(base(x) == t for x in ins[(1 if ins and base(ins[0]) == t else 0):]):
            continue
        if f.key in reach[t]:
            need[f.key] = f
            built.add(base(re.sub(r'^core::result::Result<(.*), [^,]*>$', r'\1', f.out or '')))
    for h in sorted(holders):
        makers = [f for f in pubs if any(base(x) == t for x in f.ins or []) and made(prog, f, h)]
        if any(f.key in reach[t] for f in makers):
            # validated when it is created: every way to create or change it must do so
            for f in makers:
                need[f.key] = f
        else:
            ops = [f for f in pubs if f.ins and base(f.ins[0]) == h]
            if any(f.key in reach[t] for f in ops):
                for f in ops:
                    if (f.out or '').startswith('core::result::Result') and any(k == 'cb' for k, q in eff.summary(f)):
                        need[f.key] = f
    for k, f in sorted(need.items()):
        rep.count('operations that must validate')
        follow(rep, prog, eff, vals, reach, t, f)


def made(prog, f, h):
    """f creates an object of type h, or stores into one it is given"""
    out = f.out or ''
    if h in out or 'Self' in out or ('<' not in h and h in out):
        return True
    return bool(f.ins and base(f.ins[0]) == h and f.ins[0].startswith('&mut'))


def follow(rep, prog, eff, vals, reach, t, f):
    inl = mir.inline(prog, f, lambda cf, x, s: cf.key in reach[t] and cf.key not in vals[t] and x[1].get('rk') != 'virtual', max_depth=5, max_blocks=5000)
    cl = Guard(prog, inl, eff.of(inl), vals, {t}, bool(f.ins) and f.ins[0].startswith('&'))
    try:
        flow.Flow(prog, inl, cl, limit=200000).run({(i,): ('ref', (i, '*')) for i, ty in enumerate(inl.ins or [], 1) if ty.startswith('&')})
    except flow.Limit:
        rep.count('operations too large to follow')
        rep.assumptions.append('%s is too large to follow' % f.path)
        return
    if not cl.bad:
        rep.ok()
    for (ty, kind), (b, ln, what) in sorted(cl.bad.items()):
        if kind == 'never' and (ty, 'before') in cl.bad:
            continue
        msg = {'before': '%s: %s before the configuration (%s) was validated' % (f.path, what, ty),
               'ignored': '%s continues although the validator of %s refused' % (f.path, ty),
               'never': '%s can succeed without validating %s' % (f.path, ty)}[kind]
        rep.bad('%s: %s %s' % (f.path, ty, kind), inl.blocks[b].fn.where(ln), msg)


class After(p12.Writes):
    """refusals reached after a user function was invoked"""

    def start(self, f):
        return 0

    def stmt(self, f, st, env, b, s):
        if b in self.sites and s is self.sites[b]:
            self.judged.add(b)
            if st:
                self.hits.setdefault(b, st)
        return st

    def call(self, f, st, env, b, t):
        if st or not any(k == 'cb' for k, q, ln in self.fe.call(t)):
            return None
        r = f.default_call(b, env, (b, t[5]), t)
        return [(s, e) for _, e, s in r] if t[4] is not None else None

    def ret(self, f, st, env, b):
        pass


class Fixed(p12.Inputs):
    """values that do not change while the operation runs"""

    def counter(self, l):
        return False


def late(rep, prog, eff):
    for fn in sorted(prog.fns.values(), key=lambda f: f.key):
        if not fn.reach or fn.kind == 'Closure' or not (fn.out or '').startswith('core::result::Result'):
            continue
        if not any(k == 'cb' for k, q in eff.summary(fn)):
            continue
        for depth in (3, 1, 0):
            inl = mir.inline(prog, fn, lambda cf, t, s: p12.wants(cf, t, fn) and not cf.reach, max_depth=depth, max_blocks=4000)
            sites = {b: s for b, s in p12.raise_sites(inl).items() if s[0] == '='}
            g = mir.cfg(inl)
            inp = Fixed(prog, inl)
            fe = eff.of(inl)
            written = {q for bi in g.rpo for k, q, ln in fe.block(bi) if k == 'w'}
            judged = {}
            for b, s in sites.items():
                es = p12.controlling(inl, g, b)
                rs = [inp.op(inl.blocks[p].t[1]) for p in es or ()]
                if es and None not in rs and set().union(*rs) and not any(touches(p12.names(r), w) for r in set().union(*rs) for w in written):
                    judged[b] = s
            if not judged:
                break
            cl = After(inl, fe, judged, ())
            try:
                flow.Flow(prog, inl, cl, limit=60000).run({})
            except flow.Limit:
                continue
            rep.count('refusals in operations invoking user functions', len(cl.judged))
            v = mir.values(inl)
            for b in sorted(cl.judged):
                if b not in cl.hits:
                    rep.ok()
                    continue
                s = judged[b]
                txt = p12.message(v, s)
                x, ln = cl.hits[b]
                rep.bad('%s: late: %s' % (fn.path, txt[:80]), inl.blocks[b].fn.where(s[3]), '%s refuses its arguments ("%s") after a user function was invoked at %s' % (fn.path, txt, inl.blocks[x].fn.where(ln)))
            break
        else:
            rep.count('operations too large to follow')


def touches(r, w):
    k = min(len(r), len(w))
    return r[:k] == w[:k]

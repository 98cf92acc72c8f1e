"""P08: a stop request ends the run at once."""
import re
from .. import effects, flow, mir
from ..report import Report

RULE = ('in every public operation that (through helpers) consults an observer returning a stop request, the answer "stop" is followed along every path: '
        'no user-supplied function may be invoked after it, directly or by any called function, until the operation returns')


def observer(fn, t):
    """a call of a user function that receives the statistics and answers whether to stop"""
    if t[0] != 'call' or not mir.is_user_callback(t[1]):
        return False
    ty = fn.locals[t[3][0]][0] if len(t[3]) == 1 else ''
    return bool(re.match(r'core::result::Result<bool,', ty)) and 'Stats' in t[1].get('self', '')


class Stop(flow.Client):
    """state: None, or the call at which a stop was requested"""

    def __init__(self, inl, fe):
        self.inl, self.fe = inl, fe
        self.bad = {}
        self.asked, self.returns = set(), set()

    def start(self, f):
        return 0

    def call(self, f, st, env, b, t):
        effs = None
        if observer(self.inl, t):
            if st:
                self.bad.setdefault((st[0], b), t)
                return []
            r = f.default_call(b, env, st, t)
            out = []
            for _, e, s in r:
                d = f.place(e, t[3])
                for val, st2 in ((('var', 0, ('k', True)), (b,)), (('var', 0, ('k', False)), st), (('var', 1, None), st)):
                    e2 = dict(e)
                    f.kill(e2, d)
                    e2[d] = val
                    out.append((st2, e2))
            self.asked.add(b)
            return out
        if st and any(k == 'cb' for k, q, ln in self.fe.call(t)):
            self.bad.setdefault((st[0], b), t)
            return []
        return None

    def ret(self, f, st, env, b):
        if st:
            self.returns.add(st[0])


def reaching(prog):
    """functions that may consult an observer"""
    out = {fn.key for fn in prog.fns.values() if any(observer(fn, fn.blocks[bi].t) for bi in mir.cfg(fn).rpo)}
    direct = set(out)
    callers = {}
    for fn in prog.fns.values():
        for bi in mir.cfg(fn).rpo:
            t = fn.blocks[bi].t
            if t[0] == 'call':
                cf = prog.callee_fn(t[1])
                if cf is not None:
                    callers.setdefault(cf.key, set()).add(fn.key)
        if fn.kind == 'Closure' and fn.parent:
            callers.setdefault(fn.key, set()).add(fn.parent)
    work = list(out)
    while work:
        for c in callers.get(work.pop(), ()):
            if c not in out:
                out.add(c)
                work.append(c)
    return out, direct


def check():
    rep = Report('P08', RULE)
    prog = mir.Program()
    eff = effects.Effects(prog)
    keys, direct = reaching(prog)
    rep.count('functions consulting an observer', len(direct))
    seen = set()
    for k in sorted(keys):
        fn = prog.fns.get(k)
        if fn is None or not fn.reach or fn.kind == 'Closure':
            continue
        rep.count('operations followed')
        small = {f.key for f in prog.fns.values() if f.kind == 'Closure' or 'bool' in (f.out or '')}
        inl = mir.inline(prog, fn, lambda cf, t, s: (cf.key in keys or cf.key in small and len(cf.blocks) < 40) and t[1].get('rk') != 'virtual', max_depth=6, max_blocks=6000)
        cl = Stop(inl, eff.of(inl))
        f = flow.Flow(prog, inl, cl, limit=300000)
        f.run({(i,): ('ref', (i, '*')) for i, ty in enumerate(inl.ins or [], 1) if ty.startswith('&')})
        rep.count('states explored', f.states)
        rep.count('observer calls followed', len(cl.asked))
        for b in sorted(cl.asked):
            bads = [(x, t) for (a, x), t in cl.bad.items() if a == b]
            src = inl.blocks[b]
            for x, t in bads:
                tgt = inl.blocks[x]
                key = '%s: %s after stop from %s' % (fn.path, name(t), src.fn.path)
                if key in seen:
                    continue
                seen.add(key)
                rep.bad(key, tgt.fn.where(t[5]), '%s can run %s after the observer called at %s asked to stop' % (fn.path, name(t), src.fn.where(src.t[5])))
            if not bads:
                if b not in cl.returns:
                    rep.bad('%s: no return after stop from %s' % (fn.path, src.fn.path), src.fn.where(src.t[5]), '%s does not return after the observer asked to stop' % fn.path)
                else:
                    rep.ok()
    rep.floor('functions consulting an observer', 2)
    rep.floor('operations followed', 2)
    rep.floor('observer calls followed', 5)
    return rep


def name(t):
    n = mir.callee_name(t[1])
    if mir.is_user_callback(t[1]):
        return 'a user function'
    return n

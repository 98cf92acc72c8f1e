"""P19: temporarily modified inputs are restored on every exit."""
import re
from .. import flow, mir
from ..report import Report

RULE = ('every function that evaluates a user-supplied function at perturbed values of an object belonging to its caller is followed along every path, '
        'including those on which an evaluation fails: an element is disturbed by any store except the one that puts back the value loaded from the same '
        'element while it was undisturbed, and no element may be disturbed at an exit; secondary state handed to a user\'s update function is backed up '
        'before and handed to the restore function after every trial step that is not accepted, before the next one')

DIFFERENCE = re.compile(r'jacobian|deriv|grad|hess|diff|perturb', re.I)


def check():
    rep = Report('P19', RULE)
    prog = mir.Program()
    elements(rep, prog)
    secondary(rep, prog)
    rep.floor('functions examined', 2000)
    rep.floor('perturbing operations', 1)
    rep.floor('elements saved and restored', 1)
    rep.floor('trial steps followed', 2)
    rep.floor('backup sites', 2)
    rep.floor('restore sites', 2)
    return rep


# -- elements of the caller's objects ------------------------------------------------------------------

class Restore(flow.Client):
    """state: frozenset of disturbed elements (object, index)"""

    def __init__(self, inl):
        self.inl, self.v = inl, mir.values(inl)
        self.exits, self.restored, self.disturbed, self.evals = [], set(), set(), set()

    def start(self, f):
        return frozenset()

    def element(self, f, env, t):
        v = f.val(env, t[2][0])
        base = v[1] if v and v[0] == 'ref' else f.place(env, t[2][0][1]) + ('*',) if t[2][0][0] in ('c', 'm') else None
        return base, mir.values(self.inl).expr(t[2][1])

    def mine(self, base):
        return base is not None and isinstance(base[0], int) and 0 < base[0] <= self.inl.argc and '*' in base

    def call(self, f, st, env, b, t):
        c = t[1]
        if c.get('trait') in ('core::ops::index::Index', 'core::ops::index::IndexMut') and len(t[2]) == 2 and (c.get('args') or [None, None])[-1] == 'usize':
            base, j = self.element(f, env, t)
            if self.mine(base):
                el = base + (('at', j),)
                if el not in env and (base, j) not in st and not any(q[:len(base)] == base and env[q] == ('sym', ('orig', q)) and q != el and (base, q[-1][1]) in st for q in env):
                    env[el] = ('sym', ('orig', el))
                f.store(env, t[3], ('ref', el))
                return [(st, env)]
            return None
        if mir.is_user_callback(c):
            self.evals.add((b, frozenset(st)))
            out = []
            for _, e, s in f.default_call(b, env, st, t):
                out.append((s, e))
            return out if t[4] is not None else None
        return None

    def stmt(self, f, st, env, b, s):
        p = s[1]
        q = f.place(env, p)
        el = None
        if q and isinstance(q[-1], tuple) and q[-1][0] == 'at':
            el = q
            base, j = q[:-1], q[-1][1]
        elif len(p) > 1 and isinstance(p[-1], tuple) and p[-1][0] in ('i', 'c') and self.mine(q):
            base, j = q[:-1], mir.values(self.inl).expr_local(p[-1][1]) if p[-1][0] == 'i' else ('const', p[-1][1])
            el = base + (('at', j),)
        if el is None or not self.mine(base):
            return st
        val = f.rv(env, s[2]) if s[2][0] in ('use', 'cast') else None
        if val == ('sym', ('orig', el)):
            if (base, j) in st:
                self.restored.add((base, j))
            return st - {(base, j)}
        self.disturbed.add((base, j, s[3]))
        return st | {(base, j)}

    def ret(self, f, st, env, b):
        self.exits.append((st, env.get((0,))))


def wants(cf, t, home):
    if t[1].get('rk') == 'virtual' or 'dyn ' in (t[1].get('self') or ''):
        return False
    if re.search(r'ops::index::Index', cf.impl_trait or '') or re.search(r'PartialEq|PartialOrd|fmt::', cf.path):
        return False
    return cf.kind == 'Closure' or len(cf.blocks) <= 60 and cf.crate == home.crate


def shared_with_user(fn):
    """arguments handed to a user function by shared reference"""
    v = mir.values(fn)
    out = set()
    for bi in mir.cfg(fn).rpo:
        t = fn.blocks[bi].t
        if t[0] == 'call' and mir.is_user_callback(t[1]):
            for a in t[2][1:]:
                ops = [a]
                if a[0] in ('c', 'm') and len(a[1]) == 1:
                    d = v.single(a[1][0])
                    if d and d[2] == 'rv' and d[3][0] == 'agg':
                        ops = d[3][2]
                for o in ops:
                    if o[0] in ('c', 'm') and fn.locals[o[1][0]][0].startswith('&') and not fn.locals[o[1][0]][0].startswith('&mut'):
                        q = v.oppath(o)
                        if q and isinstance(q[0], tuple) and q[0][0] == 'arg':
                            out.add(q[0][1])
    return out


def writes_elements(fn):
    for b in fn.blocks:
        if b.c:
            continue
        t = b.t
        if t[0] == 'call' and t[1].get('trait') == 'core::ops::index::IndexMut':
            return True
        for s in b.s:
            if s[0] == '=' and len(s[1]) > 1 and isinstance(s[1][-1], tuple) and s[1][-1][0] in ('i', 'c'):
                return True
    return False


def elements(rep, prog):
    calls_user = set()
    for fn in prog.fns.values():
        rep.count('functions examined')
        if any(b.t[0] == 'call' and not b.c and mir.is_user_callback(b.t[1]) for b in fn.blocks):
            calls_user.add(fn.key)
    # functions that reach a user function through private helpers
    reach = set(calls_user)
    for _ in range(2):
        for fn in prog.fns.values():
            if fn.key in reach:
                continue
            for b in fn.blocks:
                if not b.c and b.t[0] == 'call':
                    cf = prog.callee_fn(b.t[1])
                    if cf is not None and cf.key in reach and (not cf.reach or cf.kind == 'Closure'):
                        reach.add(fn.key)
                        break
    for k in sorted(reach):
        fn = prog.fns[k]
        if fn.kind != 'Closure' and not any(ty.startswith('&mut ') for ty in fn.ins or []):
            continue
        inl = mir.inline(prog, fn, lambda cf, t, s: wants(cf, t, fn), max_depth=4)
        if not writes_elements(inl):
            continue
        cl = Restore(inl)
        try:
            flow.Flow(prog, inl, cl, limit=20000).run({(i,): ('ref', (i, '*')) for i in range(1, inl.argc + 1) if inl.locals[i][0].startswith('&')})
        except flow.Limit:
            rep.count('functions too large to follow')
            continue
        shared = shared_with_user(inl) if DIFFERENCE.search(fn.path.rsplit('::', 1)[-1]) else set()
        objs = {base for base, j in cl.restored}
        objs |= {base for base, j, ln in cl.disturbed if base[0] in shared}
        objs = {o for o in objs if any(d for _, d in cl.evals if any(x[0] == o for x in d))}
        if not objs:
            continue
        rep.count('perturbing operations')
        rep.count('elements saved and restored', len(cl.restored))
        for o in sorted(objs, key=str):
            left = [(st, r) for st, r in cl.exits if any(x[0] == o for x in st)]
            nm = describe(inl, o)
            if not left:
                rep.ok('%s: %s holds its original values at %d exits' % (fn.path, nm, len(cl.exits)))
                continue
            err = all(r and r[0] == 'var' and r[1] == 1 for _, r in left)
            if err and fn.kind == 'Closure' and local_object(prog, fn, o):
                # the object belongs to the enclosing operation, which gives up as well
                rep.ok('%s: %s is a work copy of the enclosing operation' % (fn.path, nm))
                continue
            ln = [l for base, j, l in cl.disturbed if base == o]
            rep.bad('%s: %s' % (fn.path, nm), fn.where(ln[0] if ln else None),
                    '%s: an element of %s is modified for an evaluation and does not hold its saved original value when %s' % (
                        fn.path, nm, 'an error is returned' if err else 'the function returns'))


def describe(fn, o):
    out = fn.name(o[0]) or 'argument %d' % o[0]
    for e in o[1:]:
        if isinstance(e, tuple) and e[0] == 'f':
            out += '.%s' % (e[1],)
    return out


def local_object(prog, fn, o):
    """the object is reached through an argument or captured variable of a closure that is not part of the caller's interface"""
    par = prog.fns.get(fn.parent)
    return par is not None and not any(ty.startswith('&mut ') and 'Vector' in ty for ty in par.ins or [])


# -- secondary state -------------------------------------------------------------------------------------

HOOK = {'backup_secondary_state': 'backup', 'restore_secondary_state': 'restore', 'update_secondary_state': 'update', 'prepare_to_iterate': None}


def hook_of(fn, v, t):
    """which user hook a call goes through"""
    if not mir.is_user_callback(t[1]):
        return None
    l = t[2][0][1][0] if t[2][0][0] in ('c', 'm') else None
    names = set()
    todo, done = [l], set()
    while todo:
        x = todo.pop()
        if x is None or x in done:
            continue
        done.add(x)
        for d in v.defs.get(x, []):
            if d[2] == 'rv':
                r = d[3]
                p = r[2] if r[0] in ('ref', 'raw') else r[1][1] if r[0] == 'use' and r[1][0] in ('c', 'm') else r[2][1] if r[0] == 'cast' and r[2][0] in ('c', 'm') else None
                if p is not None:
                    for e in p[1:]:
                        if isinstance(e, tuple) and e[0] == 'f' and isinstance(e[2], str):
                            names.add(e[2])
                    todo.append(p[0])
            elif d[2] == 'call':
                for a in d[3][2][:1]:
                    if a[0] in ('c', 'm'):
                        for e in a[1][1:]:
                            if isinstance(e, tuple) and e[0] == 'f' and isinstance(e[2], str):
                                names.add(e[2])
                        todo.append(a[1][0])
    for n in names:
        if n in HOOK:
            return HOOK[n]
    return None


def secondary(rep, prog):
    """backup before the first update of a trial; restore when a trial is rejected, before the next one"""
    traits = {}
    for fn in prog.fns.values():
        if fn.crate == 'russell_nonlin' and fn.impl_trait and fn.impl_trait.endswith('::SolverTrait'):
            traits.setdefault(fn.impl_self.split('<')[0], {})[fn.path.rsplit('::', 1)[-1]] = fn
    if len(traits) < 2:
        raise mir.AnchorError('the continuation solvers were not found')
    for ty, ms in sorted(traits.items()):
        for m in ('step', 'reject'):
            if m not in ms:
                raise mir.AnchorError('%s: %s was not found' % (ty, m))
        step, reject = ms['step'], ms['reject']
        for fn, what in ((step, 'step'), (reject, 'reject')):
            inl = mir.inline(prog, fn, lambda cf, t, s: cf.crate == 'russell_nonlin' and len(cf.blocks) < 400 and not (t[1].get('rk') == 'virtual'), max_depth=4)
            v = mir.values(inl)
            kinds = {}
            for bi in mir.cfg(inl).rpo:
                t = inl.blocks[bi].t
                if t[0] == 'call':
                    k = hook_of(inl, v, t)
                    if k:
                        kinds[bi] = k
            rep.count('backup sites', sum(k == 'backup' for k in kinds.values()))
            rep.count('restore sites', sum(k == 'restore' for k in kinds.values()))
            rep.count('update sites', sum(k == 'update' for k in kinds.values()))
            guard(rep, prog, fn, inl, kinds, what, ty)
        rep.count('trial steps followed')
    drive(rep, prog, traits)


def guard(rep, prog, fn, inl, kinds, what, ty):
    short = ty.rsplit('::', 1)[-1]
    need = 'backup' if what == 'step' else 'restore'
    sites = [b for b, k in kinds.items() if k == need]
    if not sites:
        rep.bad('%s: no %s' % (short, need), fn.where(), '%s: the secondary state is never handed to the %s function' % (fn.path, need))
        return
    # every block is reached only through the site, a branch on the automatic mode or a branch on the presence of the hook
    g = mir.cfg(inl)
    v = mir.values(inl)
    hookabs, autooff = set(), set()
    for bi in g.rpo:
        t = inl.blocks[bi].t
        if t[0] != 'switch':
            continue
        e = v.expr(t[1])
        if e[0] == 'load' and e[1] and e[1][-1] == ('f', 'auto') or e[0] == 'un' and e[1] == 'Not' and e[2][0] == 'load' and e[2][1] and e[2][1][-1] == ('f', 'auto'):
            neg = e[0] == 'un'
            for val, x in t[3]:
                if bool(val) == neg:
                    autooff.add((bi, x))
            if all(bool(val) != neg for val, x in t[3]):
                autooff.add((bi, t[4]))
        elif e[0] == 'discr' and hook_option(inl, v, t, bi, need):
            for val, x in t[3]:
                if val == 0:
                    hookabs.add((bi, x))
            if not any(val == 0 for val, x in t[3]):
                hookabs.add((bi, t[4]))
    skip = autooff | hookabs

    def reach(starts, avoid):
        seen, work = set(), list(starts)
        while work:
            b = work.pop()
            if b in seen or b in avoid:
                continue
            seen.add(b)
            for x in g.succ[b]:
                if (b, x) not in skip:
                    work.append(x)
        return seen
    r = reach([0], set(sites))
    if what == 'step':
        late = [b for b, k in kinds.items() if k == 'update' and b in r]
        if late:
            rep.bad('%s: update without backup' % short, fn.where(inl.blocks[late[0]].t[5]), '%s: in automatic mode the secondary state can be updated before it was backed up' % fn.path)
        else:
            rep.ok('%s: the secondary state is backed up before every update' % fn.path)
        again = [b for b in sites if set(g.reachable_from(g.succ[b])) & {x for x, k in kinds.items() if k == 'update'} and any(
            b in g.reachable_from(g.succ[u]) for u, k in kinds.items() if k == 'update')]
        if again:
            rep.bad('%s: backup of a trial state' % short, fn.where(inl.blocks[again[0]].t[5]), '%s: the secondary state is backed up again after it was updated' % fn.path)
        else:
            rep.ok()
    else:
        outs = [b for b in r if inl.blocks[b].t[0] == 'return']
        if outs:
            rep.bad('%s: rejection without restore' % short, fn.where(), '%s: in automatic mode a rejected step can leave the secondary state in its trial state' % fn.path)
        else:
            rep.ok('%s: every rejected step restores the secondary state' % fn.path)


def hook_option(fn, v, t, bi, need):
    """the branch tests whether the hook is present"""
    if t[1][0] not in ('c', 'm'):
        return False
    work, seen, names = [t[1][1][0]], set(), set()
    while work:
        l = work.pop()
        if l in seen:
            continue
        seen.add(l)
        for d in v.defs.get(l, []):
            ps = []
            if d[2] == 'rv':
                r = d[3]
                ps = [r[1]] if r[0] == 'discr' else [r[2]] if r[0] in ('ref', 'raw') else [r[1][1]] if r[0] == 'use' and r[1][0] in ('c', 'm') else []
            elif d[2] == 'call':
                ps = [a[1] for a in d[3][2][:1] if a[0] in ('c', 'm')]
            for p in ps:
                work.append(p[0])
                for e in p[1:]:
                    if isinstance(e, tuple) and e[0] == 'f' and isinstance(e[2], str):
                        names.add(e[2])
    return any(HOOK.get(n) == need for n in names)


def drive(rep, prog, traits):
    """between a failed trial step and the next trial step the rejection is performed"""
    for fn in prog.fns.values():
        if fn.crate != 'russell_nonlin':
            continue
        calls = {}
        for bi in mir.cfg(fn).rpo:
            t = fn.blocks[bi].t
            if t[0] == 'call' and (t[1].get('trait') or '').endswith('::SolverTrait'):
                calls.setdefault(t[1]['path'].rsplit('::', 1)[-1], []).append(bi)
        if 'step' not in calls:
            continue
        inl = mir.inline(prog, fn, lambda cf, t, s: cf.crate == 'russell_nonlin' and t[1].get('rk') != 'virtual' and 'dyn ' not in (t[1].get('self') or '') and len(cf.blocks) < 60, max_depth=3)
        cl = Driver()
        flow.Flow(prog, inl, cl, limit=400000).run({})
        rep.count('step sites', len(calls['step']))
        if cl.probs:
            rep.bad('%s: retry without rejection' % fn.path, fn.where(sorted(cl.probs)[0]), '%s: another trial step can follow a failed one without the rejection that restores the secondary state' % fn.path)
        else:
            rep.ok('%s: every retry follows a rejection' % fn.path)
    rep.floor('step sites', 2)


class Driver(flow.Client):
    """state: 'none', 'trial' (a step was taken and neither accepted nor rejected), 'done'"""

    def __init__(self):
        self.probs = set()

    def start(self, f):
        return 'none'

    def call(self, f, st, env, b, t):
        if (t[1].get('trait') or '').endswith('::SolverTrait'):
            m = t[1]['path'].rsplit('::', 1)[-1]
            if m == 'step':
                if st == 'trial':
                    self.probs.add(t[5])
                st = 'trial'
            elif m in ('accept', 'reject'):
                st = 'done'
            r = f.default_call(b, env, st, t)
            return [(s, e) for _, e, s in r]
        return None

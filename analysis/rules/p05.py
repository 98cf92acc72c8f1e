"""P05: direct solver handles follow their life cycle."""
import re
from .. import clower, facts, flow, mir
from ..report import Report
from .p10 import natural_loops

RULE = ('typestate of the solver handles, followed along every path of every function that can change a handle: a native solution is reached only where a '
        'flag is known to be set; that flag is set only after a successful native factorization and cleared by every path on which a factorization fails or '
        'the stored matrix changes; native initialization happens once; later matrices are compared with the first one; the same discipline holds inside the '
        'C shims; every native resource is released exactly once; handles cannot be duplicated or shared')

INIT, FACT, SOLVE, NEW, DROP = 'initialize', 'factorize', 'solve', 'new', 'drop'


def check():
    rep = Report('P05', RULE)
    for variant in (None, 'mumps', 'cudss'):
        rust_side(rep, mir.Program(variant), variant)
    for cp in clower.programs(facts.extract()):
        if any(f.endswith('_factorize') for f in cp.fns):
            c_flags(rep, cp)
            c_resources(rep, cp)
    rep.floor('solver types', 6)
    rep.floor('native solution sites', 6)
    rep.floor('native factorization sites', 6)
    rep.floor('native initialization sites', 6)
    rep.floor('functions followed (Rust)', 18)
    rep.floor('C solution sites', 6)
    rep.floor('C factorization sites', 6)
    rep.floor('native resources', 20)
    return rep


# -- common typestate ----------------------------------------------------------------------------------

class Life(flow.Client):
    """state: (known entry values of flags, facts, outcome of init, outcome of fact, matrix replaced)"""

    def __init__(self, flags, phase, deposit={}, track=lambda f, env, b, t: None):
        self.flags, self.phase, self.deposit, self.track = flags, phase, deposit, track
        self.sites, self.exits = [], []

    def start(self, f):
        return (frozenset(), frozenset(), None, None, False)

    def entry(self, st, i):
        for k, v in st[0]:
            if k == i:
                return v
        return None

    def now(self, f, st, env, i):
        """current value of a flag: True, False, 'entry' (unchanged and unknown), None (unknown)"""
        v = env.get((1, '*', ('f', i)))
        if v is None:
            return None
        if v[0] == 'k':
            return bool(v[1])
        if v == ('sym', ('S', i)):
            e = self.entry(st, i)
            return 'entry' if e is None else e
        return None

    def refine(self, f, st, sym, op, c, truth):
        if sym == 'fail':
            if c == 0 and not isinstance(c, bool):
                if op == 'Eq':
                    return None if truth else st
                if op == 'Ne':
                    return st if truth else None
            return st
        if isinstance(sym, tuple) and sym[0] == 'S' and sym[1] in self.flags:
            if op not in ('Eq', 'Ne') or not isinstance(c, int):
                return st
            val = (truth == (op == 'Eq')) == bool(c)
            e = self.entry(st, sym[1])
            if e is not None:
                return st if e == val else None
            return (st[0] | {(sym[1], val)},) + st[1:]
        if isinstance(sym, tuple) and sym[0] == 'eq':
            t2 = truth == (bool(c) == (op == 'Eq'))
            if (sym, not t2) in st[1]:
                return None
            return (st[0], st[1] | {(sym, t2)}) + st[2:]
        return st

    def value(self, f, st, env, rv):
        if rv[0] == 'bin' and rv[1] in ('Eq', 'Ne'):
            return self.equal(f.val(env, rv[2]), f.val(env, rv[3]), rv[1] == 'Eq')
        return None

    def equal(self, a, b, pos):
        if a and b and a[0] == 'sym' and b[0] == 'sym' and a != b:
            v = ('sym', ('eq', frozenset((a[1], b[1]))))
            return v if pos else ('not', v)
        return None

    def stmt(self, f, st, env, b, s):
        if self.deposit.get(b) == 'plain':
            st = st[:4] + (True,)
        return st

    def call(self, f, st, env, b, t):
        ph = self.phase(f, env, t)
        if ph:
            name, where = ph
            cur = {i: self.now(f, st, env, i) for i in self.flags}
            held = {i: env.get((1, '*', ('f', i))) for i in self.fields}
            self.sites.append((name, b, t, cur, st, held))
            out = []
            for ok in (True, False):
                e = dict(env)
                f.havoc_args(e, t) if where == 'ret' else None
                for i in self.flags:
                    if (1, '*', ('f', i)) in env:
                        e[(1, '*', ('f', i))] = env[(1, '*', ('f', i))]
                v = ('k', 0) if ok else ('sym', 'fail')
                if where == 'ret':
                    f.store(e, t[3], v)
                else:
                    f.store(e, t[3], None)
                    f.kill(e, where)
                    e[where] = v
                r = 'ok' if ok else 'fail'
                if name == INIT:
                    s2 = st[:2] + (r,) + st[3:]
                elif name == FACT:
                    s2 = st[:3] + (r, False if ok else st[4])
                else:
                    s2 = st
                out.append((s2, e))
            return out
        nm = mir.callee_name(t[1])
        if re.search(r'PartialEq(<.*>)?>?::(eq|ne)$', nm) and len(t[2]) == 2:
            vs = []
            for a in t[2]:
                v = f.val(env, a)
                while v and v[0] == 'ref':
                    v = env.get(v[1])
                vs.append(v)
            r = self.equal(vs[0], vs[1], nm.endswith('::eq'))
            if r:
                f.store(env, t[3], r)
                return [(st, env)]
        if re.search(r'Vec::<.*>::len$|\[T\]>::len$', nm):
            v = f.val(env, t[2][0])
            if v and v[0] == 'ref':
                f.store(env, t[3], ('sym', ('len', v[1])))
                return [(st, env)]
        if b in self.deposit:
            st2 = st[:4] + (True,)
            ty = f.fn.locals[t[3][0]][0]
            if ty.startswith('core::result::Result') and t[4] is not None and any(x == 'result' for x in [self.deposit.get(b)]):
                out = []
                for ok in (True, False):
                    e = dict(env)
                    f.havoc_args(e, t)
                    f.store(e, t[3], ('var', 0 if ok else 1, None))
                    out.append((st2 if ok else st, e))
                return out
            r = f.default_call(b, env, st2, t)
            return [(s, e) for _, e, s in r] if t[4] is not None else None
        return None

    def ret(self, f, st, env, b):
        self.exits.append(({i: self.now(f, st, env, i) for i in self.flags}, {i: env.get((1, '*', ('f', i))) for i in self.flags}, st, f.fn.blocks[b], env.get((0,))))


def judge_solve_flag(i, runs):
    """reasons why flag i does not stand for a current factorization"""
    why = []
    for fn, cl in runs:
        for cur, raw, st, blk, r in cl.exits:
            v = cur[i]
            changed = raw[i] != ('sym', ('S', i))
            if v is None:
                why.append((fn, 'its value is not known when the function returns'))
            elif not changed:
                if v is False:
                    continue
                if st[3] is not None:
                    why.append((fn, 'it is left unchanged although a factorization %s' % ('succeeded' if st[3] == 'ok' else 'failed')) if st[3] == 'fail' else None)
                if st[4] and not cl.never_initialized(st):
                    why.append((fn, 'it is left unchanged although the stored matrix was replaced'))
            elif v is True:
                if st[3] != 'ok':
                    why.append((fn, 'it is set without a successful factorization'))
                elif st[4]:
                    why.append((fn, 'it is set although the stored matrix was replaced after the factorization'))
            if st[3] == 'ok' and v is not True and success_exit(r):
                why.append((fn, 'success is returned without setting it'))
    return [w for w in why if w]


def success_exit(r):
    return r is not None and (r == ('var', 0, None) or r[0] == 'var' and r[1] == 0 or r == ('k', 0))


def judge_init_flag(i, runs):
    why = []
    for fn, cl in runs:
        for cur, raw, st, blk, r in cl.exits:
            v = cur[i]
            changed = raw[i] != ('sym', ('S', i))
            if v is None:
                why.append((fn, 'its value is not known when the function returns'))
            elif st[2] == 'ok':
                if v is not True and success_exit(r):
                    why.append((fn, 'it is not set although the initialization succeeded'))
            elif changed and v is True:
                why.append((fn, 'it is set without a successful initialization'))
    return why


def choose(cands, judge, runs):
    """a sound flag, or the objections to the best candidate"""
    best = None
    for i in cands:
        why = judge(i, runs)
        if not why:
            return i, []
        if best is None or len(why) < len(best[1]):
            best = (i, why)
    return best if best else (None, [])


# -- Rust side -----------------------------------------------------------------------------------------

def native_phase(prog):
    def phase(f, env, t):
        for k in (t[1].get('res'), t[1].get('key')):
            fo = prog.foreign.get(k)
            if fo:
                m = re.search(r'_(initialize|factorize|solve)$', fo['name'])
                if m and fo['ins'] and re.match(r'\*mut .*Interface', fo['ins'][0]):
                    return m.group(1), 'ret'
        return None
    return phase


def rust_side(rep, prog, variant):
    handles = {}
    for p, a in prog.adts.items():
        if a['kind'] == 'Struct':
            for i, fl in enumerate(a['variants'][0]['fields']):
                m = re.match(r'\*mut (.*Interface\w*)$', fl[1])
                if m and (variant or 'umfpack') in p:
                    handles[p] = (a, i, m.group(1))
    coo = [a for p, a in prog.adts.items() if p.endswith('::NumCooMatrix')]
    if len(coo) != 1:
        raise mir.AnchorError('the triplet matrix type was not found')
    coof = [x[0] for x in coo[0]['variants'][0]['fields']]
    for p, (a, hi, iface) in sorted(handles.items()):
        rep.count('solver types')
        structure(rep, prog, p, a, hi, iface)
        fields = a['variants'][0]['fields']
        flags = [i for i, x in enumerate(fields) if x[1] == 'bool']
        phase = native_phase(prog)
        runs = []
        for fn in sorted(prog.fns.values(), key=lambda f: f.key):
            if not (fn.ins and fn.ins[0].replace("'_ ", '') == '&mut ' + p):
                continue
            if not fn.reach and not fn.impl_trait:
                continue      # private helpers are followed in the context of their callers
            rep.count('functions followed (Rust)')
            inl = mir.inline(prog, fn, lambda cf, t, s: wants(cf, t, p), max_depth=6)
            cl = Life(flags, phase, deposits(prog, inl, p))
            cl.fields = range(len(fields))
            mats = [k + 1 for k, ty in enumerate(fn.ins) if 'NumCooMatrix<' in ty]
            env0 = {(1, '*', ('f', i)): ('sym', ('S', i)) for i, x in enumerate(fields) if x[1] in ('bool', 'usize') or x[1].endswith('::Sym')}
            for m in mats:
                for i, x in enumerate(coof):
                    if x in ('symmetric', 'nrow', 'ncol', 'nnz'):
                        env0[(m, '*', ('f', i))] = ('sym', ('M', x))
            for k, ty in enumerate(fn.ins):
                if ty.startswith('&'):
                    env0[(k + 1,)] = ('ref', (k + 1, '*'))
            fl = flow.Flow(prog, inl, cl)
            fl.run(env0)
            cl.never_initialized = lambda st: False
            runs.append((fn, cl))
        short = p.rsplit('::', 1)[-1]
        allsites = [(fn, cl, s) for fn, cl in runs for s in cl.sites]
        # which flags guard the native calls
        inits = [x for x in allsites if x[2][0] == INIT]
        facts_ = [x for x in allsites if x[2][0] == FACT]
        solves = [x for x in allsites if x[2][0] == SOLVE]
        rep.count('native initialization sites', len({x[2][1] for x in inits}))
        rep.count('native factorization sites', len({x[2][1] for x in facts_}))
        rep.count('native solution sites', len({x[2][1] for x in solves}))
        if not (inits and facts_ and solves):
            rep.error('%s: not all native phases were reached' % p)
            continue
        cand = [i for i in flags if all(s[3][i] is False for _, _, s in inits)]
        I, why = choose(cand, judge_init_flag, runs)
        if I is None:
            rep.bad('%s: repeated initialization' % short, inits[0][0].where(inits[0][2][2][5]), '%s: the native initialization is not confined to a state in which no initialization has succeeded' % short)
        elif why:
            fn, m = why[0]
            rep.bad('%s: flag %s' % (short, fields[I][0]), fn.where(), '%s: the flag %s guards the native initialization, but %s' % (short, fields[I][0], m))
        else:
            rep.ok('%s: native initialization guarded by %s' % (short, fields[I][0]))
        if I is not None:
            for _, cl in runs:
                cl.never_initialized = lambda st, cl=cl: cl.entry(st, I) is False
        cand = [i for i in flags if all(s[3][i] is True for _, _, s in solves)]
        F, why = choose(cand, judge_solve_flag, runs)
        if F is None:
            rep.bad('%s: solution without factorization' % short, solves[0][0].where(solves[0][2][2][5]), '%s: the native solution can be reached when no flag says that a factorization is available' % short)
        elif why:
            fn, m = why[0]
            rep.bad('%s: flag %s' % (short, fields[F][0]), fn.where(), '%s: the flag %s admits solutions, but in %s %s' % (short, fields[F][0], fn.path, m))
        else:
            rep.ok('%s: native solution guarded by %s' % (short, fields[F][0]))
        # initial values
        for fn in prog.fns.values():
            for b in fn.blocks:
                for s in b.s:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] == p:
                        for i in {I, F} - {None}:
                            o = s[2][2][i]
                            if o[0] == 'k' and mir.decode(o[1].get('v')) is False:
                                rep.ok()
                            else:
                                rep.bad('%s: initial %s' % (short, fields[i][0]), fn.where(s[3]), '%s: the flag %s does not start as false' % (fn.path, fields[i][0]))
        # later matrices are compared with the first one
        stored = {}
        for fn, cl, s in inits:
            for i, v in s[5].items():
                if v and v[0] == 'sym' and v[1][0] == 'M':
                    stored.setdefault(i, set()).add(v[1][1])
                elif i in stored:
                    stored[i].add(None)
        keeps = {i: next(iter(v)) for i, v in stored.items() if len(v) == 1 and None not in v}
        for fn, cl, s in facts_:
            st = s[4]
            if st[2] == 'ok':
                for q in ('nrow',):
                    if any(('M', 'nrow') in m and ('M', 'ncol') in m for m in equalities(st[1])):
                        rep.ok()
                    else:
                        rep.bad('%s: square matrices only' % short, fn.where(s[2][5]), '%s: a matrix that is not square is not refused' % fn.path)
                continue
            if I is None or cl.entry(st, I) is not True:
                rep.bad('%s: factorization without initialization' % short, fn.where(s[2][5]), '%s: the native factorization can be reached without a successful initialization' % fn.path)
                continue
            have = set()
            for m in equalities(st[1]):
                for x in m:
                    for y in m:
                        if x[0] == 'S' and y[0] == 'M' and keeps.get(x[1]) in ((y[1],) if y[1] not in ('nrow', 'ncol') else ('nrow', 'ncol')):
                            have.add(y[1])
            for need, what in (('nrow', 'number of rows'), ('nnz', 'number of entries'), ('symmetric', 'symmetry')):
                if need in have or need == 'nrow' and 'ncol' in have:
                    rep.ok()
                else:
                    rep.bad('%s: later %s' % (short, what), fn.where(s[2][5]), '%s: a later matrix whose %s differs from the first one is not refused before the native factorization' % (fn.path, what))
            if st[4]:
                rep.ok()
            else:
                rep.bad('%s: later values' % short, fn.where(s[2][5]), '%s: a later factorization is reached without taking over the given matrix' % fn.path)
        # vectors
        for fn, cl, s in solves:
            lens = set()
            for m in equalities(s[4][1]):
                if any(y[0] == 'S' and keeps.get(y[1]) in ('nrow', 'ncol') for y in m):
                    lens |= {x[1][0] for x in m if x[0] == 'len'}
            for k, ty in enumerate(fn.ins):
                if 'NumVector<' in ty:
                    if k + 1 in lens:
                        rep.ok()
                    else:
                        rep.bad('%s: dimension of argument %d' % (short, k), fn.where(s[2][5]), '%s: the dimension of the argument %s is not compared with the dimension of the factorized matrix' % (fn.path, fn.anames[k] if fn.anames else k))


def wants(cf, t, p):
    if t[1].get('rk') == 'virtual' or 'dyn ' in (t[1].get('self') or ''):
        return False
    if cf.ins and re.sub(r"'\w+ ", '', cf.ins[0]) in ('&mut ' + p, '&' + p):
        return True
    if cf.impl_self == p:
        return True
    if re.search(r'PartialEq', cf.path):
        return False
    return len(cf.blocks) <= 4 or len(cf.blocks) <= 40 and not natural_loops(cf) and p.split('::')[0] == cf.crate


def equalities(facts_):
    """classes of symbols known to be equal"""
    cls = {}
    for (k, pair), truth in [(x, tr) for x, tr in facts_ if x[0] == 'eq']:
        if truth and len(pair) == 2:
            a, b = pair
            m = cls.get(a, {a}) | cls.get(b, {b})
            for x in m:
                cls[x] = m
    return {frozenset(m) for m in cls.values()}


def deposits(prog, fn, p):
    """blocks that put data of the given matrix into the handle: block -> 'result' (a fallible call) or 'plain'"""
    v = mir.values(fn)
    mine, mat = set(), set()
    for i in range(1, fn.argc + 1):
        ty = fn.locals[i][0]
        if 'NumCooMatrix<' in ty:
            mat.add(i)
    mine.add(1)
    ch = True

    def roots(r):
        from .p23 import reads_rv
        return reads_rv(r)
    while ch:
        ch = False
        for b in fn.blocks:
            if b.c:
                continue
            for s in b.s:
                if s[0] != '=':
                    continue
                rr = roots(s[2])
                for S in (mine, mat):
                    if s[1][0] not in S and any(x in S for x in rr) and len(s[1]) == 1:
                        if S is mat and fn.locals[s[1][0]][0] in ('bool', 'usize', 'i32'):
                            continue
                        S.add(s[1][0])
                        ch = True
            t = b.t
            if t[0] == 'call':
                for S in (mine, mat):
                    if t[3][0] not in S and len(t[3]) == 1 and any(a[0] in ('c', 'm') and a[1][0] in S for a in t[2]):
                        if S is mat and fn.locals[t[3][0]][0] in ('bool', 'usize', 'i32', '()'):
                            continue
                        S.add(t[3][0])
                        ch = True
    mine -= mat - {1}
    out = {}
    for bi, b in enumerate(fn.blocks):
        if b.c:
            continue
        for s in b.s:
            if s[0] == '=' and len(s[1]) > 1 and s[1][0] in mine and any(x in mat for x in roots(s[2])):
                fty = ''
                if s[1][0] == 1 and len(s[1]) == 3 and isinstance(s[1][2], tuple):
                    fty = prog.adts[p]['variants'][0]['fields'][s[1][2][1]][1] if p in prog.adts else ''
                if fty in ('usize', 'bool', 'i32') or fty.endswith('::Sym'):
                    continue
                out[bi] = 'plain'
        t = b.t
        if t[0] == 'call':
            w = any(a[0] in ('c', 'm') and a[1][0] in mine and fn.locals[a[1][0]][0].startswith('&mut ') for a in t[2])
            if w and any(a[0] in ('c', 'm') and a[1][0] in mat for a in t[2]):
                out[bi] = 'result' if fn.locals[t[3][0]][0].startswith('core::result::Result') else 'plain'
    # a loop that copies the entries counts as a whole
    for h, body in natural_loops(fn):
        if any(b in out for b in body):
            out.setdefault(h, 'plain')
    return out


def structure(rep, prog, p, a, hi, iface):
    """ownership of the native handle"""
    short = p.rsplit('::', 1)[-1]
    hname = a['variants'][0]['fields'][hi][0]
    for im in prog.impls:
        s = (im['self'] or '').split('<')[0]
        if s in (p, iface) and im['trait'] in ('core::clone::Clone', 'core::marker::Copy', 'core::marker::Sync'):
            rep.bad('%s: %s' % (short, im['trait'].rsplit('::', 1)[-1]), '%s:%d' % (im['file'], im['line']), '%s implements %s: a handle could be duplicated or used from two threads' % (s, im['trait']))
    rep.ok()
    if a['variants'][0]['fields'][hi][2]:
        rep.bad('%s: public handle' % short, a.get('file', ''), 'the native handle of %s is public' % p)
    else:
        rep.ok()
    drops = [im for im in prog.impls if im['self'] == p and im['trait'] == 'core::ops::drop::Drop']
    if not drops:
        rep.bad('%s: Drop' % short, '', '%s does not release its native handle' % p)
        return
    ndrop = 0
    for fn in prog.fns.values():
        for bi in mir.cfg(fn).rpo:
            t = fn.blocks[bi].t
            if t[0] == 'call':
                for k in (t[1].get('res'), t[1].get('key')):
                    fo = prog.foreign.get(k)
                    if fo and fo['name'].endswith('_drop') and iface in (fo['ins'] or [''])[0]:
                        ndrop += 1
                        if fn.impl_trait == 'core::ops::drop::Drop' and fn.impl_self == p:
                            pass
                        elif fn.ins and fn.ins[0] == '&mut ' + p and not fn.reach and not fn.impl_trait:
                            pass
                        else:
                            rep.bad('%s: second release' % short, fn.where(t[5]), '%s releases the native handle outside the destructor' % fn.path)
                if re.search(r'mem::(forget|ManuallyDrop)|ManuallyDrop::<T>::new|ptr::read$|mem::transmute_copy', mir.callee_name(t[1])) and any(short in (fn.locals[x[1][0]][0]) for x in t[2] if x[0] in ('c', 'm')):
                    rep.bad('%s: escape from the destructor' % short, fn.where(t[5]), '%s takes a solver out of the control of its destructor' % fn.path)
            for s in fn.blocks[bi].s:
                if s[0] == '=' and len(s[1]) > 1:
                    last = s[1][-1]
                    if isinstance(last, tuple) and last[0] == 'f' and last[1] == hi and last[2] == hname and fn.impl_self == p:
                        rep.bad('%s: handle replaced' % short, fn.where(s[3]), '%s overwrites the native handle without releasing it' % fn.path)
        if fn.impl_self == p and fn.out and '*mut ' in fn.out and iface in fn.out and fn.reach:
            rep.bad('%s: handle exposed' % short, fn.where(), '%s hands out the native handle' % fn.path)
    dfn = [f for f in prog.fns.values() if f.impl_self == p and f.impl_trait == 'core::ops::drop::Drop']
    for fn in dfn:
        inl = mir.inline(prog, fn, lambda cf, t, s: wants(cf, t, p))
        g = mir.cfg(inl)
        sites = [b for b in g.rpo if inl.blocks[b].t[0] == 'call' and any((prog.foreign.get(k) or {}).get('name', '').endswith('_drop') for k in (inl.blocks[b].t[1].get('res'), inl.blocks[b].t[1].get('key')))]
        exits = {b for b in g.rpo if inl.blocks[b].t[0] == 'return'}
        rel = {b for b in sites}
        skipped = exits & g.reachable_from([0], avoid=rel)
        if skipped and not null_guarded(inl, rel, g):
            rep.bad('%s: release' % short, fn.where(), '%s: the native handle is not released on every path of the destructor' % fn.path)
        elif any(set(g.reachable_from(g.succ[b])) & rel for b in rel):
            rep.bad('%s: release' % short, fn.where(), '%s: the native handle is released more than once' % fn.path)
        else:
            rep.ok('%s: released once' % short)


def null_guarded(fn, rel, g):
    """the only way around the release is a test of the handle against null"""
    for b in g.rpo:
        t = fn.blocks[b].t
        if t[0] == 'switch' and rel and any(g.dominates(b, r) for r in rel):
            if any(fn.blocks[x].t[0] == 'call' and mir.callee_name(fn.blocks[x].t[1]).endswith('::is_null') for x in g.rpo if g.dominates(x, b)):
                return True
    return False


# -- C side --------------------------------------------------------------------------------------------

def c_phase(f, env, t):
    nm = t[1]['path']
    m = re.fullmatch(r'umfpack_\w+?_(symbolic|numeric|solve|wsolve|qsymbolic)', nm)
    if m:
        return {'symbolic': INIT, 'qsymbolic': INIT, 'numeric': FACT, 'solve': SOLVE, 'wsolve': SOLVE}[m.group(1)], 'ret'
    if re.fullmatch(r'[dz]mumps_c', nm):
        v = f.val(env, t[2][0])
        base = v[1] if v and v[0] == 'ref' else f.place(env, t[2][0][1]) + ('*',)
        j = env.get(base + (('f', 'job'),))
        if j is None:
            raise mir.AnchorError('%s: the job of a MUMPS call is not known' % f.fn.path)
        ph = {1: INIT, 2: FACT, 3: SOLVE}.get(j[1])
        return (ph, base + (('f', 'infog'), ('ci', 0))) if ph else None
    if nm == 'cudssExecute':
        named = [a[1].get('named') for a in t[2] if a[0] == 'k' and a[1].get('named')]
        for n in named:
            if n.startswith('CUDSS_PHASE_'):
                ph = {'CUDSS_PHASE_ANALYSIS': INIT, 'CUDSS_PHASE_FACTORIZATION': FACT, 'CUDSS_PHASE_REFACTORIZATION': FACT, 'CUDSS_PHASE_SOLVE': SOLVE}.get(n)
                return (ph, 'ret') if ph else None
        raise mir.AnchorError('%s: the phase of a cuDSS call is not known' % f.fn.path)
    return None


def c_flags(rep, cp):
    rel = cp.cf.rel
    names = set()
    for fn in cp.fns.values():
        for b in fn.blocks:
            for s in b.s:
                if s[0] == '=' and len(s[1]) == 3 and s[1][1] == '*' and s[1][0] == 1 and s[2][0] == 'use' and s[2][1][0] == 'k':
                    v = mir.decode(s[2][1][1].get('v'))
                    if v in (0, 1) and isinstance(s[1][2], tuple):
                        names.add(s[1][2][1])
    flags = sorted(names)
    runs = []
    for nm, fn in sorted(cp.fns.items()):
        if not fn.pub or not fn.ins or 'struct' not in fn.ins[0] and 'Interface' not in fn.ins[0] or nm.endswith('_drop'):
            continue
        inl = mir.inline(cp, fn, lambda c, t, s: True)
        cl = Life(flags, c_phase, {})
        cl.fields = ()
        cl.never_initialized = lambda st: False
        env0 = {(1, '*', ('f', i)): ('sym', ('S', i)) for i in flags}
        if fn.ins:
            env0[(1,)] = ('ref', (1, '*'))
        flow.Flow(cp, inl, cl).run(env0)
        runs.append((fn, cl))
        rep.count('functions followed (C)')
    sites = [(fn, cl, s) for fn, cl in runs for s in cl.sites]
    for ph, what in ((INIT, 'initialization'), (FACT, 'factorization'), (SOLVE, 'solution')):
        n = len({(fn.key, s[1]) for fn, cl, s in sites if s[0] == ph})
        rep.count('C %s sites' % what, n)
        if not n:
            rep.error('%s: no native %s found' % (rel, what))
            return
    ini = [x for x in sites if x[2][0] == INIT]
    I, why = choose([i for i in flags if all(s[3][i] is False for _, _, s in ini)], judge_init_flag, runs)
    report_flag(rep, rel, 'initialization', I, why, ini)
    fac = [x for x in sites if x[2][0] == FACT]
    if I is not None:
        for fn, cl, s in fac:
            if s[3][I] is True:
                rep.ok()
            else:
                rep.bad('%s: factorization without initialization' % rel, fn.where(s[2][5]), '%s: the native factorization can be reached without a successful initialization' % fn.path)
    sol = [x for x in sites if x[2][0] == SOLVE]
    F, why = choose([i for i in flags if all(s[3][i] is True for _, _, s in sol)], judge_solve_flag, runs)
    report_flag(rep, rel, 'solution', F, why, sol)


def report_flag(rep, rel, what, i, why, sites):
    fn, cl, s = sites[0]
    if i is None:
        rep.bad('%s: unguarded %s' % (rel, what), fn.where(s[2][5]), '%s: the native %s is not guarded by a flag of the handle' % (fn.path, what))
    elif why:
        f2, m = why[0]
        rep.bad('%s: flag %s' % (rel, i), f2.where(), '%s: the flag %s guards the native %s, but %s' % (f2.path, i, what, m))
    else:
        rep.ok('%s: native %s guarded by %s' % (rel, what, i))


# acquire: regular expression -> position of the pointer that receives the resource
ACQ = [(r'umfpack_\w+_q?symbolic', 'free_symbolic'), (r'umfpack_\w+_numeric', 'free_numeric'), (r'cudaMalloc\w*', 'cudaFree'),
       (r'cudssMatrixCreate\w+', 'cudssMatrixDestroy'), (r'cudssCreate\w*', 'cudssDestroy'), (r'cudssConfigCreate', 'cudssConfigDestroy'),
       (r'cudssDataCreate', 'cudssDataDestroy'), (r'cudaStreamCreate\w*', 'cudaStreamDestroy'), (r'(c|m)alloc', 'free')]
REL = re.compile(r'umfpack_\w+_(free_symbolic|free_numeric)|(cudaFree|cudssMatrixDestroy|cudssDestroy|cudssConfigDestroy|cudssDataDestroy|cudaStreamDestroy|free)')


def acquires(t):
    nm = t[1]['path']
    if re.fullmatch(r'umfpack_\w+_(free|report|get|save|load)_?\w*', nm):
        return None
    for rx, rel in ACQ:
        if re.fullmatch(rx, nm):
            return rel
    return None


def position(cf, nm):
    """index of the argument through which the resource is returned"""
    if nm.startswith('umfpack'):
        ps = cf.protos.get(nm, '')
        ps = ps[ps.index('(') + 1:].split(',')
        return [i for i, x in enumerate(ps) if x.replace(' ', '').startswith('void**')][0]
    return 1 if nm == 'cudssDataCreate' else 0


def releases(t):
    m = REL.fullmatch(t[1]['path'])
    return (m.group(1) or m.group(2)) if m else None


class Res(flow.Client):
    """state: frozenset of (path, state) with state live / freed / null / maybe"""

    def __init__(self, rep, rel, fn, fields, drop):
        self.rep, self.rel, self.fn, self.fields, self.drop = rep, rel, fn, fields, drop
        self.probs = []
        self.exits = []
        self.acq = set()

    def start(self, f):
        e = self.entry0 or {}
        return frozenset((p, e.get(p, 'maybe')) for p in self.fields if e.get(p) != 'null')

    def get(self, st, p):
        for q, v in st:
            if q == p:
                return v
        return 'null'

    def put(self, st, p, v):
        return frozenset(x for x in st if x[0] != p) | ({(p, v)} if v != 'null' else frozenset())

    def refine(self, f, st, sym, op, c, truth):
        if sym == 'fail':
            if c == 0:
                return (None if truth else st) if op == 'Eq' else (st if truth else None) if op == 'Ne' else st
            return st
        if isinstance(sym, tuple) and sym[0] == 'R' and c in (0, 1) and op in ('Eq', 'Ne'):
            isnull = truth == ((op == 'Eq') == (c == 0))
            cur = self.get(st, sym[1])
            if isnull:
                return None if cur == 'live' else self.put(st, sym[1], 'null')
            return None if cur == 'null' else self.put(st, sym[1], 'live') if cur == 'maybe' else st
        return st

    def target(self, f, env, a):
        v = f.val(env, a)
        if v and v[0] == 'ref':
            return v[1]
        return None

    def stmt(self, f, st, env, b, s):
        # moving a resource into a field of the handle, or overwriting a field
        p = f.place(env, s[1])
        if s[2][0] in ('use', 'cast'):
            o = s[2][1] if s[2][0] == 'use' else s[2][2]
            v = f.val(env, o)
            if v and v[0] == 'sym' and isinstance(v[1], tuple) and v[1][0] == 'R' and v[1][1] != p and p[-1] != p[0]:
                q = v[1][1]
                st = self.put(self.put(st, p, self.get(st, q)), q, 'null')
                env2 = ('sym', ('R', p))
                self._alias = (q, p)
                env[q] = env2
                return st
            if o[0] == 'k' and mir.decode(o[1].get('v')) == 0 and (p in self.fields or any(x[0] == p for x in st)):
                if self.get(st, p) in ('live', 'maybe') and self.track(p):
                    self.probs.append(('the resource %s is forgotten without being released' % show(p), s[3]))
                st = self.put(st, p, 'null')
        return st

    def track(self, p):
        return p in self.fields

    def call(self, f, st, env, b, t):
        nm = t[1]['path']
        rel = acquires(t)
        if rel == 'free':
            out = []
            for ok in (True, False):
                e = dict(env)
                p = ('heap', b)
                f.store(e, t[3], ('sym', ('R', p)) if ok else ('k', 0))
                out.append((self.put(st, p, 'live') if ok else st, e))
            return out
        if rel:
            tgt = self.target(f, env, t[2][position(f.prog.cf, nm)])
            if tgt is None:
                raise mir.AnchorError('%s: the resource acquired by %s is not known' % (self.fn.path, nm))
            self.acq.add((tgt, rel, t[5]))
            if self.get(st, tgt) in ('live', 'maybe'):
                self.probs.append(('again', tgt, nm, t[5]))
            out = []
            for ok in (True, False):
                e = dict(env)
                f.kill(e, tgt)
                e[tgt] = ('sym', ('R', tgt))
                f.store(e, t[3], ('k', 0) if ok else ('sym', 'fail'))
                out.append((self.put(st, tgt, 'live' if ok else 'null'), e))
            return out
        if re.fullmatch(r'[dz]mumps_c', nm):
            v = f.val(env, t[2][0])
            base = v[1] if v and v[0] == 'ref' else f.place(env, t[2][0][1]) + ('*',)
            j = env.get(base + (('f', 'job'),))
            tgt = base + (('f', 'instance'),)
            if j == ('k', -1):
                self.acq.add((tgt, 'job -2', t[5]))
                if self.get(st, tgt) in ('live', 'maybe'):
                    self.probs.append(('again', tgt, nm, t[5]))
                out = []
                for ok in (True, False):
                    e = dict(env)
                    w = base + (('f', 'infog'), ('ci', 0))
                    f.kill(e, w)
                    e[w] = ('k', 0) if ok else ('sym', 'fail')
                    out.append((self.put(st, tgt, 'live' if ok else 'null'), e))
                return out
            if j == ('k', -2):
                return [(self.release(f, st, tgt, nm, t[5], False), env)]
            return [(st, env)]
        rl = releases(t)
        if rl:
            a = t[2][-1] if rl == 'cudssDataDestroy' else t[2][0]
            v = f.val(env, a)
            p = None
            if v and v[0] == 'sym' and isinstance(v[1], tuple) and v[1][0] == 'R':
                p = v[1][1]
            elif v and v[0] == 'ref':
                p = v[1]
            elif v == ('k', 0):
                return [(st, env)]
            elif a[0] in ('c', 'm'):
                p = f.place(env, a[1])
                src = f.load(env, a[1])
            if v == ('ref', (1, '*')):
                return [(self.release(f, st, ('self',), nm, t[5], False), env)]
            if p is None:
                return None
            nulls = rl.startswith('free_')
            st = self.release(f, st, p, nm, t[5], nulls)
            if nulls:
                env[p] = ('k', 0)
            return [(st, env)]
        return None

    def release(self, f, st, p, nm, ln, nulls):
        cur = self.get(st, p)
        if cur == 'freed':
            self.probs.append(('the resource %s is released twice' % show(p), ln))
        return self.put(st, p, 'null' if nulls else 'freed')

    def ret(self, f, st, env, b):
        self.exits.append((dict(st), env.get((0,)), dict(env)))


def show(p):
    return '.'.join(str(e[1]) if isinstance(e, tuple) else str(e) for e in p if not isinstance(e, int) and e != '*') or 'handle'


def c_resources(rep, cp):
    rel = cp.cf.rel
    # fields of the handle that receive resources
    acq, witness, always, left = {}, {}, set(), {}

    def run(nm, fn, fields, drop, entry=None):
        inl = mir.inline(cp, fn, lambda c, t, s: True)
        cl = Res(rep, rel, fn, fields, drop)
        if drop:
            fields = set(fields) | {('self',)}
        env0 = {p: ('sym', ('R', p)) for p in fields if p[0] == 1}
        if fn.ins:
            env0[(1,)] = ('ref', (1, '*'))
        for p in fields:
            for i in witness.get(p, ()):
                env0[(1, '*', ('f', i))] = ('sym', ('R', p))
        cl.entry0 = entry
        flow.Flow(cp, inl, cl).run(env0)
        return cl
    pubs = {nm: fn for nm, fn in cp.fns.items() if fn.pub}
    for nm, fn in sorted(pubs.items()):
        if nm.endswith('_drop'):
            continue
        cl = run(nm, fn, (), False)
        for tgt, r, ln in cl.acq:
            if tgt[0] == 1 and len(tgt) > 2:
                acq.setdefault(tgt, (r, fn, ln))
                if any(st.get(tgt) == 'live' and r0 != ('k', 0) for st, r0, env in cl.exits):
                    left.setdefault(tgt, set()).add(nm)
                if r == 'job -2':
                    # an instance without a pointer of its own: a flag tells whether it exists
                    fl = {e[2][1] for st, r0, env in cl.exits for e in env if len(e) == 3 and e[0] == 1 and e[1] == '*' and isinstance(e[2], tuple) and env[e][0] == 'k'}
                    for i in fl:
                        if all((st.get(tgt) == 'live') == (env.get((1, '*', ('f', i))) == ('k', 1)) for st, r0, env in cl.exits):
                            witness.setdefault(tgt, set()).add(i)
                    if not witness.get(tgt):
                        rep.bad('%s: %s: witness' % (rel, nm), fn.where(ln), '%s: no flag of the handle tells whether %s exists' % (nm, show(tgt)))
        # resources moved into the handle by the constructor
        if nm.endswith('_new'):
            kinds = {tgt: r for tgt, r, ln in cl.acq}
            for st, r, env in cl.exits:
                live = {p: v for p, v in st.items() if v == 'live'}
                if r == ('k', 0):
                    lost = [p for p in live]
                    if lost:
                        rep.bad('%s: %s: leak' % (rel, nm), fn.where(), '%s returns no handle but does not release %s' % (nm, show(lost[0]) if not isinstance(lost[0][0], int) else fn.name(lost[0][0])))
                    else:
                        rep.ok()
                else:
                    heap = [p for p in live if p[0] == 'heap' and len(p) == 2]
                    rep.ok() if heap else rep.bad('%s: %s: handle' % (rel, nm), fn.where(), '%s returns something else than its own allocation' % nm)
                    for p in live:
                        if len(p) == 2 and p[0] == 'heap':
                            continue
                        fld = p[-1]
                        if isinstance(fld, tuple) and fld[0] == 'f':
                            acq.setdefault((1, '*', fld), ('any', fn, None))
                            always.add((1, '*', fld))
                        else:
                            rep.bad('%s: %s: lost' % (rel, nm), fn.where(), '%s: the resource %s is not kept in the handle' % (nm, fn.name(p[0]) if isinstance(p[0], int) else p))
    rep.count('native resources', len(acq))
    for nm, fn in sorted(pubs.items()):
        if nm.endswith('_new'):
            continue
        drop = nm.endswith('_drop')
        entry = {p: 'live' for p in always}
        if nm.endswith('_initialize'):
            # runs only while no initialization has succeeded: what failed attempts leave behind may be held
            entry.update({p: 'null' for p in acq if p not in always and not left.get(p)})
        cl = run(nm, fn, tuple(acq), drop, entry)
        seen = set()
        for pr in cl.probs:
            if pr[0] == 'again':
                k = '%s: %s: %s acquired again' % (rel, nm, show(pr[1]))
                if k not in seen:
                    seen.add(k)
                    rep.bad(k, fn.where(pr[3]), '%s: %s is acquired by %s while an earlier one may still be held (a failed call leaves it behind)' % (nm, show(pr[1]), pr[2]))
            else:
                rep.bad('%s: %s: %s' % (rel, nm, pr[0]), fn.where(pr[1]), '%s: %s' % (nm, pr[0]))
        for p in acq:
            bad = False
            for st, r, env in cl.exits:
                v = st.get(p, 'null')
                if drop:
                    if v == 'live' or v == 'maybe' and st.get(('self',)) == 'freed':
                        bad = True
                elif v == 'freed':
                    bad = True
            if bad and drop:
                rep.bad('%s: %s: %s not released' % (rel, nm, show(p)), fn.where(), '%s: the resource %s is not released on every path' % (nm, show(p)))
            elif bad:
                rep.bad('%s: %s: %s dangling' % (rel, nm, show(p)), fn.where(), '%s: the handle keeps the released resource %s' % (nm, show(p)))
            else:
                rep.ok()
        if drop:
            if cl.exits and all(st.get(('self',)) == 'freed' for st, r, env in cl.exits):
                rep.ok('%s: %s releases the handle' % (rel, nm))
            else:
                rep.bad('%s: %s: handle not released' % (rel, nm), fn.where(), '%s does not release the memory of the handle on every path' % nm)

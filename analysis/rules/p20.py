"""P20: real and complex variants refuse the same inputs."""
import re
from .. import arith, flow, mir
from ..arith import add, con, cval, mul, sub, sym
from ..report import Report

RULE = ('for every pair of a real and a complex variant of an operation, and for the variants over the sparse storage formats, the guards before the first loop or native call are collected as '
        'conditions on the sizes, flags and choices the caller passed (fields named, not positioned); a combination accepted by one variant must not be among those refused by the other: every '
        'intersection of an accepting and a refusing guard path must be contradictory')

MATRIX = 'russell_lab::matrix::num_matrix::NumMatrix'
REF = re.compile(r"^(&('\w+ )?(mut )?)+")


class Client(arith.Client):
    def start(self, fl):
        return ()

    def restart(self, fl):
        self.paths = []

    def length(self, fl, env, path):
        ty = fl.path_type(path[:-1]) if len(path) > 1 else None
        a = fl.prog.adts.get((ty or '').split('<')[0])
        if ty and ty.split('<')[0] == MATRIX and a and isinstance(path[-1], tuple) and a['variants'][0]['fields'][path[-1][1]][0] == 'data':
            out = []
            for i, f in enumerate(a['variants'][0]['fields']):
                if f[0] in ('nrow', 'ncol'):
                    q = path[:-1] + (('f', i),)
                    v = env.get(q)
                    out.append(v[1] if v and v[0] == 'p' else fl.named(env, q, 'usize'))
            return mul(out[0], out[1])
        if path[0] in fl.argnames:
            return sym('%s.len:usize' % fl.canon(path))
        return None

    def outcome(self, fl, st, env, what):
        sel = {}
        for q, v in env.items():
            if q[0] in fl.argnames and q[-1] != 'opq' and '[]' not in q and 'len' not in q:
                if v[0] == 'k' and isinstance(v[1], bool):
                    sel[fl.canon(q)] = v[1]
                elif v[0] == 'var' and q in fl.asked:
                    sel[fl.canon(q)] = v[1]
        self.paths.append((what, st[0], frozenset(sel.items()), (1, 'opq') in env))

    def ret(self, fl, st, env, b):
        out = fl.fn.locals[0][0]
        v = env.get((0,))
        if re.match(r'core::result::Result<', out):
            self.outcome(fl, st, env, 'unknown' if not v or v[0] != 'var' else 'refuse' if v[1] == 1 else 'accept')
        else:
            self.outcome(fl, st, env, 'accept')

    def diverge(self, fl, st, env, b, t):
        self.outcome(fl, st, env, 'refuse')

    def call(self, fl, st, env, b, t):
        if t[1].get('foreign') and t[2]:
            self.outcome(fl, st, env, 'accept')
            return []
        return None


class Engine(arith.Arith):
    """guards only: conditions are split into cases and nothing is followed into loops"""

    def __init__(self, prog, fn, client, names):
        super().__init__(prog, fn, client)
        self.argnames = names
        self.asked = set()

    def path_type(self, path):
        ty = self.fn.locals[path[0]][0]
        for e in path[1:]:
            ty = REF.sub('', ty or '')
            if e == '*':
                continue
            m = re.match(r'core::option::Option<(.*)>$', ty)
            if isinstance(e, tuple) and e[0] == 'd' and m:
                ty = '(%s,)' % m.group(1)
                continue
            if isinstance(e, tuple) and e[0] == 'f':
                a = self.prog.adts.get(ty.split('<')[0])
                if ty.startswith('(') and ty.endswith(',)'):
                    ty = ty[1:-2]
                    continue
                if not a or a['kind'] != 'Struct' or e[1] >= len(a['variants'][0]['fields']):
                    return None
                ty = a['variants'][0]['fields'][e[1]][1]
                continue
            return None
        return REF.sub('', ty or '')

    def canon(self, path):
        name = self.argnames[path[0]]
        for i, e in enumerate(path[1:], 1):
            if e == '*':
                continue
            if isinstance(e, tuple) and e[0] == 'f':
                a = self.prog.adts.get((self.path_type(path[:i]) or '').split('<')[0])
                name += '.' + (a['variants'][0]['fields'][e[1]][0] if a and a['kind'] == 'Struct' and e[1] < len(a['variants'][0]['fields']) else str(e[1]))
            else:
                name += '.' + str(e)
        return name

    def named(self, env, q, ty):
        p = sym('%s:%s' % (self.canon(q), ty)) if q[0] in self.argnames else self.fresh('m', ty, str(arith.tag(q)))
        if '[]' not in q:
            env[q] = ('p', p)
        return p

    def poly(self, env, o, ty=None):
        if o[0] in ('c', 'm'):
            cur = self.place(env, o[1])
            if cur[0] in self.argnames and cur not in env and '[]' not in cur:
                t = self.fn.locals[o[1][0]][0] if len(o[1]) == 1 else ty
                if arith.isint(t or ''):
                    return self.named(env, cur, t)
        return super().poly(env, o, ty)

    def facts_for(self, env, st):
        return st[0]

    def choice(self, ty):
        """number of values of a plain enumeration, None for other types"""
        a = self.prog.adts.get(ty or '')
        return len(a['variants']) if a and a['kind'] == 'Enum' and not any(v['fields'] for v in a['variants']) else None

    def assign(self, env, st, dest, r, b):
        if r[0] == 'use' and r[1][0] in ('c', 'm') and len(dest) == 1:
            src, ty = self.place(env, r[1][1]), self.fn.locals[dest[0]][0]
            if src[0] in self.argnames and src not in env and '[]' not in src:
                if ty == 'bool':
                    self.store(env, dest, ('isb', src, True))
                    return st
                if self.choice(ty):
                    self.store(env, dest, ('ev', src))
                    return st
        if r[0] == 'discr':
            v = self.load(env, r[1])
            if v and v[0] == 'ev':
                w = env.get(v[1])
                self.store(env, dest, ('k', self.discr_of(r[2], w[1])) if w and w[0] == 'var' else ('discr', v[1]))
                return st
        return super().assign(env, st, dest, r, b)

    def prune(self, b, env):
        keep = super().prune(b, env)
        for q, v in env.items():
            if q[0] in self.argnames:
                keep[q] = v
        return keep

    def explore(self, env0, st0, start):
        work = [(start, env0, st0)]
        while work:
            b, env, st = work.pop()
            env = self.prune(b, env)
            if b in self.loops:
                self.client.outcome(self, st, env, 'accept')
                continue
            key = (frozenset(env.items()), st)
            s = self.seen.setdefault(b, set())
            if key in s:
                continue
            s.add(key)
            self.states += 1
            if self.states > self.limit:
                raise flow.Limit('state limit exceeded in %s' % self.fn.path)
            for nb, ne, ns in self.step(b, dict(env), st):
                work.append((nb, ne, ns))

    def alts(self, env, st, v):
        """cases in which a condition holds"""
        if v is None:
            return None
        if v[0] == 'rel' and v[1] == 'Ne':
            out = []
            for op in ('Gt', 'Lt'):
                r = self.assume(dict(env), st, ('rel', op, v[2]), True)
                if r:
                    out.append(r)
            return out
        if v[0] == 'and':
            cur = [(env, st)]
            for x in v[1:]:
                nxt = []
                for e, s in cur:
                    a = self.alts(e, s, x)
                    if a is None:
                        return None
                    nxt += a
                cur = nxt
            return cur
        if v[0] == 'or':
            out = []
            for x in v[1:]:
                a = self.alts(dict(env), st, x)
                if a is None:
                    return None
                out += a
            return out
        if v[0] == 'not':
            return None
        r = self.assume(dict(env), st, v, True)
        if v[0] in ('isvar', 'isb'):
            self.asked.add(v[1])
        return [r] if r else []

    def switch(self, b, env, st, t):
        o = t[1]
        v = self.val(env, o)
        if t[2] == 'bool':
            out = []
            tt = {x: y for x, y in t[3]}
            for truth in (True, False):
                y = tt.get(int(truth), t[4])
                a = self.alts(dict(env), st, v if truth else self.negate(v))
                if a is None:
                    e2 = dict(env)
                    cur = self.place(e2, o[1]) if o[0] in ('c', 'm') else (0,)
                    if v is None and cur[0] in self.argnames and '[]' not in cur:
                        e2[cur] = ('k', truth)
                    else:
                        e2[(1, 'opq')] = ('k', True)
                    a = [(e2, st)]
                out += [(y, e, s) for e, s in a]
            return out
        if v and v[0] == 'discr':
            self.asked.add(v[1])
            ty = self.path_type(v[1])
            if self.choice(ty) and v[1] not in env:
                out = []
                for i in range(self.choice(ty)):
                    e2 = dict(env)
                    e2[v[1]] = ('var', i, None)
                    d = self.discr_of(ty, i)
                    out.append(({x: y for x, y in t[3]}.get(d, t[4]), e2, st))
                return out
        if v is None:
            env[(1, 'opq')] = ('k', True)
        return super().switch(b, env, st, t)

    def default_call(self, b, env, st, t):
        nm = mir.callee_name(t[1])
        if re.search(r'PartialEq.*::(eq|ne)$', nm):
            for a in t[2]:
                q = self.target(env, self.val(env, a))
                v = env.get(q) if q else None
                n = self.choice((t[1].get('self') or '').split('<')[0])
                if q and v is None and n and q[0] in self.argnames and '[]' not in q:
                    v = ('ev', q)
                if v and v[0] == 'ev':
                    w = env.get(v[1])
                    if w and w[0] == 'var':
                        env[q] = w
                    elif n:
                        self.asked.add(v[1])
                        out = []
                        for i in range(n):
                            e2 = dict(env)
                            e2[v[1]] = e2[q] = ('var', i, None)
                            out += self.default_call(b, e2, st, t)
                        return out
            for a in t[2]:
                v = self.val(env, a)
                if v and v[0] == 'ref':
                    self.asked.add(self.target(env, v))
        m = re.search(r'cmp::Ord(?: for \w+)?>?::(min|max)$|cmp::(min|max)$', nm)
        dty = self.fn.locals[t[3][0]][0] if len(t[3]) == 1 else ''
        if m and len(t[2]) == 2 and arith.isint(dty):
            x, y = self.poly(env, t[2][0], dty), self.poly(env, t[2][1], dty)
            if x is not None and y is not None:
                out = []
                for op in ('Le', 'Gt'):
                    r = self.assume(dict(env), st, ('rel', op, sub(x, y)), True)
                    if r:
                        e2, s2 = r
                        self.store(e2, t[3], ('p', x if (op == 'Le') == ((m.group(1) or m.group(2)) == 'min') else y))
                        out.append((t[4], e2, s2))
                return out
        return super().default_call(b, env, st, t)


def expand(cf, t, stack):
    return not re.search(r'cmp::PartialEq', str(cf.impl_trait or ''))


def guards(prog, fn, names):
    inl = mir.inline(prog, fn, expand, max_depth=6)
    cl = Client()
    fl = Engine(prog, inl, cl, names)
    fl.run()
    return list(dict.fromkeys(cl.paths)), fl


def plain(p):
    return re.sub(r'_herm\b|_herm_', lambda m: m.group(0).replace('herm', 'sym'), re.sub(r'[cC]omplex_?', '', p))


def families(prog):
    """groups of functions offering one operation"""
    out = {}
    for fn in prog.fns.values():
        if not (fn.reach or fn.impl_trait) or '::_::' in fn.path or not fn.ins:
            continue
        out.setdefault(('scalar', plain(fn.path)), []).append(fn)
        m = re.search(r'russell_sparse::\w+::Num(Coo|Csc|Csr)Matrix::<T>::(\w+)$', fn.path)
        if m:
            out.setdefault(('format', m.group(2)), []).append(fn)
    res = []
    for (kind, k), fs in sorted(out.items()):
        if len(fs) < 2:
            continue
        if kind == 'scalar' and not any(re.search('[cC]omplex', f.path) for f in fs):
            continue
        if kind == 'format' and any(re.search(r'alloc::vec::Vec', x) for f in fs for x in f.ins):
            # arrays of one format are no arguments of the other
            continue
        res.append((kind, k, fs))
    return res


def names(fs):
    """common names of the arguments of a family"""
    same = len({len(f.ins) for f in fs}) == 1
    out = []
    for f in fs:
        out.append({i: 'arg%d' % i if same else re.sub(r'_(real|imag)$', '', f.locals[i][1] or 'arg%d' % i) for i in range(1, len(f.ins) + 1)})
    return out


def feasible(pr, facts):
    fs = frozenset(facts)
    return not any(pr.holds(sub(mul(con(-1), f), con(1)), fs - {f}) for f in fs)


# the coordinate format documents that its vectors may be longer than the matrix requires
LONGER = {('format', 'mat_vec_mul'): ('NumCooMatrix', [('arg1.nrow', 'arg2.data.len'), ('arg1.ncol', 'arg4.data.len')])}


def compare(rep, kind, k, fs, gs):
    pr = arith.Prover()
    who, rel = LONGER.get((kind, k), (None, ()))
    for i in range(len(fs)):
        for j in range(len(fs)):
            if i == j:
                continue
            hit = None
            given = {sub(sym(x + ':usize'), sym(y + ':usize')) for x, y in rel if who in fs[i].path} if who else set()
            for wa, fa, sa, oa in gs[i]:
                if wa != 'accept':
                    continue
                for wb, fb, sb, ob in gs[j]:
                    if wb != 'refuse':
                        continue
                    if not agree(sa, sb):
                        continue
                    if oa or ob:
                        rep.count('undecided intersections')
                        continue
                    rep.count('intersections')
                    if feasible(pr, fa | fb | given):
                        hit = hit or (fa, fb, sb)
            # refusals that depend on values: the other variant must be able to refuse there as well
            for wb, fb, sb, ob in gs[j]:
                if wb != 'refuse' or not ob or hit:
                    continue
                rep.count('refusals by value')
                can = any(wa == 'accept' and agree(sa, sb) and feasible(pr, fa | fb | given) for wa, fa, sa, oa in gs[i])
                if can and not any(wa == 'refuse' and agree(sa, sb) and feasible(pr, fa | fb | given) for wa, fa, sa, oa in gs[i]):
                    hit = ((), fb, sb)
            if hit:
                fa, fb, sb = hit
                rep.bad('%s|%s' % (fs[i].path, fs[j].path), fs[i].where(), '%s accepts inputs that its variant %s refuses: %s' % (fs[i].path, fs[j].path, describe(fb, sb)))
            else:
                rep.ok('%s accepts nothing that %s refuses' % (fs[i].path, fs[j].path))


def agree(sa, sb):
    db = dict(sb)
    return not any(x in db and db[x] != y for x, y in sa)


def describe(facts, sel):
    out = ['%s >= 0' % re.sub(r':\w+', '', arith.show(f)) for f in sorted(facts) if arith.syms(f)]
    out += ['%s = %s' % x for x in sorted(sel)]
    return ', '.join(out)[:300] or 'always'


def check():
    rep = Report('P20', RULE)
    seen = set()
    for variant in (None, 'mumps', 'cudss'):
        prog = mir.Program(variant)
        for kind, k, fs in families(prog):
            if (kind, k) in seen:
                continue
            seen.add((kind, k))
            gs = []
            try:
                for f, n in zip(fs, names(fs)):
                    g, fl = guards(prog, f, n)
                    rep.count('guard paths', len(g))
                    rep.count('states', fl.states)
                    gs.append(g)
            except flow.Limit as e:
                rep.error(str(e))
                continue
            rep.count('families')
            rep.count('variants', len(fs))
            compare(rep, kind, k, fs, gs)
    rep.floor('families', 40)
    rep.floor('intersections', 200)
    return rep

"""P01: native failure codes never become success."""
import re
from .. import clower, errflow, flow, mir
from ..report import Report
from . import p07

RULE = ('for every native call that reports a status (returned code, info argument, library status field, null handle), the dataflow of the status '
        'is followed along every control-flow path of the enclosing operation, through helpers and across the C shims; on every path that ends '
        'in success the comparisons passed must exclude every failing value (negative and positive codes); every error of an operation built on '
        'such calls is handed on by its callers')

SIGNS = frozenset('-0+')
NEGS = {'Lt': 'Ge', 'Ge': 'Lt', 'Gt': 'Le', 'Le': 'Gt', 'Eq': 'Ne', 'Ne': 'Eq'}


def sign_refine(signs, op, c, truth):
    """signs still possible after learning that (value op c) is truth"""
    if not isinstance(c, int):
        return signs
    if not truth:
        op = NEGS[op]
    out = set()
    for s in signs:
        lo, hi = {'-': (None, -1), '0': (0, 0), '+': (1, None)}[s]
        if op == 'Eq':
            ok = (lo is None or lo <= c) and (hi is None or c <= hi)
        elif op == 'Ne':
            ok = not (lo == hi == c)
        elif op == 'Lt':
            ok = lo is None or lo < c
        elif op == 'Le':
            ok = lo is None or lo <= c
        elif op == 'Gt':
            ok = hi is None or hi > c
        else:
            ok = hi is None or hi >= c
        if ok:
            out.add(s)
    return frozenset(out)


class Status(flow.Client):
    """follows the status produced at one call site; state: None before the call, else the set of possible signs"""

    def __init__(self, site, source, success, bad):
        self.site, self.source, self.success, self.bad = site, source, success, bad
        self.armed = 0

    def start(self, f):
        return 'none'

    def refine(self, f, st, sym, op, c, truth):
        if st == 'none' or sym != 's':
            return st
        r = sign_refine(st, op, c, truth)
        return r if r else None

    def call(self, f, st, env, b, t):
        if b == self.site:
            r = self.source(f, env, t)
            if r is None:
                return None
            kind, good, where = r
            if st != 'none' and not st <= self.good:
                self.bad('is discarded when the call is repeated', t[5])
                return []
            self.armed += 1
            self.good = good
            f.havoc_args(env, t)
            f.store(env, t[3], None)
            if where == 'ret':
                f.store(env, t[3], ('sym', 's'))
            elif where == 'lost':
                self.bad('is written to a place the caller cannot examine', t[5])
                return []
            else:
                f.kill(env, where)
                env[where] = ('sym', 's')
            return [(SIGNS if kind == 'code' else frozenset('0+'), env)]
        nm = mir.callee_name(t[1])
        if nm.endswith('::is_null') and t[2]:
            v = f.val(env, t[2][0])
            if v and v[0] == 'sym':
                f.store(env, t[3], ('cmp', v[1], 'Eq', 0))
                return [(st, env)]
        return None

    def value(self, f, st, env, rv):
        # an error code offset by a status that cannot be negative is an error code
        if rv[0] == 'bin' and rv[1].startswith('Add') and st != 'none' and '-' not in st:
            a, b = f.val(env, rv[2]), f.val(env, rv[3])
            for x, y in ((a, b), (b, a)):
                if x and y and x[0] == 'k' and isinstance(x[1], int) and x[1] > 0 and y == ('sym', 's'):
                    return x
        return None

    def ret(self, f, st, env, b):
        if st == 'none' or st <= self.good:
            return
        r = self.success(f, env, st)
        if r:
            left = st - self.good
            what = {'-': 'a negative code', '+': 'a positive code', '0': 'a null handle'}
            self.bad('%s while the status may still be %s' % (r, ' or '.join(what[x] for x in sorted(left) if not (x == '0' and '0' in self.good))), None)


# -- Rust side ----------------------------------------------------------------------------------------

def rust_status(prog, t):
    """(kind, declaration) when the call is a native call with a status"""
    fo = foreign(prog, t[1])
    if fo is None:
        return None
    if fo['ins'] and fo['anames'] and fo['anames'][-1] == 'info' and fo['ins'][-1] == '*mut i32':
        return 'info', fo
    if fo['out'] == 'i32' and fo['ins'] and re.match(r'\*mut .*Interface', fo['ins'][0]):
        return 'ret', fo
    if re.match(r'\*mut .*Interface', fo['out'] or ''):
        return 'new', fo
    return None


def foreign(prog, c):
    for k in (c.get('res'), c.get('key')):
        if k in prog.foreign:
            return prog.foreign[k]
    return None


def rust_source(prog):
    def source(f, env, t):
        kind, fo = rust_status(prog, t)
        if kind == 'ret':
            return 'code', frozenset('0'), 'ret'
        if kind == 'new':
            return 'ptr', frozenset('+'), 'ret'
        if 'lwork' in fo['anames']:
            a = t[2][fo['anames'].index('lwork')]
            v = f.val(env, a)
            if v and v[0] == 'ref':
                v = env.get(v[1])
            if v == ('k', -1):
                return None          # workspace query: the real call that follows reports the failure
        v = f.val(env, t[2][-1])
        if v and v[0] == 'ref':
            return 'code', frozenset('0'), v[1]
        if t[2][-1][0] in ('c', 'm'):
            p = f.place(env, t[2][-1][1])
            return 'code', frozenset('0'), p + ('*',)
        return 'code', frozenset('0'), 'lost'
    return source


def rust_success(f, env, st):
    v = env.get((0,))
    ty = f.fn.locals[0][0]
    if errflow.is_result(ty):
        if v and v[0] == 'var':
            return 'returns success' if v[1] == 0 else None
        if v and v[0] == 'sym':
            return None
        return 'may return success'
    return 'returns without an error'


def check():
    rep = Report('P01', RULE)
    for variant, crates in ((None, None), ('mumps', 'russell_sparse'), ('cudss', 'russell_sparse')):
        rust_side(rep, mir.Program(variant), crates)
    c_side(rep, clower.programs(mir.facts.extract()))
    rep.floor('native calls with a status (Rust)', 40)
    rep.floor('native library calls with a status (C)', 60)
    rep.floor('calls that hand on a native failure', 40)
    rep.floor('joins of threads', 4)
    return rep


def takes_status(fn):
    return any(re.fullmatch(r'(&(mut )?|\*(mut|const) )?i32', re.sub(r"'\w+ ", '', x)) for x in fn.ins)


def rust_side(rep, prog, only):
    direct = {}
    for fn in prog.fns.values():
        if only and fn.crate != only:
            continue
        for bi in mir.cfg(fn).rpo:
            t = fn.blocks[bi].t
            if t[0] == 'call' and rust_status(prog, t):
                direct.setdefault(fn.key, []).append(bi)
    # functions that do not return a Result hand the status to their callers
    callers = {}
    for fn in prog.fns.values():
        for bi in mir.cfg(fn).rpo:
            t = fn.blocks[bi].t
            if t[0] == 'call':
                cf = prog.callee_fn(t[1])
                if cf is not None:
                    callers.setdefault(cf.key, set()).add(fn.key)
        if fn.kind == 'Closure' and fn.parent:
            callers.setdefault(fn.key, set()).add(fn.parent)
    roots, lifted, work = set(), set(), list(direct)
    while work:
        k = work.pop()
        fn = prog.fns[k]
        if errflow.is_result(fn.out) and fn.kind != 'Closure':
            roots.add(k)
            continue
        if k in lifted:
            continue
        lifted.add(k)
        cs = callers.get(k, ())
        if not cs or fn.reach:
            roots.add(k)
        work.extend(cs)
    seen_sites = set()
    for k in sorted(roots):
        fn = prog.fns[k]
        inl = mir.inline(prog, fn, lambda cf, t, stack: cf.key in lifted or cf.kind == 'Closure' or (takes_status(cf) and len(cf.blocks) < 200), max_depth=5)
        n = 0
        for bi in mir.cfg(inl).rpo:
            t = inl.blocks[bi].t
            if t[0] != 'call':
                continue
            rs = rust_status(prog, t)
            if not rs:
                continue
            seen_sites.add((inl.blocks[bi].fn.key, t[5]))
            if (prog.variant or '') and not relevant(prog.variant, rs[1]):
                continue
            rep.count('native calls with a status (Rust)')
            probs = []
            cl = Status(bi, rust_source(prog), rust_success, lambda m, l: probs.append((m, l)))
            flow.Flow(prog, inl, cl).run()
            if cl.armed == 0:
                rep.count('workspace queries')
            name = rs[1]['name']
            if probs:
                m, l = probs[0]
                rep.bad('%s: status of %s' % (fn.key, name), fn.where(l or t[5]), '%s: the status of %s (called at %s) %s' % (fn.path, name, fn.where(t[5]), m))
            else:
                rep.ok('%s: %s at %s' % (fn.path, name, fn.where(t[5])))
    for k, bs in direct.items():
        for b in bs:
            if (k, prog.fns[k].blocks[b].t[5]) not in seen_sites:
                rep.error('the native call in %s was not reached by the analysis' % k)
    hand_on(rep, prog, direct, only)


def relevant(variant, fo):
    return variant in fo['name']


def hand_on(rep, prog, direct, only):
    """errors of operations built on native calls are handed on"""
    carry = {k for k in direct if errflow.is_result(prog.fns[k].out)}
    traits = set()
    ch = True
    while ch:
        ch = False
        for fn in prog.fns.values():
            if fn.key in carry and fn.impl_trait:
                m = (fn.impl_trait, fn.path.rsplit('::', 1)[-1])
                if m not in traits:
                    traits.add(m)
                    ch = True
            if fn.key in carry:
                continue
            for b in fn.blocks:
                if not b.c and b.t[0] == 'call' and p07.is_carrier_call(prog, fn, b.t, carry, traits):
                    carry.add(fn.key)
                    ch = True
                    break
    rep.counts['functions that hand on a native failure'] = max(rep.counts.get('functions that hand on a native failure', 0), len(carry))

    def returns_err(c):
        return False
    for fn in prog.fns.values():
        if only and fn.crate != only:
            continue
        for bi in mir.cfg(fn).rpo:
            t = fn.blocks[bi].t
            if t[0] != 'call':
                continue
            if not p07.is_carrier_call(prog, fn, t, carry, traits):
                threads(rep, prog, fn, bi, carry)
                continue
            rep.count('calls that hand on a native failure')
            probs = errflow.follow(prog, fn, bi, lambda c: p07.is_carrier_call(prog, fn, ('call', c, (), t[3]), carry, traits) if c is t[1] else False, returns_err)
            what = mir.callee_name(t[1])
            if not probs:
                rep.ok()
            for p in probs:
                if p.kind == 'panic':
                    continue
                rep.bad('%s: failure of %s %s' % (fn.key, what, p.kind), fn.where(p.line), '%s: failure of %s called at %s: %s' % (fn.path, what, fn.where(t[5]), p.detail))


class Outcome(flow.Client):
    """forks at one call into its possible outcomes; a failing outcome must leave the function as an error or a panic"""

    def __init__(self, site, outcomes, bad):
        self.site, self.outcomes, self.bad = site, outcomes, bad

    def start(self, f):
        return 'none'

    def call(self, f, st, env, b, t):
        if b != self.site:
            return None
        if st not in ('none', 'ok'):
            self.bad('is forgotten when the call is repeated')
            return []
        f.havoc_args(env, t)
        out = []
        for name, v in self.outcomes:
            e = dict(env)
            f.store(e, t[3], v)
            out.append((name, e))
        return out

    def ret(self, f, st, env, b):
        if st in ('none', 'ok'):
            return
        v = env.get((0,))
        if errflow.is_result(f.fn.locals[0][0]) and v and v[0] == 'var' and v[1] == 1:
            return
        self.bad('is followed by a return without an error')


def threads(rep, prog, fn, bi, carry):
    """failures inside spawned threads and closures run by library functions"""
    t = fn.blocks[bi].t
    nm = mir.callee_name(t[1])
    dt = fn.locals[t[3][0]][0] if len(t[3]) == 1 else ''
    if nm.endswith('JoinHandle::<\'scope, T>::join') or re.search(r'JoinHandle(::)?<.*>::join$', nm):
        rep.count('joins of threads')
        outs = [('ok', ('var', 0, None)), ('a panic of the thread', ('var', 1, None))]
        if re.match(r'core::result::Result<core::result::Result<', dt) or re.match(r'std::result::Result<std::result::Result<', dt):
            outs = [('ok', ('var', 0, ('var', 0, None))), ('a failure inside the thread', ('var', 0, ('var', 1, None))), outs[1]]
    else:
        cl = None
        for a in t[2]:
            if a[0] in ('c', 'm') and len(a[1]) == 1:
                m = re.search(r'\{closure@[^}]*\}', fn.locals[a[1][0]][0])
                c2 = prog.closure_by_ty.get(m.group(0)) if m else None
                if c2 is not None and c2.key in carry:
                    cl = c2
        if cl is None or prog.callee_fn(t[1]) is not None or re.search(r'(Arc|Rc|Box)::<.*>::(new|from)$', nm):
            return
        rep.count('closures given to library functions')
        if 'JoinHandle' in dt or '{closure@' in dt:
            rep.ok()
            return
        if not errflow.is_result(dt):
            rep.bad('%s: closure given to %s' % (fn.key, nm), fn.where(t[5]), 'the failure of a native operation in a closure given to %s is lost' % nm)
            return
        outs = [('ok', ('var', 0, None)), ('a failure', ('var', 1, None))]
    probs = []
    flow.Flow(prog, fn, Outcome(bi, outs, probs.append)).run()
    if probs:
        rep.bad('%s: outcome of %s' % (fn.key, nm), fn.where(t[5]), '%s: a failure reported by %s %s' % (fn.path, nm, probs[0]))
    else:
        rep.ok()


# -- C side -------------------------------------------------------------------------------------------

CLEANUP = re.compile(r'(Destroy|Free|_free_\w+|^free|_report_\w+|_defaults|printf|^str\w+|^mem\w+|^abs|^fabs)$|^cudaFree')


def c_source(cf):
    def kind(t):
        nm = t[1]['path']
        if CLEANUP.search(nm):
            return None
        if re.fullmatch(r'[dzsc]mumps_c', nm):
            return 'mumps'
        if nm in ('malloc', 'calloc', 'realloc'):
            return 'alloc'
        if re.match(r'(umfpack_|cuda|cudss)', nm):
            proto = cf.protos.get(nm, '')
            if re.match(r'(int|cudaError_t|cudssStatus_t|cudaError|enum)\b', proto):
                return 'code'
        if re.search(r'Lapack|LAPACK', nm) or re.fullmatch(r'[dz](gesv|potrf|syev|heev|geev|ggev|gesvd|getrf|getri)_?', nm):
            return 'info'
        return None

    def source(f, env, t):
        kd = kind(t)
        if kd == 'code':
            return ('code' if t[1]['path'].startswith('umfpack') else 'enum'), frozenset('0'), 'ret'
        if kd == 'alloc':
            return 'ptr', frozenset('+'), 'ret'
        if kd == 'info':
            protos = cf.protos.get(t[1]['path'], '')
            a = None
            for x in reversed(t[2]):
                if x[0] in ('c', 'm') and f.fn.locals[x[1][0]][1] == 'info' or (x[0] in ('c', 'm')):
                    a = x
                    break
            v = f.val(env, a)
            return 'code', frozenset('0'), v[1] if v and v[0] == 'ref' else f.place(env, a[1]) + ('*',)
        v = f.val(env, t[2][0])
        base = v[1] if v and v[0] == 'ref' else f.place(env, t[2][0][1]) + ('*',)
        # a termination job cannot fail in a way the interface could report
        if env.get(base + (('f', 'job'),)) == ('k', -2):
            return None
        return 'code', frozenset('0'), base + (('f', 'infog'), ('ci', 0))
    return kind, source


def c_success(pname):
    def success(f, env, st):
        out = f.fn.out
        v = env.get((0,))
        if out == 'void':
            if pname:
                # info is an output argument
                w = env.get((f.fn.argc, '*'))
                return None if w == ('sym', 's') else 'leaves another value in its info argument'
            return 'returns nothing'
        if '*' in out:
            return None if v == ('k', 0) else 'returns a handle'
        if v and v[0] == 'k':
            return 'returns the success code' if v[1] == 0 else None
        if v == ('sym', 's'):
            return None
        return 'may return the success code'
    return success


def c_side(rep, progs):
    for prog in progs:
        cf = prog.cf
        kind, source = c_source(cf)
        for nm, fn in prog.fns.items():
            if not fn.pub:
                continue
            inl = mir.inline(prog, fn, lambda c, t, s: True)
            for bi in mir.cfg(inl).rpo:
                t = inl.blocks[bi].t
                if t[0] != 'call' or not kind(t):
                    continue
                if nm.endswith('_drop'):
                    rep.count('cleanup calls (C)')
                    continue
                kd = kind(t)
                rep.count('native library calls with a status (C)')
                probs = []
                cl = Status(bi, source, c_success(kd == 'info'), lambda m, l: probs.append((m, l)))
                flow.Flow(prog, inl, cl).run()
                if probs:
                    m, l = probs[0]
                    rep.bad('%s: %s: status of %s' % (cf.rel, nm, t[1]['path']), fn.where(l or t[5]), '%s: the status of %s %s' % (nm, t[1]['path'], m))
                else:
                    rep.ok()
                # codes a query leaves in an output argument
                if t[1]['path'] == 'cudssDataGet' and any(a[0] == 'k' and a[1].get('named') == 'CUDSS_DATA_INFO' for a in t[2]):
                    rep.count('device status queries (C)')

                    def dsource(f, env, tt):
                        v = f.val(env, tt[2][3])
                        return 'code', frozenset('0'), v[1] if v and v[0] == 'ref' else f.place(env, tt[2][3][1]) + ('*',)
                    probs = []
                    cl = Status(bi, dsource, c_success(False), lambda m, l: probs.append((m, l)))
                    flow.Flow(prog, inl, cl).run()
                    if probs:
                        rep.bad('%s: %s: device status' % (cf.rel, nm), fn.where(t[5]), '%s: the device status %s' % (nm, probs[0][0]))
                    else:
                        rep.ok()

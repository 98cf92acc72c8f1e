"""P09: success is reported only after a convergence test that a NaN fails."""
import re
from .. import effects, flow, mir, nan
from ..report import Report
from .p10 import natural_loops

RULE = ('every iterative operation is followed under the assumption that, from some evaluation of a user-supplied function on, the values it delivers are not numbers: '
        'no path may then lead to a successful return, to a success status, or to the acceptance of an error-controlled step, and an error measure handed on must not have lost the NaN; an operation whose bounded iteration can end by a decision succeeds on no path on which the budget ran out')

FCMP = ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne')


def leaf(cf):
    return cf.path.rsplit('::', 1)[-1]


class Scene(flow.Client):
    """state: 'ok' until the evaluation from which on values are NaN, then the block of that evaluation"""

    def __init__(self, inl, src, begin, controlled, measures, flags, strict):
        self.inl, self.src, self.begin, self.controlled = inl, src, begin, controlled
        self.measures, self.flags, self.strict = measures, flags, strict
        self.bad = {}
        self.started, self.failed = set(), set()

    def start(self, f):
        return ('ok', None)

    # blocks of the loop over controlled steps that run before the next step: a decision taken there on ordinary numbers
    # concerns the steps accepted earlier
    before = frozenset()

    def stmt(self, f, st, env, b, s):
        if st[0] == 'nan' and b in self.before and s[2][0] == 'bin' and s[2][1] in FCMP and float_compare(self.inl, b):
            if not any(v in (nan.NAN, nan.LOST) for v in (f.val(env, s[2][2]), f.val(env, s[2][3]))):
                return ('excused', st[1])
        return st

    def call(self, f, st, env, b, t):
        kind = self.src.get(b)
        if kind is None:
            return None
        if kind == 'accept':
            if st[0] != 'ok' and b in self.controlled:
                self.found('accept', b, st[1])
            return None
        out = []
        dty = f.ty(t[3]) or ''
        if st[0] == 'ok':
            # this evaluation is still fine
            e = dict(env)
            for _, e2, s2 in f.default_call(b, e, st, t):
                out.append((s2, e2))
        if st[0] == 'ok' and b not in self.begin:
            return out
        st2 = ('nan', b if st[0] == 'ok' else st[1])
        self.started.add(st2[1])
        e = dict(env)
        tuples = []
        for a in t[2]:
            v = f.val(e, a)
            ty = (f.ty(a[1]) if a[0] in ('c', 'm') else '') or ''
            if v and v[0] == 'ref' and ty.startswith('&mut'):
                self.taint(f, e, v[1], ty)
            elif a[0] in ('c', 'm') and ty.startswith('('):
                base = f.place(e, a[1])
                parts = split_tuple(ty)
                for q, w in [(q, w) for q, w in e.items() if q[:len(base)] == base and len(q) == len(base) + 1 and w[0] == 'ref']:
                    i = q[-1][1]
                    if i < len(parts) and parts[i].startswith('&mut'):
                        self.taint(f, e, w[1], parts[i])
        f.store(e, t[3], None)
        d = f.place(e, t[3])
        m = re.match(r'core::result::Result<(.*), [^,]*>$', dty)
        if m:
            pay = m.group(1)
            if nan.PLAIN.match(pay):
                e[d] = ('var', 0, nan.NAN)
            elif pay in f.prog.adts and f.prog.adts[pay]['kind'] == 'Enum':
                for i, v in enumerate(f.prog.adts[pay]['variants']):
                    if i not in success(f.prog, pay):
                        e2 = dict(e)
                        e2[d] = ('var', 0, ('var', i, None))
                        out.append((st2, e2))
                return out
            else:
                e[d] = ('var', 0, None)
        elif nan.FLOATY.search(dty):
            e[d] = nan.NAN
        out.append((st2, e))
        return out

    def taint(self, f, e, q, ty):
        q = q
        f.mark(e, q)

    def ret(self, f, st, env, b):
        if st[0] != 'nan':
            return
        v = env.get((0,))
        out = self.inl.out
        if v and v[0] == 'var' and out.startswith('core::result::Result'):
            if v[1] == 1:
                self.failed.add(st[1])
                return
            m = re.match(r'core::result::Result<(.*), [^,]*>$', out)
            pay = m.group(1) if m else ''
            if pay in f.prog.adts and f.prog.adts[pay]['kind'] == 'Enum':
                p = v[2] or env.get((0, ('d', 0), ('f', 0)))
                if p and p[0] == 'var':
                    if p[1] in success(f.prog, pay):
                        self.found('success', b, st[1])
                    else:
                        self.failed.add(st[1])
                return
            if any(env.get(q) == ('k', True) for q in self.flags):
                self.failed.add(st[1])
                return
            tags = [f.tag(env, q) for q in self.measures]
            if nan.LOST in tags:
                self.found('measure', b, st[1])
            if nan.NAN in tags:
                self.failed.add(st[1])
                return
            if self.strict:
                self.found('return', b, st[1])

    def found(self, kind, b, st):
        self.bad.setdefault((kind, b, st), None)
        raise Found()


class Budget(flow.Client):
    """how a bounded iteration was last left when the operation succeeds: 'inside' (by a decision) or 'spent'"""

    def __init__(self, inl, head, flags):
        self.inl, self.head, self.flags = inl, head, flags
        self.ways = set()

    def start(self, f):
        return 'before'

    def call(self, f, st, env, b, t):
        if b != self.head:
            return None
        return [('spent' if e.get(f.place(e, t[3])) == ('var', 0, None) else 'inside', e) for _, e, s2 in f.default_call(b, env, st, t)]

    def ret(self, f, st, env, b):
        v = env.get((0,))
        if v and v[0] == 'var' and v[1] == 0 and not any(env.get(q) == ('k', True) for q in self.flags):
            m = re.match(r'core::result::Result<(.*), [^,]*>$', self.inl.out)
            pay = m.group(1) if m else ''
            if pay in f.prog.adts and f.prog.adts[pay]['kind'] == 'Enum':
                p = v[2] or env.get((0, ('d', 0), ('f', 0)))
                if not p or p[0] != 'var' or p[1] not in success(f.prog, pay):
                    return
            self.ways.add(st)


def budgets(prog, fn, inl, loops, flags, rep):
    g = mir.cfg(inl)
    decisive = []
    for h, body in sorted(loops, key=lambda x: -len(x[1])):
        if any(body < o for o in decisive):
            # part of an iteration that cannot succeed by exhaustion
            continue
        heads = [b for b in body if inl.blocks[b].t[0] == 'call' and mir.callee_name(inl.blocks[b].t[1]).endswith('::next') and all(g.dominates(b, p) for p in g.pred[h] if p in body)]
        for b in heads[:1]:
            cl = Budget(inl, b, flags)
            f = nan.Nan(prog, inl, cl, limit=900000)
            f.keep = keeper(inl)
            f.run({(i,): ('ref', (i, '*')) for i, ty in enumerate(inl.ins or [], 1) if ty.startswith('&')})
            where = inl.blocks[b].fn.where(inl.blocks[b].t[5])
            rep.count('bounded iterations followed')
            rep.count('states explored', f.states)
            if 'spent' not in cl.ways:
                decisive.append(body)
                rep.ok('%s: budget of the iteration at %s' % (fn.path, where))
            elif 'inside' in cl.ways:
                rep.bad('%s: succeeds when the iterations run out' % fn.path, where, '%s succeeds also on a path on which the iteration at %s ran out of its budget without a convergence decision' % (fn.path, where))
            else:
                rep.ok('%s: loop at %s is an enumeration' % (fn.path, where))


def keeper(inl):
    return lambda p, v: p[0] > inl.argc or p[0] == 0 or v[0] not in ('var', 'discr', 'isvar') and not (v[0] == 'k' and not isinstance(v[1], bool) and p[-1] != 'seen')


def split_tuple(ty):
    out, depth, cur = [], 0, ''
    for ch in ty[1:-1]:
        if ch in '<([':
            depth += 1
        elif ch in '>)]':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def success(prog, adt):
    """variants of a status that mean success: those for which the failure query of the type answers no"""
    for fn in prog.fns.values():
        if (fn.impl_self or '') == adt and re.search(r'::(failure|is_failure|failed)$', fn.path):
            out = set()
            for i in range(len(prog.adts[adt]['variants'])):
                cl = Answer()
                fl = nan.Nan(prog, mir.inline(prog, fn, lambda cf, t, s: True, 3), cl, 20000)
                fl.run({(1,): ('ref', (1, '*')), (1, '*'): ('var', i, None)} if fn.ins[0].startswith('&') else {(1,): ('var', i, None)})
                if False in cl.out or None in cl.out:
                    out.add(i)
            return out
    return {0}


class Answer(flow.Client):
    def __init__(self):
        self.out = set()

    def ret(self, f, st, env, b):
        v = env.get((0,))
        self.out.add(v[1] if v and v[0] == 'k' else None)


def float_compare(fn, b):
    for s in fn.blocks[b].s:
        if s[0] == '=' and s[2][0] == 'bin' and s[2][1] in FCMP:
            for o in (s[2][2], s[2][3]):
                ty = o[1].get('ty') if o[0] == 'k' else fn.locals[o[1][0]][0] if len(o[1]) == 1 else None
                if ty in ('f64', 'f32'):
                    return True
    return False


def reach_from(fn, b):
    g = mir.cfg(fn)
    seen, w = set(), list(g.succ[b])
    while w:
        x = w.pop()
        if x not in seen:
            seen.add(x)
            w.extend(g.succ[x])
    return seen


def evaluates(eff, prog):
    """functions that may call a user-supplied function"""
    out = set()
    for fn in prog.fns.values():
        if any(fn.blocks[b].t[0] == 'call' and mir.is_user_callback(fn.blocks[b].t[1]) for b in mir.cfg(fn).rpo):
            out.add(fn.key)
    callers = {}
    for fn in prog.fns.values():
        for b in mir.cfg(fn).rpo:
            t = fn.blocks[b].t
            if t[0] == 'call':
                cf = prog.callee_fn(t[1])
                for c in ([cf] if cf is not None else prog.implementations(t[1]) if t[1].get('trait') else []):
                    callers.setdefault(c.key, set()).add(fn.key)
        if fn.kind == 'Closure' and fn.parent:
            callers.setdefault(fn.key, set()).add(fn.parent)
    work = list(out)
    while work:
        for c in callers.get(work.pop(), ()):
            if c not in out:
                out.add(c)
                work.append(c)
    return out


CRATES = ('russell_lab', 'russell_nonlin', 'russell_ode')
OPAQUE = re.compile(r'(Matrix|Vector)\w*(::<.*>)?::reset$|::(index|index_mut|get|set|add|as_data|as_mut_data|dim|dims|nrow|ncol|len|fmt|clone|drop|fill)$|[Ss]tat(s|istics)?::|::logger::|Stopwatch|::format|numerical_jacobian|::to_i32$')


def wanted(prog):
    cache = {}

    def native(cf):
        if cf.key not in cache:
            cache[cf.key] = any(cf.blocks[b].t[0] == 'call' and (cf.blocks[b].t[1].get('foreign') or cf.blocks[b].t[1].get('path', '') in prog.foreign) for b in mir.cfg(cf).rpo)
        return cache[cf.key]

    def inert(cf):
        """neither compares nor evaluates: a NaN in any input is in the output"""
        if ('i', cf.key) not in cache:
            cache['i', cf.key] = True
            bad = False
            for b in mir.cfg(cf).rpo:
                t = cf.blocks[b].t
                if float_compare(cf, b):
                    bad = True
                elif t[0] == 'call':
                    nm = mir.callee_name(t[1])
                    c2 = prog.callee_fn(t[1])
                    if mir.is_user_callback(t[1]) or re.search(r'::(max|min|clamp|is_nan|is_finite|is_infinite|is_normal|partial_cmp|total_cmp)$', nm):
                        bad = True
                    elif c2 is not None and c2.crate in CRATES and not inert(c2):
                        bad = True
            cache['i', cf.key] = not bad
        return cache['i', cf.key]

    def want(cf, t, s):
        if t[1].get('rk') == 'virtual' or 'dyn ' in (t[1].get('self') or ''):
            return False
        if cf.kind == 'Closure':
            return True
        if cf.crate not in CRATES or OPAQUE.search(cf.path) or len(cf.blocks) > 400:
            return False
        if cf.crate == 'russell_lab' and inert(cf):
            return False
        if native(cf) and any(x.startswith('&mut') for x in cf.ins):
            return False
        return True
    return want


def sources(prog, inl, ev):
    """block -> kind of the evaluations and acceptances"""
    out = {}
    for b in mir.cfg(inl).rpo:
        t = inl.blocks[b].t
        if t[0] != 'call':
            continue
        if mir.is_user_callback(t[1]):
            ty = inl.locals[t[3][0]][0]
            if any(nan.FLOATY.search(x) or 'Vector' in x or 'Matrix' in x for x in signature(inl, t)):
                out[b] = 'eval'
        elif t[1].get('trait') and (t[1].get('rk') == 'virtual' or 'dyn ' in (t[1].get('self') or '')) and t[1].get('path', '').endswith('::step') and any(c.key in ev for c in prog.implementations(t[1])):
            out[b] = 'step'
        elif t[1].get('path', '').endswith('::accept') and t[1].get('trait'):
            out[b] = 'accept'
    return out


def signature(inl, t):
    """types of what a user function delivers"""
    out = [inl.locals[t[3][0]][0]] if len(t[3]) == 1 else []
    for a in t[2]:
        ty = inl.locals[a[1][0]][0] if a[0] in ('c', 'm') and len(a[1]) == 1 else ''
        for x in (split_tuple(ty) if ty.startswith('(') else [ty]):
            if x.startswith('&mut'):
                out.append(x)
    return out


# the minimiser keeps the best point seen: later values that are not numbers are worse by definition
FIRST_ONLY = re.compile(r'MinSolver')


def decided(inl, body):
    """a loop that is left by a decision of its own (not only by exhaustion or by an error passed on)"""
    for b in body:
        t = inl.blocks[b].t
        if t[0] != 'switch' or all(x in body for x in mir.isuccs(t)):
            continue
        if t[2] == 'bool':
            return True
        if t[1][0] in ('c', 'm'):
            for s in inl.blocks[b].s:
                if s[0] == '=' and s[1] == t[1][1] and s[2][0] == 'discr' and not re.match(r'core::(option::Option|ops::control_flow::ControlFlow|result::Result)', s[2][2] or ''):
                    return True
    return False


def fields_of(prog, ty):
    a = prog.adts.get(re.sub(r"^(&('\w+ )?(mut )?)+", '', ty or '').split('<')[0])
    return a['variants'][0]['fields'] if a and a['kind'] == 'Struct' else []


def shared_field(prog, inl, p):
    """(type, field index) of a place that is a field of a struct, given through parameters or locals"""
    ty = inl.locals[p[0]][0]
    base = None
    for e in p[1:]:
        if e == '*':
            ty = re.sub(r"^&('\w+ )?(mut )?", '', ty or '')
        elif isinstance(e, tuple) and e[0] == 'f':
            fs = fields_of(prog, ty)
            if e[1] >= len(fs):
                return None
            base = (re.sub(r"^(&('\w+ )?(mut )?)+", '', ty).split('<')[0], e[1])
            ty = fs[e[1]][1]
        else:
            base, ty = None, ''
    return base


def driver_protocol(prog, inl, src, controlled, f):
    """what the driver of error-controlled steps looks at between a step and its acceptance: measures and flags"""
    g = mir.cfg(inl)
    measures, flags = set(), set()
    defs = {}
    for b in g.rpo:
        for s in inl.blocks[b].s:
            if s[0] == '=' and len(s[1]) == 1 and s[2][0] == 'use' and s[2][1][0] in ('c', 'm') and len(s[2][1][1]) > 1:
                defs.setdefault(s[1][0], []).append((b, s[2][1][1]))
    for acc in controlled:
        for st in [b for b, k in src.items() if k == 'step' and g.dominates(b, acc)]:
            for b in g.rpo:
                if not (g.dominates(st, b) and g.dominates(b, acc)) or b == st:
                    continue
                t = inl.blocks[b].t
                if t[0] != 'switch' or t[2] != 'bool' or t[1][0] not in ('c', 'm'):
                    continue
                x = t[1][1]
                if len(x) > 1:
                    fl = shared_field(prog, inl, x)
                    if fl:
                        flags.add(fl)
                else:
                    for db, q in defs.get(x[0], []):
                        fl = shared_field(prog, inl, q)
                        if fl:
                            flags.add(fl)
                    for s in inl.blocks[b].s:
                        if s[0] == '=' and s[1] == x and s[2][0] == 'bin':
                            for o in (s[2][2], s[2][3]):
                                if o[0] in ('c', 'm'):
                                    for db, q in defs.get(o[1][0], []) if len(o[1]) == 1 else [(b, o[1])]:
                                        fl = shared_field(prog, inl, q)
                                        if fl:
                                            measures.add(fl)
    return measures, flags


class Found(Exception):
    pass


def check():
    rep = Report('P09', RULE)
    prog = mir.Program()
    eff = effects.Effects(prog)
    ev = evaluates(eff, prog)
    want = wanted(prog)
    measures, flags = set(), set()
    pending = []
    roots = [fn for k in sorted(ev) for fn in [prog.fns.get(k)] if fn is not None and fn.crate in CRATES and fn.kind != 'Closure' and fn.out.startswith('core::result::Result') and (fn.reach or fn.impl_trait)]
    for fn in roots:
        inl = mir.inline(prog, fn, want, max_depth=6, max_blocks=8000)
        src = sources(prog, inl, ev)
        evals = {b for b, k in src.items() if k != 'accept'}
        if 'step' in src.values():
            # observers called by a driver measure nothing
            evals = {b for b in evals if src[b] == 'step'}
            src = {b: k for b, k in src.items() if k != 'eval'}
        if not evals:
            continue
        cmps = {b for b in mir.cfg(inl).rpo if float_compare(inl, b) or inl.blocks[b].t[0] == 'call' and re.search(r'::is_(nan|finite)$', mir.callee_name(inl.blocks[b].t[1]))}
        loops = natural_loops(inl)
        iterating = [body for h, body in loops if body & evals and body & cmps and decided(inl, body)]
        stepper = bool(fn.impl_trait) and fn.path.endswith('::step')
        if not iterating and not stepper:
            continue
        controlled = set()
        for b, k in src.items():
            if k == 'accept':
                body = next((body for h, body in loops if b in body and body & evals), set())
                if any(inl.blocks[x].t[0] == 'call' and inl.blocks[x].t[1].get('path', '').endswith('::reject') for x in body):
                    controlled.add(b)
        # evaluations after the last iteration cannot change what was decided
        looping = set().union(*iterating) if iterating else None
        begin = {b for b in evals for r in [reach_from(inl, b)] if r & cmps and (looping is None or (r | {b}) & looping)}
        if FIRST_ONLY.search(fn.path):
            begin = {b for b in begin if not any(reach_from(inl, c) & {b} for c in evals)}
        if stepper:
            pending.append((fn, inl, src, begin, [(h, body) for h, body in loops if body in iterating]))
            continue
        rep.count('iterative operations followed')
        if controlled:
            m, g = driver_protocol(prog, inl, src, controlled, None)
            measures |= m
            flags |= g
        rep.count('acceptances of controlled steps', len(controlled))
        cl = Scene(inl, src, begin, controlled, set(), set(), True)
        g = mir.cfg(inl)
        cl.before = {x for h, body in loops if body & controlled for x in body if not any(g.dominates(e, x) for e in evals & body)}
        run(prog, fn, inl, cl, rep)
        budgets(prog, fn, inl, [(h, body) for h, body in loops if body in iterating and (body & controlled or 'step' not in src.values())], set(), rep)
    rep.count('error measures of controlled steps', len(measures))
    for fn, inl, src, begin, it in pending:
        rep.count('iterative operations followed' if it else 'error-measuring steps followed')
        work = [(i, re.sub(r"^&('\w+ )?(mut )?", '', ty).split('<')[0]) for i, ty in enumerate(inl.ins, 1)]
        ms = {(i, '*', ('f', j)) for i, ty in work for a, j in measures if a == ty}
        fs = {(i, '*', ('f', j)) for i, ty in work for a, j in flags if a == ty}
        cl = Scene(inl, src, begin, set(), ms, fs, bool(it))
        run(prog, fn, inl, cl, rep)
        budgets(prog, fn, inl, it, fs, rep)
    rep.floor('iterative operations followed', 12)
    rep.floor('error-measuring steps followed', 1)
    rep.floor('bounded iterations followed', 10)
    rep.floor('acceptances of controlled steps', 2)
    rep.floor('error measures of controlled steps', 1)
    rep.floor('evaluations assumed to fail', 40)
    return rep


def run(prog, fn, inl, cl, rep):
    f = nan.Nan(prog, inl, cl, limit=900000)
    f.keep = keeper(inl)
    try:
        f.run({(i,): ('ref', (i, '*')) for i, ty in enumerate(inl.ins or [], 1) if ty.startswith('&')})
    except Found:
        pass
    rep.count('states explored', f.states)
    rep.count('evaluations assumed to fail', len(cl.started))
    for (kind, b, st), t in cl.bad.items():
        blk = inl.blocks[st]
        at = blk.fn.where(blk.t[5])
        end = inl.blocks[b]
        what = {'accept': 'accepts an error-controlled step', 'success': 'reports success', 'return': 'returns successfully',
                'measure': 'hands on an error measure that lost the NaN'}[kind]
        rep.bad('%s: %s' % (fn.path, what), at, '%s %s although every value delivered from the evaluation at %s on is NaN' % (fn.path, what, at))
    if not cl.bad:
        for b in sorted(cl.started):
            rep.ok('%s: evaluation at %s' % (fn.path, inl.blocks[b].fn.where(inl.blocks[b].t[5])))

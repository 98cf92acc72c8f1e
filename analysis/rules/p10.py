"""P10: work statistics equal the work performed."""
import re
from .. import flow, mir
from ..report import Report

RULE = ('along every control-flow path of every function that owns work counters (private helpers and closures expanded in place), the amount '
        'added to each counter equals the number of invocations of the operation it counts; loops are either neutral or have a constant '
        'difference per pass multiplied by their number of passes')

CAP = 40
STEPPERS = {'n_steps': 'step', 'n_accepted': 'accept'}
EXTERNAL = 'given to a library function'


def lin_add(a, b, k=1):
    d = dict(a)
    for t, c in b:
        d[t] = d.get(t, 0) + k * c
        if d[t] == 0:
            del d[t]
    return tuple(sorted(d.items(), key=repr))


def lin(e):
    """linear form of an expression tree: tuple of (term, coefficient); the constant term is ''"""
    if e[0] == 'const' and isinstance(e[1], int) and not isinstance(e[1], bool):
        return (('', e[1]),) if e[1] else ()
    if e[0] == 'bin' and e[1] in ('Add', 'Sub'):
        return lin_add(lin(e[2]), lin(e[3]), 1 if e[1] == 'Add' else -1)
    if e[0] == 'bin' and e[1] == 'Mul':
        for x, y in ((e[2], e[3]), (e[3], e[2])):
            if x[0] == 'const' and isinstance(x[1], int):
                return tuple((t, c * x[1]) for t, c in lin(y)) if x[1] else ()
    if e[0] == 'cast' and e[3][0] in ('load', 'arg', 'const', 'loc'):
        return lin(e[3])
    return ((e, 1),)


class Counter:
    """a counter field of a statistics structure and the operation it counts"""

    def __init__(self, stats, field):
        self.stats, self.field = stats, field
        self.crate = stats.split('::')[0]

    def __str__(self):
        return '%s.%s' % (self.stats, self.field)


def fn_args(c):
    """argument types of a call through a function value"""
    a = c.get('args') or []
    if len(a) < 2:
        return []
    return split_args(a[1].strip()[1:-1])


def split_args(s):
    out, cur, depth = [], '', 0
    for ch in s:
        if ch in '(<[':
            depth += 1
        elif ch in ')>]':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def operation(c):
    """which counted operation a call performs: None or (counter field, unit)"""
    if mir.is_user_callback(c):
        a = fn_args(c)
        if not a:
            return None
        if re.search(r'&mut .*Matrix<', a[0]):
            return ('n_jacobian', 'call')
        if re.search(r'&mut .*NumVector<f64>$', a[0]) and any(re.search(r'^&(?!mut).*NumVector<f64>$', x) for x in a[1:]):
            return ('n_function', 'call')
        if a[0] == 'f64' and len(a) == 2 and a[1].startswith('&mut '):
            return ('n_function', 'call')
        return None
    p = c.get('path', '')
    if p.endswith('::LinSolTrait::factorize'):
        return ('n_factor', 'real')
    if p.endswith('::ComplexLinSolTrait::factorize'):
        return ('n_factor', 'complex')
    if p.endswith('::LinSolTrait::solve'):
        return ('n_lin_sol', 'real')
    if p.endswith('::ComplexLinSolTrait::solve'):
        return ('n_lin_sol', 'complex')
    if c.get('rk') == 'virtual' or 'dyn ' in c.get('self', ''):
        if re.search(r'::(OdeSolverTrait|SolverTrait)(<.*>)?::step$', p):
            return ('n_steps', 'call')
        if re.search(r'::(OdeSolverTrait|SolverTrait)(<.*>)?::accept$', p):
            return ('n_accepted', 'call')
    return None


def is_num_jac(c):
    return bool(re.search(r'(^|::)(numerical_jacobian|num_jacobian)$', c.get('path', '')))


def is_result(ty):
    return ty.startswith('core::result::Result<')


class Model:
    """the counters, the functions that can touch them and the calls to expand"""

    def __init__(self, prog):
        self.prog = prog
        self.counters = {}
        for path, a in prog.adts.items():
            if path.rsplit('::', 1)[-1] == 'Stats' and a['kind'] == 'Struct':
                for f in a['variants'][0]['fields']:
                    if f[1] == 'usize' and re.match(r'n_', f[0]):
                        self.counters.setdefault(path, []).append(f[0])
        self.owner = {s: self.holders(s) for s in self.counters}
        self._touch = {}

    def touches(self, field):
        """functions that update or perform work for a counter, themselves or through what they call"""
        if field in self._touch:
            return self._touch[field]
        prog = self.prog
        out = set()
        for fn in prog.fns.values():
            for b in fn.blocks:
                if b.c:
                    continue
                if b.t[0] == 'call':
                    o = operation(b.t[1])
                    if o and o[0] == field or field == 'n_jacobian' and is_num_jac(b.t[1]) or any(m[1] == field for m in self.stats_method(b.t[1]) or ()):
                        out.add(fn.key)
                if any(s[0] == '=' and self.counter_place(s[1]) == field for s in b.s):
                    out.add(fn.key)
        ch = True
        while ch:
            ch = False
            for fn in prog.fns.values():
                if fn.key in out or self.is_stats_fn(fn):
                    continue
                for b in fn.blocks:
                    if b.c or b.t[0] != 'call':
                        continue
                    cf = prog.callee_fn(b.t[1])
                    if cf is not None and cf.key in out and not self.is_stats_fn(cf) or self.closure_args(fn, b.t) & out:
                        out.add(fn.key)
                        ch = True
                        break
        self._touch[field] = out
        return out

    def holders(self, stats):
        """structures that contain the statistics"""
        h = {stats}
        ch = True
        while ch:
            ch = False
            for path, a in self.prog.adts.items():
                if path in h:
                    continue
                for v in a['variants']:
                    for f in v['fields']:
                        if any(re.search(r'(^|[^\w:])%s($|[^\w:])' % re.escape(x), f[1]) for x in h):
                            h.add(path)
                            ch = True
        return h

    def closure_args(self, fn, t):
        r = set()
        if self.prog.callee_fn(t[1]) is None:
            for a in t[2]:
                ty = fn.locals[a[1][0]][0] if a[0] in ('c', 'm') and len(a[1]) == 1 else ''
                m = re.match(r'\{closure@[^}]*\}', ty)
                if m and m.group(0) in self.prog.closure_by_ty:
                    r.add(self.prog.closure_by_ty[m.group(0)].key)
        return r

    def is_stats_fn(self, fn):
        return (fn.impl_self or '').split('<')[0] in self.counters

    def counter_place(self, p):
        if len(p) >= 2 and isinstance(p[-1], tuple) and p[-1][0] == 'f' and isinstance(p[-1][2], str):
            for s, fs in self.counters.items():
                if p[-1][2] in fs:
                    return p[-1][2]
        return None

    def stats_method(self, c):
        """('inc', field, argument index or constant) / ('reset',) for methods of the statistics structure"""
        cf = self.prog.callee_fn(c)
        if cf is None or not self.is_stats_fn(cf):
            return None
        if not hasattr(self, '_sm'):
            self._sm = {}
        if cf.key not in self._sm:
            self._sm[cf.key] = self.summary(cf)
        return self._sm[cf.key]

    def summary(self, fn):
        out = []
        v = mir.values(fn)
        for bi in mir.cfg(fn).rpo:
            for s in fn.blocks[bi].s:
                if s[0] == '=' and self.counter_place(s[1]) and s[1][0] == 1:
                    e = rv_expr(v, s[2])
                    f = self.counter_place(s[1])
                    if e[0] == 'const':
                        out.append(('set', f, e[1]))
                    else:
                        l = dict(lin_add(lin(e), ((('load', v.path(s[1])), 1),), -1))
                        if len(l) == 1:
                            (t, c), = l.items()
                            if c == 1 and t and t[0] == 'arg':
                                out.append(('inc', f, t[1]))
                                continue
                            if t == '':
                                out.append(('inck', f, c))
                                continue
                        out.append(('other', f, None))
            if fn.blocks[bi].t[0] == 'call':
                m = self.stats_method(fn.blocks[bi].t[1]) if self.prog.callee_fn(fn.blocks[bi].t[1]) is not fn else None
                if m:
                    out.extend(x for x in m if x[0] in ('set', 'inck'))
        return tuple(out) or None


def rv_expr(v, r):
    if r[0] == 'use':
        return v.expr(r[1])
    return v._rv(r, 0)


class Balance(flow.Client):
    """difference (counted - performed) of one counter along the paths of one function

    state: (linear form, performed anything, learnt equalities, failed)
    """

    def __init__(self, model, fn, field, unit, rep, where_bad):
        self.m, self.fn, self.field, self.unit, self.rep = model, fn, field, unit, rep
        self.v = mir.values(fn)
        self.bad = where_bad
        self.loops = {}      # block -> (header) of summarised loops
        self.exits = {}      # (from, to) -> linear form
        self.ends = set()
        self.nret = 0
        self.nops = set()
        self.nincs = set()
        self.shadow = self.shadows()
        # sums that are stored back to the counter
        self.back = {s[2][1][1][0] for bi in mir.cfg(fn).rpo for s in fn.blocks[bi].s
                     if s[0] == '=' and model.counter_place(s[1]) == field and s[2][0] == 'use' and s[2][1][0] in ('c', 'm')}
        self.terms = set()
        self.probe = None
        self.errs = 0
        self.skip = None
        self.desc = {}

    def start(self, flow):
        return ((), False, (), False)

    def adj(self, st, l, k, op, b):
        if self.loops.get(b) is not None and self.probe != self.loops[b]:
            return st
        d = lin_add(st[0], l, k)
        d = self.subst(d, st[2])
        if any(abs(c) > CAP for t, c in d if t != 'nj'):
            self.bad('diverges', b, d)
            return False
        d = tuple((t, max(c, -1) if t == 'nj' else c) for t, c in d)
        return (d, st[1] or op, st[2], st[3])

    @staticmethod
    def subst(d, facts):
        for e, c in facts:
            k = dict(d).get(e)
            if k:
                d = lin_add(tuple(x for x in d if x[0] != e), (('', k * c),))
        return d

    # local counters that are added to the statistics later
    def shadows(self):
        out = set()
        for bi in mir.cfg(self.fn).rpo:
            for s in self.fn.blocks[bi].s:
                if s[0] == '=' and self.m.counter_place(s[1]) == self.field:
                    for t, c in lin(rv_expr(self.v, s[2])):
                        if t and t[0] == 'loc' and self.self_inc(t[1]):
                            out.add(t[1])
            t = self.fn.blocks[bi].t
            if t[0] == 'call':
                for m in self.m.stats_method(t[1]) or ():
                    if m[0] == 'inc' and m[1] == self.field:
                        e = self.v.expr(t[2][m[2] - 1])
                        if e[0] == 'loc' and self.self_inc(e[1]):
                            out.add(e[1])
        return out

    def self_inc(self, l):
        ds = self.v.defs.get(l, [])
        n = 0
        for d in ds:
            if d[2] != 'rv':
                return False
            e = rv_expr(self.v, d[3])
            if e[0] == 'const':
                continue
            x = dict(lin_add(lin(e), ((('loc', l), 1),), -1))
            if set(x) - {''}:
                return False
            n += 1
        return n > 0

    def stmt(self, fl, st, env, b, s):
        if len(s[1]) == 1 and s[1][0] in self.shadow:
            e = rv_expr(self.v, s[2])
            if e[0] == 'const':
                return self.adj(st, lin(e), 1, False, b) if e[1] else st
            self.nincs.add(s[3])
            return self.adj(st, lin_add(lin(e), ((('loc', s[1][0]), 1),), -1), 1, False, b)
        r = s[2]
        if r[0] == 'bin' and r[1] in ('Add', 'AddWithOverflow') and (s[1][0] in self.back or self.m.counter_place(s[1]) == self.field):
            for x, y in ((r[2], r[3]), (r[3], r[2])):
                if x[0] in ('c', 'm') and self.is_counter(x):
                    self.nincs.add(s[3])
                    return self.count(fl, st, env, b, y)
        if self.m.counter_place(s[1]) != self.field:
            return st
        if r[0] == 'use' and r[1][0] in ('c', 'm') and len(r[1][1]) == 2:
            d = self.v.single(r[1][1][0])
            if d is not None and d[2] == 'rv' and d[3][0] == 'bin' and d[3][1] == 'AddWithOverflow' and any(x[0] in ('c', 'm') and self.is_counter(x) for x in d[3][2:4]):
                return st
        e = rv_expr(self.v, s[2])
        if e[0] == 'const':
            if st[1]:
                self.bad('reset', b, st[0])
                return False
            return st
        self.rep.error('%s: update of %s not understood' % (self.fn.where(s[3]), self.field))
        return False

    def is_counter(self, x):
        if self.m.counter_place(x[1]) == self.field:
            return True
        e = self.v.expr(x)
        return e[0] == 'load' and e[1] is not None and isinstance(e[1][-1], tuple) and e[1][-1] == ('f', self.field)

    def count(self, fl, st, env, b, o):
        k = fl.val(env, o)
        if k and k[0] == 'k':
            return self.adj(st, (('', k[1]),) if k[1] else (), 1, False, b)
        e = self.v.expr(o)
        if e[0] == 'loc' and e[1] in self.shadow:
            return st
        l = lin(e)
        for t, c in l:
            if t:
                self.terms.add(t)
        return self.adj(st, l, 1, False, b)

    def learn(self, fl, st, env, b, o, val):
        e = self.v.expr(o)
        if e[0] in ('load', 'arg') and isinstance(val, int) and not isinstance(val, bool):
            f = tuple(sorted(set(x for x in st[2] if x[0] != e) | {(e, val)}, key=repr))
            return (self.subst(st[0], f), st[1], f, st[3])
        return st

    def fork(self, fl, st, env, t, b, amount):
        """success and failure of an invocation"""
        out = []
        s2 = self.adj(st, amount, -1, True, b)
        if s2 is False:
            return []
        fl.havoc_args(env, t)
        ty = self.fn.locals[t[3][0]][0] if len(t[3]) == 1 else ''
        if is_result(ty):
            # a failed invocation ends the run (P07); what was counted for it is not constrained
            fl.store(env, t[3], ('var', 0, None))
        else:
            fl.store(env, t[3], None)
        out.append((s2, env))
        return out

    def call(self, fl, st, env, b, t):
        c = t[1]
        if t[4] is None:
            return None
        sm = self.m.stats_method(c)
        if sm:
            s2 = st
            for m in sm:
                if m[1] != self.field:
                    continue
                if m[0] == 'inc':
                    self.nincs.add(t[5])
                    s2 = self.count(fl, s2, env, b, t[2][m[2] - 1])
                elif m[0] == 'inck':
                    self.nincs.add(t[5])
                    s2 = self.adj(s2, (('', m[2]),), 1, False, b)
                elif m[0] == 'set':
                    if s2[1]:
                        self.bad('reset', b, s2[0])
                        return []
                else:
                    self.rep.error('%s: effect of %s on %s not understood' % (self.fn.where(t[5]), mir.callee_name(c), self.field))
                    return []
                if s2 is False:
                    return []
            if s2 is st:
                return None
            fl.store(env, t[3], None)
            return [(s2, env)]
        o = operation(c)
        if o and o[0] == self.field and (self.unit is None or o[1] in self.unit):
            if self.skip == t[5]:
                return None
            self.nops.add(t[5])
            self.desc[t[5]] = '%s(%s)' % (c.get('path', '').rsplit('::', 1)[-1], ', '.join(self.arg(a) for a in t[2][1:]))
            blk = self.fn.blocks[b]
            base = self.field == 'n_function' and blk.fn is not None and is_num_jac({'path': blk.fn.path}) and b not in self.inloop
            return self.fork(fl, st, env, t, b, (('nj' if base else '', 1),))
        if self.field == 'n_jacobian' and is_num_jac(c):
            self.nops.add(t[5])
            return self.fork(fl, st, env, t, b, (('', 1),))
        ks = self.m.closure_args(self.fn, t) & self.m.touches(self.field)
        if ks:
            tot = set()
            for k in ks:
                tot |= self.closure_total(self.m.prog.fns[k])
            if len(tot) > 1:
                self.bad('closure', b, ())
                return []
            for d in tot:
                s2 = self.adj(st, d[0], 1, d[1], b)
                if s2 is False:
                    return []
                if s2 == st:
                    return None
                fl.havoc_args(env, t)
                fl.store(env, t[3], None)
                return [(s2, env)]
        return None

    def arg(self, a):
        if a[0] == 'k':
            return str(mir.decode(a[1].get('v')))
        q = self.v.oppath(a)
        if q is not None:
            return mir.fmt_path(self.fn, q)
        return mir.fmt_expr(self.fn, self.v.expr(a))

    def closure_total(self, cl):
        sub, ends = explore(self.m, cl, self.field, self.unit, self.rep, self.bad)
        self.nops |= sub.nops
        self.nincs |= sub.nincs
        return {(d, o) for d, o, f, failed in ends if not failed}

    def ret(self, fl, st, env, b):
        v = env.get((0,))
        if is_result(self.fn.locals[0][0]) and v and v[0] == 'var' and v[1] == 1:
            # the run ends with an error
            self.errs += 1
            return
        self.ends.add(st)


class LoopFlow(flow.Flow):
    """exploration that applies loop summaries; in probe mode it follows one pass of a loop"""
    header = None
    body = ()

    def step(self, b, env, st):
        out = []
        for x, e, s in super().step(b, env, st):
            if self.header is not None and x == self.header:
                self.passes.add(s)
                continue
            if self.header is not None and x not in self.body:
                self.outs.add((b, x, s))
                continue
            l = self.client.exits.get((b, x))
            if l is not None:
                h, amount = l
                s = self.client.adj(s, amount, 1, True, -1)
                if s is False:
                    continue
            out.append((x, e, s))
        return out

    def switch(self, b, env, st, t):
        v = self.val(env, t[1])
        r = super().switch(b, env, st, t)
        if v is not None or t[2] == 'bool':
            return r
        out = []
        by = {y: x for x, y in t[3]}
        for x, e, s in r:
            if x in by and x != t[4]:
                s = self.client.learn(self, s, e, b, t[1], by[x])
            out.append((x, e, s))
        return out


def natural_loops(fn):
    """header -> set of blocks, innermost (smallest) first"""
    g = mir.cfg(fn)
    loops = {}
    for b in g.rpo:
        for x in g.succ[b]:
            if g.dominates(x, b):
                body = {x, b}
                w = [b] if b != x else []
                while w:
                    y = w.pop()
                    for p in g.pred[y]:
                        if p not in body and p in g.num:
                            body.add(p)
                            w.append(p)
                loops.setdefault(x, set()).update(body)
    return sorted(loops.items(), key=lambda kv: len(kv[1]))


def trip_count(fn, v, header, body):
    """number of passes of a counted loop as a linear form, or None"""
    for b in body:
        t = fn.blocks[b].t
        if t[0] == 'call' and t[1].get('path', '').endswith('::Iterator::next') and 'Range' in (t[1].get('self') or t[1].get('rpath') or ''):
            q = v.oppath(t[2][0])
            if q is None or len(q) != 1 or q[0][0] != 'loc':
                continue
            ds = v.defs.get(q[0][1], [])
            if len(ds) != 1:
                continue
            d = ds[0]
            e = None
            if d[2] == 'call' and re.search(r'into_iter$', mir.callee_name(d[3][1])):
                e = v.expr(d[3][2][0])
            elif d[2] == 'rv':
                e = rv_expr(v, d[3])
            r = range_of(e)
            if r is not None:
                return r
    # while i < n { ..; i += 1 }
    t = fn.blocks[header].t
    if t[0] == 'switch' and t[1][0] in ('c', 'm') and len(t[1][1]) == 1:
        d = v.single(t[1][1][0])
        if d is not None and d[2] == 'rv' and d[3][0] == 'bin' and d[3][1] in ('Lt', 'Le', 'Ne'):
            e = v._rv(d[3], 0)
            i = e[2]
            if i[0] == 'loc':
                ds = v.defs.get(i[1], [])
                init = [x for x in ds if x[2] == 'rv' and rv_expr(v, x[3])[0] == 'const']
                incs = [x for x in ds if x[2] == 'rv' and lin_add(lin(rv_expr(v, x[3])), ((i, 1),), -1) == (('', 1),)]
                if len(init) == 1 and len(incs) == 1 and len(ds) == 2:
                    r = lin_add(lin(e[3]), lin(rv_expr(v, init[0][3])), -1)
                    return lin_add(r, (('', 1),)) if e[1] == 'Le' else r
    return None


def range_of(e):
    while e and e[0] == 'call' and re.search(r'into_iter$', e[1]) and len(e[2]) == 1:
        e = e[2][0]
    if e and e[0] == 'agg' and isinstance(e[1], tuple) and e[1][0].endswith('Range') and len(e[2]) == 2:
        return lin_add(lin(e[2][1]), lin(e[2][0]), -1)
    if e and e[0] == 'call' and re.search(r'RangeInclusive::<.*>::new$|RangeInclusive.*::new$', e[1]) and len(e[2]) == 2:
        return lin_add(lin_add(lin(e[2][1]), lin(e[2][0]), -1), (('', 1),))
    return None


def relevant_blocks(model, fn, client):
    out = set()
    for b in mir.cfg(fn).rpo:
        blk = fn.blocks[b]
        if blk.t[0] == 'call' and (operation(blk.t[1]) or model.stats_method(blk.t[1]) or is_num_jac(blk.t[1]) or model.closure_args(fn, blk.t) & model.touches(client.field)):
            out.add(b)
        for s in blk.s:
            if s[0] == '=' and (model.counter_place(s[1]) or len(s[1]) == 1 and s[1][0] in client.shadow):
                out.add(b)
    return out


def small(cl):
    """reduced domain: outcomes of calls and integers with literal definitions only"""
    lits = set()
    for l, ds in cl.v.defs.items():
        if isinstance(l, int) and cl.fn.locals[l][0] != 'bool' and all(d[2] == 'rv' and d[3][0] == 'use' for d in ds):
            lits.add(l)

    def keep(p, v):
        if v[0] in ('var', 'ref', 'discr', 'isvar'):
            return True
        return len(p) == 1 and p[0] in lits
    return keep


def explore(model, fn, field, unit, rep, bad, skip=None):
    res = None
    for full in (False, True):
        probs = []
        try:
            cl, ends = explore1(model, fn, field, unit, rep, lambda *a: probs.append(a), full, skip)
        except flow.Limit:
            # the reduced domain decides
            cl, ends, probs = res
            break
        res = cl, ends, probs
        if not probs and not any(e[0] for e in ends if not e[3]):
            break
    for p in probs:
        bad(*p)
    return cl, ends


def explore1(model, fn, field, unit, rep, bad, full, skip=None):
    prog = model.prog

    def want(cf, t, stack):
        if model.is_stats_fn(cf) or operation(t[1]) or t[1].get('rk') == 'virtual' or 'dyn ' in t[1].get('self', ''):
            return False
        if field == 'n_jacobian' and is_num_jac(t[1]):
            return False
        return cf.key in model.touches(field)
    inl = mir.inline(prog, fn, want, max_depth=8)
    cl = Balance(model, inl, field, unit, rep, lambda kind, b, d: bad(kind, inl, b, d))
    cl.skip = skip
    loops = natural_loops(inl)
    cl.inloop = {b for h, body in loops for b in body if inl.blocks[b].fn is inl.blocks[h].fn}
    rel = relevant_blocks(model, inl, cl)
    # summarise counted loops with a constant difference per pass, innermost first
    for h, body in loops:
        if not (body & rel):
            continue
        silent = []
        cl.bad = lambda kind, b, d: silent.append(kind)
        fl = LoopFlow(prog, inl, cl)
        fl.keep = None if full else small(cl)
        fl.header, fl.body, fl.passes, fl.outs = h, body, set(), set()
        fl.run({}, ((), False, (), False), start=h)
        deltas = {s[0] for s in fl.passes if not s[3]}
        if silent or len(deltas) != 1 or () in deltas:
            continue
        d, = deltas
        n = trip_count(inl, cl.v, h, body)
        if n is None or not all(t == '' for t, c in d):
            continue
        leave = [(b, x, s) for b, x, s in fl.outs if not s[3] and inl.blocks[x].t[0] != 'unreachable']
        outs = {(b, x) for b, x, s in leave}
        if len(outs) != 1 or any(s[0] for b, x, s in leave):
            continue
        k = dict(d)['']
        for b in body:
            cl.loops.setdefault(b, h)
        cl.exits[next(iter(outs))] = (h, tuple((t, c * k) for t, c in n))
        for t, c in n:
            if t:
                cl.terms.add(t)
    cl.bad = lambda kind, b, d: bad(kind, inl, b, d)
    fl = LoopFlow(prog, inl, cl)
    fl.keep = None if full else small(cl)
    fl.limit = 60000 if full else flow.LIMIT
    fl.run()
    cl.states = fl.states
    return cl, cl.ends


def show(fn, d):
    out = []
    for t, c in d:
        nm = '' if t == '' else 'base evaluation of the numerical Jacobian' if t == 'nj' else mir.fmt_expr(fn, t)
        out.append('%+d%s' % (c, ' x ' + nm if nm else ''))
    return ', '.join(out) or '0'


def check():
    rep = Report('P10', RULE)
    prog = mir.Program()
    rep.t0 = __import__('time').time()
    model = Model(prog)
    rep.assumptions.append('a real and a complex system that are factorized or solved as a pair count once; the extra substitutions with the real '
                           'matrix for the error estimate of Radau5 are not counted, as in the reference implementation')
    callers = {}
    for fn in prog.fns.values():
        for b in fn.blocks:
            if not b.c and b.t[0] == 'call':
                cf = prog.callee_fn(b.t[1])
                if cf is not None:
                    callers.setdefault(cf.key, set()).add(fn.key)
    for stats, fields in sorted(model.counters.items()):
        crate = stats.split('::')[0]
        hold = model.owner[stats]

        def scope(fn):
            # shared access cannot update a counter
            return any(any(re.search(r'(^|[^\w:])%s($|[^\w:])' % re.escape(h), i) for h in hold) for i in fn.ins if i.startswith('&mut '))
        done = set()
        for field in fields:
            if field not in ('n_function', 'n_jacobian', 'n_factor', 'n_lin_sol', 'n_steps', 'n_accepted'):
                continue
            touch = model.touches(field)
            cand = [fn for fn in prog.fns.values() if fn.key in touch and fn.crate == crate and fn.kind != 'Closure' and not model.is_stats_fn(fn) and scope(fn)]
            keys = {f.key for f in cand}
            for fn in sorted(cand, key=lambda f: f.key):
                if not fn.impl_trait and not fn.reach and callers.get(fn.key, set()) & keys - {fn.key}:
                    rep.count('helpers analysed in the context of their callers')
                    continue
                done.add(fn.key)
                comp = any('ComplexLinSolver' in f[1] for a in [prog.adts.get((fn.impl_self or '').split('<')[0])] if a for f in a['variants'][0]['fields'])
                units = [None]
                if field in ('n_factor', 'n_lin_sol') and comp:
                    units = [('complex',), ('real',)]
                for unit in units:
                    one(rep, model, fn, field, unit)
        rep.counts['functions analysed'] = rep.counts.get('functions analysed', 0) + len(done)
    rep.floor('functions analysed', 12)
    rep.floor('invocation sites', 40)
    rep.floor('counter updates', 40)
    rep.floor('return states', 40)
    return rep


def net(ends, field, unit):
    """differences left at a return"""
    out = set()
    for d, op, facts, failed in ends:
        d = tuple(x for x in d if x[0] != 'nj')
        if unit == ('real',) and field == 'n_lin_sol':
            d = tuple((t, c) for t, c in d if c > 0)
        out.add(d)
    return out - {()}


def one(rep, model, fn, field, unit):
    seen = set()

    def bad(kind, inl, b, d):
        key = '%s: %s: %s' % (fn.path, field, kind)
        if key in seen:
            return
        seen.add(key)
        ln = None
        if b >= 0:
            t = inl.blocks[b].t
            ln = t[5] if t[0] in ('call', 'switch') else next((s[3] for s in reversed(inl.blocks[b].s) if s[0] == '='), None)
        msg = {'diverges': 'the count and the number of invocations drift apart in a loop (difference so far %s)' % show(inl, d),
               'reset': 'the counter is set back after work was performed',
               'closure': 'the invocations in a closure depend on the path'}[kind]
        rep.bad(key, inl.where(ln), '%s: %s: %s' % (fn.path, field, msg))
    cl, ends = explore(model, fn, field, unit, rep, bad)
    if not cl.nops and not cl.nincs:
        return
    rep.count('counters followed')
    rep.counts['invocation sites'] = rep.counts.get('invocation sites', 0) + len(cl.nops)
    rep.counts['counter updates'] = rep.counts.get('counter updates', 0) + len(cl.nincs)
    rep.counts['states explored'] = rep.counts.get('states explored', 0) + cl.states
    rep.counts['return states'] = rep.counts.get('return states', 0) + len(ends)
    if any(('nj', -1) in e[0] for e in ends):
        rep.bad('%s: %s: base evaluation of the numerical Jacobian not counted' % (fn.path, field), fn.where(),
                '%s: the function evaluation at the base point of the numerical Jacobian is not counted' % fn.path)
    probs = net(ends, field, unit)
    if probs:
        ex = sorted(probs, key=repr)[0]
        what = 'difference at return'
        # is one invocation the culprit?
        single = []
        for site in sorted(cl.nops, key=repr):
            c2, e2 = explore(model, fn, field, unit, rep, lambda *a: None, site)
            if not net(e2, field, unit):
                single.append(site)
        where = fn.where()
        if len(single) == 1 and single[0] in cl.desc:
            what = '%s not counted' % cl.desc[single[0]]
            where = fn.where(single[0])
        rep.bad('%s: %s: %s' % (fn.path, field, what), where,
                '%s: on some path %s differs from the number of %sinvocations by %s%s' % (fn.path, field, (unit[0] + ' ') if unit else '', show(cl.fn, ex),
                                                                                     '' if what.startswith('diff') else ': ' + what))
    elif not seen:
        rep.ok('%s: %s%s: %d invocation sites, %d updates' % (fn.path, field, ' (%s)' % unit[0] if unit else '', len(cl.nops), len(cl.nincs)))

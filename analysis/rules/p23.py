"""P23: results do not depend on clock, environment or hash order."""
import re
from .. import clower, facts, mir
from ..report import Report
from .p10 import natural_loops

RULE = ('values obtained from the clock, the environment, other processes, thread identities, addresses or random generators flow only into timing '
        'and text carriers and decide no branch that does anything else; every loop over a hash container only updates the visited entry')

SOURCE = re.compile(r'^(std::time::(Instant|SystemTime)::(now|elapsed|duration_since)|std::env::|std::process::|std::thread::(.*::)?(current|current_or_unnamed|available_parallelism|id)$|std::(.*::)?available_parallelism$|'
                    r'.*thread::Thread::id$|std::net::|std::sync::mpsc::.*recv|.*::(try_lock|try_recv|is_finished)$|rand::rngs::thread::rng|rand::random|std::hash::random::RandomState::new|std::alloc::|core::any::type_id)')
CARRIER = re.compile(r'^(&(mut )?)?(u128|core::time::Duration|std::time::(Instant|SystemTime)|russell_lab::base::stopwatch::Stopwatch|alloc::string::String|&str|str|\(\)|bool_display|'
                     r'rand::rngs::thread::ThreadRng|std::process::.*|core::fmt::.*|core::result::Result<\(\), core::fmt::Error>)$')
TEXT = re.compile(r'(^|::)(fmt|io)::|std::io|alloc::fmt|_print|String|to_string|format|Formatter')
HASHITER = re.compile(r'hash::(map|set)::Hash(Map|Set)(::)?<.*>::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|extract_if|into_iter)$')
NONDET_C = {'time', 'clock', 'clock_gettime', 'gettimeofday', 'getenv', 'secure_getenv', 'rand', 'random', 'srand', 'drand48', 'getpid', 'gettid', 'pthread_self',
            'omp_get_thread_num', 'omp_get_wtime', 'localtime', 'gmtime'}


def check():
    rep = Report('P23', RULE)
    prog = mir.Program()
    rep.t0 = __import__('time').time()
    sources(rep, prog)
    hash_loops(rep, prog)
    native(rep)
    rep.assumptions.append('numerical libraries (BLAS, LAPACK, SuiteSparse, MUMPS, cuDSS) are outside the scope: only what the repository does with clocks, environment and containers is decided')
    rep.floor('functions examined', 1500)
    rep.floor('clock reads', 4)
    rep.floor('loops over hash containers', 6)
    rep.floor('native functions examined', 45)
    return rep


# -- clock, environment, randomness --------------------------------------------------------------------

class Taint:
    def __init__(self, prog):
        self.prog = prog
        self.fields = {}      # (crate, field name) -> example
        self.params = {}      # fn key -> set of argument locals
        self.rets = {}        # fn key -> example
        self.locals = {}      # fn key -> set of locals

    def run(self):
        ch = True
        while ch:
            ch = False
            for fn in self.prog.fns.values():
                if self.step(fn):
                    ch = True

    def field(self, fn, p):
        """tainted field read or written by a place"""
        for e in reversed(p[1:]):
            if isinstance(e, tuple) and e[0] == 'f' and isinstance(e[2], str) and e[2] and not e[2].isdigit():
                return (fn.crate, e[2])
            if e != '*':
                break
        return None

    def tainted_op(self, fn, o, T):
        return o[0] in ('c', 'm') and (o[1][0] in T or self.field(fn, o[1]) in self.fields)

    def tainted_rv(self, fn, r, T):
        k = r[0]
        if k in ('use', 'repeat'):
            return self.tainted_op(fn, r[1], T)
        if k in ('ref', 'raw'):
            return r[2][0] in T and len(r[2]) == 1 or self.field(fn, r[2]) in self.fields
        if k == 'cast':
            return self.tainted_op(fn, r[2], T) or 'ExposeAddress' in str(r[3]) or 'ExposeProvenance' in str(r[3])
        if k == 'bin':
            return self.tainted_op(fn, r[2], T) or self.tainted_op(fn, r[3], T)
        if k == 'un':
            return self.tainted_op(fn, r[2], T)
        if k == 'agg':
            # a structure is not tainted as a whole by one of its fields: the field is
            if r[1][0] == 'adt' and self.prog.adts.get(r[1][1], {}).get('kind') == 'Struct':
                return False
            return any(self.tainted_op(fn, o, T) for o in r[2])
        return False

    def step(self, fn):
        T = self.locals.setdefault(fn.key, set(self.params.get(fn.key, ())))
        T |= self.params.get(fn.key, set())
        n0 = (len(T), len(self.fields), sum(len(x) for x in self.params.values()), len(self.rets))
        for b in fn.blocks:
            if b.c:
                continue
            for s in b.s:
                if s[0] != '=':
                    continue
                r = s[2]
                if r[0] == 'agg' and r[1][0] == 'adt':
                    a = self.prog.adts.get(r[1][1])
                    if a and a['kind'] == 'Struct':
                        for i, o in enumerate(r[2]):
                            if self.tainted_op(fn, o, T) and i < len(a['variants'][0]['fields']):
                                self.fields.setdefault((fn.crate, a['variants'][0]['fields'][i][0]), (fn, s[3]))
                        continue
                if self.tainted_rv(fn, r, T):
                    f = self.field(fn, s[1])
                    if f:
                        self.fields.setdefault(f, (fn, s[3]))
                    elif s[1][0] == 0 or len(s[1]) == 1 or '*' not in s[1]:
                        T.add(s[1][0])
            t = b.t
            if t[0] == 'call':
                c = t[1]
                nm = mir.callee_name(c)
                cf = self.prog.callee_fn(c)
                hit = False
                if SOURCE.search(nm):
                    hit = True
                elif cf is not None:
                    for i, a in enumerate(t[2]):
                        if self.tainted_op(fn, a, T):
                            self.params.setdefault(cf.key, set()).add(i + 1)
                    hit = cf.key in self.rets
                else:
                    hit = any(self.tainted_op(fn, a, T) for a in t[2])
                if hit:
                    f = self.field(fn, t[3])
                    if f:
                        self.fields.setdefault(f, (fn, t[5]))
                    else:
                        T.add(t[3][0])
        if 0 in T:
            self.rets.setdefault(fn.key, fn)
        return n0 != (len(T), len(self.fields), sum(len(x) for x in self.params.values()), len(self.rets))


def sources(rep, prog):
    tt = Taint(prog)
    tt.run()
    for fn in prog.fns.values():
        rep.count('functions examined')
        for b in fn.blocks:
            if not b.c and b.t[0] == 'call' and SOURCE.search(mir.callee_name(b.t[1])):
                rep.count('clock reads' if 'time::' in mir.callee_name(b.t[1]) else 'other sources')
                rep.ok()
    # fields that carry such values
    for (crate, f), (fn, ln) in sorted(tt.fields.items(), key=lambda kv: kv[0]):
        tys = {x[1] for p, a in prog.adts.items() if p.startswith(crate + '::') for v in a['variants'] for x in v['fields'] if x[0] == f}
        rep.count('fields holding times')
        badty = sorted(t for t in tys if not CARRIER.match(t))
        if badty:
            rep.bad('%s: field %s' % (crate, f), fn.where(ln), 'a value that depends on the clock or the environment is stored in the field %s of type %s' % (f, badty[0]))
        else:
            rep.ok()
    # returned values
    for key, fn in sorted(tt.rets.items()):
        rep.count('functions returning times or texts')
        out = fn.out or ''
        m = re.match(r'core::(?:result::Result|option::Option)<(.*?)(, &(\'\w+ )?str)?>$', out)
        if CARRIER.match(out) or m and CARRIER.match(m.group(1)) or TEXT.search(fn.path):
            rep.ok()
        elif fn.reach or fn.impl_trait:
            rep.bad('%s: returned value' % fn.path, fn.where(), '%s returns a value that depends on the clock or the environment' % fn.path)
    # branches decided by such values, and user functions or outputs that receive them
    for fn in prog.fns.values():
        T = tt.locals.get(fn.key, set())
        if not T and not any(c == fn.crate for c, _ in tt.fields):
            continue
        for bi in mir.cfg(fn).rpo:
            blk = fn.blocks[bi]
            t = blk.t
            if t[0] == 'switch' and tt.tainted_op(fn, t[1], T):
                rep.count('branches decided by times')
                bad = region_effect(prog, tt, fn, bi, T)
                if bad:
                    rep.bad('%s: branch' % fn.path, fn.where(t[5]), '%s: a branch decided by the clock or the environment %s' % (fn.path, bad[0]))
                else:
                    rep.ok()
            if t[0] == 'call' and mir.is_user_callback(t[1]) and any(tt.tainted_op(fn, a, T) for a in t[2]):
                rep.bad('%s: user function' % fn.path, fn.where(t[5]), '%s: a user function receives a value that depends on the clock or the environment' % fn.path)
            for s in blk.s:
                if s[0] == '=' and '*' in s[1][:2] and 0 < s[1][0] <= fn.argc and tt.field(fn, s[1]) is None and tt.tainted_rv(fn, s[2], T):
                    ty = fn.locals[s[1][0]][0]
                    if not CARRIER.match(ty):
                        rep.bad('%s: output argument' % fn.path, fn.where(s[3]), '%s: an output argument receives a value that depends on the clock or the environment' % fn.path)


def region_effect(prog, tt, fn, bi, T):
    """effects of the blocks controlled by a branch, other than updates of timing fields and text"""
    g = mir.cfg(fn)
    region = controlled(fn, bi)
    common = set(g.num) - region
    for b in sorted(region):
        blk = fn.blocks[b]
        for s in blk.s:
            if s[0] != '=':
                continue
            f = tt.field(fn, s[1])
            if f:
                if f not in tt.fields:
                    return ('decides the value of the field %s' % f[1], s[3])
            elif s[1][0] == 0 and not CARRIER.match(fn.out or ''):
                return ('decides the returned value', s[3])
            elif len(s[1]) == 1 and (fn.name(s[1][0]) or fn.locals[s[1][0]][0] != 'bool') and s[1][0] not in T and not CARRIER.match(fn.locals[s[1][0]][0]) and s[1][0] in live_after(fn, common):
                return ('decides the value of %s' % (fn.name(s[1][0]) or 'a temporary value'), s[3])
        if blk.t[0] == 'call':
            nm = mir.callee_name(blk.t[1])
            if not TEXT.search(nm) and not SOURCE.search(nm) and any(a[0] in ('c', 'm') and len(a[1]) == 1 and fn.locals[a[1][0]][0].startswith('&mut ') for a in blk.t[2]):
                return ('decides whether %s is called' % nm, blk.t[5])
        if blk.t[0] == 'return' and fn.out not in ('()', None) and not CARRIER.match(fn.out):
            return ('decides when the function returns', None)
    return None


def controlled(fn, bi):
    """blocks whose execution is decided by the branch ending block bi"""
    g = mir.cfg(fn)
    exits = {b for b in g.num if fn.blocks[b].t[0] == 'return'}
    succ = [x for x in g.succ[bi] if g.reachable_from([x]) & exits]
    best = g.reachable_from(succ)
    for c in sorted(best):
        r = g.reachable_from(succ, avoid=(c,))
        if not r & exits and len(r) < len(best):
            best = r
    return best


def live_after(fn, common):
    from ..flow import live_in
    lv = live_in(fn)
    out = set()
    for b in common:
        out |= lv[b]
    return out


# -- hash containers -----------------------------------------------------------------------------------

def hash_loops(rep, prog):
    for fn in prog.fns.values():
        v = None
        for bi in mir.cfg(fn).rpo:
            t = fn.blocks[bi].t
            if t[0] != 'call' or not is_hash_iter(fn, t):
                continue
            v = v or mir.values(fn)
            rep.count('loops over hash containers')
            nxt = [b for b in mir.cfg(fn).rpo if fn.blocks[b].t[0] == 'call' and fn.blocks[b].t[1].get('path', '').endswith('::Iterator::next')
                   and re.search(r'hash::(map|set)::', fn.blocks[b].t[1].get('self', '')) and feeds(fn, v, t[3][0], fn.blocks[b].t)]
            if not nxt:
                # handed to an adaptor: only order-free consumers are accepted
                use, dst = consumer(fn, t[3][0])
                if use and use.endswith('::collect') and (re.match(r'std::collections::hash|alloc::collections::btree', fn.locals[dst][0]) or sorted_later(fn, v, dst)):
                    rep.ok()
                elif use and re.search(r'::(len|count|any|all|is_empty|sum|max|min|contains)$', use) and not re.search(r'f64', use):
                    rep.ok()
                else:
                    rep.bad('%s: hash iteration' % fn.path, fn.where(t[5]), '%s: entries of a hash container are handed on in arbitrary order (%s)' % (fn.path, use))
                continue
            for nb in nxt:
                why = ordering(fn, v, t[3][0], fn.blocks[nb].t) or loop_order(prog, fn, v, nb)
                if why:
                    rep.bad('%s: loop over a hash container' % fn.path, fn.where(why[1] or t[5]), '%s: the outcome of a loop over a hash container depends on the order of visits: %s' % (fn.path, why[0]))
                else:
                    rep.ok('%s at %s' % (fn.path, fn.where(t[5])))


def is_hash_iter(fn, t):
    nm = mir.callee_name(t[1])
    if HASHITER.search(nm):
        return True
    return t[1].get('path', '').endswith('IntoIterator::into_iter') and bool(re.match(r'(&(\'\w+ )?(mut )?)?std::collections::hash::(map|set)::Hash(Map|Set)<', t[1].get('self', '')))


def feeds(fn, v, l, t):
    """does the iterator in local l reach the receiver of the call of next"""
    q = v.oppath(t[2][0])
    if q is None or q[0][0] != 'loc':
        return False
    cur, seen = q[0][1], set()
    while cur not in seen:
        seen.add(cur)
        if cur == l:
            return True
        d = v.single(cur)
        if d is None:
            return False
        if d[2] == 'rv' and d[3][0] == 'use' and d[3][1][0] in ('c', 'm'):
            cur = d[3][1][1][0]
        elif d[2] == 'call' and d[3][2] and d[3][2][0][0] in ('c', 'm'):
            cur = d[3][2][0][1][0]
        else:
            return False
    return False


def ordering(fn, v, l, t):
    """an adaptor that gives the visits a rank, between the iterator in l and the call of next"""
    cur = v.oppath(t[2][0])[0][1]
    seen = set()
    while cur != l and cur not in seen:
        seen.add(cur)
        d = v.single(cur)
        if d[2] == 'call':
            m = re.search(r'::(enumerate|zip|take|skip|step_by|take_while|skip_while|map_while|scan|peekable|chain|rev|by_ref|fuse|cycle)$', d[3][1].get('path', ''))
            if m and m.group(1) not in ('chain', 'fuse', 'by_ref'):
                return ('the visits are ranked by %s' % m.group(1), d[3][5])
            cur = d[3][2][0][1][0]
        else:
            cur = d[3][1][1][0]
    return None


def consumer(fn, l):
    """what finally consumes the iterator in l: name of the function and local of its result"""
    seen, use = set(), (None, None)
    while l not in seen:
        seen.add(l)
        for b in fn.blocks:
            if b.c:
                continue
            for s in b.s:
                if s[0] == '=' and len(s[1]) == 1 and s[2][0] == 'use' and s[2][1][0] in ('c', 'm') and s[2][1][1] == (l,):
                    l = s[1][0]
            if b.t[0] == 'call' and any(a[0] in ('c', 'm') and a[1] == (l,) for a in b.t[2]):
                use = (b.t[1].get('path') or mir.callee_name(b.t[1]), b.t[3][0])
                if re.search(r'::Iterator::(map|filter|copied|cloned|filter_map|flat_map|inspect|into_iter)$|IntoIterator::into_iter$', use[0]):
                    l = b.t[3][0]
                break
    return use


def sorted_later(fn, v, l):
    """is the sequence in l sorted by some call"""
    names = {l}
    for b in fn.blocks:
        for s in b.s:
            if s[0] == '=' and s[2][0] == 'use' and s[2][1][0] in ('c', 'm') and s[2][1][1] in [(x,) for x in names] and len(s[1]) == 1:
                names.add(s[1][0])
    for b in mir.cfg(fn).rpo:
        t = fn.blocks[b].t
        if t[0] == 'call' and re.search(r'::sort(_unstable)?(_by|_by_key|_by_cached_key)?$', mir.callee_name(t[1])):
            l0 = t[2][0][1][0]
            q = None
            for _ in range(8):
                q = v.oppath(('c', (l0,)))
                if q is not None and q[0][0] == 'loc' and q[0][1] in names:
                    return True
                d = v.single(q[0][1]) if q is not None and q[0][0] == 'loc' else v.single(l0)
                if d is None or d[2] != 'call' or not d[3][2] or d[3][2][0][0] not in ('c', 'm'):
                    break
                l0 = d[3][2][0][1][0]
            if q is not None and q[0][0] in ('arg',) and l in ('path', q):
                return True
    return False


def loop_order(prog, fn, v, nb):
    """reason why the loop around the call of next depends on the order, or None"""
    g = mir.cfg(fn)
    loops = [l for l in natural_loops(fn) if nb in l[1]]
    if not loops:
        return None
    body = min((l[1] for l in loops), key=len)
    item = fn.blocks[nb].t[3][0]
    from_item = {item}
    mine = set()
    ch = True
    while ch:
        ch = False
        for b in body:
            for s in fn.blocks[b].s:
                if s[0] == '=' and len(s[1]) == 1 and s[1][0] not in from_item and any(x in from_item for x in reads_rv(s[2])) and s[2][0] in ('use', 'ref', 'cast', 'discr', 'agg'):
                    from_item.add(s[1][0])
                    ch = True
            t = fn.blocks[b].t
            if t[0] == 'call' and t[3][0] not in from_item and any(a[0] in ('c', 'm') and a[1][0] in from_item for a in t[2]) and b != nb:
                from_item.add(t[3][0])
                ch = True
    lv = live_after(fn, [x for b in body for x in g.succ[b] if x not in body and fn.blocks[x].t[0] != 'unreachable'])
    heads = lv_at(fn, nb)
    for b in sorted(body):
        blk = fn.blocks[b]
        for s in blk.s:
            if s[0] != '=':
                continue
            d = s[1]
            if len(d) == 1 or '*' not in d:
                if d[0] not in from_item and (d[0] in lv or d[0] in heads) and fn.name(d[0]):
                    return ('%s is updated' % fn.name(d[0]), s[3])
                if d[0] in from_item and d[0] in lv and fn.name(d[0]):
                    return ('the last visited entry stays in %s' % fn.name(d[0]), s[3])
            elif d[0] not in from_item:
                return ('%s is written' % mir.fmt_path(fn, v.path(d)), s[3])
        t = blk.t
        if t[0] == 'call' and b != nb:
            for a in t[2]:
                if a[0] in ('c', 'm') and len(a[1]) == 1 and fn.locals[a[1][0]][0].startswith('&mut ') and a[1][0] not in from_item:
                    q = v.oppath(a)
                    if q is not None and q[0][0] == 'loc' and sorted_later(fn, v, q[0][1]):
                        continue
                    if q is not None and q[0][0] == 'loc' and not fn.name(q[0][1]) and not (q[0][1] in lv or q[0][1] in heads):
                        continue
                    return ('%s is handed to %s' % (mir.fmt_path(fn, q) if q else 'a mutable reference', mir.callee_name(t[1])), t[5])
                if a[0] in ('c', 'm') and len(a[1]) == 1 and fn.locals[a[1][0]][0].startswith('&mut ') and a[1][0] in from_item:
                    q = v.oppath(a)
                    if q is not None and q[0][0] == 'arg':
                        return ('%s is handed to %s' % (mir.fmt_path(fn, q), mir.callee_name(t[1])), t[5])
    return None


def lv_at(fn, b):
    from ..flow import live_in
    return live_in(fn)[b]


def reads_rv(r):
    k = r[0]
    ops = []
    if k in ('use', 'repeat'):
        ops = [r[1]]
    elif k == 'cast':
        ops = [r[2]]
    elif k == 'bin':
        ops = [r[2], r[3]]
    elif k == 'un':
        ops = [r[2]]
    elif k == 'agg':
        ops = list(r[2])
    elif k in ('ref', 'raw'):
        return [r[2][0]]
    elif k == 'discr':
        return [r[1][0]]
    return [o[1][0] for o in ops if o[0] in ('c', 'm')]


# -- C shims -------------------------------------------------------------------------------------------

def native(rep):
    for cp in clower.programs(facts.extract()):
        for fn in cp.fns.values():
            rep.count('native functions examined')
            bad = None
            for b in fn.blocks:
                if b.t[0] == 'call':
                    nm = mir.callee_name(b.t[1]).rsplit('::', 1)[-1]
                    if nm in NONDET_C:
                        bad = (nm, b.t[5])
            if bad:
                rep.bad('%s: %s' % (fn.path, bad[0]), fn.where(bad[1]), '%s calls %s' % (fn.path, bad[0]))
            else:
                rep.ok()

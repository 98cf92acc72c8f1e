"""P24: no value delivered by a user-supplied function can make an operation run forever."""
import re
from .. import effects, mir
from ..report import Report
from .p10 import natural_loops

RULE = ('every loop in which a user-supplied function may run (directly or through any called function) consumes a budget fixed before the loop is entered: '
        'every way around the loop advances an iterator of finite length created outside the loop, or both moves an integer counter in one direction and passes a test that leaves the loop '
        'when the counter gets past a value the loop does not change; a recursion that may run user functions hands on a changed counter')

INT = re.compile(r'[iu](8|16|32|64|128|size)$')
# comparisons and their negations; the same with exchanged sides
COMPARE = {'Lt': 'Ge', 'Le': 'Gt', 'Gt': 'Le', 'Ge': 'Lt', 'Eq': 'Ne', 'Ne': 'Eq'}
SWAP = {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}
ENDLESS = ('RangeFrom', 'Repeat', 'RepeatN', 'RepeatWith', 'Cycle', 'Successors', 'FromFn', 'OnceWith')


def generic(ty):
    """(name, arguments) of a type written out"""
    ty = re.sub(r"^(&('\w+ )?(mut )?)+", '', ty.strip())
    m = re.match(r'([\w:]+)<(.*)>$', ty)
    if not m:
        return ty.rsplit('::', 1)[-1], []
    parts, depth, cur = [], 0, ''
    for i, ch in enumerate(m.group(2)):
        if ch in '<([{':
            depth += 1
        elif ch in '>)]}' and not (ch == '>' and cur.endswith('-')):
            depth -= 1
        if ch == ',' and depth == 0:
            parts.append(cur.strip())
            cur = ''
        else:
            cur += ch
    parts.append(cur.strip())
    return m.group(1).rsplit('::', 1)[-1], parts


def finite(ty):
    """whether an iterator type ends by itself"""
    name, args = generic(ty)
    args = [a for a in args if not a.startswith("'")]
    if name == 'Take' or name == 'RepeatN':
        return True
    if name in ENDLESS:
        return False
    if name == 'Zip' and len(args) == 2:
        return finite(args[0]) or finite(args[1])
    if name in ('Chain', 'FlatMap', 'Flatten') and len(args) >= 2:
        return finite(args[0]) and finite(args[1])
    if name in ('Enumerate', 'Rev', 'Map', 'Filter', 'FilterMap', 'Skip', 'SkipWhile', 'TakeWhile', 'MapWhile', 'StepBy', 'Peekable', 'Inspect', 'Fuse', 'Scan', 'Copied', 'Cloned') and args:
        return finite(args[0])
    return True


class Loops:
    def __init__(self, prog, eff, fn):
        self.prog, self.fn = prog, fn
        self.fe = eff.of(fn)
        self.g = mir.cfg(fn)
        self.v = mir.values(fn)
        self.loops = natural_loops(fn)
        # comparisons of integers
        self.compared = set()
        for b in self.g.rpo:
            for s in fn.blocks[b].s:
                if s[0] == '=' and s[2][0] == 'bin' and s[2][1] in COMPARE and INT.match(str(s[2][4])):
                    self.compared.add(self.v._rv(s[2], 0))
        self.user = {}
        for b in self.g.rpo:
            t = fn.blocks[b].t
            if t[0] == 'call' and not fn.blocks[b].c and any(k == 'cb' for k, q, ln in self.fe.call(t)):
                self.user[b] = t

    def turns(self, h, body, without):
        """a way around the loop that avoids the given blocks"""
        if h in without:
            return False
        seen, work = set(), [h]
        while work:
            for x in mir.isuccs(self.fn.blocks[work.pop()].t):
                if x == h:
                    return True
                if x in body and x not in seen and x not in without:
                    seen.add(x)
                    work.append(x)
        return False

    def inner(self, h, body):
        """blocks of the loops inside this one"""
        out = set()
        for h2, b2 in self.loops:
            if h2 != h and b2 < body:
                out |= b2
        return out

    def iterators(self, h, body):
        """blocks that advance a finite iterator created outside of the loop, and the endless ones met"""
        ok, endless = set(), []
        inner = self.inner(h, body)
        for b in body:
            t = self.fn.blocks[b].t
            if t[0] != 'call' or not re.search(r'::(next|next_back)$', t[1].get('path', '')) or not t[2]:
                continue
            q = self.v.oppath(t[2][0])
            root = q[0] if q else None
            if root and root[0] == 'loc' and any(d[0] in body for d in self.v.defs.get(root[1], [])):
                continue
            if root is None and b in inner:
                continue
            ty = t[1].get('self') or (self.fn.locals[t[2][0][1][0]][0] if t[2][0][0] in ('c', 'm') else '')
            if finite(ty):
                ok.add(b)
            else:
                endless.append(b)
        return ok, endless

    # -- counters

    def writes(self, body):
        """path -> [(block, step)] for what is written in the loop; 0 for constants, None for unknown values"""
        out = {}
        for b in body:
            for s in self.fn.blocks[b].s:
                if s[0] != '=':
                    continue
                q = self.v.path(s[1]) if len(s[1]) > 1 else (('loc', s[1][0]),)
                if q is None:
                    continue
                step = 0 if s[2][0] == 'use' and s[2][1][0] == 'k' else self.step(q, s[2])
                out.setdefault(q, []).append((b, step))
            t = self.fn.blocks[b].t
            if t[0] == 'call':
                q = self.v.path(t[3]) if len(t[3]) > 1 else (('loc', t[3][0]),)
                if q is not None:
                    nm = mir.callee_name(t[1])
                    out.setdefault(q, []).append((b, self.saturating(q, t) if re.search(r'::(saturating|wrapping)_(add|sub)$', nm) else None))
        return out

    def step(self, q, rv):
        """change of q by an assignment q = q + constant"""
        return self.delta(q, self.v._rv(rv, 0))

    def saturating(self, q, t):
        op = 'Add' if t[1].get('path', '').endswith('_add') or mir.callee_name(t[1]).endswith('_add') else 'Sub'
        return self.delta(q, ('bin', op, self.v.expr(t[2][0]), self.v.expr(t[2][1])))

    def delta(self, q, e):
        if e[0] == 'call' and len(e) > 2 and len(e[2]) == 2 and re.search(r'_(add|sub)$', e[1]):
            e = ('bin', 'Add' if e[1].endswith('_add') else 'Sub', e[2][0], e[2][1])
        if e[0] != 'bin' or e[1] not in ('Add', 'Sub', 'AddUnchecked', 'SubUnchecked'):
            return None
        a, b = e[2], e[3]
        if e[1].startswith('Add') and a[0] == 'const':
            a, b = b, a
        if b[0] != 'const' or not isinstance(b[1], int) or isinstance(b[1], bool) or b[1] == 0:
            return None
        if self.same(a, q):
            return b[1] if e[1].startswith('Add') else -b[1]
        return None

    def same(self, e, q):
        while e[0] == 'cast':
            e = e[3]
        return e == ('load', q) or len(q) == 1 and (e == q[0] or e == ('arg', q[0][1]) and q[0][0] == 'arg')

    def place_of(self, e):
        while e[0] == 'cast':
            e = e[3]
        if e[0] == 'load':
            return e[1]
        if e[0] in ('loc', 'arg'):
            return (e,)
        # i + 1 compared in place of i
        if e[0] == 'bin' and e[1] in ('Add', 'Sub') and e[3][0] == 'const':
            return self.place_of(e[2])
        return None

    def tests(self, body):
        """(counter, direction of the exit or '?', block of the comparison, other operand) of comparisons deciding to leave the loop"""
        out = []
        # locals whose value decides about leaving the loop
        flags = set()
        for b in body:
            t = self.fn.blocks[b].t
            if t[0] == 'switch' and t[2] == 'bool' and t[1][0] in ('c', 'm') and any(x not in body for x in mir.isuccs(t)):
                flags.add(t[1][1])
                flags |= {s[2][1][1] for s in self.fn.blocks[b].s if s[0] == '=' and s[1] == t[1][1] and s[2][0] == 'use' and s[2][1][0] in ('c', 'm')}
                flags |= {s[2][2][1] for s in self.fn.blocks[b].s if s[0] == '=' and s[1] == t[1][1] and s[2][0] == 'un' and s[2][2][0] in ('c', 'm')}
        used = set()
        for b in body:
            t = self.fn.blocks[b].t
            if t[0] != 'switch' or t[2] != 'bool':
                continue
            e, neg = self.v.expr(t[1]), False
            while e[0] == 'un' and e[1] == 'Not':
                e, neg = e[2], not neg
            if e not in self.compared:
                continue
            used.add(e)
            false, true = next((x for val, x in t[3] if val == 0), None), t[4]
            if neg:
                false, true = true, false
            for a, c, o in ((e[2], e[3], e[1]), (e[3], e[2], SWAP.get(e[1], e[1]))):
                q = self.place_of(a)
                if q is None:
                    continue
                if true not in body:
                    out.append((q, o, b, c))
                elif false not in body:
                    out.append((q, COMPARE[o], b, c))
                elif self.decides(t, body, flags):
                    out.append((q, '?', b, c))
        for b in body:
            for s in self.fn.blocks[b].s:
                if s[0] == '=' and s[2][0] == 'bin' and s[2][1] in COMPARE and INT.match(str(s[2][4])):
                    e = self.v._rv(s[2], 0)
                    if e not in used:
                        for a, c in ((e[2], e[3]), (e[3], e[2])):
                            q = self.place_of(a)
                            if q is not None:
                                out.append((q, '?', b, c))
        return out

    def decides(self, t, body, flags):
        """a branch that sets one of the flags deciding about leaving the loop"""
        for x in mir.isuccs(t):
            if len(self.g.pred[x]) != 1:
                continue
            for b in body:
                if self.g.dominates(x, b) and any(s[0] == '=' and s[1] in flags and s[2][0] == 'use' and s[2][1][0] == 'k' for s in self.fn.blocks[b].s):
                    return True
        return False

    def touched(self, q, body):
        """the loop may change q by means other than plain assignments"""
        if q[0][0] == 'loc' and len(q) == 1:
            return q[0][1] in self.v.atm
        strip = tuple(e for e in effects_path(q))
        for b in body:
            t = self.fn.blocks[b].t
            if t[0] == 'call':
                for k, p, ln in self.fe.call(t):
                    if k == 'w' and p is not None and (p[:len(strip)] == strip or strip[:len(p)] == p):
                        return True
        return False

    def fixed(self, e, body, writes):
        """an expression the loop does not change"""
        if e[0] == 'const' or e[0] == 'k':
            return True
        if e[0] in ('loc', 'arg'):
            return (e,) not in writes and not (e[0] == 'loc' and any(d[0] in body for d in self.v.defs.get(e[1], []))) and e[1] not in self.v.atm
        if e[0] == 'load':
            return e[1] is not None and e[1] not in writes
        if e[0] in ('bin', 'cast', 'un', 'call'):
            subs = [x for x in e[1:] if isinstance(x, tuple)]
            flat = []
            for x in subs:
                flat += list(x) if x and isinstance(x[0], tuple) else [x]
            return all(self.fixed(x, body, writes) for x in flat if isinstance(x, tuple) and x and isinstance(x[0], str))
        return e[0] == 'ref'

    def counters(self, h, body):
        """'yes', or reasons why the counters of the loop do not bound it, and whether something remains open"""
        writes = self.writes(body)
        tests = self.tests(body)
        why, open_ = [], False
        by = {}
        for q, way, b, other in tests:
            by.setdefault(q, []).append((way, b, other))
        for q, ts in by.items():
            ws = writes.get(q, [])
            if self.touched(q, body):
                open_ |= any(way != '?' for way, b, other in ts)
                continue
            if not ws:
                continue
            name = mir.fmt_path(self.fn, q)
            known = [w for w in ws if w[1]]
            if len(known) != len(ws):
                if known:
                    why.append('%s is set back inside the loop' % name)
                elif any(w[1] is None for w in ws):
                    open_ = True
                continue
            signs = {w[1] > 0 for w in known}
            if len(signs) > 1:
                why.append('%s moves in both directions' % name)
                continue
            up = signs.pop()
            good, unclear = set(), False
            for way, b, other in ts:
                if way == '?':
                    unclear = True
                    continue
                if not self.fixed(other, body, writes):
                    unclear = True
                    continue
                if way in (('Gt', 'Ge') if up else ('Lt', 'Le')):
                    good.add(b)
                elif way == 'Eq' and len(known) == 1 and abs(known[0][1]) == 1:
                    good.add(b)
                elif way == 'Eq':
                    why.append('%s may jump over the value it is compared with' % name)
            steps = {w[0] for w in known}
            if good and not self.turns(h, body, good) and not self.turns(h, body, steps):
                return 'yes', why, open_
            if good and self.turns(h, body, steps):
                why.append('there is a way around the loop that leaves %s unchanged' % name)
            elif good and self.turns(h, body, good):
                why.append('there is a way around the loop that does not compare %s with its limit' % name)
            elif unclear:
                open_ = True
        return 'no', why, open_


def effects_path(q):
    out = [q[0]]
    for e in q[1:]:
        if e == '*' or isinstance(e, tuple) and e[0] == 'd':
            continue
        if isinstance(e, tuple) and e[0] == 'f':
            out.append(e[2] if len(e) > 2 and isinstance(e[2], str) and e[2] else e[1])
        else:
            out.append('[]')
    return out


def recursion(prog, eff, fn, rep):
    for b in mir.cfg(fn).rpo:
        t = fn.blocks[b].t
        if t[0] != 'call' or fn.blocks[b].c:
            continue
        cf = prog.callee_fn(t[1])
        if cf is None or cf.key != fn.key or not any(k == 'cb' for k, q in eff.summary(fn)):
            continue
        rep.count('recursive calls')
        v = mir.values(fn)
        moved = False
        for i, a in enumerate(t[2], 1):
            e = v.expr(a)
            while e[0] == 'cast':
                e = e[3]
            if e[0] == 'bin' and e[1] in ('Add', 'Sub') and ('arg', i) in e[2:] and e[3][0] == 'const' and isinstance(e[3][1], int):
                moved = True
        if moved:
            rep.ok('%s: recursion with a moving counter' % fn.path)
        else:
            rep.bad('%s: recursion without a counter' % fn.path, fn.where(t[5]), '%s calls itself and user functions without handing on a counter that limits the depth' % fn.path)


def check():
    rep = Report('P24', RULE)
    prog = mir.Program()
    eff = effects.Effects(prog)
    for k in sorted(prog.fns):
        fn = prog.fns[k]
        recursion(prog, eff, fn, rep)
        if not natural_loops(fn):
            continue
        rep.count('functions with loops')
        lo = Loops(prog, eff, fn)
        if not any(body & set(lo.user) for h, body in lo.loops):
            rep.count('loops without user functions', len(lo.loops))
            continue
        small = lambda cf, t, s: len(cf.blocks) < 40 and t[1].get('rk') != 'virtual' and (cf.kind == 'Closure' or cf.out == 'bool' or INT.match(cf.out or '') is not None or any(re.match(r"&('\w+ )?mut [iu]", x) for x in cf.ins or ()))
        inl = mir.inline(prog, fn, small, max_depth=3, max_blocks=4000)
        lo = Loops(prog, eff, inl)
        rep.count('functions running user functions in loops')
        for h, body in lo.loops:
            calls = sorted(body & set(lo.user))
            if not calls:
                rep.count('loops without user functions')
                continue
            rep.count('loops running user functions')
            src = inl.blocks[h]
            line = next((x[5] for x in [inl.blocks[b].t for b in calls] if x[0] == 'call'), None)
            at = inl.blocks[calls[0]].fn.where(line)
            its, endless = lo.iterators(h, body)
            if its and not lo.turns(h, body, its):
                rep.count('loops over finite iterators')
                rep.ok('%s: loop with the user function called at %s' % (fn.path, at))
                continue
            verdict, why, open_ = lo.counters(h, body)
            if verdict == 'yes':
                rep.count('loops limited by a counter')
                rep.ok('%s: counter of the loop with the user function called at %s' % (fn.path, at))
            elif open_:
                rep.count('loops undecided')
            else:
                if not why:
                    why = ['the iterator it runs over never ends'] if endless else ['nothing counts its passes']
                rep.bad('%s: loop without a limit' % fn.path, at, '%s can run the loop calling user functions at %s forever: %s' % (fn.path, at, '; '.join(sorted(set(why)))))
    rep.floor('functions running user functions in loops', 20)
    rep.floor('loops running user functions', 40)
    return rep

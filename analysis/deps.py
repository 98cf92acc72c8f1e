"""Forward dependence analysis over an (inlined) function.

Every access path holds a set of atoms naming the inputs its value comes from:
  ('in', path)   the value is (a copy of) the input at that path; a part of it is the part of the input
  ('dep', path)  the value is computed from the input at that path
Inputs are the parameters and the memory behind them. Writes through a unique pointer to a definite place replace,
others add. Values written under a condition also depend on the condition (control dependence); paths that end in an
error or do not return are left out.
"""
import re
import networkx
from . import mir

DEPTH = 8


def ext(p, r):
    return (p + r)[:DEPTH]


def computed(atoms):
    return frozenset(('dep', a[1]) for a in atoms)


def error_blocks(fn):
    """blocks after which the function can only report an error"""
    out = set()
    res = 'result::Result' in fn.locals[0][0].split('<')[0]
    if res:
        for i, b in enumerate(fn.blocks):
            if any(s[0] == '=' and s[1] == (0,) and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][3] == 1 for s in b.s):
                out.add(i)
            if b.t[0] == 'call' and b.t[3] == (0,) and mir.callee_name(b.t[1]).endswith('::from_residual'):
                out.add(i)
    return out


class Deps:
    def __init__(self, prog, fn, control=True):
        self.prog, self.fn = prog, fn
        self.cut = error_blocks(fn)
        self.succ = {}
        for i, b in enumerate(fn.blocks):
            self.succ[i] = [] if i in self.cut or b.c else list(mir.isuccs(b.t))
        self.exits = [i for i, b in enumerate(fn.blocks) if b.t[0] == 'return' and i not in self.cut]
        self.reach = self.alive()
        self.ctl = self.control() if control else {}
        self.cond = {}
        self.at = {}
        self.run()

    def alive(self):
        g = networkx.DiGraph()
        g.add_nodes_from(self.succ)
        g.add_edges_from((a, b) for a in self.succ for b in self.succ[a])
        fw = networkx.descendants(g, 0) | {0}
        bw = set(self.exits)
        r = g.reverse()
        for e in self.exits:
            bw |= networkx.descendants(r, e)
        self.g = g.subgraph(fw & bw)
        return fw & bw

    def control(self):
        """block -> branching blocks it is controlled by"""
        r = networkx.DiGraph()
        r.add_nodes_from(self.reach)
        r.add_edges_from((b, a) for a, b in self.g.edges)
        for e in self.exits:
            if e in self.reach:
                r.add_edge('exit', e)
        if 'exit' not in r:
            return {}
        ip = networkx.immediate_dominators(r, 'exit')
        out = {}
        for a in self.reach:
            ss = list(self.g.successors(a))
            if len(ss) < 2:
                continue
            for b in ss:
                x = b
                while x is not None and x != ip.get(a) and x != 'exit':
                    out.setdefault(x, set()).add(a)
                    nx = ip.get(x)
                    if nx == x:
                        break
                    x = nx
        return out

    # -- environment: path -> (atoms, targets or None) ------------------------------------------------
    def entry(self, env, q):
        """entry of the longest prefix that has one: (length, atoms, targets)"""
        for n in range(len(q), 0, -1):
            v = env.get(q[:n])
            if v is not None:
                return n, v
        return None

    def read(self, env, q, sub=True):
        out = set()
        e = self.entry(env, q)
        if e is None:
            if 0 < q[0] <= self.fn.argc:
                out.add(('in', q))
        else:
            n, (atoms, tg) = e
            r = q[n:]
            for k, p in atoms:
                out.add((k, ext(p, r)) if k == 'in' else (k, p))
        if sub:
            for p, v in env.items():
                if len(p) > len(q) and p[:len(q)] == q:
                    out |= v[0]
        return frozenset(out)

    def targets(self, env, q):
        """places a pointer stored at q may refer to"""
        e = self.entry(env, q)
        if e is not None:
            n, (atoms, tg) = e
            r = q[n:]
            if not r and tg:
                return tg
            return frozenset(ext(ext(p, r), ('*',)) for k, p in atoms if k == 'in')
        if 0 < q[0] <= self.fn.argc:
            return frozenset({ext(q, ('*',))})
        return frozenset()

    def places(self, env, p):
        cur = {(p[0],)}
        for e in p[1:]:
            if e == '*':
                nxt = set()
                for c in cur:
                    t = self.targets(env, c)
                    nxt |= t if t else {ext(c, ('*',))}
                cur = nxt
            elif isinstance(e, tuple) and e[0] in ('f', 'd'):
                cur = {ext(c, ((e[0], e[1]),)) for c in cur}
            else:
                cur = {ext(c, ('[]',)) for c in cur}
            if len(cur) > 40:
                cur = set(sorted(cur, key=str)[:40])
        return cur

    def operand(self, env, o):
        """(atoms, targets) of an operand"""
        if o[0] not in ('c', 'm'):
            return frozenset(), frozenset()
        a, t = set(), set()
        for q in self.places(env, o[1]):
            a |= self.read(env, q)
            t |= self.targets(env, q)
        return frozenset(a), frozenset(t)

    def deep(self, env, o):
        """atoms of an operand and of everything it refers to"""
        a, t = self.operand(env, o)
        out = set(computed(a))
        seen = set()
        work = list(t)
        while work:
            q = work.pop()
            if q in seen or len(seen) > 60:
                continue
            seen.add(q)
            out |= computed(self.read(env, q))
            for p in [p for p in env if p[:len(q)] == q]:
                tg = env[p][1]
                if tg:
                    work.extend(tg)
        return frozenset(out)

    def write(self, env, places, atoms, tg, parts=None):
        strong = len(places) == 1 and '[]' not in next(iter(places))
        for q in places:
            if strong:
                for p in [p for p in env if p[:len(q)] == q]:
                    del env[p]
                env[q] = (atoms, tg)
                for r, v in (parts or {}).items():
                    env[ext(q, r)] = v
            else:
                e = self.entry(env, q)
                old = self.read(env, q, sub=False)
                ot = e[1][1] if e and e[0] == len(q) else frozenset()
                env[q] = (old | atoms, (ot or frozenset()) | (tg or frozenset()))

    def parts(self, env, q):
        return {p[len(q):]: v for p, v in env.items() if len(p) > len(q) and p[:len(q)] == q}

    # -- transfer --------------------------------------------------------------------------------------
    def implicit(self, b):
        out = set()
        for a in self.ctl.get(b, ()):
            out |= self.cond.get(a, frozenset())
        return frozenset(out)

    def block(self, b, env):
        blk = self.fn.blocks[b]
        imp = self.implicit(b)
        for s in blk.s:
            if s[0] == 'dead':
                for p in [p for p in env if p[0] == s[1]]:
                    del env[p]
                continue
            if s[0] != '=':
                continue
            dst = self.places(env, s[1])
            r = s[2]
            k = r[0]
            if k == 'use':
                if r[1][0] in ('c', 'm'):
                    src = self.places(env, r[1][1])
                    if len(src) == 1:
                        q = next(iter(src))
                        a, t = self.read(env, q, sub=False), self.targets(env, q)
                        self.write(env, dst, a | imp, t, self.parts(env, q))
                    else:
                        a, t = self.operand(env, r[1])
                        self.write(env, dst, a | imp, t)
                else:
                    self.write(env, dst, imp, frozenset())
            elif k in ('ref', 'raw'):
                self.write(env, dst, imp, frozenset(self.places(env, r[2])))
            elif k == 'cast':
                a, t = self.operand(env, r[2])
                self.write(env, dst, a | imp, t)
            elif k == 'agg':
                base = ()
                if r[1][0] == 'adt':
                    adt = self.prog.adts.get(r[1][1])
                    if adt and adt['kind'] == 'Enum' or r[1][1] in ('core::result::Result', 'core::option::Option', 'core::ops::control_flow::ControlFlow'):
                        base = (('d', r[1][3]),)
                parts = {}
                for i, o in enumerate(r[2]):
                    if o[0] in ('c', 'm'):
                        src = self.places(env, o[1])
                        if len(src) == 1:
                            q = next(iter(src))
                            v = (self.read(env, q, sub=False) | imp, self.targets(env, q))
                            for rest, w in self.parts(env, q).items():
                                parts[base + (('f', i),) + rest] = w
                        else:
                            a, t = self.operand(env, o)
                            v = (a | imp, t)
                    else:
                        v = (imp, frozenset())
                    parts[base + (('f', i),)] = v
                self.write(env, dst, imp, frozenset(), parts)
            else:
                a, t = set(imp), set()
                for o in ops(r):
                    x, y = self.operand(env, o)
                    a |= computed(x)
                    t |= y
                if k in ('discr', 'len'):
                    for q in self.places(env, r[1]):
                        a |= computed(self.read(env, q, sub=False))
                self.write(env, dst, frozenset(a), frozenset(t))
        t = blk.t
        if t[0] == 'switch':
            a, _ = self.operand(env, t[1])
            self.cond[b] = self.cond.get(b, frozenset()) | computed(a) | imp
        if t[0] == 'call' and t[4] is not None:
            self.call(env, t, imp)

    def call(self, env, t, imp):
        nm = mir.callee_name(t[1])
        dst = self.places(env, t[3])
        if t[2] and re.search(r'Try>?::branch$|Result::<.*>::(unwrap|expect|map_err)$|Option::<.*>::(unwrap|expect|ok_or|ok_or_else|as_ref|as_mut)$|::clone$|convert::.*::(from|into)$|from_output$', nm) and t[2][0][0] in ('c', 'm'):
            a, tg = self.operand(env, t[2][0])
            if nm.endswith('::clone'):
                v = set()
                for q in tg:
                    v |= self.read(env, q)
                self.write(env, dst, frozenset(v) | imp, frozenset())
                return
            src = self.places(env, t[2][0][1])
            if len(src) == 1:
                q = next(iter(src))
                is_opt = 'Option' in nm
                inner = {r[2:]: w for r, w in self.parts(env, q).items() if r[0] == ('d', 1 if is_opt else 0) and len(r) > 1}
                if re.search(r'branch$', nm):
                    self.write(env, dst, a | imp, tg, {(('d', 0), ('f', 0)) + r: w for r, w in inner.items()})
                elif re.search(r'::(unwrap|expect)$', nm):
                    top = inner.pop((), None)
                    aa = self.read(env, q, sub=False)
                    self.write(env, dst, (top[0] if top else aa) | imp, top[1] if top else tg, inner)
                else:
                    self.write(env, dst, a | imp, tg, self.parts(env, q))
            else:
                self.write(env, dst, a | imp, tg)
            return
        atoms = set(imp)
        tg = set()
        for a in t[2]:
            atoms |= self.deep(env, a)
            tg |= self.operand(env, a)[1]
        if re.search(r'::(index|index_mut|get|get_mut|get_unchecked|get_unchecked_mut|iter|iter_mut|first_mut|last_mut|next)$', nm):
            tg = {q if q[-1] == '[]' else ext(q, ('[]',)) for q in tg}
        ty = self.fn.locals[t[3][0]][0] if len(t[3]) == 1 else ''
        for a in t[2]:
            if a[0] in ('c', 'm'):
                aty = self.fn.locals[a[1][0]][0] if len(a[1]) == 1 else ''
                if aty.startswith('&mut') or aty.startswith('*mut'):
                    for q in self.operand(env, a)[1]:
                        e = self.entry(env, q)
                        old = self.read(env, q, sub=False)
                        env[q] = (old | frozenset(atoms), e[1][1] if e and e[0] == len(q) else frozenset())
        self.write(env, dst, frozenset(atoms), frozenset(tg) if re.search(r'&|\*mut|\*const|Iter', ty) else frozenset())

    # -- fixpoint --------------------------------------------------------------------------------------
    def join(self, a, b):
        """merges b into a; True if a changed"""
        ch = False
        for p in set(a) | set(b):
            x, y = a.get(p), b.get(p)
            if x is None:
                x0 = (self.read(a, p, sub=False), self.targets(a, p) if self.entry(a, p) else frozenset())
            else:
                x0 = x
            if y is None:
                y0 = (self.read(b, p, sub=False), self.targets(b, p) if self.entry(b, p) else frozenset())
            else:
                y0 = y
            v = (x0[0] | y0[0], (x0[1] or frozenset()) | (y0[1] or frozenset()))
            if x is None or v != x:
                a[p] = v
                ch = True
        return ch

    def run(self):
        order = [b for b in networkx.dfs_postorder_nodes(self.g, 0)][::-1] if 0 in self.reach else []
        rank = {b: i for i, b in enumerate(order)}
        for rnd in range(4):
            before = dict(self.cond)
            self.at = {0: {}}
            work = {0}
            n = 0
            while work and n < 20000:
                n += 1
                b = min(work, key=lambda x: rank[x])
                work.discard(b)
                env = dict(self.at[b])
                self.block(b, env)
                for x in self.g.successors(b):
                    if x not in self.at:
                        self.at[x] = dict(env)
                        work.add(x)
                    elif self.join(self.at[x], env):
                        work.add(x)
            if self.cond == before:
                break

    def final(self):
        """environment at the successful returns"""
        out = None
        for e in self.exits:
            if e in self.at:
                env = dict(self.at[e])
                self.block(e, env)
                if out is None:
                    out = env
                else:
                    self.join(out, env)
        return out


def ops(r):
    k = r[0]
    if k == 'bin':
        return [r[2], r[3]]
    if k == 'un':
        return [r[2]]
    if k == 'repeat':
        return [r[1]]
    return []

"""Abstract interpretation of array code: which components a function writes and which old contents reach them.

Sizes, representations and indices are constants of the analysed case (constant propagation; loops whose bounds are
constants are followed index by index, other loops to a fixpoint). Numbers are not computed: a number is only the set of
argument names whose previous contents it may come from. Where a condition is not known both sides are followed and
joined at the next common block.
"""
import re
import networkx
from . import mir

CLEAN = ('t', frozenset())


class Undecided(Exception):
    pass


def data(s):
    return ('t', frozenset(s))


def taints(v):
    if v[0] == 't':
        return v[1]
    if v[0] == 'IT':
        return frozenset()
    return frozenset()


def shape(fn):
    """immediate post-dominators and the blocks from which the function returns"""
    g = networkx.DiGraph()
    for i, b in enumerate(fn.blocks):
        if b.c:
            continue
        for x in (b.t[1] if b.t[0] == 'choice' else mir.succs(b.t)):
            g.add_edge(i, x)
        if b.t[0] == 'return':
            g.add_edge(i, 'exit')
    g.add_node(0)
    if 'exit' not in g:
        raise Undecided('never returns')
    r = g.reverse()
    keep = networkx.descendants(r, 'exit') | {'exit'}
    return networkx.immediate_dominators(r.subgraph(keep), 'exit'), keep


class Machine:
    def __init__(self, prog, fn, limit=400000):
        self.prog, self.fn = prog, fn
        self.limit, self.steps = limit, 0
        self.syn = 0
        if 'cells' not in fn._cache:
            fn._cache['cells'] = shape(fn)
        self.ip, self.keep = fn._cache['cells']

    # -- store ----------------------------------------------------------------------------------------
    def sub(self, st, p):
        n = len(p)
        return {q[n:]: v for q, v in st.items() if q[:n] == p}

    def leaf(self, st, p):
        v = st.get(p)
        if v is not None:
            return v
        for n in range(len(p) - 1, 0, -1):
            v = st.get(p[:n])
            if v is not None and v[0] == 't':
                return v
        return None

    def load(self, st, p):
        """subtree at a path"""
        t = self.sub(st, p)
        if t:
            return t
        v = self.leaf(st, p)
        return {(): v} if v is not None else {}

    def wipe(self, st, p):
        n = len(p)
        if n == 1:
            l = p[0]
            for q in [q for q in st if q[0] == l]:
                del st[q]
        else:
            for q in [q for q in st if q[:n] == p]:
                del st[q]

    def put(self, st, p, tree):
        if p is None:
            return
        if '?' in p:
            # unknown element: joins with what is there
            i = p.index('?')
            t = frozenset().union(*[taints(v) for v in tree.values()]) if tree else frozenset()
            hit = False
            for q in [q for q in st if q[:i] == p[:i]]:
                if len(q) > i and isinstance(q[i], tuple) and q[i][0] == 'e':
                    r = p[i + 1:]
                    if q[i + 1:i + 1 + len(r)] == r or '?' in r:
                        # (an old content that is not part of the new one may or may not be replaced)
                        old = taints(st[q])
                        st[q] = data(old | t | ({'!idx'} if old - t else set()))
                        hit = True
            if not hit:
                b = p[:i]
                v = self.leaf(st, b)
                st[b] = data((taints(v) if v else frozenset()) | t)
            return
        for n in range(len(p) - 1, 0, -1):
            v = st.get(p[:n])
            if v is not None and v[0] == 't' and n < len(p):
                # part of something not known in detail
                st[p[:n]] = data(v[1])
                break
        self.wipe(st, p)
        for r, v in tree.items():
            st[p + r] = v

    def deep(self, st, tree, seen=None):
        """taints of a value and of everything it refers to"""
        seen = set() if seen is None else seen
        out = set()
        for v in tree.values():
            if v[0] == 't':
                out |= v[1]
            for p in pointed(v):
                if p not in seen:
                    seen.add(p)
                    out |= self.deep(st, self.load(st, p), seen)
        return out

    # -- places ---------------------------------------------------------------------------------------
    def place(self, st, p):
        cur = (p[0],)
        sl = None
        for e in p[1:]:
            if e == '*':
                v = self.leaf(st, cur)
                if v is None:
                    t = self.sub(st, cur)
                    if not t:
                        raise Undecided('pointer')
                    continue
                if v[0] == 'ref':
                    cur, sl = v[1], None
                elif v[0] == 'sl':
                    cur, sl = v[1], v
                elif v[0] == 't':
                    cur = cur + ('*',)
                    if cur not in st:
                        st[cur] = v
                else:
                    continue
            elif e[0] == 'f':
                cur = cur + (('f', e[1]),)
            elif e[0] == 'd':
                cur = cur + (('d', e[1]),)
            elif e[0] == 'i':
                k = self.leaf(st, (e[1],))
                off = sl[2] if sl else 0
                if k and k[0] == 'k' and isinstance(off, int):
                    cur = cur + (('e', k[1] + off),)
                else:
                    cur = cur + ('?',)
                sl = None
            elif e[0] in ('ci', 'k', 'c') and isinstance(e[1], int):
                cur = cur + (('e', e[1] + (sl[2] if sl else 0)),)
                sl = None
            else:
                raise Undecided('projection %s' % (e,))
        return cur, sl

    def get(self, st, p):
        if '?' in p:
            i = p.index('?')
            t = set()
            v = self.leaf(st, p[:i])
            if v:
                t |= taints(v)
            mixed = set()
            for q, w in st.items():
                if q[:i] == p[:i] and w[0] in ('t', 'k') and q[-1] not in ('len', '#'):
                    t |= taints(w)
                    mixed.add(taints(w) - {'!idx'})
            # (which of the different contents it is, is not known)
            return {(): data(t | ({'!idx'} if len(mixed) > 1 else set()))}
        return self.load(st, p)

    def operand(self, st, o):
        if o[0] in ('c', 'm'):
            p, sl = self.place(st, o[1])
            if sl:
                return {(): sl}
            return self.get(st, p)
        return self.const(st, o[1])

    def const(self, st, k):
        v = mir.decode(k.get('v'))
        ty = k.get('ty', '')
        t = self.tree(v, ty)
        if t is None:
            return {(): CLEAN}
        if ty.startswith('&') and not isinstance(v, str):
            self.syn += 1
            p = ('c%d' % self.syn,)
            for r, x in t.items():
                st[p + r] = x
            if ty.startswith('&[') and ';' not in ty and isinstance(v, list):
                return {(): ('sl', p, 0, len(v))}
            return {(): ('ref', p)}
        return t

    def tree(self, v, ty=''):
        ty = re.sub(r"^&('\w+ )?", '', ty)
        if v is None:
            return None
        if isinstance(v, tuple) and v[0] == 'adt':
            adt = self.prog.adts.get(v[1])
            out = {}
            if adt:
                for i, var in enumerate(adt['variants']):
                    if var['name'] == v[2]:
                        pre = () if adt['kind'] == 'Struct' else (('d', i),)
                        if adt['kind'] != 'Struct':
                            out[('#',)] = ('k', i)
                        for j, f in enumerate(var['fields']):
                            x = self.tree(v[3].get(f[0]))
                            for r, y in (x or {(): CLEAN}).items():
                                out[pre + (('f', j),) + r] = y
            return out or None
        if isinstance(v, list):
            out = {}
            inner = ty[1:ty.rfind(';')] if ty.startswith('[') and ';' in ty else ty[1:-1] if ty.startswith('[') else ''
            lab = 'f' if ty.startswith('(') else 'e'
            for i, x in enumerate(v):
                for r, y in (self.tree(x, inner) or {(): CLEAN}).items():
                    out[((lab, i),) + r] = y
            return out or {(): ('k', ())}
        return {(): ('k', v)}

    def scalar(self, st, o):
        t = self.operand(st, o)
        v = t.get(())
        if v is None:
            return data(self.deep(st, t)) if t else CLEAN
        return v

    # -- statements ------------------------------------------------------------------------------------
    def rvalue(self, st, r):
        k = r[0]
        if k == 'use':
            return self.operand(st, r[1])
        if k in ('ref', 'raw'):
            p, sl = self.place(st, r[2])
            return {(): sl if sl else ('ref', p)}
        if k == 'cast':
            t = self.operand(st, r[2])
            v = t.get(())
            if v and v[0] == 'k':
                if isinstance(v[1], (int, bool)) and re.fullmatch(r'[iu](8|16|32|64|size)', str(r[4] if len(r) > 4 else '')) or isinstance(v[1], (int, bool)) and not isinstance(v[1], float):
                    return {(): ('k', v[1])} if 'f64' not in str(r[3:]) else {(): CLEAN}
                return {(): CLEAN}
            if v and v[0] == 'ref':
                n = self.length(st, v[1])
                m = re.search(r'\[.*; (\d+)\]', str(r[3:]))
                if 'Unsize' in str(r[1]) and (m or n is not None):
                    return {(): ('sl', v[1], 0, int(m.group(1)) if m else n)}
            return t
        if k == 'bin':
            a, b = self.scalar(st, r[2]), self.scalar(st, r[3])
            op = r[1]
            ck = op.endswith('WithOverflow')
            op = op.replace('WithOverflow', '').replace('Unchecked', '')
            v = None
            if a[0] == 'k' and b[0] == 'k' and (isinstance(a[1], int) and isinstance(b[1], int) or op in ('Eq', 'Ne') and isinstance(a[1], float) and isinstance(b[1], float)):
                v = fold(op, a[1], b[1])
            elif op in ('Mul', 'BitAnd') and (a == ('k', 0) or b == ('k', 0)):
                v = 0
            res = ('k', v) if v is not None else data(taints(a) | taints(b))
            if ck:
                return {(('f', 0),): res, (('f', 1),): ('k', False) if v is not None and v >= 0 else (('k', True) if v is not None else ('k', False))}
            return {(): res}
        if k == 'un':
            a = self.scalar(st, r[2])
            if r[1] == 'Not' and a[0] == 'k':
                return {(): ('k', not a[1])}
            if r[1] == 'Neg' and a[0] == 'k' and isinstance(a[1], int):
                return {(): ('k', -a[1])}
            if r[1] == 'PtrMetadata':
                if a[0] == 'sl':
                    return {(): ('k', a[3]) if isinstance(a[3], int) else CLEAN}
                if a[0] == 'ref':
                    n = self.length(st, a[1])
                    return {(): ('k', n) if n is not None else CLEAN}
                return {(): CLEAN}
            return {(): data(taints(a))}
        if k == 'discr':
            p, sl = self.place(st, r[1])
            v = st.get(p + ('#',)) or self.leaf(st, p)
            if v and v[0] == 'k':
                return {(): v}
            return {(): data(taints(v)) if v else CLEAN}
        if k == 'len':
            p, sl = self.place(st, r[1])
            n = sl[3] if sl else self.length(st, p)
            return {(): ('k', n) if isinstance(n, int) else CLEAN}
        if k == 'agg':
            kind = r[1]
            pre, out = (), {}
            if kind[0] == 'adt':
                adt = self.prog.adts.get(kind[1])
                if adt and adt['kind'] == 'Enum' or kind[1] in ('core::result::Result', 'core::option::Option', 'core::ops::control_flow::ControlFlow'):
                    pre = (('d', kind[3]),)
                    out[('#',)] = ('k', kind[3])
            lab = 'e' if kind[0] == 'array' else 'f'
            for i, o in enumerate(r[2]):
                for q, v in self.operand(st, o).items():
                    out[pre + ((lab, i),) + q] = v
            if not out:
                out = {(): ('k', ())}
            return out
        if k == 'repeat':
            t = self.operand(st, r[1])
            m = re.search(r'\d+', str(r[2]))
            if not m or int(m.group(0)) > 200:
                return {(): data(self.deep(st, t))}
            return {(('e', i),) + q: v for i in range(int(m.group(0))) for q, v in t.items()} or {(): ('k', ())}
        return {(): CLEAN}

    def length(self, st, p):
        v = st.get(p + ('len',))
        if v is not None:
            return v[1] if v[0] == 'k' else None
        n = len(p)
        es = {q[n][1] for q in st if len(q) > n and q[:n] == p and isinstance(q[n], tuple) and q[n][0] == 'e'}
        return max(es) + 1 if es else None

    # -- execution -------------------------------------------------------------------------------------
    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = dict(a)
        for p in set(a) | set(b):
            x, y = a.get(p), b.get(p)
            if x == y:
                continue
            if x is None or y is None:
                l = p[0]
                if isinstance(l, str):
                    out[p] = x or y
                    continue
                x = x or self.leaf(a, p)
                y = y or self.leaf(b, p)
                if x is None or y is None:
                    # only one side has it: the part of a value that exists there only
                    out[p] = x or y
                    if out[p][0] == 'k' and p[-1] != 'len' and '#' not in p and not any(isinstance(e, tuple) and e[0] == 'd' for e in p[1:]):
                        out[p] = out[p]
                    continue
                if x == y:
                    out[p] = x
                    continue
            if x[0] in ('k', 't') and y[0] in ('k', 't'):
                out[p] = data(taints(x) | taints(y))
            elif x[0] == y[0] == 'IT':
                out[p] = ('IT', 'any', frozenset(pointed(x)) | frozenset(pointed(y)))
            else:
                out[p] = data(taints(x) | taints(y) | {'!ptr'})
        return out

    def key(self, st):
        """stores that differ in the outcome of a fallible step are not joined"""
        return frozenset((p, v[1]) for p, v in st.items() if len(p) == 2 and p[1] == '#' and v[0] == 'k' and not isinstance(p[0], str)
                         and self.fn.locals[p[0]][0].startswith(('core::result::Result', 'core::option::Option', 'core::ops::control_flow')))

    def add(self, res, b, st):
        d = res.setdefault(b, {})
        k = self.key(st)
        d[k] = self.join(d.get(k), st)

    def run(self, st):
        """stores at the returns, one per outcome"""
        return list(self.walk(0, st, ('exit',), 0, first=True).get('exit', {}).values())

    def walk(self, b, st, stop, depth, first=False):
        """follows the code to one of the stop blocks: block -> stores"""
        res = {}
        while True:
            if b in stop and not first:
                self.add(res, b, st)
                return res
            first = False
            if b not in self.keep:
                return res
            self.steps += 1
            if self.steps > self.limit:
                raise Undecided('budget')
            blk = self.fn.blocks[b]
            for s in blk.s:
                if s[0] == '=':
                    v = self.rvalue(st, s[2])
                    p, sl = self.place(st, s[1])
                    self.put(st, p, v)
                elif s[0] == 'setd':
                    p, sl = self.place(st, s[1])
                    st[p + ('#',)] = ('k', s[2])
                elif s[0] == 'dead':
                    self.wipe(st, (s[1],))
            t = blk.t
            k = t[0]
            if k == 'goto':
                b = t[1]
            elif k == 'return':
                self.add(res, 'exit', st)
                return res
            elif k == 'drop':
                b = t[2]
            elif k == 'assert':
                v = self.scalar(st, t[1])
                if v[0] == 'k' and bool(v[1]) != bool(t[2]):
                    return res
                b = t[5]
            elif k == 'call':
                if t[4] is None:
                    return res
                if not self.call(st, t):
                    return res
                b = t[4]
            elif k in ('switch', 'choice'):
                if k == 'switch':
                    v = self.scalar(st, t[1])
                    if v[0] == 'k':
                        x = int(v[1]) if isinstance(v[1], (int, bool)) else v[1]
                        b = dict(t[3]).get(x, t[4])
                        continue
                    ts = sorted({x for _, x in t[3]} | {t[4]})
                else:
                    ts = list(t[1])
                ts = [x for x in ts if x in self.keep and self.fn.blocks[x].t[0] != 'unreachable']
                if depth > 60:
                    raise Undecided('nesting')
                m = self.ip.get(b)
                cur = st
                for rnd in range(30):
                    tmp, back = {}, None
                    for x in ts:
                        for kk, vs in self.walk(x, dict(cur), set(stop) | {m, b}, depth + 1).items():
                            for vv in vs.values():
                                if kk == b and b not in stop:
                                    back = self.join(back, vv)
                                else:
                                    self.add(tmp, kk, vv)
                    if back is None:
                        break
                    nx = self.join(cur, back)
                    if nx == cur:
                        break
                    cur = nx
                else:
                    raise Undecided('no fixpoint')
                after = tmp.pop(m, {}) if m not in stop else {}
                for kk, vs in tmp.items():
                    for vv in vs.values():
                        self.add(res, kk, vv)
                if not after:
                    return res
                if len(after) == 1:
                    st, b = next(iter(after.values())), m
                    continue
                for vv in after.values():
                    for kk, vs in self.walk(m, vv, stop, depth + 1, first=True).items():
                        for ww in vs.values():
                            self.add(res, kk, ww)
                return res
            else:
                return res

    # -- calls -----------------------------------------------------------------------------------------
    def call(self, st, t):
        nm = mir.callee_name(t[1])
        last = nm.rsplit('::', 1)[-1]
        args = [self.operand(st, a) for a in t[2]]
        a0 = args[0].get(()) if args else None
        dst, _ = self.place(st, t[3])

        def ret(tree):
            self.put(st, dst, tree)
            return True
        if t[1].get('foreign'):
            return self.native(st, t, last, args, ret)
        if last in ('into_iter', 'by_ref') and args:
            if a0 and a0[0] in ('ref', 'sl') and last == 'into_iter' and 'Range' not in self.ty(t[2][0]):
                it = self.iterator(st, args[0])
                return ret({(): it} if it else args[0])
            return ret(args[0])
        if last in ('iter', 'iter_mut') and a0:
            it = self.iterator(st, args[0])
            if it:
                return ret({(): it})
        if last == 'zip' and len(args) == 2:
            x, y = self.iterator(st, args[0]), self.iterator(st, args[1])
            if x and y:
                return ret({(): ('IT', 'zip', x, y)})
        if last == 'enumerate':
            x = self.iterator(st, args[0])
            if x:
                return ret({(): ('IT', 'enum', x, 0)})
        if last == 'rev':
            x = self.iterator(st, args[0])
            if x:
                return ret({(): ('IT', 'rev', x)})
        if last in ('step_by', 'skip', 'take') and len(args) == 2:
            x, n = self.iterator(st, args[0]), args[1].get(())
            if x and n and n[0] == 'k':
                items = self.items(x)
                if items is not None:
                    items = items[::n[1]] if last == 'step_by' else items[n[1]:] if last == 'skip' else items[:n[1]]
                    return ret({(): ('IT', 'list', tuple(items))})
        if re.search(r'RangeInclusive<.*>::new$|RangeInclusive::<.*>::new$', nm):
            x, y = args[0].get(()), args[1].get(())
            if x and y and x[0] == 'k' and y[0] == 'k':
                return ret({(): ('IT', 'range', x[1], y[1] + 1)})
        if last == 'next' and a0 and a0[0] == 'ref':
            it = st.get(a0[1])
            whole = True
            if it is None or it[0] != 'IT':
                it = self.iterator(st, self.load(st, a0[1]))
                whole = False
            if it:
                if it[1] == 'any':
                    return ret({(): data({x for p in it[2] for x in self.deep(st, self.load(st, p))} | ({'!ptr'} if it[2] else set()))})
                item, nx = self.next(it)
                if item is None:
                    return ret({('#',): ('k', 0)})
                self.wipe(st, a0[1])
                st[a0[1]] = nx
                return ret({('#',): ('k', 1), **{(('d', 1), ('f', 0)) + r: v for r, v in item.items()}})
        if last in ('index', 'index_mut', 'get_unchecked', 'get_unchecked_mut') and a0 and a0[0] in ('ref', 'sl') and len(args) == 2:
            base, off, n = (a0[1], 0, self.length(st, a0[1])) if a0[0] == 'ref' else a0[1:]
            i = args[1].get(())
            if i is not None and i[0] == 'k' and isinstance(i[1], int):
                if isinstance(n, int) and i[1] >= n:
                    return False
                return ret({(): ('ref', base + (('e', i[1] + off),))})
            rg = self.bounds(st, args[1], nm + self.ty(t[2][1]), n)
            if rg:
                if isinstance(n, int) and (rg[1] > n or rg[0] > rg[1]):
                    return False
                return ret({(): ('sl', base, off + rg[0], rg[1] - rg[0])})
            if i is not None and i[0] == 't':
                return ret({(): ('ref', base + ('?',))})
        if last in ('deref', 'deref_mut', 'as_slice', 'as_mut_slice', 'as_ref', 'as_mut', 'borrow', 'borrow_mut', 'as_ptr', 'as_mut_ptr', 'as_deref', 'as_deref_mut') and a0 and a0[0] in ('ref', 'sl'):
            if 'option::Option' in nm:
                tag = st.get(a0[1] + ('#',))
                if tag and tag[0] == 'k':
                    return ret({('#',): tag, (('d', 1), ('f', 0)): ('ref', a0[1] + (('d', 1), ('f', 0)))})
                raise Undecided('optional')
            if a0[0] == 'ref':
                n = self.length(st, a0[1])
                if n is not None or st.get(a0[1] + ('len',)):
                    return ret({(): ('sl', a0[1], 0, n)})
            return ret(args[0])
        if last in ('len', 'is_empty') and a0:
            n = self.length(st, a0[1]) if a0[0] == 'ref' else a0[3] if a0[0] == 'sl' else None
            if isinstance(n, int):
                return ret({(): ('k', n if last == 'len' else n == 0)})
            return ret({(): CLEAN})
        if last in ('fill', 'fill_with') and a0 and a0[0] in ('ref', 'sl') and last == 'fill':
            base, off, n = (a0[1], 0, self.length(st, a0[1])) if a0[0] == 'ref' else a0[1:]
            if isinstance(n, int):
                for i in range(n):
                    self.put(st, base + (('e', i + off),), args[1])
                return ret({(): ('k', ())})
        if last in ('copy_from_slice', 'clone_from_slice') and a0 and a0[0] in ('ref', 'sl'):
            b0 = args[1].get(())
            A = (a0[1], 0, self.length(st, a0[1])) if a0[0] == 'ref' else a0[1:]
            if b0 and b0[0] in ('ref', 'sl'):
                B = (b0[1], 0, self.length(st, b0[1])) if b0[0] == 'ref' else b0[1:]
                if isinstance(A[2], int) and isinstance(B[2], int):
                    if A[2] != B[2]:
                        return False
                    for i in range(A[2]):
                        self.put(st, A[0] + (('e', A[1] + i),), self.get(st, B[0] + (('e', B[1] + i),)))
                    return ret({(): ('k', ())})
        if re.search(r'Complex(::<.*>|<.*>)?::new$', nm) and len(args) == 2:
            return ret({(('f', i),) + r: v for i in (0, 1) for r, v in args[i].items()})
        if last == 'map_err' and args and args[0].get(('#',)):
            return ret({r: v for r, v in args[0].items() if r[:1] != (('d', 1),)})
        if last == 'zero' and not args and 'Zero' in nm:
            return ret({(): ('k', 0.0)})
        if re.search(r'PartialEq.*::(eq|ne)$', nm) and len(args) == 2:
            x, y = self.behind(st, args[0]), self.behind(st, args[1])
            if x is not None and y is not None:
                return ret({(): ('k', (x == y) == (last == 'eq'))})
            return ret({(): data(self.deep(st, args[0]) | self.deep(st, args[1]))})
        if last == 'from_elem' and len(args) == 2:
            n = args[1].get(())
            if n and n[0] == 'k' and n[1] <= 400:
                out = {(('e', i),) + r: v for i in range(n[1]) for r, v in args[0].items()}
                out[('len',)] = n
                return ret(out)
        if last in ('clone', 'to_vec', 'to_owned', 'cloned', 'copied') and a0 and a0[0] == 'ref':
            tr = self.load(st, a0[1])
            if last == 'to_vec' and tr:
                tr = dict(tr)
                tr.setdefault(('len',), ('k', self.length(st, a0[1])))
            return ret(tr)
        if last == 'to_vec' and a0 and a0[0] == 'sl' and isinstance(a0[3], int):
            out = {('len',): ('k', a0[3])}
            for i in range(a0[3]):
                for r, v in self.get(st, a0[1] + (('e', a0[2] + i),)).items():
                    out[(('e', i),) + r] = v
            return ret(out)
        if last in ('unwrap', 'expect') and args:
            ok = 1 if 'option::Option' in nm else 0
            tag = args[0].get(('#',))
            if tag and tag[0] == 'k':
                if tag[1] != ok:
                    return False
                pre = (('d', ok), ('f', 0))
                return ret({r[2:]: v for r, v in args[0].items() if r[:2] == pre} or {(): CLEAN})
            pre = (('d', ok), ('f', 0))
            inner = {r[2:]: v for r, v in args[0].items() if r[:2] == pre}
            return ret(inner or {(): data(self.deep(st, args[0]))})
        if last == 'branch' and args:
            tag = args[0].get(('#',))
            isopt = 'Option' in self.ty(t[2][0])[:25]
            if tag and tag[0] == 'k':
                good = tag[1] == (1 if isopt else 0)
                src = (('d', tag[1]), ('f', 0))
                if good:
                    return ret({('#',): ('k', 0), **{(('d', 0), ('f', 0)) + r[2:]: v for r, v in args[0].items() if r[:2] == src}})
                return ret({('#',): ('k', 1), (('d', 1),): CLEAN})
            ok = (('d', 1 if isopt else 0), ('f', 0))
            inner = {(('d', 0), ('f', 0)) + r[2:]: v for r, v in args[0].items() if r[:2] == ok}
            return ret({('#',): CLEAN, **(inner or {(('d', 0), ('f', 0)): data(self.deep(st, args[0]))})})
        if last == 'from_residual':
            return ret({('#',): ('k', 0 if 'Option' in self.ty_place(t[3])[:25] else 1)})
        if last in ('try_from', 'try_into', 'from', 'into') and a0 and a0[0] == 'k' and isinstance(a0[1], int):
            ty = self.ty_place(t[3])
            if 'Result' in ty:
                return ret({('#',): ('k', 0), (('d', 0), ('f', 0)): a0})
            if re.fullmatch(r'[iu](8|16|32|64|size)', ty):
                return ret({(): a0})
        if last in ('max', 'min') and len(args) == 2 and a0 and a0[0] == 'k' and args[1].get((), CLEAN)[0] == 'k' and isinstance(a0[1], int) and isinstance(args[1][()][1], int):
            return ret({(): ('k', (max if last == 'max' else min)(a0[1], args[1][()][1]))})
        if last in ('swap',) and len(args) == 3 and a0 and a0[0] in ('ref', 'sl'):
            i, j = args[1].get(()), args[2].get(())
            off = a0[2] if a0[0] == 'sl' else 0
            if i and j and i[0] == 'k' and j[0] == 'k':
                p, q = a0[1] + (('e', i[1] + off),), a0[1] + (('e', j[1] + off),)
                x, y = self.get(st, p), self.get(st, q)
                self.put(st, p, y)
                self.put(st, q, x)
                return ret({(): ('k', ())})
        # anything else: the result comes from all arguments, what it may change gets mixed with them
        t_all = set()
        for x in args:
            t_all |= self.deep(st, x)
        for a, x in zip(t[2], args):
            v = x.get(())
            ty = self.ty(a)
            if v and v[0] in ('ref', 'sl') and ty.startswith(('&mut', '*mut')) or any(w[0] == 'IT' for w in x.values()):
                for p in {p for w in x.values() for p in pointed(w)}:
                    self.mix(st, p, t_all)
        if '&' in self.ty_place(t[3]) or '*' in self.ty_place(t[3])[:1]:
            t_all = t_all | {'!ptr'}
        return ret({(): data(t_all)})

    def mix(self, st, p, t):
        ps = [q for q in st if q[:len(p)] == p and q[-1] not in ('len', '#')]
        for q in ps:
            v = st[q]
            if v[0] in ('t',) or v[0] == 'k':
                st[q] = data(taints(v) | t | ({'!idx'} if set(t) - taints(v) else set()))
        if not ps:
            v = self.leaf(st, p)
            if v is not None and v[0] == 't':
                st[p] = data(v[1] | t)

    def ty(self, o):
        if o[0] in ('c', 'm') and len(o[1]) == 1:
            return self.fn.locals[o[1][0]][0]
        if o[0] == 'k':
            return o[1].get('ty', '')
        return ''

    def ty_place(self, p):
        return self.fn.locals[p[0]][0] if len(p) == 1 else ''

    def behind(self, st, tree):
        """comparable constant behind a reference"""
        v = tree.get(())
        n = 0
        while v is not None and v[0] == 'ref' and n < 5:
            tree = self.load(st, v[1])
            v = tree.get(())
            n += 1
        if v is not None:
            return ('v', v[1]) if v[0] == 'k' else None
        if ('#',) in tree and tree[('#',)][0] == 'k' and all(r == ('#',) for r in tree):
            return ('v', tree[('#',)][1])
        if tree and all(x[0] == 'k' and not isinstance(x[1], float) for x in tree.values()):
            return tuple(sorted((str(k), x[1]) for k, x in tree.items()))
        return None

    def bounds(self, st, tree, ty, n):
        def c(r):
            v = tree.get(r)
            return v[1] if v and v[0] == 'k' and isinstance(v[1], int) else None
        a, b = c((('f', 0),)), c((('f', 1),))
        if 'RangeFull' in ty:
            return (0, n) if n is not None else None
        if 'RangeFrom' in ty:
            return (a, n) if a is not None and n is not None else None
        if 'RangeTo<' in ty:
            return (0, a) if a is not None else None
        if 'Range<' in ty and a is not None and b is not None:
            return (a, b)
        v = tree.get(())
        if v and v[0] == 'IT' and v[1] == 'range':
            return v[2], v[3]
        return None

    # -- iterators -------------------------------------------------------------------------------------
    def iterator(self, st, tree):
        v = tree.get(())
        if v is not None:
            if v[0] == 'IT':
                return v
            if v[0] == 'sl' and isinstance(v[3], int):
                return ('IT', 'sl', v[1], v[2], v[3])
            if v[0] == 'ref':
                w = st.get(v[1])
                if w is not None and w[0] == 'IT':
                    return w
                n = self.length(st, v[1])
                if n is not None:
                    return ('IT', 'sl', v[1], 0, n)
            return None
        a, b = tree.get((('f', 0),)), tree.get((('f', 1),))
        if a and b and set(tree) == {(('f', 0),), (('f', 1),)}:
            if a[0] == 'k' and b[0] == 'k' and isinstance(a[1], int) and isinstance(b[1], int):
                return ('IT', 'range', a[1], b[1])
            return ('IT', 'any', frozenset())
        return None

    def items(self, it):
        out = []
        while len(out) < 2000:
            x, it = self.next(it)
            if x is None:
                return [tuple(sorted(i.items(), key=str)) for i in out]
            out.append(x)
        return None

    def next(self, it):
        k = it[1]
        if k == 'range':
            if it[2] >= it[3]:
                return None, it
            return {(): ('k', it[2])}, ('IT', 'range', it[2] + 1, it[3])
        if k == 'sl':
            if it[4] <= 0:
                return None, it
            return {(): ('ref', it[2] + (('e', it[3]),))}, ('IT', 'sl', it[2], it[3] + 1, it[4] - 1)
        if k == 'list':
            if not it[2]:
                return None, it
            return dict(it[2][0]), ('IT', 'list', it[2][1:])
        if k == 'zip':
            x, a = self.next(it[2])
            if x is None:
                return None, it
            y, b = self.next(it[3])
            if y is None:
                return None, it
            return {**{(('f', 0),) + r: v for r, v in x.items()}, **{(('f', 1),) + r: v for r, v in y.items()}}, ('IT', 'zip', a, b)
        if k == 'enum':
            x, a = self.next(it[2])
            if x is None:
                return None, it
            return {(('f', 0),): ('k', it[3]), **{(('f', 1),) + r: v for r, v in x.items()}}, ('IT', 'enum', a, it[3] + 1)
        if k == 'rev':
            xs = self.items(it[2])
            if xs is None:
                raise Undecided('iterator')
            return self.next(('IT', 'list', tuple(reversed(xs))))
        raise Undecided('iterator')

    # -- native calls ----------------------------------------------------------------------------------
    def native(self, st, t, nm, args, ret):
        dec = self.prog.foreign.get(t[1].get('key')) or {}
        tys = dec.get('ins') or [''] * len(args)
        writes = [i for i, x in enumerate(args) if x.get((), CLEAN)[0] in ('ref', 'sl') and (tys[i] if i < len(tys) else '').startswith('*mut')]
        base = re.sub(r'^(cblas_|LAPACKE_|c_)|_$', '', nm)
        if base in SCALED and SCALED[base] < len(args):
            # the previous contents are multiplied by a factor
            out = SCALED[base]
            ins = set()
            for i, x in enumerate(args):
                if i != out:
                    ins |= self.deep(st, x)
            if not self.zero(st, args[out - 1]) or 'rk' in base:
                ins |= self.deep(st, args[out])
            self.flood(st, args[out], ins)
            return ret({(): CLEAN})
        pure = OUTPUTS.get(base, ())
        ins = set()
        for i, x in enumerate(args):
            if i not in pure:
                ins |= self.deep(st, x)
        for i in writes:
            if i in pure:
                n = args[0].get((), CLEAN) if base in ('dcopy', 'zcopy') else CLEAN
                self.flood(st, args[i], ins, n[1] if n[0] == 'k' else None)
            else:
                for w in args[i].values():
                    for p in pointed(w):
                        self.mix(st, parent(p), ins)
        return ret({(): CLEAN})

    def zero(self, st, tree):
        """a factor that is the constant zero"""
        v = tree.get(())
        if v is not None and v[0] == 'ref':
            tree = self.load(st, v[1])
        return bool(tree) and all(x[0] == 'k' and x[1] == 0 for x in tree.values())

    def flood(self, st, tree, t, n=None):
        v = tree.get(())
        if v is None or v[0] not in ('ref', 'sl'):
            return
        p = parent(v[1])
        off = v[2] if v[0] == 'sl' else v[1][-1][1] if p != v[1] else 0
        for q in [q for q in st if q[:len(p)] == p and q[-1] not in ('len', '#')]:
            if st[q][0] in ('t', 'k'):
                if n is not None and len(q) > len(p) and isinstance(q[len(p)], tuple) and q[len(p)][0] == 'e' and not off <= q[len(p)][1] < off + n:
                    continue
                st[q] = data(t)


# routines that multiply the previous contents of a buffer by the factor before it: position of the buffer
SCALED = {'dgemm': 12, 'zgemm': 12, 'dgemv': 10, 'zgemv': 10, 'dsyrk': 9, 'zsyrk': 9, 'zherk': 9}
# buffers that native routines fill without reading, by position
OUTPUTS = {'dcopy': (3,), 'zcopy': (3,), 'zgeev': (5, 6, 8, 10, 12), 'zheev': (5, 6, 8), 'zggev': (7, 8, 9, 11, 13, 15), 'zgetrf': (4,), 'dgetrf': (4,), 'zgetri': (4,), 'dgetri': (4,),
           'zgesvd': (6, 7, 9, 11, 13), 'dgesvd': (6, 7, 9, 11), 'dgeev': (5, 6, 7, 9, 11), 'dsyev': (5, 6), 'dggev': (7, 8, 9, 10, 12, 14), 'dgesv': (4,), 'zgesv': (4,), 'dlange': (5,), 'zlange': (5,)}


def parent(p):
    return p[:-1] if p and isinstance(p[-1], tuple) and p[-1][0] == 'e' else p


def pointed(v):
    if v[0] == 'ref':
        return [v[1]]
    if v[0] == 'sl':
        return [v[1]]
    if v[0] == 'IT':
        out = []
        for x in v[2:]:
            if isinstance(x, tuple) and x and x[0] == 'IT':
                out += pointed(x)
            elif v[1] == 'sl':
                out.append(v[2])
                break
            elif v[1] == 'any':
                out += list(v[2])
            elif v[1] == 'list':
                for it in v[2]:
                    for _, w in it:
                        out += pointed(w)
        return out
    return []


def fold(op, a, b):
    if op == 'Add':
        return a + b
    if op == 'Sub':
        return a - b
    if op == 'Mul':
        return a * b
    if op == 'Div':
        return a // b if b else None
    if op == 'Rem':
        return a % b if b else None
    if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
        return {'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op]
    if op == 'BitAnd':
        return a & b
    if op == 'BitOr':
        return a | b
    if op == 'BitXor':
        return a ^ b
    return None

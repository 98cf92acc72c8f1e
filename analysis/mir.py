"""Model of the type-checked program (MIR) and the basic analyses shared by the rules."""
import json, os, re, struct
from collections import defaultdict
from . import facts

CALLS = ('core::ops::function::Fn::call', 'core::ops::function::FnMut::call_mut', 'core::ops::function::FnOnce::call_once')
FNTRAITS = ('core::ops::function::Fn', 'core::ops::function::FnMut', 'core::ops::function::FnOnce')


def f64_of(v):
    return struct.unpack('>d', bytes.fromhex(v['f64']))[0]


def const_value(k):
    """Python value of a constant operand: int, float, bool, str, list or None."""
    return decode(k.get('v'))


def decode(v):
    if isinstance(v, dict):
        if 'f64' in v:
            return f64_of(v)
        if 'str' in v:
            return v['str']
        if 'bits' in v:
            return int(v['bits'])
        if 'adt' in v:
            return ('adt', v['adt'], v['var'], {k: decode(x) for k, x in v['fields'].items()})
        return None
    if isinstance(v, list):
        return [decode(x) for x in v]
    return v


def T(x):
    """lists -> tuples, recursively (places must be hashable)"""
    return tuple(T(y) if isinstance(y, list) else y for y in x)


class Fn:
    __slots__ = ('key', 'path', 'kind', 'file', 'line', 'pub', 'reach', 'ins', 'out', 'anames', 'preds', 'impl_self',
                 'impl_trait', 'parent', 'gparams', 'locals', 'upvars', 'argc', 'blocks', 'crate', '_cache', 'unsafe', 'orig')

    def __init__(self, d=None, crate=None):
        self._cache = {}
        self.orig = None
        if d is None:
            return
        g = d.get
        self.crate = crate
        self.key, self.path, self.kind, self.file, self.line = d['key'], d['path'], d['kind'], d['file'], d['line']
        self.pub, self.reach = g('pub', False), g('reach', False)
        self.ins, self.out, self.anames = g('ins', []), g('out', ''), g('anames', [])
        self.preds, self.impl_self, self.impl_trait = g('preds', []), g('impl_self'), g('impl_trait')
        self.parent, self.gparams = g('parent'), g('gparams', [])
        self.unsafe = g('unsafe', False)
        self.locals = [tuple(x) for x in d['locals']]
        self.upvars = [(n, T(p)) for n, p in d['upvars']]
        self.argc = d['argc']
        self.blocks = [Block(b, self.file) for b in d['blocks']]

    def rel(self):
        return relfile(self.file)

    def where(self, ln=None):
        if isinstance(ln, (list, tuple)):
            return '%s:%d' % (relfile(ln[0]), ln[1])
        return '%s:%s' % (self.rel(), ln if ln is not None else self.line)

    def ty(self, l):
        return self.locals[l][0]

    def name(self, l):
        return self.locals[l][1]

    def __repr__(self):
        return 'Fn(%s)' % self.path


def relfile(f):
    f = f or '?'
    if f.startswith(facts.REPO + '/'):
        return f[len(facts.REPO) + 1:]
    return f


class Block:
    __slots__ = ('s', 't', 'c')

    def __init__(self, b, file):
        self.c = b['c']
        self.s = [stmt(x, file) for x in b['s']]
        self.t = term(b['t'], file)


def loc(l, file):
    return (l[0], l[1]) if isinstance(l, list) else (file, l)


def stmt(x, file):
    if x[0] == '=':
        return ('=', T(x[1]), rval(x[2]), loc(x[3], file))
    if x[0] == 'setd':
        return ('setd', T(x[1]), x[2])
    return tuple(x)


def oper(o):
    if 'c' in o:
        return ('c', T(o['c']))
    if 'm' in o:
        return ('m', T(o['m']))
    return ('k', o['k'])


def rval(r):
    k = r[0]
    if k == 'use':
        return ('use', oper(r[1]))
    if k == 'repeat':
        return ('repeat', oper(r[1]), r[2])
    if k == 'ref':
        return ('ref', r[1], T(r[2]))
    if k == 'raw':
        return ('raw', r[1], T(r[2]))
    if k == 'cast':
        return ('cast', r[1], oper(r[2]), r[3], r[4])
    if k == 'bin':
        return ('bin', r[1], oper(r[2]), oper(r[3]), r[4])
    if k == 'un':
        return ('un', r[1], oper(r[2]), r[3])
    if k == 'discr':
        return ('discr', T(r[1]), r[2])
    if k == 'agg':
        return ('agg', T(r[1]), tuple(oper(o) for o in r[2]))
    return tuple(r)


def term(t, file):
    k = t[0]
    if k == 'switch':
        bits = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64}.get(t[2])
        return ('switch', oper(t[1]), t[2], tuple((v - 2 ** bits if bits and v >= 2 ** (bits - 1) else v, b) for v, b in t[3]), t[4], loc(t[5], file))
    if k == 'call':
        return ('call', t[1], tuple(oper(a) for a in t[2]), T(t[3]), t[4], loc(t[5], file), t[6])
    if k == 'assert':
        return ('assert', oper(t[1]), t[2], t[3], tuple(oper(o) for o in t[4]), t[5], loc(t[6], file))
    if k == 'drop':
        return ('drop', T(t[1]), t[2], t[3])
    return tuple(t)


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[3]] + [t[4]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[5]]
    if k == 'drop':
        return [t[2]]
    return []


class Program:
    def __init__(self, variant=None):
        self.dir = facts.extract()
        self.variant = variant
        self.fns, self.consts, self.statics, self.foreign, self.adts, self.impls = {}, {}, {}, {}, {}, []
        self.by_path = defaultdict(list)
        self.closure_by_ty = {}
        for c in facts.CRATES:
            f = os.path.join(self.dir, c + '.json')
            for crate, tag, _ in facts.VARIANTS:
                if variant == tag and crate == c:
                    f = os.path.join(self.dir, '%s.%s.json' % (c, tag))
            d = json.load(open(f))
            for x in d['fns']:
                fn = Fn(x, c)
                self.fns[fn.key] = fn
                self.by_path[fn.path].append(fn)
                if fn.kind == 'Closure' and fn.argc >= 1:
                    t = fn.locals[1][0]
                    m = re.search(r'\{closure@[^}]*\}', t)
                    if m:
                        self.closure_by_ty[m.group(0)] = fn
            for x in d['consts']:
                self.consts[x['key']] = x
            for x in d['statics']:
                x['crate'] = c
                self.statics[x['key']] = x
            for x in d['foreign']:
                x['crate'] = c
                self.foreign[x['key']] = x
            for x in d['adts']:
                x['crate'] = c
                self.adts[x['path']] = x
            for x in d['impls']:
                x['crate'] = c
                self.impls.append(x)
        self.trait_impls = defaultdict(list)   # (trait path, method name) -> fns
        for fn in self.fns.values():
            if fn.impl_trait:
                self.trait_impls[(fn.impl_trait, fn.path.rsplit('::', 1)[-1])].append(fn)
        for k, fn in list(self.fns.items()):
            f = expand_combinators(self, fn)
            if f is not fn:
                self.fns[k] = f
                self.by_path[fn.path] = [f if x is fn else x for x in self.by_path[fn.path]]

    def find(self, suffix, crate=None):
        """functions whose path ends with `suffix` (whole segments)"""
        out = []
        for fn in self.fns.values():
            if crate and fn.crate != crate:
                continue
            if fn.path == suffix or fn.path.endswith('::' + suffix):
                out.append(fn)
        return out

    def one(self, suffix, crate=None):
        r = self.find(suffix, crate)
        if len(r) != 1:
            raise AnchorError('expected exactly one function %s, found %d' % (suffix, len(r)))
        return r[0]

    def implementations(self, c):
        """bodies a call through a trait object may run, the default one of the trait included"""
        out = list(self.trait_impls.get((c['trait'], c['path'].rsplit('::', 1)[-1]), []))
        if c.get('key') in self.fns:
            out.append(self.fns[c['key']])
        return out

    def callee_fn(self, c):
        """workspace function a callee descriptor resolves to, or None"""
        k = c.get('res') if c.get('rk') in ('item', 'closure_once') else None
        if k and k in self.fns:
            return self.fns[k]
        if c.get('trait') in FNTRAITS:
            m = re.search(r'\{closure@[^}]*\}', c.get('self', ''))
            if m and re.fullmatch(r"(&'?\w* ?|&mut |&)*\{closure@[^}]*\}", c.get('self', '')):
                return self.closure_by_ty.get(m.group(0))
        if 'rk' not in c and c.get('key') in self.fns and not c.get('trait'):
            return self.fns[c['key']]
        return None


class AnchorError(Exception):
    """an anchor of a rule is missing: the rule must not pass silently"""


def callee_name(c):
    """best printable path of a callee"""
    return c.get('rpath') or c.get('path') or '<indirect>'


def is_user_callback(c):
    """call through a caller-supplied function value (type parameter or dyn Fn)"""
    if c.get('trait') not in FNTRAITS:
        return False
    if c.get('rk') in ('item', 'closure_once'):
        return False
    s = re.sub(r"^(&('\w+ )?(mut )?)+", '', c.get('self', ''))
    if '{closure@' in s and not s.startswith('dyn'):
        return False
    return s.startswith('dyn ') or s.startswith('(dyn ') or s.startswith('impl ') or re.fullmatch(r'[A-Z]\w*', s) is not None


# ---------------------------------------------------------------------------------------------------
# inlining

def subst_ty(s, m):
    if not m or not s:
        return s
    return m['re'].sub(lambda x: m['map'][x.group(0)], s)


def mk_subst(callee, c):
    args = c.get('rargs') or c.get('args') or []
    if not callee.gparams or len(args) != len(callee.gparams):
        return None
    mp = {}
    for p, a in zip(callee.gparams, args):
        if p.startswith("'"):
            continue
        if p != a and re.fullmatch(r'\w+', p):
            mp[p] = a
    if not mp:
        return None
    return {'map': mp, 're': re.compile(r'(?<![\w:])(' + '|'.join(sorted(map(re.escape, mp), key=len, reverse=True)) + r')(?![\w:])')}


def subst_callee(prog, c, m):
    if not m:
        return c
    d = dict(c)
    changed = False
    for k in ('self',):
        if k in d:
            n = subst_ty(d[k], m)
            if n != d[k]:
                d[k] = n
                changed = True
    for k in ('args', 'rargs'):
        if k in d:
            n = [subst_ty(x, m) for x in d[k]]
            if n != d[k]:
                d[k] = n
                changed = True
    if changed and 'res' not in d and d.get('trait') and d.get('self'):
        # try to resolve a trait method on the now concrete self type
        meth = d['path'].rsplit('::', 1)[-1]
        for f in prog.trait_impls.get((d['trait'], meth), []):
            if f.impl_self and norm_ty(f.impl_self) == norm_ty(d['self']):
                d['res'], d['rk'], d['rpath'] = f.key, 'item', f.path
                break
    return d


def norm_ty(s):
    return re.sub(r"'\w+ ?", '', s or '').replace(' ', '')


def rename_place(p, off):
    out = [p[0] + off]
    for e in p[1:]:
        if isinstance(e, tuple) and e[0] == 'i':
            out.append(('i', e[1] + off))
        else:
            out.append(e)
    return tuple(out)


def rename_op(o, off, prog=None, m=None):
    if o[0] in ('c', 'm'):
        return (o[0], rename_place(o[1], off))
    return o


def rename_rv(r, off):
    k = r[0]
    if k == 'use':
        return ('use', rename_op(r[1], off))
    if k == 'repeat':
        return ('repeat', rename_op(r[1], off), r[2])
    if k in ('ref', 'raw'):
        return (k, r[1], rename_place(r[2], off))
    if k == 'cast':
        return ('cast', r[1], rename_op(r[2], off), r[3], r[4])
    if k == 'bin':
        return ('bin', r[1], rename_op(r[2], off), rename_op(r[3], off), r[4])
    if k == 'un':
        return ('un', r[1], rename_op(r[2], off), r[3])
    if k == 'discr':
        return ('discr', rename_place(r[1], off), r[2])
    if k == 'agg':
        return ('agg', r[1], tuple(rename_op(o, off) for o in r[2]))
    return r


class IBlock:
    __slots__ = ('s', 't', 'c', 'fn', 'stack')

    def __init__(self, s, t, c, fn, stack):
        self.s, self.t, self.c, self.fn, self.stack = s, t, c, fn, stack


def inline(prog, fn, want, max_depth=8, max_blocks=60000):
    """Returns a copy of `fn` with the calls selected by want(callee, call, stack) expanded.

    Calls through a trait object are expanded into a choice between all implementations in the
    workspace when `want` accepts them. Unwind paths are dropped.
    """
    out = Fn()
    for a in ('key', 'path', 'kind', 'file', 'line', 'pub', 'reach', 'ins', 'out', 'anames', 'preds', 'impl_self', 'impl_trait',
              'parent', 'gparams', 'upvars', 'argc', 'crate', 'unsafe'):
        setattr(out, a, getattr(fn, a))
    out.orig = fn
    out.locals = list(fn.locals)
    out.blocks = []
    B = out.blocks

    def add(f, off, stack, m, base):
        """appends the blocks of f (renamed) and returns list of return blocks"""
        rets = []
        work = []
        for b in f.blocks:
            s = []
            if not b.c:
                for st in b.s:
                    if st[0] == '=':
                        s.append(('=', rename_place(st[1], off), rename_rv(st[2], off), st[3]))
                    elif st[0] == 'setd':
                        s.append(('setd', rename_place(st[1], off), st[2]))
                    elif st[0] == 'dead':
                        s.append(('dead', st[1] + off))
            t = b.t
            k = t[0]
            if b.c:
                t = ('unreachable',)
            elif k == 'goto':
                t = ('goto', t[1] + base)
            elif k == 'switch':
                t = ('switch', rename_op(t[1], off), t[2], tuple((v, x + base) for v, x in t[3]), t[4] + base, t[5])
            elif k == 'call':
                c = subst_callee(prog, t[1], m)
                if 'op' in c:
                    c = dict(c)
                    c['_op'] = rename_op(oper(c['op']), off) if isinstance(c['op'], dict) else c['op']
                t = ('call', c, tuple(rename_op(o, off) for o in t[2]), rename_place(t[3], off), None if t[4] is None else t[4] + base, t[5], None)
                work.append(len(B))
            elif k == 'assert':
                t = ('assert', rename_op(t[1], off), t[2], t[3], tuple(rename_op(o, off) for o in t[4]), t[5] + base, t[6])
            elif k == 'drop':
                t = ('drop', rename_place(t[1], off), t[2] + base, t[3])
            elif k == 'return':
                rets.append(len(B))
            B.append(IBlock(s, t, b.c, f, stack))
        return rets, work

    rets, work = add(fn, 0, (), None, 0)
    todo = list(work)
    while todo:
        bi = todo.pop()
        if len(B) > max_blocks:
            break
        blk = B[bi]
        t = blk.t
        c = t[1]
        stack = blk.stack
        if len(stack) >= max_depth:
            continue
        cands = []
        cf = prog.callee_fn(c)
        if cf is not None:
            cands = [cf]
        elif c.get('trait') and (c.get('rk') == 'virtual' or 'dyn ' in c.get('self', '')):
            cands = prog.implementations(c)
        cands = [f for f in cands if want(f, t, stack) and f.key not in [x[0] for x in stack] and f.key != fn.key]
        if not cands:
            continue
        entries = []
        for cf in cands:
            off = len(out.locals)
            m = mk_subst(cf, c) if cf.kind != 'Closure' else None
            out.locals.extend((subst_ty(ty, m), nm) for ty, nm in cf.locals)
            base = len(B) + 1
            B.append(IBlock([], ('goto', base), 0, cf, stack + ((cf.key, t[5]),)))
            entry = base - 1
            r2, w2 = add(cf, off, stack + ((cf.key, t[5]),), m, base)
            # parameters
            s = B[entry].s
            args = t[2]
            if cf.kind == 'Closure':
                s.append(('=', (off + 1,), ('use', args[0]), t[5]))
                if len(args) == 2 and cf.argc >= 1:
                    # arguments of a call through Fn* are packed in a tuple
                    tup = args[1]
                    for i in range(cf.argc - 1):
                        if tup[0] in ('c', 'm'):
                            s.append(('=', (off + 2 + i,), ('use', ('c', tup[1] + (('f', i, ''),))), t[5]))
                # FnOnce shim: closure passed by value, body may take a reference
                if args[0][0] in ('c', 'm') and out.locals[off + 1][0].startswith('&') and c.get('path') == CALLS[2]:
                    s[0] = ('=', (off + 1,), ('ref', 'mut', args[0][1]), t[5])
            else:
                for i in range(cf.argc):
                    if i < len(args):
                        s.append(('=', (off + 1 + i,), ('use', args[i]), t[5]))
            for rb in r2:
                B[rb].s.append(('=', t[3], ('use', ('m', (off,))), t[5]))
                B[rb].t = ('goto', t[4]) if t[4] is not None else ('unreachable',)
            todo.extend(w2)
            entries.append(entry)
        if len(entries) == 1:
            blk.t = ('goto', entries[0])
        else:
            blk.t = ('choice', tuple(entries), t)
    out._cache = {}
    return out


COMBINATORS = ('core::iter::traits::iterator::Iterator::for_each', 'core::iter::traits::iterator::Iterator::try_for_each',
               'core::result::Result::<T, E>::and_then', 'core::result::Result::<T, E>::or_else')


def expand_combinators(prog, fn):
    """Writes the adaptors that take a closure as the loops and branches they stand for."""
    marks = set()
    for bi in range(len(fn.blocks)):
        b = fn.blocks[bi]
        t = b.t
        if b.c or t[0] != 'call' or t[1].get('path') not in COMBINATORS or t[4] is None or len(t[2]) != 2:
            continue
        name = t[1]['path'].rsplit('::', 1)[-1]
        if any(a[0] not in ('c', 'm') or len(a[1]) != 1 for a in t[2]):
            continue
        cty = fn.locals[t[2][1][1][0]][0]
        cf = prog.closure_by_ty.get(cty)
        if cf is None or cf.argc != 2:
            continue
        ln, src, clo, dest, target = t[5], t[2][0][1], t[2][1][1], t[3], t[4]
        item = cf.locals[2][0]

        def local(ty):
            fn.locals.append((ty, ''))
            return (len(fn.locals) - 1,)

        def block(s, term):
            x = Block.__new__(Block)
            x.s, x.t, x.c = s, term, 0
            fn.blocks.append(x)
            return len(fn.blocks) - 1

        def apply(arg, out, nxt, pre):
            """calls the closure with arg"""
            tup, r = local('(%s,)' % item), local('&mut ' + cty)
            c = {'key': CALLS[1], 'path': CALLS[1], 'args': [cty, '(%s,)' % item], 'trait': FNTRAITS[1], 'self': cty, 'rk': 'item', 'res': cf.key, 'rpath': CALLS[1], 'rargs': []}
            s = pre + [('=', tup, ('agg', ('tuple',), (('m', arg),)), ln), ('=', r, ('ref', 'mut', clo), ln)]
            k = block(s, ('call', c, (('m', r), ('m', tup)), out, nxt, ln, None))
            marks.add(cf.key)
            return k

        if name in ('for_each', 'try_for_each'):
            ity = fn.locals[src[0]][0]
            if name == 'try_for_each':
                if not ity.startswith('&mut '):
                    continue
                it = src
            else:
                it = src
            opt, d, x, r = local('core::option::Option<%s>' % item), local('isize'), local(item), local('&mut ' + ity)
            real = ity[5:] if name == 'try_for_each' else ity
            c = {'key': 'core::iter::traits::iterator::Iterator::next', 'path': 'core::iter::traits::iterator::Iterator::next', 'args': [real],
                 'trait': 'core::iter::traits::iterator::Iterator', 'self': real, 'rk': 'item', 'res': 'core::iter::next',
                 'rpath': '<%s as core::iter::traits::iterator::Iterator>::next' % real, 'rargs': [real]}
            head = len(fn.blocks)
            test = head + 1
            block([('=', r, ('ref', 'mut', it + (('*',) if name == 'try_for_each' else ())), ln)], ('call', c, (('m', r),), opt, test, ln, None))
            block(None, None)
            if name == 'for_each':
                unit = local('()')
                body = apply(x, unit, head, [('=', x, ('use', ('m', opt + (('d', 1, 'Some'), ('f', 0, '0')))), ln)])
                end = block([('=', dest, ('agg', ('tuple',), ()), ln)], ('goto', target))
            else:
                oty = cf.locals[0][0]
                res, d2, u = local(oty), local('isize'), local('()')
                after = len(fn.blocks) + 1
                body = apply(x, res, after, [('=', x, ('use', ('m', opt + (('d', 1, 'Some'), ('f', 0, '0')))), ln)])
                stop = after + 1
                block([('=', d2, ('discr', res, oty), ln)], ('switch', ('m', d2), 'isize', ((0, head),), stop, ln))
                block([('=', dest, ('use', ('m', res)), ln)], ('goto', target))
                end = block([('=', u, ('agg', ('tuple',), ()), ln), ('=', dest, ('agg', ('adt', 'core::result::Result', 'Ok', 0, ('0',)), (('m', u),)), ln)], ('goto', target))
            fn.blocks[test].s = [('=', d, ('discr', opt, 'core::option::Option<%s>' % item), ln)]
            fn.blocks[test].t = ('switch', ('m', d), 'isize', ((0, end), (1, body)), end, ln)
            b.t = ('goto', head)
        else:
            rty = fn.locals[src[0]][0]
            d, x, y = local('isize'), local(item), local('')
            take, pass_ = (('d', 0, 'Ok'), ('d', 1, 'Err')) if name == 'and_then' else (('d', 1, 'Err'), ('d', 0, 'Ok'))
            m = re.match(r'core::result::Result<(.*), ([^,<]*|[^,<]*<.*>)>$', rty)
            fn.locals[y[0]] = (m.group(2 if name == 'and_then' else 1) if m else '?', '')
            k1 = apply(x, dest, target, [('=', x, ('use', ('m', src + (take, ('f', 0, '0')))), ln)])
            k2 = block([('=', y, ('use', ('m', src + (pass_, ('f', 0, '0')))), ln),
                        ('=', dest, ('agg', ('adt', 'core::result::Result', pass_[2], pass_[1], ('0',)), (('m', y),)), ln)], ('goto', target))
            b.s = list(b.s) + [('=', d, ('discr', src, rty), ln)]
            b.t = ('switch', ('m', d), 'isize', ((take[1], k1),), k2, ln)
    if not marks:
        return fn
    f = inline(prog, fn, lambda cf, t, stack: cf.key in marks, max_depth=2)
    f.orig = None
    return f


def expand_counts(prog, fn):
    """Writes `map(closure).count()`, with the count unused, as `for_each(closure)`."""
    base = 'core::iter::traits::iterator::Iterator::'
    maps, uses = {}, defaultdict(int)
    for b in fn.blocks:
        if not b.c and b.t[0] == 'call' and b.t[1].get('path') == base + 'map' and len(b.t[3]) == 1 and b.t[4] is not None and all(a[0] in ('c', 'm') and len(a[1]) == 1 for a in b.t[2]):
            maps.setdefault(b.t[3][0], []).append(b)
    hit = False
    for b in fn.blocks:
        t = b.t
        if b.c or t[0] != 'call' or t[1].get('path') != base + 'count' or not t[2] or t[2][0][0] not in ('c', 'm'):
            continue
        ms = maps.get(t[2][0][1][0], [])
        if len(t[2][0][1]) != 1 or len(ms) != 1:
            continue
        m = ms[0].t
        clo = m[2][1][1][0]
        cf = prog.closure_by_ty.get(fn.locals[clo][0])
        if cf is None or cf.argc != 2 or cf.locals[0][0] != '()':
            continue
        fn.locals.append((fn.locals[m[2][0][1][0]][0], ''))
        fn.locals.append((fn.locals[clo][0], ''))
        a, c = len(fn.locals) - 2, len(fn.locals) - 1
        ms[0].s = list(ms[0].s) + [('=', (a,), ('use', m[2][0]), m[5]), ('=', (c,), ('use', m[2][1]), m[5])]
        ms[0].t = ('goto', m[4])
        callee = {**t[1], 'path': base + 'for_each'}
        b.t = ('call', callee, (('m', (a,)), ('m', (c,))), t[3], t[4], t[5], t[6] if len(t) > 6 else None)
        hit = True
    return expand_combinators(prog, fn) if hit else fn


def expand_filters(prog, fn):
    """Writes `filter(closure)` and `map(closure)`, consumed by a loop, `count` or an integer `sum`, as the branches they stand for."""
    base = 'core::iter::traits::iterator::Iterator::'
    adaptor = re.compile(r'core::iter::adapters::(filter::Filter|map::Map)<')
    defs = defaultdict(list)
    for bi, b in enumerate(fn.blocks):
        if b.c:
            continue
        for s in b.s:
            if s[0] == '=':
                defs[s[1][0]].append((bi, s[2] if len(s[1]) == 1 else None))
        if b.t[0] == 'call':
            defs[b.t[3][0]].append((bi, ('call', b.t) if len(b.t[3]) == 1 else None))

    def local(ty):
        fn.locals.append((ty, ''))
        return (len(fn.locals) - 1,)

    def block(s, term):
        x = Block.__new__(Block)
        x.s, x.t, x.c = s, term, 0
        fn.blocks.append(x)
        return len(fn.blocks) - 1

    def origin(l, depth=0):
        """block of the adaptor call that made the iterator in a local"""
        ds = defs.get(l, [])
        if len(ds) != 1 or ds[0][1] is None or depth > 6:
            return None
        bi, d = ds[0]
        if d[0] == 'use' and d[1][0] in ('c', 'm') and len(d[1][1]) == 1:
            return origin(d[1][1][0], depth + 1)
        if d[0] == 'call':
            t = d[1]
            if t[1].get('path', '').endswith('::into_iter') and t[2][0][0] in ('c', 'm') and len(t[2][0][1]) == 1:
                return origin(t[2][0][1][0], depth + 1)
            if t[1].get('path') in (base + 'filter', base + 'map') and all(a[0] in ('c', 'm') and len(a[1]) == 1 for a in t[2]):
                return bi
        return None

    def nextcall(real):
        n = base + 'next'
        return {'key': n, 'path': n, 'args': [real], 'trait': base[:-2], 'self': real, 'rk': 'item', 'res': 'core::iter::next', 'rpath': '<%s as %s>::next' % (real, base[:-2]), 'rargs': [real]}

    parts = {}

    def split(bi):
        """locals holding the inner iterator and the closure of an adaptor"""
        if bi not in parts:
            t = fn.blocks[bi].t
            a, c = t[2][0][1][0], t[2][1][1][0]
            cf = prog.closure_by_ty.get(fn.locals[c][0])
            if cf is None or cf.argc != 2:
                parts[bi] = None
            else:
                na, nc = local(fn.locals[a][0]), local(fn.locals[c][0])
                fn.blocks[bi].s = list(fn.blocks[bi].s) + [('=', na, ('use', t[2][0]), t[5]), ('=', nc, ('use', t[2][1]), t[5])]
                fn.blocks[bi].t = ('goto', t[4])
                defs[na[0]] = [(bi, ('use', t[2][0]))]
                parts[bi] = (na, nc, cf, t[1]['path'].rsplit('::', 1)[-1])
        return parts[bi]

    hit, work = False, list(range(len(fn.blocks)))
    while work:
        bi = work.pop()
        b = fn.blocks[bi]
        t = b.t
        if b.c or t is None or t[0] != 'call' or t[4] is None or not t[2] or t[2][0][0] not in ('c', 'm') or len(t[2][0][1]) != 1:
            continue
        path, l, ln = t[1].get('path'), t[2][0][1][0], t[5]
        if path in (base + 'count', base + 'sum') and adaptor.match(fn.locals[l][0]):
            ob = origin(l)
            dty = fn.locals[t[3][0]][0] if len(t[3]) == 1 else ''
            if ob is None or not re.fullmatch(r'[iu](8|16|32|64|size)', dty):
                continue
            a = fn.blocks[ob].t
            cf = prog.closure_by_ty.get(fn.locals[a[2][1][1][0]][0])
            if cf is None or cf.argc != 2 or (path.endswith('sum') and cf.locals[0][0] != dty):
                continue
            ity = cf.locals[0][0] if a[1]['path'].endswith('map') else re.sub(r"^&('\w+ )?", '', cf.locals[2][0])
            opt, d, r, n = local('core::option::Option<%s>' % ity), local('isize'), local('&mut ' + fn.locals[l][0]), local(dty)
            head = len(fn.blocks)
            block([('=', r, ('ref', 'mut', (l,)), ln)], ('call', nextcall(fn.locals[l][0]), (('m', r),), opt, head + 1, ln, None))
            block([('=', d, ('discr', opt, 'core::option::Option<%s>' % ity), ln)], ('switch', ('m', d), 'isize', ((0, head + 3), (1, head + 2)), head + 3, ln))
            one = ('k', {'ty': dty, 'v': 1}) if path.endswith('count') else ('m', opt + (('d', 1, 'Some'), ('f', 0, '0')))
            block([('=', n, ('bin', 'Add', ('c', n), one, dty), ln)], ('goto', head))
            block([('=', t[3], ('use', ('c', n)), ln)], ('goto', t[4]))
            b.s = list(b.s) + [('=', n, ('use', ('k', {'ty': dty, 'v': 0})), ln)]
            b.t = ('goto', head)
            defs[r[0]] = [(head, ('ref', 'mut', (l,)))]
            work.append(head)
            hit = True
        elif path == base + 'next':
            ds = defs.get(l, [])
            while len(ds) == 1 and ds[0][1] and ds[0][1][0] == 'ref' and len(ds[0][1][2]) == 2 and ds[0][1][2][1] == '*':
                ds = defs.get(ds[0][1][2][0], [])
            if len(ds) != 1 or ds[0][1] is None or ds[0][1][0] != 'ref' or len(ds[0][1][2]) != 1:
                continue
            it = ds[0][1][2][0]
            if not adaptor.match(fn.locals[it][0]):
                continue
            ob = origin(it)
            p = split(ob) if ob is not None else None
            if p is None:
                continue
            src, clo, cf, kind = p
            sty, cty, out = fn.locals[src[0]][0], fn.locals[clo[0]][0], cf.locals[0][0]
            item = cf.locals[2][0] if kind == 'map' else re.sub(r"^&('\w+ )?", '', cf.locals[2][0])
            oty = 'core::option::Option<%s>' % item
            r, opt, d, x, rc, tup = local('&mut ' + sty), local(oty), local('isize'), local(item), local('&mut ' + cty), local('(%s,)' % cf.locals[2][0])
            call = {'key': CALLS[1], 'path': CALLS[1], 'args': [cty, '(%s,)' % cf.locals[2][0]], 'trait': FNTRAITS[1], 'self': cty, 'rk': 'item', 'res': cf.key, 'rpath': CALLS[1], 'rargs': []}
            head = len(fn.blocks)
            block([('=', r, ('ref', 'mut', src), ln)], ('call', nextcall(sty), (('m', r),), opt, head + 1, ln, None))
            block([('=', d, ('discr', opt, oty), ln)], ('switch', ('m', d), 'isize', ((0, head + 3), (1, head + 2)), head + 3, ln))
            take = [('=', x, ('use', ('m', opt + (('d', 1, 'Some'), ('f', 0, '0')))), ln)]
            if kind == 'map':
                y = local(out)
                block(take + [('=', tup, ('agg', ('tuple',), (('m', x),)), ln), ('=', rc, ('ref', 'mut', clo), ln)], ('call', call, (('m', rc), ('m', tup)), y, head + 4, ln, None))
                block([('=', t[3], ('agg', ('adt', 'core::option::Option', 'None', 0, ()), ()), ln)], ('goto', t[4]))
                block([('=', t[3], ('agg', ('adt', 'core::option::Option', 'Some', 1, ('0',)), (('m', y),)), ln)], ('goto', t[4]))
            else:
                rx, ok = local(cf.locals[2][0]), local('bool')
                block(take + [('=', rx, ('ref', 'shared', x), ln), ('=', tup, ('agg', ('tuple',), (('m', rx),)), ln), ('=', rc, ('ref', 'mut', clo), ln)], ('call', call, (('m', rc), ('m', tup)), ok, head + 4, ln, None))
                block([('=', t[3], ('agg', ('adt', 'core::option::Option', 'None', 0, ()), ()), ln)], ('goto', t[4]))
                block([], ('switch', ('m', ok), 'bool', ((0, head),), head + 5, ln))
                block([('=', t[3], ('agg', ('adt', 'core::option::Option', 'Some', 1, ('0',)), (('m', x),)), ln)], ('goto', t[4]))
            defs[r[0]] = [(head, ('ref', 'mut', src))]
            b.t = ('goto', head)
            work.append(head)
            hit = True
    if hit:
        fn._cache = {}
    return fn


def isuccs(t):
    if t[0] == 'choice':
        return list(t[1])
    return succs(t)


# ---------------------------------------------------------------------------------------------------
# graph helpers

class CFG:
    """control-flow graph without unwind paths, restricted to blocks reachable from the entry"""

    def __init__(self, fn):
        self.fn = fn
        n = len(fn.blocks)
        self.succ = [[] for _ in range(n)]
        self.pred = [[] for _ in range(n)]
        seen = set()
        st = [0]
        order = []
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            ss = [x for x in dict.fromkeys(isuccs(fn.blocks[b].t)) if not fn.blocks[x].c]
            self.succ[b] = ss
            for x in ss:
                self.pred[x].append(b)
                st.append(x)
        self.reach = seen
        # reverse post-order
        self.rpo = []
        state = {}
        stack = [(0, iter(self.succ[0]))]
        state[0] = 1
        while stack:
            b, it = stack[-1]
            adv = False
            for x in it:
                if x not in state:
                    state[x] = 1
                    stack.append((x, iter(self.succ[x])))
                    adv = True
                    break
            if not adv:
                self.rpo.append(b)
                stack.pop()
        self.rpo.reverse()
        self.num = {b: i for i, b in enumerate(self.rpo)}
        self._dom = None
        self._pdom = None

    def dom(self):
        """immediate dominators"""
        if self._dom is None:
            idom = {0: 0}
            ch = True
            while ch:
                ch = False
                for b in self.rpo[1:]:
                    ps = [p for p in self.pred[b] if p in idom]
                    if not ps:
                        continue
                    new = ps[0]
                    for p in ps[1:]:
                        a, c = p, new
                        while a != c:
                            while self.num[a] > self.num[c]:
                                a = idom[a]
                            while self.num[c] > self.num[a]:
                                c = idom[c]
                        new = a
                    if idom.get(b) != new:
                        idom[b] = new
                        ch = True
            self._dom = idom
        return self._dom

    def dominates(self, a, b):
        idom = self.dom()
        while True:
            if a == b:
                return True
            if b == 0 or b not in idom:
                return False
            b = idom[b]

    def reachable_from(self, start, avoid=()):
        seen, st = set(), list(start)
        while st:
            b = st.pop()
            if b in seen or b in avoid:
                continue
            seen.add(b)
            st.extend(self.succ[b])
        return seen


def cfg(fn):
    if 'cfg' not in fn._cache:
        fn._cache['cfg'] = CFG(fn)
    return fn._cache['cfg']


# ---------------------------------------------------------------------------------------------------
# definitions and value expressions

def defs(fn):
    """local -> list of (block, index, kind, payload); whole-local assignments only. Arguments have an 'arg' entry."""
    if 'defs' in fn._cache:
        return fn._cache['defs']
    d = defaultdict(list)
    for i in range(1, fn.argc + 1):
        d[i].append((-1, -1, 'arg', i))
    g = cfg(fn)
    for bi in g.rpo:
        b = fn.blocks[bi]
        for si, s in enumerate(b.s):
            if s[0] == '=' and len(s[1]) == 1:
                d[s[1][0]].append((bi, si, 'rv', s[2]))
            elif s[0] == '=':
                d[('part', s[1][0])].append((bi, si, 'rv', s))
        t = b.t
        if t[0] == 'call':
            if len(t[3]) == 1:
                d[t[3][0]].append((bi, len(b.s), 'call', t))
            else:
                d[('part', t[3][0])].append((bi, len(b.s), 'call', t))
    fn._cache['defs'] = d
    return d


def addr_taken_mut(fn):
    """locals whose address is taken mutably (their value may change through a reference)"""
    if 'atm' in fn._cache:
        return fn._cache['atm']
    s = set()
    for bi in cfg(fn).rpo:
        for st in fn.blocks[bi].s:
            if st[0] == '=' and st[2][0] in ('ref', 'raw') and '*' not in st[2][2]:
                if (st[2][0] == 'ref' and st[2][1] == 'mut') or st[2][0] == 'raw':
                    s.add(st[2][2][0])
    fn._cache['atm'] = s
    return s


# std functions that return (a reference to) their receiver or a view of it
VIEW = re.compile(r'(::Deref::deref|::DerefMut::deref_mut|::AsRef::as_ref|::AsMut::as_mut|::Borrow::borrow|::BorrowMut::borrow_mut|Vec::<[^>]*>::as_slice|Vec::<[^>]*>::as_mut_slice|::as_ptr|::as_mut_ptr|::as_slice|::as_mut_slice|::clone::Clone::clone_ref)$')


class Values:
    """Access paths and value expressions of an (inlined) function.

    path(place) resolves references: the result is a tuple rooted at ('arg', i) or ('loc', l) followed by
    projections, with dereferences of resolved references removed.
    """

    def __init__(self, fn):
        self.fn = fn
        self.defs = defs(fn)
        self.atm = addr_taken_mut(fn)
        self._p = {}
        self._e = {}

    def single(self, l):
        d = self.defs.get(l, [])
        return d[0] if len(d) == 1 else None

    def ptr(self, l, depth=0):
        """what a reference-typed local points to (path), or None"""
        if l in self._p:
            return self._p[l]
        self._p[l] = None
        r = self._ptr(l, depth)
        self._p[l] = r
        return r

    def _ptr(self, l, depth):
        if depth > 60:
            return None
        d = self.single(l)
        if d is None:
            ds = self.defs.get(l, [])
            if len(ds) > 1:
                rs = set()
                for x in ds:
                    if x[2] == 'rv':
                        rs.add(self._ptr_rv(x[3], depth))
                    elif x[2] == 'call':
                        rs.add(self._ptr_call(x[3], depth))
                    else:
                        rs.add(None)
                if len(rs) == 1:
                    return rs.pop()
            return None
        if d[2] == 'arg':
            return (('arg', d[3]), '*')
        if d[2] == 'rv':
            return self._ptr_rv(d[3], depth)
        return self._ptr_call(d[3], depth)

    def _ptr_call(self, t, depth):
        nm = callee_name(t[1])
        if VIEW.search(nm) or nm.endswith('::deref') or nm.endswith('::deref_mut'):
            a = t[2][0]
            if a[0] in ('c', 'm'):
                q = self.oppath(a, depth + 1)
                return q
        if t[1].get('trait') in ('core::ops::index::Index', 'core::ops::index::IndexMut') and len(t[2]) == 2 and len(t[1].get('args', [])) == 2:
            q = self.oppath(t[2][0], depth + 1)
            if q is not None:
                if t[1]['args'][1] == 'usize':
                    return q + (('i', self.expr(t[2][1], depth + 1)),)
                if 'Range' in t[1]['args'][1]:
                    return q + ('view',)
        return None

    def _ptr_rv(self, r, depth):
        if r[0] == 'ref' or r[0] == 'raw':
            return self.path(r[2], depth + 1)
        if r[0] == 'use' and r[1][0] in ('c', 'm'):
            return self.oppath(r[1], depth + 1)
        if r[0] == 'cast' and r[2][0] in ('c', 'm'):
            return self.oppath(r[2], depth + 1)
        return None

    def oppath(self, o, depth=0):
        """path of the object a reference operand points to"""
        if o[0] not in ('c', 'm'):
            return None
        p = o[1]
        if len(p) == 1:
            return self.ptr(p[0], depth + 1)
        q = self.path(p, depth + 1)
        return q + ('*',) if q is not None else None

    def path(self, p, depth=0):
        """canonical access path of a place"""
        if depth > 60:
            return None
        l = p[0]
        if len(p) == 1:
            d = self.single(l)
            if d is not None and d[2] == 'arg':
                return (('arg', d[3]),)
            if d is not None and d[2] == 'rv' and d[3][0] == 'use' and d[3][1][0] in ('c', 'm') and l not in self.atm and not self.defs.get(('part', l)):
                # a moved or copied value keeps its origin as long as the copy is not modified
                q = self.path(d[3][1][1], depth + 1)
                if q is not None:
                    return q
            return (('loc', l),)
        if p[1] == '*':
            base = self.ptr(l, depth + 1)
            if base is None:
                base = (('loc', l), '*')
            rest = p[2:]
        else:
            base = self.path((l,), depth + 1)
            rest = p[1:]
            # field of a single-definition aggregate (closure environment, tuple)
            if base == (('loc', l),) and rest and isinstance(rest[0], tuple) and rest[0][0] == 'f':
                d = self.single(l)
                if d is not None and d[2] == 'rv' and d[3][0] == 'agg' and not self.defs.get(('part', l)) and d[3][1][0] != 'array':
                    ops = d[3][2]
                    i = rest[0][1]
                    if i < len(ops) and ops[i][0] in ('c', 'm'):
                        return self.path(ops[i][1] + tuple(rest[1:]), depth + 1)
        out = list(base)
        for i, e in enumerate(rest):
            if e == '*':
                # dereference of a field that holds a reference: try aggregates of closures
                q = self._agg_field(tuple(out), depth)
                if q is not None:
                    out = list(q)
                    continue
                out.append('*')
            elif isinstance(e, tuple) and e[0] == 'f':
                out.append(('f', e[2] or e[1]))
            elif isinstance(e, tuple) and e[0] == 'i':
                out.append(('i', self.expr_local(e[1])))
            elif isinstance(e, tuple) and e[0] == 'c':
                out.append(('i', ('const', e[1])) if not e[3] else ('ie', e[1]))
            else:
                out.append(e)
        return tuple(out)

    def _agg_field(self, out, depth):
        """(loc l).f_i where l is a single-definition aggregate: what that reference points to"""
        if len(out) == 2 and isinstance(out[0], tuple) and out[0][0] == 'loc' and isinstance(out[1], tuple) and out[1][0] == 'f':
            d = self.single(out[0][1])
            if d is not None and d[2] == 'rv' and d[3][0] == 'agg':
                ops = d[3][2]
                i = out[1][1]
                if isinstance(i, int) and i < len(ops):
                    return self.oppath(ops[i], depth + 1)
        return None

    # value expressions --------------------------------------------------------------------------
    def expr_local(self, l, depth=0):
        return self.expr(('c', (l,)), depth)

    def expr(self, o, depth=0):
        """expression tree of an operand: hashable"""
        if o[0] == 'k':
            k = o[1]
            if 'fn' in k:
                return ('fn', callee_name(k['fn']))
            v = const_value(k)
            if isinstance(v, (int, float, bool, str)):
                return ('const', v)
            if isinstance(v, tuple) and v[0] == 'adt' and not v[3]:
                return ('enum', v[1], v[2])
            return ('k', k.get('named') or k.get('ty'), k.get('promoted'), json.dumps(k.get('v')) if k.get('v') is not None else None)
        p = o[1]
        if len(p) == 1:
            l = p[0]
            if l in self._e:
                return self._e[l]
            self._e[l] = ('loc', l)
            if depth > 40:
                return ('loc', l)
            r = self._expr_local(l, depth)
            self._e[l] = r
            return r
        # field of checked arithmetic result: (a op b).0
        if len(p) == 2 and isinstance(p[1], tuple) and p[1][0] == 'f':
            d = self.single(p[0])
            if d is not None and d[2] == 'rv':
                rv = d[3]
                if rv[0] == 'bin' and rv[1].endswith('WithOverflow'):
                    if p[1][1] == 0:
                        return self._rv(('bin', rv[1][:-len('WithOverflow')], rv[2], rv[3], rv[4]), depth + 1)
                    return ('ovf', self._rv(('bin', rv[1][:-len('WithOverflow')], rv[2], rv[3], rv[4]), depth + 1))
                if rv[0] == 'agg' and rv[1][0] == 'tuple' and not self.defs.get(('part', p[0])):
                    return self.expr(rv[2][p[1][1]], depth + 1)
        q = self.path(p)
        return ('load', q)

    def _expr_local(self, l, depth):
        if l in self.atm or self.defs.get(('part', l)):
            return ('loc', l)
        d = self.single(l)
        if d is None:
            return ('loc', l)
        if d[2] == 'arg':
            return ('arg', l)
        if d[2] == 'rv':
            return self._rv(d[3], depth + 1, l)
        t = d[3]
        return ('call', callee_name(t[1]), tuple(self.expr(a, depth + 1) for a in t[2]))

    def _rv(self, r, depth, l=None):
        k = r[0]
        if k == 'use':
            return self.expr(r[1], depth)
        if k == 'bin':
            return ('bin', r[1], self.expr(r[2], depth), self.expr(r[3], depth))
        if k == 'un':
            return ('un', r[1], self.expr(r[2], depth))
        if k == 'cast':
            return ('cast', r[3], r[4], self.expr(r[2], depth))
        if k in ('ref', 'raw'):
            q = self.path(r[2])
            return ('ref', q)
        if k == 'discr':
            return ('discr', self.path(r[1]))
        if k == 'agg':
            return ('agg', r[1][0] if r[1][0] != 'adt' else (r[1][1], r[1][2]), tuple(self.expr(o, depth) for o in r[2]))
        return ('loc', l) if l is not None else ('unk',)


def values(fn):
    if 'values' not in fn._cache:
        fn._cache['values'] = Values(fn)
    return fn._cache['values']


def fmt_path(fn, p):
    if p is None:
        return '?'
    out = ''
    for e in p:
        if isinstance(e, tuple) and e[0] == 'arg':
            out += fn.name(e[1]) or 'arg%d' % e[1]
        elif isinstance(e, tuple) and e[0] == 'loc':
            out += fn.name(e[1]) or '_%d' % e[1]
        elif e == '*':
            pass
        elif isinstance(e, tuple) and e[0] == 'f':
            out += '.%s' % (e[1],)
        elif isinstance(e, tuple) and e[0] in ('i', 'ie'):
            out += '[%s]' % (fmt_expr(fn, e[1]) if e[0] == 'i' else '-%s' % e[1])
        elif isinstance(e, tuple) and e[0] == 'd':
            out += ' as %s' % e[2]
    return out


def fmt_expr(fn, e):
    if not isinstance(e, tuple):
        return str(e)
    k = e[0]
    if k == 'const':
        return repr(e[1])
    if k == 'loc' or k == 'arg':
        return fn.name(e[1]) or '_%d' % e[1]
    if k == 'load':
        return fmt_path(fn, e[1])
    if k == 'ref':
        return '&' + fmt_path(fn, e[1])
    if k == 'bin':
        return '(%s %s %s)' % (fmt_expr(fn, e[2]), e[1], fmt_expr(fn, e[3]))
    if k == 'un':
        return '%s(%s)' % (e[1], fmt_expr(fn, e[2]))
    if k == 'cast':
        return '(%s as %s)' % (fmt_expr(fn, e[3]), e[2])
    if k == 'call':
        return '%s(%s)' % (e[1].rsplit('::', 1)[-1], ', '.join(fmt_expr(fn, a) for a in e[2]))
    return str(e)


def dump(fn, out=None):
    """readable text of a function (for debugging)"""
    lines = ['fn %s  argc=%d' % (fn.path, fn.argc)]
    for i, (t, n) in enumerate(fn.locals):
        lines.append('  _%d: %s %s' % (i, t, n))
    for bi in cfg(fn).rpo:
        b = fn.blocks[bi]
        lines.append(' bb%d:' % bi)
        for s in b.s:
            lines.append('    ' + str(s))
        t = b.t
        if t[0] == 'call':
            lines.append('    call %s%s -> %s goto %s' % (callee_name(t[1]), [show_op(a) for a in t[2]], t[3], t[4]))
        else:
            lines.append('    ' + str(t))
    return '\n'.join(lines)


def show_op(o):
    if o[0] == 'k':
        return 'const ' + str(o[1].get('v', o[1].get('ty')))[:60]
    return o[0] + str(o[1])

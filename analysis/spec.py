"""Specialisation of a function body for one variant of an enumeration.

Switches on the discriminant of a value of the enumeration, and comparisons of such a value with a
constant variant, are replaced by the branch that variant takes. Blocks that become unreachable drop
out of the control-flow graph.
"""
from . import mir


def specialise(prog, fn, adt, variant):
    a = prog.adts.get(adt)
    if a is None:
        raise mir.AnchorError('type %s not found' % adt)
    discr = {v['name']: v['discr'] for v in a['variants']}
    want = discr[variant]
    out = mir.Fn()
    for s in mir.Fn.__slots__:
        if s not in ('_cache', 'blocks', 'orig') and hasattr(fn, s):
            setattr(out, s, getattr(fn, s))
    out._cache = {}
    out.orig = getattr(fn, 'orig', None) or fn
    out.blocks = []
    V = mir.values(fn)

    def const_variant(o):
        e = V.expr(o)
        if e[0] == 'enum' and e[1] == adt:
            return e[2]
        if e[0] == 'agg' and isinstance(e[1], tuple) and e[1][0] == adt:
            return e[1][1]
        return None

    def ref_variant(o):
        """variant behind a reference operand when it is a constant"""
        if o[0] == 'k':
            v = mir.decode(o[1].get('v'))
            if isinstance(v, tuple) and v[0] == 'adt' and v[1] == adt:
                return v[2]
            return None
        v = const_variant(o)
        if v:
            return v
        d = V.single(o[1][0]) if len(o[1]) == 1 else None
        if d and d[2] == 'rv':
            if d[3][0] == 'use':
                return ref_variant(d[3][1])
            if d[3][0] == 'ref' and len(d[3][2]) == 1:
                return const_variant(('c', d[3][2]))
            if d[3][0] == 'ref' and len(d[3][2]) == 2 and d[3][2][1] == '*':
                return ref_variant(('c', d[3][2][:1]))
        return None

    for b in fn.blocks:
        t = b.t
        if t[0] == 'switch' and t[1][0] in ('c', 'm') and len(t[1][1]) == 1:
            d = V.single(t[1][1][0])
            if d and d[2] == 'rv' and d[3][0] == 'discr' and d[3][2] == adt:
                tgt = t[4]
                for v, x in t[3]:
                    if v == want:
                        tgt = x
                t = ('goto', tgt)
        elif t[0] == 'call' and t[1].get('trait') == 'core::cmp::PartialEq' and adt in (t[1].get('self') or ''):
            vs = [ref_variant(o) for o in t[2]]
            known = [v for v in vs if v]
            if len(known) == 1:
                eq = (known[0] == variant)
                if t[1]['path'].endswith('::ne'):
                    eq = not eq
                nb = mir.IBlock(list(b.s) + [('=', t[3], ('use', ('k', {'ty': 'bool', 'v': eq})), t[5])], ('goto', t[4]), b.c, getattr(b, 'fn', fn), getattr(b, 'stack', ()))
                out.blocks.append(nb)
                continue
        if t is b.t:
            out.blocks.append(b)
        else:
            out.blocks.append(mir.IBlock(b.s, t, b.c, getattr(b, 'fn', fn), getattr(b, 'stack', ())))
    # fold switches on booleans that are now constant
    W = mir.values(out)
    for i, b in enumerate(out.blocks):
        t = b.t
        if t[0] == 'switch' and t[1][0] in ('c', 'm'):
            e = W.expr(t[1])
            if e[0] == 'un' and e[1] == 'Not' and e[2][0] == 'const':
                e = ('const', not e[2][1])
            if e[0] == 'const':
                tgt = t[4]
                for v, x in t[3]:
                    if v == int(e[1]):
                        tgt = x
                out.blocks[i] = mir.IBlock(b.s, ('goto', tgt), b.c, getattr(b, 'fn', fn), getattr(b, 'stack', ()))
    out._cache = {}
    return out


def slice_consts(fn, op, seen=None):
    """array constants from which an operand is built (through moves, references, aggregates and calls)"""
    D = mir.defs(fn)
    seen = set() if seen is None else seen
    if op[0] == 'k':
        v = mir.decode(op[1].get('v'))
        return [v] if isinstance(v, list) else []
    l = op[1][0]
    if l in seen:
        return []
    seen.add(l)
    out = []
    for (_, _, kind, x) in D.get(l, []):
        if kind == 'call':
            for a in x[2]:
                out += slice_consts(fn, a, seen)
        elif kind == 'rv':
            if x[0] in ('use', 'repeat'):
                out += slice_consts(fn, x[1], seen)
            elif x[0] in ('ref', 'raw'):
                out += slice_consts(fn, ('c', x[2]), seen)
            elif x[0] == 'cast':
                out += slice_consts(fn, x[2], seen)
            elif x[0] == 'agg':
                if op[1][1:] and isinstance(op[1][1], tuple) and op[1][1][0] == 'f' and op[1][1][1] < len(x[2]):
                    out += slice_consts(fn, x[2][op[1][1][1]], seen - {l})
                    seen.discard(l)
                else:
                    for a in x[2]:
                        out += slice_consts(fn, a, seen)
    return out

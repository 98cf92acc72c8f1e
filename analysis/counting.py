"""Correspondence between the bound of a counted loop and tests for its last iteration.

A loop over 0..n (or one that runs while a counter is below n) that contains, on a counter advanced once per iteration from zero,
the test counter == n - 1 (or an equivalent one) continues whenever that test fails. The bound may be stored in several structs:
a field that is only ever filled from another field has the same value.
"""
import re
from . import mir


def resolver(fn):
    if 'counting.defs' in fn._cache:
        return fn._cache['counting.defs']
    defs = {}
    for b in mir.cfg(fn).rpo:
        for s in fn.blocks[b].s:
            if s[0] == '=' and len(s[1]) == 1:
                defs.setdefault(s[1][0], []).append((b, s[2]))
        t = fn.blocks[b].t
        if t[0] == 'call' and len(t[3]) == 1:
            defs.setdefault(t[3][0], []).append((b, None))
    fn._cache['counting.defs'] = defs
    return defs


def canon(fn, p, depth=0):
    """place with the single-definition references and copies behind its base resolved"""
    defs = resolver(fn)
    if depth > 30 or p[0] <= fn.argc or len(defs.get(p[0], [])) != 1:
        return p
    r = defs[p[0]][0][1]
    if r is None:
        return p
    if r[0] == 'use' and r[1][0] in ('c', 'm'):
        return canon(fn, tuple(r[1][1]) + p[1:], depth + 1)
    if r[0] in ('ref', 'raw') and len(p) > 1 and p[1] == '*':
        return canon(fn, tuple(r[2]) + p[2:], depth + 1)
    return p


def expr(fn, o, depth=0):
    """('k', c) | ('p', place) | ('+', e, c)"""
    if o[0] == 'k':
        v = mir.decode(o[1].get('v'))
        return ('k', v) if isinstance(v, int) and not isinstance(v, bool) else None
    p = canon(fn, tuple(o[1]))
    base = p[:1] if len(p) == 2 and p[1][:2] == ('f', 0) else p
    if len(base) == 1 and depth < 10:
        d = resolver(fn).get(base[0], [])
        if len(d) == 1 and d[0][1] is not None and d[0][1][0] == 'bin':
            r = d[0][1]
            op = r[1].replace('WithOverflow', '').replace('Unchecked', '')
            if op in ('Add', 'Sub') and (len(p) == 1) == (r[1] == op or 'Unchecked' in r[1]):
                a, b = expr(fn, r[2], depth + 1), expr(fn, r[3], depth + 1)
                if a and b and b[0] == 'k':
                    c = b[1] if op == 'Add' else -b[1]
                    return ('+', a[1], a[2] + c) if a[0] == '+' else ('+', a, c)
    return ('p', p)


def linear(e):
    if e is None or e[0] == 'k':
        return None
    return (e[1], 0) if e[0] == 'p' else (e[1][1], e[2]) if e[1][0] == 'p' else None


def field_types(prog, ty):
    a = prog.adts.get(re.sub(r"^(&('\w+ )?(mut )?)+", '', ty or '').split('<')[0])
    return a['variants'][0]['fields'] if a and a['kind'] == 'Struct' else []


def field_id(prog, fn, p):
    ty = fn.locals[p[0]][0]
    base = None
    for e in p[1:]:
        if e == '*':
            ty = re.sub(r"^&('\w+ )?(mut )?", '', ty or '')
        elif isinstance(e, tuple) and e[0] == 'f':
            fs = field_types(prog, ty)
            if e[1] >= len(fs):
                return None
            base = (re.sub(r"^(&('\w+ )?(mut )?)+", '', ty).split('<')[0], e[1])
            ty = fs[e[1]][1]
        else:
            return None
    return base


def same_fields(prog):
    """field -> the field every constructor fills it from"""
    if getattr(prog, '_same_fields', None) is None:
        src = {}
        for fn in prog.fns.values():
            for b in mir.cfg(fn).rpo:
                for s in fn.blocks[b].s:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt':
                        a = prog.adts.get(s[2][1][1])
                        if not a or a['kind'] != 'Struct':
                            continue
                        for i, o in enumerate(s[2][2]):
                            f = field_id(prog, fn, canon(fn, tuple(o[1]))) if o[0] in ('c', 'm') else None
                            src.setdefault((s[2][1][1], i), set()).add(f)
                    if s[0] == '=' and len(s[1]) > 1:
                        f = field_id(prog, fn, canon(fn, tuple(s[1])))
                        if f:
                            src.setdefault(f, set()).add(None)
        prog._same_fields = {f: next(iter(g)) for f, g in src.items() if len(g) == 1 and None not in g}
    return prog._same_fields


def root(prog, fn, p):
    f = field_id(prog, fn, p)
    same = same_fields(prog)
    for _ in range(8):
        if f in same:
            f = same[f]
    return ('field', f) if f else ('place', p)


def analyse(prog, fn):
    """(tests, heads, nexts): id(rv) -> (key, outcome meaning 'not the last'); id(rv) -> (key, outcome meaning 'another iteration'); block -> key"""
    from .rules.p10 import natural_loops
    g = mir.cfg(fn)
    loops = natural_loops(fn)
    tests, heads, nexts = {}, {}, {}
    for h, body in loops:
        latches = [p for p in g.pred[h] if p in body]
        # counters: advanced by one on every way around, never otherwise set, zero before
        adds, sets = {}, {}
        for b in g.rpo:
            for s in fn.blocks[b].s:
                if s[0] != '=':
                    continue
                p = canon(fn, tuple(s[1])) if len(s[1]) > 1 else tuple(s[1])
                sets.setdefault(p, []).append((b, s[2]))
        counters = set()
        for p, ws in sets.items():
            inside = [(b, r) for b, r in ws if b in body]
            if len(inside) != 1:
                continue
            b, r = inside[0]
            if r[0] != 'use' and r[0] != 'bin':
                continue
            if not all(g.dominates(b, l) for l in latches):
                continue
            e = expr_of(fn, r)
            if e is None or linear(e) != (p, 1):
                continue
            if any(r2[0] == 'use' and r2[1][0] == 'k' and mir.decode(r2[1][1].get('v')) == 0 and g.dominates(b2, h) and b2 not in body for b2, r2 in ws):
                counters.add(p)
        if not counters:
            continue
        bounds = []
        for b in body:
            t = fn.blocks[b].t
            if t[0] == 'call' and mir.callee_name(t[1]).endswith('::next') and t[2] and t[2][0][0] in ('c', 'm') and b == h or t[0] == 'call' and mir.callee_name(t[1]).endswith('::next') and g.dominates(b, latches[0] if latches else b):
                q = canon(fn, tuple(t[2][0][1]) + ('*',))
                if len(q) != 1:
                    continue
                r = range_of(fn, q)
                if r:
                    bounds.append((('next', b), root(prog, fn, r)))
        for b in body:
            for s in fn.blocks[b].s:
                if s[0] == '=' and s[2][0] == 'bin' and s[2][1] in ('Lt', 'Gt', 'Le', 'Ge', 'Eq', 'Ne'):
                    c = compare(prog, fn, s[2], counters)
                    if c is None:
                        continue
                    bound, d, op = c
                    # counter + d  op  bound
                    exits = fn.blocks[b].t[0] == 'switch' and any(x not in body for x in mir.isuccs(fn.blocks[b].t))
                    if d == 0 and op in ('Lt', 'Ge') and exits and all(g.dominates(b, l) for l in latches):
                        bounds.append((('head', id(s[2]), op == 'Lt'), bound))
        for kind, bound in bounds:
            key = (1, 'more', '*', h)
            hit = False
            for b in body:
                for s in fn.blocks[b].s:
                    if s[0] == '=' and s[2][0] == 'bin' and s[2][1] in ('Lt', 'Gt', 'Le', 'Ge', 'Eq', 'Ne'):
                        c = compare(prog, fn, s[2], counters)
                        if c and c[0] == bound and (c[1] == 1 and c[2] in ('Eq', 'Ge', 'Ne', 'Lt')):
                            tests[id(s[2])] = (key, c[2] in ('Ne', 'Lt'))
                            hit = True
            if kind[0] == 'head':
                heads[kind[1]] = (key, kind[2])
            elif hit:
                nexts[kind[1]] = key
    return tests, heads, nexts


def expr_of(fn, r):
    if r[0] == 'use':
        return expr(fn, r[1])
    op = r[1].replace('WithOverflow', '').replace('Unchecked', '')
    if op != 'Add':
        return None
    a, b = expr(fn, r[2]), expr(fn, r[3])
    return ('+', a, b[1]) if a and a[0] == 'p' and b and b[0] == 'k' else None


def compare(prog, fn, r, counters):
    """(bound, d, op) with the meaning counter + d op bound"""
    a, b = linear(expr(fn, r[2])), linear(expr(fn, r[3]))
    if a is None or b is None:
        return None
    op = r[1]
    if b[0] in counters and a[0] not in counters:
        a, b = b, a
        op = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op)
    if a[0] not in counters:
        return None
    d = a[1] - b[1]
    # counter + d > bound  is  counter + d >= bound + 1
    if op == 'Gt':
        d, op = d - 1, 'Ge'
    if op == 'Le':
        d, op = d - 1, 'Lt'
    return root(prog, fn, b[0]), d, op


def range_of(fn, q):
    """upper bound place of the range a loop variable comes from, if the range starts at zero"""
    defs = resolver(fn)
    for _ in range(6):
        d = defs.get(q[0], [])
        if len(d) != 1:
            return None
        b, r = d[0]
        if r is None:
            t = fn.blocks[b].t
            if not mir.callee_name(t[1]).endswith('::into_iter') or t[2][0][0] not in ('c', 'm'):
                return None
            q = tuple(t[2][0][1])
            continue
        if r[0] == 'use' and r[1][0] in ('c', 'm'):
            q = tuple(r[1][1])
            continue
        if r[0] == 'agg' and r[1][0] == 'adt' and r[1][1].endswith('::Range') and len(r[2]) == 2:
            lo, hi = expr(fn, r[2][0]), expr(fn, r[2][1])
            if lo == ('k', 0) and hi and hi[0] == 'p':
                return hi[1]
        return None
    return None

"""Flow of Result values: what happens to an error after the call that produced it.

For one call site the analysis follows the result along the control-flow graph. A state is either
  U: the result (or an alias: moved, branched, mapped) has not been examined yet, or
  E: the path is one on which the result is known to be an error.
Every path must end by returning an error; anything else is reported.
"""
import re
from . import mir

RESULT = 'core::result::Result<'
OPTION = 'core::option::Option<'
CFLOW = 'core::ops::control_flow::ControlFlow<'

KEEP = re.compile(r'Result::<.*>::(map|map_err|and_then|and|or_else|inspect|inspect_err|copied|cloned|as_ref|as_mut|as_deref)$|::Try>::branch$|::try_trait::Try::branch$|::Into>::into$|::From>::from$|ops::deref::Deref>::deref$')
PANIC = re.compile(r'Result::<.*>::(unwrap|expect|unwrap_unchecked|into_ok)$|Option::<.*>::(unwrap|expect|unwrap_unchecked)$')
SWALLOW = re.compile(r'Result::<.*>::(unwrap_or|unwrap_or_else|unwrap_or_default|ok|or|map_or|map_or_else|is_ok_and|is_err_and|iter|into_iter)$')


def is_result(ty):
    return ty.startswith(RESULT)


class Outcome:
    def __init__(self, kind, line, detail=''):
        self.kind, self.line, self.detail = kind, line, detail


def follow(prog, fn, bi, is_source, returns_err=None):
    """Outcomes of the call ending block bi of fn (its result is a Result). Returns a list of problems."""
    t = fn.blocks[bi].t
    dest, tgt = t[3], t[4]
    problems = []
    if tgt is None:
        return problems
    if dest == (0,):
        start = (tgt, 'U', frozenset([0]), None)
    elif len(dest) == 1:
        start = (tgt, 'U', frozenset([dest[0]]), None)
    else:
        problems.append(Outcome('stored', t[5], 'result stored in a field'))
        return problems
    seen = set()
    stack = [start]
    while stack:
        st = stack.pop()
        if st in seen:
            continue
        seen.add(st)
        b, mode, al, e0 = st      # al: aliases of the unexamined result (U) / e0: what _0 holds (E): None|'err'|'other'
        blk = fn.blocks[b]
        if blk.c:
            continue
        al = set(al)
        cond = {}                  # local -> 'discr' of an alias
        for s in blk.s:
            if s[0] != '=':
                continue
            p, r = s[1], s[2]
            if mode == 'U':
                if r[0] in ('use', 'ref', 'cast'):
                    src = r[1][1] if r[0] == 'use' and r[1][0] in ('c', 'm') else r[2] if r[0] == 'ref' else r[2][1] if r[0] == 'cast' and r[2][0] in ('c', 'm') else None
                    if src is not None and src[0] in al and not any(isinstance(x, tuple) and x[0] == 'd' for x in src[1:]):
                        if len(p) == 1:
                            al.add(p[0])
                        else:
                            problems.append(Outcome('stored', s[3], 'result stored and not examined'))
                        continue
                elif r[0] == 'agg':
                    if any(o[0] in ('c', 'm') and o[1][0] in al for o in r[2]) and len(p) == 1:
                        al.add(p[0])
                        continue
                elif r[0] == 'discr' and r[1][0] in al and len(p) == 1:
                    cond[p[0]] = 'discr'
                    continue
                elif r[0] == 'un' and r[1] == 'Not' and r[2][0] in ('c', 'm') and ('b', r[2][1][0]) in al:
                    al.add(('nb', p[0]))
                    continue
                elif r[0] == 'un' and r[1] == 'Not' and r[2][0] in ('c', 'm') and ('nb', r[2][1][0]) in al:
                    al.add(('b', p[0]))
                    continue
                if len(p) == 1 and p[0] in al:
                    al.discard(p[0])
            else:
                if p == (0,):
                    e0 = err_of_rv(fn, r, e0)
        tt = blk.t
        k = tt[0]
        if k == 'return':
            if mode == 'U':
                if 0 not in al:
                    problems.append(Outcome('swallowed', last_line(fn, b), 'the function returns without having examined the result'))
            elif e0 != 'err':
                problems.append(Outcome('success', last_line(fn, b), 'the error branch returns something other than an error'))
            continue
        if k == 'switch':
            o = tt[1]
            l = o[1][0] if o[0] in ('c', 'm') and len(o[1]) == 1 else None
            if mode == 'U' and l in cond:
                listed = dict(tt[3])
                # variant 1 is Err of Result and Break of ControlFlow
                errb = listed.get(1, tt[4])
                stack.append((errb, 'E', frozenset(), None))
                continue
            if mode == 'U' and (('b', l) in al or ('nb', l) in al):
                listed = dict(tt[3])
                false_b, true_b = listed.get(0, tt[4]), tt[4] if 0 in listed else listed.get(1, tt[4])
                stack.append((true_b if ('b', l) in al else false_b, 'E', frozenset(), None))
                continue
            for x in mir.succs(tt):
                stack.append((x, mode, frozenset(al), e0))
            continue
        if k == 'call':
            c = tt[1]
            nm = mir.callee_name(c)
            uses = [o for o in tt[2] if o[0] in ('c', 'm') and o[1][0] in al]
            if mode == 'U' and uses:
                d = tt[3]
                if PANIC.search(nm):
                    problems.append(Outcome('panic', tt[5], 'an error becomes a panic'))
                    continue
                if SWALLOW.search(nm):
                    problems.append(Outcome('swallowed', tt[5], 'an error is replaced by a default (%s)' % nm.rsplit('::', 1)[-1]))
                    continue
                if re.search(r'Result::<.*>::is_err$', nm) and len(d) == 1:
                    al.add(('b', d[0]))
                    stack.append((tt[4], 'U', frozenset(al), e0))
                    continue
                if re.search(r'Result::<.*>::is_ok$', nm) and len(d) == 1:
                    al.add(('nb', d[0]))
                    stack.append((tt[4], 'U', frozenset(al), e0))
                    continue
                if nm.endswith('mem::drop') or nm.endswith('mem::forget'):
                    problems.append(Outcome('swallowed', tt[5], 'the result is discarded'))
                    continue
                wr = wrapper(prog, c, [i for i, o in enumerate(tt[2]) if o in uses][0])
                if wr and tt[4] is not None and len(d) == 1:
                    # the error travels on inside a status value
                    problems += follow_status(prog, fn, tt[4], d[0], wr, is_source)
                    continue
                if tt[4] is not None and len(d) == 1:
                    # mapped, branched, or handed on: the produced value carries the error
                    moved = {o[1][0] for o in uses if o[0] == 'm'}
                    al -= moved
                    dt = fn.locals[d[0]][0]
                    if KEEP.search(nm) or dt.startswith((RESULT, CFLOW)):
                        al.add(d[0])
                    elif not al:
                        problems.append(Outcome('swallowed', tt[5], 'the result is consumed by %s' % nm))
                        continue
                    stack.append((tt[4], 'U', frozenset(al), e0))
                    continue
            if mode == 'E':
                if tt[4] is None:
                    problems.append(Outcome('panic', tt[5], 'the error branch panics'))
                    continue
                if is_source(c):
                    problems.append(Outcome('retried', tt[5], 'another user function is called on the error branch'))
                    continue
                if tt[3] == (0,):
                    if nm.endswith('::from_residual'):
                        e0 = 'err'
                    elif returns_err and returns_err(c):
                        e0 = 'err'
                    else:
                        e0 = 'other'
            else:
                if tt[4] is None:
                    continue            # unrelated panic before the result is examined
                if is_source(c) and not al:
                    problems.append(Outcome('swallowed', tt[5], 'the result is lost before the next user function is called'))
                    continue
                if len(tt[3]) == 1 and tt[3][0] in al:
                    al.discard(tt[3][0])
            stack.append((tt[4], mode, frozenset(al), e0))
            continue
        if k == 'assert' and mode == 'E':
            stack.append((tt[5], mode, frozenset(al), e0))
            continue
        for x in mir.succs(tt):
            stack.append((x, mode, frozenset(al), e0))
    return problems


def wrapper(prog, c, argi):
    """(adt, variant) when the workspace function called maps an error given as argument argi to that variant, with the error inside"""
    cf = prog.callee_fn(c)
    if cf is None or argi >= cf.argc or not is_result(cf.locals[argi + 1][0]) or not cf.out.split('<')[0] in prog.adts:
        return None
    adt = cf.out.split('<')[0]
    par = argi + 1
    got = set()
    seen = set()
    stack = [(0, frozenset(), None)]
    D = mir.defs(cf)
    while stack:
        st = stack.pop()
        if st in seen:
            continue
        seen.add(st)
        b, pay, res = st
        blk = cf.blocks[b]
        pay = set(pay)
        cond = None
        for s in blk.s:
            if s[0] != '=':
                continue
            p, r = s[1], s[2]
            if r[0] == 'discr' and r[1][0] == par:
                cond = p[0]
            elif r[0] == 'use' and r[1][0] in ('c', 'm') and (r[1][1][0] == par or r[1][1][0] in pay) and len(p) == 1:
                pay.add(p[0])
            elif r[0] == 'ref' and (r[2][0] == par or r[2][0] in pay) and len(p) == 1:
                pay.add(p[0])
            elif r[0] == 'agg' and p == (0,):
                res = r[1][2] if r[1][0] == 'adt' and r[1][1] == adt and any(o[0] in ('c', 'm') and o[1][0] in pay for o in r[2]) else '?'
            elif p == (0,):
                res = '?'
        t = blk.t
        if t[0] == 'return':
            got.add(res)
        elif t[0] == 'switch' and cond is not None and t[1][0] in ('c', 'm') and t[1][1] == (cond,):
            stack.append((dict(t[3]).get(1, t[4]), frozenset(pay), res))
        elif t[0] == 'call':
            return None
        else:
            for x in mir.succs(t):
                stack.append((x, frozenset(pay), res))
    if len(got) == 1 and not got & {None, '?'}:
        return adt, got.pop()
    return None


def predicate(prog, c, adt, variant):
    """value of a boolean workspace method for one variant of its receiver, or None"""
    from . import spec
    cf = prog.callee_fn(c)
    if cf is None or cf.out != 'bool' or cf.argc != 1:
        return None
    sp = spec.specialise(prog, cf, adt, variant)
    vals = set()
    for b in mir.cfg(sp).rpo:
        for s in sp.blocks[b].s:
            if s[0] == '=' and s[1] == (0,):
                e = mir.values(sp).expr(s[2][1]) if s[2][0] == 'use' else ('?',)
                vals.add(e[1] if e[0] == 'const' else '?')
        if sp.blocks[b].t[0] == 'call' and sp.blocks[b].t[3] == (0,):
            vals.add('?')
    return vals.pop() if len(vals) == 1 and not vals & {'?'} else None


def follow_status(prog, fn, b0, local, wr, is_source):
    """the status built from an error must be returned before any further user function is called"""
    adt, variant = wr
    problems, seen = [], set()
    stack = [(b0, frozenset([local]), frozenset())]
    while stack:
        st = stack.pop()
        if st in seen:
            continue
        seen.add(st)
        b, al, bools = st
        blk = fn.blocks[b]
        if blk.c:
            continue
        al, bools = set(al), dict(bools)
        for s in blk.s:
            if s[0] != '=':
                continue
            p, r = s[1], s[2]
            src = r[1][1] if r[0] == 'use' and r[1][0] in ('c', 'm') else r[2] if r[0] == 'ref' else None
            if len(p) == 1:
                if src is not None and src[0] in al:
                    al.add(p[0])
                    continue
                if r[0] == 'agg' and r[1][0] == 'adt' and r[1][1] == 'core::result::Result' and any(o[0] in ('c', 'm') and o[1][0] in al for o in r[2]):
                    al.add(p[0])
                    continue
                if r[0] == 'un' and r[1] == 'Not' and r[2][0] in ('c', 'm') and r[2][1][0] in bools:
                    bools[p[0]] = not bools[r[2][1][0]]
                    continue
                if r[0] == 'discr' and r[1][0] in al and r[2] == adt:
                    bools[p[0]] = [v['discr'] for v in prog.adts[adt]['variants'] if v['name'] == variant][0]
                    continue
                al.discard(p[0])
        t = blk.t
        if t[0] == 'return':
            if 0 not in al:
                problems.append(Outcome('swallowed', last_line(fn, b), 'the failure status is not returned'))
        elif t[0] == 'switch' and t[1][0] in ('c', 'm') and t[1][1][0] in bools:
            stack.append((dict(t[3]).get(int(bools[t[1][1][0]]), t[4]), frozenset(al), frozenset(bools.items())))
        elif t[0] == 'call':
            uses = [o for o in t[2] if o[0] in ('c', 'm') and o[1][0] in al]
            if is_source(t[1]):
                problems.append(Outcome('retried', t[5], 'another user function is called after the failed one'))
                continue
            if uses and len(t[3]) == 1 and len(t[2]) == 1:
                v = predicate(prog, t[1], adt, variant)
                if v is not None:
                    bools[t[3][0]] = v
            if t[4] is not None:
                stack.append((t[4], frozenset(al), frozenset(bools.items())))
        else:
            for x in mir.succs(t):
                stack.append((x, frozenset(al), frozenset(bools.items())))
    return problems


def err_of_rv(fn, r, e0):
    if r[0] == 'agg' and r[1][0] == 'adt' and r[1][1] == 'core::result::Result':
        return 'err' if r[1][2] == 'Err' else 'other'
    if r[0] == 'use' and r[1][0] in ('c', 'm'):
        l = r[1][1][0]
        ds = mir.defs(fn).get(l, [])
        if ds and all(x[2] == 'rv' and x[3][0] == 'agg' and x[3][1][0] == 'adt' and x[3][1][1] == 'core::result::Result' and x[3][1][2] == 'Err' for x in ds):
            return 'err'
        if ds and all(x[2] == 'call' and mir.callee_name(x[3][1]).endswith('from_residual') for x in ds):
            return 'err'
        return 'other'
    return 'other'


def last_line(fn, b):
    for s in reversed(fn.blocks[b].s):
        if s[0] == '=':
            return s[3]
    return (fn.file, fn.line)

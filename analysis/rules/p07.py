"""P07: errors from user callbacks always reach the caller."""
import re
from .. import errflow, mir
from ..report import Report

RULE = ('for every call through a caller-supplied function value that returns a Result, and for every call to a workspace function that hands '
        'such an error on, every control-flow path on which the result is an error ends by returning an error; no path drops, unwraps, '
        'replaces or retries it')


def callback_result(fn, t):
    """the call goes through a user-supplied function and yields a Result"""
    if not mir.is_user_callback(t[1]):
        return False
    d = t[3]
    ty = fn.locals[d[0]][0] if len(d) == 1 else ''
    return errflow.is_result(ty)


def carriers(prog):
    """functions whose returned error may come from a user callback: key -> example chain"""
    direct = {}
    for fn in prog.fns.values():
        for b in fn.blocks:
            if not b.c and b.t[0] == 'call' and callback_result(fn, b.t):
                direct.setdefault(fn.key, 'calls a user function')
    carry = dict(direct)
    trait_carry = set()
    changed = True
    while changed:
        changed = False
        for fn in prog.fns.values():
            if fn.impl_trait and fn.key in carry:
                m = (fn.impl_trait, fn.path.rsplit('::', 1)[-1])
                if m not in trait_carry:
                    trait_carry.add(m)
                    changed = True
        for fn in prog.fns.values():
            if fn.key in carry:
                continue
            for b in fn.blocks:
                if b.c or b.t[0] != 'call':
                    continue
                if is_carrier_call(prog, fn, b.t, carry, trait_carry):
                    carry[fn.key] = 'calls ' + mir.callee_name(b.t[1])
                    changed = True
                    break
    return direct, carry, trait_carry


def is_carrier_call(prog, fn, t, carry, trait_carry):
    c = t[1]
    d = t[3]
    ty = fn.locals[d[0]][0] if len(d) == 1 else ''
    if not errflow.is_result(ty):
        return False
    cf = prog.callee_fn(c)
    if cf is not None:
        return cf.key in carry
    if c.get('trait') and (c['trait'], c['path'].rsplit('::', 1)[-1]) in trait_carry and c.get('rk') in ('virtual', None):
        return True
    return False


def check():
    rep = Report('P07', RULE)
    prog = mir.Program()
    rep.t0 = __import__('time').time()
    direct, carry, trait_carry = carriers(prog)
    rep.counts['functions that call a user function'] = len(direct)
    rep.counts['functions that hand on a user error'] = len(carry)
    always_err = {}

    def returns_err(c):
        cf = prog.callee_fn(c)
        if cf is None:
            return False
        if cf.key not in always_err:
            ok = True
            n = 0
            for bi in mir.cfg(cf).rpo:
                for s in cf.blocks[bi].s:
                    if s[0] == '=' and s[1] == (0,):
                        n += 1
                        ok = ok and errflow.err_of_rv(cf, s[2], None) == 'err'
                if cf.blocks[bi].t[0] == 'call' and cf.blocks[bi].t[3] == (0,):
                    n += 1
                    ok = ok and mir.callee_name(cf.blocks[bi].t[1]).endswith('from_residual')
            always_err[cf.key] = ok and n > 0
        return always_err[cf.key]

    for fn in prog.fns.values():
        n = 0
        for bi in mir.cfg(fn).rpo:
            t = fn.blocks[bi].t
            if t[0] != 'call':
                continue
            cb = callback_result(fn, t)
            if cb:
                rep.count('user function calls')
            elif is_carrier_call(prog, fn, t, carry, trait_carry):
                rep.count('calls that hand on a user error')
            else:
                # a closure that hands on an error, given to a function outside the workspace
                if prog.callee_fn(t[1]) is None and not mir.is_user_callback(t[1]):
                    for a in t[2]:
                        if a[0] in ('c', 'm') and len(a[1]) == 1:
                            m = re.search(r'\{closure@[^}]*\}', fn.locals[a[1][0]][0])
                            cl = prog.closure_by_ty.get(m.group(0)) if m else None
                            if cl is not None and cl.key in carry and not re.search(r'(Arc|Rc|Box)::<.*>::(new|from)$', mir.callee_name(t[1])):
                                rep.count('closures given to library functions')
                                dt = fn.locals[t[3][0]][0] if len(t[3]) == 1 else ''
                                if m.group(0) in dt:
                                    rep.ok()
                                    continue
                                if not errflow.is_result(dt):
                                    rep.bad('%s: closure given to %s' % (fn.key, mir.callee_name(t[1])), fn.where(t[5]), 'the error of a user function called in a closure is lost')
                                else:
                                    run(prog, rep, fn, bi, carry, trait_carry, returns_err)
                continue
            run(prog, rep, fn, bi, carry, trait_carry, returns_err)
    rep.floor('user function calls', 90)
    rep.floor('calls that hand on a user error', 40)
    rep.floor('functions that call a user function', 30)
    return rep


def run(prog, rep, fn, bi, carry, trait_carry, returns_err):
    t = fn.blocks[bi].t

    def is_source(c):
        return mir.is_user_callback(c)
    probs = errflow.follow(prog, fn, bi, is_source, returns_err)
    what = 'user function' if mir.is_user_callback(t[1]) else mir.callee_name(t[1])
    if not probs:
        rep.ok('%s: %s at %s' % (fn.path, what, fn.where(t[5])))
    for p in probs:
        if p.kind == 'panic' and fn.out == '()':
            rep.count('assertion helpers that panic on an error')
            continue
        rep.bad('%s: error of %s %s' % (fn.key, what, p.kind), fn.where(p.line), '%s: error of %s called at %s: %s' % (fn.path, what, fn.where(t[5]), p.detail))

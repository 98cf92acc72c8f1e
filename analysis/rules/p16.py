"""P16: tabulated coefficients satisfy their defining identities.

The tables are taken as the compiler evaluates them, from the constructor arm that selects them for each
method (not by name); the identities are evaluated in exact rational arithmetic on the stored doubles.
"""
import itertools, math
from fractions import Fraction as Q
from functools import lru_cache
from .. import mir, spec
from ..report import Report

RULE = ('for every method: the tables its constructor selects satisfy all rooted-tree order conditions up to the declared order, row-sum '
        'consistency, explicitness, the declared FSAL structure, and the error weights annihilate all trees up to the declared estimator '
        'order; continuous (dense output) weights satisfy the order conditions as polynomials; implicit-method transformation tables '
        'diagonalise the collocation matrix; Gauss tables have exactness degree 2n-1; finite-difference stencils have their moments; tensor '
        'index tables are mutual inverses and projector tables equal their definitions')

METHOD = 'russell_ode::enums::Method'
TOL = Q(1, 10**13)


# rooted trees --------------------------------------------------------------------------------------

@lru_cache(None)
def trees(n):
    """rooted trees with n vertices as sorted tuples of subtrees"""
    if n == 1:
        return [()]
    out = set()

    def forests(total, maxidx):
        if total == 0:
            yield ()
            return
        for k in range(1, total + 1):
            for t in trees(k):
                for rest in forests(total - k, None):
                    yield tuple(sorted((t,) + rest, key=repr))
    for f in set(forests(n - 1, None)):
        out.add(f)
    return sorted(out, key=repr)


def size(t):
    return 1 + sum(size(s) for s in t)


def gamma(t):
    g = size(t)
    for s in t:
        g *= gamma(s)
    return g


def phi(t, A, cache):
    if t in cache:
        return cache[t]
    n = len(A)
    v = [Q(1)] * n
    for s in t:
        p = phi(s, A, cache)
        for i in range(n):
            acc = Q(0)
            row = A[i]
            for j in range(n):
                if row[j] and p[j]:
                    acc += row[j] * p[j]
            v[i] *= acc
    cache[t] = v
    return v


def dot(a, b):
    return sum((x * y for x, y in zip(a, b)), Q(0))


def q(x):
    return [q(y) for y in x] if isinstance(x, list) else Q(x)


def depth(x):
    return 1 + (depth(x[0]) if x else 0) if isinstance(x, list) else 0


# extraction ----------------------------------------------------------------------------------------

def info_of(prog, variant):
    fn = method_of(prog, 'Method', 'information')
    s = spec.specialise(prog, fn, METHOD, variant)
    g = mir.cfg(s)
    for b in g.rpo:
        for st in s.blocks[b].s:
            if st[0] == '=' and st[2][0] == 'agg' and st[2][1][0] == 'adt' and st[2][1][1].endswith('::Information'):
                names = st[2][1][4]
                V = mir.values(s)
                vals = [V.expr(o) for o in st[2][2]]
                if all(v[0] == 'const' for v in vals):
                    return {n: v[1] for n, v in zip(names, vals)}
    raise mir.AnchorError('declared attributes of method %s not found' % variant)


def method_of(prog, ty, name):
    c = [f for f in prog.fns.values() if f.kind == 'AssocFn' and f.path.endswith('::' + name) and (f.impl_self or '').split('<')[0].endswith('::' + ty)]
    if len(c) != 1:
        raise mir.AnchorError('%s::%s: %d candidates' % (ty, name, len(c)))
    return c[0]


def erk_tables(prog, base, variant):
    s = spec.specialise(prog, base, METHOD, variant)
    g = mir.cfg(s)
    for b in g.rpo:
        for st in s.blocks[b].s:
            if st[0] == '=' and st[2][0] == 'agg' and st[2][1][0] == 'adt' and st[2][1][1].endswith('::ExplicitRungeKutta'):
                fields = dict(zip(st[2][1][4], st[2][2]))
                out = {}
                for name in ('aa', 'bb', 'cc', 'ee'):
                    c = [x for x in spec.slice_consts(s, fields[name])]
                    uniq = []
                    for x in c:
                        if x not in uniq:
                            uniq.append(x)
                    if len(uniq) > 1:
                        raise mir.AnchorError('%s: several tables may become %s' % (variant, name))
                    out[name] = uniq[0] if uniq else None
                return out
    return None


def selected(prog, fn, variant, want_depth):
    """constant arrays referenced in the part of fn that runs for a method"""
    s = spec.specialise(prog, fn, METHOD, variant)
    out = []
    for b in mir.cfg(s).rpo:
        blk = s.blocks[b]
        ops = []
        for st in blk.s:
            if st[0] == '=' and st[2][0] == 'use':
                ops.append(st[2][1])
        for o in ops:
            if o[0] == 'k':
                v = mir.decode(o[1].get('v'))
                if isinstance(v, list) and depth(v) == want_depth and v not in out:
                    out.append(v)
    return out


def const(prog, suffix, crate):
    c = [x for k, x in prog.consts.items() if k.startswith(crate + '::') and k.endswith('::' + suffix)]
    if len(c) != 1:
        raise mir.AnchorError('constant %s of %s: %d found' % (suffix, crate, len(c)))
    return mir.decode(c[0]['v'])


# polynomials in theta ---------------------------------------------------------------------------------

def padd(a, b):
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else Q(0)) + (b[i] if i < len(b) else Q(0)) for i in range(n)]


def pmul(a, b):
    out = [Q(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                out[i + j] += x * y
    return out


TH, UT = [Q(0), Q(1)], [Q(1), Q(-1)]


def vecpoly(ws):
    return [[w] for w in ws]


def vadd(a, b):
    return [padd(x, y) for x, y in zip(a, b)]


def vscale(p, a):
    return [pmul(p, x) for x in a]


def check():
    rep = Report('P16', RULE)
    prog = mir.Program()
    rep.t0 = __import__('time').time()
    worst = [0.0]

    def near(val, ref, key, where, msg, tol=TOL):
        d = abs(val - ref)
        worst[0] = max(worst[0], float(d))
        if d <= tol:
            rep.ok()
            return True
        rep.bad(key, where, '%s: off by %.3e' % (msg, float(d)))
        return False

    new = method_of(prog, 'ExplicitRungeKutta', 'new')
    inl = mir.inline(prog, new, lambda f, t, s: f.crate == 'russell_ode' and f.kind in ('Fn', 'AssocFn'), max_depth=4)
    where = new.where()
    adt = prog.adts[METHOD]
    tabs = {}
    for v in adt['variants']:
        m = v['name']
        rep.count('methods')
        info = info_of(prog, m)
        t = erk_tables(prog, inl, m)
        if t is None or t['aa'] is None:
            rep.count('methods without explicit tables')
            continue
        rep.count('explicit methods')
        A, b, c = q(t['aa']), q(t['bb']), q(t['cc'])
        tabs[m] = (A, b, c)
        n = len(b)
        key = 'method %s ' % m
        if len(A) != n or any(len(r) != n for r in A) or len(c) != n:
            rep.bad(key + 'table shapes', where, '%s: tables of different sizes' % m)
            continue
        p = info['order']
        for i in range(n):
            near(sum(A[i]), c[i], key + 'row sum', where, '%s: row %d of A does not add up to c' % (m, i))
            for j in range(i, n):
                if A[i][j] != 0:
                    rep.bad(key + 'explicit', where, '%s: A[%d][%d] is not zero in an explicit method' % (m, i, j))
        cache = {}
        for k in range(1, p + 1):
            for tr in trees(k):
                rep.count('order conditions')
                near(dot(b, phi(tr, A, cache)), Q(1, gamma(tr)), key + 'order', where, '%s: order condition of order %d violated although order %d is declared' % (m, k, p))
        # the declared order is not an understatement
        if all(abs(dot(b, phi(tr, A, cache)) - Q(1, gamma(tr))) < TOL for tr in trees(p + 1)) if p < 8 else False:
            rep.bad(key + 'declared order', where, '%s: the tables have a higher order than the declared %d' % (m, p))
        if info['implicit']:
            rep.bad(key + 'implicit', where, '%s is explicit but declared implicit' % m)
        if info['multiple_stages'] != (n > 1):
            rep.bad(key + 'stages', where, '%s: wrong multiple_stages attribute' % m)
        fsal = A[n - 1] == b and c[n - 1] == 1
        if info['first_step_same_as_last'] and not fsal:
            rep.bad(key + 'fsal', where, '%s declares that its last stage is the first of the next step, but the last row of A is not b' % m)
        else:
            rep.ok()
        if info['embedded'] != (t['ee'] is not None):
            rep.bad(key + 'embedded', where, '%s: embedded attribute and error table disagree' % m)
        if (info['order_of_estimator'] > 0) != info['embedded']:
            rep.bad(key + 'estimator', where, '%s: embedded without estimator order or vice versa' % m)
        if t['ee'] is not None:
            e = q(t['ee'])
            rep.count('error estimators')
            if len(e) != n:
                rep.bad(key + 'error table shape', where, '%s: error table of wrong size' % m)
                continue
            qe = min(p, info['order_of_estimator'])
            if m == 'DoPri8':
                qe = 5   # the estimator combines embedded orders 5 and 3
            for k in range(1, qe + 1):
                for tr in trees(k):
                    rep.count('order conditions')
                    near(dot(e, phi(tr, A, cache)), Q(0), key + 'error weights', where, '%s: error weights do not cancel a term of order %d' % (m, k))
            if all(abs(dot(e, phi(tr, A, cache))) < Q(1, 10**8) for tr in trees(qe + 1)):
                rep.bad(key + 'error weights trivial', where, '%s: error weights also cancel every term of order %d; the estimate would be of a higher order than declared' % (m, qe + 1))
            else:
                rep.ok('%s: order %d conditions, estimator order %d' % (m, p, qe))
    # embedded tables that are listed next to the error tables: e = b - be
    for k, x in prog.consts.items():
        if k.startswith('russell_ode::constants::') and k.endswith('_BE'):
            stem = k[:-3]
            if stem + '_B' in prog.consts and stem + '_E' in prog.consts:
                b, be, e = (q(mir.decode(prog.consts[stem + s]['v'])) for s in ('_B', '_BE', '_E'))
                rep.count('embedded tables')
                for i in range(len(b)):
                    near(e[i], b[i] - be[i], 'table %s_E' % stem, '%s:%s' % (x['file'], x['line']), 'error table entry %d is not the difference of the two solutions' % i)
    # third-order companion of the DoPri8 estimator
    A, b, c = tabs['DoPri8']
    step = method_of(prog, 'ExplicitRungeKutta', 'step')
    bhh = [Q(const(prog, 'DORMAND_PRINCE_8_BHH%d' % i, 'russell_ode')) for i in (1, 2, 3)]
    w = [Q(0)] * 12
    w[0], w[8], w[11] = bhh
    cache = {}
    for k in range(1, 4):
        for tr in trees(k):
            near(dot(w, phi(tr, A, cache)), Q(1, gamma(tr)), 'method DoPri8 third-order weights', where, 'DoPri8: the third-order weights violate a condition of order %d' % k)
    # dense output ---------------------------------------------------------------------------------
    upd = method_of(prog, 'ErkDenseOut', 'update')
    A, b, c = tabs['DoPri5']
    d5 = [x for x in selected(prog, upd, 'DoPri5', 2)]
    if len(d5) != 1:
        raise mir.AnchorError('dense output table of DoPri5: %d candidates' % len(d5))
    d = q(d5[0][0])
    e1 = [Q(int(i == 0)) for i in range(7)]
    e7 = [Q(int(i == 6)) for i in range(7)]
    bspl = [x - y for x, y in zip(e1, b)]
    c4 = [y - z - s for y, z, s in zip(b, e7, bspl)]
    bt = vscale(TH, vadd(vecpoly(b), vscale(UT, vadd(vecpoly(bspl), vscale(TH, vadd(vecpoly(c4), vscale(UT, vecpoly(d))))))))
    dense(rep, near, 'DoPri5', A, bt, 4, upd.where())
    A, b, c = tabs['DoPri8']
    arr = selected(prog, upd, 'DoPri8', 2)
    cds = selected(prog, upd, 'DoPri8', 1)
    dd = [x for x in arr if len(x) == 4 and len(x[0]) == 16]
    ad = [x for x in arr if len(x) == 3 and len(x[0]) == 15]
    cd = [x for x in cds if len(x) == 3]
    if len(dd) != 1 or len(ad) != 1 or len(cd) != 1:
        raise mir.AnchorError('dense output tables of DoPri8 not found')
    dd, ad, cd = q(dd[0]), q(ad[0]), q(cd[0])
    A16 = [r + [Q(0)] * 4 for r in A]
    A16.append(list(b) + [Q(0)] * 4)
    for i in range(3):
        A16.append(ad[i] + [Q(0)])
        near(sum(ad[i]), cd[i], 'DoPri8 dense output rows', upd.where(), 'DoPri8: extra stage %d is inconsistent' % i)
    b16 = list(b) + [Q(0)] * 4
    e1 = [Q(int(i == 0)) for i in range(16)]
    e13 = [Q(int(i == 12)) for i in range(16)]
    bspl = [x - y for x, y in zip(e1, b16)]
    c4 = [y - z - s for y, z, s in zip(b16, e13, bspl)]
    par = vadd(vecpoly(dd[0]), vscale(TH, vadd(vecpoly(dd[1]), vscale(UT, vadd(vecpoly(dd[2]), vscale(TH, vecpoly(dd[3])))))))
    bt = vscale(TH, vadd(vecpoly(b16), vscale(UT, vadd(vecpoly(bspl), vscale(TH, vadd(vecpoly(c4), vscale(UT, par)))))))
    dense(rep, near, 'DoPri8', A16, bt, 7, upd.where())
    radau(rep, prog, near)
    gauss(rep, prog, near)
    stencils(rep, prog, near)
    tensors(rep, prog, near)
    scalars(rep, prog, near)
    rep.counts['largest deviation (1e-18)'] = int(worst[0] * 1e18)
    rep.floor('methods', 16)
    rep.floor('explicit methods', 13)
    rep.floor('error estimators', 8)
    rep.floor('order conditions', 500)
    return rep


def dense(rep, near, m, A, bt, order, where):
    cache = {}
    for k in range(1, order + 1):
        for tr in trees(k):
            rep.count('continuous order conditions')
            p = phi(tr, A, cache)
            acc = [Q(0)]
            for i in range(len(A)):
                acc = padd(acc, [p[i] * x for x in bt[i]])
            ref = [Q(0)] * (k + 1)
            ref[k] = Q(1, gamma(tr))
            diff = padd(acc, [-x for x in ref])
            near(max(abs(x) for x in diff), Q(0), 'method %s dense output' % m, where, '%s: dense output violates a condition of order %d' % (m, k), Q(1, 10**12))


def inv3(M):
    n = len(M)
    a = [list(r) + [Q(int(i == j)) for j in range(n)] for i, r in enumerate(M)]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(a[r][i]))
        a[i], a[p] = a[p], a[i]
        f = a[i][i]
        a[i] = [x / f for x in a[i]]
        for r in range(n):
            if r != i and a[r][i]:
                g = a[r][i]
                a[r] = [x - g * y for x, y in zip(a[r], a[i])]
    return [r[n:] for r in a]


def mm(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def sqrtq(n, digits=60):
    return Q(math.isqrt(n * 10**(2 * digits)), 10**digits)


def radau(rep, prog, near):
    C = lambda s: const(prog, 'radau5::' + s, 'russell_ode')
    where = 'russell_ode/src/radau5.rs'
    s6 = sqrtq(6)
    c = [(4 - s6) / 10, (4 + s6) / 10, Q(1)]
    for i, x in enumerate(C('C')):
        near(Q(x), c[i], 'radau5 nodes', where, 'Radau IIA node %d' % i, Q(1, 10**15))
    # collocation matrix: A V = W with V_jk = c_j^k, W_jk = c_j^(k+1)/(k+1)
    V = [[c[i]**k for k in range(3)] for i in range(3)]
    W = [[c[i]**(k + 1) / (k + 1) for k in range(3)] for i in range(3)]
    A = mm(W, inv3(V))
    Ai = inv3(A)
    T, TI = q(C('T')), q(C('TI'))
    al, be, ga = Q(C('ALPHA')), Q(C('BETA')), Q(C('GAMMA'))
    P = mm(T, TI)
    D = mm(mm(TI, Ai), T)
    ref = [[ga, 0, 0], [0, al, -be], [0, be, al]]
    for i in range(3):
        for j in range(3):
            near(P[i][j], Q(int(i == j)), 'radau5 transformation inverse', where, 'T and its tabulated inverse are not inverse to each other')
            near(D[i][j], Q(ref[i][j]), 'radau5 eigenvalues', where, 'the transformation does not bring the inverse of A to the tabulated eigenvalues')
    dd = [-(13 + 7 * s6) / 3, (-13 + 7 * s6) / 3, Q(-1, 3)]
    # error estimator: gamma0*e = (dd)/gamma
    for i, n in enumerate(('E0', 'E1', 'E2')):
        near(Q(C(n)) * ga, dd[i], 'radau5 error weights', where, 'error weight %s' % n)
    mus = {'MU1': c[0], 'MU2': c[1], 'MU3': c[0] - 1, 'MU4': c[1] - 1, 'MU5': c[0] - c[1]}
    for n, r in mus.items():
        near(Q(C(n)), r, 'radau5 interpolation nodes', where, 'interpolation constant %s' % n, Q(1, 10**15))
    info = info_of(prog, 'Radau5')
    b = A[2]
    ok = all(abs(dot(b, [x**(k - 1) for x in c]) - Q(1, k)) < TOL for k in range(1, info['order'] + 1))
    if ok and info['implicit'] and info['embedded']:
        rep.ok('Radau5: order %d, transformation, eigenvalues, error weights' % info['order'])
    else:
        rep.bad('radau5 declared attributes', where, 'declared attributes of Radau5 do not match its nodes')


def gauss(rep, prog, near):
    for k, x in prog.consts.items():
        if not (k.startswith('russell_lab::algo::') and k.endswith('_A') and k[:-2] + '_W' in prog.consts):
            continue
        a, w = mir.decode(x['v']), mir.decode(prog.consts[k[:-2] + '_W']['v'])
        where = '%s:%s' % (x['file'], x['line'])
        rep.count('gauss tables')
        if len(a) != len(w):
            rep.bad('table ' + k, where, 'abscissas and weights of different sizes')
            continue
        a, w = q(a), q(w)
        n = 2 * len(a)
        for d in range(0, 2 * n, 2):
            near(sum(wi * 2 * ai**d for ai, wi in zip(a, w)), Q(2, d + 1), 'table ' + k, where, 'Gauss rule with %d points does not integrate degree %d' % (n, d), Q(1, 10**14))
        if any(not (0 < ai < 1) for ai in a) or len(set(a)) != len(a):
            rep.bad('table ' + k, where, 'abscissas outside (0,1) or repeated')
    rep.floor('gauss tables', 5)


def stencils(rep, prog, near):
    for name, deriv, sign, sym in (('deriv1_forward', 1, 1, False), ('deriv1_backward', 1, -1, False), ('deriv2_forward', 2, 1, False),
                                   ('deriv2_backward', 2, -1, False), ('deriv2_central', 2, 1, True)):
        cs = {}
        for k, x in prog.consts.items():
            h, _, l = k.rpartition('::')
            if h == 'russell_lab::check::' + name and l[0] == 'C' and l[1:].isdigit():
                cs[int(l[1:])] = Q(mir.decode(x['v']))
        if not cs:
            continue
        rep.count('difference stencils')
        n = len(cs)
        pts = [(Q(i) * sign, cs[i]) for i in range(n)]
        if sym:
            pts += [(-Q(i), cs[i]) for i in range(1, n)]
        for d in range(len(pts)):
            ref = Q(math.factorial(deriv)) if d == deriv else Q(0)
            near(sum(w * x**d for x, w in pts), ref, 'stencil ' + name, 'russell_lab/src/check/%s.rs' % name, 'stencil %s has a wrong moment of degree %d' % (name, d), sum(abs(w * x**d) for x, w in pts) / 10**15 + TOL / 100)


def tensors(rep, prog, near):
    C = lambda s: const(prog, 'constants::' + s, 'russell_tensor')
    where = 'russell_tensor/src/constants.rs'
    m2ij = [tuple(x) for x in C('M_TO_IJ')]
    ij2m = C('IJ_TO_M')
    if sorted(m2ij) != [(i, j) for i in range(3) for j in range(3)]:
        rep.bad('table M_TO_IJ', where, 'M_TO_IJ is not a bijection onto the index pairs')
        return
    # layout of the Kelvin vector: diagonal first, then the upper triangle, then the lower triangle in the same order
    lay = all(i == j for i, j in m2ij[:3]) and all(i < j for i, j in m2ij[3:6]) and [(j, i) for i, j in m2ij[3:6]] == m2ij[6:9]
    if not lay:
        rep.bad('table M_TO_IJ layout', where, 'M_TO_IJ does not follow the diagonal / upper / lower layout')
    else:
        rep.ok()

    def eq(name, got, want):
        rep.count('tensor table entries')
        if got == want:
            rep.ok()
        else:
            rep.bad('table ' + name, where, '%s: entry %s should be %s' % (name, got, want))

    msym = {}
    for m, (i, j) in enumerate(m2ij[:6]):
        msym[(i, j)] = msym[(j, i)] = m
    minv = {ij: m for m, ij in enumerate(m2ij)}
    R = range(3)
    t = {n: C(n) for n in ('IJ_TO_M_SYM', 'IJKL_TO_MN', 'IJKL_TO_MN_SYM', 'IJK_TO_MN_CASE_A', 'IJK_TO_MN_CASE_B', 'IJK_TO_MN_SYM_CASE_A', 'IJK_TO_MN_SYM_CASE_B',
                           'MN_TO_IJKL', 'MN_TO_IJK_CASE_A', 'MN_TO_IJK_CASE_B')}
    for i in R:
        for j in R:
            eq('IJ_TO_M', ij2m[i][j], minv[(i, j)])
            eq('IJ_TO_M_SYM', t['IJ_TO_M_SYM'][i][j], msym[(i, j)])
            for k in R:
                eq('IJK_TO_MN_CASE_A', t['IJK_TO_MN_CASE_A'][i][j][k], [minv[(i, j)], k])
                eq('IJK_TO_MN_CASE_B', t['IJK_TO_MN_CASE_B'][i][j][k], [i, minv[(j, k)]])
                eq('IJK_TO_MN_SYM_CASE_A', t['IJK_TO_MN_SYM_CASE_A'][i][j][k], [msym[(i, j)], k])
                eq('IJK_TO_MN_SYM_CASE_B', t['IJK_TO_MN_SYM_CASE_B'][i][j][k], [i, msym[(j, k)]])
                for l in R:
                    eq('IJKL_TO_MN', t['IJKL_TO_MN'][i][j][k][l], [minv[(i, j)], minv[(k, l)]])
                    eq('IJKL_TO_MN_SYM', t['IJKL_TO_MN_SYM'][i][j][k][l], [msym[(i, j)], msym[(k, l)]])
    for m in range(9):
        for n in range(9):
            eq('MN_TO_IJKL', t['MN_TO_IJKL'][m][n], list(m2ij[m] + m2ij[n]))
        for k in R:
            eq('MN_TO_IJK_CASE_A', t['MN_TO_IJK_CASE_A'][m][k], list(m2ij[m]) + [k])
            eq('MN_TO_IJK_CASE_B', t['MN_TO_IJK_CASE_B'][k][m], [k] + list(m2ij[m]))
    # orthonormal Kelvin basis tensors (factor sqrt(1/2) squared appears twice, so entries stay rational)
    def basis(m):
        i, j = m2ij[m]
        if m < 3:
            return {(i, j): 1}, 1
        if m < 6:
            return {(i, j): 1, (j, i): 1}, 2      # times 1/sqrt(2)
        i, j = m2ij[m - 3]
        return {(i, j): 1, (j, i): -1}, 2

    def kelvin(f):
        """components of the operator with D_ijkl = f(i,j,k,l)"""
        out = []
        for m in range(9):
            row = []
            for n in range(9):
                bm, nm = basis(m)
                bn, nn = basis(n)
                s = sum(x * y * f(i, j, k, l) for (i, j), x in bm.items() for (k, l), y in bn.items())
                row.append((Q(s), nm * nn))
            out.append(row)
        return out

    dl = lambda a, b: Q(int(a == b))
    II = lambda i, j, k, l: dl(i, k) * dl(j, l)
    TT = lambda i, j, k, l: dl(i, l) * dl(j, k)
    JJ = lambda i, j, k, l: dl(i, j) * dl(k, l)
    defsn = {
        'IDENTITY4': II, 'TRANSPOSITION': TT, 'TRACE_PROJECTION': JJ,
        'P_ISO': lambda *a: JJ(*a) / 3,
        'P_SYM': lambda *a: (II(*a) + TT(*a)) / 2,
        'P_SKEW': lambda *a: (II(*a) - TT(*a)) / 2,
        'P_DEV': lambda *a: II(*a) - JJ(*a) / 3,
        'P_SYMDEV': lambda *a: (II(*a) + TT(*a)) / 2 - JJ(*a) / 3,
    }
    for name, f in defsn.items():
        tab = C(name)
        K = kelvin(f)
        for m in range(9):
            for n in range(9):
                rep.count('tensor table entries')
                s, d = K[m][n]
                # value = s / sqrt(d), d in {1,2,4}
                ref = s if d == 1 else s / 2 if d == 4 else s / sqrtq(2)
                near(Q(tab[m][n]), ref, 'table ' + name, where, '%s[%d][%d]' % (name, m, n), Q(1, 10**15))
    for m, x in enumerate(C('IDENTITY2')):
        near(Q(x), Q(int(m < 3)), 'table IDENTITY2', where, 'IDENTITY2[%d]' % m)


def scalars(rep, prog, near):
    """named irrational constants"""
    import mpmath
    mpmath.mp.dps = 50
    ref = {
        'SQRT_2': mpmath.sqrt(2), 'SQRT_3': mpmath.sqrt(3), 'SQRT_6': mpmath.sqrt(6), 'SQRT_2_BY_3': mpmath.sqrt(mpmath.mpf(2) / 3),
        'SQRT_3_BY_2': mpmath.sqrt(mpmath.mpf(3) / 2), 'ONE_BY_3': mpmath.mpf(1) / 3, 'TWO_BY_3': mpmath.mpf(2) / 3, 'PI': mpmath.pi,
        'SQRT_PI': mpmath.sqrt(mpmath.pi), 'EULER': mpmath.euler, 'NAPIER': mpmath.e, 'LN2': mpmath.log(2), 'LN10': mpmath.log(10),
        'GOLDEN_RATIO': mpmath.phi, 'ONE_BY_SQRT_2': 1 / mpmath.sqrt(2), 'COS_PI_BY_8': mpmath.cos(mpmath.pi / 8), 'SIN_PI_BY_8': mpmath.sin(mpmath.pi / 8),
    }
    for k, x in prog.consts.items():
        n = k.rsplit('::', 1)[-1]
        if n in ref and '::constants::' in k and x['ty'] == 'f64':
            rep.count('scalar constants')
            r = ref[n]
            qq = Q(str(mpmath.nstr(r + 0, 40)))
            near(Q(mir.decode(x['v'])), qq, 'constant ' + k, '%s:%s' % (x['file'], x['line']), 'value of ' + n, Q(abs(mir.decode(x['v']))) / 2**52)
    rep.floor('scalar constants', 20)

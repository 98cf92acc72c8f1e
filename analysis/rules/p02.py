"""P02: native calls never reach outside their buffers."""
import re
from .. import arith, counting, flow, mir
from ..arith import add, con, cval, mul, sub, sym
from ..report import Report

RULE = ('at every call of a BLAS, LAPACK or sparse-solver routine, for every combination of argument shapes the guards before it let through, each array is at least as long as the documented '
        'interface of the routine requires for the dimensions, increments, leading dimensions and workspace size passed with it; lengths and sizes are compared as polynomials, the length of '
        'the storage of a matrix is rows times columns (shown wherever a matrix is made or its storage is resized), and the dimension a sparse solver checks later is the one it gave to the native code')

MATRIX = 'russell_lab::matrix::num_matrix::NumMatrix'
COL, ROW, NOTRANS = 102, 101, 111


def vec(n, x, inc):
    return ('vec', n, x, inc)


def mat(rows, cols, a, ld, layout=None):
    return ('mat', rows, cols, a, ld, layout)


# requirements per routine (type letter removed); arguments by position
# sizes: an index, ('op', flag, index if not transposed, index otherwise), ('min', i, j), ('k', c, index)
NEED = {
    'copy': [vec(0, 1, 2), vec(0, 3, 4)], 'scal': [vec(0, 2, 3)], 'axpy': [vec(0, 2, 3), vec(0, 4, 5)],
    'dot': [vec(0, 1, 2), vec(0, 3, 4)], 'nrm2': [vec(0, 1, 2)], 'asum': [vec(0, 1, 2)], 'amax': [vec(0, 1, 2)],
    'gemm': [mat(('op', 1, 3, 5), ('op', 1, 5, 3), 7, 8, 0), mat(('op', 2, 5, 4), ('op', 2, 4, 5), 9, 10, 0), mat(3, 4, 12, 13, 0)],
    'gemv': [mat(2, 3, 5, 6, 0), vec(('op', 1, 3, 2), 7, 8), vec(('op', 1, 2, 3), 10, 11)],
    'ger': [vec(1, 4, 5), vec(2, 6, 7), mat(1, 2, 8, 9, 0)],
    'syrk': [mat(('op', 2, 3, 4), ('op', 2, 4, 3), 6, 7, 0), mat(3, 3, 9, 10, 0)],
    'herk': [mat(('op', 2, 3, 4), ('op', 2, 4, 3), 6, 7, 0), mat(3, 3, 9, 10, 0)],
    'gesv': [mat(0, 0, 2, 3), ('len', 4, 0), mat(0, 1, 5, 6)],
    'getrf': [mat(0, 1, 2, 3), ('len', 4, ('min', 0, 1))],
    'getri': [mat(0, 0, 1, 2), ('len', 3, 0), ('work', 4, 5)],
    'potrf': [mat(1, 1, 2, 3)],
    'lange': [mat(1, 2, 3, 4), ('if', ('norm', 0), ('len', 5, 1))],
    'syev': [mat(2, 2, 3, 4), ('len', 5, 2), ('work', 6, 7)],
    'heev': [mat(2, 2, 3, 4), ('len', 5, 2), ('work', 6, 7), ('len', 8, ('lin', 2, 3, -2))],
    'dgeev': [mat(2, 2, 3, 4), ('len', 5, 2), ('len', 6, 2), ('if', ('flag', 0), mat(2, 2, 7, 8)), ('if', ('flag', 1), mat(2, 2, 9, 10)), ('work', 11, 12)],
    'zgeev': [mat(2, 2, 3, 4), ('len', 5, 2), ('if', ('flag', 0), mat(2, 2, 6, 7)), ('if', ('flag', 1), mat(2, 2, 8, 9)), ('work', 10, 11), ('len', 12, ('lin', 2, 2, 0))],
    'dggev': [mat(2, 2, 3, 4), mat(2, 2, 5, 6), ('len', 7, 2), ('len', 8, 2), ('len', 9, 2), ('if', ('flag', 0), mat(2, 2, 10, 11)),
              ('if', ('flag', 1), mat(2, 2, 12, 13)), ('work', 14, 15)],
    'zggev': [mat(2, 2, 3, 4), mat(2, 2, 5, 6), ('len', 7, 2), ('len', 8, 2), ('if', ('flag', 0), mat(2, 2, 9, 10)),
              ('if', ('flag', 1), mat(2, 2, 11, 12)), ('work', 13, 14), ('len', 15, ('lin', 2, 8, 0))],
    'dgesvd': [mat(2, 3, 4, 5), ('len', 6, ('min', 2, 3)), ('svd', 0, mat(2, 2, 7, 8), 2, 3), ('svd', 1, mat(3, 3, 9, 10), 2, 3), ('work', 11, 12)],
    'zgesvd': [mat(2, 3, 4, 5), ('len', 6, ('min', 2, 3)), ('svd', 0, mat(2, 2, 7, 8), 2, 3), ('svd', 1, mat(3, 3, 9, 10), 2, 3), ('work', 11, 12), ('len', 13, ('min5', 2, 3))],
}
SPARSE = re.compile(r'(solver_(umfpack|mumps|cudss))_(initialize|factorize|solve)$')
# position of (dimension, arrays of that length, arrays one longer, entry count, arrays of entries) per argument name of the native interface
PLAIN = re.compile(r'^c_(using_intel_mkl|set_num_threads|get_num_threads)$')


def foreign(t):
    return mir.callee_name(t[1]).rsplit('::', 1)[-1] if t[1].get('foreign') else None


def routine(name):
    """requirements of a native routine, None when unknown"""
    n = re.sub(r'^(cblas_|c_)', '', name)
    if n in NEED:
        return NEED[n]
    for cut in ('dz', 'id', 'iz', 'd', 'z'):
        if n.startswith(cut) and n[len(cut):] in NEED:
            return NEED[n[len(cut):]]
    return None


class Client(arith.Client):
    def __init__(self, prog, rep=None):
        self.prog = prog
        self.sites = {}
        self.aggs = {}
        self.dims, self.sols = {}, {}
        self.args = {f['name']: f['anames'] for f in prog.foreign.values()}

    def start(self, fl):
        return ()

    def restart(self, fl):
        self.sites, self.aggs, self.dims, self.sols = {}, {}, {}, {}

    # -- lengths known from the type ----------------------------------------------------------------
    def length(self, fl, env, path):
        """storage of a matrix that came in from outside"""
        if not path or not (isinstance(path[-1], tuple) and path[-1][0] == 'f'):
            return None
        ty = fl.field_ty(path[:-1]) if len(path) > 1 else None
        ty = re.sub(r"^&('\w+ )?(mut )?", '', ty or '')
        if ty.split('<')[0] == MATRIX and path[-1][1] == self.field('data'):
            out = []
            for f in ('nrow', 'ncol'):
                q = path[:-1] + (('f', self.field(f)),)
                v = env.get(q)
                if not (v and v[0] == 'p'):
                    v = ('p', sym('%s@%d:usize' % (f, arith.tag(q))))
                    env[q] = v
                out.append(v[1])
            return mul(out[0], out[1])
        return None

    def field(self, name):
        a = self.prog.adts[MATRIX]
        return [f[0] for f in a['variants'][0]['fields']].index(name)

    # -- obligations --------------------------------------------------------------------------------
    def note(self, fl, b, t, what, good, st, goals=()):
        s = self.sites.setdefault((b, what), [True, fl.fn.blocks[b], t])
        if not good:
            s[0] = False

    def call(self, fl, st, env, b, t):
        name = foreign(t)
        if not name:
            return None
        need = routine(name)
        m = SPARSE.search(name)
        if need is not None:
            for r in need:
                self.require(fl, st, env, b, t, r)
        elif m:
            self.sparse(fl, st, env, b, t, m)
        elif not PLAIN.search(name):
            self.note(fl, b, t, 'unknown routine', False, st)
        for a in t[2]:
            self.keep(fl, env, a)
        fl.store(env, t[3], None)
        return [(st, env)]

    def sparse(self, fl, st, env, b, t, m):
        names = self.args[foreign(t)]
        at = {n: i for i, n in enumerate(names)}
        me = lambda f: (1, '*', ('f', f))
        if m.group(3) == 'initialize':
            dim = self.number(fl, env, t[2][at['ndim']])
            same = set()
            for q, v in env.items():
                if len(q) == 3 and q[:2] == (1, '*') and q[2][0] == 'f' and v[0] == 'p' and dim is not None:
                    d = sub(v[1], dim)
                    if fl.proves(st, d) and fl.proves(st, mul(con(-1), d)):
                        same.add(q[2][1])
            k = m.group(1) + '|' + str(fl.fn.locals[1][0])
            self.dims[k] = self.dims[k] & same if k in self.dims else same
            for n, i in at.items():
                if n.endswith('_pointers'):
                    ln = self.buffer(fl, env, t[2][i])
                    self.note(fl, b, t, 'argument %d (pointers)' % (i + 1), ln is not None and dim is not None and fl.proves(st, sub(sub(ln, dim), con(1))), st)
                elif 'nnz' in at and (n.startswith('indices_') or n.startswith('values')):
                    ln, nnz = self.buffer(fl, env, t[2][i]), self.number(fl, env, t[2][at['nnz']])
                    self.note(fl, b, t, 'argument %d (entries)' % (i + 1), ln is not None and nnz is not None and fl.proves(st, sub(ln, nnz)), st)
        elif m.group(3) == 'solve':
            for n in ('x', 'rhs'):
                if n not in at:
                    continue
                ln = self.buffer(fl, env, t[2][at[n]])
                good = set()
                for q, v in env.items():
                    if len(q) == 3 and q[:2] == (1, '*') and q[2][0] == 'f' and v[0] == 'p' and ln is not None and fl.proves(st, sub(ln, v[1])):
                        good.add(q[2][1])
                k = (m.group(1) + '|' + str(fl.fn.locals[1][0]), b, n, at[n])
                self.sols[k] = (self.sols[k][0] & good if k in self.sols else good, fl.fn.blocks[b], t)

    def keep(self, fl, env, a):
        """the native code may change numbers behind pointers but no lengths"""
        ty = fl.op_ty(a) or ''
        v = fl.val(env, a)
        if ty.startswith('*mut i32') and v and v[0] == 'ref':
            env.pop(v[1], None)

    def size(self, fl, st, env, t, s):
        """alternatives for a size: list of polynomials, any of which may be used"""
        if isinstance(s, int):
            v = self.number(fl, env, t[2][s])
            return [v] if v is not None else []
        if s[0] == 'op':
            f = self.number(fl, env, t[2][s[1]])
            c = cval(f) if f is not None else None
            if c is None:
                return []
            return self.size(fl, st, env, t, s[2] if c == NOTRANS else s[3])
        if s[0] == 'min':
            x, y = self.size(fl, st, env, t, s[1]), self.size(fl, st, env, t, s[2])
            return x + y + [f for f, g in fl.minof.items() if x and y and set(g) == {x[0], y[0]}]
        if s[0] == 'min5':
            return [mul(con(5), x) for x in self.size(fl, st, env, t, ('min',) + s[1:])]
        if s[0] == 'lin':
            return [add(mul(con(s[2]), x), con(s[3])) for x in self.size(fl, st, env, t, s[1])]
        return []

    def number(self, fl, env, a):
        ty = fl.op_ty(a) or ''
        if arith.isint(ty):
            return fl.poly(env, a, ty)
        v = fl.val(env, a)
        if v and v[0] == 'ref':
            w = env.get(v[1])
            if w is None and '[]' not in v[1]:
                w = ('p', fl.fresh('n', 'i32', str(arith.tag(v[1]))))
                env[v[1]] = w
            return w[1] if w and w[0] == 'p' else con(w[1]) if w and w[0] == 'k' and isinstance(w[1], int) else None
        return None

    def buffer(self, fl, env, a):
        v = fl.val(env, a)
        if not v or v[0] != 'ref' or '[]' in v[1]:
            return None
        ty = fl.field_ty(v[1]) or ''
        if re.match(r'(f64|i32|num_complex::Complex<f64>)$', ty):
            return con(1)
        return fl.length(env, v[1])

    def require(self, fl, st, env, b, t, r):
        def ge(x, alts):
            return x is not None and any(fl.proves(st, sub(x, y)) for y in alts)
        k = r[0]
        if k == 'vec':
            n, ln, inc = self.size(fl, st, env, t, r[1]), self.buffer(fl, env, t[2][r[2]]), self.number(fl, env, t[2][r[3]])
            c = cval(inc) if inc is not None else None
            ok = c is not None and c > 0 and ge(ln, [add(mul(con(c), x), con(1 - c)) for x in n])
            self.note(fl, b, t, 'argument %d (vector)' % (r[2] + 1), ok, st)
        elif k == 'len':
            ok = ge(self.buffer(fl, env, t[2][r[1]]), self.size(fl, st, env, t, r[2]))
            self.note(fl, b, t, 'argument %d (array)' % (r[1] + 1), ok, st)
        elif k == 'mat':
            rows, cols = self.size(fl, st, env, t, r[1]), self.size(fl, st, env, t, r[2])
            if r[5] is not None:
                lay = self.number(fl, env, t[2][r[5]])
                if lay is None or cval(lay) not in (COL, ROW):
                    rows = cols = []
                elif cval(lay) == ROW:
                    rows, cols = cols, rows
            ln, ld = self.buffer(fl, env, t[2][r[3]]), self.number(fl, env, t[2][r[4]])
            ok = ld is not None and ge(ld, rows) and ge(ln, [mul(ld, c) for c in cols] + [add(mul(ld, sub(c, con(1))), x) for c in cols for x in rows])
            self.note(fl, b, t, 'argument %d (matrix)' % (r[3] + 1), ok, st)
        elif k == 'work':
            ln, lw = self.buffer(fl, env, t[2][r[1]]), self.number(fl, env, t[2][r[2]])
            if lw is not None and cval(lw) == -1:
                ok = ge(ln, [con(1)])
            else:
                ok = lw is not None and ge(ln, [lw])
            self.note(fl, b, t, 'argument %d (workspace)' % (r[1] + 1), ok, st)
        elif k == 'if':
            kind, i = r[1]
            f = self.number(fl, env, t[2][i])
            c = cval(f) if f is not None else None
            if kind == 'flag' and c == 0:
                return
            if kind == 'norm' and c is not None and c != self.inf_code():
                return
            self.require(fl, st, env, b, t, r[2])
        elif k == 'svd':
            f = self.number(fl, env, t[2][r[1]])
            self.require(fl, st, env, b, t, r[2])

    def inf_code(self):
        for k, a in self.prog.adts.items():
            if k.endswith('::Norm') and a['kind'] == 'Enum':
                for i, v in enumerate(a['variants']):
                    if v['name'] == 'Inf':
                        return v['discr'] if v.get('discr') is not None else i
        raise mir.AnchorError('the enumeration of norms is gone')


def holders(prog):
    """functions with native calls that take arrays"""
    out = []
    for fn in prog.fns.values():
        n = sum(1 for b in fn.blocks if b.t[0] == 'call' and foreign(b.t) and (routine(foreign(b.t)) is not None or SPARSE.search(foreign(b.t)) or not PLAIN.search(foreign(b.t))
                                                                                and not re.search(r'_(new|drop)$', foreign(b.t))))
        if n:
            out.append(fn)
    return out


def expand(cf, t, stack):
    if re.search(r'cmp::PartialEq', str(cf.impl_trait or '')):
        return False
    # tables from a choice to a code do not matter for sizes
    return not (len(cf.ins) == 1 and cf.out == 'i32' and cf.ins[0] not in arith.UNSIGNED and cf.ins[0] not in arith.SIGNED)


class Engine(arith.Arith):
    """also watches the making of matrices"""

    def assign(self, env, st, dest, r, b):
        if r[0] == 'agg' and r[1][0] == 'adt' and r[1][1] == MATRIX:
            cl = self.client
            o = {n: r[2][cl.field(n)] for n in ('nrow', 'ncol', 'data')}
            nr, nc = self.poly(env, o['nrow'], 'usize'), self.poly(env, o['ncol'], 'usize')
            ln = self.length(env, self.place(env, o['data'][1])) if o['data'][0] in ('c', 'm') else None
            ok = None not in (nr, nc, ln)
            if ok:
                d = sub(ln, mul(nr, nc))
                ok = self.proves(st, d) and self.proves(st, mul(con(-1), d))
            a = cl.aggs.setdefault((b, r[1][1]), [True, self.fn.blocks[b]])
            a[0] = a[0] and ok
        return super().assign(env, st, dest, r, b)


def analyse(prog, fn):
    inl = mir.inline(prog, fn, expand, max_depth=6)
    cl = Client(prog)
    fl = Engine(prog, inl, cl)
    fl.run()
    return cl, fl


DERIVED = re.compile(r"^<.* as (serde|serde_core)::|::_::")
# what may be done with a mutable reference to the storage of a matrix without changing its length
STEADY = re.compile(r'::(deref_mut|deref|index_mut|index|as_mut_ptr|as_ptr|as_mut_slice|as_slice|iter_mut|iter|into_iter|fill|copy_from_slice|clone_from_slice|swap|len|sort|reverse|borrow|get_mut|chunks_mut'
                    r'|chunks_exact_mut|split_at_mut|last_mut|first_mut|as_mut|as_ref)$')


def storage(prog, rep):
    """the length of the storage of a matrix stays rows times columns"""
    a = prog.adts.get(MATRIX)
    if not a or {'nrow', 'ncol', 'data'} - {f[0] for f in a['variants'][0]['fields']}:
        raise mir.AnchorError('the fields of the matrix changed')
    idx = {i: f[0] for i, f in enumerate(a['variants'][0]['fields'])}
    makers = []
    for fn in prog.fns.values():
        made = False
        for bi, b in enumerate(fn.blocks):
            for s in b.s:
                if s[0] != '=':
                    continue
                if s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] == MATRIX:
                    made = True
                fid = counting.field_id(prog, fn, s[1])
                if fid and fid[0] == MATRIX and len(s[1]) > 1 and s[1][-1][0] == 'f':
                    rep.count('writes to matrix fields')
                    rep.bad('%s|writes %s' % (fn.path, idx[fid[1]]), fn.where(s[3]), '%s changes the %s of an existing matrix by itself; the lengths given to native code rely on rows times columns' % (fn.path, idx[fid[1]]))
                if s[2][0] in ('ref', 'raw') and 'mut' in str(s[2][1]) and s[2][2][-1] != '*':
                    fid = counting.field_id(prog, fn, s[2][2])
                    if fid and fid[0] == MATRIX and idx[fid[1]] in idx.values():
                        rep.count('mutable references to matrix fields')
                        why = leak(fn, s[1][0], idx[fid[1]])
                        if why:
                            rep.bad('%s|hands out %s' % (fn.path, idx[fid[1]]), fn.where(s[3]), '%s %s; the length of the storage can then differ from rows times columns, and native code reads outside it' % (fn.path, why))
                        else:
                            rep.ok('%s only changes components' % fn.path)
        if made:
            makers.append(fn)
    for fn in makers:
        rep.count('makers of matrices')
        if DERIVED.search(fn.path):
            rep.bad('%s|derived' % re.sub(r'::\{.*', '', fn.path), fn.where(), 'a matrix is made from external data without comparing the number of values with rows times columns')
            continue
        try:
            cl, fl = analyse(prog, fn)
        except flow.Limit as e:
            rep.error(str(e))
            continue
        mine = [v for v in cl.aggs.values()]
        if not mine:
            rep.error('no construction of a matrix reached in %s' % fn.path)
        for ok, blk in mine:
            if ok:
                rep.ok('%s makes a matrix with rows times columns values' % fn.path)
            else:
                rep.bad('%s|makes' % fn.path, fn.where(), '%s makes a matrix whose storage is not shown to hold rows times columns values' % fn.path)


def leak(fn, v, name):
    """what happens to a mutable reference that could change more than components; None when nothing"""
    seen, work = set(), [v]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == 0:
            return 'gives its caller a mutable reference to the %s' % name if re.match(r'&mut alloc::vec::Vec', fn.locals[0][0]) or name != 'data' else None
        for b in fn.blocks:
            for s in b.s:
                if s[0] == '=' and s[2][0] in ('use', 'cast') and any(o[0] in ('c', 'm') and o[1] == (x,) for o in s[2][1:] if isinstance(o, tuple) and o and o[0] in ('c', 'm', 'k')):
                    if not re.match(r'&mut \[', fn.locals[s[1][0]][0]):
                        work.append(s[1][0])
                elif s[0] == '=' and s[2][0] in ('ref', 'raw') and s[2][2][0] == x and s[2][2][1:] == ('*',):
                    if not re.match(r'&mut \[', fn.locals[s[1][0]][0]):
                        work.append(s[1][0])
            if b.t[0] == 'call' and any(o[0] in ('c', 'm') and o[1] == (x,) for o in b.t[2]):
                nm = mir.callee_name(b.t[1])
                if not STEADY.search(nm):
                    return 'passes a mutable reference to the %s to %s' % (name, nm)
    return None


def public(prog, fn):
    return fn.reach or bool(fn.impl_trait)


def callers(prog, fn):
    return [g for g in prog.fns.values() if g is not fn and any(b.t[0] == 'call' and prog.callee_fn(b.t[1]) is fn for b in g.blocks)]


def check():
    rep = Report('P02', RULE)
    seen = set()
    for variant in (None, 'mumps', 'cudss'):
        prog = mir.Program(variant)
        if variant is None:
            storage(prog, rep)
        hs = [fn for fn in holders(prog) if fn.path not in seen]
        seen |= {fn.path for fn in hs}
        examine(prog, hs, rep)
    rep.floor('makers of matrices', 5)
    rep.floor('native calls', 55)
    rep.floor('arrays', 140)
    rep.floor('solver dimensions', 2)
    return rep


def examine(prog, hs, rep):
    dims, sols, natives = {}, [], set()
    work = [(fn, ()) for fn in hs]
    done = set()
    while work:
        fn, via = work.pop(0)
        if fn.path in done:
            continue
        done.add(fn.path)
        try:
            cl, fl = analyse(prog, fn)
        except flow.Limit as e:
            rep.error(str(e))
            continue
        rep.count('functions')
        rep.count('states', fl.states)
        own = [k for k, v in cl.sites.items() if v[1].fn.path == fn.path or v[1].fn.path in via]
        if not all(cl.sites[k][0] for k in own) and not public(prog, fn):
            up = [g for g in callers(prog, fn) if g.path not in done]
            if up:
                # a helper that relies on its callers
                work += [(g, via + (fn.path,)) for g in up]
                continue
        for k in own:
            ok, blk, t = cl.sites[k]
            name = foreign(t)
            natives.add((blk.fn.path, name, t[5]))
            rep.count('arrays')
            if ok:
                rep.ok('%s: %s of %s is large enough' % (fn.path, k[1], name))
            else:
                rep.bad('%s|%s|%s' % (blk.fn.path, name, k[1]), blk.fn.where(t[5]),
                        '%s of %s, called in %s%s, is not shown to be as large as the sizes passed with it require' % (k[1], name, blk.fn.path, '' if blk.fn.path == fn.path else ' (from %s)' % fn.path))
        for k, v in cl.dims.items():
            dims[k] = dims[k] & v if k in dims else v
        for k, v in cl.sols.items():
            sols.append((k, v, fn))
    rep.count('native calls', len(natives))
    for (k, b, n, i), (good, blk, t), fn in sols:
        rep.count('arrays')
        rep.count('solver dimensions')
        if k not in dims:
            rep.error('no initialisation for %s' % k)
            continue
        f = good & dims[k]
        key = '%s|%s|argument %d' % (blk.fn.path, foreign(t), i + 1)
        if not f:
            rep.bad(key, blk.fn.where(t[5]), 'the array %s of %s, called in %s, is not compared with the dimension the native solver was initialised with' % (n, foreign(t), blk.fn.path))
            continue
        # nobody else may change that dimension
        adt = re.sub(r"^(&('\w+ )?(mut )?)+", '', k.split('|')[1]).split('<')[0]
        for g in prog.fns.values():
            for bb in g.blocks:
                for s in bb.s:
                    if s[0] == '=' and counting.field_id(prog, g, s[1]) in {(adt, x) for x in f} and not initialises(prog, g):
                        rep.bad('%s|changes' % g.path, g.where(s[3]), '%s changes the dimension kept for the native solver without initialising it' % g.path)
        rep.ok('%s: the array %s of %s is as long as the dimension of the native solver' % (fn.path, n, foreign(t)))


def initialises(prog, g):
    return any(b.t[0] == 'call' and foreign(b.t) and foreign(b.t).endswith('_initialize') for b in g.blocks)

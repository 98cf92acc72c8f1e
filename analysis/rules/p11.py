"""P11: results never depend on stale output contents."""
import itertools
import re
from .. import cells, mir
from ..report import Report

RULE = ('for every public operation on vectors, matrices and tensors that writes into an argument, and for every representation and every combination of small sizes it accepts, each component of the result is assigned on '
        'every successful path and no previous content of an output or workspace argument reaches it; operations that update an argument are the exception, and there every component keeps depending on the previous content')

# operations documented as updates of an argument, by name
UPDATE = re.compile(r'(_update|mat(_t)?_mat_mul)$')
# operations documented as changing arguments in place: names of these arguments
INPLACE = [(re.compile(r'_scale$'), {'a', 'v'}), (re.compile(r'(solve_lin_sys)$'), {'a', 'b'}), (re.compile(r'cholesky$'), {'a'}), (re.compile(r'eigen(_\w+)?$|eigenvalues$'), {'a', 'b'}),
           (re.compile(r'svd$|pseudo_inverse$'), {'a'}), (re.compile(r'rank_op$'), {'c'})]
CRATES = ('russell_lab', 'russell_tensor', 'russell_sparse')


def kind(ty):
    """kind of an argument, without the reference"""
    t = re.sub(r"^&('\w+ )?(mut )?", '', ty)
    m = re.fullmatch(r'russell_tensor::tensor(\d)::Tensor\1', t)
    if m:
        return 'T' + m.group(1)
    if t.startswith('russell_lab::vector::num_vector::NumVector<'):
        return 'V'
    if t.startswith('russell_lab::matrix::num_matrix::NumMatrix<'):
        return 'M'
    if t in ('f64', 'num_complex::Complex<f64>', 'T'):
        return 'n'
    if t == 'bool':
        return 'b'
    if t == 'usize':
        return 'u'
    m = re.fullmatch(r'(russell_sparse::\w+::Num\w+Matrix)<.*>', t)
    if m:
        return 'P' + m.group(1)
    m = re.fullmatch(r'((alloc::vec::Vec<)+)f64>+', t)
    if m:
        return 'N%d' % t.count('Vec<')
    m = re.fullmatch(r'russell_tensor::(\w+)::(\w+)', t)
    if m:
        return 'S' + t
    return None


def outputs(fn):
    """positions of the arguments an operation writes"""
    inplace = set()
    for rx, names in INPLACE:
        if rx.search(fn.path.rsplit('::', 1)[-1]):
            inplace = names
    res = []
    for i, ty in enumerate(fn.ins):
        k = kind(ty)
        if ty.startswith('&mut ') and k and k[0] in 'TVMN' and not (fn.anames[i:i + 1] == ['self']) and not (i < len(fn.anames) and fn.anames[i] in inplace):
            res.append(i)
    return res


class Shapes:
    """arguments of the analysed cases, built by the constructors of the program"""

    def __init__(self, prog):
        self.prog = prog
        self.cache = {}
        reps = prog.adts.get('russell_tensor::enums::Rep')
        if not reps:
            raise mir.AnchorError('representations of tensors not found')
        self.reps = [v['name'] for v in reps['variants']]

    def build(self, path, args):
        """fields of a new object"""
        fn = self.prog.one(path)
        key = (path, str(args))
        if key not in self.cache:
            inl = flat(self.prog, fn)
            m = cells.Machine(self.prog, inl)
            st = {}
            for i, a in enumerate(args):
                for r, v in a.items():
                    st[(i + 1,) + r] = v
            outs = m.run(st)
            if len(outs) != 1:
                raise mir.AnchorError('constructor %s not understood' % path)
            self.cache[key] = m.sub(outs[0], (0,))
        return self.cache[key]

    def cases(self, k, cplx, big):
        """(label, tree) of each shape of an argument"""
        if k in ('T2', 'T4'):
            return [(r, self.build('tensor%s::Tensor%s::new' % (k[1], k[1]), [{('#',): ('k', i)}])) for i, r in enumerate(self.reps)]
        if k == 'T3':
            return [('%s %s' % (r, 'AB'[b]), self.build('tensor3::Tensor3::new', [{('#',): ('k', i)}, {(): ('k', not b)}])) for i, r in enumerate(self.reps) for b in (0, 1)]
        if k == 'T1':
            return [('', self.build('tensor1::Tensor1::new', []))]
        if k == 'V':
            return [('%d' % n, self.build('num_vector::NumVector::<T>::new', [{(): ('k', n)}])) for n in big['V']]
        if k == 'M':
            return [('%dx%d' % (m, n), self.build('num_matrix::NumMatrix::<T>::new', [{(): ('k', m)}, {(): ('k', n)}])) for m, n in big['M']]
        if k == 'n':
            return [('', {(): cells.CLEAN})]
        if k == 'b':
            return [('', {(): cells.CLEAN})]
        if k == 'u':
            return [('%d' % i, {(): ('k', i)}) for i in (0, 1, 2, 3)]
        if k[0] == 'N':
            d = int(k[1:])
            tree = {}
            for ix in itertools.product(range(3), repeat=d):
                tree[tuple(('e', i) for i in ix)] = cells.CLEAN
            for n in range(d):
                for ix in itertools.product(range(3), repeat=n):
                    tree[tuple(('e', i) for i in ix) + ('len',)] = ('k', 3)
            return [('3', tree)]
        if k[0] == 'S':
            return self.object(k[1:])
        if k[0] == 'P':
            return self.sparse(k[1:])
        return []

    def sparse(self, ty):
        """sparse matrices with unknown positions of the entries"""
        res = []
        fields = self.prog.adts[ty]['variants'][0]['fields']
        kinds = [v['name'] for v in self.prog.adts['russell_sparse::enums::Sym']['variants']]
        for (m, n), nnz, (i, sym) in itertools.product(((1, 1), (2, 2), (2, 3), (3, 2)), (0, 3), enumerate(kinds)):
            if sym != 'No' and m != n:
                continue
            tree = {}
            for j, f in enumerate(fields):
                p = (('f', j),)
                if f[1] == 'usize':
                    tree[p] = ('k', {'nrow': m, 'ncol': n}.get(f[0], nnz))
                elif f[1].endswith('::Sym'):
                    tree[p + ('#',)] = ('k', i)
                elif f[1].startswith('alloc::vec::Vec<'):
                    ln = (m if f[0].startswith('row') else n) + 1 if 'pointers' in f[0] else nnz
                    tree[p + ('len',)] = ('k', ln)
                    for e in range(ln):
                        tree[p + (('e', e),)] = cells.CLEAN
            res.append(('%dx%d %s with %d entries' % (m, n, sym, nnz), tree))
        return res

    def object(self, ty):
        """objects of other types: every case of the arguments of their constructor"""
        name = ty.rsplit('::', 1)
        for f in self.prog.fns.values():
            if f.path == ty + '::new':
                lists = []
                for t in f.ins:
                    k = kind(t)
                    if k in ('b',):
                        lists.append([('%s' % b, {(): ('k', b)}) for b in (False, True)])
                    elif k == 'n':
                        lists.append([('', {(): cells.CLEAN})])
                    elif t.endswith('enums::Rep'):
                        lists.append([(r, {('#',): ('k', i)}) for i, r in enumerate(self.reps)])
                    else:
                        return []
                res = []
                for combo in itertools.product(*lists):
                    try:
                        res.append((' '.join(x for x, _ in combo), self.build(f.path, [t for _, t in combo])))
                    except (mir.AnchorError, cells.Undecided):
                        pass
                return [(l, {r[2:]: v for r, v in t.items() if r[:2] == (('d', 0), ('f', 0))} or t) for l, t in res]
        return []


def flat(prog, fn):
    return mir.inline(prog, fn, lambda cf, t, stack: cf.kind == 'Closure' or cf.crate in CRATES, max_depth=9, max_blocks=20000)


def stain(tree, name, cplx=False):
    """numbers of an argument replaced by their origin"""
    t = cells.data({name} if name else ())
    out = {}
    for r, v in tree.items():
        if v[0] == 't' or v[0] == 'k' and isinstance(v[1], float):
            for q in ((('f', 0),), (('f', 1),)) if cplx else ((),):
                out[r + q] = t
        else:
            out[r] = v
    return out


def visible(k, tree, prog):
    """components an object has"""
    consts = {}
    if k[0] == 'T':
        adt = prog.adts.get('russell_tensor::tensor%s::Tensor%s' % (k[1], k[1]))
        for i, f in enumerate(adt['variants'][0]['fields']):
            v = tree.get((('f', i),))
            if v and v[0] == 'k':
                consts[f[0]] = v[1]
    lim = [consts['dim']] * 2 if 'dim' in consts else [consts['nrow'], consts['ncol']] if 'nrow' in consts else None
    out = []
    for r, v in tree.items():
        if v[0] != 't':
            continue
        ix = [e[1] for e in r if isinstance(e, tuple) and e[0] == 'e']
        if lim and k[0] == 'T' and len(ix) <= len(lim) and any(i >= n for i, n in zip(ix, lim)):
            continue
        out.append((r, ix))
    return out


def sizes(ks):
    nm, nv = ks.count('M'), ks.count('V')
    if nm + nv == 0:
        return [{'V': (), 'M': ()}]
    if nm == 0 and not any(k and k[0] == 'P' for k in ks):
        return [{'V': (n,), 'M': ()} for n in (0, 1, 2, 3, 4, 5, 7, 9, 17, 20)]
    small = (0, 1, 2, 3)
    if any(k[0] == 'P' for k in ks):
        return [{'V': (1, 2, 3), 'M': [(1, 1), (2, 2), (2, 3), (3, 2)]}]
    if nm + nv == 1 and any(k[0] == 'T' for k in ks):
        return [{'V': small + (4, 6, 9), 'M': [(m, n) for m in small for n in small] + [(4, 4), (6, 6), (9, 9), (9, 3), (3, 9)]}]
    if nm + nv <= 2:
        return [{'V': small + (4, 5), 'M': [(m, n) for m in small + (4, 5) for n in small + (4, 5)]}]
    if nm + nv <= 3:
        return [{'V': small, 'M': [(m, n) for m in small for n in small]}]
    return [{'V': (n, ), 'M': [(n, n)]} for n in (0, 1, 2, 3, 4)] + [{'V': (min(m, n),), 'M': [(m, n), (m, m), (n, n)]} for m, n in ((2, 3), (3, 2))]


def check():
    rep = Report('P11', RULE)
    prog = mir.Program()
    for k, f in list(prog.fns.items()):
        if f.crate in CRATES:
            prog.fns[k] = mir.expand_counts(prog, f)
    sh = Shapes(prog)
    for fn in sorted(prog.fns.values(), key=lambda f: f.path):
        if fn.crate not in CRATES or not (fn.pub and fn.reach) or fn.kind == 'Closure':
            continue
        outs = outputs(fn)
        if not outs:
            continue
        rep.count('operations with an output')
        ks = [kind(t) for t in fn.ins]
        if None in ks or any(k[0] == 'S' and not sh.object(k[1:]) for k in ks):
            rep.count('operations not analysed')
            continue
        one(rep, prog, sh, fn, ks, outs)
    rep.floor('operations with an output', 60)
    rep.floor('operations decided', 50)
    rep.floor('cases', 500)
    return rep


def one(rep, prog, sh, fn, ks, outs):
    name = fn.path.rsplit('::', 1)[-1]
    upd = bool(UPDATE.search(name))
    inl = flat(prog, fn)
    scratch = [i for i, t in enumerate(fn.ins) if t.startswith('&mut ') and i not in outs and ks[i][0] == 'S']
    done = 0
    und = None
    bad = {}
    for big in sizes(ks):
        for combo in itertools.product(*[sh.cases(k, 'Complex' in t, big) for k, t in zip(ks, fn.ins)]):
            st = {}
            for i, (lab, tree) in enumerate(combo):
                nm = fn.anames[i] if i < len(fn.anames) else 'arg%d' % i
                tree = stain(tree, nm if i in outs or i in scratch else None, 'Complex<' in fn.ins[i])
                if i in scratch:
                    tree = {r: cells.data({'.'.join([nm] + [str(e[1]) for e in r if isinstance(e, tuple) and e[0] == 'f'])}) if v == cells.data({nm}) and r else v for r, v in tree.items()}
                if fn.ins[i].startswith('&'):
                    root = 'a%d' % i
                    for r, v in tree.items():
                        st[(root,) + r] = v
                    st[(i + 1,)] = ('ref', (root,))
                else:
                    for r, v in tree.items():
                        st[(i + 1,) + r] = v
            try:
                m = cells.Machine(prog, inl)
                st0 = dict(st)
                ends = m.run(st)
            except cells.Undecided as e:
                und = str(e)
                rep.count('cases undecided')
                continue
            good = []
            for end in ends:
                tag = end.get((0, '#'))
                if tag and tag[0] == 'k' and (fn.out.startswith('core::result::Result') and tag[1] == 1 or fn.out.startswith('core::option::Option') and tag[1] == 0):
                    continue
                good.append(end)
            if not good:
                continue
            done += 1
            rep.count('cases')
            # parts of a workspace that are never changed are settings, not stale contents
            fixed = set()
            for i in scratch:
                old = {p: v for p, v in st0.items() if p[0] == 'a%d' % i}
                names = {x for v in old.values() for x in cells.taints(v)}
                fixed |= names - {x for p, v in old.items() for x in cells.taints(v) if any(e.get(p) != v for e in good)}
            lab = ', '.join('%s %s' % (fn.anames[j], l) for j, (l, _) in enumerate(combo) if l)
            for i in outs:
                nm = fn.anames[i]
                for r, ix in visible(ks[i], stain(combo[i][1], nm, 'Complex<' in fn.ins[i]), prog):
                    t = frozenset().union(*[cells.taints(m.leaf(e, ('a%d' % i,) + r) or cells.CLEAN) for e in good]) - fixed
                    rep.count('components')
                    if t & {'!ptr', '!idx'} and t - {'!idx'}:
                        rep.count('components undecided')
                    elif upd and i == outs[0] and nm not in t:
                        bad.setdefault(('lost', i), (ix, lab))
                    elif not upd and t - {'!idx'}:
                        bad.setdefault(('stale', i), (ix, lab, sorted(t)))
    if und and not done:
        rep.count('operations undecided')
        return
    if not done:
        rep.count('operations without an accepted case')
        return
    rep.count('operations decided')
    for (what, i), x in sorted(bad.items()):
        nm = fn.anames[i]
        if what == 'lost':
            rep.bad('%s|%s|lost' % (fn.path, nm), fn.where(), '%s updates %s but component %s does not depend on the previous content (%s)' % (fn.path, nm, x[0], x[1]))
        else:
            rep.bad('%s|%s' % (fn.path, nm), fn.where(), 'component %s of %s still depends on the previous content of %s after %s (%s)' % (x[0], nm, ', '.join(x[2]), fn.path, x[1]))
    if not bad:
        rep.ok('%s: %d cases' % (fn.path, done))

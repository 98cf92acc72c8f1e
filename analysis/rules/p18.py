"""P18: matrix files declare exactly what they contain."""
import re
from .. import cases, flow, mir
from ..report import Report

RULE = ('for every function that writes a Matrix Market (or visualisation) file the lines written for one generic entry are derived for every outcome of the conditions of the function '
        '(mode of the file, symmetry of the matrix, order of the two indices, size of the value): the count announced grows by exactly the number of lines listed, indices are one-based in '
        'Matrix Market files and zero-based in visualisation files for rows and for columns, a file announced as symmetric lists one triangle, one announced as general all entries, '
        'and entries are selected by their value alone')


class Lines(flow.Client):
    """collects the lines written"""

    def __init__(self):
        self.end = []

    def start(self, fl):
        return ()

    def call(self, fl, st, env, b, t):
        nm = mir.callee_name(t[1])
        if re.search(r'fmt::rt::Argument::<.*>::new_\w+$', nm):
            fl.store(env, t[3], ('sym', ('shown', nm.rsplit('_', 1)[-1], fl.term(fl.behind(env, fl.val(env, t[2][0]))))))
            return [(st, env)]
        if re.search(r'fmt::Arguments::<.*>::from_str(_nonconst)?$', nm):
            v = fl.behind(env, fl.val(env, t[2][0]))
            fl.store(env, t[3], ('sym', ('text', v[1] if v and v[0] == 'k' else '?')))
            return [(st, env)]
        if re.search(r'fmt::Arguments::<.*>::new(_v1|_const)?$', nm):
            tm = fl.behind(env, fl.val(env, t[2][0]))
            args = []
            if len(t[2]) > 1:
                v = fl.val(env, t[2][1])
                while v and v[0] == 'ref' and fl.load_path(env, v[1]) and fl.load_path(env, v[1])[0] == 'ref':
                    v = fl.load_path(env, v[1])
                i = 0
                while v and v[0] == 'ref' and v[1] + (('f', i),) in env:
                    args.append(env[v[1] + (('f', i),)])
                    i += 1
            fl.store(env, t[3], ('sym', ('line', tm[1] if tm and tm[0] == 'k' else None, tuple(args))))
            return [(st, env)]
        if re.search(r'::write_fmt$', nm):
            v = fl.val(env, t[2][1])
            fl.store(env, t[3], ('var', 0, None))
            return [(st + ((v[1] if v and v[0] == 'sym' else ('?',), t[5]),), env)]
        if re.search(r'::format$', nm):
            fl.store(env, t[3], fl.val(env, t[2][0]))
            return [(st, env)]
        if re.search(r'String::(push_str|push)$|::write_str$|::write_all$', nm):
            v = fl.behind(env, fl.val(env, t[2][1]))
            fl.store(env, t[3], ('var', 0, None))
            if v and v[0] == 'k' and isinstance(v[1], str):
                v = ('sym', ('text', v[1]))
            if v and v[0] == 'sym' and v[1][0] in ('text', 'line'):
                return [(st + ((v[1], t[5]),), env)]
            return [(st, env)]
        return None

    def ret(self, fl, st, env, b):
        v = fl.load(env, (0,))
        self.end.append((v, st))


def plain(v):
    """(base term, constant added)"""
    if v[0] == 'sym' and v[1][0] == 'Add':
        a, b = v[1][1], v[1][2]
        if a[0] == 'k':
            a, b = b, a
        if b[0] == 'k':
            x, k = plain(a)
            return x, k + b[1]
    return v, 0


def fields_in(prog, fn, v):
    """names of the fields a term is built from (innermost first), and whether it is a loop variable"""
    out = []

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'mem':
                ty, names = fn.locals[x[1][0]][0], []
                ty = re.sub(r"^&('\w+ )?(mut )?", '', ty)
                for e in x[1][1:]:
                    a = prog.adts.get(ty.split('<')[0])
                    if isinstance(e, tuple) and e[0] == 'f' and a and a['kind'] == 'Struct' and e[1] < len(a['variants'][0]['fields']):
                        names.append(a['variants'][0]['fields'][e[1]][0])
                        ty = a['variants'][0]['fields'][e[1]][1]
                if names:
                    out.append('.'.join(names))
                return
            for y in x:
                walk(y)
    walk(v)
    return out


def role(prog, fn, v):
    """'row' or 'col' when the term is an index of an entry"""
    t = v[1] if v[0] == 'sym' else None
    if not t:
        return None
    if t[0] in ('item', 'proj'):
        base = t[1]
        names = fields_in(prog, fn, base)
        if names and re.search(r'row_ind|indices_i$', names[0]):
            return 'row'
        if names and re.search(r'col_ind|indices_j$', names[0]):
            return 'col'
    if t[0] == 'each':
        names = fields_in(prog, fn, t[1])
        if names and names[-1] == 'ncol':
            return 'col'
        if names and names[-1] == 'nrow':
            return 'row'
    return None


def check():
    rep = Report('P18', RULE)
    prog = mir.Program()
    for f in prog.fns.values():
        if f.crate == 'russell_sparse':
            mir.expand_filters(prog, f)
    writers = []
    for fn in sorted(prog.fns.values(), key=lambda f: f.path):
        if not fn.pub or fn.kind == 'Closure':
            continue
        inl = None
        if any('%%MatrixMarket' in repr(b.t) or any('%%MatrixMarket' in repr(s) for s in b.s) for b in fn.blocks):
            inl = fn
        else:
            # through helpers of the crate
            for b in fn.blocks:
                cf = prog.callee_fn(b.t[1]) if b.t[0] == 'call' else None
                if cf is not None and cf.crate == fn.crate and not cf.pub and '%%MatrixMarket' in repr([x.t for x in cf.blocks]):
                    inl = fn
        if inl is not None:
            writers.append(fn)
    for fn in writers:
        rep.count('functions writing matrix files')
        writer(rep, prog, fn)
    rep.floor('functions writing matrix files', 2)
    return rep


class Writer(cases.Cases):
    def canon(self, v):
        """the stored value of the entry is the same wherever it is read"""
        return tidy(self.prog, self.fn, v)


def tidy(prog, fn, v):
    if not isinstance(v, tuple):
        return v
    if len(v) == 2 and v[0] == 'sym' and v[1][0] in ('item', 'each'):
        names = fields_in(prog, fn, v[1][1])
        if names and names[0].split('.')[-1] == 'values':
            return ('sym', ('value',))
    return tuple(tidy(prog, fn, x) for x in v)


def writer(rep, prog, fn):
    inl = mir.inline(prog, fn, lambda cf, t, st: cf.crate == fn.crate, max_depth=5, max_blocks=20000)

    def run(profile):
        c = Lines()
        fl = Writer(prog, inl, c, profile)
        env0 = {(i,): ('ref', (i, '*')) for i in range(1, inl.argc + 1) if inl.locals[i][0].startswith('&')}
        fl.run(env0)
        return c.end
    try:
        res = cases.profiles(run)
    except (cases.Unknown, flow.Limit) as e:
        rep.count('writers left undecided')
        rep.assumptions.append('%s is not followed: %s' % (fn.path, e))
        return
    selected = {}
    n = 0
    for prof, ends in res:
        for v, lines in ends:
            if not v or v[0] != 'var' or v[1] != 0:
                continue
            heads = [x[1] for x, ln in lines if x[0] == 'text']
            full = [(x[2], ln) for x, ln in lines if x[0] == 'line']
            dims = [(a, ln) for a, ln in full if len(a) == 3 and [fields_in(prog, inl, y[1][2])[-1:] for y in a[:2] if y[1][0] == 'shown'] == [['nrow'], ['ncol']]
                    and not any(role(prog, inl, plain(y[1][2])[0]) for y in a[:2])]
            if not dims:
                continue
            n += 1
            listed = [(a, ln) for a, ln in full if (a, ln) not in dims]
            announced = dims[0][0][2][1][2]
            header = [h for h in heads if h.startswith('%%MatrixMarket')]
            case = show(prog, inl, prof)
            if announced[0] != 'k':
                rep.count('counts not followed')
                continue
            rep.count('cases')
            if announced[1] != len(listed):
                rep.bad('%s: count' % fn.path, fn.where(dims[0][1]), '%s: the file announces %d but lists %d lines for an entry with %s' % (fn.path, announced[1], len(listed), case))
                continue
            if len(dims) != 1 or len(header) > 1:
                rep.bad('%s: head' % fn.path, fn.where(dims[0][1]), '%s: %d headers and %d dimension lines are written with %s' % (fn.path, len(header), len(dims), case))
                continue
            off = 1 if header else 0
            ok = True
            pairs = []
            for a, ln in listed:
                if len(a) < 3 or not all(x[1][0] == 'shown' for x in a):
                    ok = None
                    break
                (x, kx), (y, ky) = plain(a[0][1][2]), plain(a[1][1][2])
                rx, ry = role(prog, inl, x), role(prog, inl, y)
                if rx is None or ry is None:
                    ok = None
                    break
                if kx != off or ky != off:
                    rep.bad('%s: base of indices' % fn.path, fn.where(ln), '%s: indices are written as %s+%d and %s+%d in a %s file' % (fn.path, rx, kx, ry, ky, 'Matrix Market' if off else 'visualisation'))
                    ok = False
                    break
                pairs.append((rx, ry))
            if ok is None:
                rep.count('lines not followed')
                continue
            if not ok:
                continue
            sym = 'symmetric' in header[0] if header else None
            # relation of the indices and storage of the matrix in this case
            rel = relation(prog, inl, prof)
            stored = storage(prog, prof, inl)
            if (stored == 'YesLower' and rel == 'lt') or (stored == 'YesUpper' and rel == 'gt'):
                continue
            want = None
            if header:
                if stored is not None and sym != (stored != 'No'):
                    rep.bad('%s: header' % fn.path, fn.where(dims[0][1]), '%s: the header says %s for a matrix with %s' % (fn.path, header[0].strip(), case))
                    continue
                if stored == 'No':
                    want = [[('row', 'col')]]
                elif stored == 'YesLower':
                    want = [[('row', 'col')]]
                elif stored == 'YesUpper':
                    want = [[('col', 'row')]]
                elif stored == 'YesFull':
                    want = [[('row', 'col')] if rel in ('gt', 'eq') else []] if rel else [[('row', 'col')], []]
            else:
                if stored in ('No', 'YesFull'):
                    want = [[('row', 'col')]]
                elif stored in ('YesLower', 'YesUpper'):
                    want = [[('row', 'col')], [('row', 'col'), ('col', 'row')]] if rel is None else [[('row', 'col')] if rel == 'eq' else [('row', 'col'), ('col', 'row')]]
                if rel == 'eq' and stored in ('YesLower', 'YesUpper'):
                    want = [[('row', 'col')], [('col', 'row')]]
            if rel == 'eq' and want:
                # on the diagonal the order does not matter
                want = want + [[(y, x) for x, y in w] for w in want]
            if want is None:
                rep.count('cases without a known storage')
                continue
            if pairs and sorted(pairs) not in [sorted(w) for w in want]:
                rep.bad('%s: listed entries' % fn.path, fn.where(listed[0][1]), '%s: an entry is listed as %s with %s' % (fn.path, ', '.join('(%s, %s)' % p for p in pairs), case))
                continue
            if [] not in want:
                val = frozenset((a, c) for a, c in prof.items() if a[0] == 'order' and not index_atom(prog, inl, a))
                selected.setdefault((len(listed) > 0, ), []).append((val, case, dims[0][1]))
            rep.ok()
    if not n:
        rep.count('writers left undecided')
        return
    # selection by value alone
    yes = [(v, c) for v, c, l in selected.get((True,), [])]
    for v, c, l in selected.get((False,), []):
        other = [c2 for v2, c2 in yes if v2 == v]
        if other:
            rep.bad('%s: selection' % fn.path, fn.where(l), '%s: an entry is left out with %s but listed with %s' % (fn.path, c, other[0]))
            break
    if not selected.get((True,)):
        rep.bad('%s: nothing listed' % fn.path, fn.where(), '%s lists no entry in any case' % fn.path)


def index_atom(prog, fn, a):
    return any(role(prog, fn, plain(x)[0]) for x in a[1:3])


def relation(prog, fn, prof):
    """order of the row and column index in a profile"""
    for a, c in prof.items():
        if a[0] == 'order':
            r = [role(prog, fn, x) for x in a[1:3]]
            if r == ['row', 'col']:
                return c
            if r == ['col', 'row']:
                return cases.MIRROR[c]
    return None


def storage(prog, prof, fn):
    for a, c in prof.items():
        if a[0] == 'variant':
            n = fields_in(prog, fn, a[1])
            if n and 'symmetric' in n[-1]:
                for k, d in prog.adts.items():
                    if k.endswith('enums::Sym'):
                        return d['variants'][c]['name']
    return None


def show(prog, fn, prof):
    out = []
    for a, c in prof.items():
        if a[0] == 'variant' and fields_in(prog, fn, a[1]):
            out.append('%s %s' % (fields_in(prog, fn, a[1])[-1], storage(prog, prof, fn) or c))
        elif a[0] == 'flag' and a[1][0] == 'mem':
            out.append('%s=%s' % (fn.locals[a[1][1][0]][1] or '?', c))
        elif a[0] == 'order':
            r = [role(prog, fn, x) for x in a[1:3]]
            if all(r):
                out.append('%s %s %s' % (r[0], {'lt': '<', 'eq': '=', 'gt': '>'}[c], r[1]))
            else:
                out.append('value %s tolerance' % {'lt': '<', 'eq': '=', 'gt': '>', 'un': 'not comparable to'}[c])
    return ', '.join(out) or 'any value'

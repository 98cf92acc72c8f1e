"""P04: both sides of the native interface agree."""
import re
from .. import clower, facts, flow, mir
from ..report import Report

RULE = ('every foreign declaration is compared with its C definition or library prototype (number of parameters, machine type and mutability position by position, '
        'return type, and no permutation of equally typed parameters); every constant named on both sides has one value; every job, norm and boolean '
        'selector a Rust call passes is propagated through the C shim to the character the numerical library documents for it, and every other '
        'argument of a shim reaches the library argument of the same role; every code the C side returns is told apart by the Rust side and described '
        'by the message of that code')

# argument names of the library routines the shims forward to (LAPACK Users' Guide)
LAPACK = {
    'gesv': 'n nrhs a lda ipiv b ldb info',
    'lange': 'norm m n a lda work',
    'potrf': 'uplo n a lda info',
    'dsyev': 'jobz uplo n a lda w work lwork info',
    'zheev': 'jobz uplo n a lda w work lwork rwork info',
    'dgeev': 'jobvl jobvr n a lda wr wi vl ldvl vr ldvr work lwork info',
    'zgeev': 'jobvl jobvr n a lda w vl ldvl vr ldvr work lwork rwork info',
    'dggev': 'jobvl jobvr n a lda b ldb alphar alphai beta vl ldvl vr ldvr work lwork info',
    'zggev': 'jobvl jobvr n a lda b ldb alpha beta vl ldvl vr ldvr work lwork rwork info',
    'dgesvd': 'jobu jobvt m n a lda s u ldu vt ldvt work lwork info',
    'zgesvd': 'jobu jobvt m n a lda s u ldu vt ldvt work lwork rwork info',
    'getrf': 'm n a lda ipiv info',
    'getri': 'n a lda ipiv work lwork info',
}
# selector arguments: shim parameter (by role) -> library argument
ROLE = {'calc_v': 'jobz', 'calc_vl': 'jobvl', 'calc_vr': 'jobvr', 'upper': 'uplo', 'norm_code': 'norm', 'jobu_code': 'jobu', 'jobvt_code': 'jobvt', 'vh': 'vt'}
# documented meaning of the selector values
BOOLS = {'jobz': ('N', 'V'), 'jobvl': ('N', 'V'), 'jobvr': ('N', 'V'), 'uplo': ('L', 'U')}
NORMS = {'Euc': 'FE', 'Fro': 'FE', 'Inf': 'I', 'Max': 'M', 'One': 'O1'}
CBLAS = {'CBLAS_ROW_MAJOR': 101, 'CBLAS_COL_MAJOR': 102, 'CBLAS_NO_TRANS': 111, 'CBLAS_TRANS': 112, 'CBLAS_CONJ_TRANS': 113, 'CBLAS_UPPER': 121,
         'CBLAS_LOWER': 122, 'CBLAS_NON_UNIT': 131, 'CBLAS_UNIT': 132, 'CBLAS_LEFT': 141, 'CBLAS_RIGHT': 142}
# selector values each BLAS routine accepts
SELECT = {'layout': {102}, 'uplo': {121, 122}, 'transa': {111, 112, 113}, 'transb': {111, 112, 113},
          'dsyrk.trans': {111, 112, 113}, 'zsyrk.trans': {111, 112}, 'zherk.trans': {111, 113}}
CBLAS_ARGS = {
    'gemm': 'layout transa transb m n k alpha a lda b ldb beta c ldc', 'gemv': 'layout transa m n alpha a lda x incx beta y incy',
    'ger': 'layout m n alpha x incx y incy a lda', 'syrk': 'layout uplo trans n k alpha a lda beta c ldc', 'herk': 'layout uplo trans n k alpha a lda beta c ldc',
    'axpy': 'n alpha x incx y incy', 'copy': 'n x incx y incy', 'scal': 'n alpha x incx', 'dot': 'n x incx y incy', 'asum': 'n x incx', 'nrm2': 'n x incx',
    'amax': 'n x incx',
}


def check():
    rep = Report('P04', RULE)
    cprogs = clower.programs(facts.extract())
    progs = {v: mir.Program(v) for v in (None, 'mumps', 'cudss')}
    decls = {}
    for v, prog in progs.items():
        for k, fo in prog.foreign.items():
            decls.setdefault((k, fo['name']), (prog, fo))
    for (k, name), (prog, fo) in sorted(decls.items()):
        signature(rep, cprogs, k, fo)
    constants(rep, progs, cprogs)
    shims(rep, cprogs)
    selectors(rep, progs, cprogs)
    codes(rep, progs, cprogs)
    callsites(rep, progs)
    rep.floor('foreign declarations', 60)
    rep.floor('parameters compared', 400)
    rep.floor('shared constants', 25)
    rep.floor('arguments forwarded by the shims', 140)
    rep.floor('selector values followed', 30)
    rep.floor('error codes', 60)
    rep.floor('requested outputs', 12)
    return rep


# -- signatures ---------------------------------------------------------------------------------------

def rust_type(t):
    """(pointer mutabilities, base)"""
    ptr = []
    while True:
        m = re.match(r'\*(mut|const) (.*)$', t)
        if not m:
            break
        ptr.append(m.group(1))
        t = m.group(2)
    base = {'i32': 'i32', 'f64': 'f64', '()': 'void', 'u8': 'char', 'i8': 'char', 'usize': 'u64', 'i64': 'i64', 'u32': 'u32', 'bool': 'bool'}.get(t)
    if base is None:
        base = 'c64' if 'Complex<f64>' in t else 'struct'
    return ptr, base, t


def c_type(t):
    t = re.sub(r'\b(struct|enum|restrict|OPENBLAS_CONST)\b', lambda m: m.group(0) + ' ', t)
    t = t.replace('__restrict', '').strip()
    parts = [x.strip() for x in t.split('*')]
    ptr = []
    base = parts[0]
    const = 'const' in base.split()
    base = ' '.join(w for w in base.split() if w not in ('const', 'volatile'))
    for p in parts[1:]:
        ptr.insert(0, 'const' if const else 'mut')
        const = 'const' in p.split()
    if base in ('int32_t', 'int', 'blasint', 'MUMPS_INT', 'signed int') or base.startswith('enum'):
        b = 'i32'
    elif base in ('double', 'MUMPS_DOUBLE', 'DMUMPS_REAL'):
        b = 'f64'
    elif base == 'void':
        b = 'void'
    elif base in ('size_t', 'uint64_t', 'unsigned long'):
        b = 'u64'
    elif base in ('int64_t', 'long', 'long long'):
        b = 'i64'
    elif base in ('_Complex double', 'cuDoubleComplex', 'ZMUMPS_COMPLEX_PAIR', 'double _Complex') or 'omplex' in base and not base.startswith('struct Interface'):
        b = 'c64'
    elif base == 'char':
        b = 'char'
    elif base in ('float', 'short', 'int16_t', 'int8_t', 'uint32_t', 'unsigned int', '_Bool', 'bool', 'uint8_t'):
        b = base
    else:
        b = 'struct'
    return ptr, b, base


def compatible(r, c):
    """None, or a description of the difference"""
    rp, rb, rt = r
    cp, cb, ct = c
    if len(rp) != len(cp):
        return 'a %s on the Rust side, a %s on the C side' % ('pointer' if rp else 'value', 'pointer' if cp else 'value')
    if rp != cp:
        return 'pointer to %s data on the Rust side, to %s data on the C side' % ('constant' if 'const' in rp else 'mutable', 'constant' if 'const' in cp else 'mutable')
    if rb == cb:
        if rb == 'struct':
            a, b = rt.rsplit('::', 1)[-1], ct.replace('struct', '').strip()
            if a != b and a.lower().replace('_', '') != b.lower().replace('_', ''):
                return 'handle %s on the Rust side, %s on the C side' % (a, b)
        return None
    if rp and rb == 'c64' and cb in ('f64', 'void'):
        return None          # complex numbers are handed over as pairs of doubles
    if rp and cb == 'void':
        return None
    return 'type %s on the Rust side, %s on the C side' % (rt, ct)


def definition(cprogs, name, crate):
    for cp in cprogs:
        if name in cp.fns and cp.fns[name].pub and cp.cf.rel.startswith(crate + '/'):
            f = cp.fns[name]
            return f.ins, f.out, f.anames, cp.cf.rel
    for cp in cprogs:
        p = cp.cf.protos.get(name)
        if p and cp.cf.rel.startswith(crate + '/'):
            m = re.match(r'(.*?)\s*\((.*)\)$', p)
            ins = [x.strip() for x in m.group(2).split(',')] if m.group(2).strip() not in ('', 'void') else []
            names = None
            b = re.fullmatch(r'cblas_i?[a-z]z?(%s)' % '|'.join(CBLAS_ARGS), name) or re.fullmatch(r'cblas_[a-z]+?(%s)' % '|'.join(CBLAS_ARGS), name)
            if b:
                names = CBLAS_ARGS[b.group(1)].split()
            return ins, m.group(1).strip(), names, 'library header'
    return None


def signature(rep, cprogs, key, fo):
    rep.count('foreign declarations')
    name = fo['name']
    where = '%s:%s' % (mir.relfile(fo.get('file', '?')), fo.get('line', '?'))
    d = definition(cprogs, name, fo['crate'])
    if d is None:
        rep.bad('%s: no definition' % key, where, 'the foreign function %s has no C definition or library prototype' % name)
        return
    ins, out, names, rel = d
    if len(ins) != len(fo['ins']):
        rep.bad('%s: number of parameters' % key, where, '%s is declared with %d parameters but defined with %d (%s)' % (name, len(fo['ins']), len(ins), rel))
        return
    for i, (a, b) in enumerate(zip(fo['ins'], ins)):
        rep.count('parameters compared')
        diff = compatible(rust_type(a), c_type(b))
        if diff:
            rep.bad('%s: parameter %d' % (key, i + 1), where, '%s: parameter %d (%s) is a %s' % (name, i + 1, fo['anames'][i] if i < len(fo['anames']) else '', diff))
        else:
            rep.ok()
    diff = compatible(rust_type(fo['out'] or '()'), c_type(out))
    if diff:
        rep.bad('%s: return type' % key, where, '%s returns a %s' % (name, diff))
    else:
        rep.ok()
    if names and len(fo['anames']) == len(names):
        for i, a in enumerate(fo['anames']):
            b = names[i]
            if same_role(a, b):
                continue
            js = [j for j, c in enumerate(names) if same_role(a, c)]
            if js:
                rep.bad('%s: order of parameters' % key, where, '%s: parameter %d is called %s on the Rust side but %s on the C side, where %s is parameter %d' % (
                    name, i + 1, a, b, a, js[0] + 1))


def same_role(a, b):
    return norm(a) == norm(b)


def norm(a):
    a = (a or '').lower().strip('_')
    return ROLE.get(a, a)


# -- constants ----------------------------------------------------------------------------------------

def c_number(cf, text, depth=0):
    text = text.strip()
    while text.startswith('(') and text.endswith(')'):
        text = text[1:-1].strip()
    if re.fullmatch(r'-?\d+', text):
        return int(text)
    if re.fullmatch(r'-?\d*\.\d*(e-?\d+)?', text):
        return float(text)
    if text in cf.macros and depth < 5:
        return c_number(cf, cf.macros[text], depth + 1)
    return None


def constants(rep, progs, cprogs):
    done = set()
    for v, prog in progs.items():
        for k, c in prog.consts.items():
            nm = k.rsplit('::', 1)[-1]
            val = mir.decode(c['v'])
            if not isinstance(val, int) or isinstance(val, bool) or (k, val) in done:
                continue
            crate = k.split('::')[0]
            if nm in CBLAS:
                done.add((k, val))
                rep.count('shared constants')
                if val != CBLAS[nm]:
                    rep.bad(k, crate, 'the layout/transposition code %s is %d but the BLAS interface defines %d' % (nm, val, CBLAS[nm]))
                else:
                    rep.ok()
                continue
            for cp in cprogs:
                if not cp.cf.rel.startswith(crate + '/') or nm not in cp.cf.macros:
                    continue
                x = c_number(cp.cf, cp.cf.macros[nm])
                if x is None:
                    continue
                done.add((k, val))
                rep.count('shared constants')
                if x != val:
                    rep.bad(k, crate, 'constant %s is %d in Rust but %s in C (%s)' % (nm, val, x, cp.cf.rel))
                else:
                    rep.ok()
                break
    # enumerations whose discriminants travel as codes
    prog = progs[None]
    for path, a in prog.adts.items():
        if path.endswith('::Norm') and a['kind'] == 'Enum':
            vals = [x['discr'] for x in a['variants']]
            if len(set(vals)) != len(vals):
                rep.bad(path, path, 'two norms share one code')


# -- shims --------------------------------------------------------------------------------------------

def lapack_args(callee):
    nm = callee.rstrip('_').lower()
    nm = re.sub(r'^lapacke?_', '', nm)
    if nm in LAPACK:
        return LAPACK[nm].split()
    if nm[:1] in 'dz' and nm[1:] in LAPACK:
        return LAPACK[nm[1:]].split()
    return None


class Chars(flow.Client):
    """string constants reaching the selector arguments, for given values of the selector parameters"""

    def __init__(self):
        self.got = []

    def call(self, f, st, env, b, t):
        names = lapack_args(t[1]['path'])
        if names:
            self.got.append([f.val(env, a) for a in t[2]])
        return None


def shims(rep, cprogs):
    for cp in cprogs:
        for nm, fn in cp.fns.items():
            if not fn.pub:
                continue
            inl = mir.inline(cp, fn, lambda c, t, s: True)
            vals = mir.values(inl)
            for bi in mir.cfg(inl).rpo:
                t = inl.blocks[bi].t
                if t[0] != 'call':
                    continue
                names = lapack_args(t[1]['path'])
                if not names:
                    continue
                letter = nm.replace('c_', '', 1)
                if t[1]['path'].rstrip('_').lower() != letter and lapack_args(letter):
                    rep.bad('%s: %s' % (cp.cf.rel, nm), fn.where(t[5]), '%s calls %s' % (nm, t[1]['path']))
                for i, ref in enumerate(names):
                    if i >= len(t[2]):
                        rep.bad('%s: %s: argument %s' % (cp.cf.rel, nm, ref), fn.where(t[5]), '%s: argument %s of %s is missing' % (nm, ref, t[1]['path']))
                        continue
                    if ref in ('norm', 'uplo', 'jobz', 'jobvl', 'jobvr', 'jobu', 'jobvt'):
                        continue
                    rep.count('arguments forwarded by the shims')
                    e = vals.expr(t[2][i])
                    while e[0] == 'cast':
                        e = e[3]
                    if e[0] == 'arg' or e[0] == 'load' and len(e[1]) == 1 and e[1][0][0] == 'arg':
                        p = e[1] if e[0] == 'arg' else e[1][0][1]
                        if p - 1 == i or norm(fn.anames[p - 1]) == ref:
                            rep.ok()
                        else:
                            rep.bad('%s: %s: argument %s' % (cp.cf.rel, nm, ref), fn.where(t[5]), '%s passes %s as %s to %s' % (nm, fn.anames[p - 1], ref, t[1]['path']))
                    else:
                        rep.bad('%s: %s: argument %s' % (cp.cf.rel, nm, ref), fn.where(t[5]), '%s does not hand its parameter on as %s of %s' % (nm, ref, t[1]['path']))


def chars_for(cp, fn, setting):
    """characters reaching the selector arguments when the parameters have the given values"""
    inl = mir.inline(cp, fn, lambda c, t, s: True)
    cl = Chars()
    f = flow.Flow(cp, inl, cl)
    f.strings = True
    f.run(env0={(p + 1,): ('k', v) for p, v in setting.items()})
    return cl.got


def selectors(rep, progs, cprogs):
    """values the Rust side passes for selector parameters, propagated through the shims"""
    cdef = {}
    for cp in cprogs:
        for nm, fn in cp.fns.items():
            if fn.pub and cp.cf.rel.startswith('russell_lab/'):
                cdef[nm] = (cp, fn)
    prog = progs[None]
    norm_adt = [a for p, a in prog.adts.items() if p.endswith('::Norm') and a['kind'] == 'Enum']
    if len(norm_adt) != 1:
        raise mir.AnchorError('the enumeration of norms was not found')
    variants = {v['name']: v['discr'] for v in norm_adt[0]['variants']}
    for nm, (cp, fn) in sorted(cdef.items()):
        names = None
        for b in fn.blocks:
            if b.t and b.t[0] == 'call' and lapack_args(b.t[1]['path']):
                names = lapack_args(b.t[1]['path'])
        inl = mir.inline(cp, fn, lambda c, t, s: True)
        if names is None:
            for b in inl.blocks:
                if b.t and b.t[0] == 'call' and lapack_args(b.t[1]['path']):
                    names = lapack_args(b.t[1]['path'])
        if names is None:
            continue
        for p, pn in enumerate(fn.anames):
            if '*' in fn.ins[p]:
                continue
            ref = norm(pn)
            if ref not in names:
                ref = names[p]
            pos = names.index(ref)
            cases = []
            if ref == 'norm':
                cases = [(code, NORMS[n], 'Norm::' + n) for n, code in variants.items()]
            elif ref in BOOLS:
                cases = [(0, BOOLS[ref][0], '%s = false' % pn), (1, BOOLS[ref][1], '%s = true' % pn)]
            elif ref in ('jobu', 'jobvt'):
                for k, c in prog.consts.items():
                    m = re.search(r'::SVD_CODE_([ASON])$', k)
                    if m:
                        cases.append((mir.decode(c['v']), m.group(1), 'SVD code ' + m.group(1)))
                if not cases:
                    raise mir.AnchorError('no SVD job code found on the Rust side')
            for code, want, what in cases:
                got = chars_for(cp, fn, {p: code})
                for args in got:
                    rep.count('selector values followed')
                    v = args[pos]
                    ch = v[1] if v and v[0] == 'k' else None
                    ch = ch.strip('"') if isinstance(ch, str) else ch
                    if isinstance(ch, str) and ch[:1] and ch[:1] in want:
                        rep.ok()
                    else:
                        rep.bad('%s: %s: %s' % (cp.cf.rel, nm, what), fn.where(), '%s (%s) reaches the library as %s = %r instead of %r' % (nm, what, ref, ch, want[0]))
                if not got:
                    rep.error('%s does not reach its library routine for %s' % (nm, what))
    # values at the Rust call sites
    for v, prog in progs.items():
        for fn in prog.fns.values():
            if v and fn.crate != 'russell_sparse':
                continue
            if not any(b.t[0] == 'call' and foreign(prog, b.t[1]) for b in fn.blocks):
                continue
            fn = mir.inline(prog, fn, lambda cf, t, st: len(cf.blocks) <= 6)
            for bi in mir.cfg(fn).rpo:
                t = fn.blocks[bi].t
                if t[0] != 'call':
                    continue
                fo = foreign(prog, t[1])
                if fo is None:
                    continue
                vals = mir.values(fn)
                d = cdef.get(fo['name'])
                requested(rep, fn, vals, t, fo)
                for i, an in enumerate(fo['anames']):
                    if fo['ins'][i] != 'i32':
                        continue
                    allowed = None
                    if fo['name'].startswith('cblas_'):
                        allowed = SELECT.get(an) or SELECT.get('%s.%s' % (fo['name'][6:], an))
                    elif d and norm(an) in BOOLS:
                        allowed = {0, 1}
                    elif d and norm(an) in ('jobu', 'jobvt'):
                        allowed = {mir.decode(c['v']) for k, c in prog.consts.items() if re.search(r'::SVD_CODE_[ASON]$', k)}
                    if allowed is None:
                        continue
                    got = possible(fn, vals, t[2][i])
                    rep.count('selector values passed')
                    if got is None:
                        continue
                    if got <= allowed:
                        rep.ok()
                    else:
                        rep.bad('%s: %s of %s' % (fn.key, an, fo['name']), fn.where(t[5]), '%s passes %s as %s of %s, which accepts %s' % (
                            fn.path, sorted(got - allowed), an, fo['name'], sorted(allowed)))


def requested(rep, fn, vals, t, fo):
    """an array of the caller handed over as output must be asked for"""
    for flag, out in (('calc_vl', 'vl'), ('calc_vr', 'vr'), ('jobu_code', 'u'), ('jobvt_code', 'vt'), ('jobvt_code', 'vh')):
        if flag not in fo['anames'] or out not in fo['anames']:
            continue
        got = possible(fn, vals, t[2][fo['anames'].index(flag)])
        p = vals.oppath(t[2][fo['anames'].index(out)])
        if got is None or p is None:
            continue
        rep.count('requested outputs')
        off = 0 if flag.startswith('calc') else 3
        if off in got and p[0][0] == 'arg':
            rep.bad('%s: %s of %s' % (fn.key, flag, fo['name']), fn.where(t[5]), '%s hands its output over as %s of %s but asks not to compute it' % (fn.path, out, fo['name']))
        else:
            rep.ok()


def possible(fn, vals, o, depth=0):
    """constant values an operand can take, or None"""
    if o[0] == 'k':
        v = mir.const_value(o[1])
        return {int(v)} if isinstance(v, (int, bool)) else None
    if len(o[1]) != 1 or depth > 8:
        return None
    l = o[1][0]
    ds = vals.defs.get(l, [])
    out = set()
    for d in ds:
        if d[2] != 'rv':
            return None
        r = d[3]
        if r[0] == 'use':
            x = possible(fn, vals, r[1], depth + 1)
        elif r[0] == 'cast' and r[3] == 'bool':
            x = {0, 1}
        elif r[0] == 'cast':
            x = possible(fn, vals, r[2], depth + 1)
        else:
            x = None
        if x is None:
            return None
        out |= x
    return out or None


def foreign(prog, c):
    for k in (c.get('res'), c.get('key')):
        if k in prog.foreign:
            return prog.foreign[k]
    return None


# -- error codes --------------------------------------------------------------------------------------

class Returned(flow.Client):
    def __init__(self):
        self.codes = set()

    def value(self, f, st, env, rv):
        if rv[0] == 'bin' and rv[1].startswith('Add'):
            a, b = f.val(env, rv[2]), f.val(env, rv[3])
            if a and a[0] == 'k' and isinstance(a[1], int) and not (b and b[0] == 'k'):
                return ('sym', ('offset', a[1]))
            if b and b[0] == 'k' and isinstance(b[1], int) and not (a and a[0] == 'k'):
                return ('sym', ('offset', b[1]))
        return None

    def ret(self, f, st, env, b):
        v = env.get((0,))
        if v and v[0] == 'k' and isinstance(v[1], int):
            self.codes.add(v[1])
        elif v and v[0] == 'sym':
            self.codes.add(v[1])


def c_codes(cp):
    out = {}
    for nm, fn in cp.fns.items():
        if not fn.pub or fn.out != 'int32_t' or not re.search(r'_(initialize|factorize|solve)$', nm):
            continue
        inl = mir.inline(cp, fn, lambda c, t, s: True)
        cl = Returned()
        flow.Flow(cp, inl, cl).run()
        for c in cl.codes:
            out.setdefault(c, nm)
    return out


def message(prog, fn, code):
    """text the handler returns for a code"""
    got = []

    class M(flow.Client):
        def ret(self, f, st, env, b):
            v = env.get((0,))
            got.append(v[1] if v and v[0] == 'k' else None)
    f = flow.Flow(prog, fn, M())
    f.strings = True
    f.run(env0={(1,): ('k', code)})
    return got[0] if len(set(got)) == 1 else None


# codes of libraries without a header here that name them (MUMPS and cuDSS users' guides)
CUDSS_STATUS = {1: 'NOT_INITIALIZED', 2: 'ALLOC_FAILED', 3: 'INVALID_VALUE', 4: 'NOT_SUPPORTED', 5: 'EXECUTION_FAILED', 6: 'INTERNAL_ERROR'}


def stems(name):
    return [w[:7].lower() for w in re.split(r'[_\W]+', name) if len(w) > 2 and w.upper() not in ('ERROR', 'UMFPACK', 'CUDSS', 'CUDA', 'WARNING')]


def codes(rep, progs, cprogs):
    for tag, v, names in (('umfpack', None, ('interface_umfpack.c', 'interface_complex_umfpack.c')), ('mumps', 'mumps', ('interface_mumps.c', 'interface_complex_mumps.c')),
                          ('cudss', 'cudss', ('interface_cudss.cu', 'interface_complex_cudss.cu'))):
        prog = progs[v]
        hs = [f for f in prog.fns.values() if f.crate == 'russell_sparse' and f.ins == ['i32'] and re.search(r"&'?\w* ?str$", f.out) and tag in f.path.lower()]
        hs = [f for f in hs if 'err' in f.path.rsplit('::', 1)[-1]]
        if len(hs) != 1:
            raise mir.AnchorError('expected one function that describes %s error codes, found %d' % (tag, len(hs)))
        h = hs[0]
        hi = mir.inline(prog, h, lambda cf, t, s: True)
        default = message(prog, hi, 123456789)
        returned = {}
        cf0 = None
        for cp in cprogs:
            if cp.cf.name in names:
                cf0 = cp.cf
                for c, nm in c_codes(cp).items():
                    returned.setdefault(c, nm)
        known = {}
        for nm, txt in cf0.macros.items():
            if re.match(r'(ERROR_|%s_(ERROR|WARNING)_)' % tag.upper(), nm):
                x = c_number(cf0, txt)
                if isinstance(x, int):
                    known[x] = nm
        todo = {}
        for c, nm in returned.items():
            if c == 0:
                continue
            if isinstance(c, tuple):
                base = c[1]
                for k, w in CUDSS_STATUS.items():
                    todo[base + k] = (nm, known.get(base, '') + '_' + w)
            else:
                todo[c] = (nm, known.get(c, ''))
        for x, nm in known.items():
            if nm.startswith('UMFPACK_') and message(prog, hi, x) != default:
                todo.setdefault(x, ('the library', nm))
        msgs = {}
        for c in todo:
            rep.count('error codes')
            m = message(prog, hi, c)
            msgs[c] = m
            if m is None or m == default:
                rep.bad('%s: %s code %d' % (h.key, tag, c), h.where(), 'code %d (%s), which %s can return, is reported as an unknown error' % (c, todo[c][1], todo[c][0]))
            else:
                rep.ok()
        seen = {}
        for c, m in msgs.items():
            if m is None or m == default:
                continue
            if m in seen:
                rep.bad('%s: %s codes %d and %d' % (h.key, tag, seen[m], c), h.where(), 'codes %d and %d have the same message' % (seen[m], c))
            seen[m] = c
        # the message of a code describes that code
        for c, (nm, macro) in todo.items():
            ws = stems(macro)
            if not ws or not isinstance(msgs[c], str):
                continue
            own = sum(w in msgs[c].lower() for w in ws)
            for d, m in msgs.items():
                if d != c and isinstance(m, str) and sum(w in m.lower() for w in ws) == len(ws) > own and sum(w in msgs[c].lower() for w in stems(todo[d][1])) > own:
                    rep.bad('%s: %s code %d' % (h.key, tag, c), h.where(), 'code %d (%s) is described by "%s"' % (c, macro, msgs[c]))
        # a number quoted in a message is the code itself
        for b in mir.cfg(hi).rpo:
            t = hi.blocks[b].t
            if t[0] == 'switch':
                for val, _ in t[3]:
                    c = val if val < 2 ** 31 else val - 2 ** 32
                    m = message(prog, hi, c)
                    q = re.search(r'Error\((-?\d+)\)', m or '')
                    if q:
                        rep.count('error codes')
                        if int(q.group(1)) != c:
                            rep.bad('%s: %s message of %d' % (h.key, tag, c), h.where(), 'code %d is described as "%s"' % (c, m))
                        else:
                            rep.ok()


# -- call sites ---------------------------------------------------------------------------------------

def last_name(fn, vals, o):
    """name of the variable or field an argument stands for"""
    if o[0] not in ('c', 'm'):
        return None
    p = vals.oppath(o) if fn.locals[o[1][0]][0].startswith(('&', '*')) else None
    if p is None:
        p = vals.path(o[1])
    if p is None:
        return None
    for e in reversed(p):
        if isinstance(e, tuple) and e[0] == 'f' and isinstance(e[1], str):
            return e[1]
        if isinstance(e, tuple) and e[0] in ('arg', 'loc'):
            return fn.name(e[1]) or None
    return None


def callsites(rep, progs):
    for v, prog in progs.items():
        for fn in prog.fns.values():
            if fn.crate != 'russell_sparse':
                continue
            for bi in mir.cfg(fn).rpo:
                t = fn.blocks[bi].t
                if t[0] != 'call':
                    continue
                fo = foreign(prog, t[1])
                if fo is None or fo['name'].startswith('cblas_') or v and v not in fo['name']:
                    continue
                vals = mir.values(fn)
                rep.count('calls of sparse solver shims')
                names = [last_name(fn, vals, a) for a in t[2]]
                for i, n in enumerate(names):
                    if n is None or n == fo['anames'][i]:
                        rep.ok()
                        continue
                    js = [j for j, a in enumerate(fo['anames']) if a == n and j != i]
                    if js and fo['ins'][js[0]] == fo['ins'][i]:
                        rep.bad('%s: arguments of %s' % (fn.key, fo['name']), fn.where(t[5]), '%s passes its %s as %s of %s' % (fn.path, n, fo['anames'][i], fo['name']))
                    else:
                        rep.ok()

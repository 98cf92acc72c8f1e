"""P22: solver options reach the control they name."""
import re
from .. import clower, facts, flow, mir
from ..report import Report

RULE = ('every option of the sparse direct solvers is propagated as a named value from the caller\'s parameters through the (inlined) factorize and solve functions into the native call and on through '
        'the C shim; when the library is asked to analyse, factorize or solve, the control slot documented for the option holds the option (or the documented code of the chosen enumeration value), on the '
        'first factorization and on those that follow; every enumeration value is obtained back from its name; the name reported for an effective setting names the choice of that code; library code holding '
        'solver options passes them on')

PARAMS = 'russell_sparse::lin_sol_params::LinSolParams'
SYM = 'russell_sparse::enums::Sym'

# documented codes of the choices each library offers (UMFPACK User Guide; MUMPS Users' Guide; cuDSS types); other choices stand for the default
CODES = {
    ('umfpack', 'ordering'): ({'Amd': 1, 'Best': 4, 'Cholmod': 0, 'Metis': 3, 'No': 5, 'Auto': 1}, {'Colamd': (0, 1)}),
    ('umfpack', 'scaling'): ({'Max': 2, 'No': 0, 'Sum': 1, 'Auto': 1}, {}),
    ('mumps', 'ordering'): ({'Amd': 0, 'Amf': 2, 'Auto': 7, 'Metis': 5, 'Pord': 4, 'Qamd': 6, 'Scotch': 3}, {}),
    ('mumps', 'scaling'): ({'Auto': 77, 'Column': 3, 'Diagonal': 1, 'No': 0, 'RowCol': 4, 'RowColIter': 7, 'RowColRig': 8}, {}),
    ('cudss', 'ordering'): ({'Amd': 3, 'Auto': 0, 'BtfColamd': 1, 'Colamd': 2, 'Metis': 4, 'No': 5}, {}),
    ('cudss', 'matching'): ({'None': 0, 'MaxDiagCount': 1, 'MaxMinDiag': 2, 'MaxMinDiagAlt': 3, 'MaxDiagSum': 4, 'MaxDiagProduct': 5, 'Auto': 6}, {}),
    ('cudss', 'pivoting'): ({'Auto': 0, 'None': 1, 'GlobalCol': 2, 'GlobalRow': 3, 'Diagonal': 4, 'LocalBlock': 5}, {}),
}
# slots of the control arrays (zero-based) and of the configuration objects
UMF = {'PRL': 0, 'STRATEGY': 5, 'ORDERING': 10, 'SCALE': 16}
MUMPS = {'ordering': 7, 'scaling': 8, 'mumps_pct_inc_workspace': 14, 'mumps_num_threads': 16, 'mumps_max_work_memory': 23}
CUDSS = {'ordering': 'CUDSS_CONFIG_REORDERING_ALG', 'matching': 'CUDSS_CONFIG_MATCHING_ALG', 'pivoting': 'CUDSS_CONFIG_PIVOT_TYPE'}
CUDSS_OPT = {'pivot_epsilon': 'CUDSS_CONFIG_PIVOT_EPSILON', 'refinement_nstep': 'CUDSS_CONFIG_IR_N_STEPS', 'hybrid_memory_factor': 'CUDSS_CONFIG_HYBRID_DEVICE_MEMORY_LIMIT'}
OPS = {'Lt': lambda x, y: x < y, 'Le': lambda x, y: x <= y, 'Gt': lambda x, y: x > y, 'Ge': lambda x, y: x >= y, 'Eq': lambda x, y: x == y, 'Ne': lambda x, y: x != y}
STRATEGY = {'Auto': 0, 'Unsymmetric': 1, 'Symmetric': 3}


def number(v):
    """python number of an abstract value, None if it is none"""
    if v and v[0] == 'k' and isinstance(v[1], (int, bool)):
        return int(v[1])
    if v and v[0] == 'sym' and isinstance(v[1], tuple) and v[1][0] == 'num':
        return v[1][1]
    return None


def show(v):
    if v is None:
        return 'an unknown value'
    n = number(v)
    if n is not None:
        return str(n)
    if v[0] == 'sym':
        return 'the option %s' % v[1] if isinstance(v[1], str) else ' '.join(str(x) for x in v[1])
    return str(v)


class Values(flow.Client):
    """named values and facts about them; the state is the set of facts"""
    bools = frozenset()

    def start(self, fl):
        return frozenset()

    def const(self, o):
        if o[0] != 'k':
            return None
        if 'lit' in o[1]:
            return ('sym', ('num', o[1]['lit']))
        v = o[1].get('v')
        if isinstance(v, dict) and 'enumerator' in v:
            return ('sym', ('enum', v['enumerator']))
        v = mir.decode(v)
        return ('sym', ('num', v)) if isinstance(v, float) else None

    def get(self, fl, env, o):
        v = fl.val(env, o)
        return self.const(o) if v is None else v

    def value(self, fl, st, env, rv):
        if rv[0] == 'use':
            return self.const(rv[1])
        if rv[0] == 'cast':
            return self.get(fl, env, rv[2])
        if rv[0] == 'un' and rv[1] == 'Neg':
            n = number(self.get(fl, env, rv[2]))
            return ('sym', ('num', -n)) if n is not None else None
        if rv[0] == 'bin':
            a, b = self.get(fl, env, rv[2]), self.get(fl, env, rv[3])
            x, y = number(a), number(b)
            if rv[1] in flow.NEG:
                if x is not None and y is not None:
                    return ('k', OPS[rv[1]](x, y))
                if a and a[0] == 'sym' and y is not None:
                    return ('cmp', a[1], rv[1], y)
                if b and b[0] == 'sym' and x is not None:
                    return ('cmp', b[1], flow.SWAP[rv[1]], x)
                return None
            return self.derived((a, b))
        return None

    @staticmethod
    def derived(vals):
        """a value computed from an option in a way the analysis does not evaluate"""
        for v in vals:
            if v and v[0] == 'sym' and (isinstance(v[1], str) or v[1][0] == 'from'):
                return ('sym', ('from', v[1] if isinstance(v[1], str) else v[1][1]))
        return None

    def refine(self, fl, st, sym, op, c, truth):
        if not truth:
            op = flow.NEG[op]
        if sym in self.bools or isinstance(c, bool):
            fit = [x for x in (False, True) if OPS[op](x, c)]
            if len(fit) != 1:
                return st if fit else None
            op, c = 'Eq' if fit[0] else 'Ne', True
        if isinstance(sym, tuple) and sym[0] == 'from':
            return st
        if (sym, flow.NEG[op], c) in st:
            return None
        return st | {(sym, op, c)}


def known(st, name):
    for s, op, c in st:
        if s == name and c is True:
            return op == 'Eq'
    return None


class Rust(Values):
    """collects the native calls of a solver function"""

    def __init__(self, prog):
        self.prog = prog
        self.calls, self.ends = [], []

    def call(self, fl, st, env, b, t):
        nm = mir.callee_name(t[1])
        if t[1].get('foreign'):
            self.calls.append((nm.split('::')[-1], tuple(self.get(fl, env, a) for a in t[2]), st, fl.fn.where(t[5])))
            fl.havoc_args(env, t)
            fl.store(env, t[3], None)
            return [(st, env)]
        if re.search(r'cmp::PartialEq.*::(eq|ne)$', nm) and len(t[2]) == 2:
            vs = []
            for a in t[2]:
                v = fl.val(env, a)
                n = 0
                while v and v[0] == 'ref' and n < 4:
                    q = v[1]
                    v = env.get(q)
                    if v is None and q[-1] == '*':      # a constant behind a reference is kept with the reference
                        v = env.get(q[:-1])
                    n += 1
                vs.append(v)
            if all(v and v[0] == 'var' for v in vs):
                fl.store(env, t[3], ('k', (vs[0][1] == vs[1][1]) == nm.endswith('eq')))
                return [(st, env)]
            fl.store(env, t[3], None)
            return [(st, env)]
        if nm.endswith('clone::Clone>::clone') or re.search(r'Clone for .*::clone$', nm):
            v = fl.val(env, t[2][0])
            if v and v[0] == 'ref':
                fl.copy(env, t[3], v[1]) if v[1] else None
                return [(st, env)]
        if re.search(r'convert::From<.*>>?::from$|convert::(num|Into).*::(from|into)$', nm) and len(t[2]) == 1:
            fl.store(env, t[3], self.get(fl, env, t[2][0]))
            return [(st, env)]
        m = re.search(r'Option::<.*>::(unwrap_or|unwrap_or_else|unwrap_or_default)$', nm)
        if m and t[2] and t[2][0][0] in ('c', 'm'):
            v = fl.val(env, t[2][0])
            if v and v[0] == 'var' and v[1] == 1:
                src = t[2][0][1] + (('d', 1), ('f', 0))
                fl.copy(env, t[3], src)
                return [(st, env)]
            if v and v[0] == 'var' and m.group(1) == 'unwrap_or' and t[2][1][0] in ('c', 'm'):
                fl.copy(env, t[3], t[2][1][1])
                return [(st, env)]
            if v and v[0] == 'var' and m.group(1) == 'unwrap_or':
                fl.store(env, t[3], self.get(fl, env, t[2][1]))
                return [(st, env)]
        if re.search(r'<impl .*TryInto<.*>.*>::try_into$|convert::TryInto.*::try_into$|TryFrom<.*>.*::try_from$|^core::convert::num::.*try_from$', nm):
            v = fl.val(env, t[2][0])
            out = []
            for i in (0, 1):
                e = dict(env)
                fl.store(e, t[3], ('var', i, v if i == 0 else None))
                out.append((st, e))
            return out
        v = self.derived([fl.val(env, a) for a in t[2]])
        if v and t[4] is not None and not flow.BRANCH.search(nm):
            fl.havoc_args(env, t)
            fl.store(env, t[3], v)
            return [(st, env)]
        return None

    def ret(self, fl, st, env, b):
        v = env.get((0,))
        if v and v[0] == 'var' and v[1] == 1:
            return
        self.ends.append((st, {p: v for p, v in env.items() if p[0] in (0, 1)}))


class Shim(Values):
    """control slots of the library as the C shim leaves them"""

    def __init__(self, back):
        self.back = back
        self.events = []      # (event, slots, facts, where)
        self.done = []        # (slots, facts) at successful returns

    def slots(self, env):
        out = {}
        for p, v in env.items():
            if p[0] == 1 and len(p) > 2:
                key = tuple(x[1] if isinstance(x, tuple) else x for x in p[2:])
                out[key] = v
        return out

    def call(self, fl, st, env, b, t):
        nm = t[1].get('path') or ''
        where = fl.fn.where(t[5])
        m = re.match(r'umfpack_[dz]i_(\w+)$', nm)
        if m:
            self.events.append((m.group(1), self.slots(env), st, where))
            if m.group(1) == 'defaults':
                fl.kill(env, (1, '*', ('f', 'control')))
            env[(1, '*', 'called', m.group(1))] = ('k', True)
            code = ('status', m.group(1))
            fl.store(env, t[3], ('sym', code))
            return [(frozenset(x for x in st if x[0] != code), env)]
        if re.match(r'[dz]mumps_c$', nm):
            s = self.slots(env)
            job = number(s.get(('data', 'job')))
            self.events.append(('job%s' % job, s, st, where))
            if job == -1:
                for q in [q for q in env if q[:4] == (1, '*', ('f', 'data'), ('f', 'icntl'))]:
                    del env[q]
            fl.store(env, t[3], None)
            return [(st, env)]
        if nm == 'cudssConfigSet':
            name, ptr = self.get(fl, env, t[2][1]), fl.val(env, t[2][2])
            v = env.get(ptr[1]) if ptr and ptr[0] == 'ref' else None
            if name and name[0] == 'sym':
                env[(1, '*', 'config', name[1][1])] = v or ('sym', ('unknown',))
            fl.store(env, t[3], None)
            return [(st, env)]
        if nm == 'cudssMatrixCreateCsr':
            for a in t[2]:
                v = self.get(fl, env, a)
                if v and v[0] == 'sym' and v[1][0] == 'enum':
                    for x in ('MTYPE', 'MVIEW'):
                        if v[1][1].startswith('CUDSS_' + x):
                            env[(1, '*', 'matrix', x.lower())] = v
            fl.store(env, t[3], None)
            return [(st, env)]
        if nm == 'cudssExecute':
            ph = self.get(fl, env, t[2][1])
            self.events.append((ph[1][1] if ph and ph[0] == 'sym' else '?', self.slots(env), st, where))
            fl.store(env, t[3], None)
            return [(st, env)]
        return None

    def ret(self, fl, st, env, b):
        v = env.get((0,))
        if number(v) == 0 or v and v[0] == 'sym' and (v[1], 'Eq', 0) in st:
            self.done.append((self.slots(env), st))


def lookup(cprogs, name):
    for cp in cprogs:
        if name in cp.fns:
            return cp
    raise mir.AnchorError('the native function %s has no definition in the C sources' % name)


class Case:
    """an assignment of the options, as far as the path has determined them"""

    def __init__(self, back, enums, sym, optional, st):
        self.back, self.enums, self.sym, self.optional, self.st = back, enums, sym, optional, st

    def flag(self, name):
        return known(self.st, name)

    def codes(self, opt):
        exact, also = CODES[(self.back, opt)]
        v = self.enums[opt]
        return also.get(v) or (exact.get(v, exact['Auto']),)


def flags(case, names):
    """all assignments of undetermined flags"""
    out = [{}]
    for n in names:
        k = case.flag(n)
        out = [dict(o, **{n: v}) for o in out for v in ((k,) if k is not None else (True, False))]
    return out


def expect(rep, case, phase, event, slots, facts):
    """problems with the control slots at one library call; yields texts"""
    back = case.back
    verb = 'solve verbose' if phase == 'solve' else 'verbose'

    def check(slot, name, ok, what):
        rep.count('slots checked')
        v = slots.get(slot)
        if v and v[0] == 'sym' and v[1][0] == 'from' and v[1][1] in name.split() + [verb if 'verbose' in name else '']:
            rep.count('slots undecided')
            return
        if not ok(v):
            return ('%s is not delivered to %s: it holds %s' % (name, what, show(v)), name)
    out = []
    if back == 'umfpack':
        if phase == 'initialize' and event == 'symbolic':
            out.append(check(('control', UMF['ORDERING']), 'the ordering %s' % case.enums['ordering'], lambda v: number(v) in case.codes('ordering'), 'Control[UMFPACK_ORDERING]'))
            out.append(check(('control', UMF['SCALE']), 'the scaling %s' % case.enums['scaling'], lambda v: number(v) in case.codes('scaling'), 'Control[UMFPACK_SCALE]'))
            for f in flags(case, ['umfpack_enforce_unsymmetric_strategy']):
                on = f['umfpack_enforce_unsymmetric_strategy']
                out.append(check(('control', UMF['STRATEGY']), 'the option umfpack_enforce_unsymmetric_strategy = %s' % on, lambda v: number(v) == (1 if on else 0), 'Control[UMFPACK_STRATEGY]'))
        if phase == 'initialize' and event == 'symbolic' or phase == 'solve' and event == 'solve':
            for f in flags(case, [verb]):
                on = f[verb]
                out.append(check(('control', UMF['PRL']), 'the option verbose = %s' % on, lambda v: number(v) is not None and (number(v) >= 2) == on, 'Control[UMFPACK_PRL]'))
        if phase == 'factorize' and event == 'end':
            for f in flags(case, ['compute_determinant']):
                on = f['compute_determinant']
                out.append(check(('called', 'get_determinant'), 'the option compute_determinant = %s' % on, lambda v: bool(v) == on, 'the computation of the determinant'))
            for f in flags(case, ['verbose']):
                on = f['verbose']
                out.append(check(('called', 'report_info'), 'the option verbose = %s' % on, lambda v: bool(v) == on, 'the report of the factorization'))
    if back == 'mumps':
        icntl = lambda i: ('data', 'icntl', i - 1)
        if phase == 'initialize' and event == 'job-1':
            for f in flags(case, ['positive_definite']):
                want = 0 if case.sym == 'No' else 1 if f['positive_definite'] else 2
                out.append(check(('data', 'sym'), 'the symmetry %s with positive_definite = %s' % (case.sym, f['positive_definite']), lambda v: number(v) == want, 'SYM'))
        if phase == 'initialize' and event == 'job1':
            for o in ('ordering', 'scaling'):
                out.append(check(icntl(MUMPS[o]), 'the %s %s' % (o, case.enums[o]), lambda v: number(v) in case.codes(o), 'ICNTL(%d)' % MUMPS[o]))
            for o in ('mumps_pct_inc_workspace', 'mumps_max_work_memory'):
                out.append(check(icntl(MUMPS[o]), 'the option ' + o, lambda v: v == ('sym', o), 'ICNTL(%d)' % MUMPS[o]))
            auto = any(s == 'mumps_num_threads' and (op, c) in (('Eq', 0), ('Le', 0), ('Lt', 1)) for s, op, c in facts)
            out.append(check(icntl(MUMPS['mumps_num_threads']), 'the option mumps_num_threads', lambda v: v == ('sym', 'mumps_num_threads') or auto and number(v) in (0, 1), 'ICNTL(16)'))
        if (phase, event) in (('initialize', 'job1'), ('factorize', 'job2'), ('solve', 'job3')):
            for f in flags(case, [verb]):
                on = f[verb]
                out.append(check(icntl(4), 'the option verbose = %s' % on, lambda v: number(v) is not None and (number(v) >= 1) == on, 'ICNTL(4)'))
                out.append(check(icntl(3), 'the option verbose = %s' % on, lambda v: number(v) is not None and (number(v) >= 1) == on, 'ICNTL(3)'))
        if (phase, event) == ('factorize', 'job2'):
            for f in flags(case, ['compute_determinant']):
                on = f['compute_determinant']
                out.append(check(icntl(33), 'the option compute_determinant = %s' % on, lambda v: number(v) == int(on), 'ICNTL(33)'))
        if (phase, event) == ('solve', 'job3'):
            for f in flags(case, ['compute_condition_numbers', 'compute_error_estimates']):
                want = 1 if f['compute_condition_numbers'] else 2 if f['compute_error_estimates'] else 0
                out.append(check(icntl(11), 'compute_condition_numbers = %s, compute_error_estimates = %s' % (f['compute_condition_numbers'], f['compute_error_estimates']),
                                 lambda v: number(v) == want, 'ICNTL(11)'))
    if back == 'cudss' and phase == 'initialize' and event in ('CUDSS_PHASE_ANALYSIS', 'end'):
        if event == 'CUDSS_PHASE_ANALYSIS':
            for o, c in CUDSS.items():
                out.append(check(('config', c), 'the %s %s' % (o, case.enums[o]), lambda v: number(v) in case.codes(o), c))
            for f in flags(case, ['positive_definite']):
                want = {'CUDSS_MTYPE_GENERAL'} if case.sym == 'No' else {'CUDSS_MTYPE_SPD', 'CUDSS_MTYPE_HPD'} if f['positive_definite'] else {'CUDSS_MTYPE_SYMMETRIC'}
                view = 'CUDSS_MVIEW_FULL' if case.sym == 'No' else 'CUDSS_MVIEW_LOWER'
                txt = 'the symmetry %s with positive_definite = %s' % (case.sym, f['positive_definite'])
                out.append(check(('matrix', 'mtype'), txt, lambda v: v and v[0] == 'sym' and v[1][-1] in want, 'the matrix type'))
                out.append(check(('matrix', 'mview'), txt, lambda v: v and v[0] == 'sym' and v[1][-1] == view, 'the matrix view'))
        for o, c in CUDSS_OPT.items():
            if (o == 'hybrid_memory_factor') != (event == 'end'):
                continue
            off = not case.optional or any(s == o and op in ('Le', 'Lt', 'Eq') and cc <= 0 for s, op, cc in facts)
            ok = (lambda v: v is None) if not case.optional else (lambda v: v is None) if off else (lambda v: v in (('sym', o), ('sym', ('from', o))))
            out.append(check(('config', c), 'the option %s = %s' % (o, 'Some' if case.optional else 'None'), ok, c))
            if o == 'hybrid_memory_factor':
                ok = (lambda v: v is None or number(v) == 0) if off or not case.optional else (lambda v: number(v) == 1)
                out.append(check(('config', 'CUDSS_CONFIG_HYBRID_MEMORY_MODE'), 'the option %s = %s' % (o, 'Some' if case.optional else 'None'), ok, 'CUDSS_CONFIG_HYBRID_MEMORY_MODE'))
    return [x for x in out if x]


EXPECTED = {'umfpack': {('initialize', 'symbolic'), ('factorize', 'numeric'), ('solve', 'solve')},
            'mumps': {('initialize', 'job-1'), ('initialize', 'job1'), ('factorize', 'job2'), ('solve', 'job3')},
            'cudss': {('initialize', 'CUDSS_PHASE_ANALYSIS'), ('factorize', 'CUDSS_PHASE_FACTORIZATION'), ('solve', 'CUDSS_PHASE_SOLVE')}}


class Solver:
    def __init__(self, prog, cprogs, adt, trait):
        self.prog, self.cprogs, self.adt = prog, cprogs, adt
        self.back = re.search(r'(umfpack|mumps|cudss)', adt, re.I).group(1).lower()
        self.cache = {}
        fs = {f.path.split('::')[-1]: f for f in prog.fns.values() if f.impl_self == adt and f.impl_trait and 'LinSolTrait' in str(f.impl_trait)}
        own = {f.path.split('::')[-1]: f for f in prog.fns.values() if f.impl_self == adt and not f.impl_trait}
        self.factorize, self.solve, self.stats = fs['factorize'], fs['solve'], fs['update_stats']
        self.new = own['new']
        self.fields = [f[0] for f in prog.adts[PARAMS]['variants'][0]['fields']]
        self.types = {f[0]: f[1] for f in prog.adts[PARAMS]['variants'][0]['fields']}
        self.bools = frozenset([n for n, t in self.types.items() if t == 'bool'] + ['solve verbose'])

    def want(self, cf, t, stack):
        if re.search(r'cmp::PartialEq|fmt::', str(cf.impl_trait or '')):
            return False
        if not cf.path.startswith('russell_sparse') and not cf.path.startswith('<russell_sparse'):
            return False
        return not any(re.search(r'Num(Coo|Csc|Csr)Matrix|NumVector|Stopwatch', x) for x in cf.ins) or any('LinSolParams' in x or self.adt in x for x in cf.ins)

    def run(self, fn, env, st):
        cl = Rust(self.prog)
        cl.bools = self.bools
        key = ('inl', fn.key)
        if key not in self.cache:
            self.cache[key] = mir.inline(self.prog, fn, self.want, max_depth=6)
        inl = self.cache[key]
        fl = flow.Flow(self.prog, inl, cl)
        env = dict(env)
        for i, ty in enumerate(fn.ins):
            if ty.startswith('&'):
                env[(i + 1,)] = ('ref', (i + 1, '*'))
        fl.run(env, st)
        return cl, fl

    def fresh(self):
        """fields of a new solver"""
        cl, fl = self.run(self.new, {}, frozenset())
        out = None
        for st, env in cl.ends:
            e = {(1, '*') + p[3:]: v for p, v in env.items() if p[:3] == (0, ('d', 0), ('f', 0)) and len(p) > 3}
            out = e if out is None else {p: v for p, v in out.items() if e.get(p) == v}
        if not out:
            raise mir.AnchorError('the constructor of %s is not understood' % self.adt)
        return out

    def params(self, base, enums, optional):
        env = {}
        for i, n in enumerate(self.fields):
            p = base + (('f', i),)
            ty = self.types[n]
            a = self.prog.adts.get(ty)
            if a and a['kind'] == 'Enum':
                env[p] = ('var', [v['name'] for v in a['variants']].index(enums[n]), None)
            elif ty.startswith('core::option::Option'):
                env[p] = ('var', 1, ('sym', n)) if optional else ('var', 0, None)
                if optional:
                    env[p + (('d', 1), ('f', 0))] = ('sym', n)
            else:
                env[p] = ('sym', n)
        return env

    def shim(self, name, args):
        key = (name, args)
        if key not in self.cache:
            cp = lookup(self.cprogs, name)
            k2 = ('cinl', name)
            if k2 not in self.cache:
                self.cache[k2] = mir.inline(cp, cp.fns[name], lambda cf, t, stack: True, max_depth=6)
            cl = Shim(self.back)
            cl.bools = self.bools
            fl = flow.Flow(cp, self.cache[k2], cl)
            env = {(i + 1,): v for i, v in enumerate(args) if v is not None and v[0] in ('k', 'sym')}
            env[(1,)] = ('ref', (1, '*'))
            fl.run(env, frozenset())
            self.cache[key] = (cl, fl.states)
        return self.cache[key]


def analyse(rep, sv, enums, symv, optional, later, bad):
    """follows one choice of the enumerations through the first factorization, the next ones and a solution"""
    prog = sv.prog
    si = [v['name'] for v in prog.adts[SYM]['variants']].index(symv)
    coo = re.search(r'(russell_sparse::coo_matrix::NumCooMatrix)', sv.factorize.ins[1]).group(1)
    fi = [f[0] for f in prog.adts[coo]['variants'][0]['fields']].index('symmetric')
    env = dict(sv.fresh())
    env[(3,)] = ('var', 1, None)
    env.update(sv.params((3, ('d', 1), ('f', 0)), enums, optional))
    env[(2, '*', ('f', fi))] = ('var', si, None)
    seen = set()

    def judge(phase_calls, when):
        for name, args, st, where in phase_calls:
            phase = name.rsplit('_', 1)[-1]
            if phase not in ('initialize', 'factorize', 'solve'):
                continue
            rep.count('native calls followed')
            shim, states = sv.shim(name, args)
            evs = [e for e in shim.events] + [('end', s, f, where) for s, f in shim.done]
            for event, slots, facts, cw in evs:
                seen.add((phase, event))
                if any((s, flow.NEG[op], c) in st for s, op, c in facts):
                    continue
                case = Case(sv.back, enums, symv, optional, facts | st)
                for text, what in expect(rep, case, phase, event, slots, facts | st):
                    bad(sv, what, when, cw if event != 'end' else where, text, name)
    cl, fl = sv.run(sv.factorize, env, frozenset())
    rep.count('states', fl.states)
    judge(cl.calls, 'the first factorization')
    first = cl.ends
    if not first:
        raise mir.AnchorError('%s never succeeds' % sv.factorize.path)
    if later:
        done = set()
        for st, e in first:
            base = {p: v for p, v in e.items() if p[0] == 1}
            key = (st, frozenset(base.items()))
            if key in done:
                continue
            done.add(key)
            env2 = dict(base)
            env2[(3,)] = ('var', 0, None)
            env2[(2, '*', ('f', fi))] = ('var', si, None)
            cl2, fl2 = sv.run(sv.factorize, env2, st)
            rep.count('states', fl2.states)
            judge([c for c in cl2.calls if not c[0].endswith('_initialize')], 'a later factorization')
            ends = [base] + [{p: v for p, v in e2.items() if p[0] == 1} for s2, e2 in cl2.ends]
            for b2 in {frozenset(x.items()) for x in ends}:
                env3 = dict(b2)
                env3[(4,)] = ('sym', 'solve verbose')
                cl3, fl3 = sv.run(sv.solve, env3, st)
                rep.count('states', fl3.states)
                judge(cl3.calls, 'a solution')
        missing = EXPECTED[sv.back] - seen
        if missing:
            rep.error('%s: the native steps %s are not reached' % (sv.adt, sorted(missing)))


def options(rep, prog, cprogs, adt):
    sv = Solver(prog, cprogs, adt, None)
    found = {}

    def bad(sv, what, when, where, text, name):
        found.setdefault('%s|%s|%s|%s' % (sv.adt, name, re.sub(r' = .*', '', what) if what.startswith('the option') else what, when), (where, '%s (%s, %s)' % (text, name, when)))
    enums = {n: ([v['name'] for v in prog.adts[t]['variants']] if prog.adts.get(t) and prog.adts[t]['kind'] == 'Enum' else None) for n, t in sv.types.items()}
    enums = {n: v for n, v in enums.items() if v}
    base = {n: ('Auto' if 'Auto' in v else v[0]) for n, v in enums.items()}
    yes = 'YesFull' if sv.back == 'umfpack' else 'YesLower'
    for symv in ('No', yes):
        for optional in (True, False) if sv.back == 'cudss' else (False,):
            analyse(rep, sv, base, symv, optional, True, bad)
            rep.count('option assignments')
    for n, vs in enums.items():
        if (sv.back, n) not in CODES:
            continue
        for v in vs:
            rep.count('option assignments')
            rep.count('enumeration values')
            analyse(rep, sv, dict(base, **{n: v}), yes, False, False, bad)
    for key, (where, text) in sorted(found.items()):
        rep.bad(key, where, text)
    for n in sv.fields:
        if not any('|%s' % n in k or ' %s' % n in k for k in found):
            rep.ok('%s: %s' % (adt, n))
    names(rep, sv)


class Text(Values):
    """matching of texts"""

    def __init__(self):
        self.out = set()

    def resolve(self, fl, env, a):
        v = fl.val(env, a)
        n = 0
        while v and v[0] == 'ref' and n < 5:
            q = v[1]
            v = env.get(q)
            if v is None and q[-1] == '*':      # a constant behind a reference is kept with the reference
                v = env.get(q[:-1])
            n += 1
        if v and v[0] == 'k' and isinstance(v[1], str):
            return v[1]
        if v and v[0] == 'sym' and isinstance(v[1], tuple) and v[1][0] == 'txt':
            return v[1][1]
        return None

    def call(self, fl, st, env, b, t):
        nm = mir.callee_name(t[1])
        a = [self.resolve(fl, env, x) for x in t[2]]
        if a and a[0] is not None:
            m = re.search(r'::(to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase|trim|to_string|to_owned|as_str|into|from|deref|as_ref|borrow|clone|spec_to_string)$', nm)
            if m:
                s = {'to_lowercase': a[0].lower(), 'to_ascii_lowercase': a[0].lower(), 'to_uppercase': a[0].upper(), 'to_ascii_uppercase': a[0].upper(), 'trim': a[0].strip()}.get(m.group(1), a[0])
                fl.store(env, t[3], ('sym', ('txt', s)))
                env[fl.place(env, t[3]) + ('*',)] = ('sym', ('txt', s))
                return [(st, env)]
            if re.search(r'PartialEq.*::(eq|ne)$', nm) and len(a) == 2 and a[1] is not None:
                fl.store(env, t[3], ('k', (a[0] == a[1]) == nm.endswith('eq')))
                return [(st, env)]
            if nm.endswith('::eq_ignore_ascii_case') and a[1] is not None:
                fl.store(env, t[3], ('k', a[0].lower() == a[1].lower()))
                return [(st, env)]
        return None

    def ret(self, fl, st, env, b):
        self.end(fl, env)


def round_trip(rep, prog):
    """every value of an enumeration is obtained back from its name"""
    for adt, a in sorted(prog.adts.items()):
        if a['kind'] != 'Enum' or any(v['fields'] for v in a['variants']):
            continue
        own = {f.path.split('::')[-1]: f for f in prog.fns.values() if f.impl_self == adt and not f.impl_trait}
        f = own.get('from')
        if not f or f.ins != ['&str'] or f.out != adt:
            continue
        rep.count('named enumerations')
        inl = mir.inline(prog, f, lambda cf, t, stack: True, max_depth=4)
        for i, v in enumerate(a['variants']):
            cl = Text()
            got = set()
            cl.end = lambda fl, env: got.add(env.get((0,)))
            fl = flow.Flow(prog, inl, cl)
            fl.strings = True
            fl.run({(1, '*'): ('sym', ('txt', v['name'])), (1,): ('sym', ('txt', v['name']))})
            rep.count('names')
            vals = {x[1] for x in got if x and x[0] == 'var'}
            if None in got or len(vals) != 1:
                rep.count('names undecided')
            elif vals != {i}:
                rep.bad('%s|%s' % (f.path, v['name']), f.where(), '%s("%s") returns %s' % (f.path, v['name'], a['variants'][vals.pop()]['name']))
            else:
                rep.ok('%s("%s")' % (f.path, v['name']))
        g = own.get('to_string')
        if g and g.ins == ['&' + adt]:
            inl2 = mir.inline(prog, g, lambda cf, t, stack: True, max_depth=4)
            for i, v in enumerate(a['variants']):
                cl = Text()
                texts = set()
                cl.end = lambda fl, env: texts.add(env.get((0,)))
                fl = flow.Flow(prog, inl2, cl)
                fl.strings = True
                fl.run({(1, '*'): ('var', i, None)})
                texts = {x[1][1] for x in texts if x and x[0] == 'sym'}
                for s in texts:
                    got = set()
                    cl = Text()
                    cl.end = lambda fl, env: got.add(env.get((0,)))
                    fl = flow.Flow(prog, inl, cl)
                    fl.strings = True
                    fl.run({(1, '*'): ('sym', ('txt', s)), (1,): ('sym', ('txt', s))})
                    rep.count('names')
                    if {x[1] for x in got if x and x[0] == 'var'} not in ({i},) and None not in got:
                        rep.bad('%s|%s|text' % (g.path, v['name']), g.where(), '%s is written as "%s", which is read back as another choice' % (v['name'], s))
                    else:
                        rep.ok('%s written as "%s"' % (v['name'], s))


def names(rep, sv):
    """the reported effective settings name the choice with that code"""
    prog = sv.prog
    fn = mir.inline(prog, sv.stats, lambda cf, t, stack: cf.path.startswith('russell_sparse') or cf.path.startswith('<russell_sparse'), max_depth=4)
    fields = [f[0] for f in prog.adts[sv.adt]['variants'][0]['fields']]
    outs = {}
    stats = re.sub(r'^&(mut )?', '', sv.stats.ins[1])

    def walk(adt, path, name):
        for i, f in enumerate(prog.adts[adt]['variants'][0]['fields']):
            q = path + (('f', i),)
            outs[q] = (name + '.' + f[0]).strip('.')
            if f[1] in prog.adts and prog.adts[f[1]]['kind'] == 'Struct':
                walk(f[1], q, name + '.' + f[0])
    walk(stats, (2, '*'), '')
    for opt in ('ordering', 'scaling', 'matching', 'pivoting', 'strategy'):
        table = STRATEGY if opt == 'strategy' else CODES.get((sv.back, opt), (None,))[0]
        if table is None or 'effective_' + opt not in fields:
            continue
        i = fields.index('effective_' + opt)
        for name, code in sorted(table.items()):
            if name == 'Auto' and any(c == code and n != 'Auto' for n, c in table.items()):
                continue
            cl = Text()
            got = {}

            def end(fl, env):
                for q, nm in outs.items():
                    v = env.get(q)
                    if v and v[0] == 'sym' and isinstance(v[1], tuple) and v[1][0] == 'txt':
                        got.setdefault(nm, set()).add(v[1][1])
            cl.end = end
            fl = flow.Flow(prog, fn, cl)
            fl.strings = True
            fl.run({(1, '*', ('f', i)): ('k', code)})
            rep.count('effective codes')
            texts = [x for nm, xs in got.items() if nm.endswith(opt) for x in xs]
            if not texts:
                rep.count('effective codes undecided')
            elif any(x.lower() != name.lower() for x in texts):
                rep.bad('%s|effective_%s|%s' % (sv.stats.path, opt, name), sv.stats.where(), '%s reports the effective %s with code %d (%s) as "%s"' % (sv.stats.path, opt, code, name, texts[0]))
            else:
                rep.ok('%s: effective %s %s' % (sv.adt, opt, name))


def passed_on(rep, prog):
    """library code that holds solver options passes them to the solver"""
    for fn in prog.fns.values():
        if '::bin::' in fn.path or fn.kind == 'Closure' and False:
            continue
        for b in fn.blocks:
            t = b.t
            if b.c or t[0] != 'call':
                continue
            nm = mir.callee_name(t[1])
            if not re.search(r'LinSolTrait>?(?: for [^>]*>)?::factorize$|LinSolTrait::factorize$', nm):
                continue
            rep.count('factorization requests')
            reach = holds(prog, [x for x in fn.ins] + [ty for n, p in [] for ty in ()], set())
            if not reach and fn.kind == 'Closure':
                reach = holds(prog, [fn.locals[1][0]], set())
            o = t[2][2] if len(t[2]) > 2 else None
            src = origins(fn, o, set()) if o else {'?'}
            if reach and src and src <= {'const'}:
                rep.bad('%s|options' % fn.path, fn.where(t[5]), '%s holds solver options but asks for a factorization without them' % fn.path)
            else:
                rep.ok('%s: factorization request' % fn.path)


def holds(prog, types, seen):
    for ty in types:
        if 'LinSolParams' in ty:
            return True
        for nm in re.findall(r'[\w:]+', ty):
            if nm in prog.adts and nm not in seen and nm.startswith('russell_'):
                seen.add(nm)
                if prog.adts[nm]['kind'] == 'Struct' and holds(prog, [f[1] for f in prog.adts[nm]['variants'][0]['fields']], seen):
                    return True
    return False


def origins(fn, o, seen):
    if o[0] == 'k':
        return {'const'}
    if len(o[1]) > 1 or o[1][0] <= fn.argc:
        return {'place'}
    l = o[1][0]
    if l in seen:
        return set()
    seen.add(l)
    out = set()
    for b in fn.blocks:
        if b.c:
            continue
        for s in b.s:
            if s[0] == '=' and s[1][0] == l:
                r = s[2]
                if r[0] in ('use', 'cast'):
                    out |= origins(fn, r[1] if r[0] == 'use' else r[2], seen)
                elif r[0] == 'agg':
                    out |= {'const'} if not r[2] else set().union(*[origins(fn, x, seen) for x in r[2]])
                else:
                    out.add('place')
        if b.t[0] == 'call' and b.t[3][0] == l:
            out.add('const' if re.search(r'LinSolParams::new$', mir.callee_name(b.t[1])) else 'call')
    return out


def check():
    rep = Report('P22', RULE)
    cprogs = clower.programs(facts.extract())
    seen = set()
    for v in (None, 'mumps', 'cudss'):
        prog = mir.Program(v)
        for adt in sorted({f.impl_self for f in prog.fns.values() if f.impl_trait and 'LinSolTrait' in str(f.impl_trait) and f.impl_self}):
            if adt in seen or not re.search(r'umfpack|mumps|cudss', adt, re.I):
                continue
            seen.add(adt)
            rep.count('solvers')
            options(rep, prog, cprogs, adt)
        if v is None:
            round_trip(rep, prog)
            passed_on(rep, prog)
    rep.floor('solvers', 6)
    rep.floor('enumeration values', 100)
    rep.floor('named enumerations', 5)
    rep.floor('slots checked', 1000)
    rep.floor('effective codes', 30)
    if rep.counts.get('effective codes undecided', 0) * 2 > rep.counts.get('effective codes', 0):
        rep.error('the reported names of the effective settings are not understood')
    return rep

"""P06: no mutable state outside the objects handed to each call.

Enumerates every static, thread-local, field type and process-global setter of the seven crates (all
feature variants) and every variable with static storage duration of the C shims. None may be mutable.
"""
import json, os, re
from .. import cast, facts, mir
from ..report import Report

RULE = ('every static item is immutable without interior mutability and not thread-local; no type field shares mutable data '
        '(Rc/Arc/reference around a cell or lock, raw pointer in a cloneable type); no library code changes process-wide state '
        '(environment, panic hook, working directory, BLAS threads outside the dedicated setter); every C variable with static '
        'storage is const')

CELLS = r'(?:core::cell::|std::cell::|std::sync::|core::sync::|alloc::sync::)?(?:\w+::)*(?:RefCell|Cell|UnsafeCell|OnceCell|LazyCell|Mutex|RwLock|OnceLock|LazyLock|ReentrantLock|Atomic\w*|Condvar|Barrier)\b'
SHARED = re.compile(r'(?:\b(?:Rc|Arc|Weak)<|&(?:\'\w+ )?)[^;]*?' + CELLS)
GLOBAL_CALLS = re.compile(r'^(std::env::(set_var|remove_var|set_current_dir)|std::panic::(set_hook|take_hook|update_hook)|std::panicking::(set_hook|take_hook)|std::process::\w+|.*::(OnceLock|LazyLock|OnceCell|LocalKey)(::)?<.*>::\w+|std::thread::\w*local\w*::.*)$')
NATIVE_GLOBAL = re.compile(r'(set_num_threads|setenv|putenv|srand|strtok|omp_set_|signal$|setlocale)')
C_GLOBAL = re.compile(r'^(setenv|putenv|unsetenv|srand|srandom|rand|random|strtok|setlocale|signal|omp_set_\w+|chdir|umask)$')


def scan(crate_json, crate, rep, report):
    n = 0
    for s in crate_json['statics']:
        rep.count('rust statics')
        n += 1
        if s['mut'] or not s['freeze'] or s['tls']:
            why = 'mutable' if s['mut'] else 'thread-local' if s['tls'] else 'interior mutability'
            report('static ' + s['key'], '%s:%s' % (s['file'], s['line']), 'static item with %s state: %s' % (why, s['ty']))
        else:
            rep.ok('static %s: %s' % (s['key'], s['ty']))
    for c in crate_json['consts']:
        rep.count('rust constants')
        if 'LocalKey<' in c['ty'] or 'LazyLock' in c['ty'] or 'OnceLock' in c['ty']:
            report('const ' + c['key'], '%s:%s' % (c['file'], c['line']), 'lazily initialised or thread-local state: ' + c['ty'])
        else:
            rep.ok()
    for a in crate_json['adts']:
        for v in a['variants']:
            for f in v['fields']:
                rep.count('type fields')
                t = f[1]
                key = 'field %s.%s' % (a['path'], f[0])
                if SHARED.search(t):
                    report(key, '%s:%s' % (a['file'], a['line']), 'field shares mutable data with other objects: ' + t)
                elif a.get('Clone') and re.search(r'\*mut |\*const |NonNull<', t):
                    report(key, '%s:%s' % (a['file'], a['line']), 'copies of this type share the object behind a raw pointer: ' + t)
                else:
                    rep.ok()
    setter = []
    for f in crate_json['fns']:
        rep.count('functions')
        for b in f['blocks']:
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'tls':
                    report('tls in ' + f['key'], '%s:%s' % (f['file'], f['line']), 'access to thread-local state')
            t = b['t']
            if t[0] != 'call':
                continue
            rep.count('call sites')
            nm = t[1].get('rpath') or t[1].get('path') or ''
            if GLOBAL_CALLS.match(nm):
                report('%s calls %s' % (f['key'], re.sub('<.*>', '', nm)), '%s:%s' % (f['file'], f['line']), 'process-wide or lazily initialised state: ' + nm)
            elif NATIVE_GLOBAL.search(nm.rsplit('::', 1)[-1]) and (t[1].get('foreign') or crate.startswith('russell')):
                setter.append((f, nm, t))
    return setter


def cscan(cf, rep, report):
    for d in cf.decls:
        for n, par in cast.walk(d):
            if n['kind'] == 'VarDecl' and (not any(p['kind'] == 'FunctionDecl' for p in par) or n.get('storageClass') in ('static', 'extern')):
                rep.count('c static variables')
                q = n['type']['qualType']
                where = '%s:%s' % (cast.fname(n), cast.line(n))
                fun = [p['name'] for p in par if p['kind'] == 'FunctionDecl']
                key = 'c variable %s%s' % (fun[0] + '/' if fun else '', n['name'])
                base = n['type'].get('desugaredQualType', q)
                if re.match(r'^(static )?const\b', base) and '*' not in base or re.search(r'\*\s*const$', base) and base.startswith('const'):
                    rep.ok()
                else:
                    report('%s %s' % (cf.name, key), where, 'C variable with static storage that is not const: %s %s' % (q, n['name']))
            if n['kind'] == 'CallExpr':
                rep.count('c call sites')
                for m, _ in cast.walk(n['inner'][0]):
                    if m['kind'] == 'DeclRefExpr' and C_GLOBAL.match(m['referencedDecl']['name']):
                        fun = [p['name'] for p in par if p['kind'] == 'FunctionDecl']
                        report('%s %s calls %s' % (cf.name, fun[0] if fun else '', m['referencedDecl']['name']), '%s:%s' % (cf.rel, cast.line(n)),
                               'process-wide state changed in C: ' + m['referencedDecl']['name'])


def check():
    rep = Report('P06', RULE)
    d = facts.extract()
    rep.t0 = __import__('time').time()
    tags = [(c, None) for c in facts.CRATES] + [(c, t) for c, t, _ in facts.VARIANTS]
    for c, t in tags:
        x = json.load(open(os.path.join(d, c + ('.' + t if t else '') + '.json')))
        rep.count('crate variants')
        for f, nm, tt in scan(x, c, rep, rep.bad):
            # the dedicated, documented setter of the BLAS thread count is the only place allowed to touch it
            if tt[1].get('foreign') and f['kind'] == 'Fn' and f.get('pub') and f['path'].rsplit('::', 1)[-1] == 'set_num_threads' and nm.endswith('c_set_num_threads'):
                rep.ok('%s is the dedicated setter' % f['path'])
            else:
                rep.bad('%s calls %s' % (f['key'], nm), '%s:%s' % (f['file'], f['line']), 'library code changes a process-wide setting: ' + nm)
    for cf in cast.cfiles(d):
        rep.count('c files')
        cscan(cf, rep, rep.bad)
    # positive examples: the scan must report each of them
    seen = []
    tmp = Report('P06', RULE)
    scan(json.load(open(os.path.join(d, 'fixture_p06.json'))), 'fixture', tmp, lambda k, w, m: seen.append(k))
    for want in ('static fixture_p06::COUNTER', 'static fixture_p06::ATOMIC', 'static fixture_p06::CACHE', 'static fixture_p06::TABLE',
                 'const fixture_p06::SCRATCH', 'const fixture_p06::FLAG', 'field fixture_p06::SharedBuffer.data',
                 'field fixture_p06::SharedTable.data', 'field fixture_p06::RawShare.data', 'fixture_p06::environment calls std::env::set_var'):
        if want not in seen:
            rep.error('positive example not reported: ' + want)
    cs = []
    cscan(cast.CFile(d, 'fixture_p06.c'), tmp, lambda k, w, m: cs.append(k))
    for want in ('shared_work', 'calls', 'counter/n'):
        if not any(k.endswith('variable ' + want) for k in cs):
            rep.error('positive C example not reported: ' + want)
    if any('fine' in k for k in cs):
        rep.error('const C variable reported')
    rep.floor('functions', 2000)
    rep.floor('type fields', 400)
    rep.floor('c files', 7)
    rep.floor('crate variants', 10)
    return rep

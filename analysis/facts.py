"""Extraction and loading of program facts.

Facts are extracted from the current working tree of the repository by the compiler driver
(driver/mirfacts.rs) and by clang, and cached under .build/ with a key over every input.
"""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
TOOLCHAIN = 'nightly'
CRATES = ['russell_lab', 'russell_sparse', 'russell_ode', 'russell_nonlin', 'russell_pde', 'russell_stat', 'russell_tensor']
# (crate, tag, features turned on): code that the default build leaves out
VARIANTS = [
    ('russell_sparse', 'mumps', ['local_sparse']),
    ('russell_sparse', 'cudss', ['cudss']),
    ('russell_tensor', 'heap', ['heap']),
]
CLANG = '/usr/bin/clang-18'


class ExtractionError(Exception):
    pass


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def _hash_files(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode())
        h.update(b'\0')
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def source_files():
    out = []
    for c in CRATES:
        base = os.path.join(REPO, c)
        for sub in ('src', 'c_code'):
            for root, dirs, files in os.walk(os.path.join(base, sub)):
                dirs.sort()
                for f in sorted(files):
                    out.append(os.path.join(root, f))
        for f in ('Cargo.toml', 'build.rs'):
            p = os.path.join(base, f)
            if os.path.exists(p):
                out.append(p)
    out.append(os.path.join(REPO, 'Cargo.toml'))
    return out


def _env():
    env = dict(os.environ)
    for k in ('RUSTC_WRAPPER', 'RUSTUP_TOOLCHAIN', 'RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET_DIR'):
        env.pop(k, None)
    env['HOME'] = env.get('HOME') or '/root'
    env['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + env.get('PATH', '')
    env['CARGO_NET_OFFLINE'] = 'true'
    env['CARGO_TERM_COLOR'] = 'never'
    env['RUSTUP_TOOLCHAIN'] = TOOLCHAIN
    return env


def build_driver():
    """Compiles the driver unless an up-to-date one is present; returns its path and hash."""
    src = os.path.join(VERIF, 'driver', 'mirfacts.rs')
    env = _env()
    ver = _run(['rustc', '-vV'], env=env).stdout
    h = hashlib.sha256((ver + open(src).read()).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'mirfacts-' + h)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        tmp = exe + '.tmp%d' % os.getpid()
        r = _run(['rustc', '-O', '--edition', '2024', src, '-o', tmp], env=env)
        if r.returncode != 0:
            raise ExtractionError('the compiler driver does not build:\n' + r.stdout)
        os.rename(tmp, exe)
    return exe, h


def _sysroot(env):
    return _run(['rustc', '--print', 'sysroot'], env=env).stdout.strip()


def extract(verbose=False):
    """Makes sure facts for the current sources exist; returns their directory."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe, dh = build_driver()
        files = source_files()
        stubs = sorted(glob.glob(os.path.join(VERIF, 'cstubs', '*')) + glob.glob(os.path.join(VERIF, 'fixtures', '*')))
        key = _hash_files(files + stubs + [os.path.abspath(__file__)]) + '-' + dh
        out = os.path.join(BUILD, 'facts-' + key)
        if os.path.exists(os.path.join(out, 'done')):
            return out
        for old in glob.glob(os.path.join(BUILD, 'facts-*')):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out)
        env = _env()
        env['LD_LIBRARY_PATH'] = _sysroot(env) + '/lib'
        env['MIRFACTS_OUT'] = out
        env['RUSTC_WORKSPACE_WRAPPER'] = exe
        target = os.path.join(BUILD, 'target')
        env['CARGO_TARGET_DIR'] = target
        env['CARGO_INCREMENTAL'] = '0'
        # cargo must not consider the workspace crates fresh
        for root, dirs, fs in os.walk(os.path.join(target, 'debug')):
            if any('lib-' + c in fs for c in CRATES):
                shutil.rmtree(root, ignore_errors=True)
                dirs[:] = []
        cmd = ['cargo', 'check', '--offline', '--lib']
        for c in CRATES:
            cmd += ['-p', c]
        r = _run(cmd, cwd=REPO, env=env)
        if r.returncode != 0:
            raise ExtractionError('cargo check failed:\n' + r.stdout[-4000:])
        for c in CRATES:
            if not os.path.exists(os.path.join(out, c + '.json')):
                raise ExtractionError('no facts for crate ' + c)
        for crate, tag, feats in VARIANTS:
            _variant(exe, out, env, crate, tag, feats)
        _cfacts(out)
        _fixtures(exe, out, env)
        with open(os.path.join(out, 'done'), 'w') as f:
            f.write(key)
        return out


def _variant(exe, out, env, crate, tag, feats):
    args = open(os.path.join(out, crate + '.args')).read().split('\0')
    venv = dict(env)
    for kv in open(os.path.join(out, crate + '.env')).read().split('\0'):
        if kv:
            k, v = kv.split('\x01', 1)
            venv[k] = v
    venv['MIRFACTS_TAG'] = tag
    scratch = os.path.join(out, 'variant-' + tag)
    os.makedirs(scratch)
    new, skip = [], False
    for i, a in enumerate(args):
        if skip:
            skip = False
            continue
        if a == '--out-dir':
            skip = True
            continue
        if a.startswith('--emit='):
            a = '--emit=metadata'
        if a.startswith('--error-format') or a.startswith('--json='):
            continue
        if a.startswith('incremental='):
            if new and new[-1] == '-C':
                new.pop()
            continue
        new.append(a)
    new += ['--out-dir', scratch]
    for f in feats:
        new += ['--cfg', 'feature="%s"' % f]
    venv.pop('RUSTC_WORKSPACE_WRAPPER', None)
    cwd = REPO
    r = _run([exe] + new, cwd=cwd, env=venv)
    if r.returncode != 0 or not os.path.exists(os.path.join(out, '%s.%s.json' % (crate, tag))):
        raise ExtractionError('variant %s of %s failed:\n%s' % (tag, crate, r.stdout[-4000:]))
    shutil.rmtree(scratch, ignore_errors=True)


# C sources: (file relative to the repository, extra flags)
CSOURCES = [
    ('russell_lab/c_code/interface_blas.c', []),
    ('russell_sparse/c_code/interface_umfpack.c', []),
    ('russell_sparse/c_code/interface_complex_umfpack.c', []),
    ('russell_sparse/c_code/interface_mumps.c', []),
    ('russell_sparse/c_code/interface_complex_mumps.c', []),
    ('russell_sparse/c_code/interface_cudss.cu', ['-x', 'c++', '-nostdinc++']),
    ('russell_sparse/c_code/interface_complex_cudss.cu', ['-x', 'c++', '-nostdinc++']),
]


def cflags(rel):
    return ['-I/usr/include/suitesparse', '-I' + os.path.join(VERIF, 'cstubs'), '-w']


def _cfacts(out):
    procs = []
    for rel, extra in CSOURCES:
        src = os.path.join(REPO, rel)
        stem = os.path.join(out, os.path.basename(rel))
        if not os.path.exists(src):
            raise ExtractionError('missing C source ' + rel)
        a = [CLANG] + extra + cflags(rel) + ['-fsyntax-only', '-Xclang', '-ast-dump=json', src]
        procs.append((rel, stem + '.ast.json', subprocess.Popen(a, stdout=open(stem + '.ast.json', 'w'), stderr=subprocess.PIPE, text=True)))
        b = [CLANG] + extra + cflags(rel) + ['-dM', '-E', src]
        procs.append((rel, stem + '.macros', subprocess.Popen(b, stdout=open(stem + '.macros', 'w'), stderr=subprocess.PIPE, text=True)))
    for rel, f, p in procs:
        err = p.communicate()[1]
        if p.returncode != 0:
            raise ExtractionError('clang failed on %s:\n%s' % (rel, err[-3000:]))
        if f.endswith('.ast.json'):
            _reduce(f, f.replace('.ast.json', '.cast.json'))


def _fixtures(exe, out, env):
    """Positive examples: small sources on which a rule must report something."""
    procs = []
    venv = dict(env)
    venv.pop('RUSTC_WORKSPACE_WRAPPER', None)
    scratch = os.path.join(out, 'fixtures')
    os.makedirs(scratch)
    for f in sorted(glob.glob(os.path.join(VERIF, 'fixtures', '*.rs'))):
        name = 'fixture_' + os.path.basename(f)[:-3]
        a = [exe, f, '--crate-name', name, '--crate-type', 'lib', '--edition', '2024', '--emit=metadata', '--out-dir', scratch, '-A', 'warnings']
        procs.append((f, os.path.join(out, name + '.json'), subprocess.Popen(a, cwd=VERIF, env=venv, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
    for f in sorted(glob.glob(os.path.join(VERIF, 'fixtures', '*.c'))):
        stem = os.path.join(out, 'fixture_' + os.path.basename(f))
        a = [CLANG, '-I' + os.path.join(VERIF, 'cstubs'), '-w', '-fsyntax-only', '-Xclang', '-ast-dump=json', f]
        procs.append((f, stem + '.ast.json', subprocess.Popen(a, stdout=open(stem + '.ast.json', 'w'), stderr=subprocess.PIPE, text=True)))
    for f, res, p in procs:
        err = p.communicate()[1]
        if p.returncode != 0 or not os.path.exists(res):
            raise ExtractionError('fixture %s failed:\n%s' % (f, err[-3000:]))
        if res.endswith('.ast.json'):
            _reduce(res, res.replace('.ast.json', '.cast.json'))
    shutil.rmtree(scratch, ignore_errors=True)


def _reduce(src, dst):
    """Keeps the declarations of the repository's own C files in full and the prototypes of everything else."""
    ast = json.load(open(src))
    cur = {'file': None, 'line': None}

    def annotate(n):
        # clang prints a file or line only when it differs from the previous one printed
        def locate(l):
            if not isinstance(l, dict):
                return
            for k in ('spellingLoc', 'expansionLoc'):
                if k in l:
                    locate(l[k])
            if 'file' in l:
                cur['file'] = l['file']
            if 'line' in l:
                cur['line'] = l['line']
            l['_f'], l['_l'] = cur['file'], cur['line']
        locate(n.get('loc'))
        r = n.get('range', {})
        locate(r.get('begin'))
        locate(r.get('end'))
        for c in n.get('inner', []):
            if isinstance(c, dict):
                annotate(c)

    annotate(ast)

    def own(n):
        l = n.get('loc', {})
        l = l.get('expansionLoc', l)
        return (l.get('_f') or '').startswith((REPO + '/', os.path.join(VERIF, 'fixtures')))

    decls, protos = [], {}

    def top(nodes):
        for n in nodes:
            if n.get('kind') == 'LinkageSpecDecl':
                top(n.get('inner', []))
            elif n.get('loc') and own(n):
                decls.append(n)
            elif n.get('kind') == 'FunctionDecl':
                protos[n['name']] = n['type']['qualType']
    top(ast.get('inner', []))
    json.dump({'decls': decls, 'protos': protos}, open(dst, 'w'))
    os.remove(src)


if __name__ == '__main__':
    print(extract())

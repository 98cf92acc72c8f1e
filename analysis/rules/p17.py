"""P17: malformed input files yield errors, not panics."""
import re
from .. import arith, flow, mir
from ..report import Report

RULE = ('for every function that opens a file named by its caller, with all functions of the workspace it calls expanded, every operation that can panic (unwrapping, indexing, slicing, '
        'checked arithmetic, explicit panics) is shown to be safe for every content of the file: the unwrapped value is of the right kind on every path, indices and ranges are within lengths, '
        'and results fit their type, by polynomial relations between counters, lengths and the numbers read; otherwise it is reported')

OPEN = re.compile(r'^std::fs::(File::open|read|read_to_string|File::open_buffered)$|fs::OpenOptions::open$')
# panicking library functions with the condition left to the caller
PANICKY = re.compile(r'(<impl \[T\]>::(copy_from_slice|clone_from_slice|split_at|split_at_mut|swap|chunks|chunks_exact|windows|rotate_left|rotate_right)'
                     r'|<impl str>::(split_at|split_at_mut|repeat)|Vec::<.*>::(remove|swap_remove|insert|drain|split_off)'
                     r'|String::(remove|insert|insert_str|drain|truncate|split_off|replace_range)|RefCell::<.*>::(borrow|borrow_mut)'
                     r'|Option::<.*>::unwrap_unchecked|Result::<.*>::unwrap_unchecked|<impl \[T\]>::get_unchecked(_mut)?)$')
NOT_MINE = re.compile(r'^(std|core|alloc)::')


class Client(arith.Client):
    def __init__(self):
        self.sites = {}

    def start(self, fl):
        return ()

    def restart(self, fl):
        self.sites = {}

    def note(self, fl, b, t, kind, goals, good, st):
        blk = fl.fn.blocks[b]
        s = self.sites.setdefault((b, kind), [True, blk, t, None])
        if not good:
            s[0] = False
            s[3] = s[3] or (goals and ' and '.join('%s >= 0' % arith.show(g) for g in goals if not fl.proves(st, g)))

    def oblige(self, fl, st, env, b, t, kind, goals, good):
        self.note(fl, b, t, kind, goals, good, st)

    def diverge(self, fl, st, env, b, t):
        self.note(fl, b, t, 'panic', None, False, st)

    def model(self, fl, st, env, b, t, nm, args):
        if PANICKY.search(nm):
            self.note(fl, b, t, 'library', None, False, st)
        return None


def roots(prog):
    out = []
    for fn in prog.fns.values():
        if not fn.ins:
            continue
        if any(b.t[0] == 'call' and OPEN.search(mir.callee_name(b.t[1])) for b in fn.blocks):
            out.append(fn)
    return out


def expand(cf, t, stack):
    return not re.search(r'cmp::PartialEq', str(cf.impl_trait or ''))


def check():
    rep = Report('P17', RULE)
    prog = mir.Program()
    rs = roots(prog)
    for fn in rs:
        inl = mir.inline(prog, fn, expand, max_depth=6)
        cl = Client()
        fl = arith.Arith(prog, inl, cl)
        try:
            fl.run()
        except flow.Limit as e:
            rep.error(str(e))
            continue
        rep.count('readers')
        rep.count('states', fl.states)
        for (b, kind), (good, blk, t, why) in sorted(cl.sites.items()):
            rep.count('panic sites')
            f = blk.fn
            ln = t[6] if t[0] == 'assert' else t[5]
            if good:
                rep.ok('%s: %s in %s is safe' % (fn.path, kind, f.path))
                continue
            rep.bad('%s|%s|%s|%s' % (fn.path, f.path, kind, what(t)), f.where(ln[1] if isinstance(ln, tuple) else ln), message(fn, f, t, kind, why))
    rep.floor('readers', 5)
    rep.floor('panic sites', 10)
    return rep


def what(t):
    return re.sub(r'<.*?>', '', mir.callee_name(t[1])).rsplit('::', 1)[-1] if t[0] == 'call' else t[3]


def message(fn, f, t, kind, why):
    via = '' if f.path == fn.path else ' (reached from %s)' % fn.path
    if kind == 'unwrap':
        return 'reading a file: %s%s unwraps a value that is not shown to be present for every content of the file' % (f.path, via)
    if kind in ('index', 'slice', 'bounds', 'lookup'):
        return 'reading a file: %s%s indexes without a check that covers every content of the file%s' % (f.path, via, ' (not shown: %s)' % why if why else '')
    if kind == 'panic':
        return 'reading a file: %s%s panics (%s)' % (f.path, via, what(t))
    if kind == 'library':
        return 'reading a file: %s%s calls %s, which panics for unsuitable arguments' % (f.path, via, what(t))
    return 'reading a file: %s%s: %s can fail for some content of the file%s' % (f.path, via, kind, ' (not shown: %s)' % why if why else '')

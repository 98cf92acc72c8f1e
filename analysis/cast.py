"""Model of the C sources (clang AST)."""
import json, os, re
from . import facts


class CFile:
    def __init__(self, d, rel):
        self.rel = rel
        self.name = os.path.basename(rel)
        stem = os.path.join(d, self.name if not rel.startswith('fixture') else rel)
        x = json.load(open(stem + '.cast.json'))
        self.decls, self.protos = x['decls'], x['protos']
        self.funcs = {}
        for n in self.decls:
            if n['kind'] == 'FunctionDecl':
                if any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])):
                    self.funcs[n['name']] = n
                else:
                    self.protos.setdefault(n['name'], n['type']['qualType'])
        self.macros = {}
        mf = stem + '.macros'
        if os.path.exists(mf):
            for l in open(mf):
                m = re.match(r'#define (\w+)(?: (.*))?$', l)
                if m:
                    self.macros[m.group(1)] = (m.group(2) or '').strip()


def cfiles(d):
    return [CFile(d, rel) for rel, _ in facts.CSOURCES]


def walk(n, parents=()):
    yield n, parents
    for c in n.get('inner', []) or []:
        if isinstance(c, dict) and c:
            yield from walk(c, parents + (n,))


def line(n):
    l = n.get('loc') or n.get('range', {}).get('begin', {})
    l = l.get('expansionLoc', l)
    return l.get('_l') or n.get('range', {}).get('begin', {}).get('_l')


def fname(n):
    l = n.get('loc') or n.get('range', {}).get('begin', {})
    l = l.get('expansionLoc', l)
    f = l.get('_f') or '?'
    return f[len(facts.REPO) + 1:] if f.startswith(facts.REPO + '/') else f

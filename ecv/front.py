"""ecv front end: C source -> clang JSON AST -> function table, types, struct layouts.

Everything is re-read from /repo on every run; macros are expanded by clang, implicit
conversions are explicit nodes.  Nothing is dropped from a function body.
"""
import json, os, re, subprocess, functools

REPO = os.environ.get('ECV_REPO', '/repo')


class FrontError(Exception):
    pass


# ---------------------------------------------------------------- types
class T:
    """C type. kind in int,double,void,ptr,array,struct,func"""
    __slots__ = ('kind', 'bits', 'signed', 'to', 'n', 'name')

    def __init__(s, kind, bits=0, signed=True, to=None, n=None, name=None):
        s.kind, s.bits, s.signed, s.to, s.n, s.name = kind, bits, signed, to, n, name

    def key(s):
        return (s.kind, s.bits, s.signed, s.to.key() if s.to else None, s.n, s.name)

    def __eq__(s, o):
        return isinstance(o, T) and s.key() == o.key()

    def __hash__(s):
        return hash(s.key())

    def __repr__(s):
        if s.kind == 'int':
            return ('i' if s.signed else 'u') + str(s.bits)
        if s.kind == 'ptr':
            return repr(s.to) + '*'
        if s.kind == 'array':
            return '%r[%s]' % (s.to, s.n)
        if s.kind == 'struct':
            return 'struct ' + str(s.name)
        return s.kind


INT = T('int', 32, True)
UINT = T('int', 32, False)
LONG = T('int', 64, True)
ULONG = T('int', 64, False)
CHAR = T('int', 8, True)
UCHAR = T('int', 8, False)
DOUBLE = T('double', 64)
VOID = T('void')

BASE = {
    'int': INT, 'unsigned int': UINT, 'unsigned': UINT, 'char': CHAR, 'signed char': CHAR,
    'unsigned char': UCHAR, 'long': LONG, 'unsigned long': ULONG, 'long long': LONG,
    'unsigned long long': ULONG, 'short': T('int', 16, True), 'unsigned short': T('int', 16, False),
    'double': DOUBLE, 'float': T('double', 32), 'void': VOID, '_Bool': T('int', 8, False),
    'long double': T('double', 128), 'size_t': ULONG, '__int128': T('int', 128, True),
    'unsigned __int128': T('int', 128, False),
}


class Unit:
    def __init__(s):
        s.typedefs = {}
        s.structs = {}   # name -> [(field, T)]
        s.funcs = {}     # name -> node (with body)
        s.protos = {}    # name -> qualType
        s.globals = {}   # name -> node
        s.enums = {}
        s.file = None
        s._pend = {}

    def ty(s, q):
        q = q.strip()
        if q in s._pend:
            return s._pend[q]
        t = s._parse(q)
        s._pend[q] = t
        return t

    def _parse(s, q):
        q = re.sub(r'\b(const|volatile|register|restrict|__restrict|static|inline|extern)\b', ' ', q)
        q = re.sub(r'\s+', ' ', q).strip()
        m = re.match(r'^(.*?)\s*\(\s*\*\s*\)\s*\((.*)\)$', q)
        if m:
            return T('ptr', to=T('func', name=q))
        m = re.match(r'^(.*?)\s*\(\s*\*\s*\)\s*((?:\[\d*\])+)$', q)
        if m:
            return T('ptr', to=s._parse(m.group(1) + m.group(2)))
        if q.endswith(')'):
            return T('func', name=q)
        if q.endswith(']'):
            # outermost dimension is the first bracket
            i = q.index('[')
            base, dims = q[:i], re.findall(r'\[(\d*)\]', q[i:])
            t = s._parse(base)
            for d in reversed(dims):
                t = T('array', to=t, n=int(d) if d else None)
            return t
        if q.endswith('*'):
            return T('ptr', to=s._parse(q[:-1]))
        if q in BASE:
            return BASE[q]
        if q in s.typedefs:
            return s.typedefs[q]
        m = re.match(r'^(struct|union) (.*)$', q)
        if m:
            return T('struct', name=m.group(2))
        if q.startswith('enum '):
            return INT
        if q in s.structs:
            return T('struct', name=q)
        return T('struct', name=q)

    def sizeof(s, t):
        return s._size(t)[0]

    def _size(s, t):
        if t.kind == 'int':
            return t.bits // 8, t.bits // 8
        if t.kind == 'double':
            return t.bits // 8, t.bits // 8
        if t.kind == 'ptr':
            return 8, 8
        if t.kind == 'void':
            return 1, 1
        if t.kind == 'array':
            if t.n is None:
                raise FrontError('sizeof incomplete array')
            a, al = s._size(t.to)
            return a * t.n, al
        if t.kind == 'struct':
            if t.name not in s.structs:
                raise FrontError('sizeof incomplete struct ' + str(t.name))
            off, al = 0, 1
            for _, ft in s.structs[t.name]:
                fs, fa = s._size(ft)
                off = (off + fa - 1) // fa * fa + fs
                al = max(al, fa)
            return (off + al - 1) // al * al, al
        raise FrontError('sizeof ' + repr(t))


def qt(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType') or 'int'


def _set_lines(n, cur):
    """clang delta-codes line numbers; make them absolute (attribute '_l')."""
    st = [n]
    # document order walk
    def walk(n):
        loc = n.get('loc')
        def upd(l):
            if not isinstance(l, dict):
                return
            for k in ('spellingLoc', 'expansionLoc'):
                if k in l:
                    upd(l[k])
            if 'line' in l:
                cur[0] = l['line']
        if loc:
            upd(loc)
        r = n.get('range')
        if r:
            b = r.get('begin', {})
            if 'expansionLoc' in b or 'spellingLoc' in b:
                if 'spellingLoc' in b and 'line' in b['spellingLoc']:
                    cur[0] = b['spellingLoc']['line']
                if 'expansionLoc' in b and 'line' in b['expansionLoc']:
                    cur[0] = b['expansionLoc']['line']
            elif 'line' in b:
                cur[0] = b['line']
            n['_l'] = cur[0]
            upd(r.get('end', {}))
        else:
            n['_l'] = cur[0]
        for c in n.get('inner') or []:
            if c:
                walk(c)
    walk(n)


import sys
sys.setrecursionlimit(20000)


def _names(tu):
    """local variables and loops get ids made of the function, their name and a number (stable under edits elsewhere)"""
    m = {}
    for f in tu.get('inner') or []:
        if f.get('kind') != 'FunctionDecl':
            continue
        cnt, nl = {}, [0]

        def walk(n):
            k = n.get('kind')
            if k in ('VarDecl', 'ParmVarDecl') and n.get('name') and n.get('id'):
                q = '%s.%s' % (f['name'], n['name'])
                cnt[q] = cnt.get(q, -1) + 1
                m.setdefault(n['id'], '%s.%d' % (q, cnt[q]) if cnt[q] else q)
            elif k in ('ForStmt', 'WhileStmt', 'DoStmt'):
                m[n['id']] = '%s.loop%d' % (f['name'], nl[0])
                nl[0] += 1
            for c in n.get('inner') or []:
                if isinstance(c, dict):
                    walk(c)
        if any(c.get('kind') == 'CompoundStmt' for c in f.get('inner') or []):
            walk(f)

    def ren(n):
        if n.get('id') in m:
            n['id'] = m[n['id']]
        d = n.get('referencedDecl')
        if d and d.get('id') in m:
            d['id'] = m[d['id']]
        for c in n.get('inner') or []:
            if isinstance(c, dict):
                ren(c)
    ren(tu)


def load(path, defs=(), incs=()):
    """Parse one C file of /repo."""
    full = path if os.path.isabs(path) else os.path.join(REPO, path)
    cmd = ['clang', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json'] + ['-D' + d for d in defs] + \
          ['-I' + i for i in incs] + [full]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise FrontError('clang failed on %s: %s' % (path, p.stderr[-2000:]))
    # clang's node ids are addresses: number them in order of appearance, so that every run is the same
    ids = {}
    tu = json.loads(re.sub(r'"0x[0-9a-f]+"', lambda m: '"n%05d"' % ids.setdefault(m.group(0), len(ids)), p.stdout))
    _names(tu)
    u = Unit()
    u.file = path
    anon = {}
    _set_lines(tu, [0])
    def record(n, name):
        if not n.get('completeDefinition'):
            return
        fl = []
        for c in n.get('inner') or []:
            if c['kind'] == 'RecordDecl':
                nm = c.get('name') or ('anon_' + c['id'])
                record(c, nm)
            if c['kind'] == 'FieldDecl':
                q = c['type'].get('desugaredQualType') or c['type']['qualType']
                if 'unnamed' in q or 'anonymous' in q:
                    fl.append((c.get('name', '?'), T('struct', name='?')))
                else:
                    fl.append((c.get('name', '?'), u._parse(q)))
        u.structs[name] = fl
    for n in tu.get('inner') or []:
        k = n['kind']
        if k == 'RecordDecl':
            nm = n.get('name') or ('anon_' + n['id'])
            anon[n['id']] = nm
            record(n, nm)
        elif k == 'TypedefDecl':
            tgt = None
            for c in n.get('inner') or []:
                o = c.get('ownedTagDecl')
                if o and o['id'] in anon:
                    tgt = T('struct', name=anon[o['id']])
                if c.get('kind') == 'ElaboratedType':
                    for cc in c.get('inner') or []:
                        d = cc.get('decl')
                        if d and d['id'] in anon:
                            tgt = T('struct', name=anon[d['id']])
            if tgt is None:
                q = n['type'].get('desugaredQualType') or n['type']['qualType']
                tgt = u._parse(q)
            u.typedefs[n['name']] = tgt
        elif k == 'FunctionDecl':
            has = any(c['kind'] == 'CompoundStmt' for c in n.get('inner') or [])
            u.protos[n['name']] = n
            if has:
                u.funcs[n['name']] = n
        elif k == 'VarDecl':
            # a definition (with or without initialiser) wins over an extern declaration
            if n['name'] not in u.globals or n.get('storageClass') != 'extern':
                u.globals[n['name']] = n
        elif k == 'EnumDecl':
            v = 0
            for c in n.get('inner') or []:
                if c['kind'] == 'EnumConstantDecl':
                    u.enums[c['name']] = v
                    v += 1
    return u


_cache = {}


def unit(path, defs=(), incs=()):
    k = (path, tuple(defs), tuple(incs))
    if k not in _cache:
        _cache[k] = load(path, defs, incs)
    return _cache[k]

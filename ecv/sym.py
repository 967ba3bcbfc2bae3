"""ecv symbolic executor / verification-condition generator.

Machine model: signed int arithmetic is checked for overflow (an obligation per
operation) and then treated mathematically; unsigned arithmetic is checked not to wrap;
double is treated as real (documented assumption); every load/store is checked to be in
bounds of its block and inside the function's declared footprint.
"""
import zlib
import z3, itertools, time, os
from fractions import Fraction
from z3 import And, Or, Not, Implies, If, IntVal, RealVal, BoolVal
import front
from front import T, INT, UINT, ULONG, DOUBLE, VOID, CHAR
import theory as th
from theory import pow2, imul, bxor, band, bor, rmul, rdiv, rlog, rexp, rsqrt, Sel

TRUE, FALSE = BoolVal(True), BoolVal(False)


class Unsupported(Exception):
    pass


class Dead(Exception):
    """path became infeasible"""


_cnt = itertools.count()


def fresh(name, sort='int'):
    n = '%s!%d' % (name, next(_cnt))
    if sort == 'int':
        return z3.Int(n)
    if sort == 'real':
        return z3.Real(n)
    if sort == 'bool':
        return z3.Bool(n)
    return z3.Const(n, sort)


def isnum(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)


def num(t):
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return t.as_fraction()
    return None


def sm(t):
    return z3.simplify(t, som=True)


def same(a, b):
    if a is b or a.eq(b):
        return True
    d = z3.simplify(a - b, som=True)
    return z3.is_int_value(d) and d.as_long() == 0


def differ(a, b):
    d = z3.simplify(a - b, som=True)
    return z3.is_int_value(d) and d.as_long() != 0


def lin(t):
    """linear form: dict term->coef, const (coefs python ints)"""
    t = z3.simplify(t, som=True)
    res, k = {}, 0
    args = t.children() if z3.is_add(t) else [t]
    for x in args:
        if z3.is_int_value(x):
            k += x.as_long()
        elif z3.is_mul(x) and z3.is_int_value(x.arg(0)) and x.num_args() == 2:
            res[x.arg(1).get_id()] = (x.arg(1), x.arg(0).as_long())
        else:
            res[x.get_id()] = (x, 1)
    return res, k


# ------------------------------------------------------------------ spaces & pointers
class Space:
    _n = itertools.count()

    def __init__(s, name, elt, size=None, single=False, nbytes=None, valid=None, shape=None, local=False):
        s.id = next(Space._n)
        s.name, s.elt, s.size, s.single, s.nbytes = name, elt, size, single, nbytes
        s.valid = valid      # None: use size ; else list of (lo,hi) 'rw' / 'r' absolute ranges
        s.shape = shape      # None or list of callables dims (strides) for multi-dim
        s.local = local      # created inside the function under verification
        s.base = None        # view of a raw byte block: (parent, byteoffset)
        s.views = []
        s.acc = []
        s.isconst = False

    def __repr__(s):
        return '<%s#%d>' % (s.name, s.id)


class Ptr:
    __slots__ = ('space', 'path', 'idx', 'ty', 'null')

    def __init__(s, space, path, idx, ty, null=FALSE):
        s.space, s.path, s.idx, s.ty, s.null = space, path, tuple(idx), ty, null

    def w(s, **k):
        p = Ptr(s.space, s.path, s.idx, s.ty, s.null)
        for a, b in k.items():
            setattr(p, a, b)
        return p

    def __repr__(s):
        return 'Ptr(%r,%r,%r)' % (s.space, s.path, s.idx)


NULLPTR = Ptr(None, (), (), VOID, TRUE)
EXTERN = {'enc_utils_ntp': T('int', bits=32, signed=True)}   # globals of other units named in contracts
UNINIT = Ptr(None, (), (), VOID, TRUE)   # declared, not yet assigned


class Fn:
    """function designator value"""
    def __init__(s, name):
        s.name = name


class Cont:
    """array content: base z3 array + list of writes"""
    __slots__ = ('base', 'ws', '_t')

    def __init__(s, base, ws=()):
        s.base, s.ws, s._t = base, ws, None

    def term(s):
        if s._t is None:
            t = s.base
            for (i, v) in s.ws:
                t = z3.Store(t, *i, v)
            s._t = t
        return s._t

    def store(s, i, v):
        ws = list(s.ws)
        for k in range(len(ws) - 1, -1, -1):
            j = ws[k][0]
            if all(same(x, y) for x, y in zip(i, j)):
                ws[k] = (j, v)
                return Cont(s.base, tuple(ws))
            if not any(differ(x, y) for x, y in zip(i, j)):
                break
        ws.append((tuple(i), v))
        return Cont(s.base, tuple(ws))

    def read(s, i):
        ws = s.ws
        for k in range(len(ws) - 1, -1, -1):
            j = ws[k][0]
            if all(same(x, y) for x, y in zip(i, j)):
                return ws[k][1]
            if any(differ(x, y) for x, y in zip(i, j)):
                continue
            t = s.base
            for (jj, v) in ws[:k + 1]:
                t = z3.Store(t, *jj, v)
            return z3.Select(t, *i)
        return z3.Select(s.base, *i)


def zsort(ty):
    return z3.RealSort() if ty.kind == 'double' else z3.IntSort()


class State:
    def __init__(s):
        s.env = {}      # (declid) -> value
        s.mem = {}      # (space,path[,comp]) -> Cont | scalar | Ptr
        s.pc = []
        s.freed = {}    # space -> cond
        s.log = None    # list of write records
        s.touched = None

    def copy(s):
        n = State()
        n.env, n.mem, n.pc = dict(s.env), dict(s.mem), list(s.pc)
        n.freed, n.log, n.touched = dict(s.freed), s.log, s.touched
        return n

    def assume(s, f):
        if z3.is_true(f):
            return
        s.pc.append(f)

    def clone_into(s, o):
        s.env, s.mem, s.pc, s.freed = o.env, o.mem, o.pc, o.freed


class Ob:
    __slots__ = ('name', 'kind', 'pc', 'goal', 'line', 'res', 'time', 'be', 'model', 'func')

    def __init__(s, func, kind, name, pc, goal, line):
        s.func, s.kind, s.name, s.pc, s.goal, s.line = func, kind, name, pc, goal, line
        s.res = s.time = s.be = s.model = None


class Frame:
    def __init__(s, fname, rett):
        s.fname, s.rett = fname, rett


def to_bool(v):
    if isinstance(v, Ptr):
        return Not(v.null)
    if z3.is_bool(v):
        return v
    if z3.is_int(v):
        if z3.is_int_value(v):
            return BoolVal(v.as_long() != 0)
        if z3.is_app_of(v, z3.Z3_OP_ITE) and isnum(v.arg(1)) and isnum(v.arg(2)):
            x, y = num(v.arg(1)), num(v.arg(2))
            if x and not y:
                return v.arg(0)
            if y and not x:
                return Not(v.arg(0))
        return v != 0
    return v != 0


def to_int(v):
    if z3.is_bool(v):
        if z3.is_true(v):
            return IntVal(1)
        if z3.is_false(v):
            return IntVal(0)
        return If(v, IntVal(1), IntVal(0))
    return v


def solver_batch(pc, goals):
    import solver
    return solver.Batch(pc, goals, 4000)


def solver_prove(pc, f, ms):
    import solver
    return solver.prove(pc, f, ms) or bool(solver.portfolio(pc, f, 20))


def mk_mul(a, b):
    if isnum(a) or isnum(b):
        return z3.simplify(a * b) if isnum(a) and isnum(b) else a * b
    # (c + t)*b distributes only for numerals: keep imul canonical over sums
    la, ka = lin(a)
    lb, kb = lin(b)
    tot = IntVal(ka * kb)
    for (x, cx) in la.values():
        if kb:
            tot = tot + cx * kb * x
        for (y, cy) in lb.values():
            p, q = (x, y)
            if z3.is_app(q) and q.decl().name() == 'pow2' and not (z3.is_app(p) and p.decl().name() == 'pow2'):
                p, q = q, p
            elif not (z3.is_app(p) and p.decl().name() == 'pow2') and p.get_id() > q.get_id():
                p, q = q, p
            tot = tot + cx * cy * imul(p, q)
    for (y, cy) in lb.values():
        if ka:
            tot = tot + cy * ka * y
    return z3.simplify(tot)


def monic(t):
    """t = c * r, numeral factor c pulled out (sums are left alone: they may be equal to a variable)"""
    t = z3.simplify(t, som=False)
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
        c, r = monic(t.arg(0))
        return -c, r
    if z3.is_mul(t) and isnum(t.arg(0)):
        rest = t.children()[1:]
        if len(rest) == 1:
            c, r = monic(rest[0])
            return c * num(t.arg(0)), r
    return 1, t


def factors(t):
    c, r = monic(t)
    if z3.is_app(r) and r.decl().eq(rmul):
        c1, f1 = factors(r.arg(0))
        c2, f2 = factors(r.arg(1))
        return c * c1 * c2, f1 + f2
    return c, [r]


_sk = {}


def skey(t):
    """ordering key that does not look inside integer arguments (they are often equal without being identical)"""
    k = t.get_id()
    r = _sk.get(k)
    if r is not None and r[0].eq(t):
        return r[1]
    if not z3.is_app(t):
        v = 'q'
    elif t.num_args() == 0:
        v = str(t) if isnum(t) else t.decl().name()
    elif z3.is_int(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        v = t.decl().name()
    elif z3.is_select(t):
        v = 'sel'
    else:
        ks = [skey(x) for x in t.children()]
        nm = t.decl().name()
        if nm in ('+', '*', 'rmul'):
            ks.sort()
        v = '(%s %s)' % (nm, ' '.join(ks))
        if len(v) > 400:
            v = '(%s %s' % (nm, zlib.crc32(v.encode()))
    _sk[k] = (t, v)
    return v


def mk_rmul(a, b):
    """product of reals in normal form: numeral coefficient, factors in a fixed order"""
    if isnum(a) or isnum(b):
        return a * b
    c1, f1 = factors(a)
    c2, f2 = factors(b)
    fs = sorted(f1 + f2, key=lambda q: (skey(q), q.get_id()))
    if any(isnum(q) for q in fs):
        for q in fs:
            if isnum(q):
                c1 = c1 * num(q)
        fs = [q for q in fs if not isnum(q)]
        if not fs:
            return RealVal(c1 * c2)
    c = c1 * c2
    # squares do not depend on the sign of their base: give a-b and b-a one form
    for a_ in range(len(fs)):
        for b_ in range(a_ + 1, len(fs)):
            x, y = fs[a_], fs[b_]
            if z3.is_add(x) and z3.is_add(y) and not x.eq(y) and x.num_args() == y.num_args():
                if isnum(z3.simplify(x + y, som=True)) and num(z3.simplify(x + y, som=True)) == 0:
                    fs[b_] = x
                    c = -c
            if z3.is_add(fs[a_]) and fs[a_].eq(fs[b_]):
                n_ = z3.simplify(-x, som=True)
                if z3.is_add(n_) and str(n_) < str(x):
                    fs[a_] = fs[b_] = n_
    r = fs[0]
    for q in fs[1:]:
        r = rmul(r, q)
    return r if c == 1 else (-r if c == -1 else RealVal(c) * r)


def mk_rdiv(a, b):
    if isnum(b) and num(b) != 0:
        return a * RealVal(1 / num(b)) if not isnum(a) else RealVal(num(a) / num(b))
    return rdiv(a, b)


class Exec:
    def __init__(s, unit, contracts, stubs=None, opts=None):
        s.u = unit
        s.contracts = contracts         # name -> contract object
        s.stubs = stubs or {}
        s.opts = opts or {}
        s.obs = []
        s.quiet = 0                     # >0: obligations suppressed
        s.frames = []
        s.leaf0 = {}                    # initial leaf contents (shared)
        s.ptrsp = {}
        s.ptrtgt = {}                   # (space,path) -> (Space, path, ty) for arrays of pointers
        s.gspaces = {}
        s.gcells = {}
        s.assumed = []
        s.addr_taken = {}
        s.func = None
        s.cur_contract = None
        s.depth = 0
        s.line = 0
        s.assigns = None                # list of allowed writes or None
        s.used_contracts = set()
        s.used_stubs = set()
        s.inlined = set()
        s.loops = []                    # report
        s.solver_time = 0.0
        s.houdini_checks = 0
        s.houdini_ok = 0
        s.deadline = None
        s.varspaces = {}
        s.loop_no = 0
        s.call_no = {}

    # -------------------------------------------------------- obligations
    def ob(s, st, kind, name, goal):
        if s.quiet:
            return
        if z3.is_bool(goal) and z3.is_true(z3.simplify(goal)):
            goal = BoolVal(True)
        s.obs.append(Ob(s.func, kind, name, list(st.pc), goal, s.line))

    def quick(s, st, cond, ms=400):
        """cheap implied-check from quantifier-free facts (used only to pick representations)"""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        for f in st.pc:
            if f.eq(cond):
                return True
        sol = z3.Solver()
        sol.set('timeout', ms)
        fs = [f for f in st.pc if not has_quant(f)]
        sol.add(*fs)
        sol.add(*[x for x in th.axioms_for(fs + [cond]) if not z3.is_quantifier(x)])
        sol.add(Not(cond))
        t = time.time()
        r = sol.check()
        s.solver_time += time.time() - t
        return r == z3.unsat

    # -------------------------------------------------------- spaces
    def gspace(s, name):
        if name not in s.gspaces:
            if name not in s.u.globals and name in EXTERN:
                sp = Space('g:' + name, EXTERN[name], single=True)
                s.gspaces[name] = sp
                return sp
            if name not in s.u.globals:
                raise Unsupported('unknown global ' + name)
            ty = s.u.ty(front.qt(s.u.globals[name]))
            if ty.kind == 'array':
                n = ty.n
                sp = Space('g:' + name, ty.to, IntVal(n) if n is not None else None)
            else:
                sp = Space('g:' + name, ty, single=True)
            s.gspaces[name] = sp
        return s.gspaces[name]

    def ghostcell(s, name, kind='int', arr=False):
        """specification-only state; kind int/double, scalar or (unbounded) array"""
        if name not in s.gcells:
            t = T('int', bits=400, signed=True) if kind == 'int' else DOUBLE
            sp = Space('ghost:' + name, t, single=not arr)
            if arr:
                sp.valid = [(IntVal(-2 ** 200), IntVal(2 ** 200), 'rw')]
            s.gcells[name] = Ptr(sp, (), (IntVal(0),) if arr else (), t)
        return s.gcells[name]

    def leafkey(s, p):
        return (p.space, p.path)

    def init_leaf(s, key, ty, nidx):
        """initial (unknown) content of a leaf"""
        if key in s.leaf0:
            return s.leaf0[key]
        sp, path = key[0], key[1]
        nm = sp.name + ''.join('.' + x for x in path)
        if len(key) > 2:
            nm += '#%s' % (key[2],)
        if nidx == 0:
            v = s.fresh_val(nm, ty)
        else:
            if ty.kind == 'ptr':
                raise Unsupported('pointer array leaf needs comps')
            v = Cont(z3.Const('%s!%d' % (nm, next(_cnt)), z3.ArraySort(*([z3.IntSort()] * nidx + [zsort(ty)]))))
        s.leaf0[key] = v
        return v

    def fresh_val(s, nm, ty):
        if ty.kind == 'int':
            return fresh(nm)
        if ty.kind == 'double':
            return fresh(nm, 'real')
        if ty.kind == 'ptr':
            return None      # unknown pointer: use is unsupported unless a contract provides it
        raise Unsupported('fresh value of ' + repr(ty))

    def getleaf(s, st, key, ty, nidx):
        if key in st.mem:
            return st.mem[key]
        return s.init_leaf(key, ty, nidx)

    def int_range(s, ty):
        if ty.signed:
            return -(1 << (ty.bits - 1)), (1 << (ty.bits - 1)) - 1
        return 0, (1 << ty.bits) - 1

    def norm(s, st, p):
        """decompose the last index of a multi-dimensional space"""
        sp = p.space
        if sp is None or sp.shape is None or len(p.idx) < 2:
            return p
        idx = list(p.idx)
        nd = len(sp.shape)
        for d in range(nd - 1, 0, -1):
            stride = sp.shape[d](idx)     # extent of dimension d (z3 term) given earlier indices
            terms, k = lin(idx[d])
            moved = IntVal(0)
            rest = IntVal(k)
            hit = False
            for (t, cf) in terms.values():
                m = split_mul(t, stride)
                if m is not None:
                    moved = moved + cf * m
                    hit = True
                elif same(t, stride) and not isnum(stride):
                    # c*stride: ambiguous (could be one-past-the-end); move it to the outer index
                    moved = moved + cf
                    hit = True
                else:
                    rest = rest + cf * t
            if hit:
                idx[d] = z3.simplify(rest)
                idx[d - 1] = z3.simplify(idx[d - 1] + moved)
        return p.w(idx=tuple(idx))

    def check_access(s, st, p, ty, write, what=''):
        if p is None or not isinstance(p, Ptr):
            raise Unsupported('dereference of unknown pointer ' + what)
        if not z3.is_false(p.null):
            s.ob(st, 'null', 'non-null pointer dereference %s' % what, Not(p.null))
        if p.space is None:
            raise Unsupported('null dereference')
        sp = p.space
        if sp in st.freed:
            s.ob(st, 'freed', 'no use after free of %s' % sp.name, Not(st.freed[sp]))
        if sp.single and not p.path:
            pass
        if not sp.single:
            i = p.idx[0]
            if sp.nbytes is not None or sp.base is not None:
                sz = s.u.sizeof(sp.elt)
                if sp.base is not None:
                    par, b = sp.base
                    end = b + sz * (i + 1)
                    s.ob(st, 'bounds', 'access within block %s %s' % (par.name, what), And(i >= 0, end <= par.nbytes))
                    for w in par.views:
                        if w is not sp:
                            s.ob(st, 'bounds', 'access to %s stays below %s' % (sp.name, w.name), Implies(w.base[1] >= b, end <= w.base[1]))
                            s.ob(st, 'bounds', 'regions of %s distinct' % par.name, w.base[1] != b) if same(w.base[1], b) else None
                    par.acc.append((list(st.pc), b, end, sp))
                else:
                    s.ob(st, 'bounds', 'access within %s %s' % (sp.name, what), And(i >= 0, sz * (i + 1) <= sp.nbytes))
            elif sp.valid is not None:
                ok = []
                for rg in sp.valid:
                    (lo, hi, mode) = rg[:3]
                    if write and mode == 'r':
                        continue
                    if isinstance(lo, tuple):
                        ok.append(And(*[And(l <= x, x < h) for x, l, h in zip(p.idx, lo, hi)]))
                    else:
                        ok.append(And(lo <= i, i < hi))
                s.ob(st, 'bounds', '%s within the valid range of %s' % ('write' if write else 'read', sp.name), Or(*ok) if ok else FALSE)
            elif sp.size is not None:
                s.ob(st, 'bounds', 'access within %s %s' % (sp.name, what), And(i >= 0, i < sp.size))
            else:
                raise Unsupported('no bounds known for ' + sp.name)
        # nested arrays inside structs: check their index against the declared size
        ds = s.path_dims(sp, p.path)
        k = 0 if sp.single else (len(sp.shape) if sp.shape else 1)
        for n in ds:
            s.ob(st, 'bounds', 'index within %s.%s' % (sp.name, '.'.join(p.path)), And(p.idx[k] >= 0, p.idx[k] < n))
            k += 1
        if write:
            if sp.isconst:
                s.ob(st, 'frame', 'no write to constant ' + sp.name, FALSE)
            s.check_assign(st, p)

    def path_dims(s, sp, path):
        t = sp.elt
        out = []
        for f in path:
            if f == '[]':
                out.append(t.n)
                t = t.to
            else:
                t = s.field_ty(t, f)
        return out

    def field_ty(s, t, f):
        if t.kind != 'struct' or t.name not in s.u.structs:
            raise Unsupported('field %s of %r' % (f, t))
        for (n, ft) in s.u.structs[t.name]:
            if n == f:
                if ft.kind == 'struct' and ft.name in s.u.typedefs:
                    return s.u.typedefs[ft.name]
                return ft
        raise Unsupported('no field ' + f)

    def check_assign(s, st, p, lo=None, hi=None):
        """write of p (or of element range [lo,hi) of its last index) is in the assigns clause"""
        sp = p.space
        if s.assigns is None or sp.local or s.quiet:
            return
        ok = []
        for (q, alo, ahi) in s.assigns:
            if q.space is not sp or q.path != p.path:
                continue
            if not p.idx:
                return
            cs = []
            full = len(q.idx) == 0 or alo is None
            if full:
                return
            a, b = (alo, ahi) if isinstance(alo, tuple) else ((alo,), (ahi,))
            for d in range(len(p.idx)):
                if d == len(p.idx) - 1 and lo is not None:
                    cs.append(And(a[d] <= lo, hi <= b[d]))
                elif d < len(a):
                    cs.append(And(a[d] <= p.idx[d], p.idx[d] < b[d]))
            ok.append(And(*cs))
        if lo is not None:
            g = Or(lo >= hi, *ok)
        else:
            g = Or(*ok) if ok else FALSE
        s.ob(st, 'frame', 'write to %s%s is in the assigns clause' % (sp.name, ''.join('.' + x for x in p.path)), g)

    # -------------------------------------------------------- load / store
    def ncomp(s, key, st):
        t = s.ptrtgt.get(key)
        if t is None:
            return None
        sp = t[0]
        return len(sp.shape) if sp.shape else (0 if sp.single else 1)

    def akey(s, p):
        """key and element type of the contents of an array; an array of pointers holds positions in its target block"""
        if p.ty.kind == 'ptr' and p.idx:
            return (p.space, p.path, 0), INT
        return (p.space, p.path), p.ty

    def load(s, st, p, what=''):
        ty = p.ty
        p = s.norm(st, p)
        s.check_access(st, p, ty, False, what)
        key = s.leafkey(p)
        if ty.kind in ('int', 'double'):
            if not p.idx:
                v = s.getleaf(st, key, ty, 0)
                if v is None:
                    raise Unsupported('uninitialised')
            else:
                v = s.getleaf(st, key, ty, len(p.idx)).read(p.idx)
            if ty.kind == 'int' and not isnum(v):
                lo, hi = s.int_range(ty)
                s.add_range(st, v, lo, hi)
            return v
        if ty.kind == 'ptr':
            if not p.idx:
                v = s.getleaf(st, key, ty, 0)
                if v is None:
                    raise Unsupported('load of an unknown pointer %s %s' % (p, what))
                return v if v.ty == ty.to or v.space is None else v.w(ty=ty.to)
            if key not in s.ptrtgt:
                raise Unsupported('pointer array with unknown target %r' % (key,))
            tsp, tpath, tty = s.ptrtgt[key]
            nc = s.ncomp(key, st)
            comps = [s.getleaf(st, key + (c,), INT, len(p.idx)).read(p.idx) for c in range(max(nc, 1))]
            return Ptr(tsp, tpath, comps[:nc], tty, z3.simplify(comps[0] == -1))
        if ty.kind in ('array',):
            return s.decay(p)
        raise Unsupported('load of ' + repr(ty))

    def add_range(s, st, v, lo, hi):
        f = And(v >= lo, v <= hi)
        for g in st.pc[-12:]:
            if g.eq(f):
                return
        st.assume(f)

    def store(s, st, p, v, what=''):
        ty = p.ty
        p = s.norm(st, p)
        s.check_access(st, p, ty, True, what)
        s.raw_store(st, p, v)

    def raw_store(s, st, p, v):
        ty = p.ty
        key = s.leafkey(p)
        if s.touched_on(st):
            st.touched.add(key)
        if ty.kind in ('int', 'double'):
            if ty.kind == 'int':
                v = to_int(v)
            if not p.idx:
                st.mem[key] = v
            else:
                c = s.getleaf(st, key, ty, len(p.idx))
                st.mem[key] = c.store(p.idx, v)
                s.logw(st, key, [('pt', i) for i in p.idx])
            return
        if ty.kind == 'ptr':
            if not isinstance(v, Ptr):
                if z3.is_int_value(v) and v.as_long() == 0:
                    v = NULLPTR
                else:
                    raise Unsupported('store of unknown pointer')
            if not p.idx:
                st.mem[key] = v
                return
            if key not in s.ptrtgt:
                if v.space is None:
                    own = [ft for (f, ft) in (s.u.structs.get(p.space.elt.name) or []) if p.path == (f,)] if p.space.elt is not None and p.space.elt.kind == 'struct' else []
                    if not own or repr(own[0].to) != repr(T('ptr', to=p.space.elt).to):
                        raise Unsupported('null stored before any target known')
                    v0 = Ptr(p.space, (), (IntVal(0),), p.space.elt)
                    s.ptrtgt[key] = (v0.space, v0.path, v0.ty)
                else:
                    s.ptrtgt[key] = (v.space, v.path, v.ty)
            tsp, tpath, tty = s.ptrtgt[key]
            if v.space is not None and (v.space is not tsp or v.path != tpath):
                raise Unsupported('pointer array %r gets pointer to another block' % (key,))
            nc = max(s.ncomp(key, st), 1)
            vv = s.norm(st, v) if v.space is not None else v
            for c in range(nc):
                ct = s.getleaf(st, key + (c,), INT, len(p.idx))
                if v.space is None:
                    val = IntVal(-1)
                else:
                    val = vv.idx[c] if c < len(vv.idx) else IntVal(0)
                    if not z3.is_false(v.null):
                        val = If(v.null, IntVal(-1), val)
                    elif c == 0 and len(vv.idx) > 0:
                        pass
                if s.touched_on(st):
                    st.touched.add(key + (c,))
                st.mem[key + (c,)] = ct.store(p.idx, val)
                s.logw(st, key + (c,), [('pt', i) for i in p.idx])
            return
        raise Unsupported('store of ' + repr(ty))

    def touched_on(s, st):
        return st.touched is not None

    def logw(s, st, key, dims):
        if st.log is not None:
            st.log.append((key, dims))

    def decay(s, p):
        """array lvalue -> pointer to first element"""
        t = p.ty
        if p.space is not None and not p.path and p.ty.kind == 'array' and not p.space.single:
            # global/local array object: idx already (0,)
            return p.w(ty=t.to)
        return p.w(path=p.path + ('[]',), idx=p.idx + (IntVal(0),), ty=t.to)

    def leaves(s, sp, path, ty):
        """scalar leaves under (path,ty)"""
        if ty.kind == 'struct':
            for (f, ft) in s.u.structs[ty.name]:
                if ft.kind == 'struct' and ft.name in s.u.typedefs:
                    ft = s.u.typedefs[ft.name]
                yield from s.leaves(sp, path + (f,), ft)
        elif ty.kind == 'array':
            yield from s.leaves(sp, path + ('[]',), ty.to)
        else:
            yield path, ty

    # -------------------------------------------------------- merging
    def merge_val(s, c, a, b):
        if a is b:
            return a
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                return None
            if a.space is None and b.space is None:
                return a
            if a.space is None:
                return b.w(null=z3.simplify(Or(c, b.null)))
            if b.space is None:
                return a.w(null=z3.simplify(Or(Not(c), a.null)))
            if a.space is not b.space or a.path != b.path:
                if z3.is_true(z3.simplify(a.null)):
                    return b.w(null=z3.simplify(Or(c, b.null)))
                if z3.is_true(z3.simplify(b.null)):
                    return a.w(null=z3.simplify(Or(Not(c), a.null)))
                return None
            idx = [x if same(x, y) else If(c, x, y) for x, y in zip(a.idx, b.idx)]
            nl = a.null if a.null.eq(b.null) else z3.simplify(If(c, a.null, b.null))
            return Ptr(a.space, a.path, idx, a.ty, nl)
        if a is None or b is None:
            return None
        if isinstance(a, Fn) or isinstance(b, Fn):
            return None
        if z3.is_bool(a) or z3.is_bool(b):
            if z3.is_bool(a) and z3.is_bool(b):
                return a if a.eq(b) else z3.simplify(If(c, a, b))
            a, b = to_int(a), to_int(b)
        if a.eq(b):
            return a
        return If(c, a, b)

    def merge_cont(s, st, c, a, b):
        if a is b:
            return a
        if a.base.eq(b.base) and len(a.ws) + len(b.ws) <= 24:
            # common prefix
            k = 0
            while k < len(a.ws) and k < len(b.ws) and all(x.eq(y) for x, y in zip(a.ws[k][0], b.ws[k][0])) and a.ws[k][1].eq(b.ws[k][1]):
                k += 1
            pre = Cont(a.base, a.ws[:k])
            ra, rb = a.ws[k:], b.ws[k:]
            if not ra and not rb:
                return a
            # collect indices
            idxs = []
            for (i, _) in ra + rb:
                if not any(all(same(x, y) for x, y in zip(i, j)) for j in idxs):
                    idxs.append(i)
            # writes must be pairwise syntactically comparable for a pointwise merge
            def guarded(i):
                va, vb = a.read(i), b.read(i)
                return i, (va if va.eq(vb) else If(c, va, vb))
            ok = True
            for x in range(len(idxs)):
                for y in range(x):
                    if not any(differ(p, q) for p, q in zip(idxs[x], idxs[y])):
                        # possibly equal: reading through the full chain gives the correct final value anyway
                        pass
            r = pre
            for i in idxs:
                i2, v = guarded(i)
                r = Cont(r.base, r.ws + ((i2, v),))
            return r
        nb = z3.Const('mrg!%d' % next(_cnt), a.base.sort())
        st.assume(Implies(c, nb == a.term()))
        st.assume(Implies(Not(c), nb == b.term()))
        return Cont(nb)

    def merge(s, base_n, c, s1, s2, v1=None, v2=None):
        """merge two states that share the first base_n facts; c selects s1"""
        st = State()
        st.log, st.touched = s1.log, s1.touched
        st.pc = s1.pc[:base_n]
        e1, e2 = s1.pc[base_n:], s2.pc[base_n:]
        keys = dict.fromkeys([*s1.env, *s2.env])
        for k in keys:
            if k in s1.env and k in s2.env:
                st.env[k] = s.merge_val(c, s1.env[k], s2.env[k])
            # variables local to one branch die
        ids2 = {f.get_id() for f in e2}
        for f in e1:
            if f.get_id() in ids2:
                st.assume(f)
            else:
                st.assume(Implies(c, f))
        ids1 = {f.get_id() for f in e1}
        for f in e2:
            if f.get_id() not in ids1:
                st.assume(Implies(Not(c), f))
        for k in dict.fromkeys([*s1.mem, *s2.mem]):
            a = s1.mem.get(k, s.leaf0.get(k))
            b = s2.mem.get(k, s.leaf0.get(k))
            if a is None or b is None:
                if (k in s1.mem) != (k in s2.mem) and (a is not None or b is not None):
                    # block that exists on one side only
                    st.mem[k] = a if a is not None else b
                else:
                    st.mem[k] = None
                continue
            if isinstance(a, Cont):
                st.mem[k] = s.merge_cont(st, c, a, b)
            else:
                st.mem[k] = s.merge_val(c, a, b)
        for k in set(s1.freed) | set(s2.freed):
            x, y = s1.freed.get(k, FALSE), s2.freed.get(k, FALSE)
            st.freed[k] = z3.simplify(If(c, x, y))
        if v1 is None and v2 is None:
            return st
        return st, s.merge_val(c, v1, v2)

    # -------------------------------------------------------- expressions
    def ty(s, n):
        return s.u.ty(front.qt(n))

    def ev(s, n, st):
        if '_l' in n:
            s.line = n['_l']
        k = n['kind']
        f = getattr(s, 'e_' + k, None)
        if f is None:
            raise Unsupported('expression ' + k)
        return f(n, st)

    def e_ParenExpr(s, n, st):
        return s.ev(n['inner'][0], st)

    def e_ConstantExpr(s, n, st):
        return s.ev(n['inner'][0], st)

    def e_IntegerLiteral(s, n, st):
        return IntVal(int(n['value']))

    def e_CharacterLiteral(s, n, st):
        return IntVal(int(n['value']))

    def e_FloatingLiteral(s, n, st):
        from fractions import Fraction
        return RealVal(str(Fraction(float(n['value'])))) if True else None

    def e_StringLiteral(s, n, st):
        sp = Space('str', CHAR, None, local=True)
        sp.text = n['value']
        txt = eval(n['value']) if n['value'].startswith('"') else n['value']
        sp.size = IntVal(len(txt) + 1)
        sp.isconst = True
        c = Cont(z3.K(z3.IntSort(), IntVal(0)))
        for i, ch in enumerate(txt):
            c = c.store((IntVal(i),), IntVal(ord(ch)))
        sp.chars = txt
        st.mem[(sp, ())] = c
        return Ptr(sp, (), (IntVal(0),), front.T('array', to=CHAR, n=len(txt) + 1))

    def e_UnaryExprOrTypeTraitExpr(s, n, st):
        if n.get('name') != 'sizeof':
            raise Unsupported('alignof')
        if 'argType' in n:
            t = s.u.ty(n['argType'].get('desugaredQualType') or n['argType']['qualType'])
        else:
            t = s.ty(n['inner'][0])
        return IntVal(s.u.sizeof(t))

    def is_const_dbl(s, n):
        """fold a constant double expression exactly as IEEE double; returns float or None"""
        k = n['kind']
        if k == 'FloatingLiteral':
            return float(n['value'])
        if k == 'ParenExpr':
            return s.is_const_dbl(n['inner'][0])
        if k == 'ImplicitCastExpr' and n.get('castKind') == 'IntegralToFloating' and n['inner'][0]['kind'] == 'IntegerLiteral':
            return float(int(n['inner'][0]['value']))
        if k == 'UnaryOperator' and n['opcode'] == '-':
            x = s.is_const_dbl(n['inner'][0])
            return None if x is None else -x
        if k == 'BinaryOperator' and n['opcode'] in '+-*/':
            x, y = s.is_const_dbl(n['inner'][0]), s.is_const_dbl(n['inner'][1])
            if x is None or y is None:
                return None
            try:
                return {'+': x + y, '-': x - y, '*': x * y, '/': x / y if y else None}[n['opcode']]
            except Exception:
                return None
        return None

    def lv(s, n, st):
        """evaluate an lvalue -> Ptr, or ('env', id, ty)"""
        if '_l' in n:
            s.line = n['_l']
        k = n['kind']
        if k == 'ParenExpr':
            return s.lv(n['inner'][0], st)
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            if d['kind'] in ('VarDecl', 'ParmVarDecl'):
                key = s.localkey(d['id'])
                if key in s.varspaces:
                    sp = s.varspaces[key]
                    return Ptr(sp, (), () if sp.single else (IntVal(0),), s.ty(n))
                if key in st.env or key in s.declared:
                    return ('env', key, s.ty(n))
                if d['name'] in s.u.globals:
                    sp = s.gspace(d['name'])
                    return Ptr(sp, (), () if sp.single else (IntVal(0),), s.ty(n))
            raise Unsupported('lvalue reference ' + d.get('name', '?'))
        if k == 'UnaryOperator' and n['opcode'] == '*':
            p = s.ev(n['inner'][0], st)
            return s.need_ptr(p)
        if k == 'ArraySubscriptExpr':
            a, b = n['inner']
            va = s.ev(a, st)
            vb = s.ev(b, st)
            if not isinstance(va, Ptr):
                va, vb = vb, va
            return s.padd(st, s.need_ptr(va), to_int(vb))
        if k == 'MemberExpr':
            base = n['inner'][0]
            if n.get('isArrow'):
                p = s.need_ptr(s.ev(base, st))
            else:
                p = s.lv(base, st)
                if not isinstance(p, Ptr):
                    raise Unsupported('member of register struct')
            if not z3.is_false(p.null):
                s.ob(st, 'null', 'non-null pointer dereference ->%s' % n['name'], Not(p.null))
                p = p.w(null=FALSE)
            ft = s.field_ty(p.ty, n['name'])
            return p.w(path=p.path + (n['name'],), ty=ft)
        if k == 'StringLiteral':
            return s.ev(n, st)
        if k == 'ImplicitCastExpr' and n.get('castKind') in ('NoOp', 'LValueBitCast'):
            return s.lv(n['inner'][0], st)
        raise Unsupported('lvalue ' + k)

    def need_ptr(s, p):
        if not isinstance(p, Ptr):
            raise Unsupported('not a known pointer')
        if p.space is None:
            raise Unsupported('null pointer used')
        return p

    def localkey(s, did):
        return (s.frames[-1].fid, did)

    def padd(s, st, p, k):
        if z3.is_int_value(k) and k.as_long() == 0:
            return p
        if not p.idx:
            raise Unsupported('pointer arithmetic on a single object')
        idx = list(p.idx)
        # which index? the last one
        idx[-1] = z3.simplify(idx[-1] + k)
        q = p.w(idx=tuple(idx))
        if q.space.shape is not None:
            q = s.norm(st, q)
        return q

    def rd(s, st, l, what=''):
        if isinstance(l, tuple):
            v = st.env.get(l[1])
            if v is UNINIT:
                raise Unsupported('use of undetermined pointer variable')
            if v is None:
                if l[2].kind in ('int', 'double'):
                    v = s.fresh_val('uninit', l[2])
                    st.env[l[1]] = v
                    return v
                raise Unsupported('use of undetermined pointer variable')
            return v
        return s.load(st, l, what)

    def wr(s, st, l, v, what=''):
        if isinstance(l, tuple):
            if l[2].kind == 'int':
                v = to_int(v)
            if l[2].kind == 'ptr' and not isinstance(v, Ptr) and v is not None and not isinstance(v, Fn):
                if z3.is_int_value(v) and v.as_long() == 0:
                    v = NULLPTR
            st.env[l[1]] = v
            if st.touched is not None:
                st.touched.add(('env', l[1]))
            return
        s.store(st, l, v, what)

    def e_DeclRefExpr(s, n, st):
        d = n['referencedDecl']
        if d['kind'] == 'FunctionDecl':
            return Fn(d['name'])
        if d['kind'] == 'EnumConstantDecl':
            return IntVal(s.u.enums[d['name']])
        return s.lv(n, st)

    def e_ImplicitCastExpr(s, n, st):
        ck = n['castKind']
        sub = n['inner'][0]
        if ck == 'LValueToRValue':
            l = s.lv(sub, st)
            return s.rd(st, l)
        if ck == 'ArrayToPointerDecay':
            if sub['kind'] == 'StringLiteral':
                p = s.ev(sub, st)
                return p.w(ty=CHAR)
            l = s.lv(sub, st)
            if not isinstance(l, Ptr):
                raise Unsupported('register array')
            if l.ty.kind != 'array':
                return l
            if l.space.single or l.path:
                return l.w(path=l.path + ('[]',), idx=l.idx + (IntVal(0),), ty=l.ty.to)
            return l.w(ty=l.ty.to)
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return s.ev(sub, st)
        if ck == 'NoOp':
            return s.ev(sub, st)
        return s.cast(n, st, ck, s.ev(sub, st), s.ty(sub))

    def e_CStyleCastExpr(s, n, st):
        ck = n['castKind']
        sub = n['inner'][0]
        if ck == 'LValueToRValue':
            return s.rd(st, s.lv(sub, st))
        if ck == 'ToVoid':
            s.ev(sub, st)
            return IntVal(0)
        v = s.ev(sub, st)
        if ck == 'NoOp':
            return v
        return s.cast(n, st, ck, v, s.ty(sub))

    def cast(s, n, st, ck, v, sty):
        t = s.ty(n)
        if ck == 'IntegralCast':
            v = to_int(v)
            lo, hi = s.int_range(t)
            if isnum(v):
                x = num(v)
                if not (lo <= x <= hi):
                    return IntVal((x - lo) % (1 << t.bits) + lo)
                return v
            slo, shi = s.int_range(sty)
            if lo <= slo and shi <= hi:
                return v
            s.ob(st, 'conv', 'integer conversion %r to %r keeps the value' % (sty, t), And(v >= lo, v <= hi))
            return v
        if ck == 'IntegralToFloating':
            v = to_int(v)
            if isnum(v):
                return RealVal(num(v))
            return z3.ToReal(v)
        if ck == 'FloatingToIntegral':
            lo, hi = s.int_range(t)
            if z3.is_app_of(v, z3.Z3_OP_TO_REAL):
                r = v.arg(0)
            else:
                r = If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            s.ob(st, 'conv', 'double to %r conversion fits' % (t,), And(r >= lo, r <= hi))
            return r
        if ck == 'FloatingCast':
            return v
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return to_bool(v)
        if ck == 'NullToPointer':
            return NULLPTR.w(ty=t.to if t.kind == 'ptr' else VOID)
        if ck in ('BitCast', 'NoOp', 'LValueBitCast'):
            if not isinstance(v, Ptr):
                return v
            return s.ptr_cast(st, v, t)
        if ck == 'ToVoid':
            return IntVal(0)
        raise Unsupported('cast ' + ck)

    def ptr_cast(s, st, v, t):
        if t.kind != 'ptr':
            raise Unsupported('cast to non pointer')
        tt = t.to
        if tt.kind == 'struct' and tt.name in s.u.typedefs:
            tt = s.u.typedefs[tt.name]
        if v.space is None:
            return v.w(ty=tt)
        sp = v.space
        if tt.kind == 'void':
            return v.w(ty=VOID)
        if v.ty == tt:
            return v
        if sp.elt is None:   # raw malloc'd block, still untyped
            if tt.kind == 'int' and tt.bits == 8 and getattr(s, 'charblocks', False):
                sp.elt = tt         # text, never seen as anything else
                return v.w(ty=tt)
            if tt.kind == 'int' and tt.bits == 8:
                sp.raw = True
                return v.w(ty=tt)
            if getattr(sp, 'raw', False):
                return s.mkview(st, v, tt)
            if tt.kind == 'struct' and same(sp.nbytes, IntVal(s.u.sizeof(tt))):
                sp.elt, sp.single, sp.nbytes, sp.size = tt, True, None, None
                return Ptr(sp, (), (), tt, v.null)
            sp.elt = tt
            return v.w(ty=tt)
        if getattr(sp, 'raw', False):
            return s.mkview(st, v, tt)
        if not v.path and sp.elt == tt:
            return v.w(ty=tt)
        if v.ty.kind == 'void':
            # back to the declared type of that object
            cur = s.type_at(sp, v.path)
            if cur == tt:
                return v.w(ty=tt)
        if sp.elt.kind == 'void' or sp.elt == front.UCHAR:
            raise Unsupported('typed view of byte memory')
        if tt.kind == 'int' and tt.bits == 8:
            raise Unsupported('byte view of typed memory')
        raise Unsupported('pointer cast %r -> %r' % (v.ty, tt))

    def type_at(s, sp, path):
        t = sp.elt
        for f in path:
            t = t.to if f == '[]' else s.field_ty(t, f)
        return t

    def mkview(s, st, v, tt):
        sp = v.space
        b = v.idx[0]
        sz = s.u.sizeof(tt)
        if getattr(s, 'loopstack', ()):
            # position depends on the iteration: element of one region that starts at the position of the first iteration
            L = s.loopstack[-1]
            import loops
            b0 = loops.subst(b, ([(L.t, IntVal(0))] if L.t is not None else []) + [(x, v0) for (x, k, c_, v0) in L.cursyms if z3.is_int(x)])
            b0 = z3.simplify(b0)
            old = [w for w in sp.views if w.elt == tt and same(w.base[1], b)] if same(b0, b) else []
            if not old:
                fam = s.__dict__.setdefault('families', {})
                fk = (id(sp), str(b0), repr(tt))
                if fk not in fam:
                    w = fam[fk] = Space('%s@f%d' % (sp.name, len(fam)), tt, local=sp.local)
                    w.base, w.valid = (sp, b0), None
                w = fam[fk]
                if w not in sp.views:
                    s.ob(st, 'bounds', 'region of %s aligned' % sp.name, b0 % s.u._size(tt)[1] == 0)
                    sp.views.append(w)
                if same(b0, b):
                    return Ptr(w, (), (IntVal(0),), tt, v.null)
                q = fresh('elt')
                s.ob(st, 'bounds', 'position in a region of %s is a whole element' % sp.name, And(b >= b0, (b - b0) % sz == 0))
                st.assume(b - b0 == sz * q)
                return Ptr(w, (), (q,), tt, v.null)
        for w in sp.views:
            if w.elt == tt and same(w.base[1], b):
                return Ptr(w, (), (IntVal(0),), tt, v.null)
            if w.elt == tt and w is sp.views[-1]:
                d = z3.simplify(b - w.base[1], som=True)
                q = divide(d, sz)
                if q is not None and getattr(w, 'family', False):
                    return Ptr(w, (), (q,), tt, v.null)
        w = Space('%s@%s' % (sp.name, len(sp.views)), tt, local=sp.local)
        w.base = (sp, b)
        w.valid = None
        al = s.u._size(tt)[1]
        s.ob(st, 'bounds', 'region of %s aligned' % sp.name, b % al == 0)
        for (pc, a0, a1, o) in sp.acc:
            if not s.quiet:
                s.obs.append(Ob(s.func, 'bounds', 'earlier access stays below region %s' % w.name, pc + st.pc[len(pc):], Implies(b >= a0, a1 <= b), s.line))
        sp.views.append(w)
        return Ptr(w, (), (IntVal(0),), tt, v.null)

    def arith_ob(s, st, ty, v, what):
        if ty.kind != 'int':
            return
        if isnum(v):
            lo, hi = s.int_range(ty)
            if lo <= num(v) <= hi:
                return
        lo, hi = s.int_range(ty)
        s.ob(st, 'overflow', 'no overflow in %s' % what, And(v >= lo, v <= hi))

    def e_UnaryOperator(s, n, st):
        op = n['opcode']
        sub = n['inner'][0]
        if op == '&':
            l = s.lv(sub, st)
            if isinstance(l, tuple):
                raise Unsupported('address of register variable')
            if l.ty.kind == 'array' and not (l.space.single or l.path):
                return l
            return l
        if op == '*':
            p = s.need_ptr(s.ev(sub, st))
            return p     # lvalue; loaded by LValueToRValue
        if op in ('++', '--'):
            l = s.lv(sub, st)
            v = s.rd(st, l)
            one = 1 if op == '++' else -1
            if isinstance(v, Ptr):
                nv = s.padd(st, v, IntVal(one))
            else:
                t = s.ty(sub)
                if t.kind == 'double':
                    nv = v + one
                else:
                    nv = z3.simplify(v + one)
                    s.arith_ob(st, t, nv, op)
            s.wr(st, l, nv)
            return v if n.get('isPostfix') else nv
        v = s.ev(sub, st)
        if op == '-':
            if z3.is_real(v):
                return z3.simplify(-v) if isnum(v) else -v
            v = to_int(v)
            r = z3.simplify(-v)
            s.arith_ob(st, s.ty(n), r, 'negation')
            return r
        if op == '+':
            return v
        if op == '!':
            return z3.simplify(Not(to_bool(v)))
        if op == '~':
            raise Unsupported('~')
        if op == '__extension__':
            return v
        raise Unsupported('unary ' + op)

    def e_BinaryOperator(s, n, st):
        op = n['opcode']
        a, b = n['inner']
        if op == '=':
            l = None
            if a['kind'] == 'DeclRefExpr' or True:
                # C leaves the order open; evaluate the right side first, then the lvalue.
                # (the code under test has no pair with conflicting side effects except pops in the rhs)
                v = s.ev(b, st)
                l = s.lv(a, st)
            lt = l[2] if isinstance(l, tuple) else l.ty
            if lt.kind == 'struct':
                s.struct_copy(st, l, v)
                return v
            s.wr(st, l, v)
            return v
        if op == ',':
            s.ev(a, st)
            return s.ev(b, st)
        if op in ('&&', '||'):
            x = to_bool(s.ev(a, st))
            if z3.is_true(z3.simplify(x)):
                return to_bool(s.ev(b, st)) if op == '&&' else TRUE
            if z3.is_false(z3.simplify(x)):
                return FALSE if op == '&&' else to_bool(s.ev(b, st))
            g = x if op == '&&' else Not(x)
            nb = len(st.pc)
            s1 = st.copy()
            s1.assume(g)
            y = to_bool(s.ev(b, s1))
            s2 = st.copy()
            s2.assume(z3.simplify(Not(g)))
            r, v = s.merge(nb, g, s1, s2, y, (FALSE if op == '&&' else TRUE))
            st.clone_into(r)
            return And(x, y) if op == '&&' else Or(x, y)
        cd = s.is_const_dbl(n)
        if cd is not None:
            from fractions import Fraction
            return RealVal(str(Fraction(cd)))
        x = s.ev(a, st)
        y = s.ev(b, st)
        return s.binop(n, st, op, x, y, s.ty(a), s.ty(b))

    def struct_copy(s, st, l, r):
        for path, t in s.leaves(l.space, (), l.ty):
            v = s.load(st, r.w(path=r.path + path, ty=t))
            s.store(st, l.w(path=l.path + path, ty=t), v)

    def binop(s, n, st, op, x, y, ta, tb):
        t = s.ty(n)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            return s.ptr_binop(st, op, x, y)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            x, y = to_int(x), to_int(y)
            r = {'<': lambda: x < y, '>': lambda: x > y, '<=': lambda: x <= y, '>=': lambda: x >= y,
                 '==': lambda: x == y, '!=': lambda: x != y}[op]()
            if isnum(x) and isnum(y):
                return z3.simplify(r)
            return r
        x, y = to_int(x), to_int(y)
        if z3.is_real(x) or z3.is_real(y):
            if z3.is_int(x):
                x = z3.ToReal(x)
            if z3.is_int(y):
                y = z3.ToReal(y)
            if op == '+':
                return x + y
            if op == '-':
                return x - y
            if op == '*':
                return mk_rmul(x, y)
            if op == '/':
                s.ob(st, 'div', 'non-zero divisor', y != 0)
                return mk_rdiv(x, y)
            raise Unsupported('real op ' + op)
        return s.int_op(st, op, x, y, t)

    def int_op(s, st, op, x, y, t):
        if op == '+':
            r = z3.simplify(x + y)
            s.arith_ob(st, t, r, '+')
            return r
        if op == '-':
            r = z3.simplify(x - y)
            s.arith_ob(st, t, r, '-')
            return r
        if op == '*':
            r = mk_mul(x, y)
            s.arith_ob(st, t, r, '*')
            return r
        if op in ('/', '%'):
            s.ob(st, 'div', 'non-zero divisor', y != 0)
            if isnum(y) and num(y) > 0:
                if isnum(x):
                    q = abs(num(x)) // num(y) * (1 if num(x) >= 0 else -1)
                    return IntVal(q if op == '/' else num(x) - q * num(y))
                if op == '/':
                    if s.quick(st, x >= 0):
                        s.pow2_half(st, x, num(y))
                        return x / y
                    return If(x >= 0, x / y, -((-x) / y))
                if s.quick(st, x >= 0):
                    return x % y
                return If(x >= 0, x % y, -((-x) % y))
            raise Unsupported('division by a variable')
        if op == '<<':
            s.ob(st, 'shift', 'shift amount in range', And(y >= 0, y < t.bits))
            if isnum(x) and isnum(y):
                r = IntVal(num(x) << num(y))
            elif isnum(y):
                r = x * (1 << num(y))
                s.ob(st, 'overflow', 'left operand of << not negative', x >= 0) if t.signed and False else None
            elif isnum(x) and num(x) == 1:
                r = s.mk_pow2(st, y)
            else:
                p = s.mk_pow2(st, y)
                r = mk_mul(x, p)
            s.arith_ob(st, t, r, '<<')
            return r
        if op == '>>':
            s.ob(st, 'shift', 'shift amount in range', And(y >= 0, y < t.bits))
            if isnum(y):
                if isnum(x):
                    return IntVal(num(x) >> num(y))
                s.pow2_half(st, x, 1 << num(y))
                return x / IntVal(1 << num(y))   # floor, also for negatives (arithmetic shift)
            return th.shr(x, y) if hasattr(th, 'shr') else self_unsup('variable >>')
        if op == '^':
            if isnum(x) and isnum(y):
                return IntVal(num(x) ^ num(y))
            return bxor(x, y)
        if op == '&':
            if isnum(x) and isnum(y):
                return IntVal(num(x) & num(y))
            if isnum(x):
                x, y = y, x
            if isnum(y) and num(y) == 1:
                return x % 2     # two's complement low bit
            return band(x, y)
        if op == '|':
            if isnum(x) and isnum(y):
                return IntVal(num(x) | num(y))
            return bor(x, y)
        raise Unsupported('int op ' + op)

    def mk_pow2(s, st, y):
        y = z3.simplify(y)
        if isnum(y) and 0 <= num(y) < 62:
            return IntVal(1 << num(y))
        p = pow2(y)
        for f in th.pow2_step(y):
            st.assume(f)
        return p

    def pow2_half(s, st, x, k):
        if k == 2 and z3.is_app(x) and x.decl().name() == 'pow2':
            m = x.arg(0)
            for f in th.pow2_step(m):
                st.assume(f)

    def ptr_binop(s, st, op, x, y):
        def nullof(p):
            if isinstance(p, Ptr):
                return p.null
            return to_int(p) == 0
        if op in ('==', '!='):
            if not isinstance(x, Ptr) or not isinstance(y, Ptr):
                p = x if isinstance(x, Ptr) else y
                r = p.null
            elif x.space is None:
                r = y.null
            elif y.space is None:
                r = x.null
            elif x.space is y.space and x.path == y.path:
                r = Or(And(x.null, y.null), And(Not(x.null), Not(y.null), *[i == j for i, j in zip(x.idx, y.idx)]))
            else:
                raise Unsupported('comparison of pointers into different blocks')
            r = z3.simplify(r)
            return r if op == '==' else z3.simplify(Not(r))
        if op == '+':
            if isinstance(x, Ptr):
                return s.padd(st, s.need_ptr(x), to_int(y))
            return s.padd(st, s.need_ptr(y), to_int(x))
        if op == '-':
            if isinstance(y, Ptr):
                if x.space is y.space and x.path == y.path:
                    return z3.simplify(x.idx[-1] - y.idx[-1])
                raise Unsupported('pointer difference')
            return s.padd(st, s.need_ptr(x), z3.simplify(-to_int(y)))
        if op in ('<', '>', '<=', '>='):
            if x.space is y.space and x.path == y.path and x.space is not None:
                i, j = x.idx[-1], y.idx[-1]
                return {'<': i < j, '>': i > j, '<=': i <= j, '>=': i >= j}[op]
            raise Unsupported('pointer comparison')
        raise Unsupported('pointer op ' + op)

    def e_CompoundAssignOperator(s, n, st):
        op = n['opcode'][:-1]
        a, b = n['inner']
        v = s.ev(b, st)
        l = s.lv(a, st)
        x = s.rd(st, l)
        lt = s.ty(a)
        if isinstance(x, Ptr):
            r = s.ptr_binop(st, op, x, v)
        else:
            ct = s.u.ty(n['computeResultType'].get('desugaredQualType') or n['computeResultType']['qualType']) if 'computeResultType' in n else lt
            if ct.kind == 'double' or lt.kind == 'double':
                xx = z3.ToReal(x) if z3.is_int(x) else x
                v = to_int(v)
                vv = z3.ToReal(v) if z3.is_int(v) else v
                if op == '+':
                    r = xx + vv
                elif op == '-':
                    r = xx - vv
                elif op == '*':
                    r = mk_rmul(xx, vv)
                elif op == '/':
                    s.ob(st, 'div', 'non-zero divisor', vv != 0)
                    r = mk_rdiv(xx, vv)
                else:
                    raise Unsupported(op)
                if lt.kind == 'int':
                    raise Unsupported('int op= double')
            else:
                x = to_int(x)
                if not ct.signed and lt.signed:
                    s.ob(st, 'conv', 'operand of unsigned arithmetic not negative', x >= 0)
                r = s.int_op(st, op, x, to_int(v), ct)
                lo, hi = s.int_range(lt)
                if ct != lt and not isnum(r):
                    s.ob(st, 'conv', 'result fits', And(r >= lo, r <= hi))
        s.wr(st, l, r)
        return r

    def e_ConditionalOperator(s, n, st):
        c, a, b = n['inner']
        x = to_bool(s.ev(c, st))
        xs = z3.simplify(x)
        if z3.is_true(xs):
            return s.ev(a, st)
        if z3.is_false(xs):
            return s.ev(b, st)
        nb = len(st.pc)
        s1 = st.copy()
        s1.assume(x)
        v1 = s.ev(a, s1)
        s2 = st.copy()
        s2.assume(z3.simplify(Not(x)))
        v2 = s.ev(b, s2)
        r, v = s.merge(nb, x, s1, s2, v1, v2)
        if v is None:
            raise Unsupported('conditional over different blocks')
        st.clone_into(r)
        return v

    def e_MemberExpr(s, n, st):
        return s.lv(n, st)

    def e_ArraySubscriptExpr(s, n, st):
        return s.lv(n, st)

    def e_CallExpr(s, n, st):
        fv = s.ev(n['inner'][0], st)
        if not isinstance(fv, Fn):
            raise Unsupported('indirect call')
        args = []
        for a in n['inner'][1:]:
            args.append(s.ev(a, st))
        s.line = n.get('_l', s.line)
        return s.call(st, fv.name, args, n)

    # -------------------------------------------------------- calls
    def call(s, st, name, args, n):
        if name in s.contracts:
            return s.contracts[name].apply(s, st, args, n)
        if name in s.u.funcs and name not in s.opts.get('noinline', ()):
            return s.inline(st, name, args)
        if name in s.stubs:
            s.used_stubs.add(name)
            return s.stubs[name](s, st, args, n)
        raise Unsupported('call of %s (no contract, no body)' % name)

    _fid = itertools.count()

    def setup_frame(s, fn, args, st):
        fr = Frame(fn['name'], None)
        fr.fid = next(Exec._fid)
        fr.node = fn
        rq = fn['type']['qualType'].split('(')[0].strip()
        fr.rett = s.u.ty(rq)
        s.frames.append(fr)
        params = [c for c in fn.get('inner') or [] if c['kind'] == 'ParmVarDecl']
        body = [c for c in fn['inner'] if c['kind'] == 'CompoundStmt'][0]
        s.find_addr_taken(body, fr)
        for p, a in zip(params, args):
            s.bind(st, p, a, s.ty(p))
        return fr, body

    def bind(s, st, decl, v, ty):
        key = s.localkey(decl['id'])
        s.declared.add(key)
        if ty.kind == 'array':
            ty = T('ptr', to=ty.to)
        if decl['id'] in s.frames[-1].addr:
            sp = Space('&' + decl.get('name', '?'), ty, single=True, local=True)
            s.varspaces[key] = sp
            if v is not None:
                st.mem[(sp, ())] = v
        else:
            if ty.kind == 'int' and v is not None:
                v = to_int(v)
            st.env[key] = v

    declared = set()

    def find_addr_taken(s, body, fr):
        out = set()
        def walk(n):
            if n.get('kind') == 'UnaryOperator' and n.get('opcode') == '&':
                m = n['inner'][0]
                while m.get('kind') in ('ParenExpr',):
                    m = m['inner'][0]
                if m.get('kind') == 'DeclRefExpr':
                    out.add(m['referencedDecl']['id'])
            for c in n.get('inner') or []:
                if c:
                    walk(c)
        walk(body)
        fr.addr = out

    def inline(s, st, name, args):
        if any(f.fname == name for f in s.frames):
            raise Unsupported('recursive call of %s without contract' % name)
        if len(s.frames) > 8:
            raise Unsupported('inline depth')
        s.inlined.add(name)
        saved_line = s.line
        fr, body = s.setup_frame(s.u.funcs[name], args, st)
        nb = len(st.pc)
        outs = s.ex(body, st.copy())
        s.frames.pop()
        rets = []
        for (k, o, v) in outs:
            if k in ('normal', 'return'):
                rets.append((o, v))
            else:
                raise Unsupported('odd control flow in ' + name)
        if not rets:
            raise Dead()
        s.line = saved_line
        r = s.join(nb, rets)
        st.clone_into(r[0])
        return r[1] if r[1] is not None else IntVal(0)

    def join(s, nb, rets):
        """merge several (state,value) with path facts after index nb"""
        cur, v = rets[-1]
        for (o, w) in reversed(rets[:-1]):
            # guard of o: conjunction of its branch facts
            g = getattr(o, 'guard', None)
            e = [f for f in o.pc[nb:]]
            c = And(*[f for f in e if f.get_id() in o_branch(o)]) if o_branch(o) else None
            if c is None:
                c = fresh('path', 'bool')
            if v is None and w is None:
                cur = s.merge(nb, c, o, cur)
                st2 = cur
            else:
                cur, v = s.merge(nb, c, o, cur, w, v)
        return cur, v

    # -------------------------------------------------------- statements
    # outcome: (kind, state, value)
    def ex(s, n, st):
        if '_l' in n:
            s.line = n['_l']
        if s.deadline and time.time() > s.deadline:
            raise Unsupported('symbolic execution time limit')
        k = n['kind']
        f = getattr(s, 's_' + k, None)
        if f is None:
            # expression statement
            try:
                s.ev(n, st)
            except Dead:
                return []
            return [('normal', st, None)]
        return f(n, st)

    def s_CompoundStmt(s, n, st):
        return s.seq(n.get('inner') or [], st)

    def seq(s, stmts, st):
        live = [st]
        outs = []
        pend = []      # goto states
        labels = {}
        for i, x in enumerate(stmts):
            if x['kind'] == 'LabelStmt':
                labels[x['declId']] = i
        i = 0
        pending = {}
        while i < len(stmts):
            x = stmts[i]
            if x['kind'] == 'LabelStmt':
                ps = pending.pop(x['declId'], [])
                live = live + ps
                x = x['inner'][0] if False else x
            nxt = []
            for l in live:
                body = x['inner'][0] if x['kind'] == 'LabelStmt' else x
                try:
                    res = s.ex(body, l)
                except Dead:
                    res = []
                for (k, o, v) in res:
                    if k == 'normal':
                        nxt.append(o)
                    elif k == 'goto' and v in labels:
                        if labels[v] <= i:
                            raise Unsupported('backward goto')
                        pending.setdefault(v, []).append(o)
                    else:
                        outs.append((k, o, v))
            live = nxt
            i += 1
            if not live and not pending:
                break
        for l in live:
            outs.append(('normal', l, None))
        return outs

    def s_NullStmt(s, n, st):
        return [('normal', st, None)]

    def s_DeclStmt(s, n, st):
        for d in n['inner']:
            if d['kind'] != 'VarDecl':
                if d['kind'] in ('TypedefDecl', 'RecordDecl', 'FunctionDecl', 'EmptyDecl'):
                    continue
                raise Unsupported('declaration ' + d['kind'])
            ty = s.ty(d)
            key = s.localkey(d['id'])
            s.declared.add(key)
            if d.get('storageClass') == 'static':
                raise Unsupported('static local')
            init = [c for c in d.get('inner') or [] if c['kind'] not in ('FullComment',)]
            if ty.kind == 'array':
                sp = Space(d['name'], ty.to, IntVal(ty.n) if ty.n is not None else None, local=True)
                # element type may itself be a struct
                s.varspaces[key] = sp
                if init:
                    s.init_array(st, sp, ty, init[0])
                continue
            if ty.kind == 'struct':
                sp = Space(d['name'], ty, single=True, local=True)
                s.varspaces[key] = sp
                if init:
                    if init[0]['kind'] == 'InitListExpr':
                        for path, t in s.leaves(sp, (), ty):
                            raise Unsupported('struct initialiser')
                    v = s.ev(init[0], st)
                    s.struct_copy(st, Ptr(sp, (), (), ty), v)
                continue
            v = UNINIT if ty.kind == 'ptr' and not init else None
            if init:
                e = init[0]
                v = s.ev(e, st)
                if ty.kind == 'ptr' and not isinstance(v, Ptr) and not isinstance(v, Fn):
                    v = NULLPTR if z3.is_int_value(v) and v.as_long() == 0 else v
            elif ty.kind in ('int', 'double'):
                v = s.fresh_val(d['name'], ty)
                if ty.kind == 'int':
                    lo, hi = s.int_range(ty)
                    st.assume(And(v >= lo, v <= hi))
            if st.touched is not None:
                st.touched.add(('env', key))
            s.varspaces.pop(key, None)
            s.bind(st, d, v, ty)
        return [('normal', st, None)]

    def init_array(s, st, sp, ty, e):
        if e['kind'] == 'StringLiteral':
            p = s.ev(e, st)
            st.mem[(sp, ())] = st.mem[(p.space, ())]
            if sp.size is None:
                sp.size = p.space.size
            return
        if e['kind'] != 'InitListExpr':
            raise Unsupported('array init ' + e['kind'])
        items = e.get('inner') or []
        if 'array_filler' in e:
            items = [x for x in e['array_filler'] if x['kind'] != 'ImplicitValueInitExpr']
        zero = IntVal(0) if ty.to.kind == 'int' else RealVal(0)
        c = Cont(z3.K(z3.IntSort(), zero))
        for i, x in enumerate(items):
            if x['kind'] == 'ImplicitValueInitExpr':
                continue
            v = s.ev(x, st)
            if not (isnum(v) and num(v) == 0):
                c = c.store((IntVal(i),), to_int(v))
        st.mem[(sp, ())] = c

    def s_ReturnStmt(s, n, st):
        v = None
        if n.get('inner'):
            v = s.ev(n['inner'][0], st)
            if not isinstance(v, Ptr):
                v = to_int(v)
        return [('return', st, v)]

    def s_BreakStmt(s, n, st):
        return [('break', st, None)]

    def s_ContinueStmt(s, n, st):
        return [('continue', st, None)]

    def s_GotoStmt(s, n, st):
        return [('goto', st, n['targetLabelDeclId'])]

    def s_LabelStmt(s, n, st):
        return s.ex(n['inner'][0], st)

    def feasible(s, st, c):
        """False only if c is certainly impossible (cheap)"""
        cc = z3.simplify(c)
        if z3.is_false(cc):
            return False
        if z3.is_true(cc):
            return True
        return not s.quick(st, z3.simplify(Not(c)), 150)

    def s_IfStmt(s, n, st):
        inner = n['inner']
        if n.get('hasInit') or n.get('hasVar'):
            raise Unsupported('if with init')
        try:
            c = to_bool(s.ev(inner[0], st))
        except Dead:
            return []
        then, els = inner[1], (inner[2] if len(inner) > 2 else None)
        nb = len(st.pc)
        outs, norm = [], []
        cs = z3.simplify(c)
        if not z3.is_false(cs):
            s1 = st.copy() if not z3.is_true(cs) else st
            if z3.is_true(cs) or s.feasible(st, c):
                s1.assume(c)
                mark_branch(s1, c)
                for o in s.ex(then, s1):
                    (norm if o[0] == 'normal' else outs).append(o)
        if not z3.is_true(cs):
            s2 = st.copy()
            nc = z3.simplify(Not(c))
            if z3.is_false(cs) or s.feasible(st, nc):
                s2.assume(nc)
                mark_branch(s2, nc)
                norm2 = []
                for o in (s.ex(els, s2) if els else [('normal', s2, None)]):
                    (norm2 if o[0] == 'normal' else outs).append(o)
                if len(norm) == 1 and len(norm2) == 1:
                    m = s.merge(nb, c, norm[0][1], norm2[0][1])
                    inherit_branch(m, st)
                    norm = [('normal', m, None)]
                else:
                    norm = norm + norm2
        return outs + norm

    def s_SwitchStmt(s, n, st):
        raise Unsupported('switch')

    # loops -> loops.py
    def s_ForStmt(s, n, st):
        inner = n['inner']
        init, _, cond, inc, body = inner[0], inner[1], inner[2], inner[3], inner[4]
        if init and init.get('kind'):
            r = s.ex(init, st)
            if not r:
                return []
            st = r[0][1]
        import loops
        return loops.run(s, n, st, cond if cond and cond.get('kind') else None, inc if inc and inc.get('kind') else None, body)

    def s_WhileStmt(s, n, st):
        import loops
        return loops.run(s, n, st, n['inner'][0], None, n['inner'][-1])

    def s_DoStmt(s, n, st):
        import loops
        body, cond = n['inner'][0], n['inner'][1]
        outs = []
        for (k, o, v) in s.ex(body, st):
            if k in ('normal', 'continue'):
                outs += loops.run(s, n, o, cond, None, body)
            elif k == 'break':
                outs.append(('normal', o, None))
            else:
                outs.append((k, o, v))
        return outs


def self_unsup(m):
    raise Unsupported(m)


def divide(d, sz):
    """d/sz when every coefficient is divisible, else None"""
    terms, k = lin(d)
    if k % sz:
        return None
    r = IntVal(k // sz)
    for (t, c) in terms.values():
        if c % sz:
            return None
        r = r + (c // sz) * t
    return z3.simplify(r)


def split_mul(t, stride):
    """t == imul(x, stride) -> x"""
    if z3.is_app(t) and t.decl().name() == 'imul':
        a, b = t.arg(0), t.arg(1)
        if same(a, stride):
            return b
        if same(b, stride):
            return a
    return None


_hq = {}


def has_quant(f):
    k = f.get_id()
    r = _hq.get(k)
    if r is not None and r[0].eq(f):
        return r[1]
    st, seen, res = [f], set(), False
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            res = True
            break
        st.extend(t.children())
    _hq[k] = (f, res)
    return res


def mark_branch(st, c):
    b = getattr(st, 'branch', None)
    st.branch = (b or ()) + (c.get_id(),)


def inherit_branch(st, parent):
    st.branch = getattr(parent, 'branch', ())


def o_branch(st):
    return getattr(st, 'branch', ()) or ()


_oldcopy = State.copy


def _copy(s):
    n = _oldcopy(s)
    n.branch = getattr(s, 'branch', ())
    return n


State.copy = _copy

"""Function contracts: one specification function used both to verify a body and at call sites."""
import z3, time, os
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, Int, Real
import theory as th
import sym
from sym import Space, Ptr, Cont, State, Exec, fresh, Unsupported, same, TRUE, FALSE, NULLPTR
import front
from front import T, INT, UINT, DOUBLE, VOID


class Post:
    """view of the state after the call"""
    def __init__(s, c, st, res):
        s.c, s.st, s.res = c, st, res

    def A(s, p):
        return s.c._content(p, s.st)

    def v(s, p):
        return s.c._value(p, s.st)


class Ctx:
    def __init__(s, contract, ex, st, args, mode):
        s.k, s.ex, s.st, s.args, s.mode = contract, ex, st, args, mode
        s.req, s.ens, s.rng, s.scal, s.fct, s.postf = [], [], [], [], [], []
        s.meas = None
        s._cases = None
        s.same_ok = set()
        s.hints = []
        s.measures = []
        s.gset = []
        s.resptr = None
        s.noframe = set()

    # ---- arguments
    def i(s, k):
        return sym.to_int(s.args[k])

    def d(s, k):
        return s.args[k]

    def p(s, k):
        v = s.args[k]
        if not isinstance(v, Ptr):
            raise Unsupported('%s: argument %d is not a known pointer' % (s.k.name, k))
        return v

    def off(s, p):
        return p.idx[-1]

    def glob(s, name):
        sp = s.ex.gspace(name)
        return Ptr(sp, (), () if sp.single else (IntVal(0),), sp.elt)

    def gptr(s, name):
        """value of a global pointer variable"""
        return s.ex.load(s.st, s.glob(name))

    def field(s, p, *path):
        """pointer to a (nested) field"""
        t = p.ty
        for f in path:
            t = s.ex.field_ty(t, f)
        return p.w(path=p.path + tuple(path), ty=t, null=FALSE)

    # ---- contents
    def _content(s, p, st):
        if len(p.idx) != 1:
            raise Unsupported('%s: array argument is a row of a nested array' % s.k.name)
        key, ty = s.ex.akey(p)
        return s.ex.getleaf(st, key, ty, 1).term()

    def _value(s, p, st):
        key = (p.space, p.path)
        v = s.ex.getleaf(st, key, p.ty, len(p.idx))
        if isinstance(v, Cont):
            v = v.read(p.idx)
        if isinstance(v, Ptr):
            return v
        if p.ty.kind == 'int' and not sym.isnum(v):
            lo, hi = s.ex.int_range(p.ty)
            s.ex.add_range(st, v, lo, hi)
        return v

    def A(s, p):
        return s._content(p, s.st)

    def v(s, p):
        return s._value(p, s.st)

    # ---- clauses
    def requires(s, name, f):
        s.req.append((name, f))

    def reads(s, p, lo, hi):
        s.rng.append((p, p.idx[-1] + lo, p.idx[-1] + hi, 'r'))

    def writes(s, p, lo, hi):
        s.rng.append((p, p.idx[-1] + lo, p.idx[-1] + hi, 'rw'))

    def modifies(s, p):
        """a scalar location"""
        s.scal.append(p)

    def ensures(s, name, fn):
        s.ens.append((name, fn))

    def facts(s, fs):
        s.fct.extend(fs)

    def post_facts(s, fn):
        s.postf.append(fn)

    def decreases(s, t):
        s.meas = t

    def cases(s, conds):
        s._cases = conds

    def ghost(s, name, sort):
        g = s.ex.ghosts
        if name not in g:
            g[name] = z3.Const('ghost_' + name, sort)
        return g[name]

    def gcell(s, name, kind='int', arr=False):
        """ghost state shared by the contracts of a run"""
        return s.ex.ghostcell(name, kind, arr)

    def ghost_set(s, cell, fn):
        """definitional ghost assignment at the end of the function"""
        s.gset.append((cell, fn))

    def elem(s, p, k, *path):
        """element k of a nested array field (path ends with the array field; more names select a member)"""
        q = s.field(p, path[0])
        q = q.w(path=q.path + ('[]',), idx=q.idx + (k,), ty=q.ty.to)
        for f in path[1:]:
            q = q.w(path=q.path + (f,), ty=s.ex.field_ty(q.ty if q.ty.kind != 'struct' or q.ty.name not in s.ex.u.typedefs else s.ex.u.typedefs[q.ty.name], f))
        return q

    def result(s, p):
        """the returned pointer"""
        s.resptr = p
        def chk(post):
            v = post.res
            if not isinstance(v, Ptr) or v.space is not p.space or v.path != p.path:
                return BoolVal(False)
            return And(Not(v.null), *[x == y for x, y in zip(v.idx, p.idx)])
        if s.mode == 'verify':
            s.ens.append(('returned pointer', chk))

    def measure(s, fn):
        """fn(HintCtx) -> int term that is >= 1 in the loop and decreases (or None)"""
        s.measures.append(fn)

    def hint(s, fn):
        s.hints.append(fn)


class Contract:
    """params: list of ('i'|'d'|('a', T)|('s', structname)|'x')  checked against the prototype"""
    def __init__(s, name, spec, prop=None, variants=None, ret=None, setup=None, group=None):
        s.name, s.spec, s.variants, s.setup, s.group = name, spec, variants or [None], setup, group or name

    # ------------------------------------------------ at a call site
    def apply(s, ex, st, args, node):
        ex.used_contracts.add(s.name)
        args = [s.named(ex, st, a) for a in args]
        c = Ctx(s, ex, st, args, 'call')
        for a in args:
            if isinstance(a, Ptr) and a.space is not None and not z3.is_false(a.null):
                ex.ob(st, 'pre', 'argument of %s not null' % s.name, Not(a.null))
        s.spec(c)
        for (nm, f) in c.req:
            ex.ob(st, 'pre', 'precondition of %s: %s' % (s.name, nm), f)
        if ex.cur_contract is not None and ex.cur_contract.group == s.group and c.meas is not None:
            ex.ob(st, 'term', 'recursion measure of %s decreases' % s.name, And(c.meas >= 0, c.meas < ex.cur_measure))
        # footprints
        for (p, lo, hi, mode) in c.rng:
            s.check_range(ex, st, p, lo, hi, mode)
        for p in c.scal:
            ex.check_access(st, p, p.ty, True)
        for a in range(len(c.rng)):
            for b in range(a):
                (p, plo, phi, pm), (q, qlo, qhi, qm) = c.rng[a], c.rng[b]
                if pm == 'r' and qm == 'r':
                    continue
                if p.space is q.space and p.path == q.path and (p is not q):
                    if (a, b) in c.same_ok or (b, a) in c.same_ok:
                        continue
                    same_prefix = all(same(x, y) for x, y in zip(p.idx[:-1], q.idx[:-1]))
                    if not same_prefix:
                        raise Unsupported('overlap of rows')
                    ex.ob(st, 'pre', 'argument ranges of %s do not overlap' % s.name, Or(plo >= phi, qlo >= qhi, phi <= qlo, qhi <= plo))
        pre = st.copy()
        c.st = pre
        # havoc
        bykey = {}
        for (p, lo, hi, mode) in c.rng:
            if mode == 'rw':
                bykey.setdefault(ex.akey(p)[0], []).append((p, lo, hi))
        for key, lst in bykey.items():
            p = lst[0][0]
            old = ex.getleaf(st, key, ex.akey(p)[1], len(p.idx))
            nw = z3.Const('%s_%s!%d' % (s.name[:8], key[0].name, next(sym._cnt)), old.base.sort())
            ks = [z3.Int('k!c%d_%d' % (next(sym._cnt), d)) for d in range(len(p.idx))]
            inside = []
            for (q, lo, hi) in lst:
                inside.append(And(*([x == y for x, y in zip(ks[:-1], q.idx[:-1])] + [lo <= ks[-1], ks[-1] < hi])))
            ot = old.term()
            pats = [z3.Select(nw, *ks)]
            pats.append(z3.Select(ot, *ks))
            if key not in c.noframe:
                st.assume(z3.ForAll(ks, Or(Or(*inside), z3.Select(nw, *ks) == z3.Select(ot, *ks)), patterns=pats))
            st.mem[key] = Cont(nw)
            if st.touched is not None:
                st.touched.add(key)
            for (q, lo, hi) in lst:
                ex.logw(st, key, [('pt', x) for x in q.idx[:-1]] + [('rg', lo, hi)])
        for p in c.scal:
            v = ex.fresh_val(s.name + '_' + p.space.name, p.ty)
            if p.ty.kind == 'ptr':      # same block, another position
                v = ex.getleaf(st, (p.space, p.path), p.ty, 0)
                if not isinstance(v, Ptr) or v.space is None:
                    raise Unsupported('unknown pointer modified by a contract')
                v = v.w(idx=tuple(fresh(s.name + '_' + p.space.name) for _ in v.idx))
            if p.ty.kind == 'int':
                lo, hi = ex.int_range(p.ty)
                st.assume(And(v >= lo, v <= hi))
            ex.raw_store(st, p, v)
        fn = ex.u.funcs.get(s.name) or ex.u.protos.get(s.name)
        rt = ex.u.ty(fn['type']['qualType'].split('(')[0].strip())
        res = None
        if rt.kind in ('int', 'double'):
            res = ex.fresh_val(s.name + '_res', rt)
            if rt.kind == 'int':
                lo, hi = ex.int_range(rt)
                st.assume(And(res >= lo, res <= hi))
        if c.resptr is not None:
            res = c.resptr
        post = Post(c, st, res)
        s.do_gset(c, ex, st, post)
        for (nm, fnn) in c.ens:
            r = fnn(post)
            for f in (r if isinstance(r, list) else [r]):
                st.assume(f)
        s.cut(ex, st, node)
        return post.res if post.res is not None else IntVal(0)

    def cut(s, ex, st, node):
        """after a top-level call: prove a summary of the state, then keep only the summary (facts are only dropped)"""
        cu = getattr(ex, 'cuts', {}).get(s.name)
        if cu is None or len(ex.frames) != 1 or node.get('id') not in ex.top_ids:
            return
        for var in cu(st):
            B = sym.solver_batch(st.pc, [f for (_, f) in var])
            ok = True
            for (nm, f) in var:
                if not B.prove(f, 4000) and not sym.solver_prove(st.pc, f, 4000):
                    if getattr(ex, 'verbose', False):
                        print('   cut after %s: not proved: %s' % (s.name, nm))
                    ok = False
                    break
            if ok:
                if getattr(ex, 'verbose', False):
                    print('   cut after %s' % s.name)
                for (nm, f) in var:
                    ex.ob(st, 'cut', 'state after %s: %s' % (s.name, nm), f)
                st.pc[:] = list(ex.entry_pc) + [f for (_, f) in var]
                return

    def do_gset(s, c, ex, st, post):
        vals = [(cell, fn(post)) for (cell, fn) in c.gset]
        for (cell, v) in vals:
            if not cell.idx:
                ex.raw_store(st, cell, v)
            else:
                key = (cell.space, cell.path)
                if z3.is_const(v):
                    st.mem[key] = Cont(v)
                    if st.touched is not None:
                        st.touched.add(key)
                    ex.logw(st, key, [('any',)])
                    continue
                nw = z3.Const('gs!%d' % next(sym._cnt), v.sort())
                st.assume(nw == v)
                st.mem[key] = Cont(nw)
                if st.touched is not None:
                    st.touched.add(key)
                ex.logw(st, key, [('any',)])

    def named(s, ex, st, a):
        """give a name to arguments that contain conditionals (keeps trigger terms simple)"""
        def nm(x):
            if z3.is_expr(x) and (z3.is_int(x) or z3.is_real(x)) and th._has_ite(x):
                v = fresh('arg', 'int' if z3.is_int(x) else 'real')
                st.assume(v == x)
                return v
            return x
        if isinstance(a, Ptr):
            return a.w(idx=tuple(nm(i) for i in a.idx))
        if z3.is_expr(a) and z3.is_bool(a):
            a = sym.to_int(a)
        return nm(a) if z3.is_expr(a) else a

    def check_range(s, ex, st, p, lo, hi, mode):
        sp = p.space
        if sp.single and not p.idx:
            raise Unsupported('array expected')
        if sp in st.freed:
            ex.ob(st, 'freed', 'no use after free of %s' % sp.name, Not(st.freed[sp]))
        what = '%s range of %s is inside %s' % ('written' if mode == 'rw' else 'read', s.name, sp.name)
        if sp.valid is not None:
            ok = []
            for rg in sp.valid:
                if mode == 'rw' and rg[2] == 'r':
                    continue
                if isinstance(rg[0], tuple):
                    ok.append(And(*([And(l <= x, x < h) for x, l, h in zip(p.idx[:-1], rg[0], rg[1])] + [rg[0][-1] <= lo, hi <= rg[1][-1]])))
                else:
                    ok.append(And(rg[0] <= lo, hi <= rg[1]))
            ex.ob(st, 'bounds', what, Or(lo >= hi, *ok))
        elif sp.nbytes is not None or sp.base is not None:
            sz = ex.u.sizeof(sp.elt)
            if sp.base is not None:
                ex.check_access(st, p.w(idx=(lo,)), p.ty, mode == 'rw') if False else None
                par, b = sp.base
                ex.ob(st, 'bounds', what, Or(lo >= hi, And(lo >= 0, b + sz * hi <= par.nbytes)))
                for w in par.views:
                    if w is not sp:
                        ex.ob(st, 'bounds', 'range in %s stays below %s' % (sp.name, w.name), Or(lo >= hi, Implies(w.base[1] >= b, b + sz * hi <= w.base[1])))
                par.acc.append((list(st.pc) + [lo < hi], b, b + sz * hi, sp))
            else:
                ex.ob(st, 'bounds', what, Or(lo >= hi, And(lo >= 0, sz * hi <= sp.nbytes)))
        elif sp.size is not None or sp.single:
            size = sp.size
            ds = ex.path_dims(sp, p.path)
            if ds:
                size = IntVal(ds[-1])
            ex.ob(st, 'bounds', what, Or(lo >= hi, And(lo >= 0, hi <= size)))
        else:
            raise Unsupported('no bounds for ' + sp.name)
        if mode == 'rw':
            if sp.isconst:
                ex.ob(st, 'frame', 'no write to constant', lo >= hi)
            ex.check_assign(st, p, lo, hi)

    # ------------------------------------------------ verification of the body
    def verify(s, unit, contracts, stubs, opts, log=None):
        """returns list of Exec (one per variant/case) with obligations"""
        res = []
        if s.name not in unit.funcs:
            raise Unsupported('function %s not found' % s.name)
        for vi, var in enumerate(s.variants):
            ncase = 1
            ci = 0
            while ci < ncase:
                o2 = dict(opts or {})
                if o2.get('invs') is not None:
                    o2['inv'] = o2['invs'].get('%d/%d' % (vi, ci), {})
                ex = Exec(unit, contracts, stubs, o2)
                ex.cachekey = '%d/%d' % (vi, ci)
                ex.func, ex.ghosts = s.name, {}
                ex.cur_contract = s
                ex.deadline = time.time() + (opts or {}).get('timeout', 600)
                st = State()
                fn = unit.funcs[s.name]
                args = s.default_args(ex, st, fn, var)
                c = Ctx(s, ex, st, args, 'verify')
                c.variant = var
                if s.setup:
                    s.setup(c)
                s.spec(c)
                if c._cases:
                    ncase = len(c._cases) 
                # permissions
                for (p, lo, hi, mode) in c.rng:
                    if p.space.single:
                        continue
                    if p.space.valid is None:
                        p.space.valid = []
                    if len(p.idx) > 1:
                        raise Unsupported('row range in verify')
                    if len(p.idx) == 1 and p.space.name.startswith('ghost:'):
                        continue
                    p.space.valid.append((lo, hi, mode))
                ex.assigns = [(p, lo, hi) for (p, lo, hi, mode) in c.rng if mode == 'rw'] + [(p, None, None) for p in c.scal]
                for (nm, f) in c.req:
                    st.assume(f)
                for f in c.fct:
                    st.assume(f)
                if c._cases:
                    ex.case = ci
                    if ci == 0:
                        ex.ob(st, 'cases', 'case split is exhaustive', Or(*c._cases))
                    st.assume(c._cases[ci])
                ex.entry_pc = list(st.pc)
                ex.cur_measure = c.meas
                ex.hints = c.hints
                ex.measures = c.measures
                ex.ctx = c
                ex.entry = st.copy()
                c.st = ex.entry
                fr, body = ex.setup_frame(fn, args, st)
                ex.cuts = getattr(c, 'cuts', {})
                ex.top_ids = {x.get('id') for x in body.get('inner') or []}
                outs = ex.ex(body, st.copy())
                ex.frames.pop()
                ex.exits = []
                for (k, o, v) in outs:
                    if k not in ('normal', 'return'):
                        raise Unsupported('odd exit')
                    ex.line = fn.get('_l', 0)
                    post = Post(c, o, v)
                    s.do_gset(c, ex, o, post)
                    for pf in c.postf:
                        for f in pf(post):
                            o.assume(f)
                    for (nm, f) in c.ens:
                        r = f(post)
                        for g in (r if isinstance(r, list) else [r]):
                            ex.ob(o, 'post', nm, g)
                    ex.exits.append(list(o.pc))
                res.append(ex)
                ci += 1
        return res

    def default_args(s, ex, st, fn, var):
        args = []
        params = [q for q in fn.get('inner') or [] if q['kind'] == 'ParmVarDecl']
        for k, q in enumerate(params):
            t = ex.ty(q)
            nm = q.get('name', 'a%d' % k)
            if t.kind == 'array':
                t = T('ptr', to=t.to)
            if t.kind == 'int':
                v = fresh(nm)
                lo, hi = ex.int_range(t)
                st.assume(And(v >= lo, v <= hi))
            elif t.kind == 'double':
                v = fresh(nm, 'real')
            elif t.kind == 'ptr':
                e = t.to
                if e.kind == 'struct' and e.name in ex.u.typedefs:
                    e = ex.u.typedefs[e.name]
                if e.kind == 'struct':
                    v = Ptr(Space(nm, e, single=True), (), (), e)
                elif e.kind == 'void':
                    v = None
                elif (k in (s.scalars or ())):
                    v = Ptr(Space(nm, e, single=True), (), (), e)
                else:
                    v = Ptr(Space(nm, e), (), (IntVal(0),), e)
            else:
                raise Unsupported('parameter type %r' % t)
            args.append(v)
        if var == 'alias01':
            pass
        if isinstance(var, tuple) and var[0] == 'alias':
            for (a, b) in var[1]:
                args[b] = args[a]
        return args

    scalars = ()

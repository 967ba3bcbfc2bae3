"""Loop handling: inferred candidate invariants (+ contract hints), Houdini filtering, then the
surviving invariants are emitted as obligations (established, preserved, body, termination).

An invariant is never trusted: whatever the inference proposes is checked by the same
obligations as a hand written one; inference only proposes.
"""
import z3, time
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, Int
import sym
from sym import Ptr, Cont, Unsupported, Dead, fresh, isnum, num, same, TRUE, FALSE, to_bool, NULLPTR
import solver
import theory as th

import os
HMS = 2000     # per Houdini query
HAUTO = 500    # the same for generated candidates (not hints)


def cms(c):
    return HMS if c.name.startswith(('hint:', 'frame', 'gap')) else HAUTO


KEEP = os.environ.get('ECV_KEEP')      # debugging: keep a failing candidate to look at its obligation


class Cand:
    __slots__ = ('name', 'f')

    def __init__(s, name, f):
        s.name, s.f = name, f


def born(t, lo):
    """does t mention a constant created at or after counter lo?"""
    for c in consts(t):
        if stamp(c) >= lo:
            return True
    return False


_cc = {}


def consts(t):
    k = t.get_id()
    r = _cc.get(k)
    if r is not None and r[0].eq(t):
        return r[1]
    seen, out, st = set(), {}, [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[i] = x
            st.extend(x.children())
    r = list(out.values())
    _cc[k] = (t, r)
    return r


def stamp(c):
    n = c.decl().name()
    k = n.rfind('!')
    try:
        return int(n[k + 1:])
    except ValueError:
        return -1


def nextstamp():
    return next(sym._cnt)


def imuls(f):
    """ground products in a formula"""
    seen, st, out = set(), [f], []
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().name() == 'imul' and not any(z3.is_var(y) for y in x.children()):
                out.append(x)
            st.extend(x.children())
    return out


def subst(f, pairs):
    pairs = [(a, b) for a, b in pairs if not a.eq(b)]
    if not pairs:
        return f
    # products of a replaced counter stay in normal form
    more = []
    for x in imuls(f):
        a, b = x.arg(0), x.arg(1)
        a2, b2 = z3.substitute(a, *pairs), z3.substitute(b, *pairs)
        if not (a2.eq(a) and b2.eq(b)) and not imuls(a2) and not imuls(b2):
            try:
                more.append((x, sym.mk_mul(a2, b2)))
            except Exception:
                pass
    return z3.substitute(f, *(more + pairs))


def atoms(c, neg=False):
    if z3.is_and(c) and not neg:
        r = []
        for x in c.children():
            r += atoms(x)
        return r
    if z3.is_or(c) and neg:
        r = []
        for x in c.children():
            r += atoms(x, True)
        return r
    if z3.is_not(c):
        return atoms(c.arg(0), not neg)
    return [(c, neg)]


def gaps(c):
    """int terms g such that cond true implies g >= 1 (or g != 0 : second component)"""
    out = []
    for (a, neg) in atoms(c):
        if not z3.is_app(a) or a.num_args() != 2 or not z3.is_int(a.arg(0)):
            continue
        x, y = a.arg(0), a.arg(1)
        if z3.is_lt(a) and not neg or z3.is_ge(a) and neg:
            out.append((y - x, False))
        elif z3.is_le(a) and not neg or z3.is_gt(a) and neg:
            out.append((y - x + 1, False))
        elif z3.is_gt(a) and not neg or z3.is_le(a) and neg:
            out.append((x - y, False))
        elif z3.is_ge(a) and not neg or z3.is_lt(a) and neg:
            out.append((x - y + 1, False))
        elif z3.is_eq(a) and neg or z3.is_distinct(a) and not neg:
            out.append((y - x, True))
            out.append((x - y, True))
    return [(z3.simplify(g, som=True), ne) for g, ne in out]


def get(st, key, ex):
    if key[0] == 'env':
        return st.env.get(key[1])
    if key in st.mem:
        return st.mem[key]
    return ex.leaf0.get(key)


def put(st, key, v):
    if key[0] == 'env':
        st.env[key[1]] = v
    else:
        st.mem[key] = v


class Head:
    """symbolic loop-head state description"""
    pass


def keyname(k):
    if k[0] == 'env':
        return '%s' % (k[1][1],)
    return k[0].name + '.'.join(k[1]) + ('#%s' % k[2] if len(k) > 2 else '')


class Loop:
    def __init__(s, ex, node, st, cond, inc, body):
        s.ex, s.node, s.st, s.cond, s.inc, s.body = ex, node, st, cond, inc, body
        s.line = node.get('_l', ex.line)
        s.ckey = (tuple((f.fname) for f in ex.frames), node.get('id'))
        s.spstamp = next(sym.Space._n)

    # one symbolic iteration
    def iterate(s, head, quiet):
        ex = s.ex
        if quiet:
            ex.quiet += 1
        nv = {}
        vis, ex.visits = getattr(ex, 'visits', {}), {}
        chain, ex.chain = getattr(ex, 'chain', ''), s.pathkey + '>'
        viewn = [(sp, list(sp.views), list(sp.acc)) for sp in s.rawspaces()] if quiet else []
        ts0 = getattr(ex, 'tstack', ())
        ex.tstack = ts0 + (s.t,)
        ls0 = getattr(ex, 'loopstack', ())
        ex.loopstack = ls0 + (s,)
        try:
            s1 = head.copy()
            exits, breaks, backs, others = [], [], [], []
            try:
                cv = to_bool(ex.ev(s.cond, s1)) if s.cond is not None else TRUE
            except Dead:
                return cvnone(), [], [], [], []
            s.cv = cv
            if not z3.is_true(z3.simplify(cv)):
                e = s1.copy()
                e.assume(Not(cv) if not z3.is_false(z3.simplify(cv)) else TRUE)
                exits.append(e)
            if z3.is_false(z3.simplify(cv)):
                return cv, exits, [], [], []
            s1.assume(cv)
            try:
                outs = ex.ex(s.body, s1)
            except Dead:
                outs = []
            for (k, o, v) in outs:
                if k in ('normal', 'continue'):
                    try:
                        if s.inc is not None:
                            ex.ev(s.inc, o)
                        backs.append(o)
                    except Dead:
                        pass
                elif k == 'break':
                    breaks.append(o)
                else:
                    others.append((k, o, v))
            return cv, exits, breaks, backs, others
        finally:
            ex.visits, ex.chain = vis, chain
            ex.tstack = ts0
            ex.loopstack = ls0
            if quiet:
                ex.quiet -= 1
                for (sp, v, a) in viewn:
                    sp.views[:] = v
                    sp.acc[:] = a

    def rawspaces(s):
        return [sp for sp in getattr(s.ex, 'rawsp', [])]

    def havoc(s, st, mod, linear=None, t=None):
        """-> (head state, subs list of (sym, key, comp))"""
        ex = s.ex
        h = st.copy()
        syms = s.cursyms = []
        for key in mod:
            old = get(st, key, ex)
            if key[0] == 'env' and key[1] not in st.env:
                continue
            if key[0] != 'env' and old is None and key[0].id > s.spstamp:
                continue
            if old is None:
                put(h, key, None)
                continue
            if isinstance(old, Cont):
                b = z3.Const('%s!%d' % (keyname(key), next(sym._cnt)), old.base.sort())
                put(h, key, Cont(b))
                syms.append((b, key, None, old.term()))
            elif isinstance(old, Ptr):
                if key in s.undet:
                    put(h, key, None)
                    continue
                if old.space is None:
                    # null at entry: becomes undetermined
                    put(h, key, None)
                    continue
                idx = []
                for c, o in enumerate(old.idx):
                    d = (linear or {}).get((key, c))
                    if d is not None:
                        idx.append(z3.simplify(o + sym.mk_mul(d, t)))
                    else:
                        x = fresh(keyname(key))
                        idx.append(x)
                        syms.append((x, key, c, o))
                nl = old.null
                if key in s.nulls:
                    nl = fresh(keyname(key) + '_null', 'bool')
                    syms.append((nl, key, 'null', old.null))
                put(h, key, old.w(idx=tuple(idx), null=nl))
            elif isinstance(old, sym.Fn):
                raise Unsupported('function pointer modified in loop')
            else:
                d = (linear or {}).get((key, None))
                if d is not None:
                    put(h, key, z3.simplify(old + sym.mk_mul(d, t)))
                else:
                    if z3.is_bool(old):
                        x = fresh(keyname(key), 'bool')
                    elif z3.is_real(old):
                        x = fresh(keyname(key), 'real')
                    else:
                        x = fresh(keyname(key))
                        ty = s.keytype(key)
                        if ty is not None:
                            lo, hi = ex.int_range(ty)
                            h.assume(And(x >= lo, x <= hi))
                    put(h, key, x)
                    syms.append((x, key, None, old))
        return h, syms

    def keytype(s, key):
        if key[0] == 'env':
            return sym.INT
        try:
            t = s.ex.type_at(key[0], key[1])
            return t if t.kind == 'int' else None
        except Exception:
            return None

    def value_of(s, st, key, comp):
        v = get(st, key, s.ex)
        if isinstance(v, Cont):
            return v.term()
        if isinstance(v, Ptr) and comp == 'null':
            return v.null
        if isinstance(v, Ptr):
            return v.idx[comp] if comp is not None and comp < len(v.idx) else None
        if v is None:
            return None
        if comp is None:
            return v
        return None

    # ------------------------------------------------------------
    def run(s):
        ex, st = s.ex, s.st
        s.undet, s.nulls = set(), set()
        s.t = None
        if not hasattr(ex, 'visits'):
            ex.visits, ex.chain, ex.kept = {}, '', {}
        ck = '/'.join(s.ckey[0]) + ':' + str(s.ckey[1])
        s.pathkey = '%s%s#%d' % (ex.chain, ck, ex.visits.get(ck, 0))
        ex.visits[ck] = ex.visits.get(ck, 0) + 1
        cache = (ex.opts or {}).get('inv')
        cache = cache.get(s.pathkey) if cache is not None else None
        # 0. trivially false condition
        probe = st.copy()
        ex.quiet += 1
        try:
            cv = to_bool(ex.ev(s.cond, probe)) if s.cond is not None else TRUE
        except Dead:
            return []
        finally:
            ex.quiet -= 1
        if z3.is_false(z3.simplify(cv)):
            if s.cond is not None:
                ex.ev(s.cond, st)
            return [('normal', st, None)]
        # 1. modified set
        mod = set()
        olddry = getattr(ex, 'dry', False)
        ex.dry = True
        try:
            for rnd in range(8):
                base = nextstamp()
                h, syms = s.havoc(st, mod)
                h.touched, h.log = set(), []
                cv, exits, breaks, backs, others = s.iterate(h, True)
                new = {k for k in h.touched if s.relevant(k)}
                # pointers whose target changes
                und, nls = set(), set()
                for k in mod | new:
                    v0 = get(st, k, ex)
                    if isinstance(v0, Ptr) and v0.space is not None:
                        for b in backs:
                            v = get(b, k, ex)
                            if not isinstance(v, Ptr) or v.space is not v0.space or v.path != v0.path:
                                und.add(k)
                            elif k not in s.nulls and not z3.simplify(v.null).eq(z3.simplify(v0.null)):
                                nls.add(k)      # may become null (or stop being null) in the loop
                if new <= mod and und <= s.undet and nls <= s.nulls:
                    break
                s.undet |= und
                s.nulls |= nls
                mod |= new
            else:
                raise Unsupported('loop effects do not stabilise')
        finally:
            ex.dry = olddry
        mod = sorted(mod, key=lambda k: (k[0] != 'env', str(k)))
        mod0 = mod
        if ex_dry(ex):
            h, syms = s.havoc(st, mod)
            h.touched, h.log = st.touched, None
            ex.dry = True
            cv, exits, breaks, backs, others = s.iterate(h, True)
            return s.finish(exits, breaks, others, mod, [])
        # 2. linear induction variables
        t = s.t = Int('t!%d' % next(sym._cnt))
        linear = s.find_linear(mod, backs, syms, base)
        base = nextstamp()
        cands = None
        s.drop = ex.loopdrop.setdefault(s.ckey, set()) if hasattr(ex, 'loopdrop') else set()
        # 3. shape run: nested loops fully analysed
        h, syms = s.havoc(st, mod, linear, t)
        h.assume(t >= 0)
        h.touched, h.log = set(), []
        h.maps = []
        # inner loops are analysed here without this loop's invariants: what they drop now is not final
        saved = {k: set(v) for k, v in getattr(ex, 'loopdrop', {}).items()}
        cv, exits, breaks, backs, others = s.iterate(h, True)
        for k, v in getattr(ex, 'loopdrop', {}).items():
            if k != s.ckey:
                old = saved.get(k, set())
                for nm in [x for x in v if x.startswith('hint:') and x not in old]:
                    v.discard(nm)
        log = h.log
        s.headfacts = []
        cands = s.candidates(h, syms, linear, t, cv, backs, log, base, mod)
        if breaks or others:
            cands += s.searched(h, t, backs, base)
        cands = [c for c in cands if c.name not in s.drop]
        pre0 = [(t, IntVal(0))] + [(x, v) for (x, k, c, v) in syms]
        if cache is not None:
            # invariants known from an earlier run: proposed here, checked by the obligations below
            want = set(cache)
            cands = [c for c in cands if c.name in want]
        # initial filter
        st0 = st
        if s.headfacts:
            st0 = st.copy()
            for f in s.headfacts:
                st0.assume(subst(f, pre0))
        B = solver.Batch(st0.pc, [subst(c.f, pre0) for c in cands], HMS)
        keep = []
        for c in cands:
            if cache is not None:
                keep.append(c)
                continue
            ex.houdini_checks += 1
            if B.prove(subst(c.f, pre0), cms(c)):
                keep.append(c)
            else:
                s.dropc(c)
        cands = keep
        # Houdini
        rounds = 0
        while cache is None:
            rounds += 1
            if ex.deadline and time.time() > ex.deadline:
                raise Unsupported('invariant inference time limit')
            h, syms2 = s.havoc_same(st, mod, linear, t, syms)
            h.assume(t >= 0)
            for f in s.headfacts:
                h.assume(f)
            for c in cands:
                h.assume(c.f)
            h.touched, h.log = set(), []
            cv, exits, breaks, backs, others = s.iterate(h, True)
            bad = set()
            for b in backs:
                pairs = s.step(b, t, syms)
                if pairs is None:
                    raise Unsupported('loop variable lost its value')
                goals = [subst(c.f, pairs) for c in cands]
                B = solver.Batch(b.pc, goals, HMS)
                for c, g in zip(cands, goals):
                    if c.name in bad:
                        continue
                    ex.houdini_checks += 1
                    if not B.prove(g, cms(c)) and not (KEEP and KEEP in c.name):
                        if c.name.startswith('hint:') and solver.prove(b.pc, g, 3 * HMS):
                            continue
                        bad.add(c.name)
            if not bad:
                break
            for c in cands:
                if c.name in bad:
                    s.dropc(c)
            cands = [c for c in cands if c.name not in bad]
        # 4. final: official obligations
        for c in cands:
            ex.line = s.line
            ex.ob(st0, 'inv', 'loop invariant established: ' + c.name, subst(c.f, pre0))
        h, _ = s.havoc_same(st, mod, linear, t, syms)
        h.assume(t >= 0)
        for f in s.headfacts:
            h.assume(f)
        for c in cands:
            h.assume(c.f)
        h.touched, h.log = set(), []
        cv, exits, breaks, backs, others = s.iterate(h, bool(ex.quiet))
        if not ex.quiet:
            for b in backs:
                pairs = s.step(b, t, syms)
                for c in cands:
                    ex.line = s.line
                    ex.ob(b, 'inv', 'loop invariant preserved: ' + c.name, subst(c.f, pairs))
            s.termination(h, backs, t, syms, cv)
        ex.line = s.line
        if not ex.quiet:
            ex.kept[s.pathkey] = [c.name for c in cands]
            ex.loops.append((ex.func, s.line, [c.name for c in cands]))
            if getattr(ex, 'verbose', False):
                print('loop %s:%s linear=%s kept=%s' % (ex.func, s.line, [(keyname(k[0]), d) for k, d in linear.items()], [c.name for c in cands]))
        # a variable whose value is known in closed form is replaced by it after the loop
        s.closed = []
        taken = set()
        for c in cands:
            if c.name.startswith('hint:') and z3.is_eq(c.f):
                x, e = c.f.arg(0), c.f.arg(1)
                for (y, k, cc, v) in syms:
                    if x.eq(y) and not z3.is_array(x) and not depends(e, x) and x.get_id() not in taken and not any(depends(e, z) for z, _ in s.closed):
                        taken.add(x.get_id())
                        s.closed.append((x, e))
        return s.finish(exits, breaks, others, mod, h.log, t, cv)

    def dropc(s, c):
        s.drop.add(c.name)
        if getattr(s.ex, 'verbose', False):
            print('   dropped %s:%s %s  [%.0f]' % (s.ex.func, s.line, c.name, time.time() - s.ex.deadline + 600))

    def relevant(s, k):
        if k[0] == 'env':
            return k[1] in s.st.env
        sp = k[0]
        return sp.id < s.spstamp

    def havoc_same(s, st, mod, linear, t, syms):
        """same head symbols again"""
        ex = s.ex
        tab = {(k, c): x for (x, k, c, v) in syms}
        h = st.copy()
        for key in mod:
            old = get(st, key, ex)
            if key[0] == 'env' and key[1] not in st.env:
                continue
            if old is None:
                put(h, key, None)
                continue
            if isinstance(old, Cont):
                put(h, key, Cont(tab[(key, None)]))
            elif isinstance(old, Ptr):
                if key in s.undet or old.space is None:
                    put(h, key, None)
                    continue
                idx = []
                for c, o in enumerate(old.idx):
                    d = linear.get((key, c))
                    idx.append(z3.simplify(o + sym.mk_mul(d, t)) if d is not None else tab[(key, c)])
                put(h, key, old.w(idx=tuple(idx), null=tab.get((key, 'null'), old.null)))
            else:
                d = linear.get((key, None))
                if d is not None:
                    put(h, key, z3.simplify(old + sym.mk_mul(d, t)))
                else:
                    x = tab[(key, None)]
                    put(h, key, x)
                    if z3.is_int(x):
                        ty = s.keytype(key)
                        if ty is not None:
                            lo, hi = ex.int_range(ty)
                            h.assume(And(x >= lo, x <= hi))
        return h, syms

    def step(s, b, t, syms):
        pairs = [(t, t + 1)]
        for (x, k, c, v) in syms:
            nv = s.value_of(b, k, c)
            if nv is None:
                return None
            if z3.is_int(x) and z3.is_bool(nv):
                nv = sym.to_int(nv)
            pairs.append((x, nv))
        return pairs

    def find_linear(s, mod, backs, syms, base):
        lin = {}
        if not backs:
            return lin
        for (x, key, c, v) in syms:
            if isinstance(get(s.st, key, s.ex), Cont) or not z3.is_int(x):
                continue
            d0 = None
            for b in backs:
                nv = s.value_of(b, key, c)
                if nv is None or not z3.is_int(nv):
                    d0 = None
                    break
                d = z3.simplify(nv - x, som=True)
                if born(d, base) or (d0 is not None and not d.eq(d0)):
                    d0 = None
                    break
                d0 = d
            if d0 is not None:
                lin[(key, c)] = d0
        return lin

    # ------------------------------------------------------------ candidates
    def searched(s, h, t, backs, base):
        """a loop that is left early: every completed iteration took the branch that goes on"""
        known = {f.get_id() for f in h.pc}
        alts, pats = [], []
        for b in backs:
            fs = []
            for f in b.pc:
                if f.get_id() not in known and depends(f, t) and not z3.is_quantifier(f) and not born_x(f, base, t):
                    sel = movingreads(f, t)
                    if sel:
                        fs.append(f)
                        pats += sel
            if not fs:
                return []
            alts.append(And(*fs))
        if not alts or len(alts) > 4:
            return []
        out, seen = [], set()
        for q in pats:
            if q.get_id() in seen or q.num_args() != 2 or len(out) >= 3:
                continue
            seen.add(q.get_id())
            c = z3.simplify(q.arg(1) - t, som=True)
            if depends(c, t):
                continue
            k = Int('k!s%d' % next(sym._cnt))
            f = z3.simplify(z3.substitute(Or(*alts), (t, k - c)), som=True)
            out.append(Cand('went on %d' % len(out), z3.ForAll([k], Implies(And(c <= k, k < c + t), f), patterns=[z3.Select(q.arg(0), k)])))
        return out

    def candidates(s, h, syms, linear, t, cv, backs, log, base, mod):
        ex, st = s.ex, s.st
        out = []
        arrs = [(x, k, v) for (x, k, c, v) in syms if z3.is_array(x)]
        # trip bounds
        s.meas = []
        for n, (g, ne) in enumerate(gaps(cv)):
            g1 = z3.simplify(subst(g, [(t, t + 1)]) - g, som=True)
            if isnum(g1) and num(g1) < 0 and not born_x(g, base, t):
                d = -num(g1)
                g0 = subst(g, [(t, IntVal(0))])
                if ne:
                    out.append(Cand('gap%d>=0' % n, g >= 0))
                    if d == 1:
                        s.meas.append((g, g0))
                else:
                    out.append(Cand('gap%d' % n, Or(t <= 0, g >= 1 - d)))
                    out.append(Cand('gap%d>=' % n, g >= 1 - d))
                    s.meas.append((g, g0))
            else:
                out.append(Cand('cgap%d>=0' % n, g >= 0))
        # scalars
        scal = [(x, k, c, v) for (x, k, c, v) in syms if not z3.is_array(x)]
        names = {}
        for (x, k, c, v) in scal:
            nm = keyname(k) + ('' if c is None else '@%s' % c)
            if z3.is_bool(x) and c == 'null':
                out.append(Cand(nm + '==', x == v))
                continue
            if z3.is_int(x):
                for (q, f) in (('==', x == v), ('>=e', x >= v), ('<=e', x <= v), ('<=e+t', x <= v + t), ('>=e-t', x >= v - t), ('>=0', x >= 0),
                               ('0/1', And(x >= 0, x <= 1))):
                    out.append(Cand(nm + q, f))
                d = accum(x, k, c, s, backs, t, base, {a.get_id() for (a, _, _) in arrs})
                if d is not None:
                    out += zerocands(nm, x, v, d, t, arrs)
            elif z3.is_real(x):
                for (q, f) in (('==', x == v), ('>=0', x >= 0), ('<=0', x <= 0), ('>0', Or(And(t == 0, x == v), And(t > 0, x > 0))),
                               ('<0', Or(And(t == 0, x == v), And(t > 0, x < 0))), ('>=e', x >= v), ('<=e', x <= v)):
                    out.append(Cand(nm + q, f))
        # arrays
        ent = [(x, v) for (x, k, v) in arrs]
        for (x, key, v) in arrs:
            recs = [d for (k, d) in log if k == key]
            nd = x.sort().arity() if hasattr(x.sort(), 'arity') else 1
            nd = arity(x)
            ks = [Int('k!l%d' % (next(sym._cnt))) for _ in range(nd)]
            written = []
            okf = True
            for dims in recs:
                sp = []
                for dd, kx in zip(dims, ks):
                    r = span(dd, t, base)
                    if r is None:
                        continue
                    sp.append(And(r[0] <= kx, kx < r[1]))
                if any(dd[0] != 'pt' or depends(dd[1], t) for dd in dims):
                    pass
                written.append(And(t >= 1, *sp))
            pats = [z3.Select(x, *ks)]
            if z3.is_const(v):
                pats.append(z3.Select(v, *ks))
            if recs:
                out.append(Cand('frame(%s)' % keyname(key), z3.ForAll(ks, Or(Or(*written), z3.Select(x, *ks) == z3.Select(v, *ks)), patterns=pats)))
            # values
            if recs and nd == 1 and x.sort().range() == z3.IntSort() and not key[1] and not key[0].name.startswith('ghost:'):
                for n, dims in enumerate(recs):
                    r = span(dims[0], t, base)
                    if r is not None:
                        kx = ks[0]
                        out.append(Cand('bits%d(%s)' % (n, keyname(key)), z3.ForAll([kx], Implies(And(t >= 1, r[0] <= kx, kx < r[1]), And(0 <= z3.Select(x, kx), z3.Select(x, kx) <= 1)), patterns=[z3.Select(x, kx)])))
            if backs:
                n = 0
                for dims in recs:
                    n += 1
                    if any(dd[0] != 'pt' for dd in dims):
                        continue
                    bk = backs[0]
                    c = get(bk, key, ex)
                    idx = tuple(dd[1] for dd in dims)
                    val = c.read(idx)
                    for b2 in backs[1:]:
                        # several paths: combine by the facts that separate them
                        v2 = get(b2, key, ex).read(idx)
                        if not v2.eq(val):
                            val = None
                            break
                    if val is None:
                        continue
                    cand = mapcand(x, key, v, idx, val, t, base, ent, n)
                    out += cand
        # facts of nested map loops lifted over t
        for m in getattr(ex, 'mapfacts', {}).get(id(s.body), []):
            pass
        # hints
        for hf in getattr(ex, 'hints', []) or []:
            try:
                hc = HintCtx(s, h, st, t, syms, cv, linear)
                hc.log = log
                for (nm, f) in hf(hc) or []:
                    out.append(Cand('hint:' + nm, f))
            except (Unsupported, KeyError, AttributeError, z3.Z3Exception):
                if getattr(ex, 'verbose', False):
                    import traceback
                    traceback.print_exc()
        seen, res = set(), []
        for c in out:
            if c.name in seen:
                c.name = c.name + "'"
            if c.name in seen:
                continue
            seen.add(c.name)
            if z3.is_true(z3.simplify(c.f)) and not z3.is_quantifier(c.f):
                continue
            res.append(c)
        return res

    def termination(s, h, backs, t, syms, cv):
        ex = s.ex
        if s.meas:
            return      # cond implies g>=1 and g decreases by a positive constant: by construction
        ms = [g for (g, ne) in gaps(cv)]
        for fn in getattr(ex, 'measures', []) or []:
            try:
                m = fn(HintCtx(s, h, s.st, t, syms, cv, {}))
                if m is not None:
                    ms.append(m)
            except (Unsupported, KeyError, AttributeError, z3.Z3Exception):
                pass
        for g in ms:
            ok = True
            for b in backs:
                pairs = s.step(b, t, syms)
                if not solver.prove(b.pc, And(g >= 1, subst(g, pairs) < g), 3000):
                    ok = False
            if ok:
                for b in backs:
                    ex.ob(b, 'term', 'loop measure decreases', And(g >= 1, subst(g, s.step(b, t, syms)) < g))
                return
        if not backs:
            return
        hm = getattr(ex, 'partial', None)
        if hm:
            ex.assumed.append('termination assumed: ' + hm)
            return
        ex.ob(h, 'term', 'loop terminates (no measure found)', FALSE)

    # ------------------------------------------------------------ exit
    def finish(s, exits, breaks, others, mod, log, t=None, cv=None):
        ex, st = s.ex, s.st
        outs = []
        T = None
        for e in exits + breaks + [o for (_, o, _) in others]:
            for (x, v) in getattr(s, 'closed', []):
                s.replace(e, x, v)
        for e in exits:
            if t is not None and s.meas:
                # the trip count in closed form
                for (g, g0) in s.meas:
                    d = z3.simplify(subst(g, [(t, IntVal(0))]) - g, som=True)
                    if d.eq(t):
                        N = z3.simplify(g0, som=True)
                        if solver.prove(e.pc, t == N, 2000):
                            s.replace(e, t, N)
                            T = N
                            break
            outs.append(('normal', e, None))
        for b in breaks:
            outs.append(('normal', b, None))
        outs += others
        summ = []
        for (k, dims) in log or []:
            nd = []
            for dd in dims:
                nd.append(hull(dd, t, T, s))
            summ.append((k, nd))
        for (k, o, v) in outs:
            o.touched, o.log = st.touched, st.log
        if st.touched is not None:
            for k in mod:
                st.touched.add(k)
        if st.log is not None:
            st.log.extend(x for x in summ if s.relevant(x[0]))
        return outs

    def replace(s, e, t, N):
        sb = lambda f: z3.substitute(f, (t, N)) if f is not None else None

        def val(v):
            if isinstance(v, Cont):
                return Cont(sb(v.base), tuple((tuple(sb(i) for i in ix), sb(x)) for ix, x in v.ws))
            if isinstance(v, Ptr):
                return v.w(idx=tuple(z3.simplify(sb(i)) for i in v.idx), null=sb(v.null)) if v.space is not None else v
            if v is None or isinstance(v, sym.Fn):
                return v
            r = sb(v)
            return z3.simplify(r) if not r.eq(v) else v
        for k in list(e.env):
            e.env[k] = val(e.env[k])
        for k in list(e.mem):
            e.mem[k] = val(e.mem[k])
        e.pc = [sb(f) for f in e.pc]


def accum(x, key, comp, loop, backs, t, base, arrs):
    """x' = x + d(t) with d a function of t and loop-invariant data"""
    if len(backs) != 1:
        return None
    nv = loop.value_of(backs[0], key, comp)
    if nv is None or not z3.is_int(nv):
        return None
    d = z3.simplify(nv - x, som=True)
    if not depends(d, t) or depends(d, x):
        return None
    for c in consts(d):
        if stamp(c) >= base and not c.eq(t) and c.get_id() not in arrs:
            return None
    return d


def selects(d):
    out, st, seen = [], [d], set()
    while st:
        q = st.pop()
        if q.get_id() in seen:
            continue
        seen.add(q.get_id())
        if z3.is_select(q):
            out.append(q)
        if z3.is_app(q):
            st.extend(q.children())
    return out


def zerocands(nm, x, v, d, t, arrs):
    """x = v + sum d(k), d >= 0:  x == v exactly when every d(k) is 0"""
    out = []
    kk = Int('k!s%d' % next(sym._cnt))
    pairs = [(a, v0) for (a, _, v0) in arrs]
    opts = []
    for q in selects(d):
        c = q.arg(0)
        if q.num_args() == 2 and coef(q.arg(1), t) == 1 and z3.is_const(c):
            i0 = subst(q.arg(1), [(t, IntVal(0))])
            opts.append((z3.simplify(kk - i0), i0, z3.Select(c, kk)))
    opts.append((kk, IntVal(0), None))
    for n, (inv, i0, pat) in enumerate(opts):
        dk = z3.simplify(subst(d, [(t, inv)]))
        ve = subst(dk, pairs)
        for q, e in (('zs', dk), ('zse', ve)):
            if q == 'zse' and ve.eq(dk):
                continue
            pt = [subst(pat, pairs) if q == 'zse' else pat] if pat is not None else []
            rg = And(i0 <= kk, kk < i0 + t)
            out.append(Cand('%s%s%d>' % (nm, q, n), Implies(x == v, z3.ForAll([kk], Implies(rg, e == 0), patterns=pt))))
            out.append(Cand('%s%s%d<' % (nm, q, n), Implies(x != v, Not(z3.ForAll([kk], Implies(rg, e == 0), patterns=pt)))))
    return out


def cvnone():
    return FALSE


def arity(x):
    s = x.sort()
    try:
        n = 0
        while True:
            s.domain_n(n)
            n += 1
    except Exception:
        return max(n, 1)


def ex_dry(ex):
    return getattr(ex, 'dry', False)


def movingreads(f, t):
    """array reads at a position that moves with t"""
    out, seen, work = [], set(), [f]
    while work:
        e = work.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_select(e) and any(depends(a, t) for a in e.children()[1:]) and not depends(e.arg(0), t):
            out.append(e)
        work.extend(e.children())
    return out


def depends(term, t):
    return any(c.eq(t) for c in consts(term))


def born_x(term, base, t):
    """loop-born constants other than t"""
    return any(stamp(c) >= base and not c.eq(t) for c in consts(term))


def coef(term, t):
    d = z3.simplify(subst(term, [(t, t + 1)]) - term, som=True)
    return num(d) if isnum(d) else None


def span(dd, t, base):
    """range of an index dimension over iterations 0..t-1 ; None = unrestricted"""
    if dd[0] == 'any':
        return None
    lo, hi = (dd[1], dd[1] + 1) if dd[0] == 'pt' else (dd[1], dd[2])
    if born_x(lo, base, t) or born_x(hi, base, t):
        return None
    cl, ch = coef(lo, t), coef(hi, t)
    if cl is None or ch is None:
        return None
    z, e = [(t, IntVal(0))], [(t, t - 1)]
    l = subst(lo, z) if cl >= 0 else subst(lo, e)
    u = subst(hi, e) if ch >= 0 else subst(hi, z)
    return z3.simplify(l), z3.simplify(u)


def hull(dd, t, T, loop):
    if dd[0] == 'any' or t is None:
        return dd if (dd[0] != 'any' and t is None) else ('any',)
    terms = dd[1:]
    if not any(depends(x, t) for x in terms):
        if any(stamp(c) >= loop.spst for x in terms for c in consts(x)):
            return ('any',)
        return dd
    if T is None:
        return ('any',)
    lo, hi = (dd[1], dd[1] + 1) if dd[0] == 'pt' else (dd[1], dd[2])
    cl, ch = coef(lo, t), coef(hi, t)
    if cl is None or ch is None:
        return ('any',)
    z, e = [(t, IntVal(0))], [(t, T - 1)]
    l = subst(lo, z) if cl >= 0 else subst(lo, e)
    u = subst(hi, e) if ch >= 0 else subst(hi, z)
    if any(stamp(c) >= loop.spst for x in (l, u) for c in consts(x)):
        return ('any',)
    return ('rg', z3.simplify(l), z3.simplify(u))


def mapcand(x, key, v, idx, val, t, base, ent, n):
    """A[idx(t)] = val(t)  =>  forall written k: A[k] = val(inverse k)"""
    nd = len(idx)
    dep = [d for d in range(nd) if depends(idx[d], t)]
    if any(born_x(i, base, t) for i in idx) or len(dep) != 1:
        return []
    d = dep[0]
    c = coef(idx[d], t)
    if c not in (1, -1):
        return []
    i0 = subst(idx[d], [(t, IntVal(0))])
    k = Int('k!m%d' % next(sym._cnt))
    inv = z3.simplify((k - i0) if c == 1 else (i0 - k))
    arrs = {a.get_id() for (a, _) in ent}
    for cc in consts(val):
        if stamp(cc) >= base and not cc.eq(t) and cc.get_id() not in arrs:
            return []
    ix = tuple(k if e == d else idx[e] for e in range(nd))
    sel = z3.Select(x, *ix)
    rng = And(i0 <= k, k < i0 + t) if c == 1 else And(i0 - t < k, k <= i0)
    out = []
    vk = subst(val, [(t, inv)])
    vs = z3.simplify(vk) if not z3.is_quantifier(vk) else vk
    ve = subst(vs, ent)
    out.append(Cand('map%d(%s)' % (n, keyname(key)), z3.ForAll([k], Implies(rng, sel == ve), patterns=[sel])))
    if not ve.eq(vs):
        out.append(Cand('map%dh(%s)' % (n, keyname(key)), z3.ForAll([k], Implies(rng, sel == vs), patterns=[sel])))
    return out


class HintCtx:
    def __init__(s, loop, head, entry, t, syms, cv, linear):
        s.loop, s.head, s.entry, s.t, s.syms, s.cv, s.linear = loop, head, entry, t, syms, cv, linear
        s.ex = loop.ex
        s.c = getattr(loop.ex, 'ctx', None)

    def fact(s, fs):
        """definitional instances about the loop-head state (valid whatever the state is)"""
        s.loop.headfacts.extend(fs)

    def ints(s, irregular=False):
        """distinct loop-varying int variables (irregular: not linear in the iteration number)"""
        seen, out = set(), []
        for key, v in list(s.head.env.items()):
            if v is None or not z3.is_expr(v) or not z3.is_int(v) or v.get_id() in seen:
                continue
            if not (depends(v, s.t) or any(v.eq(x) for (x, k, c, o) in s.syms)):
                continue
            seen.add(v.get_id())
            if irregular and not any(v.eq(x) for (x, k, c, o) in s.syms):
                continue
            out.append(v)
        return out

    def outer(s):
        """iteration counters of the enclosing loops, outermost first"""
        return [x for x in getattr(s.ex, 'tstack', ()) if x is not None]

    def envints(s, on=None):
        """int variables in scope (on: whose value depends on that counter)"""
        seen, out = set(), []
        for key, v in list(s.head.env.items()):
            if v is None or not z3.is_expr(v) or not z3.is_int(v) or z3.is_int_value(v) or v.get_id() in seen:
                continue
            if on is not None and not depends(v, on):
                continue
            seen.add(v.get_id())
            out.append(v)
        return out

    def idxs(s):
        """pointer positions that change irregularly"""
        return [x for (x, k, c, v) in s.syms if c is not None and c != 'null']

    def arrays(s, sort=None):
        """arrays modified in the loop: (current, at loop entry)"""
        return [(x, v) for (x, k, c, v) in s.syms if z3.is_array(x) and (sort is None or x.sort() == sort)]

    def reals(s):
        """loop-varying real local variables"""
        out = []
        for (x, k, c, v) in s.syms:
            if k[0] == 'env' and z3.is_real(x):
                out.append((keyname(k), x))
        return out

    def A(s, p, st=None):
        st = st or s.head
        key, ty = s.ex.akey(p)
        return s.ex.getleaf(st, key, ty, len(p.idx)).term()

    def A0(s, p):
        return s.A(p, s.entry)

    def v(s, p, st=None):
        st = st or s.head
        v = s.ex.getleaf(st, (p.space, p.path), p.ty, len(p.idx))
        if isinstance(v, Cont):
            v = v.read(p.idx)
        return v

    def written(s, p):
        """positions written in one iteration (None: not a single position)"""
        key = s.ex.akey(p)[0]
        return [dims[-1][1] if dims[-1][0] == 'pt' else None for (k, dims) in s.log if k == key]

    def modified(s, p):
        key = s.ex.akey(p)[0]
        return any(k == key for (x, k, c, v) in s.syms)


def run(ex, node, st, cond, inc, body):
    if not hasattr(ex, 'loopdrop'):
        ex.loopdrop = {}
    L = Loop(ex, node, st, cond, inc, body)
    L.spst = nextstamp()
    return L.run()

"""Contracts of the polar list decoder (polar_scl_inner.c): list cells, free stack, path tree, soft value buffers"""
from contracts import *
from theory import *
import theory as th
from k_list import POLAR, bind, permuted
from sym import mk_mul, INT
import itertools
from sym import FALSE, fresh, Space, Ptr
from front import T

DEP = z3.Function('DEP', AI, I, I)       # length of the path from a tree node to the root (0)
_P, _a, _b, _c = z3.Const('ax!P', AI), *z3.Ints('ax!q ax!i3 ax!v3')
axiom(DEP, ForAll([_P, _a], DEP(_P, _a) == If(And(_a > 0, 0 <= Sel(_P, _a), Sel(_P, _a) < _a), 1 + DEP(_P, Sel(_P, _a)), 0), patterns=[z3.MultiPattern(DEP(_P, _a), Sel(_P, _a))]), 'definition of DEP')
axiom(DEP, ForAll([_P, _b, _c, _a], Implies(_a < _b, DEP(z3.Store(_P, _b, _c), _a) == DEP(_P, _a)), patterns=[DEP(z3.Store(_P, _b, _c), _a)]), 'lemma dep_local')

SPB = z3.Function('SPB', AI, AI, I, I, I)   # bit at depth d on the path of node q
_X, _d = z3.Const('ax!X', AI), z3.Int('ax!dp')
axiom(SPB, ForAll([_P, _X, _a, _d], Implies(And(_a > 0, 0 <= Sel(_P, _a), Sel(_P, _a) < _a), SPB(_P, _X, _a, _d) == If(DEP(_P, _a) <= _d, Sel(_X, _a), SPB(_P, _X, Sel(_P, _a), _d))),
      patterns=[z3.MultiPattern(SPB(_P, _X, _a, _d), Sel(_P, _a))]), 'definition of SPB')

_n = itertools.count()


def G(c, name, *idx):
    return c.glob(name)


class V:
    """views of the decoder state"""
    pass


SPX = {}


def state(c):
    """bind the global pointers to their blocks (verification) and collect views"""
    ex = c.ex
    for g in ('node_table', 'slist', 'xlist', 'plist', 'parent', 'lind2xl', 'yitems', 'ylist', 'lorder', 'frind'):
        bind(c, g)
    if c.mode == 'verify':
        xl = c.gptr('xlist')
        X = xl.space
        ky = (ex.gspace('yitems'), ())
        if 'Y' not in ex.ptrsp:
            ex.ptrsp['Y'] = Space('Y', T('double'))
        Y = ex.ptrsp['Y']
        yi, yl, l2 = c.gptr('yitems'), c.gptr('ylist'), c.gptr('lind2xl')
        ex.ptrtgt.setdefault((yi.space, yi.path), (Y, (), yi.ty.to))
        ex.ptrtgt.setdefault((yl.space, yl.path), (Y, (), yl.ty.to))
        ex.ptrtgt.setdefault((l2.space, l2.path), (X, (), l2.ty.to))
        pf = c.field(xl, 'p')
        ex.ptrtgt.setdefault((pf.space, pf.path), (X, (), pf.ty.to))
        sp = ex.gspace('next_xle_ptr')
        if (sp, ()) not in ex.leaf0:
            ex.leaf0[(sp, ())] = Ptr(X, (), (fresh('next'),), sp.elt.to)
    s = V()
    s.cm = c.v(c.field(c.p(0), 'c_m'))
    for (k, g) in (('nt', 'node_table'), ('sl', 'slist'), ('pl', 'plist'), ('par', 'parent'), ('l2', 'lind2xl'), ('yi', 'yitems'), ('yl', 'ylist'), ('lo', 'lorder'), ('fr', 'frind')):
        setattr(s, k, c.gptr(g))
    xl = c.gptr('xlist')
    s.xx, s.xp = c.field(xl, 'x'), c.field(xl, 'p')
    t = ex.ptrtgt[(s.yl.space, s.yl.path)]
    s.Y = Ptr(t[0], t[1], (IntVal(0),), t[2])
    s.yf = c.glob('yfrindp')
    for g in ('cur_lsiz', 'frindp', 'node_counter', 'next_xle_ptr'):
        setattr(s, g, c.glob(g))
    return s


def row(cm, v):
    return mk_mul(v, cm)


def fa(ks, body, pats):
    return th.ForAll(ks, body, patterns=[z3.MultiPattern(*p) if isinstance(p, tuple) else p for p in pats])


def ints(n, nm='k'):
    q = next(_n)
    return [z3.Int('%s%d!pl%d' % (nm, i, q)) for i in range(n)]


def distinct(lo, fr, cur, F):
    """list cells and free cells are pairwise distinct"""
    i, j = ints(2)
    return [fa([i, j], Implies(And(0 <= i, i < j, j < cur), Sel(lo, i) != Sel(lo, j)), [(Sel(lo, i), Sel(lo, j))]),
            fa([i, j], Implies(And(cur <= i, i < j, j < F), Sel(fr, i) != Sel(fr, j)), [(Sel(fr, i), Sel(fr, j))]),
            fa([i, j], Implies(And(0 <= i, i < cur, cur <= j, j < F), Sel(lo, i) != Sel(fr, j)), [(Sel(lo, i), Sel(fr, j))])]


def inrange(A, lo, hi, F):
    return forall_int(lo, hi, lambda k: And(0 <= Sel(A, k), Sel(A, k) < F), pat=lambda k: Sel(A, k))


def cells(lo, cur, f):
    return forall_int(IntVal(0), cur, lambda k: f(Sel(lo, k)), pat=lambda k: Sel(lo, k))


def s_core(kind):
    def spec(c):
        ex = c.ex
        s = state(c)
        m = c.i(1) if kind == 'inner' else IntVal(0)
        n = pow2(m)
        cm = s.cm
        W, F, KT, NTN = c.ghost('LW', I), c.ghost('W', I), c.ghost('KT', I), c.ghost('NTN', I)
        cur, fp, nc = c.v(s.cur_lsiz), c.v(s.frindp), c.v(s.node_counter)
        nx = c.v(s.next_xle_ptr).idx[0]
        A = {k: c.A(getattr(s, k)) for k in ('nt', 'sl', 'pl', 'par', 'l2', 'yi', 'yl', 'lo', 'fr', 'xx', 'xp', 'yf')}
        base = lambda j: 4 * imul(pow2(j), W) - 4 * W
        yf0 = Sel(A['yf'], m)
        c.facts(pow2_step(m) + unfold_PK(m, m, A['nt'], nc) + unfold_PN(m, m) + [Implies(m >= 0, PN(m, m) == n), Implies(m >= 1, PN(m - 1, m - 1) == pow2(m - 1))])
        c.facts(lem_PK(m, m, A['nt'], nc) + lem_PK(m - 1, m - 1, A['nt'], nc) + lem_PK(m - 1, m - 1, A['nt'], nc + pow2(m - 1)) + [Implies(m >= 1, imul(n, W) == 2 * imul(pow2(m - 1), W)), pow2(0) == 1, imul(1, W) == W])
        c.facts(imul_mono(pow2(m), pow2(m - 1), cm, W) + imul_scale(W, pow2(m), pow2(m - 1)))
        c.facts([imul(pow2(m), W) == imul(W, pow2(m)), imul(F, cm) == 4 * imul(W, cm)])
        q0 = next(_n)
        if c.mode != 'verify':
            def nm(k):
                v = A[k]
                if z3.is_const(v):
                    return v
                x = z3.Const('%sc!%d' % (k, q0), v.sort())
                c.st.assume(x == v)
                return x
            for k in ('yl', 'lo', 'sl'):
                A[k] = nm(k)
        YA = c.A(s.Y)
        # sizes
        c.requires('level below the root', And(0 <= m, m < cm, cm <= 26, W >= 1, F == 4 * W, 4 * imul(pow2(cm), W) <= 2 ** 30, 4 * imul(cm, W) <= 2 ** 30, KT >= 0, 4 * imul(W, KT) <= 2 ** 30, NTN <= 2 ** 26))
        c.requires('list size', And(1 <= cur, cur <= W, fp == cur))
        c.requires('list and free cells exist', And(inrange(A['lo'], IntVal(0), cur, F), inrange(A['fr'], cur, F, F)))
        for q, f in enumerate(distinct(A['lo'], A['fr'], cur, F)):
            c.requires('list and free cells are distinct %d' % q, f)
        if kind == 'inner':
            c.requires('nodes left', And(0 <= nc, nc + n <= NTN, forall_int(IntVal(0), NTN, lambda k: And(0 <= Sel(A['nt'], k), Sel(A['nt'], k) <= W), pat=lambda k: Sel(A['nt'], k))))
        if kind == 'branch':
            peak = c.i(1)
            c.requires('peak list size', And(1 <= peak, peak <= W))
        # soft value buffers
        c.requires('buffers of the levels', forall_int(IntVal(0), cm, lambda j: Sel(A['yi'], j) == base(j), pat=lambda j: Sel(A['yi'], j)))
        c.requires('rows left', And(0 <= yf0, yf0 <= 3 * W, imul(n, yf0) >= 0, imul(n, yf0) <= 3 * imul(n, W)))
        if kind == 'inner':
            c.requires('lower levels unused', forall_int(IntVal(0), m, lambda j: Sel(A['yf'], j) == 0, pat=lambda j: Sel(A['yf'], j)))
        slot = lambda YL, v, lo, hi: And(base(m) + lo <= Sel(YL, row(cm, v) + m), Sel(YL, row(cm, v) + m) + n <= base(m) + hi)
        c.requires('soft values of the list elements', cells(A['lo'], cur, lambda v: slot(A['yl'], v, 0, imul(n, yf0))))

        def content(YY, YL, lo, cu, f):
            k, a = ints(2)
            q = Sel(YL, row(cm, Sel(lo, k)) + m)
            return fa([k, a], Implies(And(0 <= k, k < cu, q <= a, a < q + n), f(Sel(YY, a))), [(Sel(lo, k), Sel(YY, a))])
        soft = lambda v: And(-1 < v, v < 1)
        hard = lambda v: Or(v == 1, v == -1)
        c.requires('soft values are between -1 and 1', content(YA, A['yl'], A['lo'], cur, soft))
        # buffers of the higher levels: an arbitrary property of (level, position) holds before and after
        if c.mode == 'verify':
            R = z3.Function('higher_slot', I, I, B)
        else:
            q = next(_n)
            R = z3.Function('higher_slot!%d' % q, I, I, B)
            kk = z3.Function('origin!%d' % q, I, I, I)
            j, x = ints(2)
            YL0, LO0 = A['yl'], A['lo']
            c.st.assume(fa([j, x], Implies(R(j, x), And(0 <= kk(j, x), kk(j, x) < cur, x == Sel(YL0, imul(Sel(LO0, kk(j, x)), cm) + j))), [R(j, x)]))

        def higher(YL, lo, cu):
            k, a = ints(2)
            return fa([k, a], Implies(And(0 <= k, k < cu, row(cm, Sel(lo, k)) + m < a, a < row(cm, Sel(lo, k)) + cm), R(a - row(cm, Sel(lo, k)), Sel(YL, a))), [(Sel(lo, k), Sel(YL, a))])
        if c.mode == 'verify':
            c.requires('higher levels', higher(A['yl'], A['lo'], cur))
        # path tree
        D = c.ghost('D', I) if c.mode == 'verify' else DEP(A['xp'], Sel(A['l2'], Sel(A['lo'], 0)))
        dk = PK(m, m, A['nt'], nc) if kind == 'inner' else (IntVal(1) if kind == 'branch' else IntVal(0))
        used = lambda d: 4 * mk_mul(W, d) + 1
        c.requires('paths have equal length', And(0 <= D, D + dk <= KT, cells(A['lo'], cur, lambda v: And(DEP(A['xp'], Sel(A['l2'], v)) == D, 0 <= Sel(A['l2'], v), Sel(A['l2'], v) < nx))))
        c.requires('path nodes are bits', And(1 <= nx, nx <= used(D), forall_int(IntVal(0), nx, lambda q: And(0 <= Sel(A['xx'], q), Sel(A['xx'], q) <= 1), pat=lambda q: Sel(A['xx'], q))))
        c.requires('one permutation', cells(A['lo'], cur, lambda v: Sel(A['pl'], v) == 0))
        c.facts([imul(D, W) == imul(W, D), imul(KT, W) == imul(W, KT)])
        if kind == 'inner' and c.mode == 'verify':
            d1, d2 = PK(m - 1, m - 1, A['nt'], nc), PK(m - 1, m - 1, A['nt'], nc + pow2(m - 1))
            x, = ints(1)
            c.facts([imul(q_, W) == imul(W, q_) for q_ in (d1, d2, dk)] + imul_sum(W, KT, D, d1) + imul_sum(W, KT, D, dk) + imul_sum(W, KT, D, d1, d2))
            c.facts([Implies(dk == d1 + d2, imul(W, dk) == imul(W, d1) + imul(W, d2)), Implies(dk == 1, imul(W, dk) == W), Implies(dk == 0, imul(W, dk) == 0),
                     fa([x], And(Implies(x == D + d1, imul(W, x) == imul(W, D) + imul(W, d1)), Implies(x == D + dk, imul(W, x) == imul(W, D) + imul(W, dk))), [imul(W, x)])])
        # frame
        c.reads(s.yi, 0, cm)
        if kind == 'inner':
            c.reads(s.nt, 0, NTN)
            c.modifies(s.node_counter)
        if kind != 'skip':
            c.writes(s.lo, 0, F)
            c.writes(s.fr, 0, F)
            c.writes(s.pl, 0, F)
            c.writes(s.par, 0, F)
            c.writes(s.l2, 0, F)
            c.reads(s.xx, 0, used(KT))
            c.reads(s.xp, 0, used(KT))
            c.writes(s.xx, nx, used(KT))
            c.writes(s.xp, nx, used(KT))
            c.modifies(s.cur_lsiz)
            c.modifies(s.frindp)
            c.modifies(s.next_xle_ptr)
        else:
            c.reads(s.lo, 0, F)
        c.writes(s.sl, 0, F)
        c.writes(s.yl, 0, 4 * mk_mul(W, cm))
        c.noframe.add(ex.akey(s.yl)[0])
        c.writes(s.yf, 0, m + 1)
        c.reads(s.Y, base(m), base(m) + imul(n, yf0))
        c.writes(s.Y, 0, base(m))
        c.writes(s.Y, base(m) + imul(n, yf0), base(m) + 4 * imul(n, W))
        if kind == 'inner':
            c.decreases(m)
        # after
        P = lambda p, k: p.A(getattr(s, k))
        cur1 = lambda p: p.v(s.cur_lsiz)
        nx1 = lambda p: p.v(s.next_xle_ptr).idx[0]
        if kind != 'skip':
            c.ensures('list size stays within the limit', lambda p: And(1 <= cur1(p), cur1(p) <= W, p.v(s.frindp) == cur1(p)))
            c.ensures('list and free cells exist', lambda p: And(inrange(P(p, 'lo'), IntVal(0), cur1(p), F), inrange(P(p, 'fr'), cur1(p), F, F)))
            for q in range(3):
                c.ensures('list and free cells are distinct %d' % q, lambda p, q=q: distinct(P(p, 'lo'), P(p, 'fr'), cur1(p), F)[q])
            c.ensures('one permutation', lambda p: cells(P(p, 'lo'), cur1(p), lambda v: Sel(P(p, 'pl'), v) == 0))
        if kind == 'inner':
            c.ensures('nodes consumed', lambda p: p.v(s.node_counter) == nc + n)
            c.ensures('lower levels unused', lambda p: forall_int(IntVal(0), m, lambda j: Sel(P(p, 'yf'), j) == 0, pat=lambda j: Sel(P(p, 'yf'), j)))
        c.post_facts(lambda p: [Implies(Sel(P(p, 'yf'), m) == yf0 + cur1(p), imul(n, Sel(P(p, 'yf'), m)) == imul(n, yf0) + imul(n, cur1(p)))])
        c.ensures('rows used', lambda p: [Sel(P(p, 'yf'), m) == yf0 + cur1(p), imul(n, Sel(P(p, 'yf'), m)) == imul(n, yf0) + imul(n, cur1(p))])
        c.ensures('soft values of the list elements', lambda p: cells(P(p, 'lo'), cur1(p), lambda v: slot(P(p, 'yl'), v, imul(n, yf0), imul(n, yf0) + imul(n, cur1(p)))))
        c.ensures('decisions are +-1', lambda p: content(p.A(s.Y), P(p, 'yl'), P(p, 'lo'), cur1(p), hard))
        c.ensures('higher levels', lambda p: higher(P(p, 'yl'), P(p, 'lo'), cur1(p)))
        if kind != 'skip':
            c.ensures('paths have equal length', lambda p: cells(P(p, 'lo'), cur1(p), lambda v: And(DEP(P(p, 'xp'), Sel(P(p, 'l2'), v)) == D + dk, 0 <= Sel(P(p, 'l2'), v), Sel(P(p, 'l2'), v) < nx1(p))))
            c.ensures('path nodes are bits', lambda p: And(nx <= nx1(p), nx1(p) <= used(D + dk), forall_int(IntVal(0), nx1(p), lambda q: And(0 <= Sel(P(p, 'xx'), q), Sel(P(p, 'xx'), q) <= 1), pat=lambda q: Sel(P(p, 'xx'), q))))
        if c.mode == 'verify' and kind == 'branch':
            def bh(h):
                out = []
                t = h.t
                now = lambda k: h.A(getattr(s, k))
                mod = lambda k: h.modified(getattr(s, k))
                cu = h.v(s.cur_lsiz)
                lo = now('lo')
                cel = lambda lo_, hi_, f: forall_int(lo_, hi_, lambda k: f(Sel(lo, k), k), pat=lambda k: Sel(lo, k))
                if mod('par'):
                    nxh = h.v(s.next_xle_ptr).idx[0]
                    live = lambda f: [cel(IntVal(0), t, f), cel(cur, cur + t, f)]
                    L2, XP, XX, par = now('l2'), now('xp'), now('xx'), now('par')
                    done = lambda v, k: And(DEP(XP, Sel(L2, v)) == D + 1, 0 <= Sel(L2, v), Sel(L2, v) < nxh)
                    out.append(('old cells stay in the list', cel(IntVal(0), cur, lambda v, k: v == Sel(A['lo'], k))))
                    out.append(('free cells join the list', cel(cur, cur + t, lambda v, k: v == Sel(A['fr'], k))))
                    out += [('extended paths %d' % q, f) for q, f in enumerate(live(done))]
                    out.append(('paths to extend', cel(t, cur, lambda v, k: And(DEP(XP, Sel(L2, v)) == D, Sel(L2, v) == Sel(A['l2'], v)))))
                    out.append(('old cells have no parent', cel(IntVal(0), t, lambda v, k: Sel(par, v) == -1)))
                    out.append(('parents of new cells', cel(cur, cur + t, lambda v, k: Sel(par, v) == Sel(A['lo'], k - cur))))
                    out.append(('one permutation, old', cel(IntVal(0), cur, lambda v, k: Sel(now('pl'), v) == 0)))
                    out.append(('one permutation, new', cel(cur, cur + t, lambda v, k: Sel(now('pl'), v) == 0)))
                    out.append(('nodes are bits', forall_int(IntVal(0), nxh, lambda q: And(0 <= Sel(XX, q), Sel(XX, q) <= 1), pat=lambda q: Sel(XX, q))))
                if mod('fr'):
                    out.append(('dropped cells are free', forall_int(cu, 2 * cur, lambda k: Sel(now('fr'), k) == Sel(lo, k), pat=lambda k: Sel(now('fr'), k))))
                    out.append(('still at least the limit', And(cu >= peak, h.v(s.frindp) == cu)))
                if mod('yl'):
                    YL = now('yl')
                    out.append(('higher levels of processed cells', higher(YL, lo, t)))
                    out.append(('higher levels of old cells', higher(YL, A['lo'], cur)))
                return out
            c.hint(bh)
        if c.mode == 'verify' and kind == 'inner':
            def inv(st, what, pos, top):
                """state between the two halves: what[l] in soft/hard, pos[l] = (lo,hi) of the slot of level m, m-1"""
                g = lambda k: c._content(getattr(s, k), st)
                LO, FR, YL, YF, XP, XX, L2 = g('lo'), g('fr'), g('yl'), g('yf'), g('xp'), g('xx'), g('l2')
                YY = c._content(s.Y, st)
                cu, fpn, ncn, nxn = c._value(s.cur_lsiz, st), c._value(s.frindp, st), c._value(s.node_counter, st), c._value(s.next_xle_ptr, st).idx[0]
                y1 = Sel(YF, m - 1)
                hp = pow2(m - 1)
                out = [('level', m >= 1), ('list size', And(1 <= cu, cu <= W, fpn == cu)), ('cells', And(inrange(LO, IntVal(0), cu, F), inrange(FR, cu, F, F)))]
                out += [('distinct', f) for f in distinct(LO, FR, cu, F)]
                out += [('nodes', ncn == nc + (hp if not top else n)), ('lower levels', forall_int(IntVal(0), m - 1, lambda j: Sel(YF, j) == 0, pat=lambda j: Sel(YF, j))),
                        ('rows', And(Sel(YF, m) == yf0, 0 <= y1, y1 <= (4 if top else 2) * W, imul(hp, y1) >= 0, imul(hp, y1) <= (4 if top else 2) * imul(hp, W)))]
                for nm, l, b in (('m', m, n), ('m-1', m - 1, hp)):
                    bb = 4 * imul(pow2(m - 1), W) - 4 * W if nm == 'm-1' else base(m)
                    lo_, hi_ = pos[nm](hp, y1)
                    out.append(('slot ' + nm, cells(LO, cu, lambda v: And(lo_ <= Sel(YL, row(cm, v) + l), Sel(YL, row(cm, v) + l) + (hp if top else b) <= hi_))))
                    k, a = ints(2)
                    q = Sel(YL, row(cm, Sel(LO, k)) + l)
                    out.append(('content ' + nm, fa([k, a], Implies(And(0 <= k, k < cu, q <= a, a < q + (hp if top else b)), what[nm](Sel(YY, a))), [(Sel(LO, k), Sel(YY, a))])))
                d1 = PK(m - 1, m - 1, A['nt'], nc)
                DD = D + (dk if top else d1)
                out.append(('higher levels', higher(YL, LO, cu)))
                out.append(('paths', cells(LO, cu, lambda v: And(DEP(XP, Sel(L2, v)) == DD, 0 <= Sel(L2, v), Sel(L2, v) < nxn))))
                out.append(('nodes of paths', And(nx <= nxn, nxn <= used(DD), forall_int(IntVal(0), nxn, lambda q: And(0 <= Sel(XX, q), Sel(XX, q) <= 1), pat=lambda q: Sel(XX, q)))))
                out.append(('one permutation', cells(LO, cu, lambda v: Sel(g('pl'), v) == 0)))
                return out
            bm = lambda: 4 * imul(pow2(m - 1), W) - 4 * W
            first = lambda st: inv(st, {'m': soft, 'm-1': hard}, {'m': lambda hp, y1: (base(m), base(m) + imul(n, yf0)), 'm-1': lambda hp, y1: (bm(), bm() + imul(hp, y1))}, False)
            second = lambda st: inv(st, {'m': hard, 'm-1': hard}, {'m': lambda hp, y1: (bm(), base(m)), 'm-1': lambda hp, y1: (bm(), base(m))}, True)
            c.cuts = {'polar_dec_inner': lambda st: [first(st), second(st)]}
        if c.mode == 'verify':
            c.hint(lambda h: hints(h, kind, s, c, m, cm, W, F, base, soft, hard))
    return spec


def hints(h, kind, s, c, m, cm, W, F, base, soft, hard):
    out = []
    t = h.t
    ent = lambda k: h.A0(getattr(s, k))
    now = lambda k: h.A(getattr(s, k))
    mod = lambda k: h.modified(getattr(s, k))
    cur_e = h.v(s.cur_lsiz, h.entry)
    levels = []
    if mod('yf'):
        w = h.written(s.yf)
        levels = [(nm, lev) for nm, lev in (('m', m), ('m-1', m - 1)) if any(x is not None and z3.is_true(z3.simplify(x == lev)) for x in w)]
        for nm, lev in levels:
            e = Sel(ent('yf'), lev)
            out.append(('one row of level %s taken each time' % nm, now('yf') == z3.Store(ent('yf'), lev, e + t)))
            x = Sel(now('yf'), lev)
            h.fact([Implies(x == e + t, imul(pow2(lev), x) == imul(pow2(lev), e) + imul(pow2(lev), t))])
    if mod('yl'):
        lo, YL, YLe = now('lo'), now('yl'), ent('yl')
        for nm, lev in levels:
            e = Sel(ent('yf'), lev)
            out.append(('slot of level %s is the new row' % nm, forall_int(IntVal(0), t, lambda k: Sel(YL, row(cm, Sel(lo, k)) + lev) == base(lev) + imul(pow2(lev), e) + imul(pow2(lev), k), pat=lambda k: Sel(lo, k))))
        out.append(('slot m is the old slot m-1', forall_int(IntVal(0), t, lambda k: Sel(YL, row(cm, Sel(lo, k)) + m) == Sel(YLe, row(cm, Sel(lo, k)) + m - 1), pat=lambda k: Sel(lo, k))))
        k, a = ints(2)
        r = row(cm, Sel(lo, k))
        for nm, dlo in (('m', m), ('m+1', m + 1)):
            out.append(('levels from %s unchanged' % nm, fa([k, a], Implies(And(0 <= k, k < cur_e, r + dlo <= a, a < r + cm), Sel(YL, a) == Sel(YLe, a)), [(Sel(lo, k), Sel(YL, a))])))
        out.append(('unprocessed rows unchanged', fa([k, a], Implies(And(t <= k, k < cur_e, r <= a, a < r + cm), Sel(YL, a) == Sel(YLe, a)), [(Sel(lo, k), Sel(YL, a))])))
    if h.modified(s.Y):
        Y, Ye = h.A(s.Y), h.A0(s.Y)
        if mod('yf'):
            for nm, lev in levels:
                lo_ = base(lev) + imul(pow2(lev), Sel(ent('yf'), lev))
                hi_ = lo_ + imul(pow2(lev), t)
                k, = ints(1)
                out.append(('only the new rows of level %s change' % nm, fa([k], Implies(Or(k < lo_, k >= hi_), Sel(Y, k) == Sel(Ye, k)), [Sel(Y, k), Sel(Ye, k)])))
                for w, f in (('soft', soft), ('hard', hard)):
                    out.append(('new rows of level %s are %s values' % (nm, w), forall_int(lo_, hi_, lambda k: f(Sel(Y, k)), pat=lambda k: Sel(Y, k))))
        else:
            seen = []
            wr = h.written(s.Y)
            for key, q in list(h.head.env.items()):
                if isinstance(q, Ptr) and q.space is s.Y.space and not any(q.idx[0].eq(x) for x in seen) and any(x is not None and z3.is_true(z3.simplify(x == q.idx[0] + t, som=True)) for x in wr):
                    seen.append(q.idx[0])
                    for w, f in (('soft', soft), ('hard', hard)):
                        out.append(('values written at %s are %s' % (key[1], w), forall_int(q.idx[0], q.idx[0] + t, lambda k: f(Sel(Y, k)), pat=lambda k: Sel(Y, k))))
    return out


def s_vgetx(c):
    ex = c.ex
    bind(c, 'lind2xl')
    l2 = c.gptr('lind2xl')
    if c.mode == 'verify':
        t = l2.ty.to
        X = Space('xlist', t)
        ex.ptrtgt[(l2.space, l2.path)] = (X, (), t)
        ex.ptrtgt[(X, ('p',))] = (X, (), t)
    X, xpath, t = ex.ptrtgt[(l2.space, l2.path)]
    xl = Ptr(X, xpath, (IntVal(0),), t)
    xx, xp = c.field(xl, 'x'), c.field(xl, 'p')
    li, res, n = c.i(0), c.p(1), c.i(2)
    F = c.ghost('W', I)
    L2, P, XX, o = c.A(l2), c.A(xp), c.A(xx), c.off(res)
    q0 = Sel(L2, c.off(l2) + li)
    c.requires('a list element with a path of n steps', And(0 <= li, li < F, 0 <= n, n <= 2 ** 26, 0 <= q0, DEP(P, q0) == n))
    c.requires('path nodes are bits', forall_int(IntVal(0), q0 + 1, lambda q: And(0 <= Sel(XX, q), Sel(XX, q) <= 1), pat=lambda q: Sel(XX, q)))
    c.reads(l2, 0, F)
    c.reads(xx, 0, q0 + 1)
    c.reads(xp, 0, q0 + 1)
    c.writes(res, 0, n)
    spelled = lambda A, lo, hi: forall_int(lo, hi, lambda k: And(Sel(A, k) == SPB(P, XX, q0, k - o + 1), 0 <= Sel(A, k), Sel(A, k) <= 1), pat=lambda k: Sel(A, k))
    c.ensures('the bits along the path', lambda p: spelled(p.A(res), o, o + n))
    if c.mode == 'verify':
        def hint(h):
            out = []
            for x in h.idxs():
                out.append(('n-t steps left', And(DEP(P, x) == n - h.t, 0 <= x, x <= q0)))
                out.append(('a step leads to an earlier node', Implies(h.t < n, And(0 <= Sel(P, x), Sel(P, x) < x))))
                d, = ints(1)
                out.append(('rest of the path', fa([d], Implies(d <= n - h.t, SPB(P, XX, q0, d) == SPB(P, XX, x, d)), [SPB(P, XX, q0, d)])))
            out.append(('written bits', spelled(h.A(res), o + n - h.t, o + n)))
            return out
        c.hint(hint)


def membytes(n, k, m, W):
    """bytes of work memory: input, free stack and order, path nodes, path of a cell, soft value slots, buffers, metrics, permutation and parent, one word"""
    F = 4 * W
    return 8 * n + 4 * F + 4 * F + 16 * (4 * imul(W, k) + 1) + 8 * F + 32 * imul(m, W) + 8 * m + 32 * (imul(n, W) - W) + 8 * F + 4 * F + 4 * F + 4 * n


def s_membuf(c):
    dd = c.p(0)
    f = lambda nm: c.v(c.field(dd, nm))
    n, k, m, W, pn = f('c_n'), f('c_k'), f('c_m'), f('peak_lsiz'), f('p_num')
    c.requires('parameters of a polar code', And(1 <= m, m <= 26, 1 <= n, 0 <= k, W >= 1, pn == 1))
    c.requires('sizes fit an int', And(membytes(n, k, m, W) <= 2 ** 31 - 1, 4 * imul(k, W) >= 0, imul(n, W) >= W, imul(m, W) >= W))
    c.facts([imul(k, W) == imul(W, k), imul(m, W) == imul(W, m), imul(n, W) == imul(W, n)])
    c.ensures('the work memory the decoder needs', lambda p: p.res == membytes(n, k, m, W))


def s_pdecode(c):
    ex = c.ex
    dd, y, x = c.p(0), c.p(1), c.p(2)
    f = lambda nm: c.v(c.field(dd, nm))
    if c.mode == 'verify':
        sp = dd.space
        for nm in ('node_table', 'pxarr', 'pyarr'):
            t = c.field(dd, nm).ty.to
            ex.leaf0[(sp, (nm,))] = Ptr(Space(nm, t), (), (IntVal(0),), t, FALSE)
        mb = Space('mem_buf', None)
        mb.raw, mb.nbytes, mb.local = True, fresh('mem_buf_bytes'), True
        ex.rawsp = [mb]
        t = c.field(dd, 'mem_buf').ty.to
        ex.leaf0[(sp, ('mem_buf',))] = Ptr(mb, (), (IntVal(0),), t, FALSE)
    NT, px, py = f('node_table'), f('pxarr'), f('pyarr')
    n, k, m, L, ret, pn = f('c_n'), f('c_k'), f('c_m'), f('peak_lsiz'), f('ret_list'), f('p_num')
    W, F, KT, NTN = c.ghost('LW', I), c.ghost('W', I), c.ghost('KT', I), c.ghost('NTN', I)
    A = {'nt': c.A(NT)}
    xo = c.off(x)
    c.requires('parameters of a polar code', And(1 <= m, m <= 26, n == pow2(m), k == PK(m, m, A['nt'], 0), KT == k, NTN == n, pn == 1, L >= 1, W == L, F == 4 * W))
    c.requires('node table holds list sizes', forall_int(IntVal(0), n, lambda q: And(0 <= Sel(A['nt'], q), Sel(A['nt'], q) <= W), pat=lambda q: Sel(A['nt'], q)))
    c.requires('sizes fit an int', And(4 * imul(n, W) <= 2 ** 30, 4 * imul(m, W) <= 2 ** 30, 4 * imul(W, k) <= 2 ** 30, NTN <= 2 ** 26))
    c.requires('identity permutation', And(forall_int(IntVal(0), n, lambda q: Sel(c.A(py), q) == q, pat=lambda q: Sel(c.A(py), q)), forall_int(IntVal(0), k, lambda q: Sel(c.A(px), q) == q, pat=lambda q: Sel(c.A(px), q))))
    if c.mode == 'verify':
        c.requires('work memory is large enough', mb.nbytes >= membytes(n, k, m, W))
    else:
        c.writes(f('mem_buf'), 0, membytes(n, k, m, W))
    c.facts(pow2_step(m) + unfold_PK(m, m, A['nt'], IntVal(0)) + lem_PK(m, m, A['nt'], IntVal(0)) + lem_PK(m - 1, m - 1, A['nt'], IntVal(0)) + lem_PK(m - 1, m - 1, A['nt'], pow2(m - 1)))
    c.facts([PN(m - 1, m - 1) == pow2(m - 1), imul(n, W) == 2 * imul(pow2(m - 1), W), imul(n, W) == imul(pow2(m), W), pow2(0) == 1, imul(1, W) == W, imul(F, m) == 4 * imul(W, m), imul(m, W) == imul(W, m), imul(k, W) == imul(W, k), imul(m, F) == 4 * imul(m, W)])
    c.facts(imul_mono(pow2(m - 1), m, W, k) + imul_scale(W, pow2(m - 1)))
    d1, d2 = PK(m - 1, m - 1, A['nt'], 0), PK(m - 1, m - 1, A['nt'], pow2(m - 1))
    c.facts([Implies(k == d1 + d2, imul(W, k) == imul(W, d1) + imul(W, d2))])
    c.reads(NT, 0, n)
    c.reads(px, 0, k)
    c.reads(py, 0, n)
    c.reads(y, 0, n)
    c.writes(x, 0, If(ret != 0, imul(W, k), k))
    for g in ('node_table', 'frind', 'lorder', 'xlist', 'lind2xl', 'ylist', 'yitems', 'slist', 'plist', 'parent', 'xtmp', 'node_counter', 'cur_lsiz', 'frindp', 'next_xle_ptr'):
        if g in ex.u.globals:
            c.modifies(c.glob(g))
    if 'yfrindp' in ex.u.globals:
        c.writes(c.glob('yfrindp'), 0, 32)
    if c.mode == 'verify' and isinstance(c.args[3], Ptr):
        c.modifies(c.p(3))
    bits = lambda A_, lo, hi: forall_int(lo, hi, lambda q: And(0 <= Sel(A_, q), Sel(A_, q) <= 1), pat=lambda q: Sel(A_, q))
    nc = c.gcell('ncand')
    c.modifies(nc)
    if c.mode == 'verify':
        c.ghost_set(nc, lambda p: p.v(c.glob('cur_lsiz')))
        c.post_facts(lambda p: imul_mono(k) + [imul(k, p.v(c.glob('cur_lsiz'))) == imul(p.v(c.glob('cur_lsiz')), k), imul(0, k) == 0])
    c.ensures('number of candidates', lambda p: And(1 <= p.v(nc), p.v(nc) <= W))
    c.ensures('candidates are bits', lambda p: Implies(ret != 0, forall_int(IntVal(0), p.v(nc), lambda i: bits(p.A(x), xo + imul(i, k), xo + imul(i, k) + k), pat=lambda i: imul(i, k))))
    c.ensures('result is bits', lambda p: bits(p.A(x), xo, xo + k))
    soft = lambda v: And(-1 < v, v < 1)
    hard = lambda v: Or(v == 1, v == -1)
    base = lambda j: 4 * imul(pow2(j), W) - 4 * W
    if c.mode == 'verify':
        def hint(h):
            t = h.t
            out = []
            ld = lambda g: ex.getleaf(h.head, (ex.gspace(g), ()), ex.gspace(g).elt, 0)
            for xv in h.idxs():
                # start of the buffer of level t
                for (sym_, key, cc, v0) in h.syms:
                    if cc is not None and sym_.eq(xv):
                        out.append(('level buffers so far', xv == v0 + 32 * imul(pow2(t), W) - 32 * W))
            h.fact([Implies(t >= 0, imul(pow2(t + 1), W) == 2 * imul(pow2(t), W))])
            if h.modified(x):
                X1, X0 = h.A(x), h.A0(x)
                for key, q in list(h.head.env.items()):
                    if isinstance(q, Ptr) and q.space is x.space and key[1].split('.')[-1] in ('xp', 'x_dec') and h.written(x):
                        o_ = q.idx[0]
                        out.append(('bits copied to %s' % key[1], bits(X1, o_, o_ + t)))
                        out.append(('rest of the result unchanged %s' % key[1], fa([z3.Int('q!cp')], Implies(Or(z3.Int('q!cp') < o_, z3.Int('q!cp') >= o_ + t), Sel(X1, z3.Int('q!cp')) == Sel(X0, z3.Int('q!cp'))), [Sel(X1, z3.Int('q!cp'))])))
                h.fact([imul(t, k) == imul(k, t), imul(t + 1, k) == imul(k, t) + k])
                out.append(('complete candidates', bits(X1, xo, xo + imul(t, k))))
            g = {}
            for k_, nm in (('pl', 'plist'), ('par', 'parent'), ('l2', 'lind2xl'), ('yi', 'yitems'), ('yl', 'ylist'), ('lo', 'lorder'), ('fr', 'frind'), ('sl', 'slist')):
                g[k_] = ld(nm)
            if not all(isinstance(p_, Ptr) and p_.space is not None and getattr(p_.space, 'base', None) is not None for k_, p_ in g.items() if k_ in ('yi', 'yl', 'lo', 'l2')):
                return out
            bound = lambda p_: isinstance(p_, Ptr) and p_.space is not None and getattr(p_.space, 'base', None) is not None
            yi = g['yi']
            if h.modified(yi):
                out.append(('buffers of the levels', forall_int(IntVal(0), t, lambda j: Sel(h.A(yi), j) == base(j), pat=lambda j: Sel(h.A(yi), j))))
            for key, q in list(h.head.env.items()):
                if key[1] == 'y_in' and bound(q) and h.modified(q):
                    out.append(('soft values of the input', forall_int(IntVal(0), t, lambda k: soft(Sel(h.A(q), k)), pat=lambda k: Sel(h.A(q), k))))
            if not all(bound(p_) for p_ in g.values()):
                return out
            s = V()
            s.__dict__.update(g)
            T_ = ex.ptrtgt.get((g['yl'].space, g['yl'].path))
            if T_ is None:
                return out
            s.Y = Ptr(T_[0], T_[1], (IntVal(0),), T_[2])
            s.yf, s.cur_lsiz, s.next_xle_ptr, s.frindp = c.glob('yfrindp'), c.glob('cur_lsiz'), c.glob('next_xle_ptr'), c.glob('frindp')
            if h.modified(s.lo) and h.modified(s.yl):
                out.append(('cells of the root list', forall_int(IntVal(0), t, lambda k: And(Sel(h.A(s.lo), k) == k, Sel(h.A(s.l2), k) == 0, Sel(h.A(s.pl), k) == k), pat=lambda k: Sel(h.A(s.lo), k))))
            out += hints(h, 'root', s, c, m - 1, m, W, F, lambda j: 4 * imul(pow2(j), W) - 4 * W, soft, hard)
            return out
        c.hint(hint)


POLARD = dict(POLAR)
PMEM = {'get_membuf_size': Contract('get_membuf_size', s_membuf)}
POLARD['vgetx'] = Contract('vgetx', s_vgetx)
POLARD['polar_dec'] = Contract('polar_dec', s_pdecode)
POLARD['polar_dec'].scalars = (3,)
POLARD['polar_dec_inner'] = Contract('polar_dec_inner', s_core('inner'))
POLARD['polar0_skip'] = Contract('polar0_skip', s_core('skip'))
POLARD['polar0_branch'] = Contract('polar0_branch', s_core('branch'))

"""Iterative full-rate transform code_mm (dtrm_glp/dtrm_glp_inner.c)

  OF(S,M,d)   where the block of level d starts, when S holds the states of the levels (2: in the second half)
"""
from contracts import *
from theory import *
import sym
OF = z3.Function('OF', AI, I, I, I)


def half(M, d):
    return pow2(M - d - 1)


def of_def(M, d):
    """definition of OF at level d+1, for every state array"""
    th._q[0] += 1
    S = z3.Const('S!of%d' % th._q[0], AI)
    k = z3.simplify(d + 1)
    return [ForAll([S], Implies(And(0 <= d, d <= M), OF(S, M, k) == OF(S, M, d) + If(And(Sel(S, d) == 2, d < M), half(M, d), 0)), patterns=[OF(S, M, k)])]


S_, M_, d_, e_, j_, v_ = z3.Const('ax!S', AI), *z3.Ints('ax!M6 ax!d6 ax!e6 ax!j6 ax!v6')
axiom(OF, ForAll([S_, M_], OF(S_, M_, 0) == 0, patterns=[OF(S_, M_, 0)]), 'definition of OF on level 0')
axiom(OF, ForAll([S_, M_, d_, j_, v_], Implies(And(0 <= d_, d_ <= j_), OF(z3.Store(S_, j_, v_), M_, d_) == OF(S_, M_, d_)), patterns=[OF(z3.Store(S_, j_, v_), M_, d_)]), 'lemma OF_store')
axiom(OF, ForAll([S_, M_, d_], Implies(And(0 <= d_, d_ <= M_), And(0 <= OF(S_, M_, d_), OF(S_, M_, d_) + pow2(M_ - d_) <= pow2(M_))), patterns=[OF(S_, M_, d_)]), 'lemma OF_range')
axiom(OF, ForAll([S_, M_, d_, e_], Implies(And(0 <= e_, e_ < d_, d_ <= M_), And(OF(S_, M_, e_ + 1) <= OF(S_, M_, d_), OF(S_, M_, d_) + pow2(M_ - d_) <= OF(S_, M_, e_) + 2 * pow2(M_ - e_ - 1), OF(S_, M_, e_ + 1) == OF(S_, M_, e_) + If(Sel(S_, e_) == 2, pow2(M_ - e_ - 1), 0))),
      patterns=[z3.MultiPattern(OF(S_, M_, e_), OF(S_, M_, d_))]), 'lemma OF_nested')


def s_mm(c):
    n, x, y = c.i(0), c.p(1), c.p(2)
    M = c.ghost('M', I)
    c.requires('n = 2^M, M <= 29', And(0 <= M, M <= 29, n == pow2(M)))
    c.reads(x, 0, n)
    c.writes(y, 0, n)
    X, xo, yo = c.A(x), c.off(x), c.off(y)
    T = lambda m, o, k: TT(m, X, xo + o, k)
    if c.mode == 'verify':
        c.facts(pow2_step(M))

        def roles(h):
            Y = h.A(y)
            Ss = [a for a, _ in h.arrays(AI) if not a.eq(Y)]
            return Y, Ss

        def hint(h):
            out = []
            Y = h.A(y)
            if not h.outer():
                irr = h.ints(irregular=True)
                _, Ss = roles(h)
                for q, d in enumerate(irr):
                    h.fact(pow2_step(M - d) + pow2_step(M - d - 1) + pow2_step(M - d + 1) + of_def(M, d) + of_def(M, d - 1) + of_def(M, d + 1))
                    out.append(('level %d' % q, And(-1 <= d, d <= M)))
                    for r, v in enumerate(irr):
                        if r != q:
                            out.append(('length %d %d' % (r, q), v == pow2(M - d)))
                    for s, S in enumerate(Ss):
                        nm = '%d %d' % (q, s)
                        e, j = z3.Ints('e!h j!h')
                        p = OF(S, M, z3.simplify(d + 1))
                        h.fact(unfold_T(M - d, X, xo + OF(S, M, d)) + [p == p, OF(S, M, d) == OF(S, M, d)])
                        out.append(('states ' + nm, ForAll([e], Implies(And(0 <= e, e <= 31), And(Implies(e < d, Or(Sel(S, e) == 1, Sel(S, e) == 2)), Implies(Or(e > d, e >= M), Sel(S, e) == 0), 0 <= Sel(S, e), Sel(S, e) <= 2)), patterns=[Sel(S, e)])))
                        for w, u in enumerate(h.idxs()):
                            out.append(('position %d of ' % w + nm, u == xo + p))
                            out.append(('position %d in ' % w + nm, u == yo + p))
                        o = OF(S, M, e)
                        out.append(('first halves ' + nm, ForAll([e, j], Implies(And(0 <= e, e <= d, Sel(S, e) == 2, yo + o <= j, j < yo + o + half(M, e)), Sel(Y, j) == T(M - e - 1, o, j - yo - o)), patterns=[z3.MultiPattern(Sel(Y, j), OF(S, M, e))])))
                        out.append(('done block ' + nm, Implies(Or(d == -1, Sel(S, d) >= 1), ForAll([j], Implies(And(yo + p <= j, j < yo + p + half(M, d)), Sel(Y, j) == T(M - d - 1, p, j - yo - p)), patterns=[Sel(Y, j)]))))
            elif h.modified(y):
                Y0 = h.A0(y)
                for q, (nm, p) in enumerate([(k, v) for k, v in h.head.env.items() if isinstance(v, sym.Ptr) and v.space is y.space]):
                    b = p.idx[-1]
                    for w, u in enumerate(h.envints()):
                        out.append(('combined %d %d' % (q, w), forall_int(b, b + h.t, lambda k: Sel(Y, k) == bxor(Sel(Y0, k), Sel(Y0, k + u)), pat=lambda k: Sel(Y, k))))
                    k = z3.Int('k!h')
                    out.append(('elsewhere %d' % q, ForAll([k], Implies(Or(k < b, k >= b + h.t), Sel(Y, k) == Sel(Y0, k)), patterns=[Sel(Y, k)])))
            return out
        c.hint(hint)

        def measure(h, a=0, b=0):
            if h.outer() or len(h.ints(irregular=True)) <= a or len(roles(h)[1]) <= b:
                return None
            irr = h.ints(irregular=True)
            _, Ss = roles(h)
            d, S = irr[a], Ss[b]
            fin = Or(d == -1, Sel(S, d) >= 1)
            Q = OF(S, M, z3.simplify(d + 1)) + If(fin, half(M, d), 0)
            return 80 * (pow2(M) - Q) + If(fin, M + 4 + d, M - d)
        for a in (0, 1, 2):
            for b in (0, 1):
                c.measure(lambda h, a=a, b=b: measure(h, a, b))
    c.ensures('y is the (m,m) transform of x', lambda p: forall_int(IntVal(0), n, lambda i: Sel(p.A(y), yo + i) == TT(M, X, xo, i), pat=lambda i: TT(M, X, xo, i)))


MMT = {'code_mm': Contract('code_mm', s_mm)}

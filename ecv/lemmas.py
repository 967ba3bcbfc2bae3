"""Mathematical lemmas used by the contracts, each discharged by the solver on every run.

Inductive lemmas: the goal at (m, ...) is proved from the definition unfolded once and the
induction hypothesis at m-1 (instances listed).  Nothing here is assumed without proof.
"""
import z3
from z3 import And, Or, Not, Implies, If, IntVal, Int, Ints
from theory import *
import theory as th
from sym import Ob

m, r, no, xo, yo, a_, b_, c_ = Ints('m r no xo yo a b c')
N, X, Y, W, P, Q, G = [z3.Const(n, AI) for n in 'N X Y W P Q G'.split()]
ok = And(0 <= r, r <= m)
h, n = pow2(m - 1), pow2(m)
L = {}


def lem(name, facts, goal):
    L.setdefault(name, []).append((facts, goal))


def all1(lo, hi, f, pat):
    return forall_int(lo, hi, f, pat=pat)


r1 = If(r == m, r - 1, r)
p2 = pow2_step(m)
# imul is multiplication: the two facts used about it, proved with the built-in product
lem('imul_mono', [], Implies(And(0 <= m, m < r, xo >= 0), m * xo + xo <= r * xo))
for _k in (1, 2, 3, 4):
    lem('imul_scale', [], Implies(And(xo >= 0, m <= _k * r), xo * m <= _k * (xo * r)))
lem('imul_sum', [], Implies(And(xo >= 0, m + r <= yo), xo * m + xo * r <= xo * yo))
lem('imul_sum', [], Implies(And(xo >= 0, m + r + no <= yo), xo * m + xo * r + xo * no <= xo * yo))
lem('imul_dist', [], m * (xo + yo) == m * xo + m * yo)
# bounds
lem('K_bounds', unfold_K(m, r) + lemma_K(m - 1, r - 1) + lemma_K(m - 1, r) + p2, Implies(ok, And(K(m, r) >= 1, K(m, r) <= n)))
lem('K_full', unfold_K(m, m), Implies(m >= 0, K(m, m) == n))
lem('K_first', unfold_K(m, IntVal(1)) + unfold_K(m - 1, IntVal(0)) + p2 + [Implies(m - 1 >= 1, K(m - 1, 1) == m), pow2(1) == 2], Implies(m >= 1, K(m, 1) == m + 1))
lem('NN_bounds', unfold_NN(m, r) + lem_NN(m - 1, r - 1) + lem_NN(m - 1, r) + p2, Implies(ok, And(NN(m, r) >= 1, NN(m, r) <= n)))
lem('PN_bounds', unfold_PN(m, r) + lem_PN(m - 1, r - 1) + lem_PN(m - 1, r1) + p2, Implies(ok, And(PN(m, r) >= 1, PN(m, r) <= n)))
o1 = no + NN(m - 1, r - 1)
lem('SK_bounds', unfold_SK(m, r, N, no) + lem_SK(m - 1, r - 1, N, no) + lem_SK(m - 1, r, N, o1) + p2, Implies(ok, And(SK(m, r, N, no) >= 0, SK(m, r, N, no) <= n)))
o2 = no + PN(m - 1, r - 1)
lem('PK_bounds', unfold_PK(m, r, N, no) + lem_PK(m - 1, r - 1, N, no) + lem_PK(m - 1, r1, N, o2) + p2, Implies(ok, And(PK(m, r, N, no) >= 0, PK(m, r, N, no) <= n)))


def bits(F, lo, hi):
    return forall_int(lo, hi, lambda i: And(0 <= F(i), F(i) <= 1), pat=lambda i: F(i))


# transform: bits, locality, linearity, involution
tt = lambda mm, A, o: (lambda i: TT(mm, A, o, i))
lem('T_bits', unfold_T(m, X, xo) + p2 + [Implies(And(m >= 1, is_bits(X, o, o + h)), bits(tt(m - 1, X, o), IntVal(0), h)) for o in (xo, xo + h)] + [m >= 0, is_bits(X, xo, xo + n)],
    bits(tt(m, X, xo), IntVal(0), n))


def eqr(A, ao, B, bo, cnt):
    return forall_int(IntVal(0), cnt, lambda k: Sel(A, ao + k) == Sel(B, bo + k), pat=lambda k: Sel(A, ao + k))


def eqr2(A, ao, B, bo, cnt):
    """range equality stated on absolute indices of A (good trigger)"""
    return forall_int(ao, ao + cnt, lambda k: Sel(A, k) == Sel(B, k - ao + bo), pat=lambda k: Sel(A, k))


def tloc(mm, A, ao, B, bo):
    return Implies(And(mm >= 0, eqr2(A, ao, B, bo, pow2(mm))), forall_int(IntVal(0), pow2(mm), lambda i: TT(mm, A, ao, i) == TT(mm, B, bo, i), pat=lambda i: TT(mm, A, ao, i)))


lem('T_local', unfold_T(m, X, xo) + unfold_T(m, Y, yo) + p2 + [Implies(m >= 1, tloc(m - 1, Y, yo, X, xo)), Implies(m >= 1, tloc(m - 1, Y, yo + h, X, xo + h))],
    tloc(m, Y, yo, X, xo))


def tlin(mm, A, ao, B, bo, C, co):
    """A = B ^ C on 2^mm positions -> T(A) = T(B) ^ T(C)   (all bits)"""
    c = pow2(mm)
    return Implies(And(mm >= 0, is_bits(B, bo, bo + c), is_bits(C, co, co + c),
                       forall_int(ao, ao + c, lambda k: Sel(A, k) == bxor(Sel(B, k - ao + bo), Sel(C, k - ao + co)), pat=lambda k: Sel(A, k))),
                   forall_int(IntVal(0), c, lambda i: And(TT(mm, A, ao, i) == bxor(TT(mm, B, bo, i), TT(mm, C, co, i))), pat=lambda i: TT(mm, A, ao, i)))


def tbits(mm, A, ao):
    return Implies(And(mm >= 0, is_bits(A, ao, ao + pow2(mm))), bits(tt(mm, A, ao), IntVal(0), pow2(mm)))


po, qo = Ints('po qo')
lem('T_linear', unfold_T(m, Y, yo) + unfold_T(m, P, po) + unfold_T(m, Q, qo) + p2 +
    [tlin(m - 1, Y, yo, P, po, Q, qo), tlin(m - 1, Y, yo + h, P, po + h, Q, qo + h)] + [tbits(m - 1, A, o) for A, o in ((P, po), (P, po + h), (Q, qo), (Q, qo + h))],
    tlin(m, Y, yo, P, po, Q, qo))


def tinv(mm, A, ao, B, bo):
    """A = T(B) on the range -> T(A) = B"""
    c = pow2(mm)
    return Implies(And(mm >= 0, is_bits(B, bo, bo + c), forall_int(ao, ao + c, lambda k: Sel(A, k) == TT(mm, B, bo, k - ao), pat=lambda k: Sel(A, k))),
                   forall_int(IntVal(0), c, lambda i: TT(mm, A, ao, i) == Sel(B, bo + i), pat=lambda i: TT(mm, A, ao, i)))


i0 = Int('i0')
# P, Q are the arrays i -> T(X first half), i -> T(X second half)
defPQ = [ForAll([i0], Sel(P, i0) == TT(m - 1, X, xo, i0), patterns=[Sel(P, i0)]), ForAll([i0], Sel(Q, i0) == TT(m - 1, X, xo + h, i0), patterns=[Sel(Q, i0)])]
lem('T_involution', unfold_T(m, Y, yo) + unfold_T(m, X, xo) + p2 + defPQ +
    [tlin(m - 1, Y, yo, P, IntVal(0), Q, IntVal(0)), tinv(m - 1, P, IntVal(0), X, xo), tinv(m - 1, Q, IntVal(0), X, xo + h), tinv(m - 1, Y, yo + h, X, xo + h),
     tbits(m - 1, X, xo), tbits(m - 1, X, xo + h)],
    tinv(m, Y, yo, X, xo))


# bits of code words
def bitl(F, mm, X_, lo, k, okk):
    return lem_bits(F, mm, lo, X_, k, okk)


kv = K(m - 1, r - 1)
okb = lambda rr: And(0 <= rr, rr <= m - 1)
lem('E_bits', unfold_E(m, r, X, xo) + p2 + unfold_K(m, r) + lemma_K(m - 1, r - 1) + lemma_K(m - 1, r1) + lemma_K(m, r) + [Implies(m >= 1, K(m - 1, m - 1) == h)] +
    bitl(lambda i: E(m - 1, r - 1, X, xo, i), m - 1, X, xo, kv, okb(r - 1)) + bitl(lambda i: E(m - 1, r1, X, xo + kv, i), m - 1, X, xo + kv, K(m - 1, r1), okb(r1)),
    bitl(lambda i: E(m, r, X, xo, i), m, X, xo, K(m, r), ok)[0])
sk1 = SK(m - 1, r - 1, N, no)
lem('SE_bits', unfold_SE(m, r, N, no, X, xo) + p2 + unfold_SK(m, r, N, no) + lem_SK(m - 1, r - 1, N, no) + lem_SK(m - 1, r, N, o1) + [tbits(m, X, xo)] +
    bitl(lambda i: SE(m - 1, r - 1, N, no, X, xo, i), m - 1, X, xo, sk1, okb(r - 1)) + bitl(lambda i: SE(m - 1, r, N, o1, X, xo + sk1, i), m - 1, X, xo + sk1, SK(m - 1, r, N, o1), okb(r)),
    bitl(lambda i: SE(m, r, N, no, X, xo, i), m, X, xo, SK(m, r, N, no), ok)[0])
pk1 = PK(m - 1, r - 1, N, no)
lem('PE_bits', unfold_PE(m, r, N, no, X, xo) + p2 + unfold_PK(m, r, N, no) + lem_PK(m - 1, r - 1, N, no) + lem_PK(m - 1, r1, N, o2) +
    bitl(lambda i: PE(m - 1, r - 1, N, no, X, xo, i), m - 1, X, xo, pk1, okb(r - 1)) + bitl(lambda i: PE(m - 1, r1, N, o2, X, xo + pk1, i), m - 1, X, xo + pk1, PK(m - 1, r1, N, o2), okb(r1)),
    bitl(lambda i: PE(m, r, N, no, X, xo, i), m, X, xo, PK(m, r, N, no), ok)[0])

# K is the sum of binomials
Pas = lambda mm, i: Implies(And(mm >= 1, i >= 1), CB(mm, i) == CB(mm - 1, i - 1) + CB(mm - 1, i))
defCB = [ForAll([a_], Implies(a_ >= 0, CB(a_, 0) == 1), patterns=[CB(a_, 0)]), ForAll([b_], Implies(b_ >= 1, CB(0, b_) == 0), patterns=[CB(0, b_)])]
defSB = lambda mm, rr: [Implies(mm >= 0, SB(mm, 0) == 1), Implies(And(mm >= 0, rr >= 1), SB(mm, rr) == SB(mm, rr - 1) + CB(mm, rr))]
spas = lambda mm, rr: Implies(And(mm >= 1, rr >= 1), SB(mm, rr) == SB(mm - 1, rr - 1) + SB(mm - 1, rr))
lem('SB_pascal', defCB + [Pas(m, r)] + defSB(m, r) + defSB(m - 1, r) + defSB(m - 1, r - 1) + [Implies(r >= 2, spas(m, r - 1))], spas(m, r))
lem('CB_zero', defCB + [Pas(m, r), Implies(r - 1 > m - 1, CB(m - 1, r - 1) == 0), Implies(r > m - 1, CB(m - 1, r) == 0)], Implies(And(m >= 0, r > m, r >= 1), CB(m, r) == 0))
lem('SB_full', p2 + [spas(m, m), Implies(m >= 1, SB(m - 1, m - 1) == h)] + defSB(m - 1, m) + defSB(m, m) + [Implies(m >= 1, CB(m - 1, m) == 0)],
    Implies(m >= 0, SB(m, m) == n))
KB = lambda mm, rr: Implies(And(0 <= rr, rr <= mm), K(mm, rr) == SB(mm, rr))
lem('K_binomial', unfold_K(m, r) + defSB(m, r) + [spas(m, r), KB(m - 1, r - 1), KB(m - 1, r), Implies(m >= 0, SB(m, m) == n)], KB(m, r))


# all nodes selected: sub-code = full code
def allsel(N_, no_, cnt):
    return forall_int(no_, no_ + cnt, lambda k: Sel(N_, k) != 0, pat=lambda k: Sel(N_, k))


TE = lambda mm, A, o: Implies(mm >= 0, forall_int(IntVal(0), pow2(mm), lambda i: TT(mm, A, o, i) == E(mm, mm, A, o, i), pat=lambda i: E(mm, mm, A, o, i)))
lem('T_is_E', unfold_T(m, X, xo) + unfold_E(m, m, X, xo) + p2 + [Implies(m >= 1, K(m - 1, m - 1) == h), Implies(m >= 1, TE(m - 1, X, xo)), Implies(m >= 1, TE(m - 1, X, xo + h))], TE(m, X, xo))
FK = lambda mm, rr, o: Implies(And(0 <= rr, rr <= mm, allsel(N, o, NN(mm, rr))), SK(mm, rr, N, o) == K(mm, rr))
lem('SK_all', unfold_SK(m, r, N, no) + unfold_K(m, r) + unfold_NN(m, r) + lem_NN(m - 1, r - 1) + lem_NN(m - 1, r) + [FK(m - 1, r - 1, no), FK(m - 1, r, o1)], FK(m, r, no))
FE = lambda mm, rr, o, x_: Implies(And(0 <= rr, rr <= mm, allsel(N, o, NN(mm, rr))),
                                   forall_int(IntVal(0), pow2(mm), lambda i: SE(mm, rr, N, o, X, x_, i) == E(mm, rr, X, x_, i), pat=lambda i: SE(mm, rr, N, o, X, x_, i)))
lem('SE_all', unfold_SE(m, r, N, no, X, xo) + unfold_E(m, r, X, xo) + p2 + unfold_NN(m, r) + lem_NN(m - 1, r - 1) + lem_NN(m - 1, r) + [FK(m - 1, r - 1, no), TE(m, X, xo),
    FE(m - 1, r - 1, no, xo), FE(m - 1, r, o1, xo + kv), r1 == If(r == m, m - 1, r)], FE(m, r, no, xo))

def eloc(mm, rr, A, ao, B, bo):
    return Implies(And(0 <= rr, rr <= mm, eqr2(A, ao, B, bo, K(mm, rr))), forall_int(IntVal(0), pow2(mm), lambda i: E(mm, rr, A, ao, i) == E(mm, rr, B, bo, i), pat=lambda i: E(mm, rr, A, ao, i)))


lem('E_local', unfold_E(m, r, X, xo) + unfold_E(m, r, Y, yo) + unfold_K(m, r) + lemma_K(m - 1, r - 1) + lemma_K(m - 1, r1) + [Implies(m >= 1, K(m - 1, m - 1) == h)] + p2 +
    [Implies(r >= 1, eloc(m - 1, r - 1, Y, yo, X, xo)), Implies(r >= 1, eloc(m - 1, r1, Y, yo + kv, X, xo + kv))], eloc(m, r, Y, yo, X, xo))



def ploc(mm, rr, o, A, ao, B, bo):
    return Implies(And(0 <= rr, rr <= mm, eqr2(A, ao, B, bo, PK(mm, rr, N, o))), forall_int(IntVal(0), pow2(mm), lambda i: PE(mm, rr, N, o, A, ao, i) == PE(mm, rr, N, o, B, bo, i), pat=lambda i: PE(mm, rr, N, o, A, ao, i)))


lem('PE_local', unfold_PE(m, r, N, no, X, xo) + unfold_PE(m, r, N, no, Y, yo) + unfold_PK(m, r, N, no) + lem_PK(m - 1, r - 1, N, no) + lem_PK(m - 1, r1, N, o2) + p2 +
    [Implies(r >= 1, ploc(m - 1, r - 1, no, Y, yo, X, xo)), Implies(r >= 1, ploc(m - 1, r1, o2, Y, yo + pk1, X, xo + pk1))], ploc(m, r, no, Y, yo, X, xo))

# polar dimension = number of ones in the mask
lem('CN_split', step_CN(N, a_, c_) + step_CN(N, b_, c_) + [Implies(c_ - 1 >= b_, CN(N, a_, b_) + CN(N, b_, c_ - 1) == CN(N, a_, c_ - 1))],
    Implies(And(a_ <= b_, b_ <= c_), CN(N, a_, b_) + CN(N, b_, c_) == CN(N, a_, c_)))
PKC = lambda mm, o: Implies(And(mm >= 0, is_bits(N, o, o + pow2(mm))), And(PN(mm, mm) == pow2(mm), PK(mm, mm, N, o) == CN(N, o, o + pow2(mm))))
lem('PK_count', unfold_PK(m, m, N, no) + unfold_PN(m, m) + p2 + [Implies(m >= 1, PKC(m - 1, no)), Implies(m >= 1, PKC(m - 1, no + h)),
    Implies(m >= 1, CN(N, no, no + h) + CN(N, no + h, no + n) == CN(N, no, no + n))] + step_CN(N, no, no + 1) + [Implies(m >= 0, m == If(m == 0, 0, m))], PKC(m, no))

# CRC remainder bits are bits
rb = lambda i: forall_int(IntVal(0), c_, lambda k: And(0 <= RR(X, xo, G, yo, r, i, k), RR(X, xo, G, yo, r, i, k) <= 1), pat=lambda k: RR(X, xo, G, yo, r, i, k))
lem('RR_bits_0', unfold_RR(X, xo, G, yo, r, c_) + [is_bits(X, xo, xo + c_)], rb(IntVal(0)))
lem('RR_bits_step', step_RR(X, xo, G, yo, r, a_) + [is_bits(G, yo, yo + r), a_ >= 0, a_ + r < c_, rb(a_)], rb(a_ + 1))


# occurrences (proved for a copy of cnt/cpos that carries only their definitions)
cD, pD = Function('cnt.def', AI, I, I, I, I), Function('cpos.def', AI, I, I, I, I)
i1, x1, v1 = Ints('i1 x1 v1')
ren = lambda fs: [z3.substitute_funs(f, (cnt, cD(z3.Var(0, AI), z3.Var(1, I), z3.Var(2, I), z3.Var(3, I))), (cpos, pD(z3.Var(0, AI), z3.Var(1, I), z3.Var(2, I), z3.Var(3, I)))) for f in fs]
dC = lambda A, hi: ren(def_cnt(A, a_, hi, v1) + def_cpos(A, a_, hi, v1))
St = z3.Store(X, i1, x1)
cupd = lambda hi: Implies(And(a_ <= i1, i1 < hi), cD(St, a_, hi, v1) == cD(X, a_, hi, v1) - If(Sel(X, i1) == v1, 1, 0) + If(x1 == v1, 1, 0))
cloc = lambda A, B, hi: Implies(forall_int(a_, hi, lambda k: Sel(A, k) == Sel(B, k), pat=lambda k: Sel(A, k)), cD(A, a_, hi, v1) == cD(B, a_, hi, v1))
cpo = lambda hi: Implies(cD(X, a_, hi, v1) >= 1, And(a_ <= pD(X, a_, hi, v1), pD(X, a_, hi, v1) < hi, Sel(X, pD(X, a_, hi, v1)) == v1))
cin = lambda hi: And(cD(X, a_, hi, v1) >= 0, Implies(And(a_ <= i1, i1 < hi, Sel(X, i1) == v1), cD(X, a_, hi, v1) >= 1))
lem('cnt_local', dC(X, b_) + dC(Y, b_) + [Implies(b_ > a_, cloc(X, Y, b_ - 1))], cloc(X, Y, b_))
lem('cnt_update', dC(X, b_) + dC(St, b_) + [Implies(b_ > a_, cupd(b_ - 1)), cloc(St, X, b_ - 1)], cupd(b_))
lem('cnt_pos', dC(X, b_) + [Implies(b_ > a_, cpo(b_ - 1))], cpo(b_))
j1_, u1_ = Ints('j1 u1')
cdup = lambda hi: Implies(And(a_ <= i1, i1 < j1_, j1_ < hi, Sel(X, i1) == v1, Sel(X, j1_) == v1), cD(X, a_, hi, v1) >= 2)
cinr = lambda hi: And(cD(X, a_, hi, v1) >= 0, Implies(And(a_ <= i1, i1 < hi, Sel(X, i1) == v1), cD(X, a_, hi, v1) >= 1))
lem('cnt_dup', dC(X, b_) + [cinr(b_ - 1), Implies(b_ > a_, cdup(b_ - 1))], cdup(b_))
dstc = lambda hi: ForAll([j1_, u1_], Implies(And(a_ <= j1_, j1_ < u1_, u1_ < hi), Sel(X, j1_) != Sel(X, u1_)), patterns=[z3.MultiPattern(Sel(X, j1_), Sel(X, u1_))])
cdis = lambda hi: Implies(dstc(hi), cD(X, a_, hi, v1) <= 1)
lem('cnt_dist', dC(X, b_) + [cpo(b_ - 1), Implies(b_ > a_, cdis(b_ - 1))], cdis(b_))
lem('cnt_in', dC(X, b_) + [Implies(b_ > a_, cin(b_ - 1))], cin(b_))


# t*m/b >= t+1 when t >= b >= 1 and m >= b+1 (q stands for the quotient: q*b = t*m); ints as reals
t_, m_, b2_, q_ = z3.Reals('lt lm lb lq')
lem('estimate', [t_ >= b2_, b2_ >= 1, m_ >= b2_ + 1, t_ * m_ >= t_ * (b2_ + 1)], t_ * m_ >= (t_ + 1) * b2_)
lem('estimate', [t_ >= 1, m_ >= b2_ + 1, z3.Not(t_ * m_ >= t_ * (b2_ + 1))], z3.BoolVal(False))
lem('estimate', [b2_ >= 1, q_ * b2_ >= (t_ + 1) * b2_, z3.Not(q_ >= t_ + 1)], z3.BoolVal(False))


# path length in a parent array only depends on the entries below
DD_ = Function('DEP.def', AI, I, I)
dD = lambda A, q: DD_(A, q) == If(And(q > 0, 0 <= Sel(A, q), Sel(A, q) < q), 1 + DD_(A, Sel(A, q)), 0)
dl = lambda q: Implies(q < i1, DD_(St, q) == DD_(X, q))
lem('dep_local', [dD(X, a_), dD(St, a_), ForAll([b_], Implies(And(0 <= b_, b_ < a_), dl(b_)), patterns=[DD_(X, b_)])], dl(a_))


def obligations(names=None):
    out = []
    for nm, lst in L.items():
        if names is not None and nm not in names:
            continue
        for k, (facts, goal) in enumerate(lst):
            out.append(Ob('lemma ' + nm, 'lemma', nm, [f for f in facts], goal, 0))
    return out


if __name__ == '__main__':
    import solver, sys
    for o in obligations(sys.argv[1:] or None):
        okk = solver.discharge(o, 15000)
        print(o.name, okk, o.be if not okk else o.be, '%.2f' % o.time)

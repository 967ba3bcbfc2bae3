"""Lemmas behind the contract of the first-order decoder (k_rm1.py), by induction on the level / the summation index.
Free constants are universally quantified; a step lemma uses the induction hypothesis at the instances listed."""
import z3
from z3 import And, Or, Not, Implies, If, IntVal, Int, Ints, Real, Reals
from theory import *
import theory as th
from k_rm1 import *
from lemmas import lem, L, bits

M, l, p, j, b, c, xo, ao, zo = Ints('M l p j b c xo ao zo')
A = z3.Const('A', AR)
X, Z, Z2 = z3.Const('X', AI), z3.Const('Z', AI), z3.Const('Z2', AI)
h, n = pow2(M - l - 1), pow2(M - l)
lv = And(0 <= l, l < M)
p2s = [Implies(lv, n == 2 * h), Implies(M >= l, n >= 1)]

# ---- blocks (definition only)
BD = z3.Function('Blk.def', I, I, I, B)
d0 = lambda q: BD(M, 0, q) == (q == 0)
d1 = lambda ll, q: Implies(And(0 <= ll, ll < M), BD(M, ll + 1, q) == Or(BD(M, ll, q), BD(M, ll, q - pow2(M - ll - 1))))
rngB = lambda ll, q: Implies(And(0 <= ll, ll <= M, BD(M, ll, q)), And(0 <= q, q + pow2(M - ll) <= pow2(M)))
apart = lambda ll, q, q2: Implies(And(0 <= ll, ll <= M, BD(M, ll, q), BD(M, ll, q2), q < q2), q + pow2(M - ll) <= q2)
nxt = lambda ll, q: Implies(And(0 <= ll, ll <= M, BD(M, ll, q)), Or(q + pow2(M - ll) >= pow2(M), BD(M, ll, q + pow2(M - ll))))
pl1 = [pow2(M - (l + 1)) == h]
base = [l == 0, d0(b), d0(c), M >= 0]
par = lambda f, *q: [f(l, *x) for x in __import__('itertools').product(*[(y, y - h) for y in q])]
lem('Blk_range', base, rngB(l, b))
lem('Blk_range', p2s + pl1 + [lv, d1(l, b)] + par(rngB, b), rngB(l + 1, b))
lem('Blk_zero', [M >= 0, d0(IntVal(0))], BD(M, 0, 0))
lem('Blk_zero', [lv, d1(l, IntVal(0)), BD(M, l, 0)], BD(M, l + 1, 0))
lem('Blk_apart', base, apart(l, b, c))
lem('Blk_apart', p2s + pl1 + [lv, d1(l, b), d1(l, c)] + par(apart, b, c) + par(apart, c, b) + par(rngB, b) + par(rngB, c), apart(l + 1, b, c))
lem('Blk_next', base + [pow2(M - l) == pow2(M)], nxt(l, b))
lem('Blk_next', p2s + pl1 + [lv, d1(l, b), d1(l, b + h)] + par(nxt, b) + par(rngB, b) + [b - h + n == b + h], nxt(l + 1, b))
lem('Blk_split', [lv, BD(M, l, b), d1(l, b), d1(l, b + h), b + h - h == b], And(BD(M, l + 1, b), BD(M, l + 1, b + h)))
lem('Blk_split_only', p2s + [lv, BD(M, l, b), d1(l, c), b <= c, c < b + n, BD(M, l + 1, c)] + [apart(l, x, y) for x in (b, c, c - h) for y in (b, c, c - h)], Or(c == b, c == b + h))
# on level M every position is a block: walk with Blk_next
lem('Blk_last', [M >= 0, 0 <= b, b + 1 < pow2(M), BD(M, M, b), nxt(M, b), pow2(M - M) == 1], BD(M, M, b + 1))
lem('Blk_parent', [lv, BD(M, l + 1, b), d1(l, b)], Or(BD(M, l, b), BD(M, l, b - h)))

# ---- binary value (definition only)
FD = z3.Function('FJ.def', I, AI, I, I, I)
fd = lambda s, Zz, lo, hi: FD(s, Zz, lo, hi) == If(hi <= lo, s, 2 * FD(s, Zz, lo, hi - 1) + Sel(Zz, hi - 1))
s0, lo, hi, i1, v1 = Ints('s lo hi i1 v1')
St = z3.Store(Z, i1, v1)
fst = lambda hh: Implies(Or(i1 < lo, i1 >= hh), FD(s0, St, lo, hh) == FD(s0, Z, lo, hh))
lem('FJ_store', [fd(s0, Z, lo, hi), fd(s0, St, lo, hi), Implies(hi > lo, fst(hi - 1))], fst(hi))
ffr = lambda hh: Implies(lo < hh, FD(s0, Z, lo, hh) == FD(2 * s0 + Sel(Z, lo), Z, lo + 1, hh))
s2 = 2 * s0 + Sel(Z, lo)
lem('FJ_front', [fd(s0, Z, lo, hi), fd(s0, Z, lo, hi - 1), fd(s2, Z, lo + 1, hi), Implies(hi - 1 > lo, ffr(hi - 1))], ffr(hi))
k = Int('k')
bitsZ = [is_bits(Z, zo, zo + k), is_bits(Z2, zo, zo + k)]
finj = lambda kk: Implies(And(kk >= 0, FD(0, Z, zo, zo + kk) == FD(0, Z2, zo, zo + kk)), forall_int(zo, zo + kk, lambda i: Sel(Z, i) == Sel(Z2, i), pat=lambda i: Sel(Z, i)))
lem('FJ_inj', bitsZ + [fd(IntVal(0), Z, zo, zo + k), fd(IntVal(0), Z2, zo, zo + k), Implies(k > 0, finj(k - 1))], finj(k))
frng = lambda kk: Implies(kk >= 0, And(0 <= FD(0, Z, zo, zo + kk), FD(0, Z, zo, zo + kk) < pow2(kk)))
lem('FJ_range', bitsZ[:1] + [fd(IntVal(0), Z, zo, zo + k), Implies(k > 0, frng(k - 1)), Implies(k > 0, pow2(k) == 2 * pow2(k - 1))], frng(k))

# ---- path of an information word: BB(l) = start of its block on level l;  BB(M) is the binary value of Z[zo..zo+M)
BBf = z3.Function('BB', I, AI, I, I, I)
BB = lambda Zz, o, ll: BBf(M, Zz, o, ll)
defBB = lambda Zz, o: [BB(Zz, o, 0) == 0, Implies(lv, BB(Zz, o, l + 1) == BB(Zz, o, l) + If(Sel(Zz, o + l) == 0, 0, h))]
bitZ = Implies(lv, And(0 <= Sel(Z, zo + l), Sel(Z, zo + l) <= 1))
lem('BB_block', defBB(Z, zo) + blk(M, l, BB(Z, zo, l)) + [lv, Blk(M, l, BB(Z, zo, l))], Blk(M, l + 1, BB(Z, zo, l + 1)))
lem('BB_value', defBB(Z, zo) + [M >= 0, fd(IntVal(0), Z, zo, zo)], BB(Z, zo, 0) == FD(0, Z, zo, zo) * pow2(M))
f1 = FD(0, Z, zo, zo + l)
lem('BB_value', defBB(Z, zo) + p2s + [lv, bitZ, fd(IntVal(0), Z, zo, zo + l + 1), zo + l + 1 - 1 == zo + l, BB(Z, zo, l) == f1 * n], BB(Z, zo, l + 1) == FD(0, Z, zo, zo + l + 1) * h)

# ---- pure facts on the combination of two reliabilities (rmul, rdiv are product and quotient)
x, y, x2, y2, r, r2 = Reals('x y x2 y2 r r2')
clip = lambda q: If(q > CLIP, CLIP, If(q < -CLIP, -CLIP, q))
ab = lambda q: If(q >= 0, q, -q)
inr = lambda *q: [And(-1 < z, z < 1) for z in q]
cb = [r * (1 + x * y) == x + y, r2 * (1 + x2 * y2) == x2 + y2]
same = Or(And(x > 0, y > 0), And(x < 0, y < 0))
lem('addc_sign', inr(x, y) + cb[:1] + [same], And((clip(r) > 0) == (y > 0), clip(r) != 0, ab(clip(r)) < 1))
add_dom = lambda: Implies(And(*(inr(x, y) + [same, ab(x2) <= ab(x), ab(y2) <= ab(y)] + cb)), ab(r2) <= ab(r))
lem('addc_dom', [], add_dom())
lem('addc_dom', [ab(r2) <= ab(r)], ab(clip(r2)) <= ab(clip(r)))
lem("mul_dom", inr(x, y) + [ab(x2) <= ab(x), ab(y2) <= ab(y)], And(x2 * y2 <= ab(x * y), -ab(x * y) <= x2 * y2, ab(x * y) < 1, Implies(same, x * y > 0), Implies(Or(And(-x > 0, y > 0), And(-x < 0, y < 0)), x * y < 0)))

# ---- the sent word (X at xo) dominates every other block when all input signs are right
B_ = lambda ll: BBf(M, X, xo, ll)
Ec = lambda ll, jj: E(M - ll, If(M - ll >= 1, 1, 0), X, xo + ll, jj)
xb = Sel(X, xo + l)
bitx = And(0 <= xb, xb <= 1)
Vv = lambda ll, kk: VV(M, A, ao, ll, kk)
okS = lambda ll, jj: And(Or(Ec(ll, jj) == 0, Ec(ll, jj) == 1), If(Ec(ll, jj) == 0, Vv(ll, B_(ll) + jj) > 0, Vv(ll, B_(ll) + jj) < 0), ab(Vv(ll, B_(ll) + jj)) < 1)
dom = lambda ll, q, jj: ab(Vv(ll, q + jj)) <= ab(Vv(ll, B_(ll) + jj))
mm = M - l
uE = unfold_E(mm, IntVal(1), X, xo + l) + unfold_E(mm - 1, IntVal(0), X, xo + l) + unfold_K(mm - 1, IntVal(0)) + pow2_step(mm) + [pow2(mm - 1) == h, mm - 1 == M - (l + 1)]
jr = And(0 <= j, j < h)
lem('rm1_E', uE + p2s + [lv, jr], And(Ec(l, j) == bxor(xb, Ec(l + 1, j)), Ec(l, j + h) == Ec(l + 1, j)))
defE = lambda jj: [Ec(l, jj) == bxor(xb, Ec(l + 1, jj)), Ec(l, jj + h) == Ec(l + 1, jj)]
dBB = [B_(l + 1) == B_(l) + If(xb == 0, 0, h), bitx]
hyp = [lv, jr, Blk(M, l, p), Blk(M, l, B_(l)), okS(l, j), okS(l, j + h)] + dBB
bxe = [Or(Ec(l + 1, j) == 0, Ec(l + 1, j) == 1)]
vs = [Vv(l, q + d) for q in (p, B_(l)) for d in (j, j + h)]
dv = def_V(M, A, ao, l, p, j)[:1] + def_V(M, A, ao, l, B_(l), j)[:1]
lem('rm1_values', hyp + p2s + defE(j) + dv, And(okS(l + 1, j)))
lem('rm1_values', hyp + p2s + defE(j) + dv + [dom(l, p, j), dom(l, p, j + h)], And(dom(l + 1, p, j), dom(l + 1, p + h, j)))
Ts = lambda z, q, jj: TS(z, M, A, ao, l, q, jj)
tle = lambda q, jj: And(Ts(0, q, jj) <= Ts(xb, B_(l), jj), Ts(1, q, jj) <= Ts(xb, B_(l), jj))
tlt = lambda jj: Implies(jj >= 1, Ts(1 - xb, B_(l), jj) < Ts(xb, B_(l), jj))
dT = def_T(M, A, ao, l, p, j) + def_T(M, A, ao, l, B_(l), j)
lem('rm1_sums', dT + [bitx], And(tle(p, IntVal(0)), tlt(IntVal(0))))
md = mul_dom(Vv(l, B_(l) + j), Vv(l, B_(l) + j + h), Vv(l, p + j), Vv(l, p + j + h))
lem('rm1_sums', hyp + dT + defE(j) + md + [dom(l, p, j), dom(l, p, j + h), tle(p, j), tlt(j)], And(tle(p, j + 1), tlt(j + 1)))
Sm = lambda ll, q: SS(M, A, ao, ll, q)
slt = lambda ll, q: Implies(q != B_(ll), Sm(ll, q) < Sm(ll, B_(ll)))
lem('rm1_metrics', [lv, Blk(M, l, p), Blk(M, l, B_(l)), slt(l, p), h >= 1] + [tle(p, h), tlt(h)] + dBB + def_S(M, A, ao, l, p) + def_S(M, A, ao, l, B_(l)), And(slt(l + 1, p), slt(l + 1, p + h)))
# level 0 and the final choice
lem('rm1_start', [Blk(M, 0, p), M >= 0, B_(0) == 0], And(p == B_(0), slt(IntVal(0), p), dom(IntVal(0), p, j)))
wst = 2 * B_(M) + Sel(X, xo + M)
fE = unfold_E(M - M, IntVal(0), X, xo + M) + [Sel(X, xo + M) >= 0, Sel(X, xo + M) <= 1, pow2(M - M) == 1]
lem('rm1_final', fE + [M >= 0, slt(M, p), dom(M, p, IntVal(0)), okS(M, IntVal(0))] + def_M(M, A, ao, p) + def_M(M, A, ao, B_(M)) + [ab(Vv(M, p)) < 1],
    And(Implies(2 * p != wst, MM(M, A, ao, 2 * p) < MM(M, A, ao, wst)), Implies(2 * p + 1 != wst, MM(M, A, ao, 2 * p + 1) < MM(M, A, ao, wst))))

# ---- the metric of a word is its log-likelihood when no combined reliability is clipped
Ez = lambda ll, jj: E(M - ll, If(M - ll >= 1, 1, 0), Z, zo + ll, jj)
zb = Sel(Z, zo + l)
q, q1 = Ints('q q1')
lg1 = lambda v, e: If(e == 0, rlog(1 + v), rlog(1 - v))
ZLf = z3.Function('ZL', I, I, I, R)       # level, block, number of positions (M, A, ao, Z, zo fixed)
defZ = lambda ll, qq, jj: [ZLf(ll, qq, IntVal(0)) == 0, Implies(jj >= 0, ZLf(ll, qq, jj + 1) == ZLf(ll, qq, jj) + lg1(Vv(ll, qq + jj), Ez(ll, jj)))]
va, vc = Vv(l, q + j), Vv(l, q + j + h)
sg = If(zb == 0, RV(1), RV(-1))
ad = Vv(l + 1, q1 + j)
tau = If(Ez(l + 1, j) == 0, RV(1), RV(-1))
s_r, t_r, xr, yr, qr = Reals('s t xr yr qr')
pm = lambda z: Or(z == 1, z == -1)
lem('pair_likelihood', [pm(s_r), pm(t_r), qr * (1 + s_r * xr * yr) == s_r * xr + yr], (1 + s_r * xr * yr) * (1 + t_r * qr) == (1 + s_r * t_r * xr) * (1 + t_r * yr))
defEz = [Ez(l, j) == bxor(zb, Ez(l + 1, j)), Ez(l, j + h) == Ez(l + 1, j), Or(Ez(l + 1, j) == 0, Ez(l + 1, j) == 1), Or(zb == 0, zb == 1), q1 == q + If(zb == 0, 0, h)]
pr_ = mk_rmul(va, vc)
# log(uv) = log u + log v at the four factors (arguments positive), with the products equal by pair_likelihood
four = [rlog(1 + pr_) + rlog(1 + ad) == rlog(1 + va) + rlog(1 + vc)], [rlog(1 + pr_) + rlog(1 - ad) == rlog(1 - va) + rlog(1 - vc)], \
       [rlog(1 - pr_) + rlog(1 + ad) == rlog(1 - va) + rlog(1 + vc)], [rlog(1 - pr_) + rlog(1 - ad) == rlog(1 + va) + rlog(1 - vc)]
conds = [And(zb == 0, Ez(l + 1, j) == 0), And(zb == 0, Ez(l + 1, j) == 1), And(zb == 1, Ez(l + 1, j) == 0), And(zb == 1, Ez(l + 1, j) == 1)]
P1, P2, P3, P4, U, W = Reals('P1 P2 P3 P4 U W')
lem('log_pair', [P1 > 0, P2 > 0, P3 > 0, P4 > 0, U == W, rlog(U) == rlog(P1) + rlog(P2), rlog(W) == rlog(P3) + rlog(P4)], rlog(P1) + rlog(P2) == rlog(P3) + rlog(P4))
pair = [Implies(cc, f[0]) for cc, f in zip(conds, four)]
zz = If(zb == 0, IntVal(0), IntVal(1))
Tz = lambda jj: TS(zz, M, A, ao, l, q, jj)
stp = lambda jj: ZLf(l, q, jj) + ZLf(l, q, h + jj) - ZLf(l, q, h) == Tz(jj) + ZLf(l + 1, q1, jj)
dZ = defZ(l, q, j) + defZ(l, q, h + j) + defZ(l + 1, q1, j) + [q + (h + j) == q + j + h, h + j == j + h] + def_T(M, A, ao, l, q, j)
lem('rm1_likelihood', dZ + defEz[3:], stp(IntVal(0)))
lem('rm1_likelihood', dZ + defEz + pair + [lv, jr, stp(j)], stp(j + 1))
lem('rm1_likelihood', dZ + defEz[3:] + p2s + [lv, Blk(M, l, q), stp(h), h + h == n] + def_S(M, A, ao, l, q), Sm(l, q) + ZLf(l, q, n) == Sm(l + 1, q1) + ZLf(l + 1, q1, h))
lem('rm1_likelihood', defZ(M, q, IntVal(0)) + def_M(M, A, ao, q) + [M >= 0, Or(Sel(Z, zo + M) == 0, Sel(Z, zo + M) == 1), pow2(M - M) == 1] + unfold_E(M - M, IntVal(0), Z, zo + M),
    MM(M, A, ao, 2 * q + Sel(Z, zo + M)) == Sm(M, q) + ZLf(M, q, IntVal(1)))
dL = def_LLW(M, A, ao, Z, zo, j)
lem('rm1_likelihood', dL + defZ(0, IntVal(0), j) + [M >= 1, 0 <= j, j < pow2(M), LLW(M, A, ao, Z, zo, j) == ZLf(0, 0, j)] + def_V0(M, A, ao), LLW(M, A, ao, Z, zo, j + 1) == ZLf(0, 0, j + 1))


# the reliability (1-e)/(1+e) with e = exp(v) > 0 is in (-1,1) and positive exactly when v < 0 (e < 1)
e_r, q_r = z3.Reals('e!eps q!eps')
lem('eps_range', [e_r > 0, q_r * (1 + e_r) == 1 - e_r], And(-1 < q_r, q_r < 1, (q_r > 0) == (e_r < 1)))


# ---- code_mm: start of the block of a level (definition only), by induction over the level d
OFD = z3.Function('OF.def', AI, I, I, I)
Sm, Mm, dm, em, jm, vm = z3.Const('S!of', AI), *Ints('M!of d!of e!of j!of v!of')
ofd = lambda S, d: OFD(S, Mm, d) == If(d <= 0, 0, OFD(S, Mm, d - 1) + If(And(Sel(S, d - 1) == 2, d - 1 < Mm), pow2(Mm - d), 0))
Stm = z3.Store(Sm, jm, vm)
ofst = lambda d: Implies(And(0 <= d, d <= jm), OFD(Stm, Mm, d) == OFD(Sm, Mm, d))
lem('OF_store', [ofd(Sm, dm), ofd(Stm, dm), Implies(dm > 0, ofst(dm - 1))], ofst(dm))
ofrg = lambda d: Implies(And(0 <= d, d <= Mm), And(0 <= OFD(Sm, Mm, d), OFD(Sm, Mm, d) + pow2(Mm - d) <= pow2(Mm)))
of2 = [Implies(And(dm > 0, dm <= Mm), pow2(Mm - dm + 1) == 2 * pow2(Mm - dm)), Implies(dm <= Mm, pow2(Mm - dm) >= 1)]
lem('OF_range', [ofd(Sm, dm), Implies(dm > 0, ofrg(dm - 1))] + of2, ofrg(dm))
ofn = lambda d: Implies(And(0 <= em, em < d, d <= Mm), And(OFD(Sm, Mm, em + 1) <= OFD(Sm, Mm, d), OFD(Sm, Mm, d) + pow2(Mm - d) <= OFD(Sm, Mm, em) + 2 * pow2(Mm - em - 1), OFD(Sm, Mm, em + 1) == OFD(Sm, Mm, em) + If(Sel(Sm, em) == 2, pow2(Mm - em - 1), 0)))
lem('OF_nested', [ofd(Sm, dm), ofd(Sm, em + 1), Implies(dm - 1 > em, ofn(dm - 1))] + of2, ofn(dm))

"""First-order RM decoder rm1_dec_sh_finp (rm1_ml/rm1_ml.c), formats/format_eps5.h

Spec functions (M code order, A[ao..] the input reliabilities):
  VV(M,A,ao,l,k)    reliability at position k after l halving levels
  SS(M,A,ao,l,b)    accumulated log-likelihood of the block that starts at b on level l
  TS(x,M,A,ao,l,b,j) the first j terms of what information bit x adds for block b
  Blk(M,l,b)        b starts a block of length 2^(M-l)
  MM(M,A,ao,w)      final metric of the information word with binary value w
  FJ(s,Z,lo,hi)     s followed by the bits Z[lo..hi) as a binary number
"""
from contracts import *
from theory import *
import sym, k_srm
from k_dtrm import signs_ok
from sym import mk_rmul, mk_rdiv, mk_mul
RV = z3.RealVal
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
VV = z3.Function('VV', I, AR, I, I, I, R)
SS = z3.Function('SS', I, AR, I, I, I, R)
TS = z3.Function('TS', I, I, AR, I, I, I, I, R)
Blk = z3.Function('Blk', I, I, I, B)
MM = z3.Function('MM', I, AR, I, I, R)
FJ = z3.Function('FJ', I, AI, I, I, I)
addc = z3.Function('addc', R, R, R)
import fractions
CLIP = RV(fractions.Fraction(1.0 - 1e-8))   # CLIP_T of formats/format_eps5.h


def def_addc(x, y):
    q = mk_rdiv(x + y, RV(1) + mk_rmul(x, y))
    return [addc(x, y) == If(q > CLIP, CLIP, If(q < -CLIP, -CLIP, q))]


def def_V(M, A, ao, l, b, j):
    """block b of level l splits into b and b+h on level l+1 (position j of each)"""
    h = pow2(M - l - 1)
    x, y = VV(M, A, ao, l, b + j), VV(M, A, ao, l, b + j + h)
    g = And(Blk(M, l, b), 0 <= l, l < M, 0 <= j, j < h)
    return [Implies(g, And(VV(M, A, ao, l + 1, b + j) == addc(x, y), VV(M, A, ao, l + 1, b + j + h) == addc(-x, y)))] + def_addc(x, y) + def_addc(-x, y)


def def_T(M, A, ao, l, b, j):
    h = pow2(M - l - 1)
    x, y = VV(M, A, ao, l, b + j), VV(M, A, ao, l, b + j + h)
    p = mk_rmul(x, y)
    t = lambda q, jj: TS(IntVal(q), M, A, ao, l, b, jj)
    return [t(0, IntVal(0)) == 0, t(1, IntVal(0)) == 0, Implies(j >= 0, And(t(0, j + 1) == t(0, j) + rlog(1 + p), t(1, j + 1) == t(1, j) + rlog(1 - p)))]


def def_S(M, A, ao, l, b):
    h = pow2(M - l - 1)
    return [SS(M, A, ao, 0, 0) == 0, Implies(And(Blk(M, l, b), 0 <= l, l < M), And(
        SS(M, A, ao, l + 1, b) == SS(M, A, ao, l, b) + TS(IntVal(0), M, A, ao, l, b, h),
        SS(M, A, ao, l + 1, b + h) == SS(M, A, ao, l, b) + TS(IntVal(1), M, A, ao, l, b, h)))]


def def_M(M, A, ao, i):
    return [MM(M, A, ao, 2 * i) == SS(M, A, ao, M, i) + rlog(1 + VV(M, A, ao, M, i)), MM(M, A, ao, 2 * i + 1) == SS(M, A, ao, M, i) + rlog(1 - VV(M, A, ao, M, i))]


def def_V0(M, A, ao):
    """level 0: the input"""
    return [forall_int(IntVal(0), pow2(M), lambda k: VV(M, A, ao, 0, k) == Sel(A, ao + k), pat=lambda k: VV(M, A, ao, 0, k))]


# lemmas addc_sign, addc_dom
u_, w_, u2_, w2_ = z3.Reals('ax!u1 ax!w1 ax!u2 ax!w2')
ab = lambda q: If(q >= 0, q, -q)
same = lambda u, w: Or(And(u > 0, w > 0), And(u < 0, w < 0))
unit = lambda *q: And(*[And(-1 < z, z < 1) for z in q])
axiom(addc, ForAll([u_, w_], And(-1 < addc(u_, w_), addc(u_, w_) < 1, Implies(And(unit(u_, w_), same(u_, w_)), And(addc(u_, w_) != 0, (addc(u_, w_) > 0) == (w_ > 0)))), patterns=[addc(u_, w_)]), 'lemma addc_sign')
axiom(addc, ForAll([u_, w_, u2_, w2_], Implies(And(unit(u_, w_), same(u_, w_), ab(u2_) <= ab(u_), ab(w2_) <= ab(w_)), ab(addc(u2_, w2_)) <= ab(addc(u_, w_))),
      patterns=[z3.MultiPattern(addc(u_, w_), addc(u2_, w2_))]), 'lemma addc_dom')


def mul_dom(x, y, x2, y2):
    """lemma mul_dom"""
    a, b = mk_rmul(x, y), mk_rmul(x2, y2)
    return [Implies(And(unit(x, y), ab(x2) <= ab(x), ab(y2) <= ab(y)), And(b <= ab(a), -ab(a) <= b, ab(a) < 1, Implies(same(x, y), a > 0), Implies(same(-x, y), a < 0)))]


# lemmas Blk_* (lemmas.py)
M_, l_, b_, c_ = z3.Ints('ax!M ax!l ax!b ax!c3')
n_ = pow2(M_ - l_)
axiom(Blk, ForAll([M_, b_], Implies(M_ >= 0, Blk(M_, 0, b_) == (b_ == 0)), patterns=[Blk(M_, 0, b_)]), 'definition of Blk on level 0')
axiom(Blk, ForAll([M_, l_], Implies(And(0 <= l_, l_ <= M_), Blk(M_, l_, 0)), patterns=[Blk(M_, l_, 0)]), 'lemma Blk_zero')
axiom(Blk, ForAll([M_, l_, b_], Implies(And(0 <= l_, l_ <= M_, Blk(M_, l_, b_)), And(0 <= b_, b_ + n_ <= pow2(M_))), patterns=[Blk(M_, l_, b_)]), 'lemma Blk_range')
axiom(Blk, ForAll([M_, l_, b_, c_], Implies(And(0 <= l_, l_ <= M_, Blk(M_, l_, b_), Blk(M_, l_, c_), b_ < c_), b_ + n_ <= c_), patterns=[z3.MultiPattern(Blk(M_, l_, b_), Blk(M_, l_, c_))]), 'lemma Blk_apart')


def blk(M, l, b):
    """lemmas Blk_next, Blk_split, Blk_split_only at one block"""
    h, n = pow2(M - l - 1), pow2(M - l)
    _q = th._q
    _q[0] += 1
    c = z3.Int('c!blk%d' % _q[0])
    g = And(0 <= l, l <= M, Blk(M, l, b))
    return [Implies(g, Or(b + n >= pow2(M), Blk(M, l, b + n))), Implies(And(g, l < M), And(n == 2 * h, Blk(M, l + 1, b), Blk(M, l + 1, b + h))),
            ForAll([c], Implies(And(g, l < M, Blk(M, l + 1, c), b <= c, c < b + n), Or(c == b, c == b + h)), patterns=[Blk(M, l + 1, c)])]


def blk_top(M):
    """lemma Blk_last: on level M every position is a block"""
    _q = th._q
    _q[0] += 1
    c = z3.Int('c!blk%d' % _q[0])
    return [ForAll([c], Implies(And(0 <= c, c < pow2(M), M >= 0), Blk(M, M, c)), patterns=[Blk(M, M, c)])]


# FJ: definition at the empty range, lemma FJ_front (one step at the front), lemma FJ_store
s_, lo_, hi_, i_, v_ = z3.Ints('ax!s ax!lo5 ax!hi5 ax!i5 ax!v5')
Z_ = z3.Const('ax!Z', AI)
axiom(FJ, ForAll([s_, Z_, lo_, hi_], Implies(lo_ >= hi_, FJ(s_, Z_, lo_, hi_) == s_), patterns=[FJ(s_, Z_, lo_, hi_)]), 'definition of FJ on the empty range')
axiom(FJ, ForAll([s_, Z_, lo_, hi_, i_, v_], Implies(Or(i_ < lo_, i_ >= hi_), FJ(s_, z3.Store(Z_, i_, v_), lo_, hi_) == FJ(s_, Z_, lo_, hi_)), patterns=[FJ(s_, z3.Store(Z_, i_, v_), lo_, hi_)]), 'lemma FJ_store')


def fj_front(lo, hi):
    _q = th._q
    _q[0] += 1
    s, Z = z3.Int('s!fj%d' % _q[0]), z3.Const('Z!fj%d' % _q[0], AI)
    lo = z3.simplify(lo)
    return [ForAll([s, Z], Implies(lo < hi, FJ(s, Z, lo, hi) == FJ(2 * s + Sel(Z, lo), Z, lo + 1, hi)), patterns=[FJ(s, Z, lo, hi)])]


LLW = z3.Function('LLW', I, AR, I, AI, I, I, R)       # log-likelihood of the first j symbols of the code word of Z (RM(1,M)) given A
noclip = z3.Function('noclip', I, AR, I, B)           # no combined reliability reaches the clipping level on this input


def def_LLW(M, A, ao, Z, zo, j):
    a = Sel(A, ao + j)
    return [LLW(M, A, ao, Z, zo, IntVal(0)) == 0, Implies(And(M >= 1, j >= 0), LLW(M, A, ao, Z, zo, j + 1) == LLW(M, A, ao, Z, zo, j) + If(E(M, 1, Z, zo, j) == 0, rlog(1 + a), rlog(1 - a)))]


def fj(Z, zo, m):
    return FJ(IntVal(0), Z, zo, zo + m + 1)


def lem_dom(m, A, ao, X, xo, hyp):
    """lemmas rm1_*: the sent word has the strictly largest metric when every input sign is right"""
    w = z3.Int('w!dom')
    ws = fj(X, xo, m)
    return [Implies(And(m >= 1, hyp), And(0 <= ws, ws < 2 * pow2(m), ForAll([w], Implies(And(0 <= w, w < 2 * pow2(m), w != ws), MM(m, A, ao, w) < MM(m, A, ao, ws)), patterns=[MM(m, A, ao, w)])))]


def lem_inj(m, Z, X, xo):
    """lemma FJ_inj"""
    return [Implies(And(is_bits(Z, xo, xo + m + 1), is_bits(X, xo, xo + m + 1), fj(Z, xo, m) == fj(X, xo, m)), forall_int(xo, xo + m + 1, lambda i: Sel(Z, i) == Sel(X, i), pat=lambda i: Sel(Z, i)))]


def lem_likely(m, A, ao, Z, zo):
    """lemmas rm1_likelihood, FJ_range"""
    return [Implies(And(m >= 1, noclip(m, A, ao), is_bits(Z, zo, zo + m + 1)), And(0 <= fj(Z, zo, m), fj(Z, zo, m) < 2 * pow2(m), MM(m, A, ao, fj(Z, zo, m)) == LLW(m, A, ao, Z, zo, pow2(m))))]


def eps_of(v):
    """reliability of a symbol from its log-likelihood ratio"""
    return mk_rdiv(RV(1) - rexp(v), RV(1) + rexp(v))


def s_rm1(c, conv=False):
    m, y, x = c.i(0), c.p(1), c.p(2)
    c.requires('0 <= m <= 26', And(0 <= m, m <= 26))
    n = pow2(m)
    A, ao, xo = c.A(y), c.off(y), c.off(x)
    c.reads(y, 0, n)
    c.writes(x, 0, m + 1)
    W = 2 * n
    YA, yo = A, ao
    if conv:
        A, ao = z3.Const('eps!%s' % c.variant, AR), IntVal(0)
        k = z3.Int('k!conv')   # definition of eps, lemma eps_range
        q = eps_of(Sel(YA, yo + k))
        c.facts([ForAll([k], Implies(And(0 <= k, k < n), And(Sel(A, k) == q, -1 < q, q < 1, (q > 0) == (Sel(YA, yo + k) < 0))), patterns=[Sel(YA, yo + k), Sel(A, k)])])
    else:
      c.requires('reliabilities are in (-1,1)', forall_int(ao, ao + n, lambda k: And(Sel(A, k) > -1, Sel(A, k) < 1), pat=lambda k: Sel(A, k)))
    rng1 = lambda Y, lo, hi: forall_int(lo, hi, lambda k: And(Sel(Y, k) > -1, Sel(Y, k) < 1), pat=lambda k: Sel(Y, k))
    if c.mode == 'verify':
        c.facts([n <= 2 ** 26, mk_mul(n, m) <= 26 * 2 ** 26, mk_mul(n, m) >= 0])   # products of bounded numbers
        c.facts(def_V0(m, A, ao) + blk_top(m) + def_S(m, A, ao, IntVal(0), IntVal(0)) + pow2_step(m))

        def level(h, Yo, Y, S, l, done, P=''):
            """arrays hold level l from position `done` on and level l+1 before it"""
            o0, o1 = mk_mul(n, l), mk_mul(n, l) + n
            return []

        def hint(h):
            out = []
            o = h.outer()
            arrs = h.arrays(AR)
            if conv and not o:
                for a, (Y, Y0) in enumerate(arrs):
                    out.append(('converted %d' % a, forall_int(IntVal(0), h.t, lambda k: Sel(Y, k) == VV(m, A, ao, 0, k), pat=lambda k: Sel(Y, k))))
                h.fact([Sel(A, h.t) == Sel(A, h.t)])
            irr = h.ints(irregular=True)
            if not o:
                l = h.t
                nl = pow2(m - l)
                h.fact(pow2_step(m - l))
                lo = mk_mul(n, l)
                h.fact([Implies(And(l >= 0, l + 1 <= m), mk_mul(n, l) + n <= mk_mul(n, m)), Implies(l >= 0, mk_mul(n, l) >= 0)])
                for a, v in enumerate(irr):
                    out.append(('block length %d' % a, v == nl))
                for a, v in enumerate(h.idxs()):
                    out.append(('level start %d' % a, v == lo))
                for a, (Y, Y0) in enumerate(arrs):
                    out.append(('level values %d' % a, forall_int(lo, lo + n, lambda k: Sel(Y, k) == VV(m, A, ao, l, k - lo), pat=lambda k: Sel(Y, k))))
                    out.append(('level range %d' % a, rng1(Y, lo, lo + n)))
                    b = z3.Int('b!h')
                    out.append(('block metrics %d' % a, z3.ForAll([b], Implies(Blk(m, l, b), Sel(Y, b) == SS(m, A, ao, l, b)), patterns=[Sel(Y, b)])))
                # choice of the best word
                h.fact(def_M(m, A, ao, h.t) + def_M(m, A, ao, IntVal(0)))
                for a, (nm, r) in enumerate(h.reals()):
                    out.append(('best so far %s' % nm, forall_int(IntVal(0), 2 * h.t, lambda w: MM(m, A, ao, w) <= r, pat=lambda w: MM(m, A, ao, w))))
                    for q, v in enumerate(irr):
                        out.append(('best word %s %d' % (nm, q), And(0 <= v, v < W, r == MM(m, A, ao, v))))
                # unpacking
                A1 = h.A(x)
                if h.modified(x):
                    i = xo + m - h.t
                    h.fact(fj_front(i, xo + m + 1))
                    for q, v in enumerate(irr):
                        v0 = [e for (s, k, cc, e) in h.syms if s.eq(v)][0]
                        out.append(('digits left %d' % q, And(0 <= v, Implies(h.t <= m + 1, v < If(h.t <= m, pow2(m - h.t + 1), 1)))))
                        out.append(('value kept %d' % q, FJ(v, A1, i + 1, xo + m + 1) == v0))
                    h.fact([Implies(h.t <= m, pow2(m - h.t + 1) == 2 * pow2(m - h.t))])
                    out.append(('digits', is_bits(A1, i + 1, xo + m + 1)))
            elif len(o) == 1:
                l = o[0]
                lo, hi = mk_mul(n, l), mk_mul(n, l) + n
                h.fact([Implies(And(l >= 0, l + 1 <= m), mk_mul(n, l) + n <= mk_mul(n, m))])
                for a, v in enumerate(h.envints(h.t)):
                    h.fact(blk(m, l, v) + def_S(m, A, ao, l, v))
                    out.append(('block %d' % a, And(0 <= v, v <= n, Implies(v < n, Blk(m, l, v)))))
                    for q, (Y, Y0) in enumerate(arrs):
                        out.append(('next level %d %d' % (a, q), forall_int(hi, hi + v, lambda k: Sel(Y, k) == VV(m, A, ao, l + 1, k - hi), pat=lambda k: Sel(Y, k))))
                        out.append(('next range %d %d' % (a, q), rng1(Y, hi, hi + v)))
                        b = z3.Int('b!h')
                        out.append(('new metrics %d %d' % (a, q), z3.ForAll([b], Implies(And(Blk(m, l + 1, b), b < v), Sel(Y, b) == SS(m, A, ao, l + 1, b)), patterns=[Sel(Y, b)])))
                        out.append(('old metrics %d %d' % (a, q), z3.ForAll([b], Implies(And(Blk(m, l, b), b >= v), Sel(Y, b) == SS(m, A, ao, l, b)), patterns=[Sel(Y, b)])))
                for q, (Y, Y0) in enumerate(arrs):
                    out.append(('this range %d' % q, rng1(Y, lo, hi)))
                    out.append(('this level %d' % q, forall_int(lo, hi, lambda k: Sel(Y, k) == VV(m, A, ao, l, k - lo), pat=lambda k: Sel(Y, k))))
            elif len(o) == 2:
                l = o[0]
                lo, hi = mk_mul(n, l), mk_mul(n, l) + n
                hh = pow2(m - l - 1)
                for a, v in enumerate(h.envints(o[1])):
                    h.fact(def_V(m, A, ao, l, v, h.t) + def_T(m, A, ao, l, v, h.t))
                    for q, (Y, Y0) in enumerate(arrs):
                        for d, dl in enumerate((IntVal(0), hh)):
                            out.append(('half range %d of block %d %d' % (d, a, q), rng1(Y, hi + v + dl, hi + v + dl + h.t)))
                            out.append(('half %d of block %d %d' % (d, a, q), forall_int(hi + v + dl, hi + v + dl + h.t, lambda k: Sel(Y, k) == VV(m, A, ao, l + 1, k - hi), pat=lambda k: Sel(Y, k))))
                        out.append(('elsewhere %d %d' % (a, q), z3.ForAll([z3.Int('k!h')], Implies(Or(z3.Int('k!h') < hi + v, z3.Int('k!h') >= hi + v + 2 * hh), Sel(Y, z3.Int('k!h')) == Sel(Y0, z3.Int('k!h'))), patterns=[Sel(Y, z3.Int('k!h'))])))
                    for nm, r in h.reals():
                        for bit in (0, 1):
                            out.append(('sum %s %d %d' % (nm, bit, a), r == TS(IntVal(bit), m, A, ao, l, v, h.t)))
            return out
        c.hint(hint)
    c.ensures('returns 0, or 1 when memory is short', lambda p: Or(p.res == 0, p.res == 1))
    k_srm.oomflag(c, 1)
    ok = lambda p, f: Implies(p.res == 0, f)
    c.ensures('decoded information is bits', lambda p: ok(p, is_bits(p.A(x), xo, xo + m + 1)))
    best = lambda p: fj(p.A(x), xo, m)
    X, Z = c.ghost('X', AI), c.ghost('Z', AI)
    F = lambda i: E(m, 1, X, xo, i)
    signs = And(is_bits(X, xo, xo + m + 1), signs_ok(A, ao, n, F))
    if c.mode == 'verify':
        c.facts(lem_dom(m, A, ao, X, xo, signs) + lem_likely(m, A, ao, Z, xo))
        c.post_facts(lambda p: lem_inj(m, p.A(x), X, xo) + lem_likely(m, A, ao, p.A(x), xo))
    c.ensures('no word has a larger metric', lambda p: ok(p, And(0 <= best(p), best(p) < W, forall_int(IntVal(0), W, lambda w: MM(m, A, ao, w) <= MM(m, A, ao, best(p)), pat=lambda w: MM(m, A, ao, w)))))

    c.ensures('with every sign right the sent information is decoded', lambda p: ok(p, Implies(And(m >= 1, signs), forall_int(xo, xo + m + 1, lambda i: Sel(p.A(x), i) == Sel(X, i), pat=lambda i: Sel(p.A(x), i)))))
    if c.mode == 'verify':
        c.ensures('no code word is more likely than the decoded one', lambda p: ok(p, Implies(And(m >= 1, noclip(m, A, ao), is_bits(Z, xo, xo + m + 1)), LLW(m, A, ao, Z, xo, n) <= LLW(m, A, ao, p.A(x), xo, n))))


RM1 = {}
RM1['rm1_dec_sh_finp'] = Contract('rm1_dec_sh_finp', s_rm1)
RM1['rm1_dec_sh'] = Contract('rm1_dec_sh', lambda c: s_rm1(c, True))

# ---------------------------------------------------------------- dtrm1.c
import k_srm, k_dtrm
DTRM1 = dict(k_srm.SRM)
DTRM1['rm1_dec_sh_finp'] = RM1['rm1_dec_sh_finp']
DTRM1['tri1_dec'] = Contract('tri1_dec', k_dtrm.s_tri(1))
DTRM1['tri1_dec'].scalars = (6,)
k_dtrm.codec(DTRM1, 1)

"""Contracts of common/srm_utils.c and common/crc.c"""
from contracts import *
from theory import *

MMAX = 30


def rm_ok(m, r):
    return And(0 <= r, r <= m, m <= MMAX)


def s_calc_rm_k(c):
    m, r = c.i(0), c.i(1)
    c.requires('0<=r<=m<=30', rm_ok(m, r))
    c.facts(unfold_K(m, r) + lemma_K(m, r) + lemma_K(m - 1, r - 1) + lemma_K(m - 1, r) + pow2_step(m))
    c.decreases(m)
    c.ensures('result is the dimension K(m,r)', lambda p: [p.res == K(m, r)])


def s_mrm_enc_mm_bsc(c):
    m, x, y = c.i(0), c.p(1), c.p(2)
    n = pow2(m)
    c.requires('0<=m<=30', And(0 <= m, m <= MMAX))
    c.reads(x, 0, n)
    c.writes(y, 0, n)
    X, xo, yo = c.A(x), c.off(x), c.off(y)
    c.facts(unfold_T(m, X, xo) + pow2_step(m))
    if c.mode == 'verify' and x.space is y.space:
        c.facts(lem_T_local(m - 1, X, xo + pow2(m - 1)))
    c.decreases(m)
    if c.mode == 'call' and x.space is y.space and x.path == y.path and same(x.idx[-1], y.idx[-1]):
        c.same_ok.add((0, 1))
    c.ensures('y is the (m,m) transform of x', lambda p: forall_int(IntVal(0), n, lambda i: Sel(p.A(y), yo + i) == TT(m, X, xo, i), pat=lambda i: [TT(m, X, xo, i), ]))
    c.ensures('y is the (m,m) transform of x (read side)', lambda p: forall_int(yo, yo + n, lambda i: Sel(p.A(y), i) == TT(m, X, xo, i - yo), pat=lambda i: Sel(p.A(y), i)))
    c.ensures('returns the length', lambda p: p.res == n)


def lem_T_local(m, X, xo):
    """L_Tloc instance for every array: the transform depends only on its own 2^m inputs"""
    Y = z3.Const('Y!loc', AI)
    i = z3.Int('i!loc')
    k = z3.Int('k!loc')
    return [z3.ForAll([Y, i], Implies(And(m >= 0, 0 <= i, i < pow2(m), z3.ForAll([k], Implies(And(xo <= k, k < xo + pow2(m)), Sel(Y, k) == Sel(X, k)))),
                                     TT(m, Y, xo, i) == TT(m, X, xo, i)), patterns=[TT(m, Y, xo, i)])]


def enc_spec(c, F, k, m, y, yo, n):
    c.ensures('y is the code word', lambda p: forall_int(IntVal(0), n, lambda i: Sel(p.A(y), yo + i) == F(i), pat=lambda i: F(i)))
    c.ensures('y is the code word (read side)', lambda p: forall_int(yo, yo + n, lambda i: Sel(p.A(y), i) == F(i - yo), pat=lambda i: Sel(p.A(y), i)))
    c.ensures('returns the number of information bits used', lambda p: p.res == k)


def s_mrm_enc_bsc(c):
    m, r, x, y = c.i(0), c.i(1), c.p(2), c.p(3)
    n = pow2(m)
    c.requires('0<=r<=m<=30', rm_ok(m, r))
    X, xo, yo = c.A(x), c.off(x), c.off(y)
    c.reads(x, 0, K(m, r))
    c.writes(y, 0, n)
    c.facts(unfold_E(m, r, X, xo) + pow2_step(m) + unfold_K(m, r) + lemma_K(m, r) + lemma_K(m - 1, r - 1) + lemma_K(m - 1, r) + K_mm(m) + K_mm(m - 1))
    c.decreases(m)
    enc_spec(c, lambda i: E(m, r, X, xo, i), K(m, r), m, y, yo, n)


def K_mm(m):
    return [Implies(m >= 0, K(m, m) == pow2(m))]


def oomflag(c, *fail):
    """ghost flag: an allocation failed; the listed results are returned only then"""
    cell = c.gcell('oom')
    old = c.v(cell)
    c.modifies(cell)
    c.ensures('memory-short flag is set by failed allocations only', lambda p: Or(p.v(cell) == old, p.v(cell) == 1))
    for v in fail:
        c.ensures('fails only when memory is short', lambda p: Implies(p.res == v, p.v(cell) == 1))
    return cell


def bpsk(c, F, k, m, x, y, xo, yo, X, ok, n):
    oomflag(c, 1)
    c.requires('information bits are 0/1', is_bits(X, xo, xo + k))
    c.facts(lem_bits(F, m, xo, X, k, ok))
    c.writes(y, 0, n)
    c.ensures('returns 0, or 1 when memory is short', lambda p: Or(p.res == 0, p.res == 1))
    c.ensures('channel word is +1 for code bit 1 and -1 for 0', lambda p: Implies(p.res == 0,
              forall_int(IntVal(0), n, lambda i: And(Sel(p.A(y), yo + i) == If(F(i) == 1, z3.RealVal(1), z3.RealVal(-1)), Or(F(i) == 0, F(i) == 1)), pat=lambda i: F(i))))
    c.ensures('channel word (read side)', lambda p: Implies(p.res == 0,
              forall_int(yo, yo + n, lambda i: Sel(p.A(y), i) == If(F(i - yo) == 1, z3.RealVal(1), z3.RealVal(-1)), pat=lambda i: Sel(p.A(y), i))))


def s_mrm_enc_bpsk(c):
    m, r, x, y = c.i(0), c.i(1), c.p(2), c.p(3)
    n = pow2(m)
    c.requires('0<=r<=m<=27', And(0 <= r, r <= m, m <= 27))
    X, xo, yo = c.A(x), c.off(x), c.off(y)
    c.reads(x, 0, K(m, r))
    c.facts(lemma_K(m, r))
    bpsk(c, lambda i: E(m, r, X, xo, i), K(m, r), m, x, y, xo, yo, X, rm_ok(m, r), n)


def mk_calc(par, inner):
    def spec(c):
        m, r, N = c.i(0), c.i(1), c.p(2)
        NNf, KK = (PN, PK) if par else (NN, SK)
        c.requires('0<=r<=m<=30', rm_ok(m, r))
        ntp = c.glob('enc_utils_ntp')
        o = c.v(ntp) if inner else IntVal(0)
        NA, no = c.A(N), c.off(N)
        c.reads(N, o if inner else 0, o + NNf(m, r))
        c.modifies(ntp)
        if inner:
            c.requires('mask position in range', And(0 <= o, o + NNf(m, r) <= 2147483647))
            r1 = If(r == m, r - 1, r) if par else r
            f = (unfold_PK if par else unfold_SK)(m, r, NA, no + o) + pow2_step(m)
            for (a, b, q) in ((m, r, no + o), (m - 1, r - 1, no + o), (m - 1, r1, no + o + NNf(m - 1, r - 1))):
                f += (lem_PK if par else lem_SK)(a, b, NA, q) + (lem_PN if par else lem_NN)(a, b)
            c.facts(f)
            c.decreases(m)
            c.ensures('mask position advances by the number of end nodes', lambda p: p.v(ntp) == o + NNf(m, r))
        else:
            c.facts((lem_PN if par else lem_NN)(m, r))
        c.ensures('result is the number of information bits of the selected nodes', lambda p: p.res == KK(m, r, NA, no + o))
    return spec


def mk_enc(par, inner):
    def spec(c):
        m, r, N, x, y = c.i(0), c.i(1), c.p(2), c.p(3), c.p(4)
        NNf, KK, EE = (PN, PK, PE) if par else (NN, SK, SE)
        n = pow2(m)
        c.requires('0<=r<=m<=30', rm_ok(m, r))
        ntp = c.glob('enc_utils_ntp')
        o = c.v(ntp) if inner else IntVal(0)
        NA, no = c.A(N), c.off(N)
        X, xo, yo = c.A(x), c.off(x), c.off(y)
        q = no + o
        c.reads(N, o, o + NNf(m, r))
        c.reads(x, 0, KK(m, r, NA, q))
        c.writes(y, 0, n)
        c.modifies(ntp)
        if inner:
            c.requires('mask position in range', And(0 <= o, o + NNf(m, r) <= 2147483647))
            r1 = If(r == m, r - 1, r) if par else r
            f = (unfold_PK if par else unfold_SK)(m, r, NA, q) + pow2_step(m)
            f += (unfold_PE if par else unfold_SE)(m, r, NA, q, X, xo)
            for (a, b, z) in ((m, r, q), (m - 1, r - 1, q), (m - 1, r1, q + NNf(m - 1, r - 1))):
                f += (lem_PK if par else lem_SK)(a, b, NA, z) + (lem_PN if par else lem_NN)(a, b)
            c.facts(f)
            c.decreases(m)
            c.ensures('mask position advances by the number of end nodes', lambda p: p.v(ntp) == o + NNf(m, r))
        else:
            c.facts((lem_PN if par else lem_NN)(m, r))
        enc_spec(c, lambda i: EE(m, r, NA, q, X, xo, i), KK(m, r, NA, q), m, y, yo, n)
    return spec


def mk_enc_bpsk(par):
    def spec(c):
        m, r, N, x, y = c.i(0), c.i(1), c.p(2), c.p(3), c.p(4)
        NNf, KK, EE = (PN, PK, PE) if par else (NN, SK, SE)
        n = pow2(m)
        c.requires('0<=r<=m<=27', And(0 <= r, r <= m, m <= 27))
        NA, no = c.A(N), c.off(N)
        X, xo, yo = c.A(x), c.off(x), c.off(y)
        k = KK(m, r, NA, no)
        c.reads(N, 0, NNf(m, r))
        c.reads(x, 0, k)
        c.modifies(c.glob('enc_utils_ntp'))
        c.facts((lem_PN if par else lem_NN)(m, r) + (lem_PK if par else lem_SK)(m, r, NA, no))
        bpsk(c, lambda i: EE(m, r, NA, no, X, xo, i), k, m, x, y, xo, yo, X, rm_ok(m, r), n)
    return spec


SRM = {}
for nm, sp, var in [('calc_rm_k', s_calc_rm_k, None),
               ('mrm_enc_mm_bsc', s_mrm_enc_mm_bsc, [None, ('alias', [(1, 2)])]),
               ('mrm_enc_bsc', s_mrm_enc_bsc, None), ('mrm_enc_bpsk', s_mrm_enc_bpsk, None),
               ('calc_srm_k_p', mk_calc(0, 1), None), ('calc_srm_k', mk_calc(0, 0), None),
               ('calc_par0_srm_k_p', mk_calc(1, 1), None), ('calc_par0_srm_k', mk_calc(1, 0), None),
               ('smrm_enc_bsc_p', mk_enc(0, 1), None), ('smrm_enc_bsc', mk_enc(0, 0), None),
               ('smrm_par0_enc_bsc_p', mk_enc(1, 1), None), ('smrm_par0_enc_bsc', mk_enc(1, 0), None),
               ('smrm_enc_bpsk', mk_enc_bpsk(0), None), ('smrm_par0_enc_bpsk', mk_enc_bpsk(1), None)]:
    SRM[nm] = Contract(nm, sp, variants=var)


# ---------------------------------------------------------------- crc.c
def crc_common(c, x, g, L, n):
    X, xo, G, go = c.A(x), c.off(x), c.A(g), c.off(g)
    RF = lambda i, k: RR(X, xo, G, go, L, i, k)
    bits = lambda i: forall_int(IntVal(0), n, lambda k: And(0 <= RF(i, k), RF(i, k) <= 1), pat=lambda k: RF(i, k))
    return X, xo, G, go, RF, bits


def s_calc_crc(c):
    x, n, g, L, b = c.p(0), c.i(1), c.p(2), c.i(3), c.p(4)
    c.requires('0<=crc_len<=x_len', And(0 <= L, L <= n, n <= 2 ** 27))
    c.reads(x, 0, n)
    c.reads(g, 0, L)
    c.writes(b, 0, n)
    X, xo, G, go, RF, bits = crc_common(c, x, g, L, n)
    bo = c.off(b)
    c.requires('bits', And(is_bits(X, xo, xo + n), is_bits(G, go, go + L)))
    if c.mode == 'verify':
        c.facts(unfold_RR(X, xo, G, go, L, n))
        # RR_bits lemma (induction over the division steps)
        i = z3.Int('i!rb')
        k = z3.Int('k!rb')
        c.facts([ForAll([i, k], Implies(And(0 <= i, i <= n - L, 0 <= k, k < n), And(0 <= RF(i, k), RF(i, k) <= 1)), patterns=[RF(i, k)])])

        def hint(h):
            out = []
            if h.modified(b):
                B = h.A(b)
                # which division step are we in?  every loop-varying int variable is a candidate
                for n_, v in enumerate(h.ints()):
                    h.fact(step_RR(X, xo, G, go, L, v))
                    out.append(('buffer is the dividend after step %d' % n_,
                                And(v >= 0, forall_int(bo, bo + n, lambda k: Sel(B, k) == RF(v, k - bo), pat=lambda k: Sel(B, k)))))
            return out
        c.hint(hint)
    c.result(b.w(idx=(z3.simplify(bo + n - L),)))
    c.ensures('check bits are the remainder', lambda p: forall_int(bo + n - L, bo + n, lambda k: Sel(p.A(b), k) == RF(n - L, k - bo), pat=lambda k: Sel(p.A(b), k)))
    c.ensures('check bits are bits', lambda p: forall_int(IntVal(0), n, lambda k: And(0 <= RF(n - L, k), RF(n - L, k) <= 1), pat=lambda k: RF(n - L, k)))


def loops_depends(v, t):
    import loops
    return loops.depends(v, t)


def s_is_valid_crc(c):
    x, n, g, L, b = c.p(0), c.i(1), c.p(2), c.i(3), c.p(4)
    c.requires('0<=crc_len<=info_len', And(0 <= L, L <= n, n <= 2 ** 27))
    c.reads(x, 0, n + L)
    c.reads(g, 0, L)
    c.writes(b, 0, n)
    X, xo, G, go, RF, bits = crc_common(c, x, g, L, n)
    c.requires('bits', And(is_bits(X, xo, xo + n + L), is_bits(G, go, go + L)))
    c.ensures('accepts exactly when the trailing bits are the remainder',
              lambda p: (p.res != 0) == forall_int(n - L, n, lambda k: Sel(X, xo + L + k) == RF(n - L, k), pat=lambda k: RF(n - L, k)))
    c.ensures('boolean result', lambda p: Or(p.res == 0, p.res == 1))


CRC = {'calc_crc': Contract('calc_crc', s_calc_crc), 'is_valid_crc': Contract('is_valid_crc', s_is_valid_crc)}

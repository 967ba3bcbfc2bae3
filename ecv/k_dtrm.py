"""Contracts of dtrm/dtrm0.c, dtrm/dtrm1.c and rm1_ml/rm1_ml.c"""
from contracts import *
from theory import *
import k_srm
from k_srm import rm_ok, K_mm, lem_bits, MMAX
RV = z3.RealVal


def signs_ok(A, lo, n, F):
    """every received reliability votes for the sent bit (positive: 0)"""
    return forall_int(IntVal(0), n, lambda i: And(Or(F(i) == 0, F(i) == 1), If(F(i) == 0, Sel(A, lo + i) > 0, Sel(A, lo + i) < 0)),
                      pat=lambda i: [F(i)])


def signs_ok2(A, lo, n, F):
    return forall_int(lo, lo + n, lambda i: And(Or(F(i - lo) == 0, F(i - lo) == 1), If(F(i - lo) == 0, Sel(A, i) > 0, Sel(A, i) < 0)),
                      pat=lambda i: Sel(A, i))


def in_range(A, lo, n):
    return forall_int(lo, lo + n, lambda i: And(Sel(A, i) < 1, Sel(A, i) > -1), pat=lambda i: Sel(A, i))


def ydec(A, lo, n, F):
    return [forall_int(IntVal(0), n, lambda i: And(Or(F(i) == 0, F(i) == 1), Sel(A, lo + i) == If(F(i) == 0, RV(1), RV(-1))), pat=lambda i: F(i)),
            forall_int(lo, lo + n, lambda i: Sel(A, i) == If(F(i - lo) == 0, RV(1), RV(-1)), pat=lambda i: Sel(A, i))]


def s_tri(first):
    def spec(c):
        y, r, m, n, yd, x, xl, aux = c.p(0), c.i(1), c.i(2), c.i(3), c.p(4), c.p(5), c.p(6), c.p(7)
        mx = 26 if first else 27
        c.requires('%d<=r<=m<=%d' % (first, mx), And(first <= r, r <= m, m <= mx))
        c.requires('n = 2^m', n == pow2(m))
        X = c.ghost('X', AI)
        xo, yo = c.off(x), c.off(y)
        k = K(m, r)
        F = lambda i: E(m, r, X, xo, i)
        c.facts(unfold_E(m, r, X, xo) + pow2_step(m) + unfold_K(m, r) + lemma_K(m, r) + lemma_K(m - 1, r - 1) + lemma_K(m - 1, r) + K_mm(m) + K_mm(m - 1))
        for (a, b, o) in ((m, r, xo), (m - 1, r - 1, xo), (m - 1, r, xo + K(m - 1, r - 1))):
            c.facts(bitsE(a, b, X, o))
        if first:
            c.facts([Implies(m >= 1, K(m, 1) == m + 1), Implies(r == 1, K(m, r) == m + 1)])   # lemma K_first
        c.facts(lem_TT_E(m, X, xo) + lem_TT_inv(m, X, xo))
        c.writes(y, 0, n)
        c.writes(yd, 0, n)
        c.writes(x, 0, k)
        c.writes(aux, 0, n)
        c.modifies(xl)
        Y = c.A(y)
        c.requires('sent information is bits', is_bits(X, xo, xo + k))
        c.requires('reliabilities are in (-1,1)', in_range(Y, yo, n))
        c.requires('every reliability has the sign of the sent symbol', And(signs_ok(Y, yo, n, F), signs_ok2(Y, yo, n, F)))
        c.decreases(m)
        if first == 0:
            c.cases([r > 0, And(r == 0, Sel(X, xo) == 0), And(r == 0, Sel(X, xo) == 1)])
        ok = (lambda p, f: f) if first == 0 else (lambda p, f: Implies(p.res == 0, And(f)))
        if first:
            c.post_facts(lambda p: lem_E_local(m, r, p.A(x), X, xo))
        c.ensures('decoded information is the sent one', lambda p: ok(p, forall_int(xo, xo + k, lambda i: Sel(p.A(x), i) == Sel(X, i), pat=lambda i: Sel(p.A(x), i))))
        c.ensures('number of decoded bits', lambda p: ok(p, p.v(xl) == k))
        c.ensures('re-encoded word', lambda p: ok(p, And(*ydec(p.A(yd), c.off(yd), n, F))))
        if first == 0:
            c.ensures('returns 0', lambda p: p.res == 0)
            k_srm.oomflag(c)
        else:
            c.ensures('returns 0, or 1 when memory is short', lambda p: Or(p.res == 0, p.res == 1))
            k_srm.oomflag(c, 1)
    return spec


def bitsE(m, r, X, xo):
    return lem_bits(lambda i: E(m, r, X, xo, i), m, xo, X, K(m, r), And(0 <= r, r <= m))


def lem_E_local(m, r, Z, X, xo):
    """lemma E_local: code words of equal information are equal"""
    return [Implies(And(0 <= r, r <= m, forall_int(xo, xo + K(m, r), lambda i: Sel(Z, i) == Sel(X, i), pat=lambda i: Sel(Z, i))),
                    forall_int(IntVal(0), pow2(m), lambda i: E(m, r, Z, xo, i) == E(m, r, X, xo, i), pat=lambda i: E(m, r, Z, xo, i)))]


def lem_TT_E(m, X, xo):
    """lemma T_is_E: the full-rate code word is the (m,m) transform of the information"""
    i = Int('i!tte')
    return [ForAll([i], Implies(And(m >= 0, 0 <= i, i < pow2(m)), E(m, m, X, xo, i) == TT(m, X, xo, i)), patterns=[E(m, m, X, xo, i)])]


def lem_TT_inv(m, X, xo):
    """lemmas T_local, T_involution: transforming a vector that holds the transform of X gives X back"""
    Y = z3.Const('Y!inv', AI)
    yo, i, k = Int('yo!inv'), Int('i!inv'), Int('k!inv')
    return [ForAll([Y, yo, i], Implies(And(m >= 0, 0 <= i, i < pow2(m), is_bits(X, xo, xo + pow2(m)),
            z3.ForAll([k], Implies(And(0 <= k, k < pow2(m)), Sel(Y, yo + k) == TT(m, X, xo, k)))),
            TT(m, Y, yo, i) == Sel(X, xo + i)), patterns=[TT(m, Y, yo, i)])]


DTRM0 = dict(k_srm.SRM)
DTRM0['tri0_dec'] = Contract('tri0_dec', s_tri(0))
DTRM0['tri0_dec'].scalars = (6,)


# ---------------------------------------------------------------- codec interface
def inst(c, k=0, tname='cdc_inst_type', null_ok=False):
    """the codec instance behind a void pointer argument"""
    ex = c.ex
    t = ex.u.typedefs[tname]
    return Ptr(Space('cdc', t, single=True), (), (), t, FALSE)


def setup_inst(c):
    for k, a in enumerate(c.args):
        if a is None:
            c.args[k] = inst(c)
            return


def fld(c, *p):
    return c.v(c.field(c.args[0], *p))


def inst_ok(c, first):
    m, r, n, k = fld(c, 'c_m'), fld(c, 'c_r'), fld(c, 'c_n'), fld(c, 'c_k')
    c.requires('instance is as cdc_init leaves it', And(first <= r, r <= m, 1 <= m, m <= (26 if first else 27), n == pow2(m), k == K(m, r)))
    c.facts(lemma_K(m, r))
    return m, r, n, k


def s_get(name, val):
    def spec(c):
        inst_ok(c, 1)
        c.ensures('reports the ' + name, lambda p: p.res == val(c))
    return spec


def s_set_sg(c):
    sg = c.d(1)
    c.requires('noise level is positive', sg > 0)
    f = c.field(c.args[0], 'sg22')
    c.modifies(f)
    c.facts([rdiv(RV(2), rmul(sg, sg)) > 0])
    c.ensures('stores 2/sigma^2', lambda p: p.v(f) == rdiv(RV(2), rmul(sg, sg)))
    c.ensures('scale is positive', lambda p: p.v(f) > 0)


def s_enc(first):
    def spec(c):
        m, r, n, k = inst_ok(c, first)
        x, y = c.p(1), c.p(2)
        X, xo, yo = c.A(x), c.off(x), c.off(y)
        c.reads(x, 0, k)
        k_srm.bpsk(c, lambda i: E(m, r, X, xo, i), k, m, x, y, xo, yo, X, rm_ok(m, r), n)
    return spec


def s_dec(first):
    def spec(c):
        m, r, n, k = inst_ok(c, first)
        co, x = c.p(1), c.p(2)
        X = c.ghost('X', AI)
        Y, yo, xo = c.A(co), c.off(co), c.off(x)
        F = lambda i: E(m, r, X, xo, i)
        c.requires('noise level was set', fld(c, 'sg22') > 0)
        c.requires('sent information is bits', is_bits(X, xo, xo + k))
        c.facts(bitsE(m, r, X, xo))
        c.requires('every received symbol has the sign of the sent symbol (+1 for code bit 1)',
                   And(forall_int(IntVal(0), n, lambda i: And(Or(F(i) == 0, F(i) == 1), If(F(i) == 1, Sel(Y, yo + i) > 0, Sel(Y, yo + i) < 0)), pat=lambda i: F(i)),
                       forall_int(yo, yo + n, lambda i: And(Or(F(i - yo) == 0, F(i - yo) == 1), If(F(i - yo) == 1, Sel(Y, i) > 0, Sel(Y, i) < 0)), pat=lambda i: Sel(Y, i))))
        c.reads(co, 0, n)
        c.writes(x, 0, k)
        k_srm.oomflag(c, -1)
        c.ensures('status is success, or -1 when memory is short', lambda p: Or(p.res == 0, p.res == -1))
        c.ensures('decoded information is the sent one', lambda p: Implies(p.res == 0, forall_int(xo, xo + k, lambda i: Sel(p.A(x), i) == Sel(X, i), pat=lambda i: Sel(p.A(x), i))))
    return spec


def codec(tab, first):
    tab['cdc_get_n'] = Contract('cdc_get_n', s_get('length 2^m', lambda c: pow2(fld(c, 'c_m'))), setup=setup_inst)
    tab['cdc_get_k'] = Contract('cdc_get_k', s_get('dimension', lambda c: K(fld(c, 'c_m'), fld(c, 'c_r'))), setup=setup_inst)
    tab['cdc_set_sg'] = Contract('cdc_set_sg', s_set_sg, setup=setup_inst)
    tab['enc_bpsk'] = Contract('enc_bpsk', s_enc(1), setup=setup_inst)
    tab['dec_bpsk'] = Contract('dec_bpsk', s_dec(1), setup=setup_inst)


codec(DTRM0, 0)

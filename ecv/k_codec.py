"""Contracts of the two list codecs: polar_scl/ca_polar_scl_main.c and dtrm_glp/dtrm_glp_main.c"""
from contracts import *
from theory import *
import k_srm
from k_srm import CRC, SRM, RR
from k_dtrm import setup_inst, fld, s_set_sg
import stubs
import k_polar


def tab(c):
    """field pointers of the instance: node mask and CRC generator blocks"""
    ex = c.ex
    sp = c.args[0].space
    if c.mode == 'verify' and (sp, ('crc',)) not in ex.leaf0:
        for path, nm in ((('crc',), 'crc'), (('dc', 'node_table'), 'mask')):
            t = c.field(c.args[0], *path).ty.to
            ex.leaf0[(sp, path)] = Ptr(Space(nm, t), (), (IntVal(0),), t, FALSE)
    return fld(c, 'crc'), fld(c, 'dc', 'node_table')


def polar_inst(c):
    g, N = tab(c)
    m, n, k, e, L = fld(c, 'c_m'), fld(c, 'c_n'), fld(c, 'c_k'), fld(c, 'eff_k'), fld(c, 'crc_len')
    NA, no = c.A(N), c.off(N)
    c.requires('instance is as cdc_init leaves it', And(1 <= m, m <= 24, n == pow2(m), n <= 2 ** 24, k == PK(m, m, NA, no), e == k - L, 0 <= L, L <= e,
               fld(c, 'dc', 'c_n') == n, fld(c, 'dc', 'c_k') == k, fld(c, 'dc', 'c_m') == m, fld(c, 'dc', 'ret_list') == If(L > 0, IntVal(1), IntVal(0))))
    c.facts(lem_PN(m, m) + lem_PK(m, m, NA, no))
    if c.mode == 'verify':
        N.space.valid = [(no, no + PN(m, m), 'r')]
        g.space.valid = [(c.off(g), c.off(g) + L, 'r')]
        c.requires('the generator is bits', is_bits(c.A(g), c.off(g), c.off(g) + L))
    return g, N, m, n, k, e, L


def s_pget(val):
    def spec(c):
        g, N, m, n, k, e, L = polar_inst(c)
        c.ensures('reports the ' + ('length 2^m' if val == 'n' else 'number of selected positions less the CRC bits'), lambda p: p.res == (n if val == 'n' else PK(m, m, c.A(N), c.off(N)) - L))
    return spec


def valid_row(X, o, n, G, go, L):
    """the L bits after the n information bits are their CRC"""
    return forall_int(n - L, n, lambda k: Sel(X, o + L + k) == RR(X, o, G, go, L, n - L, k), pat=lambda k: RR(X, o, G, go, L, n - L, k))


VROW = z3.Function('VROW', AI, I, I, AI, I, I, B)   # definition: valid_row


def def_VROW(X, G, go, L, n):
    o = Int('o!vr')
    return [ForAll([o], VROW(X, o, n, G, go, L) == valid_row(X, o, n, G, go, L), patterns=[VROW(X, o, n, G, go, L)])]


def s_best(c):
    x, n, lsiz, g, L = c.p(0), c.i(1), c.i(2), c.p(3), c.i(4)
    X, xo, G, go = c.A(x), c.off(x), c.A(g), c.off(g)
    w = n + L
    N, W = c.v(c.gcell('ncand')), c.v(c.gcell('wcand'))
    oom = c.gcell('oom')
    best = c.gcell('best')
    row = lambda i: xo + imul(i, n) + imul(i, L)
    pt = lambda i: imul(i, n)
    c.facts(imul_mono(n, L))
    ok = lambda i: VROW(X, row(i), n, G, go, L)
    c.requires('0<=crc_len<=info length', And(0 <= L, L <= n, n <= 2 ** 27, w >= 1))
    c.requires('list fits an int index', And(lsiz >= 1, imul(lsiz, n) + imul(lsiz, L) <= 2 ** 31 - 1))
    c.requires('candidates are present', And(1 <= N, N <= lsiz))
    c.requires('candidates and generator are bits', And(forall_int(IntVal(0), N, lambda i: is_bits(X, row(i), row(i) + w), pat=pt), is_bits(G, go, go + L)))
    c.requires('a short list contains a candidate with a valid CRC', Implies(L > 0, Or(N == lsiz, And(0 <= W, W < N, ok(W)))))
    c.reads(x, 0, imul(N, n) + imul(N, L))
    c.reads(g, 0, L)
    c.modifies(oom)
    c.modifies(best)
    c.facts(def_VROW(X, G, go, L, n))
    c.ghost_set(best, lambda p: p.res)
    c.ensures('memory-short flag', lambda p: Or(p.v(oom) == c.v(oom), p.v(oom) == 1))
    c.ensures('without a CRC the first candidate', lambda p: Implies(L <= 0, p.res == 0))
    c.ensures('the result is the first candidate with a valid CRC', lambda p: Implies(And(L > 0, p.res != -1), And(0 <= p.res, p.res < N, ok(p.res))))
    c.ensures('every earlier candidate has an invalid CRC', lambda p: Implies(And(L > 0, p.res != -1), forall_int(IntVal(0), p.res, lambda i: Not(ok(i)), pat=pt)))
    c.ensures('-1 only when no candidate has a valid CRC (or memory is short)', lambda p: Implies(And(L > 0, p.res == -1), Or(p.v(oom) == 1, forall_int(IntVal(0), N, lambda i: Not(ok(i)), pat=pt))))
    c.ensures('result is an index or -1', lambda p: And(-1 <= p.res, p.res < N))
    if c.mode == 'verify':
        def hint(h):
            out = []
            for n_, v in enumerate(h.ints()):
                out.append(('candidates before %d are invalid' % n_, And(v >= 0, forall_int(IntVal(0), v, lambda i: Not(ok(i)), pat=pt))))
                out.append(('only candidates are looked at %d' % n_, Implies(v < lsiz, v < N)))
                out.append(('found so far %d' % n_, Or(v == -1, And(v == h.t - 1, 0 <= v, v < N, ok(v)))))
                out.append(('none before %d' % n_, forall_int(IntVal(0), h.t, lambda i: Implies(i != v, Not(ok(i))), pat=pt)))
            out.append(('looked at candidates', Implies(And(h.t < lsiz, *[v == -1 for v in h.ints()]), h.t < N)))
            return out
        c.hint(hint)


POLARM = dict(CRC)
for _k in ('smrm_par0_enc_bpsk', 'smrm_par0_enc_bsc', 'smrm_par0_enc_bsc_p'):
    POLARM[_k] = SRM[_k]
POLARM['get_best_in_list'] = Contract('get_best_in_list', s_best)
POLARM['cdc_get_n'] = Contract('cdc_get_n', s_pget('n'), setup=setup_inst)
POLARM['cdc_get_k'] = Contract('cdc_get_k', s_pget('k'), setup=setup_inst)
POLARM['cdc_set_sg'] = Contract('cdc_set_sg', s_set_sg, setup=setup_inst)


# ---------------------------------------------------------------- encoder
def lem_PE_local(m, N, no, X, xo, Z):
    """lemma PE_local: code words of equal information are equal"""
    Y, yo, i, k = z3.Const('Y!ple', AI), Int('yo!ple'), Int('i!ple'), Int('k!ple')
    return [ForAll([Y, yo, i], Implies(And(0 <= i, i < pow2(m), z3.ForAll([k], Implies(And(yo <= k, k < yo + PK(m, m, N, no)), Sel(Y, k) == Sel(Z, k - yo)), patterns=[Sel(Y, k)])),
                   PE(m, m, N, no, Y, yo, i) == PE(m, m, N, no, Z, 0, i)), patterns=[PE(m, m, N, no, Y, yo, i)])]


def s_penc(c):
    g, N, m, n, k, e, L = polar_inst(c)
    x, y = c.p(1), c.p(2)
    X, xo, yo = c.A(x), c.off(x), c.off(y)
    NA, no, G, go = c.A(N), c.off(N), c.A(g), c.off(g)
    Z = c.ghost('Z', AI)
    c.requires('information bits are 0/1', is_bits(X, xo, xo + e))
    # Z: the information followed by its check bits
    c.requires('Z is the information followed by its CRC', And(forall_int(IntVal(0), e, lambda q: Sel(Z, q) == Sel(X, xo + q), pat=lambda q: Sel(Z, q)),
               forall_int(xo, xo + e, lambda q: Sel(Z, q - xo) == Sel(X, q), pat=lambda q: Sel(X, q)),
               forall_int(e, k, lambda q: Sel(Z, q) == RR(X, xo, G, go, L, e - L, q - L), pat=lambda q: Sel(Z, q))))
    c.reads(x, 0, e)
    c.writes(y, 0, n)
    c.modifies(c.glob('enc_utils_ntp'))
    cell = k_srm.oomflag(c)
    c.facts(lem_PE_local(m, NA, no, X, xo, Z) + lem_bits(lambda i: PE(m, m, NA, no, Z, 0, i), m, IntVal(0), Z, k, And(m >= 0)))
    c.ensures('memory is short or the channel word is +1 for code bit 1 and -1 for 0', lambda p: Implies(p.v(cell) == 0,
              forall_int(IntVal(0), n, lambda i: Sel(p.A(y), yo + i) == If(PE(m, m, NA, no, Z, 0, i) == 1, z3.RealVal(1), z3.RealVal(-1)), pat=lambda i: PE(m, m, NA, no, Z, 0, i))))


POLARM['enc_bpsk'] = Contract('enc_bpsk', s_penc, setup=setup_inst)


# ---------------------------------------------------------------- decoder: choice of the candidate
def s_polar_dec(c):
    """call-site contract of the list decoder"""
    k_polar.s_pdecode(c)
    dd, x = c.p(0), c.p(2)
    f = lambda nm: c.v(c.field(dd, nm))
    n, k, L = f('c_n'), f('c_k'), f('peak_lsiz')
    ret = f('ret_list') != 0
    xo = c.off(x)
    N, W = c.gcell('ncand'), c.gcell('wcand')
    c.modifies(W)
    c.ghost_set(c.gcell('cand', 'int', True), lambda p: p.A(x))
    c.ghost_set(c.gcell('cando'), lambda p: xo)
    row = lambda i: xo + imul(i, k)
    g, N_, m, n_, k_, e, Lc = c.ex.ctx.pin
    G, go = c.ex.ctx.A(g), c.ex.ctx.off(g)
    c.ensures('a list that is not full holds every information word', lambda p: Implies(And(ret, Lc > 0), Or(p.v(N) == L, And(0 <= p.v(W), p.v(W) < p.v(N), VROW(p.A(x), row(p.v(W)), e, G, go, Lc)))))


def dec_inst(c, m, n, k, ls, N):
    """decoder part of the instance as cdc_init leaves it: list sizes, identity permutation, work memory of get_membuf_size bytes"""
    ex = c.ex
    sp = c.args[0].space
    if c.mode == 'verify':
        for nm in ('pxarr', 'pyarr', 'mem_buf'):
            t = c.field(c.args[0], 'dc', nm).ty.to
            ex.leaf0[(sp, ('dc', nm))] = Ptr(Space(nm, t), (), (IntVal(0),), t, FALSE)
    px, py, mb = fld(c, 'dc', 'pxarr'), fld(c, 'dc', 'pyarr'), fld(c, 'dc', 'mem_buf')
    LW, W, KT, NTN = c.ghost('LW', I), c.ghost('W', I), c.ghost('KT', I), c.ghost('NTN', I)
    c.requires('names of the sizes', And(LW == ls, W == 4 * LW, KT == k, NTN == n))
    c.requires('one (identity) permutation', And(fld(c, 'dc', 'p_num') == 1, forall_int(IntVal(0), n, lambda q: Sel(c.A(py), q) == q, pat=lambda q: Sel(c.A(py), q)), forall_int(IntVal(0), k, lambda q: Sel(c.A(px), q) == q, pat=lambda q: Sel(c.A(px), q))))
    c.requires('list sizes of the nodes are within the list size', forall_int(IntVal(0), n, lambda q: And(0 <= Sel(c.A(N), q), Sel(c.A(N), q) <= LW), pat=lambda q: Sel(c.A(N), q)))
    c.requires('sizes of the work memory fit an int', And(4 * imul(n, LW) <= 2 ** 30, 4 * imul(m, LW) <= 2 ** 30, 4 * imul(LW, k) <= 2 ** 30))
    c.facts([imul(ls, k) == imul(LW, k), imul(k, LW) == imul(LW, k), imul(n, LW) == imul(LW, n), imul(m, LW) == imul(LW, m)])
    c.reads(px, 0, k)
    c.reads(py, 0, n)
    c.reads(N, 0, n)
    c.writes(mb, 0, k_polar.membytes(n, k, m, LW))


def s_pdec(c):
    g, N, m, n, k, e, L = c.pin = polar_inst(c)
    ls = fld(c, 'dc', 'peak_lsiz')
    co, x = c.p(1), c.p(2)
    xo = c.off(x)
    G, go = c.A(g), c.off(g)
    c.requires('list size and memory fit an int', And(ls >= 1, ls <= 2 ** 24, imul(ls, k) <= 2 ** 28))
    dec_inst(c, m, n, k, ls, N)
    c.facts(imul_dist(k, e, L) + imul_mono(k, e, L))
    nc, cand, cando, best = c.gcell('ncand'), c.gcell('cand', 'int', True), c.gcell('cando'), c.gcell('best')
    c.reads(co, 0, n)
    c.writes(x, 0, e)
    for q in (nc, c.gcell('wcand'), cando, best):
        c.modifies(q)
    c.modifies(cand) if False else c.writes(cand, -2 ** 199, 2 ** 199)
    oom = k_srm.oomflag(c, -1)
    ok = lambda p, i: VROW(p.A(cand), p.v(cando) + imul(i, e) + imul(i, L), e, G, go, L)
    isrow = lambda p, i: forall_int(xo, xo + e, lambda q: Sel(p.A(x), q) == Sel(p.A(cand), p.v(cando) + imul(i, e) + imul(i, L) + q - xo), pat=lambda q: Sel(p.A(x), q))
    c.ensures('status is success, erasure, or -1 when memory is short', lambda p: Or(p.res == 0, p.res == 1, p.res == -1))
    c.ensures('success: the best candidate (no CRC)', lambda p: Implies(And(p.res == 0, L == 0), isrow(p, IntVal(0))))
    c.ensures('success: the chosen candidate has a valid CRC and is returned', lambda p: Implies(And(p.res == 0, L > 0), And(0 <= p.v(best), p.v(best) < p.v(nc), ok(p, p.v(best)), isrow(p, p.v(best)))))
    c.ensures('success: every better candidate has an invalid CRC', lambda p: Implies(And(p.res == 0, L > 0), forall_int(IntVal(0), p.v(best), lambda i: Not(ok(p, i)), pat=lambda i: imul(i, e))))
    c.ensures('erasure: no candidate has a valid CRC', lambda p: Implies(And(p.res == 1, p.v(oom) == 0), And(L > 0, forall_int(IntVal(0), p.v(nc), lambda i: Not(ok(p, i)), pat=lambda i: imul(i, e)))))
    c.ensures('erasure: the best candidate is returned', lambda p: Implies(p.res == 1, isrow(p, IntVal(0))))


POLARM['polar_dec'] = Contract('polar_dec', s_polar_dec)
POLARM['dec_bpsk'] = Contract('dec_bpsk', s_pdec, setup=setup_inst)


# ---------------------------------------------------------------- RM list codec
def glp_inst(c):
    ex = c.ex
    sp = c.args[0].space
    if c.mode == 'verify' and (sp, ('dc', 'node_table')) not in ex.leaf0:
        t = c.field(c.args[0], 'dc', 'node_table').ty.to
        ex.leaf0[(sp, ('dc', 'node_table'))] = Ptr(Space('mask', t), (), (IntVal(0),), t, FALSE)
    N = fld(c, 'dc', 'node_table')
    m, r, n, k = fld(c, 'c_m'), fld(c, 'c_r'), fld(c, 'c_n'), fld(c, 'c_k')
    NA, no = c.A(N), c.off(N)
    c.requires('instance is as cdc_init leaves it', And(2 <= r, r < m, m <= 24, n == pow2(m), n <= 2 ** 24, k == SK(m, r, NA, no)))
    c.facts(lem_NN(m, r) + lem_SK(m, r, NA, no))
    if c.mode == 'verify':
        N.space.valid = [(no, no + NN(m, r), 'r')]
    return m, r, n, k, NA, no


def s_gget(which):
    def spec(c):
        m, r, n, k, NA, no = glp_inst(c)
        c.ensures('reports the length 2^m' if which == 'n' else 'reports the number of information bits of the selected nodes', lambda p: p.res == (pow2(m) if which == 'n' else SK(m, r, NA, no)))
    return spec


def s_genc(c):
    m, r, n, k, NA, no = glp_inst(c)
    x, y = c.p(1), c.p(2)
    X, xo, yo = c.A(x), c.off(x), c.off(y)
    c.reads(x, 0, k)
    c.modifies(c.glob('enc_utils_ntp'))
    k_srm.bpsk(c, lambda i: SE(m, r, NA, no, X, xo, i), k, m, x, y, xo, yo, X, And(0 <= r, r <= m, m <= 30), n)


GLPM = {k: SRM[k] for k in ('smrm_enc_bpsk', 'smrm_enc_bsc', 'smrm_enc_bsc_p')}
GLPM['cdc_get_n'] = Contract('cdc_get_n', s_gget('n'), setup=setup_inst)
GLPM['cdc_get_k'] = Contract('cdc_get_k', s_gget('k'), setup=setup_inst)
GLPM['cdc_set_sg'] = Contract('cdc_set_sg', s_set_sg, setup=setup_inst)
GLPM['enc_bpsk'] = Contract('enc_bpsk', s_genc, setup=setup_inst)

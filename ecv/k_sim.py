"""Contracts of simulators/sim_bg.c"""
from contracts import *
from theory import *
from sym import mk_rmul, mk_rdiv
import stubs
RV = z3.RealVal
SIM = {}
CNTS = ('trn', 'en_bit', 'en_bl', 'er_n', 'trn_ml', 'enml_bl')


# ---------------------------------------------------------------- sim_point arithmetic
def s_point(op):
    def spec(c):
        d = c.p(0)
        src = [c.p(k) for k in range(1, len(c.args))]
        old = [{f: c.v(c.field(p, f)) for f in CNTS} for p in src]
        for f in CNTS:
            c.modifies(c.field(d, f))
        val = lambda f: {'init': lambda: IntVal(0), 'copy': lambda: old[0][f], 'add': lambda: old[0][f] + old[1][f], 'sub': lambda: old[0][f] - old[1][f]}[op]()
        c.requires('counts fit an int', And(*[And(val(f) >= -2 ** 31, val(f) < 2 ** 31) for f in CNTS]))
        c.ensures('every counter is the %s' % {'init': 'zero', 'copy': 'copied one', 'add': 'sum', 'sub': 'difference'}[op], lambda p: [p.v(c.field(d, f)) == val(f) for f in CNTS])
    return spec


SIM['init_sim_point'] = Contract('init_sim_point', s_point('init'))
SIM['copy_sim_point'] = Contract('copy_sim_point', s_point('copy'))
SIM['add_sim_points'] = Contract('add_sim_points', s_point('add'), variants=[None, ('alias', [(0, 1)]), ('alias', [(0, 2)])])
SIM['sub_sim_points'] = Contract('sub_sim_points', s_point('sub'), variants=[None, ('alias', [(0, 1)]), ('alias', [(0, 2)])])


# ---------------------------------------------------------------- noise
V = Function('NV', I, R)           # the n-th uniform draw mapped to (-1,1)
POS = Function('POS', I, I, I)     # POS(c0,t): number of draws used when the t-th pair of samples starts
NXT = Function('NXT', I, I)        # first accepted pair of draws at or after draw n
NZ = Function('NZ', I, R, I, R)    # NZ(c0,sigma,q): noise in position q


def VV(n):
    return RV('2') * (z3.ToReal(stubs.RAND(n)) * RV('1/2147483647')) - 1


def RAD(n):
    return mk_rmul(VV(n), VV(n)) + mk_rmul(VV(n + 1), VV(n + 1))


def MAG(n):
    return rsqrt(mk_rdiv(RV(-2) * rlog(RAD(n)), RAD(n)))


def def_NXT(n):
    return [NXT(n) == If(RAD(n) < 1, n, NXT(n + 2))]


def def_pair(c0, sg, t):
    a = NXT(POS(c0, t))
    return [POS(c0, 0) == c0, POS(c0, t + 1) == a + 2,
            NZ(c0, sg, 2 * t) == mk_rmul(mk_rmul(VV(a), MAG(a)), sg), NZ(c0, sg, 2 * t + 1) == mk_rmul(mk_rmul(VV(a + 1), MAG(a)), sg)]


def s_noise(c):
    ys, n, sg, yd = c.p(0), c.i(1), c.d(2), c.p(3)
    cell = c.gcell('rand_n')
    c0 = c.v(cell)
    Y, yo, do = c.A(ys), c.off(ys), c.off(yd)
    c.requires('the length is even and positive', And(n >= 2, n % 2 == 0))
    c.requires('noise level is positive', sg > 0)
    c.reads(ys, 0, n)
    c.writes(yd, 0, n)
    c.modifies(cell)
    if c.mode == 'verify':
        c.ex.partial = 'copy_add_noise: the rejection loop ends (almost surely)'
        c.facts(def_pair(c0, sg, IntVal(0)))

        def hint(h):
            out = []
            cv = h.v(cell)
            e0 = h.v(cell, h.entry)
            for f in (def_NXT(cv), def_NXT(cv - 2), def_NXT(e0), def_NXT(e0 - 2)):
                h.fact(f)
            for q in (cv, cv - 2):
                for z in (e0, e0 - 2):
                    out.append(('accepted pair is the first one %s %s' % (q.get_id() == cv.get_id(), z.get_id() == e0.get_id()), NXT(q) == NXT(z)))
            for (nm, x) in h.reals():
                for (k, e) in (('first draw', VV(cv - 2)), ('second draw', VV(cv - 1)), ('squared radius', RAD(cv - 2))):
                    out.append(('%s is the %s' % (nm, k), x == e))
            if h.modified(yd):
                A = h.A(yd)
                h.fact(def_pair(c0, sg, h.t))
                out.append(('draws used so far', cv == POS(c0, h.t)))
                for k, x in enumerate(h.ints()):
                    out.append(('samples before %d' % k, And(x == 2 * h.t, forall_int(do, do + x, lambda q: Sel(A, q) == Sel(Y, q - do + yo) + NZ(c0, sg, q - do), pat=lambda q: Sel(A, q)))))
            return out
        c.hint(hint)
    c.ensures('every output is the sent symbol plus its own noise sample', lambda p: forall_int(do, do + n, lambda q: Sel(p.A(yd), q) == Sel(Y, q - do + yo) + NZ(c0, sg, q - do), pat=lambda q: Sel(p.A(yd), q)))
    if c.mode == 'verify':
        c.ensures('each sample pair uses fresh draws', lambda p: p.v(cell) == POS(c0, n / 2))


SIM['copy_add_noise'] = Contract('copy_add_noise', s_noise)


def DB(x):
    """10^(x/10)"""
    return rexp(RV('1/10') * mk_rmul(rlog(RV(10)), x))


def s_db2val(c):
    x = c.d(0)
    c.facts([rlog(RV(10)) > 0])
    c.ensures('result is 10^(x/10)', lambda p: p.res == DB(x))
    c.ensures('result is positive', lambda p: p.res > 0)


SIM['db2val'] = Contract('db2val', s_db2val)


# ---------------------------------------------------------------- requested number of trials
CAP = 2000000000


def s_update(c):
    sim, s = c.p(0), c.i(1)
    pt = lambda f: c.v(c.elem(sim, s, 'pt', f))
    c.requires('0 <= csnrn < 50', And(0 <= s, s < 50))
    tr = c.elem(sim, s, 'trn_req')
    t, b, m, q = pt('trn'), pt('en_bl'), c.v(c.field(sim, 'min_en_bl')), c.v(tr)
    c.requires('counters are as sim_run keeps them', And(1 <= t, 0 <= b, b <= t, t <= q, m >= 1))
    c.writes(tr, 0, 1)
    rt, rb, rm = z3.ToReal(t), z3.ToReal(b), z3.ToReal(m)
    for e in (mk_rdiv(mk_rmul(rt, rm), rb), mk_rmul(rt, mk_rdiv(rm, rb)), mk_rmul(mk_rdiv(rt, rb), rm)):
        c.facts([Implies(And(b >= 1, t >= b, m >= b + 1), e >= rt + 1)])      # lemma estimate (t*m/b >= t+1)
    nq = lambda p: p.v(tr)
    c.ensures('the requested number of trials is never lowered', lambda p: nq(p) >= q)
    c.ensures('while errors are missing the request exceeds the trials done, or the cap is reached', lambda p: Implies(b < m, Or(nq(p) > t, t >= CAP)))
    c.ensures('nothing is raised once there are enough errors', lambda p: Implies(b >= m, nq(p) == q))
    c.ensures('raised at most to the cap', lambda p: Or(nq(p) == q, nq(p) <= CAP))


SIM['update_trn_req'] = Contract('update_trn_req', s_update)


# ---------------------------------------------------------------- the simulation run
# Ghost history: one event per decoder call, filed under sim->csnrn at the time of the call.
INFOF = Function('INFOF', AR, I, I, I)              # information bit i of a BPSK code word
CW = Function('CW', AI, I, I, R)                    # symbol j of the code word of an information vector
CD = Function('CD', AI, I, AR, I, I, I)             # CD(D,do,C,co,t): positions < t where D differs from the word's information
DT = Function('DT', AR, I, AR, I, I, I, R)          # DT(C,co,Y,yo,hd,t): squared distance of the sent word to the received one
DD = Function('DD', AI, I, AR, I, I, I, R)          # the same for the code word of a decoded vector
EV = ('trn', 'en_bit', 'en_bl', 'er_n', 'trn_ml', 'enml_bl')
HD = lambda v, hd: If(hd != 0, If(v > 0, RV(1), RV(-1)), v)
sq = lambda e: mk_rmul(e, e)


def def_CD(D, do, C, co, t):
    return [CD(D, do, C, co, 0) == 0, CD(D, do, C, co, t + 1) == CD(D, do, C, co, t) + If(Sel(D, do + t) == INFOF(C, co, t), 0, 1)]


def def_DT(C, co, Y, yo, hd, t):
    a, y = Sel(C, co + t), Sel(Y, yo + t)
    return [DT(C, co, Y, yo, hd, 0) == 0, DT(C, co, Y, yo, hd, t + 1) == DT(C, co, Y, yo, hd, t) + If(hd != 0, sq(a - If(y > 0, RV(1), RV(-1))), sq(a - y))]


def def_DD(D, do, Y, yo, hd, t):
    a, y = CW(D, do, t), Sel(Y, yo + t)
    return [DD(D, do, Y, yo, hd, 0) == 0, DD(D, do, Y, yo, hd, t + 1) == DD(D, do, Y, yo, hd, t) + If(hd != 0, sq(a - If(y > 0, RV(1), RV(-1))), sq(a - y))]


class G:
    """ghost cells of a run"""
    def __init__(s, c):
        g = c.gcell
        s.tx, s.txo, s.sig = g('tx', 'double', True), g('txo'), g('noise_sigma', 'double')
        s.ry, s.ryo = g('noisy', 'double', True), g('noisyo')
        s.fresh = g('fresh_noise')
        s.dsig, s.dcs = g('decoder_sigma', 'double'), g('decoder_csnrn')
        s.ev = {f: g('ev_' + f, 'int', True) for f in EV}
        s.nsig, s.trials = g('noise_ok'), None
        s.xd, s.xdo = g('xdec', 'int', True), g('xdeco')
        s.all = [s.tx, s.txo, s.sig, s.ry, s.ryo, s.fresh, s.dsig, s.dcs, s.xd, s.xdo] + list(s.ev.values())


def simp(c):
    """the simulator instance of the function under verification"""
    return c.ex.ctx.args[0] if c.ex.ctx is not None else c.args[0]


def sval(c, f):
    return c.v(c.field(simp(c), f))


def pte(c, k, f):
    return c.elem(simp(c), k, 'pt', f)


def rate(c):
    fr = sval(c, 'fixedR')
    return If(fr != 0, fr, mk_rdiv(z3.ToReal(sval(c, 'code_k')), z3.ToReal(sval(c, 'code_n'))))


def SIGOK(c, s, k):
    """s = 1/sqrt(2 R 10^(EbN0/10)) for SNR entry k"""
    db = DB(c.v(c.elem(simp(c), k, 'snr_db')))
    fr = sval(c, 'fixedR')
    r0 = mk_rdiv(z3.ToReal(sval(c, 'code_k')), z3.ToReal(sval(c, 'code_n')))
    f = lambda R_: s == mk_rdiv(RV(1), rsqrt(2 * mk_rmul(R_, db)))
    return And(Implies(fr != 0, f(fr)), Implies(fr == 0, f(r0)))


def gmod(c, cells):
    for x in cells:
        if x.idx:
            c.writes(x, IntVal(-2 ** 100), IntVal(2 ** 100))
        else:
            c.modifies(x)


def put_all(x, term):
    """ghost array := term"""
    return lambda p: term(p) if callable(term) else term


def s_encs(c):
    g = G(c)
    x, y = c.p(1), c.p(2)
    n, k = sval(c, 'code_n'), sval(c, 'code_k')
    X, xo, yo = c.A(x), c.off(x), c.off(y)
    c.requires('information handed to the encoder is bits', is_bits(X, xo, xo + k))
    c.reads(x, 0, k)
    c.writes(y, 0, n)
    c.ensures('code word', lambda p: [forall_int(yo, yo + n, lambda j: Sel(p.A(y), j) == CW(X, xo, j - yo), pat=lambda j: Sel(p.A(y), j)),
                                      forall_int(IntVal(0), k, lambda i: INFOF(p.A(y), yo, i) == Sel(X, xo + i), pat=lambda i: INFOF(p.A(y), yo, i)), p.res == 0])


def s_setsg(c):
    g = G(c)
    c.requires('decoder is given the noise level of the current SNR', SIGOK(c, c.d(1), sval(c, 'csnrn')))
    c.modifies(g.dsig)
    c.ghost_set(g.dsig, lambda p: c.d(1))
    c.ensures('recorded', lambda p: p.v(g.dsig) == c.d(1))


def s_setcs(c):
    g = G(c)
    c.requires('decoder is given the current SNR number', c.i(1) == sval(c, 'csnrn'))
    c.modifies(g.dcs)
    c.ghost_set(g.dcs, lambda p: c.i(1))


def s_noise_call(c):
    """copy_add_noise inside sim_run: its proved contract plus the history of the channel"""
    s_noise(c)
    if c.mode == 'verify':
        return
    g = G(c)
    ys, n, sg, yd = c.p(0), c.i(1), c.d(2), c.p(3)
    gmod(c, [g.tx, g.txo, g.sig, g.ry, g.ryo, g.fresh])
    fr = c.v(g.fresh)
    c.ghost_set(g.tx, lambda p: c.A(ys))
    c.ghost_set(g.txo, lambda p: c.off(ys))
    c.ghost_set(g.sig, lambda p: sg)
    c.ghost_set(g.ry, lambda p: p.A(yd))
    c.ghost_set(g.ryo, lambda p: c.off(yd))
    c.ghost_set(g.fresh, lambda p: fr + 1)
    if c.ex.ctx.k.name == 'sim_run':
        c.requires('the whole word is sent', n == sval(c, 'code_n'))


def s_decs(c):
    g = G(c)
    co, xd = c.p(1), c.p(2)
    n, k, cs = sval(c, 'code_n'), sval(c, 'code_k'), sval(c, 'csnrn')
    ml, hd = sval(c, 'do_ml'), sval(c, 'do_ml_hd')
    Y, yo, do = c.A(co), c.off(co), c.off(xd)
    tx, txo, ry, ryo = c.A(g.tx), c.v(g.txo), c.A(g.ry), c.v(g.ryo)
    c.requires('noise of the level of the current SNR was added', SIGOK(c, c.v(g.sig), cs))
    c.requires('decoder knows the noise level of the current SNR', SIGOK(c, c.v(g.dsig), cs))
    if 'cdc_set_csnrn' in c.ex.used_contracts:
        c.requires('decoder knows the current SNR number', c.v(g.dcs) == cs)
    c.requires('every trial has its own noise', c.v(g.fresh) == 1)
    c.requires('the decoder is given the noisy word', forall_int(yo, yo + n, lambda j: Sel(Y, j) == Sel(ry, j - yo + ryo), pat=lambda j: Sel(Y, j)))
    c.reads(co, 0, n)
    c.writes(xd, 0, k)
    gmod(c, list(g.ev.values()) + [g.fresh, g.xd, g.xdo])
    old = {f: c.A(g.ev[f]) for f in EV}
    er = lambda p: p.res == 1
    DX = lambda p: p.A(xd)
    D = lambda p: CD(DX(p), do, tx, txo, k)
    lost = lambda p: DT(tx, txo, ry, ryo, hd, n) > DD(DX(p), do, ry, ryo, hd, n)
    mlt = lambda p: And(ml != 0, Not(er(p)))
    inc = {'trn': lambda p: IntVal(1), 'en_bit': D, 'en_bl': lambda p: If(D(p) != 0, 1, 0), 'er_n': lambda p: If(er(p), 1, 0),
           'trn_ml': lambda p: If(mlt(p), 1, 0), 'enml_bl': lambda p: If(And(mlt(p), lost(p)), 1, 0)}
    for f in EV:
        c.ghost_set(g.ev[f], (lambda f: lambda p: z3.Store(old[f], cs, Sel(old[f], cs) + inc[f](p)))(f))
    c.ghost_set(g.fresh, lambda p: IntVal(0))
    c.ghost_set(g.xd, lambda p: p.A(xd))
    c.ghost_set(g.xdo, lambda p: do)
    c.ensures('decoded information is bits', lambda p: is_bits(p.A(xd), do, do + k))
    c.ensures('the all -1 word carries the zero information', lambda p: Implies(forall_int(txo, txo + n, lambda j: Sel(tx, j) == -1), forall_int(IntVal(0), k, lambda i: INFOF(tx, txo, i) == 0, pat=lambda i: INFOF(tx, txo, i))))
    c.ensures('number of wrong bits is a count', lambda p: [CD(DX(p), do, tx, txo, 0) == 0, D(p) >= 0, D(p) <= k])
    c.ensures('assumed: total bit errors fit an int', lambda p: c.v(pte(c, cs, 'en_bit')) + D(p) <= 2 ** 31 - 1)
    c.ex.assumed.append('the number of bit errors of one SNR value fits an int')


def setup_sim(c):
    ex = c.ex
    t = ex.u.typedefs['sim_bg_inst']
    sp = Space('sim', t, single=True)
    c.args[0] = Ptr(sp, (), (), t, FALSE)
    ex.leaf0[(sp, ('dc_inst',))] = Ptr(Space('codec', VOID, single=True), (), (), VOID, FALSE)


def s_run(c):
    g = G(c)
    sim = c.p(0)
    ex = c.ex
    f = lambda nm: c.v(c.field(sim, nm))
    n, k, S, cs0 = f('code_n'), f('code_k'), f('snr_num'), f('csnrn')
    m = f('min_en_bl')
    A = lambda q, nm: q(c.elem(sim, IntVal(0), 'pt', nm))
    P0 = {e: A(c.A, e) for e in EV}
    TR = c.elem(sim, IntVal(0), 'trn_req')
    tr0 = c.A(TR)
    E0 = {e: c.A(g.ev[e]) for e in EV}
    c.requires('instance is as sim_init leaves it', And(n >= 2, n % 2 == 0, 1 <= k, k <= n, n <= 2 ** 27, 1 <= S, S <= 50, 0 <= cs0, cs0 <= S, m >= 1, f('fixedR') >= 0,
                                                         Implies(f('do_ml_hd') != 0, f('do_ml') != 0)))
    allp = lambda fn, pat: forall_int(IntVal(0), S, fn, pat=pat)
    c.requires('counters are as earlier runs leave them', allp(lambda q: And(0 <= Sel(P0['en_bl'], q), Sel(P0['en_bl'], q) <= Sel(P0['trn'], q), 0 <= Sel(P0['er_n'], q), Sel(P0['er_n'], q) <= Sel(P0['trn'], q),
               0 <= Sel(P0['enml_bl'], q), Sel(P0['enml_bl'], q) <= Sel(P0['trn_ml'], q), Sel(P0['trn_ml'], q) <= Sel(P0['trn'], q), Sel(P0['en_bit'], q) >= 0), lambda q: [Sel(P0[e], q) for e in EV]))
    for e in EV:
        c.writes(c.elem(sim, IntVal(0), 'pt', e), 0, S)
    c.writes(TR, 0, S)
    c.modifies(c.field(sim, 'csnrn'))
    cells = g.all + [c.gcell('rand_n')]
    gmod(c, cells)
    c.requires('no unused noise', c.v(g.fresh) == 0)
    ex.partial = None

    def counted(cur, ev):
        return [('counts equal events: ' + e, forall_int(IntVal(-1000), IntVal(1000), (lambda e: lambda q: Sel(cur[e], q) - Sel(P0[e], q) == Sel(ev[e], q) - Sel(E0[e], q))(e), pat=lambda q: [Sel(cur[e], q), Sel(ev[e], q)])) for e in EV]

    def ranges(cur):
        return ('counters consistent', allp(lambda q: And(0 <= Sel(cur['en_bl'], q), Sel(cur['en_bl'], q) <= Sel(cur['trn'], q), 0 <= Sel(cur['er_n'], q), Sel(cur['er_n'], q) <= Sel(cur['trn'], q),
               0 <= Sel(cur['enml_bl'], q), Sel(cur['enml_bl'], q) <= Sel(cur['trn_ml'], q), Sel(cur['trn_ml'], q) <= Sel(cur['trn'], q), Sel(cur['en_bit'], q) >= 0), lambda q: [Sel(cur[e], q) for e in EV]))

    def enough(cur, ev, tr, q):
        return Or(Sel(cur['en_bl'], q) >= m, Sel(cur['trn'], q) >= CAP, Sel(ev['trn'], q) == Sel(E0['trn'], q))

    def passed(cur, ev, tr, cs):
        return ('passed SNR values are complete', forall_int(cs0, cs, lambda q: And(Sel(cur['trn'], q) >= Sel(tr, q), enough(cur, ev, tr, q)), pat=lambda q: [Sel(cur['trn'], q), Sel(tr, q)]))

    def raised(tr):
        return ('requests never lowered', forall_int(IntVal(-1000), IntVal(1000), lambda q: Sel(tr, q) >= Sel(tr0, q), pat=lambda q: Sel(tr, q)))

    def later(tr, cs):
        return ('later requests untouched', forall_int(cs, IntVal(1000), lambda q: Sel(tr, q) == Sel(tr0, q), pat=lambda q: Sel(tr, q)))

    if c.mode == 'verify':
        def hint(h):
            out = []
            pt = lambda e: c.elem(sim, IntVal(0), 'pt', e)
            t = h.t
            if h.modified(pt('trn')) or h.modified(g.fresh):
                cur = {e: h.A(pt(e)) for e in EV}
                ev = {e: h.A(g.ev[e]) for e in EV}
                tr = h.A(TR)
                cs = h.v(c.field(sim, 'csnrn'))
                out += counted(cur, ev) + [ranges(cur), passed(cur, ev, tr, cs), raised(tr), later(tr, cs + 1)]
                out.append(('current SNR number', And(cs >= cs0, cs <= S)))
                out.append(('noise used up', h.v(g.fresh) == 0))
                out.append(('current SNR goes on or is complete', Implies(cs < S, Or(Sel(cur['en_bl'], cs) >= m, Sel(tr, cs) > Sel(cur['trn'], cs), Sel(cur['trn'], cs) >= CAP, Sel(ev['trn'], cs) == Sel(E0['trn'], cs)))))
                for j, x in enumerate(h.ints()):
                    out.append(('int %d is the SNR number' % j, x == cs))
                    out.append(('int %d is the next SNR number' % j, x == cs + 1))
            else:
                tx, txo, ry, ryo, xd, xdo = h.A(g.tx), h.v(g.txo), h.A(g.ry), h.v(g.ryo), h.A(g.xd), h.v(g.xdo)
                hd = h.v(c.field(sim, 'do_ml_hd'))
                if any(z is None for z in (txo, ryo, xdo)):
                    return out
                h.fact(def_CD(xd, xdo, tx, txo, t))
                h.fact(def_DT(tx, txo, ry, ryo, hd, t) + def_DD(xd, xdo, ry, ryo, hd, t))
                for j, x in enumerate(h.ints(True)):
                    out.append(('int %d counts wrong bits' % j, And(x == CD(xd, xdo, tx, txo, t))))
                # the sent word is still in memory until the decision is encoded over it
                sent = any(isinstance(v, Cont) and v.term().eq(tx) for (k, v) in h.head.mem.items() if not k[0].name.startswith('ghost:'))
                for nm, (_, x) in enumerate(h.reals()):
                    if sent:
                        out.append(('real %s is the distance to the sent word' % nm, x == DT(tx, txo, ry, ryo, hd, t)))
                    else:
                        out.append(('real %s is the distance to the decoded word' % nm, x == DD(xd, xdo, ry, ryo, hd, t)))
            return out
        c.hint(hint)
        c.measure(lambda h: 2 ** 31 - h.v(c.elem(sim, h.v(c.field(sim, 'csnrn')), 'pt', 'trn')))
    pt = lambda e: c.elem(sim, IntVal(0), 'pt', e)
    P = lambda p: {e: p.A(pt(e)) for e in EV}
    EVp = lambda p: {e: p.A(g.ev[e]) for e in EV}
    fin = lambda p: Not(p.res == -1)
    for j, e in enumerate(EV):
        c.ensures('every trial is counted exactly once: ' + e, (lambda j: lambda p: Implies(fin(p), counted(P(p), EVp(p))[j][1]))(j))
    c.ensures('completed SNR values have the requested trials and enough block errors', lambda p: Implies(fin(p), passed(P(p), EVp(p), p.A(TR), p.v(c.field(sim, 'csnrn')))[1]))
    c.ensures('success means every SNR value is complete', lambda p: Implies(p.res == 0, p.v(c.field(sim, 'csnrn')) == S))
    c.ensures('the requested number of trials is never lowered', lambda p: raised(p.A(TR))[1])
    c.ensures('SNR number moves forward only', lambda p: And(p.v(c.field(sim, 'csnrn')) >= cs0, p.v(c.field(sim, 'csnrn')) <= S))


SIM['enc_bpsk'] = Contract('enc_bpsk', s_encs)
SIM['dec_bpsk'] = Contract('dec_bpsk', s_decs)
SIM['cdc_set_sg'] = Contract('cdc_set_sg', s_setsg)
SIM['cdc_set_csnrn'] = Contract('cdc_set_csnrn', s_setcs)
SIM['copy_add_noise'] = Contract('copy_add_noise', s_noise_call)
SIM['sim_run'] = Contract('sim_run', s_run, setup=setup_sim)

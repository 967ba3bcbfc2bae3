"""Mathematical vocabulary of the contracts (uninterpreted functions with axioms).

Axioms are only added to a query in which the symbol they constrain occurs.
Recursive spec functions have no quantified unfolding axiom: their definition is
instantiated at explicit arguments by `unfold_*` (a definitional instance).
"""
import z3
from z3 import Int, Real, IntVal, RealVal, And, Or, Not, Implies, If, ForAll, Function, IntSort, RealSort, BoolSort, ArraySort

def _has_ite(t):
    st = [t]
    while st:
        x = st.pop()
        if z3.is_app_of(x, z3.Z3_OP_ITE) or z3.is_quantifier(x):
            return True
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            return True
        st.extend(x.children())
    return False


_zForAll = z3.ForAll


def ForAll(vs, body, patterns=()):
    """z3.ForAll that drops patterns z3 would refuse"""
    ps = [p for p in patterns if not _has_ite(p if z3.is_expr(p) else z3.BoolVal(True))]
    try:
        return _zForAll(vs, body, patterns=ps)
    except z3.Z3Exception:
        return _zForAll(vs, body)


z3.ForAll = ForAll

I, R, B = IntSort(), RealSort(), BoolSort()
AI = ArraySort(I, I)
AR = ArraySort(I, R)

pow2 = Function('pow2', I, I)
imul = Function('imul', I, I, I)      # product of two non-constant ints
bxor = Function('bxor', I, I, I)
band = Function('band', I, I, I)
bor = Function('bor', I, I, I)
rmul = Function('rmul', R, R, R)
rdiv = Function('rdiv', R, R, R)
rlog = Function('rlog', R, R)
rexp = Function('rexp', R, R)
rsqrt = Function('rsqrt', R, R)

_ax = {}     # decl name -> list of (axiom, description)


def axiom(fn, ax, desc):
    _ax.setdefault(fn.name(), []).append((ax, desc))


a, b, c, d = z3.Ints('ax!a ax!b ax!c ax!d')
u, v, w = z3.Reals('ax!u ax!v ax!w')

axiom(pow2, pow2(0) == 1, 'pow2(0)=1')
axiom(pow2, ForAll([a], Implies(a >= 0, pow2(a) >= 1), patterns=[pow2(a)]), 'pow2>=1')
axiom(pow2, ForAll([a, b], Implies(And(0 <= a, a < b), 2 * pow2(a) <= pow2(b)), patterns=[z3.MultiPattern(pow2(a), pow2(b))]), 'pow2 strictly monotone')
axiom(pow2, ForAll([a], Implies(And(a >= 0, a <= 30), pow2(a) <= 2 ** 30), patterns=[pow2(a)]), 'pow2(a)<=2^30 for a<=30')
axiom(pow2, ForAll([a], Implies(a >= 0, pow2(a) > a), patterns=[pow2(a)]), 'pow2(a)>a')

axiom(bxor, ForAll([a, b], Implies(And(0 <= a, a <= 1, 0 <= b, b <= 1), bxor(a, b) == If(a == b, 0, 1)), patterns=[bxor(a, b)]), 'xor on bits')
axiom(bxor, ForAll([a], bxor(a, 0) == a, patterns=[bxor(a, 0)]), 'x^0')
axiom(bxor, ForAll([a, b], bxor(a, b) == bxor(b, a), patterns=[bxor(a, b)]), 'xor commutes')
axiom(bxor, ForAll([a], bxor(a, a) == 0, patterns=[bxor(a, a)]), 'x^x')
axiom(bxor, ForAll([a, b], Implies(And(0 <= a, 0 <= b), And(bxor(a, b) >= 0, bxor(a, b) <= a + b, (bxor(a, b) == 0) == (a == b))), patterns=[bxor(a, b)]), 'xor of non-negatives')
axiom(band, ForAll([a], Implies(a >= 0, And(band(a, 1) == a % 2)), patterns=[band(a, 1)]), 'and with 1')
axiom(band, ForAll([a, b], Implies(And(0 <= a, 0 <= b), And(band(a, b) >= 0, band(a, b) <= a, band(a, b) <= b)), patterns=[band(a, b)]), 'and range')
axiom(imul, ForAll([a, b], imul(a, b) == imul(b, a), patterns=[imul(a, b)]), 'imul commutes')
axiom(imul, ForAll([a, b], Implies(And(a >= 0, b >= 0), imul(a, b) >= 0), patterns=[imul(a, b)]), 'imul sign')
axiom(imul, ForAll([a], And(imul(a, 0) == 0, imul(0, a) == 0), patterns=[imul(a, 0)]), 'imul zero')
axiom(imul, ForAll([a], And(imul(a, 1) == a), patterns=[imul(a, 1)]), 'imul one')

# --- reals
axiom(rmul, ForAll([u, v], rmul(u, v) == rmul(v, u), patterns=[rmul(u, v)]), 'rmul commutes')
axiom(rmul, ForAll([u, v], And(
    Implies(And(u > 0, v > 0), rmul(u, v) > 0), Implies(And(u < 0, v < 0), rmul(u, v) > 0),
    Implies(And(u > 0, v < 0), rmul(u, v) < 0), Implies(And(u < 0, v > 0), rmul(u, v) < 0),
    Implies(Or(u == 0, v == 0), rmul(u, v) == 0)), patterns=[rmul(u, v)]), 'rmul sign')
axiom(rmul, ForAll([u, v], And(Implies(v == 1, rmul(u, v) == u), Implies(v == -1, rmul(u, v) == -u)), patterns=[rmul(u, v)]), 'rmul by +-1')
axiom(rmul, ForAll([u, v], Implies(And(-1 <= v, v <= 1), And(Implies(u >= 0, And(rmul(u, v) <= u, rmul(u, v) >= -u)),
      Implies(u <= 0, And(rmul(u, v) >= u, rmul(u, v) <= -u)))), patterns=[rmul(u, v)]), '|rmul(u,v)|<=|u| for |v|<=1')
axiom(rdiv, ForAll([u, v], Implies(v > 0, And(
    (rdiv(u, v) > 0) == (u > 0), (rdiv(u, v) < 0) == (u < 0), (rdiv(u, v) > 1) == (u > v),
    (rdiv(u, v) < 1) == (u < v), (rdiv(u, v) < -1) == (u < -v), (rdiv(u, v) > -1) == (u > -v))), patterns=[rdiv(u, v)]), 'rdiv sign and size')
axiom(rlog, rlog(1) == 0, 'log 1')
axiom(rlog, ForAll([u], Implies(u > 0, And((rlog(u) > 0) == (u > 1), (rlog(u) < 0) == (u < 1))), patterns=[rlog(u)]), 'log sign')
axiom(rlog, ForAll([u, v], Implies(And(0 < u, 0 < v), (rlog(u) < rlog(v)) == (u < v)), patterns=[z3.MultiPattern(rlog(u), rlog(v))]), 'log monotone')
axiom(rsqrt, ForAll([u], And(Implies(u >= 0, rsqrt(u) >= 0), Implies(u > 0, rsqrt(u) > 0)), patterns=[rsqrt(u)]), 'sqrt sign')
rtanh = Function('rtanh', R, R)
axiom(rtanh, ForAll([u], And((rtanh(u) > 0) == (u > 0), (rtanh(u) < 0) == (u < 0), rtanh(u) < 1, rtanh(u) > -1), patterns=[rtanh(u)]), 'tanh sign and range')
axiom(rexp, ForAll([u], And(rexp(u) > 0, (rexp(u) > 1) == (u > 0), (rexp(u) < 1) == (u < 0)), patterns=[rexp(u)]), 'exp')


def defs_in(terms):
    """Names of uninterpreted functions occurring in the given formulas."""
    seen, out = set(), set()
    st = list(terms)
    while st:
        t = st.pop()
        k = t.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(t):
            st.append(t.body())
            for i in range(t.num_patterns()):
                st.append(t.pattern(i))
            continue
        if z3.is_app(t):
            dcl = t.decl()
            if dcl.kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
                out.add(dcl.name())
            st.extend(t.children())
    return out


def axioms_for(terms):
    done, axs = set(), []
    work = sorted(defs_in(terms), reverse=True)
    while work:
        n = work.pop()
        if n in done:
            continue
        done.add(n)
        for (f, _) in _ax.get(n, []):
            axs.append(f)
            for k in sorted(defs_in([f])):
                if k not in done:
                    work.append(k)
    return axs


def used_axioms(terms):
    return sorted({dsc for n in defs_in(terms) for (_, dsc) in _ax.get(n, [])})


# ------------------------------------------------------------ quantifier helpers
_q = [0]


def forall_int(lo, hi, body, pat=None, name='k'):
    """forall k. lo<=k<hi -> body(k)."""
    _q[0] += 1
    k = Int('%s!q%d' % (name, _q[0]))
    bd = body(k)
    g = Implies(And(lo <= k, k < hi), bd)
    if pat is None:
        return ForAll([k], g)
    ps = pat(k)
    if not isinstance(ps, (list, tuple)):
        ps = [ps]
    return ForAll([k], g, patterns=list(ps))


def Sel(A, *i):
    return z3.Select(A, *i)


def is_bits(A, lo, hi):
    return forall_int(lo, hi, lambda k: And(0 <= Sel(A, k), Sel(A, k) <= 1), pat=lambda k: Sel(A, k))


# ------------------------------------------------------------ spec functions: codes
K = Function('K', I, I, I)                       # dimension of RM(r,m), args (m,r)
E = Function('E', I, I, AI, I, I, I)             # E(m,r,X,xo,i): i-th code bit
TT = Function('TT', I, AI, I, I, I)              # TT(m,X,xo,i): i-th bit of the (m,m) transform


def unfold_K(m, r):
    return [Implies(And(0 <= r, r <= m), K(m, r) == If(r == 0, 1, If(r == m, pow2(m), K(m - 1, r - 1) + K(m - 1, r))))]


def lemma_K(m, r):
    """instances of the separately proved lemma L_K: 1 <= K(m,r) <= 2^m (0<=r<=m), K(m,m)=2^m"""
    return [Implies(And(0 <= r, r <= m), And(K(m, r) >= 1, K(m, r) <= pow2(m)))]


def pow2_step(m):
    return [Implies(m >= 1, pow2(m) == 2 * pow2(m - 1))]


def unfold_E(m, r, X, xo):
    h = pow2(m - 1)
    r1 = If(r == m, m - 1, r)
    kv = K(m - 1, r - 1)
    _q[0] += 1
    i = Int('i!E%d' % _q[0])
    n = pow2(m)
    base = ForAll([i], Implies(And(r == 0, 0 <= i, i < n), E(m, r, X, xo, i) == Sel(X, xo)), patterns=[E(m, r, X, xo, i)])
    v = E(m - 1, r - 1, X, xo, i)
    uu = E(m - 1, r1, X, xo + kv, i)
    rec1 = ForAll([i], Implies(And(0 < r, r <= m, 0 <= i, i < h), E(m, r, X, xo, i) == bxor(v, uu)), patterns=[E(m, r, X, xo, i)])
    _q[0] += 1
    j = Int('i!E%d' % _q[0])
    rec2 = ForAll([j], Implies(And(0 < r, r <= m, h <= j, j < n), E(m, r, X, xo, j) == E(m - 1, r1, X, xo + kv, j - h)), patterns=[E(m, r, X, xo, j)])
    return [base, rec1, rec2]


def bits_E(m, r, X, xo):
    """lemma L_Ebits: E is a bit when the information is bits."""
    return [Implies(And(0 <= r, r <= m, is_bits(X, xo, xo + K(m, r))),
                    forall_int(IntVal(0), pow2(m), lambda i: And(0 <= E(m, r, X, xo, i), E(m, r, X, xo, i) <= 1), pat=lambda i: E(m, r, X, xo, i)))]


def unfold_T(m, X, xo):
    h = pow2(m - 1)
    n = pow2(m)
    _q[0] += 1
    i = Int('i!T%d' % _q[0])
    j = Int('j!T%d' % _q[0])
    t = TT(m, X, xo, i)
    return [Implies(m == 0, TT(m, X, xo, 0) == Sel(X, xo)),
            ForAll([i], Implies(And(m > 0, 0 <= i, i < h), t == bxor(TT(m - 1, X, xo, i), TT(m - 1, X, xo + h, i))), patterns=[t]),
            ForAll([j], Implies(And(m > 0, h <= j, j < n), TT(m, X, xo, j) == TT(m - 1, X, xo + h, j - h)), patterns=[TT(m, X, xo, j)])]


# ------------------------------------------------------------ masks: SubRM (tr0) and par0 codes
# N(no) : node mask array with offset.  NN/PN: number of end nodes, SK/PK: dimension, SE/PE: code bit
NN = Function('NN', I, I, I)
PN = Function('PN', I, I, I)
SK = Function('SK', I, I, AI, I, I)              # SK(m,r,N,no)
PK = Function('PK', I, I, AI, I, I)
SE = Function('SE', I, I, AI, I, AI, I, I, I)    # SE(m,r,N,no,X,xo,i)
PE = Function('PE', I, I, AI, I, AI, I, I, I)


def unfold_NN(m, r):
    return [Implies(And(0 <= r, r <= m), NN(m, r) == If(Or(r == 0, r == m), 1, NN(m - 1, r - 1) + NN(m - 1, r)))]


def unfold_PN(m, r):
    return [Implies(And(0 <= r, r <= m), PN(m, r) == If(r == 0, 1, PN(m - 1, r - 1) + PN(m - 1, If(r == m, r - 1, r))))]


def unfold_SK(m, r, N, no):
    return [Implies(And(0 <= r, r <= m), SK(m, r, N, no) ==
            If(r == 0, If(Sel(N, no) == 0, 0, 1), If(r == m, If(Sel(N, no) == 0, 0, pow2(m)),
               SK(m - 1, r - 1, N, no) + SK(m - 1, r, N, no + NN(m - 1, r - 1)))))] + unfold_NN(m, r)


def unfold_PK(m, r, N, no):
    return [Implies(And(0 <= r, r <= m), PK(m, r, N, no) ==
            If(r == 0, If(Sel(N, no) == 0, 0, 1),
               PK(m - 1, r - 1, N, no) + PK(m - 1, If(r == m, r - 1, r), N, no + PN(m - 1, r - 1))))] + unfold_PN(m, r)


def _ij(n=2):
    _q[0] += 1
    return [Int('i!u%d_%d' % (_q[0], k)) for k in range(n)]


def unfold_SE(m, r, N, no, X, xo):
    h, n = pow2(m - 1), pow2(m)
    i, j = _ij()
    t, tj = SE(m, r, N, no, X, xo, i), SE(m, r, N, no, X, xo, j)
    k, o = SK(m - 1, r - 1, N, no), no + NN(m - 1, r - 1)
    ok = And(0 <= r, r <= m)
    u = lambda q: SE(m - 1, r, N, o, X, xo + k, q)
    return [ForAll([i], Implies(And(r == 0, 0 <= m, 0 <= i, i < n), t == If(Sel(N, no) == 0, 0, Sel(X, xo))), patterns=[t]),
            ForAll([i], Implies(And(ok, r == m, r > 0, 0 <= i, i < n), t == If(Sel(N, no) == 0, 0, TT(m, X, xo, i))), patterns=[t]),
            ForAll([i], Implies(And(0 < r, r < m, 0 <= i, i < h), t == bxor(SE(m - 1, r - 1, N, no, X, xo, i), u(i))), patterns=[t]),
            ForAll([j], Implies(And(0 < r, r < m, h <= j, j < n), tj == u(j - h)), patterns=[tj])]


def unfold_PE(m, r, N, no, X, xo):
    h, n = pow2(m - 1), pow2(m)
    i, j = _ij()
    t, tj = PE(m, r, N, no, X, xo, i), PE(m, r, N, no, X, xo, j)
    k, o = PK(m - 1, r - 1, N, no), no + PN(m - 1, r - 1)
    r1 = If(r == m, r - 1, r)
    u = lambda q: PE(m - 1, r1, N, o, X, xo + k, q)
    return [ForAll([i], Implies(And(r == 0, 0 <= m, 0 <= i, i < n), t == If(Sel(N, no) == 0, 0, Sel(X, xo))), patterns=[t]),
            ForAll([i], Implies(And(0 < r, r <= m, 0 <= i, i < h), t == bxor(PE(m - 1, r - 1, N, no, X, xo, i), u(i))), patterns=[t]),
            ForAll([j], Implies(And(0 < r, r <= m, h <= j, j < n), tj == u(j - h)), patterns=[tj])]


def rng(f, lo, hi):
    return And(lo <= f, f <= hi)


def lem_NN(m, r):
    return [Implies(And(0 <= r, r <= m), And(NN(m, r) >= 1, NN(m, r) <= pow2(m)))]


def lem_PN(m, r):
    return [Implies(And(0 <= r, r <= m), And(PN(m, r) >= 1, PN(m, r) <= pow2(m)))]


def lem_SK(m, r, N, no):
    return [Implies(And(0 <= r, r <= m), And(SK(m, r, N, no) >= 0, SK(m, r, N, no) <= pow2(m)))]


def lem_PK(m, r, N, no):
    return [Implies(And(0 <= r, r <= m), And(PK(m, r, N, no) >= 0, PK(m, r, N, no) <= pow2(m)))]


def lem_bits(F, m, lo, X, k, ok):
    """code bits are bits when the k information bits at X[lo..] are"""
    return [Implies(And(ok, is_bits(X, lo, lo + k)), forall_int(IntVal(0), pow2(m), lambda i: And(0 <= F(i), F(i) <= 1), pat=lambda i: F(i)))]


# ------------------------------------------------------------ binomials, counts, CRC
CB = Function('CB', I, I, I)          # binomial C(m,i), 0 for i>m
SB = Function('SB', I, I, I)          # sum_{i<=r} C(m,i)
CN = Function('CN', AI, I, I, I)      # sum of N[a..b)
RR = Function('RR', AI, I, AI, I, I, I, I, I)   # RR(X,xo,G,go,L,i,k): coefficient k after i division steps


def unfold_RR(X, xo, G, go, L, n):
    i, k = _ij()
    t = RR(X, xo, G, go, L, i + 1, k)
    z = RR(X, xo, G, go, L, 0, k)
    c = RR(X, xo, G, go, L, i, k)
    return [ForAll([k], Implies(And(0 <= k, k < n), z == Sel(X, xo + k)), patterns=[z])]


def step_RR(X, xo, G, go, L, i):
    """definition of division step i (explicit i), all k"""
    k = _ij(1)[0]
    t = RR(X, xo, G, go, L, i + 1, k)
    c = RR(X, xo, G, go, L, i, k)
    return [ForAll([k], t == If(And(i < k, k <= i + L, RR(X, xo, G, go, L, i, i) != 0), bxor(c, Sel(G, go + k - i - 1)), c), patterns=[t])]


def step_CN(N, a, b):
    return [CN(N, a, a) == 0, Implies(b > a, CN(N, a, b) == CN(N, a, b - 1) + Sel(N, b - 1))]


# ------------------------------------------------------------ number of occurrences in an array range
cnt = Function('cnt', AI, I, I, I, I)         # cnt(A,lo,hi,c) = |{k in [lo,hi): A[k]=c}|
cpos = Function('cpos', AI, I, I, I, I)       # a position of c when there is one
_A, _B = z3.Const('ax!A', AI), z3.Const('ax!B', AI)
_i, _x, _lo, _hi, _cc2 = z3.Ints('ax!i ax!x ax!lo ax!hi ax!c2')
# lemma cnt_update / cnt_in / cnt_pos / cnt_local (lemmas.py)
axiom(cnt, ForAll([_A, _i, _x, _lo, _hi, _cc2], Implies(And(_lo <= _i, _i < _hi), cnt(z3.Store(_A, _i, _x), _lo, _hi, _cc2) ==
      cnt(_A, _lo, _hi, _cc2) - If(Sel(_A, _i) == _cc2, 1, 0) + If(_x == _cc2, 1, 0)), patterns=[cnt(z3.Store(_A, _i, _x), _lo, _hi, _cc2)]), 'lemma cnt_update')
axiom(cnt, ForAll([_A, _lo, _hi, _cc2, _i], Implies(And(_lo <= _i, _i < _hi, Sel(_A, _i) == _cc2), cnt(_A, _lo, _hi, _cc2) >= 1), patterns=[z3.MultiPattern(cnt(_A, _lo, _hi, _cc2), Sel(_A, _i))]), 'lemma cnt_in')
axiom(cnt, ForAll([_A, _lo, _hi, _cc2], Implies(cnt(_A, _lo, _hi, _cc2) >= 1, And(_lo <= cpos(_A, _lo, _hi, _cc2), cpos(_A, _lo, _hi, _cc2) < _hi, Sel(_A, cpos(_A, _lo, _hi, _cc2)) == _cc2)),
      patterns=[cnt(_A, _lo, _hi, _cc2)]), 'lemma cnt_pos')


def def_cnt(A, lo, hi, cv):
    return [Implies(hi <= lo, cnt(A, lo, hi, cv) == 0), Implies(hi > lo, cnt(A, lo, hi, cv) == cnt(A, lo, hi - 1, cv) + If(Sel(A, hi - 1) == cv, 1, 0))]


def def_cpos(A, lo, hi, cv):
    return [Implies(hi > lo, cpos(A, lo, hi, cv) == If(Sel(A, hi - 1) == cv, hi - 1, cpos(A, lo, hi - 1, cv)))]


def imul_mono(*fs):
    """lemma imul_mono: rows of f cells each do not overlap"""
    out = []
    for f in fs:
        i, j = z3.Int('i!im'), z3.Int('j!im')
        out.append(ForAll([i, j], Implies(And(0 <= i, i < j, f >= 0), imul(i, f) + f <= imul(j, f)), patterns=[z3.MultiPattern(imul(i, f), imul(j, f))]))
    return out


def imul_dist(w, *parts):
    """lemma imul_dist: w is the sum of parts"""
    i = z3.Int('i!id')
    tot = IntVal(0)
    for q in parts:
        tot = tot + imul(i, q)
    return [Implies(w == sum(parts), ForAll([i], imul(i, w) == tot, patterns=[imul(i, w)] + [imul(i, q) for q in parts]))]


def imul_sum(w, tot, *parts):
    """lemma imul_sum: parts that fit in tot, w times each"""
    sm, rhs = IntVal(0), IntVal(0)
    for q in parts:
        sm, rhs = sm + q, rhs + imul(w, q)
    return [Implies(And(w >= 0, sm <= tot), rhs <= imul(w, tot))]


def imul_scale(w, *fs):
    """lemma imul_scale: x <= k*w -> f*x <= k*(f*w) for k = 1..4"""
    out = []
    for f in fs:
        x = z3.Int('x!is')
        out.append(ForAll([x], And(*[Implies(And(f >= 0, x <= k * w), imul(f, x) <= k * imul(f, w)) for k in (1, 2, 3, 4)]), patterns=[imul(f, x)]))
    return out


# ------------------------------------------------------------ text without its comments
CMODE = Function('CMODE', AI, I, I, I)        # 1: inside a comment after i characters
CLEN = Function('CLEN', AI, I, I, I)          # how many of the first i characters are kept
CCH = Function('CCH', AI, I, I, I, I)         # the j-th kept one of the first i characters
PCT, LF = 37, 10


def step_CM(A, o, i):
    """definition at character i (the empty prefix for i = 0)"""
    j = _ij(1)[0]
    ch = Sel(A, o + i)
    keep = If(CMODE(A, o, i) == 0, ch != PCT, ch == LF)
    t = CCH(A, o, i + 1, j)
    return [CMODE(A, o, 0) == 0, CLEN(A, o, 0) == 0,
            CMODE(A, o, i + 1) == If(CMODE(A, o, i) == 0, If(ch == PCT, IntVal(1), IntVal(0)), If(ch == LF, IntVal(0), IntVal(1))),
            CLEN(A, o, i + 1) == CLEN(A, o, i) + If(keep, IntVal(1), IntVal(0)),
            ForAll([j], t == If(And(keep, j == CLEN(A, o, i)), ch, CCH(A, o, i, j)), patterns=[t])]


# ------------------------------------------------------------ strings
NUL = Function('NUL', AI, I, I)               # position of the first terminator from i on (any position when there is none)
axiom(NUL, ForAll([_A, _i], NUL(_A, _i) >= _i, patterns=[NUL(_A, _i)]), 'NUL is the first terminator')
axiom(NUL, ForAll([_A, _i], Implies(Sel(_A, _i) == 0, NUL(_A, _i) == _i), patterns=[NUL(_A, _i)]), 'NUL is the first terminator')
axiom(NUL, ForAll([_A, _i, _x], Implies(And(_i <= _x, Sel(_A, _x) == 0), And(NUL(_A, _i) <= _x, Sel(_A, NUL(_A, _i)) == 0)),
                  patterns=[z3.MultiPattern(NUL(_A, _i), Sel(_A, _x))]), 'NUL is the first terminator')
axiom(NUL, ForAll([_A, _i, _x], Implies(And(_i <= _x, _x < NUL(_A, _i)), Sel(_A, _x) != 0),
                  patterns=[z3.MultiPattern(NUL(_A, _i), Sel(_A, _x))]), 'NUL is the first terminator')
axiom(NUL, ForAll([_A, _B, _i], Implies(Sel(_B, NUL(_A, _i)) == 0, NUL(_B, _i) <= NUL(_A, _i)),
                  patterns=[z3.MultiPattern(NUL(_A, _i), NUL(_B, _i))]), 'NUL is the first terminator (instance at another array)')

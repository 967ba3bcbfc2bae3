"""Contracts shared by the two list decoders (polar_scl_inner.c, dtrm_glp_inner.c)"""
from contracts import *
from theory import *


def bind(c, name, space=None):
    """give a global pointer variable a target block (verification of a body)"""
    if c.mode != 'verify':
        return
    ex = c.ex
    sp = ex.gspace(name)
    key = (sp, ())
    if key not in ex.leaf0:
        t = sp.elt
        tgt = space or Space(name, t.to)
        ex.leaf0[key] = Ptr(tgt, (), (IntVal(0),), t.to)


def permuted(A, B, lo, hi):
    """B[lo,hi) is a rearrangement of A[lo,hi) (same number of occurrences of every value)"""
    _q = th._q
    _q[0] += 1
    l, h, v = z3.Int('l!pm%d' % _q[0]), z3.Int('h!pm%d' % _q[0]), z3.Int('v!pm%d' % _q[0])
    return th.ForAll([l, h, v], Implies(And(l <= lo, hi <= h), cnt(B, l, h, v) == cnt(A, l, h, v)), patterns=[cnt(A, l, h, v), cnt(B, l, h, v)])


def members(A, B, lo, hi):
    """every entry of B[lo,hi) is an entry of A[lo,hi)"""
    return forall_int(lo, hi, lambda k: cnt(A, lo, hi, Sel(B, k)) >= 1, pat=lambda k: Sel(B, k))


def s_qpartition(c):
    v, n, k = c.p(0), c.i(1), c.i(2)
    bind(c, 'slist')
    s = c.gptr('slist')
    W = c.ghost('W', z3.IntSort())
    V, o = c.A(v), c.off(v)
    S, so = c.A(s), c.off(s)
    c.requires('0 <= k < len', And(0 <= k, k < n, W >= 0))
    c.reads(s, 0, W)
    c.writes(v, 0, n)
    cells = lambda A: forall_int(o, o + n, lambda i: And(0 <= Sel(A, i), Sel(A, i) < W), pat=lambda i: Sel(A, i))
    c.requires('entries are list cells', cells(V))
    met = lambda A, i: Sel(S, so + Sel(A, i))
    last = forall_int(o, o + n - 1, lambda i: met(V, i) < met(V, o + n - 1), pat=lambda i: Sel(V, i))
    c.decreases(2 * n + If(last, 1, 0))
    if c.mode == 'verify':
        def hint(h):
            A = h.A(v)
            out = []
            if not h.modified(v):
                return out
            out.append(('entries are rearranged', permuted(V, A, o, o + n)))
            out.append(('last entry in place', Sel(A, o + n - 1) == Sel(V, o + n - 1)))
            out.append(('entries are list cells', cells(A)))
            iv = h.ints()
            for a, x in enumerate(iv):
                out.append(('%d in range' % a, And(0 <= x, x <= n)))
                out.append(('entries before %d are not worse than the pivot' % a, forall_int(o, o + x, lambda i: met(A, i) >= met(V, o + n - 1), pat=lambda i: Sel(A, i))))
                out.append(('unless nothing was kept %d' % a, Implies(x == 0, A == V)))
                for b, y in enumerate(iv):
                    if a != b:
                        out.append(('%d<=%d' % (a, b), x <= y))
                        out.append(('entries in [%d,%d) are worse than the pivot' % (a, b), forall_int(o + x, o + y, lambda i: met(A, i) < met(V, o + n - 1), pat=lambda i: Sel(A, i))))
            return out
        c.hint(hint)
    c.ensures('entries are rearranged, none lost or duplicated', lambda p: permuted(V, p.A(v), o, o + n))
    c.ensures('every entry is an old entry', lambda p: members(V, p.A(v), o, o + n))
    i, j = z3.Int('i!qp'), z3.Int('j!qp')
    dist = lambda A: z3.ForAll([i, j], Implies(And(o <= i, i < j, j < o + n), Sel(A, i) != Sel(A, j)), patterns=[z3.MultiPattern(Sel(A, i), Sel(A, j))])
    v_ = z3.Int('v!qp')
    # lemmas cnt_dup, cnt_dist
    c.post_facts(lambda p: [z3.ForAll([i, j], Implies(And(o <= i, i < j, j < o + n, Sel(p.A(v), i) == Sel(p.A(v), j)), cnt(p.A(v), o, o + n, Sel(p.A(v), i)) >= 2), patterns=[z3.MultiPattern(Sel(p.A(v), i), Sel(p.A(v), j))]),
                            Implies(dist(V), z3.ForAll([v_], cnt(V, o, o + n, v_) <= 1, patterns=[cnt(V, o, o + n, v_)]))])
    c.ensures('distinct entries stay distinct', lambda p: Implies(dist(V), dist(p.A(v))))
    c.ensures('kept entries are at least as good as every dropped one', lambda p: z3.ForAll([i, j], Implies(And(o <= i, i < o + k, o + k <= j, j < o + n), met(p.A(v), i) >= met(p.A(v), j)),
              patterns=[z3.MultiPattern(Sel(p.A(v), i), Sel(p.A(v), j))]))


POLAR, GLP = {}, {}
POLAR['qpartition'] = Contract('qpartition', s_qpartition)
GLP['qpartition'] = Contract('qpartition', s_qpartition)

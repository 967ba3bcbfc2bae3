"""Contracts of common/spf_par.c"""
from contracts import *
from theory import *


def s_strip(c):
    """the characters outside comments, in order; a comment runs from '%' to the end of its line"""
    x, n, flag, d = c.p(0), c.i(1), c.i(2), c.p(3)
    alias = d.space is x.space
    c.requires('0<=length', And(0 <= n, n <= 2 ** 30))
    c.reads(x, 0, n)
    c.writes(d, 0, n + 1)
    X, xo, do = c.A(x), c.off(x), c.off(d)
    if c.mode == 'call' and alias and x.path == d.path and same(x.idx[-1], d.idx[-1]):
        c.same_ok.add((0, 1))
    if c.mode == 'verify':
        c.facts(step_CM(X, xo, IntVal(0)))

        def hint(h):
            out = []
            vs = h.ints()
            pos = [(nm, v) for nm, v in enumerate(vs)] + [('p%d' % k, v - b) for k, v in enumerate(h.idxs()) for b in ([xo] if alias else [xo, do])]
            D = h.A(d)
            for a, v in pos:
                h.fact(step_CM(X, xo, v))
                out.append(('prefix %s' % a, And(0 <= v, v <= n, 0 <= CLEN(X, xo, v), CLEN(X, xo, v) <= v)))
                out.append(('mode bit at %s' % a, And(0 <= CMODE(X, xo, v), CMODE(X, xo, v) <= 1)))
                for b, u in pos:
                    if u is v:
                        continue
                    out.append(('%s characters kept of %s' % (b, a), u == CLEN(X, xo, v)))
                for b, u in enumerate(vs):
                    if u is not v:
                        out.append(('%s tells whether %s is in a comment' % (b, a), (u != 0) == (CMODE(X, xo, v) != 0)))
                        out.append(('%s is the mode at %s' % (b, a), u == CMODE(X, xo, v)))
                for md in (0, 1):
                    out.append(('mode at %s is %d' % (a, md), CMODE(X, xo, v) == md))
                if h.modified(d):
                    out.append(('the first characters kept of %s are in place' % a,
                                forall_int(do, do + CLEN(X, xo, v), lambda k: Sel(D, k) == CCH(X, xo, v, k - do), pat=lambda k: Sel(D, k))))
                    if alias:
                        out.append(('source intact from %s' % a, forall_int(xo + v, xo + n, lambda k: Sel(D, k) == Sel(X, k), pat=lambda k: Sel(D, k))))
            return out
        c.hint(hint)
    L = CLEN(X, xo, n)
    c.ensures('as many characters as lie outside comments', lambda p: [p.res == L, 0 <= L, L <= n])
    c.ensures('the characters outside comments, in order', lambda p: forall_int(do, do + L, lambda k: Sel(p.A(d), k) == CCH(X, xo, n, k - do), pat=lambda k: Sel(p.A(d), k)))
    c.ensures('terminated when asked for', lambda p: Implies(flag == 1, Sel(p.A(d), do + L) == 0))



def s_read(c):
    """memory safety of the parser: whatever the files contain"""
    nm, out, flag = c.p(0), c.p(1), c.i(2)
    c.ex.charblocks = True
    N0 = NUL(c.A(nm), c.off(nm))
    c.reads(nm, 0, N0 + 1 - c.off(nm))
    c.modifies(out)
    pos = c.gcell('tk_pos')
    c.modifies(pos)
    seps, grp, inc = c.glob('token_seps'), c.glob('group_chars'), c.glob('include_token')
    for p in (seps, grp, inc):
        c.requires('%s is terminated' % p.space.name, Sel(c.A(p), p.space.size - 1) == 0)
    S = c.A(seps)
    c.requires('a blank separates tokens', And(Sel(S, 0) == 32, ForAll([z3.Int('k!sp')], Implies(And(0 <= z3.Int('k!sp'), z3.Int('k!sp') < seps.space.size - 1), Sel(S, z3.Int('k!sp')) != 0), patterns=[Sel(S, z3.Int('k!sp'))])))
    if c.mode == 'verify':
        ex = c.ex

        def toks(h):
            tk = getattr(ex, 'tkstr', None)
            if tk is None:
                return None
            out, seen = [], set()
            for v in h.head.env.values():
                if isinstance(v, Ptr) and v.space is tk.space and len(v.idx) == 1 and not v.path and v.idx[0].get_id() not in seen:
                    if not z3.is_int_value(z3.simplify(v.idx[0])):
                        seen.add(v.idx[0].get_id())
                        out.append(v)
            return tk, tk.idx[0], h.A(tk), h.v(pos), out

        def hint(h):
            q = toks(h)
            out = []
            caps = sorted({z3.simplify(sp.nbytes).as_long() // k for sp in getattr(ex, 'rawsp', ()) if z3.is_int_value(z3.simplify(sp.nbytes)) for k in (1, 2, 3)})
            vs = h.ints()
            for n_, u in enumerate(vs):
                out.append(('%d >= 0' % n_, u >= 0))
                out.append(('%d >= 1' % n_, u >= 1))
                for K in caps:
                    for d in (0, 1, 2):
                        out.append(('%d <= %d - %d' % (n_, K, d), u <= K - d))
            if q is None:
                return out
            tk, o, B, ps, ts = q
            out.append(('position not before the text', o <= ps))
            for n_, u in enumerate(h.envints()):
                e = o + u
                # each as a consequence of the one before: the terms it needs are then in the goal
                t0, t1, t2 = Sel(B, e) == 0, ps <= e, Or(Sel(B, e - 1) == 32, ps >= e)
                out.append(('text ends at %d' % n_, t0))
                out.append(('position not after %d' % n_, Implies(t0, t1)))
                out.append(('a separator before the end %d' % n_, Implies(And(t0, t1), t2)))
                for k, t in enumerate(ts):
                    z = NUL(B, t.idx[0])
                    H = And(t0, t1, t2)
                    for nm_, g in (('starts in the text, %d', o <= t.idx[0]), ('has an end, %d', t.idx[0] <= z), ('is closed, %d', Sel(B, z) == 0), ('ends not after %d', z <= e), ('ends before %d', z < e)):
                        out.append(('token %d ' % k + nm_ % n_, Implies(H, Or(t.null, g))))
            for k, t in enumerate(ts):
                out.append(('token %d lies before the position' % k, Or(t.null, And(o <= t.idx[0], NUL(B, t.idx[0]) <= ps))))
                out.append(('token %d is not empty' % k, Or(t.null, And(t.idx[0] < ps))))
            return out
        c.hint(hint)

        def textfacts(st, A, i):
            o, seen, out = ex.tkstr.idx[0], set(), []
            for u in st.env.values():
                if u is not None and z3.is_expr(u) and z3.is_int(u) and not z3.is_int_value(u) and u.get_id() not in seen:
                    seen.add(u.get_id())
                    out.append(Or(Sel(A, o + u - 1) == 32, i >= o + u))
            return out
        ex.textfacts = textfacts

        def m_outer(h):
            q = toks(h)
            return None if q is None else q[0].space.nbytes - q[3]

        def m_inner(h):
            q = toks(h)
            return None if q is None or not q[4] else NUL(q[2], q[4][-1].idx[0]) - q[4][-1].idx[0]
        ex.measures = (getattr(ex, 'measures', None) or []) + [m_outer, m_inner]
    c.ensures('returns success or failure', lambda p: Or(p.res == 0, p.res == -1))


SPF = {'strcpy_strip_comments': Contract('strcpy_strip_comments', s_strip, variants=[None, ('alias', [(0, 3)])])}
# not complete, used by no check: memory safety of the parser itself
SPF_DRAFT = dict(SPF)
SPF_DRAFT['spf_read_preparse_ext'] = Contract('spf_read_preparse_ext', s_read)
SPF_DRAFT['spf_read_preparse_ext'].scalars = (1,)

"""Trusted models of the C library functions the code calls (listed in the evidence)."""
import z3
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, RealVal
import sym, front, solver
from sym import Space, Ptr, Cont, fresh, Unsupported, same, TRUE, FALSE, NULLPTR, divide
from front import VOID
import theory as th


def malloc(ex, st, args, n):
    sz = sym.to_int(args[0])
    sp = Space('heap', None, None, nbytes=sz, local=True)
    nl = fresh('malloc_null', 'bool')
    if not hasattr(ex, 'rawsp'):
        ex.rawsp = []
    ex.rawsp.append(sp)
    if 'oom' in ex.gcells:             # ghost: some allocation failed
        cell = ex.gcells['oom']
        ex.raw_store(st, cell, If(nl, IntVal(1), ex.load(st, cell)))
    return Ptr(sp, (), (IntVal(0),), VOID, nl)


def free(ex, st, args, n):
    p = args[0]
    if not isinstance(p, Ptr):
        raise Unsupported('free of unknown pointer')
    if p.space is None:
        return IntVal(0)
    sp = p.space.base[0] if p.space.base is not None else p.space
    if p.space.base is not None:
        ex.ob(st, 'free', 'free of the start of a block', Or(p.null, p.space.base[1] == 0))
    elif p.idx:
        ex.ob(st, 'free', 'free of the start of a block', Or(p.null, p.idx[-1] == 0))
    if p.path:
        raise Unsupported('free of an inner pointer')
    if not sp.local:
        ex.ob(st, 'free', 'only blocks owned by the function are freed', Or(p.null, BoolVal(sp in getattr(ex, 'owned', ()))))
    if sp in st.freed:
        ex.ob(st, 'free', 'no double free of %s' % sp.name, Or(p.null, Not(st.freed[sp])))
    st.freed[sp] = z3.simplify(Or(st.freed.get(sp, FALSE), Not(p.null)))
    return IntVal(0)


def region(ex, st, p, cnt, write):
    """obligation: elements [idx, idx+cnt) accessible"""
    from contracts import Contract
    K = Contract('mem', None)
    K.check_range(ex, st, p, p.idx[-1], z3.simplify(p.idx[-1] + cnt), 'rw' if write else 'r')


def memcpy(ex, st, args, n, overlap=False):
    d, s, b = args[0], args[1], sym.to_int(args[2])
    for p in (d, s):
        if not isinstance(p, Ptr) or p.space is None:
            raise Unsupported('memcpy of unknown pointer')
        if not z3.is_false(p.null):
            ex.ob(st, 'null', 'memcpy argument not null', Not(p.null))
    dt, stt = ex.type_at(d.space, d.path), ex.type_at(s.space, s.path)
    if dt is not None and dt.kind == 'struct' and dt == stt:
        return struct_cpy(ex, st, d.w(ty=dt), s.w(ty=stt), b)
    if dt is None and stt is not None:
        raise Unsupported('memcpy into untyped memory')
    if dt != stt:
        raise Unsupported('memcpy between different types %r %r' % (dt, stt))
    d, s = d.w(ty=dt), s.w(ty=stt)
    sz = ex.u.sizeof(dt)
    cnt = divide(b, sz)
    if cnt is None:
        raise Unsupported('memcpy size')
    d, s = ex.norm(st, d), ex.norm(st, s)
    region(ex, st, d, cnt, True)
    region(ex, st, s, cnt, False)
    if d.space is s.space and d.path == s.path and not overlap:
        dif = [Not(x == y) for x, y in zip(d.idx[:-1], s.idx[:-1])]
        ex.ob(st, 'overlap', 'memcpy ranges do not overlap', Or(cnt <= 0, d.idx[-1] + cnt <= s.idx[-1], s.idx[-1] + cnt <= d.idx[-1], *dif))
    subs = [()]
    if dt.kind == 'ptr':
        key, sk = (d.space, d.path), (s.space, s.path)
        if sk in ex.ptrtgt and key not in ex.ptrtgt:
            ex.ptrtgt[key] = ex.ptrtgt[sk]
        if key in ex.ptrtgt and ex.ptrtgt.get(sk) is not None and ex.ptrtgt[sk][0] is not ex.ptrtgt[key][0]:
            raise Unsupported('memcpy of pointers into different blocks')
        if key not in ex.ptrtgt:
            raise Unsupported('memcpy of unknown pointers')
        subs = [(c,) for c in range(max(ex.ncomp(key, st), 1))]
    elif dt.kind == 'struct':
        raise Unsupported('memcpy of structs')
    for c in subs:
        et = front.INT if dt.kind == 'ptr' else dt
        copyrange(ex, st, (d.space, d.path) + c, (s.space, s.path) + c, d.idx, s.idx, cnt, et)
    return d


def sbounds(ex, st, p, t, b, cnt, write):
    """bounds of cnt structs at p"""
    if p.idx:
        region(ex, st, p, cnt, False)
    if write:
        for path, ty in ex.leaves(p.space, (), t):
            if p.idx:
                ex.check_assign(st, p.w(path=p.path + path), p.idx[-1], z3.simplify(p.idx[-1] + cnt))
            else:
                ex.check_assign(st, p.w(path=p.path + path))


def struct_cpy(ex, st, d, s, b):
    t = d.ty
    cnt = divide(b, ex.u.sizeof(t))
    if cnt is None:
        raise Unsupported('partial copy of a struct')
    one = same(cnt, IntVal(1))
    if not one and not (d.idx and s.idx):
        raise Unsupported('copy of several structs')
    sbounds(ex, st, d, t, b, cnt, True)
    sbounds(ex, st, s, t, b, cnt, False)
    for path, ty in list(ex.leaves(d.space, (), t)):
        if path.count('[]') or ty.kind == 'ptr':
            raise Unsupported('copy of a struct with arrays or pointers')
        if one:
            v = ex.getleaf(st, (s.space, s.path + path), ty, len(s.idx))
            if isinstance(v, Cont):
                v = v.read(s.idx)
            ex.raw_store(st, d.w(path=d.path + path, ty=ty), v)
        else:
            copyrange(ex, st, (d.space, d.path + path), (s.space, s.path + path), d.idx, s.idx, cnt, ty)
    return d


def copyrange(ex, st, dk, sk, di, si, cnt, et):
    nd, ns = len(di), len(si)
    old = ex.getleaf(st, dk, et, nd)
    src = ex.getleaf(st, sk, et, ns)
    nw = z3.Const('cpy!%d' % next(sym._cnt), old.base.sort())
    ks = [z3.Int('k!y%d' % next(sym._cnt)) for _ in range(nd)]
    ins = And(*([x == y for x, y in zip(ks[:-1], di[:-1])] + [di[-1] <= ks[-1], ks[-1] < di[-1] + cnt]))
    sv = z3.Select(src.term(), *(list(si[:-1]) + [ks[-1] - di[-1] + si[-1]]))
    sel = z3.Select(nw, *ks)
    st.assume(z3.ForAll(ks, sel == If(ins, sv, z3.Select(old.term(), *ks)), patterns=[sel]))
    st.mem[dk] = Cont(nw)
    if st.touched is not None:
        st.touched.add(dk)
    ex.logw(st, dk, [('pt', x) for x in di[:-1]] + [('rg', di[-1], z3.simplify(di[-1] + cnt))])


def zerorange(ex, st, key, t, idx, cnt):
    old = ex.getleaf(st, key, t, len(idx))
    nw = z3.Const('set!%d' % next(sym._cnt), old.base.sort())
    ks = [z3.Int('k!z%d' % next(sym._cnt)) for _ in idx]
    ins = And(*([x == y for x, y in zip(ks[:-1], idx[:-1])] + [idx[-1] <= ks[-1], ks[-1] < idx[-1] + cnt]))
    sel = z3.Select(nw, *ks)
    zero = RealVal(0) if t.kind == 'double' else IntVal(0)
    st.assume(z3.ForAll(ks, sel == If(ins, zero, z3.Select(old.term(), *ks)), patterns=[sel]))
    st.mem[key] = Cont(nw)
    if st.touched is not None:
        st.touched.add(key)
    ex.logw(st, key, [('pt', x) for x in idx[:-1]] + [('rg', idx[-1], z3.simplify(idx[-1] + cnt))])


def memset(ex, st, args, n):
    p, v, b = args[0], sym.to_int(args[1]), sym.to_int(args[2])
    if not isinstance(p, Ptr) or p.space is None:
        raise Unsupported('memset')
    if not z3.is_false(p.null):
        ex.ob(st, 'null', 'memset argument not null', Not(p.null))
    if not (z3.is_int_value(v) and v.as_long() == 0):
        raise Unsupported('memset with non zero')
    t = ex.type_at(p.space, p.path)
    if t is None:
        raise Unsupported('memset of untyped memory')
    if not p.idx:
        if not (z3.is_int_value(b) and b.as_long() == ex.u.sizeof(t)):
            raise Unsupported('partial memset of a struct')
        for path, ty in ex.leaves(p.space, p.path, t):
            k = path.count('[]')
            key = (p.space, path)
            if ty.kind == 'ptr':
                if k:
                    continue
                st.mem[key] = NULLPTR.w(ty=ty.to)
            else:
                zero = RealVal(0) if ty.kind == 'double' else IntVal(0)
                if k:
                    st.mem[key] = Cont(z3.K(z3.IntSort(), zero)) if k == 1 else Cont(ex.getleaf(st, key, ty, k).base)
                else:
                    st.mem[key] = zero
            if st.touched is not None:
                st.touched.add(key)
            ex.check_assign(st, p.w(path=path, ty=ty))
        return p
    if t.kind == 'struct':
        cnt = divide(b, ex.u.sizeof(t))
        if cnt is None:
            raise Unsupported('memset size')
        sbounds(ex, st, p, t, b, cnt, True)
        for path, ty in list(ex.leaves(p.space, (), t)):
            if path.count('[]') or ty.kind == 'ptr':
                raise Unsupported('memset of a struct with arrays or pointers')
            zero = RealVal(0) if ty.kind == 'double' else IntVal(0)
            if same(cnt, IntVal(1)):
                ex.raw_store(st, p.w(path=p.path + path, ty=ty), zero)
            else:
                zerorange(ex, st, (p.space, p.path + path), ty, p.idx, cnt)
        return p
    cnt = divide(b, ex.u.sizeof(t))
    if cnt is None:
        raise Unsupported('memset size')
    p = ex.norm(st, p.w(ty=t))
    region(ex, st, p, cnt, True)
    zerorange(ex, st, (p.space, p.path), t, p.idx, cnt)
    return p


def msg(ex, st, args, n):
    return IntVal(0)


def f_exp(ex, st, args, n):
    return th.rexp(args[0])


def f_tanh(ex, st, args, n):
    return th.rtanh(args[0])


def f_log(ex, st, args, n):
    ex.ob(st, 'domain', 'argument of log is positive', args[0] > 0)
    return th.rlog(args[0])


def f_sqrt(ex, st, args, n):
    ex.ob(st, 'domain', 'argument of sqrt is not negative', args[0] >= 0)
    return th.rsqrt(args[0])


def f_fabs(ex, st, args, n):
    return If(args[0] >= 0, args[0], -args[0])


RAND = z3.Function('RAND', z3.IntSort(), z3.IntSort())      # the n-th value drawn from the generator
RANDMAX = 2147483647


def f_rand(ex, st, args, n):
    cell = ex.ghostcell('rand_n')
    k = ex.getleaf(st, (cell.space, ()), cell.ty, 0)
    ex.check_assign(st, cell)
    ex.raw_store(st, cell, z3.simplify(k + 1))
    v = RAND(k)
    st.assume(And(v >= 0, v <= RANDMAX))
    return v


def f_time(ex, st, args, n):
    v = fresh('time')
    st.assume(And(v >= 0, v < 2 ** 62))
    p = args[0]
    if isinstance(p, Ptr) and p.space is not None:
        ex.store(st, p, v)
    return v


def f_pow(ex, st, args, n):
    ex.ob(st, 'domain', 'base of pow is positive', args[0] > 0)
    return th.rexp(sym.mk_rmul(th.rlog(args[0]), args[1]))


def f_qsort(ex, st, args, n):
    """qsort of an int array: a rearrangement (nothing is assumed about the order here)"""
    p, cnt = args[0], sym.to_int(args[1])
    cell = [q for q in st.env]      # noqa
    b = getattr(p, 'space', None)
    ty = ex.type_at(b, p.path) if b is not None else None
    if ty is None or ty.kind != 'int' or not (z3.is_int_value(args[2]) and args[2].as_long() == ex.u.sizeof(ty)):
        raise Unsupported('qsort of other than an int array')
    q = p.w(ty=ty)
    region(ex, st, q, cnt, True)
    q = ex.norm(st, q)
    key = (q.space, q.path)
    old = ex.getleaf(st, key, ty, 1)
    nw = z3.Const('sorted!%d' % next(sym._cnt), old.base.sort())
    o = q.idx[0]
    k = z3.Int('k!qs%d' % next(sym._cnt))
    st.assume(z3.ForAll([k], Or(And(o <= k, k < o + cnt), z3.Select(nw, k) == z3.Select(old.term(), k)), patterns=[z3.Select(nw, k)]))
    import k_list
    st.assume(k_list.permuted(old.term(), nw, o, o + cnt))
    st.assume(k_list.members(old.term(), nw, o, o + cnt))
    st.mem[key] = Cont(nw)
    if st.touched is not None:
        st.touched.add(key)
    ex.logw(st, key, [('rg', o, o + cnt)])
    ex.assumed.append('qsort rearranges the array')
    return IntVal(0)


def chars(ex, st, p, what):
    """(pointer, content, position) of a character string"""
    if not isinstance(p, Ptr) or p.space is None:
        raise Unsupported(what + ' of unknown pointer')
    if not z3.is_false(p.null):
        ex.ob(st, 'null', what + ' argument not null', Not(p.null))
    ty = ex.type_at(p.space, p.path)
    if ty is None or ty.kind != 'int' or ex.u.sizeof(ty) != 1 or len(p.idx) != 1:
        raise Unsupported(what + ' of other than characters: %r %r %r' % (p.space, ty, p.idx))
    p = ex.norm(st, p.w(ty=ty, null=FALSE))
    return p, ex.getleaf(st, (p.space, p.path), ty, 1).term(), p.idx[0]


def string(ex, st, p, what):
    """the same, with the obligation that it ends inside its object; also the position of the terminator"""
    p, A, i = chars(ex, st, p, what)
    N = th.NUL(A, i)
    region(ex, st, p, z3.simplify(N + 1 - i), False)
    st.assume(And(N >= i, z3.Select(A, N) == 0))
    return p, A, i, N


def f_strlen(ex, st, args, n):
    p, A, i, N = string(ex, st, args[0], 'strlen')
    return N - i


def f_strcmp(ex, st, args, n):
    string(ex, st, args[0], 'strcmp')
    string(ex, st, args[1], 'strcmp')
    v = fresh('strcmp')
    st.assume(And(v >= -2 ** 31, v < 2 ** 31))
    return v


def f_strcspn(ex, st, args, n):
    p, A, i, N = string(ex, st, args[0], 'strcspn')
    string(ex, st, args[1], 'strcspn')
    v = fresh('strcspn')
    st.assume(And(v >= 0, v <= N - i))
    return v


def setchars(ex, st, p, lo, hi, new):
    """new content of characters lo..hi-1 of the object of p (the rest is kept by construction)"""
    q = p.w(idx=(lo,))
    region(ex, st, q, z3.simplify(hi - lo), True)
    key = (p.space, p.path)
    st.mem[key] = Cont(new)
    if st.touched is not None:
        st.touched.add(key)
    ex.logw(st, key, [('rg', lo, hi)])


def f_strtok(ex, st, args, n):
    """the string being split and the position reached are ghost state"""
    cell = ex.ghostcell('tk_pos')
    first = isinstance(args[0], Ptr) and args[0].space is not None
    if first:
        p, A, i = chars(ex, st, args[0], 'strtok')
        tok = getattr(ex, 'tkstr', None)
        if tok is not None and tok.space is not p.space:
            raise Unsupported('strtok on two strings')
        ex.tkstr = p
    else:
        if getattr(ex, 'tkstr', None) is None:
            raise Unsupported('strtok without a string')
        i = ex.getleaf(st, (cell.space, ()), cell.ty, 0)
        p, A, i = chars(ex, st, ex.tkstr.w(idx=(i,)), 'strtok')
    p, A, i, N = string(ex, st, p, 'strtok')
    sp, S, si, SN = string(ex, st, args[1], 'strtok')
    # facts on the text before the call that a contract asks for: each is proved here, or left out
    for f in (ex.textfacts(st, A, i) if getattr(ex, 'textfacts', None) and not first else ()):
        if solver.prove(st.pc, f, 1500):
            st.assume(f)
    nl, t, e = fresh('strtok_null', 'bool'), fresh('strtok_tok'), fresh('strtok_end')
    k, j = z3.Int('k!tk%d' % next(sym._cnt)), z3.Int('j!tk%d' % next(sym._cnt))
    nw = z3.Const('strtok!%d' % next(sym._cnt), A.sort())
    st.assume(And(i <= t, t <= N, i <= e, e <= N, Or(nl, t < e)))
    st.assume(nw == If(nl, A, z3.Store(A, e, z3.IntVal(0))))
    st.assume(z3.ForAll([k, j], Implies(And(Not(nl), t <= k, k < e, si <= j, j < SN), z3.Select(A, k) != z3.Select(S, j)),
                        patterns=[z3.MultiPattern(z3.Select(A, k), z3.Select(S, j))]))
    nx = z3.simplify(If(nl, N, If(e < N, e + 1, N)))
    setchars(ex, st, p, t, z3.simplify(e + 1), nw)
    # what follows from the definitions: the token's terminator
    st.assume(Implies(Not(nl), th.NUL(nw, t) == e))
    ex.check_assign(st, cell)
    ex.raw_store(st, cell, nx)
    return p.w(idx=(t,), null=nl)


def f_fopen(ex, st, args, n):
    string(ex, st, args[0], 'fopen')
    sp = getattr(ex, 'filesp', None)
    if sp is None:
        sp = ex.filesp = Space('FILE', VOID, local=True)
    return Ptr(sp, (), (IntVal(0),), VOID, fresh('fopen_null', 'bool'))


def f_fread(ex, st, args, n):
    p, A, i = chars(ex, st, args[0], 'fread')
    cnt = sym.mk_mul(sym.to_int(args[1]), sym.to_int(args[2])) if hasattr(sym, 'mk_mul') else args[1] * args[2]
    if not (z3.is_int_value(args[1]) and args[1].as_long() == 1):
        raise Unsupported('fread of larger items')
    cnt = sym.to_int(args[2])
    nw = z3.Const('fread!%d' % next(sym._cnt), A.sort())
    k = z3.Int('k!fr%d' % next(sym._cnt))
    st.assume(z3.ForAll([k], Or(And(i <= k, k < i + cnt), z3.Select(nw, k) == z3.Select(A, k)), patterns=[z3.Select(nw, k)]))
    setchars(ex, st, p, i, z3.simplify(i + cnt), nw)
    v = fresh('fread')
    st.assume(And(v >= 0, v <= cnt))
    return v


def f_fclose(ex, st, args, n):
    if not isinstance(args[0], Ptr):
        raise Unsupported('fclose')
    if not z3.is_false(args[0].null):
        ex.ob(st, 'null', 'fclose of an open file', Not(args[0].null))
    return IntVal(0)


def memmove(ex, st, args, n):
    return memcpy(ex, st, args, n, overlap=True)


STUBS = {'strcmp': f_strcmp, 'strcspn': f_strcspn, 'strtok': f_strtok, 'fopen': f_fopen, 'fread': f_fread, 'fclose': f_fclose, 'strlen': f_strlen, 'qsort': f_qsort, 'rand': f_rand, 'time': f_time, 'pow': f_pow, 'malloc': malloc, 'free': free, 'memcpy': memcpy, 'memmove': memmove, 'memset': memset, 'exp': f_exp, 'log': f_log, 'sqrt': f_sqrt,
         'fabs': f_fabs, 'err_msg': msg, 'show_msg': msg, 'msg_printf': msg, 'msg_flush': msg, 'printf': msg, 'tanh': f_tanh}
STUBS = {k: v for k, v in STUBS.items() if v}

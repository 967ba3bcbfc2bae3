"""Back ends: in-process z3 (E-matching only) first, then cvc5 / z3 binaries on SMT-LIB text."""
import z3, os, subprocess, tempfile, time
import theory as th

CVC5 = os.environ.get('ECV_CVC5', 'cvc5')


RL = 4000      # z3 resource units per nominal millisecond: results do not depend on machine load


def limit(s, ms):
    s.set('rlimit', int(ms) * RL)
    s.set('timeout', int(ms) * 10)


def mk(ms, arith=None):
    s = z3.SimpleSolver()
    limit(s, ms)
    s.set('auto_config', False)
    s.set('mbqi', False)
    s.set('smt.qi.eager_threshold', 30.0)
    return s


def load(pc, goal=None, ms=3000):
    s = mk(ms)
    fs = list(pc) + ([goal] if goal is not None else [])
    for a in th.axioms_for(fs):
        s.add(a)
    seen = set()
    for f in pc:
        k = f.get_id()
        if k in seen:
            continue
        seen.add(k)
        s.add(f)
    return s


def prove(pc, goal, ms=3000):
    g = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
    if z3.is_true(g):
        return True
    s = load(pc, goal, ms)
    s.add(z3.Not(goal))
    try:
        return s.check() == z3.unsat
    except z3.Z3Exception:
        return False


class Batch:
    """many goals under the same facts"""
    def __init__(s, pc, goals, ms=2500):
        s.s = mk(ms)
        for a in th.axioms_for(list(pc) + list(goals)):
            s.s.add(a)
        seen = set()
        for f in pc:
            if f.get_id() not in seen:
                seen.add(f.get_id())
                s.s.add(f)

    def prove(s, g, ms=None):
        s.s.push()
        if ms:
            limit(s.s, ms)
        s.s.add(z3.Not(g))
        try:
            r = s.s.check() == z3.unsat
        except z3.Z3Exception:
            r = False
        s.s.pop()
        return r


def smt2(pc, goal):
    s = z3.Solver()
    for a in th.axioms_for(list(pc) + [goal]):
        s.add(a)
    for f in pc:
        s.add(f)
    s.add(z3.Not(goal))
    return '(set-logic ALL)\n' + '\n'.join(l for l in s.to_smt2().splitlines() if not l.startswith('(set-'))


def run_bin(cmd, text, sec):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(text)
        fn = f.name
    try:
        r = subprocess.run(cmd + [fn], capture_output=True, text=True, timeout=sec + 5)
        return (r.stdout + r.stderr).strip()
    except subprocess.TimeoutExpired:
        return 'timeout'
    except OSError as e:
        return 'error %s' % e
    finally:
        os.unlink(fn)


def symbols(f):
    """arrays and uninterpreted functions of a formula (products and powers of two occur everywhere)"""
    out, seen, work = set(), set(), [f]
    while work:
        e = work.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            work.append(e.body())
            continue
        if z3.is_app(e):
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and (d.arity() > 0 or z3.is_array(e)) and d.name() not in ('imul', 'pow2'):
                out.add(d.name())
            work.extend(e.children())
    return out


def hasq(f):
    seen, work = set(), [f]
    while work:
        e = work.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            return True
        work.extend(e.children())
    return False


def relevant(pc, goal, hops):
    """facts that share a symbol with the goal (a subset of the facts: proving with it is sound); hops 0: facts without quantifiers"""
    qs = [(f, symbols(f)) if hasq(f) else (f, None) for f in pc]
    if hops == 0:
        return [f for f, sy in qs if sy is None]
    S = symbols(goal)
    keep = set()
    for _ in range(hops):
        new = set()
        for i, (f, sy) in enumerate(qs):
            if sy is not None and i not in keep and sy & S:
                keep.add(i)
                new |= sy
        S |= new
    return [f for i, (f, sy) in enumerate(qs) if sy is None or i in keep]


def portfolio(pc, goal, sec=20):
    """several back ends and subsets of the facts at once; the name of the first that proves the goal, or ''"""
    full = smt2(pc, goal)
    z = ['z3-new', 'auto_config=false', 'smt.mbqi=false', '-T:%d' % sec]
    runs = [('z3-new', z + ['smt.qi.eager_threshold=30', 'smt.random_seed=7'], full), ('z3-new', z + ['smt.random_seed=3', 'smt.qi.eager_threshold=10'], full)]
    n = len(pc)
    for h in (0, 1, 2):
        sub = relevant(pc, goal, h)
        if len(sub) < n:
            n = len(sub) if h else n
            runs.append(('z3-new, %d of %d facts' % (len(sub), len(pc)), z + ['smt.qi.eager_threshold=30'], smt2(sub, goal)))
    runs.append(('cvc5', [CVC5, '--tlimit=%d' % (sec * 1000)], full))
    procs, files = [], []
    t0 = time.time()
    try:
        for nm, cmd, text in runs:
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write(text + ('' if '(check-sat)' in text else '\n(check-sat)\n'))
            files.append(f.name)
            procs.append((nm, subprocess.Popen(cmd + [f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        while procs and time.time() - t0 < sec + 5:
            for q in list(procs):
                if q[1].poll() is not None:
                    procs.remove(q)
                    if q[1].stdout.read().startswith('unsat'):
                        return q[0]
            time.sleep(0.02)
        return ''
    except OSError:
        return ''
    finally:
        for nm, q in procs:
            q.kill()
            q.wait()
        for f in files:
            os.unlink(f)


def discharge(ob, ms=15000, extra=True):
    """sets ob.res in proved/failed, ob.be, ob.time"""
    t = time.time()
    g = ob.goal
    if z3.is_true(g):
        ob.res, ob.be, ob.time = 'proved', 'simplifier', 0.0
        return True
    s = load(ob.pc, g, ms)
    s.add(z3.Not(g))
    why = ''
    try:
        r = s.check()
    except z3.Z3Exception as e:
        r, why = z3.unknown, str(e)
    if r == z3.unsat:
        ob.res, ob.be, ob.time = 'proved', 'z3', time.time() - t
        return True
    why = why or ('sat' if r == z3.sat else 'unknown: ' + s.reason_unknown())
    out = ['z3: %s (%.1fs)' % (why, time.time() - t)]
    if r == z3.sat or True:
        try:
            ob.model = None
        except Exception:
            pass
    if extra:
        # second strategy: default z3 configuration (mbqi)
        s2 = z3.SimpleSolver() if False else z3.Solver()
        limit(s2, ms)
        for a in th.axioms_for(list(ob.pc) + [g]):
            s2.add(a)
        for f in ob.pc:
            s2.add(f)
        s2.add(z3.Not(g))
        try:
            r2 = s2.check()
        except z3.Z3Exception:
            r2 = z3.unknown
        if r2 == z3.unsat:
            ob.res, ob.be, ob.time = 'proved', 'z3-mbqi', time.time() - t
            return True
        out.append('z3-mbqi: %s' % r2)
        if r2 == z3.sat:
            try:
                ob.model = str(s2.model())[:3000]
            except Exception:
                pass
        else:
            o = run_bin([CVC5, '--tlimit=%d' % ms], smt2(ob.pc, g), ms / 1000)
            if o.startswith('unsat'):
                ob.res, ob.be, ob.time = 'proved', 'cvc5', time.time() - t
                return True
            out.append('cvc5: ' + o[:200])
            w = portfolio(ob.pc, g, max(10, ms // 1000))
            if w:
                ob.res, ob.be, ob.time = 'proved', w, time.time() - t
                return True
    ob.res, ob.be, ob.time = 'failed', '; '.join(out), time.time() - t
    return False

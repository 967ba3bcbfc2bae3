"""Property checker: verifies the functions a property depends on, discharges the lemmas, runs the
concrete replay harness, writes evidence and prints the verdict.   usage: run.py PROPERTY
"""
import sys, os, signal, time, json, traceback, subprocess, shutil, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import multiprocessing as mp, multiprocessing.pool
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import z3
import front, sym, contracts, solver, lemmas, lem_rm1
import theory as th
from stubs import STUBS
import props

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JOBS = int(os.environ.get('ECV_JOBS', '8'))
OBMS = 15000 if TIER == 'quick' else 40000


def obrow(o, with_text):
    d = dict(func=o.func, kind=o.kind, name=o.name, line=o.line, res=o.res, be=o.be, time=round(o.time or 0, 3))
    if o.res != 'proved':
        d['model'] = o.model
        if with_text:
            try:
                d['smt'] = solver.smt2(o.pc, o.goal)[:200000]
            except Exception:
                d['smt'] = '(not printable)'
    return d


_inv = None


def invcache():
    """invariants found by earlier runs, by function (proposals only: every run proves them again)"""
    global _inv
    if _inv is None:
        try:
            _inv = json.load(open(os.path.join(VERIF, 'ecv', 'invariants.json')))
        except (OSError, ValueError):
            _inv = {}
    return _inv


PAR = [1]


def discharge_all(obs, ms, failfast=False, par=None):
    """discharge in forked children; returns True when all are proved"""
    par = par or PAR[0]
    par = min(par, (len(obs) + 3) // 4)
    if par <= 1:
        ok = True
        for o in obs:
            if not solver.discharge(o, ms=ms, extra=not failfast):
                ok = False
                if failfast:
                    return False
        return ok
    pids = []
    for w in range(par):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            rows = []
            try:
                os.close(r)
                for i in range(w, len(obs), par):
                    o = obs[i]
                    okk = solver.discharge(o, ms=ms, extra=not failfast)
                    rows.append((i, o.res, o.be, o.time, o.model))
                    if failfast and not okk:
                        break
                with os.fdopen(wr, 'w') as f:
                    json.dump(rows, f)
            finally:
                os._exit(0)
        os.close(wr)
        pids.append((pid, r))
    for pid, r in pids:
        with os.fdopen(r) as f:
            txt = f.read()
        os.waitpid(pid, 0)
        for (i, a, b, c, d) in json.loads(txt or '[]'):
            o = obs[i]
            o.res, o.be, o.time, o.model = a, b, c, d
    for o in obs:
        if o.res is None:
            o.res, o.be, o.time = 'failed', 'not reached', 0.0
    return all(o.res == 'proved' for o in obs)


def verify_fn(K, u, job, opts):
    """generate and discharge the obligations of one function; invariants of an earlier run first"""
    _, modn, tab, src, defs, fname = job
    inv = invcache().get('%s:%s' % (tab, fname))
    if inv is not None and not os.environ.get('ECV_NOCACHE'):
        try:
            exs = K[fname].verify(u, K, STUBS, dict(opts, invs=inv))
            if discharge_all([o for ex in exs for o in ex.obs], OBMS, failfast=True):
                return exs
        except sym.Unsupported:
            pass
    exs = K[fname].verify(u, K, STUBS, opts)
    discharge_all([o for ex in exs for o in ex.obs], OBMS)
    return exs


def work(job):
    """one function (all its variants and cases) -> result dict"""
    kind = job[0]
    t0 = time.time()
    res = dict(job=job, obs=[], unsupported=None, loops=[], used=[], inlined=[], stubs=[], vac=[], axioms=[], assumed=[])
    try:
        if kind == 'lemma':
            obs = lemmas.obligations([job[1]])
            for o in obs:
                solver.discharge(o, ms=OBMS)
                res['obs'].append(obrow(o, True))
            if not solver.prove(list(obs[0].pc), z3.BoolVal(False), 1500):
                pass
            else:
                res['vac'].append('lemma %s: facts are contradictory' % job[1])
        elif kind == 'fn':
            _, modn, tab, src, defs, fname = job
            K = getattr(__import__(modn), tab)
            u = front.unit(src, list(defs), [])
            opts = dict(timeout=props.FN_TIMEOUT)
            exs = verify_fn(K, u, job, opts)
            names = set()
            for ex in exs:
                for o in ex.obs:
                    res['obs'].append(obrow(o, True))
                    names |= th.defs_in(list(o.pc) + [o.goal])
                res['loops'] += [list(x) for x in ex.loops]
                res['used'] = sorted(set(res['used']) | ex.used_contracts)
                res['inlined'] = sorted(set(res['inlined']) | ex.inlined)
                res['stubs'] = sorted(set(res['stubs']) | ex.used_stubs)
                res['assumed'] = sorted(set(res['assumed']) | set(getattr(ex, 'assumed', [])))
                dead = [solver.prove(p, z3.BoolVal(False), 1000) for p in ex.exits]
                if dead and all(dead) and not getattr(ex, 'maydie', False):
                    res['vac'].append('%s: every exit is unreachable under the contract' % fname)
                if solver.prove(ex.entry_pc, z3.BoolVal(False), 1000):
                    res['vac'].append('%s: precondition is contradictory' % fname)
            res['axioms'] = sorted({d for n in names for (_, d) in th._ax.get(n, [])})
    except (sym.Unsupported, front.FrontError, KeyError) as e:
        res['unsupported'] = '%s: %s' % (type(e).__name__, e)
        res['obs'] = []
    except Exception as e:
        res['unsupported'] = 'internal: %s: %s' % (type(e).__name__, e)
        res['tb'] = traceback.format_exc()[-2000:]
        res['obs'] = []
    res['time'] = round(time.time() - t0, 2)
    return res


def child(job, q, idx):
    try:
        os.setpgid(0, 0)
        r = work(job)
    except BaseException as e:
        r = dict(job=job, obs=[], unsupported='crash: %r' % e, loops=[], used=[], inlined=[], stubs=[], vac=[], axioms=[], assumed=[], time=0)
    q.put((idx, r))


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        p.kill()


def run_jobs(jobs, deadline, early=None):
    """process per job, JOBS at a time; a job that outlives the deadline is undecided.  early() may bring the deadline forward."""
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    pend, live, out = list(enumerate(jobs)), {}, {}
    blank = lambda j, why: dict(job=j, obs=[], unsupported=why, loops=[], used=[], inlined=[], stubs=[], vac=[], axioms=[], assumed=[], time=0)
    while pend or live:
        if early:
            deadline = min(deadline, early())
        while pend and len(live) < JOBS and time.time() < deadline:
            i, j = pend.pop(0)
            p = ctx.Process(target=child, args=(j, q, i), daemon=True)
            p.start()
            live[i] = (p, time.time(), j)
        try:
            i, r = q.get(timeout=0.3)
            out[i] = r
            if i in live:
                live.pop(i)[0].join(5)
            continue
        except Exception:
            pass
        for i, (p, t, j) in list(live.items()):
            if time.time() > deadline:
                stop(p)
                live.pop(i)
                out[i] = blank(j, 'time limit of the check')
            elif not p.is_alive():
                time.sleep(0.5)
                try:
                    while True:
                        k, r = q.get(timeout=0.2)
                        out[k] = r
                        live.pop(k, None)
                except Exception:
                    pass
                if i in live:
                    live.pop(i)
                    out[i] = blank(j, 'verifier process ended abnormally')
        if time.time() > deadline and pend:
            for i, j in pend:
                out[i] = blank(j, 'time limit of the check')
            pend = []
    return [out[i] for i in range(len(jobs))]


# ------------------------------------------------------------------ harness
def cc(args, timeout=240):
    return subprocess.run(args, capture_output=True, text=True, timeout=timeout)


def build_harness(h, tmp):
    """h: dict(name, src (list of repo files), defs, driver) -> exe path or None, log"""
    exe = os.path.join(tmp, h['name'])
    san = h.get('san', ['-fsanitize=address', '-fno-omit-frame-pointer'])
    objs, procs = [], []
    R = front.REPO
    inc = ['-I' + R, '-I' + os.path.join(R, 'lib'), '-I' + os.path.join(R, 'interfaces'), '-I' + os.path.join(R, 'common'), '-I' + os.path.join(VERIF, 'harness')]
    for f in h['src']:
        o = os.path.join(tmp, h['name'] + '_' + f.replace('/', '_') + '.o')
        procs.append((f, subprocess.Popen(['gcc', '-g', '-O1', '-w'] + san + h.get('cflags', []) + ['-D' + d for d in h['defs']] + inc + ['-c', os.path.join(VERIF, f[1:]) if f[0] == '@' else os.path.join(R, f), '-o', o],
                                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        objs.append(o)
    o = os.path.join(tmp, h['name'] + '_driver.o')
    procs.append((h['driver'], subprocess.Popen(['g++', '-g', '-O1', '-w', '-std=c++17'] + san + h.get('cxxflags', []) + ['-D' + d for d in h['defs']] + inc + ['-c', os.path.join(VERIF, 'harness', h['driver']), '-o', o],
                                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    objs.append(o)
    log, bad = '', False
    for (f, p) in procs:
        so, _ = p.communicate()
        if p.returncode:
            bad = True
            log += '%s: %s\n' % (f, so[-1500:])
    if bad:
        return None, log
    r = cc(['g++', '-o', exe] + san + objs + h.get('ldflags', []) + ['-lm'])
    if r.returncode:
        return None, r.stderr[-2000:]
    return exe, ''


def one_harness(a):
    h, tmp = a
    t0 = time.time()
    out = dict(name=h['name'], status='ok', cases=0, distinct=0, rule=h.get('rule', ''), fails=[], samples=[], log='')
    try:
        exe, log = build_harness(h, tmp)
        if exe is None:
            out.update(status='not built', log=log)
            return out
        lim = h.get('limit', 300)
        wd = os.path.join(tmp, 'wd_' + h['name'])
        os.makedirs(wd, exist_ok=True)
        env = dict(os.environ, VERIF_SEED=str(SEED), VERIF_TIER=TIER, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0', UBSAN_OPTIONS='abort_on_error=1:print_stacktrace=1', H_DATA=os.path.join(front.REPO, 'work'))
        try:
            r = subprocess.run([exe] + h.get('args', []), capture_output=True, text=True, errors='replace', timeout=lim, env=env, cwd=wd)
            so, rc = r.stdout, r.returncode
            se = r.stderr
        except subprocess.TimeoutExpired as e:
            so = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
            se, rc = 'harness time limit (%ds)' % lim, None
        for l in so.splitlines():
            if l.startswith('FAIL '):
                out['fails'].append(l[5:])
            elif l.startswith('SAMPLE '):
                out['samples'].append(l[7:])
            elif l.startswith('DONE '):
                for w in l.split()[1:]:
                    k, v = w.split('=')
                    out[k] = int(v)
        if rc not in (0, 1) and rc is not None and not out['fails']:
            out['fails'].append('crash: exit %s' % rc)
        if rc is None:
            out['status'] = 'time limit'
        out['log'] = (se or '')[-6000:]
    except Exception as e:
        out.update(status='error', log=repr(e))
    out['time'] = round(time.time() - t0, 1)
    return out


def run_harnesses(hs, tmp):
    with mp.pool.ThreadPool(4) as p:
        return p.map(one_harness, [(h, tmp) for h in hs])


# ------------------------------------------------------------------ verdict
def known(pid):
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                key, _, desc = rest.partition(' :: ')
                out.append((key.strip(), desc.strip() or rest))
    except OSError:
        pass
    return out


def main():
    pid = sys.argv[1]
    t0 = time.time()
    P = props.PROPS[pid]
    tmp = '/tmp/ecv_%s_%d' % (pid, os.getpid())
    os.makedirs(tmp, exist_ok=True)
    limit = 780 if TIER == 'quick' else 3000
    try:
        jobs = []
        for (modn, tab, src, defs, fns) in P['functions']:
            for f in fns:
                jobs.append(('fn', modn, tab, src, tuple(defs), f))
        cost = getattr(props, 'COST', {})
        jobs.sort(key=lambda j: -cost.get(j[5], 1))
        for l in P.get('lemmas', []):
            jobs.append(('lemma', l))
        ctx = mp.get_context('fork')
        hq = ctx.Queue()
        hp = ctx.Process(target=lambda: hq.put(run_harnesses(P.get('harness', []), tmp)))
        hp.start()
        PAR[0] = max(1, JOBS // max(1, len([j for j in jobs if j[0] == 'fn'])))
        got = []

        def early():
            # a failing input on the real code already decides the verdict: give the verifier a short while to name obligations
            if not got:
                try:
                    got.append((hq.get(timeout=0.01), time.time()))
                except Exception:
                    return t0 + limit
            return got[0][1] + 120 if any(h['fails'] for h in got[0][0]) else t0 + limit
        rs = run_jobs(jobs, t0 + limit, early)
        hres = got[0][0] if got else hq.get(timeout=900)
        hp.join()
    finally:
        pass
    obs = [o for r in rs for o in r['obs']]
    failed = [o for o in obs if o['res'] != 'proved']
    uns = [r for r in rs if r['unsupported']]
    vac = [v for r in rs for v in r['vac']]
    fails = [(h['name'], f) for h in hres for f in h['fails']]
    kn = known(pid)
    printed = set()
    newf = []
    for (hn, f) in fails:
        hit = [d for (k, d) in kn if k and k in f]
        if hit:
            if hit[0] not in printed:
                printed.add(hit[0])
        else:
            newf.append((hn, f))
    for (k, d) in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, d))
    viol = 0
    rdir = os.path.join(VERIF, 'replay')
    if newf:
        viol += 1
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s.txt' % pid)
        hn = newf[0][0]
        h = [x for x in P['harness'] if x['name'] == hn][0]
        with open(rp, 'w') as f:
            f.write('property %s: %s\n\nfailing inputs found by running the real code (harness %s):\n' % (pid, P['title'], hn))
            for (n_, x) in newf:
                f.write('  [%s] %s\n' % (n_, x))
            f.write('\nreplay: VERIF_SEED=%d VERIF_TIER=%s python3-vt %s/ecv/run.py %s\n' % (SEED, TIER, VERIF, pid))
            f.write('harness source: harness/%s, compiled with %s\n' % (h['driver'], ' '.join(h['src'])))
            f.write('\nfailed proof obligations in this run:\n')
            for o in failed:
                f.write('  %s:%s %s: %s\n' % (o['func'], o['line'], o['kind'], o['name']))
            for x in hres:
                if x['log']:
                    f.write('\n--- output of %s\n%s\n' % (x['name'], x['log']))
        print('failing input: [%s] %s' % newf[0])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    elif failed or vac:
        viol += 1
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s.txt' % pid)
        with open(rp, 'w') as f:
            f.write('property %s: %s\n\nfailed obligations:\n' % (pid, P['title']))
            for v in vac:
                f.write('VACUOUS: %s\n' % v)
            for o in failed:
                f.write('%s line %s [%s] %s\n   solver: %s\n' % (o['func'], o['line'], o['kind'], o['name'], o['be']))
                if o.get('model'):
                    f.write('   candidate model (quantifier-free part):\n%s\n' % o['model'])
            f.write('\n\n')
            for o in failed[:5]:
                f.write('; ---- %s: %s\n%s\n(check-sat)\n' % (o['func'], o['name'], o.get('smt', '')))
        for o in failed[:10]:
            print('failed obligation: %s line %s [%s] %s' % (o['func'], o['line'], o['kind'], o['name']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    # ---- evidence
    byfn = {}
    for r in rs:
        k = r['job'][5] + ' (' + r['job'][3] + ')' if r['job'][0] == 'fn' else 'lemma ' + r['job'][1]
        byfn[k] = dict(obligations=len(r['obs']), discharged=sum(o['res'] == 'proved' for o in r['obs']), solver_s=round(sum(o['time'] for o in r['obs']), 2), time_s=r['time'],
                       status='undecided: ' + r['unsupported'] if r['unsupported'] else 'verified' if all(o['res'] == 'proved' for o in r['obs']) else 'failed',
                       callee_contracts=r['used'], inlined=r['inlined'], externals=r['stubs'], loops=[dict(line=l[1], invariants=l[2]) for l in r['loops']])
    be = {}
    for o in obs:
        if o['res'] == 'proved':
            be[o['be']] = be.get(o['be'], 0) + 1
    kinds = {}
    for o in obs:
        kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
    axs = sorted({a for r in rs for a in r['axioms']})
    ext = sorted({a for r in rs for a in r['stubs']})
    asm = sorted({a for r in rs for a in r['assumed']})
    full = not uns and not failed and bool(obs)
    lvl = P.get('level', 'proof')
    cov = dict(obligations=len(obs), discharged=len(obs) - len(failed),
               checker_cmd='python3-vt ecv/run.py %s   (z3 %s in process, cvc5 binary as second back end)' % (pid, z3.get_version_string()),
               trusted_base=['clang-18 JSON AST of the current /repo sources (front.py)', 'translation of the AST to verification conditions (sym.py, loops.py, contracts.py)', 'z3 / cvc5'] +
               ['axiom: ' + a for a in axs] + ['external function model: ' + e for e in ext] + ['assumed: ' + a for a in asm] + P.get('trusted', []),
               functions=byfn, by_backend=be, by_kind=kinds, undecided=[dict(function=r['job'][5] if r['job'][0] == 'fn' else r['job'][1], reason=r['unsupported'], trace=r.get('tb')) for r in uns],
               failed=[dict(function=o['func'], line=o['line'], kind=o['kind'], name=o['name']) for o in failed],
               bounded_stand_ins=P.get('bounded', []),
               harness=[dict(name=h['name'], status=h['status'], cases=h['cases'], distinct=h['distinct'], rule=h['rule'], fails=h['fails'][:5], time_s=h.get('time'), log=h['log'][-400:] if h['status'] != 'ok' else '') for h in hres],
               evaluations=sum(h['cases'] for h in hres), distinct_nontrivial=sum(h['distinct'] for h in hres),
               rule='concrete replay harness: ' + '; '.join(sorted({h['rule'] for h in hres if h['rule']})),
               samples=[s for h in hres for s in h['samples']][:6])
    if lvl == 'proof' and not full:
        lvl = 'other'
        cov['explanation'] = 'not every function under contract was decided by the verifier on this tree (see undecided/failed); for those only the bounded concrete harness stands in'
    if lvl == 'other' and 'explanation' not in cov:
        cov['explanation'] = P.get('explanation', '')
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=lvl, coverage=cov,
              assumptions=P.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=viol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    for r in uns:
        print('undecided (bounded stand-in only): %s: %s' % (r['job'][5] if r['job'][0] == 'fn' else r['job'][1], r['unsupported']))
    for h in hres:
        if h['status'] != 'ok':
            print('harness %s: %s' % (h['name'], h['status']), h['log'][-300:])
    print('%s: %d functions, %d/%d obligations discharged, %d concrete cases, %.1fs' % (pid, len(byfn), len(obs) - len(failed), len(obs), cov['evaluations'], ev['wall_s']))
    sys.exit(1 if viol else 0)


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        # same order of facts in every run
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    main()

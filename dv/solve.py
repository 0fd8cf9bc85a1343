"""Discharge obligations with SMT solvers, in parallel (fork pool).  z3 first, then z3 with other
settings, then cvc5 on the SMT-LIB text."""
import pickle, z3, os, time, subprocess, tempfile, multiprocessing as mp, signal, sys


def _arrays(f, cache, skip_bound=True):
    """array-sorted constants occurring in f"""
    k = f.get_id()
    if k in cache:
        return cache[k]
    out, todo, seen = set(), [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_array(x):
            out.add(x.decl().name())
        todo.extend(x.children())
    cache[k] = out
    return out


def _quant(f):
    if z3.is_quantifier(f):
        return True
    return z3.is_app(f) and any(_quant(c) for c in f.children()) if f.sort() == z3.BoolSort() else False


def sliced(o, extra):
    """drop universally quantified hypotheses about arrays the goal does not mention (dropping hypotheses is sound)"""
    cache = {}
    want = set(_arrays(o.goal, cache))
    hyps = list(extra) + list(o.pc)
    ground = [h for h in hyps if not _quant(h)]
    quants = [h for h in hyps if _quant(h)]
    # arrays defined by ground equations from relevant ones
    for _ in range(3):
        for h in ground:
            if z3.is_eq(h) and z3.is_array(h.arg(0)):
                a = _arrays(h, cache)
                if a & want:
                    want |= a
    keep = [h for h in quants if not _arrays(h, cache) or (_arrays(h, cache) & want)]
    return ground + keep


def _solver(o, extra, seed=0, opts=None, hyps=None):
    s = z3.Solver()
    if opts:
        for k, v in opts.items():
            s.set(k, v)
    for f in (hyps if hyps is not None else list(extra) + list(o.pc)):
        s.add(f)
    s.add(z3.Not(o.goal))
    return s


NONL = {'smt.arith.nl': False, 'smt.mbqi': False}


def prove_one(o, extra, budget):
    """-> (status, backend, model text)"""
    plans = [
        ('z3', {}, min(budget, 2000), False),
        ('z3/sliced', {}, min(budget, 4000), True),
        ('z3/sliced/no-nl', NONL, min(budget, 6000), True),
        ('z3/no-nl', NONL, min(budget, 6000), False),
        ('z3/sliced/no-mbqi', {'smt.mbqi': False}, min(budget, 8000), True),
        ('z3/no-mbqi', {'smt.mbqi': False}, min(budget, 8000), False),
        ('z3/sliced/seed7', {'smt.random_seed': 7, 'smt.arith.solver': 2}, min(budget, 8000), True),
    ]
    text = None
    sat_model = None
    sl = None
    for name, opts, to, slc in plans:
        if slc and sl is None:
            sl = sliced(o, extra)
        s = _solver(o, extra, opts=opts, hyps=sl if slc else None)
        s.set('timeout', int(to))
        try:
            r = s.check()
        except z3.Z3Exception as ex:
            r = z3.unknown
        if r == z3.unsat:
            return 'proved', name, None
        if r == z3.sat and name == 'z3':  # only the complete configuration, on all hypotheses, may refute
            try:
                m = s.model()
                sat_model = '\n'.join('%s = %s' % (d.name(), str(m[d])[:300]) for d in list(m.decls())[:80])
            except z3.Z3Exception:
                sat_model = ''
            return 'refuted', name, sat_model
        if text is None:
            text = s.to_smt2()
    # cvc5 as a second back end
    try:
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + text)
            fn = f.name
        p = subprocess.run(['cvc5', '--tlimit=%d' % min(budget, 15000), fn], capture_output=True, text=True, timeout=budget / 1000 + 10)
        out = p.stdout.strip().split('\n')[0] if p.stdout else ''
        if out == 'unsat':
            return 'proved', 'cvc5', None
        if out == 'sat':
            return 'refuted', 'cvc5', '(cvc5: sat)'
    except Exception:
        pass
    finally:
        try:
            os.unlink(fn)
        except Exception:
            pass
    # last: z3 with the whole budget
    s = _solver(o, extra)
    s.set('timeout', int(budget))
    r = s.check()
    if r == z3.unsat:
        return 'proved', 'z3/long', None
    if r == z3.sat:
        return 'refuted', 'z3/long', ''
    return 'unknown', 'all', s.reason_unknown()


def canary_one(o, budget):
    s = _solver(o, list(o.hints or []))
    s.set('timeout', int(budget))
    r = s.check()
    return ('proved' if r == z3.unsat else 'open', 'z3', None)


def _isolated(f):
    """run f in a child of its own: the solver's state then does not depend on what this worker did before"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                v = f()
            except Exception as ex:
                v = ('unknown', 'error', repr(ex)[:200])
            b = pickle.dumps(v)
            while b:
                b = b[os.write(w, b):]
        finally:
            os._exit(0)
    os.close(w)
    CHILD[0] = pid
    data = b''
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        data += c
    os.close(r)
    os.waitpid(pid, 0)
    CHILD[0] = 0
    return pickle.loads(data) if data else ('unknown', 'solver process died', '')


CHILD = [0]


def _on_term(*_):
    if CHILD[0]:
        try:
            os.kill(CHILD[0], signal.SIGKILL)
        except OSError:
            pass
    os._exit(0)


def _worker(idxq, outq, obls, extra, budget, canary=False):
    signal.signal(signal.SIGTERM, _on_term)
    while True:
        i = idxq.get()
        if i is None:
            return
        t = time.time()
        r = _isolated(lambda: canary_one(obls[i], budget) if canary else prove_one(obls[i], list(extra) + list(obls[i].hints or []), budget))
        outq.put((i, r, time.time() - t))


def discharge(obls, extra=(), budget=20000, procs=8, deadline=None, canary=False):
    todo = [i for i, o in enumerate(obls) if o.status is None]
    if not todo:
        return
    ctx = mp.get_context('fork')
    idxq, outq = ctx.Queue(), ctx.Queue()
    for i in todo:
        idxq.put(i)
    procs = min(procs, len(todo))
    for _ in range(procs):
        idxq.put(None)
    ws = [ctx.Process(target=_worker, args=(idxq, outq, obls, list(extra), budget, canary), daemon=True) for _ in range(procs)]
    for w in ws:
        w.start()
    left = len(todo)
    while left:
        try:
            i, r, dt = outq.get(timeout=1)
        except Exception:
            if deadline and time.time() > deadline:
                break
            if not any(w.is_alive() for w in ws) and outq.empty():
                break
            continue
        o = obls[i]
        o.status, o.backend, o.model = r
        o.time = dt
        left -= 1
    for w in ws:
        if w.is_alive():
            w.terminate()
    for i in todo:
        if obls[i].status is None:
            obls[i].status, obls[i].backend, obls[i].model = 'unknown', 'deadline', ''


RETRY = [
    ('seed1', {'smt.random_seed': 1}, False), ('sliced/seed2', {'smt.random_seed': 2}, True),
    ('no-nl/seed3', dict(NONL, **{'smt.random_seed': 3}), False), ('sliced/no-nl/seed4', dict(NONL, **{'smt.random_seed': 4}), True),
    ('no-mbqi/seed5', {'smt.mbqi': False, 'smt.random_seed': 5}, False), ('sliced/no-mbqi/seed6', {'smt.mbqi': False, 'smt.random_seed': 6}, True),
    ('sliced/arith2/seed11', {'smt.arith.solver': 2, 'smt.random_seed': 11}, True), ('no-nl/phase', dict(NONL, **{'smt.phase_selection': 5, 'smt.random_seed': 12}), False),
    ('sliced/relevancy0', {'smt.relevancy': 0, 'smt.mbqi': False}, True), ('sliced/qi', {'smt.qi.eager_threshold': 50.0, 'smt.mbqi': False}, True),
    ('qi', {'smt.qi.eager_threshold': 100.0}, False), ('sliced/case', {'smt.case_split': 3, 'smt.mbqi': False}, True),
]


def _retry_worker(jobq, outq, obls, extra, done, timeout):
    signal.signal(signal.SIGTERM, _on_term)
    while True:
        j = jobq.get()
        if j is None:
            return
        i, c = j
        if done[i]:
            outq.put((i, c, 'skip', 0))
            continue
        name, opts, slc = RETRY[c]
        o = obls[i]
        ex = list(extra) + list(o.hints or [])
        t = time.time()
        def go():
            s = _solver(o, ex, opts=opts, hyps=sliced(o, ex) if slc else None)
            s.set('timeout', int(timeout))
            return 'proved' if s.check() == z3.unsat else 'unknown'
        r = _isolated(go)
        r = r if isinstance(r, str) else 'unknown'
        if r == 'proved':
            done[i] = 1
        outq.put((i, c, r, time.time() - t))


def retry(obls, extra=(), until=None, procs=8, timeout=30000):
    """portfolio of seeds and settings for obligations no plan settled (wall-clock timeouts make those depend on load)"""
    todo = [i for i, o in enumerate(obls) if o.status == 'unknown' and o.backend != 'deadline']
    if not todo:
        return
    ctx = mp.get_context('fork')
    jobq, outq = ctx.Queue(), ctx.Queue()
    done = ctx.Array('b', len(obls))
    n = 0
    for c in range(len(RETRY)):
        for i in todo:
            jobq.put((i, c))
            n += 1
    for _ in range(procs):
        jobq.put(None)
    ws = [ctx.Process(target=_retry_worker, args=(jobq, outq, obls, list(extra), done, timeout), daemon=True) for _ in range(procs)]
    for w in ws:
        w.start()
    while n:
        try:
            i, c, r, dt = outq.get(timeout=1)
        except Exception:
            if (until and time.time() > until) or (not any(w.is_alive() for w in ws) and outq.empty()):
                break
            continue
        n -= 1
        if r == 'proved':
            obls[i].status, obls[i].backend = 'proved', 'z3/retry/' + RETRY[c][0]
            obls[i].time += dt
        if all(done[k] for k in todo):
            while n:
                try:
                    i, c, r, dt = outq.get(timeout=0.2)
                except Exception:
                    break
                n -= 1
                if r == 'proved' and obls[i].status != 'proved':
                    obls[i].status, obls[i].backend = 'proved', 'z3/retry/' + RETRY[c][0]
            break
    for w in ws:
        if w.is_alive():
            w.terminate()

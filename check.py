#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [--tier quick|thorough]

1. extracts the functions under contract from /repo's current sources, generates every obligation and
   has the solvers discharge them;
2. compiles the property's bounded harness against the current sources and runs it (validation of the
   assumed contracts, bounded stand-in for functions out of the verifier's reach, and search for a
   concrete failing input);
3. prints VIOLATION / KNOWN-FINDING lines, rewrites evidence/<id>.json.
"""
import sys, os, re, json, time, argparse, tempfile, shutil, importlib, subprocess, multiprocessing as mp, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from specs.registry import CHECKS


def load_findings(pid):
    """known-findings: 'known: property=P key=K text'"""
    known = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                parts = l.split(' ', 3)
                known[parts[2][4:]] = parts[3] if len(parts) > 3 else ''
    return known


def harnesses(cfg):
    h = cfg.get('harness')
    return [h] if isinstance(h, str) else list(h or [])


def harness_proc(cfg, scratch, tier, seed, resfile):
    from dv import native
    r = {'build_error': None, 'run': None, 'err': None}
    try:
        t = time.time()
        hs = harnesses(cfg)
        exes = native.build([os.path.join(HERE, 'harness', h) for h in hs], cfg['groups'], scratch, san=cfg.get('san', True), extra=cfg.get('extra', ()))
        r['build_s'] = time.time() - t
        cap = cfg.get('cap', {}).get(tier, 30 if tier == 'quick' else 240) / len(hs)
        for exe in exes:
            x = native.run(exe, [], scratch, cap * 3 + 60, {'VERIF_SEED': str(seed), 'VERIF_TIER': tier, 'HARNESS_CAP': str(cap), 'HARNESS_PARTS': cfg.get('parts', '')})
            r['run'] = x if r['run'] is None else native.merge(r['run'], x)
    except native.BuildError as ex:
        r['build_error'] = str(ex)
    except Exception as ex:
        r['err'] = traceback.format_exc()
    json.dump(r, open(resfile + '.tmp', 'w'))
    os.rename(resfile + '.tmp', resfile)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--proof-only', action='store_true')
    ap.add_argument('--harness-only', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = CHECKS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        rc = run(a, pid, tier, seed, cfg, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def run(a, pid, tier, seed, cfg, t0, scratch):
    from dv import session
    known = load_findings(pid)
    total = 700 if tier == 'quick' else 820
    deadline = t0 + (cfg.get('solve_s', 240) if tier == 'quick' else 700)
    budget = cfg.get('budget_ms', 20000 if tier == 'quick' else 60000)
    session.gen_dir(scratch)
    resfile = os.path.join(scratch, 'harness.json')
    hp = None
    if cfg.get('harness') and not a.proof_only:
        hp = mp.get_context('fork').Process(target=harness_proc, args=(cfg, scratch, tier, seed, resfile))
        hp.start()

    reps, tool_errors = [], []
    if not a.harness_only:
        sessions = []
        for mname in cfg.get('specs', []):
            try:
                m = importlib.import_module('specs.' + mname)
                sc = os.path.join(scratch, mname)
                os.makedirs(sc)
                os.symlink(os.path.join(scratch, 'gen'), os.path.join(sc, 'gen'))
                S = session.Session(m.UNITS, sc, tier, verbose=a.v)
                sessions.append((mname, m, S))
                reps.append((mname, S.rep))
            except session.ExtractError as ex:
                tool_errors.append('%s: extraction failed: %s' % (mname, ex))
        for mname, m, S in sessions:
            try:
                m.verify(S)
            except session.Unsupported as ex:
                S.rep.unsupported.append('%s: %s' % (mname, ex))
        skip = cfg.get('obl_skip')
        for mname, m, S in sessions:
            if skip:   # obligations of the same function that belong to another property's check
                S.rep.obls[:] = [o for o in S.rep.obls if not re.search(skip, o.name)]
            S.discharge(budget, deadline)

    h = None
    if hp:
        hp.join(max(5, t0 + total - time.time()))
        if hp.is_alive():
            hp.kill()
            tool_errors.append('harness did not finish in time')
        elif os.path.exists(resfile):
            h = json.load(open(resfile))
            if h['err']:
                tool_errors.append('harness: ' + h['err'][-800:])
        else:
            tool_errors.append('harness process died')

    hbad = bool(h and h['run'] and h['run']['fails'])
    if not hbad:
        from dv import solve
        for mname, r in reps:
            solve.retry(r.obls, until=min(time.time() + (150 if tier == 'quick' else 300), t0 + total))
    obls = [o for _, r in reps for o in r.obls]
    proved = [o for o in obls if o.status == 'proved']
    failed = [o for o in obls if o.status != 'proved' and o.backend != 'deadline']
    # a failed obligation of a function whose loops are no longer the ones its invariants were written for says
    # nothing about the code: the function counts as not re-proved
    odd = [o for o in failed if getattr(o, 'odd', None)]
    failed = [o for o in failed if not getattr(o, 'odd', None)]
    notrun = [o for o in obls if o.status != 'proved' and o.backend == 'deadline']
    unsupported = [u for _, r in reps for u in r.unsupported]
    unsupported += sorted({'%s not re-proved (%s), %s' % (o.fn if hasattr(o, 'fn') else o.name.split('/')[0], '; '.join(o.odd)[:300], o.name) for o in odd})
    vac = [v for _, r in reps for v in r.vacuity]
    hfails = []
    if h and h['run']:
        hfails = [tuple(f) for f in h['run']['fails']]
        if h['run']['timeout']:
            hfails.append(('hang', 'the harness did not terminate; last case: ' + h['run']['out_tail'][-300:]))
    kf_hit, new_h = {}, []
    kre = cfg.get('keys')
    for k, msg in hfails:
        if kre and not re.match(r'crash|hang|.*\.exception$', k) and not re.match(kre, k):
            continue   # another property's failure
        if k in known:
            kf_hit.setdefault(k, msg)
        else:
            new_h.append((k, msg))
    new_o = []
    for o in failed:
        k = 'obligation:' + o.name
        if k in known:
            kf_hit.setdefault(k, o.name)
        else:
            new_o.append(o)
    for k in known:
        if k in kf_hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))

    proof_complete = bool(obls) and not unsupported and not notrun and not failed and not vac and not any('extraction' in t for t in tool_errors)
    # ---------------------------------------------------------------- replay + verdict
    rdir = os.path.join(HERE, 'build', 'replay')
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, pid + '.txt')
    rc = 0
    if new_h or new_o:
        with open(rpath, 'w') as f:
            f.write('property %s, tier %s, seed %s\n' % (pid, tier, seed))
            for k, msg in new_h:
                f.write('\nFAILING INPUT [%s]: %s\n' % (k, msg))
            if h and h['run'] and h['run']['err'] and new_h:
                f.write('\nstderr of the run:\n%s\n' % h['run']['err'][-2500:])
            for o in new_o:
                f.write('\nFAILED OBLIGATION %s (line %s of the extracted source, %s, back end %s)\npath: %s\ngoal: %s\ncounterexample / solver output:\n%s\n'
                        % (o.name, o.line, o.status, o.backend, o.trace, str(o.goal)[:1500], o.model))
            f.write('\nreplay: VERIF_SEED=%s %s/check.py %s --tier %s\n' % (seed, HERE, pid, tier))
        for k, msg in new_h[:6]:
            print('  failing input [%s]: %s' % (k, msg[:400]))
        for o in new_o[:6]:
            print('  failed obligation: %s (line %s) %s by %s' % (o.name, o.line, o.status, o.backend))
        print('VIOLATION property=%s replay=%s%s' % (pid, rpath, '' if new_h else ' no-failing-input-found'))
        rc = 1
    else:
        harness_ok = h is not None and h['run'] is not None and h['run'].get('done')
        if vac:
            print('ERROR vacuous contract: %s' % vac)
            rc = 2
        elif not proof_complete and not harness_ok and not (a.proof_only or a.harness_only):
            print('ERROR neither proof nor bounded stand-in could decide: %s %s %s' % (tool_errors, unsupported[:3], (h or {}).get('build_error')))
            rc = 2
    # ---------------------------------------------------------------- evidence
    fns = [f for _, r in reps for f in r.functions]
    assum = sorted({x for _, r in reps for x in r.assumptions}) + list(cfg.get('assume', []))
    byb = {}
    for o in proved:
        byb[o.backend] = byb.get(o.backend, 0) + 1
    cov = {
        'obligations': len(obls), 'discharged': len(proved),
        'checker_cmd': 'python3-vt /verif/check.py %s --tier %s' % (pid, tier),
        'trusted_base': ['clang 18 (AST of the current sources, tools/xtract)', 'dv VC generator (/verif/dv)', 'z3 %s, cvc5 1.1.2' % __import__('z3').get_version_string()],
        'functions_under_contract': fns,
        'lemmas': [l for _, r in reps for l in r.lemmas],
        'discharged_by': byb,
        'solver_s': round(sum(o.time for o in obls), 2),
        'slowest': [[o.name, round(o.time, 1)] for o in sorted(obls, key=lambda o: -o.time)[:5]],
        'extract_s': round(sum(r.extract_s for _, r in reps), 2),
        'not_proved': [o.name for o in failed], 'not_attempted': [o.name for o in notrun],
        'out_of_reach_this_run': unsupported + tool_errors,
        'vacuity_failures': vac,
    }
    if h and h['run']:
        cov['evaluations'] = h['run']['stats'].get('evaluations', 0)
        cov['distinct_nontrivial'] = h['run']['stats'].get('distinct', 0)
        cov['rule'] = 'bounded, never counted as proved: ' + cfg.get('rule', 'seeded random cases; non-trivial = distinct parameter description')
        cov['samples'] = h['run']['samples'] or ['(none)']
        cov['harness'] = {'file': ', '.join(harnesses(cfg)), 'build_s': round(h.get('build_s', 0), 1), 'run_s': round(h['run']['wall'], 1), 'sanitizer': 'address'}
    elif h:
        cov['harness'] = {'file': ', '.join(harnesses(cfg)), 'build_error': (h['build_error'] or '')[:1000]}
    level = cfg.get('level', 'proof')
    if level == 'proof' and not proof_complete:
        level = 'exploration' if (h and h['run']) else 'other'
        cov.setdefault('explanation', 'the proof was not re-established on this source; the bounded stand-in decided')
    if 'explain' in cfg:
        cov['explanation'] = cfg['explain']
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assum,
          'wall_s': round(time.time() - t0, 2), 'violations': len(new_h) + len(new_o)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print('%s: %d/%d obligations discharged over %d functions, %d lemmas; %s; %.0fs%s' % (
        pid, len(proved), len(obls), len(fns), len(cov['lemmas']),
        'bounded harness: %s cases' % cov.get('evaluations') if h and h['run'] else 'no harness run' + (': ' + (h['build_error'] or '')[:600] if h else ''),
        time.time() - t0, '' if proof_complete else ' [proof incomplete: %s]' % (unsupported + tool_errors + [o.name for o in failed + notrun])[:4]))
    return rc


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    main()

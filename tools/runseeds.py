#!/usr/bin/env python3
"""runseeds.py [ID...]: apply each planted bug to a scratch copy of /repo's tracked files, run its property's quick check there"""
import json, os, re, shutil, subprocess, sys, time
D = '/verif/seeded'
ids = sys.argv[1:] or sorted(os.listdir(D))
W = '/tmp/mrepo_seed'
for i in ids:
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    subprocess.run('git -C /repo archive HEAD | tar -x -C ' + W, shell=True, check=True)
    r = subprocess.run(['git', 'apply', '%s/%s/patch.diff' % (D, i)], cwd=W, capture_output=True, text=True)
    if r.returncode:
        print(i, 'PATCH FAILED', r.stderr)
        continue
    p = json.load(open('%s/%s/meta.json' % (D, i)))['property']
    t = time.time()
    r = subprocess.run(['python3-vt', '/verif/check.py', p], env=dict(os.environ, VERIF_REPO=W, VERIF_SEED='1', VERIF_TIER='quick'), capture_output=True, text=True, cwd='/verif')
    v = [x for x in r.stdout.split('\n') if x.startswith('VIOLATION')]
    f = ''
    try:
        rp = re.search(r'replay=(\S+)', v[0]).group(1)
        f = open(rp).read()[:250].replace('\n', ' ')
    except Exception:
        pass
    print(i, p, 'exit', r.returncode, '%ds' % (time.time() - t), v[:1], f, flush=True)
shutil.rmtree(W, ignore_errors=True)

#!/opt/veriftools/pyvenv/bin/python3
"""records the locals and loop structure of every extracted function of the current tree (specs/baseline.json)"""
import sys, os, json, importlib, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.environ['DV_NOBASE'] = '1'
from dv import session, baseline
from specs.registry import CHECKS

out, done = {}, set()
for pid in sorted(CHECKS):
    for mname in CHECKS[pid].get('specs', []):
        if mname in done:
            continue
        done.add(mname)
        m = importlib.import_module('specs.' + mname)
        sc = tempfile.mkdtemp(prefix='mkbase-')
        try:
            S = session.Session(m.UNITS, sc)
            baseline.record(S.P, out)
        finally:
            shutil.rmtree(sc)
for k in list(out):
    out[k].sort(key=lambda v: json.dumps(v))
with open(baseline.PATH, 'w') as f:
    f.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps(out[k])) for k in sorted(out)) + '\n}\n')
print(len(out), 'functions', os.path.getsize(baseline.PATH), 'bytes')

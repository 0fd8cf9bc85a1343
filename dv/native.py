"""Compile a C++ harness of /verif/harness against /repo's current sources and run it (bounded stand-in,
validation of assumed contracts, and search for a failing input when an obligation fails)."""
import os, subprocess, glob, re, time
from concurrent.futures import ThreadPoolExecutor
from . import session

GROUPS = {
    'bland': ['bland/bland/*.cpp', 'bland/bland/ops/*.cpp', 'bland/bland/ops/cpu/*.cpp', 'bland/bland/internal/include/internal/*.cpp'],
    'core': ['bliss/core/*.cpp', 'bliss/file_types/h5_filterbank_file.cpp'],
    'drift': ['bliss/drift_search/*.cpp', 'bliss/drift_search/kernels/*.cpp'],
    'est': ['bliss/estimators/*.cpp'],
    'flag': ['bliss/flaggers/*.cpp'],
    'pre': ['bliss/preprocess/*.cpp'],
    'files': ['bliss/file_types/*.cpp', 'bliss/file_types/detail/*.cpp', '@gen/hit.capnp.c++'],
}
SKIP = re.compile(r'(demo|pyb|python)')
LIBS = ['-lfmt', '-lfftw3f', '-L/usr/lib/x86_64-linux-gnu/hdf5/serial', '-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial', '-lhdf5_cpp', '-lhdf5', '-lcapnp', '-lkj', '-lpthread', '-lstdc++fs']


class BuildError(Exception):
    pass


def sources(groups, gen):
    out = []
    for g in groups:
        pats = GROUPS.get(g, [g])
        for p in pats:
            if p.startswith('@gen/'):
                out.append(os.path.join(gen, p[5:]))
                continue
            for f in sorted(glob.glob(os.path.join(session.REPO, p))):
                if not SKIP.search(os.path.basename(f)) and f not in out:
                    out.append(f)
    return out


def build(harness_files, groups, scratch, san=True, extra=()):
    gen = session.gen_dir(scratch)
    objs = os.path.join(scratch, 'obj')
    os.makedirs(objs, exist_ok=True)
    flags = session.incflags(gen) + ['-I' + os.path.join(session.HERE, 'harness'), '-w', '-O0', '-fPIC', '-g1'] + list(extra)
    if san:
        flags += ['-fsanitize=address', '-fno-omit-frame-pointer']
    single = isinstance(harness_files, str)
    hs = [harness_files] if single else list(harness_files)
    srcs = sources(groups, gen) + hs

    def one(s):
        o = os.path.join(objs, re.sub(r'[^A-Za-z0-9]', '_', s) + '.o')
        p = subprocess.run(['g++'] + flags + ['-c', s, '-o', o], capture_output=True, text=True)
        return s, o, p.returncode, p.stderr
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, srcs))
    bad = [(s, e) for s, o, rc, e in rs if rc]
    if bad:
        raise BuildError('\n'.join('%s: %s' % (s, e[-800:]) for s, e in bad[:3]))
    exes = []
    for i, h in enumerate(hs):
        exe = os.path.join(scratch, 'harness%d' % i)
        p = subprocess.run(['g++'] + (['-fsanitize=address'] if san else []) + [o for s_, o, _, _ in rs if s_ not in hs or s_ == h] + ['-o', exe] + LIBS, capture_output=True, text=True)
        if p.returncode:
            raise BuildError(p.stderr[-2000:])
        exes.append(exe)
    return exes[0] if single else exes


def merge(a, b):
    r = dict(a)
    r['stats'] = {k: a['stats'].get(k, 0) + b['stats'].get(k, 0) for k in set(a['stats']) | set(b['stats'])}
    r['fails'] = a['fails'] + b['fails']
    r['samples'] = (a['samples'][:4] + b['samples'])[:8]
    r['wall'] = a['wall'] + b['wall']
    r['timeout'] = a['timeout'] or b['timeout']
    r['done'] = a['done'] and b['done']
    r['err'] = a['err'] if a['timeout'] or a['rc'] else b['err']
    r['out_tail'] = a['out_tail'] if a['timeout'] else b['out_tail']
    r['rc'] = a['rc'] or b['rc']
    return r


def run(exe, args, scratch, timeout, env=None):
    work = os.path.join(scratch, 'work')
    os.makedirs(work, exist_ok=True)
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_odr_violation=0'
    e.update(env or {})
    rep = os.path.join(scratch, 'harness.out')
    e['HARNESS_OUT'] = rep
    if os.path.exists(rep):
        os.unlink(rep)
    t = time.time()
    try:
        p = subprocess.run([exe] + [str(a) for a in args], cwd=work, capture_output=True, text=True, timeout=timeout, env=e, errors='replace')
        rc, out, err = p.returncode, p.stdout, p.stderr
        to = False
    except subprocess.TimeoutExpired as x:
        rc, to = None, True
        out = (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or '')
        err = ''
    out_lib = out
    out = open(rep, errors='replace').read() if os.path.exists(rep) else ''
    fails, stats, samples, last = [], {}, [], ''
    for l in out.split('\n'):
        if l.startswith('@FAIL '):
            m = re.match(r'@FAIL key=(\S+) ?(.*)', l)
            fails.append((m.group(1), m.group(2)))
        elif l.startswith('@STAT '):
            for kv in l[6:].split():
                k, v = kv.split('=')
                stats[k] = stats.get(k, 0) + int(v)
        elif l.startswith('@SAMPLE '):
            if len(samples) < 8:
                samples.append(l[8:])
        elif l.startswith('@CASE '):
            last = l[6:]
    if rc not in (0, None):
        if '@DONE' not in out:
            m = re.search(r'(ERROR: AddressSanitizer[^\n]*)', err)
            fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+).*?(%s/\S+)' % re.escape(session.REPO), err)
            what = m.group(1) if m else 'terminated with code %s: %s' % (rc, err[-300:].replace('\n', ' '))
            kind = re.search(r'AddressSanitizer: ([\w-]+)', err)
            fails.append(('crash:%s' % (kind.group(1) if kind else 'signal%s' % rc), '%s; frames %s; case %s' % (what, fr[:3], last)))
    return {'rc': rc, 'timeout': to, 'fails': fails, 'stats': stats, 'samples': samples, 'wall': time.time() - t, 'err': err[-3000:], 'done': '@DONE' in out, 'out_tail': out[-1500:]}

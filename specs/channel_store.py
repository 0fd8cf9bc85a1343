"""what a coarse channel and a scan report: header values, samples, mask, noise estimate, device; a drift plane and its
counters (bliss/core/coarse_channel.cpp, scan.cpp, frequency_drift_plane.cpp)

Arrays, deferred arrays and strings carry an identity.  A deferred array is a value or a computation together with the
device it is to be moved to (its own contracts are proved under P14)."""
import re
import z3
from dv.session import Q
from dv.engine import IV, RV, I, R, B, N, Ptr, Loc, Opq, Unsupported
from dv import stdlib
from . import levels
from .levels import rd, CC, SC

FDP, IFL = 'bliss::frequency_drift_plane', 'bliss::integrated_flags'
UNITS = [('bliss/core/coarse_channel.cpp', [r'^bliss::coarse_channel::(ctor\((std::function|bland::ndarray,|double)|data\(|mask\(|set_data|set_mask|noise_estimate|set_noise_estimate|device|set_device|push_device|fch1|foff|machine_id|nbits|nchans|ntsteps|nifs|source_name|src_|telescope|tsamp|tstart|data_type|az_start|za_start)'],
          [r'^fmt::', r'^bland::', r'^bliss::frequency_drift_plane', r'^bliss::noise_stats']),
         ('bliss/core/frequency_drift_plane.cpp', [r'^bliss::frequency_drift_plane::', r'^bliss::integrated_flags::(set_device|push_device)'], [r'^fmt::', r'^bland::']),
         ('bliss/core/scan.cpp', [r'^bliss::scan::(ctor\(std::map|set_device|push_device|device|fch1|foff|machine_id|nbits|nchans|ntsteps|nifs|source_name|src_|telescope|tsamp|tstart|data_type|az_start|za_start|tduration|set_|get_number)'],
          [r'^fmt::', r'^bland::', r'^bliss::h5_filterbank_file', r'^bliss::coarse_channel'])]
ND, DEF, DEV = 'bland::ndarray', 'bland::ndarray_deferred', 'bland::ndarray::dev'
MOVED = z3.Function('moved', I, I, I, I)
RUN = z3.Function('result_of', I, I)
NAMED_T, NAMED_I = z3.Function('named_device', I, I), z3.Function('named_device_number', I, I)
USABLE = z3.Function('usable_cuda_device', I, B)
CUDA, MANAGED, CPU = 2, 13, 1
HEADER = ['fch1', 'foff', 'machine_id', 'nbits', 'nchans', 'ntsteps', 'nifs', 'source_name', 'src_dej', 'src_raj', 'telescope_id', 'tsamp', 'tstart', 'data_type', 'az_start', 'za_start', 'coarse_channel_number']
STATED = {'machine_id', 'nbits', 'src_dej', 'src_raj', 'telescope_id', 'az_start', 'za_start'}       # a channel may not know these
REAL = {'fch1', 'foff', 'src_dej', 'src_raj', 'tsamp', 'tstart', 'az_start', 'za_start'}


def dev(t, i):
    return N('struct', {'device_type': t, 'device_id': i}, DEV)


def td(d):
    return d['device_type'], d['device_id']


def arr(i):
    return levels.ident(i, ND)


def deferred(fn, fid, a, has, d):
    return N('struct', {'fn': fn, 'fid': fid, 'arr': a, 'has': has, 'dev': d}, DEF)


NODEV = dev(IV(0), IV(0))


def todef(v):
    """an array or a computation as a deferred array"""
    if v.meta == DEF:
        return v
    if 'fid' in v.f:
        return deferred(z3.BoolVal(True), v['fid'], IV(0), z3.BoolVal(False), NODEV)
    return deferred(z3.BoolVal(False), IV(0), v['id'], z3.BoolVal(False), NODEV)


def move(x, d):
    return MOVED(x, *td(d))


def observe(v):
    raw = z3.If(v['fn'], RUN(v['fid']), v['arr'])
    return z3.If(v['has'], MOVED(raw, *td(v['dev'])), raw)


def asdev(v):
    return dev(*td(v))


def contracts():
    C = {}
    vp = lambda f: (lambda E, st, e: E.bind(stdlib.vals_ptr(E, e['a'], st), lambda s, vs: f(E, s, vs, e)))
    vm = lambda f: (lambda E, st, e, ol: E.bind(stdlib.vals_ptr(E, e['a'], st), lambda s, vs: f(E, s, ol, vs, e)))
    noarr = IV(-1)

    def c_def(E, s, vs, e):
        E.assumptions.add('contract of a deferred array: made from a value or from a computation it stands for it (verified for P14)')
        return [(s, todef(rd(E, s, vs[0]))) if vs else (s, todef(arr(noarr)))]
    C['ctor:' + DEF] = vp(c_def)
    C['default:' + DEF] = lambda E, t: todef(arr(noarr))
    C['default:' + ND] = lambda E, t: arr(noarr)
    C['ctor:' + ND] = vp(lambda E, s, vs, e: [(s, rd(E, s, vs[0]) if vs else arr(noarr))])
    C['ctor:std::function'] = levels.ctor
    C[DEF + '::operator='] = vm(lambda E, s, ol, vs, e: (E.write(s, ol, todef(rd(E, s, vs[0]))), [(s, ol)])[1])
    C[ND + '::operator='] = vm(lambda E, s, ol, vs, e: (E.write(s, ol, rd(E, s, vs[0])), [(s, ol)])[1])

    def c_to(E, s, ol, vs, e):
        v, d = rd(E, s, ol), asdev(rd(E, s, vs[0]))
        E.assumptions.add('contract of moving a deferred array: a value is moved, a computation is moved when it is run (verified for P14)')
        return [(s, N('struct', dict(fn=v['fn'], fid=v['fid'], arr=z3.If(v['fn'], v['arr'], MOVED(v['arr'], *td(d))), has=v['fn'], dev=d), DEF))]
    C[DEF + '::to'] = vm(c_to)

    def c_use(E, st, e, ol):
        v = rd(E, st, ol)
        E.assumptions.add('contract of using a deferred array: the value, or the result of the computation, on the device asked for (verified for P14)')
        return [(st, arr(observe(v)))]
    C[DEF + '::conv'] = c_use
    C[ND + '::to'] = vm(lambda E, s, ol, vs, e: [(s, arr(move(rd(E, s, ol)['id'], rd(E, s, vs[0]))))])

    def c_dev(E, s, vs, e):
        if not vs:
            return [(s, dev(IV(CPU), IV(0)))]
        v = rd(E, s, vs[0])
        if v.kind == 'str':
            E.assumptions.add('contract of the device named by a text: a function of the text (P12)')
            return [(s, dev(NAMED_T(v['id']), NAMED_I(v['id'])))]
        return [(s, asdev(v))]
    C['ctor:' + DEV] = C['ctor:DLDevice'] = vp(c_dev)
    C[DEV + '::operator='] = C['DLDevice::operator='] = vm(lambda E, s, ol, vs, e: (E.write(s, ol, asdev(rd(E, s, vs[0]))), [(s, ol)])[1])

    def c_valid(E, s, ol, vs, e):
        E.assumptions.add('contract of check_is_valid_cuda_device: whether a numbered device can be used')
        return [(s, USABLE(vs[0] if not isinstance(vs[0], Loc) else rd(E, s, vs[0])))]
    C['bland::config::check_is_valid_cuda_device'] = vm(c_valid)
    C['ctor:bliss::noise_stats'] = levels.ctor
    C['bliss::noise_stats::operator='] = levels.assign
    C['fresh:' + ND] = lambda E, t, n, lift=0: arr(z3.Const(E.fresh_name(n), z3.ArraySort(I, I) if lift else I))

    def fresh_def(E, t, n, lift=0):
        if lift:
            raise Unsupported('containers of deferred arrays')
        return deferred(z3.Bool(E.fresh_name(n + '.fn')), z3.Int(E.fresh_name(n + '.fid')), z3.Int(E.fresh_name(n + '.arr')), z3.Bool(E.fresh_name(n + '.has')), dev(z3.Int(E.fresh_name('t')), z3.Int(E.fresh_name('i'))))
    C['fresh:' + DEF] = fresh_def
    C['fresh:' + DEV] = C['fresh:DLDevice'] = lambda E, t, n, lift=0: dev(z3.Int(E.fresh_name(n + '.t')), z3.Int(E.fresh_name(n + '.i')))
    C['fresh:std::shared_ptr'] = lambda E, t, n, lift=0: Ptr(None, None, True)
    C['fresh:std::map'] = C['fresh:std::vector'] = lambda E, t, n, lift=0: N('struct', {'id': z3.Int(E.fresh_name(n))}, 'container')
    for n in ('vector',):
        C['ctor:std::' + n] = lambda E, st, e: levels.ctor(E, st, e) or [(st, N('struct', {'id': IV(-1)}, 'container'))]
    return C


def devices(E, st):
    g = st.frames[0].env
    for n, t in (('cpu', CPU), ('cuda', CUDA), ('cuda_managed', MANAGED)):
        g['glob:bland::ndarray::dev::' + n] = E.newcell(st, dev(IV(t), IV(0)))
    g['glob:bland::g_config'] = E.newcell(st, N('struct', {'id': IV(0)}, 'bland::config'))
    g['glob:bliss::default_device'] = g['glob:default_device'] = E.newcell(st, dev(z3.Int('default_type'), z3.Int('default_number')))


def install(E, st):
    devices(E, st)
    st.pc += [z3.Int('default_type') >= 0]


def same(E, s, a, b):
    """two values, part by part"""
    a, b = rd(E, s, a), rd(E, s, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return z3.BoolVal(bool(a.null) == bool(b.null) and (a.null or a.loc.cell == b.loc.cell))
    if isinstance(a, N):
        if a.kind == 'opt':
            return z3.And(a['has'] == b['has'], z3.Implies(a['has'], same(E, s, a['val'], b['val'])))
        if set(a.f) != set(b.f):
            raise Unsupported('comparison of %r' % a.meta)
        return z3.And([same(E, s, a[k], b[k]) for k in sorted(a.f)] or [z3.BoolVal(True)])
    if z3.is_expr(a):
        return a == b
    return z3.BoolVal(repr(a) == repr(b))


def unchanged(E, s, v0, this, but=()):
    v = E.read(s, this)
    return z3.And([same(E, s, v[k], v0[k]) for k in v0.f if k not in but])


def usable(d):
    return z3.Or(z3.And(d['device_type'] != CUDA, d['device_type'] != MANAGED), USABLE(d['device_id']))


def keysof(S, q):
    return sorted(k if isinstance(k, str) else k[1] for k, f in S.P['functions'].items() if f['q'] == q)


def verify(S):
    C = contracts()

    # ------------------------------------------------------------ construction of a channel
    for k in keysof(S, CC + '::ctor'):
        ps = levels.split(k[k.index('(') + 1:].rstrip(')'))
        if len(ps) not in (17, 19):
            continue
        opt = any('optional' in p for p in ps)
        kind = 'none' if len(ps) == 17 else 'function' if 'function' in ps[0] else 'array'

        def build(E, st, F, opt=opt, kind=kind):
            install(E, st)
            args, want = [], {}
            for n in HEADER:
                x = N('str', {'id': z3.Int(n)}, None) if n == 'source_name' else (z3.Real if n in REAL else z3.Int)(n)
                if n in STATED and opt:
                    x = N('opt', {'has': z3.Bool('has_' + n), 'val': x}, 'double' if n in REAL else 'long')
                args.append(x)
                want[n] = x
            if kind != 'none':
                mk = (lambda n: levels.ident(z3.Int(n), ND)) if kind == 'array' else (lambda n: N('struct', {'fid': z3.Int(n)}, 'callable'))
                args = [mk('samples'), mk('flags')] + args
            this = E.newcell(st, E.default(CC))

            def post(E, s, r):
                o = E.read(s, this)
                out = []
                for n in HEADER:
                    x, w = o['_' + n], want[n]
                    if n in STATED and not opt:
                        out.append((n, z3.And(x['has'], x['val'] == w)))
                    else:
                        out.append((n, same(E, s, x, w)))
                if kind != 'none':
                    raw = (lambda n: z3.Int(n)) if kind == 'array' else (lambda n: RUN(z3.Int(n)))
                    out += [('samples', observe(o['_data']) == raw('samples')), ('mask', observe(o['_mask']) == raw('flags'))]
                out += [('no-noise-estimate-yet', z3.Not(o['_noise_stats']['has'])), ('no-hits-yet', z3.BoolVal(bool(o['_hits'].null))), ('no-plane-yet', z3.BoolVal(bool(o['_integrated_drift_plane'].null))),
                        ('on-the-cpu', o['_device']['device_type'] == CPU)]
                return out
            return {'this': this, 'args': args, 'post': post}
        S.function(CC + '::ctor', build, sig='^' + re.escape(k) + '$', contracts=C, name='channel(%s%s)' % ({'none': '', 'function': 'deferred, ', 'array': 'arrays, '}[kind], 'optional' if opt else 'stated'))

    # ------------------------------------------------------------ header values
    def reader(q, typ, member, stated):
        def build(E, st, F):
            install(E, st)
            v0 = E.fresh(typ, 'o')
            this = E.newcell(st, v0)
            m = v0[member]
            if member == '_num_coarse_channels':
                st.pc += [m >= 0, m < 2 ** 31]
                E.assumptions.add('precondition: fewer than 2^31 coarse channels')

            def post(E, s, r):
                r = rd(E, s, r)
                return [('reports-it', z3.And(m['has'], same(E, s, r, m['val'])) if stated else same(E, s, r, m)), ('changes-nothing', unchanged(E, s, v0, this))]
            out = {'this': this, 'args': [], 'post': post}
            if stated:
                out['throws'] = lambda E, s: [('only-when-not-stated', z3.Not(m['has'])), ('as-bad-optional-access', z3.BoolVal(s.sig[1] == 'std::bad_optional_access'))]
            return out
        return build
    for n in HEADER[:-1]:
        S.function(CC + '::' + n, reader(CC + '::' + n, CC, '_' + n, n in STATED), contracts=C, name='channel.' + n)
    opt_scan = STATED - {'nbits'}
    for n in HEADER[:-1] + ['tduration_secs']:
        S.function(SC + '::' + n, reader(SC + '::' + n, SC, '_' + n, n in opt_scan), contracts=C, name='scan.' + n)
    S.function(SC + '::get_number_coarse_channels', reader('', SC, '_num_coarse_channels', False), contracts=C, name='scan.get_number_coarse_channels')

    def setter(n):
        def build(E, st, F):
            install(E, st)
            v0 = E.fresh(SC, 'o')
            this = E.newcell(st, v0)
            x = N('str', {'id': z3.Int('new')}, None) if n == 'source_name' else (z3.Real if n in REAL else z3.Int)('new')

            def post(E, s, r):
                m = E.read(s, this)['_' + n]
                ok = z3.And(m['has'], m['val'] == x) if n in opt_scan else same(E, s, m, x)
                return [('holds-it', ok), ('changes-nothing-else', unchanged(E, s, v0, this, ('_' + n,)))]
            return {'this': this, 'args': [x], 'post': post}
        return build
    for n in HEADER[:-1]:
        if n != 'ntsteps':
            S.function(SC + '::set_' + n, setter(n), contracts=C, name='scan.set_' + n)

    # ------------------------------------------------------------ samples and mask of a channel
    for w in ('data', 'mask'):
        def b_get(E, st, F, w=w):
            install(E, st)
            v0 = E.fresh(CC, 'cc')
            this = E.newcell(st, v0)
            x = v0['_' + w]

            def post(E, s, r):
                d = v0['_device']
                return [('the-ones-held-on-the-device-of-the-channel', rd(E, s, r)['id'] == move(z3.If(x['fn'], RUN(x['fid']), x['arr']), d)), ('others-unchanged', unchanged(E, s, v0, this, ('_' + w,))),
                        ('held-as-before', observe(E.read(s, this)['_' + w]) == observe(x))]
            return {'this': this, 'args': [], 'post': post}
        S.function(CC + '::' + w, b_get, contracts=C, name='channel.' + w)
        for kind in ('array', 'deferred'):
            def b_set(E, st, F, w=w, kind=kind):
                install(E, st)
                v0 = E.fresh(CC, 'cc')
                this = E.newcell(st, v0)
                new = arr(z3.Int('new')) if kind == 'array' else E.fresh(DEF, 'new')

                def post(E, s, r):
                    return [('holds-them', same(E, s, E.read(s, this)['_' + w], todef(new))), ('others-unchanged', unchanged(E, s, v0, this, ('_' + w,)))]
                return {'this': this, 'args': [new], 'post': post}
            S.function(CC + '::set_' + w, b_set, sig=r'set_%s\(bland::ndarray%s\)' % (w, '_deferred' if kind == 'deferred' else ''), contracts=C, name='channel.set_%s.%s' % (w, kind))

    # ------------------------------------------------------------ noise
    def b_noise(E, st, F):
        install(E, st)
        v0 = E.fresh(CC, 'cc')
        this = E.newcell(st, v0)
        m = v0['_noise_stats']
        return {'this': this, 'args': [], 'post': lambda E, s, r: [('the-one-held', z3.And(m['has'], same(E, s, r, m['val']))), ('changes-nothing', unchanged(E, s, v0, this))],
                'throws': lambda E, s: [('only-without-an-estimate', z3.Not(m['has'])), ('as-logic-error', z3.BoolVal(s.sig[1] == 'std::logic_error'))]}
    S.function(CC + '::noise_estimate', b_noise, contracts=C, name='channel.noise_estimate')

    def b_snoise(E, st, F):
        install(E, st)
        v0 = E.fresh(CC, 'cc')
        this = E.newcell(st, v0)
        new = E.fresh('bliss::noise_stats', 'new')

        def post(E, s, r):
            m = E.read(s, this)['_noise_stats']
            return [('holds-it', z3.And(m['has'], same(E, s, m['val'], new))), ('others-unchanged', unchanged(E, s, v0, this, ('_noise_stats',)))]
        return {'this': this, 'args': [E.newcell(st, new)], 'post': post}
    S.function(CC + '::set_noise_estimate', b_snoise, contracts=C, name='channel.set_noise_estimate')

    # ------------------------------------------------------------ device
    def b_dev(typ):
        def build(E, st, F):
            install(E, st)
            v0 = E.fresh(typ, 'o')
            this = E.newcell(st, v0)
            return {'this': this, 'args': [], 'post': lambda E, s, r: [('the-one-selected', z3.And([a == b for a, b in zip(td(rd(E, s, r)), td(v0['_device']))]))]}
        return build
    S.function(CC + '::device', b_dev(CC), contracts=C, name='channel.device')
    S.function(SC + '::device', b_dev(SC), contracts=C, name='scan.device')

    def b_setdev(text):
        def build(E, st, F):
            install(E, st)
            v0 = E.fresh(CC, 'cc')
            this = E.newcell(st, v0)
            if text:
                a = N('str', {'id': z3.Int('name')}, None)
                d = dev(NAMED_T(a['id']), NAMED_I(a['id']))
            else:
                d = dev(z3.Int('new_type'), z3.Int('new_number'))
                a = E.newcell(st, d)

            def post(E, s, r):
                x = E.read(s, this)['_device']
                return [('rejects-unusable', usable(d)), ('selected', z3.And([p == q for p, q in zip(td(x), td(d))])), ('others-unchanged', unchanged(E, s, v0, this, ('_device',)))]
            return {'this': this, 'args': [a], 'post': post, 'throws': lambda E, s: [('rejects-only-unusable', z3.Not(usable(d))), ('leaves-the-channel-alone', unchanged(E, s, v0, this))]}
        return build
    S.function(CC + '::set_device', b_setdev(False), sig=r'set_device\(&bland', contracts=C, name='channel.set_device')
    S.function(CC + '::set_device', b_setdev(True), sig=r'string_view', contracts=C, name='channel.set_device(name)')

    # ------------------------------------------------------------ a plane of integrated drifts
    COUNTERS = ('filter_rolloff', 'low_spectral_kurtosis', 'high_spectral_kurtosis', 'magnitude', 'sigma_clip')
    CARRIED = COUNTERS[:3]

    def b_iset(text):
        def build(E, st, F):
            install(E, st)
            v0 = E.fresh(IFL, 'o')
            this = E.newcell(st, v0)
            a = N('str', {'id': z3.Int('name')}, None) if text else dev(z3.Int('new_type'), z3.Int('new_number'))
            d = dev(NAMED_T(a['id']), NAMED_I(a['id'])) if text else a
            return {'this': this, 'args': [a], 'post': lambda E, s, r: [('selected', z3.And([p == q for p, q in zip(td(E.read(s, this)['_device']), td(d))])), ('others-unchanged', unchanged(E, s, v0, this, ('_device',)))]}
        return build
    S.function(IFL + '::set_device', b_iset(False), sig=r'dev\)', contracts=C, name='counters.set_device')
    S.function(IFL + '::set_device', b_iset(True), sig=r'string_view', contracts=C, name='counters.set_device(name)')

    def b_ipush(E, st, F):
        install(E, st)
        v0 = E.fresh(IFL, 'o')
        this = E.newcell(st, v0)

        def post(E, s, r):
            o = E.read(s, this)
            return [(n, o[n]['id'] == move(v0[n]['id'], v0['_device'])) for n in CARRIED] + [(n, z3.Or(o[n]['id'] == v0[n]['id'], o[n]['id'] == move(v0[n]['id'], v0['_device']))) for n in COUNTERS[3:]] + [('device', same(E, s, o['_device'], v0['_device']))]
        return {'this': this, 'args': [], 'post': post}
    S.function(IFL + '::push_device', b_ipush, contracts=C, name='counters.push_device')

    def carried(o, v, d):
        return z3.And([o[n]['id'] == move(v[n]['id'], d) for n in CARRIED])
    for k in keysof(S, FDP + '::ctor'):
        ps = levels.split(k[k.index('(') + 1:].rstrip(')'))
        if not ps[0].startswith(DEF):
            continue

        def b_plane(E, st, F, n=len(ps)):
            install(E, st)
            p, f = E.fresh(DEF, 'plane'), E.fresh(IFL, 'counters')
            t = N('struct', {'id': z3.Int('table')}, 'container')
            this = E.newcell(st, E.default(FDP))

            def post(E, s, r):
                o = E.read(s, this)
                out = [('holds-the-plane', same(E, s, o['_integrated_drifts'], p)), ('holds-the-counters', same(E, s, o['_dedrifted_rfi'], f))]
                if n == 4:
                    out += [('integration-steps', o['_integration_steps'] == z3.Int('steps')), ('rates', same(E, s, o['_drift_rate_info'], t))]
                return out
            return {'this': this, 'args': [p, E.newcell(st, f)] + ([z3.Int('steps'), t] if n == 4 else []), 'post': post}
        S.function(FDP + '::ctor', b_plane, sig='^' + re.escape(k) + '$', contracts=C, name='plane(%d)' % len(ps))
    S.function(FDP + '::integration_steps', reader('', FDP, '_integration_steps', False), contracts=C, name='plane.integration_steps')
    S.function(FDP + '::drift_rate_info', reader('', FDP, '_drift_rate_info', False), contracts=C, name='plane.drift_rate_info')

    def b_pget(E, st, F):
        install(E, st)
        v0 = E.fresh(FDP, 'o')
        this = E.newcell(st, v0)
        x = v0['_integrated_drifts']

        def post(E, s, r):
            want = move(z3.If(x['fn'], RUN(x['fid']), x['arr']), v0['_device'])
            return [('the-plane-held-on-its-device', rd(E, s, r)['id'] == want), ('rest-unchanged', unchanged(E, s, v0, this, ('_integrated_drifts',))), ('still-held', observe(E.read(s, this)['_integrated_drifts']) == want)]
        return {'this': this, 'args': [], 'post': post}
    S.function(FDP + '::integrated_drift_plane', b_pget, contracts=C, name='plane.integrated_drift_plane')

    def b_prfi(E, st, F):
        install(E, st)
        v0 = E.fresh(FDP, 'o')
        this = E.newcell(st, v0)
        f = v0['_dedrifted_rfi']
        return {'this': this, 'args': [], 'post': lambda E, s, r: [('the-counters-held-on-the-device-of-the-plane', carried(rd(E, s, r), f, v0['_device'])), ('rest-unchanged', unchanged(E, s, v0, this, ('_dedrifted_rfi',))),
                                                                   ('still-held', carried(E.read(s, this)['_dedrifted_rfi'], f, v0['_device']))]}
    S.function(FDP + '::integrated_rfi', b_prfi, contracts=C, name='plane.integrated_rfi')

    def b_pset(text):
        def build(E, st, F):
            install(E, st)
            v0 = E.fresh(FDP, 'o')
            this = E.newcell(st, v0)
            a = N('str', {'id': z3.Int('name')}, None) if text else dev(z3.Int('new_type'), z3.Int('new_number'))
            d = dev(NAMED_T(a['id']), NAMED_I(a['id'])) if text else a
            return {'this': this, 'args': [a], 'post': lambda E, s, r: [('selected', z3.And([p == q for p, q in zip(td(E.read(s, this)['_device']), td(d))])), ('others-unchanged', unchanged(E, s, v0, this, ('_device',)))]}
        return build
    S.function(FDP + '::set_device', b_pset(False), sig=r'dev\)', contracts=C, name='plane.set_device')
    S.function(FDP + '::set_device', b_pset(True), sig=r'string_view', contracts=C, name='plane.set_device(name)')

    def b_ppush(E, st, F):
        install(E, st)
        v0 = E.fresh(FDP, 'o')
        this = E.newcell(st, v0)
        x = v0['_integrated_drifts']

        def post(E, s, r):
            o = E.read(s, this)
            y = o['_integrated_drifts']
            return [('the-plane-moved', observe(y) == move(z3.If(x['fn'], RUN(x['fid']), x['arr']), v0['_device'])), ('the-counters-moved', carried(o['_dedrifted_rfi'], v0['_dedrifted_rfi'], v0['_device'])),
                    ('rest-unchanged', unchanged(E, s, v0, this, ('_integrated_drifts', '_dedrifted_rfi')))]
        return {'this': this, 'args': [], 'post': post}
    S.function(FDP + '::push_device', b_ppush, contracts=C, name='plane.push_device')

    # ------------------------------------------------------------ what a channel holds, moved to its device
    isfn = lambda e: 'function' in e['ta'][0]
    vp = lambda f: (lambda E, st, e: E.bind(stdlib.vals_ptr(E, e['a'], st), lambda s, vs: f(E, s, vs, e)))
    Cp = dict(C)
    Cp['std::holds_alternative'] = vp(lambda E, s, vs, e: [(s, rd(E, s, vs[0])['fn'] if isfn(e) else z3.Not(rd(E, s, vs[0])['fn']))])

    def c_get(E, s, vs, e):
        if not isinstance(vs[0], Loc):
            raise Unsupported('alternative of a temporary')
        E.oblige(s, 'alternative-held', rd(E, s, vs[0])['fn'] if isfn(e) else z3.Not(rd(E, s, vs[0])['fn']), e['ln'], 'safety')
        return [(s, vs[0].fld('plane'))]
    Cp['std::get'] = lambda E, st, e: E.bind(E.lval(e['a'][0], st), lambda s, l: c_get(E, s, [l], e))

    def c_psd(E, s, ol, vs, e):
        E.write(s, ol.fld('dev'), asdev(rd(E, s, vs[0])))
        E.assumptions.add('contract of set_device and push_device of a plane (verified in this check)')
        return [(s, None)]
    Cp[FDP + '::set_device'] = lambda E, st, e, ol: E.bind(stdlib.vals_ptr(E, e['a'], st), lambda s, vs: c_psd(E, s, ol, vs, e))
    Cp[FDP + '::push_device'] = lambda E, st, e, ol: (E.write(st, ol.fld('id'), move(rd(E, st, ol)['id'], rd(E, st, ol)['dev'])), [(st, None)])[1]
    for held in ('none', 'plane', 'function'):
        def b_push(E, st, F, held=held):
            install(E, st)
            v0 = E.fresh(CC, 'cc')
            cell = None
            if held != 'none':
                cell = E.newcell(st, N('struct', {'fn': z3.BoolVal(held == 'function'), 'plane': N('struct', {'id': z3.Int('held'), 'dev': dev(z3.Int('pt'), z3.Int('pi'))}, FDP)}, 'variant'))
                v0 = v0.set(_integrated_drift_plane=Ptr(cell, None))
            this = E.newcell(st, v0)

            def post(E, s, r):
                o = E.read(s, this)
                d = v0['_device']
                out = [('rest-unchanged', unchanged(E, s, v0, this, ('_data', '_mask')))]
                for w in ('data', 'mask'):
                    x = v0['_' + w]
                    out.append((w + '-as-before-on-the-device', observe(o['_' + w]) == move(z3.If(x['fn'], RUN(x['fid']), x['arr']), d)))
                if held != 'none':
                    p = E.read(s, cell)
                    out.append(('the-plane-too', z3.And(p['fn'] == (held == 'function'), p['plane']['id'] == (move(z3.Int('held'), d) if held == 'plane' else z3.Int('held')))))
                return out
            return {'this': this, 'args': [], 'post': post}
        S.function(CC + '::push_device', b_push, contracts=Cp, name='channel.push_device.' + held)

    # ------------------------------------------------------------ a scan made of channels; device of a scan
    PAIR = 'std::pair<const int, std::shared_ptr<bliss::coarse_channel>>'
    AT = z3.Function('channel_at', I, I)
    KEY = z3.Function('key_at', I, I)

    def channels(E, t, n, lift=0):
        k = z3.Int('k')
        return N('vec', {'len': z3.Int('number_of_channels'), 'data': N('struct', {'first': z3.Lambda([k], KEY(k)), 'second': N('struct', {'id': z3.Lambda([k], AT(k))}, 'handle')}, PAIR)}, PAIR)
    Cs = dict(C)
    Cs['std::__shared_ptr_access::operator->'] = lambda E, st, e, ol: [(st, Ptr(E.newcell(st, rd(E, st, ol)), None))]

    def c_ccdev(E, st, e, ol):
        def f(s, vs):
            d, i = asdev(rd(E, s, vs[0])), rd(E, s, ol)['id']
            g = s.frames[0].env
            bad = s.fork()
            bad.pc.append(z3.Not(usable(d)))
            bad.sig = ('throw', 'std::runtime_error')
            s.pc.append(usable(d))
            for nm, x in zip(('g:t', 'g:i'), td(d)):
                E.write(s, g[nm], z3.Store(E.read(s, g[nm]), i, x))
            E.assumptions.add('contract of set_device of a channel (verified in this check)')
            return [(s, None), (bad, None)]
        return E.bind(stdlib.vals_ptr(E, e['a'], st), f)
    Cs[CC + '::set_device'] = c_ccdev

    def c_ccpush(E, st, e, ol):
        g = st.frames[0].env
        i = rd(E, st, ol)['id']
        E.write(st, g['g:pushed'], z3.Store(E.read(st, g['g:pushed']), i, z3.BoolVal(True)))
        return [(st, None)]
    Cs[CC + '::push_device'] = c_ccpush
    W = {}

    def ghosts(E, st):
        install(E, st)
        g = st.frames[0].env
        for nm in ('g:t', 'g:i'):
            W[nm] = z3.Const(nm + '0', z3.ArraySort(I, I))
            g[nm] = E.newcell(st, W[nm])
        W['g:pushed'] = z3.Const('pushed0', z3.ArraySort(I, B))
        g['g:pushed'] = E.newcell(st, W['g:pushed'])
        st.pc.append(z3.Int('number_of_channels') >= 0)

    def on(E, s, n, d, pushed=False):
        g = [E.read(s, s.frames[0].env[nm]) for nm in ('g:t', 'g:i', 'g:pushed')]
        x = lambda k: AT(k)
        return [('every-channel', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < n), z3.And([z3.Select(g[0], x(k)) == d['device_type'], z3.Select(g[1], x(k)) == d['device_id']] + ([z3.Select(g[2], x(k))] if pushed else []))), pats=lambda k: AT(k)))]

    def index(c):
        for fr in reversed(c.st.frames):
            for nm, key in fr.names.items():
                if nm.startswith('__idx_') and key in fr.env:
                    return c.E.read(c.st, fr.env[key])
        raise Unsupported('loop over the channels not recognised')

    def m_loop(pushed):
        def inv(c):
            i = index(c)
            return [('range', z3.And(i >= 0, i <= z3.Int('number_of_channels')))] + on(c.E, c.st, i, W['d'], pushed)
        return {'match': lambda E, n, st, ordn: inv}

    def b_scdev(text):
        def build(E, st, F):
            ghosts(E, st)
            v0 = E.fresh(SC, 'sc').set(_coarse_channels=channels(E, '', ''))
            this = E.newcell(st, v0)
            if text:
                a = N('str', {'id': z3.Int('name')}, None)
                d = dev(NAMED_T(a['id']), NAMED_I(a['id']))
            else:
                d = dev(z3.Int('new_type'), z3.Int('new_number'))
                a = E.newcell(st, d)
            W['d'] = d

            def post(E, s, r):
                x = E.read(s, this)['_device']
                return [('rejects-unusable', usable(d)), ('selected', z3.And([p == q for p, q in zip(td(x), td(d))])), ('others-unchanged', unchanged(E, s, v0, this, ('_device',)))] + on(E, s, z3.Int('number_of_channels'), d)
            return {'this': this, 'args': [a, z3.Bool('verbose')], 'post': post, 'throws': lambda E, s: [('rejects-only-unusable', z3.Not(usable(d)))]}
        return build
    S.function(SC + '::set_device', b_scdev(False), sig=r'set_device\(&bland', contracts=Cs, loops=m_loop(False), name='scan.set_device')
    S.function(SC + '::set_device', b_scdev(True), sig=r'string_view', contracts=Cs, loops=m_loop(False), name='scan.set_device(name)')

    def b_scpush(E, st, F):
        ghosts(E, st)
        v0 = E.fresh(SC, 'sc').set(_coarse_channels=channels(E, '', ''))
        this = E.newcell(st, v0)
        W['d'] = v0['_device']
        return {'this': this, 'args': [], 'post': lambda E, s, r: [('scan-unchanged', unchanged(E, s, v0, this))] + on(E, s, z3.Int('number_of_channels'), v0['_device'], True),
                'throws': lambda E, s: [('rejects-only-unusable', z3.Not(usable(v0['_device'])))]}
    S.function(SC + '::push_device', b_scpush, contracts=Cs, loops=m_loop(True), name='scan.push_device')

    def b_scan(E, st, F):
        install(E, st)
        first = E.fresh(CC, 'first')
        cell = E.newcell(st, first)
        n = z3.Int('number_of_channels')
        has0 = z3.Bool('has_channel_0')
        st.pc += [n >= 0, n < 2 ** 31, first['_nchans'] >= 0, first['_nchans'] < 2 ** 31, z3.Implies(has0, n >= 1)]
        E.assumptions.add('preconditions: fewer than 2^31 channels, coarse and fine')
        m = N('struct', {'id': z3.Int('channels')}, 'container')

        def c_at(E, s0, e, ol):
            def f(s, vs):
                i = vs[0] if not isinstance(vs[0], Loc) else rd(E, s, vs[0])
                E.oblige(s, 'the-first-channel', i == 0, e['ln'], 'safety')
                bad = s.fork()
                bad.pc.append(z3.Not(has0))
                bad.sig = ('throw', 'std::out_of_range')
                s.pc.append(has0)
                return [(s, E.newcell(s, Ptr(cell, None))), (bad, None)]
            return E.bind(stdlib.vals_ptr(E, e['a'], s0), f)
        E.C.update({'std::map::at': c_at, 'std::map::size': lambda E, s, e, ol: [(s, n)], 'std::map::operator=': levels.assign, 'ctor:std::map': levels.ctor})
        for h in HEADER:
            if h not in ('coarse_channel_number',):
                E.C[CC + '::' + h] = (lambda h: lambda E, s, e, ol: [(s, E.read(s, ol)['_' + h])])(h)
        sc = E.fresh(SC, 'uninitialised')
        for k in ('_coarse_channels', '_h5_file_handle'):
            pass
        this = E.newcell(st, sc)

        def post(E, s, r):
            o = E.read(s, this)
            out = [('needs-a-first-channel', has0), ('holds-the-channels', same(E, s, o['_coarse_channels'], m)), ('number-of-coarse-channels', o['_num_coarse_channels'] == n),
                   ('fine-channels', z3.And(o['_fine_channels_per_coarse'] == first['_nchans'], o['_nchans'] == first['_nchans'] * n)),
                   ('duration', o['_tduration_secs'] == z3.ToReal(first['_ntsteps']) * first['_tsamp']), ('from-the-first-channel', o['_coarse_channel_offset'] == 0)]
            for h in HEADER[:-1]:
                if h == 'nchans':
                    continue
                if h == 'nbits':
                    out.append((h, o['_nbits'] == z3.If(first['_nbits']['has'], first['_nbits']['val'], 0)))
                else:
                    out.append((h, same(E, s, o['_' + h], first['_' + h])))
            return out
        return {'this': this, 'args': [m], 'post': post, 'throws': lambda E, s: [('only-without-a-first-channel', z3.Not(has0))]}
    S.function(SC + '::ctor', b_scan, sig=r'ctor\(std::map', contracts=C, name='scan(channels)')

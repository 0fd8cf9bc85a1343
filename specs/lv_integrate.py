"""integrate_drifts of a channel (which samples, flags, rates and options reach the kernel, and that the channel carries its
result) and of a scan, target and cadence"""
import z3
from dv.session import Q
from dv.engine import IV, I, R, B, N, Ptr, Loc, Opq, Unsupported
from dv import stdlib
from . import levels
from .lv_filter import val, CC

UNITS = [('bliss/drift_search/integrate_drifts.cpp', [r'^bliss::integrate_drifts\('], [r'^bliss::integrate_linear', r'^compute_drifts', r'^bliss::scan::', r'^bland::', r'^fmt::', r'^bliss::coarse_channel::(data|mask)\(']),
         ('bliss/core/coarse_channel.cpp', [r'^bliss::coarse_channel::(set_integrated_drift_plane|integrated_drift_plane|device|ntsteps|foff|tsamp)\('], [r'^bland::', r'^bliss::frequency_drift_plane']),
         ('bliss/core/frequency_drift_plane.cpp', [r'^bliss::frequency_drift_plane::(set_device|integration_steps|drift_rate_info)\('], [r'^bland::'])]
Q_ = 'bliss::integrate_drifts'
OPT = 'bliss::integrate_drifts_options'
FDP = 'bliss::frequency_drift_plane'
COMPUTED = z3.Function('plane_computed_by', I, I)


def plane(i, d=None):
    return N('struct', dict({'id': i}, **({'_device': d} if d is not None else {})), FDP)


def verify(S):
    vp = lambda f: (lambda E, st, e: E.bind(stdlib.vals_ptr(E, e['a'], st), lambda s, vs: f(E, s, vs, e)))
    vm = lambda f: (lambda E, st, e, ol: E.bind(stdlib.vals_ptr(E, e['a'], st), lambda s, vs: f(E, s, ol, vs, e)))
    isfn = lambda e: 'function' in e['ta'][0]
    dv = N('struct', {'device_type': z3.Int('device_type'), 'device_id': z3.Int('device_id')}, 'bland::ndarray::dev')

    def variant(E, s, v):
        v = val(E, s, v)
        if isinstance(v, N) and v.meta == 'variant':
            return v
        if isinstance(v, N) and v.meta == FDP:
            return N('struct', {'fn': z3.BoolVal(False), 'fid': IV(0), 'plane': v}, 'variant')
        if isinstance(v, N) and v.meta == 'callable':
            return N('struct', {'fn': z3.BoolVal(True), 'fid': v['fid'], 'plane': plane(IV(0), dv)}, 'variant')
        raise Unsupported('alternative %r' % (v,))
    C = {'ctor:' + CC: levels.ctor, 'ctor:' + FDP: levels.ctor, 'ctor:std::function': levels.ctor}
    C['fmt::print'] = stdlib.ignore_str
    C['std::make_shared'] = vp(lambda E, s, vs, e: [(s, Ptr(E.newcell(s, variant(E, s, vs[0])), None))])
    C['std::holds_alternative'] = vp(lambda E, s, vs, e: [(s, val(E, s, vs[0])['fn'] if isfn(e) else z3.Not(val(E, s, vs[0])['fn']))])

    def get(E, st, e):
        def f(s, vs):
            v = val(E, s, vs[0])
            E.oblige(s, 'alternative-held', v['fn'] if isfn(e) else z3.Not(v['fn']), e['ln'], 'safety')
            if isfn(e):
                return [(s, E.newcell(s, N('struct', {'fid': v['fid']}, 'callable')))]
            return [(s, vs[0].fld('plane') if isinstance(vs[0], Loc) else E.newcell(s, v['plane']))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    C['std::get'] = get
    C['std::function::operator()'] = vm(lambda E, s, ol, vs, e: [(s, plane(COMPUTED(val(E, s, ol)['fid']), dv))])
    C['ctor:bland::ndarray::dev'] = levels.ctor
    C['bland::ndarray::dev::operator='] = levels.assign

    def chan(E, st):
        return N('struct', {'id': z3.Int('channel_id'), '_device': dv, '_ntsteps': z3.Int('T'), '_foff': z3.Real('foff'), '_tsamp': z3.Real('tsamp'), '_nchans': z3.Int('F'),
                            '_data': z3.Int('data'), '_mask': z3.Int('mask'), '_integrated_drift_plane': Ptr(None, None, True)}, CC)

    def params(E, st):
        o = E.fresh(OPT, 'options')
        return [o]
    params.n = 1
    GEN = {}

    def fn(nm, ts, out=I):
        f = z3.Function('%s/%d' % (nm, len(ts)), *([t.sort() for t in ts] + [out]))
        return f(*ts)

    # ------------------------------------------------------------ channel
    Cc = dict(C)
    for w in ('data', 'mask'):
        Cc['bliss::coarse_channel::' + w] = lambda E, st, e, ol, w=w: [(st, N('struct', {'id': E.read(st, ol)['_' + w]}, 'bland::ndarray'))]
    Cc['ctor:bland::ndarray'] = levels.ctor
    RATE = FDP + '::drift_rate'

    def c_table(E, st, e):
        def f(s, vs):
            v = E.fresh('std::vector<%s>' % RATE, 'rates')
            i = fn('rates_for', levels.flat(E, s, vs))
            s.pc += [v['len'] >= 1, TABLE(v['data']['index_in_plane'], v['data']['drift_rate_slope']) == i]
            E.tables[str(v['data']['index_in_plane'])] = i
            E.assumptions.add('contract of compute_drifts: a table as a function of its parameters (proved under P20); precondition: at least one rate')
            return [(s, v)]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    TABLE = z3.Function('table_identity', z3.ArraySort(I, I), z3.ArraySort(I, R), I)

    def c_kernel(E, st, e):
        def f(s, vs):
            vs = [val(E, s, v) for v in vs]
            d, m, t, o = vs
            r = fn('integrated', [d['id'], m['id'], TABLE(t['data']['index_in_plane'], t['data']['drift_rate_slope'])] + levels.flat(E, s, [o]))
            E.assumptions.add('contract of integrate_linear_rounded_bins_cpu as a function of samples, mask, table and options (proved separately in this check)')
            return [(s, plane(r, N('struct', {'device_type': IV(1), 'device_id': IV(0)}, 'bland::ndarray::dev')))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    Cc['compute_drifts'] = c_table
    Cc['bliss::integrate_linear_rounded_bins_cpu'] = c_kernel

    def build_c(E, st, F):
        E.tables = {}
        cc = chan(E, st)
        ps = params(E, st)
        st.pc += [dv['device_type'] == 1, z3.Int('T') >= 1, z3.Int('T') < 2 ** 31]
        E.assumptions.add('precondition: the channel is on the CPU (the CUDA kernel and the slower reference kernel are not covered)')
        tab = fn('rates_for', [cc['_ntsteps'], cc['_foff'], cc['_tsamp']] + levels.flat(E, st, ps))
        want = fn('integrated', [cc['_data'], cc['_mask'], tab] + levels.flat(E, st, ps))

        def post(E, s, r):
            r = val(E, s, r)
            p = r['_integrated_drift_plane']
            if not (isinstance(p, Ptr) and not p.null):
                return [('carries-a-plane', z3.BoolVal(False))]
            w = E.read(s, p.loc)
            return [('carries-the-integration-of-its-samples', z3.And(z3.Not(w['fn']), w['plane']['id'] == want)), ('same-channel', z3.And([r[k] == cc[k] for k in ('id', '_data', '_mask', '_foff', '_tsamp', '_ntsteps', '_nchans')]))]
        return {'args': [E.newcell(st, cc)] + ps, 'post': post}
    S.function(Q_, build_c, sig=r'\(bliss::coarse_channel', contracts=Cc, name='integrate_drifts.channel')

    # ------------------------------------------------------------ the plane a channel carries
    for held in ('none', 'plane', 'function'):
        def b_get(E, st, F, held=held):
            h, cell = Ptr(None, None, True), None
            pd = N('struct', {'device_type': z3.Int('pt'), 'device_id': z3.Int('pi')}, 'bland::ndarray::dev')
            if held != 'none':
                cell = E.newcell(st, N('struct', {'fn': z3.BoolVal(held == 'function'), 'fid': z3.Int('finder'), 'plane': plane(z3.Int('held'), pd)}, 'variant'))
                h = Ptr(cell, None)
            this = E.newcell(st, chan(E, st).set(_integrated_drift_plane=h))

            def post(E, s, r):
                if held == 'none':
                    return [('rejected-without-a-plane', z3.BoolVal(False))]
                r = val(E, s, r)
                w = E.read(s, cell)
                return [('the-held-plane', r['id'] == (COMPUTED(z3.Int('finder')) if held == 'function' else z3.Int('held'))),
                        ('on-the-device-of-the-channel', z3.And(r['_device']['device_type'] == dv['device_type'], r['_device']['device_id'] == dv['device_id'])),
                        ('still-held', z3.And(w['fn'] == (held == 'function'), w['fid'] == z3.Int('finder'), w['plane']['id'] == z3.Int('held')))]
            return {'this': this, 'args': [], 'post': post, 'throws': lambda E, s: [('only-without-a-plane', z3.BoolVal(held == 'none'))]}
        S.function(CC + '::integrated_drift_plane', b_get, contracts=C, name='integrated_drift_plane.' + held)
        for kind in ('plane', 'function'):
            def b_set(E, st, F, held=held, kind=kind):
                h, cell = Ptr(None, None, True), None
                if held != 'none':
                    cell = E.newcell(st, N('struct', {'fn': z3.BoolVal(held == 'function'), 'fid': z3.Int('finder'), 'plane': plane(z3.Int('held'), dv)}, 'variant'))
                    h = Ptr(cell, None)
                this = E.newcell(st, chan(E, st).set(_integrated_drift_plane=h))
                new = z3.Int('new')

                def post(E, s, r):
                    p = E.read(s, this)['_integrated_drift_plane']
                    if not (isinstance(p, Ptr) and not p.null):
                        return [('holds-it', z3.BoolVal(False))]
                    w = E.read(s, p.loc)
                    out = [('holds-it', z3.And(z3.Not(w['fn']), w['plane']['id'] == new) if kind == 'plane' else z3.And(w['fn'], w['fid'] == new))]
                    if cell is not None:
                        o = E.read(s, cell)
                        out.append(('copies-of-the-channel-unaffected', z3.And(z3.BoolVal(p.loc.cell != cell.cell), o['fid'] == z3.Int('finder'), o['plane']['id'] == z3.Int('held'), o['fn'] == (held == 'function'))))
                    return out
                return {'this': this, 'args': [plane(new, dv) if kind == 'plane' else N('struct', {'fid': new}, 'callable')], 'post': post}
            S.function(CC + '::set_integrated_drift_plane', b_set, sig=r'plane\(bliss::freq' if kind == 'plane' else r'plane\(std::func', contracts=C, name='set_integrated_drift_plane.%s.%s' % (kind, held))

    # ------------------------------------------------------------ scan, target, cadence
    levels.verify(S, Q_, params, {}, 'integrate_drifts', pick=lambda k: not k.startswith(Q_ + '(' + CC))

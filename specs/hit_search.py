"""contracts of protohit_search and hit_search (bliss/drift_search)

protohit_search: the kernel is called with noise_power/sqrt(steps*bins) per rate, the noise floor, threshold and
distance it was given, and the plane itself.  hit_search: every hit is computed from its protohit, the rate
table and the channel metadata."""
from fractions import Fraction
import z3
from dv.session import Q, Session
from dv.engine import IV, RV, I, R, B, N, Loc, Ptr, Opq, absr, leaves, is_z, tsel
from dv import ndmodel as M

UNITS = [('bliss/drift_search/hit_search.cpp', [r'^bliss::hit_search'], [r'^bland::', r'^bliss::protohit_search', r'^bliss::noise_stats', r'^bliss::scan', r'^bliss::cadence', r'^bliss::observation']),
         ('bliss/drift_search/protohit_search.cpp', [r'^bliss::protohit_search'], [r'^bland::', r'^bliss::find_', r'^bliss::noise_stats']),
         ('bliss/core/coarse_channel.cpp', [r'^bliss::coarse_channel::(fch1|foff|tsamp|tstart|noise_estimate)\('], [r'^bland::']),
         M.UNIT_DT]

SQ = z3.Function('sqrt_of', R, R)


def verify(S):
    nd, T = z3.Ints('n_rates T')
    power, floor_, thr = z3.Reals('noise_power noise_floor snr_threshold')
    L, method = z3.Ints('l1 method')

    def const(v):
        return lambda E, st, e, ol: [(st, v)]

    # ------------------------------------------------------------ protohit_search
    st_ = {}

    def kernel(which):
        def h(E, st, e):
            def f(s, vs):
                vs = [E.read(s, v) if isinstance(v, Loc) else v for v in vs]
                out = E.fresh('std::vector<bliss::protohit>', 'found')
                s.pc.append(out['len'] >= 0)
                s.frames[0].env['called'] = E.newcell(s, N('struct', {'which': which, 'args': vs, 'out': out}, 'ghost'))
                E.assumptions.add('kernel contract: find_%s returns protohits of the plane it is given (checked under P23/P24)' % which)
                return [(s, out)]
            return E.bind(E.eval_args(E.ptypes_of(e['fn']), e['a'], st), f)
        return h

    def build_p(E, st, F):
        M.install(E, st)
        F_ = z3.Int('F')
        st.pc += [nd >= 0, T >= 1, F_ >= 0, nd <= 2 ** 29, T <= 2 ** 29]
        plane = M.mk_nd(E, st, 'plane', [nd, F_], elem='float')
        cnts = {f: M.mk_nd(E, st, f, [nd, F_], elem='unsigned char') for f in ('low_spectral_kurtosis', 'high_spectral_kurtosis', 'filter_rolloff')}
        rfi = N('struct', dict(cnts, _device=M.devval(E)), 'bliss::integrated_flags')
        tab = E.fresh('std::vector<bliss::frequency_drift_plane::drift_rate>', 'tab').set(len=nd)
        k = z3.Int('k!t')
        bins = tab['data']['desmeared_bins']
        st.pc.append(z3.ForAll([k], z3.And(bins[k] >= 1, bins[k] <= 2 ** 29), patterns=[bins[k]]))
        st_['bins'] = bins
        fdp = Opq('plane')
        E.C['bliss::frequency_drift_plane::integration_steps'] = const(T)
        E.C['bliss::frequency_drift_plane::drift_rate_info'] = const(tab)
        E.C['bliss::frequency_drift_plane::integrated_drift_plane'] = const(plane)
        E.C['bliss::frequency_drift_plane::integrated_rfi'] = const(rfi)
        E.C['bliss::noise_stats::noise_power'] = const(power)
        E.C['bliss::noise_stats::noise_floor'] = const(floor_)
        o = E.fresh('bliss::hit_search_options', 'opt').set(snr_threshold=thr, neighbor_l1_dist=L, method=method)
        m = S.P['enums']['bliss::hit_search_methods']['vals']
        st.pc.append(z3.Or([method == v for v in m.values()]))

        def post(E, s, ret):
            c = s.frames[0].env.get('called')
            if c is None:
                return [('kernel-called', z3.BoolVal(False))]
            c = E.read(s, c)
            pl, fl, nf, noise, th, dist = c['args']
            want = {'CONNECTED_COMPONENTS': 'components', 'LOCAL_MAXIMA': 'maxima'}
            sel = z3.And([z3.Implies(method == m[k], z3.BoolVal(c['which'] == w)) for k, w in want.items()])
            na = noise['data']['integration_adjusted_noise']

            def per(k):
                x = z3.ToReal(T * bins[k])
                return z3.Implies(z3.And(k >= 0, k < nd), na[k] * na[k] * x == power * power)

            def sign(k):
                return z3.Implies(z3.And(k >= 0, k < nd), (na[k] >= 0) == (power >= 0))
            return [('kernel-by-method', sel), ('plane-passed', z3.BoolVal(pl is plane)),
                    ('flags-passed', z3.BoolVal(all(fl[f] is cnts[f] for f in cnts))),
                    ('floor-passed', nf == floor_), ('threshold-passed', th == thr), ('distance-passed', dist == L),
                    ('noise-per-rate', Q(['k'], per)), ('noise-sign', Q(['k'], sign)), ('noise-count', noise['len'] == nd),
                    ('result-returned', z3.And(ret['len'] == c['out']['len'], *[x == y for (_, x), (_, y) in zip(leaves(ret['data']), leaves(c['out']['data']))]))]
        return {'args': [E.newcell(st, fdp), Opq('noise'), o], 'post': post}

    def loop_p(c):
        noise = c['noise_per_drift']
        na = noise['data']['integration_adjusted_noise']
        i = c.idx('drift_rate')
        bins = st_['bins']
        return [('range', z3.And(i >= 0, i <= nd, noise['len'] == i)),
                ('noise', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < i), z3.And(na[k] * na[k] * z3.ToReal(T * bins[k]) == power * power, (na[k] >= 0) == (power >= 0))), pats=lambda k: na[k]))]
    S.function('bliss::protohit_search', build_p, loops={0: loop_p}, contracts=dict(M.contracts(), **{
        'bliss::find_components_above_threshold': kernel('components'), 'bliss::find_local_maxima_above_threshold': kernel('maxima')}), name='protohit_search')

    # ------------------------------------------------------------ hit_search(coarse_channel)
    H = {}

    def c_protohit(E, st, e):
        def f(s, vs):
            vs = [E.read(s, v) if isinstance(v, Loc) else v for v in vs]
            E.oblige(s, 'searches-this-plane', z3.BoolVal(vs[0] is H['plane']), e['ln'], 'spec')
            E.oblige(s, 'searches-with-this-noise', z3.And([x == y for (_, x), (_, y) in zip(leaves(vs[1]), leaves(H['noise']))] + [z3.BoolVal(type(vs[1]) == type(H['noise']))]), e['ln'], 'spec')
            E.oblige(s, 'searches-with-these-options', z3.And([vs[2][k] == H['opt'][k] for k in ('method', 'snr_threshold', 'neighbor_l1_dist')]), e['ln'], 'spec')
            P = H['P']
            k = z3.Int('k!ph')
            d = P['data']['index_max']['drift_index']
            s.pc += [P['len'] >= 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < P['len']), z3.And(d[k] >= 0, d[k] < nd, P['data']['desmeared_noise'][k] > 0,
                                                                    P['data']['snr'][k] * P['data']['desmeared_noise'][k] == P['data']['max_integration'][k] - floor_)), patterns=[d[k]])]
            E.assumptions.add('contract of protohit_search: peaks lie on rates of the plane, noise positive, ratio = excess over noise (checked under P23-P25)')
            return [(s, P)]
        return E.bind(E.eval_args(E.ptypes_of(e['fn']), e['a'], st), f)

    def build_h(E, st, F):
        M.install(E, st)
        st.pc += [nd >= 1, T >= 1, T <= 2 ** 29]
        E.C['fresh:bland::ndarray'] = lambda E, t, n, lift=0: Opq('nd:' + n)
        E.C['fresh:bland::ndarray_deferred'] = E.C['fresh:bland::ndarray']
        cc = E.fresh('bliss::coarse_channel', 'cc')
        tab = E.fresh('std::vector<bliss::frequency_drift_plane::drift_rate>', 'tab').set(len=nd)
        H['plane'] = plane = N('struct', {'tag': z3.Int('plane_id')}, 'plane')
        H['noise'] = noise = N('struct', {'id': z3.Int('noise_id')}, 'bliss::noise_stats')
        H['P'] = P = E.fresh('std::vector<bliss::protohit>', 'P')
        H['opt'] = opt = E.fresh('bliss::hit_search_options', 'opt')
        cc = cc.set(_noise_stats=N('opt', {'has': z3.BoolVal(True), 'val': noise}, 'bliss::noise_stats'))
        E.C['bliss::coarse_channel::integrated_drift_plane'] = const(plane)
        E.C['bliss::frequency_drift_plane::integration_steps'] = const(T)
        E.C['bliss::frequency_drift_plane::drift_rate_info'] = const(tab)
        E.C['bliss::noise_stats::noise_floor'] = const(floor_)
        E.C['ctor:bliss::noise_stats'] = M.identity_ctor
        H.update(cc=cc, tab=tab)

        def post(E, s, ret):
            return [('one-hit-per-protohit', ret['len'] == P['len'])] + \
                [('hit.' + n, Q(['k'], lambda k, f=f: z3.Implies(z3.And(k >= 0, k < P['len']), f(tsel(ret['data'], k), tsel(P['data'], k))))) for n, f in want()]
        return {'args': [cc, opt], 'post': post}

    def want():
        cc, tab = H['cc'], H['tab']
        day = RV(86400)
        return [('rate_index', lambda h, p: h['rate_index'] == p['index_max']['drift_index']),
                ('start_freq_index', lambda h, p: h['start_freq_index'] == p['index_max']['frequency_channel']),
                ('start_freq', lambda h, p: h['start_freq_MHz'] == cc['_fch1'] + cc['_foff'] * z3.ToReal(p['index_center']['frequency_channel'])),
                ('drift_rate', lambda h, p: h['drift_rate_Hz_per_sec'] == tab['data']['drift_rate_Hz_per_sec'][p['index_max']['drift_index']]),
                ('power', lambda h, p: h['power'] == p['max_integration'] - floor_),
                ('snr', lambda h, p: h['snr'] * p['desmeared_noise'] == p['max_integration'] - floor_),
                ('binwidth', lambda h, p: h['binwidth'] == p['binwidth']),
                ('bandwidth', lambda h, p: h['bandwidth'] == z3.ToReal(p['binwidth']) * absr(RV(1000000) * cc['_foff'])),
                ('start_time', lambda h, p: h['start_time_sec'] == cc['_tstart'] * day),
                ('duration', lambda h, p: h['duration_sec'] == cc['_tsamp'] * z3.ToReal(T)),
                ('time_span', lambda h, p: h['time_span_steps'] == T),
                ('coarse_channel', lambda h, p: h['coarse_channel_number'] == cc['_coarse_channel_number']),
                ('rfi_counts', lambda h, p: z3.And(h['rfi_counts']['has'] == p['rfi_counts']['has'], h['rfi_counts']['val'] == p['rfi_counts']['val']))]

    def loop_h(c):
        i = c.idx('c')
        hits = c['hits']
        P = H['P']
        return [('range', z3.And(i >= 0, i <= P['len'], hits['len'] == i))] + \
            [('hits.' + n, Q(['k'], lambda k, f=f: z3.Implies(z3.And(k >= 0, k < i), f(tsel(hits['data'], k), tsel(P['data'], k))), pats=lambda k: hits['data']['rate_index'][k])) for n, f in want()]
    S.function('bliss::hit_search', build_h, sig=r'hit_search\(bliss::coarse_channel', loops={0: loop_h}, contracts=dict(M.contracts(), **{'bliss::protohit_search': c_protohit}), name='hit_search')

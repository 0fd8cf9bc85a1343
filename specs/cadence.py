"""contracts of validate_scan_consistency (target and cadence): true exactly when every scan agrees with the first one
on first-channel frequency and channel width (to 1e-6 MHz) and number of channels."""
from fractions import Fraction
import z3
from dv.session import Q, Session
from dv.engine import IV, RV, I, R, B, N, Loc, tsel, absr
from dv import ndmodel as M

UNITS = [('bliss/core/cadence.cpp', [r'^bliss::(observation_target|cadence)::(validate_scan_consistency|get_number_coarse_channels|get_coarse_channel_with_frequency)\('], [r'^bland::', r'^bliss::scan::(read|slice|get|set|hits|push|peak)']),
         ('bliss/core/scan.cpp', [r'^bliss::scan::(fch1|foff|nchans)\(\)'], [r'^bland::'])]
TOL = RV(Fraction(1e-6))


def agree(sc, ref):
    return z3.And(absr(sc['_fch1'] - ref['_fch1']) < TOL, absr(sc['_foff'] - ref['_foff']) < TOL, sc['_nchans'] == ref['_nchans'])


def verify(S):
    numch = z3.Function('scan_channels', R, R, I, I)
    chf = z3.Function('scan_channel_of', R, R, I, R, I)

    def sc_at(v, i):
        return tsel(v['data'], i)

    def key(sc):
        return sc['_fch1'], sc['_foff'], sc['_nchans']

    def c_num(E, st, e, ol):
        return [(st, numch(*key(E.read(st, ol))))]

    def c_chf(E, st, e, ol):
        return E.bind(E.eval_args(['double'], e['a'], st), lambda s, vs: [(s, chf(*key(E.read(s, ol)), E.read(s, vs[0]) if isinstance(vs[0], Loc) else vs[0]))])

    # ---------------------------------------------------------------- observation_target
    T = {}

    def mk(E, st):
        M.install(E, st)
        t = E.fresh('bliss::observation_target', 'target')
        v = t['_scans']
        k = z3.Int('k!s')
        st.pc += [v['len'] >= 0, z3.ForAll([k], z3.And(v['data']['_nchans'][k] >= 0, v['data']['_nchans'][k] < 2 ** 31), patterns=[v['data']['_nchans'][k]])]
        E.assumptions.add('precondition: fewer than 2^31 fine channels per scan')
        T['v'] = v
        return t

    def consistent(v):
        k = z3.Int('k!c')
        return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < v['len']), agree(sc_at(v, k), sc_at(v, 0))))

    def build_v(E, st, F):
        t = mk(E, st)
        v = T['v']
        w = E.newcell(st, IV(-1))
        st.frames[0].env['w'] = w

        def post(E, s, ret):
            # on the rejecting path the loop index is the offending scan
            out = [('accepts-only-consistent', Q(['k'], lambda k: z3.Implies(z3.And(ret, k >= 0, k < v['len']), agree(sc_at(v, k), sc_at(v, 0)))))]
            out.append(('accepts-every-consistent', z3.Implies(consistent(v), ret)))
            return out
        return {'args': [], 'this': E.newcell(st, t), 'post': post}

    def loop_v(c):
        i = c.idx('sc')
        v = T['v']
        return [('range', z3.And(i >= 0, i <= v['len'])),
                ('reference', z3.Implies(v['len'] > 0, z3.And(c['fch1'] == sc_at(v, 0)['_fch1'], c['foff'] == sc_at(v, 0)['_foff'], c['nchans'] == sc_at(v, 0)['_nchans']))),
                ('agreeing', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < i), agree(sc_at(v, k), sc_at(v, 0))), pats=lambda k: v['data']['_nchans'][k]))]
    S.function('bliss::observation_target::validate_scan_consistency', build_v, loops={0: loop_v}, contracts=M.contracts(), name='target.validate')

    ok = z3.Bool('consistent')

    def c_valid(E, st, e, ol):
        E.assumptions.add('validate_scan_consistency by its contract')
        return [(st, ok)]

    def build_n(E, st, F):
        t = mk(E, st)
        v = T['v']

        def post(E, s, ret):
            return [('rejects-inconsistent', z3.And(ok, v['len'] > 0)), ('of-first-scan', ret == numch(*key(sc_at(v, 0))))]

        def thrown(E, s):
            return [('rejects-only-inconsistent', z3.Or(z3.Not(ok), v['len'] == 0))]
        return {'args': [], 'this': E.newcell(st, t), 'post': post, 'throws': thrown}

    def build_f(E, st, F):
        t = mk(E, st)
        v = T['v']
        fr = z3.Real('frequency')

        def post(E, s, ret):
            return [('rejects-inconsistent', z3.And(ok, v['len'] > 0)), ('of-first-scan', ret == chf(*key(sc_at(v, 0)), fr))]

        def thrown(E, s):
            return [('rejects-only-inconsistent', z3.Or(z3.Not(ok), v['len'] == 0))]
        return {'args': [fr], 'this': E.newcell(st, t), 'post': post, 'throws': thrown}
    cs = dict(M.contracts(), **{'bliss::observation_target::validate_scan_consistency': c_valid, 'bliss::cadence::validate_scan_consistency': c_valid,
                                'bliss::scan::get_number_coarse_channels': c_num, 'bliss::scan::get_coarse_channel_with_frequency': c_chf})
    S.function('bliss::observation_target::get_number_coarse_channels', build_n, contracts=cs, name='target.get_number_coarse_channels')
    S.function('bliss::observation_target::get_coarse_channel_with_frequency', build_f, contracts=cs, name='target.get_coarse_channel_with_frequency')

    # ---------------------------------------------------------------- cadence
    Cd = {}

    def mkc(E, st):
        M.install(E, st)
        t = E.fresh('bliss::cadence', 'cad')
        o = t['_observations']
        k, j = z3.Ints('k!s j!s')
        nch = o['data']['_scans']['data']['_nchans'][k][j]
        st.pc += [o['len'] >= 0, z3.ForAll([k], o['data']['_scans']['len'][k] >= 0, patterns=[o['data']['_scans']['len'][k]]),
                  z3.ForAll([k, j], z3.And(nch >= 0, nch < 2 ** 31), patterns=[nch])]
        Cd['o'] = o
        return t

    def at2(o, k, j):
        return tsel(tsel(o['data'], k)['_scans']['data'], j)

    def cnt(o, k):
        return o['data']['_scans']['len'][k]
    first = z3.Int('first_target')

    def first_def(o):
        """first_target: index of the first target with a scan (the number of targets if there is none)"""
        k = z3.Int('k!f')
        return [first >= 0, first <= o['len'], z3.Implies(first < o['len'], cnt(o, first) > 0),
                z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < first), cnt(o, k) == 0), patterns=[cnt(o, k)])]

    def ref(o):
        return at2(o, first, IV(0))

    def build_cv(E, st, F):
        t = mkc(E, st)
        o = Cd['o']
        st.pc += first_def(o)
        k, j = z3.Ints('k!d j!d')

        def post(E, s, ret):
            every = z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k < o['len'], j >= 0, j < cnt(o, k)), agree(at2(o, k, j), ref(o))), patterns=[o['data']['_scans']['data']['_nchans'][k][j]])
            return [('accepts-only-consistent', Q(['k', 'j'], lambda k, j: z3.Implies(z3.And(ret, k >= 0, k < o['len'], j >= 0, j < cnt(o, k)), agree(at2(o, k, j), ref(o))))),
                    ('accepts-every-consistent', z3.Implies(every, ret))]
        return {'args': [], 'this': E.newcell(st, t), 'post': post}

    def loop_find(c):
        o = Cd['o']
        i = c.idx('obs')
        return [('range', z3.And(i >= 0, i <= o['len'])), ('none-so-far', z3.And(z3.Not(c['found_valid_scan']), i <= first))]

    def loop_o(c):
        o = Cd['o']
        i = c.idx('obs')
        return [('range', z3.And(i >= 0, i <= o['len'])), ('reference', reference(c)),
                ('agreeing', Q(['k', 'j'], lambda k, j: z3.Implies(z3.And(k >= 0, k < i, j >= 0, j < cnt(o, k)), agree(at2(o, k, j), ref(o))), pats=lambda k, j: o['data']['_scans']['data']['_nchans'][k][j]))]

    def reference(c):
        o = Cd['o']
        r = ref(o)
        return z3.Implies(first < o['len'], z3.And(c['fch1'] == r['_fch1'], c['foff'] == r['_foff'], c['nchans'] == r['_nchans']))

    def loop_s(c):
        o = Cd['o']
        i = c.idx('obs')
        j0 = c.idx('sc')
        return [('range', z3.And(i >= 0, i < o['len'], j0 >= 0, j0 <= cnt(o, i))), ('reference', reference(c)),
                ('agreeing', Q(['k', 'j'], lambda k, j: z3.Implies(z3.And(k >= 0, k < i, j >= 0, j < cnt(o, k)), agree(at2(o, k, j), ref(o))), pats=lambda k, j: o['data']['_scans']['data']['_nchans'][k][j])),
                ('agreeing-here', Q(['j'], lambda j: z3.Implies(z3.And(j >= 0, j < j0), agree(at2(o, i, j), ref(o))), pats=lambda j: o['data']['_scans']['data']['_nchans'][i][j]))]
    S.function('bliss::cadence::validate_scan_consistency', build_cv, loops={0: loop_find, 1: loop_o, 2: loop_s}, contracts=M.contracts(), name='cadence.validate')

    def build_cn(E, st, F):
        t = mkc(E, st)
        o = Cd['o']
        st.pc += first_def(o)

        def post(E, s, ret):
            return [('rejects-inconsistent', z3.And(ok, first < o['len'])), ('of-first-scan', ret == numch(*key(ref(o))))]

        def thrown(E, s):
            return [('rejects-only-inconsistent', z3.Or(z3.Not(ok), first == o['len']))]
        return {'args': [], 'this': E.newcell(st, t), 'post': post, 'throws': thrown}

    def build_cf(E, st, F):
        t = mkc(E, st)
        o = Cd['o']
        st.pc += first_def(o)
        fr = z3.Real('frequency')

        def post(E, s, ret):
            return [('rejects-inconsistent', z3.And(ok, first < o['len'])), ('of-first-scan', ret == chf(*key(ref(o)), fr))]

        def thrown(E, s):
            return [('rejects-only-inconsistent', z3.Or(z3.Not(ok), first == o['len']))]
        return {'args': [fr], 'this': E.newcell(st, t), 'post': post, 'throws': thrown}

    def loop_g(c):
        o = Cd['o']
        i = c.idx('obs')
        return [('range', z3.And(i >= 0, i <= o['len'], i <= first))]
    S.function('bliss::cadence::get_number_coarse_channels', build_cn, loops={0: loop_g}, contracts=cs, name='cadence.get_number_coarse_channels')
    S.function('bliss::cadence::get_coarse_channel_with_frequency', build_cf, loops={0: loop_g}, contracts=cs, name='cadence.get_coarse_channel_with_frequency')

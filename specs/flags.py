"""contracts of the flaggers (bliss/flaggers): exactly the samples that meet the criterion carry the flag afterwards, every
other bit of every mask sample is as before, the channel's data and the mask other holders see are untouched"""
from fractions import Fraction
import z3
from dv.session import Q
from dv.engine import IV, RV, I, R, B, N, Loc, Ptr, Clo, Opq, Unsupported, absr, round_
from dv import ndmodel as M, stdlib, valarr as V
from . import levels
from .odometer import lem

STOP = [r'^bland::', r'^bliss::scan::', r'^bliss::cadence::', r'^bliss::observation_target::', r'^bliss::coarse_channel::']
UNITS = [('bliss/flaggers/filter_rolloff.cpp', [r'^bliss::flag_filter_rolloff\('], STOP),
         ('bliss/flaggers/magnitude.cpp', [r'^bliss::flag_magnitude\('], STOP),
         ('bliss/flaggers/spectral_kurtosis.cpp', [r'^bliss::flag_spectral_kurtosis\('], STOP + [r'^bliss::estimate_spectral_kurtosis']),
         ('bliss/estimators/spectral_kurtosis.cpp', [r'^bliss::estimate_spectral_kurtosis\('], STOP),
         ('bliss/flaggers/sigmaclip.cpp', [r'^bliss::flag_sigmaclip\('], STOP),
         ('bliss/core/coarse_channel.cpp', [r'^bliss::coarse_channel::(data|mask|set_mask|set_data|foff|tsamp|device)\('], [r'^bland::']), M.UNIT_DT]
FLAG = dict(rolloff=1, low=2, high=4, magnitude=16, clip=32)
T, F = z3.Ints('T F')


def has(m, f):
    return (m / f) % 2 == 1


def orbit(m, f):
    """m | f for a single bit f"""
    return z3.If(has(m, f), m, m + f)


def world(E, st, mask='array'):
    V.install(E, st)
    st.pc += [T >= 1, F >= 1, T * F < 2 ** 31]
    E.assumptions.add('precondition: a channel of at least one time step and one channel, float32 data, uint8 mask of the same extents')
    data = V.fresh_array(E, st, 'data', 2, T, F, 'float')
    msk = V.fresh_array(E, st, 'mask', 2, T, F, 'unsigned char')
    E.C['fresh:bland::ndarray_deferred'] = lambda E, t, n, lift=0: N('deferred', {'value': V.default_array(E, None)})
    E.C['fresh:bland::ndarray'] = lambda E, t, n, lift=0: V.default_array(E, None)
    cc = E.fresh(levels.CC, 'cc')
    cc = cc.set(_data=N('deferred', {'value': data}), _mask=N('deferred', {'value': msk}))
    return cc, data, msk


def inr(i, j, d0=None, d1=None):
    return z3.And(i >= 0, i < (T if d0 is None else d0), j >= 0, j < (F if d1 is None else d1))


def grid_is(E, s, a, d0, d1, el, want, nm):
    """array a has the extents, element type and content"""
    if not V.is_av(a):
        return [(nm + '.array', z3.BoolVal(False))]
    f = V.snapshot(E, s, a)
    return [(nm + '.extents', z3.And(a['d0'] == d0, a['d1'] == d1)), (nm + '.element-type', z3.BoolVal(V.elem(a) == el)),
            (nm, Q(['i', 'j'], lambda i, j: z3.Implies(inr(i, j, d0, d1), f(i, j) == want(i, j))))]


def guarded(g, f):
    if isinstance(f, Q):
        return Q(f.names, lambda *x: z3.Implies(g, f.body(*x)), use=f.use)
    return z3.Implies(g, f)


def forced(E, s, d, nm, facts, uses=2):
    """obligations facts(state, array) about the array a deferred value yields each time it is used (the second use follows
    the first); every use must yield normally"""
    out = []
    n = len(s.pc)
    cur = [s.fork()]
    for k in range(1, uses + 1):
        nxt = []
        for s1 in cur:
            for s2, v in V.force(E, s1, d):
                g = z3.And(s2.pc[n:] + [z3.BoolVal(True)])
                if s2.sig:
                    out.append(('%s.%d.yields' % (nm, k), z3.Not(g)))
                    continue
                out += [('%s.%d.%s' % (nm, k, fn_), guarded(g, f)) for fn_, f in facts(s2, V.rd(E, s2, v))]
                nxt.append(s2)
        cur = nxt
    return out


def channel_post(E, st, cc, data, msk, want):
    """what the returned channel must be; want(i, j, m): the new mask sample"""
    d0, m0 = V.storage(E, st, data), V.storage(E, st, msk)
    fm = V.snapshot(E, st, msk)

    def post(E, s, ret):
        out = []
        if not (isinstance(ret, N) and '_mask' in ret.f):
            return [('returns-the-channel', z3.BoolVal(False))]
        out += forced(E, s, ret['_mask'], 'mask', lambda s2, m: grid_is(E, s2, m, T, F, 'unsigned char', lambda i, j: want(i, j, fm(i, j)), 'sample') + [
            ('other-holders-unchanged', V.storage(E, s2, msk) == m0), ('data-of-other-holders-unchanged', V.storage(E, s2, data) == d0)])
        out += forced(E, s, ret['_data'], 'data', lambda s2, d: grid_is(E, s2, d, T, F, 'float', lambda i, j: z3.Select(z3.Select(d0, i), j), 'sample'))
        from dv.engine import leaves
        keep = [n for n in ret.f if n not in ('_mask', '_data')]
        out.append(('rest-of-the-channel', z3.And([x == y for n in keep for (_, x), (_, y) in zip(leaves(ret[n]) if isinstance(ret[n], N) else [('', ret[n])], leaves(cc[n]) if isinstance(cc[n], N) else [('', cc[n])]) if z3.is_expr(x) and z3.is_expr(y)])))
        return out
    return post


def contracts():
    C = V.contracts()
    C['ctor:' + levels.CC] = levels.ctor
    C['ctor:bliss::noise_stats'] = levels.ctor
    return C


def verify(S):
    C = contracts()
    lemmas(S)
    # ------------------------------------------------------------ filter roll-off
    w = z3.Real('rolloff_width')

    def build_r(E, st, Fn):
        cc, data, msk = world(E, st)
        n = round_(z3.ToReal(F) * w)
        st.pc += [w >= 0, n <= F]
        E.assumptions.add('precondition: 0 <= round(channels * rolloff_width) <= channels')
        return {'args': [E.newcell(st, cc), w], 'post': channel_post(E, st, cc, data, msk, lambda i, j, m: z3.If(z3.Or(j < n, j >= F - n), orbit(m, FLAG['rolloff']), m))}
    S.function('bliss::flag_filter_rolloff', build_r, sig=r'\(bliss::coarse_channel', contracts=C, name='rolloff.channel')

    # ------------------------------------------------------------ magnitude
    t = z3.Real('threshold')

    def build_md(E, st, Fn):
        cc, data, msk = world(E, st)
        f = V.snapshot(E, st, data)
        d0 = V.storage(E, st, data)
        return {'args': [E.newcell(st, data), t], 'post': lambda E, s, ret: grid_is(E, s, ret, T, F, 'unsigned char', lambda i, j: z3.If(f(i, j) > t, IV(FLAG['magnitude']), IV(0)), 'flags') + [('data-unchanged', V.storage(E, s, data) == d0)]}
    S.function('bliss::flag_magnitude', build_md, sig=r'\(&const bland::ndarray', contracts=C, name='magnitude.array')

    def build_m(E, st, Fn):
        cc, data, msk = world(E, st)
        f = V.snapshot(E, st, data)
        return {'args': [E.newcell(st, cc), t], 'post': channel_post(E, st, cc, data, msk, lambda i, j, m: z3.If(f(i, j) > t, orbit(m, FLAG['magnitude']), m))}
    S.function('bliss::flag_magnitude', build_m, sig=r'\(bliss::coarse_channel,', contracts=C, name='magnitude.channel')

    def build_m0(E, st, Fn):
        cc, data, msk = world(E, st)
        f = V.snapshot(E, st, data)
        yes = lambda i, j: z3.BoolVal(True)
        mu = E.apps.app(st, 'mean', T, F, f, yes)
        sd = E.apps.app(st, 'stddev', T, F, f, yes)
        return {'args': [E.newcell(st, cc)], 'post': channel_post(E, st, cc, data, msk, lambda i, j, m: z3.If(f(i, j) > mu + 10 * sd, orbit(m, FLAG['magnitude']), m))}
    S.function('bliss::flag_magnitude', build_m0, sig=r'\(bliss::coarse_channel\)', contracts=C, name='magnitude.channel.default')

    # ------------------------------------------------------------ spectral kurtosis
    lo, hi, d, tsamp, foff = z3.Reals('lower_threshold upper_threshold d tsamp foff')
    Ni, Mi = z3.Ints('N M')

    def sk_of(E, st, data, n, m, dd):
        f = V.snapshot(E, st, data)
        s1 = E.apps.app(st, 'sum0', T, F, f)
        s2 = E.apps.app(st, 'sum0', T, F, lambda i, j: f(i, j) * f(i, j))
        n, m = z3.ToReal(n), z3.ToReal(m)
        return lambda j: ((m * n * dd + 1) / (m - 1)) * (m * (s2(j) / (s1(j) * s1(j))) - 1)

    def sk_pre(E, st, n, m):
        st.pc += [n >= 0, m >= 2, m < 2 ** 31, n < 2 ** 31, m * n < 2 ** 31]
        E.assumptions.add('precondition of the spectral kurtosis: at least two time steps, samples per spectrum not negative, their product below 2^31')

    def build_e(E, st, Fn):
        cc, data, msk = world(E, st)
        sk_pre(E, st, Ni, Mi)
        want = sk_of(E, st, data, Ni, Mi, d)
        return {'args': [E.newcell(st, data), Ni, Mi, d], 'post': lambda E, s, ret: grid_is(E, s, ret, IV(1), F, 'float', lambda i, j: want(j), 'estimate')}
    S.function('bliss::estimate_spectral_kurtosis', build_e, sig=r'\(&const bland::ndarray', contracts=C, name='kurtosis.estimate')

    def n_of(E, st, cc):
        n = round_(cc['_tsamp'] * absr(1000000 * cc['_foff']))
        st.pc += [cc['_foff'] != 0, cc['_tsamp'] >= 0]
        sk_pre(E, st, n, T)
        st.pc.append(reciprocal(cc['_tsamp'], 1000000 * cc['_foff']))     # instance of the lemma
        return n

    def build_ec(E, st, Fn):
        cc, data, msk = world(E, st)
        n = n_of(E, st, cc)
        want = sk_of(E, st, data, n, T, d)
        return {'args': [E.newcell(st, cc), d], 'post': lambda E, s, ret: grid_is(E, s, ret, IV(1), F, 'float', lambda i, j: want(j), 'estimate')}
    S.function('bliss::estimate_spectral_kurtosis', build_ec, sig=r'\(&?bliss::coarse_channel', contracts=C, name='kurtosis.estimate.channel')

    def build_sd(E, st, Fn):
        cc, data, msk = world(E, st)
        sk_pre(E, st, Ni, Mi)
        want = sk_of(E, st, data, Ni, Mi, d)
        return {'args': [E.newcell(st, data), Ni, Mi, d, lo, hi], 'post': lambda E, s, ret: grid_is(E, s, ret, IV(1), F, 'unsigned char', lambda i, j: z3.If(want(j) < lo, IV(FLAG['low']), IV(0)) + z3.If(want(j) > hi, IV(FLAG['high']), IV(0)), 'flags')}
    S.function('bliss::flag_spectral_kurtosis', build_sd, sig=r'\(&const bland::ndarray', contracts=C, name='kurtosis.array')

    def build_sc(E, st, Fn):
        cc, data, msk = world(E, st)
        n = n_of(E, st, cc)
        want = sk_of(E, st, data, n, T, d)

        def mask(i, j, m):
            m1 = z3.If(want(j) < lo, orbit(m, FLAG['low']), m)
            return z3.If(want(j) > hi, orbit(m1, FLAG['high']), m1)
        return {'args': [E.newcell(st, cc), lo, hi, d], 'post': channel_post(E, st, cc, data, msk, mask)}
    S.function('bliss::flag_spectral_kurtosis', build_sc, sig=r'\(bliss::coarse_channel', contracts=C, name='kurtosis.channel')

    # ------------------------------------------------------------ levels
    real = lambda *ns: (lambda E, st: [z3.Real(n) for n in ns])

    def levels_of(q, ns, nm, base=C):
        p = real(*ns)
        p.n = len(ns)
        levels.verify(S, q, p, base, nm)
    levels_of('bliss::flag_filter_rolloff', ['width'], 'rolloff')
    levels_of('bliss::flag_magnitude', ['threshold'], 'magnitude')
    levels_of('bliss::flag_magnitude', [], 'magnitude.default')
    levels_of('bliss::flag_spectral_kurtosis', ['lower', 'upper', 'd'], 'kurtosis')


def reciprocal(t, y):
    return z3.Implies(y != 0, t / absr(1 / y) == t * absr(y))


def lemmas(S):
    t, y = z3.Reals('t y')
    m = z3.Int('m')
    byte = [m >= 0, m <= 255]
    b = z3.Int2BV(m, 8)
    for n, f in sorted(FLAG.items()):
        S.lemma('flag/%s/is-bitwise-or' % n, orbit(m, f) == z3.BV2Int(b | z3.BitVecVal(f, 8)), byte)
        S.lemma('flag/%s/again-changes-nothing' % n, orbit(orbit(m, f), f) == orbit(m, f), byte)
        S.lemma('flag/%s/other-bits-stay' % n, z3.And([has(orbit(m, f), 2 ** k) == has(m, 2 ** k) for k in range(8) if 2 ** k != f] + [has(orbit(m, f), f)]), byte)
    S.lemma('kurtosis/samples-per-spectrum', reciprocal(t, y))

"""contract of filter_hits (bliss/drift_search/filter_hits.cpp)

kept(k) = how many of the first k hits are to be kept (recursive specification function)"""
from fractions import Fraction
import z3
from dv.session import Q, Session
from dv.engine import IV, RV, I, R, B, N, Loc, Ptr, Opq, absr, leaves, is_z, tsel

UNITS = [('bliss/drift_search/filter_hits.cpp', [r'^bliss::filter_hits'], [r'^bliss::coarse_channel', r'^bliss::scan', r'^bland::'])]
EPS = RV(str(Fraction(1e-6)))
LIST = 'std::list<bliss::hit, std::allocator<bliss::hit>>'


def verify(S):
    enum = S.P['enums']['bliss::flag_values']['vals']
    n = z3.Int('n')
    zero = z3.Bool('filter_zero_drift')
    kept = z3.Function('kept', I, I)
    src = {}

    def cnt(rf, flag):
        """count of a flag; an absent entry means zero"""
        return z3.If(z3.Select(rf['has'], flag), z3.Select(rf['val'], flag), IV(0))

    def keep(D, k):
        h = tsel(D, k)
        rf = h['rfi_counts']
        return z3.And(cnt(rf, enum['filter_rolloff']) <= 0, cnt(rf, enum['low_spectral_kurtosis']) <= 0,
                      z3.Or(z3.Not(zero), absr(h['drift_rate_Hz_per_sec']) >= EPS))

    def step(D, k):
        return [kept(0) == 0, kept(k + 1) == kept(k) + z3.If(keep(D, k), IV(1), IV(0)), kept(k) == kept(k - 1) + z3.If(keep(D, k - 1), IV(1), IV(0))]

    def same(A, i, D, k, key):
        """hit i of list A is hit k of list D (flag counts compared at an arbitrary flag)"""
        a, d = tsel(A, i), tsel(D, k)
        cs = []
        for f in a.f:
            if f == 'rfi_counts':
                cs.append(cnt(a[f], key) == cnt(d[f], key))
            else:
                cs += [x == y for (_, x), (_, y) in zip(leaves(a[f]), leaves(d[f]))]
        return z3.And(cs)

    def raw(A, i, D, k):
        a, d = tsel(A, i), tsel(D, k)
        return z3.And([x == y for (_, x), (_, y) in zip(leaves(a), leaves(d))])

    def build(E, st, F):
        hits = E.fresh(LIST, 'hits').set(len=n)
        src['D'] = D = hits['data']
        st.pc += [n >= 0, kept(0) == 0]
        key = z3.Int('fk!')
        kk = z3.Int('kk!')
        # counters are 8-bit unsigned
        st.pc.append(z3.ForAll([kk, key], z3.And(D['rfi_counts']['val'][kk][key] >= 0, D['rfi_counts']['val'][kk][key] <= 255), patterns=[D['rfi_counts']['val'][kk][key]]))
        opt = N('struct', {'filter_zero_drift': zero}, 'bliss::filter_options')

        def post(E, s, ret):
            return [('length', ret['len'] == kept(n)),
                    ('kept-hits-in-order', Q(['k', 'key'], lambda k, key: z3.Implies(z3.And(k >= 0, k < n, keep(D, k)), same(ret['data'], kept(k), D, k, key)),
                                             use=lambda k, key: step(D, k)))]
        return {'args': [hits, opt], 'post': post}

    def inv(c):
        D = src['D']
        L = c['hits']
        it = c['current_hit'].idx
        rem = n - L['len']       # how many were removed
        k0 = it + rem            # originals processed
        A = L['data']
        E = c.E
        seen = z3.Select(A['rfi_counts']['val'], z3.Int('q'))
        return [('range', z3.And(it >= 0, it <= L['len'], rem >= 0)),
                ('kept-count', Q([], lambda: it == kept(k0), use=lambda: step(D, k0) + step(D, k0 - 1))),
                ('monotone', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < k0), z3.And(kept(k) >= 0, kept(k) <= it, z3.Implies(keep(D, k), kept(k) < it))),
                               pats=lambda k: kept(k), use=lambda k: step(D, k) + step(D, k0) + step(D, k0 - 1))),
                ('kept-prefix', Q(['k', 'key'], lambda k, key: z3.Implies(z3.And(k >= 0, k < k0, keep(D, k)), same(A, kept(k), D, k, key)),
                                  use=lambda k, key: step(D, k) + step(D, k0) + step(D, k0 - 1))),
                ('untouched-rest', Q(['j'], lambda j: z3.Implies(z3.And(j >= it, j < L['len']), raw(A, j, D, j + rem)), pats=lambda j: A['start_freq_index'][j], use=lambda j: step(D, k0)))]
    S.function('bliss::filter_hits', build, sig=r'filter_hits\(std::list', loops={0: inv}, name='filter_hits')

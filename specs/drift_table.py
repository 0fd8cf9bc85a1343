"""contract of the drift-rate table builder (bliss/drift_search/integrate_drifts.cpp)"""
import z3
from dv.session import Q, Session
from dv.engine import IV, RV, I, R, N, Loc, round_, absr, trunc_

UNITS = [('bliss/drift_search/integrate_drifts.cpp', [r'^compute_drifts'])]


def entry(i, low, step, T, foff, tsamp, desmear, rates):
    """the table entry the property demands at index i"""
    span = low + i * step
    m = z3.ToReal(span) / z3.ToReal(T - 1)
    rnd = round_(absr(m))
    want = z3.If(desmear, z3.If(rnd > 1, rnd, IV(1)), IV(1))
    d = rates['data']
    return z3.And(d['index_in_plane'][i] == i,
                  d['drift_channels_span'][i] == span,
                  d['drift_rate_slope'][i] == m,
                  d['drift_rate_Hz_per_sec'][i] == m * foff * 1000000 / tsamp,
                  d['desmeared_bins'][i] == want)


def verify(S):
    low, high, step, T = z3.Ints('low high step T')
    foff, tsamp = z3.Reals('foff tsamp')
    desm = z3.Bool('desmear')
    M = 2 ** 31 - 1
    nd = (high - low) / step

    def build(E, st, F):
        opt = N('struct', {'desmear': desm, 'low_rate': low, 'high_rate': high, 'rate_step_size': step}, 'bliss::integrate_drifts_options')
        st.pc += [T >= 2, T <= M, step >= 1, step <= M, low >= -M, low <= M, high >= low, high <= M, nd <= M, tsamp != 0]

        def post(E, s, ret):
            return [('length', ret['len'] == nd),
                    ('entries', Q(['i'], lambda i: z3.Implies(z3.And(i >= 0, i < nd), entry(i, low, step, T, foff, tsamp, desm, ret))))]
        return {'args': [T, foff, tsamp, opt], 'post': post}

    def inv(c):
        i = c['drift_index']
        v = c['drift_rate_info']
        return [('range', z3.And(i >= 0, i <= nd, v['len'] == i)),
                ('table', Q(['i'], lambda k: z3.Implies(z3.And(k >= 0, k < i), entry(k, low, step, T, foff, tsamp, desm, v)),
                            pats=lambda k: v['data']['index_in_plane'][k]))]
    S.function('compute_drifts', build, loops={0: inv})

"""contract of the CPU drift integration kernel (bliss/drift_search/kernels/drift_integration_cpu.cpp)

acc(d,c,t,j)  power collected by cell (d,c) before step (t,j): recursive specification function
cnt_f(d,c,t,j) flagged bins collected (f in rolloff, low SK, high SK)
"""
import z3
from dv.session import Q, Session
from dv.engine import IV, RV, I, R, B, N, Loc, Ptr, round_, bit
from dv import ndmodel as M

UNITS = [('bliss/drift_search/kernels/drift_integration_cpu.cpp', [r'^bliss::integrate_linear_rounded_bins_cpu'], [r'^bland::']),
         ('bliss/core/frequency_drift_plane.cpp', [r'^bliss::frequency_drift_plane::'], [r'^bland::'])]

FLAGS = {'filter_rolloff': 0, 'low_spectral_kurtosis': 1, 'high_spectral_kurtosis': 2}


def flag_bit(S, name):
    return S.P['enums']['bliss::flag_values']['vals'][name].bit_length() - 1


def verify(S):
    T, Nn, ND = z3.Ints('T N ND')
    slope, span, bins, off, sidx, ridx, row, col = (z3.Function('slope', I, R), z3.Function('span', I, I), z3.Function('bins', I, I),
                                                    z3.Function('off', I, I, I), z3.Function('sidx', I, I, I), z3.Function('ridx', I, I, I),
                                                    z3.Function('row', I, I), z3.Function('col', I, I))
    acc = z3.Function('acc', I, I, I, I, R)
    cnt = {f: z3.Function('cnt_' + f, I, I, I, I, I) for f in FLAGS}
    s0, s1, r0, r1, szS, szR, so0, so1, ro0, ro1 = z3.Ints('s0 s1 r0 r1 szS szR so0 so1 ro0 ro1')
    SD = z3.Array('spec', I, R)
    RD = z3.Array('mask', I, I)
    BITS = {f: flag_bit(S, f) for f in FLAGS}
    BIG = 2 ** 29

    def tap(d, c, t, j):
        """(in band?, spectrum channel) of contribution (t,j) to cell (d,c)"""
        p = z3.If(slope(d) >= 0, c + off(d, t) + j, c + off(d, t) - j)
        inb = z3.If(slope(d) >= 0, p < Nn, z3.And(c >= -span(d), p >= 0))
        return inb, p

    def contrib(d, c, t, j):
        inb, p = tap(d, c, t, j)
        return z3.If(inb, SD[sidx(t, p)] / z3.ToReal(bins(d)), RV(0))

    def flagged(f, d, c, t, j):
        inb, p = tap(d, c, t, j)
        return z3.If(z3.And(inb, bit(RD[ridx(t, p)], BITS[f]) == 1), IV(1), IV(0))

    def step_ax(d, c, t, j):
        """one unfolding of the recursive specification functions"""
        out = [acc(d, c, t, j + 1) == acc(d, c, t, j) + contrib(d, c, t, j)]
        out += [cnt[f](d, c, t, j + 1) == cnt[f](d, c, t, j) + flagged(f, d, c, t, j) for f in FLAGS]
        return out

    def next_t(d, c, t):
        return [acc(d, c, t + 1, 0) == acc(d, c, t, bins(d))] + [cnt[f](d, c, t + 1, 0) == cnt[f](d, c, t, bins(d)) for f in FLAGS]

    def start(d, c):
        return [acc(d, c, 0, 0) == 0] + [cnt[f](d, c, 0, 0) == 0 for f in FLAGS]

    d_, c_, t_, k_ = z3.Ints('d! c! t! k!')
    defs = [
        # layout of the inputs (any strides): element index functions and the bounds they satisfy
        z3.ForAll([t_, c_], sidx(t_, c_) == so0 + so1 + t_ * s0 + c_ * s1, patterns=[sidx(t_, c_)]),
        z3.ForAll([t_, c_], ridx(t_, c_) == ro0 + ro1 + t_ * r0 + c_ * r1, patterns=[ridx(t_, c_)]),
        z3.ForAll([t_, c_], z3.Implies(z3.And(0 <= t_, t_ < T, 0 <= c_, c_ < Nn), z3.And(sidx(t_, c_) >= 0, sidx(t_, c_) < szS)), patterns=[sidx(t_, c_)]),
        z3.ForAll([t_, c_], z3.Implies(z3.And(0 <= t_, t_ < T, 0 <= c_, c_ < Nn), z3.And(ridx(t_, c_) >= 0, ridx(t_, c_) < szR)), patterns=[ridx(t_, c_)]),
        z3.ForAll([t_, c_], z3.Implies(z3.And(0 <= t_, 0 <= c_), z3.And(sidx(t_, c_) >= so0 + so1)), patterns=[sidx(t_, c_)]),
        z3.ForAll([t_, c_], z3.Implies(z3.And(0 <= t_, 0 <= c_), z3.And(ridx(t_, c_) >= ro0 + ro1)), patterns=[ridx(t_, c_)]),
        # the rate table's own facts (postcondition of the table builder, P20)
        z3.ForAll([d_], z3.Implies(z3.And(0 <= d_, d_ < ND), z3.And(bins(d_) >= 1, bins(d_) <= BIG, span(d_) >= -BIG, span(d_) <= BIG,
                                                                     (slope(d_) >= 0) == (span(d_) >= 0), T * bins(d_) <= 255)), patterns=[bins(d_)]),
        z3.ForAll([d_, t_], z3.Implies(z3.And(0 <= d_, d_ < ND, 0 <= t_, t_ < T), z3.And(
            off(d_, t_) == round_(slope(d_) * z3.ToReal(t_)),
            z3.If(slope(d_) >= 0, z3.And(off(d_, t_) >= 0, off(d_, t_) <= span(d_)), z3.And(off(d_, t_) <= 0, off(d_, t_) >= span(d_))))), patterns=[off(d_, t_)]),
    ]

    # lemmas used by hand (stated and proved below, instantiated where needed)
    def L_rowcol(k, D):
        """row-major index inverse"""
        return z3.Implies(z3.And(k - D * Nn >= 0, k - D * Nn < Nn), z3.And(row(k) == D, col(k) == k - D * Nn))

    def rowcol_def(k):
        return z3.Implies(Nn > 0, z3.And(k == row(k) * Nn + col(k), 0 <= col(k), col(k) < Nn))

    k, D = z3.Ints('k D')
    S.rep.obls.append(_o('lemma/row-col-inverse', [Nn > 0, rowcol_def(k)], L_rowcol(k, D)))
    S.rep.obls.append(_o('lemma/row-bound', [D >= 0, D < ND, Nn >= 0], D * Nn + Nn <= ND * Nn))
    m, tt = z3.Real('m'), z3.Int('tt')
    S.rep.obls.append(_o('lemma/offset-within-span', [m * z3.ToReal(T - 1) == z3.ToReal(D), tt >= 0, tt <= T - 1, T >= 2],
                         z3.If(m >= 0, z3.And(m * z3.ToReal(tt) >= 0, m * z3.ToReal(tt) <= z3.ToReal(D)), z3.And(m * z3.ToReal(tt) <= 0, m * z3.ToReal(tt) >= z3.ToReal(D)))))
    x = z3.Real('x')
    S.rep.obls.append(_o('lemma/rounding-keeps-range', [D >= 0], z3.And(z3.Implies(z3.And(x >= 0, x <= z3.ToReal(D)), z3.And(round_(x) >= 0, round_(x) <= D)),
                                                                        z3.Implies(z3.And(x <= 0, x >= -z3.ToReal(D)), z3.And(round_(x) <= 0, round_(x) >= -D)))))
    S.rep.lemmas += ['rounding-keeps-range', 'row-col-inverse', 'row-bound', 'offset-within-span']

    names = ['P'] + list(FLAGS)

    def build(E, st, F):
        M.install(E, st)
        st.pc += defs + [T >= 2, T <= 255, Nn >= 0, Nn <= BIG, ND >= 1, ND <= BIG, szS >= 0, szR >= 0, s0 >= 0, s1 >= 0, r0 >= 0, r1 >= 0, so0 >= 0, so1 >= 0, ro0 >= 0, ro1 >= 0]
        spec = M.mk_nd(E, st, 'spec', [T, Nn], [s0, s1], [so0, so1], elem='float', size=szS, data=SD)
        mask = M.mk_nd(E, st, 'mask', [T, Nn], [r0, r1], [ro0, ro1], elem='unsigned char', size=szR, data=RD)
        rates = E.fresh('std::vector<bliss::frequency_drift_plane::drift_rate>', 'rates').set(len=ND)
        dd = rates['data']
        st.pc.append(z3.ForAll([d_], dd['drift_rate_slope'][d_] == slope(d_), patterns=[dd['drift_rate_slope'][d_]]))
        st.pc.append(z3.ForAll([d_], dd['drift_channels_span'][d_] == span(d_), patterns=[dd['drift_channels_span'][d_]]))
        st.pc.append(z3.ForAll([d_], dd['desmeared_bins'][d_] == bins(d_), patterns=[dd['desmeared_bins'][d_]]))
        st.pc.append(z3.ForAll([k_], rowcol_def(k_), patterns=[row(k_)]))
        opt = E.fresh('bliss::integrate_drifts_options', 'opt')
        E.nd_in = (spec, mask)

        def post(E, s, ret):
            res = ret['_integrated_drifts']
            fl = ret['_dedrifted_rfi']
            P = M.buf(E, s, res)['data']
            out = [('shape', z3.And(*[a == b for a, b in zip(M.vals(res['shape']), [ND, Nn])])),
                   ('mean-along-path', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < ND * Nn), P[k] == acc(row(k), col(k), T, 0) / z3.ToReal(T)),
                                         use=lambda k: [rowcol_def(k)])),
                   ('integration-steps', ret['_integration_steps'] == T),
                   ('spectrum-unchanged', M.buf(E, s, spec)['data'] == SD), ('mask-unchanged', M.buf(E, s, mask)['data'] == RD)]
            for f in FLAGS:
                C = M.buf(E, s, fl[f])['data']
                out.append(('count.' + f, Q(['k'], lambda k, C=C, f=f: z3.Implies(z3.And(k >= 0, k < ND * Nn), C[k] == cnt[f](row(k), col(k), T, 0)), use=lambda k: [rowcol_def(k)])))
            tab = ret['_drift_rate_info']
            out.append(('table-passed-on', z3.And(tab['len'] == ND, tab['data']['drift_rate_slope'] == dd['drift_rate_slope'])))
            return out
        return {'args': [spec, mask, rates, opt], 'post': post}

    def bufs(c):
        pl = c['drift_plane']
        fl = c['rfi_in_drift']
        E = c.E
        return {'P': M.buf(E, c.st, pl)['data'], **{f: M.buf(E, c.st, fl[f])['data'] for f in FLAGS}}

    def spec_at(nm, d, c, t, j):
        return acc(d, c, t, j) if nm == 'P' else cnt[nm](d, c, t, j)

    def plane_inv(c, Dv, tv, jv, lo=None, hi=None):
        """state of every cell when rate Dv is at step (tv,jv); channels lo..hi-1 of it have had (tv,jv) added"""
        bs = bufs(c)
        out = []
        for nm in names:
            A = bs[nm]
            zero = RV(0) if nm == 'P' else IV(0)

            def body(k, A=A, nm=nm, zero=zero):
                d, cc = row(k), col(k)
                cur = spec_at(nm, d, cc, tv, jv) if tv is not None else zero
                if lo is not None:
                    cur = z3.If(z3.And(cc >= lo, cc < hi), spec_at(nm, d, cc, tv, jv + 1), cur)
                want = z3.If(d < Dv, spec_at(nm, d, cc, T, 0), z3.If(d == Dv, cur, zero))
                r = A[k] == want
                if nm != 'P' and tv is not None:
                    extra = IV(0) if lo is None else z3.If(z3.And(d == Dv, cc >= lo, cc < hi), IV(1), IV(0))
                    r = z3.And(r, z3.Implies(d == Dv, A[k] <= tv * bins(Dv) + jv + extra), A[k] >= 0)
                elif nm != 'P':
                    r = z3.And(r, A[k] >= 0)
                return z3.Implies(z3.And(k >= 0, k < ND * Nn), r)

            def use(k):
                d, cc = row(k), col(k)
                u = [rowcol_def(k), L_rowcol(k, Dv)] + start(d, cc)
                if tv is not None:
                    u += step_ax(d, cc, tv, jv) + step_ax(d, cc, tv, jv - 1) + next_t(d, cc, tv) + next_t(d, cc, tv - 1)
                else:
                    u += [L_rowcol(k, Dv - 1)] + next_t(d, cc, T - 1)
                return u
            out.append(('cells.' + nm, Q(['k'], body, pats=lambda k, A=A: A[k], use=use)))
        return out

    def rowb(Dv):
        return ('row-bound', z3.Implies(z3.And(Dv >= 0, Dv < ND), z3.And(Dv * Nn + Nn <= ND * Nn, Dv * Nn >= 0)))

    def inv_d(c):
        Dv = c['drift_index']
        return [('range', z3.And(Dv >= 0, Dv <= ND)), rowb(Dv)] + plane_inv(c, Dv, None, None)

    def inv_t(c):
        Dv, t = c['drift_index'], c['t']
        return [('range', z3.And(t >= 0, t <= T, Dv >= 0, Dv < ND, c['desmear_bins'] == bins(Dv), c['m'] == slope(Dv))),
                ('step-bound', z3.And(t * bins(Dv) >= 0, z3.Implies(t < T, t * bins(Dv) + bins(Dv) <= T * bins(Dv)))), ] + plane_inv(c, Dv, t, IV(0))

    def inv_j(c):
        Dv, t, j = c['drift_index'], c['t'], c['desmear_channel']
        return [('range', z3.And(j >= 0, j <= bins(Dv)))] + plane_inv(c, Dv, t, j)

    def inv_c(sign):
        def inv(c):
            Dv, t, j, ch = c['drift_index'], c['t'], c['desmear_channel'], c['channel']
            lo = c['drift_freq_slice_start']
            n = c['number_channels']
            sp = c['spectrum_freq_slice_start']
            return [('range', z3.And(ch >= 0, z3.Or(ch <= n, ch == 0), c['freq_offset_at_time'] == off(Dv, t), lo >= 0, sp >= 0)),
                    ('indices', z3.And(c['drift_plane_index'] == Dv * Nn + lo + ch, c['lowsk_index'] == Dv * Nn + lo + ch, c['highsk_index'] == Dv * Nn + lo + ch,
                                       c['filtrolloff_index'] == Dv * Nn + lo + ch, c['spectrum_ptr'].idx + c['spectrum_index'] == sidx(t, sp + ch), c['rfi_ptr'].idx + c['rfi_index'] == ridx(t, sp + ch)))] \
                + plane_inv(c, Dv, t, j, lo, lo + ch)
        return inv
    S.function('bliss::integrate_linear_rounded_bins_cpu', build, loops={0: inv_d, 1: inv_t, 2: inv_j, 3: inv_c(1), 4: inv_c(-1)}, contracts=M.contracts(),
               opts={'merge_arrays': True}, name='integrate_linear_rounded_bins_cpu')


def _o(name, hyps, goal):
    from dv.engine import Obl
    return Obl(name, list(hyps), goal, 0, 'lemma', 'lemma', [])

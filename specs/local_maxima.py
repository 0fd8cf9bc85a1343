"""contract of find_local_maxima_above_threshold_cpu (bliss/drift_search/kernels/local_maxima_cpu.cpp)

ismax(r,c): cell (r,c) is above the threshold, its whole L1 neighbourhood lies in the plane, every neighbour is
weaker.  Defined by skolemised axioms (witness offsets for "not a maximum").
cnt(k) = number of maxima among the first k cells in row-major order."""
import z3
from dv.session import Q, Session
from dv.engine import IV, RV, I, R, B, N, Loc, tsel, Obl, tdiv
from dv import ndmodel as M

UNITS = [('bliss/drift_search/kernels/local_maxima_cpu.cpp', [r'^bliss::find_local'], [r'^bland::'])]


def ab(x):
    return z3.If(x >= 0, x, -x)


def scalarize_at(E, st, e, ol):
    """element at the given coordinates (contract; offsets included)"""
    nd = M._obj(E, st, ol)

    def f(s, vs):
        v = E.read(s, vs[0]) if isinstance(vs[0], Loc) else vs[0]
        co = M.vals(v)
        sh, sr, of = M.vals(nd['shape']), M.vals(nd['strides']), M.vals(nd['offsets'])
        E.oblige(s, 'coordinates-in-range', z3.And([z3.And(c >= 0, c < n) for c, n in zip(co, sh)] + [z3.BoolVal(len(co) == len(sh))]), e['ln'], 'safety')
        E.assumptions.add('contract of scalarize: the element at the given coordinates')
        return [(s, z3.Select(M.buf(E, s, nd)['data'], z3.Sum([o + c * k for o, c, k in zip(of, co, sr)])))]
    return E.bind(E.eval_args(E.ptypes_of(e['fn']), e['a'], st), f)


class PlaneSpec:
    """a drift plane of ND rates and Nn channels with per-rate noise, flag counts and a threshold"""

    def __init__(self):
        self.ND, self.Nn, self.s0, self.s1, self.L = z3.Ints('ND N s0 s1 L')
        self.nf, self.thr = z3.Reals('noise_floor snr_threshold')
        self.V = z3.Array('plane', I, R)
        self.row, self.col, self.lin = z3.Function('row', I, I), z3.Function('col', I, I), z3.Function('lin', I, I, I)
        self.snr = z3.Function('snr', I, I, R)
        self.noise = z3.Function('noise', I, R)

    def rowcol_def(self, k):
        return z3.Implies(z3.And(self.Nn > 0), z3.And(k == self.row(k) * self.Nn + self.col(k), 0 <= self.col(k), self.col(k) < self.Nn,
                                                      z3.Implies(z3.And(k >= 0, k < self.ND * self.Nn), z3.And(self.row(k) >= 0, self.row(k) < self.ND))))

    def L_rowcol(self, r, c):
        return z3.Implies(z3.And(c >= 0, c < self.Nn), z3.And(self.row(r * self.Nn + c) == r, self.col(r * self.Nn + c) == c))

    def bound(self, r, c):
        return z3.Implies(z3.And(r >= 0, r < self.ND, c >= 0, c < self.Nn), z3.And(r * self.Nn + c >= 0, r * self.Nn + c < self.ND * self.Nn))

    def value(self, r, c):
        return self.V[r * self.s0 + c * self.s1]

    def snr_def(self, r, c):
        return [self.snr(r, c) == (self.value(r, c) - self.nf) / self.noise(r), z3.Implies(z3.And(r >= 0, r < self.ND), self.noise(r) > 0)]

    def ingrid(self, r, c):
        return z3.And(r >= 0, r < self.ND, c >= 0, c < self.Nn)

    def lemmas(self, S):
        k, r, c = z3.Ints('k r c')
        S.rep.obls.append(Obl('lemma/row-col-inverse', [self.Nn > 0, self.rowcol_def(r * self.Nn + c)], self.L_rowcol(r, c), 0, 'lemma', 'lemma', []))
        S.rep.obls.append(Obl('lemma/index-bound', [], self.bound(r, c), 0, 'lemma', 'lemma', []))
        w = z3.Int('w')
        S.rep.obls.append(Obl('lemma/row-exists', [self.Nn > 0, k == w * self.Nn + c, c >= 0, c < self.Nn, k >= 0, k < self.ND * self.Nn], z3.And(w >= 0, w < self.ND), 0, 'lemma', 'lemma', []))
        S.rep.lemmas += ['row-col-inverse', 'index-bound', 'row-exists']

    def inputs(self, E, st):
        """arguments of a kernel, and the facts assumed of them"""
        M.install(E, st)
        ND, Nn = self.ND, self.Nn
        BIG = 2 ** 29
        size = z3.Int('plane_size')
        k = z3.Int('k!n')
        c = z3.Int('c!n')
        st.pc += [ND >= 1, Nn >= 0, ND <= BIG, Nn <= BIG, self.s0 >= 0, self.s1 >= 0, self.L >= 1, self.L <= BIG, self.thr >= RV('1e-30'),
                  z3.ForAll([k, c], z3.Implies(self.ingrid(k, c), z3.And(k * self.s0 + c * self.s1 < size, k * self.s0 + c * self.s1 >= 0)), patterns=[self.snr(k, c)]),
                  z3.ForAll([k], self.rowcol_def(k), patterns=[self.row(k)])]
        plane = M.mk_nd(E, st, 'plane', [ND, Nn], [self.s0, self.s1], elem='float', size=size, data=self.V)
        self.cnts = {}
        fl = {}
        for f in ('low_spectral_kurtosis', 'high_spectral_kurtosis', 'filter_rolloff'):
            self.cnts[f] = z3.Array(f, I, I)
            fl[f] = M.mk_nd(E, st, f, [ND, Nn], elem='unsigned char', data=self.cnts[f])
        flags = N('struct', dict(fl, _device=M.devval(E)), 'bliss::integrated_flags')
        noise = E.fresh('std::vector<bliss::protohit_drift_info>', 'npd').set(len=ND)
        na = noise['data']['integration_adjusted_noise']
        st.pc.append(z3.ForAll([k], na[k] == self.noise(k), patterns=[na[k]]))
        self.plane, self.flags = plane, flags
        E.assumptions.add('precondition: one positive noise value per rate, plane not sliced (no offsets), threshold positive, L1 distance at least 1')
        return [plane, flags, self.nf, noise, self.thr, self.L]

    def flag_counts(self, S, rf, r, c):
        enum = S.P['enums']['bliss::flag_values']['vals']
        k = r * self.Nn + c
        return z3.And([z3.And(z3.Select(rf['has'], enum[f]), z3.Select(rf['val'], enum[f]) == self.cnts[f][k]) for f in self.cnts])


def verify(S):
    P = PlaneSpec()
    P.lemmas(S)
    ND, Nn, L = P.ND, P.Nn, P.L
    total = ND * Nn
    ismax = z3.Function('ismax', I, I, B)
    wf, wd = z3.Function('wf', I, I, I), z3.Function('wd', I, I, I)
    cnt = z3.Function('cnt', I, I)
    # end of the strictly decreasing above-threshold run going down / up in channels from (r,x): recursive
    dn, upw = z3.Function('run_down', I, I, I), z3.Function('run_up', I, I, I)

    def run_def(fn, sgn, r, x):
        y = x + sgn
        go = z3.And(y >= 0, y < Nn, P.snr(r, y) > P.thr, P.value(r, y) < P.value(r, x))
        return [fn(r, x) == z3.If(go, fn(r, y), y)] + P.snr_def(r, y)

    def offs(f, d):
        return z3.And(ab(f) + ab(d) <= L, z3.Not(z3.And(f == 0, d == 0)))

    good = z3.Function('good', I, I, I, I, B)

    def good_def(r, c, f, d):
        return [good(r, c, f, d) == z3.And(P.ingrid(r + d, c + f), P.snr(r, c) > P.snr(r + d, c + f))]

    def max_elim(r, c, f, d):
        return z3.Implies(ismax(r, c), z3.And(P.snr(r, c) > P.thr, z3.Implies(offs(f, d), good(r, c, f, d))))

    def max_intro(r, c):
        """not a maximum: below threshold or a witness neighbour"""
        f, d = wf(r, c), wd(r, c)
        return z3.Implies(z3.Not(ismax(r, c)), z3.Or(z3.Not(P.snr(r, c) > P.thr), z3.And(offs(f, d), z3.Not(good(r, c, f, d)))))

    def at_max(r, c, f, d):
        return [max_elim(r, c, f, d)] + good_def(r, c, f, d)

    def at(k):
        return P.row(k), P.col(k)

    def prev(k):
        return [max_elim(*at(k), IV(0), IV(0))] + P.snr_def(*at(k))

    def step(k):
        return prev(k) + prev(k - 1) + [cnt(0) == 0, cnt(k + 1) == cnt(k) + z3.If(ismax(*at(k)), IV(1), IV(0)), cnt(k) == cnt(k - 1) + z3.If(ismax(*at(k - 1)), IV(1), IV(0))]

    def mono(k, n):
        return z3.Implies(z3.And(k >= 0, k <= n), z3.And(cnt(k) >= 0, cnt(k) <= cnt(n)))

    def hit_is(h, k):
        r, c = at(k)
        return z3.And(h['index_max']['drift_index'] == r, h['index_max']['frequency_channel'] == c, h['snr'] == P.snr(r, c),
                      h['max_integration'] == P.value(r, c), h['desmeared_noise'] == P.noise(r), P.flag_counts(S, h['rfi_counts'], r, c),
                      h['index_center']['drift_index'] == r, h['binwidth'] == upw(r, c) - dn(r, c),
                      h['index_center']['frequency_channel'] == tdiv(upw(r, c) + dn(r, c), IV(2)))

    def build(E, st, F):
        args = P.inputs(E, st)
        st.pc.append(cnt(0) == 0)

        def post(E, s, ret):
            return [('number-of-hits', ret['len'] == cnt(total)),
                    ('each-maximum-once', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < total, ismax(*at(k))), z3.And(cnt(k) < ret['len'], hit_is(tsel(ret['data'], cnt(k)), k))),
                                           use=lambda k: step(k))),
                    ('plane-unchanged', M.buf(E, s, P.plane)['data'] == P.V)]
        return {'args': args, 'post': post}

    def vis(c):
        return M.buf(c.E, c.st, c['visited'])['data']

    def visited_inv(c, n):
        A = vis(c)
        return ('visited-means-no-maximum', Q(['k'], lambda k: z3.Implies(z3.And(k >= n, k < total), z3.And(A[k] >= 0, A[k] <= 1, z3.Implies(A[k] == 0, z3.Not(ismax(*at(k)))))),
                                              pats=lambda k: A[k]))

    def hits_inv(c, n, name='maxima'):
        mx = c[name]
        return [('number', Q([], lambda: z3.And(mx['len'] == cnt(n), cnt(n) >= 0), use=lambda: step(n) + step(n - 1))),
                ('monotone', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k <= n), z3.And(cnt(k) >= 0, cnt(k) <= cnt(n), z3.Implies(z3.And(k < n, ismax(*at(k))), cnt(k) < cnt(n)))), pats=lambda k: cnt(k), use=lambda k: step(k) + step(n) + step(n - 1))),
                ('found', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < n, ismax(*at(k))), hit_is(tsel(mx['data'], cnt(k)), k)), pats=lambda k: cnt(k), use=lambda k: step(k) + step(n) + step(n - 1)))]

    def coord(c):
        cc = c['curr_coord']
        return cc['drift_index'], cc['frequency_channel']

    def inv_n(c):
        n = c['n']
        r, ch = coord(c)
        def use():
            return [P.rowcol_def(n), P.L_rowcol(r, ch), P.bound(r, ch), P.L_rowcol(r - 1, Nn - 1), P.bound(r, IV(0))] + P.snr_def(r, ch)
        return [('range', z3.And(n >= 0, z3.Or(n <= total, n == 0))),
                ('coordinate', z3.And(n == r * Nn + ch, r >= 0, ch >= 0, z3.Or(ch < Nn, Nn == 0))),
                ('row', Q([], lambda: z3.Implies(n < total, z3.And(r < ND, P.row(n) == r, P.col(n) == ch)), use=use)),
                visited_inv(c, n)] + hits_inv(c, n)

    def cand(c):
        n = c['n']
        r, ch = coord(c)
        return n, r, ch, z3.And(n >= 0, n < total, n == r * Nn + ch, r >= 0, r < ND, ch >= 0, ch < Nn, P.row(n) == r, P.col(n) == ch)

    def scanned(c, f, d):
        """offsets already examined: frequency offset below f, or equal with drift offset below d"""
        r, ch = coord(c)
        nm = c['neighborhood_max']
        x, y = z3.Ints('x y')
        seen = lambda a, b: z3.Or(a < f, z3.And(a == f, b < d)) if d is not None else a < f
        return [('all-better', Q(['x', 'y'], lambda a, b: z3.Implies(z3.And(nm, offs(a, b), seen(a, b)), good(r, ch, a, b)), pats=lambda a, b: good(r, ch, a, b),
                                 use=lambda a, b: good_def(r, ch, a, b) + P.snr_def(r + b, ch + a) + P.snr_def(r, ch))),
                ('else-not-maximum', Q([], lambda: z3.Implies(z3.Not(nm), z3.Not(ismax(r, ch))),
                                       use=lambda: neigh(c, r, ch)))]

    def neigh(c, r, ch):
        f = c['freq_neighbor_offset']
        out = []
        if c.has('drift_neighbor_offset'):
            for df in (IV(0), IV(1)):
                for dd in (IV(0), IV(1)):
                    a, b = f - df, c['drift_neighbor_offset'] - dd
                    out += at_max(r, ch, a, b) + P.snr_def(r + b, ch + a)
        return out + P.snr_def(r, ch)

    def inv_f(c):
        n, r, ch, cnd = cand(c)
        f = c['freq_neighbor_offset']
        return [('range', z3.And(f >= -L, f <= L + 1)), ('candidate', cnd), visited_inv(c, n + 1)] + scanned(c, f, None)

    def inv_d(c):
        n, r, ch, cnd = cand(c)
        f, d = c['freq_neighbor_offset'], c['drift_neighbor_offset']
        A = vis(c)
        nr, nc = r + d - 1, ch + f
        v = Q(['k'], lambda k: z3.Implies(z3.And(k >= n + 1, k < total), z3.And(A[k] >= 0, A[k] <= 1, z3.Implies(A[k] == 0, z3.Not(ismax(*at(k)))))),
              pats=lambda k: A[k], use=lambda k: [P.L_rowcol(nr, nc), P.bound(nr, nc)] + at_max(nr, nc, -f, IV(1) - d) + P.snr_def(nr, nc) + P.snr_def(r, ch))
        return [('range', z3.And(f >= -L, f <= L, d >= ab(f) - L, d <= L - ab(f) + 1)), ('candidate', cnd), ('visited-means-no-maximum', v)] + scanned(c, f, d)

    def band(dirn, nm_edge, nm_val):
        def inv(c):
            n, r, ch, cnd = cand(c)
            e = c[nm_edge]
            x = e['frequency_channel']
            A = vis(c)
            val = c[nm_val]
            v = Q(['k'], lambda k: z3.Implies(z3.And(k >= n + 1, k < total), z3.And(A[k] >= 0, A[k] <= 1, z3.Implies(A[k] == 0, z3.Not(ismax(*at(k)))))),
                  pats=lambda k: A[k], use=lambda k: [P.L_rowcol(r, x), P.bound(r, x), P.L_rowcol(r, x - dirn), P.bound(r, x - dirn)] + at_max(r, x, IV(-dirn), IV(0)) + P.snr_def(r, x) + P.snr_def(r, x - dirn))
            inb = (x >= 0) if dirn < 0 else (x <= ch)
            fn = dn if dirn < 0 else upw
            # before a step: the edge is the last cell of the strictly decreasing run so far
            return [('running', c['expand_band_down' if dirn < 0 else 'expand_band_up']),
                    ('run', Q([], lambda: z3.And([fn(r, ch) == fn(r, x)] + run_def(fn, dirn, r, x)), use=lambda: run_def(fn, dirn, r, x - dirn) + run_def(fn, dirn, r, x))),
                    ('candidate', cnd), ('is-maximum', Q([], lambda: ismax(r, ch), use=lambda: [max_intro(r, ch)] + P.snr_def(r, ch))),
                    ('edge', z3.And(e['drift_index'] == r, x >= 0, x < Nn, (x <= ch) if dirn < 0 else (x >= ch), val == P.value(r, x))), ('visited-means-no-maximum', v)]
        return inv
    S.function('bliss::find_local_maxima_above_threshold_cpu', build,
               loops={0: inv_n, 1: inv_f, 2: inv_d, 3: band(-1, 'max_lower_edge', 'lower_edge_value'), 4: band(1, 'max_upper_edge', 'upper_edge_value')},
               contracts=dict(M.contracts(), **{'bland::ndarray::scalarize': scalarize_at}), opts={'merge_arrays': True}, name='find_local_maxima_above_threshold_cpu')

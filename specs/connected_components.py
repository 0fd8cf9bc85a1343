"""contract of find_components_above_threshold_cpu (bliss/drift_search/kernels/connected_components_cpu.cpp)

member: a cell with snr > threshold/2.  Ghost state records, per cell, the component that owns it, its position in
that component's location list and the position of an earlier location within L1 distance of it; per queue entry the
location that pushed it; per cell its latest queue position.  Postconditions: the listed components are exactly the
maximal connected groups of members containing a cell above the threshold."""
import z3
from dv.session import Q, Session
from dv.engine import IV, RV, I, R, B, N, Loc, tsel, Obl, tdiv
from dv import ndmodel as M, stdlib
from specs.local_maxima import PlaneSpec, scalarize_at, ab

UNITS = [M.UNIT_DT, ('bliss/drift_search/kernels/connected_components_cpu.cpp', [r'^bliss::find_components_above'], [r'^bland::'])]
AI = z3.ArraySort(I, I)
GHOSTS = {'own': AI, 'pos': AI, 'cpar': AI, 'qpar': AI, 'qpos': AI, 'glo': AI, 'gup': AI, 'ncomp': I, 'lastpos': I, 'lastpop': I}


def verify(S):
    P = PlaneSpec()
    P.lemmas(S)
    ND, Nn, L = P.ND, P.Nn, P.L
    total = ND * Nn
    half = P.thr / 2
    nb = z3.Function('within_L1', I, I, B)      # cells within the configured distance
    s_ = z3.Function('cell_snr', I, R)
    lin = z3.Function('lin', I, I, I)
    row, col = P.row, P.col
    hitno = z3.Function('hit_number', I, I)    # marker term, only ever used to trigger the facts about one hit

    def nb_def(a, b):
        return [nb(a, b) == (ab(row(a) - row(b)) + ab(col(a) - col(b)) <= L)]

    def cell(k):
        return [s_(k) == P.snr(row(k), col(k)), P.rowcol_def(k)] + P.snr_def(row(k), col(k))

    def rc(r, c):
        """facts about the cell at coordinates (r,c)"""
        k = r * Nn + c
        return [lin(r, c) == k, P.L_rowcol(r, c), P.bound(r, c), s_(k) == P.snr(row(k), col(k))] + P.snr_def(r, c)

    def lin_def(r, c):
        return [lin(r, c) == r * Nn + c]

    # ---------------------------------------------------------------- ghost code
    def g(E, st, n):
        return E.read(st, st.frames[0].env['g:' + n])

    def setg(E, st, **kw):
        for n, v in kw.items():
            E.write(st, st.frames[0].env['g:' + n], v)

    def c_push_back(E, st, e, ol):
        out = []
        for s, v in stdlib.seq_method(E, st, e, ol):
            vec = E.read(s, ol)
            last = tsel(vec['data'], vec['len'] - 1)
            if 'freq_drift_coord' in e['fn']:
                k = lin(last['drift_index'], last['frequency_channel'])
                s.pc += lin_def(last['drift_index'], last['frequency_channel'])
                i = z3.simplify(vec['len'] - 1)
                setg(E, s, own=z3.Store(g(E, s, 'own'), k, g(E, s, 'ncomp')), pos=z3.Store(g(E, s, 'pos'), k, i),
                     cpar=z3.Store(g(E, s, 'cpar'), k, g(E, s, 'qpar')[g(E, s, 'lastpop')]), lastpos=k)
            elif 'protohit' in e['fn']:
                n = g(E, s, 'ncomp')
                lo = E.read(s, find(s, 'lower_freq_index_at_rate'))
                up = E.read(s, find(s, 'upper_freq_index_at_rate'))
                setg(E, s, glo=z3.Store(g(E, s, 'glo'), n, lo), gup=z3.Store(g(E, s, 'gup'), n, up), ncomp=n + 1)
            out.append((s, v))
        return out

    def find(s, name):
        for f in reversed(s.frames):
            if name in f.names and f.names[name] in f.env:
                return f.env[f.names[name]]
        from dv.engine import Unsupported
        raise Unsupported('ghost code refers to variable "%s", absent from the current source' % name)

    def c_q_push(E, st, e, ol):
        out = []
        for s, v in stdlib.queue_method(E, st, e, ol):
            q = E.read(s, ol)
            t = q['tail'] - 1
            el = tsel(q['data'], t)
            k = lin(el['drift_index'], el['frequency_channel'])
            s.pc += lin_def(el['drift_index'], el['frequency_channel'])
            setg(E, s, qpos=z3.Store(g(E, s, 'qpos'), k, t), qpar=z3.Store(g(E, s, 'qpar'), t, g(E, s, 'lastpos')))
            out.append((s, v))
        return out

    def c_q_pop(E, st, e, ol):
        h = E.read(st, ol)['head']
        out = []
        for s, v in stdlib.queue_method(E, st, e, ol):
            setg(E, s, lastpop=h)
            out.append((s, v))
        return out

    # ---------------------------------------------------------------- contract
    def loc_at(comps, h, j):
        """location j of finished component h, as coordinates"""
        d = tsel(comps['data'], h)['locations']['data']
        return d['drift_index'][j], d['frequency_channel'][j]

    def comp_facts(h, own, pos, cpar, glo, gup, comps):
        """what is reported about finished component h (h in range)"""
        ch = tsel(comps['data'], h)
        im, ic = ch['index_max'], ch['index_center']
        n = ch['locations']['len']
        k = lin(im['drift_index'], im['frequency_channel'])
        r0, c0 = loc_at(comps, h, IV(0))
        lo, up = glo[h], gup[h]
        return [n >= 1, P.ingrid(im['drift_index'], im['frequency_channel']), own[k] == h, P.snr(im['drift_index'], im['frequency_channel']) == ch['snr'],
                ch['max_integration'] == P.value(im['drift_index'], im['frequency_channel']), ch['desmeared_noise'] == P.noise(im['drift_index']),
                P.flag_counts(S, ch['rfi_counts'], im['drift_index'], im['frequency_channel']),
                P.ingrid(r0, c0), P.snr(r0, c0) > P.thr,
                ic['drift_index'] == im['drift_index'], ic['frequency_channel'] == tdiv(up + lo, IV(2)), ch['binwidth'] == up - lo,
                lo >= 0, up < Nn, lo <= up, own[lin(im['drift_index'], lo)] == h, own[lin(im['drift_index'], up)] == h]

    def build(E, st, F):
        args = P.inputs(E, st)
        for n, so in GHOSTS.items():
            st.frames[0].env['g:' + n] = E.newcell(st, z3.K(I, IV(-1)) if so == AI else IV(0))
        k, k2, r, c = z3.Ints('k!a k2!a r!a c!a')

        def post(E, s, ret):
            own, pos, cpar, glo, gup = (g(E, s, n) for n in ('own', 'pos', 'cpar', 'glo', 'gup'))
            C = ret['len']
            inr = lambda k: z3.And(k >= 0, k < total)
            return [('every-cell-above-threshold-belongs-to-a-hit', Q(['k'], lambda k: z3.Implies(z3.And(inr(k), s_(k) > P.thr), z3.And(own[k] >= 0, own[k] < C)))),
                    ('members-are-listed-once', Q(['k'], lambda k: z3.Implies(z3.And(inr(k), own[k] >= 0), z3.And(own[k] < C, s_(k) > half, pos[k] >= 0, pos[k] < tsel(ret['data'], own[k])['locations']['len'],
                                                                                                        *[x == y for x, y in zip(loc_at(ret, own[k], pos[k]), (row(k), col(k)))])))),
                    ('listed-cells-are-members', Q(['h', 'j'], lambda h, j: listed(ret, own, pos, h, j))),
                    ('regions-are-closed', Q(['a', 'b'], lambda a, b: closure(own, C, a, b), use=nb_def)),
                    ('regions-are-connected', Q(['k'], lambda k: connected(own, pos, cpar, k))),
                    ('hit-reports-its-peak', Q(['h'], lambda h: z3.Implies(z3.And(h >= 0, h < C), z3.And(comp_facts(h, own, pos, cpar, glo, gup, ret))), use=lambda h: [hitno(h) == 0])),
                    ('peak-is-strongest', Q(['k'], lambda k: z3.Implies(z3.And(inr(k), own[k] >= 0), s_(k) <= tsel(ret['data'], own[k])['snr']))),
                    ('width-spans-the-peak-row', Q(['k'], lambda k: z3.Implies(z3.And(inr(k), own[k] >= 0, row(k) == tsel(ret['data'], own[k])['index_max']['drift_index']), z3.And(col(k) >= glo[own[k]], col(k) <= gup[own[k]])))),
                    ('plane-unchanged', M.buf(E, s, P.plane)['data'] == P.V)]

        def conn_doc():
            pass
        return {'args': args, 'post': post}

    def connected(own, pos, cpar, k):
        """a member that is not first in its list lies within distance of an earlier one (ghost cell index par)"""
        p = cpar[k]
        return z3.Implies(z3.And(k >= 0, k < total, own[k] >= 0, pos[k] > 0),
                          z3.And(p >= 0, p < total, own[p] == own[k], pos[p] < pos[k], pos[p] >= 0, nb(p, k)))

    def listed(comps, own, pos, h, j):
        r, c = loc_at(comps, h, j)
        return z3.Implies(z3.And(h >= 0, h < comps['len'], j >= 0, j < tsel(comps['data'], h)['locations']['len']),
                          z3.And(P.ingrid(r, c), own[lin(r, c)] == h, pos[lin(r, c)] == j))

    def closure(own, C, a, b):
        return z3.Implies(z3.And(a >= 0, a < total, b >= 0, b < total, own[a] >= 0, own[a] < C, nb(a, b), s_(b) > half), own[b] == own[a])

    def ghosts(c):
        return {n: g(c.E, c.st, n) for n in GHOSTS}

    def old_cell(k):
        return cell(k)

    def part(fs, i):
        return [fs[0:7], fs[7:9], fs[9:12], fs[12:15], fs[15:16], fs[16:17]][i]

    def finished(c, G, A, more=[]):
        """facts about the finished components; they do not change while the next one grows"""
        comps = c['components']
        C = comps['len']
        own, pos, cpar, glo, gup = G['own'], G['pos'], G['cpar'], G['glo'], G['gup']
        inr = lambda k: z3.And(k >= 0, k < total)
        at = lambda k: tsel(comps['data'], own[k])
        return [('count', z3.And(C == G['ncomp'], C >= 0)),
                ('visited-flag', Q(['k'], lambda k: z3.Implies(inr(k), z3.And(A[k] >= 0, A[k] <= 1, own[k] >= -1, own[k] <= C, (own[k] >= 0) == z3.And(A[k] == 1, s_(k) > half))), pats=lambda k: [A[k], own[k]], use=cell)),
                ('members-listed', Q(['k'], lambda k: z3.Implies(z3.And(inr(k), own[k] >= 0, own[k] < C), z3.And(pos[k] >= 0, pos[k] < at(k)['locations']['len'],
                                                                                                     *[x == y for x, y in zip(loc_at(comps, own[k], pos[k]), (row(k), col(k)))])), pats=lambda k: own[k], use=cell)),
                ('listed-members', Q(['h', 'j'], lambda h, j: listed(comps, own, pos, h, j), pats=lambda h, j: loc_at(comps, h, j)[0])),
                ('closed', Q(['a', 'b'], lambda a, b: closure(own, C, a, b), pats=lambda a, b: nb(a, b), use=lambda a, b: nb_def(a, b) + nb_def(b, a) + cell(a) + cell(b))),
                ('connected', Q(['k'], lambda k: connected(own, pos, cpar, k), pats=lambda k: cpar[k], use=cell)),
                ] + [('peaks%d' % i, Q(['h'], lambda h, i=i: z3.Implies(z3.And(h >= 0, h < C), z3.And(part(comp_facts(h, own, pos, cpar, glo, gup, comps), i))), pats=lambda h: hitno(h),
                     use=lambda h: more + [hitno(h) == 0])) for i in range(6)] + [
                ('strongest', Q(['k'], lambda k: z3.Implies(z3.And(inr(k), own[k] >= 0, own[k] < C), s_(k) <= at(k)['snr']), pats=lambda k: own[k], use=cell)),
                ('widths', Q(['k'], lambda k: z3.Implies(z3.And(inr(k), own[k] >= 0, own[k] < C, row(k) == at(k)['index_max']['drift_index']), z3.And(col(k) >= glo[own[k]], col(k) <= gup[own[k]])), pats=lambda k: own[k], use=cell))]

    def vis(c):
        return M.buf(c.E, c.st, c['visited'])['data']

    def coord(c):
        cc = c['curr_coord']
        return cc['drift_index'], cc['frequency_channel']

    def inv_n(c):
        n = c['n']
        r, ch = coord(c)
        G, A, q = ghosts(c), vis(c), c['coord_queue']
        C = c['components']['len']
        use = lambda: [P.rowcol_def(n), P.L_rowcol(r, ch), P.bound(r, ch), P.L_rowcol(r - 1, Nn - 1), P.bound(r, IV(0))] + P.snr_def(r, ch)
        return [('range', z3.And(n >= 0, z3.Or(n <= total, n == 0), q['tail'] == q['head'])),
                ('coordinate', z3.And(n == r * Nn + ch, r >= 0, ch >= 0, z3.Or(ch < Nn, Nn == 0))),
                ('row', Q([], lambda: z3.Implies(n < total, z3.And(r < ND, row(n) == r, col(n) == ch)), use=use)),
                ('all-finished', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < total), G['own'][k] < C), pats=lambda k: G['own'][k])),
                ('scanned', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < n, s_(k) > P.thr), G['own'][k] >= 0), pats=lambda k: G['own'][k], use=lambda k: cell(k) + cell(n - 1)))] + finished(c, G, A, cell(n - 1) + cell(n))

    def cand(c):
        n = c['n']
        r, ch = coord(c)
        return n, r, ch, z3.And(n >= 0, n < total, n == r * Nn + ch, r >= 0, r < ND, ch >= 0, ch < Nn, row(n) == r, col(n) == ch, s_(n) > P.thr)

    def growing(c, G, A, skip=None, extra=[]):
        """the component being grown, number C"""
        n, r, ch, cnd = cand(c)
        t = c['this_component']
        q = c['coord_queue']
        C = c['components']['len']
        own, pos = G['own'], G['pos']
        loc = t['locations']['data']
        m = t['locations']['len']
        Q0, Q1 = q['data']['drift_index'], q['data']['frequency_channel']
        im = t['index_max']
        inr = lambda k: z3.And(k >= 0, k < total)
        pend = lambda b: z3.And(G['qpos'][b] >= q['head'], G['qpos'][b] < q['tail'], Q0[G['qpos'][b]] == row(b), Q1[G['qpos'][b]] == col(b), A[b] == 0)

        def frontier(a, b):
            base = z3.And(inr(a), inr(b), own[a] == C, nb(a, b), s_(b) > half)
            if skip is not None:
                base = z3.And(base, skip(a, b))
            return z3.Implies(base, z3.Or(own[b] == C, pend(b)))

        def qentry(p):
            x = G['qpar'][p]
            return z3.Implies(z3.And(p >= q['head'], p < q['tail']),
                              z3.And(P.ingrid(Q0[p], Q1[p]),
                                     z3.If(m == 0, z3.And(Q0[p] == r, Q1[p] == ch),
                                           z3.And(x >= 0, x < total, own[x] == C, pos[x] >= 0, pos[x] < m, nb(x, lin(Q0[p], Q1[p]))))))
        return [('candidate', Q([], lambda: cnd, use=lambda: cell(n) + rc(r, ch))), ('queue', z3.And(q['tail'] >= q['head'], m >= 0)),
                ('seed', z3.If(m == 0, z3.And(q['tail'] == q['head'] + 1, A[n] == 0), z3.And(loc['drift_index'][0] == r, loc['frequency_channel'][0] == ch, own[n] == C))),
                ('nothing-yet', Q(['k'], lambda k: z3.Implies(z3.And(m == 0, inr(k)), own[k] < C), pats=lambda k: own[k])),
                ('queue-entries', Q(['p'], qentry, pats=lambda p: Q0[p], use=lambda p: cell(lin(Q0[p], Q1[p])) + lin_def(Q0[p], Q1[p]) + rc(Q0[p], Q1[p]) + nb_def(G['qpar'][p], lin(Q0[p], Q1[p])) + cell(G['qpar'][p]) + extra)),
                ('frontier', Q(['a', 'b'], frontier, pats=lambda a, b: nb(a, b), use=lambda a, b: nb_def(a, b) + nb_def(b, a) + cell(a) + cell(b) + extra)),
                ('own-members', Q(['k'], lambda k: z3.Implies(z3.And(inr(k), own[k] == C), z3.And(pos[k] >= 0, pos[k] < m, loc['drift_index'][pos[k]] == row(k), loc['frequency_channel'][pos[k]] == col(k))), pats=lambda k: own[k], use=cell)),
                ('own-list', Q(['j'], lambda j: z3.Implies(z3.And(j >= 0, j < m), z3.And(P.ingrid(loc['drift_index'][j], loc['frequency_channel'][j]), own[lin(loc['drift_index'][j], loc['frequency_channel'][j])] == C,
                                                                                   pos[lin(loc['drift_index'][j], loc['frequency_channel'][j])] == j)), pats=lambda j: loc['drift_index'][j])),
                ('own-strongest', Q(['k'], lambda k: z3.Implies(z3.And(inr(k), own[k] == C), s_(k) <= t['snr']), pats=lambda k: own[k], use=cell)),
                ('own-peak', Q([], lambda: z3.If(m == 0, t['snr'] <= half, z3.And(P.ingrid(im['drift_index'], im['frequency_channel']), own[lin(im['drift_index'], im['frequency_channel'])] == C,
                                                                    P.snr(im['drift_index'], im['frequency_channel']) == t['snr'], t['max_integration'] == P.value(im['drift_index'], im['frequency_channel']),
                                                                    t['desmeared_noise'] == P.noise(im['drift_index']), P.flag_counts(S, t['rfi_counts'], im['drift_index'], im['frequency_channel']))), use=lambda: rc(im['drift_index'], im['frequency_channel'])))]

    def scanned_before(c, G):
        n = c['n']
        return ('scanned', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < n, s_(k) > P.thr), G['own'][k] >= 0), pats=lambda k: G['own'][k], use=cell))

    def inv_while(c):
        G, A = ghosts(c), vis(c)
        return growing(c, G, A) + finished(c, G, A) + [scanned_before(c, G)]

    def at_idx(c, G, A):
        """inside the neighbour loops: idx has just been added"""
        x = c['idx']
        xr, xc = x['drift_index'], x['frequency_channel']
        C = c['components']['len']
        m = c['this_component']['locations']['len']
        k = lin(xr, xc)
        return xr, xc, ('current', z3.And(P.ingrid(xr, xc), G['own'][k] == C, k == xr * Nn + xc, row(k) == xr, col(k) == xc, m >= 1, G['lastcell'] == k if 'lastcell' in G else G['lastpos'] == k))

    def inv_f(c):
        G, A = ghosts(c), vis(c)
        xr, xc, cur = at_idx(c, G, A)
        f = c['freq_neighbor_offset']
        k = lin(xr, xc)
        skip = lambda a, b: z3.Or(a != k, col(b) - xc < f)
        ex = rc(xr, xc)
        return [('range', z3.And(f >= -L, f <= L + 1)), cur] + growing(c, G, A, skip, ex) + finished(c, G, A) + [scanned_before(c, G)]

    def inv_d(c):
        G, A = ghosts(c), vis(c)
        xr, xc, cur = at_idx(c, G, A)
        f, d = c['freq_neighbor_offset'], c['drift_neighbor_offset']
        k = lin(xr, xc)
        skip = lambda a, b: z3.Or(a != k, col(b) - xc < f, z3.And(col(b) - xc == f, row(b) - xr < d))
        ex = rc(xr + d - 1, xc + f) + lin_def(xr + d - 1, xc + f) + rc(xr, xc)
        return [('range', z3.And(f >= -L, f <= L, d >= ab(f) - L, d <= L - ab(f) + 1)), cur] + growing(c, G, A, skip, ex) + finished(c, G, A) + [scanned_before(c, G)]

    def inv_w(c):
        i = c.idx('l')
        G = ghosts(c)
        t = c['this_component']
        loc = t['locations']['data']
        m = t['locations']['len']
        lo, up, mr = c['lower_freq_index_at_rate'], c['upper_freq_index_at_rate'], c['max_drift_index']
        own, C = G['own'], c['components']['len']
        return [('range', z3.And(i >= 0, i <= m, mr == t['index_max']['drift_index'], lo <= up, lo >= 0, up < Nn, lo <= t['index_max']['frequency_channel'])),
                ('attained', z3.And(own[lin(mr, lo)] == C, own[lin(mr, up)] == C)),
                ('covers', Q(['j'], lambda j: z3.Implies(z3.And(j >= 0, j < i, loc['drift_index'][j] == mr), z3.And(loc['frequency_channel'][j] >= lo, loc['frequency_channel'][j] <= up)), pats=lambda j: loc['drift_index'][j]))]
    C = dict(M.contracts(), **{'bland::ndarray::scalarize': scalarize_at, 'std::vector::push_back': c_push_back, 'std::queue::push': c_q_push, 'std::queue::pop': c_q_pop})
    S.function('bliss::find_components_above_threshold_cpu', build, loops={0: inv_n, 1: inv_while, 2: inv_f, 3: inv_d, 4: inv_w}, contracts=C,
               opts={'merge_arrays': True}, name='find_components_above_threshold_cpu')

"""contract of find_components_in_binary_mask_cpu (bliss/drift_search/kernels/connected_components_cpu.cpp)

member: a cell whose mask is not zero.  near(a,b): b is a displaced by one of the offsets of the neighbourhood (w(a,b) says
which).  Ghost state records, per cell, the group that owns it, its position in that group's list and the cell it was reached from;
per queue entry the location that pushed it; per cell its latest queue position."""
import z3
from dv.session import Q
from dv.engine import IV, RV, I, R, B, N, Loc, tsel, Unsupported, leaves, is_z
from dv import ndmodel as M, stdlib
from specs.local_maxima import PlaneSpec

UNITS = [M.UNIT_DT, ('bliss/drift_search/kernels/connected_components_cpu.cpp', [r'^bliss::find_components_in'], [r'^bland::']),
         ('bliss/drift_search/connected_components.cpp', [r'^bliss::find_components_in_binary_mask\b'], [r'^bland::', r'^bliss::find_components_in_binary_mask_cpu'])]
AI = z3.ArraySort(I, I)
GHOSTS = {'own': AI, 'pos': AI, 'cpar': AI, 'qpar': AI, 'qpos': AI, 'ncomp': I, 'lastpos': I, 'lastpop': I}
FN = 'bliss::find_components_in_binary_mask'


def verify(S):
    P = PlaneSpec()
    P.lemmas(S)
    ND, Nn, row, col = P.ND, P.Nn, P.row, P.col
    total = ND * Nn
    J = z3.Int('offsets')
    V = z3.Array('mask', I, I)                  # by cell
    near, w = z3.Function('near', I, I, B), z3.Function('offset_of', I, I, I)
    nr, nc = z3.Function('row_offset', I, I), z3.Function('channel_offset', I, I)
    lin = z3.Function('lin', I, I, I)
    inr = lambda k: z3.And(k >= 0, k < total)

    def cell(k):
        return [P.rowcol_def(k)]

    def rc(r, c):
        k = r * Nn + c
        return [lin(r, c) == k, P.L_rowcol(r, c), P.bound(r, c)]

    def lin_def(r, c):
        return [lin(r, c) == r * Nn + c]

    def displaced(a, b, j):
        return z3.And(j >= 0, j < J, row(b) - row(a) == nr(j), col(b) - col(a) == nc(j))

    def near_def(a, b):
        return [z3.Implies(near(a, b), displaced(a, b, w(a, b)))]

    def near_intro(a, b, j):
        return [z3.Implies(displaced(a, b, j), near(a, b))]

    def g(E, st, n):
        return E.read(st, st.frames[0].env['g:' + n])

    def setg(E, st, **kw):
        for n, v in kw.items():
            E.write(st, st.frames[0].env['g:' + n], v)

    def c_push_back(E, st, e, ol):
        out = []
        for s, v in stdlib.seq_method(E, st, e, ol):
            vec = E.read(s, ol)
            last = tsel(vec['data'], vec['len'] - 1)
            if 'freq_drift_coord' in e['fn']:
                k = lin(last['drift_index'], last['frequency_channel'])
                s.pc += lin_def(last['drift_index'], last['frequency_channel'])
                setg(E, s, own=z3.Store(g(E, s, 'own'), k, g(E, s, 'ncomp')), pos=z3.Store(g(E, s, 'pos'), k, z3.simplify(vec['len'] - 1)),
                     cpar=z3.Store(g(E, s, 'cpar'), k, g(E, s, 'qpar')[g(E, s, 'lastpop')]), lastpos=k)
            elif 'protohit' in e['fn']:
                setg(E, s, ncomp=g(E, s, 'ncomp') + 1)
            out.append((s, v))
        return out

    def c_q_push(E, st, e, ol):
        out = []
        for s, v in stdlib.queue_method(E, st, e, ol):
            q = E.read(s, ol)
            t = q['tail'] - 1
            el = tsel(q['data'], t)
            k = lin(el['drift_index'], el['frequency_channel'])
            s.pc += lin_def(el['drift_index'], el['frequency_channel'])
            setg(E, s, qpos=z3.Store(g(E, s, 'qpos'), k, t), qpar=z3.Store(g(E, s, 'qpar'), t, g(E, s, 'lastpos')))
            out.append((s, v))
        return out

    def c_q_pop(E, st, e, ol):
        h = E.read(st, ol)['head']
        out = []
        for s, v in stdlib.queue_method(E, st, e, ol):
            setg(E, s, lastpop=h)
            out.append((s, v))
        return out

    def c_copy(E, st, e):
        def f(s, vs):
            src = M._obj(E, s, vs[0]) if isinstance(vs[0], Loc) else vs[0]
            E.oblige(s, 'the-mask-is-copied', z3.And([a == b for a, b in zip(M.vals(src['shape']), (ND, Nn))]), e['ln'], 'spec')
            E.assumptions.add('contract of bland::copy: an array of its own with the same shape and elements, in row-major order (P02, P05)')
            return [(s, M.mk_nd(E, s, 'thresholded', [ND, Nn], [Nn, IV(1)], elem='unsigned char', size=total, data=V))]
        return E.bind(E.eval_args(E.ptypes_of(e['fn']), e['a'], st), f)

    def loc_at(comps, h, j):
        d = tsel(comps['data'], h)['locations']['data']
        return d['drift_index'][j], d['frequency_channel'][j]

    def connected(own, pos, cpar, k):
        p = cpar[k]
        return z3.Implies(z3.And(inr(k), own[k] >= 0, pos[k] > 0), z3.And(inr(p), own[p] == own[k], pos[p] < pos[k], pos[p] >= 0, near(p, k)))

    def listed(comps, own, pos, h, j):
        r, c = loc_at(comps, h, j)
        return z3.Implies(z3.And(h >= 0, h < comps['len'], j >= 0, j < tsel(comps['data'], h)['locations']['len']),
                          z3.And(P.ingrid(r, c), own[lin(r, c)] == h, pos[lin(r, c)] == j))

    def closure(own, C, a, b):
        return z3.Implies(z3.And(inr(a), inr(b), own[a] >= 0, own[a] < C, near(a, b), V[b] > 0), z3.And(own[b] >= 0, own[b] <= own[a]))

    def build(E, st, F):
        M.install(E, st)
        BIG = 2 ** 29
        k = z3.Int('k!n')
        st.pc += [ND >= 1, Nn >= 1, ND <= BIG, Nn <= BIG, J >= 0, z3.ForAll([k], P.rowcol_def(k), patterns=[row(k)]), z3.ForAll([k], z3.And(V[k] >= 0, V[k] <= 255), patterns=[V[k]])]
        mask = M.mk_nd(E, st, 'mask', [ND, Nn], elem='unsigned char')
        nbh = E.fresh('std::vector<std::vector<long>>', 'neighbourhood').set(len=J)
        at = tsel(nbh['data'], k)
        st.pc += [z3.ForAll([k], z3.And(at['len'] == 2, at['data'][0] == nr(k), at['data'][1] == nc(k)), patterns=[at['len']]), z3.ForAll([k], z3.And(at['len'] == 2, at['data'][0] == nr(k), at['data'][1] == nc(k)), patterns=[nr(k)])]
        for n, so in GHOSTS.items():
            st.frames[0].env['g:' + n] = E.newcell(st, z3.K(I, IV(-1)) if so == AI else IV(0))
        before = M.buf(E, st, mask)['data']
        E.assumptions.add('preconditions: a mask of rates x channels, at least one of each, of uint8; two numbers per offset')

        def post(E, s, ret):
            own, pos, cpar = (g(E, s, n) for n in ('own', 'pos', 'cpar'))
            C = ret['len']
            return [('every-set-cell-belongs-to-a-group', Q(['k'], lambda k: z3.Implies(z3.And(inr(k), V[k] > 0), z3.And(own[k] >= 0, own[k] < C)))),
                    ('members-are-set-and-listed-once', Q(['k'], lambda k: z3.Implies(z3.And(inr(k), own[k] >= 0), z3.And(own[k] < C, V[k] > 0, pos[k] >= 0, pos[k] < tsel(ret['data'], own[k])['locations']['len'],
                                                                                                                    *[x == y for x, y in zip(loc_at(ret, own[k], pos[k]), (row(k), col(k)))])))),
                    ('listed-cells-are-members', Q(['h', 'j'], lambda h, j: listed(ret, own, pos, h, j))),
                    ('groups-are-closed', Q(['a', 'b'], lambda a, b: closure(own, C, a, b), use=near_def)),
                    ('groups-are-one-when-neighbourhood-is-symmetric', Q(['a', 'b'], lambda a, b: z3.Implies(z3.And(inr(a), inr(b), own[a] >= 0, near(a, b), near(b, a), V[b] > 0), own[a] == own[b]))),
                    ('groups-are-connected', Q(['k'], lambda k: connected(own, pos, cpar, k))),
                    ('no-empty-group', Q(['h'], lambda h: z3.Implies(z3.And(h >= 0, h < C), tsel(ret['data'], h)['locations']['len'] >= 1))),
                    ('starts-at-its-first-cell', Q(['k'], lambda k: z3.Implies(z3.And(inr(k), own[k] >= 0), k >= lin(*loc_at(ret, own[k], IV(0)))))),
                    ('mask-unchanged', M.buf(E, s, mask)['data'] == before)]
        return {'args': [mask, nbh], 'post': post}

    def ghosts(c):
        return {n: g(c.E, c.st, n) for n in GHOSTS}

    def cur(c):
        return M.buf(c.E, c.st, c['threshold_mask'])['data']

    def finished(c, G, A):
        comps = c['components']
        C = comps['len']
        own, pos, cpar = G['own'], G['pos'], G['cpar']
        at = lambda k: tsel(comps['data'], own[k])
        return [('count', z3.And(C == G['ncomp'], C >= 0)),
                ('cleared', Q(['k'], lambda k: z3.Implies(inr(k), z3.And(own[k] >= -1, own[k] <= C, z3.If(own[k] >= 0, z3.And(A[k] == 0, V[k] > 0), A[k] == V[k]))), pats=lambda k: [A[k], own[k], V[k]], use=cell)),
                ('members-listed', Q(['k'], lambda k: z3.Implies(z3.And(inr(k), own[k] >= 0, own[k] < C), z3.And(pos[k] >= 0, pos[k] < at(k)['locations']['len'],
                                                                                                     *[x == y for x, y in zip(loc_at(comps, own[k], pos[k]), (row(k), col(k)))])), pats=lambda k: own[k], use=cell)),
                ('listed-members', Q(['h', 'j'], lambda h, j: listed(comps, own, pos, h, j), pats=lambda h, j: loc_at(comps, h, j)[0])),
                ('not-empty', Q(['h'], lambda h: z3.Implies(z3.And(h >= 0, h < C), tsel(comps['data'], h)['locations']['len'] >= 1), pats=lambda h: tsel(comps['data'], h)['locations']['len'])),
                ('first', Q(['k'], lambda k: z3.Implies(z3.And(inr(k), own[k] >= 0, own[k] < C), k >= lin(*loc_at(comps, own[k], IV(0)))), pats=lambda k: own[k], use=cell)),
                ('closed', Q(['a', 'b'], lambda a, b: closure(own, C, a, b), pats=lambda a, b: near(a, b), use=lambda a, b: near_def(a, b) + cell(a) + cell(b))),
                ('connected', Q(['k'], lambda k: connected(own, pos, cpar, k), pats=lambda k: cpar[k], use=cell))]

    def coord(c):
        cc = c['curr_coord']
        return cc['drift_index'], cc['frequency_channel']

    def inv_n(c):
        n = c['n']
        r, ch = coord(c)
        G, A, q = ghosts(c), cur(c), c['coord_queue']
        C = c['components']['len']
        use = lambda: [P.rowcol_def(n), P.L_rowcol(r, ch), P.bound(r, ch), P.L_rowcol(r - 1, Nn - 1), P.bound(r, IV(0))]
        return [('range', z3.And(n >= 0, n <= total, q['tail'] == q['head'])),
                ('coordinate', z3.And(n == r * Nn + ch, r >= 0, ch >= 0, ch < Nn)),
                ('row', Q([], lambda: z3.Implies(n < total, z3.And(r < ND, row(n) == r, col(n) == ch)), use=use)),
                ('all-finished', Q(['k'], lambda k: z3.Implies(inr(k), G['own'][k] < C), pats=lambda k: G['own'][k])),
                ('scanned', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < n, V[k] > 0), G['own'][k] >= 0), pats=lambda k: G['own'][k], use=lambda k: cell(k) + cell(n - 1)))] + finished(c, G, A)

    def growing(c, G, A, skip=None, extra=[]):
        n = c['n']
        r, ch = coord(c)
        t, q = c['this_component'], c['coord_queue']
        C = c['components']['len']
        own, pos = G['own'], G['pos']
        loc, m = t['locations']['data'], t['locations']['len']
        Q0, Q1 = q['data']['drift_index'], q['data']['frequency_channel']
        pend = lambda b: z3.And(G['qpos'][b] >= q['head'], G['qpos'][b] < q['tail'], Q0[G['qpos'][b]] == row(b), Q1[G['qpos'][b]] == col(b))

        def frontier(a, b):
            base = z3.And(inr(a), inr(b), own[a] == C, near(a, b), V[b] > 0)
            if skip is not None:
                base = z3.And(base, skip(a, b))
            return z3.Implies(base, z3.Or(own[b] >= 0, pend(b)))

        def qentry(p):
            x = G['qpar'][p]
            return z3.Implies(z3.And(p >= q['head'], p < q['tail']),
                              z3.And(P.ingrid(Q0[p], Q1[p]),
                                     z3.If(m == 0, z3.And(Q0[p] == r, Q1[p] == ch),
                                           z3.And(inr(x), own[x] == C, pos[x] >= 0, pos[x] < m, near(x, lin(Q0[p], Q1[p]))))))
        return [('candidate', Q([], lambda: z3.And(n >= 0, n < total, n == r * Nn + ch, r >= 0, r < ND, ch >= 0, ch < Nn, row(n) == r, col(n) == ch, V[n] > 0), use=lambda: cell(n) + rc(r, ch))),
                ('queue', z3.And(q['tail'] >= q['head'], m >= 0)),
                ('seed', z3.If(m == 0, z3.And(q['tail'] == q['head'] + 1, A[n] > 0), z3.And(loc['drift_index'][0] == r, loc['frequency_channel'][0] == ch, own[n] == C))),
                ('nothing-yet', Q(['k'], lambda k: z3.Implies(z3.And(m == 0, inr(k)), own[k] < C), pats=lambda k: own[k])),
                ('queue-entries', Q(['p'], qentry, pats=lambda p: Q0[p], use=lambda p: cell(lin(Q0[p], Q1[p])) + lin_def(Q0[p], Q1[p]) + rc(Q0[p], Q1[p]) + cell(G['qpar'][p]) + extra)),
                ('frontier', Q(['a', 'b'], frontier, pats=lambda a, b: near(a, b), use=lambda a, b: near_def(a, b) + cell(a) + cell(b) + extra)),
                ('own-members', Q(['k'], lambda k: z3.Implies(z3.And(inr(k), own[k] == C), z3.And(k >= n, pos[k] >= 0, pos[k] < m, loc['drift_index'][pos[k]] == row(k), loc['frequency_channel'][pos[k]] == col(k))), pats=lambda k: own[k], use=cell)),
                ('own-list', Q(['j'], lambda j: z3.Implies(z3.And(j >= 0, j < m), z3.And(P.ingrid(loc['drift_index'][j], loc['frequency_channel'][j]), own[lin(loc['drift_index'][j], loc['frequency_channel'][j])] == C,
                                                                                   pos[lin(loc['drift_index'][j], loc['frequency_channel'][j])] == j)), pats=lambda j: loc['drift_index'][j])),
                ('scanned', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < n, V[k] > 0), own[k] >= 0), pats=lambda k: own[k], use=cell))]

    def inv_while(c):
        G, A = ghosts(c), cur(c)
        return growing(c, G, A) + finished(c, G, A)

    def inv_j(c):
        G, A = ghosts(c), cur(c)
        x = c['idx']
        xr, xc = x['drift_index'], x['frequency_channel']
        C, m = c['components']['len'], c['this_component']['locations']['len']
        j = c.idx('neighbor_offset')
        k = lin(xr, xc)
        skip = lambda a, b: z3.Or(a != k, w(a, b) < j)
        nb = lin(xr + nr(j - 1), xc + nc(j - 1))
        ex = rc(xr, xc) + rc(xr + nr(j - 1), xc + nc(j - 1)) + near_intro(k, nb, j - 1) + near_def(k, nb)
        return [('range', z3.And(j >= 0, j <= J)),
                ('current', z3.And(P.ingrid(xr, xc), G['own'][k] == C, k == xr * Nn + xc, row(k) == xr, col(k) == xc, m >= 1, G['lastpos'] == k))] + growing(c, G, A, skip, ex) + finished(c, G, A)
    C = dict(M.contracts(), **{'bland::copy': c_copy, 'std::vector::push_back': c_push_back, 'std::queue::push': c_q_push, 'std::queue::pop': c_q_pop})
    S.function(FN + '_cpu', build, loops={0: inv_n, 1: inv_while, 2: inv_j}, contracts=C, opts={'merge_arrays': True}, name='find_components_in_binary_mask_cpu')

    # the function that is called by users passes its arguments on
    def b_pass(E, st, F):
        M.install(E, st)
        seen = []
        mask = M.mk_nd(E, st, 'mask', [ND, Nn], elem='unsigned char')
        nbh = E.fresh('std::vector<std::vector<long>>', 'neighbourhood')
        out = E.fresh('std::vector<bliss::protohit>', 'groups')
        E.C[FN + '_cpu'] = lambda E, st, e: E.bind(E.eval_args(E.ptypes_of(e['fn']), e['a'], st), lambda s, vs: [(s.pc.append(z3.Bool('searched') == z3.And(same(E, s, vs[0], mask), same(E, s, vs[1], nbh))) or s, out)])
        return {'args': [mask, nbh], 'post': lambda E, s, r: [('the-groups-of-this-mask', z3.And(z3.Bool('searched'), r['len'] == out['len'], *[x == y for x, y in zip(leaves(r['data']), leaves(out['data']))]))]}

    def same(E, s, a, b):
        a, b = (E.read(s, v) if isinstance(v, Loc) else v for v in (a, b))
        x, y = list(leaves(a)), list(leaves(b))
        return z3.And([z3.BoolVal(len(x) == len(y))] + [p == q for p, q in zip(x, y) if is_z(p) and is_z(q)])
    S.function(FN, b_pass, contracts=dict(M.contracts()), name='find_components_in_binary_mask')

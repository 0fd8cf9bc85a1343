"""event search (bliss/drift_search/event_search.cpp)

Hits and scans are identified by where they occur; every field of a hit is a function of its identity.  The lists of hits
still to be matched, the candidate and the events found are described by invariants over all seven levels of loops."""
import z3
from fractions import Fraction
from dv.session import Q
from dv.engine import IV, RV, I, R, B, N, Ptr, Loc, Opq, Unsupported, coerce, is_z, absr
from dv import stdlib
from . import levels, loopkit
from .levels import SC, TG, CA, rd, ident

HIT, EV = 'bliss::hit', 'bliss::event'
UNITS = [('bliss/drift_search/event_search.cpp', [r'^distance_func', r'^hit_distance::', r'^bliss::event_search'], [r'^fmt::', r'^bliss::(scan|hit|coarse_channel|observation_target|cadence)\b', r'^std::minmax'])]
SORTS = {'start_freq_index': I, 'start_freq_MHz': R, 'start_time_sec': R, 'duration_sec': R, 'rate_index': I, 'drift_rate_Hz_per_sec': R, 'power': R, 'time_span_steps': I, 'snr': R, 'bandwidth': R, 'binwidth': I, 'coarse_channel_number': I}
OF = {k: z3.Function('hit.' + k, I, s) for k, s in SORTS.items()}
AR = z3.ArraySort(I, I)
FMAX = RV('340282346638528859811704183484516925440')


def lifted(E, t):
    def f(E, t_, name, lift=0):
        so = I
        for _ in range(int(lift)):
            so = z3.ArraySort(I, so)
        return ident(z3.Const(E.fresh_name(name), so), t)
    E.C['fresh:' + t] = f
    E.C['default:' + t] = lambda E, t_: ident(z3.Int(E.fresh_name('default')), t)
    E.C['ctor:' + t] = levels.ctor
    E.C[t + '::operator='] = levels.assign


def verify(S):
    distances(S)
    cache(S)
    search(S)


# ------------------------------------------------------------------ distance of two hits
def distances(S):
    def dist(a, b):
        f32 = lambda x: RV(str(Fraction(x)))
        import struct
        single = lambda x: RV(str(Fraction(struct.unpack('f', struct.pack('f', x))[0])))
        da, db = a['drift_rate_Hz_per_sec'], b['drift_rate_Hz_per_sec']
        rel = absr(da - db) / (f32(1e-8) + da * da + db * db)
        mn = lambda x, y: z3.If(x <= y, x, y)
        mx = lambda x, y: z3.If(x >= y, x, y)
        mid = (mn(a['start_time_sec'], b['start_time_sec']) + mx(a['start_time_sec'] + a['duration_sec'], b['start_time_sec'] + b['duration_sec'])) / 2
        at = lambda h: h['start_freq_MHz'] * 10 ** 6 + h['drift_rate_Hz_per_sec'] * (mid - h['start_time_sec'])
        return single(0.01) * absr(at(a) - at(b)) + 10 * rel * rel
    got = {}

    def build(E, st, F):
        a, b = E.fresh(HIT, 'a'), E.fresh(HIT, 'b')
        la, lb = E.newcell(st, a), E.newcell(st, b)

        def post(E, s, r):
            got['r'] = (a, b, r)
            return [('frequency-and-drift-terms', coerce(r, R) == dist(a, b)), ('hits-unchanged', z3.BoolVal(E.read(s, la) is a and E.read(s, lb) is b))]
        return {'args': [la, lb], 'post': post}
    S.function('distance_func', build, name='distance')
    if 'r' in got:
        a, b, r = got['r']
        S.lemma('distance/symmetric', dist(a, b) == dist(b, a))


# ------------------------------------------------------------------ the cache of distances
D2 = z3.Function('distance_of', I, I, R)


def D(a, b):
    """distance of two hits, whatever their order (distance/symmetric)"""
    return D2(z3.If(a <= b, a, b), z3.If(a <= b, b, a))


def cache(S):
    # order of pairs: hits by rank (P29: a strict total order consistent with equality)
    C = {}
    lo = lambda p: z3.If(p[1] < p[0], p[1], p[0])
    hi = lambda p: z3.If(p[1] < p[0], p[0], p[1])

    def pair(E, s, v):
        v = rd(E, s, v)
        return [rd(E, s, v['first']), rd(E, s, v['second'])]

    def rank(E, s, v):
        v = rd(E, s, v)
        return v['id']

    def c_minmax(E, st, e):
        def f(s, vs):
            a, b = [rank(E, s, v) for v in vs]
            return [(s, N('struct', {'first': ident(z3.If(b < a, b, a), HIT), 'second': ident(z3.If(b < a, a, b), HIT)}, 'pair'))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)

    def c_rel(E, st, e, ol=None):
        def f(s, vs):
            vs = ([ol] if ol is not None else []) + list(vs)
            a, b = [rd(E, s, v) for v in vs]
            op = e['q'].split('operator')[-1].strip()
            if 'first' in a.f:
                x, y = [rank(E, s, v) for v in pair(E, s, a)], [rank(E, s, v) for v in pair(E, s, b)]
                eq, lt = z3.And(x[0] == y[0], x[1] == y[1]), z3.Or(x[0] < y[0], z3.And(x[0] == y[0], x[1] < y[1]))
            else:
                x, y = rank(E, s, a), rank(E, s, b)
                eq, lt = x == y, x < y
            E.assumptions.add('contracts of hit comparison (a strict total order consistent with equality: verified for P29) and of std::pair comparison (lexicographic)')
            return [(s, {'<': lt, '==': eq, '!=': z3.Not(eq), '>': z3.Not(z3.Or(lt, eq)), '<=': z3.Or(lt, eq), '>=': z3.Not(lt)}[op])]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    for op in ('<', '==', '!=', '>', '<=', '>='):
        C['std::operator' + op] = c_rel
        C['bliss::hit::operator' + op] = c_rel
    C['std::minmax'] = c_minmax
    res = {}

    def build(E, st, F):
        lifted(E, HIT)
        a = [z3.Int(n) for n in ('a1', 'a2', 'b1', 'b2')]
        mk = lambda x, y: E.newcell(st, N('struct', {'first': ident(x, HIT), 'second': ident(y, HIT)}, 'std::pair<bliss::hit, bliss::hit>'))
        out = []

        def post(E, s, r):
            out.append((list(s.pc), r))
            return [('order-decided', z3.BoolVal(is_z(r)))]
        res['x'] = (a, out)
        return {'this': E.newcell(st, N('struct', {}, 'cmp')), 'args': [mk(a[0], a[1]), mk(a[2], a[3])], 'post': post}
    S.function('hit_distance::hit_pair_comparator::operator()', build, contracts=C, name='order_of_pairs')
    if 'x' in res and res['x'][1]:
        a, out = res['x']

        def lt(p, q):
            f = z3.Or([z3.And(pc + [r]) for pc, r in out])
            return z3.substitute(f, *[(x, y) for x, y in zip(a, list(p) + list(q))])
        p, q, r = [(z3.Int(n + '1'), z3.Int(n + '2')) for n in 'pqr']
        S.lemma('order_of_pairs/irreflexive', z3.Not(lt(p, p)))
        S.lemma('order_of_pairs/asymmetric', z3.Implies(lt(p, q), z3.Not(lt(q, p))))
        S.lemma('order_of_pairs/transitive', z3.Implies(z3.And(lt(p, q), lt(q, r)), lt(p, r)))
        S.lemma('order_of_pairs/incomparable-transitive', z3.Implies(z3.And(z3.Not(lt(p, q)), z3.Not(lt(q, p)), z3.Not(lt(q, r)), z3.Not(lt(r, q))), z3.And(z3.Not(lt(p, r)), z3.Not(lt(r, p)))))
        S.lemma('order_of_pairs/equivalent-only-if-same-hits', z3.Implies(z3.And(z3.Not(lt(p, q)), z3.Not(lt(q, p))), z3.Or(z3.And(p[0] == q[0], p[1] == q[1]), z3.And(p[0] == q[1], p[1] == q[0]))))

    # the functor: every distance remembered is the distance of its pair
    KEY = z3.Function('entry_of', I, I, I)      # equivalence class of a pair under the order above: symmetric
    k_ = lambda p: KEY(lo(p), hi(p))
    C2 = {}

    def pid(E, s, v):
        return [rank(E, s, x) for x in pair(E, s, v)]
    C2['std::make_pair'] = lambda E, st, e: E.bind(stdlib.vals_any(E, e['a'], st), lambda s, vs: [(s, N('struct', {'first': rd(E, s, vs[0]), 'second': rd(E, s, vs[1])}, 'std::pair<bliss::hit, bliss::hit>'))])
    C2['ctor:std::pair'] = levels.ctor

    def m(f):
        return lambda E, st, e, ol: E.bind(stdlib.vals_any(E, e['a'], st), lambda s, vs: f(E, s, vs, ol, e))

    def find(E, s, vs, ol, e):
        k = pid(E, s, vs[0])
        return [(s, N('pos', {'has': E.read(s, ol)['has'][k_(k)], 'k': k_(k)}, 'place'))]

    def at(E, s, vs, ol, e):
        k = k_(pid(E, s, vs[0]))
        E.oblige(s, 'distance-remembered', E.read(s, ol)['has'][k], e['ln'], 'safety')
        return [(s, Loc(ol.cell, ol.path + ('val', k)))]

    def index(E, s, vs, ol, e):
        v = E.read(s, ol)
        k = k_(pid(E, s, vs[0]))
        E.write(s, ol, v.set(has=z3.Store(v['has'], k, True)))
        return [(s, Loc(ol.cell, ol.path + ('val', k)))]

    def ins(E, s, vs, ol, e):
        raise Unsupported('insertion into the cache')
    C2.update({'std::map::find': m(find), 'std::map::at': m(at), 'std::map::operator[]': m(index), 'std::map::end': lambda E, st, e, ol: [(st, N('pos', {'has': z3.BoolVal(False), 'k': IV(-1)}, 'place'))],
               'std::map::count': m(lambda E, s, vs, ol, e: [(s, z3.If(E.read(s, ol)['has'][k_(pid(E, s, vs[0]))], IV(1), IV(0)))]),
               'std::map::contains': m(lambda E, s, vs, ol, e: [(s, E.read(s, ol)['has'][k_(pid(E, s, vs[0]))])])})

    def place(E, st, e, ol=None):
        def f(s, vs):
            vs = ([ol] if ol is not None else []) + list(vs)
            a, b = [rd(E, s, v) for v in vs]
            same = a['has'] == b['has'] if True else None
            op = e['q'].split('operator')[-1].strip()
            return [(s, same if op == '==' else z3.Not(same))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    C2['std::operator!='] = C2['std::operator=='] = place
    C2['distance_func'] = lambda E, st, e: E.bind(stdlib.vals_any(E, e['a'], st), lambda s, vs: (E.assumptions.add('contract of distance_func: a symmetric function of two hits (verified in this check)'), [(s, D(rank(E, s, vs[0]), rank(E, s, vs[1])))])[1])
    x, y = z3.Int('hit_x'), z3.Int('hit_y')

    def build2(E, st, F):
        lifted(E, HIT)
        has, val = z3.Const('cached', z3.ArraySort(I, B)), z3.Const('cache', z3.ArraySort(I, R))
        u, v = z3.Ints('u v')
        st.pc.append(z3.ForAll([u, v], z3.Implies(has[k_((u, v))], val[k_((u, v))] == D(u, v)), patterns=[KEY(u, v)]))
        st.pc.append(z3.Implies(has[k_((x, y))], val[k_((x, y))] == D(x, y)))
        u2, v2 = z3.Ints('u2 v2')
        inj = lambda a, b: z3.Implies(k_(a) == k_(b), z3.And(lo(a) == lo(b), hi(a) == hi(b)))
        this = E.newcell(st, N('struct', {'distance_cache': N('cache', {'has': has, 'val': val}, 'cache')}, 'hit_distance'))
        E.assumptions.add('contract of std::map over a strict weak order (verified in this check): one entry per unordered pair of hits')

        def post(E, s, r):
            c = E.read(s, this)['distance_cache']
            w = lambda a, b: [z3.Implies(has[k_((a, b))], val[k_((a, b))] == D(a, b)), inj((a, b), (x, y))]
            return [('distance-of-the-two-hits', coerce(r, R) == D(x, y)),
                    ('every-distance-remembered-is-right', Q(['u', 'v'], lambda u, v: z3.Implies(c['has'][k_((u, v))], c['val'][k_((u, v))] == D(u, v)), use=w))]
        return {'this': this, 'args': [ident(x, HIT), ident(y, HIT)], 'post': post}
    S.function('hit_distance::operator()', build2, contracts=C2, name='remembered_distance')


# ------------------------------------------------------------------ the search
MIND = z3.Function('distance_to_the_first', I, AR, I, R)     # lowest distance of a hit to the first k hits of a sequence
SUMD = z3.Function('distances_to_the_first', I, AR, I, R)
SUMF = {k: z3.Function('sum_of_' + k, AR, I, R) for k in ('power', 'snr', 'drift_rate_Hz_per_sec', 'bandwidth')}


def search(S):
    HN, HA = z3.Function('number_of_hits', I, I), z3.Function('hits_of_scan', I, AR)
    SCAN, POS = z3.Function('scan_of_hit', I, I), z3.Function('position_of_hit', I, I)
    META = {k: z3.Function('scan.' + k, I, R) for k in ('tstart', 'tduration_secs', 'tsamp')}
    OFFAT = z3.Function('off_scans_before_target', I, I)
    CNT = z3.Function('hits_of_the_first_scans', AR, I, I)
    W = {}

    def dmind(h, a, k):
        d = D(h, a[k])
        return [MIND(h, a, 0) == FMAX, MIND(h, a, k + 1) == z3.If(d < MIND(h, a, k), d, MIND(h, a, k))]

    def dsumd(h, a, k):
        return [SUMD(h, a, 0) == 0, SUMD(h, a, k + 1) == SUMD(h, a, k) + D(h, a[k])]

    def dsumf(a, k):
        return [x for f in SUMF for x in (SUMF[f](a, 0) == 0, SUMF[f](a, k + 1) == SUMF[f](a, k) + OF[f](a[k]))]

    # lowest distances depend on the hits compared with only
    a, i, x, h, k = z3.Const('a', AR), z3.Int('i'), z3.Int('x'), z3.Int('h'), z3.Int('k')
    b = z3.Store(a, i, x)
    S.lemma('lowest-distance-of-a-longer-sequence/start', MIND(h, b, 0) == MIND(h, a, 0), dmind(h, a, 0) + dmind(h, b, 0))
    S.lemma('lowest-distance-of-a-longer-sequence/step', MIND(h, b, k + 1) == MIND(h, a, k + 1), [k >= 0, k < i, MIND(h, b, k) == MIND(h, a, k)] + dmind(h, a, k) + dmind(h, b, k))
    PREFIX = z3.ForAll([a, i, x, h, k], z3.Implies(z3.And(k >= 0, k <= i), MIND(h, b, k) == MIND(h, a, k)), patterns=[MIND(h, b, k)])

    C = {}

    def c_hits(E, st, e, ol):
        v = E.read(st, ol)['id']
        E.assumptions.add('contract of scan::hits: the hits of a scan (verified for P37)')
        st.pc.append(HN(v) >= 0)
        st.pc.append(HN(v) < 2 ** 31)
        return [(st, N('vec', {'len': HN(v), 'data': ident(HA(v), HIT)}, HIT))]
    C['bliss::scan::hits'] = c_hits
    for k_ in META:
        C['bliss::scan::' + k_] = lambda E, st, e, ol, k_=k_: [(st, META[k_](E.read(st, ol)['id']))]

    def c_dist(E, st, e, ol):
        def f(s, vs):
            p, q = [rd(E, s, v)['id'] for v in vs]
            E.assumptions.add('contract of the cached distance: the symmetric distance of two hits (verified in this check); distances are representable')
            s.pc.append(z3.And(D(p, q) >= 0, D(p, q) < FMAX))
            return [(s, D(p, q))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    C['hit_distance::operator()'] = c_dist
    C['ctor:hit_distance'] = lambda E, st, e: [(st, N('struct', {}, 'hit_distance'))]
    C['default:hit_distance'] = lambda E, t: N('struct', {}, 'hit_distance')
    C['fmt::print'] = stdlib.ignore_str

    def c_erase(E, st, e, ol):
        def f(s, vs):
            v, p = E.read(s, ol), rd(E, s, vs[0])
            same = p.loc is not None and str(p.loc) == str(ol)
            E.oblige(s, 'erases-a-hit-of-this-list', z3.And(z3.BoolVal(same), p.idx >= 0, p.idx < v['len']) if same else z3.BoolVal(False), e['ln'], 'safety')
            n = z3.Const(E.fresh_name('rest'), AR)
            j = z3.Int('j!er')
            o = v['data']['id']
            s.pc.append(z3.ForAll([j], n[j] == z3.If(j < p.idx, o[j], o[j + 1]), patterns=[n[j]]))
            E.write(s, ol, v.set(len=v['len'] - 1, data=ident(n, HIT)))
            return [(s, Ptr(ol, p.idx))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    C['std::list::erase'] = c_erase

    def c_iter(E, st, e):
        if e['a']:
            return E.bind(stdlib.vals_ptr(E, e['a'], st), lambda s, vs: [(s, rd(E, s, vs[0]))])
        fr = st.frames[-1]
        ol = None
        for nm, key in fr.names.items():
            if nm == 'hits_to_check' and key in fr.env:
                ol = fr.env[key]
        if ol is None:
            raise Unsupported('iterator without its list')
        return [(st, Ptr(ol, z3.Int(E.fresh_name('singular'))))]
    C['ctor:std::_List_iterator'] = C['ctor:std::_List_const_iterator'] = c_iter

    def build(E, st, F):
        for t in (HIT, SC):
            lifted(E, t)
        E.opts['virtual'] = {(HIT, k): (lambda v, k=k: OF[k](v['id'])) for k in SORTS}
        cad = E.fresh(CA, 'cadence')
        T = cad['_observations']
        W['T'] = T
        nt = W['nt'] = T['len']
        W['n'] = n = T['data']['_scans']['len'][0]
        W['SA'] = SA = T['data']['_scans']['data']['id'][0]
        j, p, t = z3.Ints('j p t')
        oa = z3.Const('off', AR)
        st.pc += [nt >= 1, nt < 2 ** 31, n >= 0, n < 2 ** 31, OFFAT(1) == 0, PREFIX,
                  z3.ForAll([oa, t], CNT(oa, t) < 2 ** 31, patterns=[CNT(oa, t)]),
                  z3.ForAll([t], z3.And(T['data']['_scans']['len'][t] >= 0, T['data']['_scans']['len'][t] < 2 ** 31), patterns=[T['data']['_scans']['len'][t]])]
        # identities: where a hit occurs
        st.pc.append(z3.ForAll([j, p], z3.Implies(z3.And(j >= 0, j < n), z3.And(SCAN(HA(SA[j])[p]) == j, POS(HA(SA[j])[p]) == p)), patterns=[HA(SA[j])[p]]))
        E.assumptions.add('preconditions: a cadence with at least one target, and fewer than 2^31 hits in its off scans together; hits are identified by where they occur')

        def post(E, s, r):
            V = view_events(r)
            return events_ok(V, W['n']) + [
                ('absent-from-every-off-scan', Q(['e', 't', 'c', 'q'], lambda e, t, c, q: z3.Implies(z3.And(e >= 0, e < V['n'], t >= 1, t < nt, c >= 0, c < scans(t), q >= 0, q < HN(scan(t, c))),
                                                                                                  SUMD(HA(scan(t, c))[q], V['arr'](e), V['len'](e)) >= 50 * z3.ToReal(V['len'](e))),
                                                 use=lambda e, t, c, q: [z3.Implies(z3.And(e >= 0, e < V['n'], t >= 1, t < nt, c >= 0, c < scans(t), q >= 0, q < HN(scan(t, c))),
                                                                                    z3.And(W['off'](OFFAT(t) + c) == scan(t, c), OFFAT(t) + c >= 0))] if False else []))]
        return {'args': [cad], 'post': post}
    scans = lambda t: W['T']['data']['_scans']['len'][t]
    scan = lambda t, c: W['T']['data']['_scans']['data']['id'][t][c]

    def view_events(r):
        d = r['data']
        return {'n': r['len'], 'len': lambda e: d['hits']['len'][e], 'arr': lambda e: d['hits']['data']['id'][e], 'f': lambda k, e: d[k][e]}

    def is_hit(h):
        s, p = SCAN(h), POS(h)
        return z3.And(s >= 0, s < W['n'], p >= 0, p < HN(W['SA'][s]), HA(W['SA'][s])[p] == h)

    def events_ok(V, upto):
        n_, ln, ar = V['n'], V['len'], V['arr']
        ev = lambda e: z3.And(e >= 0, e < n_)
        hk = lambda e, k: z3.And(ev(e), k >= 0, k < ln(e))
        first = lambda e: ar(e)[0]
        avg = {'average_power': 'power', 'average_snr': 'snr', 'average_drift_rate_Hz_per_sec': 'drift_rate_Hz_per_sec', 'average_bandwidth': 'bandwidth'}
        day = 86400
        out = [('at-least-two-hits', Q(['e'], lambda e: z3.Implies(ev(e), ln(e) >= 2), pats=lambda e: ln(e))),
               ('hits-of-the-on-target', Q(['e', 'k'], lambda e, k: z3.Implies(hk(e, k), is_hit(ar(e)[k])), pats=lambda e, k: ar(e)[k])),
               ('one-hit-per-scan-in-order', Q(['e', 'k', 'l'], lambda e, k, l: z3.Implies(z3.And(hk(e, k), l > k, l < ln(e)), SCAN(ar(e)[k]) < SCAN(ar(e)[l])), pats=lambda e, k, l: [[ar(e)[k], ar(e)[l]]])),
               ('no-hit-in-two-events', Q(['e', 'k', 'f', 'l'], lambda e, k, f, l: z3.Implies(z3.And(hk(e, k), hk(f, l), e < f), ar(e)[k] != ar(f)[l]), pats=lambda e, k, f, l: [[ar(e)[k], ar(f)[l]]])),
               ('every-hit-near-an-earlier-one', Q(['e', 'k'], lambda e, k: z3.Implies(z3.And(hk(e, k), k >= 1), MIND(ar(e)[k], ar(e), k) < 50), pats=lambda e, k: ar(e)[k]))]
        for m, f in avg.items():
            out.append((m, Q(['e'], lambda e, m=m, f=f: z3.Implies(ev(e), V['f'](m, e) * z3.ToReal(ln(e)) == SUMF[f](ar(e), ln(e))), pats=lambda e, m=m: V['f'](m, e))))
        sc = lambda e: W['SA'][SCAN(first(e))]
        out.append(('starts-at-its-first-hit', Q(['e'], lambda e: z3.Implies(ev(e), z3.And(V['f']('starting_frequency_Hz', e) == OF['start_freq_MHz'](first(e)) * 10 ** 6, V['f']('event_start_seconds', e) == META['tstart'](sc(e)) * day,
                                                                               V['f']('event_end_seconds', e) == META['tstart'](sc(e)) * day + META['tduration_secs'](sc(e)))), pats=lambda e: first(e))))
        return out

    # ------------------------------------------------------------ invariants
    def lists(c):
        L = c['on_scan_hits']
        d = L['data']
        return {'n': L['len'], 'len': lambda j: d['len'][j], 'at': lambda j, p: d['data']['id'][j][p]}

    def cand(c):
        h = c['candidate_event']['hits']
        return h['len'], h['data']['id']

    def idx(c, nm):
        return c['__idx_' + nm]

    def lists_ok(L):
        n = W['n']
        inl = lambda j, p: z3.And(j >= 0, j < n, p >= 0, p < L['len'](j))
        return [('as-many-lists', L['n'] == n),
                ('list-lengths', Q(['j'], lambda j: z3.Implies(z3.And(j >= 0, j < n), L['len'](j) >= 0), pats=lambda j: L['len'](j))),
                ('lists-hold-hits-of-their-scan', Q(['j', 'p'], lambda j, p: z3.Implies(inl(j, p), z3.And(is_hit(L['at'](j, p)), SCAN(L['at'](j, p)) == j)), pats=lambda j, p: L['at'](j, p))),
                ('lists-in-order', Q(['j', 'p', 'q'], lambda j, p, q: z3.Implies(z3.And(inl(j, p), inl(j, q), p < q), POS(L['at'](j, p)) < POS(L['at'](j, q))), pats=lambda j, p, q: [[L['at'](j, p), L['at'](j, q)]]))]

    def off(c):
        o = c['off_scans']
        return o['len'], o['data']['id']

    def off_ok(c):
        n, a = off(c)
        nt = W['nt']
        W['off'] = lambda o: a[o]
        return [('off-scans', Q(['t', 's'], lambda t, s: z3.Implies(z3.And(t >= 1, t < nt, s >= 0, s < scans(t)), z3.And(OFFAT(t) + s >= 0, OFFAT(t) + s < n, a[OFFAT(t) + s] == scan(t, s))), pats=lambda t, s: scan(t, s)))]

    def absent(V, c):
        n, a = off(c)
        return [('absent-from-off-scans', Q(['e', 'o', 'q'], lambda e, o, q: z3.Implies(z3.And(e >= 0, e < V['n'], o >= 0, o < n, q >= 0, q < HN(a[o])), SUMD(HA(a[o])[q], V['arr'](e), V['len'](e)) >= 50 * z3.ToReal(V['len'](e))),
                                            pats=lambda e, o, q: SUMD(HA(a[o])[q], V['arr'](e), V['len'](e))))]

    def unused(c, L, V, i, first):
        """hits still to be used (later lists, or this one from position first) are in no event"""
        free = lambda j, p: z3.And(j < W['n'], p >= 0, p < L['len'](j), z3.Or(j > i, z3.And(j == i, p >= first)), j >= 0)
        return [('events-use-up-their-hits', Q(['e', 'k', 'j', 'p'], lambda e, k, j, p: z3.Implies(z3.And(e >= 0, e < V['n'], k >= 0, k < V['len'](e), free(j, p)), V['arr'](e)[k] != L['at'](j, p)),
                                               pats=lambda e, k, j, p: [[V['arr'](e)[k], L['at'](j, p)]]))]

    def m0(c):      # hits of every scan of the on target
        i, L, n = idx(c, 'scan'), c['on_scan_hits'], W['n']
        return [('range', z3.And(i >= 0, i <= n, L['len'] == i)), ('hits-of-the-scans', Q(['j'], lambda j: z3.Implies(z3.And(j >= 0, j < i), z3.And(L['data']['len'][j] == HN(W['SA'][j]), L['data']['data']['id'][j] == HA(W['SA'][j]), HN(W['SA'][j]) >= 0)), pats=lambda j: L['data']['len'][j])),
                ]

    def before(t):
        return [OFFAT(1) == 0, OFFAT(t + 1) == OFFAT(t) + scans(t)]

    def offs_so_far(c, ii, extra):
        n, a = off(c)
        z = z3.If(ii >= 1, ii, IV(1))
        return [('targets', z3.And(ii >= 0, ii <= W['nt'])), ('off-scans-so-far', Q([], lambda: z3.And(n == OFFAT(z) + extra, n >= 0), use=lambda: before(z) + before(z - 1) + before(ii) + before(ii - 1))),
                ('each-off-scan', Q(['t', 's'], lambda t, s: z3.Implies(z3.And(t >= 1, t < ii, s >= 0, s < scans(t)), z3.And(OFFAT(t) + s >= 0, OFFAT(t) + s < OFFAT(z), a[OFFAT(t) + s] == scan(t, s))), pats=lambda t, s: scan(t, s),
                                    use=lambda t, s: before(z) + before(z - 1) + before(ii) + before(ii - 1) + before(t)))]

    def m1(c):
        return offs_so_far(c, c['ii'], IV(0))

    def m2(c):
        ii, s_ = c['ii'], idx(c, 'target_scan')
        n, a = off(c)
        return offs_so_far(c, ii, s_)[1:] + [('range', z3.And(s_ >= 0, s_ <= scans(ii), OFFAT(ii) >= 0)), ('of-this-target', Q(['s'], lambda s: z3.Implies(z3.And(s >= 0, s < s_), a[OFFAT(ii) + s] == scan(ii, s)), pats=lambda s: scan(ii, s)))]

    def main(c, i, first):
        L, V = lists(c), view_events(c['detected_events'])
        return [('events', V['n'] >= 0)] + lists_ok(L) + events_ok(V, i) + absent(V, c) + unused(c, L, V, i, first)

    def m3(c):
        i = c['on_scan_index']
        return [('range', z3.And(i >= 0, i <= W['n']))] + main(c, i, IV(0))

    def m4(c):
        i, f = c['on_scan_index'], idx(c, 'starting_hit')
        L = lists(c)
        return [('range', z3.And(f >= 0, f <= L['len'](i))), ('this-list-stays', L['len'](i) == c.old('on_scan_hits')['data']['len'][i])] + main(c, i, f)

    def cand_ok(c, i, m):
        n, a = cand(c)
        V = view_events(c['detected_events'])
        return [('candidate-size', n >= 1), ('candidate-hits', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < n), z3.And(is_hit(a[k]), SCAN(a[k]) >= i, SCAN(a[k]) < m)), pats=lambda k: a[k])),
                ('candidate-order', Q(['k', 'l'], lambda k, l: z3.Implies(z3.And(k >= 0, k < l, l < n), SCAN(a[k]) < SCAN(a[l])), pats=lambda k, l: [[a[k], a[l]]])),
                ('candidate-near', Q(['k'], lambda k: z3.Implies(z3.And(k >= 1, k < n), MIND(a[k], a, k) < 50), pats=lambda k: a[k])),
                ('candidate-not-in-events', Q(['e', 'k', 'l'], lambda e, k, l: z3.Implies(z3.And(e >= 0, e < V['n'], k >= 0, k < V['len'](e), l >= 0, l < n), V['arr'](e)[k] != a[l]), pats=lambda e, k, l: [[V['arr'](e)[k], a[l]]]))]

    def m5(c):
        i, m, f = c['on_scan_index'], c['matching_scan_index'], idx(c, 'starting_hit')
        L, V = lists(c), view_events(c['detected_events'])
        n, a = cand(c)
        d0 = c.old('on_scan_hits')['data']
        n0, a0 = c.old('candidate_event')['hits']['len'], c.old('candidate_event')['hits']['data']['id']
        free = lambda j, p: z3.And(j < W['n'], p >= 0, p < L['len'](j), z3.Or(j > i, z3.And(j == i, p > f)), j >= 0)
        return [('range', z3.And(m > i, m <= z3.If(W['n'] > i, W['n'], i + 1))), ('starting-hit', a[0] == a0[0]), ('this-list-stays', z3.And(L['len'](i) == d0['len'][i])), ('this-list-content', Q(['p'], lambda p: L['at'](i, p) == d0['data']['id'][i][p], pats=lambda p: L['at'](i, p)))] + lists_ok(L) + cand_ok(c, i, m) + unused(c, L, V, i, f) + [
            ('candidate-uses-up-its-hits', Q(['k', 'j', 'p'], lambda k, j, p: z3.Implies(z3.And(k >= 0, k < n, free(j, p)), a[k] != L['at'](j, p)), pats=lambda k, j, p: [[a[k], L['at'](j, p)]]))]

    def m6(c):
        m = c['matching_scan_index']
        L = lists(c)
        n, a = cand(c)
        it, best, bd = c['candidate_matching_hit'].idx, c['best_matching_hit'].idx, c['best_distance_to_a_hit']
        h = lambda p: L['at'](m, p)
        return [('range', z3.And(it >= 0, it <= L['len'](m), bd <= FMAX)), ('best-is-a-hit-of-the-list', z3.Implies(bd < FMAX, z3.And(best >= 0, best < it, bd == MIND(h(best), a, n)))),
                ('none-nearer', Q(['p'], lambda p: z3.Implies(z3.And(p >= 0, p < it), bd <= MIND(h(p), a, n)), pats=lambda p: h(p))),
                ('first-of-the-nearest', Q(['p'], lambda p: z3.Implies(z3.And(bd < FMAX, p >= 0, p < best), MIND(h(p), a, n) > bd), pats=lambda p: h(p)))]

    def m7(c):
        k, (n, a) = idx(c, 'hit_in_event'), cand(c)
        h = c.cell(c['candidate_matching_hit'].target())['id']
        d = c['lowest_distance_to_event']
        return [('range', z3.And(k >= 0, k <= n)), ('lowest-so-far', Q([], lambda: z3.And(d == MIND(h, a, k), d <= FMAX), use=lambda: dmind(h, a, k) + dmind(h, a, k - 1) + dmind(h, a, 0)))]

    def good(c, o, q):
        n, a = cand(c)
        _, x = off(c)
        return SUMD(HA(x[o])[q], a, n) >= 50 * z3.ToReal(n)

    def seen(c, o, q0):
        no, x = off(c)
        n, a = cand(c)
        t = c['times_event_in_off']
        count = lambda k: [CNT(x, 0) == 0, CNT(x, k + 1) == CNT(x, k) + HN(x[k]), HN(x[k]) >= 0]
        return [('times', Q([], lambda: z3.And(t >= 0, t <= CNT(x, o) + q0), use=lambda: count(o) + count(o - 1) + count(IV(0)))), ('absent-so-far', Q(['o', 'q'], lambda o_, q: z3.Implies(z3.And(t == 0, o_ >= 0, q >= 0, q < HN(x[o_]), z3.Or(o_ < o, z3.And(o_ == o, q < q0)), o_ < no), good(c, o_, q)), pats=lambda o_, q: SUMD(HA(x[o_])[q], a, n)))]

    def m8(c):
        o = idx(c, 'off_scan')
        no, x = off(c)
        return [('range', z3.And(o >= 0, o <= no))] + seen(c, o, IV(0))

    def m9(c):
        o, q = idx(c, 'off_scan'), idx(c, 'off_hit')
        no, x = off(c)
        return [('range', z3.And(q >= 0, q <= HN(x[o]))), ('hits-so-far', Q([], lambda: CNT(x, o) + HN(x[o]) < 2 ** 31, use=lambda: [CNT(x, o + 1) == CNT(x, o) + HN(x[o])]))] + seen(c, o, q)

    def m10(c):
        k, (n, a) = idx(c, 'event_hit'), cand(c)
        h = c['off_hit']['id']
        return [('range', z3.And(k >= 0, k <= n)), ('sum-so-far', Q([], lambda: c['distance_to_event_hits'] == SUMD(h, a, k), use=lambda: dsumd(h, a, k) + dsumd(h, a, k - 1) + dsumd(h, a, 0)))]

    def m11(c):
        k, (n, a) = idx(c, 'hit_in_event'), cand(c)
        ev = c['candidate_event']
        sums = lambda: z3.And([ev[m] == SUMF[f](a, k) for m, f in (('average_power', 'power'), ('average_snr', 'snr'), ('average_drift_rate_Hz_per_sec', 'drift_rate_Hz_per_sec'), ('average_bandwidth', 'bandwidth'))])
        return [('range', z3.And(k >= 0, k <= n)), ('sums-so-far', Q([], sums, use=lambda: dsumf(a, k) + dsumf(a, k - 1) + dsumf(a, 0)))]
    kinds = ['Range', 'For', 'Range', 'For', 'Range', 'For', 'For', 'Range', 'Range', 'Range', 'Range', 'Range']
    ms = [m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11]
    S.function('bliss::event_search', build, contracts=C, loops={i: m for i, m in enumerate(ms)}, opts={'name_big': 100000}, name='search')

"""hits, channels, scans, targets and cadences to cap'n proto messages and back (bliss/file_types/detail/cpnp_hit_builder.cpp)

A message is ghost state: a builder or reader refers to a record of field values.  Every generated setter and getter is under
contract by its name and parameter type: what is set is what is got, and a field stored in single precision holds F32 of
the value (F32 is uninterpreted except that rounding twice is rounding once and single precision values are unchanged), so
a value that loses precision in its field cannot be proved to survive.  The writer is executed first; the messages it leaves
(one per path) are the inputs the reader is verified on.  From the channels upward the elements carry identities, and the
functions of the level below are ENC and DEC of them."""
import re
import z3
from dv.session import Q
from dv.engine import IV, RV, I, R, B, N, Ptr, Loc, Opq, Unsupported, leaves, is_z
from dv import stdlib
from . import levels, loopkit

SRC = 'bliss/file_types/detail/cpnp_hit_builder.cpp'
MSGS = ('Signal', 'Filterbank', 'CoarseChannel', 'Scan', 'ObservationTarget', 'Cadence', 'Hit', 'Event')
STOPS = [r'^(%s)::' % '|'.join(MSGS), r'^capnp::', r'^kj::']
UNITS = [(SRC, [r'^bliss::detail::'], STOPS + [r'^bliss::coarse_channel::[^c]', r'^bliss::coarse_channel::ctor', r'^bliss::scan::']),
         ('bliss/core/coarse_channel.cpp', [r'^bliss::coarse_channel::(ctor|fch1|foff|nchans|ntsteps|source_name|src_dej|src_raj|telescope_id|tsamp|tstart|hits|set_hits|machine_id|nbits|nifs|data_type|az_start|za_start)\('], [r'^bland::']),
         ('bliss/core/scan.cpp', [r'^bliss::scan::(ctor\(std::map|fch1|foff|nchans|ntsteps|source_name|src_dej|src_raj|telescope_id|tsamp|tstart|get_number_coarse_channels|set_fch1|set_foff|set_source_name|set_src_dej|set_src_raj|set_telescope_id|set_tsamp|set_tstart|set_nchans)'], [r'^bland::', r'^bliss::h5', r'^bliss::coarse_channel::'])]
D = 'bliss::detail::'
CC, SC, TG, CA, HIT = levels.CC, levels.SC, levels.TG, levels.CA, 'bliss::hit'
F32 = z3.Function('single_precision', R, R)
ENC = {t: z3.Function('message_of_' + t.split('::')[1], I, I) for t in (HIT, CC, SC, TG)}
DEC = {t: z3.Function(t.split('::')[1] + '_of_message', I, I) for t in (HIT, CC, SC, TG)}
rd = levels.rd


def f32(E, s, x):
    x = z3.ToReal(x) if z3.is_int(x) else x
    y = F32(x)
    s.pc += [F32(y) == y, F32(RV(0)) == 0]
    return y


def rec(**kw):
    return N('struct', kw, 'message')


def handle(loc):
    return N('struct', {'at': Ptr(loc, None)}, 'capnp')


def at(E, s, h):
    h = rd(E, s, h)
    if not (isinstance(h, N) and 'at' in h.f):
        raise Unsupported('message handle %r' % (h,))
    return h['at'].loc


def lower(n):
    return n[0].lower() + n[1:]


def walk(n, f):
    if isinstance(n, dict):
        f(n)
        for v in n.values():
            walk(v, f)
    elif isinstance(n, list):
        for v in n:
            walk(v, f)


def messages(P):
    """contracts of every generated accessor the program uses"""
    C = {}
    acc = set()

    def see(n):
        if n.get('k') in ('MCall', 'OpCall', 'Call', 'Ctor') and n.get('q'):
            acc.add((n['q'], n.get('fn') if isinstance(n.get('fn'), str) else n['q']))
    for F in P['functions'].values():
        walk(F['body'], see)
    for q, fn in acc:
        m = re.match(r'^(%s)::(Builder|Reader)::(set|get|init|has)(\w+)$' % '|'.join(MSGS), q)
        if m:
            C[q] = accessor(m.group(3), lower(m.group(4)), fn)
        elif re.match(r'^capnp::List<.*>::(Builder|Reader)::operator\[\]$', q):
            C[q] = index
        elif re.match(r'^capnp::List<.*>::(Builder|Reader)::size$', q):
            C[q] = lambda E, st, e, ol: [(st, lenof(E, st, ol))]
        elif q.startswith('kj::StringPtr::conv') or q.startswith('kj::StringPtr::operator'):
            C[q] = text
    C['ctor:capnp::Text::Reader'] = levels.ctor
    for t in MSGS:
        for k in ('Builder', 'Reader'):
            C['ctor:%s::%s' % (t, k)] = levels.ctor
    return C


def text(E, st, e, ol):
    v = rd(E, st, ol)
    return [(st, rd(E, st, v['at'].loc) if isinstance(v, N) and 'at' in v.f else v)]


def lenof(E, s, ol):
    v = E.read(s, at(E, s, ol))
    if not (isinstance(v, N) and v.kind == 'vec'):
        raise Unsupported('size of %r' % (v,))
    return v['len']


def index(E, st, e, ol):
    def f(s, vs):
        l = at(E, s, ol)
        v = E.read(s, l)
        i = rd(E, s, vs[0])
        if not (isinstance(v, N) and v.kind == 'vec'):
            raise Unsupported('element of %r' % (v,))
        E.oblige(s, 'message-list-index-in-range', z3.And(i >= 0, i < v['len']), e['ln'], 'safety')
        return [(s, handle(Loc(l.cell, l.path + (i,))))]
    return E.bind(stdlib.vals_any(E, e['a'], st), f)


def accessor(kind, field, fn):
    ptypes = fn[fn.index('(') + 1:fn.rindex(')')] if '(' in fn else ''

    def put(E, s, loc, v):
        m = E.read(s, loc)
        E.write(s, loc, m.setk(field, v))

    def h(E, st, e, ol):
        def f(s, vs):
            loc = at(E, s, ol)
            m = E.read(s, loc)
            if not (isinstance(m, N) and m.meta == 'message'):
                raise Unsupported('field %s of %r' % (field, m))
            if kind == 'set':
                v = rd(E, s, vs[0])
                if ptypes == 'float':
                    v = f32(E, s, v)
                put(E, s, loc, v)
                return [(s, None)]
            if kind == 'init':
                if vs:
                    n = rd(E, s, vs[0])
                    E.oblige(s, 'list-length-not-negative', n >= 0, e['ln'], 'safety')
                    put(E, s, loc, N('vec', {'len': n, 'data': N('struct', {'id': z3.Const(E.fresh_name('empty'), z3.ArraySort(I, I))}, 'message')}))
                else:
                    put(E, s, loc, rec())
                return [(s, handle(loc.fld(field)))]
            if kind == 'has':
                return [(s, z3.BoolVal(field in m.f))]
            if field not in m.f:     # never set: the default of the schema (zero)
                t = e.get('t', '')
                if t in ('double', 'float'):
                    return [(s, RV(0))]
                if t in ('int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'unsigned char', 'signed char'):
                    return [(s, IV(0))]
                raise Unsupported('default of %s %s' % (t, field))
            v = m[field]
            if isinstance(v, N) and (v.kind == 'vec' or v.meta == 'message'):
                return [(s, handle(loc.fld(field)))]
            return [(s, v)]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    return h


FIELDS = ['start_freq_index', 'start_freq_MHz', 'start_time_sec', 'duration_sec', 'rate_index', 'drift_rate_Hz_per_sec', 'power', 'time_span_steps', 'snr', 'bandwidth', 'binwidth', 'coarse_channel_number']
SINGLE = {'power', 'duration_sec'}
NARROW = ['start_freq_index', 'rate_index', 'time_span_steps', 'coarse_channel_number']


def rename(t, pre):
    """fresh names of one verification kept apart from those of another"""
    m = {}

    def go(x, seen=set()):
        if x.get_id() in m:
            return
        m[x.get_id()] = None
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in x.decl().name():
            m[x.get_id()] = (x, z3.Const(pre + x.decl().name(), x.sort()))
        if z3.is_quantifier(x):
            go(x.body())
        for y in x.children():
            go(y)
    go(t)
    return z3.substitute(t, *[v for v in m.values() if v]) if any(m.values()) else t


def plainname(t):
    return z3.Const(t.decl().name().replace('!', '.'), t.sort()) if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED else t


def tree(v, f):
    if isinstance(v, N):
        return N(v.kind, {k: tree(x, f) for k, x in v.f.items()}, v.meta)
    return f(v) if z3.is_expr(v) else v


class Writer:
    """the messages left by a writer, one per path"""
    def __init__(self):
        self.paths = []

    def keep(self, E, s, cell):
        m = E.read(s, cell)
        self.paths.append((tree(m, lambda t: rename(t, 'w.')), [rename(p, 'w.') for p in s.pc if z3.is_expr(p)]))


OPT = {'f32': lambda E, s, v: f32(E, s, v)}


def verify(S):
    C = messages(S.P)

    # ------------------------------------------------------------ one hit
    def the_hit(E, st):
        h = E.default(HIT)
        d = dict(h.f)
        for f in FIELDS:
            d[f] = (z3.Int if f in ('binwidth',) + tuple(NARROW) else z3.Real)('hit.' + f)
        for f in NARROW:
            st.pc += [d[f] >= -2 ** 31, d[f] < 2 ** 31]
        st.pc += [d['binwidth'] >= 0, d['binwidth'] <= 2 ** 24, F32(z3.ToReal(d['binwidth'])) == z3.ToReal(d['binwidth'])]
        st.pc += [F32(d['snr']) == d['snr'], F32(d['bandwidth']) == d['bandwidth'], F32(RV(0)) == 0]
        E.assumptions.add('preconditions: channel index, rate index, time steps and coarse channel number fit in 32 bits, bin width up to 2^24')
        E.assumptions.add('contracts of the generated cap\'n proto accessors: a field holds what was set, rounded if stored in single precision; fields never set are zero (validated by the harness)')
        return N(h.kind, d, h.meta)
    W = Writer()

    def b_w(E, st, F):
        h = the_hit(E, st)
        cell = E.newcell(st, rec())

        def post(E, s, r):
            W.keep(E, s, cell)
            return [('writes', z3.BoolVal(True))]
        return {'args': [E.newcell(st, handle(cell)), h], 'post': post}
    S.function(D + 'bliss_hit_to_capnp_signal_message', b_w, contracts=C, opts=OPT, name='hit_to_message')

    def b_r(i):
        def build(E, st, F):
            m, pc = W.paths[i]
            h = the_hit(E, st)
            st.pc += pc
            cell = E.newcell(st, m)

            def post(E, s, r):
                r = rd(E, s, r)
                out = []
                for f in FIELDS:
                    x, y = r[f], h[f]
                    out.append(('same-' + f, z3.Or(x == y, x == F32(y)) if f in SINGLE else x == y))
                return out
            return {'args': [E.newcell(st, handle(cell))], 'post': post}
        return build
    for i in range(len(W.paths)):
        S.function(D + 'capnp_signal_message_to_bliss_hit', b_r(i), contracts=C, opts=OPT, name='message_to_hit%s' % (i or ''), after=(D + 'bliss_hit_to_capnp_signal_message',))

    # ------------------------------------------------------------ the levels above: elements carry identities
    def arr(nm):
        return z3.Const(nm, z3.ArraySort(I, I))

    def ids(n, a, t='message'):
        return N('vec', {'len': n, 'data': N('struct', {'id': a}, t)})

    def enc(t):
        def h(E, st, e):
            def f(s, vs):
                loc = at(E, s, vs[0])
                x = rd(E, s, vs[1])
                m = E.read(s, loc)
                if not (isinstance(x, N) and 'id' in x.f):
                    raise Unsupported('%s written without identity' % t)
                E.write(s, loc, m.setk('id', ENC[t](x['id'])))
                E.assumptions.add('contract of the conversion of a %s to and from a message as functions of it (verified in this module)' % t.split('::')[1])
                return [(s, None)]
            return E.bind(stdlib.vals_any(E, e['a'], st), f)
        return h

    def dec(t):
        def h(E, st, e):
            def f(s, vs):
                m = E.read(s, at(E, s, vs[0]))
                if not (isinstance(m, N) and 'id' in m.f):
                    raise Unsupported('message %r read as %s' % (m, t))
                return [(s, levels.ident(DEC[t](m['id']), t))]
            return E.bind(stdlib.vals_any(E, e['a'], st), f)
        return h

    def opaque(E, *ts):
        for t in ts:
            levels.opaque(E, t)
            E.C['ctor:' + t] = levels.ctor
            E.C[t + '::operator='] = levels.assign

    PAIRS = {HIT: ('bliss_hit_to_capnp_signal_message', 'capnp_signal_message_to_bliss_hit'),
             CC: ('bliss_coarse_channel_to_capnp_coarse_channel_message', 'capnp_coarse_channel_message_to_bliss_coarse_channel'),
             SC: ('bliss_scan_to_capnp_scan', 'capnp_scan_message_to_bliss_scan'),
             TG: ('bliss_observation_target_to_capnp_observation_target_message', 'capnp_observation_target_message_to_bliss_observation_target'),
             CA: ('bliss_cadence_to_capnp_cadence_message', 'capnp_cadence_message_to_cadence')}

    def others(E, a, b, skip):
        fa = [(p, x) for k, v in a.f.items() if k != skip for p, x in leaves(N('struct', {k: v}))]
        fb = dict((p, x) for k, v in b.f.items() if k != skip for p, x in leaves(N('struct', {k: v})))
        if set(p for p, _ in fa) != set(fb):
            return z3.BoolVal(False)
        return z3.And([x == fb[p] for p, x in fa if z3.is_expr(x)] + [z3.BoolVal(True)])

    def writer_loop(L, t):
        """L: cell, n, src"""
        def match(E, n, st, ordn):
            def inv(c):
                i, facts = loopkit.counter(c)
                m, m0 = c.cell(L['cell']), c.oldcell(L['cell'])
                names = [k for k, v in m0.f.items() if isinstance(v, N) and v.kind == 'vec']
                if len(names) != 1 or names[0] not in m.f:
                    raise Unsupported('no list in the message')
                v, v0 = m[names[0]], m0[names[0]]
                return [('range', z3.And([i >= 0, i <= L['n'], v['len'] == v0['len'], v['len'] == L['n']] + facts)), ('rest-of-message', others(E, m, m0, names[0])),
                        ('written', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < i), v['data']['id'][k] == ENC[t](L['src'][k])), pats=lambda k: v['data']['id'][k]))]
            return inv
        return {'match': match}

    def reader_loop(L, t, find):
        """find(c) -> the list being built (a vec with identities, or a map)"""
        def match(E, n, st, ordn):
            def inv(c):
                i, facts = loopkit.counter(c)
                v = find(c)
                a = v['data']['id'] if v.kind == 'vec' else v['id']
                out = [('range', z3.And([i >= 0, i <= L['n'], v['len'] == i] + facts)),
                       ('read', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < i), a[k] == DEC[t](L['src'][k])), pats=lambda k: a[k]))]
                if v.kind != 'vec':
                    out.append(('keys', Q(['k'], lambda k: v['has'][k] == z3.And(k >= 0, k < i), pats=lambda k: v['has'][k])))
                return out
            return inv
        return {'match': match}

    def find_var(ok):
        def f(c):
            for fr in reversed(c.st.frames):
                for nm, key in fr.names.items():
                    if key in fr.env:
                        try:
                            x = c.E.read(c.st, fr.env[key])
                        except Exception:
                            continue
                        x = ok(x)
                        if x is not None:
                            return x
            raise Unsupported('the list being built is not recognised')
        return f

    # ------------------------------------------------------------ channel
    META = ['_fch1', '_foff', '_nchans', '_ntsteps', '_source_name', '_src_dej', '_src_raj', '_telescope_id', '_tsamp', '_tstart', '_coarse_channel_number']
    CMET = ['_nchans', '_ntsteps', '_telescope_id', '_coarse_channel_number']

    def c_hits(E, st, e, ol):
        v = E.read(st, ol)
        p = v['_hits']
        if not isinstance(p, Ptr) or p.null:
            raise Unsupported('hits of a channel without hits')
        E.assumptions.add('contracts of coarse_channel::hits and set_hits: the hits held (proved under P27)')
        return [(st, E.read(st, p.loc))]

    def c_set_hits(E, st, e, ol):
        def f(s, vs):
            E.write(s, ol.fld('_hits'), Ptr(E.newcell(s, rd(E, s, vs[0])), None))
            return [(s, None)]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)

    def nd(E):
        for b in ('bland::ndarray', 'bland::ndarray_deferred', 'bland::ndarray::dev'):
            E.C['fresh:' + b] = lambda E, t, n, lift=0: Opq('array:' + n)
            E.C['default:' + b] = lambda E, t: Opq('array:none')
            E.C['ctor:' + b] = lambda E, st, e: E.bind(stdlib.vals_any(E, e['a'], st), lambda s, vs: [(s, rd(E, s, vs[0]) if vs else Opq('array:none'))])
        E.C['fresh:std::shared_ptr'] = lambda E, t, n, lift=0: Ptr(None, None, True)

    def present(v):
        return [v[k]['has'] for k in META if isinstance(v[k], N) and v[k].kind == 'opt']

    def plain(v):
        return v['val'] if isinstance(v, N) and v.kind == 'opt' else v

    def the_channel(E, st):
        v = tree(E.fresh(CC, 'cc'), plainname)
        n = z3.Int('n_hits')
        st.pc += present(v) + [n >= 0, n < 2 ** 29]
        for k in CMET:
            st.pc += [plain(v[k]) >= -2 ** 31, plain(v[k]) < 2 ** 31]
        E.assumptions.add('preconditions: metadata of the channel present and within 32 bits, fewer than 2^29 hits')
        return v, n, arr('hit_ids')

    def same_meta(r, v, names):
        out = []
        for k in names:
            x, y = r[k], v[k]
            ok = [x['has']] if isinstance(x, N) and x.kind == 'opt' else []
            x, y = plain(x), plain(y)
            if isinstance(x, N):
                out.append(('same' + k, z3.And(ok + [a == b for (_, a), (_, b) in zip(leaves(x), leaves(y))])))
            else:
                out.append(('same' + k, z3.And(ok + [x == y])))
        return out
    Cc = dict(C)
    Cc.update({D + PAIRS[HIT][0]: enc(HIT), D + PAIRS[HIT][1]: dec(HIT), CC + '::hits': c_hits, CC + '::set_hits': c_set_hits})
    WC, L = Writer(), {}

    def b_wc(E, st, F):
        nd(E)
        opaque(E, HIT)
        v, n, a = the_channel(E, st)
        hl = E.newcell(st, ids(n, a, HIT))
        cell = E.newcell(st, rec())
        L.update(cell=cell, n=n, src=a)

        def post(E, s, r):
            WC.keep(E, s, cell)
            return [('writes', z3.BoolVal(True))]
        return {'args': [E.newcell(st, handle(cell)), v.set(_hits=Ptr(hl, None))], 'post': post}
    S.function(D + PAIRS[CC][0], b_wc, contracts=Cc, opts=OPT, loops=writer_loop(L, HIT), name='channel_to_message')

    def lists(m):
        return [v for k, v in m.f.items() if isinstance(v, N) and v.kind == 'vec']
    hit_list = find_var(lambda x: x if isinstance(x, N) and x.kind == 'vec' and isinstance(x['data'], N) and 'id' in x['data'].f and x['data'].meta != 'message' else None)

    def b_rc(i):
        def build(E, st, F):
            nd(E)
            opaque(E, HIT)
            m, pc = WC.paths[i]
            v, n, a = the_channel(E, st)
            st.pc += pc
            cell = E.newcell(st, m)
            ls = lists(m)
            L.update(n=n, src=ls[0]['data']['id'] if ls else a)

            def post(E, s, r):
                r = rd(E, s, r)
                p = r['_hits']
                if not (isinstance(p, Ptr) and not p.null):
                    return [('carries-hits', z3.BoolVal(False))]
                h = E.read(s, p.loc)
                return same_meta(r, v, META) + [('as-many-hits', h['len'] == n),
                                                ('the-hits-in-order', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < n), h['data']['id'][k] == DEC[HIT](ENC[HIT](a[k])))))]
            return {'args': [E.newcell(st, handle(cell))], 'post': post}
        return build
    for i in range(len(WC.paths)):
        S.function(D + PAIRS[CC][1], b_rc(i), contracts=Cc, opts=OPT, loops=reader_loop(L, HIT, hit_list), name='message_to_channel%s' % (i or ''), after=(D + PAIRS[CC][0],))


    # ------------------------------------------------------------ scan
    fns = {'fch1': R, 'foff': R, 'nchans': I, 'ntsteps': I, 'source_name': I, 'tsamp': R, 'tstart': R}
    OF = {k: z3.Function('channel_' + k, I, t) for k, t in fns.items()}

    def c_meta(k):
        return lambda E, st, e, ol: [(st, N('str', {'id': OF[k](E.read(st, ol)['id'])}) if k == 'source_name' else OF[k](E.read(st, ol)['id']))]

    OPTS = {'_src_dej': R, '_src_raj': R, '_telescope_id': I, '_machine_id': I, '_nbits': I, '_az_start': R, '_za_start': R}
    PLAIN = {'_nifs': I, '_data_type': I}
    HASF = {k: z3.Function('channel_has' + k, I, B) for k in OPTS}
    VALF = {k: z3.Function('channel' + k, I, t) for k, t in list(OPTS.items()) + list(PLAIN.items())}

    def chan(i):
        """a channel as a function of its identity"""
        d = {'id': i}
        for k in OPTS:
            d[k] = N('opt', {'has': HASF[k](i), 'val': VALF[k](i)})
        for k in PLAIN:
            d[k] = VALF[k](i)
        return N('struct', d, CC)

    def cmap(n, has, a):
        return N('cmap', {'len': n, 'has': has, 'id': a}, 'channels')

    def key(E, s, v):
        return rd(E, s, v)

    def cm_insert(E, st, e, ol):
        def f(s, vs):
            p = rd(E, s, vs[0])
            if not (isinstance(p, N) and len(p.f) == 2):
                raise Unsupported('insert of %r' % (p,))
            k, v = [rd(E, s, x) for x in p.f.values()]
            m = E.read(s, ol)
            cc = E.read(s, v.target())
            E.oblige(s, 'map-insert-of-new-key', z3.Not(m['has'][k]), e['ln'], 'safety')
            E.write(s, ol, cmap(m['len'] + 1, z3.Store(m['has'], k, True), z3.Store(m['id'], k, cc['id'])))
            return [(s, Opq('insert result'))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)

    def cm_index(E, st, e, ol):
        # the place of a key: assigning to it is an insertion (of a key not there yet)
        return E.bind(stdlib.vals_any(E, e['a'], st), lambda s, vs: [(s, E.newcell(s, N('place', {'k': rd(E, s, vs[0])}, ol)))])

    def sp_assign(E, st, e, ol):
        slot = E.read(st, ol)
        if not (isinstance(slot, N) and slot.kind == 'place'):
            return stdlib.sp_method(E, st, e, ol)

        def f(s, vs):
            m, k = E.read(s, slot.meta), slot['k']
            E.oblige(s, 'map-insert-of-new-key', z3.Not(m['has'][k]), e['ln'], 'safety')
            E.write(s, slot.meta, cmap(m['len'] + 1, z3.Store(m['has'], k, True), z3.Store(m['id'], k, E.read(s, rd(E, s, vs[0]).target())['id'])))
            return [(s, ol)]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)

    def cm_at(E, st, e, ol):
        def f(s, vs):
            k = rd(E, s, vs[0])
            m = E.read(s, ol)
            E.oblige(s, 'map-key-present', m['has'][k], e['ln'], 'safety')
            return [(s, E.newcell(s, Ptr(E.newcell(s, chan(m['id'][k])), None)))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)

    def c_peak(E, st, e, ol):
        def f(s, vs):
            i = rd(E, s, vs[0])
            v = E.read(s, ol)
            E.oblige(s, 'channel-of-the-scan', z3.And(i >= 0, i < v['_num_coarse_channels']), e['ln'], 'spec')
            E.assumptions.add('contract of peak_coarse_channel: channel i of the scan, if it was read (proved under P30)')
            return [(s, Ptr(E.newcell(s, levels.ident(v['_coarse_channels']['id'][i], CC)), None))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    Cs = dict(C)
    Cs.update({D + PAIRS[CC][0]: enc(CC), D + PAIRS[CC][1]: dec(CC), SC + '::peak_coarse_channel': c_peak, SC + '::read_coarse_channel': c_peak,
               'std::map::insert': cm_insert, 'std::map::operator[]': cm_index, 'std::shared_ptr::operator=': sp_assign, 'std::map::at': cm_at, 'std::map::operator=': levels.assign, 'std::map::size': lambda E, st, e, ol: [(st, E.read(st, ol)['len'])]})
    for k in fns:
        Cs[CC + '::' + k] = c_meta(k)
    SMETA = ['_fch1', '_foff', '_nchans', '_ntsteps', '_source_name', '_src_dej', '_src_raj', '_telescope_id', '_tsamp', '_tstart']

    def env_scan(E):
        nd(E)
        opaque(E, CC)
        none = lambda E, t: cmap(IV(0), z3.K(I, z3.BoolVal(False)), arr('no_channels'))
        E.C['fresh:std::map'] = lambda E, t, n, lift=0: cmap(z3.Int(n + '.len'), z3.Const(n + '.has', z3.ArraySort(I, B)), arr(n + '.id'))
        E.C['default:std::map'] = none
        E.C['ctor:std::map'] = lambda E, st, e: E.bind(stdlib.vals_any(E, e['a'], st), lambda s, vs: [(s, rd(E, s, vs[0]) if vs else none(E, None))])

    def the_scan(E, st):
        v = tree(E.fresh(SC, 'scan'), plainname)
        n, a = z3.Int('n_channels'), arr('channel_ids')
        nf = v['_fine_channels_per_coarse']
        st.pc += present2(v) + [n >= 1, n < 2 ** 29, nf >= 1, v['_num_coarse_channels'] == n, v['_nchans'] == n * nf, nf == OF['nchans'](a[0]), v['_ntsteps'] == OF['ntsteps'](a[0])]
        for k in ('_nchans', '_ntsteps', '_telescope_id'):
            st.pc += [plain(v[k]) >= -2 ** 31, plain(v[k]) < 2 ** 31]
        b = DEC[CC](ENC[CC](a[0]))
        st.pc += [OF[k](b) == OF[k](a[0]) for k in ('nchans', 'ntsteps')]
        E.assumptions.add('preconditions: every channel of the scan has been read, at least one channel, channels divide the scan evenly (P31) and have its number of time steps (P30), metadata within 32 bits')
        return v.set(_coarse_channels=cmap(n, z3.K(I, z3.BoolVal(True)), a)), n, a

    def present2(v):
        return [v[k]['has'] for k in SMETA if isinstance(v[k], N) and v[k].kind == 'opt']
    WS = Writer()

    def b_ws(E, st, F):
        env_scan(E)
        v, n, a = the_scan(E, st)
        cell = E.newcell(st, rec())
        L.update(cell=cell, n=n, src=a)

        def post(E, s, r):
            WS.keep(E, s, cell)
            return [('writes', z3.BoolVal(True))]
        return {'args': [E.newcell(st, handle(cell)), v], 'post': post}
    S.function(D + PAIRS[SC][0], b_ws, contracts=Cs, opts=OPT, loops=writer_loop(L, CC), name='scan_to_message')
    channel_map = find_var(lambda x: x if isinstance(x, N) and x.kind == 'cmap' else None)

    def b_rs(i):
        def build(E, st, F):
            env_scan(E)
            m, pc = WS.paths[i]
            v, n, a = the_scan(E, st)
            st.pc += pc
            cell = E.newcell(st, m)
            ls = lists(m)
            L.update(n=n, src=ls[0]['data']['id'] if ls else a)

            def post(E, s, r):
                r = rd(E, s, r)
                h = r['_coarse_channels']
                if not (isinstance(h, N) and h.kind == 'cmap'):
                    return [('carries-channels', z3.BoolVal(False))]
                return same_meta(r, v, SMETA) + [('as-many-channels', z3.And(r['_num_coarse_channels'] == n, r['_coarse_channel_offset'] == 0, r['_fine_channels_per_coarse'] == v['_fine_channels_per_coarse'], h['len'] == n)),
                                                 ('the-channels-in-order', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < n), z3.And(h['has'][k], h['id'][k] == DEC[CC](ENC[CC](a[k]))))))]
            return {'args': [E.newcell(st, handle(cell))], 'post': post}
        return build
    for i in range(len(WS.paths)):
        S.function(D + PAIRS[SC][1], b_rs(i), contracts=Cs, opts=OPT, loops=reader_loop(L, CC, channel_map), name='message_to_scan%s' % (i or ''), after=(D + PAIRS[SC][0],))

    # ------------------------------------------------------------ a scan assembled from channels
    def b_sc(E, st, F):
        env_scan(E)
        n, a = z3.Int('n_channels'), arr('channel_ids')
        has = z3.Const('channel_present', z3.ArraySort(I, B))
        st.pc += [n >= 1, n < 2 ** 31, has[0]]
        this = E.newcell(st, E.default(SC))

        def post(E, s, r):
            v, c = E.read(s, this), chan(a[0])
            m = v['_coarse_channels']
            out = [(k[1:], v[k] == OF[k[1:]](a[0])) for k in ('_fch1', '_foff', '_ntsteps', '_tsamp', '_tstart')] + [('source_name', v['_source_name']['id'] == OF['source_name'](a[0]))]
            for k in OPTS:
                x = v[k]
                out.append((k[1:], z3.Implies(c[k]['has'], x == c[k]['val'] if is_z(x) else z3.And(x['has'], x['val'] == c[k]['val']))))
                if not is_z(x):
                    out.append((k[1:] + '-absent', z3.Implies(z3.Not(c[k]['has']), z3.Not(x['has']))))
            out += [(k[1:], v[k] == c[k]) for k in PLAIN]
            return out + [('channels', z3.And(m['len'] == n, m['has'] == has, m['id'] == a, v['_num_coarse_channels'] == n, v['_coarse_channel_offset'] == 0)),
                          ('fine-channels', z3.And(v['_fine_channels_per_coarse'] == OF['nchans'](a[0]), v['_nchans'] == n * OF['nchans'](a[0])))]
        st.pc += [OF['nchans'](a[0]) >= 1, OF['nchans'](a[0]) < 2 ** 31, OF['ntsteps'](a[0]) >= 0]
        return {'this': this, 'args': [cmap(n, has, a)], 'post': post}
    S.function(SC + '::ctor', b_sc, sig=r'ctor\(std::map', contracts=Cs, opts=OPT, name='scan_of_channels')

    # ------------------------------------------------------------ target, cadence
    for outer, inner, member in ((TG, SC, '_scans'), (CA, TG, '_observations')):
        Ct = dict(C)
        Ct.update({D + PAIRS[inner][0]: enc(inner), D + PAIRS[inner][1]: dec(inner)})
        n, a = z3.Int('n_members'), arr('member_ids')
        WT = Writer()

        def b_wt(E, st, F):
            nd(E)
            opaque(E, inner)
            cell = E.newcell(st, rec())
            st.pc += [n >= 0, n < 2 ** 29]
            L.update(cell=cell, n=n, src=a)
            v = E.fresh(outer, 'whole').setk(member, ids(n, a, inner))

            def post(E, s, r):
                WT.keep(E, s, cell)
                return [('writes', z3.BoolVal(True))]
            return {'args': [E.newcell(st, handle(cell)), v], 'post': post}
        S.function(D + PAIRS[outer][0], b_wt, contracts=Ct, opts=OPT, loops=writer_loop(L, inner), name=outer.split('::')[1] + '_to_message')
        member_list = find_var(lambda x: x[member] if isinstance(x, N) and member in x.f else None)

        def b_rt(i):
            def build(E, st, F):
                nd(E)
                opaque(E, inner)
                m, pc = WT.paths[i]
                st.pc += pc
                cell = E.newcell(st, m)
                ls = lists(m)
                L.update(n=n, src=ls[0]['data']['id'] if ls else a)

                def post(E, s, r):
                    h = rd(E, s, r)[member]
                    return [('as-many', h['len'] == n), ('in-order', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < n), h['data']['id'][k] == DEC[inner](ENC[inner](a[k])))))]
                return {'args': [E.newcell(st, handle(cell))], 'post': post}
            return build
        for i in range(len(WT.paths)):
            S.function(D + PAIRS[outer][1], b_rt(i), contracts=Ct, opts=OPT, loops=reader_loop(L, inner, member_list), name='message_to_%s%s' % (outer.split('::')[1], i or ''), after=(D + PAIRS[outer][0],))

"""files of events: one message per event, holding its hits (bliss/file_types/events_file.cpp)

Ghost state: the file has a sequence of messages, each with a sequence of hits (identities).  The conversion of one hit is the
function of specs/capnp.py, verified there."""
import z3
from dv.session import Q
from dv.engine import IV, RV, I, R, B, N, Ptr, Loc, Opq, Unsupported, is_z
from dv import stdlib
from . import levels, loopkit, capnp, capnp_files
from .capnp import ENC, DEC, HIT, rec, handle, at, rd
from .capnp_files import ghost, options, LIMIT

EV = 'bliss::event'
UNITS = [('bliss/file_types/events_file.cpp', [r'^bliss::(write|read)_events'], [r'^(Signal|Filterbank|Hit|Event)::', r'^capnp::', r'^kj::', r'^bliss::detail::', r'^bliss::hit\b', r'^bliss::event::'])]
A1, A2 = z3.ArraySort(I, I), z3.ArraySort(I, z3.ArraySort(I, I))
IT = 'capnp::_::IndexingIterator::'


def hits_of(n, a):
    return N('vec', {'len': n, 'data': N('struct', {'signal': N('struct', {'id': a}, 'message')}, 'message')})


def opens(write):
    def h(E, st, e):
        def f(s, vs):
            p = rd(E, s, vs[0])
            bad = s.fork()
            bad.sig = ('throw', 'std::runtime_error')
            g = s.frames[0].env.get('g:file')
            old = E.read(s, g) if g is not None else None
            fd = z3.Int(E.fresh_name('fd'))
            d = {'path': p['id'], 'fd': fd, 'write': z3.BoolVal(write), 'pos': IV(0)}
            if write:
                d.update(len=IV(0), cnt=z3.Const(E.fresh_name('empty'), A1), ids=z3.Const(E.fresh_name('empty'), A2))
            else:
                d.update(len=old['len'], cnt=old['cnt'], ids=old['ids'])
            s.frames[0].env['g:file'] = E.newcell(s, N('struct', d, 'file'))
            s.pc.append(fd >= 0)
            E.assumptions.add('contract of raii_file_for_write/read: the file at the path is opened (emptied for writing) or an exception thrown (verified in specs/capnp_files.py over open(2))')
            return [(s, N('struct', {'_fd': fd}, 'raii')), (bad, None)]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    return h


def c_initroot(E, st, e, ol):
    b = E.read(st, ol)
    E.write(st, b['root'].loc, rec())
    st.frames[0].env['g:msg'] = b['root'].loc
    return [(st, handle(b['root'].loc))]


def c_inithits(E, st, e, ol):
    def f(s, vs):
        loc = at(E, s, ol)
        n = rd(E, s, vs[0])
        E.oblige(s, 'list-length-not-negative', n >= 0, e['ln'], 'safety')
        E.write(s, loc, E.read(s, loc).setk('hits', hits_of(n, z3.Const(E.fresh_name('unset'), A1))))
        return [(s, handle(loc.fld('hits')))]
    return E.bind(stdlib.vals_any(E, e['a'], st), f)


def c_initsignal(E, st, e, ol):
    loc = at(E, st, ol).fld('signal')
    E.write(st, loc.fld('id'), z3.Int(E.fresh_name('unset')))
    return [(st, handle(loc))]


def c_other(E, st, e, ol):
    return [(st, handle(E.newcell(st, rec())))]


def c_write(E, st, e):
    def f(s, vs):
        g = ghost(s)
        w, m = E.read(s, g), rd(E, s, vs[1])
        E.oblige(s, 'writes-to-the-opened-file', z3.And(rd(E, s, vs[0]) == w['fd'], w['write']), e['ln'], 'spec')
        root = E.read(s, m['root'].loc)
        if 'hits' not in root.f:
            raise Unsupported('message without hits')
        h = root['hits']
        E.write(s, g, w.set(len=w['len'] + 1, cnt=z3.Store(w['cnt'], w['len'], h['len']), ids=z3.Store(w['ids'], w['len'], h['data']['signal']['id'])))
        E.assumptions.add('contracts of capnp::writeMessageToFd and StreamFdMessageReader: messages are read back in the order written (validated by the harness)')
        return [(s, None)]
    return E.bind(stdlib.vals_any(E, e['a'], st), f)


WORDS = z3.Function('words_of_event_message', I, I)


def c_stream(E, st, e):
    def f(s, vs):
        g = ghost(s)
        w = E.read(s, g)
        E.oblige(s, 'reads-the-opened-file', z3.And(rd(E, s, vs[0]) == w['fd'], z3.Not(w['write'])), e['ln'], 'spec')
        limit = rd(E, s, vs[1])['traversalLimitInWords'] if len(vs) > 1 else LIMIT
        i = w['pos']
        s.pc += [WORDS(i) >= 0, WORDS(i) < 2 ** 61]
        fits = z3.And(i < w['len'], WORDS(i) <= limit)
        end = s.fork()
        end.pc.append(z3.Not(fits))
        end.sig = ('throw', 'kj::Exception')
        s.pc.append(fits)
        E.assumptions.add('contract of StreamFdMessageReader: a message longer than the traversal limit (64 MiB unless options say otherwise) is refused')
        E.write(s, g, w.set(pos=i + 1))
        return [(s, N('struct', {'root': Ptr(E.newcell(s, rec(hits=hits_of(w['cnt'][i], w['ids'][i]))), None)}, 'message reader')), (end, None)]
    return E.bind(stdlib.vals_any(E, [x for x in e['a'][:2] if x['k'] != 'DefArg'], st), f)


def cellnum(l):
    return IV(int(''.join(ch for ch in str(l.cell) if ch.isdigit()) or 0))


# iterators over a list in a message
def it_at(n):
    def h(E, st, e, ol):
        l = at(E, st, ol)
        st.frames[0].env['g:list'] = l
        return [(st, N('struct', {'of': cellnum(l), 'i': IV(0) if n == 0 else E.read(st, l)['len']}, 'list iterator'))]
    return h


def it_elem(ptr):
    def h(E, st, e, ol):
        it = rd(E, st, ol)
        l = st.frames[0].env.get('g:list')
        if l is None:
            raise Unsupported('iterator of an unknown list')
        v = E.read(st, l)
        E.oblige(st, 'message-list-index-in-range', z3.And(it['of'] == cellnum(l), it['i'] >= 0, it['i'] < v['len']), e['ln'], 'safety')
        hd = handle(Loc(l.cell, l.path + (it['i'],)))
        return [(st, Ptr(E.newcell(st, hd), None) if ptr else hd)]
    return h


def it_inc(E, st, e, ol):
    it = E.read(st, ol)
    E.write(st, ol, it.setk('i', it['i'] + 1))
    return [(st, ol if not e['a'] else it)]


def it_cmp(eq):
    def h(E, st, e, ol):
        def f(s, vs):
            a, b = rd(E, s, ol), rd(E, s, vs[0])
            return [(s, z3.And(a['of'] == b['of'], a['i'] == b['i']) if eq else z3.Or(a['of'] != b['of'], a['i'] != b['i']))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    return h


def verify(S):
    C = capnp.messages(S.P)
    C.update({'capnp::writeMessageToFd': c_write, 'ctor:capnp::MallocMessageBuilder': capnp_files.c_builder, 'capnp::MessageBuilder::initRoot': c_initroot,
              'ctor:capnp::StreamFdMessageReader': c_stream, 'ctor:capnp::ReaderOptions': lambda E, st, e: levels.ctor(E, st, e) or [(st, options())], 'default:capnp::ReaderOptions': lambda E, t: options(),
              'capnp::MessageReader::getRoot': capnp_files.c_getroot, 'ctor:bliss::detail::raii_file_for_write': opens(True), 'ctor:bliss::detail::raii_file_for_read': opens(False),
              'Event::Builder::initHits': c_inithits, 'Hit::Builder::initSignal': c_initsignal, 'Hit::Builder::getSignal': lambda E, st, e, ol: [(st, handle(at(E, st, ol).fld('signal')))],
              'Hit::Builder::initFilterbank': c_other, 'Hit::Builder::getFilterbank': c_other,
              'capnp::List<Hit, capnp::Kind::STRUCT>::Reader::begin': it_at(0), 'capnp::List<Hit, capnp::Kind::STRUCT>::Reader::end': it_at(1),
              IT + 'operator->': it_elem(True), IT + 'operator*': it_elem(False), IT + 'operator++': it_inc, IT + 'operator!=': it_cmp(False), IT + 'operator==': it_cmp(True),
              'capnp::_::TemporaryPointer::operator->': lambda E, st, e, ol: [(st, rd(E, st, ol))]})

    def enc(E, st, e):
        def f(s, vs):
            E.write(s, at(E, s, vs[0]).fld('id'), ENC[HIT](rd(E, s, vs[1])['id']))
            E.assumptions.add('contract of the conversion of a hit to and from a message as functions of it (verified in specs/capnp.py)')
            return [(s, None)]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)

    def dec(E, st, e):
        return E.bind(stdlib.vals_any(E, e['a'], st), lambda s, vs: [(s, levels.ident(DEC[HIT](E.read(s, at(E, s, vs[0]))['id']), HIT))])
    C['bliss::detail::bliss_hit_to_capnp_signal_message'], C['bliss::detail::capnp_signal_message_to_bliss_hit'] = enc, dec

    def opaque(E):
        def fresh(E, t_, n, lift=0):
            so = I
            for _ in range(int(lift)):
                so = z3.ArraySort(I, so)
            return levels.ident(z3.Const(E.fresh_name(n), so), HIT)
        E.C['fresh:' + HIT] = fresh
        E.C['default:' + HIT] = lambda E, t_: levels.ident(z3.Int(E.fresh_name('default')), HIT)
        E.C['ctor:' + HIT] = levels.ctor
        E.C[HIT + '::operator='] = levels.assign

    def cannot_open(E, s):
        return [('only-when-the-file-cannot-be-opened', z3.BoolVal(s.sig[1] == 'std::runtime_error'))]
    n, path = z3.Int('n_events'), z3.Int('path')
    cnt, ids = z3.Const('hits_of_event', A1), z3.Const('hit_ids', A2)

    # ------------------------------------------------------------ writing
    def b_w(E, st, F):
        opaque(E)
        ev = E.fresh('std::vector<bliss::event>', 'events')
        h = ev['data']['hits']
        ev = ev.set(len=n, data=ev['data'].setk('hits', h.set(len=cnt, data=N('struct', {'id': ids}, HIT))))
        k = z3.Int('k')
        st.pc += [n >= 0, n < 2 ** 29, z3.ForAll([k], z3.And(cnt[k] >= 0, cnt[k] < 2 ** 29), patterns=[cnt[k]])]

        def post(E, s, r):
            w = E.read(s, ghost(s))
            return [('in-the-file-named', z3.And(w['path'] == path, w['write'])), ('a-message-per-event', w['len'] == n),
                    ('as-many-hits', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < n), w['cnt'][k] == cnt[k]))),
                    ('the-hits-of-each-in-order', Q(['k', 'j'], lambda k, j: z3.Implies(z3.And(k >= 0, k < n, j >= 0, j < cnt[k]), w['ids'][k][j] == ENC[HIT](ids[k][j]))))]
        return {'args': [ev, N('str', {'id': path})], 'post': post, 'throws': cannot_open}

    def nested(node):
        found = []
        capnp.walk(node, lambda x: found.append(x) if x.get('k') in ('For', 'Range', 'While', 'Do') else None)
        return len(found) > 1

    def m_w(E, node, st, ordn):
        def outer(c):
            i, facts = loopkit.counter(c)
            w, w0 = c.cell(ghost(c.st)), c.oldcell(ghost(c.entry))
            return [('range', z3.And([i >= 0, i <= n, w['len'] == i, w['fd'] == w0['fd'], w['path'] == w0['path'], w['write']] + facts)),
                    ('as-many', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < i), w['cnt'][k] == cnt[k]), pats=lambda k: w['cnt'][k])),
                    ('written', Q(['k', 'j'], lambda k, j: z3.Implies(z3.And(k >= 0, k < i, j >= 0, j < cnt[k]), w['ids'][k][j] == ENC[HIT](ids[k][j])), pats=lambda k, j: w['ids'][k][j]))]

        def inner(c):
            i, facts = loopkit.counter(c)
            w, w0 = c.cell(ghost(c.st)), c.oldcell(ghost(c.entry))
            g = c.st.frames[0].env.get('g:msg')
            if g is None or 'hits' not in c.cell(g).f:
                raise Unsupported('no list of hits in the message')
            h, p = c.cell(g)['hits'], w0['len']
            return [('range', z3.And([i >= 0, i <= cnt[p], h['len'] == cnt[p]] + [w[k] == w0[k] for k in ('fd', 'path', 'write', 'len', 'cnt', 'ids')] + facts)),
                    ('written', Q(['j'], lambda j: z3.Implies(z3.And(j >= 0, j < i), h['data']['signal']['id'][j] == ENC[HIT](ids[p][j])), pats=lambda j: h['data']['signal']['id'][j]))]
        return outer if nested(node) else inner
    S.function('bliss::write_events_to_file', b_w, contracts=C, loops={'match': m_w}, name='write_events')

    # ------------------------------------------------------------ reading
    m, mc, mi = z3.Int('n_messages'), z3.Const('hits_in_message', A1), z3.Const('messages', A2)

    def b_r(E, st, F):
        opaque(E)
        k = z3.Int('k')
        st.frames[0].env['g:file'] = E.newcell(st, N('struct', {'path': path, 'fd': IV(-1), 'write': z3.BoolVal(False), 'pos': IV(0), 'len': m, 'cnt': mc, 'ids': mi}, 'file'))
        st.pc += [m >= 0, m < 2 ** 29, z3.ForAll([k], z3.And(mc[k] >= 0, mc[k] < 2 ** 29), patterns=[mc[k]])]

        def post(E, s, r):
            v = rd(E, s, r)
            w = E.read(s, ghost(s))
            h = v['data']['hits']
            return [('from-the-file-named', w['path'] == path), ('every-event', v['len'] == m),
                    ('as-many-hits', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < m), h['len'][k] == mc[k]))),
                    ('the-hits-of-each-in-order', Q(['k', 'j'], lambda k, j: z3.Implies(z3.And(k >= 0, k < m, j >= 0, j < mc[k]), h['data']['id'][k][j] == DEC[HIT](mi[k][j]))))]
        return {'args': [N('str', {'id': path})], 'post': post, 'throws': cannot_open}

    def local(c, want, what):
        for fr in reversed(c.st.frames):
            for nm, key in fr.names.items():
                if key in fr.env:
                    try:
                        x = c.E.read(c.st, fr.env[key])
                    except Exception:
                        continue
                    if isinstance(x, N):
                        y = want(x)
                        if y is not None:
                            return y
        raise Unsupported(what + ' not recognised')

    def m_r(E, node, st, ordn):
        def outer(c):
            v = local(c, lambda x: x if x.kind == 'vec' and isinstance(x['data'], N) and 'hits' in x['data'].f else None, 'list of events')
            h = v['data']['hits']
            w, w0 = c.cell(ghost(c.st)), c.oldcell(ghost(c.entry))
            return [('range', z3.And([w['pos'] >= 0, w['pos'] <= m, v['len'] == w['pos']] + [w[k] == w0[k] for k in ('fd', 'path', 'write', 'len', 'cnt', 'ids')])),
                    ('as-many', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < w['pos']), h['len'][k] == mc[k]), pats=lambda k: h['len'][k])),
                    ('read', Q(['k', 'j'], lambda k, j: z3.Implies(z3.And(k >= 0, k < w['pos'], j >= 0, j < mc[k]), h['data']['id'][k][j] == DEC[HIT](mi[k][j])), pats=lambda k, j: h['data']['id'][k][j]))]

        def inner(c):
            w, w0 = c.cell(ghost(c.st)), c.oldcell(ghost(c.entry))
            v = local(c, lambda x: x['hits'] if x.kind == 'struct' and 'hits' in x.f and x.meta == EV else (x if x.kind == 'vec' and isinstance(x['data'], N) and set(x['data'].f) == {'id'} else None), 'hits of the event')
            try:
                it = local(c, lambda x: x if x.kind == 'struct' and x.meta == 'list iterator' else None, 'iterator')
                l = c.st.frames[0].env['g:list']
                i, facts = it['i'], [it['of'] == cellnum(l)]
            except Unsupported:
                i, facts = loopkit.counter(c)
            p = w['pos'] - 1
            return [('range', z3.And([i >= 0, i <= mc[p], v['len'] == i] + [w[k] == w0[k] for k in w.f] + facts)),
                    ('read', Q(['j'], lambda j: z3.Implies(z3.And(j >= 0, j < i), v['data']['id'][j] == DEC[HIT](mi[p][j])), pats=lambda j: v['data']['id'][j]))]
        return outer if nested(node) else inner
    S.function('bliss::read_events_from_file', b_r, contracts=C, loops={'match': m_r}, name='read_events')

"""binary hit files: the sequence of messages written is the sequence read (bliss/file_types/cpnp_files.cpp, detail/raii_file_helpers, hits_file.cpp)

Ghost state: the file a function opens has a path and a sequence of messages.  Opening for writing empties it,
writeMessageToFd appends, a StreamFdMessageReader takes the next message or throws at the end."""
import re
import z3
from dv.session import Q
from dv.engine import IV, RV, I, R, B, N, Ptr, Loc, Opq, Unsupported, leaves, is_z
from dv import stdlib
from . import levels, loopkit, capnp, names
from .capnp import ENC, DEC, HIT, CC, SC, TG, CA, rec, handle, at, rd

D = 'bliss::detail::'
STOPS = capnp.STOPS + [r'^bliss::(detail|coarse_channel|scan|observation_target|cadence|hit)\b']
UNITS = [('bliss/file_types/cpnp_files.cpp', [r'^bliss::(write|read)_\w+_capnp_files?\b'], STOPS),
         ('bliss/file_types/detail/raii_file_helpers.cpp', [r'^bliss::detail::raii_file_for_(write|read)::ctor'], []),
         ('bliss/file_types/hits_file.cpp', [r'^bliss::(write|read)_(scan_)?hits_(to|from)_file\b'], [r'^bliss::(write|read)_\w+_(capnp|dat)_files?\b', r'^bliss::scan::', r'^bliss::hit::'])]
ENC_, DEC_ = dict(ENC), dict(DEC)
ENC_[CA], DEC_[CA] = z3.Function('message_of_cadence', I, I), z3.Function('cadence_of_message', I, I)
WHAT = {HIT: ('bliss_hit_to_capnp_signal_message', 'capnp_signal_message_to_bliss_hit', 'Hit'),
        CC: ('bliss_coarse_channel_to_capnp_coarse_channel_message', 'capnp_coarse_channel_message_to_bliss_coarse_channel', 'CoarseChannel'),
        SC: ('bliss_scan_to_capnp_scan', 'capnp_scan_message_to_bliss_scan', 'Scan'),
        TG: ('bliss_observation_target_to_capnp_observation_target_message', 'capnp_observation_target_message_to_bliss_observation_target', 'ObservationTarget'),
        CA: ('bliss_cadence_to_capnp_cadence_message', 'capnp_cadence_message_to_cadence', 'Cadence')}


WORDS, LIMIT = z3.Function('words_of_message', I, I), IV(8 * 1024 * 1024)      # the limit is capnp's default


def ghost(s):
    g = s.frames[0].env.get('g:file')
    if g is None:
        raise Unsupported('no file was opened')
    return g


def opens(write):
    def h(E, st, e):
        def f(s, vs):
            p = rd(E, s, vs[0])
            fd = z3.Int(E.fresh_name('fd'))
            bad = s.fork()
            bad.sig = ('throw', 'std::runtime_error')
            g = s.frames[0].env.get('g:file')
            old = E.read(s, g) if g is not None else None
            d = {'path': p['id'], 'fd': fd, 'write': z3.BoolVal(write), 'pos': IV(0)}
            if write:
                d.update(len=IV(0), msg=z3.Const(E.fresh_name('empty'), z3.ArraySort(I, I)))
            else:
                d.update(len=old['len'], msg=old['msg'], **({'small': IV(1)} if 'small' in old.f else {}))
            s.frames[0].env['g:file'] = E.newcell(s, N('struct', d, 'file'))
            s.pc.append(fd >= 0)
            E.assumptions.add('contract of raii_file_for_write/read: the file at the path is opened (emptied for writing) or an exception thrown (verified in this module over open(2))')
            return [(s, N('struct', {'_fd': fd}, 'raii')), (bad, None)]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    return h


def c_write(E, st, e):
    def f(s, vs):
        g = ghost(s)
        w = E.read(s, g)
        m = rd(E, s, vs[1])
        E.oblige(s, 'writes-to-the-opened-file', z3.And(rd(E, s, vs[0]) == w['fd'], w['write']), e['ln'], 'spec')
        root = E.read(s, m['root'].loc)
        x = root['signal'] if 'signal' in root.f else root
        if 'id' not in x.f:
            raise Unsupported('message without content')
        E.write(s, g, w.set(len=w['len'] + 1, msg=z3.Store(w['msg'], w['len'], x['id'])))
        E.assumptions.add('contracts of capnp::writeMessageToFd and StreamFdMessageReader: messages are read back in the order written (validated by the harness)')
        return [(s, None)]
    return E.bind(stdlib.vals_any(E, e['a'], st), f)


def c_builder(E, st, e):
    return [(st, N('struct', {'root': Ptr(E.newcell(st, rec()), None)}, 'message builder'))]


def c_initroot(E, st, e, ol):
    b = E.read(st, ol)
    E.write(st, b['root'].loc, rec())
    return [(st, handle(b['root'].loc))]


def options():
    return N('struct', {'traversalLimitInWords': LIMIT, 'nestingLimit': IV(64)}, 'capnp::ReaderOptions')


def c_stream(E, st, e):
    def f(s, vs):
        g = ghost(s)
        w = E.read(s, g)
        fd = rd(E, s, vs[0])
        E.oblige(s, 'reads-the-opened-file', z3.And(fd == w['fd'], z3.Not(w['write'])), e['ln'], 'spec')
        limit = rd(E, s, vs[1])['traversalLimitInWords'] if len(vs) > 1 else LIMIT
        i = w['msg'][w['pos']]
        s.pc += [WORDS(i) >= 0, WORDS(i) < 2 ** 61] + ([WORDS(i) <= 64] if 'small' in w.f else [])
        fits = z3.And(w['pos'] < w['len'], WORDS(i) <= limit)
        end = s.fork()
        end.pc.append(z3.Not(fits))
        end.sig = ('throw', 'kj::Exception')
        s.pc.append(fits)
        E.assumptions.add('contract of StreamFdMessageReader: a message longer than the traversal limit (64 MiB unless options say otherwise) is refused; the message of one hit is shorter than 64 words')
        E.write(s, g, w.set(pos=w['pos'] + 1))
        v = N('struct', {'root': Ptr(E.newcell(s, rec(id=i, signal=rec(id=i))), None)}, 'message reader')
        return [(s, v), (end, None)]
    return E.bind(stdlib.vals_any(E, [x for x in e['a'][:2] if x['k'] != 'DefArg'], st), f)


def c_getroot(E, st, e, ol):
    return [(st, handle(E.read(st, ol)['root'].loc))]


def verify(S):
    C = capnp.messages(S.P)
    C.update({'capnp::writeMessageToFd': c_write, 'ctor:capnp::MallocMessageBuilder': c_builder, 'capnp::MessageBuilder::initRoot': c_initroot,
              'ctor:capnp::StreamFdMessageReader': c_stream, 'ctor:capnp::ReaderOptions': lambda E, st, e: levels.ctor(E, st, e) or [(st, options())], 'default:capnp::ReaderOptions': lambda E, t: options(), 'capnp::MessageReader::getRoot': c_getroot,
              'ctor:bliss::detail::raii_file_for_write': opens(True), 'ctor:bliss::detail::raii_file_for_read': opens(False)})

    def enc(t):
        def h(E, st, e):
            def f(s, vs):
                loc = at(E, s, vs[0])
                E.write(s, loc, E.read(s, loc).setk('id', ENC_[t](rd(E, s, vs[1])['id'])))
                E.assumptions.add('contract of the conversion of a %s to and from a message as functions of it (verified in specs/capnp.py)' % t.split('::')[1])
                return [(s, None)]
            return E.bind(stdlib.vals_any(E, e['a'], st), f)
        return h

    def dec(t):
        return lambda E, st, e: E.bind(stdlib.vals_any(E, e['a'], st), lambda s, vs: [(s, levels.ident(DEC_[t](E.read(s, at(E, s, vs[0]))['id']), t))])
    for t, (w, r, _) in WHAT.items():
        C[D + w], C[D + r] = enc(t), dec(t)

    def opaque(E):
        for t in WHAT:
            levels.opaque(E, t)
            E.C['ctor:' + t] = levels.ctor
            E.C[t + '::operator='] = levels.assign
    n, a, path = z3.Int('n_hits'), z3.Const('hit_ids', z3.ArraySort(I, I)), z3.Int('path')

    def cannot_open(E, s):
        return [('only-when-the-file-cannot-be-opened', z3.BoolVal(s.sig[1] == 'std::runtime_error'))]

    def existing(E, st, **more):
        st.frames[0].env['g:file'] = E.newcell(st, N('struct', {'path': path, 'fd': IV(-1), 'write': z3.BoolVal(False), 'pos': IV(0), 'len': z3.Int('n_messages'), 'msg': z3.Const('messages', z3.ArraySort(I, I)), **more}, 'file'))
        st.pc.append(z3.Int('n_messages') >= 0)

    # ------------------------------------------------------------ lists of hits
    def b_wl(E, st, F):
        opaque(E)
        st.pc += [n >= 0, n < 2 ** 29]

        def post(E, s, r):
            w = E.read(s, ghost(s))
            return [('in-the-file-named', z3.And(w['path'] == path, w['write'])), ('as-many-messages', w['len'] == n),
                    ('the-hits-in-order', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < n), w['msg'][k] == ENC[HIT](a[k]))))]
        return {'args': [N('vec', {'len': n, 'data': N('struct', {'id': a}, HIT)}), N('str', {'id': path})], 'post': post, 'throws': cannot_open}

    def m_wl(E, node, st, ordn):
        def inv(c):
            i, facts = loopkit.counter(c)
            w, w0 = c.cell(ghost(c.st)), c.oldcell(ghost(c.entry))
            return [('range', z3.And([i >= 0, i <= n, w['len'] == i, w['fd'] == w0['fd'], w['path'] == w0['path'], w['write']] + facts)),
                    ('written', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < i), w['msg'][k] == ENC[HIT](a[k])), pats=lambda k: w['msg'][k]))]
        return inv
    for k, F in sorted(S.P['functions'].items(), key=str):
        if F['q'] == 'bliss::write_hits_to_capnp_file':
            kk = k if isinstance(k, str) else k[1]
            S.function(F['q'], b_wl, sig='^' + re.escape(kk) + '$', contracts=C, loops={'match': m_wl}, name='write_hits.' + ('list' if '<std::list' in kk else 'vector'))

    def b_rl(E, st, F):
        opaque(E)
        existing(E, st, small=IV(1))
        msg, m = z3.Const('messages', z3.ArraySort(I, I)), z3.Int('n_messages')

        def post(E, s, r):
            h = rd(E, s, r)
            w = E.read(s, ghost(s))
            return [('from-the-file-named', w['path'] == path), ('every-message', h['len'] == m),
                    ('in-order', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < m), h['data']['id'][k] == DEC[HIT](msg[k]))))]
        return {'args': [N('str', {'id': path})], 'post': post, 'throws': cannot_open}

    def m_rl(E, node, st, ordn):
        def inv(c):
            h = None
            for fr in reversed(c.st.frames):
                for nm, key in fr.names.items():
                    if key in fr.env:
                        try:
                            x = c.E.read(c.st, fr.env[key])
                        except Exception:
                            continue
                        if isinstance(x, N) and x.kind == 'vec' and isinstance(x['data'], N) and 'id' in x['data'].f:
                            h = x
            if h is None:
                raise Unsupported('list of hits not recognised')
            w, w0 = c.cell(ghost(c.st)), c.oldcell(ghost(c.entry))
            same = z3.And([w[k] == w0[k] for k in ('fd', 'path', 'write', 'len', 'msg')])
            return [('range', z3.And(w['pos'] >= 0, w['pos'] <= w['len'], h['len'] == w['pos'])), ('same-file', same),
                    ('read', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < w['pos']), h['data']['id'][k] == DEC[HIT](w0['msg'][k])), pats=lambda k: h['data']['id'][k]))]
        return inv
    S.function('bliss::read_hits_from_capnp_file', b_rl, contracts=C, loops={'match': m_rl}, name='read_hits')

    # ------------------------------------------------------------ one message per file
    for t, wn, rn in ((CC, 'write_coarse_channel_hits_to_capnp_file', 'read_coarse_channel_hits_from_capnp_file'), (SC, 'write_scan_hits_to_capnp_file', 'read_scan_hits_from_capnp_file'),
                      (TG, 'write_observation_target_hits_to_capnp_files', 'read_observation_target_hits_from_capnp_files'), (CA, 'write_cadence_hits_to_capnp_files', 'read_cadence_hits_from_capnp_files')):
        x = z3.Int('whole')

        def b_w1(E, st, F):
            opaque(E)

            def post(E, s, r):
                w = E.read(s, ghost(s))
                return [('in-the-file-named', z3.And(w['path'] == path, w['write'])), ('one-message', w['len'] == 1), ('of-what-was-given', w['msg'][0] == ENC_[t](x))]
            return {'args': [levels.ident(x, t), N('str', {'id': path})], 'post': post, 'throws': cannot_open}
        S.function('bliss::' + wn, b_w1, contracts=C, name=wn)

        def b_r1(E, st, F):
            opaque(E)
            existing(E, st)

            def post(E, s, r):
                w = E.read(s, ghost(s))
                return [('from-the-file-named', w['path'] == path), ('what-was-written', rd(E, s, r)['id'] == DEC_[t](z3.Const('messages', z3.ArraySort(I, I))[0]))]
            return {'args': [N('str', {'id': path})], 'post': post,
                    'throws': lambda E, s: [('only-unreadable-or-empty', z3.BoolVal(True) if s.sig[1] == 'std::runtime_error' else z3.And(z3.BoolVal(s.sig[1] == 'kj::Exception'), z3.Int('n_messages') == 0))]}
        S.function('bliss::' + rn, b_r1, contracts=C, name=rn)

    # ------------------------------------------------------------ opening: over open(2)
    O_WRONLY, O_CREAT, O_TRUNC, O_ACCMODE, O_APPEND = 1, 0o100, 0o1000, 3, 0o2000

    def c_open(E, st, e):
        def f(s, vs):
            p = rd(E, s, vs[0])
            fl = z3.simplify(rd(E, s, vs[1]))
            fd = z3.Int(E.fresh_name('fd'))
            s.pc += [fd >= -1]
            s.frames[0].env['g:open'] = E.newcell(s, N('struct', {'path': p['id'], 'flags': fl, 'fd': fd}, 'open'))
            E.assumptions.add('contract of open(2): a descriptor of the file at the path, or -1; O_TRUNC empties it')
            return [(s, fd)]
        return E.bind(stdlib.vals_any(E, e['a'][:2], st), f)
    str_ = lambda E, st, e: [(st, E.fresh('std::basic_string<char>', 'text'))]
    Co = {'std::basic_string_view::data': lambda E, st, e, ol: [(st, E.read(st, ol))], 'open': c_open, 'stat': lambda E, st, e: [(st, z3.Int(E.fresh_name('stat')))],
          'strerror': str_, '__errno_location': lambda E, st, e: [(st, Ptr(E.newcell(st, IV(0)), None))], 'fmt::format': str_, 'fmt::print': stdlib.ignore_str,
          'ctor:stat': lambda E, st, e: [(st, Opq('stat'))], 'std::basic_string::c_str': lambda E, st, e, ol: [(st, E.read(st, ol))],
          'default:stat': lambda E, t: Opq('stat')}
    for t, write in (('raii_file_for_write', True), ('raii_file_for_read', False)):
        def b_open(E, st, F):
            this = E.newcell(st, E.default(D + t))

            def post(E, s, r):
                if 'g:open' not in s.frames[0].env:
                    return [('opens-the-file', z3.BoolVal(False))]
                o = E.read(s, s.frames[0].env['g:open'])
                fl = o['flags']
                ok = z3.is_int_value(fl)
                v = fl.as_long() if ok else 0
                acc = v & O_ACCMODE
                good = ok and (acc in (1, 2) and v & O_CREAT and v & O_TRUNC if write else acc in (0, 2) and not v & O_TRUNC)
                return [('the-file-at-the-path', o['path'] == path), ('emptied' if write else 'not-changed', z3.BoolVal(bool(good))), ('descriptor-kept', z3.And(E.read(s, this)['_fd'] == o['fd'], o['fd'] >= 0))]

            def thrown(E, s):
                o = E.read(s, s.frames[0].env['g:open']) if 'g:open' in s.frames[0].env else None
                return [('only-when-it-cannot-be-opened', o['fd'] < 0 if o is not None else z3.BoolVal(False))]
            return {'this': this, 'args': [N('str', {'id': path})], 'post': post, 'throws': thrown}
        S.function(D + t + '::ctor', b_open, sig='basic_string_view', contracts=Co, name=t)

    # ------------------------------------------------------------ choice of format
    OPT = {'strings': True}
    fpath, fmt_ = z3.String('file_path'), z3.String('format')

    def c_call(kind, returns):
        def h(E, st, e):
            def f(s, vs):
                vs = [rd(E, s, v) for v in vs]
                s.frames[0].env['g:call'] = E.newcell(s, N('struct', dict([('kind', z3.StringVal(kind))] + [('a%d' % i, v['id']) for i, v in enumerate(vs)]), 'call'))
                return [(s, levels.ident(z3.Int('from_' + kind), returns) if returns else None)]
            return E.bind(stdlib.vals_any(E, e['a'], st), f)
        return h
    Ch = dict(names.contracts())
    def c_print(E, st, e):
        a = e['a'][0]
        while a['k'] in ('Cast', 'Ctor') and (a.get('e') or a.get('a')):
            a = a['e'] if a['k'] == 'Cast' else a['a'][0]
        if a['k'] != 'Str':
            raise Unsupported('format that is not a literal')
        want = len(re.findall(r'\{[^{}]*\}', a['v'].replace('{{', '').replace('}}', '')))
        E.oblige(st, 'every-field-has-an-argument', z3.BoolVal(want <= len(e['a']) - 1), e['ln'], 'spec')
        return E.bind(stdlib.vals_any(E, e['a'][1:], st), lambda s, vs: [(s, None)])
    Ch['fmt::print'] = c_print
    for t in ('', 'scan_'):
        for k in ('capnp', 'dat'):
            Ch['bliss::write_%shits_to_%s_file' % (t, k)] = c_call(k, None)
            Ch['bliss::read_%shits_from_%s_file' % (t, k)] = c_call(k, SC if t else 'std::list')

    def called(E, s):
        g = s.frames[0].env.get('g:call')
        return E.read(s, g) if g is not None else None

    def b_wf(E, st, F):
        opaque(E)
        x = z3.Int('whole')
        sfx = lambda t: z3.SuffixOf(z3.StringVal(t), fpath)
        text = z3.Or(fmt_ == 'dat', z3.And(fmt_ == '', sfx('.dat')))
        st.pc += [z3.Length(fpath) < 2 ** 31]

        def post(E, s, r):
            c = called(E, s)
            if c is None:
                return [('writes-a-file', z3.BoolVal(False))]
            return [('format', (c['kind'] == 'dat') == text), ('file-named', c['a1'] == fpath), ('what-was-given', c['a0'] == x)]
        return {'args': [levels.ident(x, SC), N('str', {'id': fpath}), N('str', {'id': fmt_})], 'post': post}
    S.function('bliss::write_scan_hits_to_file', b_wf, contracts=Ch, opts=OPT, name='write_scan_hits_to_file')
    for nm in ('read_hits_from_file', 'read_scan_hits_from_file'):
        def b_rf(E, st, F):
            opaque(E)
            binary = z3.Or(fmt_ == '', fmt_ == 'capnp')

            def post(E, s, r):
                c = called(E, s)
                if c is None:
                    return [('reads-a-file', z3.BoolVal(False))]
                return [('known-format', z3.Or(binary, c['kind'] == 'dat')), ('binary', z3.Implies(binary, c['kind'] == 'capnp')), ('file-named', c['a0'] == fpath), ('what-was-read', rd(E, s, r)['id'] == z3.If(c['kind'] == 'dat', z3.Int('from_dat'), z3.Int('from_capnp')))]
            return {'args': [N('str', {'id': fpath}), N('str', {'id': fmt_})], 'post': post, 'throws': lambda E, s: [('not-for-binary-files', z3.Not(binary)), ('unknown-formats-as-invalid-argument', z3.Implies(z3.Not(z3.Or(fmt_ == 'dat', fmt_ == 'turboseti')), z3.BoolVal(s.sig[1] == 'std::invalid_argument')))]}
        S.function('bliss::' + nm, b_rf, contracts=Ch, opts=OPT, name=nm)

"""text hit files (bliss/file_types/dat_file.cpp) and the hits of a scan (bliss/core/scan.cpp)

A text is a sequence of pieces: characters, values printed under a format, other texts.  Its identity is the fold of
uninterpreted 'append' functions over its pieces, so that two texts with the same pieces in the same order are equal and
a loop that appends to a text is described by a recursive definition."""
import re
import z3
from fractions import Fraction
from dv.session import Q
from dv.engine import IV, RV, I, R, B, N, Ptr, Loc, Opq, Unsupported, coerce, is_z, tsel
from dv import stdlib
from . import levels, loopkit
from .levels import SC, CC, rd, ident

STOPS = [r'^fmt::', r'^bliss::(scan|hit|detail|coarse_channel)\b']
UNITS = [('bliss/file_types/dat_file.cpp', [r'^format_\w+', r'^bliss::write_scan_hits_to_dat_file'], STOPS),
         ('bliss/core/scan.cpp', [r'^bliss::scan::hits\b'], [r'^bliss::scan::(read_coarse_channel|get_number_coarse_channels)', r'^bliss::coarse_channel::', r'^fmt::', r'^bliss::hit'])]
LIST = 'std::list<bliss::hit, std::allocator<bliss::hit>>'
CH = z3.Function('append_char', I, I, I)
SUB = z3.Function('append_text', I, I, I)
LEN = z3.Function('length_of_text', I, I)
FLD = {}


def fld(spec, sort):
    return FLD.setdefault((spec, str(sort)), z3.Function('append_field{%s}:%s' % (spec, sort), I, sort, I))


class Texts:
    """pieces of the texts built so far, by identity"""

    def __init__(self, E):
        self.E, self.known = E, {IV(0).get_id(): []}
        self.keep = []

    def of(self, v):
        if isinstance(v, N) and v.kind == 'str':
            v = v['id']
        v = z3.simplify(v) if z3.is_expr(v) else v
        if v.get_id() in self.known:
            return self.known[v.get_id()]
        if z3.is_int_value(v) and v.as_long() < 0:
            for s, k in self.E.strs.items():
                if k == -v.as_long():
                    return [('c', c) for c in s]
        return [('t', v)]

    def build(self, base, pieces):
        """text of 'base' followed by pieces"""
        t, known = base, list(self.of(base)) if base is not None else []
        if base is None or (z3.is_int_value(t) and t.as_long() < 0):
            t, known, pieces = IV(0), [], (known if base is not None else []) + list(pieces)
        for p in pieces:
            t = CH(t, IV(ord(p[1]))) if p[0] == 'c' else SUB(t, p[1]) if p[0] == 't' else fld(p[1], p[2].sort())(t, p[2])
        known = known + list(pieces)
        t = z3.simplify(t)
        self.keep.append(t)
        self.known[t.get_id()] = known
        return N('str', {'id': t}, None)

    def parse(self, fmt, args):
        """pieces of a formatted text"""
        out, i, n = [], 0, 0
        while i < len(fmt):
            c = fmt[i]
            if c in '{}' and fmt[i:i + 2] == c * 2:
                out.append(('c', c))
                i += 2
            elif c == '{':
                j = fmt.index('}', i)
                m = re.fullmatch(r'(?P<n>\d*)(:(?P<s>.*))?', fmt[i + 1:j])
                if not m:
                    raise Unsupported('format field %s' % fmt[i:j + 1])
                k = int(m['n']) if m['n'] else n
                n += not m['n']
                if k >= len(args):
                    raise Unsupported('format with too few arguments')
                out += self.field(m['s'] or '', args[k])
                i = j + 1
            else:
                out.append(('c', c))
                i += 1
        return out

    def field(self, spec, v):
        m = re.fullmatch(r'(0?)(\d*)(?:\.(\d+))?([a-z]?)', spec)
        if isinstance(v, N) and v.kind == 'str' and spec == '':
            return self.of(v)
        if not m or not is_z(v):
            raise Unsupported('format field {:%s}' % spec)
        z, w, p, t = m.groups()
        if t == 'f':
            p = p or '6'
            if int(w or 0) <= int(p) + 2:
                z, w = '', ''
        if t == 'd':
            t = ''
        return [('f', '%s%s%s%s' % (z, w, '.' + p if p else '', t), v)]


def world(E):
    T = Texts(E)
    C = {}

    def c_format(E, st, e):
        def g(a):
            while a['k'] in ('Cast', 'Ctor') and (a.get('e') or a.get('a')):
                a = a['e'] if a['k'] == 'Cast' else a['a'][0]
            if a['k'] != 'Str':
                raise Unsupported('format that is not a literal')
            return a['v']
        lit = g(e['a'][0])

        def f(s, vs):
            vals = [rd(E, s, v) for v in vs]
            vals = [N('struct', {}) if isinstance(v, Opq) else v for v in vals]
            for k, a in enumerate(e['a'][1:]):
                t = E.deref(a.get('t', '')) if hasattr(E, 'deref') else a.get('t', '')
                if t.replace('&', '').replace('const ', '').strip() == 'char' and is_z(vals[k]):
                    v = z3.simplify(vals[k])
                    vals[k] = N('str', {'id': T.build(None, [('f', 'c', v)])['id']}, None)
            E.assumptions.add('contract of fmt::format: the literal with each replacement field printed under its format (validated by the harness)')
            return [(s, T.build(None, T.parse(lit, vals)))]
        return E.bind(stdlib.vals_any(E, e['a'][1:], st), f)

    def c_ctor(E, st, e):
        if not e['a']:
            return [(st, N('str', {'id': IV(0)}, None))]
        return E.bind(stdlib.vals_any(E, e['a'][:1], st), lambda s, vs: [(s, rd(E, s, vs[0]))])

    def c_plus(E, st, e, ol):
        def f(s, vs):
            v = rd(E, s, vs[0])
            if is_z(v):
                ps = [('c', chr(z3.simplify(v).as_long()))] if z3.is_int_value(z3.simplify(v)) else [('f', 'c', v)]
            else:
                ps = T.of(v)
            E.write(s, ol, T.build(E.read(s, ol)['id'], ps))
            return [(s, ol)]
        return E.bind(stdlib.vals_any(E, e['a'][:1], st), f)

    def c_sum(E, st, e):
        def f(s, vs):
            a, b = [rd(E, s, v) for v in vs]
            return [(s, T.build(T.build(None, T.of(a))['id'], T.of(b)))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)

    def c_write(E, st, e):
        def f(s, vs):
            fd, p, n = [rd(E, s, v) for v in vs]
            w = E.read(s, s.frames[0].env['g:file'])
            E.oblige(s, 'writes-the-whole-text', z3.And(fd == w['fd'], n == LEN(p['id'])), e['ln'], 'spec')
            t = T.build(w['text'], T.of(p))
            E.write(s, s.frames[0].env['g:file'], w.set(text=t['id']))
            E.assumptions.add('contract of write(2): all bytes are appended to the file')
            return [(s, n)]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)

    def c_open(E, st, e):
        def f(s, vs):
            fd = z3.Int('fd')
            s.frames[0].env['g:file'] = E.newcell(s, N('struct', {'path': rd(E, s, vs[0])['id'], 'fd': fd, 'text': IV(0)}, 'file'))
            E.assumptions.add('contract of raii_file_for_write: the file at the path is opened and emptied, or an exception thrown (verified for P36)')
            bad = s.fork()
            bad.sig = ('throw', 'std::runtime_error')
            return [(s, N('struct', {'_fd': fd}, 'raii')), (bad, None)]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    C.update({'fmt::format': c_format, 'fmt::print': stdlib.ignore_str, 'ctor:std::basic_string': c_ctor, 'std::basic_string::operator+=': c_plus, 'std::basic_string::append': c_plus, 'std::basic_string::push_back': c_plus,
              'std::operator+': c_sum,
              'std::basic_string::operator=': levels.assign, 'std::basic_string::c_str': lambda E, st, e, ol: [(st, E.read(st, ol))], 'std::basic_string::data': lambda E, st, e, ol: [(st, E.read(st, ol))],
              'std::basic_string::size': lambda E, st, e, ol: [(st, LEN(E.read(st, ol)['id']))], 'std::basic_string::length': lambda E, st, e, ol: [(st, LEN(E.read(st, ol)['id']))],
              'write': c_write, 'ctor:bliss::detail::raii_file_for_write': c_open})
    return T, C


def same(expect, got):
    """obligations that a text has the expected pieces; a field is a pair (format, predicate of the value printed)"""
    def merge(ps):
        out = []
        for p in ps:
            if p[0] == 'c' and out and out[-1][0] == 'c':
                out[-1] = ('c', out[-1][1] + p[1])
            else:
                out.append(p)
        return out
    e, g = merge(expect), merge(got)
    shape = lambda p: (p[0], p[1] if p[0] != 't' else None)
    if [shape(p) for p in e] != [shape(p) for p in g]:
        k = next((i for i, (a, b) in enumerate(zip(e, g)) if shape(a) != shape(b)), min(len(e), len(g)))
        return [('layout-of-the-text (piece %d)' % k, z3.BoolVal(False))]
    obs = [('layout-of-the-text', z3.BoolVal(True))]
    for a, b in zip(e, g):
        if a[0] == 'f':
            obs.append((a[3], a[2](b[2])))
        elif a[0] == 't':
            obs.append((a[2], b[1] == a[1]))
    return obs


def lit(s):
    return [('c', c) for c in s]


def num(v):
    return coerce(v, R)


def verify(S):
    raj, dej = z3.Real('raj'), z3.Real('dej')
    # ------------------------------------------------------------ sexagesimal
    env = {}

    def keepvals(name, post):
        def p(v):
            env[name] = num(v)
            return post(num(v))
        return p
    whole = lambda v: z3.ToReal(z3.ToInt(v)) == v
    sixty = lambda v: z3.And(v >= 0, v < 60)

    def start(E, s, C):
        """contracts at the start of a function: the texts known are those of this exploration"""
        T, c = world(E)
        C.clear()
        C.update(c)
        E.C.update(c)
        return T

    def sexa(name, x, sign, u, unit, decimals, tol, pre):
        C = {}

        def build(E, st, F):
            T = start(E, st, C)
            st.pc.append(pre(x))

            def post(E, s, r):
                got = T.of(rd(E, s, r))
                exp = ([('f', 'c', lambda v: v == z3.If(x >= 0, IV(ord('+')), IV(ord('-'))), 'sign')] if sign else [])
                exp += [('f', '02', keepvals('a', lambda v: v >= 0), 'leading-unit-not-negative')] + lit(u)
                exp += [('f', '02', keepvals('b', sixty), 'minutes-below-60')] + lit('m')
                exp += [('f', '0%d.%df' % (3 + decimals, decimals), keepvals('c', lambda v: z3.And(sixty(v), whole(v * 10 ** decimals))), 'seconds-below-60-at-the-printed-precision')] + lit('s')
                obs = same(exp, got)
                if len(obs) > 1:
                    a = z3.If(x >= 0, x, -x)
                    d = env['a'] * 3600 + env['b'] * 60 + env['c'] - a * 3600
                    obs.append(('equal-to-the-angle-to-half-a-unit-of-the-last-place', z3.And(d <= tol, -d <= tol)))
                return obs
            return {'args': [x], 'post': post}
        S.function(name, build, contracts=C, name=name)
    sexa('format_archours_to_sexagesimal', raj, False, 'h', 'hours', 3, RV('1/2000'), lambda x: z3.And(x >= 0, x <= 10 ** 6))
    sexa('format_degrees_to_sexagesimal', dej, True, 'd', 'degrees', 2, RV('1/200'), lambda x: z3.And(x >= -10 ** 6, x <= 10 ** 6))

    # ------------------------------------------------------------ one row per hit
    n = z3.Int('n_hits')
    ROWS = z3.Function('rows_of_the_first', I, I)
    W = {}

    def row(T, k):
        h = tsel(W['D'], k)
        first = h['start_freq_MHz']
        last = first + h['duration_sec'] * h['drift_rate_Hz_per_sec'] / RV(1000000)
        mid = (first + last) / 2
        cols = [('06', k + 1), ('.6f', h['drift_rate_Hz_per_sec']), ('.6f', h['snr']), ('.6f', mid), ('.6f', mid), ('', h['start_freq_index']), ('.6f', first), ('.6f', last),
                ('.6f', RV(0)), ('.6f', RV(0)), ('', h['coarse_channel_number']), ('', h['binwidth'])]
        ps = []
        for i, (f, v) in enumerate(cols):
            ps += ([('c', '\t')] if i else []) + [('f', f, v)]
        return ps + [('c', '\n')]

    def rows(T, k):
        t = ROWS(k)
        for p in row(T, k):
            t = CH(t, IV(ord(p[1]))) if p[0] == 'c' else fld(p[1], p[2].sort())(t, p[2])
        return [ROWS(0) == 0, ROWS(k + 1) == t]
    Cr = {}

    def b_rows(E, st, F):
        T = start(E, st, Cr)
        W['T'] = T
        hits = E.fresh(LIST, 'hits').set(len=n)
        W['D'] = hits['data']
        st.pc += [n >= 0, n < 2 ** 31 - 1, ROWS(0) == 0]

        def post(E, s, r):
            return [('one-row-per-hit-in-order', rd(E, s, r)['id'] == ROWS(n))]
        return {'args': [hits], 'post': post}

    def m_rows(E, node, st, ordn):
        def inv(c):
            i, facts = loopkit.counter(c)
            txt = None
            for fr in reversed(c.st.frames):
                for nm, key in fr.names.items():
                    if key in fr.env:
                        try:
                            x = c.E.read(c.st, fr.env[key])
                        except Exception:
                            continue
                        if isinstance(x, N) and x.kind == 'str' and txt is None:
                            txt = x
            if txt is None:
                raise Unsupported('text of the rows not recognised')
            return [('range', z3.And([i >= 0, i <= n] + facts)), ('rows-so-far', Q([], lambda: txt['id'] == ROWS(i), use=lambda: rows(W['T'], i) + rows(W['T'], i - 1)))]
        return inv
    S.function('format_hits_to_dat_list', b_rows, contracts=Cr, loops={'match': m_rows}, name='rows')

    # ------------------------------------------------------------ header and file
    x, path = z3.Int('scan'), z3.Int('path')
    get = {k: z3.Function(k, I, s) for k, s in (('src_raj', R), ('src_dej', R), ('tstart', R), ('tsamp', R), ('foff', R), ('ntsteps', I), ('source_name', I), ('get_file_path', I), ('hits', I))}
    RA, DEC, TAB = z3.Function('archours_text', R, I), z3.Function('degrees_text', R, I), z3.Function('table_text', I, I)
    Cw = {}

    def b_write(E, st, F):
        T = start(E, st, Cw)
        levels.opaque(E, SC)

        def getter(k):
            def h(E, st, e, ol):
                v = get[k](E.read(st, ol)['id'])
                if k == 'hits':
                    v = ident(v, LIST)
                elif k in ('source_name', 'get_file_path'):
                    v = N('str', {'id': v}, None)
                E.assumptions.add('contracts of the accessors of a scan (metadata present)')
                return [(st, v)]
            return h
        c = {'bliss::scan::' + k: getter(k) for k in get}
        txt = lambda f, what: lambda E, st, e: E.bind(stdlib.vals_any(E, e['a'], st), lambda s, vs: (E.assumptions.add('contract of the %s text (verified in this check)' % what), [(s, N('str', {'id': f(num(rd(E, s, vs[0])))}, None))])[1])
        c['format_archours_to_sexagesimal'] = txt(RA, 'right ascension')
        c['format_degrees_to_sexagesimal'] = txt(DEC, 'declination')
        c['format_hits_to_dat_list'] = lambda E, st, e: E.bind(stdlib.vals_any(E, e['a'], st), lambda s, vs: [(s, N('str', {'id': TAB(rd(E, s, vs[0])['id'])}, None))])
        c['ctor:std::list'] = levels.ctor
        c['std::list::size'] = lambda E, st, e, ol: [(st, z3.Int(E.fresh_name('size')))]
        c['ctor:' + SC] = levels.ctor
        Cw.update(c)
        E.C.update(c)

        def post(E, s, r):
            if 'g:file' not in s.frames[0].env:
                return [('writes-a-file', z3.BoolVal(False))]
            w = E.read(s, s.frames[0].env['g:file'])
            g = lambda k: get[k](x)
            is_ = lambda v: lambda y: num(y) == num(v)
            rule = '# -------------------------- o --------------------------\n'
            thin = '# --------------------------\n'
            exp = lit(rule + '# File ID: ') + [('t', g('get_file_path'), 'path-of-the-scan')] + lit('\n' + rule + '# Source:') + [('t', g('source_name'), 'name-of-the-source')]
            exp += lit('\n# MJD: ') + [('f', '', is_(g('tstart')), 'start-time')] + lit('\tRA: ') + [('t', RA(g('src_raj')), 'right-ascension')] + lit('\tDEC:') + [('t', DEC(g('src_dej')), 'declination')]
            exp += lit('\n# DELTAT: ') + [('f', '.6f', is_(g('tsamp')), 'sampling-time')] + lit('\tDELTAF(Hz):  ') + [('f', '.6f', is_(g('foff') * 10 ** 6), 'channel-width-in-hertz')]
            exp += lit(' max_drift_rate: n/a\tobs_length: ') + [('f', '.6f', is_(z3.ToReal(g('ntsteps')) * g('tsamp')), 'observation-length')]
            exp += lit('\n' + thin + '# ' + '\t'.join(['Top_Hit_#', 'Drift_Rate', 'SNR', 'Uncorrected_Frequency', 'Corrected_Frequency', 'Index', 'freq_start', 'freq_end', 'SEFD', 'SEFD_freq', 'Coarse_Channel_Number', 'Full_number_of_hits']) + '\n' + thin)
            exp += [('t', TAB(g('hits')), 'rows-of-the-hits-of-the-scan')]
            return [('in-the-file-named', w['path'] == path)] + same(exp, T.of(w['text']))
        return {'args': [ident(x, SC), N('str', {'id': path})], 'post': post, 'throws': lambda E, s: [('only-when-the-file-cannot-be-opened', z3.BoolVal(s.sig[1] == 'std::runtime_error'))]}
    S.function('bliss::write_scan_hits_to_dat_file', b_write, contracts=Cw, name='file')

    # ------------------------------------------------------------ the hits of a scan: those of its channels, in order
    nc = z3.Int('n_channels')
    CHAN, HITS, JOIN, ALL = z3.Function('channel_of_scan', I, I, I), z3.Function('hits_of_channel', I, I), z3.Function('followed_by', I, I, I), z3.Function('hits_of_the_first', I, I)
    FAILS, NUL = z3.Function('has_no_hits', I, B), z3.Function('no_channel', I, B)

    def upto(k):
        c = CHAN(x, k)
        return [ALL(0) == 0, ALL(k + 1) == z3.If(z3.Or(FAILS(c), NUL(c)), ALL(k), JOIN(ALL(k), HITS(c)))]

    def list_ins(E, st, e, ol):
        def f(s, vs):
            at, a, b = [rd(E, s, v) for v in vs]
            me = E.read(s, ol)
            if not (isinstance(at, N) and at.kind == 'pos' and isinstance(a, N) and isinstance(b, N)):
                raise Unsupported('insertion of a range')
            E.oblige(s, 'appends-a-whole-list', z3.And(at['l'] == me['id'], at['end'], a['l'] == b['l'], z3.Not(a['end']), b['end']), e['ln'], 'spec')
            E.write(s, ol, ident(JOIN(me['id'], a['l']), LIST))
            E.assumptions.add('contract of std::list::insert of a range at the end')
            return [(s, None)]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    pos = lambda end: lambda E, st, e, ol: [(st, N('pos', {'l': E.read(st, ol)['id'], 'end': z3.BoolVal(end)}, None))]

    def c_read(E, st, e, ol):
        def f(s, vs):
            i = rd(E, s, vs[0])
            E.oblige(s, 'channel-of-the-scan', z3.And(i >= 0, i < nc, E.read(s, ol)['id'] == x), e['ln'], 'spec')
            E.assumptions.add('contract of read_coarse_channel (verified for P30)')
            cell = E.newcell(s, ident(CHAN(x, i), CC))
            none = s.fork()
            none.pc.append(NUL(CHAN(x, i)))
            s.pc.append(z3.Not(NUL(CHAN(x, i))))
            return [(s, Ptr(cell, None)), (none, Ptr(None, None, True))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)

    def c_hits(E, st, e, ol):
        i = E.read(st, ol)['id']
        bad = st.fork()
        bad.sig = ('throw', 'std::logic_error')
        bad.pc.append(FAILS(i))
        st.pc.append(z3.Not(FAILS(i)))
        E.assumptions.add('contract of coarse_channel::hits: the hits of the channel, or std::logic_error')
        return [(st, ident(HITS(i), LIST)), (bad, None)]
    Ch = {'bliss::scan::read_coarse_channel': c_read, 'bliss::scan::get_number_coarse_channels': lambda E, st, e, ol: [(st, nc)], 'bliss::coarse_channel::hits': c_hits,
          'ctor:std::list': lambda E, st, e: [(st, ident(IV(0), LIST))] if not e['a'] else levels.ctor(E, st, e),
          'std::list::insert': list_ins, 'fmt::print': stdlib.ignore_str, 'std::exception::what': lambda E, st, e, ol: [(st, N('str', {'id': z3.Int('what')}, None))],
          'std::logic_error::what': lambda E, st, e, ol: [(st, N('str', {'id': z3.Int('what')}, None))]}
    for m, end in (('end', True), ('cend', True), ('begin', False), ('cbegin', False)):
        Ch['std::list::' + m] = pos(end)

    def b_hits(E, st, F):
        levels.opaque(E, SC)
        levels.opaque(E, CC)
        levels.opaque(E, LIST)
        st.pc += [nc >= 0, nc < 2 ** 31 - 1, ALL(0) == 0]
        return {'this': E.newcell(st, ident(x, SC)), 'args': [], 'post': lambda E, s, r: [('hits-of-every-channel-in-order', rd(E, s, r)['id'] == ALL(nc))]}

    def m_hits(E, node, st, ordn):
        def inv(c):
            i, facts = loopkit.counter(c)
            L = None
            for fr in reversed(c.st.frames):
                for nm, key in fr.names.items():
                    if key in fr.env:
                        try:
                            v = c.E.read(c.st, fr.env[key])
                        except Exception:
                            continue
                        if isinstance(v, N) and 'id' in v.f and str(v.meta).startswith('std::list') and L is None:
                            L = v
            if L is None:
                raise Unsupported('list of hits not recognised')
            return [('range', z3.And([i >= 0, i <= nc] + facts)), ('hits-so-far', Q([], lambda: L['id'] == ALL(i), use=lambda: upto(i) + upto(i - 1)))]
        return inv
    S.function('bliss::scan::hits', b_hits, contracts=Ch, loops={'match': m_hits}, name='hits')

"""the response of the coarse channels (bliss/preprocess/passband_static_equalize.cpp) and the program that writes it

The trigonometric functions are uninterpreted except for the bounds stated here; the spectrum of an array is an uninterpreted
function of its elements (its value is the subject of P13), sums and maxima likewise (P08)."""
import math
from fractions import Fraction
import z3
from dv.session import Q
from dv.engine import IV, RV, I, R, B, N, Loc, Ptr, Opq, Unsupported, absr, coerce
from dv import ndmodel as M, stdlib, valarr as V
from . import levels, loopkit, names, driver
from .levels import rd
from .driver import given, argument

SRC = 'bliss/preprocess/passband_static_equalize.cpp'
UNITS = [(SRC, [r'^bliss::firdes\b', r'^bliss::gen_coarse_channel_response\b', r'^(hamming_window|sinc|sinc_lpf)\b'], [r'^bland::']),
         ('bliss/bliss_generate_channelizer_response.cpp', [r'^main\b'], [r'^clipp::', r'^bliss::', r'^bland::', r'^fmt::'])]
PI = RV(str(Fraction(math.pi)))
COS, SIN = z3.Function('cos', R, R), z3.Function('sin', R, R)
HAM, SINC = z3.Function('window_value', I, I, R), z3.Function('sinc_value', R, R)
RECIP = z3.Function('reciprocal', I, R)


def dec(x):
    return RV(str(Fraction(str(x))))


def proto(i, n, fc):
    return SINC(fc * (z3.ToReal(i) - z3.ToReal(n - 1) / 2)) * HAM(i, n)


def cos_contract(E, st, e):
    def f(s, vs):
        x = coerce(rd(E, s, vs[0]), R)
        c = COS(x)
        s.pc += [c >= -1, c <= 1, 1 - x * x / 2 <= c]
        E.assumptions.add('contract of cos: between -1 and 1 and not below 1 - x^2/2')
        return [(s, c)]
    return E.bind(stdlib.vals_any(E, e['a'], st), f)


def sin_contract(E, st, e):
    def f(s, vs):
        x = coerce(rd(E, s, vs[0]), R)
        E.assumptions.add('contract of sin: within x^3/6 of x')
        return [(s, SIN(x))]
    return E.bind(stdlib.vals_any(E, e['a'], st), f)


def floats(E, n, a):
    return N('vec', {'len': n, 'data': a}, 'float')


def the_vec(c, n):
    """the list of numbers being built"""
    out = []
    for fr in reversed(c.st.frames):
        for nm, key in fr.names.items():
            if key in fr.env:
                try:
                    x = c.E.read(c.st, fr.env[key])
                except Exception:
                    continue
                if isinstance(x, N) and x.kind == 'vec' and z3.is_array(x['data']) and x['data'].sort().range() == R:
                    out.append(x)
    if len(out) != 1:
        raise Unsupported('list of numbers not recognised')
    return out[0]


def verify(S):
    n, fc, t = z3.Int('num_taps'), z3.Real('fc'), z3.Real('t')
    trig = {k: cos_contract for k in ('cos', 'cosf', 'std::cos')}
    trig.update({k: sin_contract for k in ('sin', 'sinf', 'std::sin')})

    # ------------------------------------------------------------ window
    def ham(k, n):
        return dec(0.54) - dec(0.46) * COS(2 * PI * z3.ToReal(k) / z3.ToReal(n - 1))

    def close(x, y):
        return z3.And(x - y <= dec(1e-6), y - x <= dec(1e-6))

    def b_ham(E, st, F):
        st.pc += [n >= 2, n < 2 ** 31]
        E.assumptions.add('precondition: at least two taps')

        def post(E, s, r):
            v = rd(E, s, r)
            return [('as-many-values-as-taps', v['len'] == n), ('hamming-window', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < n), close(v['data'][k], ham(k, n)))))]
        return {'args': [n], 'post': post}

    def m_ham(E, node, st, ordn):
        def inv(c):
            i, facts = loopkit.counter(c)
            v = the_vec(c, n)
            return [('range', z3.And([i >= 0, i <= n, v['len'] == i] + facts)), ('values', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < i), close(v['data'][k], ham(k, n))), pats=lambda k: v['data'][k]))]
        return inv
    S.function('hamming_window', b_ham, contracts=trig, loops={'match': m_ham}, name='hamming_window')

    # ------------------------------------------------------------ sinc
    def b_sinc(E, st, F):
        x = PI * t

        def post(E, s, r):
            r = coerce(r, R)
            s.pc += [z3.Implies(absr(x) <= dec(0.1), z3.And(SIN(x) - x <= absr(x) * dec(0.002), x - SIN(x) <= absr(x) * dec(0.002)))]
            return [('sine-over-argument', z3.Implies(absr(x) >= dec(0.02), r * x == SIN(x))),
                    ('one-near-zero', z3.Implies(absr(x) < dec(0.02), absr(r - 1) <= dec(0.002)))]
        return {'args': [t], 'post': post}
    S.function('sinc', b_sinc, contracts=trig, name='sinc')

    # ------------------------------------------------------------ prototype
    def c_sinc(E, st, e):
        return E.bind(stdlib.vals_any(E, e['a'], st), lambda s, vs: [(s, SINC(coerce(rd(E, s, vs[0]), R)))])

    def lpf(k):
        return SINC(fc * (z3.ToReal(k) - z3.ToReal(n - 1) / 2))

    def b_lpf(E, st, F):
        st.pc += [n >= 2, n < 2 ** 31]

        def post(E, s, r):
            v = rd(E, s, r)
            return [('as-many-values-as-taps', v['len'] == n), ('centred-sinc', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < n), v['data'][k] == lpf(k))))]
        return {'args': [fc, n], 'post': post}

    def m_lpf(E, node, st, ordn):
        def inv(c):
            i, facts = loopkit.counter(c)
            v = the_vec(c, n)
            return [('range', z3.And([i >= 0, i <= n, v['len'] == i] + facts)), ('values', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < i), v['data'][k] == lpf(k)), pats=lambda k: v['data'][k]))]
        return inv
    S.function('sinc_lpf', b_lpf, contracts={'sinc': c_sinc}, loops={'match': m_lpf}, name='sinc_lpf')

    # ------------------------------------------------------------ taps
    def c_lpf(E, st, e):
        def f(s, vs):
            c, m = coerce(rd(E, s, vs[0]), R), rd(E, s, vs[1])
            k = z3.Int('k!l')
            E.assumptions.add('contracts of hamming_window and sinc_lpf (verified in this module)')
            return [(s, floats(E, m, z3.Lambda([k], SINC(c * (z3.ToReal(k) - z3.ToReal(m - 1) / 2)))))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)

    def c_ham(E, st, e):
        def f(s, vs):
            m, k = rd(E, s, vs[0]), z3.Int('k!h')
            return [(s, floats(E, m, z3.Lambda([k], HAM(k, m))))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)

    def b_fir(E, st, F):
        M.install(E, st)
        st.pc += [n >= 2, n < 2 ** 31]

        def post(E, s, r):
            v = rd(E, s, r)
            d = M.buf(E, s, v)['data']
            sh = M.vals(v['shape'])
            return [('a-value-per-tap', z3.And(z3.BoolVal(len(sh) == 1 and M.is_contig(v) and v.meta == 'float'), sh[0] == n)),
                    ('windowed-sinc', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < n), d[k] == proto(k, n, fc))))]
        return {'args': [n, fc, N('str', {'id': z3.Int('window')})], 'post': post}

    def m_fir(E, node, st, ordn):
        def inv(c):
            i, facts = loopkit.counter(c)
            h = None
            for fr in reversed(c.st.frames):
                for nm, key in fr.names.items():
                    if key in fr.env:
                        try:
                            x = c.E.read(c.st, fr.env[key])
                        except Exception:
                            continue
                        if isinstance(x, N) and x.kind == 'nd':
                            h = x
            if h is None:
                raise Unsupported('array of taps not recognised')
            b = M.buf(c.E, c.st, h)
            return [('range', z3.And([i >= 0, i <= n, b['size'] == n] + facts)), ('values', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < i), b['data'][k] == proto(k, n, fc)), pats=lambda k: b['data'][k]))]
        return inv
    Cf = dict(M.contracts(), sinc_lpf=c_lpf, hamming_window=c_ham)
    S.function('bliss::firdes', b_fir, contracts=Cf, loops={'match': m_fir}, name='firdes')

    # ------------------------------------------------------------ response
    C = V.contracts()

    def c_fir(E, st, e):
        def f(s, vs):
            m, c = rd(E, s, vs[0]), coerce(rd(E, s, vs[1]), R)
            E.oblige(s, 'at-least-two-taps', m >= 2, e['ln'], 'pre')
            E.assumptions.add('contract of firdes (verified in this module)')
            return [(s, V.mk(E, s, 1, IV(1), m, 'float', lambda i, j: proto(j, m, c)))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)

    def spectrum(E, s, m, f):
        """the spectrum of the m values f: equal values have equal spectra"""
        P = z3.Function(E.fresh_name('spectrum'), I, R)
        if E.suppress:
            return P
        for m0, f0, P0 in E.spectra:
            w, k = z3.Int(E.fresh_name('differs_at')), z3.Int('k!s')
            s.pc.append(z3.Or(m0 != m, z3.And(w >= 0, w < m, f0(w) != f(w)), z3.ForAll([k], P(k) == P0(k), patterns=[P(k)])))
            s.pc.append(z3.Or(m0 != m, z3.And(w >= 0, w < m, f0(w) != f(w)), z3.ForAll([k], P(k) == P0(k), patterns=[P0(k)])))
        E.spectra.append((m, f, P))
        return P

    def c_fft(E, st, e):
        def f(s, vs):
            a = rd(E, s, vs[0])
            if a.meta[0] != 1:
                raise Unsupported('spectrum of an array of %d dimensions' % a.meta[0])
            fa = V.snapshot(E, s, a)
            P = spectrum(E, s, a['d1'], lambda j: fa(IV(0), j))
            E.assumptions.add('contract of fft_shift_mag_square: as many values as the operand, depending on its elements only (values proved under P13)')
            return [(s, V.mk(E, s, 1, IV(1), a['d1'], 'float', lambda i, j: P(j)))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)

    def c_reshape(E, st, e, ol):
        def f(s, vs):
            a = rd(E, s, ol)
            rank, d0, d1 = V.dims_of(E, s, rd(E, s, vs[0]))
            if a.meta[0] != 1 or rank != 2:
                raise Unsupported('reshape of %d to %d dimensions' % (a.meta[0], rank))
            E.oblige(s, 'same-number-of-elements', d0 * d1 == a['d1'], e['ln'], 'pre')
            fa = V.snapshot(E, s, a)
            E.assumptions.add('contract of reshape: the same elements in row-major order, the array itself takes the new shape (proved under P03)')
            r = V.mk(E, s, 2, d0, d1, V.elem(a), lambda i, j: fa(IV(0), i * d1 + j))
            E.write(s, ol, r)
            return [(s, r)]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    C.update({'bliss::firdes': c_fir, 'bland::fft_shift_mag_square': c_fft, 'bland::ndarray::reshape': c_reshape, 'std::basic_string::conv': lambda E, st, e, ol: [(st, E.read(st, ol))]})
    Fn, Cn, Tn = z3.Int('fine_per_coarse'), z3.Int('num_coarse_channels'), z3.Int('taps_per_channel')

    def b_gen(E, st, F):
        V.install(E, st)
        E.spectra = []
        half, full = z3.Int('half'), Fn * Cn
        st.pc += [half >= 1, Fn == 2 * half, Cn >= 2, Tn >= 1, Tn <= Fn, full < 2 ** 31, full >= 2 * Fn, Tn * Cn <= full, Tn * Cn >= 2, (Cn * Fn) / Fn == Cn, z3.ToReal(Cn) >= 2]
        E.assumptions.add('preconditions: an even number of fine channels per coarse channel, two or more coarse channels, 1 to fine_per_coarse taps per channel, fewer than 2^31 fine channels')
        E.assumptions.add('lemma: (C*F)/F = C for positive F')
        taps = Tn * Cn
        pad = lambda j: z3.If(j < taps, proto(j, taps, 1 / z3.ToReal(Cn)), RV(0))
        P = spectrum(E, st, full, pad)
        f = E.apps.app(st, 'sum0', Cn - 1, Fn, lambda i, j: P(half + i * Fn + j))
        mx = E.apps.app(st, 'max', IV(1), Fn, lambda i, j: f(j), lambda i, j: z3.BoolVal(True))
        E.assumptions.add('precondition: the folded response is not zero everywhere')
        st.pc.append(mx != 0)

        def post(E, s, r):
            v = rd(E, s, r)
            return [('one-value-per-fine-channel', z3.And(z3.BoolVal(v.meta[0] == 1), v['d1'] == Fn)),
                    ('folded-and-normalised', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < Fn), V.at(E, s, v, IV(0), k) * mx == f(k))))]
        return {'args': [Fn, Cn, Tn, N('str', {'id': z3.Int('window')}), N('str', {'id': z3.Int('device')})], 'post': post}
    S.function('bliss::gen_coarse_channel_response', b_gen, contracts=C, name='gen_coarse_channel_response')

    # ------------------------------------------------------------ program
    Cm = dict(names.contracts(), **driver.cli_contracts({}), **driver.text_contracts())
    RESP = z3.Function('response', I, I, I, I)

    def c_gen(E, st, e):
        def f(s, vs):
            vs = [rd(E, s, v) for v in vs]
            E.assumptions.add('contract of gen_coarse_channel_response: a function of the three counts (verified in this module)')
            return [(s, levels.ident(RESP(*vs[:3]), 'bland::ndarray'))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)

    def c_out(E, st, e):
        def f(s, vs):
            g = s.frames[0].env['g:out']
            o = E.read(s, g)
            E.write(s, g, o.set(n=o['n'] + 1, what=rd(E, s, vs[0])['id'], path=rd(E, s, vs[1])['id']))
            E.assumptions.add('contract of write_to_file (P11)')
            return [(s, None)]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    Cm.update({'bliss::gen_coarse_channel_response': c_gen, 'bland::write_to_file': c_out, 'ctor:bland::ndarray': levels.ctor, 'clipp::man_page::append_section': lambda E, st, e, ol: [(st, Opq('help'))],
               'ctor:clipp::man_page': levels.ctor, 'clipp::man_page::operator=': lambda E, st, e, ol: [(st, ol)],
               'std::operator<<': lambda E, st, e: [(st, Opq('ostream'))], 'std::basic_ostream::operator<<': lambda E, st, e, ol: [(st, Opq('ostream'))]})

    def b_main(E, st, F):
        g = st.frames[0].env['g:out'] = E.newcell(st, N('struct', {'n': IV(0), 'what': IV(-1), 'path': z3.StringVal('')}, 'written'))
        num = lambda d, *ns: z3.If(given(ns), argument(ns, 0, I), IV(d))
        run = z3.And(z3.Bool('parsed'), z3.Not(given(('-h', '--help'))))
        ns = ('-o', '--output')

        def post(E, s, ret):
            o = E.read(s, g)
            return [('nothing-written-otherwise', z3.Implies(z3.Not(run), o['n'] == 0)), ('written-once', z3.Implies(run, o['n'] == 1)),
                    ('of-the-counts-given', z3.Implies(run, o['what'] == RESP(num(1048576, '-f', '--nchan-per-coarse'), num(256, '-M', '--number-coarse'), num(12, '-N', '--taps-per-channel')))),
                    ('to-the-file-named', z3.Implies(run, o['path'] == z3.If(given(ns), argument(ns, 0, z3.StringSort()), z3.StringVal('channelizer_response.f32'))))]
        return {'args': [z3.Int('argc'), Opq('argv')], 'post': post}
    S.function('main', b_main, contracts=Cm, opts={'strings': True}, name='bliss_generate_channelizer_response')

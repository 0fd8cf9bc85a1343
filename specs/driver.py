"""the command line driver (bliss/bliss_find_hits.cpp)

The option parser is a contract: after parsing, the variable an option was bound to holds what was given for it if the option was
given, and is otherwise unchanged.  The stages are uninterpreted functions of the object they are applied to and of every
parameter, so that the object whose hits are written is a term that shows which stages ran, in which order and with what."""
import re
import z3
from fractions import Fraction
from dv.session import Q
from dv.engine import IV, RV, I, R, B, N, Loc, Opq, Ptr, Unsupported, coerce, is_z, leaves, tmap
from dv import stdlib
from . import levels, names, loopkit
from .levels import rd, ident, flat

UNITS = [('bliss/bliss_find_hits.cpp', [r'^main\b'], [r'^clipp::', r'^bliss::', r'^bland::', r'^fmt::'])]
TG, SC = 'bliss::observation_target', 'bliss::scan'
STR = z3.StringSort()
FN, EXT = z3.Function('path.filename', STR, STR), z3.Function('path.with_extension', STR, STR, STR)
NSCANS, SCANAT = z3.Function('number_of_scans', I, I), z3.Function('scan_ids', I, z3.ArraySort(I, I))
HITS = z3.Function('hits_of_scan', I, I)


class Cli(Opq):
    """a piece of the command line description: options with the variables they set"""

    def __init__(self, kind, items):
        Opq.__init__(self, 'cli.' + kind)
        self.kind, self.items = kind, items


def given(names_):
    return z3.Bool('given ' + '|'.join(names_))


def argument(names_, i, sort):
    return z3.Const('argument %d of %s' % (i, '|'.join(names_)), sort)


def cli_contracts(W):
    def texts(E, st, e):
        return E.bind(stdlib.vals_any(E, e['a'], st), lambda s, vs: [(s, [z3.simplify(rd(E, s, v)['id']).as_string() for v in vs])])

    def option(E, st, e):
        return E.bind(texts(E, st, e), lambda s, ns: [(s, Cli('option', [('option', tuple(ns), None, None)]))])

    def value(kind):
        return lambda E, st, e: [(st, Cli(kind, [(kind, None, None, None)]))]

    def places(E, st, A):
        res = [(st, [])]
        for a in A:
            res = E.bind(res, lambda s, vs, a=a: [(s2, vs + [v]) for s2, v in (E.lval(a, s) if a.get('lv') or a['k'] == 'MatTemp' else E.rval(a, s))])
        return res

    def set_(E, st, e, ol):
        def f(s, vs):
            c = rd(E, s, ol)
            k, ns, tgt, const = c.items[0]
            if len(c.items) != 1 or tgt is not None:
                raise Unsupported('command line action on a group')
            if not isinstance(vs[0], Loc):
                raise Unsupported('command line action on %r' % (vs[0],))
            E.write(s, ol, Cli(c.kind, [(k, ns, vs[0], rd(E, s, vs[1]) if len(vs) > 1 else None)]))
            return [(s, ol)]
        return E.bind(places(E, st, e['a']), f)

    def both(op):
        def h(E, st, e):
            def f(s, vs):
                a, b = [rd(E, s, v) for v in vs]
                if not isinstance(a, Cli) or not isinstance(b, Cli):
                    raise Unsupported('command line operator')
                items = list(b.items) if op == '&' else list(a.items) + list(b.items)
                if op == '&':   # an option followed by its values
                    if len(a.items) != 1 or a.items[0][0] != 'option':
                        raise Unsupported('values of something other than an option')
                    items = [('arg', a.items[0][1], i, x) for i, x in enumerate(items)]
                    if any(x[0] not in ('value', 'opt_value') for _, _, _, x in items):
                        raise Unsupported('nested option')
                    if a.items[0][2] is not None:
                        items.insert(0, a.items[0])
                return [(s, Cli('group', items))]
            return E.bind(stdlib.vals_any(E, e['a'], st), f)
        return h

    def doc(E, st, e):
        return E.bind(stdlib.vals_any(E, e['a'], st), lambda s, vs: [(s, vs[0])])

    def new(names_, i, old):
        return tmap(lambda l: argument(names_, i, l.sort()) if is_z(l) else l, old)

    def parse(E, st, e):
        def f(s, vs):
            c = rd(E, s, vs[2])
            for it in c.items:
                if it[0] == 'arg':
                    _, ns, i, (k, _, tgt, const) = it
                    if tgt is None:
                        continue
                    g = given(ns)
                    if k == 'opt_value':
                        g = z3.And(g, z3.Bool('given the %dth value of %s' % (i, '|'.join(ns))))
                    old = E.read(s, tgt)
                    E.write(s, tgt, tmap(lambda n, o: z3.If(g, n, o) if is_z(o) else o, new(ns, i, old) if const is None else const, old))
                elif it[0] == 'option':
                    _, ns, tgt, const = it
                    if tgt is None:
                        continue
                    old = E.read(s, tgt)
                    v = z3.BoolVal(True) if const is None else const
                    E.write(s, tgt, z3.If(given(ns), coerce(v, old.sort()), old))
                elif it[0] == 'values' and it[2] is not None:
                    v = rd(E, s, it[2])
                    E.write(s, it[2], W['files'])
            E.assumptions.add('contract of clipp: each variable bound to an option holds what was given for it, and is unchanged if the option was not given')
            return [(s, Opq('parsed'))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    return {'clipp::option': option, 'clipp::value': value('value'), 'clipp::opt_value': value('opt_value'), 'clipp::values': value('values'),
            'clipp::detail::action_provider::set': set_, 'clipp::operator&': both('&'), 'clipp::operator|': both('|'), 'clipp::operator,': both(','),
            'clipp::detail::operator%': doc, 'clipp::parse': parse, 'ctor:clipp::parameter': levels.ctor, 'ctor:clipp::group': levels.ctor,
            'clipp::make_man_page': lambda E, st, e: [(st, Opq('help'))], 'ctor:clipp::doc_formatting': lambda E, st, e: [(st, Opq('doc'))],
            'clipp::operator<<': lambda E, st, e: [(st, Opq('ostream'))],
            'clipp::parsing_result::conv': lambda E, st, e, ol: [(st, z3.Bool('parsed'))], 'clipp::parsing_result::operator bool': lambda E, st, e, ol: [(st, z3.Bool('parsed'))]}


STAGES = ('normalize', 'equalize_passband_filter', 'flag_filter_rolloff', 'flag_magnitude', 'flag_spectral_kurtosis', 'flag_sigmaclip', 'estimate_noise_power', 'integrate_drifts', 'hit_search', 'filter_hits')


def stage(n, tok, args):
    return z3.Function('stage.%s/%d' % (n, len(args)), *([I] + [a.sort() for a in args] + [I]))(tok, *args)


def target(i):
    return N('struct', {'id': i, '_scans': N('vec', {'len': NSCANS(i), 'data': N('struct', {'id': SCANAT(i)}, SC)}, SC)}, TG)


def c_ext(E, st, e, ol):
    def f(s, vs):
        ext = sid(E, s, vs[0])
        r = EXT(sid(E, s, ol), ext)
        E.assumptions.add('std::filesystem::path::replace_extension: the new name ends in a dot and the extension')
        s.pc.append(z3.Implies(z3.Not(z3.PrefixOf(z3.StringVal('.'), ext)), z3.SuffixOf(z3.Concat(z3.StringVal('.'), ext), r)))
        E.write(s, ol, names.sv(r))
        return [(s, ol)]
    return E.bind(stdlib.vals_any(E, e['a'], st), f)


def sid(E, s, v):
    return rd(E, s, v)['id']


def text_contracts():
    return {'fmt::print': stdlib.ignore_str, 'std::basic_string::operator=': levels.assign, 'std::basic_string::conv': lambda E, st, e, ol: [(st, E.read(st, ol))],
            'ctor:std::filesystem::path': levels.ctor, 'std::filesystem::path::filename': lambda E, st, e, ol: [(st, names.sv(FN(sid(E, st, ol))))],
            'std::filesystem::path::replace_extension': c_ext,
            'std::filesystem::path::string': lambda E, st, e, ol: [(st, E.read(st, ol))], 'std::filesystem::path::conv': lambda E, st, e, ol: [(st, E.read(st, ol))]}


def verify(S):
    W = {}
    OPTS = {'strings': True}

    def stage_contract(n):
        def h(E, st, e):
            def f(s, vs):
                x = rd(E, s, vs[0])
                E.assumptions.add('contract of bliss::%s of an observation target: a function of it and of the parameters (verified under its own property)' % n)
                return [(s, target(stage(n, x['id'], [coerce(a, R) if a.sort() == I and n.startswith('flag') else a for a in flat(E, s, vs[1:])])))]
            return E.bind(stdlib.vals_any(E, e['a'], st), f)
        return h

    def ctor_target(E, st, e):
        def f(s, vs):
            x = rd(E, s, vs[0]) if vs else None
            if isinstance(x, N) and 'id' in x.f:
                return [(s, x)]
            if len(vs) == 2 and x is not None and x.kind == 'vec':
                E.oblige(s, 'input-files-opened', z3.BoolVal(z3.eq(x['len'], W['files']['len']) and z3.eq(x['data']['id'], W['files']['data']['id'])), e['ln'], 'spec')
                return [(s, target(stage('open', IV(0), [rd(E, s, vs[1])])))]
            raise Unsupported('target construction')
        return E.bind(stdlib.vals_any(E, e['a'], st), f)

    def method(n):
        def h(E, st, e, ol):
            def f(s, vs):
                x = rd(E, s, ol)
                t = target(stage(n, x['id'], flat(E, s, vs)))
                if n == 'set_device':
                    E.write(s, ol, t)
                    return [(s, None)]
                return [(s, t)]
            return E.bind(stdlib.vals_any(E, e['a'], st), f)
        return h

    def g(s, k):
        return s.frames[0].env['g:' + k]

    def c_write(E, st, e):
        def f(s, vs):
            sc, path, fmt = [rd(E, s, v) for v in vs]
            n = E.read(s, g(s, 'n'))
            for k, v in (('scan', sc['id']), ('path', path['id']), ('fmt', fmt['id'])):
                E.write(s, g(s, k), z3.Store(E.read(s, g(s, k)), n, v))
            E.write(s, g(s, 'n'), n + 1)
            return [(s, None)]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)

    def c_hits(E, st, e, ol):
        x = rd(E, st, ol)
        return [(st, N('vec', {'len': z3.Int(E.fresh_name('number_of_hits')), 'data': N('struct', {'id': z3.Const(E.fresh_name('hits'), z3.ArraySort(I, I))}, 'bliss::hit'), 'of': x['id']}, 'bliss::hit'))]

    C = dict(names.contracts(), **cli_contracts(W), **text_contracts())
    C.update({'bliss::' + n: stage_contract(n) for n in STAGES})
    C.update({'ctor:' + TG: ctor_target, TG + '::operator=': levels.assign, TG + '::slice_observation_channels': method('slice'), TG + '::set_device': method('set_device'),
              'bliss::write_scan_hits_to_file': c_write, SC + '::hits': c_hits, 'ctor:' + SC: levels.ctor, 'bliss::hit::repr': lambda E, st, e, ol: [(st, E.fresh('std::basic_string<char>', 'text'))],
              'ctor:bland::ndarray::datatype': lambda E, st, e: [(st, N('struct', {'code': z3.Int('default_type')}, 'bland::ndarray::datatype'))]})

    def build(E, st, F):
        E.opts.update(OPTS)
        k = z3.Int('k!f')
        nf = z3.Int('number_of_files')
        W['files'] = N('vec', {'len': nf, 'data': N('str', {'id': z3.Const('files', z3.ArraySort(I, STR))}, None)}, 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>')
        for n, so in (('scan', I), ('path', STR), ('fmt', STR)):
            st.frames[0].env['g:' + n] = E.newcell(st, z3.Const('written_' + n, z3.ArraySort(I, so)))
        st.frames[0].env['g:n'] = E.newcell(st, IV(0))
        st.pc += [nf >= 0, z3.Int('k') == z3.Int('k')]
        a = lambda *ns, i=0, sort=R: argument(ns, i, sort)

        def opt(default, *ns, i=0):
            d = default if z3.is_expr(default) else RV(str(default)) if isinstance(default, (float, Fraction)) else IV(default) if not isinstance(default, str) else z3.StringVal(default)
            return z3.If(given(ns), argument(ns, i, d.sort()), d)
        m = S.P['enums']['bliss::hit_search_methods']['vals']
        est = S.P['enums']['bliss::noise_power_estimator']['vals']
        taps = opt('', '-e', '--equalizer-channel')

        def expected():
            t = stage('open', IV(0), [opt(0, '--nchan-per-coarse')])
            t = stage('slice', t, [opt(0, '-c', '--coarse-channel'), opt(1, '--number-coarse')])
            t = stage('set_device', t, [opt('cuda:0', '-d', '--device'), z3.BoolVal(True)])
            t = stage('normalize', t, [])
            t = z3.If(taps == z3.StringVal(''), stage('flag_filter_rolloff', t, [opt(0.25, '--filter-rolloff')]), stage('equalize_passband_filter', t, [taps, z3.Int('default_type')]))
            t = stage('flag_spectral_kurtosis', t, [opt(0.25, '--sk-low'), opt(50.0, '--sk-high'), opt(2.0, '--sk-d')])
            t = stage('flag_sigmaclip', t, [z3.ToReal(opt(5, '--sigmaclip-iters')), opt(3.0, '--sigmaclip-low'), opt(4.0, '--sigmaclip-high')])
            t = stage('estimate_noise_power', t, [IV(est['STDDEV']), z3.BoolVal(True)])
            des = z3.If(given(('--nodesmear',)), False, z3.If(given(('--desmear',)), True, True))
            t = stage('integrate_drifts', t, [des, opt(-500, '-m', '--min-rate'), opt(500, '-M', '--max-rate'), opt(1, '-rs', '--rate-step')])
            meth = z3.If(given(('--connected-components',)), m['CONNECTED_COMPONENTS'], z3.If(given(('--local-maxima',)), m['LOCAL_MAXIMA'], m['CONNECTED_COMPONENTS']))
            t = stage('hit_search', t, [meth, opt(10.0, '-s', '--snr'), opt(7, '--distance'), z3.BoolVal(True)])
            return stage('filter_hits', t, [z3.BoolVal(True)])
        W['final'] = fin = expected()
        st.pc.append(NSCANS(fin) >= 0)
        st.pc.append(NSCANS(fin) < 2 ** 31)
        st.pc.append(NSCANS(fin) == nf)
        E.assumptions.add('contract of observation_target: one scan per file, kept by every stage')
        st.pc.append(z3.Not(z3.And(given(('--nodesmear',)), given(('--desmear',)))))
        st.pc.append(z3.Not(z3.And(given(('--connected-components',)), given(('--local-maxima',)))))
        out = opt('', '-o', '--output')
        f2 = z3.And(given(('-o', '--output')), z3.Bool('given the 1th value of -o|--output'))
        W['path'] = lambda k: z3.If(out == z3.StringVal(''), EXT(FN(z3.Select(W['files']['data']['id'], k)), z3.StringVal('capnp')), out)
        W['fmt'] = z3.If(out == z3.StringVal(''), z3.StringVal('capnp'), z3.If(f2, argument(('-o', '--output'), 1, STR), z3.StringVal('')))
        W['screen'] = z3.Or(out == z3.StringVal('-'), out == z3.StringVal('stdout'))
        run = z3.And(z3.Bool('parsed'), z3.Not(given(('-h', '--help'))))

        def post(E, s, ret):
            n, sc, pa, fm = [E.read(s, g(s, k)) for k in ('n', 'scan', 'path', 'fmt')]
            files = z3.And(run, z3.Not(W['screen']))
            return [('nothing-written-otherwise', z3.Implies(z3.Not(files), n == 0)),
                    ('every-scan-written-once', z3.Implies(files, n == nf)),
                    ('scan-after-all-stages', Q(['k'], lambda k: z3.Implies(z3.And(files, k >= 0, k < nf), sc[k] == SCANAT(fin)[k]))),
                    ('output-name', Q(['k'], lambda k: z3.Implies(z3.And(files, k >= 0, k < nf), pa[k] == W['path'](k)))),
                    ('output-format', Q(['k'], lambda k: z3.Implies(z3.And(files, k >= 0, k < nf), fm[k] == W['fmt'])))]
        return {'args': [z3.Int('argc'), Opq('argv')], 'post': post}

    def loop(c):
        E, s = c.E, c.st
        i, facts = loopkit.counter(c)
        n, sc, pa, fm = [E.read(s, g(s, k)) for k in ('n', 'scan', 'path', 'fmt')]
        fin, screen = W['final'], W['screen']
        return facts + [('range', z3.And(i >= 0, i <= NSCANS(fin))), ('written', n == z3.If(screen, 0, i)),
                ('scans', Q(['k'], lambda k: z3.Implies(z3.And(z3.Not(screen), k >= 0, k < i), sc[k] == SCANAT(fin)[k]))),
                ('names', Q(['k'], lambda k: z3.Implies(z3.And(z3.Not(screen), k >= 0, k < i), pa[k] == W['path'](k)))),
                ('formats', Q(['k'], lambda k: z3.Implies(z3.And(z3.Not(screen), k >= 0, k < i), fm[k] == W['fmt'])))]

    def shown(c):
        return []
    S.function('main', build, loops={0: loop, 1: shown}, contracts=C, opts=OPTS, name='bliss_find_hits')

"""the program that turns a binary hit file into a table (bliss/bliss_hits_to_dat.cpp)"""
import z3
from dv.engine import IV, RV, I, R, B, N, Loc, Opq, Ptr, Unsupported
from dv import stdlib
from . import levels, names, driver
from .levels import rd, ident
from .driver import FN, EXT, SC, given, argument

UNITS = [('bliss/bliss_hits_to_dat.cpp', [r'^main\b'], [r'^clipp::', r'^bliss::', r'^bland::', r'^fmt::'])]
READ = z3.Function('scan_in_file', z3.StringSort(), I)


def verify(S):
    C = dict(names.contracts(), **driver.cli_contracts({}), **driver.text_contracts())

    def c_read(E, st, e):
        def f(s, vs):
            p = rd(E, s, vs[0])['id']
            E.assumptions.add('contract of read_scan_hits_from_capnp_file: a function of the path, or an exception (P36)')
            bad = s.fork()
            bad.sig = ('throw', 'unreadable')
            return [(s, ident(READ(p), SC)), (bad, None)]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)

    def c_write(E, st, e):
        def f(s, vs):
            g = s.frames[0].env['g:out']
            o = E.read(s, g)
            E.assumptions.add('contract of write_scan_hits_to_dat_file: the table of the scan is written to the path (P37)')
            E.write(s, g, o.set(n=o['n'] + 1, scan=rd(E, s, vs[0])['id'], path=rd(E, s, vs[1])['id']))
            return [(s, None)]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)

    def c_hits(E, st, e, ol):
        return [(st, N('vec', {'len': z3.Int(E.fresh_name('number_of_hits')), 'data': N('struct', {'id': z3.Const(E.fresh_name('hits'), z3.ArraySort(I, I))}, 'bliss::hit')}, 'bliss::hit'))]
    C.update({'bliss::read_scan_hits_from_capnp_file': c_read, 'bliss::write_scan_hits_to_dat_file': c_write, SC + '::hits': c_hits, 'ctor:' + SC: levels.ctor,
              'bliss::hit::repr': lambda E, st, e, ol: [(st, E.fresh('std::basic_string<char>', 'text'))],
              'std::operator<<': lambda E, st, e: [(st, Opq('ostream'))], 'std::basic_ostream::operator<<': lambda E, st, e, ol: [(st, Opq('ostream'))]})

    def build(E, st, F):
        g = st.frames[0].env['g:out'] = E.newcell(st, N('struct', {'n': IV(0), 'scan': IV(-1), 'path': z3.StringVal('')}, 'written'))
        e = z3.StringVal('')
        opt = lambda *ns: z3.If(given(ns), argument(ns, 0, z3.StringSort()), e)
        inp, out = opt('-i', '--input'), opt('-o', '--output')
        screen = z3.Or(out == z3.StringVal('-'), out == z3.StringVal('stdout'))
        run = z3.And(z3.Bool('parsed'), z3.Not(given(('-h', '--help'))), inp != e)

        def post(E, s, ret):
            o = E.read(s, g)
            files = z3.And(run, z3.Not(screen))
            return [('nothing-written-otherwise', z3.Implies(z3.Not(files), o['n'] == 0)), ('written-once', z3.Implies(files, o['n'] == 1)), ('the-scan-in-the-input', z3.Implies(files, o['scan'] == READ(inp))),
                    ('output-name', z3.Implies(files, o['path'] == z3.If(out == e, EXT(FN(inp), z3.StringVal('dat')), out)))]
        return {'args': [z3.Int('argc'), Opq('argv')], 'post': post, 'throws': lambda E, s: [('only-for-an-unreadable-input', z3.And(run, z3.BoolVal(s.sig[1] == 'unreadable'))), ('nothing-written', E.read(s, g)['n'] == 0)]}
    S.function('main', build, loops={0: lambda c: []}, contracts=C, opts={'strings': True}, name='bliss_hits_to_dat')

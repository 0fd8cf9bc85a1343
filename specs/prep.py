"""contracts of the preprocessing of channels (bliss/preprocess): normalisation divides every sample by the channel's largest,
equalisation divides every sample by the response of its channel; mask and metadata stay, other holders of the
data see no change"""
import re
import z3
from dv.session import Q
from dv.engine import IV, RV, I, R, B, N, Loc, Ptr, Clo, Opq, Unsupported, leaves
from dv import ndmodel as M, stdlib, valarr as V
from . import levels, flags
from .flags import T, F, world, contracts, STOP, grid_is, forced

QE = 'bliss::equalize_passband_filter'
UNITS = [('bliss/preprocess/normalize.cpp', [r'^bliss::normalize\('], STOP),
         ('bliss/preprocess/passband_static_equalize.cpp', [r'^bliss::equalize_passband_filter\('], STOP),
         ('bliss/core/coarse_channel.cpp', [r'^bliss::coarse_channel::(data|mask|set_mask|set_data|foff|tsamp|device)\('], [r'^bland::']), M.UNIT_DT]
READ = z3.Function('content_of_file', z3.StringSort(), I, I, I)


def data_post(E, st, cc, data, msk, want, others=()):
    d0, m0 = V.storage(E, st, data), V.storage(E, st, msk)
    fm = V.snapshot(E, st, msk)
    held = [(a, V.storage(E, st, a)) for a in others]

    def post(E, s, ret):
        if not (isinstance(ret, N) and '_data' in ret.f):
            return [('returns-the-channel', z3.BoolVal(False))]
        out = forced(E, s, ret['_data'], 'data', lambda s2, d: grid_is(E, s2, d, T, F, 'float', want, 'sample') + [
            ('other-holders-unchanged', z3.And([V.storage(E, s2, data) == d0] + [V.storage(E, s2, a) == x for a, x in held]))])
        out += forced(E, s, ret['_mask'], 'mask', lambda s2, m: grid_is(E, s2, m, T, F, 'unsigned char', fm, 'sample'))
        keep = [n for n in ret.f if n not in ('_mask', '_data')]
        out.append(('rest-of-the-channel', z3.And([x == y for n in keep for (_, x), (_, y) in zip(leaves(ret[n]) if isinstance(ret[n], N) else [('', ret[n])], leaves(cc[n]) if isinstance(cc[n], N) else [('', cc[n])]) if z3.is_expr(x) and z3.is_expr(y)])))
        return out
    return post


def verify(S):
    C = contracts()
    # ------------------------------------------------------------ normalisation
    def build_n(E, st, Fn):
        cc, data, msk = world(E, st)
        f = V.snapshot(E, st, data)
        mx = E.apps.app(st, 'max', T, F, f, lambda i, j: z3.BoolVal(True))
        return {'args': [E.newcell(st, cc)], 'post': data_post(E, st, cc, data, msk, lambda i, j: f(i, j) / mx)}
    S.function('bliss::normalize', build_n, sig=r'\(bliss::coarse_channel', contracts=C, name='normalize.channel')
    p0 = lambda E, st: []
    p0.n = 0
    levels.verify(S, 'bliss::normalize', p0, C, 'normalize')

    # ------------------------------------------------------------ equalisation
    def build_e(path):
        def build(E, st, Fn):
            cc, data, msk = world(E, st)
            h = V.fresh_array(E, st, 'response', 1, IV(1), F, 'float')
            f, g = V.snapshot(E, st, data), V.snapshot(E, st, h)
            args = [E.newcell(st, cc)]
            if path:
                pth, dt = z3.String('path'), M.dtval('float')

                def c_read(E, st, e):
                    def fn(s, vs):
                        vs = [V.rd(E, s, v) for v in vs]
                        E.oblige(s, 'reads-the-given-file', z3.And(vs[0] == pth, z3.BoolVal(M.elem_of(vs[1]) == 'float')), e['ln'], 'spec')
                        E.assumptions.add('contract of read_from_file (proved under P11)')
                        return [(s, h)]
                    return E.bind(stdlib.vals_any(E, e['a'], st), fn)
                E.C['bland::read_from_file'] = c_read
                args += [pth, dt]
            else:
                args += [E.newcell(st, h)]
            E.assumptions.add('precondition: the response has one value per channel')
            return {'args': args, 'post': data_post(E, st, cc, data, msk, lambda i, j: f(i, j) / g(IV(0), j), [h])}
        return build
    S.function(QE, build_e(False), sig=r'\(bliss::coarse_channel,bland::ndarray\)', contracts=C, name='equalize.channel')
    S.function(QE, build_e(True), sig=r'\(bliss::coarse_channel,std::basic_string_view', contracts=C, opts={'strings': True}, name='equalize.channel.file')

    nd = z3.Int('response_id')
    Cl = dict(C)
    for t in ('bland::ndarray',):
        Cl['ctor:' + t] = levels.ctor
    Cl['bland::ndarray::to'] = lambda E, st, e, ol: [(st, V.rd(E, st, ol))]
    for t in (levels.TG, levels.SC, levels.CC, levels.CA):
        Cl[t + '::device'] = lambda E, st, e, ol: [(st, M.devval(E))]
    p1 = lambda E, st: [N('struct', {'id': nd}, 'bland::ndarray')]
    p1.n = 1
    levels.verify(S, QE, p1, Cl, 'equalize')

    # ------------------------------------------------------------ overloads that read the response first
    ks = [k if isinstance(k, str) else k[1] for k, f in S.P['functions'].items() if f['q'] == QE]
    pth = z3.String('path')
    for level, t in (('scan', levels.SC), ('target', levels.TG), ('cadence', levels.CA)):
        Cp = dict(Cl)
        Cp['ctor:' + t] = levels.ctor
        for k in ks:
            if k.startswith('%s(%s,bland::ndarray' % (QE, t)):
                Cp['key:' + k] = levels.op_contract(QE, level, t)

        def c_read(E, st, e):
            def fn(s, vs):
                vs = [V.rd(E, s, v) for v in vs]
                return [(s, N('struct', {'id': READ(vs[0], vs[1]['code'], vs[1]['bits'])}, 'bland::ndarray'))]
            return E.bind(stdlib.vals_any(E, e['a'], st), fn)
        Cp['bland::read_from_file'] = c_read

        def build(E, st, Fn, t=t, level=level):
            M.install(E, st)
            i = z3.Int('%s_id' % level)
            code, bits = z3.Ints('code bits')
            dt = N('struct', {'code': code, 'bits': bits, 'lanes': IV(1)}, 'bland::ndarray::datatype')
            want = levels.fn(QE, level, [READ(pth, code, bits)])(i)
            return {'args': [E.newcell(st, levels.ident(i, t)), pth, dt], 'post': lambda E, s, ret: [('operation-with-the-file-response', ret['id'] == want)]}
        S.function(QE, build, sig=r'\(%s,std::basic_string_view' % t, contracts=Cp, opts={'strings': True}, name='equalize.%s.file' % level)

"""hit_search of a scan, target and cadence: every channel read carries the hits found in it"""
import z3
from dv.engine import IV, I, B, N, Ptr, Loc, Opq, Unsupported
from dv import stdlib
from . import levels
from .lv_filter import store, lst, val, CC

UNITS = [('bliss/drift_search/hit_search.cpp', [r'^bliss::hit_search\('], [r'^bliss::protohit_search', r'^bliss::coarse_channel::(fch1|foff|tsamp|tstart|noise_estimate|integrated_drift_plane)\(', r'^bliss::frequency_drift_plane', r'^bliss::noise_stats', r'^bliss::scan::', r'^bland::']),
         ('bliss/core/coarse_channel.cpp', [r'^bliss::coarse_channel::set_hits\('], [r'^bland::'])]
Q_ = 'bliss::hit_search'


def verify(S):
    C = store({})
    C['ctor:' + CC] = levels.ctor
    opt = {}

    def params(E, st):
        return [E.fresh('bliss::hit_search_options', 'options')]
    params.n = 1
    ks = [k if isinstance(k, str) else k[1] for k, f in S.P['functions'].items() if f['q'] == Q_]

    def c_search(E, st, e):
        def f(s, vs):
            E.assumptions.add('contract of hit_search of a channel as a function of channel and options (verified separately in this check)')
            return [(s, lst(levels.fn(Q_, 'hits', levels.flat(E, s, vs[1:]))(val(E, s, vs[0])['id'])))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)

    def run(E, s, clo, ps0):
        c = z3.Int('channel_id')
        want = levels.fn(Q_, 'hits', ps0)(c)
        out = []
        for k in (1, 2):
            r = E.call_clo_vals(clo, [E.newcell(s, N('struct', {'id': c, '_hits': Ptr(None, None, True)}, CC))], s)
            if len(r) != 1 or r[0][0].sig:
                raise Unsupported('transform with %d paths' % len(r))
            s, v = r[0]
            v = val(E, s, v)
            h = v['_hits'] if isinstance(v, N) and '_hits' in v.f else None
            ok = isinstance(h, Ptr) and not h.null
            out.append(('same-channel.%d' % k, v['id'] == c))
            out.append(('carries-its-hits.%d' % k, z3.And(z3.Not(E.read(s, h.loc)['fn']), E.read(s, h.loc)['id'] == want) if ok else z3.BoolVal(False)))
        return out

    def extra(E, st):
        return {'key:' + k: c_search for k in ks if k.startswith(Q_ + '(' + CC)}
    levels.verify(S, Q_, params, C, 'hit_search', extra=extra, run=run)

"""contracts of estimate_noise_power (bliss/estimators/noise_estimate.cpp): mean and standard deviation over exactly the
unmasked samples (masked) or over all of them; a channel without unmasked samples is rejected"""
import z3
from dv.session import Q
from dv.engine import IV, RV, I, R, B, N, Loc, Ptr, Clo, Opq, Unsupported, leaves
from dv import ndmodel as M, stdlib, valarr as V
from . import levels, flags
from .flags import T, F, world, contracts, STOP, grid_is

NS = 'bliss::noise_stats'
UNITS = [('bliss/estimators/noise_estimate.cpp', [r'^bliss::estimate_noise_power\('], STOP + [r'^bliss::noise_stats::', r'^fmt::']),
         ('bliss/core/noise_power.cpp', [r'^bliss::noise_stats::(set_noise_floor|set_noise_power|noise_floor|noise_power|noise_amplitude)\('], [r'^bland::', r'^fmt::']),
         ('bliss/core/coarse_channel.cpp', [r'^bliss::coarse_channel::(data|mask|set_mask|set_data|foff|tsamp|device|set_noise_estimate)\('], [r'^bland::']), M.UNIT_DT]


def verify(S):
    C = contracts()
    C['ctor:' + NS] = levels.ctor
    C[NS + '::operator='] = levels.assign
    C['default:' + NS] = lambda E, t: N('struct', {'_noise_floor': V.default_array(E, None), '_noise_power': V.default_array(E, None)}, NS)
    C['fmt::print'] = stdlib.ignore_str
    C['fmt::format'] = lambda E, st, e: [(st, Opq('message'))]
    meth, masked = z3.Int('estimator_method'), z3.Bool('masked_estimate')
    OPT = 'bliss::noise_power_estimate_options'

    def options(E, st):
        o = E.fresh(OPT, 'options').set(estimator_method=meth, masked_estimate=masked)
        v = S.P['enums']['bliss::noise_power_estimator']['vals']
        st.pc.append(meth == v['STDDEV'])
        E.assumptions.add('precondition: the STDDEV estimator (the median based one is not implemented in the code)')
        return o

    def value(E, s, ret, k, want, nm):
        a = ret[k] if isinstance(ret, N) and k in ret.f else None
        if a is None:
            return [(nm, z3.BoolVal(False))]
        return grid_is(E, s, a, IV(1), IV(1), 'float', lambda i, j: want, nm)

    def stats(E, st, fd, used):
        return E.apps.app(st, 'mean', T, F, fd, used), E.apps.app(st, 'stddev', T, F, fd, used)
    yes = lambda i, j: z3.BoolVal(True)

    def build_a(E, st, Fn):
        cc, data, msk = world(E, st)
        o = options(E, st)
        mu, sd = stats(E, st, V.snapshot(E, st, data), yes)
        d0 = V.storage(E, st, data)
        return {'args': [E.newcell(st, data), o], 'post': lambda E, s, ret: value(E, s, ret, '_noise_floor', mu, 'noise-floor') + value(E, s, ret, '_noise_power', sd, 'noise-power') + [('data-unchanged', V.storage(E, s, data) == d0)]}
    S.function('bliss::estimate_noise_power', build_a, sig=r'\(bland::ndarray', contracts=C, name='noise.array')

    def build_c(mk):
        def build(E, st, Fn):
            cc, data, msk = world(E, st)
            o = options(E, st)
            st.pc.append(masked if mk else z3.Not(masked))
            fd, fm = V.snapshot(E, st, data), V.snapshot(E, st, msk)
            used = (lambda i, j: fm(i, j) == 0) if mk else yes
            n = E.apps.app(st, 'count', T, F, None, lambda i, j: fm(i, j) == 0)
            mu, sd = stats(E, st, fd, used)
            d0, m0 = V.storage(E, st, data), V.storage(E, st, msk)

            def post(E, s, ret):
                out = value(E, s, ret, '_noise_floor', mu, 'noise-floor') + value(E, s, ret, '_noise_power', sd, 'noise-power')
                out += [('data-unchanged', V.storage(E, s, data) == d0), ('mask-unchanged', V.storage(E, s, msk) == m0)]
                if mk:
                    out.append(('fully-flagged-rejected', n != 0))
                return out
            return {'args': [E.newcell(st, cc), o], 'post': post, 'throws': lambda E, s: [('only-when-fully-flagged', n == 0 if mk else z3.BoolVal(False))]}
        return build
    for mk in (True, False):
        S.function('bliss::estimate_noise_power', build_c(mk), sig=r'\(bliss::coarse_channel', contracts=C, name='noise.channel.' + ('masked' if mk else 'plain'))

    # ------------------------------------------------------------ what a reader of the estimate sees
    def build_get(which):
        def build(E, st, Fn):
            V.install(E, st)
            x = {k: z3.Real(k) for k in ('floor', 'power')}
            ns = N('struct', {'_noise_' + k: V.scalar_array(E, st, v) for k, v in x.items()}, NS)
            return {'args': [], 'this': E.newcell(st, ns), 'post': lambda E, s, ret: [('value', ret == x[which])]}
        return build
    Cg = dict(C, **{'bland::to': V.first})
    for w in ('floor', 'power'):
        S.function(NS + '::noise_' + w, build_get(w), contracts=Cg, name='noise_stats.' + w)

    # ------------------------------------------------------------ levels
    q = 'bliss::estimate_noise_power'

    def params(E, st):
        return [options(E, st)]
    params.n = 1
    est = lambda E, s, vs: levels.fn(q, 'estimate', levels.flat(E, s, vs))

    def c_est(E, st, e):
        def f(s, vs):
            x = V.rd(E, s, vs[0])
            E.assumptions.add('contract of estimate_noise_power of a channel (verified separately)')
            return [(s, N('struct', {'est': est(E, s, vs[1:])(x['id'])}, NS))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)

    def c_set(E, st, e, ol):
        def f(s, vs):
            E.write(s, ol, E.read(s, ol).set(noise=V.rd(E, s, vs[0])['est']))
            E.assumptions.add('contract of set_noise_estimate: the channel carries the given estimate (verified in this check)')
            return [(s, None)]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    ks = [k if isinstance(k, str) else k[1] for k, f in S.P['functions'].items() if f['q'] == q]
    Cl = dict(C)
    Cl['bliss::coarse_channel::set_noise_estimate'] = c_set

    def run(E, s, clo, ps0):
        c = z3.Int('channel_id')
        want = levels.fn(q, 'estimate', ps0)(c)
        out = []
        for k in (1, 2):
            r = E.call_clo_vals(clo, [E.newcell(s, N('struct', {'id': c, 'noise': IV(-1)}, levels.CC))], s)
            if len(r) != 1 or r[0][0].sig:
                raise Unsupported('transform with %d paths' % len(r))
            s, v = r[0]
            v = V.rd(E, s, v)
            out += [('same-channel.%d' % k, v['id'] == c), ('carries-its-estimate.%d' % k, v['noise'] == want)]
        return out

    def extra(E, st):
        return {'key:' + k: c_est for k in ks if k.startswith(q + '(' + levels.CC)}
    levels.verify(S, q, params, Cl, 'noise', extra=extra, run=run, pick=lambda k: not k.startswith(q + '(bland'))

    # ------------------------------------------------------------ the channel remembers the estimate
    def build_set(E, st, Fn):
        cc, data, msk = world(E, st)
        ns = N('struct', {'_noise_floor': V.scalar_array(E, st, z3.Real('floor')), '_noise_power': V.scalar_array(E, st, z3.Real('power'))}, NS)
        this = E.newcell(st, cc)

        def post(E, s, ret):
            v = E.read(s, this)['_noise_stats']
            if not (isinstance(v, N) and 'val' in v.f):
                return [('holds-the-estimate', z3.BoolVal(False))]
            return [('holds-the-estimate', v['has'])] + value(E, s, v['val'], '_noise_floor', z3.Real('floor'), 'floor') + value(E, s, v['val'], '_noise_power', z3.Real('power'), 'power')
        return {'args': [E.newcell(st, ns)], 'this': this, 'post': post}
    S.function('bliss::coarse_channel::set_noise_estimate', build_set, contracts=C, name='set_noise_estimate')

    # ------------------------------------------------------------ what an estimate reports
    def build_get(what):
        def build(E, st, Fn):
            fl, po = z3.Real('floor'), z3.Real('power')
            st.pc.append(po >= 0)
            this = E.newcell(st, N('struct', {'_noise_floor': V.scalar_array(E, st, fl), '_noise_power': V.scalar_array(E, st, po)}, NS))

            def post(E, s, ret):
                r = getattr(ret, 't', ret)
                ok = r == fl if what == 'noise_floor' else r == po if what == 'noise_power' else z3.And(r >= 0, r * r == po)
                v = E.read(s, this)
                return [('reported', ok)] + value(E, s, v, '_noise_floor', fl, 'floor-unchanged') + value(E, s, v, '_noise_power', po, 'power-unchanged')
            return {'args': [], 'this': this, 'post': post}
        return build
    for w in ('noise_floor', 'noise_power', 'noise_amplitude'):
        S.function(NS + '::' + w, build_get(w), contracts=dict(C, **{'bland::to': V.first}), name='noise.' + w)

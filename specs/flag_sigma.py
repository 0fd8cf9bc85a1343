"""contracts of flag_sigmaclip (bliss/flaggers/sigmaclip.cpp)

Stage 0 uses every sample; stage k+1 flags the samples outside mean - low*stddev .. mean + high*stddev of the samples
not flagged at stage k.  The result is stage K: the first stage whose mean and deviation both changed by less than
1e-6, or stage max_iter.  The number of stages computed is ghost state."""
from fractions import Fraction
import z3
from dv.session import Q
from dv.engine import IV, RV, I, R, B, N, Loc, Ptr, Clo, Opq, Unsupported, absr
from dv import ndmodel as M, stdlib, valarr as V
from . import levels, flags
from .flags import T, F, FLAG, orbit, grid_is, world, channel_post, contracts, STOP, inr

UNITS = [('bliss/flaggers/sigmaclip.cpp', [r'^bliss::flag_sigmaclip\('], STOP),
         ('bliss/core/coarse_channel.cpp', [r'^bliss::coarse_channel::(data|mask|set_mask|set_data|foff|tsamp|device)\('], [r'^bland::']), M.UNIT_DT]
EPS = RV(Fraction(1e-6))
mean_, std_ = z3.Function('stage_mean', I, R), z3.Function('stage_stddev', I, R)
cnt_ = z3.Function('stage_unflagged', I, I)
low, high = z3.Reals('low high')
max_iter = z3.Int('max_iter')


def conv(k):
    return z3.And(absr(mean_(k) - mean_(k - 1)) < EPS, absr(std_(k) - std_(k - 1)) < EPS)


def ghost(E, s):
    return E.read(s, s.frames[0].env['g:stage'])


def stages(E, st, fd):
    """flagged(k, i, j) of the definition, and the hook that ties the k-th masked statistic of the code to stage k"""
    def flagged(k, i, j):
        x = fd(i, j)
        return z3.And(k > 0, z3.Or(x < mean_(k - 1) - std_(k - 1) * low, x > mean_(k - 1) + std_(k - 1) * high))
    un = lambda k, i, j: z3.Not(flagged(k, i, j))
    E.apps.family('count', T, F, None, un, cnt_)
    E.apps.family('mean', T, F, fd, un, mean_)
    E.apps.family('stddev', T, F, fd, un, std_)
    st.frames[0].env['g:stage'] = E.newcell(st, IV(0))

    def hook(s, kind, d0, d1, data, used, r):
        k = ghost(E, s)
        out = E.apps.stage_fact(kind, d0, d1, data, used, r, k)
        if kind == 'stddev':
            E.write(s, s.frames[0].env['g:stage'], z3.simplify(k + 1))
        return out
    E.stage = hook
    E.apps.pairs = False
    return flagged


def verify(S):
    C = contracts()

    def definition(E, st, data):
        fd = V.snapshot(E, st, data)
        st.pc += [low + high >= 0]
        E.assumptions.add('precondition: low + high not negative')
        return stages(E, st, fd)

    def stop(K):
        m = z3.If(max_iter > 0, max_iter, IV(0))
        return [('number-of-stages', z3.And(K >= 0, K <= m, z3.Or(K == m, conv(K)))),
                ('stops-at-first-converged', Q(['k'], lambda k: z3.Implies(z3.And(k > 0, k < K), z3.Not(conv(k))))),
                ('every-stage-has-samples', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k <= K), cnt_(k) > 0)))]
    W = {}

    def build_d(E, st, Fn):
        cc, data, msk = world(E, st)
        st.pc += [max_iter >= -2 ** 31, max_iter < 2 ** 31 - 1]
        flagged = definition(E, st, data)
        d0 = V.storage(E, st, data)
        W.update(flagged=flagged, data=data)

        def post(E, s, ret):
            K = ghost(E, s) - 1
            return stop(K) + grid_is(E, s, ret, T, F, 'unsigned char', lambda i, j: z3.If(flagged(K, i, j), IV(FLAG['clip']), IV(0)), 'flags') + [('data-unchanged', V.storage(E, s, data) == d0)]

        def throws(E, s):
            K = ghost(E, s)
            return [('only-when-nothing-is-left', z3.And(K >= 1, cnt_(K) == 0))]
        return {'args': [E.newcell(st, data), max_iter, low, high], 'post': post, 'throws': throws}

    def loop(c):
        E, s = c.E, c.st
        i = c['iter']
        avs = {n: c[n] for n in ('rfi', 'mean', 'stddev')}
        for n, v in avs.items():     # what an array variable holds after an arbitrary number of iterations
            if isinstance(v['p'], Opq):
                if E.suppress:
                    raise Unsupported('invariant during tracing')
                so = 'unsigned char' if n == 'rfi' else 'float'
                x = V.fresh_array(E, s, E.fresh_name(n), v.meta[0], *((T, F) if n == 'rfi' else (IV(1), IV(1))), so)     # extents: part of the invariant
                E.write(s, c.loc(n), x)
                avs[n] = x
        cells = [v['p'].loc.cell for v in avs.values()] + [W['data']['p'].loc.cell]
        K = ghost(E, s)
        f = V.snapshot(E, s, avs['rfi'])
        one = lambda v: z3.And(v['d0'] == 1, v['d1'] == 1, v['o0'] == 0, v['o1'] == 0)
        rfi = avs['rfi']
        return [('range', z3.And(i >= 0, z3.Or(i <= max_iter, i == 0), K == i + 1)),
                ('arrays-of-their-own', z3.BoolVal(len(set(cells)) == len(cells))),
                ('types', z3.BoolVal(rfi.meta == (2, 'unsigned char') and all(avs[n].meta[1] == 'float' for n in ('mean', 'stddev')))),
                ('extents', z3.And(rfi['d0'] == T, rfi['d1'] == F, rfi['o0'] == 0, rfi['o1'] == 0, one(avs['mean']), one(avs['stddev']))),
                ('mean-of-stage', V.at(E, s, avs['mean'], IV(0), IV(0)) == mean_(i)), ('deviation-of-stage', z3.And(V.at(E, s, avs['stddev'], IV(0), IV(0)) == std_(i), std_(i) >= 0)),
                ('flags-of-stage', Q(['x', 'y'], lambda x, y: z3.Implies(inr(x, y), f(x, y) == z3.If(W['flagged'](i, x, y), IV(1), IV(0))), pats=lambda x, y: f(x, y))),
                ('not-converged', Q(['k'], lambda k: z3.Implies(z3.And(k > 0, k <= i), z3.Not(conv(k))), pats=lambda k: mean_(k))),
                ('samples', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k <= i), cnt_(k) > 0), pats=lambda k: cnt_(k)))]
    S.function('bliss::flag_sigmaclip', build_d, sig=r'\(&const bland::ndarray', contracts=C, loops={0: loop}, name='sigma.array')

    # ------------------------------------------------------------ a channel
    fl = z3.Function('clip_flags', I, I, I)

    def c_array(E, st, e):
        def f(s, vs):
            a, it, lo, hi = [V.rd(E, s, v) for v in vs]
            E.oblige(s, 'data-and-parameters-passed', z3.And(it == max_iter, lo == low, hi == high, z3.BoolVal(V.is_av(a) and a['p'].loc.cell == W['data']['p'].loc.cell), a['o0'] == 0, a['o1'] == 0), e['ln'], 'spec')
            E.assumptions.add('contract of flag_sigmaclip of an array (verified in this check)')
            bad = s.fork()
            bad.sig = ('throw', 'std::runtime_error')
            s.pc.append(z3.BoolVal(True))
            return [(bad, None), (s, V.mk(E, s, 2, T, F, 'unsigned char', lambda i, j: z3.If(fl(i, j) == 1, IV(FLAG['clip']), IV(0))))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)

    def build_c(E, st, Fn):
        cc, data, msk = world(E, st)
        W.update(data=data)
        return {'args': [E.newcell(st, cc), max_iter, low, high], 'post': channel_post(E, st, cc, data, msk, lambda i, j, m: z3.If(fl(i, j) == 1, orbit(m, FLAG['clip']), m)), 'throws': lambda E, s: []}
    k = [k if isinstance(k, str) else k[1] for k, f in S.P['functions'].items() if f['q'] == 'bliss::flag_sigmaclip']
    C2 = dict(C)
    for x in k:
        if x.startswith('bliss::flag_sigmaclip(&const bland::ndarray'):
            C2['key:' + x] = c_array
    S.function('bliss::flag_sigmaclip', build_c, sig=r'\(bliss::coarse_channel', contracts=C2, name='sigma.channel')

    p = lambda E, st: [max_iter, low, high]
    p.n = 3
    levels.verify(S, 'bliss::flag_sigmaclip', p, C, 'sigma')

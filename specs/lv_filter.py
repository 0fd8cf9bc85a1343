"""filter_hits of a channel, scan, target and cadence; the hits a channel remembers (bliss/core/coarse_channel.cpp)"""
import z3
from dv.engine import IV, I, B, N, Ptr, Loc, Opq, Unsupported
from dv import stdlib
from . import levels

UNITS = [('bliss/drift_search/filter_hits.cpp', [r'^bliss::filter_hits\('], [r'^bliss::coarse_channel', r'^bliss::scan::', r'^bland::']),
         ('bliss/core/coarse_channel.cpp', [r'^bliss::coarse_channel::(has_hits|hits|set_hits)\('], [r'^bland::'])]
CC = levels.CC
LIST = 'std::list'
Q_ = 'bliss::filter_hits'
OPT = 'bliss::filter_options'
COMPUTED = z3.Function('hits_computed_by', I, I)


def lst(i):
    return N('struct', {'id': i}, 'hits')


def fun(i):
    return N('struct', {'fid': i}, 'callable')


def val(E, s, v):
    return levels.rd(E, s, v)


def variant(E, s, v):
    v = val(E, s, v)
    if isinstance(v, N) and v.meta == 'variant':
        return v
    if isinstance(v, N) and v.meta == 'hits':
        return N('struct', {'fn': z3.BoolVal(False), 'fid': IV(0), 'id': v['id']}, 'variant')
    if isinstance(v, N) and v.meta == 'callable':
        return N('struct', {'fn': z3.BoolVal(True), 'fid': v['fid'], 'id': IV(0)}, 'variant')
    raise Unsupported('alternative %r' % (v,))


def store(C):
    """the variant of a list of hits or a function that finds them"""
    vp = lambda f: (lambda E, st, e: E.bind(stdlib.vals_ptr(E, e['a'], st), lambda s, vs: f(E, s, vs, e)))
    vm = lambda f: (lambda E, st, e, ol: E.bind(stdlib.vals_ptr(E, e['a'], st), lambda s, vs: f(E, s, ol, vs, e)))
    isfn = lambda e: 'function' in e['ta'][0]
    C['std::make_shared'] = vp(lambda E, s, vs, e: [(s, Ptr(E.newcell(s, variant(E, s, vs[0])), None))])
    C['std::holds_alternative'] = vp(lambda E, s, vs, e: [(s, val(E, s, vs[0])['fn'] if isfn(e) else z3.Not(val(E, s, vs[0])['fn']))])

    def get(E, s, vs, e):
        v = val(E, s, vs[0])
        E.oblige(s, 'alternative-held', v['fn'] if isfn(e) else z3.Not(v['fn']), e['ln'], 'safety')
        return [(s, E.newcell(s, fun(v['fid']) if isfn(e) else lst(v['id'])))]
    C['std::get'] = vp(get)
    C['std::variant::operator='] = vm(lambda E, s, ol, vs, e: (E.write(s, ol, variant(E, s, vs[0])), [(s, ol)])[1])
    C['std::function::operator()'] = vm(lambda E, s, ol, vs, e: [(s, lst(COMPUTED(val(E, s, ol)['fid'])))])
    C['ctor:std::list'] = vp(lambda E, s, vs, e: [(s, val(E, s, vs[0]))])
    C['ctor:std::function'] = C['ctor:std::list']
    return C


def throwing(nm):
    return lambda s: s.sig == ('throw', nm)


def channel(E, st, held, nm='cc'):
    """a channel with an identity; held: 'none', 'list' or 'function'"""
    h, cell = Ptr(None, None, True), None
    if held != 'none':
        cell = E.newcell(st, N('struct', {'fn': z3.BoolVal(held == 'function'), 'fid': z3.Int('finder'), 'id': z3.Int('held_hits')}, 'variant'))
        h = Ptr(cell, None)
    return N('struct', {'id': z3.Int('channel_id'), '_hits': h}, CC), cell


def verify(S):
    C = store({})
    C['ctor:' + CC] = levels.ctor
    what = {'list': z3.Int('held_hits'), 'function': COMPUTED(z3.Int('finder'))}

    # ------------------------------------------------------------ accessors
    for held in ('none', 'list', 'function'):
        def b_has(E, st, F, held=held):
            v, cell = channel(E, st, held)
            return {'this': E.newcell(st, v), 'args': [], 'post': lambda E, s, r: [('tells-whether-hits-are-held', r == z3.BoolVal(held != 'none'))]}
        S.function(CC + '::has_hits', b_has, contracts=C, name='has_hits.' + held)

        def b_hits(E, st, F, held=held):
            v, cell = channel(E, st, held)
            this = E.newcell(st, v)

            def post(E, s, r):
                out = [('some-are-held', z3.BoolVal(held != 'none'))]
                if held != 'none':
                    out += [('the-held-hits', val(E, s, r)['id'] == what[held]), ('remembered', z3.And(z3.Not(E.read(s, cell)['fn']), E.read(s, cell)['id'] == what[held]))]
                return out
            return {'this': this, 'args': [], 'post': post, 'throws': lambda E, s: [('only-without-hits', z3.BoolVal(held == 'none'))]}
        S.function(CC + '::hits', b_hits, contracts=C, name='hits.' + held)
        for kind in ('list', 'function'):
            def b_set(E, st, F, held=held, kind=kind):
                v, cell = channel(E, st, held)
                this = E.newcell(st, v)
                new = z3.Int('new')

                def post(E, s, r):
                    p = E.read(s, this)['_hits']
                    if not (isinstance(p, Ptr) and not p.null):
                        return [('holds-them', z3.BoolVal(False))]
                    w = E.read(s, p.loc)
                    out = [('holds-them', z3.And(z3.Not(w['fn']), w['id'] == new) if kind == 'list' else z3.And(w['fn'], w['fid'] == new))]
                    if cell is not None:
                        o = E.read(s, cell)
                        out.append(('copies-of-the-channel-unaffected', z3.And(z3.BoolVal(p.loc.cell != cell.cell), o['id'] == z3.Int('held_hits'), o['fid'] == z3.Int('finder'), o['fn'] == (held == 'function'))))
                    return out
                return {'this': this, 'args': [lst(new) if kind == 'list' else fun(new)], 'post': post}
            S.function(CC + '::set_hits', b_set, sig=r'set_hits\(std::' + kind, contracts=C, name='set_hits.%s.%s' % (kind, held))

    # ------------------------------------------------------------ channel
    zero = z3.Bool('filter_zero_drift')

    def params(E, st):
        return [E.fresh(OPT, 'options').set(filter_zero_drift=zero)]
    params.n = 1
    ks = [k if isinstance(k, str) else k[1] for k, f in S.P['functions'].items() if f['q'] == Q_]

    def c_list(E, st, e):
        def f(s, vs):
            E.assumptions.add('contract of filter_hits of a list as a function of list and options (verified separately in this check)')
            return [(s, lst(levels.fn(Q_, 'list', levels.flat(E, s, vs[1:]))(val(E, s, vs[0])['id'])))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    Cc = dict(C)
    for k in ks:
        if k.startswith(Q_ + '(std::list'):
            Cc['key:' + k] = c_list
    for held in ('none', 'list', 'function'):
        def b_cc(E, st, F, held=held):
            v, cell = channel(E, st, held)
            ps = params(E, st)
            f = levels.fn(Q_, 'list', levels.flat(E, st, ps))

            def post(E, s, r):
                r = val(E, s, r)
                ok = isinstance(r, N) and isinstance(r['_hits'], Ptr) and not r['_hits'].null
                if held == 'none' or not ok:
                    return [('rejected-without-hits' if held == 'none' else 'carries-hits', z3.BoolVal(False))]
                w = E.read(s, r['_hits'].loc)
                o = E.read(s, cell)
                return [('same-channel', r['id'] == v['id']), ('carries-the-filtered-hits', z3.And(z3.Not(w['fn']), w['id'] == f(what[held]))),
                        ('the-callers-hits-unchanged', z3.And(z3.BoolVal(r['_hits'].loc.cell != cell.cell), z3.If(o['fn'], COMPUTED(o['fid']), o['id']) == what[held]))]
            return {'args': [E.newcell(st, v)] + ps, 'post': post, 'throws': lambda E, s: [('only-without-hits', z3.BoolVal(held == 'none'))]}
        S.function(Q_, b_cc, sig=r'\(bliss::coarse_channel', contracts=Cc, name='filter_hits.channel.' + held)

    # ------------------------------------------------------------ scan, target, cadence
    levels.verify(S, Q_, params, {}, 'filter_hits', pick=lambda k: not k.startswith((Q_ + '(std::list', Q_ + '(' + CC)))

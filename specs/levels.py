"""wrappers that apply an operation on coarse channels to a scan (recorded as a transform), to every scan of a target and
to every target of a cadence.

Opaque values carry an identity; the operation on channels is an uninterpreted function of the channel and of every
parameter, so that a wrapper which drops, swaps or changes a parameter, skips an element or applies the operation
to a discarded copy fails its contract."""
import re
import z3
from dv.session import Q
from dv.engine import IV, RV, I, R, B, N, Loc, Ptr, Clo, Opq, Unsupported, leaves, is_z
from dv import stdlib
CC, SC, TG, CA = 'bliss::coarse_channel', 'bliss::scan', 'bliss::observation_target', 'bliss::cadence'


def rd(E, s, v):
    while isinstance(v, Loc):
        v = E.read(s, v)
    return v


def ident(i, t):
    return N('struct', {'id': i}, t)


def flat(E, s, vals):
    """parameters as a sequence of terms"""
    out = []
    for v in vals:
        v = rd(E, s, v)
        for _, x in leaves(v) if isinstance(v, N) else [('', v)]:
            if z3.is_expr(x):
                out.append(z3.simplify(x))
            elif isinstance(x, (Ptr, Opq)):
                out.append(z3.StringVal(repr(x) if isinstance(x, Opq) else 'cell%s' % (x.loc.cell if x.loc is not None else None)))
            else:
                raise Unsupported('parameter %r' % (x,))
    return out


def fn(q, level, ts):
    """the operation at a level, as a function of identity and parameters"""
    f = z3.Function('%s/%s/%d' % (q, level, len(ts)), *([I] + [t.sort() for t in ts] + [I]))
    return lambda i: f(i, *ts)


def opaque(E, t):
    E.C['fresh:' + t] = lambda E, t_, n, lift=0: ident(z3.Const(E.fresh_name(n), z3.ArraySort(I, I) if lift else I), t)
    E.C['default:' + t] = lambda E, t_: ident(z3.Int(E.fresh_name('default')), t)


def ctor(E, st, e):
    if not e['a']:
        return None
    return E.bind(stdlib.vals_any(E, e['a'], st), lambda s, vs: [(s, rd(E, s, vs[0]))])


def assign(E, st, e, ol):
    return E.bind(stdlib.vals_any(E, e['a'], st), lambda s, vs: (E.write(s, ol, rd(E, s, vs[0])), [(s, ol)])[1])


def op_contract(q, level, t):
    def h(E, st, e):
        def f(s, vs):
            x = rd(E, s, vs[0])
            E.assumptions.add('contract of %s of a %s as a function of it and of the parameters (verified separately)' % (q, level))
            return [(s, ident(fn(q, level, flat(E, s, vs[1:]))(x['id']), t))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    return h


def verify(S, q, params, base, name, extra=lambda E, st: {}, resolve=None, run=None, pick=lambda k: True):
    """params: E, st -> list of argument values; q: the overloaded function; base: contracts"""
    keys = [k if isinstance(k, str) else k[1] for k, F in S.P['functions'].items() if F['q'] == q]
    C = dict(base)
    for t, level in ((CC, 'channel'), (SC, 'scan'), (TG, 'target')):
        for k in keys:
            if k.startswith(q + '(' + t):
                C['key:' + k] = op_contract(q, level, t)
        C['ctor:' + t] = ctor
        C[t + '::operator='] = assign
    C['ctor:' + CA] = ctor

    def add(E, st, e, ol):
        def f(s, vs):
            v = E.read(s, ol)
            n = 0
            while 't%d' % n in v.f:
                n += 1
            E.write(s, ol, v.setk('t%d' % n, rd(E, s, vs[0])))
            E.assumptions.add('contract of add_coarse_channel_transform: appended to the transforms applied when a channel is read (application in order proved under P30)')
            return [(s, None)]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    C['bliss::scan::add_coarse_channel_transform'] = add

    def build_scan(E, st, F):
        for t in (CC, SC):
            opaque(E, t)
        E.C.update(extra(E, st))
        sid = z3.Int('scan_id')
        ps = params(E, st)
        ps0 = flat(E, st, ps)

        def post(E, s, ret):
            out = [('same-scan', ret['id'] == sid if isinstance(ret, N) and 'id' in ret.f else z3.BoolVal(False))]
            one = 't0' in ret.f and 't1' not in ret.f and isinstance(ret['t0'], Clo)
            out.append(('one-transform-added', z3.BoolVal(one)))
            if not one:
                return out
            c = z3.Int('channel_id')
            if run:
                return out + run(E, s, ret['t0'], ps0)
            for k in (1, 2):     # every time a channel is read, not only the first
                r = [(s2, v) for s2, v in E.call_clo_vals(ret['t0'], [E.newcell(s, ident(c, CC))], s)]
                if len(r) != 1 or r[0][0].sig:
                    raise Unsupported('transform with %d paths' % len(r))
                s, v = r[0]
                v = rd(E, s, v)
                out.append(('transform-is-the-operation.%d' % k, v['id'] == fn(q, 'channel', resolve(ps0) if resolve else ps0)(c) if isinstance(v, N) and 'id' in v.f else z3.BoolVal(False)))
            return out
        return {'args': [E.newcell(st, ident(sid, SC))] + ps, 'post': post}

    def build_many(outer, inner, member, level):
        def build(E, st, F):
            opaque(E, inner)
            E.C.update(extra(E, st))
            o = E.fresh(outer, 'whole')
            v = o[member]
            st.pc.append(v['len'] >= 0)
            ps = params(E, st)
            f = fn(q, level, flat(E, st, ps))
            W.update(v=v, f=f, n=v['len'])

            def post(E, s, ret):
                r = ret[member]
                rest = [x == y for (p, x), (p2, y) in zip(leaves(ret.setk(member, IV(0))), leaves(o.setk(member, IV(0)))) if z3.is_expr(x) and z3.is_expr(y)]
                return [('same-number', r['len'] == v['len']), ('rest-unchanged', z3.And(rest + [z3.BoolVal(True)])),
                        ('applied-to-every-element', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < v['len']), r['data']['id'][k] == f(v['data']['id'][k]))))]
            return {'args': [E.newcell(st, o)] + ps, 'post': post}
        return build
    W = {}

    def loops(member):
        def match(E, n, st, ordn):
            def inv(c):
                i, o = None, None
                for fr in reversed(c.st.frames):
                    for nm, key in fr.names.items():
                        if key not in fr.env:
                            continue
                        try:
                            x = c.E.read(c.st, fr.env[key])
                        except Exception:
                            continue
                        if nm.startswith('__idx_'):
                            i = x
                        elif isinstance(x, N) and member in x.f:
                            o = x
                if i is None or o is None:
                    raise Unsupported('loop over the elements not recognised')
                r, v, f = o[member], W['v'], W['f']
                return [('range', z3.And(i >= 0, i <= v['len'], r['len'] == v['len'])),
                        ('done', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < i), r['data']['id'][k] == f(v['data']['id'][k])), pats=lambda k: r['data']['id'][k])),
                        ('rest', Q(['k'], lambda k: z3.Implies(z3.And(k >= i, k < v['len']), r['data']['id'][k] == v['data']['id'][k]), pats=lambda k: r['data']['id'][k]))]
            return inv
        return {'match': match}

    for k in keys:
        args = k[len(q) + 1:]
        np = len([x for x in split(args.rstrip(')'))])
        if np - 1 != getattr(params, 'n', np - 1) or not pick(k):
            continue
        sig = '^' + re.escape(k) + '$'
        if args.startswith(SC):
            S.function(q, build_scan, sig=sig, contracts=C, name=name + '.scan')
        elif args.startswith(TG):
            S.function(q, build_many(TG, SC, '_scans', 'scan'), sig=sig, contracts=C, loops=loops('_scans'), name=name + '.target')
        elif args.startswith(CA):
            S.function(q, build_many(CA, TG, '_observations', 'target'), sig=sig, contracts=C, loops=loops('_observations'), name=name + '.cadence')


def split(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return out + [cur] if cur else out

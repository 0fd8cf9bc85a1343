"""what targets and cadences are made of: their scans, name and device, and their channel slices (bliss/core/cadence.cpp)

Scans carry an identity; slicing one, selecting its device, opening a file and its name are functions of it (their own
contracts are proved for P02, P31, P39 and P41)."""
import re
import z3
from dv.session import Q
from dv.engine import IV, RV, I, R, B, N, Ptr, Loc, Opq, Unsupported
from dv import stdlib
from . import levels, loopkit, channel_store, names
from .levels import rd, ident, CC, SC, TG, CA
from .channel_store import dev, td, usable, NAMED_T, NAMED_I, DEV

UNITS = [('bliss/core/cadence.cpp', [r'^bliss::(observation_target|cadence)::(ctor|slice_|device|set_device)', r'^extract_source_name_from_scans'], [r'^fmt::', r'^bland::', r'^bliss::scan::'])]
A_ = z3.ArraySort(I, I)
SLICE = {t: z3.Function('channels_of_' + t.split('::')[1], I, I, I, I) for t in (SC, TG)}
ONDEV = {t: z3.Function('on_device_' + t.split('::')[1], I, I, I, I) for t in (SC, TG)}
OPEN = z3.Function('scan_of_file', I, I, I)
OPENT = z3.Function('target_of_files', I, I, I)
NAME = z3.Function('source_name_of', I, z3.StringSort())
n, ids = z3.Int('n'), z3.Const('ids', A_)
start, count = z3.Int('start'), z3.Int('count')


def vec(t):
    return N('vec', {'len': n, 'data': N('struct', {'id': ids}, t)})


def each(v, want, upto=None):
    return Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < (n if upto is None else upto)), v['data']['id'][k] == want(k)), pats=lambda k: v['data']['id'][k])


def list_of(E, st, field):
    """the container a loop fills: a member of an object under construction, of this, or a local"""
    for fr in reversed(st.frames):
        for key in fr.env.values():
            try:
                x = E.read(st, key) if isinstance(key, Loc) else None
            except Exception:
                continue
            if isinstance(x, N) and x.kind == 'struct' and field in x.f and isinstance(x[field], N) and x[field].kind == 'vec':
                yield key, x


def verify(S):
    C = channel_store.contracts()
    for k in ('fresh:std::vector', 'ctor:std::vector'):
        C.pop(k, None)

    def slicing(t):
        def h(E, st, e, ol):
            def f(s, vs):
                E.assumptions.add('contract of a channel slice of a %s as a function of it, the first channel and the number (%s)' % (t.split('::')[1], 'P02' if t == SC else 'verified in this module'))
                return [(s, ident(SLICE[t](rd(E, s, ol)['id'], rd(E, s, vs[0]), rd(E, s, vs[1])), t))]
            return E.bind(stdlib.vals_any(E, e['a'], st), f)
        return h

    def on_device(t):
        def h(E, st, e, ol):
            def f(s, vs):
                d = rd(E, s, vs[0])
                if 'device_type' not in d.f:
                    d = dev(NAMED_T(d['id']), NAMED_I(d['id']))
                E.assumptions.add('contract of set_device of a %s: as a function of it and the device' % t.split('::')[1])
                bad = s.fork()
                bad.pc.append(z3.Not(usable(d)))
                bad.sig = ('throw', 'std::runtime_error')
                s.pc.append(usable(d))
                E.write(s, ol, ident(ONDEV[t](rd(E, s, ol)['id'], *td(d)), t))
                return [(s, None), (bad, None)]
            return E.bind(stdlib.vals_any(E, e['a'][:1], st), f)
        return h
    C[SC + '::slice_scan_channels'] = slicing(SC)
    C[SC + '::set_device'] = on_device(SC)
    C[SC + '::operator='] = levels.assign

    def c_scan(E, st, e):
        def f(s, vs):
            v = rd(E, s, vs[0])
            if len(vs) == 1 and v.meta == SC:
                return [(s, v)]
            E.assumptions.add('contract of opening a scan as a function of the path and the channel width (P39)')
            return [(s, ident(OPEN(v['id'], rd(E, s, vs[1]) if len(vs) > 1 else IV(0)), SC))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    C['ctor:' + SC] = c_scan

    def c_name(E, st, e):
        def f(s, vs):
            v = rd(E, s, vs[0])
            s.frames[0].env['g:named'] = E.newcell(s, N('struct', {'len': v['len'], 'id': v['data']['id'], 'name': z3.Int('name_of_scans')}, 'named'))
            return [(s, N('str', {'id': z3.Int('name_of_scans')}, None))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    CN = dict(C, extract_source_name_from_scans=c_name)

    def fill(typ, field, want, limit=lambda E, st: n):
        """loops that append one element per element of a list, in order"""
        def match(E, node, st, ordn):
            def inv(c):
                i, facts = loopkit.counter(c)
                key = c.st.frames[0].env['g:this']
                x, x0 = c.cell(key), c.oldcell(key)
                v = x[field]
                rest = [channel_store.same(E, c.st, x[m], x0[m]) for m in x.f if m != field]
                return [('range', z3.And([i >= 0, i <= n, v['len'] == i] + facts)), ('rest', z3.And(rest or [z3.BoolVal(True)])), ('so-far', each(v, want, i))]
            return inv
        return {'match': match}

    def prep(E, st, *ts):
        channel_store.install(E, st)
        for t in ts:
            levels.opaque(E, t)
        st.pc += [n >= 0, n < 2 ** 31]
        E.assumptions.add('precondition: fewer than 2^31 scans and targets')

    def with_this(build):
        def b(E, st, F):
            d = build(E, st, F)
            st.frames[0].env['g:this'] = d['this']
            return d
        return b
    # ------------------------------------------------------------ names
    FN = 'extract_source_name_from_scans'
    want = z3.String('common_name')

    def c_sname(E, st, e, ol):
        E.assumptions.add('contract of scan::source_name: a function of the scan (verified for P41)')
        return [(st, N('str', {'id': NAME(rd(E, st, ol)['id'])}, None))]

    def c_plus(E, st, e):
        return E.bind(stdlib.vals_any(E, e['a'], st), lambda s, vs: [(s, N('str', {'id': z3.Concat(*[rd(E, s, v)['id'] for v in vs])}, None))])

    def c_append(E, st, e, ol):
        return E.bind(stdlib.vals_any(E, e['a'], st), lambda s, vs: (E.write(s, ol, N('str', {'id': z3.Concat(rd(E, s, ol)['id'], rd(E, s, vs[0])['id'])}, None)), [(s, ol)])[1])

    def b_name(E, st, F):
        prep(E, st, SC)
        st.pc += [want != z3.StringVal('')]
        k = z3.Int('k')
        st.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Or(NAME(ids[k]) == z3.StringVal(''), NAME(ids[k]) == want)), patterns=[NAME(ids[k])]))
        w = z3.Int('some_scan')

        def post(E, s, r):
            x = rd(E, s, r)['id']
            named = z3.And(w >= 0, w < n, NAME(ids[w]) != z3.StringVal(''))
            return [('the-common-name', z3.Implies(named, x == want)), ('unknown-without-names', z3.Or(x == want, x == z3.StringVal('unknown')))]
        return {'args': [vec(SC)], 'post': post}

    def m_name(E, node, st, ordn):
        kept = {}

        def inv(c):
            i, facts = loopkit.counter(c)
            if 'key' not in kept:       # the text that is empty before the first scan
                for fr in reversed(c.st.frames):
                    for nm, key in fr.names.items():
                        v = E.read(c.st, fr.env[key]) if key in fr.env and isinstance(fr.env[key], Loc) else None
                        if isinstance(v, N) and v.kind == 'str' and z3.is_string_value(z3.simplify(v['id'])) and z3.simplify(v['id']).as_string() == '':
                            kept.setdefault('key', fr.env[key])
            if 'key' not in kept:
                raise Unsupported('name being built not recognised')
            x = E.read(c.st, kept['key'])
            e = z3.StringVal('')
            return [('range', z3.And([i >= 0, i <= n] + facts)), ('name-so-far', z3.Or(x['id'] == e, x['id'] == want)),
                    ('empty-only-without-names', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < i, x['id'] == e), NAME(ids[k]) == e), pats=lambda k: NAME(ids[k])))]
        return inv
    S.function(FN, b_name, contracts=dict(C, **names.contracts(), **{SC + '::source_name': c_sname, 'fmt::print': stdlib.ignore_str, 'std::operator+': c_plus, 'std::basic_string::operator+=': c_append}), loops={'match': m_name}, opts={'strings': True}, name='name_of_scans')

    # ------------------------------------------------------------ targets
    def named(E, s, o):
        g = s.frames[0].env.get('g:named')
        if g is None:
            return z3.BoolVal(False)
        x = E.read(s, g)
        return z3.And(o['_target_name']['id'] == x['name'], x['len'] == n, channel_eq(x['id'], o['_scans']['data']['id']))

    def channel_eq(a, b):
        k = z3.Int('any_scan')
        return z3.Implies(z3.And(k >= 0, k < n), a[k] == b[k])
    for k in channel_store.keysof(S, TG + '::ctor'):
        ps = levels.split(k[k.index('(') + 1:].rstrip(')'))
        if not ps or not ps[0].startswith('std::vector'):
            continue
        paths = 'string' in ps[0]

        def b_ctor(E, st, F, paths=paths):
            prep(E, st, SC)
            this = E.newcell(st, E.default(TG))
            width = z3.Int('channel_width')
            item = (lambda k: OPEN(ids[k], width)) if paths else (lambda k: ids[k])

            def post(E, s, r):
                o = E.read(s, this)
                return [('every-scan', o['_scans']['len'] == n), ('in-order', each(o['_scans'], item)), ('name-of-these-scans', named(E, s, o))]
            return {'this': this, 'args': [N('vec', {'len': n, 'data': N('str', {'id': ids}, None)}), width] if paths else [vec(SC)], 'post': post}
        S.function(TG + '::ctor', with_this(b_ctor), sig='^' + re.escape(k) + '$', contracts=CN,
                   loops=fill(TG, '_scans', (lambda k: OPEN(ids[k], z3.Int('channel_width'))) if paths else (lambda k: ids[k])), name='target(%s)' % ('paths' if paths else 'scans'))

    def b_slice(typ, field, t):
        def build(E, st, F):
            prep(E, st, t)
            v0 = E.fresh(typ, 'o').set(**{field: vec(t)})
            this = E.newcell(st, v0)

            def post(E, s, r):
                o = rd(E, s, r)
                out = [('every-%s' % t.split('::')[1], o[field]['len'] == n), ('each-sliced', each(o[field], lambda k: SLICE[t](ids[k], start, count))),
                       ('on-the-same-device', channel_store.same(E, s, o['_device'], v0['_device'])), ('original-unchanged', z3.And(E.read(s, this)[field]['len'] == n, channel_eq(E.read(s, this)[field]['data']['id'], ids)))]
                if '_target_name' in v0.f:
                    out.append(('same-name', o['_target_name']['id'] == v0['_target_name']['id']))
                return out
            return {'this': this, 'args': [start, count], 'post': post}
        return build
    # a slice is built in a local object: the one that is not `this`

    def fill_local(typ, field, t, want):
        def match(E, node, st, ordn):
            def inv(c):
                i, facts = loopkit.counter(c)
                got = [(key, x) for key, x in list_of(E, c.st, field) if x.meta == typ and key.cell != c.st.frames[0].env['g:this'].cell]
                if len(got) != 1:
                    raise Unsupported('slice being filled not recognised')
                key, x = got[0]
                x0 = c.oldcell(key)
                this = c.st.frames[0].env['g:this']
                return [('range', z3.And([i >= 0, i <= n, x[field]['len'] == i] + facts)), ('rest', z3.And([channel_store.same(E, c.st, x[m], x0[m]) for m in x.f if m != field] or [z3.BoolVal(True)])), ('so-far', each(x[field], want, i))]
            return inv
        return {'match': match}

    S.function(TG + '::slice_observation_channels', with_this(b_slice(TG, '_scans', SC)), contracts=C, loops=fill_local(TG, '_scans', SC, lambda k: SLICE[SC](ids[k], start, count)), name='target.slice')
    CC_ = dict(C)
    CC_[TG + '::slice_observation_channels'] = slicing(TG)
    CC_[TG + '::set_device'] = on_device(TG)
    CC_[TG + '::operator='] = levels.assign

    def c_target(E, st, e):
        def f(s, vs):
            v = rd(E, s, vs[0])
            if len(vs) == 1 and v.meta == TG:
                return [(s, v)]
            E.assumptions.add('contract of a target made from paths as a function of them and the channel width (verified in this module)')
            return [(s, ident(OPENT(v['id'], rd(E, s, vs[1]) if len(vs) > 1 else IV(0)), TG))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    CC_['ctor:' + TG] = c_target
    S.function(CA + '::slice_cadence_channels', with_this(b_slice(CA, '_observations', TG)), contracts=CC_, loops=fill_local(CA, '_observations', TG, lambda k: SLICE[TG](ids[k], start, count)), name='cadence.slice')

    # ------------------------------------------------------------ cadences
    for k in channel_store.keysof(S, CA + '::ctor'):
        ps = levels.split(k[k.index('(') + 1:].rstrip(')'))
        if not ps or not ps[0].startswith('std::vector'):
            continue
        paths = 'string' in ps[0]

        def b_cad(E, st, F, paths=paths):
            prep(E, st, TG)
            this = E.newcell(st, E.default(CA))
            width = z3.Int('channel_width')
            item = (lambda k: OPENT(ids[k], width)) if paths else (lambda k: ids[k])
            a = [N('vec', {'len': n, 'data': N('struct', {'id': ids}, 'container')}), width] if paths else [vec(TG)]
            return {'this': this, 'args': a, 'post': lambda E, s, r: [('every-target', E.read(s, this)['_observations']['len'] == n), ('in-order', each(E.read(s, this)['_observations'], item))]}
        S.function(CA + '::ctor', with_this(b_cad), sig='^' + re.escape(k) + '$', contracts=CC_, loops=fill(CA, '_observations', lambda k: OPENT(ids[k], z3.Int('channel_width'))), name='cadence(%s)' % ('paths' if paths else 'targets'))

    # ------------------------------------------------------------ devices
    for typ, field, t, D in ((TG, '_scans', SC, C), (CA, '_observations', TG, CC_)):
        nm = typ.split('::')[1].replace('observation_', '')

        def b_dev(E, st, F, typ=typ, field=field, t=t):
            prep(E, st, t)
            v0 = E.fresh(typ, 'o').set(**{field: vec(t)})
            return {'this': E.newcell(st, v0), 'args': [], 'post': lambda E, s, r: [('the-one-selected', z3.And([a == b for a, b in zip(td(rd(E, s, r)), td(v0['_device']))]))]}
        S.function(typ + '::device', b_dev, contracts=D, name=nm + '.device')
        for text in (False, True):
            def b_set(E, st, F, typ=typ, field=field, t=t, text=text):
                prep(E, st, t)
                v0 = E.fresh(typ, 'o').set(**{field: vec(t)})
                this = E.newcell(st, v0)
                st.frames[0].env['g:this'] = this
                if text:
                    a = N('str', {'id': z3.Int('name')}, None)
                    d = dev(NAMED_T(a['id']), NAMED_I(a['id']))
                else:
                    d = dev(z3.Int('new_type'), z3.Int('new_number'))
                    a = E.newcell(st, d)
                st.frames[0].env['g:dev'] = E.newcell(st, d)

                def post(E, s, r):
                    o = E.read(s, this)
                    return [('rejects-unusable', usable(d)), ('selected', z3.And([p == q for p, q in zip(td(o['_device']), td(d))])), ('for-every-member', z3.And(o[field]['len'] == n)),
                            ('each-on-it', each(o[field], lambda k: ONDEV[t](ids[k], *td(d)))), ('others-unchanged', z3.And([channel_store.same(E, s, o[m], v0[m]) for m in v0.f if m not in (field, '_device')] or [z3.BoolVal(True)]))]
                return {'this': this, 'args': [a, z3.Bool('verbose')], 'post': post, 'throws': lambda E, s: [('rejects-only-unusable', z3.Not(usable(d))), ('nothing-moved', z3.And(E.read(s, this)[field]['len'] == n, channel_eq(E.read(s, this)[field]['data']['id'], ids)))]}

            def m_set(E, node, st, ordn, field=field, t=t):
                def inv(c):
                    i, facts = loopkit.counter(c)
                    g = c.st.frames[0].env
                    o, o0 = c.cell(g['g:this']), c.oldcell(g['g:this'])
                    d = E.read(c.st, g['g:dev'])
                    return [('range', z3.And([i >= 0, i <= n, o[field]['len'] == n, usable(d)] + facts)), ('rest', z3.And([channel_store.same(E, c.st, o[m], o0[m]) for m in o.f if m != field] or [z3.BoolVal(True)])),
                            ('moved', each(o[field], lambda k: ONDEV[t](ids[k], *td(d)), i)), ('not-yet', Q(['k'], lambda k: z3.Implies(z3.And(k >= i, k < n), o[field]['data']['id'][k] == ids[k]), pats=lambda k: o[field]['data']['id'][k]))]
                return inv
            S.function(typ + '::set_device', b_set, sig=r'string_view' if text else r'set_device\(&bland', contracts=D, loops={'match': m_set}, name=nm + '.set_device' + ('(name)' if text else ''))

"""names of devices and element types (bland/bland/ndarray.cpp): every string, decided over the theory of strings"""
import z3
from dv.engine import IV, I, B, N, Loc, Opq, Unsupported
from dv import stdlib
H = []
UNITS = [('bland/bland/ndarray.cpp', [r'^bland::ndarray::(datatype|dev)::ctor\(std::basic_string_view'], H)]
STR = z3.StringSort()
STOI = z3.Function('number_of', STR, I)
ISNUM = z3.Function('is_number', STR, B)
NPOS = 2 ** 64 - 1


def sv(x):
    return N('str', {'id': x}, None)


def contracts():
    C = {}

    def method(f):
        def h(E, st, e, ol):
            v = E.read(st, ol) if isinstance(ol, Loc) else ol
            return E.bind(stdlib.vals_ptr(E, e['a'], st), lambda s, vs: f(E, s, v['id'], [x['id'] if isinstance(x, N) and x.kind == 'str' else x for x in vs], e))
        return h

    def one(g):
        return method(lambda E, s, v, a, e: [(s, g(v, a))])

    def code(c):
        return z3.StringVal(chr(c)) if isinstance(c, int) else z3.StrFromCode(c)

    def substr(E, s, v, a, e):
        pos = a[0] if a else IV(0)
        n = a[1] if len(a) > 1 else IV(NPOS)
        bad = s.fork()
        bad.pc.append(pos > z3.Length(v))
        bad.sig = ('throw', 'std::out_of_range')
        s.pc.append(pos <= z3.Length(v))
        rest = z3.Length(v) - pos
        return [(s, sv(z3.SubString(v, pos, z3.If(n < rest, n, rest)))), (bad, None)]

    def at(E, s, v, a, e):
        E.oblige(s, 'index-in-string', z3.And(a[0] >= 0, a[0] < z3.Length(v)), e['ln'], 'safety')
        return [(s, z3.StrToCode(v[a[0]]) if False else z3.StrToCode(z3.SubString(v, a[0], IV(1))))]

    def txt(x):
        return x if x.sort() == STR else z3.StrFromCode(x)
    for t in ('std::basic_string_view::', 'std::basic_string::'):
        C[t + 'size'] = C[t + 'length'] = one(lambda v, a: z3.Length(v))
        C[t + 'empty'] = one(lambda v, a: z3.Length(v) == 0)
        C[t + 'substr'] = method(substr)
        C[t + 'operator[]'] = C[t + 'at'] = method(at)
        C[t + 'find'] = one(lambda v, a: z3.If(z3.Contains(v, txt(a[0])), z3.IndexOf(v, txt(a[0]), a[1] if len(a) > 1 else IV(0)), IV(NPOS)))
        C[t + 'starts_with'] = one(lambda v, a: z3.PrefixOf(txt(a[0]), v))
        C[t + 'ends_with'] = one(lambda v, a: z3.SuffixOf(txt(a[0]), v))
        C[t + 'compare'] = _compare
        C['ctor:' + t[:-2]] = _ctor

    def stoi(E, st, e):
        def f(s, vs):
            v = vs[0]
            v = E.read(s, v) if isinstance(v, Loc) else v
            bad = s.fork()
            bad.pc.append(z3.Not(ISNUM(v['id'])))
            bad.sig = ('throw', 'std::invalid_argument')
            s.pc.append(ISNUM(v['id']))
            E.assumptions.add('contract of std::stoi: the number a string starts with, or an exception')
            return [(s, STOI(v['id'])), (bad, None)]
        return E.bind(stdlib.vals_ptr(E, e['a'][:1], st), f)
    for n in ('stoi', 'stol', 'stoll'):
        C['std::' + n] = stoi
    return C


def _compare(E, st, e, ol):
    def f(s, vs):
        v = E.read(s, ol) if isinstance(ol, Loc) else ol
        if len(vs) == 3:
            pos, n, o = vs
            bad = s.fork()
            bad.pc.append(pos > z3.Length(v['id']))
            bad.sig = ('throw', 'std::out_of_range')
            s.pc.append(pos <= z3.Length(v['id']))
            rest = z3.Length(v['id']) - pos
            return [(s, z3.If(z3.SubString(v['id'], pos, z3.If(n < rest, n, rest)) == o['id'], IV(0), IV(1))), (bad, None)]
        if len(vs) != 1:
            raise Unsupported('string compare with positions')
        return [(s, z3.If(v['id'] == vs[0]['id'], IV(0), IV(1)))]
    return E.bind(stdlib.vals_ptr(E, e['a'], st), f)


def _ctor(E, st, e):
    def f(s, vs):
        vs = [E.read(s, v) if isinstance(v, Loc) else v for v in vs]
        if not vs:
            return [(s, sv(z3.StringVal('')))]
        ss = [v for v in vs if isinstance(v, N) and v.kind == 'str']
        if not ss or any(not isinstance(v, N) and not isinstance(v, Opq) for v in vs):
            raise Unsupported('string construction')
        return [(s, ss[0])]
    return E.bind(stdlib.vals_ptr(E, e['a'], st), f)


TYPES = {'float': (2, 32), 'float32': (2, 32), 'double': (2, 64), 'float64': (2, 64), 'int': (0, 64), 'int64': (0, 64), 'int32': (0, 32), 'int16': (0, 16), 'int8': (0, 8),
         'uint': (1, 64), 'uint64': (1, 64), 'uint32': (1, 32), 'uint16': (1, 16), 'uint8': (1, 8)}
DEVICES = {'cuda': 2, 'cudahost': 3, 'cudamanaged': 13}


def verify(S):
    OPT = {'strings': True}
    s0 = z3.String('name')

    def b_type(E, st, F):
        this = E.newcell(st, E.default('bland::ndarray::datatype'))

        def post(E, s, r):
            v = E.read(s, this)
            return [('documented-name', z3.Or([s0 == n for n in TYPES])), ('lanes', v['lanes'] == 1)] + \
                [('type-of-' + n, z3.Implies(s0 == n, z3.And(v['code'] == c, v['bits'] == b))) for n, (c, b) in TYPES.items()]
        return {'this': this, 'args': [sv(s0)], 'post': post, 'throws': lambda E, s: [('only-unknown-names', z3.And([s0 != n for n in TYPES]))]}
    S.function('bland::ndarray::datatype::ctor', b_type, sig='basic_string_view', name='datatype(name)', contracts=contracts(), opts=OPT)

    rest = lambda n: z3.SubString(s0, IV(len(n) + 1), z3.Length(s0) - (len(n) + 1))
    pre = lambda n: z3.PrefixOf(z3.StringVal(n + ':'), s0)

    def b_dev(E, st, F):
        this = E.newcell(st, E.default('bland::ndarray::dev'))
        st.pc += [z3.Length(s0) >= 0, z3.Length(s0) < 2 ** 63]

        def post(E, s, r):
            v = E.read(s, this)
            t, i = v['device_type'], v['device_id']
            return [('documented-name', z3.Or([s0 == 'cpu'] + [z3.Or(s0 == n, pre(n)) for n in DEVICES])), ('cpu', z3.Implies(s0 == 'cpu', z3.And(t == 1, i == 0)))] + \
                [('kind-of-' + n, z3.Implies(z3.Or(s0 == n, pre(n)), t == k)) for n, k in DEVICES.items()] + \
                [('first-' + n, z3.Implies(s0 == n, i == 0)) for n in DEVICES] + [('number-of-' + n, z3.Implies(pre(n), i == STOI(rest(n)))) for n in DEVICES]
        return {'this': this, 'args': [sv(s0)], 'post': post,
                'throws': lambda E, s: [('only-unknown-names', z3.And([s0 != 'cpu'] + [z3.And(s0 != n, z3.Not(z3.And(pre(n), ISNUM(rest(n))))) for n in DEVICES]))]}
    S.function('bland::ndarray::dev::ctor', b_dev, sig='basic_string_view', name='dev(name)', contracts=contracts(), opts=OPT)

"""ranges (bland/bland/ops/creators.cpp): number of elements, every element set to start + k * step in the arithmetic
type of the parameters, converted to the element type; every parameter type x element type; unknown types rejected"""
import re
import z3
from dv.session import Q
from dv.engine import IV, I, R, B, N, Ptr, Loc, Unsupported, INT_RANGES
from dv import ndmodel as M
from .dispatch import targs
from .opstructs import to, arith, quot, inrange, common, MUL, modulo
UNITS = [('bland/bland/ops/creators.cpp', [r'^bland::(arange|linspace)<'], [r'^bland::(ndarray|fill)'])]


def ctype(ts):
    """usual arithmetic conversions, narrow types promoted"""
    if any(t in ('float', 'double', 'real') for t in ts):
        return 'real'
    for t in ('unsigned long', 'long', 'unsigned int'):
        if t in ts:
            return t
    return 'int'


def fits(u, t):
    return u == t or (t != 'real' and INT_RANGES[t][0] <= INT_RANGES[u][0] and INT_RANGES[u][1] <= INT_RANGES[t][1])


def ar(op, x, y, ts):
    """x op y in the common type, together with the condition that the (signed) result fits"""
    t = ctype(ts)
    x, y = [v if fits(u, t) else to(v, t) for v, u in zip((x, y), ts)]
    if t == 'real':
        return {'+': x + y, '-': x - y, '*': x * y, '/': x / y}[op], [], t
    r = quot(x, y) if op == '/' else {'+': x + y, '-': x - y, '*': MUL(x, y)}[op]
    hyp = [MUL(x, y) == MUL(y, x)] if op == '*' else []
    if t.startswith('unsigned'):
        return modulo(r, t), hyp, t
    return r, hyp + inrange(r, t), t


def contracts():
    def c_nd(E, st, e):
        if len(e['a']) < 2:
            return E.bind(E.eval_args(E.ptypes_of(e['fn']), e['a'], st), lambda s, vs: [(s, E.read(s, vs[0]) if isinstance(vs[0], Loc) else vs[0])])

        def f(s, vs):
            vs = [E.read(s, v) if isinstance(v, Loc) else v for v in vs]
            sh, dt, dev = vs[:3]
            E.oblige(s, 'one-dimensional', sh['len'] == 1, e['ln'], 'safety')
            n = z3.simplify(z3.Select(sh['data'], IV(0)))
            elem = M.TD.get((M.concrete(dt['code']), M.concrete(dt['bits'])))
            loc = E.newcell(s, N('buf', {'size': n, 'data': z3.Const(E.fresh_name('uninitialised'), z3.ArraySort(I, M.esort(elem or 'float')))}))
            s.frames[0].env['g:made'] = loc
            E.assumptions.add('contract of array construction: contiguous, zero offsets, fresh storage (proved under P01)')
            return [(s, N('nd', {'shape': M.ivec([n]), 'strides': M.ivec([IV(1)]), 'offsets': M.ivec([IV(0)]), 'p': Ptr(loc, IV(0)), 'dt': dt, 'dev': dev}, elem or 'none'))]
        return E.bind(E.eval_args(E.ptypes_of(e['fn']), e['a'], st), f)
    C = M.contracts()
    C['ctor:bland::ndarray'] = c_nd
    return C


def dtv(code, bits):
    return N('struct', {'code': code, 'bits': bits, 'lanes': IV(1)}, 'DLDataType')


def verify(S):
    dev = lambda: N('struct', {'device_type': IV(1), 'device_id': z3.Int('device_id')}, 'DLDevice')
    keys = sorted(k for k in S.P['functions'] if isinstance(k, str) and re.match(r'bland::(arange|linspace)<', k))
    typed = [k for k in keys if 'DLDataType' in k]
    OTHER = 'other'
    for key in typed:
        ts = targs(key)
        nm = S.P['functions'][key]['q'].split('::')[-1]
        pts = [ts[0], ts[1], ts[2]] if nm == 'arange' else [ts[0], ts[0], 'unsigned long']
        for elem in list(M.DT) + [OTHER]:
            W = {}

            def build(E, st, F, elem=elem, pts=pts, nm=nm, W=W):
                M.install(E, st)
                names = ['start', 'end', 'step'] if nm == 'arange' else ['start', 'end', 'count']
                a = [z3.Const(x, M.esort(t)) for x, t in zip(names, pts)]
                for x, t in zip(a, pts):
                    st.pc += inrange(x, t)
                if nm == 'arange':
                    x, y, step = a
                    st.pc.append(step != 0)
                    q1, h1, t1 = ar('-', y, x, pts[:2])
                    q2, h2, t2 = ar('/', q1, step, [t1, pts[2]])
                    n = to(q2, 'long')
                    st.pc += h1 + h2 + inrange(n, 'long') + [n >= 0, n < 2 ** 31 - 1]
                    stt = pts[2]
                else:
                    x, y, n = a
                    st.pc += [n >= 1, n < 2 ** 31 - 1]
                    q1, h1, t1 = ar('-', y, x, pts[:2])
                    step, h2, stt = ar('/', q1, n, [t1, 'long' if ctype(pts[:1]) != 'real' else pts[0]])
                    st.pc += h1 + h2

                def value(k):
                    p, h, t = ar('*', step, k, [stt, 'int'])
                    v, h2, t = ar('+', x, p, [pts[0], t])
                    if elem not in ('float', 'double', OTHER) and t == 'real':
                        h2 = h2 + inrange(to(v, 'long'), elem)   # conversion of a value the element type cannot hold is undefined
                    return v, h + h2
                W['n'], W['value'], W['hyp'] = n, value, None
                if elem == OTHER:
                    c, b = z3.Ints('code bits')
                    st.pc += [c >= 0, c <= 255, b >= 0, b <= 255] + [z3.Not(z3.And(c == i, b == j)) for i, j in M.DT.values()]
                    d = dtv(c, b)
                else:
                    d = dtv(*[IV(z) for z in M.DT[elem]])
                    k = z3.Int('k!p')
                dv = dev()

                def post(E, s, ret):
                    if elem == OTHER:
                        return [('rejects-unknown-type', z3.BoolVal(False))]
                    r = ret if not isinstance(ret, Loc) else E.read(s, ret)
                    D = M.buf(E, s, r)['data']
                    mine = s.frames[0].env.get('g:made')
                    return [('length', z3.And(M.get(r['shape'], 0) == n, r['shape']['len'] == 1)), ('layout', z3.And(M.get(r['strides'], 0) == 1, M.get(r['offsets'], 0) == 0)),
                            ('storage', z3.BoolVal(mine is not None and r['p'].loc.cell == mine.cell)),
                            ('element-type', z3.And(r['dt']['code'] == d['code'], r['dt']['bits'] == d['bits'])),
                            ('device', z3.And(r['dev']['device_type'] == dv['device_type'], r['dev']['device_id'] == dv['device_id'])),
                            ('elements', Q(['k'], lambda k: el(D, k, n), pats=lambda k: D[k]))]
                return {'args': a + [d, dv], 'post': post, 'throws': lambda E, s: [('only-unknown-type', z3.BoolVal(elem == OTHER))]}

            def el(D, k, bound, W=W, elem=elem):
                v, h = W['value'](k)
                return z3.Implies(z3.And([k >= 0, k < bound] + h), D[k] == to(v, elem))

            def inv(E, nd, st, ordn, W=W, el=el):
                def f(c):
                    ii = c['ii']
                    D = c.E.read(c.st, c.st.frames[0].env['g:made'])['data']
                    return [('range', z3.And(ii >= 0, ii <= W['n'])), ('elements', Q(['k'], lambda k: el(D, k, ii), pats=lambda k: D[k]))]
                return f
            S.function('bland::' + nm, build, sig='^' + re.escape(key) + '$', name='%s<%s> as %s' % (nm, ','.join(ts), elem), contracts=contracts(), loops={'match': inv},
                       opts={'wrap': True, 'ufmul': True, 'ub_pre': True})

    # ---- element type inferred from the parameters: the typed range of the same parameters
    for key in keys:
        if key in typed:
            continue
        ts = targs(key)
        F = S.P['functions'][key]
        nm = F['q'].split('::')[-1]

        def c_typed(E, st, e):
            def f(s, vs):
                vs = [E.read(s, v) if isinstance(v, Loc) else v for v in vs]
                s.frames[0].env['g:call'] = E.newcell(s, N('struct', dict([('a%d' % i, v) for i, v in enumerate(vs)] + [('fn', z3.StringVal(e['fn']))]), 'call'))
                return [(s, N('struct', {'result': IV(1)}, 'typed range'))]
            return E.bind(E.eval_args(E.ptypes_of(e['fn']), e['a'], st), f)

        def build(E, st, F, ts=ts, nm=nm):
            M.install(E, st)
            pts = ts if nm == 'arange' else [ts[0], ts[0], 'unsigned long']
            a = [z3.Const(x, M.esort(t)) for x, t in zip(['p0', 'p1', 'p2'], pts)]
            for x, t in zip(a, pts):
                st.pc += inrange(x, t)
            dv = dev()

            def post(E, s, ret):
                if 'g:call' not in s.frames[0].env:
                    return [('delegates', z3.BoolVal(False))]
                q = E.read(s, s.frames[0].env['g:call'])
                r = E.read(s, ret) if isinstance(ret, Loc) else ret
                c, b = M.DT[ts[0]]
                return [('parameters', z3.And([q['a%d' % i] == x for i, x in enumerate(a)])), ('element-type', z3.And(q['a3']['code'] == c, q['a3']['bits'] == b)),
                        ('device', z3.And(q['a4']['device_type'] == dv['device_type'], q['a4']['device_id'] == dv['device_id'])), ('result', r['result'] == 1)]
            return {'args': a + [dv], 'post': post}
        C = M.contracts()
        for k in typed:
            if k.startswith('bland::%s<' % nm):
                C['key:' + k] = c_typed
        C['ctor:bland::ndarray'] = None
        C = {k: v for k, v in C.items() if v is not None}
        S.function(F['q'], build, sig='^' + re.escape(key) + '$', name='%s<%s>' % (nm, ','.join(ts)), contracts=C)

"""raw files (bland/bland/ops/cpu/ops_cpu.cpp write_to_file / read_from_file, bland_helpers/file_helpers.hpp, ops/ops.cpp)

The file is ghost state: a sequence of elements being written, or of bytes being read.  Streams follow their contracts."""
import z3
from dv.session import Q
from dv.engine import IV, I, R, B, N, Ptr, Loc, Opq, Unsupported
from dv import ndmodel as M, stdlib
from .odometer import Odo, gvec
from .elementwise import Arr, base, BIG
H = [r'^bland::ndarray', r'^bland::(to|fill|copy)']
UNITS = [('bland/bland/ops/cpu/ops_cpu.cpp', [r'^bland::cpu::(write_to_file|read_from_file)'], H),
         ('bland/bland/ops/ops.cpp', [r'^bland::(write_to_file|read_from_file)'], H + [r'^bland::cpu::'])]
OUT, IN = 'std::basic_ofstream', 'std::basic_ifstream'


def val(E, s, v):
    return E.read(s, v) if isinstance(v, Loc) else v


def streams(bytes_per_element=4):
    """output: ghost element sequence; input: ghost byte sequence"""
    C = {}

    def c_out(E, st, e):
        def f(s, vs):
            ok = E.leaf(B, 'opened')
            s.frames[0].env['g:out'] = E.newcell(s, N('struct', {'len': IV(0), 'data': z3.Const(E.fresh_name('file'), z3.ArraySort(I, R)), 'path': val(E, s, vs[0]) if vs else IV(0)}, 'written'))
            s.frames[0].env['g:opened'] = E.newcell(s, ok)
            return [(s, N('struct', {'ok': ok}, 'ofstream'))]
        return E.bind(stdlib.vals_ptr(E, e['a'], st), f)
    C['ctor:' + OUT] = c_out

    def c_in(E, st, e):
        def f(s, vs):
            ok = E.leaf(B, 'opened')
            s.frames[0].env['g:opened'] = E.newcell(s, ok)
            return [(s, N('struct', {'ok': ok, 'pos': IV(0), 'size': z3.Int('file_length')}, 'ifstream'))]
        return E.bind(stdlib.vals_ptr(E, e['a'], st), f)
    C['ctor:' + IN] = c_in

    def m_not(E, st, e, ol):
        return [(st, z3.Not(val(E, st, ol)['ok']))]

    def m_bool(E, st, e, ol):
        return [(st, val(E, st, ol)['ok'])]
    C['std::basic_ios::operator!'] = m_not
    C['std::basic_ios::fail'] = m_not
    for nm in (OUT, IN):
        C[nm + '::is_open'] = m_bool
        C[nm + '::close'] = lambda E, st, e, ol: [(st, None)]
    C['std::basic_ios::good'] = m_bool
    C['std::basic_ios::operator bool'] = m_bool
    C['std::basic_ios::conv'] = m_bool

    def m_write(E, st, e, ol):
        def f(s, vs):
            p, n = vs
            if not isinstance(p, Ptr) or p.null:
                raise Unsupported('write from %r' % (p,))
            g = s.frames[0].env['g:out']
            w = E.read(s, g)
            E.oblige(s, 'writes-whole-elements', z3.And(n >= 0, n % bytes_per_element == 0), e['ln'], 'safety')
            cnt = n / bytes_per_element
            src = E.read(s, p.loc)
            if isinstance(src, N) and src.kind in ('vec', 'buf'):
                ln = src['len'] if src.kind == 'vec' else src['size']
                ix = p.idx if p.idx is not None else IV(0)
                E.oblige(s, 'writes-inside-buffer', z3.And(ix >= 0, ix + cnt <= ln), e['ln'], 'safety')
                k = z3.Int('k!w')
                if M.concrete(cnt) == 1:
                    data = z3.Store(w['data'], w['len'], src['data'][ix])
                else:
                    data = z3.Lambda([k], z3.If(z3.And(k >= w['len'], k < w['len'] + cnt), src['data'][ix + k - w['len']], w['data'][k]))
            elif M.is_z(src) and src.sort() == R:
                E.oblige(s, 'writes-one-element', cnt == 1, e['ln'], 'safety')
                data = z3.Store(w['data'], w['len'], src)
            else:
                raise Unsupported('write from %r' % (src,))
            E.write(s, g, w.set(data=data, len=z3.simplify(w['len'] + cnt)))
            E.assumptions.add('contract of std::ofstream::write: appends exactly the given bytes to the file (no disk failure)')
            return [(s, ol)]
        return E.bind(stdlib.vals_ptr(E, e['a'], st), f)
    C['std::basic_ostream::write'] = m_write

    def m_tellg(E, st, e, ol):
        return [(st, val(E, st, ol)['pos'])]
    C['std::basic_istream::tellg'] = m_tellg
    C['std::fpos::conv'] = lambda E, st, e, ol: [(st, val(E, st, ol))]
    C['ctor:std::fpos'] = lambda E, st, e: E.bind(stdlib.vals_ptr(E, e['a'], st), lambda s, vs: [(s, vs[0])])

    def m_seekg(E, st, e, ol):
        def f(s, vs):
            v = val(E, s, ol)
            if len(vs) == 1:
                to = val(E, s, vs[0])
            else:
                d = M.concrete(val(E, s, vs[1]))
                if d not in (0, 1, 2):
                    raise Unsupported('seek direction %r' % (vs[1],))
                to = vs[0] + [IV(0), v['pos'], v['size']][d]
            E.oblige(s, 'seeks-inside-file', z3.And(to >= 0, to <= v['size']), e['ln'], 'safety')
            E.write(s, ol, v.set(pos=z3.simplify(to)))
            E.assumptions.add('contracts of std::ifstream::seekg / tellg / read over a file that does not change meanwhile')
            return [(s, ol)]
        return E.bind(stdlib.vals_ptr(E, e['a'], st), f)
    C['std::basic_istream::seekg'] = m_seekg

    def m_read(E, st, e, ol):
        def f(s, vs):
            p, n = vs
            v = val(E, s, ol)
            buf = E.read(s, p.loc)
            ix = p.idx if p.idx is not None else IV(0)
            E.oblige(s, 'reads-into-the-array', z3.And(n >= 0, ix >= 0, ix + n <= buf['size']), e['ln'], 'safety')
            by = z3.Array('file_bytes', I, I)
            k = z3.Int('k!r')
            got = z3.If(n <= v['size'] - v['pos'], n, v['size'] - v['pos'])
            E.write(s, p.loc, buf.set(data=z3.Lambda([k], z3.If(z3.And(k >= ix, k < ix + got), by[v['pos'] + k - ix], buf['data'][k]))))
            E.write(s, ol, v.set(pos=v['pos'] + got))
            return [(s, ol)]
        return E.bind(stdlib.vals_ptr(E, e['a'], st), f)
    C['std::basic_istream::read'] = m_read
    return C


def opened(E, s):
    g = s.frames[0].env.get('g:opened')
    return E.read(s, g) if g is not None else z3.BoolVal(True)


def verify(S):
    # ---------------------------------------------------------------- write
    o = Odo()
    o.lemmas(S)
    x = Arr(o, 'a')
    x.v.lemmas(S)
    AD = z3.Array('a0', I, R)
    W = {}

    def b_write(E, st, F):
        M.install(E, st)
        E.odo, E.arrs = o, [x]
        d = z3.Int('d!s')
        st.pc += [o.nd >= 1, o.nd <= 64, o.numel >= 0, o.numel <= BIG, z3.Implies(o.numel > 0, z3.ForAll([d], o.shape_ok(d), patterns=[o.S[d]])), o.carry_axiom()] + x.pre()
        W['v'] = x.nd(E, st, 'float', AD)
        E.C.update(base(E))
        E.C.update(streams())

        def post(E, s, ret):
            if 'g:out' not in s.frames[0].env:
                return [('opens-a-file', z3.BoolVal(False))]
            w = E.read(s, s.frames[0].env['g:out'])
            return [('count', w['len'] == o.numel), ('elements', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < o.numel), w['data'][k] == AD[x.addr(k)]), pats=lambda k: w['data'][k])),
                    ('source-unchanged', M.buf(E, s, W['v'])['data'] == AD)]
        return {'args': [W['v'], E.fresh('std::basic_string<char>', 'path')], 'post': post, 'throws': lambda E, s: [('only-if-not-opened', z3.Not(opened(E, s)))]}

    def inv(E, nd, st, ordn):
        def main(c):
            n, ix = c['n'], c['nd_index']
            w = c.E.read(c.st, c.st.frames[0].env['g:out'])
            return [('range', z3.And(n >= 0, n <= o.numel)), ('rank', ix['len'] == o.nd), ('count', w['len'] == n),
                    ('digits', Q(['d'], lambda d: z3.Implies(z3.And(d >= 0, d < o.nd), ix['data'][d] == o.idx(n, d)), pats=lambda d: ix['data'][d],
                                 use=lambda d: [o.digit0(d), o.succ(n - 1, d)] + o.carry_def(n - 1, d))),
                    ('address', Q([], lambda: c['x_linear_index'] == x.addr(n), use=lambda: [x.v.first(), x.v.next(n - 1)] + o.carry_def(n - 1) + [x.v.d0(n - 1)])),
                    ('written', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < n), w['data'][k] == AD[x.addr(k)]), pats=lambda k: w['data'][k]))]

        def carry(c):
            n, i, ix = c['n'], c['i'], c['nd_index']
            return [('range', z3.And(i >= -1, i < o.nd, n >= 0, n < o.numel, ix['len'] == o.nd)),
                    ('digits', Q(['d'], lambda d: z3.Implies(z3.And(d >= 0, d < o.nd), ix['data'][d] == z3.If(d <= i, o.idx(n, d), IV(0))), pats=lambda d: ix['data'][d])),
                    ('at-maximum', Q(['d'], lambda d: z3.Implies(z3.And(d > i, d < o.nd), o.idx(n, d) == o.S[d] - 1), pats=lambda d: o.idx(n, d), use=lambda d: [o.digit_range(n, i + 1)])),
                    ('address', Q([], lambda: c['x_linear_index'] == x.off + x.v.D(n, i + 1), use=lambda: [x.v.dstep(n, i + 1), o.digit_range(n, i + 1)]))]
        return [main, carry][ordn] if ordn < 2 else None
    S.function('bland::cpu::write_to_file', b_write, name='write_to_file', loops={'match': inv}, opts={'merge_arrays': True})

    # ---------------------------------------------------------------- read
    def b_read(E, st, F):
        M.install(E, st)
        by = z3.Array('file_bytes', I, I)
        L = z3.Int('file_length')
        code, bits = z3.Ints('code bits')
        st.pc += [L >= 0, L < 2 ** 62, bits >= 8, bits <= 255, bits % 8 == 0, code >= 0, code <= 255]
        dt = N('struct', {'code': code, 'bits': bits, 'lanes': IV(1)}, 'bland::ndarray::datatype')
        C = M.contracts()

        def c_nd(E, st, e):
            def f(s, vs):
                vs = [val(E, s, v) for v in vs]
                if len(vs) == 1 or (isinstance(vs[0], N) and vs[0].kind == 'nd'):
                    return [(s, vs[0])]
                sh, t = vs[:2]
                E.oblige(s, 'one-dimensional', sh['len'] == 1, e['ln'], 'safety')
                n = z3.simplify(z3.Select(sh['data'], IV(0)))
                E.oblige(s, 'extent-nonnegative', n >= 0, e['ln'], 'safety')
                loc = E.newcell(s, N('buf', {'size': n * (t['bits'] / 8), 'data': z3.Const(E.fresh_name('uninitialised'), z3.ArraySort(I, I))}))
                return [(s, N('nd', {'shape': M.ivec([n]), 'strides': M.ivec([IV(1)]), 'offsets': M.ivec([IV(0)]), 'p': Ptr(loc, IV(0)), 'dt': t, 'dev': vs[2] if len(vs) > 2 else M.devval(E)}, 'bytes'))]
            return E.bind(E.eval_args(E.ptypes_of(e['fn']), e['a'], st), f)
        C['ctor:bland::ndarray'] = c_nd
        C['bland::ndarray::data_ptr'] = lambda E, st, e, ol: [(st, val(E, st, ol)['p'])] if e['ta'][0] in ('char', 'unsigned char', 'void') else _bad(e)
        C.update(streams())
        E.C.update(C)

        def post(E, s, r):
            r = val(E, s, r)
            n = L / (bits / 8)
            D = M.buf(E, s, r)['data']
            return [('length', z3.And(r['shape']['len'] == 1, M.get(r['shape'], 0) == n)), ('element-type', z3.And(r['dt']['code'] == code, r['dt']['bits'] == bits)),
                    ('bytes', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < n * (bits / 8)), D[k] == by[k]), pats=lambda k: D[k]))]
        return {'args': [E.fresh('std::basic_string<char>', 'path'), dt], 'post': post, 'throws': lambda E, s: [('only-if-not-opened', z3.Not(opened(E, s)))]}

    def _bad(e):
        raise Unsupported('data_ptr<%s>' % e['ta'][0])
    S.function('bland::cpu::read_from_file', b_read, name='read_from_file')

    # ---------------------------------------------------------------- public functions
    for nm in ('write_to_file', 'read_from_file'):
        def b_pub(E, st, F, nm=nm):
            M.install(E, st)
            a = M.mk_nd(E, st, 'x', [z3.Int('extent')])
            path = E.fresh('std::basic_string<char>', 'path')
            dt = M.dtval('float')
            E.C.update(M.contracts())
            E.C['bland::ndarray::to'] = lambda E, st, e, ol: [(st, val(E, st, ol))]
            E.C['bland::ndarray::operator='] = lambda E, st, e, ol: E.bind(stdlib.vals_ptr(E, e['a'], st), lambda s, vs: [(E.write(s, ol, val(E, s, vs[0])), (s, ol))[1]])

            def c_cpu(E, st, e):
                def f(s, vs):
                    s.frames[0].env['g:call'] = E.newcell(s, N('struct', {'a%d' % i: val(E, s, v) for i, v in enumerate(vs)}, 'call'))
                    return [(s, IV(77))]
                return E.bind(stdlib.vals_ptr(E, e['a'], st), f)
            E.C['bland::cpu::' + nm] = c_cpu
            E.assumptions.add('moving an array that is on the CPU to the CPU returns that array (proved under P02)')

            def post(E, s, ret):
                if 'g:call' not in s.frames[0].env:
                    return [('delegates', z3.BoolVal(False))]
                q = E.read(s, s.frames[0].env['g:call'])
                if nm == 'write_to_file':
                    return [('array', z3.And(z3.BoolVal(q['a0']['p'].loc.cell == a['p'].loc.cell), q['a0']['p'].idx == 0)), ('path', q['a1']['id'] == path['id'])]
                return [('path', q['a0']['id'] == path['id']), ('type', z3.And(q['a1']['code'] == dt['code'], q['a1']['bits'] == dt['bits'])), ('result', ret == 77)]
            return {'args': [a, path] if nm == 'write_to_file' else [path, dt], 'post': post}
        S.function('bland::' + nm, b_pub, name='bland::' + nm)

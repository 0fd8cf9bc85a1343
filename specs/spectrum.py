"""shifted power spectrum (bland/bland/ops/frequency.cpp, ops/cpu/frequency_cpu_impl.cpp): every length and layout

FFTW by contract: executing an estimate-planned 1-d real transform of N samples leaves bin k of their transform in
element k of the output, k = 0 .. N/2, and touches nothing else.  That bins N-k and k of real samples have the same
power is a fact about the transform, not about this code."""
import z3
from dv.session import Q
from dv.engine import IV, RV, I, R, B, N, Ptr, Loc, Opq, Unsupported
from dv import ndmodel as M, stdlib
H = [r'^bland::ndarray::(?!(datatype|dev)::operator)', r'^bland::(to|fill|copy)', r'^bland::cpu::copy']
UNITS = [('bland/bland/ops/cpu/frequency_cpu_impl.cpp', [r'^bland::cpu::fft_shift_mag_square\('], H),
         ('bland/bland/ops/frequency.cpp', [r'^bland::fft_shift_mag_square\('], H + [r'^bland::cpu::']), M.UNIT_DT]
RE, IM, PW = [z3.Function(n, I, R) for n in ('bin_re', 'bin_im', 'bin_power')]


def power(k):
    return PW(k) == RE(k) * RE(k) + IM(k) * IM(k)


def val(E, s, v):
    return E.read(s, v) if isinstance(v, Loc) else v


def verify(S):
    n, T, O, size = z3.Ints('N stride offset size')
    X = z3.Array('samples', I, R)
    W = {}

    def fftw():
        C = {}
        vp = lambda f: (lambda E, st, e: E.bind(stdlib.vals_ptr(E, e['a'], st), lambda s, vs: f(E, s, vs, e)))

        def malloc(E, s, vs, e):
            loc = E.newcell(s, N('buf', {'size': vs[0] / 8, 'data': N('vec', {'len': z3.K(I, IV(2)), 'data': z3.Const(E.fresh_name('bins'), z3.ArraySort(I, z3.ArraySort(I, R)))}, 'float')}))
            E.oblige(s, 'allocation-size-nonnegative', vs[0] >= 0, e['ln'], 'safety')
            return [(s, Ptr(loc, IV(0)))]
        C['fftwf_malloc'] = vp(malloc)

        def plan(E, s, vs, e):
            cnt, src, dst, flags = vs
            f = M.concrete(flags)
            if f is None or not f & 64:
                raise Unsupported('transform planned by measuring')
            p = E.newcell(s, N('struct', {'n': cnt, 'src': src, 'dst': dst}, 'plan'))
            W['plan'] = (cnt, src, dst)
            return [(s, Ptr(p, None))]
        C['fftwf_plan_dft_r2c_1d'] = vp(plan)

        def execute(E, s, vs, e):
            pl = E.read(s, vs[0].loc)
            cnt, src, dst = pl['n'], pl['src'], pl['dst']
            a, b = E.read(s, src.loc), E.read(s, dst.loc)
            k = z3.Int('k!f')
            E.oblige(s, 'samples-inside-buffer', z3.And(src.idx >= 0, src.idx + cnt <= a['size']), e['ln'], 'safety')
            E.oblige(s, 'bins-inside-buffer', z3.And(dst.idx >= 0, dst.idx + cnt / 2 + 1 <= b['size']), e['ln'], 'safety')
            E.oblige(s, 'transforms-all-samples', cnt == n, e['ln'], 'spec')
            j = z3.Int('j!t')
            E.oblige(s, 'transforms-the-samples-in-order', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), a['data'][src.idx + j] == X[O + j * T])), e['ln'], 'spec')
            d = b['data']['data']
            inner = z3.Lambda([j], z3.If(j == 0, RE(k - dst.idx), IM(k - dst.idx)))
            E.write(s, dst.loc, b.set(data=b['data'].set(data=z3.Lambda([k], z3.If(z3.And(k >= dst.idx, k <= dst.idx + cnt / 2), inner, d[k])))))
            E.assumptions.add('contract of FFTW (planned with FFTW_ESTIMATE): real transform of N samples into N/2+1 bins')
            return [(s, None)]
        C['fftwf_execute'] = vp(execute)
        C['fftwf_destroy_plan'] = C['fftwf_free'] = vp(lambda E, s, vs, e: [(s, None)])
        return C

    def c_copy(E, st, e):
        def f(s, vs):
            src, dst = [val(E, s, v) for v in vs]
            b = M.buf(E, s, dst)
            E.oblige(s, 'copies-between-equal-shapes', z3.And(src['shape']['len'] == 1, dst['shape']['len'] == 1, M.get(src['shape'], 0) == M.get(dst['shape'], 0)), e['ln'], 'spec')
            M.need_contig(dst, 'copy')
            a = M.buf(E, s, src)
            k = z3.Int('k!c')
            E.write(s, dst['p'].loc, b.set(data=z3.Lambda([k], z3.If(z3.And(k >= 0, k < M.get(src['shape'], 0)), a['data'][M.get(src['offsets'], 0) + k * M.get(src['strides'], 0)], b['data'][k]))))
            E.assumptions.add('contract of copy: element by element, whatever the layouts (proved under P07)')
            return [(s, dst)]
        return E.bind(stdlib.vals_ptr(E, e['a'], st), f)

    def b_cpu(E, st, F):
        M.install(E, st)
        st.pc += [n >= 1, n <= 2 ** 24, T >= 0, O >= 0, T <= 2 ** 40, O <= 2 ** 40]
        x = M.mk_nd(E, st, 'x', [n], [T], [O], data=X, size=size)
        out = M.mk_nd(E, st, 'out', [n])
        W['out'], W['x'] = out, x
        E.C.update(M.contracts())
        E.C.update(fftw())
        E.C['bland::cpu::copy'] = c_copy
        E.C['bland::copy'] = c_copy
        E.C['bland::ndarray::operator='] = lambda E, st, e, ol: E.bind(stdlib.vals_ptr(E, e['a'], st), lambda s, vs: [(E.write(s, ol, val(E, s, vs[0])), (s, ol))[1]])
        oc = E.newcell(st, out)
        D0 = M.buf(E, st, out)['data']

        def post(E, s, r):
            r = val(E, s, r)
            D = M.buf(E, s, out)['data']
            return [('length', z3.And(M.get(r['shape'], 0) == n, r['shape']['len'] == 1)), ('result-is-destination', z3.And(z3.BoolVal(r['p'].loc.cell == out['p'].loc.cell), r['p'].idx == 0)),
                    ('bins', Q(['k'], lambda k: z3.Implies(z3.And(k >= 0, k < n), D[(k + n / 2) % n] == PW(z3.If(k <= n / 2, k, n - k))), use=lambda k: [])),
                    ('source-unchanged', M.buf(E, s, x)['data'] == X)]
        return {'args': [x, oc], 'post': post}

    def inv(E, nd, st, ordn):
        def f(c):
            i = c['i']
            D = M.buf(c.E, c.st, W['out'])['data']
            h = n / 2
            r = [('range', z3.And(i >= 0, i <= h + 1))]
            body = lambda p: z3.Implies(z3.And(p >= 0, p < n), z3.And(z3.Implies(z3.And(p >= h, p - h < i), D[p] == PW(p - h)), z3.Implies(z3.And(p < h, h - p < i), D[p] == PW(h - p))))
            r.append(('bins', Q(['p'], body, pats=lambda p: D[p], use=lambda p: [power(i - 1)])))
            return r
        return f
    S.function('bland::cpu::fft_shift_mag_square', b_cpu, name='cpu::fft_shift_mag_square', loops={'match': inv})

    def b_pub(E, st, F):
        M.install(E, st)
        code, bits, lanes, dt_, di = z3.Ints('code bits lanes device_type device_id')
        x = M.mk_nd(E, st, 'x', [n], [T], [O], data=X, size=size)
        x = x.set(dt=N('struct', {'code': code, 'bits': bits, 'lanes': lanes}, 'bland::ndarray::datatype'), dev=N('struct', {'device_type': dt_, 'device_id': di}, 'bland::ndarray::dev'))
        st.pc += [n >= 1]
        E.C.update(M.contracts())
        E.C.update({'fmt::format': lambda E, st, e: [(st, E.fresh('std::basic_string<char>', 'fmt'))]})

        def c_nd(E, st, e):
            def f(s, vs):
                vs = [val(E, s, v) for v in vs]
                if isinstance(vs[0], N) and vs[0].kind == 'nd':
                    return [(s, vs[0])]
                sh = M.vals(vs[0])
                s.pc.append(z3.And(sh[0] >= 0))
                return [(s, M.mk_nd(E, s, 'out', sh).set(dt=vs[1], dev=vs[2]))]
            return E.bind(stdlib.vals_ptr(E, e['a'], st), f)
        E.C['ctor:bland::ndarray'] = c_nd

        def c_cpu(E, st, e):
            def f(s, vs):
                a, o = [val(E, s, v) for v in vs]
                s.frames[0].env['g:call'] = E.newcell(s, N('struct', {'a': a, 'o': o}, 'call'))
                return [(s, IV(77))]
            return E.bind(stdlib.vals_ptr(E, e['a'], st), f)
        E.C['bland::cpu::fft_shift_mag_square'] = c_cpu
        f32 = z3.And(code == 2, bits == 32, lanes == 1)

        def post(E, s, ret):
            if 'g:call' not in s.frames[0].env:
                return [('reaches-the-kernel', z3.BoolVal(False))]
            q = E.read(s, s.frames[0].env['g:call'])
            a, o = q['a'], q['o']
            return [('element-type', f32), ('device', z3.Or(dt_ == 1, dt_ == 3)), ('source', z3.And(z3.BoolVal(a['p'].loc.cell == x['p'].loc.cell), a['p'].idx == 0, M.get(a['strides'], 0) == T, M.get(a['offsets'], 0) == O)),
                    ('destination', z3.And(z3.BoolVal(o['p'].loc.cell != x['p'].loc.cell and M.is_contig(o)), M.get(o['shape'], 0) == n, o['dt']['code'] == code, o['dt']['bits'] == bits)), ('result', ret == 77)]
        return {'args': [x], 'post': post, 'throws': lambda E, s: [('only-unsupported', z3.Not(z3.And(f32, z3.Or(dt_ == 1, dt_ == 3))))]}
    S.function('bland::fft_shift_mag_square', b_pub, name='fft_shift_mag_square')

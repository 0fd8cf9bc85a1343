"""contracts of the element-wise kernels (bland/bland/ops/cpu/elementwise_*_op.hpp, assignment_op.hpp)

For arrays of any rank, shape, strides and offsets: element idx(r) of the result is the operation applied to
element idx(r) of the operands (extent-one and missing dimensions repeated), for every r below the number of
elements, and no other element of the destination's storage changes."""
import re
import z3
from dv.session import Q, Session
from dv.engine import IV, RV, I, R, B, N, Loc, Ptr, Obl, SUMF, coerce, Unsupported
from dv import ndmodel as M
from .odometer import Odo, View, Block, last_index, last_index_lemma, lem, gnd, gvec, classes, contiguous_lemma

STOPS = [r'^bland::ndarray::', r'^bland::compute_broadcast', r'^bland::expand_shapes']
UNITS_UNARY = [('bland/bland/ops/cpu/ops_cpu.cpp', [r'^bland::cpu::elementwise_unary_op<', r'^bland::cpu::assignment_op<'], STOPS)]
UNITS_SCALAR = [('bland/bland/ops/cpu/arithmetic_scalar_cpu.cpp', [r'^bland::elementwise_scalar_op<'], STOPS)]
UNITS_BINARY = [('bland/bland/ops/cpu/arithmetic_cpu.cpp', [r'^bland::elementwise_binary_op<'], STOPS)]
BIG = 2 ** 31 - 1


class Arr:
    """an input or output array of rank nd (symbolic) for the iteration o; broadcast: own shape/rank differ"""

    def __init__(self, o, name, same=True):
        self.o, self.name = o, name
        self.rank = o.nd if same else z3.Int('rank_' + name)
        self.shape = o.S if same else z3.Array('shape_' + name, I, I)
        self.strides = z3.Array('strides_' + name, I, I)
        self.offsets = z3.Array('offsets_' + name, I, I)
        self.size = z3.Int('size_' + name)
        # effective strides in the iteration space
        self.est = self.strides if same else z3.Array('bstrides_' + name, I, I)
        self.bsh = o.S if same else z3.Array('bshape_' + name, I, I)
        self.v = View(o, name, self.est)
        self.same = same
        self.off = SUMF(self.offsets, self.rank)

    def addr(self, n):
        return self.off + self.v.at(n)

    def pre(self):
        n, d = z3.Ints('n!%s d!%s' % (self.name, self.name))
        o = self.o
        out = [self.off >= 0, self.off <= BIG, self.size >= 0,
               z3.ForAll([n], z3.Implies(z3.And(n >= 0, n < o.numel), z3.And(self.addr(n) >= 0, self.addr(n) < self.size)), patterns=[self.v.at(n)])]
        if not self.same:
            out += [self.rank >= 0, self.rank <= o.nd]
        return out

    def bdef(self, d):
        """broadcast strides and shape (contract of compute_broadcast_*): dimensions aligned from the last,
        extents of one repeated with stride zero"""
        if self.same:
            return []
        o = self.o
        e = d - (o.nd - self.rank)
        return [z3.Implies(z3.And(d >= 0, d < o.nd), z3.And(
            self.est[d] == z3.If(z3.And(e >= 0, self.shape[e] != 1), self.strides[e], IV(0)),
            self.bsh[d] == z3.If(z3.And(e >= 0, z3.Or(self.shape[e] == o.S[d], self.shape[e] == 1)), o.S[d], IV(1))))]

    def compat(self, d):
        o = self.o
        e = d - (o.nd - self.rank)
        return z3.Implies(z3.And(d >= 0, d < o.nd, e >= 0), z3.Or(self.shape[e] == o.S[d], self.shape[e] == 1))

    def nd(self, E, st, elem, data):
        return gnd(E, st, self.name, self.rank, self.shape, self.strides, self.offsets, elem, self.size, data)

    def uses(self, n, i):
        """facts about step n at digit i"""
        v = self.v
        return [v.next(n), v.d0(n), v.dstep(n, i)] + self.bdef(i)


def base(E):
    C = M.contracts()
    C['bland::ndarray::numel'] = lambda E, st, e, ol: [(st, E.odo.numel)]

    def bcast(field):
        def h(E, st, e):
            def f(s, vs):
                vs = [E.read(s, v) if isinstance(v, Loc) else v for v in vs]
                for a in E.arrs:
                    if z3.eq(vs[0]['data'], a.shape) and not a.same:
                        ok = [vs[0]['len'] == a.rank, vs[-1]['len'] == a.o.nd]
                        if field == 'est':
                            ok.append(z3.BoolVal(z3.eq(vs[1]['data'], a.strides)))
                        ok.append(z3.BoolVal(z3.eq(vs[-1]['data'], a.o.S)))
                        E.oblige(s, 'broadcast-arguments', z3.And(ok), e['ln'], 'spec')
                        E.assumptions.add('contract of compute_broadcast_strides / compute_broadcast_shape (proved in specs.shapes)')
                        return [(s, gvec(a.o.nd, getattr(a, field)))]
                raise Unsupported('broadcast of an unknown shape')
            return E.bind(E.eval_args(E.ptypes_of(e['fn']), e['a'], st), f)
        return h
    C['bland::compute_broadcast_strides'] = bcast('est')
    C['bland::compute_broadcast_shape'] = bcast('bsh')
    return C


OPF = {}


def op_uf(nargs, sorts, out):
    k = (nargs, tuple(str(s) for s in sorts), str(out))
    if k not in OPF:
        OPF[k] = z3.Function('element_operation_%d' % len(OPF), *(list(sorts) + [out]))
    return OPF[k]


def op_contract(E, st, e):
    """the element operation itself (its own contract: specs.opstructs)"""
    def f(s, vs):
        vs = [E.read(s, v) if isinstance(v, Loc) else v for v in vs]
        out = E.sort_of(e['t'])
        E.ops_used.add(e['fn'])
        return [(s, op_uf(len(vs), [v.sort() for v in vs], out)(*vs))]
    return E.bind(E.eval_args(E.ptypes_of(e['fn']), e['a'], st), f)


class Kernel:
    """one element-wise kernel: state of the destination after the first n elements"""

    def __init__(self, S, arrs, out):
        self.S, self.arrs, self.out, self.o = S, arrs, out, out.o
        self.g = z3.Function('which', I, I)     # which(k): the element stored at address k (destination does not overlap itself)

    def inverse(self):
        n = z3.Int('n!inv')
        return z3.ForAll([n], z3.Implies(z3.And(n >= 0, n < self.o.numel), self.g(self.out.addr(n)) == n), patterns=[self.out.v.at(n)])

    def written(self, k, n):
        r = self.g(k)
        return z3.And(r >= 0, r < n, self.out.addr(r) == k)

    def state(self, D, D0, n, val):
        def body(k):
            return D[k] == z3.If(self.written(k, n), val(self.g(k)), D0[k])
        return Q(['k'], body, pats=lambda k: D[k])


def iteration_lemmas(S):
    if 'first.a.base' in S.rep.lemmas:
        return
    o = Odo()
    o.lemmas(S)
    for nm in ('a', 'out'):
        o.view(nm, z3.Array('st_' + nm, I, I)).lemmas(S)


def verify_simple(S, q, tag, nin, make_val, label, lnames, cast_ops=True, nloops=(0, 1), pre_loop=None):
    """kernels with one element per step: lin += stride / lin -= (extent-1)*stride"""
    iteration_lemmas(S)
    for key, members in classes(S, q):
        o = Odo()
        out = Arr(o, 'out')
        ins = [Arr(o, 'a', same=(tag != 'unary'))] if nin else []
        K = Kernel(S, ins, out)
        F = S.P['functions'][key]
        ta = F['ta']
        Ot = ta[0]
        At = ta[1] if len(ta) > 1 else None
        OD = z3.Array('out0', I, M.esort(Ot))
        AD = z3.Array('a0', I, M.esort(At)) if ins else None
        sc = None
        extra = {'out': M.esort(Ot)}

        def val(r):
            return make_val(extra, AD, ins, r)

        def build(E, st, F):
            M.install(E, st)
            E.odo, E.arrs, E.ops_used = o, ins + [out], set()
            d = z3.Int('d!s')
            st.pc += [o.nd >= 1, o.nd <= 64, o.numel >= 0, o.numel <= BIG,
                      z3.Implies(o.numel > 0, z3.ForAll([d], o.shape_ok(d), patterns=[o.S[d]])), K.inverse(), o.carry_axiom()]
            for a in ins + [out]:
                st.pc += a.pre()
            args = [E.newcell(st, out.nd(E, st, Ot, OD))] if '(&' in str(key) else [out.nd(E, st, Ot, OD)]
            outv = E.read(st, args[0]) if isinstance(args[0], Loc) else args[0]
            E.outv = outv
            if ins:
                E.av = ins[0].nd(E, st, At, AD)
                args.append(E.newcell(st, E.av))
            if tag in ('scalar', 'assign'):
                t = ta[2] if tag == 'scalar' else ta[1]
                b = z3.Const('scalar', M.esort(t))
                extra['b'] = b
                extra['conv'] = (t, Ot)
                if t in ('unsigned char', 'unsigned int', 'int'):
                    lo, hi = {'unsigned char': (0, 255), 'unsigned int': (0, 2 ** 32 - 1), 'int': (-2 ** 31, 2 ** 31 - 1)}[t]
                    st.pc += [b >= lo, b <= hi]
                elif Ot not in ('float', 'double'):
                    lo, hi = {'unsigned char': (0, 255), 'unsigned int': (0, 2 ** 32 - 1), 'int': (-2 ** 31, 2 ** 31 - 1), 'long': (-2 ** 63, 2 ** 63 - 1)}[Ot]
                    st.pc += [b > lo - 1, b < hi + 1]    # a float that the destination type can hold (otherwise undefined in C++)
                args.append(E.newcell(st, b))
            E.C.update(base(E))
            for k, f in S.P['functions'].items():
                if f['q'].endswith('::call'):
                    E.C[f['q']] = op_contract
            compat = z3.Bool('compatible')
            if tag == 'unary':
                a = ins[0]
                st.pc.append(compat == z3.And(a.rank == o.nd, z3.ForAll([d], a.compat(d), patterns=[a.shape[d], o.S[d]])))
                E.compat = compat

            def post(E, s, ret):
                D = M.buf(E, s, E.outv)['data']
                res = [('elements', Q(['k'], lambda k: D[k] == z3.If(K.written(k, o.numel), val(K.g(k)), OD[k]), use=lambda k: [])),
                       ('result-is-destination', z3.And(z3.BoolVal(ret['p'].loc.cell == E.outv['p'].loc.cell), ret['p'].idx == 0))]
                if ins:
                    res.append(('operand-unchanged', M.buf(E, s, E.av)['data'] == AD))
                return res
            ctx = {'args': args, 'post': post}
            if tag == 'unary':
                ctx['throws'] = lambda E, s: [('only-incompatible-shapes', z3.Not(compat))]
            return ctx

        alln = ins + [out]
        vn = dict(zip([a.name for a in alln], lnames))

        def digits(c, n):
            x = c['nd_index']
            return [('rank', x['len'] == o.nd),
                    ('digits', Q(['d'], lambda d: z3.Implies(z3.And(d >= 0, d < o.nd), x['data'][d] == o.idx(n, d)), pats=lambda d: x['data'][d],
                                 use=lambda d: [o.digit0(d)] + succ_use(n, d)))]

        def succ_use(n, d):
            # n is a term m+1 after an iteration: give the definition of the successor at n-1
            return [o.succ(n - 1, d)] + o.carry_def(n - 1, d)

        def inv_dims(c):
            a = ins[0]
            dim = c['dim']
            return [('range', z3.And(dim >= 0, dim <= o.nd)),
                    ('checked', Q(['d'], lambda d: z3.Implies(z3.And(d >= 0, d < dim), a.compat(d)), pats=lambda d: a.shape[d]))]

        def inv_main(c):
            n = c['n']
            outd = M.buf(c.E, c.st, c.E.outv)['data']
            r = [('range', z3.And(n >= 0, n <= o.numel))] + digits(c, n)
            for a in alln:
                m = n - 1
                r.append(('index.' + a.name, Q([], lambda a=a: c[vn[a.name]] == a.addr(n), use=lambda a=a: [a.v.first(), a.v.next(n - 1)] + o.carry_def(n - 1) + [a.v.d0(n - 1)])))
            r.append(('elements', Q(['k'], lambda k: outd[k] == z3.If(K.written(k, n), val(K.g(k)), OD[k]), pats=lambda k: outd[k])))
            return r

        def inv_carry(c):
            n, i = c['n'], c['i']
            x = c['nd_index']
            r = [('range', z3.And(i >= -1, i < o.nd, n >= 0, n < o.numel, x['len'] == o.nd)),
                 ('digits', Q(['d'], lambda d: z3.Implies(z3.And(d >= 0, d < o.nd), x['data'][d] == z3.If(d <= i, o.idx(n, d), IV(0))), pats=lambda d: x['data'][d])),
                 ('at-maximum', Q(['d'], lambda d: z3.Implies(z3.And(d > i, d < o.nd), o.idx(n, d) == o.S[d] - 1), pats=lambda d: o.idx(n, d), use=lambda d: [o.digit_range(n, i + 1)]))]
            for a in alln:
                r.append(('index.' + a.name, Q([], lambda a=a: c[vn[a.name]] == a.off + a.v.D(n, i + 1),
                                               use=lambda a=a: [o.digit_range(n, i + 1), a.v.dstep(n, i + 1)] + a.bdef(i + 1) + ([a.compat(i + 1)] if not a.same else []))))
            return r
        loops = {}
        base_ix = 0
        if tag == 'unary':
            loops[0] = inv_dims
            base_ix = 1
        loops[base_ix] = inv_main
        loops[base_ix + 1] = inv_carry
        S.function(q, build, sig='^' + re.escape(key) + '$', loops=loops, name='%s[%s]' % (label, ','.join(x.split('::')[-1] for x in ta)), opts={'merge_arrays': True})
        if S.rep.functions and S.rep.functions[-1]['q'] == q:
            S.rep.functions[-1]['instances'] = len(members)


def v_unary(S):
    verify_simple(S, 'bland::cpu::elementwise_unary_op', 'unary', 1, lambda x, AD, ins, r: op_uf(1, [AD.sort().range()], x['out'])(AD[ins[0].addr(r)]),
                  'elementwise_unary_op', ['a_linear_index', 'out_linear_index'])


def conv(x):
    """the scalar converted to the destination type (C++ conversion)"""
    f, t = x['conv']
    b = x['b']
    w = {'unsigned char': 2 ** 8, 'unsigned int': 2 ** 32}
    if t in ('float', 'double'):
        return z3.ToReal(b) if f not in ('float', 'double') else b
    if f in ('float', 'double'):
        return z3.If(b >= 0, z3.ToInt(b), -z3.ToInt(-b))
    if t in w:
        return b % w[t]
    if t == 'int':
        return z3.If(b > 2 ** 31 - 1, b - 2 ** 32, b)
    return b


def v_assign(S):
    verify_simple(S, 'bland::cpu::assignment_op', 'assign', 0, lambda x, AD, ins, r: conv(x), 'assignment_op', ['out_linear_index'])


def v_scalar(S):
    verify_simple(S, 'bland::elementwise_scalar_op', 'scalar', 1,
                  lambda x, AD, ins, r: op_uf(2, [AD.sort().range(), x['b'].sort()], x['out'])(AD[ins[0].addr(r)], x['b']), 'elementwise_scalar_op', ['a_linear_index', 'out_linear_index'])


def v_binary(S, q='bland::elementwise_binary_op'):
    for key, members in classes(S, q):
        o = Odo()
        a, b, out = Arr(o, 'a', same=False), Arr(o, 'b', same=False), Arr(o, 'out')
        alln = [a, b, out]
        K = Kernel(S, [a, b], out)
        bl = Block(o, [x.v for x in alln])
        o.lemmas(S)
        for x in alln:
            x.v.lemmas(S)
        cv = o.view('c', z3.Array('cstrides', I, I))
        cv.lemmas(S)
        contiguous_lemma(S, o, cv)
        last_index_lemma(S, o, cv)
        bl.lemmas(S)
        F = S.P['functions'][key]
        Ot, At, Bt = F['ta'][:3]
        OD, AD, BD = z3.Array('out0', I, M.esort(Ot)), z3.Array('a0', I, M.esort(At)), z3.Array('b0', I, M.esort(Bt))
        last = o.nd - 1

        def val(r):
            return op_uf(2, [M.esort(At), M.esort(Bt)], M.esort(Ot))(AD[a.addr(r)], BD[b.addr(r)])

        def build(E, st, F):
            M.install(E, st)
            E.odo, E.arrs, E.ops_used = o, alln, set()
            d, n = z3.Ints('d!s n!s')
            st.pc += [o.nd >= 1, o.nd <= 64, o.numel >= 0, o.numel <= BIG,
                      z3.Implies(o.numel > 0, z3.ForAll([d], o.shape_ok(d), patterns=[o.S[d]])), K.inverse(), o.carry_axiom(),
                      z3.ForAll([n, d], o.digit_range(n, d), patterns=[o.idx(n, d)])]
            for x in alln:
                st.pc += x.pre()
            for x in (a, b):
                st.pc += [z3.ForAll([d], x.compat(d), patterns=[x.est[d]]), z3.ForAll([d], x.bdef(d)[0], patterns=[x.est[d]])]
            args = [E.newcell(st, x.nd(E, st, t, D)) for x, t, D in ((out, Ot, OD), (a, At, AD), (b, Bt, BD))]
            E.outv, E.av, E.bv = [E.read(st, x) for x in args]
            E.C.update(base(E))
            for k, f in S.P['functions'].items():
                if f['q'].endswith('::call'):
                    E.C[f['q']] = op_contract
            E.assumptions.add('precondition: operand shapes broadcast to the destination shape (established by expand_shapes_to_broadcast, specs.shapes)')

            def post(E, s, ret):
                D = M.buf(E, s, E.outv)['data']
                return [('elements', Q(['k'], lambda k: D[k] == z3.If(K.written(k, o.numel), val(K.g(k)), OD[k]))),
                        ('result-is-destination', z3.And(z3.BoolVal(ret['p'].loc.cell == E.outv['p'].loc.cell), ret['p'].idx == 0)),
                        ('operands-unchanged', z3.And(M.buf(E, s, E.av)['data'] == AD, M.buf(E, s, E.bv)['data'] == BD))]
            return {'args': args, 'post': post}
        names = {'a': 'a_index', 'b': 'b_index', 'out': 'out_index'}

        def head_n(c):
            if c.head is None:
                return None
            return c.E.read(c.head, c._find(c.head, 'n'))

        def inv_main(c):
            n = c['n']
            x = c['nd_index']
            outd = M.buf(c.E, c.st, c.E.outv)['data']
            nh = head_n(c)
            use0 = []
            if nh is not None:
                u = c['unroll_size']
                m = nh + u - 1
                use0 = bl.facts(nh, u) + bl.facts(nh, u - 1) + o.carry_def(m) + [v.v.next(m) for v in alln] + [v.v.d0(m) for v in alln]
            use0 += [v.v.first() for v in alln]
            r = [('range', Q([], lambda: z3.And(n >= 0, n <= o.numel), use=lambda: use0)), ('rank', x['len'] == o.nd),
                 ('digits', Q(['d'], lambda d: z3.Implies(z3.And(d >= 0, d < o.nd), x['data'][d] == o.idx(n, d)), pats=lambda d: x['data'][d],
                              use=lambda d: use0 + [o.digit0(d)] + ([o.succ(nh + u - 1, d), bl.digits(nh, u, d)] if nh is not None else [])))]
            for v in alln:
                r.append(('index.' + v.name, Q([], lambda v=v: c[names[v.name]] == v.addr(n), use=lambda: use0)))

            def el_use(k):
                if nh is None:
                    return []
                u = c['unroll_size']
                g = K.g(k)
                us = use0 + [K.g(out.addr(nh + j)) == nh + j for j in range(0)]
                for j in range(8):
                    us += bl.facts(nh, IV(j))
                us.append(z3.Or([g < nh, g >= nh + 8] + [g == nh + j for j in range(8)]))
                return us
            r.append(('elements', Q(['k'], lambda k: outd[k] == z3.If(K.written(k, n), val(K.g(k)), OD[k]), pats=lambda k: outd[k], use=el_use)))
            # consequences of the block lemma for the elements of this block
            fs = [f for j in range(8) for f in bl.facts(n, IV(j))]
            r.append(('block', Q([], lambda: z3.And(fs), use=lambda: fs)))
            return r

        def inv_j(c):
            n, j, u = c['n'], c['j'], c['unroll_size']
            outd = M.buf(c.E, c.st, c.E.outv)['data']
            fs = bl.facts(n, j)
            return [('range', z3.And(j >= 0, j <= u, n >= 0, n < o.numel, u <= 16)),
                    ('block', Q([], lambda: z3.And(fs), use=lambda: fs)),
                    ('elements', Q(['k'], lambda k: outd[k] == z3.If(K.written(k, n + j), val(K.g(k)), OD[k]), pats=lambda k: outd[k], use=lambda k: bl.facts(n, j - 1)))]

        def inv_carry(c):
            n, i, u = c['n'], c['dim'], c['unroll_size']
            m = n + u - 1
            x = c['nd_index']
            r = [('range', z3.And(i >= -1, i < o.nd, n >= 0, n < o.numel, x['len'] == o.nd, u >= 1, o.idx(n, last) + u <= o.S[last],
                                  z3.Implies(i < last, o.idx(n, last) + u == o.S[last]))),
                 ('digits', Q(['d'], lambda d: z3.Implies(z3.And(d >= 0, d < o.nd), x['data'][d] == z3.If(i == last, o.idx(n, d), z3.If(d <= i, o.idx(m, d), IV(0)))),
                              pats=lambda d: x['data'][d], use=lambda d: [bl.digits(n, u - 1, d)])),
                 ('at-maximum', Q(['d'], lambda d: z3.Implies(z3.And(i < last, d > i, d < o.nd), o.idx(m, d) == o.S[d] - 1), pats=lambda d: o.idx(m, d),
                                  use=lambda d: [bl.digits(n, u - 1, d), o.digit_range(m, i + 1)]))]
            for v in alln:
                # the stride products occurring in the source, expanded by definition
                r.append(('index.' + v.name, Q([], lambda v=v: c[names[v.name]] == z3.If(i == last, v.addr(n), v.off + v.v.D(m, i + 1)),
                                               use=lambda v=v: [o.digit_range(m, i + 1), v.v.dstep(m, i + 1), v.v.dstep(n, i + 1)] + v.bdef(i + 1) + ([v.compat(i + 1)] if not v.same else []) + bl.facts(n, u - 1))))
            return r
        S.function(q, build, sig='^' + re.escape(key) + '$', loops={0: inv_main, 1: inv_j, 2: inv_carry}, name='elementwise_binary_op[%s]' % ','.join(x.split('::')[-1] for x in F['ta']), opts={'merge_arrays': True})
        if S.rep.functions and S.rep.functions[-1]['q'] == q:
            S.rep.functions[-1]['instances'] = len(members)

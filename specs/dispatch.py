"""contracts from the public operators down to the element-wise kernels: the kernel called is the one of the
written operation, with the operands in written order, template element types equal to the arrays' run-time
element types, and a fresh result array of the right shape and type.

The run-time element types are symbolic; every branch of the dispatch is explored."""
import re
import z3
from dv.session import Q, Session
from dv.engine import IV, I, R, N, Loc, Ptr, Unsupported, split_targs
from dv import ndmodel as M
from .odometer import gvec

SUPPORTED = [(2, 32), (0, 32), (1, 8), (1, 32)]
OPST = {'+': 'add', '-': 'subtract', '*': 'multiply', '/': 'divide'}
KNOWN_OP = re.compile(r'elementwise_(add|subtract|multiply|divide|subtract_from|divide_into)_op_ts$|elementwise_(copy|square|sqrt|abs)_op$|(greater_than|greater_than_equal_to|less_than|less_than_equal_to|equal_to|logical_and)_impl$')
KSTOP = [r'^bland::elementwise_(binary|scalar)_op<', r'^bland::cpu::elementwise_unary_op<', r'^bland::cpu::assignment_op<', r'^bland::ndarray::(ndarray|shape|device|ndim|numel)\(', r'^bland::expand_shapes', r'^bland::ndarray_slice::ndarray_slice\(']


class Sym:
    def __init__(self, name):
        self.name = name
        self.nd = z3.Int('rank_' + name)
        self.shape, self.strides, self.offsets = [z3.Array('%s_%s' % (f, name), I, I) for f in ('shape', 'strides', 'offsets')]
        self.code, self.bits = z3.Ints('code_%s bits_%s' % (name, name))
        self.devt, self.devi = z3.Ints('devt_%s devi_%s' % (name, name))

    def val(self, E, st, meta='sym'):
        loc = E.newcell(st, N('buf', {'size': z3.Int('size_' + self.name), 'data': z3.Array('data_' + self.name, I, R)}))
        return N('nd', {'shape': gvec(self.nd, self.shape), 'strides': gvec(self.nd, self.strides), 'offsets': gvec(self.nd, self.offsets), 'p': Ptr(loc, IV(0)),
                        'dt': N('struct', {'code': self.code, 'bits': self.bits, 'lanes': IV(1)}, 'bland::ndarray::datatype'),
                        'dev': N('struct', {'device_type': self.devt, 'device_id': self.devi}, 'bland::ndarray::dev')}, meta)

    def pre(self):
        return [self.nd >= 0, self.nd <= 64, self.code >= 0, self.code <= 20, self.bits >= 0, self.bits <= 255]

    def supported(self, extra=()):
        return z3.Or([z3.And(self.code == c, self.bits == b) for c, b in list(SUPPORTED) + list(extra)])


def is_val(v, a):
    """v is the array a (same storage, shape, strides, offsets)"""
    return isinstance(v, N) and v.kind == 'nd' and z3.eq(v['shape']['data'], a.shape) and z3.eq(v['strides']['data'], a.strides) and z3.eq(v['offsets']['data'], a.offsets)


def ghost(st):
    return st.frames[0].env.setdefault('g:calls', ())


def contracts(E, S):
    C = M.contracts()
    E.nnew = [0]

    def c_ctor(E, st, e):
        if not e['a']:
            return M.c_nd(E, st, e)

        def f(s, vs):
            vs = [E.read(s, v) if isinstance(v, Loc) else v for v in vs]
            v0 = vs[0]
            if isinstance(v0, N) and v0.kind == 'nd':
                return [(s, v0)]
            if not (isinstance(v0, N) and v0.kind == 'vec'):
                raise Unsupported('array construction')
            dt = [v for v in vs[1:] if isinstance(v, N) and 'code' in v.f]
            dev = [v for v in vs[1:] if isinstance(v, N) and 'device_type' in v.f]
            E.nnew[0] += 1
            nm = 'new%d' % E.nnew[0]
            loc = E.newcell(s, N('buf', {'size': z3.Int('size_' + nm), 'data': z3.Array('data_' + nm, I, R)}))
            s.frames[0].env['g:fresh'] = s.frames[0].env.get('g:fresh', ()) + (loc.cell,)
            E.assumptions.add('contract of array construction: contiguous, zero offsets, fresh storage (proved under P01)')
            return [(s, N('nd', {'shape': v0, 'strides': gvec(v0['len'], z3.Array('strides_' + nm, I, I)), 'offsets': gvec(v0['len'], z3.K(I, IV(0))), 'p': Ptr(loc, IV(0)),
                                 'dt': dt[0] if dt else M.dtval('float'), 'dev': dev[0] if dev else M.devval(E)}, 'sym'))]
        return E.bind(E.eval_args(E.ptypes_of(e['fn']), e['a'], st), f)
    C['ctor:bland::ndarray'] = c_ctor
    C['ctor:bland::ndarray_slice'] = c_ctor

    def c_expand(E, st, e):
        def f(s, vs):
            vs = [E.read(s, v) if isinstance(v, Loc) else v for v in vs]
            s2 = s.fork()
            s2.sig = ('throw', 'std::invalid_argument')
            s2.pc.append(z3.Not(E.compat))
            s.pc.append(E.compat)
            d = z3.Int('d!compat')
            a, b = vs[0], vs[1]
            x, y = a['data'][d], b['data'][d]
            # (specs.shapes: 'compatible') for equal ranks
            s.pc.append(z3.Implies(a['len'] == b['len'], z3.ForAll([d], z3.Implies(z3.And(d >= 0, d < a['len']), z3.Or(x == y, x == 1, y == 1)), patterns=[x, y])))
            s.frames[0].env['g:expand'] = (vs[0], vs[1])
            return [(s, gvec(z3.Int('rank_expanded'), z3.Array('shape_expanded', I, I))), (s2, None)]
        return E.bind(E.eval_args(E.ptypes_of(e['fn']), e['a'], st), f)
    C['bland::expand_shapes_to_broadcast'] = c_expand
    C['bland::ndarray::numel'] = lambda E, st, e, ol: [(st, z3.Int('numel_of_' + str(E.read(st, ol)['shape']['data'])))]

    def kernel(E, st, e):
        def f(s, vs):
            s.frames[0].env['g:calls'] = ghost(s) + ((e['fn'], [E.read(s, v) if isinstance(v, Loc) else v for v in vs]),)
            v = vs[0]
            return [(s, E.read(s, v) if isinstance(v, Loc) else v)]
        return E.bind(E.eval_args(E.ptypes_of(e['fn']), e['a'], st), f)
    for op in '+-*/':
        C.pop('bland::ndarray::operator' + op, None)
    for q in ('bland::elementwise_binary_op', 'bland::elementwise_scalar_op', 'bland::cpu::elementwise_unary_op', 'bland::cpu::assignment_op'):
        C[q] = kernel
    return C


def targs(fn):
    """template arguments of a function key"""
    head = fn
    d = 0
    i = head.index('<')
    for j in range(i, len(head)):
        if head[j] == '<':
            d += 1
        elif head[j] == '>':
            d -= 1
            if d == 0:
                return split_targs(head[:j + 1])[1]
    raise Unsupported('template arguments of ' + fn)


def wrapper_loop(E, n, st, ordn):
    q = S_q(E, st)
    if q.endswith('_impl_wrapper::call'):
        return lambda c: [('range', c['dim'] >= 0)]
    return None


def S_q(E, st):
    return E.P['functions'][st.frames[-1].fn]['q']


def run(S, q, sig, label, operands, op, kernel_q, out_type, out_shape, extra_types=(), ret_written=True, loops=None, given=None, devs=(1, 3)):
    """operands: list of ('a', Sym, meta) / ('s', ctype) in written order of the function's parameters;
    op: (struct name, order of the kernel's operands as indices);  out_type: 'left' | 'uint8' | 'given';"""
    arrs = [x[1] for x in operands if x[0] == 'a']

    def build(E, st, F):
        M.install(E, st)
        E.C.update(contracts(E, S))
        E.compat = z3.Bool('shapes_broadcast')
        for a in arrs:
            st.pc += a.pre()
        ops, args, this = [], [], None
        for x in operands:
            if x[0] == 'a':
                ops.append(x[1].val(E, st))
            else:
                ops.append(z3.Const('scalar', M.esort(x[1])))
        pts = [p['t'] for p in F['params']]
        vals = list(ops)
        if len(pts) == len(vals) - 1:
            this = E.newcell(st, vals.pop(0))
        for v, t in zip(vals, pts):
            args.append(E.newcell(st, v) if t.rstrip().endswith('&') else v)
        E.ops = ops
        a0 = arrs[0]

        def post(E, s, ret):
            calls = ghost(s)
            res = [('one-kernel-call', z3.BoolVal(len(calls) == 1))]
            if len(calls) != 1:
                return res
            fn, vs = calls[0]
            ta = targs(fn)
            kq = fn[:fn.index('<')]
            res.append(('kernel', z3.BoolVal(kq == kernel_q)))
            if op[0]:
                opn = re.sub(r'<.*', '', ta[-1]).split('::')[-1]
                if not KNOWN_OP.match(opn):
                    raise Unsupported('operation ' + opn)
                res.append(('operation', z3.BoolVal(opn == op[0])))
            out = vs[0]
            if given is not None:
                res.append(('result-array', z3.BoolVal(is_val(out, given))))
            for i, k in enumerate(op[1]):
                o = operands[k]
                v = vs[1 + i]
                if o[0] == 'a':
                    res.append(('operand-%d' % i, z3.BoolVal(is_val(v, o[1]))))
                    c, b = M.DT.get(ta[1 + i], (99, 99))
                    res.append(('operand-%d-element-type' % i, z3.And(o[1].code == c, o[1].bits == b)))
                else:
                    res.append(('operand-%d' % i, v == E.ops[k]))
                    res.append(('operand-%d-type' % i, z3.BoolVal(ta[1 + i] == o[1])))
            c, b = M.DT.get(ta[0], (99, 99))
            res.append(('result-element-type-of-kernel', z3.And(out['dt']['code'] == c, out['dt']['bits'] == b)))
            if out_type == 'left':
                res.append(('result-element-type', z3.And(out['dt']['code'] == a0.code, out['dt']['bits'] == a0.bits)))
            elif out_type == 'uint8':
                res.append(('result-element-type', z3.And(out['dt']['code'] == 1, out['dt']['bits'] == 8)))
            if out_type != 'given':
                res.append(('result-is-fresh', z3.BoolVal(out['p'].loc.cell in s.frames[0].env.get('g:fresh', ()))))
            if out_shape == 'same':
                res.append(('result-shape', z3.And(out['shape']['len'] == a0.nd, z3.BoolVal(z3.eq(out['shape']['data'], a0.shape)))))
            elif out_shape == 'expanded':
                ex = s.frames[0].env.get('g:expand')
                okx = ex is not None and {str(ex[0]['data']), str(ex[1]['data'])} == {str(x.shape) for x in arrs}
                res.append(('result-shape', z3.And(z3.BoolVal(okx), z3.BoolVal(str(out['shape']['data']) == 'shape_expanded'), out['shape']['len'] == z3.Int('rank_expanded'))))
            if ret_written:
                res.append(('returns-result', z3.BoolVal(isinstance(ret, N) and ret.kind == 'nd' and ret['p'].loc.cell == out['p'].loc.cell)))
            return res

        def throws(E, s):
            okdev = lambda t: z3.Or([t == d for d in devs])
            good = [z3.And(a.supported(extra_types), okdev(a.devt)) for a in arrs]
            if len(arrs) == 2:
                good += [arrs[0].devt == arrs[1].devt, arrs[0].devi == arrs[1].devi] + ([E.compat] if given is None else [])
            return [('only-unsupported', z3.Not(z3.And(good)))]
        return {'args': args, 'this': this, 'post': post, 'throws': throws}
    S.function(q, build, sig=sig, name=label, loops=dict(loops or {}, match=wrapper_loop), opts={'merge_arrays': True})

"""count_impl (bland/bland/ops/cpu/statistical_cpu.cpp): the number of elements that are not zero, each counted once,
for arrays of any rank, shape, strides and offsets (recursive count over the row-major enumeration)"""
import re
import z3
from dv.session import Q
from dv.engine import IV, RV, I, R, B
from dv import ndmodel as M
from .odometer import Odo, lem
from .elementwise import Arr, base, BIG
from .reductions import FILE, STOPS, SHORT, keys, assigned

UNITS = [(FILE, [r'^count_impl::call<'], STOPS), M.UNIT_DT]


def verify(S):
    o = Odo()
    o.lemmas(S)
    x = Arr(o, 'a')
    x.v.lemmas(S)
    for key in keys(S, 'count_impl::call'):
        t = S.P['functions'][key]['ta'][0]
        if t not in SHORT:
            continue
        one(S, o, x, key, t)


def one(S, o, x, key, t):
    AD = z3.Array('a0', I, M.esort(t))
    CNT = z3.Function('count', I, I)
    zero = RV(0) if M.esort(t) == R else IV(0)
    W = {}

    def step(n):
        return CNT(n + 1) == CNT(n) + z3.If(AD[x.addr(n)] != zero, IV(1), IV(0))

    def build(E, st, F):
        M.install(E, st)
        E.odo, E.arrs = o, [x]
        d = z3.Int('d!s')
        st.pc += [o.nd >= 1, o.nd <= 64, o.numel >= 0, o.numel <= BIG, z3.Implies(o.numel > 0, z3.ForAll([d], o.shape_ok(d), patterns=[o.S[d]])), o.carry_axiom(), CNT(0) == 0] + x.pre()
        W['v'] = x.nd(E, st, t, AD)
        E.C.update(base(E))
        return {'args': [E.newcell(st, W['v'])], 'post': lambda E, s, ret: [('count', ret == CNT(o.numel)), ('operand-unchanged', M.buf(E, s, W['v'])['data'] == AD)]}

    def match(E, nd, st, ordn):
        mod = assigned(nd)
        var = nd['init']['a'][0]['n']

        def main(c):
            n, ix = c[var], c['input_index']
            E.main_loc = c.loc(var)
            return [('range', z3.And(n >= 0, n <= o.numel)), ('rank', ix['len'] == o.nd), ('bounds', z3.And(c['count'] >= 0, c['count'] <= n)),
                    ('count', Q([], lambda: c['count'] == CNT(n), use=lambda: [step(n - 1)])),
                    ('digits', Q(['d'], lambda d: z3.Implies(z3.And(d >= 0, d < o.nd), ix['data'][d] == o.idx(n, d)), pats=lambda d: ix['data'][d],
                                 use=lambda d: [o.digit0(d), o.succ(n - 1, d)] + o.carry_def(n - 1, d))),
                    ('address', Q([], lambda: c['a_linear_index'] == x.addr(n), use=lambda: [x.v.first(), x.v.next(n - 1)] + o.carry_def(n - 1) + [x.v.d0(n - 1)]))]

        def carry(c):
            i, n, ix = c[var], c.cell(E.main_loc), c['input_index']
            return [('range', z3.And(i >= -1, i < o.nd, n >= 0, n < o.numel, ix['len'] == o.nd)),
                    ('digits', Q(['d'], lambda d: z3.Implies(z3.And(d >= 0, d < o.nd), ix['data'][d] == z3.If(d <= i, o.idx(n, d), IV(0))), pats=lambda d: ix['data'][d])),
                    ('at-maximum', Q(['d'], lambda d: z3.Implies(z3.And(d > i, d < o.nd), o.idx(n, d) == o.S[d] - 1), pats=lambda d: o.idx(n, d), use=lambda d: [o.digit_range(n, i + 1)])),
                    ('address', Q([], lambda: c['a_linear_index'] == x.off + x.v.D(n, i + 1), use=lambda: [x.v.dstep(n, i + 1), o.digit_range(n, i + 1)]))]
        return main if 'count' in mod else carry if mod == {'input_index', 'a_linear_index'} else None
    S.function('count_impl::call', build, sig='^' + re.escape(key) + '$', name='count_true[%s]' % SHORT[t], loops={'match': match}, opts={'merge_arrays': True})

"""contracts of the broadcasting helpers (bland/bland/internal/include/internal/shape_helpers.cpp)

For shapes of any rank, aligned from the last dimension:
  expand_shapes_to_broadcast  out(d) = max of the two extents (1 where missing); rejected exactly when some
                              pair differs and neither is 1.
  compute_broadcast_strides   stride(d) = the array's own stride, 0 where its extent is 1 or missing.
  compute_broadcast_shape     extent(d) = out(d) where the array has it or repeats it, else 1.
  compute_broadcast_offset    the array's own offset where its extent is not 1, else 0."""
import z3
from dv.session import Q
from dv.engine import IV, I
from .odometer import gvec, lem

UNITS = [('bland/bland/internal/include/internal/shape_helpers.cpp', [r'^bland::expand_shapes_to_broadcast\(', r'^bland::compute_broadcast_'], [])]
MX = lambda a, b: z3.If(a >= b, a, b)


def verify(S):
    ra, rb, ro = z3.Ints('rank_a rank_b rank_out')
    A, Bv, O, X = [z3.Array(n, I, I) for n in ('shape_a', 'shape_b', 'shape_out', 'x')]
    ext = lambda sh, r, nd, d: z3.If(d >= nd - r, sh[d - (nd - r)], IV(1))     # extent at output dimension d, 1 where missing

    def nonneg(sh, r, n):
        d = z3.Int('d!' + n)
        return z3.ForAll([d], z3.Implies(z3.And(d >= 0, d < r), z3.And(sh[d] >= 1, sh[d] < 2 ** 31)), patterns=[sh[d]])

    # ---- expand
    def b_expand(E, st, F):
        nd = MX(ra, rb)
        st.pc += [ra >= 0, rb >= 0, ra <= 64, rb <= 64, nonneg(A, ra, 'a'), nonneg(Bv, rb, 'b')]
        E.nd = nd
        clash = lambda d: z3.And(ext(A, ra, nd, d) != ext(Bv, rb, nd, d), ext(A, ra, nd, d) != 1, ext(Bv, rb, nd, d) != 1)
        E.clash = clash
        d0 = z3.Int('d!clash')

        def post(E, s, ret):
            r = E.read(s, ret) if hasattr(ret, 'cell') else ret
            return [('rank', r['len'] == nd),
                    ('extents', Q(['d'], lambda d: z3.Implies(z3.And(d >= 0, d < nd), r['data'][d] == MX(ext(A, ra, nd, d), ext(Bv, rb, nd, d))), pats=lambda d: r['data'][d])),
                    ('compatible', Q(['d'], lambda d: z3.Implies(z3.And(d >= 0, d < nd), z3.Not(clash(d))), pats=lambda d: r['data'][d]))]
        return {'args': [gvec(ra, A), gvec(rb, Bv)], 'post': post,
                'throws': lambda E, s: [('only-incompatible', z3.Exists([d0], z3.And(d0 >= 0, d0 < nd, clash(d0))))]}

    def i_expand(c):
        i, out = c['i'], c['out_shape']
        nd = c.E.nd
        return [('range', z3.And(i >= 0, i <= nd, out['len'] == nd)),
                ('extents', Q(['d'], lambda d: z3.Implies(z3.And(d >= nd - i, d < nd), z3.And(out['data'][d] == MX(ext(A, ra, nd, d), ext(Bv, rb, nd, d)), z3.Not(c.E.clash(d)))), pats=lambda d: out['data'][d]))]
    S.function('bland::expand_shapes_to_broadcast', b_expand, loops={0: i_expand})

    # ---- strides / offset
    def b_field(E, st, F):
        st.pc += [ra >= 0, ra <= ro, ro <= 64]

        def post(E, s, r):
            e = lambda d: d - (ro - ra)
            return [('rank', r['len'] == ro),
                    ('value', Q(['d'], lambda d: z3.Implies(z3.And(d >= 0, d < ro), r['data'][d] == z3.If(z3.And(e(d) >= 0, A[e(d)] != 1), X[e(d)], IV(0))), pats=lambda d: r['data'][d]))]
        args = [E.newcell(st, gvec(ra, A)), E.newcell(st, gvec(ra, X)), E.newcell(st, gvec(ro, O))]
        return {'args': args, 'post': post}

    def i_field(name):
        def inv(c):
            i, r = c['i'], c[name]
            e = lambda d: d - (ro - ra)
            return [('range', z3.And(i >= 0, i <= ra, r['len'] == ro)),
                    ('value', Q(['d'], lambda d: z3.Implies(z3.And(d >= 0, d < ro), r['data'][d] == z3.If(z3.And(e(d) >= 0, e(d) < i, A[e(d)] != 1), X[e(d)], IV(0))), pats=lambda d: r['data'][d]))]
        return inv
    S.function('bland::compute_broadcast_strides', b_field, loops={0: i_field('broadcast_strides')})
    S.function('bland::compute_broadcast_offset', b_field, loops={0: i_field('broadcast_offsets')})

    def b_shape(E, st, F):
        st.pc += [ra >= 0, ra <= ro, ro <= 64]
        return {'args': [gvec(ra, A), gvec(ro, O)], 'post': lambda E, s, r: [
            ('rank', r['len'] == ro),
            ('value', Q(['d'], lambda d: z3.Implies(z3.And(d >= 0, d < ro), val(r, d)), pats=lambda d: r['data'][d]))]}

    def val(r, d):
        e = d - (ro - ra)
        return r['data'][d] == z3.If(z3.And(e >= 0, z3.Or(A[e] == O[d], A[e] == 1)), O[d], IV(1))

    def i_shape(c):
        i, r = c['i'], c['broadcast_shape']
        return [('range', z3.And(i >= 0, i <= ro, r['len'] == ro)),
                ('value', Q(['d'], lambda d: z3.Implies(z3.And(d >= 0, d < i), val(r, d)), pats=lambda d: r['data'][d]))]
    S.function('bland::compute_broadcast_shape', b_shape, loops={0: i_shape})

    # ---- the expanded shape is one both operands broadcast to (precondition of the kernels)
    d = z3.Int('d')
    nd = MX(ra, rb)
    ea, eb = ext(A, ra, nd, d), ext(Bv, rb, nd, d)
    o = MX(ea, eb)
    lem(S, 'operands-broadcast-to-expanded-shape', [d >= 0, d < nd, ea >= 1, eb >= 1, z3.Not(z3.And(ea != eb, ea != 1, eb != 1))],
        z3.And(z3.Or(ea == o, ea == 1), z3.Or(eb == o, eb == 1)))

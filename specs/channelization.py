"""contract of infer_number_coarse_channels (bliss/core/scan.cpp)"""
from fractions import Fraction
import z3
from dv.session import Q, Session
from dv.engine import IV, RV, I, R, B, N, Loc, tsel, absr
from dv import ndmodel as M

UNITS = [('bliss/core/scan.cpp', [r'^infer_number_coarse_channels'], [r'^bland::', r'^bliss::'])]
# documented schemes (Lebofsky et al. 2019, table quoted in scan.cpp): fine per coarse, resolution, sampling time
KNOWN = [(1033216, '2.84', '17.98'), (8, '366210.0', '0.00034953'), (1024, '2860.0', '1.06'),
         (999424, '2.93', '17.4'), (8, '366210.0', '0.00034953'), (1024, '2860.0', '1.02'),
         (1048576, '2.79', '18.25'), (8, '366210.0', '0.00034953'), (1024, '2860.0', '1.07')]


def verify(S):
    n = z3.Int('fine_channels')
    foff, tsamp = z3.Reals('foff tsamp')
    D = lambda s: RV(Fraction(float(s)))

    def matches(k):
        f, r, t = KNOWN[k]
        return z3.And(n % f == 0, absr(absr(foff) - D(r)) < D('0.1'), absr(absr(tsamp) - D(t)) < D('0.1'))

    def build(E, st, F):
        M.install(E, st)
        st.pc += [n >= 1, n < 2 ** 31]

        def post(E, s, ret):
            c, f = ret['0'], ret['1']
            out = [('positive', z3.And(c >= 1, f >= 1)), ('divides-evenly', c * f == n)]
            prev = []
            for k, (fine, _, _) in enumerate(KNOWN):
                out.append(('known-scheme-%d' % k, z3.Implies(z3.And([matches(k)] + [z3.Not(p) for p in prev]), f == fine)))
                prev.append(matches(k))
            none = z3.And([z3.Not(p) for p in prev])
            f18, f1m = IV(1 << 18), IV(1000000)
            near = lambda b: z3.And(n >= b, n % b - (n / b) * ((n % b) / (n / b)) == 0)
            out.append(('otherwise-near-2^18', z3.Implies(z3.And(none, near(f18)), c == n / f18)))
            out.append(('otherwise-near-1e6', z3.Implies(z3.And(none, z3.Not(near(f18)), near(f1m)), c == n / f1m)))
            out.append(('otherwise-single', z3.Implies(z3.And(none, z3.Not(near(f18)), z3.Not(near(f1m))), c == 1)))
            return out
        return {'args': [n, foff, tsamp], 'post': post}
    S.function('infer_number_coarse_channels', build, contracts=M.contracts(), name='infer_number_coarse_channels')

"""copy, square, sqrt, abs and fill: public function to kernel"""
import re
from .dispatch import Sym, run, KSTOP
A = 'bland/bland/ops/'
UNITS = [('bland/bland/ndarray.cpp', [r'^bland::ndarray::dev::operator[=!]='], KSTOP),
         (A + 'ops.cpp', [r'^bland::(copy|square|sqrt|abs)\(', r'^bland::fill<'], KSTOP),
         (A + 'cpu/ops_cpu.cpp', [r'^bland::cpu::(copy|square|sqrt|abs)\(', r'^bland::cpu::fill<'], KSTOP)]


def verify(S):
    for nm in ('copy', 'square', 'sqrt', 'abs'):
        for k in sorted(k for k, f in S.P['functions'].items() if isinstance(k, str) and f['q'] == 'bland::' + nm):
            n = len(S.P['functions'][k]['params'])
            a, o = Sym('a'), Sym('out')
            ops = [('a', a)] if n == 1 else [('a', a), ('a', o)]
            run(S, 'bland::' + nm, '^' + re.escape(k) + '$', nm + ('(a)' if n == 1 else '(a,out)'), ops, ('elementwise_%s_op' % nm, [0]), 'bland::cpu::elementwise_unary_op',
                'left' if n == 1 else 'given', 'same' if n == 1 else None, extra_types=[(0, 64)], given=None if n == 1 else o)
    fills(S)


def fills(S):
    for k in sorted(k for k, f in S.P['functions'].items() if isinstance(k, str) and f['q'] == 'bland::fill'):
        t = k[len('bland::fill<'):k.index('>')]
        o = Sym('out')
        run(S, 'bland::fill', '^' + re.escape(k) + '$', 'fill<%s>' % t, [('a', o), ('s', t)], (None, [1]), 'bland::cpu::assignment_op', 'given', None, given=o, devs=(1,))

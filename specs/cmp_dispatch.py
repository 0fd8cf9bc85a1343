"""comparisons and logical_and: public function and operator to kernel"""
import re
from .dispatch import Sym, run, KSTOP, targs
A = 'bland/bland/ops/'
NAMES = {'greater_than': '>', 'greater_than_equal_to': '>=', 'less_than': '<', 'less_than_equal_to': '<=', 'equal_to': '==', 'logical_and': '&'}
MIRROR = {'greater_than': 'less_than', 'less_than': 'greater_than', 'greater_than_equal_to': 'less_than_equal_to', 'less_than_equal_to': 'greater_than_equal_to',
          'equal_to': 'equal_to', 'logical_and': 'logical_and'}
ARR = ('bland::ndarray', 'bland::ndarray_slice')
UNITS = [('bland/bland/ndarray.cpp', [r'^bland::ndarray::dev::operator[=!]='], KSTOP),
         (A + 'comparison.cpp', [r'^bland::(greater|less|equal|logical)\w*<', r'^bland::operator([<>]=?|==|&)<'], KSTOP),
         (A + 'cpu/comparison_cpu.cpp', [r'^bland::cpu::(greater|less|equal|logical)\w*<'], KSTOP)]


def targs_op(key, q):
    """template arguments of operator</>/... keys"""
    from dv.engine import split_targs
    return split_targs('x' + key[len(q):key.index('(')])[1]


def verify(S):
    for nm, sym in NAMES.items():
        for q in ('bland::' + nm, 'bland::operator' + sym):
            for k in sorted(k for k, f in S.P['functions'].items() if isinstance(k, str) and f['q'] == q and '/cpu/' not in f['file']):
                ta = targs_op(k, q)
                if len(ta) == 1:
                    ta = (ta[0], 'bland::ndarray')
                syms = iter(('a', 'b'))
                ops = [('a', Sym(next(syms))) if t in ARR else ('s', t) for t in ta]
                two = all(o[0] == 'a' for o in ops)
                left_scalar = ops[0][0] == 's'
                st = (MIRROR[nm] if left_scalar else nm) + '_impl'
                order = [1, 0] if left_scalar else [0, 1]
                run(S, q, '^' + re.escape(k) + '$', '%s(%s)' % (q.split('::')[-1], ','.join(t.split('::')[-1] for t in ta)), ops, (st, order),
                    'bland::elementwise_%s_op' % ('binary' if two else 'scalar'), 'uint8', 'expanded' if two else 'same')

"""operators + - * / of arrays and scalars: public operator to kernel"""
import re
from .dispatch import Sym, run, KSTOP, OPST
A = 'bland/bland/ops/'
UNITS = [('bland/bland/ndarray.cpp', [r'^bland::ndarray::operator[-+*/]<', r'^bland::operator[-+*/]<', r'^bland::ndarray::dev::operator[=!]='], KSTOP),
         (A + 'arithmetic.cpp', [r'^bland::(add|subtract|multiply|divide|subtract_from|divide_into)<'], KSTOP),
         (A + 'cpu/arithmetic_cpu.cpp', [r'^bland::cpu::\w+_cpu<'], KSTOP),
         (A + 'cpu/arithmetic_scalar_cpu.cpp', [r'^bland::cpu::\w+_cpu<'], KSTOP)]
SC = ['float', 'int', 'unsigned char', 'unsigned int']


def arrays(S):
    for op, nm in OPST.items():
        a, b = Sym('a'), Sym('b')
        st = 'elementwise_%s_op_ts' % nm
        run(S, 'bland::ndarray::operator' + op, r'operator%s<bland::ndarray>' % re.escape(op), 'array%sarray' % op, [('a', a), ('a', b)], (st, [0, 1]), 'bland::elementwise_binary_op', 'left', 'expanded')
        run(S, 'bland::' + nm, r'bland::%s<bland::ndarray>' % nm, nm, [('a', a), ('a', b)], (st, [0, 1]), 'bland::elementwise_binary_op', 'left', 'expanded')
        run(S, 'bland::' + nm, r'bland::%s<bland::ndarray_slice>' % nm, nm + '(slice)', [('a', a), ('a', b)], (st, [0, 1]), 'bland::elementwise_binary_op', 'left', 'expanded')
    a, b = Sym('a'), Sym('b')
    run(S, 'bland::ndarray::operator+', r'operator\+<bland::ndarray_slice>', 'array+slice', [('a', a), ('a', b)], ('elementwise_add_op_ts', [0, 1]), 'bland::elementwise_binary_op', 'left', 'expanded')


def scalars(S):
    for op, nm in OPST.items():
        a = Sym('a')
        st = 'elementwise_%s_op_ts' % nm
        rev = {'+': (st, [1, 0]), '*': (st, [1, 0]), '-': ('elementwise_subtract_from_op_ts', [1, 0]), '/': ('elementwise_divide_into_op_ts', [1, 0])}[op]
        for t in SC:
            run(S, 'bland::ndarray::operator' + op, r'operator%s<%s>' % (re.escape(op), t), 'array%s%s' % (op, t), [('a', a), ('s', t)], (st, [0, 1]), 'bland::elementwise_scalar_op', 'left', 'same')
            run(S, 'bland::' + nm, r'bland::%s<%s>' % (nm, t), '%s(%s)' % (nm, t), [('a', a), ('s', t)], (st, [0, 1]), 'bland::elementwise_scalar_op', 'left', 'same')
            run(S, 'bland::operator' + op, r'operator%s<%s>' % (re.escape(op), t), '%s%sarray' % (t, op), [('s', t), ('a', a)], rev, 'bland::elementwise_scalar_op', 'left', 'same')


def verify(S):
    arrays(S)
    scalars(S)

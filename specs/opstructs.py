"""every instance of the element operations: the C++ operation in the common type of the operands, converted to
the result's element type (the specification is written here from the language rules, not from the code)"""
import re
import z3
from dv.engine import IV, I, R, B, Loc, INT_RANGES
from dv import ndmodel as M
from .dispatch import targs
C = 'bland/bland/ops/cpu/'
UNITS = {'arith': [(C + 'arithmetic_cpu.cpp', [r'^bland::elementwise_\w+_op_ts::call<'], []), (C + 'arithmetic_scalar_cpu.cpp', [r'^bland::elementwise_\w+_op_ts::call<'], [])],
         'cmp': [(C + 'comparison_cpu.cpp', [r'^bland::\w+_impl::call<'], [])],
         'unary': [(C + 'ops_cpu.cpp', [r'^bland::elementwise_\w+_op<[^>]*>::call'], [])]}
ARITH = {'add': ('+', 0), 'subtract': ('-', 0), 'multiply': ('*', 0), 'divide': ('/', 0), 'subtract_from': ('-', 1), 'divide_into': ('/', 1)}
CMP = {'greater_than': lambda x, y: x > y, 'greater_than_equal_to': lambda x, y: x >= y, 'less_than': lambda x, y: x < y,
       'less_than_equal_to': lambda x, y: x <= y, 'equal_to': lambda x, y: x == y}


def common(a, b):
    for t in ('float', 'double'):
        if t in (a, b):
            return 'real'
    if 'long' in (a, b):
        return 'long'
    if 'unsigned int' in (a, b):
        return 'unsigned int'
    return 'int'


MUL = z3.Function('mul', I, I, I)


def modulo(v, t):
    lo, hi = INT_RANGES[t]
    return z3.simplify((v - lo) % (hi - lo + 1) + lo)


def to(v, t):
    """conversion of a value to type t"""
    if t in ('float', 'double', 'real'):
        return z3.ToReal(v) if v.sort() == I else v
    if v.sort() == R:
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    return modulo(v, t)


def quot(x, y):
    ax, ay = z3.If(x < 0, -x, x), z3.If(y < 0, -y, y)
    q = ax / ay
    return z3.If((x < 0) == (y < 0), q, -q)


def arith(op, x, y, t):
    x, y = to(x, t), to(y, t)
    if t == 'real':
        return {'+': x + y, '-': x - y, '*': x * y, '/': x / y}[op], []
    r = quot(x, y) if op == '/' else {'+': x + y, '-': x - y, '*': MUL(x, y)}[op]
    hyp = [MUL(x, y) == MUL(y, x)] if op == '*' else []
    return (modulo(r, t), hyp) if t.startswith('unsigned') else (r, hyp + inrange(r, t))


def inrange(v, t):
    if t in INT_RANGES:
        lo, hi = INT_RANGES[t]
        return [v >= lo, v <= hi]
    return []


def instance(S, key, types, spec, excuse=None):
    def build(E, st, F):
        M.install(E, st)
        vs = [z3.Const(n, M.esort(t)) for n, t in zip('ab', types[1:])]
        for v, t in zip(vs, types[1:]):
            st.pc += inrange(v, t)
        E.vs = vs

        def post(E, s, ret):
            if isinstance(ret, Loc):
                ret = E.read(s, ret)
            return [('value', spec(E, s, ret, *vs))]
        return {'args': [E.newcell(st, v) for v in vs], 'post': post,
                'throws': lambda E, s: [('unsupported-type', z3.BoolVal(bool(excuse)))]}
    S.function(S.P['functions'][key]['q'], build, sig='^' + re.escape(key) + '$', name=key.split('(')[0].replace('bland::', ''), opts={'wrap': True, 'ufmul': True, 'ub_pre': True})


def keys(S, rx):
    import re
    out = [k for k in S.P['functions'] if isinstance(k, str) and re.match(rx, k)]
    return sorted(out)


def v_arith(S):
    for nm, (op, rev) in ARITH.items():
        for k in keys(S, r'bland::elementwise_%s_op_ts::call<' % nm):
            o, a, b = targs(k)

            def spec(E, s, ret, x, y, o=o, a=a, b=b):
                r, hyp = arith(op, y, x, common(a, b)) if rev else arith(op, x, y, common(a, b))
                return z3.Implies(z3.And(hyp), ret == to(r, o))
            instance(S, k, (o, a, b), spec)


def v_cmp(S):
    for nm, f in CMP.items():
        for k in keys(S, r'bland::%s_impl::call<' % nm):
            o, a, b = targs(k)
            instance(S, k, (o, a, b), lambda E, s, ret, x, y, a=a, b=b, o=o: ret == z3.If(f(to(x, common(a, b)), to(y, common(a, b))), 1, 0))
    bitand = z3.Function('bitand', I, I, I)
    for k in keys(S, r'bland::logical_and_impl::call<'):
        o, a, b = targs(k)
        fl = 'float' in (o, a, b)
        t = common(a, b)

        def spec(E, s, ret, x, y):
            return ret == to(bitand(to(x, t), to(y, t)), o)
        instance(S, k, (o, a, b), spec, excuse=fl)


def v_unary(S):
    from dv.stdlib import SQRT
    for nm in ('copy', 'square', 'sqrt', 'abs'):
        for k in keys(S, r'bland::elementwise_%s_op<' % nm):
            o, a = targs(k)

            def spec(E, s, ret, x):
                hyp = []
                if nm == 'copy':
                    r = x
                elif nm == 'square':
                    r, hyp = arith('*', x, x, common(a, a))
                elif nm == 'sqrt':
                    r = SQRT(to(x, 'real'))
                else:
                    r = z3.If(x < 0, -x, x)
                    hyp = inrange(r, a) if a in ('int', 'long') else []
                return z3.Implies(z3.And(hyp), ret == to(r, o))
            instance(S, k, (o, a), spec)

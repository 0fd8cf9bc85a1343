"""contracts of the bland operations on whole arrays, for code written in terms of them (flaggers, estimators,
preprocessing): an array is its extents and the mapping from coordinates to elements; views share storage.

Every contract restates, for arrays of one or two dimensions, what is proved about the operation under P01-P09
(independent of memory layout).  Reductions are uninterpreted; two applications agree unless their operands differ
somewhere (facts over skolem witnesses), so no property of the value itself is assumed."""
import re
import z3
from . import ndmodel as M, stdlib
from .engine import IV, RV, I, R, B, N, Loc, Ptr, Clo, Opq, Unsupported, INT_RANGES, coerce

AAI, AAR = z3.ArraySort(I, z3.ArraySort(I, I)), z3.ArraySort(I, z3.ArraySort(I, R))


def rd(E, s, v):
    while isinstance(v, Loc):
        v = E.read(s, v)
    return v


def is_av(v):
    return isinstance(v, N) and v.kind == 'av'


class Grid:
    """storage content: nested z3 arrays"""
    @staticmethod
    def make(body):
        i, j = z3.Int('i!g'), z3.Int('j!g')
        return z3.Lambda([i], z3.Lambda([j], body(i, j)))


def sel(d, i, j):
    return z3.simplify(z3.Select(z3.Select(d, i), j))


def mk(E, st, rank, d0, d1, elem, body, tag='values'):
    data = body if isinstance(body, z3.ArrayRef) else Grid.make(body)
    loc = E.newcell(st, N('grid', {'data': data}, tag))
    return N('av', {'p': Ptr(loc, None), 'd0': d0, 'd1': d1, 'o0': IV(0), 'o1': IV(0)}, (rank, elem))


def storage(E, s, v):
    if isinstance(v['p'], Opq):
        if not E.suppress:
            raise Unsupported('array of unknown storage')
        return z3.Const(E.fresh_name('unknown'), AAI if elem(v) in INT_RANGES else AAR)     # only which variables a loop writes is of interest
    return E.read(s, v['p'].loc)['data']


def at(E, s, v, i, j):
    return sel(storage(E, s, v), z3.simplify(v['o0'] + i), z3.simplify(v['o1'] + j))


def elem(v):
    return v.meta[1]


def snapshot(E, s, v):
    """element function of the current content"""
    d, o0, o1 = storage(E, s, v), v['o0'], v['o1']
    return lambda i, j: sel(d, z3.simplify(o0 + i), z3.simplify(o1 + j))


def fresh_array(E, st, name, rank, d0, d1, el):
    so = I if el in INT_RANGES else R
    d = z3.Const(name, AAI if so == I else AAR)
    if so == I:
        i, j = z3.Int('i!' + name), z3.Int('j!' + name)
        lo, hi = INT_RANGES[el]
        x = z3.Select(z3.Select(d, i), j)
        st.pc.append(z3.ForAll([i, j], z3.And(x >= lo, x <= hi), patterns=[x]))
    return mk(E, st, rank, d0, d1, el, d, tag=name)


def shape_vec(v):
    return M.ivec([v['d1']] if v.meta[0] == 1 else [v['d0'], v['d1']])


def dims_of(E, s, vec):
    n = M.concrete(vec['len'])
    if n not in (1, 2):
        raise Unsupported('shape of %s dimensions' % n)
    x = [z3.simplify(z3.Select(vec['data'], IV(k))) for k in range(n)]
    return n, (IV(1) if n == 1 else x[0]), x[-1]


def conv(x, el):
    """C++ conversion of an arithmetic result to the element type"""
    if el in ('float', 'double'):
        return z3.ToReal(x) if x.sort() == I else x
    if x.sort() == R:
        raise Unsupported('floating-point result in an integer array')
    lo, hi = INT_RANGES[el]
    if lo < 0:
        return x
    return (x - lo) % (hi - lo + 1) + lo if lo else x % (hi + 1)


def mul(a, b):
    """product; distributed over a selection of constants"""
    for x, y in ((a, b), (b, a)):
        if x.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(x.arg(0), mul(x.arg(1), y), mul(x.arg(2), y))
    return a * b


def arith(E, s, op, x, y, el, ln, guard):
    if x.sort() != y.sort():
        x, y = (z3.ToReal(v) if v.sort() == I else v for v in (x, y))
    if op == '/':
        if x.sort() == I:
            E.oblige(s, 'division-by-zero', z3.Implies(guard, y != 0), ln, 'safety')
            r = M.G.tdiv(x, y) if INT_RANGES[el][0] < 0 else x / y
        else:
            r = x / y
    else:
        r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: mul(x, y)}[op]()
    return conv(r, el)


CMP = {'>': lambda x, y: x > y, '<': lambda x, y: x < y, '>=': lambda x, y: x >= y, '<=': lambda x, y: x <= y, '==': lambda x, y: x == y}


def common(x, y):
    if x.sort() != y.sort():
        x, y = (z3.ToReal(v) if v.sort() == I else v for v in (x, y))
    return x, y


def one(d):
    return z3.is_int_value(z3.simplify(d)) and z3.simplify(d).as_long() == 1


def expand(E, s, a, b, ln):
    """broadcast extents and index maps"""
    out, ia, ib = [], [], []
    for f in ('d0', 'd1'):
        x, y = a[f], b[f]
        if z3.eq(z3.simplify(x), z3.simplify(y)):
            out.append(x)
            ia.append(lambda i: i)
            ib.append(lambda i: i)
            continue
        E.oblige(s, 'shapes-broadcast', z3.Or(x == y, x == 1, y == 1), ln, 'safety')
        out.append(z3.simplify(y if one(x) else x if one(y) else z3.If(x == 1, y, x)))
        ia.append((lambda i: IV(0)) if one(x) else (lambda i, x=x: z3.If(x == 1, IV(0), i)))
        ib.append((lambda i: IV(0)) if one(y) else (lambda i, y=y: z3.If(y == 1, IV(0), i)))
    return out, (lambda i, j: (ia[0](i), ia[1](j))), (lambda i, j: (ib[0](i), ib[1](j)))


def binary(E, s, op, a, b, ln):
    E.assumptions.add('contracts of array arithmetic and comparisons (proved under P04-P06)')
    el = 'unsigned char' if op in CMP else elem(a if is_av(a) else b)
    f = lambda x, y: (z3.If(CMP[op](*common(x, y)), IV(1), IV(0)))
    if is_av(a) and is_av(b):
        ds, ma, mb = expand(E, s, a, b, ln)
        fa, fb = snapshot(E, s, a), snapshot(E, s, b)
        rank = max(a.meta[0], b.meta[0])
        xa, xb = (lambda i, j: fa(*ma(i, j))), (lambda i, j: fb(*mb(i, j)))
    else:
        v = a if is_av(a) else b
        ds, rank, fv = (v['d0'], v['d1']), v.meta[0], snapshot(E, s, v)
        sc = b if is_av(a) else a
        xa, xb = (fv, lambda i, j: sc) if is_av(a) else (lambda i, j: sc, fv)
    if op in CMP:
        return mk(E, s, rank, ds[0], ds[1], el, lambda i, j: f(xa(i, j), xb(i, j)))
    if op == '/':
        i, j = z3.Int(E.fresh_name('i')), z3.Int(E.fresh_name('j'))
        arith(E, s, op, xa(i, j), xb(i, j), el, ln, z3.And(i >= 0, i < ds[0], j >= 0, j < ds[1]))
        E2 = _Quiet()
        return mk(E, s, rank, ds[0], ds[1], el, lambda i, j: arith(E2, s, op, xa(i, j), xb(i, j), el, ln, z3.BoolVal(True)))
    return mk(E, s, rank, ds[0], ds[1], el, lambda i, j: arith(E, s, op, xa(i, j), xb(i, j), el, ln, z3.BoolVal(True)))


class _Quiet:
    def oblige(self, *a):
        pass


# ------------------------------------------------------------------ reductions
class Apps:
    """applications of reductions, with facts that equal operands give equal results"""

    def __init__(self, E):
        self.E, self.apps, self.pairs = E, [], True

    def app(self, st, kind, d0, d1, data, used=None, result=None):
        """kind: name of the reduction, e.g. 'mean'; per column ('sum0') or over everything.  data, used: functions of
        (i, j) (None: not part of it).  Returns a real, or a function of the column."""
        E = self.E
        percol = kind.endswith('0')
        so = I if kind == 'count' else R
        nm = E.fresh_name('%s_of' % kind)
        r = result if result is not None else (z3.Function(nm, I, so) if percol else z3.Const(nm, so))
        if E.suppress:
            return r
        for k, e0, e1, dt, us, r2 in self.apps:
            if k != kind or not self.pairs:
                continue
            i = z3.Function(E.fresh_name('witness_row'), I, I)
            j = z3.Function(E.fresh_name('witness_column'), I, I)

            def differ(x, y):
                parts = []
                if us is not None:
                    parts.append(us(x, y) != used(x, y))
                dif = dt(x, y) != data(x, y) if data is not None else None
                if dif is not None:
                    parts.append(dif if us is None else z3.And(used(x, y), dif))
                return z3.And(x >= 0, x < d0, y >= 0, y < d1, z3.Or(parts))
            if percol:
                c = z3.Int('c!col')
                fact = z3.ForAll([c], z3.Or(e0 != d0, c < 0, c >= d1, differ(i(c), c), r2(c) == r(c)), patterns=[r(c)])
                fact2 = z3.ForAll([c], z3.Or(e0 != d0, c < 0, c >= d1, differ(i(c), c), r2(c) == r(c)), patterns=[r2(c)])
                st.pc += [fact, fact2]
            else:
                x, y = i(IV(0)), j(IV(0))
                st.pc.append(z3.Or(e0 != d0, e1 != d1, differ(x, y), r2 == r))
        self.apps.append((kind, d0, d1, data, used, r))
        return r

    def family(self, kind, d0, d1, data, used, result):
        """spec-side family of applications indexed by a stage: data(i,j), used(k,i,j), result(k)"""
        self.fam = getattr(self, 'fam', []) + [(kind, d0, d1, data, used, result)]

    def stage_fact(self, kind, d0, d1, data, used, r, k):
        """the application (data, used) agrees with member k of the family unless they differ somewhere"""
        out = []
        for kd, e0, e1, dt, us, res in getattr(self, 'fam', []):
            if kd != kind:
                continue
            x, y = z3.Int(self.E.fresh_name('witness_row')), z3.Int(self.E.fresh_name('witness_column'))
            dif = z3.And(x >= 0, x < d0, y >= 0, y < d1, z3.Or(us(k, x, y) != used(x, y), z3.And(used(x, y), dt(x, y) != data(x, y)) if data is not None else z3.BoolVal(False)))
            out.append(z3.Or(e0 != d0, e1 != d1, dif, res(k) == r))
        return out


def axes(E, s, vs):
    for v in vs:
        if isinstance(v, N) and v.kind == 'vec':
            n = M.concrete(v['len'])
            if n is None:
                raise Unsupported('list of axes')
            return [M.concrete(z3.simplify(z3.Select(v['data'], IV(k)))) for k in range(n)]
    return []


def scalar_array(E, s, v, el='float'):
    return mk(E, s, 1, IV(1), IV(1), el, lambda i, j: v)


def reduce(kind):
    def f(E, s, vs, e):
        vs = [rd(E, s, v) for v in vs]
        avs = [v for v in vs if is_av(v)]
        a, ax = avs[0], axes(E, s, vs)
        E.assumptions.add('contracts of reductions: the result depends on the operand\'s elements (and, if masked, on which elements are unmasked) only (values proved under P08, P09)')
        masked = kind.startswith('masked')
        if len(avs) > (2 if masked else 1):
            raise Unsupported('reduction into a given array')
        fa = snapshot(E, s, a)
        full = not ax or sorted(ax) == list(range(a.meta[0]))
        names = {'mean_stddev': ['mean', 'stddev'], 'masked_mean_stddev': ['masked_mean', 'masked_stddev']}.get(kind, [kind])
        E.oblige(s, 'not-empty', z3.And(a['d0'] >= 1, a['d1'] >= 1), e['ln'], 'safety')
        used, out = None, []
        if masked:
            m = avs[1]
            E.oblige(s, 'mask-has-the-shape', z3.And(m['d0'] == a['d0'], m['d1'] == a['d1'], z3.BoolVal(m.meta[0] == a.meta[0])), e['ln'], 'safety')
            E.oblige(s, 'mask-of-bytes', z3.BoolVal(elem(m) == 'unsigned char'), e['ln'], 'safety')
            fm = snapshot(E, s, m)
            used = lambda i, j: fm(i, j) == 0
            if not full:
                raise Unsupported('masked reduction over some axes')
            n = E.apps.app(s, 'count', a['d0'], a['d1'], None, used)
            s.pc += [n >= 0, z3.Or(n > 0, z3.Not(used(IV(0), IV(0))))]
            s.pc += E.stage(s, 'count', a['d0'], a['d1'], None, used, n)
            bad = s.fork()
            bad.pc.append(n == 0)
            bad.sig = ('throw', 'std::runtime_error')
            out.append((bad, None))
            s.pc.append(n > 0)
        rs = []
        for nm in names:
            nm = nm.replace('masked_', '')
            if full:
                r = E.apps.app(s, nm, a['d0'], a['d1'], fa, used if masked else (lambda i, j: z3.BoolVal(True)))
                s.pc += E.stage(s, nm, a['d0'], a['d1'], fa, used or (lambda i, j: z3.BoolVal(True)), r)
                if nm == 'stddev':
                    s.pc.append(r >= 0)
                rs.append(scalar_array(E, s, r, elem(a)))
            elif ax == [0] and a.meta[0] == 2:
                f = E.apps.app(s, nm + '0', a['d0'], a['d1'], fa)
                rs.append(mk(E, s, 1, IV(1), a['d1'], elem(a), lambda i, j: f(j)))
            elif ax == [1] and a.meta[0] == 2:
                f = E.apps.app(s, nm + '0', a['d1'], a['d0'], lambda i, j: fa(j, i))     # column reduction of the transpose
                rs.append(mk(E, s, 1, IV(1), a['d0'], elem(a), lambda i, j: f(j)))
            else:
                raise Unsupported('reduction over axes %r' % (ax,))
        ret = rs[0] if len(rs) == 1 else N('struct', {'first': rs[0], 'second': rs[1]}, e['t'])
        return out + [(s, ret)]
    return f


def count_true(E, s, vs, e):
    a = rd(E, s, vs[0])
    fa = snapshot(E, s, a)
    n = E.apps.app(s, 'count', a['d0'], a['d1'], None, lambda i, j: fa(i, j) != 0)
    s.pc += [n >= 0]
    E.assumptions.add('contract of count_true: depends on which elements are not zero only (proved under P08)')
    return [(s, n)]


# ------------------------------------------------------------------ everything else
def ctor(E, s, vs, e):
    vs = [rd(E, s, v) for v in vs]
    if not vs:
        return [(s, default_array(E, s))]
    if is_av(vs[0]):
        if len(vs) > 1:
            raise Unsupported('array constructor')
        return [(s, vs[0])]
    if isinstance(vs[0], N) and vs[0].kind == 'deferred':
        return E.bind(force(E, s, vs[0]), lambda s2, v: [(s2, v)])
    if not (isinstance(vs[0], N) and vs[0].kind == 'vec'):
        raise Unsupported('array from %r' % (vs[0],))
    rank, d0, d1 = dims_of(E, s, vs[0])
    val, el = None, 'float'
    for v in vs[1:]:
        if z3.is_expr(v):
            val = v
        elif isinstance(v, N) and 'code' in v.f:
            el = M.elem_of(v)
    E.oblige(s, 'extents-positive', z3.And(d0 >= 1, d1 >= 1), e['ln'], 'safety')
    E.assumptions.add('contract of array construction (proved under P01)')
    if val is None:
        so = I if el in INT_RANGES else R
        return [(s, mk(E, s, rank, d0, d1, el, z3.Const(E.fresh_name('uninitialised'), AAI if so == I else AAR)))]
    val = coerce(val, I if el in INT_RANGES else R)
    return [(s, mk(E, s, rank, d0, d1, el, lambda i, j: val))]


def default_array(E, s):
    return N('av', {'p': Ptr(None, None, True), 'd0': IV(0), 'd1': IV(0), 'o0': IV(0), 'o1': IV(0)}, (1, 'float'))


def force(E, s, v):
    """use of a deferred array: the array it holds, or the result of running its computation now"""
    x = v['value']
    if isinstance(x, Clo):
        E.assumptions.add('contract of ndarray_deferred: a use observes the held array or the result of running the computation (proved under P14)')
        return E.bind(E.call_clo_vals(x, [], s), lambda s2, r: [(s2, rd(E, s2, r))])
    return [(s, x)]


def deferred(E, s, vs, e):
    x = rd(E, s, vs[0]) if vs else default_array(E, s)
    if isinstance(x, N) and x.kind == 'deferred':
        return [(s, x)]
    if len(vs) > 1:
        pol = M.concrete(rd(E, s, vs[1]))
        if pol == 2 and isinstance(x, Clo):
            return E.bind(E.call_clo_vals(x, [], s), lambda s2, r: [(s2, N('deferred', {'value': rd(E, s2, r)}))])
    return [(s, N('deferred', {'value': x}))]


def slice_(E, s, vs, e):
    vs = [rd(E, s, v) for v in vs]
    a = vs[0]
    for sp in vs[1:]:
        f = sp.f
        dim = M.concrete(f['dim'])
        step = M.concrete(f['stride']) if 'stride' in f else 1
        if dim is None or step != 1 or dim >= a.meta[0] or dim < 0:
            raise Unsupported('slice of dimension %r step %r' % (dim, step))
        k = '01'[dim + 2 - a.meta[0]]
        n = a['d' + k]
        lo, hi = f['start'], f['end']
        lo, hi = (z3.simplify(z3.If(x < 0, x + n, x)) for x in (lo, hi))
        E.oblige(s, 'slice-in-range', z3.And(lo >= 0, lo < hi, hi <= n), e['ln'], 'safety')
        E.assumptions.add('contract of slice: a view of exactly the elements from start to end, negative positions counted from the end (proved under P02)')
        a = N('av', dict(a.f, **{'d' + k: z3.simplify(hi - lo), 'o' + k: z3.simplify(a['o' + k] + lo)}), a.meta)
    return [(s, a)]


def store_into(E, s, dst, src, ln):
    """copy src into the elements of the view dst"""
    ok = []
    for f in ('d0', 'd1'):
        if not z3.eq(z3.simplify(dst[f]), z3.simplify(src[f])):
            ok.append(z3.Or(dst[f] == src[f], src[f] == 1))
    if ok:
        E.oblige(s, 'copy-shapes-match', z3.And(ok), ln, 'safety')
    fs = snapshot(E, s, src)
    old = storage(E, s, dst)
    i0, j0, d0, d1, s0, s1 = dst['o0'], dst['o1'], dst['d0'], dst['d1'], src['d0'], src['d1']
    el, es = elem(dst), elem(src)
    if el != es and not (el == 'float'):
        raise Unsupported('copy of %s into %s' % (es, el))
    ix = lambda d, x: IV(0) if one(d) else z3.If(d == 1, IV(0), x)
    E.assumptions.add('contract of copying into a view (proved under P07)')

    def body(i, j):
        inside = z3.And(i >= i0, i < i0 + d0, j >= j0, j < j0 + d1)
        return z3.If(inside, conv(fs(ix(s0, i - i0), ix(s1, j - j0)), el), z3.Select(z3.Select(old, i), j))
    g = E.read(s, dst['p'].loc)
    E.write(s, dst['p'].loc, g.set(data=Grid.make(body)))


def slice_assign(E, s, ol, vs, e):
    store_into(E, s, rd(E, s, ol), rd(E, s, vs[0]), e['ln'])
    return [(s, ol)]


def copy(E, s, vs, e):
    vs = [rd(E, s, v) for v in vs]
    a = vs[0]
    if len(vs) > 1:
        store_into(E, s, vs[1], a, e['ln'])
        return [(s, vs[1])]
    fa = snapshot(E, s, a)
    return [(s, mk(E, s, a.meta[0], a['d0'], a['d1'], elem(a), fa))]


def first(E, st, e):
    return E.bind(stdlib.vals_any(E, e['a'], st), lambda s, vs: [(s, rd(E, s, vs[0]))])


def zeros(E, s, vs, e):
    vs = [rd(E, s, v) for v in vs]
    rank, d0, d1 = dims_of(E, s, vs[0])
    el = 'float'
    for v in vs[1:]:
        if isinstance(v, N) and 'code' in v.f:
            el = M.elem_of(v)
    val = {'zeros': 0, 'ones': 1}[e['q'].split('::')[-1]]
    E.oblige(s, 'extents-positive', z3.And(d0 >= 1, d1 >= 1), e['ln'], 'safety')
    E.assumptions.add('contract of zeros / ones (proved under P01)')
    return [(s, mk(E, s, rank, d0, d1, el, lambda i, j: IV(val) if el in INT_RANGES else RV(val)))]


def unsqueeze(E, s, ol, vs, e):
    a = rd(E, s, ol)
    if M.concrete(rd(E, s, vs[0])) != 0 or a.meta[0] != 1:
        raise Unsupported('unsqueeze')
    E.assumptions.add('contract of unsqueeze (proved under P03)')
    return [(s, N('av', dict(a.f), (2, elem(a))))]


def scalarize(E, s, ol, vs, e):
    a = rd(E, s, ol)
    E.oblige(s, 'single-element', z3.And(a['d0'] == 1, a['d1'] == 1), e['ln'], 'safety')
    t = e['ta'][0]
    if t != elem(a):
        raise Unsupported('scalarize<%s> of %s' % (t, elem(a)))
    E.assumptions.add('contract of scalarize (proved under P02)')
    return [(s, at(E, s, a, IV(0), IV(0)))]


def elementwise(fn):
    def f(E, s, vs, e):
        vs = [rd(E, s, v) for v in vs]
        a = vs[0]
        fa, el = snapshot(E, s, a), elem(a)
        E.assumptions.add('contract of element-wise functions (proved under P07)')
        r = mk(E, s, a.meta[0], a['d0'], a['d1'], el, lambda i, j: conv(fn(fa(i, j)), el))
        if len(vs) > 1 and is_av(vs[1]):
            store_into(E, s, vs[1], r, e['ln'])
            r = vs[1]
        return [(s, r)]
    return f


def named(op):
    def f(E, s, vs, e):
        vs = [rd(E, s, v) for v in vs]
        return [(s, binary(E, s, op, vs[0], vs[1], e['ln']))]
    return f


def member(op):
    def f(E, s, ol, vs, e):
        return [(s, binary(E, s, op, rd(E, s, ol), rd(E, s, vs[0]), e['ln']))]
    return f


def contracts():
    C = {k: v for k, v in M.contracts().items() if 'ndarray' not in k or 'dev' in k or 'datatype' in k}
    fr = lambda f: (lambda E, st, e: E.bind(stdlib.vals_any(E, e['a'], st), lambda s, vs: f(E, s, vs, e)))
    me = lambda f: (lambda E, st, e, ol: E.bind(stdlib.vals_any(E, e['a'], st), lambda s, vs: f(E, s, ol, vs, e)))
    nd = 'bland::ndarray::'
    for t in ('bland::ndarray', 'bland::ndarray_slice'):
        C['ctor:' + t] = fr(ctor)
        C['default:' + t] = lambda E, t: default_array(E, None)

    def assign(E, s, ol, vs, e):
        E.write(s, ol, rd(E, s, vs[0]))
        return [(s, ol)]
    C[nd + 'operator='] = me(assign)
    C['bland::ndarray_slice::operator='] = me(slice_assign)
    C['ctor:bland::ndarray_deferred'] = fr(deferred)
    C['default:bland::ndarray_deferred'] = lambda E, t: N('deferred', {'value': default_array(E, None)})
    C['bland::ndarray_deferred::operator='] = me(lambda E, s, ol, vs, e: (E.write(s, ol, deferred(E, s, [vs[0]], e)[0][1]), [(s, ol)])[1])
    C['bland::ndarray_deferred::conv'] = lambda E, st, e, ol: force(E, st, rd(E, st, ol))
    C['bland::ndarray_deferred::to'] = me(lambda E, s, ol, vs, e: [(s, rd(E, s, ol))])
    C[nd + 'to'] = me(lambda E, s, ol, vs, e: [(s, rd(E, s, ol))])
    C[nd + 'shape'] = lambda E, st, e, ol: [(st, shape_vec(rd(E, st, ol)))]
    C[nd + 'ndim'] = lambda E, st, e, ol: [(st, IV(rd(E, st, ol).meta[0]))]
    C[nd + 'numel'] = lambda E, st, e, ol: [(st, rd(E, st, ol)['d0'] * rd(E, st, ol)['d1'])]
    C[nd + 'dtype'] = lambda E, st, e, ol: [(st, M.dtval(elem(rd(E, st, ol))))]
    C[nd + 'device'] = lambda E, st, e, ol: [(st, M.devval(E))]

    def size(E, s, ol, vs, e):
        k = M.concrete(rd(E, s, vs[0]))
        a = rd(E, s, ol)
        if k is None or not 0 <= k < a.meta[0]:
            raise Unsupported('size(%r)' % (k,))
        return [(s, a['d' + '01'[k + 2 - a.meta[0]]])]
    C[nd + 'size'] = me(size)
    C[nd + 'scalarize'] = me(scalarize)
    C[nd + 'unsqueeze'] = me(unsqueeze)
    C[nd + 'slice'] = me(lambda E, s, ol, vs, e: slice_(E, s, [ol] + vs, e))
    C['bland::slice'] = fr(slice_)
    spec = ('dim', 'start', 'end', 'stride')

    def slice_spec(E, s, vs, e):
        vs = [rd(E, s, v) for v in vs]
        if len(vs) == 1 and isinstance(vs[0], N):
            return [(s, vs[0])]
        dflt = [IV(0), IV(0), IV(2 ** 63 - 1), IV(1)]
        return [(s, N('struct', dict(zip(spec, vs + dflt[len(vs):])), 'bland::slice_spec'))]
    C['ctor:bland::slice_spec'] = fr(slice_spec)
    C['bland::copy'] = fr(copy)
    C['bland::zeros'] = C['bland::ones'] = fr(zeros)
    C['bland::count_true'] = fr(count_true)
    for k in ('mean', 'stddev', 'sum', 'max', 'mean_stddev', 'masked_mean', 'masked_stddev', 'masked_mean_stddev'):
        C['bland::' + k] = fr(reduce(k))
    C['bland::square'] = fr(elementwise(lambda x: x * x))
    C['bland::abs'] = fr(elementwise(lambda x: z3.If(x >= 0, x, -x)))
    for op, nm in {'+': 'add', '-': 'subtract', '*': 'multiply', '/': 'divide'}.items():
        C[nd + 'operator' + op] = me(member(op))
        C['bland::operator' + op] = fr(named(op))
        C['bland::' + nm] = fr(named(op))
    for op, nm in {'>': 'greater_than', '<': 'less_than', '>=': 'greater_than_equal_to', '<=': 'less_than_equal_to', '==': 'equal_to'}.items():
        C['bland::operator' + op] = fr(named(op))
        C['bland::' + nm] = fr(named(op))
    return C


def install(E, st):
    M.install(E, st)
    E.apps = Apps(E)
    E.stage = lambda s, *a: []

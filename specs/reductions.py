"""contracts of the reduction kernels (bland/bland/ops/cpu/statistical_cpu.cpp)

For arrays of any rank, shape, strides and offsets and any set of reduced axes: element i of the result (in row-major
order) is the reduction over exactly the elements reached by
    full(i,j,d) = digit of the j-th combination of the reduced axes   if d is reduced
                = digit of the i-th combination of the other axes     otherwise          (j = 0 .. product of reduced extents - 1)
Both enumerations are odometers defined by start and successor.  Lemmas (by explicit induction, every run): digits stay
in range, the i-th combination of the kept axes is the multi-index of the i-th result element, every combination of the
reduced axes is reached by exactly one j."""
import re
import z3
from dv.session import Q
from dv.engine import IV, RV, I, R, B, N, Loc, Ptr, SUMF, Unsupported, INT_RANGES
from dv import ndmodel as M
from .odometer import Odo, lem, gnd, gvec, contiguous_lemma, last_index_lemma

STOPS = [r'^bland::ndarray::(?!(datatype|dev)::operator)']
FILE = 'bland/bland/ops/cpu/statistical_cpu.cpp'
BIG = 2 ** 31 - 1


class Sel:
    """array seen through a list of positions"""

    def __init__(self, S, Rx):
        self.S, self.R = S, Rx

    def __getitem__(self, p):
        return self.S[self.R[p]]


class Red:
    """input array `a` (rank nd, shape S), reduced axes R[0..rn)"""

    def __init__(self):
        self.nd, self.rn = z3.Ints('nd rn')
        self.S, self.R = z3.Array('S', I, I), z3.Array('R', I, I)
        self.pos = z3.Function('position', I, I)
        self.r = Odo('_r')
        self.r.nd, self.r.S = self.rn, Sel(self.S, self.R)
        self.od = z3.Function('kept_digit', I, I, I)
        self.oc = z3.Function('kept_carry', I, I)
        self.PR = z3.Function('extent_product', I, I)
        self.total = self.PR(self.rn)

    def red(self, d):
        p = self.pos(d)
        return z3.And(p >= 0, p < self.rn, self.R[p] == d)

    def osucc(self, i, d):
        c = self.oc(i)
        return self.od(i + 1, d) == z3.If(self.red(d), IV(0), z3.If(d < c, self.od(i, d), z3.If(d == c, self.od(i, d) + 1, IV(0))))

    def odigit0(self, d):
        return self.od(0, d) == 0

    def ocarry(self, i, d=None):
        c = self.oc(i)
        out = [c >= -1, c < self.nd, z3.Implies(c >= 0, z3.And(z3.Not(self.red(c)), self.od(i, c) != self.S[c] - 1))]
        if d is not None:
            out.append(z3.Implies(z3.And(d > c, d < self.nd, z3.Not(self.red(d))), self.od(i, d) == self.S[d] - 1))
        return out

    def ocarry_axiom(self):
        i, d = z3.Ints('i!oc d!oc')
        return z3.ForAll([i, d], z3.Implies(z3.And(d > self.oc(i), d < self.nd, z3.Not(self.red(d))), self.od(i, d) == self.S[d] - 1), patterns=[self.od(i, d)])

    def orange(self, i, d):
        return z3.Implies(z3.And(i >= 0, d >= 0, d < self.nd), z3.And(self.od(i, d) >= 0, self.od(i, d) < self.S[d]))

    def ozero(self, i, d):
        """lemma: reduced axes keep digit zero in the enumeration of the kept axes"""
        return z3.Implies(z3.And(i >= 0, self.red(d)), self.od(i, d) == 0)

    def full(self, i, j, d):
        return z3.If(self.red(d), self.r.idx(j, self.pos(d)), self.od(i, d))

    def frange(self, i, j, d):
        """lemma full-range"""
        return z3.Implies(z3.And(i >= 0, j >= 0, d >= 0, d < self.nd), z3.And(self.full(i, j, d) >= 0, self.full(i, j, d) < self.S[d]))

    def axes_ok(self, p):
        return z3.Implies(z3.And(p >= 0, p < self.rn), z3.And(self.R[p] >= 0, self.R[p] < self.nd, self.pos(self.R[p]) == p))

    def shape_ok(self, d):
        return z3.Implies(z3.And(d >= 0, d < self.nd), self.S[d] >= 1)

    def prstep(self, k):
        return self.PR(k + 1) == self.PR(k) * self.S[self.R[k]]

    def pre(self):
        p, d, k = z3.Ints('p!p d!p k!p')
        return [self.nd >= 1, self.nd <= 64, self.rn >= 1, self.rn <= self.nd,
                z3.ForAll([p], self.axes_ok(p), patterns=[self.R[p]]), z3.ForAll([d], self.shape_ok(d), patterns=[self.S[d]]),
                self.PR(0) == 1, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= self.rn), z3.And(self.PR(k) >= 1, self.PR(k) <= BIG)), patterns=[self.PR(k)]),
                self.ocarry_axiom(), self.r.carry_axiom()]


class Adr:
    """A(i,j,d): address of element full(i,j,.) summed over the first d dimensions (offsets included)"""

    def __init__(self, rd, name):
        self.rd, self.name = rd, name
        self.A = z3.Function('address_' + name, I, I, I, I)
        self.strides, self.offsets = z3.Array('strides_' + name, I, I), z3.Array('offsets_' + name, I, I)
        self.size = z3.Int('size_' + name)

    def z(self, i, j):
        return self.A(i, j, 0) == 0

    def step(self, i, j, d):
        return self.A(i, j, d + 1) == self.A(i, j, d) + self.offsets[d] + self.rd.full(i, j, d) * self.strides[d]

    def at(self, i, j):
        return self.A(i, j, self.rd.nd)

    def pre(self, numel):
        i, j = z3.Ints('i!a j!a')
        return [self.size >= 0, z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < numel, j >= 0, j < self.rd.total), z3.And(self.at(i, j) >= 0, self.at(i, j) < self.size)), patterns=[self.at(i, j)])]


class Out:
    """result array: own odometer over its shape; D(i,d) address over the first d dimensions"""

    def __init__(self, name='out', o=None):
        self.o = o or Odo('_out')
        self.name = name
        self.D = z3.Function('address_' + name, I, I, I)
        self.strides, self.offsets = z3.Array('strides_' + name, I, I), z3.Array('offsets_' + name, I, I)
        self.size = z3.Int('size_' + name)
        self.g = z3.Function('which_' + name, I, I)

    def step(self, i, d):
        return self.D(i, d + 1) == self.D(i, d) + self.offsets[d] + self.o.idx(i, d) * self.strides[d]

    def z(self, i):
        return self.D(i, 0) == 0

    def at(self, i):
        return self.D(i, self.o.nd)

    def pre(self):
        i, d = z3.Ints('i!o d!o')
        o = self.o
        return [o.nd >= 1, o.nd <= 64, o.numel >= 0, o.numel <= BIG, self.size >= 0,
                z3.ForAll([d], o.shape_ok(d), patterns=[o.S[d]]),
                z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < o.numel), z3.And(self.at(i) >= 0, self.at(i) < self.size, self.g(self.at(i)) == i)), patterns=[self.at(i)])]

    def written(self, k, n):
        r = self.g(k)
        return z3.And(r >= 0, r < n, self.at(r) == k)


# ------------------------------------------------------------------ lemmas
def lemmas(S):
    if 'full-range' in S.rep.lemmas:
        return
    rd = Red()
    i, j, d, p, k, m = z3.Ints('i j d p k m')
    rd.r.lemmas(S)
    lem(S, 'kept-digit-range.base', [rd.odigit0(d), rd.shape_ok(d)], rd.orange(IV(0), d))
    lem(S, 'kept-digit-range.step', [i >= 0, rd.orange(i, d), rd.osucc(i, d), rd.shape_ok(d)] + rd.ocarry(i, d), rd.orange(i + 1, d))
    lem(S, 'reduced-digit-zero.base', [rd.odigit0(d)], rd.ozero(IV(0), d))
    lem(S, 'reduced-digit-zero.step', [i >= 0, rd.ozero(i, d), rd.osucc(i, d)], rd.ozero(i + 1, d))
    lem(S, 'full-range', [rd.r.digit_range(j, rd.pos(d)), rd.orange(i, d)], rd.frange(i, j, d))
    # --- the i-th combination of the kept axes is the multi-index of the i-th result element
    o = Odo('_out')
    kept = z3.Function('kept_axis', I, I)          # k-th axis that is not reduced
    rank = z3.Function('kept_rank', I, I)
    nk = z3.Int('number_kept')
    H = [rd.nd >= 1, nk >= 0, nk <= rd.nd]
    ka = lambda k: z3.Implies(z3.And(k >= 0, k < nk), z3.And(kept(k) >= 0, kept(k) < rd.nd, z3.Not(rd.red(kept(k))), rank(kept(k)) == k))
    kr = lambda d: z3.Implies(z3.And(d >= 0, d < rd.nd, z3.Not(rd.red(d))), z3.And(rank(d) >= 0, rank(d) < nk, kept(rank(d)) == d))
    mono = lambda a, b: z3.Implies(z3.And(a >= 0, b < nk, a < b), kept(a) < kept(b))
    shp = lambda k: z3.Implies(z3.And(k >= 0, k < nk), o.S[k] == rd.S[kept(k)])
    same = lambda i, k: z3.Implies(z3.And(k >= 0, k < nk), o.idx(i, k) == rd.od(i, kept(k)))
    lem(S, 'same-coordinates.base', H + [o.digit0(k), rd.odigit0(kept(k))], same(IV(0), k))
    c, oc = o.carry(i), rd.oc(i)
    # carries correspond: kept(carry) = kept_carry (or both -1); o.nd = nk > 0
    hy = H + [o.nd == nk, nk >= 1]
    agree = z3.And(z3.Implies(c >= 0, oc == kept(c)), z3.Implies(c < 0, oc == -1))
    q = rank(oc)
    lem(S, 'same-carry', hy + o.carry_def(i, q) + rd.ocarry(i, kept(c)) + [ka(c), kr(oc), shp(c), shp(q), same(i, c), same(i, q), mono(c, q), mono(q, c), ka(q)], agree)
    lem(S, 'same-coordinates.step', hy + [agree, same(i, k), ka(k), ka(c), mono(k, c), mono(c, k), o.succ(i, k), rd.osucc(i, kept(k))] + o.carry_def(i) + rd.ocarry(i), same(i + 1, k))
    # --- every combination of the reduced axes is reached by exactly one j
    v = rd.r.view('rc', z3.Array('code_stride', I, I))
    v.lemmas(S)
    ro = rd.r
    contiguous_lemma(S, ro, v)
    cst = lambda p: z3.And(z3.Implies(z3.And(p >= 0, p + 1 < rd.rn), v.st[p] == v.st[p + 1] * ro.S[p + 1]), v.st[rd.rn - 1] == 1)
    prod = lambda p: z3.Implies(z3.And(p >= 1, p <= rd.rn), rd.PR(p) * v.st[p - 1] == rd.total)
    lem(S, 'code-total.base', [rd.rn >= 1, cst(rd.rn - 1)], prod(rd.rn))
    lem(S, 'code-total.step', [rd.rn >= 1, p >= 2, p <= rd.rn, prod(p), cst(p - 2), rd.prstep(p - 1)], prod(p - 1))
    lem(S, 'code-total', [rd.rn >= 1, prod(IV(1)), rd.PR(0) == 1, rd.prstep(IV(0))], v.st[0] * ro.S[0] == rd.total)
    # mixed radix: two sequences of digits with the same code are the same
    x, y = z3.Array('x', I, I), z3.Array('y', I, I)
    cx, cy = z3.Function('code_x', I, I), z3.Function('code_y', I, I)     # codes of the digits from p on
    for f, a in ((cx, x), (cy, y)):
        lemname = 'x' if f is cx else 'y'
        below = lambda p: z3.Implies(z3.And(p >= 1, p <= rd.rn), z3.And(f(p) >= 0, f(p) < v.st[p - 1]))
        lem(S, 'code-below.%s.base' % lemname, [rd.rn >= 1, f(rd.rn) == 0, cst(rd.rn - 1)], below(rd.rn))
        mono_ = z3.Implies(z3.And(a[p - 1] >= 0, a[p - 1] <= ro.S[p - 1] - 1, v.st[p - 1] >= 1), z3.And(a[p - 1] * v.st[p - 1] <= (ro.S[p - 1] - 1) * v.st[p - 1], a[p - 1] * v.st[p - 1] >= 0))
        lem(S, 'code-below.%s.step' % lemname, [p >= 2, p <= rd.rn, below(p), f(p - 1) == a[p - 1] * v.st[p - 1] + f(p), cst(p - 2), a[p - 1] >= 0, a[p - 1] < ro.S[p - 1], mono_], below(p - 1))
    u, w, t = z3.Ints('u w t')
    lem(S, 'radix', [t >= 1, u >= 0, u < t, w >= 0, w < t, x[0] * t + u == y[0] * t + w], z3.And(x[0] == y[0], u == w))
    lem(S, 'same-code-same-digits', [p >= 0, p < rd.rn, cx(p) == cy(p), cx(p) == x[p] * v.st[p] + cx(p + 1), cy(p) == y[p] * v.st[p] + cy(p + 1),
                                     cx(p + 1) >= 0, cx(p + 1) < v.st[p], cy(p + 1) >= 0, cy(p + 1) < v.st[p],
                                     z3.Implies(z3.And(v.st[p] >= 1, cx(p + 1) >= 0, cx(p + 1) < v.st[p], cy(p + 1) >= 0, cy(p + 1) < v.st[p], x[p] * v.st[p] + cx(p + 1) == y[p] * v.st[p] + cy(p + 1)),
                                                z3.And(x[p] == y[p], cx(p + 1) == cy(p + 1)))], z3.And(x[p] == y[p], cx(p + 1) == cy(p + 1)))


# ------------------------------------------------------------------ recursive reductions
class Acc:
    """accumulated value over the first j combinations of group i: start, then one step per element"""

    def __init__(self, name, sort, start=None, step=None):
        self.f = z3.Function(name, I, I, sort)
        self.start = start if start is not None else (RV(0) if sort == R else IV(0))
        self.fn = step or (lambda acc, x: acc + x)

    def z(self, i):
        return self.f(i, 0) == self.start

    def step(self, i, j, x, used=None):
        n = self.fn(self.f(i, j), x)
        return self.f(i, j + 1) == (n if used is None else z3.If(used, n, self.f(i, j)))


def assigned(n):
    """variables a loop changes (declared outside it)"""
    mod, dec = set(), set()

    def base(e):
        while isinstance(e, dict):
            if e['k'] == 'Ref':
                return e['n']
            e = e.get('o') or e.get('e') or (e['a'][0] if e.get('a') else None) or e.get('b')
        return None

    def walk(x):
        if isinstance(x, dict):
            k = x.get('k')
            if k == 'CAsg' or (k == 'Bin' and x.get('op') == '='):
                mod.add(base(x['l']))
            elif k == 'Un' and x.get('op') in ('++', '--'):
                mod.add(base(x['e']))
            elif k == 'MCall' and x['q'].endswith('push_back'):
                mod.add(base(x['o']))
            elif k == 'Decl':
                dec.update(a['n'] for a in x['a'] if 'n' in a)
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk({k: v for k, v in n.items() if k not in ('ln', 'k')})
    if n['k'] == 'Range':
        dec.add(n['v']['n'])
    return mod - dec


def find_contract(E, st, e):
    """std::find over a whole vector of integers: position of the first equal element, the end if there is none"""
    from dv import stdlib

    def f(s, vs):
        b, en, v = vs[:3]
        v = E.read(s, v) if isinstance(v, Loc) else v
        if not z3.is_int_value(z3.simplify(b.idx)) or z3.simplify(b.idx).as_long() != 0:
            raise Unsupported('std::find not from the beginning')
        data = E.read(s, b.loc)['data']
        k = z3.Int(E.fresh_name('found'))
        j = z3.Int('j!find')
        s.pc += [k >= 0, k <= en.idx, z3.Implies(k < en.idx, data[k] == v), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), data[j] != v))]
        for t in E.find_at(v, k):
            s.pc.append(t if t.sort() == B else z3.Implies(z3.And(t >= 0, t < k), data[t] != v))
        return [(s, Ptr(b.loc, k))]
    return E.bind(stdlib.vals_ptr(E, e['a'], st), f)


SQ = z3.Function('square_root', R, R)


def verify_kernel(S, q, key, label, At, Ot, masked, accs, result, outs=('out',), int_range=None, scaled=None):
    """accs: {variable: (recursion name, f(x) term added per element, scaled)}; result(V) per output"""
    lemmas(S)
    rd = Red()
    a, mk = Adr(rd, 'a'), Adr(rd, 'mask')
    o0 = Out(outs[0])
    os_ = [o0] + [Out(n, o0.o) for n in outs[1:]]
    o = o0.o
    AD, MD = z3.Array('a0', I, M.esort(At)), z3.Array('mask0', I, I)
    ODs = [z3.Array(x.name + '0', I, M.esort(Ot)) for x in os_]
    mcode, mbits, mrank = z3.Ints('mask_code mask_bits mask_rank')
    MS = z3.Array('mask_shape', I, I)
    ACC = {v: Acc('acc_%s' % v, M.esort(Ot), *accs[v]) for v in accs}
    CNT = Acc('count', I)

    def elem(i, j):
        return AD[a.at(i, j)]

    def use_ok(i, j):
        return MD[mk.at(i, j)] == 0

    def acc_step(v, i, j):
        return ACC[v].step(i, j, elem(i, j), use_ok(i, j) if masked else None)

    def cnt_step(i, j):
        return CNT.step(i, j, IV(1), use_ok(i, j))
    defs = lambda i, j: [acc_step(v, i, j) for v in accs] + [ACC[v].z(i) for v in accs] + ([cnt_step(i, j), CNT.z(i)] if masked else [])
    G = {}

    def value(which, i):
        return result({v: ACC[v].f(i, rd.total) for v in accs}, CNT.f(i, rd.total) if masked else rd.total)[which]

    def build(E, st, F):
        M.install(E, st)
        ln = z3.Int('axes_given')
        p, i, j = z3.Ints('p!e i!e j!e')
        st.pc += rd.pre() + a.pre(o.numel)
        for x in os_:
            st.pc += x.pre()
        st.pc += [o.carry_axiom(), z3.Or(ln == rd.rn, z3.And(ln == 0, rd.rn == rd.nd, z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < rd.rn), rd.R[p] == p), patterns=[rd.R[p]])))]
        if masked:
            ism = z3.And(mcode == 1, mbits == 8)
            st.pc += [mrank >= 0, mrank <= 64, z3.Implies(z3.And(ism, mrank == rd.nd, shapes_equal()), z3.And(mk.pre(o.numel)))]
            st.pc += [z3.ForAll([i, j], z3.Implies(j >= 0, CNT.f(i, j) <= j), patterns=[CNT.f(i, j)]), z3.ForAll([i, j], z3.Implies(j >= 0, CNT.f(i, j) >= 0), patterns=[CNT.f(i, j)])]
        if int_range:
            for v in accs:
                if ACC[v].f.range() == I:
                    st.pc.append(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < o.numel, j >= 0, j <= rd.total), z3.And(ACC[v].f(i, j) >= int_range[0], ACC[v].f(i, j) <= int_range[1])), patterns=[ACC[v].f(i, j)]))
        if M.esort(At) == I:
            k = z3.Int('k!e')
            st.pc.append(z3.ForAll([k], z3.And(AD[k] >= INT_RANGES[At][0], AD[k] <= INT_RANGES[At][1]), patterns=[AD[k]]))
        av = gnd(E, st, 'a', rd.nd, rd.S, a.strides, a.offsets, At, a.size, AD)
        ovs = [gnd(E, st, x.name, o.nd, o.S, x.strides, x.offsets, Ot, x.size, D) for x, D in zip(os_, ODs)]
        mv = gnd(E, st, 'mask', mrank, MS, mk.strides, mk.offsets, 'unsigned char', mk.size, MD)
        mv = mv.set(dt=N('struct', {'code': mcode, 'bits': mbits, 'lanes': IV(1)}, 'bland::ndarray::datatype'))
        G.update(av=av, ovs=ovs, mv=mv)
        axes = gvec(ln, rd.R)
        pn = [x['n'] for x in F['params']]
        by = dict(zip(outs, ovs), a=av, mask=mv)
        args = []
        for x in F['params']:
            if 'vector' in x['t']:
                args.append(axes if not x['t'].endswith('&') else E.newcell(st, axes))
            else:
                args.append(E.newcell(st, by[x['n']]))
        E.C.update(M.contracts())
        E.C['bland::ndarray::numel'] = lambda E, st, e, ol: [(st, o.numel)]
        E.C['std::find'] = find_contract
        E.find_at = lambda v, k: [rd.pos(v), rd.axes_ok(k)]
        E.C['sqrt'] = E.C['std::sqrt'] = lambda E, st, e: E.bind(E.eval_args(E.ptypes_of(e['fn']), e['a'], st), sqrt_)

        def sqrt_(s, vs):
            v = E.read(s, vs[0]) if isinstance(vs[0], Loc) else vs[0]
            E.oblige(s, 'square-root-of-nonnegative', v >= 0, 0, 'safety')
            return [(s, SQ(v))]

        def post(E, s, ret):
            res = []
            for w, (x, D0, ov) in enumerate(zip(os_, ODs, ovs)):
                D = M.buf(E, s, ov)['data']
                res.append(('elements.' + x.name, Q(['k'], lambda k, x=x, D=D, D0=D0, w=w: D[k] == z3.If(x.written(k, o.numel), value(w, x.g(k)), D0[k]))))
            res.append(('operand-unchanged', M.buf(E, s, av)['data'] == AD))
            if masked:
                res.append(('mask-unchanged', M.buf(E, s, mv)['data'] == MD))
                res.append(('mask-accepted', Q([], lambda: z3.And(mcode == 1, mbits == 8, mrank == rd.nd, shapes_equal()))))
                res.append(('groups-not-empty', Q(['i'], lambda i: z3.Implies(z3.And(i >= 0, i < o.numel), CNT.f(i, rd.total) > 0))))
            if len(os_) == 1:
                res.append(('result-is-destination', z3.And(z3.BoolVal(ret['p'].loc.cell == ovs[0]['p'].loc.cell), ret['p'].idx == 0)))
            else:
                fs = [E.read(s, ret[f]) if isinstance(ret[f], Loc) else ret[f] for f in ('first', 'second')]
                res.append(('results-are-destinations', z3.BoolVal(all(f['p'].loc.cell == ov['p'].loc.cell for f, ov in zip(fs, ovs)))))
            return res
        ctx = {'args': args, 'post': post}
        if masked:
            def throws(E, s):
                i = z3.Int('i!empty')
                empty = z3.Exists([i], z3.And(i >= 0, i < o.numel, CNT.f(i, rd.total) == 0))
                return [('only-bad-mask-or-empty-group', z3.Or(z3.Not(z3.And(mcode == 1, mbits == 8)), mrank != rd.nd, z3.Not(shapes_equal()), empty))]
            ctx['throws'] = throws
        return ctx

    def shapes_equal():
        d = z3.Int('d!eq')
        return z3.ForAll([d], z3.Implies(z3.And(d >= 0, d < rd.nd), MS[d] == rd.S[d]), patterns=[MS[d], rd.S[d]])

    def match(E, n, st, ordn):
        mod = assigned(n)
        nested = any('For' == k for k in kinds(n['body']))
        var = n['init']['a'][0]['n'] if n.get('init') and n['init'].get('a') else None

        def push(c):
            x, k = c['reduced_axes'], c[var]
            return [('range', z3.And(k >= 0, k <= rd.nd, x['len'] == k)), ('axes', Q(['p'], lambda p: z3.Implies(z3.And(p >= 0, p < k), x['data'][p] == p), pats=lambda p: x['data'][p]))]

        def axes_list(c):
            """after the first loop: the axes to reduce"""
            x = c['reduced_axes']
            return [('axes', Q(['p'], lambda p: z3.And(x['len'] == rd.rn, z3.Implies(z3.And(p >= 0, p < rd.rn), x['data'][p] == rd.R[p])), pats=lambda p: rd.R[p]))]

        def product(c):
            k = c.idx(n['v']['n']) if n['k'] == 'Range' else c[var]
            return axes_list(c) + [('range', z3.And(k >= 0, k <= rd.rn)), ('product', Q([], lambda: c['reduced_elements'] == rd.PR(k), use=lambda: [rd.prstep(k - 1), rd.axes_ok(k - 1)]))]

        def check(c):
            k = c[var]
            return [('range', z3.And(k >= 0, k <= rd.nd)), ('checked', Q(['d'], lambda d: z3.Implies(z3.And(d >= 0, d < k), MS[d] == rd.S[d]), pats=lambda d: MS[d]))]

        def outer(c):
            i = c[var]
            E.outer_loc = c.loc(var)
            x, y = c[outs[0] + '_index'], c['input_index']
            r = [('range', z3.And(i >= 0, i <= o.numel)), ('rank', z3.And(x['len'] == o.nd, y['len'] == rd.nd)),
                 ('result-digits', Q(['d'], lambda d: z3.Implies(z3.And(d >= 0, d < o.nd), x['data'][d] == o.idx(i, d)), pats=lambda d: x['data'][d],
                                     use=lambda d: [o.digit0(d), o.succ(i - 1, d)] + o.carry_def(i - 1, d))),
                 ('kept-digits', Q(['d'], lambda d: z3.Implies(z3.And(d >= 0, d < rd.nd), y['data'][d] == rd.od(i, d)), pats=lambda d: y['data'][d],
                                   use=lambda d: [rd.odigit0(d), rd.osucc(i - 1, d), rd.ozero(i - 1, d)] + rd.ocarry(i - 1, d)))]
            for w, (ou, D0, ov) in enumerate(zip(os_, ODs, G['ovs'])):
                D = M.buf(c.E, c.st, ov)['data']
                r.append(('elements.' + ou.name, Q(['k'], lambda k, ou=ou, D=D, D0=D0, w=w: D[k] == z3.If(ou.written(k, i), value(w, ou.g(k)), D0[k]), pats=lambda k, D=D: D[k])))
            if masked:
                r.append(('groups-not-empty', Q(['g'], lambda g: z3.Implies(z3.And(g >= 0, g < i), CNT.f(g, rd.total) > 0), pats=lambda g: CNT.f(g, rd.total))))
            return r

        def inner(c):
            i, j = c.cell(E.outer_loc), c[var]
            E.inner_loc = c.loc(var)
            x = c['reduce_nd_index']
            r = [('range', z3.And(j >= 0, j <= rd.total, i >= 0, i < o.numel, x['len'] == rd.nd)),
                 ('digits', Q(['d'], lambda d: z3.Implies(z3.And(d >= 0, d < rd.nd), x['data'][d] == rd.full(i, j, d)), pats=lambda d: x['data'][d],
                              use=lambda d: [rd.odigit0(d), rd.ozero(i, d), rd.r.digit0(rd.pos(d)), rd.r.succ(j - 1, rd.pos(d))] + rd.r.carry_def(j - 1, rd.pos(d)) + [rd.axes_ok(rd.r.carry(j - 1)), rd.axes_ok(rd.pos(d))]))]
            for v in accs:
                sc = scaled(c) if scaled else None
                r.append(('accumulated.' + v, Q([], lambda v=v, sc=sc: c[v] == (ACC[v].f(i, j) if sc is None else ACC[v].f(i, j) * sc), use=lambda v=v: defs(i, j - 1))))
            if int_range:
                r.append(('next', Q([], lambda: z3.And(defs(i, j)), use=lambda: defs(i, j))))
            if masked:
                cn = 'elements_in_mean' if c.has('elements_in_mean') else 'elements_in_dev'
                r.append(('counted', Q([], lambda: c[cn] == CNT.f(i, j), use=lambda: defs(i, j - 1))))
            return r

        def addr(ad, nm, shape=None):
            def f(c):
                i, j, d = c.cell(E.outer_loc), c.cell(E.inner_loc), c[var]
                return [('range', z3.And(d >= 0, d <= rd.nd)), ('address', Q([], lambda: c[nm] == ad.A(i, j, d), use=lambda: [ad.z(i, j), ad.step(i, j, d - 1), rd.frange(i, j, d - 1)]))]
            return f

        def outaddr(c):
            i, d = c.cell(E.outer_loc), c[var]
            nms = ['out_linear_index', 'out_stddev_linear_index']
            return [('range', z3.And(d >= 0, d <= o.nd))] + [('address.' + x.name, Q([], lambda x=x, nm=nm: c[nm] == x.D(i, d), use=lambda x=x: [x.z(i), x.step(i, d - 1), o.digit_range(i, d - 1)])) for x, nm in zip(os_, nms)]

        def rinc(c):
            p, j = c[var], c.cell(E.inner_loc)
            x, y = c['reduce_nd_index'], c['input_index']
            return [('range', z3.And(p >= -1, p < rd.rn, x['len'] == rd.nd)),
                    ('digits', Q(['d'], lambda d: z3.Implies(z3.And(d >= 0, d < rd.nd), x['data'][d] == z3.If(rd.red(d), z3.If(rd.pos(d) <= p, rd.r.idx(j, rd.pos(d)), IV(0)), y['data'][d])), pats=lambda d: x['data'][d],
                                 use=lambda d: [rd.axes_ok(p + 1), rd.axes_ok(p)])),
                    ('at-maximum', Q(['q'], lambda q: z3.Implies(z3.And(q > p, q < rd.rn), rd.r.idx(j, q) == rd.S[rd.R[q]] - 1), pats=lambda q: rd.r.idx(j, q), use=lambda q: [rd.axes_ok(p + 1), rd.r.digit_range(j, p + 1)]))]

        def outinc(c):
            d, i = c[var], c.cell(E.outer_loc)
            x = c[outs[0] + '_index']
            return [('range', z3.And(d >= -1, d < o.nd, x['len'] == o.nd)),
                    ('digits', Q(['e'], lambda e: z3.Implies(z3.And(e >= 0, e < o.nd), x['data'][e] == z3.If(e <= d, o.idx(i, e), IV(0))), pats=lambda e: x['data'][e])),
                    ('at-maximum', Q(['e'], lambda e: z3.Implies(z3.And(e > d, e < o.nd), o.idx(i, e) == o.S[e] - 1), pats=lambda e: o.idx(i, e), use=lambda e: [o.digit_range(i, d + 1)]))]

        def ininc(c):
            d, i = c[var], c.cell(E.outer_loc)
            x = c['input_index']
            return [('range', z3.And(d >= -1, d < rd.nd, x['len'] == rd.nd)),
                    ('digits', Q(['e'], lambda e: z3.Implies(z3.And(e >= 0, e < rd.nd), x['data'][e] == z3.If(z3.Or(e <= d, rd.red(e)), rd.od(i, e), IV(0))), pats=lambda e: x['data'][e])),
                    ('at-maximum', Q(['e'], lambda e: z3.Implies(z3.And(e > d, e < rd.nd, z3.Not(rd.red(e))), rd.od(i, e) == rd.S[e] - 1), pats=lambda e: rd.od(i, e)))]
        if nested:
            return outer if 'input_index' in mod else inner if 'reduce_nd_index' in mod else None
        if mod == {'out_linear_index', 'out_stddev_linear_index'}:
            return outaddr
        if len(mod) > 1:
            return None
        m = next(iter(mod), None)
        return {'reduced_axes': push, 'reduced_elements': product, None: check, 'input_linear_index': addr(a, 'input_linear_index'), 'mask_linear_index': addr(mk, 'mask_linear_index'),
                'out_linear_index': outaddr, 'reduce_nd_index': rinc, outs[0] + '_index': outinc, 'input_index': ininc}.get(m)
    S.function(q, build, sig='^' + re.escape(key) + '$', name=label, loops={'match': match}, opts={'merge_arrays': True})


def kinds(n):
    if isinstance(n, dict):
        if 'k' in n:
            yield n['k']
        for v in n.values():
            yield from kinds(v)
    elif isinstance(n, list):
        for v in n:
            yield from kinds(v)


def keys(S, q):
    return sorted(k for k, f in S.P['functions'].items() if isinstance(k, str) and f['q'] == q)


TYPES = ['float', 'int', 'long', 'unsigned char', 'unsigned int']
SHORT = {'unsigned char': 'uint8', 'unsigned int': 'uint32', 'long': 'int64', 'int': 'int32', 'float': 'float32'}
ROOT = {'mean': r'^mean_impl::call<', 'sum': r'^sum_impl::call<', 'max': r'^max_impl::call<', 'stddev': r'^stddev_impl::call<', 'masked_mean': r'^masked_mean_impl::call<',
        'masked_stddev': r'^masked_stddev_impl::call<', 'mean_stddev': r'^bland::cpu::mean_stddev\(', 'masked_mean_stddev': r'^bland::cpu::masked_mean_stddev\('}


def units(*names):
    return [(FILE, [ROOT[n] for n in names], STOPS), M.UNIT_DT]


def lowest(t):
    return IV(INT_RANGES[t][0]) if t in INT_RANGES else RV(str(-int(3.4028234663852886e38)))


def avg(t, total, n):
    from dv.engine import tdiv
    return total / z3.ToReal(n) if t == 'float' else tdiv(total, n)


def popdev(m1, m2, n):
    """population standard deviation from the sums of the values and of their squares"""
    s = RV(1) / z3.ToReal(n)
    d = m2 * s - (m1 * s) * (m1 * s)
    return SQ(z3.If(d >= 0, d, RV(0)))


SQUARES = {'accum_x': (), 'accum_x2': (RV(0), lambda acc, x: acc + x * x)}


def v_of(name):
    def verify(S):
        lemmas(S)
        if name == 'max':
            max_lemmas(S)
        if name in ('mean_stddev', 'masked_mean_stddev'):
            for k in keys(S, 'bland::cpu::' + name):
                masked = name.startswith('masked')
                outs = ('out_mean', 'out_stddev')
                verify_kernel(S, 'bland::cpu::' + name, k, name, 'float', 'float', masked, SQUARES,
                              lambda v, n: [v['accum_x'] * (RV(1) / z3.ToReal(n)) if not masked else v['accum_x'] / z3.ToReal(n), popdev(v['accum_x'], v['accum_x2'], n)], outs=outs, scaled=None if masked else (lambda c: c['scale']))
            return
        for k in keys(S, name + '_impl::call'):
            ta = S.P['functions'][k]['ta']
            Ot, At = (ta[0], ta[0]) if name == 'max' else ta[:2]
            if Ot != At or Ot not in TYPES or ('stddev' in name and Ot != 'float'):
                continue
            masked = name.startswith('masked')
            kw = {}
            rng = INT_RANGES.get(Ot)
            if name in ('mean', 'masked_mean'):
                accs, res = {'mean': ()}, lambda v, n: [avg(Ot, v['mean'], n)]
            elif name == 'sum':
                accs, res = {'total': ()}, lambda v, n: [v['total']]
            elif name == 'max':
                accs, res = {'max': (lowest(Ot), lambda acc, x: z3.If(x > acc, x, acc))}, lambda v, n: [v['max']]
            else:
                accs, res = SQUARES, lambda v, n: [popdev(v['accum_x'], v['accum_x2'], n)]
                if not masked:
                    kw['scaled'] = lambda c: c['scale']
            verify_kernel(S, name + '_impl::call', k, '%s[%s]' % (name, SHORT[Ot]), At, Ot, masked, accs, res, int_range=rng, **kw)
            if S.rep.functions:
                pass
    return verify


def max_lemmas(S):
    """the running maximum bounds every element seen and is one of them"""
    for t in ('float', 'int'):
        so = M.esort(t)
        f, x = z3.Function('running_max_' + t, I, so), z3.Function('element_' + t, I, so)
        j, k = z3.Ints('j k')
        low = lowest(t)
        st = lambda j: f(j + 1) == z3.If(x(j) > f(j), x(j), f(j))
        at = z3.Function('attained_at_' + t, I, I)
        bound = lambda j: z3.Implies(z3.And(k >= 0, k < j), f(j) >= x(k))
        lem(S, 'maximum-bounds.%s.base' % t, [f(0) == low], bound(IV(0)))
        lem(S, 'maximum-bounds.%s.step' % t, [j >= 0, bound(j), st(j)], bound(j + 1))
        # witness: position of the last strict increase
        aw = at(j + 1) == z3.If(x(j) > f(j), j, at(j))
        got = lambda j: z3.Implies(j >= 1, z3.And(at(j) >= 0, at(j) < j, f(j) == x(at(j))))
        lem(S, 'maximum-attained.%s.first' % t, [f(0) == low, at(0) == 0, x(0) >= low, st(IV(0)), at(1) == 0], got(IV(1)))
        lem(S, 'maximum-attained.%s.step' % t, [j >= 1, got(j), st(j), aw], got(j + 1))

"""arrays as they are stored (bland/bland/bland_tensor_internals.cpp, ndarray.cpp, ops/ops.cpp): construction, copies that
share storage, slices, reshape, squeeze, unsqueeze, element access

A tensor's shape and strides are reached through pointers into vectors it owns; data is a shared buffer.  The address of
element x is  sum_d (offsets[d] + x[d]*strides[d])  relative to the buffer."""
import re
import z3
from dv.session import Q
from dv.engine import IV, I, R, B, N, Ptr, Loc, Unsupported, SUMF, PRODF, tmap
from dv import ndmodel as M, stdlib
from .odometer import gvec, lem

UNITS = {'create': [('bland/bland/ops/creators.cpp', [r'^bland::(zeros|ones)\('], [r'^bland::fill']),
                    ('bland/bland/bland_tensor_internals.cpp', [r'^bland::detail::blandDLTensor::'], []),
                    ('bland/bland/ndarray.cpp', [r'^bland::ndarray::(ctor|shape|size|strides|offsets|dtype|device|numel|ndim)\b', r'^bland::ndarray::data_ptr<float>'], [r'^bland::(to|copy|fill)'])],
         'slice': [('bland/bland/ops/ops.cpp', [r'^bland::slice', r'^bland::ndarray::', r'^bland::detail::blandDLTensor', r'^bland::to\(bland::ndarray,DLDevice\)'], [r'^bland::(copy|fill)']), M.UNIT_DT,
                   ('bland/bland/bland_tensor_internals.cpp', [r'^bland::detail::blandDLTensor::'], []),
                   ('bland/bland/ndarray_slice.cpp', [r'^bland::ndarray_slice::ctor\(', r'^bland::ndarray::slice<'], [r'^bland::(to|copy|fill)']),
                   ('bland/bland/ndarray.cpp', [r'^bland::ndarray::(ctor|shape|size|strides|offsets|dtype|device|numel|ndim|scalarize)\b', r'^bland::ndarray::data_ptr<'], [r'^bland::(to|copy|fill)'])],
         'reshape': [('bland/bland/bland_tensor_internals.cpp', [r'^bland::detail::blandDLTensor::'], []),
                     ('bland/bland/ndarray.cpp', [r'^bland::ndarray::(ctor|reshape|squeeze|unsqueeze|shape|size|ndim|numel|strides|offsets|operator=)\b'], [r'^bland::(to|copy|fill)'])]}
OPTS = {'relocate': True, 'deepcopy': ('bland::ndarray', 'bland::ndarray_slice', 'bland::detail::blandDLTensor')}
ENOMEM, EINVAL = 12, 22


def contracts():
    def c_memalign(E, st, e):
        def f(s, vs):
            p, _, size = vs
            rc = z3.Const(E.fresh_name('memalign'), I)
            E.rc = rc
            buf = E.newcell(s, N('buf', {'size': size, 'data': z3.Const(E.fresh_name('uninitialised'), z3.ArraySort(I, I))}))
            E.write(s, p.target(), Ptr(buf, IV(0)))
            E.fresh_buffers = getattr(E, 'fresh_buffers', []) + [buf.cell]
            E.assumptions.add('posix_memalign returns 0 and a fresh block of the requested size, or an error code (the pointer is not used then)')
            return [(s, rc)]
        return E.bind(stdlib.vals_ptr(E, e['a'], st), f)

    def c_errno(E, st, e):
        raise Unsupported('errno')
    return {'posix_memalign': c_memalign}


def own(E, s, t):
    """contents of a tensor value: (shape, strides, offsets, ndim) read through its own pointers"""
    sh, sr = E.read(s, t['shape'].loc), E.read(s, t['strides'].loc)
    return sh, sr, t['_offsets'], t['ndim']


def mk(E, st, rank, S, T, O, data, owner=None, name='bland::ndarray'):
    """an existing array: owns its shape and strides, zero-based pointers to them"""
    dt = N('struct', {'code': z3.Int('code'), 'bits': z3.Int('bits'), 'lanes': z3.Int('lanes')}, 'DLDataType')
    dev = N('struct', {'device_type': IV(1), 'device_id': z3.Int('device_id')}, 'DLDevice')
    v = N('struct', {'_tensor': N('struct', {'data': data, 'device': dev, 'ndim': rank, 'dtype': dt,
                                             'shape': Ptr(Loc('self', ('_tensor', '_shape_ownership')), IV(0)),
                                             'strides': Ptr(Loc('self', ('_tensor', '_strides_ownership')), IV(0)), 'byte_offset': z3.Int('byte_offset'),
                                             '_offsets': gvec(rank, O), '_data_ownership': owner if owner is not None else data,
                                             '_shape_ownership': gvec(rank, S), '_strides_ownership': gvec(rank, T)}, 'bland::detail::blandDLTensor')}, name)
    return E.newcell(st, v)


def tensor(E, s, loc_or_val):
    v = E.read(s, loc_or_val) if isinstance(loc_or_val, Loc) else loc_or_val
    if '_tensor' in v.f:
        v = v['_tensor']
    return v


def settle(E, s, v):
    """give a returned value a home so that its pointers into itself can be followed"""
    return v if isinstance(v, Loc) else E.newcell(s, v)


def pre_shape(S, n):
    d = z3.Int('d!sh')
    return [n >= 0, n <= 64, z3.ForAll([d], z3.Implies(z3.And(d >= 0, d < n), z3.And(S[d] >= 1, S[d] < 2 ** 31)), patterns=[S[d]])]


def same_ptr(a, b):
    if a.null or b.null:
        return z3.BoolVal(bool(a.null and b.null))
    if a.loc.cell != b.loc.cell or a.loc.path != b.loc.path:
        return z3.BoolVal(False)
    return (a.idx if a.idx is not None else IV(0)) == (b.idx if b.idx is not None else IV(0))


def same_tree(E, a, b, pre=''):
    out = []
    if isinstance(a, N):
        for k in a.f:
            out += same_tree(E, a.f[k], b.f[k], pre + k + '.')
    elif isinstance(a, Ptr):
        out.append(same_ptr(a, b))
    else:
        out.append(a == b)
    return out


class Suffix:
    """suf(d) = extent(d) * ... * extent(rank-1)"""

    def __init__(self, name, S, n):
        self.f, self.S, self.n = z3.Function(name, I, I), S, n

    def defs(self, *ds):
        out = [self.f(self.n) == 1]
        for d in ds:
            out.append(z3.Implies(z3.And(d >= 0, d < self.n), self.f(d) == self.f(d + 1) * self.S[d]))
        return out

    def lemmas(self, S):
        """product of all extents = suf(0)"""
        k = z3.Int('k')
        P = lambda k: PRODF(self.S, k)
        st = lambda k: P(k) * self.f(k) == P(self.n)
        # by induction downwards: PROD(S,n) = PROD(S,n)*1; PROD(S,k)*S[k]*suf(k+1)
        lem(S, 'suffix-product.base', self.defs(), st(self.n))
        lem(S, 'suffix-product.step', [k >= 0, k < self.n, st(k + 1), P(k + 1) == P(k) * self.S[k]] + self.defs(k), st(k))
        lem(S, 'suffix-product.whole', [st(IV(0)), P(IV(0)) == 1], self.f(0) == P(self.n))

    def whole(self):
        return self.f(0) == PRODF(self.S, self.n)


def vec_is(nm, v, n, f, use=None):
    return [(nm + '.length', v['len'] == n), (nm, Q(['d'], lambda d: z3.Implies(z3.And(d >= 0, d < n), v['data'][d] == f(d)), pats=lambda d: v['data'][d], use=use))]


# ------------------------------------------------------------------ P01
def verify_create(S):
    n = z3.Int('rank')
    A = z3.Array('shape', I, I)
    suf = Suffix('suf', A, n)
    suf.lemmas(S)
    W = {}

    def args(E, st):
        M.install(E, st)
        st.pc += pre_shape(A, n) + [suf.whole(), suf.f(0) >= 0, suf.f(0) < 2 ** 31]
        dt = N('struct', {'code': z3.Int('code'), 'bits': z3.Int('bits'), 'lanes': z3.Int('lanes')}, 'DLDataType')
        dev = N('struct', {'device_type': z3.Int('device_type'), 'device_id': z3.Int('device_id')}, 'DLDevice')
        st.pc += [dt['bits'] >= 8, dt['bits'] <= 255, dt['bits'] % 8 == 0, dt['code'] >= 0, dt['code'] <= 255]
        return dt, dev

    def facts(E, s, t, dt, dev, given=None):
        sh, sr, off, nd = own(E, s, t)
        out = [('rank', nd == n)]
        out += vec_is('shape', sh, n, lambda d: A[d])
        out += vec_is('strides', sr, n, (lambda d: given[d]) if given is not None else (lambda d: suf.f(d + 1)))
        out += vec_is('offsets', off, n, lambda d: IV(0))
        out += [('element-type', z3.And(same_tree(E, t['dtype'], dt))), ('device', z3.And(same_tree(E, t['device'], dev))), ('byte-offset', t['byte_offset'] == 0)]
        for f, w in (('shape', '_shape_ownership'), ('strides', '_strides_ownership')):
            out.append(('owns-' + f, z3.BoolVal(t[f].loc.path[-1:] == (w,) and t[f].loc.cell == W['cell'])))
        p = t['data']
        fresh = not p.null and p.loc is not None and p.loc.cell in getattr(E, 'fresh_buffers', []) and len(E.fresh_buffers) == 1
        out.append(('storage-of-its-own', z3.BoolVal(fresh)))
        out.append(('storage-is-owned', same_ptr(t['data'], t['_data_ownership'])))
        if fresh:
            out.append(('storage-size', E.read(s, p.loc)['size'] == suf.f(0) * (dt['bits'] / 8)))
            out.append(('storage-start', p.idx == 0))
        return out

    def throws(E, s):
        dt = getattr(E, 'rc', None)
        dev = z3.Int('device_type')
        return [('only-allocation-or-device', z3.Or(dev != 1, dt != 0) if dt is not None else dev != 1)]

    def loop(stride_of):
        def inv(E, nd, st, ordn):
            def f(c):
                i, stride = c['i'], c['stride']
                out = [('range', z3.And(i >= 0, i <= n)), ('stride', Q([], lambda: stride == suf.f(n - i), use=lambda: suf.defs(n - i, n - i - 1)))]
                t = c.E.read(c.st, c.st.frames[-1].this)
                t = t['_tensor'] if '_tensor' in t.f else t
                sh, sr = c.E.read(c.st, t['shape'].loc), c.E.read(c.st, t['strides'].loc)
                out.append(('lengths', z3.And(sh['len'] == n, sr['len'] == n)))
                out.append(('shape', Q(['d'], lambda d: z3.Implies(z3.And(d >= 0, d < n), sh['data'][d] == A[d]), pats=lambda d: sh['data'][d])))
                lo = (lambda d: z3.And(d >= 0, d < n)) if stride_of == 'all' else (lambda d: z3.And(d >= n - i, d < n))
                out.append(('strides', Q(['d'], lambda d: z3.Implies(lo(d), sr['data'][d] == suf.f(d + 1)), pats=lambda d: sr['data'][d], use=lambda d: suf.defs(n - i, n - i - 1))))
                return out
            return f
        return inv

    def b_tensor(explicit):
        def build(E, st, F):
            dt, dev = args(E, st)
            T = z3.Array('given_strides', I, I)
            this = E.newcell(st, E.default('bland::detail::blandDLTensor'))
            W['cell'] = this.cell
            sv = gvec(n, T) if explicit else gvec(IV(0), T)
            if explicit:
                st.pc.append(n >= 1)
            return {'this': this, 'args': [E.newcell(st, gvec(n, A)), dt, dev, sv], 'throws': throws,
                    'post': lambda E, s, r: facts(E, s, tensor(E, s, this), dt, dev, T if explicit else None)}
        return build
    K = r'blandDLTensor::ctor\(&const std::vector'
    for ex in (False, True):
        S.function('bland::detail::blandDLTensor::ctor', b_tensor(ex), sig=K, name='blandDLTensor(shape%s)' % (', strides' if ex else ''),
                   loops={'match': loop('part')}, contracts=contracts(), opts=OPTS)

    # ---- ndarray(shape, type, device)
    def b_ndarray(E, st, F):
        dt, dev = args(E, st)
        this = E.newcell(st, E.default('bland::ndarray'))
        W['cell'] = this.cell
        return {'this': this, 'args': [gvec(n, A), dt, dev], 'throws': throws, 'post': lambda E, s, r: facts(E, s, tensor(E, s, this), dt, dev)}

    def both(E, nd, st, ordn):
        fr = st.frames[-1]
        if fr.this is None:
            return None
        t = E.read(st, fr.this)
        return loop('all' if '_tensor' in t.f else 'part')(E, nd, st, ordn)
    S.function('bland::ndarray::ctor', b_ndarray, sig=r'^bland::ndarray::ctor\(std::vector', name='ndarray(shape)', loops={'match': both}, contracts=contracts(), opts=OPTS)

    # ---- ndarray(shape, value, type, device): fill is asked to fill this very array with the given value
    def c_fill(E, st, e):
        def f(s, vs):
            a, v = vs
            s.frames[0].env['filled'] = E.newcell(s, N('struct', {'a': tensor(E, s, settle(E, s, a)), 'v': v}, 'fill'))
            E.assumptions.add('contract of fill: every element of the array becomes the value converted to the element type, nothing else changes (proved under P07)')
            return [(s, None)]
        return E.bind(E.eval_args(E.ptypes_of(e['fn']), e['a'], st), f)
    for t in ('float', 'int', 'unsigned char', 'unsigned int'):
        def b_val(E, st, F, t=t):
            dt, dev = args(E, st)
            this = E.newcell(st, E.default('bland::ndarray'))
            W['cell'] = this.cell
            v = z3.Const('initial', M.esort(t))

            def post(E, s, r):
                out = facts(E, s, tensor(E, s, this), dt, dev)
                if 'filled' not in s.frames[0].env:
                    return out + [('filled', z3.BoolVal(False))]
                q = E.read(s, s.frames[0].env['filled'])
                a, me = q['a'], tensor(E, s, this)
                sh, sr, off, nd = own(E, s, a)
                out += [('filled.value', q['v'] == v), ('filled.storage', same_ptr(a['data'], me['data'])), ('filled.rank', nd == n), ('filled.type', z3.And(same_tree(E, a['dtype'], dt) + same_tree(E, a['device'], dev)))]
                out += vec_is('filled.shape', sh, n, lambda d: A[d]) + vec_is('filled.strides', sr, n, lambda d: suf.f(d + 1)) + vec_is('filled.offsets', off, n, lambda d: IV(0))
                return out
            return {'this': this, 'args': [gvec(n, A), v, dt, dev], 'throws': throws, 'post': post}
        S.function('bland::ndarray::ctor', b_val, sig=r'ctor<%s,' % t, name='ndarray(shape, %s)' % t, loops={'match': both},
                   contracts=dict(contracts(), **{'bland::fill': c_fill}), opts=OPTS)

    for nm, one in (('zeros', 0), ('ones', 1)):
        def b_const(E, st, F, one=one):
            dt, dev = args(E, st)

            def post(E, s, r):
                r = settle(E, s, r)
                W['cell'] = r.cell
                me = tensor(E, s, r)
                out = facts(E, s, me, dt, dev)
                if 'filled' not in s.frames[0].env:
                    return out + [('filled', z3.BoolVal(False))]
                q = E.read(s, s.frames[0].env['filled'])
                sh, sr, off, nd = own(E, s, q['a'])
                return out + [('filled.value', q['v'] == one), ('filled.storage', same_ptr(q['a']['data'], me['data'])), ('filled.rank', nd == n), ('filled.type', z3.And(same_tree(E, q['a']['dtype'], dt)))] + \
                    vec_is('filled.shape', sh, n, lambda d: A[d]) + vec_is('filled.strides', sr, n, lambda d: suf.f(d + 1)) + vec_is('filled.offsets', off, n, lambda d: IV(0))
            return {'args': [gvec(n, A), dt, dev], 'throws': throws, 'post': post}
        S.function('bland::' + nm, b_const, loops={'match': both}, contracts=dict(contracts(), **{'bland::fill': c_fill}), opts=OPTS)

    # ---- what an array reports
    T, O = z3.Array('strides', I, I), z3.Array('offsets', I, I)

    def reader(f, extra=None):
        def build(E, st, F):
            M.install(E, st)
            st.pc += pre_shape(A, n) + [suf.whole()]
            data = Ptr(E.newcell(st, N('buf', {'size': z3.Int('size'), 'data': z3.Const('content', z3.ArraySort(I, R))})), IV(0))
            this = mk(E, st, n, A, T, O, data)
            k = z3.Int('axis')
            a = []
            if extra == 'axis':
                st.pc += [k >= 0]
                a = [k]
            before = E.read(st, this)
            return {'this': this, 'args': a, 'throws': (lambda E, s: [('axis', k >= n)]) if extra == 'axis' else None,
                    'post': lambda E, s, r: f(E, s, r, before['_tensor'], k) + [('unchanged', z3.And(same_tree(E, E.read(s, this), before)))]}
        return build
    nd = 'bland::ndarray::'
    rd = {'shape': (lambda E, s, r, t, k: vec_is('shape', r, n, lambda d: A[d])),
          'strides': (lambda E, s, r, t, k: vec_is('strides', r, n, lambda d: T[d])),
          'offsets': (lambda E, s, r, t, k: vec_is('offsets', r, n, lambda d: O[d])),
          'ndim': (lambda E, s, r, t, k: [('rank', r == n)]),
          'numel': (lambda E, s, r, t, k: [('product', r == suf.f(0))]),
          'size': (lambda E, s, r, t, k: [('extent', r == A[k])]),
          'dtype': (lambda E, s, r, t, k: [('type', z3.And(same_tree(E, t['dtype'], r)))]),
          'device': (lambda E, s, r, t, k: [('device', z3.And(same_tree(E, t['device'], r)))])}
    for m, f in rd.items():
        S.function(nd + m, reader(f, 'axis' if m == 'size' else None), opts=OPTS)

    # ---- copies share storage and own their shape
    def b_copy(E, st, F):
        M.install(E, st)
        st.pc += pre_shape(A, n)
        data = Ptr(E.newcell(st, N('buf', {'size': z3.Int('size'), 'data': z3.Const('content', z3.ArraySort(I, R))})), IV(0))
        src = mk(E, st, n, A, T, O, data)
        src = src.fld('_tensor')
        before = E.read(st, src)
        this = E.newcell(st, E.default('bland::detail::blandDLTensor'))

        def post(E, s, r):
            t = E.read(s, this)
            sh, sr, off, rk = own(E, s, t)
            out = [('rank', rk == n)] + vec_is('shape', sh, n, lambda d: A[d]) + vec_is('strides', sr, n, lambda d: T[d]) + vec_is('offsets', off, n, lambda d: O[d])
            out += [('shares-storage', z3.And(same_ptr(t['data'], data), same_ptr(t['_data_ownership'], data))), ('element-type', z3.And(same_tree(E, t['dtype'], before['dtype']))),
                    ('device', z3.And(same_tree(E, t['device'], before['device']))), ('byte-offset', t['byte_offset'] == before['byte_offset']),
                    ('owns-shape', z3.BoolVal(t['shape'].loc.cell == this.cell and t['strides'].loc.cell == this.cell)),
                    ('source-unchanged', z3.And(same_tree(E, E.read(s, src), before)))]
            return out
        return {'this': this, 'args': [src], 'post': post}
    S.function('bland::detail::blandDLTensor::ctor', b_copy, sig=r'ctor\(&const bland', name='blandDLTensor(copy)', opts=OPTS)
    S.function('bland::detail::blandDLTensor::operator=', b_copy, name='blandDLTensor=', opts=OPTS)


# ------------------------------------------------------------------ P02
def addr_def(f, O, T, X, k):
    return [f(0) == 0, z3.Implies(k >= 0, f(k + 1) == f(k) + O[k] + X(k) * T[k])]


def slice_facts(n, A, T, O, dim, start, end, step):
    """specification of one slice: normalised bounds, rejection, offsets/extents/strides of the result"""
    s = z3.If(start < 0, start + A[dim], start)
    e = z3.If(end < 0, end + A[dim], z3.If(end > A[dim], A[dim], end))
    rejected = z3.Or(s < 0, s > A[dim], e < s)
    return s, e, rejected


def verify_slice(S):
    n, dim, start, end, step = z3.Ints('rank dim start end step')
    A, T, O = [z3.Array(x, I, I) for x in ('shape', 'strides', 'offsets')]

    def world(E, st, elem=R):
        M.install(E, st)
        st.pc += pre_shape(A, n) + [n >= 1]
        data = Ptr(E.newcell(st, N('buf', {'size': z3.Int('size'), 'data': z3.Const('content', z3.ArraySort(I, elem))})), IV(0))
        return mk(E, st, n, A, T, O, data), data

    # ---- one dimension
    def b_slice(E, st, F):
        a, data = world(E, st)
        st.pc += [dim >= 0, dim < n, step >= 1, start > -2 ** 31, start < 2 ** 31, end > -2 ** 31]
        before = E.read(st, a)
        s0, e0, rej = slice_facts(n, A, T, O, dim, start, end, step)

        def post(E, s, r):
            r = settle(E, s, r)
            t = tensor(E, s, r)
            sh, sr, off, rk = own(E, s, t)
            cnt = sh['data'][dim]
            out = [('rank', rk == n), ('accepted', z3.Not(rej)), ('length', z3.And(sh['len'] == n, sr['len'] == n, off['len'] == n)),
                   ('extent', z3.And(cnt >= 0, cnt * step >= e0 - s0, z3.Or(cnt == 0, (cnt - 1) * step < e0 - s0))),
                   ('offset', off['data'][dim] == O[dim] + s0 * T[dim]), ('stride', sr['data'][dim] == T[dim] * step),
                   ('other-dimensions', Q(['d'], lambda d: z3.Implies(z3.And(d >= 0, d < n, d != dim), z3.And(sh['data'][d] == A[d], sr['data'][d] == T[d], off['data'][d] == O[d])), pats=lambda d: sh['data'][d])),
                   ('same-storage', z3.And(same_ptr(t['data'], data), same_ptr(t['_data_ownership'], data))), ('element-type', z3.And(same_tree(E, t['dtype'], before['_tensor']['dtype']))),
                   ('device', z3.And(same_tree(E, t['device'], before['_tensor']['device']))),
                   ('owns-shape', z3.BoolVal(t['shape'].loc.cell == r.cell and t['strides'].loc.cell == r.cell)),
                   ('source-unchanged', z3.And(same_tree(E, E.read(s, a), before)))]
            return out
        return {'args': [a, dim, start, end, step], 'post': post, 'throws': lambda E, s: [('only-outside', rej), ('source-unchanged', z3.And(same_tree(E, E.read(s, a), before)))]}
    S.function('bland::slice', b_slice, sig=r'slice\(&const bland::ndarray,long', name='slice(dim, start, end, step)', opts=OPTS)

    # ---- element x of the slice is element x with x[dim] replaced by start + x[dim]*step, inside the source
    X = z3.Function('x', I, I)
    Y = lambda k: z3.If(k == dim, s_ + X(k) * step, X(k))
    s_, e_, cnt = z3.Ints('first last count')
    T2 = z3.Store(T, dim, T[dim] * step)
    O2 = z3.Store(O, dim, O[dim] + s_ * T[dim])
    fa, fb, k = z3.Function('address', I, I), z3.Function('address_of_source_element', I, I), z3.Int('k')
    lem(S, 'slice-element-address.base', addr_def(fa, O2, T2, X, IV(0)) + addr_def(fb, O, T, Y, IV(0)), fa(0) == fb(0))
    x = z3.Int('xd')
    lem(S, 'slice-element-address.product', [], (s_ + x * step) * T[dim] == s_ * T[dim] + x * (T[dim] * step))
    lem(S, 'slice-element-address.step', [k >= 0, fa(k) == fb(k), z3.Implies(k == dim, (s_ + X(k) * step) * T[dim] == s_ * T[dim] + X(k) * (T[dim] * step))] + addr_def(fa, O2, T2, X, k) + addr_def(fb, O, T, Y, k), fa(k + 1) == fb(k + 1))
    ext = [step >= 1, s_ >= 0, s_ <= e_, e_ <= A[dim], cnt >= 0, cnt * step >= e_ - s_, z3.Or(cnt == 0, (cnt - 1) * step < e_ - s_)]
    lem(S, 'slice-element-inside', ext + [x >= 0, x < cnt, z3.Implies(x <= cnt - 1, x * step <= (cnt - 1) * step)], s_ + x * step < e_)
    lem(S, 'slice-element-complete', ext + [x >= 0, s_ + x * step < e_, z3.Implies(x >= cnt, x * step >= cnt * step)], x < cnt)
    y, z = z3.Ints('y z')
    lem(S, 'product-monotone', [y <= z, step >= 1], y * step <= z * step)

    # ---- moving an array to the device it is on
    def b_to(E, st, F):
        a, data = world(E, st)
        before = E.read(st, a)
        return {'args': [E.relative(before, a), before['_tensor']['device']], 'post': lambda E, s, r: same_array(E, s, r, data, before)}

    def same_array(E, s, r, data, before):
        r = settle(E, s, r)
        t = tensor(E, s, r)
        sh, sr, off, rk = own(E, s, t)
        return [('same-array', z3.And(sh['data'] == A, sr['data'] == T, off['data'] == O, rk == n, same_ptr(t['data'], data), same_ptr(t['_data_ownership'], data))),
                ('owns-shape', z3.BoolVal(t['shape'].loc.cell == r.cell and t['strides'].loc.cell == r.cell)),
                ('type', z3.And(same_tree(E, t['dtype'], before['_tensor']['dtype']) + same_tree(E, t['device'], before['_tensor']['device'])))]
    S.function('bland::to', b_to, sig=r'ndarray,DLDevice', name='to(same device)', opts=OPTS)

    # ---- several specifications: applied one after the other, each to the previous result
    def c_slice(E, st, e):
        def f(s, vs):
            src = vs[0]
            t = tensor(E, s, src if isinstance(src, Loc) else settle(E, s, src))
            sh, sr, off, rk = own(E, s, t)
            log = s.frames[0].env
            i = len([k for k in log if str(k).startswith('slice:')])
            log['slice:%d' % i] = E.newcell(s, N('struct', {'sh': sh['data'], 'sr': sr['data'], 'off': off['data'], 'rk': rk, 'p': t['data'], 'own': t['_data_ownership'],
                                                            'dim': vs[1], 'start': vs[2], 'end': vs[3], 'step': vs[4], 'dt': t['dtype'], 'dev': t['device']}, 'call'))
            out = mk(E, s, rk, *[z3.Const('%s_%d' % (x, i), z3.ArraySort(I, I)) for x in ('shape', 'strides', 'offsets')], t['data'], name='bland::ndarray_slice')
            v = E.read(s, out)
            v = v.set(_tensor=v['_tensor'].set(dtype=t['dtype'], device=t['device'], byte_offset=t['byte_offset']))
            E.assumptions.add('contract of slice(dim, start, end, step) (proved here)')
            return [(s, E.relative(v, out))]
        ps = ['&const bland::ndarray', 'long', 'long', 'long', 'long']
        return E.bind(E.eval_args(ps, e['a'], st), f)
    CS = {'key:bland::slice(&const bland::ndarray,long,long,long,long)': c_slice}

    def b_many(cnt, method):
        def build(E, st, F):
            a, data = world(E, st)
            sp = []
            for i in range(cnt):
                v = E.default('bland::slice_spec')
                sp.append(N('struct', {q: z3.Int('%s_%d' % (q, i)) for q in ('dim', 'start', 'end', 'stride')}, 'bland::slice_spec'))
            before = E.read(st, a)

            def post(E, s, r):
                r = settle(E, s, r)
                t = tensor(E, s, r)
                log = [E.read(s, s.frames[0].env['slice:%d' % i]) for i in range(20) if 'slice:%d' % i in s.frames[0].env]
                out = [('one-slice-per-specification', z3.BoolVal(len(log) == cnt))]
                if len(log) != cnt:
                    return out
                for i, (c, w) in enumerate(zip(log, sp)):
                    src = (A, T, O) if i == 0 else [z3.Const('%s_%d' % (x, i - 1), z3.ArraySort(I, I)) for x in ('shape', 'strides', 'offsets')]
                    out.append(('specification-%d' % i, z3.And(c['dim'] == w['dim'], c['start'] == w['start'], c['end'] == w['end'], c['step'] == w['stride'])))
                    out.append(('applied-to-previous-%d' % i, z3.And(c['sh'] == src[0], c['sr'] == src[1], c['off'] == src[2], c['rk'] == n, same_ptr(c['p'], data))))
                sh, sr, off, rk = own(E, s, t)
                last = [z3.Const('%s_%d' % (x, cnt - 1), z3.ArraySort(I, I)) for x in ('shape', 'strides', 'offsets')]
                out += [('result', z3.And(sh['data'] == last[0], sr['data'] == last[1], off['data'] == last[2], rk == n, same_ptr(t['data'], data), same_ptr(t['_data_ownership'], data))),
                        ('owns-shape', z3.BoolVal(t['shape'].loc.cell == r.cell and t['strides'].loc.cell == r.cell)),
                        ('source-unchanged', z3.And(same_tree(E, E.read(s, a), before)))]
                return out
            return {'this': a, 'args': sp, 'post': post} if method else {'args': [a] + sp, 'post': post}
        return build
    for k in sorted([k for k in S.P['functions'] if isinstance(k, str) and re.match(r'bland::(ndarray::)?slice<', k)], key=len):
        meth = k.startswith('bland::ndarray::')
        cnt = k[k.rfind('('):].count('slice_spec')
        S.function(S.P['functions'][k]['q'], b_many(cnt, meth), sig='^' + re.escape(k) + '$', name='%sslice(%d specifications)' % ('ndarray::' if meth else '', cnt), contracts=CS, opts=OPTS)

    # ---- element access
    cfun = z3.Function('address_of_index', I, I)
    Xa = z3.Array('index', I, I)
    nx = z3.Int('index_rank')
    for k in sorted(k for k in S.P['functions'] if isinstance(k, str) and re.match(r'bland::ndarray::scalarize<.*\(&const std::vector', k)):
        elem = k[k.find('<') + 1:k.find('>(')]

        def b_el(E, st, F, elem=elem):
            a, data = world(E, st, M.esort(elem))
            size = z3.Int('size')
            st.pc += [nx >= 0, nx < 2 ** 31, cfun(n) >= 0, cfun(n) < size]
            before = E.read(st, a)
            return {'this': a, 'args': [E.newcell(st, gvec(nx, Xa))],
                    'post': lambda E, s, r: [('rank-matches', nx == n), ('element', r == z3.Select(z3.Const('content', z3.ArraySort(I, M.esort(elem))), cfun(n))), ('source-unchanged', z3.And(same_tree(E, E.read(s, a), before)))],
                    'throws': lambda E, s: [('only-wrong-rank', nx != n)]}

        def inv(c):
            d, lo = c['dim'], c['linear_offset']
            return [('range', z3.And(d >= 0, d <= n)), ('offset', Q([], lambda: lo == cfun(d), use=lambda: addr_def(cfun, O, T, lambda q: Xa[q], d - 1)))]
        S.function('bland::ndarray::scalarize', b_el, sig='^' + re.escape(k) + '$', name='scalarize<%s>(index)' % elem, loops={0: inv}, opts=OPTS)

    def c_to(E, st, e):
        def f(s, vs):
            E.assumptions.add('an array on the processor moved to "cpu" is the array itself (bland::to on equal devices is proved here, the name under P12; arrays on a numbered processor device are excluded)')
            return [(s, vs[0])]
        return E.bind(E.eval_args(E.ptypes_of(e['fn']), e['a'], st), f)

    def c_sc(E, st, e, ol):
        def f(s, vs):
            v = E.read(s, vs[0]) if isinstance(vs[0], Loc) else vs[0]
            t = tensor(E, s, ol)
            sh, sr, off, rk = own(E, s, t)
            E.called_sc = True
            E.oblige(s, 'index-of-single-element', z3.And(v['len'] == rk), e['ln'])
            j = z3.Int(E.fresh_name('j'))
            E.oblige(s, 'index-zero', z3.Implies(z3.And(j >= 0, j < rk), v['data'][j] == 0), e['ln'])
            E.oblige(s, 'same-array', z3.And(sh['data'] == A, sr['data'] == T, off['data'] == O, rk == n, same_ptr(t['data'], E.data0)), e['ln'])
            return [(s, z3.Const('element_zero', E.sort_of(unref_t(e['t']))))]
        return E.bind(E.eval_args(E.ptypes_of(e['fn']), e['a'], st), f)
    from dv.engine import unref as unref_t
    suf = Suffix('suf', A, n)
    for k in sorted(k for k in S.P['functions'] if isinstance(k, str) and re.match(r'bland::ndarray::scalarize<.*>\(\)', k)):
        elem = k[k.find('<') + 1:k.find('>(')]

        def b_sc(E, st, F, elem=elem):
            a, data = world(E, st, M.esort(elem))
            E.data0 = data
            before = E.read(st, a)
            numel = PRODF(A, n)
            return {'this': a, 'args': [], 'post': lambda E, s, r: [('single', numel <= 1), ('element', r == z3.Const('element_zero', M.esort(elem)))],
                    'throws': lambda E, s: [('only-several', numel > 1)]}
        C = {'bland::to': c_to, 'key:bland::ndarray::scalarize<%s>(&const std::vector<long, std::allocator<long>>)const' % elem: c_sc}
        S.function('bland::ndarray::scalarize', b_sc, sig='^' + re.escape(k) + '$', name='scalarize<%s>()' % elem, contracts=C, opts=OPTS)
    # an index of zeros denotes the element at the sum of the offsets
    so = lambda k: SUMF(O, k)
    k = z3.Int('k')
    lem(S, 'single-element.base', addr_def(cfun, O, T, lambda q: IV(0), IV(0)) + [so(IV(0)) == 0], cfun(0) == so(IV(0)))
    lem(S, 'single-element.step', [k >= 0, cfun(k) == so(k), so(k + 1) == so(k) + O[k]] + addr_def(cfun, O, T, lambda q: IV(0), k), cfun(k + 1) == so(k + 1))


# ------------------------------------------------------------------ P03
def verify_reshape(S):
    from .odometer import Odo, contiguous_lemma, last_index_lemma
    n, m, q, u = z3.Ints('rank new_rank squeeze_axis unsqueeze_axis')
    A, T, O, Bs = [z3.Array(x, I, I) for x in ('shape', 'strides', 'offsets', 'new_shape')]
    sa, sb = Suffix('suf', A, n), Suffix('suf_new', Bs, m)
    sa.lemmas(S)

    def world(E, st):
        M.install(E, st)
        st.pc += pre_shape(A, n) + [n >= 1]
        data = Ptr(E.newcell(st, N('buf', {'size': z3.Int('size'), 'data': z3.Const('content', z3.ArraySort(I, R))})), IV(0))
        return mk(E, st, n, A, T, O, data), data

    CT, CO = z3.Array('copy_strides', I, I), z3.Array('copy_offsets', I, I)

    def c_copy(E, st, e):
        def f(s, vs):
            t = tensor(E, s, settle(E, s, vs[0]) if not isinstance(vs[0], Loc) else vs[0])
            sh, sr, off, rk = own(E, s, t)
            E.oblige(s, 'copies-the-source', z3.And(sh['data'] == A, sr['data'] == T, off['data'] == O, rk == n, same_ptr(t['data'], E.data0)), e['ln'])
            buf = E.newcell(s, N('buf', {'size': sa.f(0), 'data': z3.Const('copied', z3.ArraySort(I, R))}))
            s.frames[0].env['copy'] = buf
            d = z3.Int('d!cp')
            s.pc += [z3.ForAll([d], z3.Implies(z3.And(d >= 0, d < n), z3.And(CT[d] == sa.f(d + 1), CO[d] == 0)), patterns=[CT[d]]), SUMF(CO, n) == 0]
            out = mk(E, s, n, A, CT, CO, Ptr(buf, IV(0)))
            v = E.read(s, out)
            v = v.set(_tensor=v['_tensor'].set(dtype=t['dtype'], device=t['device']))
            E.assumptions.add('contract of copy: contiguous array in fresh storage with zero offsets, the same shape and the same element at every index (proved under P07, P01)')
            return [(s, E.relative(v, out))]
        return E.bind(E.eval_args(E.ptypes_of(e['fn']), e['a'], st), f)
    # a vector of zeros sums to zero
    k = z3.Int('k')
    lem(S, 'zero-sum.step', [k >= 0, SUMF(CO, k) == 0, SUMF(CO, k + 1) == SUMF(CO, k) + CO[k], CO[k] == 0], SUMF(CO, k + 1) == 0)

    # ---- reshape
    def b_reshape(E, st, F):
        a, data = world(E, st)
        E.data0 = data
        st.pc += pre_shape(Bs, m) + [m >= 1] + sa.defs() + sb.defs()
        before = E.read(st, a)

        def result(E, s, loc, nm):
            t = tensor(E, s, loc)
            sh, sr, off, rk = own(E, s, t)
            out = [('rank', rk == m)] + vec_is('shape', sh, m, lambda d: Bs[d]) + vec_is('strides', sr, m, lambda d: sb.f(d + 1))
            cp = s.frames[0].env.get('copy')
            out += [('offsets.length', off['len'] == m), ('offsets', Q(['d'], lambda d: z3.Implies(z3.And(d >= 0, d < m - 1), off['data'][d] == 0), pats=lambda d: off['data'][d]))]
            if cp is None:
                d = z3.Int('d!ct')
                out += [('same-storage', z3.And(same_ptr(t['data'], data), same_ptr(t['_data_ownership'], data))),
                        ('only-contiguous-arrays-are-viewed', Q(['d'], lambda d: z3.Implies(z3.And(d >= 0, d < n), z3.Or(A[d] == 1, T[d] == sa.f(d + 1))))),
                        ('start', off['data'][m - 1] == SUMF(O, n))]
            else:
                p = Ptr(cp, IV(0))
                out += [('storage-of-the-copy', z3.And(same_ptr(t['data'], p), same_ptr(t['_data_ownership'], p))), ('start', off['data'][m - 1] == 0)]
            out += [('owns-shape', z3.BoolVal(t['shape'].loc.cell == loc.cell and t['strides'].loc.cell == loc.cell)),
                    ('element-type', z3.And(same_tree(E, t['dtype'], before['_tensor']['dtype']) + same_tree(E, t['device'], before['_tensor']['device'])))]
            return [(nm + '.' + x, f) for x, f in out]

        def post(E, s, r):
            return [('same-number', PRODF(A, n) == PRODF(Bs, m))] + result(E, s, settle(E, s, r), 'result') + result(E, s, a, 'this')
        return {'this': a, 'args': [E.newcell(st, gvec(m, Bs))], 'post': post,
                'throws': lambda E, s: [('only-other-number', PRODF(A, n) != PRODF(Bs, m)), ('unchanged', z3.And(same_tree(E, E.read(s, a), before)))]}

    def inv(E, nd, st, ordn):
        def f(c):
            x = c['axis']
            if c.has('accumulated_stride'):
                acc, ns = c['accumulated_stride'], c['new_strides']
                return [('range', z3.And(x >= -1, x < m, ns['len'] == m)), ('stride', Q([], lambda: acc == sb.f(x + 1), use=lambda: sb.defs(x + 1))),
                        ('strides', Q(['d'], lambda d: z3.Implies(z3.And(d > x, d < m), ns['data'][d] == sb.f(d + 1)), pats=lambda d: ns['data'][d]))]
            es, cg = c['expected_stride'], c['contiguous']
            return [('range', z3.And(x >= -1, x < n)), ('stride', Q([], lambda: es == sa.f(x + 1), use=lambda: sa.defs(x + 1))),
                    ('contiguous', Q(['d'], lambda d: z3.Implies(z3.And(cg, d > x, d < n), z3.Or(A[d] == 1, T[d] == sa.f(d + 1))), pats=lambda d: T[d]))]
        return f
    S.function('bland::ndarray::reshape', b_reshape, loops={'match': inv}, contracts={'bland::copy': c_copy}, opts=OPTS)

    # element k in row-major order lies at the start plus k, before and after: the odometer over either shape
    for tag, Sh, rk in (('.before', A, n), ('.after', Bs, m)):
        o = Odo(tag)
        v = o.view('row' + tag, z3.Array('row_strides' + tag, I, I))
        o.lemmas(S)
        v.lemmas(S)
        contiguous_lemma(S, o, v)
    # ... also where an extent-one dimension has any stride (its index is zero)
    fa, fb = z3.Function('address', I, I), z3.Function('row_major_position', I, I)
    X = z3.Function('x', I, I)
    lem(S, 'viewed-address.base', [fa(0) == 0, fb(0) == 0, SUMF(O, IV(0)) == 0], fa(0) == SUMF(O, IV(0)) + fb(0))
    lem(S, 'viewed-address.step', [k >= 0, fa(k) == SUMF(O, k) + fb(k), fa(k + 1) == fa(k) + O[k] + X(k) * T[k], fb(k + 1) == fb(k) + X(k) * sa.f(k + 1), SUMF(O, k + 1) == SUMF(O, k) + O[k],
                                   z3.Or(A[k] == 1, T[k] == sa.f(k + 1)), X(k) >= 0, X(k) < A[k]], fa(k + 1) == SUMF(O, k + 1) + fb(k + 1))
    # the result's offsets are all in its last dimension
    lem(S, 'result-start', [m >= 1, SUMF(O, m) == SUMF(O, m - 1) + O[m - 1], SUMF(O, m - 1) == 0], SUMF(O, m) == O[m - 1])

    # ---- squeeze
    axis = z3.If(q < 0, n + q, q)

    def b_squeeze(E, st, F):
        a, data = world(E, st)
        st.pc += [n >= 2, q > -2 ** 31, q < 2 ** 31]
        before = E.read(st, a)
        src = lambda d: z3.If(d < axis, d, d + 1)
        bad = z3.Or(axis < 0, axis > n - 1, A[axis] != 1)

        def result(E, s, loc, nm):
            t = tensor(E, s, loc)
            sh, sr, off, rk = own(E, s, t)
            out = [('rank', rk == n - 1)] + vec_is('shape', sh, n - 1, lambda d: A[src(d)]) + vec_is('strides', sr, n - 1, lambda d: T[src(d)])
            out += vec_is('offsets', off, n - 1, lambda d: O[src(d)] + z3.If(d == n - 2, O[axis], IV(0)))
            out += [('same-storage', z3.And(same_ptr(t['data'], data), same_ptr(t['_data_ownership'], data))), ('owns-shape', z3.BoolVal(t['shape'].loc.cell == loc.cell and t['strides'].loc.cell == loc.cell)),
                    ('element-type', z3.And(same_tree(E, t['dtype'], before['_tensor']['dtype']) + same_tree(E, t['device'], before['_tensor']['device'])))]
            return [(nm + '.' + x, f) for x, f in out]
        return {'this': a, 'args': [q], 'post': lambda E, s, r: [('extent-one', z3.Not(bad))] + result(E, s, settle(E, s, r), 'result') + result(E, s, a, 'this'),
                'throws': lambda E, s: [('only-invalid-axis', bad), ('unchanged', z3.And(same_tree(E, E.read(s, a), before)))]}

    def inv_sq(c):
        x = c['axis']
        ln = z3.If(x > axis, x - 1, x)
        src = lambda d: z3.If(d < axis, d, d + 1)
        out = [('range', z3.And(x >= 0, x <= n))]
        for nm, V in (('new_shape', A), ('new_strides', T), ('new_offsets', O)):
            v = c[nm]
            out += [(nm + '.length', v['len'] == ln), (nm, Q(['d'], lambda d, v=v, V=V: z3.Implies(z3.And(d >= 0, d < ln), v['data'][d] == V[src(d)]), pats=lambda d, v=v: v['data'][d]))]
        return out
    S.function('bland::ndarray::squeeze', b_squeeze, loops={0: inv_sq}, opts=OPTS)
    # every element keeps its address: index of the squeezed axis is zero
    f2 = z3.Function('address_squeezed', I, I)
    ax = z3.Int('axis')
    sq = lambda k: f2(k) == z3.If(k <= ax, fa(k), fa(k + 1) - O[ax])
    srcd = lambda d: z3.If(d < ax, d, d + 1)
    defa = lambda k: fa(k + 1) == fa(k) + O[k] + X(k) * T[k]
    lem(S, 'squeezed-address.base', [f2(0) == 0, fa(0) == 0, ax >= 0], sq(IV(0)))
    lem(S, 'squeezed-address.step', [k >= 0, ax >= 0, sq(k), defa(k), defa(k + 1), X(ax) == 0, f2(k + 1) == f2(k) + O[srcd(k)] + X(srcd(k)) * T[srcd(k)]], sq(k + 1))
    lem(S, 'squeezed-address', [n >= 2, ax >= 0, ax < n, X(ax) == 0, sq(n - 2), sq(n - 1), defa(n - 1), defa(n - 2), f2(n - 1) == f2(n - 2) + O[srcd(n - 2)] + X(srcd(n - 2)) * T[srcd(n - 2)]],
        z3.If(ax == n - 1, fa(n) == f2(n - 1) + O[ax], fa(n) == f2(n - 1) + O[ax]))

    # ---- unsqueeze
    def b_unsq(E, st, F):
        a, data = world(E, st)
        st.pc += [u >= 0, u <= n, n < 64]
        before = E.read(st, a)
        val = lambda V, one: lambda d: z3.If(d < u, V[d], z3.If(d == u, IV(one), V[d - 1]))

        def result(E, s, loc, nm):
            t = tensor(E, s, loc)
            sh, sr, off, rk = own(E, s, t)
            out = [('rank', rk == n + 1)] + vec_is('shape', sh, n + 1, val(A, 1)) + vec_is('strides', sr, n + 1, lambda d: z3.If(d == u, sr['data'][d], val(T, 0)(d))) + vec_is('offsets', off, n + 1, val(O, 0))
            out += [('same-storage', z3.And(same_ptr(t['data'], data), same_ptr(t['_data_ownership'], data))), ('owns-shape', z3.BoolVal(t['shape'].loc.cell == loc.cell and t['strides'].loc.cell == loc.cell)),
                    ('element-type', z3.And(same_tree(E, t['dtype'], before['_tensor']['dtype']) + same_tree(E, t['device'], before['_tensor']['device'])))]
            return [(nm + '.' + x, f) for x, f in out]
        return {'this': a, 'args': [u], 'post': lambda E, s, r: result(E, s, settle(E, s, r), 'result') + result(E, s, a, 'this')}

    def inv_un(c):
        x, of = c['axis'], c['offset']
        out = [('range', z3.And(x >= 0, x <= n + 1, of == z3.If(x > u, IV(1), IV(0))))]
        for nm, V, one in (('new_shape', A, 1), ('new_strides', T, None), ('new_offsets', O, 0)):
            v = c[nm]

            def body(d, v=v, V=V, one=one):
                at = v['data'][d]
                return z3.Implies(z3.And(d >= 0, d < x), z3.If(d < u, at == V[d], z3.If(d == u, at == one if one is not None else z3.BoolVal(True), at == V[d - 1])))
            out += [(nm + '.length', v['len'] == x), (nm, Q(['d'], body, pats=lambda d, v=v: v['data'][d]))]
        return out
    S.function('bland::ndarray::unsqueeze', b_unsq, loops={0: inv_un}, opts=OPTS)
    us = lambda k: f2(k) == z3.If(k <= u, fa(k), fa(k - 1))
    Z = z3.Array('strides_unsqueezed', I, I)
    off2 = z3.If(k < u, O[k], z3.If(k == u, IV(0), O[k - 1]))
    str2 = z3.If(k < u, T[k], z3.If(k == u, Z[k], T[k - 1]))
    x2 = z3.If(k < u, X(k), z3.If(k == u, IV(0), X(k - 1)))
    lem(S, 'unsqueezed-address.base', [u >= 0, f2(0) == 0, fa(0) == 0], us(IV(0)))
    lem(S, 'unsqueezed-address.step', [k >= 0, u >= 0, us(k), defa(k), defa(k - 1), f2(k + 1) == f2(k) + off2 + x2 * str2], us(k + 1))

"""Client-level contracts of bland::ndarray (what callers outside bland rely on).  The internals these
contracts state are put under contract separately (specs/nd_*.py); here they are the callee contracts."""
import z3
from . import engine as G
from .engine import N, Ptr, Loc, Opq, Unsupported, IV, RV, I, R, B, coerce, concrete, tsel, tmap, unref, is_z
from .stdlib import vals_ptr

DT = {'float': (2, 32), 'double': (2, 64), 'unsigned char': (1, 8), 'unsigned short': (1, 16), 'unsigned int': (1, 32), 'unsigned long': (1, 64),
      'signed char': (0, 8), 'short': (0, 16), 'int': (0, 32), 'long': (0, 64)}
TD = {v: k for k, v in DT.items()}
# element type / device comparison are verified in place
UNIT_DT = ('bland/bland/ndarray.cpp', [r'^bland::ndarray::(datatype|dev)::operator[=!]='], [r'^bland::ndarray::ndarray'])
GLOB = {'float32': 'float', 'float64': 'double', 'uint8': 'unsigned char', 'uint16': 'unsigned short', 'uint32': 'unsigned int',
        'uint64': 'unsigned long', 'int8': 'signed char', 'int16': 'short', 'int32': 'int', 'int64': 'long'}


def dtval(elem):
    c, b = DT[elem]
    return N('struct', {'code': IV(c), 'bits': IV(b), 'lanes': IV(1)}, 'bland::ndarray::datatype')


def elem_of(dt):
    if isinstance(dt, N) and 'code' in dt.f:
        c, b = concrete(dt['code']), concrete(dt['bits'])
        if (c, b) in TD:
            return TD[(c, b)]
    raise Unsupported('element type of array not known statically: %r' % (dt,))


def devval(E, typ=1, idn=0):
    return N('struct', {'device_type': IV(typ) if isinstance(typ, int) else typ, 'device_id': IV(idn)}, 'bland::ndarray::dev')


def ivec(vals):
    d = z3.K(I, IV(0))
    for i, v in enumerate(vals):
        d = z3.Store(d, IV(i), v)
    return N('vec', {'len': IV(len(vals)), 'data': d}, 'long')


def get(vec, i):
    return z3.simplify(z3.Select(vec['data'], IV(i)))


def vals(vec):
    n = concrete(vec['len'])
    if n is None:
        raise Unsupported('array of unknown rank')
    return [get(vec, i) for i in range(n)]


def esort(elem):
    return R if elem in ('float', 'double') else I


def mk_nd(E, st, name, shape, strides=None, offsets=None, elem='float', size=None, data=None, dev=None):
    """array value with a buffer of its own"""
    if strides is None:
        strides = contiguous(shape)
    if offsets is None:
        offsets = [IV(0)] * len(shape)
    if size is None:
        size = z3.Product(shape) if len(shape) > 1 else (shape[0] if shape else IV(1))
    if data is None:
        data = z3.Const(E.fresh_name(name + '.data'), z3.ArraySort(I, esort(elem)))
    loc = E.newcell(st, N('buf', {'size': size, 'data': data}))
    return N('nd', {'shape': ivec(shape), 'strides': ivec(strides), 'offsets': ivec(offsets), 'p': Ptr(loc, IV(0)),
                    'dt': dtval(elem), 'dev': dev if dev is not None else devval(E)}, elem)


def contiguous(shape):
    out, acc = [], IV(1)
    for s in reversed(shape):
        out.insert(0, z3.simplify(acc))
        acc = acc * s
    return out


def is_contig(nd):
    sh, st, off = vals(nd['shape']), vals(nd['strides']), vals(nd['offsets'])
    want = contiguous(sh)
    return all(z3.eq(z3.simplify(a - b), IV(0)) for a, b in zip(st, want)) and all(concrete(o) == 0 for o in off)


def buf(E, st, nd):
    return E.read(st, nd['p'].loc)


def need_contig(nd, what):
    if not is_contig(nd):
        raise Unsupported('%s on an array not known to be contiguous' % what)


# ---------------------------------------------------------------- contracts
def _obj(E, st, ol):
    v = E.read(st, ol)
    if not (isinstance(v, N) and v.kind == 'nd'):
        raise Unsupported('array method on %r' % (v,))
    return v


def field(name):
    def h(E, st, e, ol):
        return [(st, _obj(E, st, ol)[name])]
    return h


def m_size(E, st, e, ol):
    nd = _obj(E, st, ol)
    if not e['a']:
        return [(st, IV(1) if False else z3.simplify(nd['shape']['len']))]

    def f(s, v):
        n = concrete(nd['shape']['len'])
        E.oblige(s, 'dimension-in-range', z3.And(v >= 0, v < nd['shape']['len']), e['ln'], 'safety')
        return [(s, z3.simplify(z3.Select(nd['shape']['data'], v)))]
    return E.bind(E.rval(e['a'][0], st), f)


def m_numel(E, st, e, ol):
    nd = _obj(E, st, ol)
    sh = vals(nd['shape'])
    return [(st, z3.Product(sh) if len(sh) > 1 else (sh[0] if sh else IV(1)))]


def m_ptr(E, st, e, ol):
    nd = _obj(E, st, ol)
    t = unref(e['ta'][0]) if e.get('ta') else None
    if t and t != nd.meta and t != 'void':
        E.oblige(st, 'typed-access-matches-element-type', z3.BoolVal(False), e['ln'], 'safety')
    return [(st, nd['p'])]


def c_nd(E, st, e):
    """construction: copy shares storage; a shape makes a fresh buffer nobody else holds"""
    if not e['a']:
        return [(st, N('nd', {'shape': ivec([]), 'strides': ivec([]), 'offsets': ivec([]), 'p': Ptr(None, None, True),
                              'dt': dtval('float'), 'dev': devval(E)}, 'none'))]

    def f(s, vs):
        vs = [E.read(s, v) if isinstance(v, Loc) else v for v in vs]
        v0 = vs[0]
        if isinstance(v0, N) and v0.kind == 'nd':
            return [(s, v0)]
        if isinstance(v0, Opq):
            return [(s, v0)]
        if not (isinstance(v0, N) and v0.kind == 'vec'):
            raise Unsupported('array construction from %r' % (v0,))
        sh = vals(v0)
        val, elem, dev = None, None, None
        for v in vs[1:]:
            if is_z(v):
                val = v
            elif isinstance(v, N) and 'code' in v.f:
                elem = elem_of(v)
            elif isinstance(v, N) and 'device_type' in v.f:
                dev = v
        if elem is None:
            elem = 'float'
        nd = mk_nd(E, s, 'new', sh, elem=elem, dev=dev)
        for x in sh:
            E.oblige(s, 'extent-nonnegative', x >= 0, e['ln'], 'safety')
        if val is not None:
            b = buf(E, s, nd)
            E.write(s, nd['p'].loc, b.set(data=z3.K(I, coerce(val, esort(elem)))))
        E.assumptions.add('contract of array construction: contiguous, zero offsets, fresh storage, filled with the given value (checked under P01)')
        return [(s, nd)]
    return E.bind(E.eval_args(E.ptypes_of(e['fn']), e['a'], st), f)


def c_fill(E, st, e):
    def f(s, vs):
        nd, v = [E.read(s, x) if isinstance(x, Loc) else x for x in vs[:2]]
        need_contig(nd, 'fill')
        b = buf(E, s, nd)
        E.write(s, nd['p'].loc, b.set(data=z3.K(I, coerce(v, esort(nd.meta)))))
        E.assumptions.add('contract of fill: sets every element of the view and nothing else (checked under P07)')
        return [(s, None)]
    return E.bind(E.eval_args(E.ptypes_of(e['fn']), e['a'], st), f)


def m_scalar_op(op):
    def h(E, st, e, ol):
        nd = _obj(E, st, ol)

        def f(s, vs):
            v = E.read(s, vs[0]) if isinstance(vs[0], Loc) else vs[0]
            if not is_z(v):
                raise Unsupported('array-array operator')
            need_contig(nd, 'operator' + op)
            d = buf(E, s, nd)['data']
            k = z3.Int('k!op')
            a, b = z3.Select(d, k), coerce(v, esort(nd.meta))
            if op == '/':
                E.oblige(s, 'division-by-zero', b != 0, e['ln'], 'safety')
            r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b if nd.meta in ('float', 'double') else G.tdiv(a, b)}[op]()
            out = mk_nd(E, s, 'res', vals(nd['shape']), elem=nd.meta, data=z3.Lambda([k], r))
            E.assumptions.add('contract of array-scalar arithmetic: elementwise, fresh result (checked under P05)')
            return [(s, out)]
        return E.bind(E.eval_args(E.ptypes_of(e['fn']), e['a'], st), f)
    return h


def identity_ctor(E, st, e):
    if not e['a']:
        return None
    return E.bind(vals_ptr(E, e['a'], st), lambda s, vs: [(s, vs[0])])


def install(E, st):
    fr = st.frames[0]
    for g, el in GLOB.items():
        fr.env['glob:bland::ndarray::datatype::' + g] = E.newcell(st, dtval(el))
    fr.env['glob:bland::ndarray::dev::cpu'] = E.newcell(st, devval(E))
    fr.env['glob:bland::default_device'] = E.newcell(st, devval(E))


def contracts():
    nd = 'bland::ndarray::'
    C = {nd + 'shape': field('shape'), nd + 'strides': field('strides'), nd + 'offsets': field('offsets'), nd + 'dtype': field('dt'),
         nd + 'device': field('dev'), nd + 'size': m_size, nd + 'numel': m_numel, nd + 'data_ptr': m_ptr,
         nd + 'ndim': lambda E, st, e, ol: [(st, _obj(E, st, ol)['shape']['len'])],
         'ctor:bland::ndarray': c_nd, 'ctor:bland::ndarray_deferred': identity_ctor, 'ctor:bland::ndarray_slice': identity_ctor,
         'bland::fill': c_fill,
         'default:bland::ndarray': lambda E, t: N('nd', {'shape': ivec([]), 'strides': ivec([]), 'offsets': ivec([]), 'p': Ptr(None, None, True), 'dt': dtval('float'), 'dev': devval(E)}, 'none'),
         'default:bland::ndarray_deferred': lambda E, t: N('nd', {'shape': ivec([]), 'strides': ivec([]), 'offsets': ivec([]), 'p': Ptr(None, None, True), 'dt': dtval('float'), 'dev': devval(E)}, 'none'),
         'default:bland::ndarray::dev': lambda E, t: devval(E), 'default:DLDevice': lambda E, t: devval(E),
         }
    for op in '+-*/':
        C[nd + 'operator' + op] = m_scalar_op(op)
    for t in ('bland::ndarray::dev', 'bland::ndarray::datatype', 'DLDevice', 'DLDataType'):
        C['ctor:' + t] = identity_ctor
    return C

"""filterbank files (bliss/file_types/h5_filterbank_file.cpp): attributes of every stored type, shape of the data, regions

The HDF5 library by contract: an attribute has a stored type and a value; reading converts to the memory type given,
which has to be the type of the object read into."""
import z3
from dv.session import Q
from dv.engine import IV, RV, I, R, B, N, Ptr, Loc, Opq, Unsupported, INT_RANGES, coerce, concrete, is_z
from dv import stdlib
from . import levels
from .levels import rd

H5 = 'bliss::h5_filterbank_file'
UNITS = [('bliss/file_types/h5_filterbank_file.cpp', [r'^bliss::h5_filterbank_file::(get_data_shape|read_data|read_mask|read_data_attr|read_file_attr|ctor\(std)'], [r'^fmt::', r'^H5::', r'^bland::']),
         ('bliss/core/scan.cpp', [r'^bliss::scan::ctor\(bliss::h5_filterbank_file,'], [r'^fmt::', r'^H5::', r'^bland::', r'^bliss::h5_filterbank_file', r'^infer_number'])]
INTEGER, FLOAT, STRING = 0, 1, 3        # H5T_class_t
NATIVE = {'NATIVE_INT8': ('signed char', 1), 'NATIVE_UINT8': ('unsigned char', 2), 'NATIVE_INT16': ('short', 3), 'NATIVE_UINT16': ('unsigned short', 4), 'NATIVE_INT32': ('int', 5), 'NATIVE_UINT32': ('unsigned int', 6),
          'NATIVE_INT64': ('long', 7), 'NATIVE_UINT64': ('unsigned long', 8), 'NATIVE_FLOAT': ('float', 9), 'NATIVE_DOUBLE': ('double', 10)}
CODE = {t: c for t, c in NATIVE.values()}
HAS, TYPE, VAL = z3.Function('has_attribute', I, B), z3.Function('stored_type', I, I), z3.Function('stored_value', I, R)
CLASS, SIZE, VARSTR = z3.Function('class_of_type', I, I), z3.Function('size_of_type', I, I), z3.Function('variable_length', I, B)
BYTES = z3.Function('stored_bytes', I, z3.ArraySort(I, I))
COUNT = z3.Function('number_of_strings', I, I)          # strings of an attribute
TEXT = z3.Function('text_of', z3.ArraySort(I, I), I, I, I)      # bytes from .. to
VTEXT = z3.Function('stored_text', I, I, I)             # i-th variable length string
END = z3.Function('end_of_text', I, I, I)                # of a fixed length string: its first zero, or its end


def tr(x):
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def predefined(E, st):
    for n, (_, c) in NATIVE.items():
        st.frames[0].env['glob:H5::PredType::' + n] = E.newcell(st, N('struct', {'code': IV(c)}, 'H5::DataType'))
    for t, c in CODE.items():
        st.pc.append(CLASS(IV(c)) == (FLOAT if t in ('float', 'double') else INTEGER))


def facts(E, st, k):
    """a value stored in a native type is one of that type"""
    for t, c in CODE.items():
        if t in INT_RANGES:
            lo, hi = INT_RANGES[t]
            st.pc.append(z3.Implies(TYPE(k) == c, z3.And(VAL(k) >= lo, VAL(k) <= hi)))
    st.pc.append(z3.Implies(CLASS(TYPE(k)) == INTEGER, VAL(k) == z3.ToReal(z3.ToInt(VAL(k)))))


def pointee(a):
    while a['k'] == 'Cast':
        if not a['t'].startswith('*void'):
            break
        a = a['e']
    return a['t'].lstrip('&').replace('const ', '')[1:] if not a['t'].startswith('*const') else a['t'][1:].replace('const ', '')


def contracts():
    C = {}

    def m(f):
        return lambda E, st, e, ol: E.bind(stdlib.vals_ptr(E, e['a'], st), lambda s, vs: f(E, s, rd(E, s, ol), vs, e))
    C['H5::H5Object::attrExists'] = m(lambda E, s, o, vs, e: [(s, HAS(rd(E, s, vs[0])['id']))])

    def c_open(E, s, o, vs, e):
        k = rd(E, s, vs[0])['id']
        E.oblige(s, 'opens-an-existing-attribute', HAS(k), e['ln'], 'safety')
        return [(s, N('struct', {'key': k}, 'H5::Attribute'))]
    C['H5::H5Object::openAttribute'] = m(c_open)
    C['H5::AbstractDs::getDataType'] = m(lambda E, s, o, vs, e: [(s, N('struct', {'code': TYPE(o['key'])}, 'H5::DataType'))])
    C['H5::DataType::getClass'] = m(lambda E, s, o, vs, e: [(s, CLASS(o['code']))])
    C['H5::DataType::isVariableStr'] = m(lambda E, s, o, vs, e: [(s, VARSTR(o['code']))])
    C['H5::DataType::getSize'] = m(lambda E, s, o, vs, e: [(s, SIZE(o['code']))])

    def c_size(E, s, o, vs, e):
        k = o['key']
        c = TYPE(k)
        n = z3.If(VARSTR(c), 8 * COUNT(k), SIZE(c) * COUNT(k))
        E.assumptions.add('contract of H5::Attribute::getInMemDataSize: 8 bytes per variable length string, the length of its type per fixed length string')
        return [(s, n)]
    C['H5::Attribute::getInMemDataSize'] = m(c_size)

    def c_eq(E, st, e, ol=None):
        def f(s, vs):
            vs = ([ol] if ol is not None else []) + list(vs)
            a, b = [rd(E, s, v)['code'] for v in vs]
            return [(s, a == b if e['op'] == '==' else a != b)]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    C['H5::DataType::operator=='] = C['H5::DataType::operator!='] = c_eq

    def c_read(E, s, o, vs, e):
        k, c, p = o['key'], rd(E, s, vs[0])['code'], vs[1]
        t = pointee(e['a'][1])
        E.assumptions.add('contract of H5::Attribute::read: the value of the attribute converted to the given memory type')
        tgt = p.target() if isinstance(p, Ptr) else p
        if t in CODE and not (t in ('char', 'unsigned char', 'signed char') and isinstance(p, Ptr) and p.idx is not None):
            E.oblige(s, 'memory-type-is-that-of-the-object', c == CODE[t], e['ln'], 'safety')
            E.oblige(s, 'attribute-is-a-number', z3.Or(CLASS(TYPE(k)) == INTEGER, CLASS(TYPE(k)) == FLOAT), e['ln'], 'safety')
            if t in INT_RANGES:
                lo, hi = INT_RANGES[t]
                v = tr(VAL(k))
                E.oblige(s, 'value-fits-memory-type', z3.And(v >= lo, v <= hi), e['ln'], 'safety')
                E.write(s, tgt, v)
            else:
                E.write(s, tgt, VAL(k))
            return [(s, None)]
        E.oblige(s, 'attribute-is-text', z3.And(CLASS(TYPE(k)) == STRING, c == TYPE(k)), e['ln'], 'safety')
        if t in ('char', 'unsigned char'):
            E.oblige(s, 'text-of-fixed-length', z3.Not(VARSTR(c)), e['ln'], 'safety')
            v = E.read(s, p.loc)
            E.oblige(s, 'buffer-large-enough', v['len'] >= SIZE(c) * COUNT(k), e['ln'], 'safety')
            E.write(s, p.loc, v.set(data=BYTES(k)))
        elif t == '*char':
            E.oblige(s, 'text-of-variable-length', VARSTR(c), e['ln'], 'safety')
            if isinstance(p, Ptr) and p.idx is not None:
                v = E.read(s, p.loc)
                E.oblige(s, 'buffer-large-enough', v['len'] >= COUNT(k), e['ln'], 'safety')
                i = z3.Int('i!vt')
                n = z3.Const(E.fresh_name('texts'), z3.ArraySort(I, I))
                s.pc.append(z3.ForAll([i], n[i] == VTEXT(k, i), patterns=[n[i]]))
                E.write(s, p.loc, v.set(data=N('str', {'id': n}, None)))
            else:
                E.oblige(s, 'one-text', COUNT(k) == 1, e['ln'], 'safety')
                E.write(s, tgt, N('str', {'id': VTEXT(k, IV(0))}, None))
        else:
            raise Unsupported('attribute read into ' + t)
        return [(s, None)]
    C['H5::Attribute::read'] = m(c_read)
    C['H5free_memory'] = lambda E, st, e: [(st, IV(0))]

    def c_string(E, st, e):
        if len(e['a']) >= 2 and e['a'][0]['t'].startswith('__gnu_cxx'):
            def f(s, vs):
                a, b = vs[0], vs[1]
                v = E.read(s, a.loc)
                E.oblige(s, 'text-within-the-bytes-read', z3.And(a.idx >= 0, a.idx <= b.idx, b.idx <= v['len']), e['ln'], 'safety')
                return [(s, N('str', {'id': TEXT(v['data'], a.idx, b.idx)}, None))]
            return E.bind(stdlib.vals_ptr(E, e['a'][:2], st), f)

        def g(s, vs):
            v = rd(E, s, vs[0])
            if isinstance(v, N) and v.kind == 'str':
                return [(s, v)]
            raise Unsupported('string from ' + str(v)[:40])
        return E.bind(stdlib.vals_ptr(E, e['a'][:1], st), g) if e['a'] else [(st, E.strlit(''))]
    C['ctor:std::basic_string'] = c_string
    C['default:std::basic_string'] = lambda E, t: E.strlit('')

    def c_find(E, st, e):
        def f(s, vs):
            a, b, x = vs[0], vs[1], rd(E, s, vs[2])
            v = E.read(s, a.loc)
            E.oblige(s, 'range-within-the-bytes', z3.And(a.idx >= 0, a.idx <= b.idx, b.idx <= v['len']), e['ln'], 'safety')
            j, i = z3.Int(E.fresh_name('found')), z3.Int('i!f')
            s.pc += [j >= a.idx, j <= b.idx, z3.Implies(j < b.idx, v['data'][j] == x), z3.ForAll([i], z3.Implies(z3.And(i >= a.idx, i < j), v['data'][i] != x), patterns=[v['data'][i]])]
            E.assumptions.add('contract of std::find: the first position holding the value, or the end')
            return [(s, Ptr(a.loc, j))]
        return E.bind(stdlib.vals_ptr(E, e['a'], st), f)
    C['std::find'] = c_find
    C['fmt::format'] = C['fmt::print'] = stdlib.ignore_str
    C['ctor:fmt::basic_format_string'] = lambda E, st, e: [(st, Opq('format'))]
    return C


def end_facts(k, i):
    """a fixed length string ends at its first zero"""
    a, n = BYTES(k), SIZE(TYPE(k))
    lo, hi, e = i * n, i * n + n, END(k, i)
    x = z3.Int('x!e')
    return [e >= lo, e <= hi, z3.Implies(e < hi, a[e] == 0), z3.ForAll([x], z3.Implies(z3.And(x >= lo, x < e), a[x] != 0), patterns=[a[x]])]


def text(k, i):
    n = SIZE(TYPE(k))
    return z3.If(VARSTR(TYPE(k)), VTEXT(k, i), TEXT(BYTES(k), i * n, END(k, i)))


def verify(S):
    attributes(S)
    shape(S)
    regions(S)
    metadata(S)
    opening(S)


def attributes(S):
    C = contracts()
    name = {'signed char': 'int8', 'unsigned char': 'uint8', 'short': 'int16', 'unsigned short': 'uint16', 'int': 'int32', 'unsigned int': 'uint32', 'long': 'int64', 'unsigned long': 'uint64', 'float': 'float', 'double': 'double'}
    for t in CODE:
        def build(E, st, F, t=t):
            predefined(E, st)
            k = z3.Int('key')
            facts(E, st, k)
            number = z3.Or(CLASS(TYPE(k)) == INTEGER, CLASS(TYPE(k)) == FLOAT)
            if t in INT_RANGES:
                lo, hi = INT_RANGES[t]
                st.pc.append(z3.And(tr(VAL(k)) >= lo, tr(VAL(k)) <= hi))
            st.pc.append(z3.Implies(CLASS(TYPE(k)) == INTEGER, z3.Or(TYPE(k) == 8, VAL(k) < 2 ** 63)))
            st.pc.append(z3.Implies(CLASS(TYPE(k)) == INTEGER, VAL(k) >= -2 ** 63))
            E.assumptions.add('preconditions: the value of an attribute is representable in the type it is read as, and, in an integer type that is not a native one, in 64 bits')
            key = E.newcell(st, N('str', {'id': k}, None))
            return {'args': [key], 'this': E.newcell(st, N('struct', {'_h5_data_handle': Opq('data'), '_h5_file_handle': Opq('file')}, H5)),
                    'post': lambda E, s, r: [('value-of-the-attribute', z3.And(HAS(k), r == tr(VAL(k)) if t in INT_RANGES else coerce(r, R) == VAL(k))), ('only-numbers', number)],
                    'throws': lambda E, s: [('rejects-only-absent-and-other-kinds', z3.Or(z3.Not(HAS(k)), z3.Not(number))), ('as-invalid-argument', z3.BoolVal(s.sig[1] == 'std::invalid_argument'))]}
        S.function(H5 + '::read_data_attr', build, sig='read_data_attr<%s>' % t, contracts=C, name='attribute.' + name[t])

    def build_s(E, st, F):
        predefined(E, st)
        k = z3.Int('key')
        c = TYPE(k)
        st.pc += [z3.Implies(CLASS(c) == STRING, z3.And(COUNT(k) == 1, SIZE(c) >= 1))] + end_facts(k, IV(0))
        E.assumptions.add('precondition: a text attribute holds one string')
        return {'args': [E.newcell(st, N('str', {'id': k}, None))], 'this': E.newcell(st, N('struct', {'_h5_data_handle': Opq('data'), '_h5_file_handle': Opq('file')}, H5)),
                'post': lambda E, s, r: [('text-of-the-attribute', z3.And(HAS(k), CLASS(c) == STRING, r['id'] == text(k, IV(0))))],
                'throws': lambda E, s: [('rejects-only-absent-and-other-kinds', z3.Or(z3.Not(HAS(k)), CLASS(c) != STRING)), ('as-invalid-argument', z3.BoolVal(s.sig[1] == 'std::invalid_argument'))]}
    S.function(H5 + '::read_data_attr', build_s, sig='read_data_attr<std::basic_string', contracts=C, name='attribute.text')

    def build_v(E, st, F):
        predefined(E, st)
        k = z3.Int('key')
        c = TYPE(k)
        i = z3.Int('i!l')
        x = z3.Int('x!e')
        n = SIZE(c)
        st.pc += [COUNT(k) >= 0, COUNT(k) < 2 ** 31, n >= 1, n < 2 ** 31, z3.Implies(CLASS(c) == STRING, z3.BoolVal(True))]
        st.frames[0].env['w'] = E.newcell(st, k)

        def post(E, s, r):
            return [('as-many-texts', z3.And(HAS(k), CLASS(c) == STRING, r['len'] == COUNT(k))), ('every-text', Q(['i'], lambda i: z3.Implies(z3.And(i >= 0, i < COUNT(k)), r['data']['id'][i] == text(k, i)), pats=lambda i: r['data']['id'][i]))]
        return {'args': [E.newcell(st, N('str', {'id': k}, None))], 'this': E.newcell(st, N('struct', {'_h5_data_handle': Opq('data'), '_h5_file_handle': Opq('file')}, H5)), 'post': post,
                'throws': lambda E, s: [('rejects-only-absent-and-other-kinds', z3.Or(z3.Not(HAS(k)), CLASS(c) != STRING)), ('as-invalid-argument', z3.BoolVal(s.sig[1] == 'std::invalid_argument'))]}
    kk = z3.Int('key')

    def m_fixed(c):
        v, start, L = c['vals'], c['start'], SIZE(TYPE(kk))
        return [('position', z3.And(v['len'] >= 0, v['len'] <= COUNT(kk), start == v['len'] * L)), ('texts-so-far', Q(['i'], lambda i: z3.Implies(z3.And(i >= 0, i < v['len']), v['data']['id'][i] == text(kk, i)), pats=lambda i: v['data']['id'][i], use=lambda i: end_facts(kk, i)))]

    def m_var(c):
        v, i_ = c['vals'], c['i']
        return [('position', z3.And(i_ >= 0, i_ <= COUNT(kk), v['len'] == i_)), ('texts-so-far', Q(['i'], lambda i: z3.Implies(z3.And(i >= 0, i < v['len']), v['data']['id'][i] == text(kk, i)), pats=lambda i: v['data']['id'][i]))]
    S.function(H5 + '::read_data_attr', build_v, sig='read_data_attr<std::vector', contracts=C, loops={0: m_fixed, 1: m_var}, name='attribute.texts')


DIM, LAB = z3.Function('extent', I, I), z3.Function('label', I, I)


def shape(S):
    C = contracts()
    D, NL, NCH = z3.Ints('dimensions labels nchans')
    lab, nch = z3.Bools('has_labels has_nchans')
    names = {}

    def c_attr(E, st, e, ol):
        t = e['ta'][0]
        has = lab if t.startswith('std::vector') else nch

        def f(s, vs):
            want = 'DIMENSION_LABELS' if t.startswith('std::vector') else 'nchans'
            E.oblige(s, 'reads-the-attribute-meant', rd(E, s, vs[0])['id'] == E.strlit(want)['id'], e['ln'])
            bad = s.fork()
            bad.pc.append(z3.Not(has))
            bad.sig = ('throw', 'std::invalid_argument')
            s.pc.append(has)
            E.assumptions.add('contract of read_data_attr: the value of the attribute, or std::invalid_argument (verified in this check)')
            if t.startswith('std::vector'):
                n = z3.Const(E.fresh_name('labels'), z3.ArraySort(I, I))
                i = z3.Int('i!lb')
                s.pc.append(z3.ForAll([i], n[i] == LAB(i), patterns=[n[i]]))
                return [(s, N('vec', {'len': NL, 'data': N('str', {'id': n}, None)}, 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>')), (bad, None)]
            return [(s, NCH), (bad, None)]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    C[H5 + '::read_data_attr'] = c_attr
    space(C, D)
    C['std::tuple::operator='] = levels.assign

    def c_out(E, st, e, ol=None):      # diagnostics
        rest = e['a'] if e['q'].startswith('std::basic_ostream') else e['a'][1:]
        if e['q'].startswith('std::basic_ostream'):
            rest = [a for a in rest if 'ostream' not in a['t']]
        return E.bind(stdlib.vals_any(E, rest, st), lambda s, vs: [(s, Opq('stream'))])
    C['std::operator<<'] = C['std::basic_ostream::operator<<'] = c_out

    def lit(E, x):
        return E.strlit(x)['id']

    def build(E, st, F):
        names['E'] = E
        i = z3.Int('i!d')
        st.pc += [D >= 0, D <= 32, NL >= 0, NL < 2 ** 31, z3.ForAll([i], z3.And(DIM(i) >= 0, DIM(i) < 2 ** 62), patterns=[DIM(i)])]
        E.assumptions.add('preconditions: at most 32 dimensions (a limit of HDF5) of fewer than 2^62 elements')
        is_ = lambda i, n: LAB(i) == lit(E, n)

        def first(i, n):
            j = z3.Int('j!f')
            return z3.And(i >= 0, i < D, is_(i, n), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), z3.Not(is_(j, n))), patterns=[LAB(j)]))

        def post(E, s, r):
            # the first dimension of each name, named by the invariants of the loop
            t, f, q = [names['loop'][n] for n in ('time', 'feed_id', 'frequency')]
            swap = z3.And(DIM(t) == NCH, DIM(q) != NCH)
            d = r['data']
            return [('one-label-per-dimension', z3.And(lab, nch, NL == D)), ('three-extents', r['len'] == 3),
                    ('first-of-each-name', z3.And(first(t, 'time'), first(f, 'feed_id'), first(q, 'frequency'))),
                    ('time-feed-frequency', z3.And(d[0] == z3.If(swap, DIM(q), DIM(t)), d[1] == DIM(f), d[2] == z3.If(swap, DIM(t), DIM(q)))), ('one-feed', d[1] == 1),
                    ('other-dimensions-of-size-one', Q(['i'], lambda i: z3.Implies(z3.And(i >= 0, i < D, i != t, i != f, i != q), DIM(i) == 1), pats=lambda i: DIM(i)))]

        def thrown(E, s):
            x, j = z3.Int('x'), z3.Int('j')
            none = lambda n: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < D), z3.Not(is_(j, n))), patterns=[LAB(j)])
            known = lambda i: z3.Or(first(i, 'time'), first(i, 'feed_id'), first(i, 'frequency'))
            why = z3.Or(z3.Not(lab), z3.Not(nch), NL != D, none('time'), none('feed_id'), none('frequency'))
            o = z3.Int('o')
            why = z3.Or(why, z3.Exists([o], z3.And(o >= 0, o < D, DIM(o) != 1, z3.Or(z3.Not(known(o)), first(o, 'feed_id'))), patterns=[DIM(o)]))
            return [('rejects-only-unsuitable', why), ('as-invalid-argument', z3.BoolVal(s.sig[1] == 'std::invalid_argument'))]
        return {'args': [], 'this': E.newcell(st, N('struct', {'_h5_data_handle': Opq('data'), '_h5_file_handle': Opq('file')}, H5)), 'post': post, 'throws': thrown}

    def loop(c):
        E, i = names['E'], c['ii']
        out = [('range', z3.And(i >= 0, i <= D))]
        names['loop'] = {}
        idx = []
        for v, n in (('time_steps', 'time'), ('feed_id', 'feed_id'), ('freq_bins', 'frequency')):
            t = c[v]
            ext, ok, at = t['0'], t['1'], t['2']
            names['loop'][n] = at
            idx.append((ok, at))
            out += [(n + '-found', z3.Implies(ok, z3.And(at >= 0, at < i, LAB(at) == lit(E, n), ext == DIM(at)))),
                    (n + '-not-before', Q(['j'], lambda j, ok=ok, at=at, n=n: z3.Implies(z3.And(j >= 0, j < z3.If(ok, at, i)), LAB(j) != lit(E, n)), pats=lambda j: LAB(j)))]
            if n == 'feed_id':
                out.append(('one-feed', z3.Implies(ok, ext == 1)))
        out.append(('others-of-size-one', Q(['j'], lambda j: z3.Implies(z3.And([j >= 0, j < i] + [z3.Or(z3.Not(ok), j != at) for ok, at in idx]), DIM(j) == 1), pats=lambda j: DIM(j))))
        return out
    S.function(H5 + '::get_data_shape', build, contracts=C, loops={0: loop}, name='shape')


def space(C, D):
    C['H5::DataSet::getSpace'] = lambda E, st, e, ol: [(st, N('struct', {'of': IV(0)}, 'H5::DataSpace'))]
    C['H5::DataSpace::getSimpleExtentNdims'] = lambda E, st, e, ol: [(st, D)]
    C['ctor:H5::DataSpace'] = levels.ctor

    def c_dims(E, st, e, ol):
        def f(s, vs):
            p = vs[0]
            v = E.read(s, p.loc)
            E.oblige(s, 'buffer-large-enough', v['len'] >= D, e['ln'], 'safety')
            n = z3.Const(E.fresh_name('extents'), z3.ArraySort(I, I))
            i = z3.Int('i!e')
            s.pc.append(z3.ForAll([i], n[i] == DIM(i), patterns=[n[i]]))
            E.write(s, p.loc, v.set(data=n))
            return [(s, D)]
        return E.bind(stdlib.vals_ptr(E, e['a'], st), f)
    C['H5::DataSpace::getSimpleExtentDims'] = c_dims


ND = 'bland::ndarray'


def vec3(n):
    d = z3.K(I, IV(0))
    for i, v in enumerate(n):
        d = z3.Store(d, IV(i), v)
    return N('vec', {'len': IV(len(n)), 'data': d}, 'long')


def regions(S):
    """read_data and read_mask: exactly the region asked for, each dimension beyond the three selected whole"""
    C = contracts()
    D = z3.Int('dimensions')
    space(C, D)
    ok = z3.Bool('suitable')
    OFF, CNT = [z3.Int('offset%d' % i) for i in range(3)], [z3.Int('count%d' % i) for i in range(3)]

    def c_shape(E, st, e, ol):
        bad = st.fork()
        bad.pc.append(z3.Not(ok))
        bad.sig = ('throw', 'std::invalid_argument')
        st.pc.append(ok)
        E.assumptions.add('contract of get_data_shape: the extents in time, feed and frequency, or std::invalid_argument (verified in this check)')
        return [(st, vec3([DIM(0), DIM(1), DIM(2)])), (bad, None)]
    C[H5 + '::get_data_shape'] = c_shape

    def c_select(E, st, e, ol):
        def f(s, vs):
            op, cnt, off, stride, block = (list(vs) + [None] * 5)[:5]
            E.oblige(s, 'selection-replaces', op == 0, e['ln'])
            for n, x in (('stride', stride), ('block', block)):
                if x is not None:
                    E.oblige(s, 'no-' + n, x.null if isinstance(x, Ptr) and not isinstance(x.null, bool) else z3.BoolVal(bool(isinstance(x, Ptr) and x.null)), e['ln'])
            i = z3.Int('i!h')
            c, o = E.read(s, cnt.loc), E.read(s, off.loc)
            E.oblige(s, 'one-coordinate-per-dimension', z3.And(c['len'] >= D, o['len'] >= D), e['ln'], 'safety')
            E.oblige(s, 'selection-within-the-data', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < D), z3.And(o['data'][i] >= 0, c['data'][i] >= 0, o['data'][i] + c['data'][i] <= DIM(i))), patterns=[DIM(i)]), e['ln'], 'safety')
            v = E.read(s, ol)
            E.write(s, ol, v.set(of=IV(1), off=o['data'], cnt=c['data']))
            return [(s, None)]
        return E.bind(stdlib.vals_ptr(E, e['a'], st), f)
    C['H5::DataSpace::selectHyperslab'] = c_select

    def c_space_ctor(E, st, e):
        if len(e['a']) < 2:
            return levels.ctor(E, st, e)

        def f(s, vs):
            n, p = vs[0], vs[1]
            v = E.read(s, p.loc)
            E.oblige(s, 'extents-of-every-dimension', v['len'] >= n, e['ln'], 'safety')
            return [(s, N('struct', {'rank': n, 'dims': v['data']}, 'H5::DataSpace'))]
        return E.bind(stdlib.vals_ptr(E, e['a'], st), f)
    C['ctor:H5::DataSpace'] = c_space_ctor

    def c_array(E, st, e):
        if not e['a']:
            return [(st, array(vec3([]), IV(0), IV(0)))]
        if len(e['a']) == 1:
            return levels.ctor(E, st, e)

        def f(s, vs):
            sh, dt, dv = [rd(E, s, v) for v in vs]
            E.assumptions.add('contract of bland::ndarray(shape, type, device): an array of that shape, type and device (P05)')
            return [(s, array(sh, dt['code'] * 100 + dt['bits'], dv['device_type']))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)

    def array(sh, t, dv, filled=IV(0)):
        z = z3.K(I, IV(-1))
        return N('struct', {'shape': sh, 'type': t, 'on': dv, 'filled': filled, 'off': z, 'cnt': z}, ND)
    C['ctor:' + ND] = c_array
    C['default:' + ND] = lambda E, t: array(vec3([]), IV(0), IV(0))
    for n in ('::datatype', '::dev'):
        C['ctor:' + ND + n] = levels.ctor
    C['ctor:DLDataType'] = C['ctor:DLDevice'] = levels.ctor
    C[ND + '::operator='] = levels.assign

    def globals_(E, st):
        for n, (c, b) in (('float32', (2, 32)), ('float64', (2, 64)), ('uint8', (1, 8)), ('uint16', (1, 16)), ('uint32', (1, 32)), ('int8', (0, 8)), ('int32', (0, 32)), ('int64', (0, 64))):
            st.frames[0].env['glob:bland::ndarray::datatype::' + n] = E.newcell(st, N('struct', {'code': IV(c), 'bits': IV(b), 'lanes': IV(1)}, 'DLDataType'))
        for n, d in (('cpu', 1), ('cuda', 2), ('cuda_managed', 13)):
            st.frames[0].env['glob:bland::ndarray::dev::' + n] = E.newcell(st, N('struct', {'device_type': IV(d), 'device_id': IV(0)}, 'DLDevice'))
        st.frames[0].env['glob:H5::DSetMemXferPropList::DEFAULT'] = E.newcell(st, N('struct', {'id': IV(0)}, 'H5::DSetMemXferPropList'))
        st.frames[0].env['glob:H5::DataSpace::ALL'] = E.newcell(st, N('struct', {'of': IV(-1)}, 'H5::DataSpace'))

    def c_ptr(E, st, e, ol):
        t = e['t'].lstrip('*').replace('const ', '')
        v = rd(E, st, ol)
        E.oblige(st, 'pointer-of-the-element-type', v['type'] == {'float': 232, 'unsigned char': 108}.get(t, 0), e['ln'], 'safety')
        return [(st, Ptr(ol))]
    C[ND + '::data_ptr'] = c_ptr

    def rank(E, s, sh, e):
        n = concrete(sh['len'])
        if n is None:
            E.oblige(s, 'three-dimensions', sh['len'] == 3, e['ln'])
            n = 3
        return n

    def c_read(E, st, e, ol):
        def f(s, vs):
            p, t, mem, sp = vs[0], rd(E, s, vs[1]), rd(E, s, vs[2]), rd(E, s, vs[3])
            a = E.read(s, p.loc)
            E.oblige(s, 'memory-type-is-that-of-the-array', z3.Or(z3.And(t['code'] == 9, a['type'] == 232), z3.And(t['code'] == 2, a['type'] == 108)), e['ln'], 'safety')
            if 'dims' not in mem.f or 'off' not in sp.f:
                raise Unsupported('whole dataset read')
            sh, i = a['shape'], z3.Int('i!m')
            E.oblige(s, 'memory-of-the-shape-of-the-array', z3.And(mem['rank'] == sh['len'], z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < sh['len']), mem['dims'][i] == sh['data'][i]), patterns=[mem['dims'][i]])), e['ln'], 'safety')
            n = rank(E, s, sh, e)
            E.oblige(s, 'selection-has-the-elements-of-the-array', z3.And([sp['cnt'][j] == sh['data'][j] for j in range(n)] + [D >= n, z3.ForAll([i], z3.Implies(z3.And(i >= n, i < D), sp['cnt'][i] == 1), patterns=[DIM(i)])]), e['ln'], 'safety')
            E.write(s, p.loc, a.set(filled=IV(1), off=sp['off'], cnt=sp['cnt']))
            E.assumptions.add('contract of H5::DataSet::read: the selected elements in row-major order, converted to the memory type')
            return [(s, None)]
        return E.bind(stdlib.vals_ptr(E, e['a'][:4], st), f)
    C['H5::DataSet::read'] = c_read

    def c_squeeze(E, st, e, ol):
        def f(s, vs):
            a = rd(E, s, ol)
            sh, ax = a['shape'], concrete(vs[0])
            n = rank(E, s, sh, e)
            if ax is None or not 0 <= ax < n:
                raise Unsupported('squeeze of axis %s' % (vs[0],))
            E.oblige(s, 'squeezed-extent-is-one', sh['data'][ax] == 1, e['ln'], 'safety')
            E.assumptions.add('contract of bland::ndarray::squeeze: the same elements without that axis (P05)')
            return [(s, a.set(shape=vec3([sh['data'][j] for j in range(n) if j != ax])))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    C[ND + '::squeeze'] = c_squeeze

    def c_zeros(E, st, e):
        def f(s, vs):
            sh, dt, dv = [rd(E, s, v) for v in vs]
            E.assumptions.add('contract of bland::zeros: an array of zeros of that shape, type and device (P05)')
            return [(s, array(sh, dt['code'] * 100 + dt['bits'], dv['device_type'], IV(2)))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    C['bland::zeros'] = c_zeros

    def given(has, xs):
        return vec3(xs if has else [])

    def build(mask, has_off, has_cnt):
        def b(E, st, F):
            predefined(E, st)
            globals_(E, st)
            i = z3.Int('i!d')
            st.pc += [D >= 3, D <= 32, DIM(1) == 1] + [z3.And(DIM(j) >= 1, DIM(j) < 2 ** 40) for j in (0, 1, 2)]
            st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= 3, i < D), DIM(i) == 1), patterns=[DIM(i)]))
            off = OFF if has_off else [IV(0)] * 3
            cnt = CNT if has_cnt else [DIM(j) - off[j] for j in range(3)]
            st.pc += [z3.And(off[j] >= 0, cnt[j] >= 1, off[j] + cnt[j] <= DIM(j)) for j in range(3)]
            E.assumptions.add('preconditions: data of time x feed x frequency with further dimensions of size one last; the region asked for is not empty and lies within it')

            def post(E, s, r):
                r = rd(E, s, r)
                n = concrete(r['shape']['len'])
                d = r['shape']['data']
                out = [('two-dimensions', z3.BoolVal(n == 2)), ('extents-of-the-region', z3.And(d[0] == cnt[0], d[1] == cnt[2])), ('on-the-host', r['on'] == 1)]
                if mask:
                    return out + [('zeros', r['filled'] == 2), ('mask-type', r['type'] == 108)]
                return out + [('read-from-the-file', r['filled'] == 1), ('single-precision', r['type'] == 232)] + [('offset-%d' % j, r['off'][j] == off[j]) for j in range(3)] + [('count-%d' % j, r['cnt'][j] == cnt[j]) for j in range(3)] + \
                    [('further-dimensions-from-their-start', Q(['i'], lambda i: z3.Implies(z3.And(i >= 3, i < D), z3.And(r['off'][i] == 0, r['cnt'][i] == 1)), pats=lambda i: DIM(i)))]
            return {'args': [given(has_off, OFF), given(has_cnt, CNT)], 'this': E.newcell(st, N('struct', {'_h5_data_handle': Opq('data'), '_h5_file_handle': Opq('file'), '_h5_mask_handle': Opq('mask')}, H5)), 'post': post,
                    'throws': lambda E, s: [('rejects-only-unsuitable-files', z3.Not(ok)), ('as-invalid-argument', z3.BoolVal(s.sig[1] == 'std::invalid_argument'))]}
        return b
    for has_off in (False, True):
        def m_loop(c):
            d, dim = c['count']['data'], c['dim']
            return [('range', z3.And(dim >= 0, dim <= (3 if has_off else 0), c['count']['len'] == 3))] + [('extent-%d' % j, d[j] == DIM(j) - z3.If(dim > j, OFF[j], IV(0))) for j in range(3)]
        for has_cnt in (False, True):
            n = ('from-an-offset' if has_off else 'from-the-start') + ('.count' if has_cnt else '.rest')
            S.function(H5 + '::read_data', build(False, has_off, has_cnt), contracts=C, name='region.' + n)
            S.function(H5 + '::read_mask', build(True, has_off, has_cnt), contracts=C, loops={'match': lambda E, n, st, ordn: m_loop}, name='mask.' + n)


def metadata(S):
    """a scan opened from a file carries what the file states"""
    SC = 'bliss::scan'
    C = contracts()
    per = z3.Int('channels_per_coarse')
    suited = z3.Bool('suitable')
    COARSE, FINE = [z3.Function(n, I, R, R, I) for n in ('inferred_coarse', 'inferred_fine')]
    REAL, INT, TXT = ['fch1', 'foff', 'src_dej', 'src_raj', 'tsamp', 'tstart', 'az_start', 'za_start'], ['machine_id', 'telescope_id', 'data_type', 'nbits', 'nchans', 'nifs'], ['source_name']
    REQUIRED = ['fch1', 'foff', 'source_name', 'src_dej', 'src_raj', 'telescope_id', 'tsamp', 'tstart']
    has = {n: z3.Bool('has_' + n) for n in REAL + INT + TXT}
    val = {n: (z3.Real if n in REAL else z3.Int)('file_' + n) for n in has}

    def c_attr(E, st, e, ol):
        t = e['ta'][0]

        def f(s, vs):
            k = rd(E, s, vs[0])['id']
            n = [x for x in has if z3.eq(z3.simplify(k), z3.simplify(E.strlit(x)['id']))]
            if len(n) != 1:
                raise Unsupported('attribute of unknown name')
            n = n[0]
            kind = 'text' if t.startswith('std::basic_string') else 'real' if t in ('double', 'float') else 'int'
            if (kind == 'text') != (n in TXT):
                raise Unsupported('attribute %s as %s' % (n, t))
            bad = s.fork()
            bad.pc.append(z3.Not(has[n]))
            bad.sig = ('throw', 'std::invalid_argument')
            s.pc.append(has[n])
            v = val[n]
            if kind == 'text':
                v = N('str', {'id': v}, None)
            elif kind == 'real' and t == 'float':
                v = E.fresh('float', 'rounded')
            elif kind == 'real':
                v = coerce(v, R)
            else:
                lo, hi = INT_RANGES[t]
                v = tr(v) if v.sort() == R else v
                E.oblige(s, 'value-fits-the-type-requested', z3.And(v >= lo, v <= hi), e['ln'], 'safety')
            E.assumptions.add('contract of read_data_attr: the value of the attribute, or std::invalid_argument (verified in this check)')
            return [(s, v), (bad, None)]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    C[H5 + '::read_data_attr'] = c_attr

    def c_shape(E, st, e, ol):
        bad = st.fork()
        bad.pc.append(z3.Not(suited))
        bad.sig = ('throw', 'std::invalid_argument')
        st.pc.append(suited)
        E.assumptions.add('contract of get_data_shape: the extents in time, feed and frequency, or std::invalid_argument (verified in this check)')
        return [(st, vec3([DIM(0), DIM(1), DIM(2)])), (bad, None)]
    C[H5 + '::get_data_shape'] = c_shape

    def c_infer(E, st, e):
        def f(s, vs):
            E.assumptions.add('contract of infer_number_coarse_channels: a function of its arguments (P31)')
            return [(s, N('struct', {'0': COARSE(*vs), '1': FINE(*vs)}, 'std::tuple<int, int>'))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)
    C['infer_number_coarse_channels'] = c_infer
    C['ctor:' + H5] = levels.ctor
    C['std::make_shared'] = C['std::make_unique'] = lambda E, st, e: E.bind(stdlib.vals_any(E, e['a'], st), lambda s, vs: [(s, Ptr(E.newcell(s, rd(E, s, vs[0]))))])
    C['std::shared_ptr::operator='] = levels.assign
    C['std::tie'] = lambda E, st, e: E.bind(lvals(E, e['a'], st), lambda s, ls: [(s, N('tie', {}, ls))])

    def lvals(E, es, st):
        sts = [(st, [])]
        for a in es:
            sts = [(s2, vs + [l]) for s, vs in sts for s2, l in E.lval(a, s)]
        return sts

    def c_tie(E, st, e, ol=None):
        def g(s, vs):
            t, v = (ol, vs[0]) if ol is not None else vs
            t, v = rd(E, s, t), rd(E, s, v)
            for j, l in enumerate(t.meta):
                E.write(s, l, v[str(j)])
            return [(s, None)]
        return E.bind(stdlib.vals_any(E, e['a'], st), g)
    C['std::tuple::operator='] = c_tie
    C['std::map::operator='] = C['std::vector::operator='] = levels.assign
    C['ctor:' + ND + '::dev'] = C['ctor:DLDevice'] = levels.ctor
    for n in ('map', 'vector'):
        C['ctor:std::' + n] = lambda E, st, e: levels.ctor(E, st, e) or [(st, N('struct', {'none': IV(0)}, 'container'))]

    def build(E, st, F):
        predefined(E, st)
        E.C['fresh:' + ND] = E.C['fresh:std::map'] = E.C['fresh:std::vector'] = lambda E, t, n, lift=0: Opq(n)
        E.C['fresh:std::shared_ptr'] = lambda E, t, n, lift=0: Ptr(None, None, True)
        st.frames[0].env['glob:bland::ndarray::dev::cpu'] = E.newcell(st, N('struct', {'device_type': IV(1), 'device_id': IV(0)}, 'DLDevice'))
        sc = E.fresh(SC, 'uninitialised')
        st.pc += [per >= 0, per < 2 ** 31, DIM(0) >= 0, DIM(0) < 2 ** 31, DIM(1) == 1, val['nchans'] >= 1, val['nchans'] < 2 ** 31] + [z3.And(val[n] >= -2 ** 63, val[n] < 2 ** 63) for n in INT]
        E.assumptions.add('preconditions: fewer than 2^31 fine channels, and as many time steps')
        fb = E.newcell(st, N('struct', {'file': z3.Int('file')}, H5))
        inferred = per == 0
        n = val['nchans']
        argsi = (n, val['foff'] * 1000000, val['tsamp'])

        def post(E, s, r):
            o = E.read(s, this)
            out = [(x + '-of-the-file', o['_' + x] == val[x]) for x in ('fch1', 'foff', 'tsamp', 'tstart', 'nchans')]
            out += [('required-attributes', z3.And([has[x] for x in REQUIRED])), ('source-name', o['_source_name']['id'] == val['source_name'])]
            for x in ('src_dej', 'src_raj', 'telescope_id'):
                out.append((x + '-of-the-file', z3.And(o['_' + x]['has'], o['_' + x]['val'] == val[x])))
            for x in ('machine_id', 'az_start', 'za_start'):
                out.append((x + '-only-if-stated', z3.And(o['_' + x]['has'] == has[x], z3.Implies(has[x], o['_' + x]['val'] == val[x]))))
            for x, d in (('data_type', IV(1)), ('nbits', IV(32)), ('nifs', DIM(1))):
                out.append((x + '-or-its-default', o['_' + x] == z3.If(has[x], val[x], d)))
            out += [('time-steps', o['_ntsteps'] == DIM(0)), ('duration', o['_tduration_secs'] == z3.ToReal(DIM(0)) * val['tsamp']),
                    ('coarse-channels', o['_num_coarse_channels'] == z3.If(inferred, COARSE(*argsi), n / z3.If(inferred, IV(1), per))),
                    ('fine-channels', o['_fine_channels_per_coarse'] == z3.If(inferred, FINE(*argsi), per)), ('from-the-first-channel', o['_coarse_channel_offset'] == 0),
                    ('reads-from-this-file', rd(E, s, o['_h5_file_handle'].target())['file'] == z3.Int('file') if isinstance(o['_h5_file_handle'], Ptr) and o['_h5_file_handle'].loc is not None else z3.BoolVal(False))]
            return out
        this = E.newcell(st, sc)
        st.pc.append(has['nchans'])
        E.assumptions.add('precondition: the file states nchans (required by get_data_shape)')
        return {'args': [fb, per], 'this': this, 'post': post,
                'throws': lambda E, s: [('rejects-only-unsuitable', z3.Or([z3.Not(has[x]) for x in REQUIRED] + [z3.Not(suited)])), ('as-invalid-argument', z3.BoolVal(s.sig[1] == 'std::invalid_argument'))]}
    S.function(SC + '::ctor', build, sig=r'\(bliss::h5_filterbank_file,', contracts=C, name='scan')


# ------------------------------------------------------------------ opening a file
def opening(S):
    """the file is opened for reading, its samples are the dataset named data, its mask the dataset named mask if there is one"""
    EXISTS = z3.Function('has_dataset', I, I, B)       # file, name
    USABLE = z3.Function('can_be_opened', I, I, B)     # file, name
    path = z3.Int('path')
    FILE = z3.Bool('file_can_be_opened')

    def throw(s, q, cond):
        bad = s.fork()
        bad.pc.append(cond)
        bad.sig = ('throw', q)
        return bad

    def c_file(E, st, e):
        if not e['a']:
            return [(st, N('struct', {'file': IV(-1), 'flags': IV(-1)}, 'H5::H5File'))]

        def f(s, vs):
            v = rd(E, s, vs[0])
            if isinstance(v, N) and 'file' in v.f:
                return [(s, v)]
            bad = throw(s, 'H5::FileIException', z3.Not(FILE))
            s.pc.append(FILE)
            E.assumptions.add('contract of the HDF5 library: files and datasets of a name are opened, or an exception is thrown')
            return [(s, N('struct', {'file': v['id'], 'flags': rd(E, s, vs[1])}, 'H5::H5File')), (bad, None)]
        return E.bind(stdlib.vals_any(E, e['a'][:2], st), f)

    def c_dataset(E, st, e, ol):
        def f(s, vs):
            fl, nm = rd(E, s, ol), rd(E, s, vs[0])
            ok = z3.And(EXISTS(fl['file'], nm['id']), USABLE(fl['file'], nm['id']))
            bad = throw(s, 'H5::FileIException', z3.Not(ok))
            s.pc.append(ok)
            return [(s, N('struct', {'file': fl['file'], 'name': nm['id']}, 'H5::DataSet')), (bad, None)]
        return E.bind(stdlib.vals_any(E, e['a'][:1], st), f)

    def c_exists(E, st, e):
        def f(s, vs):
            x = EXISTS(rd(E, s, vs[0]), rd(E, s, vs[1])['id'])
            return [(s, z3.If(x, IV(1), IV(0)))]
        return E.bind(stdlib.vals_any(E, e['a'][:2], st), f)

    def c_attr(E, st, e, ol):
        bad = throw(st, 'std::invalid_argument', z3.Bool(E.fresh_name('no_attribute')))
        return [(st, E.fresh('std::basic_string<char>', 'attribute')), (bad, None)]
    blank = N('struct', {'file': IV(-1), 'name': IV(-1)}, 'H5::DataSet')
    text = lambda E, st, e, ol=None: [(st, E.fresh('std::basic_string<char>', 'text'))]
    bit = lambda E, st, e, ol=None: [(st, z3.Bool(E.fresh_name('condition')))]
    num = lambda E, st, e: [(st, z3.Int(E.fresh_name('number')))]

    def c_size(E, st, e):
        def f(s, vs):
            k = z3.Int(E.fresh_name('number_of_plugin_paths'))
            s.pc += [k >= 0, k < 2 ** 16]
            p = vs[0]
            if isinstance(p, Ptr) and p.loc is not None:
                E.write(s, p.loc, k)
            return [(s, IV(0))]
        return E.bind(stdlib.vals_ptr(E, e['a'][:1], st), f)

    def c_get(E, st, e):
        k = z3.Int(E.fresh_name('length_of_plugin_path'))
        st.pc += [k >= 0, k < 2 ** 16]
        return [(st, k)]
    same = lambda E, st, e, ol: [(st, E.read(st, ol))]
    C = {'ctor:H5::H5File': c_file, 'default:H5::H5File': lambda E, t: N('struct', {'file': IV(-1), 'flags': IV(-1)}, 'H5::H5File'), 'H5::H5File::operator=': levels.assign,
         'ctor:H5::DataSet': lambda E, st, e: levels.ctor(E, st, e) or [(st, blank)], 'default:H5::DataSet': lambda E, t: blank, 'fresh:H5::DataSet': lambda E, t, n, lift=0: blank, 'H5::DataSet::operator=': levels.assign,
         'H5::H5Location::openDataSet': c_dataset, 'H5::H5File::getId': lambda E, st, e, ol: [(st, rd(E, st, ol)['file'])], 'H5Lexists': c_exists, H5 + '::read_file_attr': c_attr,
         'H5PLsize': c_size, 'H5PLget': c_get, 'H5check_version': num, 'H5open': num, 'fmt::print': stdlib.ignore_str, 'fmt::format': stdlib.ignore_str, 'std::any_of': bit, 'std::operator!=': bit, 'std::operator==': bit,
         'std::basic_string_view::data': same, 'std::basic_string::data': lambda E, st, e, ol: [(st, Opq('characters'))], 'std::basic_string::resize': lambda E, st, e, ol: [(st, None)],
         'std::basic_string::operator+=': lambda E, st, e, ol: [(st, ol)], 'H5::FileIException::ctor': None, 'ctor:H5::FileIException': lambda E, st, e: [(st, Opq('exception'))]}
    C.pop('H5::FileIException::ctor')

    def build(E, st, F):
        this = E.newcell(st, N('struct', {'_h5_file_handle': N('struct', {'file': IV(-1), 'flags': IV(-1)}, 'H5::H5File'), '_h5_data_handle': blank, '_h5_mask_handle': N('opt', {'has': z3.BoolVal(False), 'val': blank}, 'H5::DataSet')}, H5))
        data, mask = E.strlit('data')['id'], E.strlit('mask')['id']
        readable = z3.And(FILE, EXISTS(path, data), USABLE(path, data))

        def post(E, s, r):
            v = E.read(s, this)
            d, m = v['_h5_data_handle'], v['_h5_mask_handle']
            return [('only-a-file-with-data', readable), ('the-file-at-the-path-for-reading', z3.And(v['_h5_file_handle']['file'] == path, v['_h5_file_handle']['flags'] == 0)),
                    ('its-samples', z3.And(d['file'] == path, d['name'] == data)),
                    ('a-mask-if-there-is-one', m['has'] == z3.And(EXISTS(path, mask), USABLE(path, mask))),
                    ('its-mask', z3.Implies(m['has'], z3.And(m['val']['file'] == path, m['val']['name'] == mask)))]
        return {'this': this, 'args': [N('str', {'id': path})], 'post': post, 'throws': lambda E, s: [('only-an-unusable-file', z3.And(z3.BoolVal(s.sig[1] == 'H5::FileIException'), z3.Not(readable)))]}
    S.function(H5 + '::ctor', build, sig='basic_string_view', contracts=C, loops={'match': lambda E, n, st, ordn: (lambda c: [])}, name='open')

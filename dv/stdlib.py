"""Assumed contracts on the C++ standard library (part of the trusted base)."""
import string
import z3
from . import engine as G
from .engine import (N, Ptr, Loc, Clo, Opq, Unsupported, IV, RV, I, R, B, coerce, concrete, tsel, tstore, tmap,
                     split_targs, unref, uncv, isref, SUMF, PRODF, SQRT, uf, round_, floor_, ceil_, absr, is_z, same_loc)


def opname(q):
    i = q.rfind('operator')
    return q[i + 8:].strip() if i >= 0 else q.split('::')[-1]


# ------------------------------------------------------------------ vectors / lists (sequences)
def seq_method(E, st, e, ol):
    q = e['q']
    m = opname(q) if 'operator' in q else q.split('::')[-1]
    if isinstance(ol, Opq):
        return [(st, Opq('seq'))]
    v = E.read(st, ol)
    if isinstance(v, Opq):
        raise Unsupported('method %s of opaque %s' % (q, v.tag))
    et = v.meta
    A = e['a']
    if m == 'size':
        return [(st, v['len'])]
    if m == 'empty':
        return [(st, v['len'] == 0)]
    if m in ('[]', 'at'):
        def f(s, i):
            loc = Loc(ol.cell, ol.path + (coerce(i, I),))
            if m == 'at':
                E.oblige(s, 'vector-at-in-range', z3.And(i >= 0, i < v['len']), e['ln'], 'safety')
            return [(s, loc)]
        return E.bind(E.rval(A[0], st), f)
    if m in ('front', 'back'):
        i = IV(0) if m == 'front' else v['len'] - 1
        E.oblige(st, 'nonempty-' + m, v['len'] > 0, e['ln'], 'safety')
        return [(st, Loc(ol.cell, ol.path + (i,)))]
    if m in ('begin', 'cbegin'):
        return [(st, Ptr(ol, IV(0)))]
    if m in ('end', 'cend'):
        return [(st, Ptr(ol, v['len']))]
    if m == 'data':
        return [(st, Ptr(ol, IV(0)))]
    if m in ('reserve', 'shrink_to_fit'):
        return [(s, None) for s, _ in E.rvals(A, st)]
    if m == 'clear':
        E.write(st, ol, v.set(len=IV(0)))
        return [(st, None)]
    if m in ('push_back', 'emplace_back', 'push'):
        base = split_targs(unref(et))[0]
        if m == 'emplace_back' and len(A) > 1 and 'ctor:' + base in E.C:
            def g(s, val):      # an element constructed in place from several arguments
                v = E.read(s, ol)
                E.write(s, ol, v.set(len=v['len'] + 1, data=tstore(v['data'], v['len'], E.adapt(val, et))))
                return [(s, Loc(ol.cell, ol.path + (v['len'],)))]
            return E.bind(E.C['ctor:' + base](E, st, dict(e, k='Ctor', t=unref(et), q=base + '::ctor')), g)

        def f(s, vals):
            v = E.read(s, ol)
            if m == 'emplace_back' and (len(vals) != 1 or False):
                base = split_targs(unref(et))[0]
                fs = E.all_fields(unref(et))
                if fs and len(fs) == len(vals):
                    val = N('struct', {n: E.adapt(x, t) for (n, t, _), x in zip(fs, vals)}, unref(et))
                elif not vals:
                    val = E.default(et, True)
                else:
                    raise Unsupported('emplace_back args')
            else:
                val = vals[0]
            if isinstance(val, Loc):
                val = E.read(s, val)
            nd = tstore(v['data'], v['len'], E.adapt(val, et))
            E.write(s, ol, v.set(len=v['len'] + 1, data=nd))
            return [(s, Loc(ol.cell, ol.path + (v['len'],)))]
        # class arguments may be lvalues
        return E.bind(vals_any(E, A, st), f)
    if m == 'pop_back':
        E.oblige(st, 'nonempty-pop_back', v['len'] > 0, e['ln'], 'safety')
        E.write(st, ol, v.set(len=v['len'] - 1))
        return [(st, None)]
    if m == '=':
        def f(s, vals):
            val = vals[0]
            if isinstance(val, Loc):
                val = E.read(s, val)
            E.write(s, ol, val)
            return [(s, ol)]
        return E.bind(vals_any(E, A, st), f)
    if m == 'erase':
        def f(s, vals):
            v = E.read(s, ol)
            p = vals[0]
            if len(vals) == 1:
                E.oblige(s, 'erase-valid-iterator', z3.And(p.idx >= 0, p.idx < v['len']), e['ln'], 'safety')
                nd = tmap(lambda a: shift_out(a, p.idx, 1) if is_z(a) else a, v['data'])
                E.write(s, ol, v.set(len=v['len'] - 1, data=nd))
                return [(s, Ptr(ol, p.idx))]
            b, en = vals
            nd = tmap(lambda a: shift_out(a, b.idx, en.idx - b.idx) if is_z(a) else a, v['data'])
            E.write(s, ol, v.set(len=v['len'] - (en.idx - b.idx), data=nd))
            return [(s, Ptr(ol, b.idx))]
        return E.bind(E.rvals(A, st), f)
    if m == 'insert':
        def f(s, vals):
            v = E.read(s, ol)
            if len(vals) == 3 and all(isinstance(x, Ptr) for x in vals):
                p, b, en = vals
                src = E.read(s, b.loc)
                n = en.idx - b.idx
                nd = tmap(lambda a, c: insert_range(a, p.idx, c, b.idx, n) if is_z(a) else a, v['data'], src['data'])
                E.write(s, ol, v.set(len=v['len'] + n, data=nd))
                return [(s, Ptr(ol, p.idx))]
            if len(vals) == 2 and isinstance(vals[0], Ptr):
                p, val = vals
                if isinstance(val, Loc):
                    val = E.read(s, val)
                one = tmap(lambda l: z3.K(I, l) if is_z(l) else l, val)
                nd = tmap(lambda a, c: insert_range(a, p.idx, c, IV(0), IV(1)) if is_z(a) else a, v['data'], one)
                E.write(s, ol, v.set(len=v['len'] + 1, data=nd))
                return [(s, Ptr(ol, p.idx))]
            raise Unsupported('insert form')
        return E.bind(vals_any(E, A, st), f)
    if m == 'resize':
        def f(s, vals):
            v = E.read(s, ol)
            val = vals[1] if len(vals) > 1 else E.default(et, True)
            if isinstance(val, Loc):
                val = E.read(s, val)
            old = v['len']
            j = z3.Int('j!rs')
            nd = tmap(lambda a, x: z3.Lambda([j], z3.If(j < old, z3.Select(a, j), x)) if is_z(a) else a, v['data'], val)
            E.write(s, ol, v.set(len=vals[0], data=nd))
            return [(s, None)]
        return E.bind(vals_any(E, A, st), f)
    if m == 'splice':
        def f(s, vals):
            v = E.read(s, ol)
            p, ol2 = vals[0], vals[1]
            src = E.read(s, ol2)
            nd = tmap(lambda a, c: insert_range(a, p.idx, c, IV(0), src['len']) if is_z(a) else a, v['data'], src['data'])
            E.write(s, ol, v.set(len=v['len'] + src['len'], data=nd))
            E.write(s, ol2, src.set(len=IV(0)))
            return [(s, None)]
        return E.bind(vals_any(E, A, st), f)
    raise Unsupported('sequence method ' + q)


def shift_out(a, at, n):
    j = z3.Int('j!so')
    return z3.Lambda([j], z3.If(j < at, z3.Select(a, j), z3.Select(a, j + n)))


def insert_range(a, at, c, b, n):
    j = z3.Int('j!ins')
    return z3.Lambda([j], z3.If(j < at, z3.Select(a, j), z3.If(j < at + n, z3.Select(c, b + j - at), z3.Select(a, j - n))))


def vals_any(E, A, st):
    res = [(st, [])]
    for a in A:
        res = E.bind(res, lambda s, vs, a=a: [(s2, vs + [v]) for s2, v in (E.lval(a, s) if a.get('lv') or a['k'] == 'MatTemp' else E.rval(a, s))])
    return E.bind(res, lambda s, vs: [(s, [E.read(s, v) if isinstance(v, Loc) and not _is_obj(E, s, v) else v for v in vs])])


def _is_obj(E, s, v):
    x = E.read(s, v)
    return isinstance(x, N)


for nm in ('std::vector', 'std::list', 'std::deque', 'std::array', 'std::initializer_list'):
    G.METHODS_PRE.append((nm + '::', seq_method))
G.METHODS_PRE.append(('std::_List_base::', seq_method))


def queue_method(E, st, e, ol):
    m = e['q'].split('::')[-1]
    v = E.read(st, ol)
    if m == 'empty':
        return [(st, v['tail'] <= v['head'])]
    if m == 'size':
        return [(st, v['tail'] - v['head'])]
    if m == 'front':
        E.oblige(st, 'nonempty-front', v['tail'] > v['head'], e['ln'], 'safety')
        return [(st, Loc(ol.cell, ol.path + (v['head'],)))]
    if m == 'pop':
        E.oblige(st, 'nonempty-pop', v['tail'] > v['head'], e['ln'], 'safety')
        E.write(st, ol, v.set(head=v['head'] + 1))
        return [(st, None)]
    if m in ('push', 'emplace'):
        def f(s, vals):
            v = E.read(s, ol)
            val = vals[0]
            if isinstance(val, Loc):
                val = E.read(s, val)
            E.write(s, ol, v.set(tail=v['tail'] + 1, data=tstore(v['data'], v['tail'], val)))
            return [(s, None)]
        return E.bind(vals_any(E, e['a'], st), f)
    raise Unsupported('queue method ' + m)


G.METHODS_PRE.append(('std::queue::', queue_method))


def map_method(E, st, e, ol):
    q = e['q']
    m = opname(q) if 'operator' in q else q.split('::')[-1]
    v = E.read(st, ol)
    vt = v.meta.split('|')[1]
    if m == '[]':
        def f(s, vals):
            v = E.read(s, ol)
            k = vals[0]
            if isinstance(k, Loc):
                k = E.read(s, k)
            if isinstance(k, N) and k.kind == 'str':
                k = k['id']
            d = E.default(vt, True)
            nv = tmap(lambda a, x: z3.Store(a, k, z3.If(z3.Select(v['has'], k), z3.Select(a, k), coerce(x, a.sort().range()))) if is_z(a) else a, v['val'], d)
            E.write(s, ol, v.set(has=z3.Store(v['has'], k, z3.BoolVal(True)), val=nv))
            return [(s, Loc(ol.cell, ol.path + (k,)))]
        return E.bind(vals_any(E, e['a'], st), f)
    if m == 'at':
        def f(s, vals):
            v = E.read(s, ol)
            k = vals[0]
            if isinstance(k, Loc):
                k = E.read(s, k)
            out = []
            for s2, tv in E.fork_on(s, z3.Select(v['has'], k)):
                if tv:
                    out.append((s2, Loc(ol.cell, ol.path + (k,))))
                else:
                    s2.sig = ('throw', 'std::out_of_range')
                    out.append((s2, None))
            return out
        return E.bind(vals_any(E, e['a'], st), f)
    if m in ('count', 'contains'):
        def f(s, vals):
            k = vals[0]
            if isinstance(k, Loc):
                k = E.read(s, k)
            h = z3.Select(v['has'], k)
            return [(s, z3.If(h, IV(1), IV(0)) if m == 'count' else h)]
        return E.bind(vals_any(E, e['a'], st), f)
    if m == 'find':
        def f(s, vals):
            k = vals[0]
            if isinstance(k, Loc):
                k = E.read(s, k)
            return [(s, N('mapit', {'k': k, 'has': z3.Select(v['has'], k)}, ol))]
        return E.bind(vals_any(E, e['a'], st), f)
    if m == 'end':
        return [(st, N('mapit', {'k': IV(0), 'has': z3.BoolVal(False)}, ol))]
    if m == '=':
        def f(s, vals):
            val = vals[0]
            if isinstance(val, Loc):
                val = E.read(s, val)
            E.write(s, ol, val)
            return [(s, ol)]
        return E.bind(vals_any(E, e['a'], st), f)
    if m == 'clear':
        E.write(st, ol, v.setk('has', z3.K(v['has'].sort().domain(), z3.BoolVal(False))))
        return [(st, None)]
    raise Unsupported('map method ' + q)


for nm in ('std::map', 'std::unordered_map'):
    G.METHODS_PRE.append((nm + '::', map_method))


def opt_method(E, st, e, ol):
    q = e['q']
    m = opname(q) if 'operator' in q else q.split('::')[-1]
    v = E.read(st, ol)
    if isinstance(v, Opq):
        raise Unsupported('optional opaque')
    if m == 'has_value' or m == 'conv':
        return [(st, v['has'])]
    if m in ('value',):
        out = []
        for s2, tv in E.fork_on(st, v['has']):
            if tv:
                out.append((s2, ol.fld('val')))
            else:
                s2.sig = ('throw', 'std::bad_optional_access')
                out.append((s2, None))
        return out
    if m in ('*', '->'):
        E.oblige(st, 'optional-engaged', v['has'], e['ln'], 'safety')
        return [(st, ol.fld('val') if m == '*' else Ptr(ol.fld('val')))]
    if m == 'value_or':
        def f(s, vals):
            d = vals[0]
            if isinstance(d, Loc):
                d = E.read(s, d)
            return [(s, tmap(lambda x, y: z3.If(v['has'], x, coerce(y, x.sort())) if is_z(x) else x, v['val'], d))]
        return E.bind(vals_any(E, e['a'], st), f)
    if m == '=':
        def f(s, vals):
            val = vals[0]
            if isinstance(val, Loc):
                val = E.read(s, val)
            if isinstance(val, N) and val.kind == 'opt':
                E.write(s, ol, val)
            elif isinstance(val, Opq) and 'nullopt' in str(val.tag):
                E.write(s, ol, v.set(has=z3.BoolVal(False)))
            else:
                E.write(s, ol, v.set(has=z3.BoolVal(True), val=E.adapt(val, v.meta) if is_z(val) else val))
            return [(s, ol)]
        return E.bind(vals_any(E, e['a'], st), f)
    if m == 'reset':
        E.write(st, ol, v.set(has=z3.BoolVal(False)))
        return [(st, None)]
    raise Unsupported('optional method ' + q)


G.METHODS_PRE.append(('std::optional::', opt_method))
G.METHODS_PRE.append(('std::_Optional_base_impl::', opt_method))


def sp_method(E, st, e, ol):
    q = e['q']
    m = opname(q) if 'operator' in q else q.split('::')[-1]
    v = E.read(st, ol)
    if m in ('get', '->'):
        return [(st, v)]
    if m == '*':
        return [(st, v.target() if isinstance(v, Ptr) else v)]
    if m == 'conv':
        if isinstance(v, Ptr):
            return [(st, z3.BoolVal(not v.null))]
        raise Unsupported('shared_ptr bool')
    if m == '=':
        def f(s, vals):
            val = vals[0]
            if isinstance(val, Loc):
                val = E.read(s, val)
            E.write(s, ol, val)
            return [(s, ol)]
        return E.bind(vals_ptr(E, e['a'], st), f)
    raise Unsupported('shared_ptr method ' + q)


def vals_ptr(E, A, st):
    res = [(st, [])]
    for a in A:
        def f(s, vs, a=a):
            if a.get('lv') or a['k'] == 'MatTemp':
                return [(s2, vs + [E.read(s2, l) if isinstance(l, Loc) else l]) for s2, l in E.lval(a, s)]
            return [(s2, vs + [v]) for s2, v in E.rval(a, s)]
        res = E.bind(res, f)
    return res


for nm in ('std::shared_ptr::', 'std::__shared_ptr::', 'std::__shared_ptr_access::', 'std::unique_ptr::'):
    G.METHODS_PRE.append((nm, sp_method))


def fn_method(E, st, e, ol):
    q = e['q']
    m = opname(q) if 'operator' in q else q.split('::')[-1]
    v = E.read(st, ol)
    if m == '()':
        if isinstance(v, Clo):
            return E.call_clo(v, e['a'], st, e)
        raise Unsupported('call of opaque std::function')
    if m == '=':
        return E.bind(vals_ptr(E, e['a'], st), lambda s, vals: (E.write(s, ol, vals[0]), [(s, ol)])[1])
    raise Unsupported('std::function method ' + q)


G.METHODS_PRE.append(('std::function::', fn_method))


def str_method(E, st, e, ol):
    q = e['q']
    m = opname(q) if 'operator' in q else q.split('::')[-1]
    t = unref(e['t'])
    s = E.sort_of(t)

    def f(s2, vals):
        if m == '=':
            E.write(s2, ol, vals[0] if isinstance(vals[0], N) and vals[0].kind == 'str' else E.fresh('std::basic_string<char>', 's'))
            return [(s2, ol)]
        if m == 'conv':
            return [(s2, E.read(s2, ol))]
        if s is not None:
            return [(s2, E.leaf(s, 'strm'))]
        return [(s2, E.fresh('std::basic_string<char>', 's') if 'string' in t else Opq('str.' + m))]
    return E.bind(vals_ptr(E, e['a'], st), f)


for nm in ('std::basic_string::', 'std::basic_string_view::'):
    G.METHODS_PRE.append((nm, str_method))


# ------------------------------------------------------------------ iterators
def iter_op(E, st, e, ol=None):
    op = opname(e['q'])
    if ol is not None:
        if isinstance(ol, Loc):
            cur = E.read(st, ol)
        else:
            cur = ol
        if isinstance(cur, N) and cur.kind == 'mapit':
            return mapit_op(E, st, e, op, ol, cur)
        if not isinstance(cur, Ptr):
            raise Unsupported('iterator op %s on %r' % (op, cur))
        if op == '*':
            return [(st, cur.target())]
        if op == '->':
            return [(st, cur)]
        if op in ('++', '--'):
            nv = cur.add(1 if op == '++' else -1)
            E.write(st, ol, nv)
            post = len(e['a']) == 1
            return [(st, cur if post else ol)]

        def f(s, vals):
            d = vals[0]
            if op == '[]':
                return [(s, cur.add(d).target())]
            if op in ('+', '-') and is_z(d):
                return [(s, cur.add(d if op == '+' else -d))]
            if op in ('+=', '-='):
                E.write(s, ol, cur.add(d if op == '+=' else -d))
                return [(s, ol)]
            if op in ('==', '!='):
                return [(s, E.compare(op, cur, d))]
            if op == '=':
                E.write(s, ol, d)
                return [(s, ol)]
            raise Unsupported('iterator op ' + op)
        return E.bind(vals_ptr(E, e['a'], st), f)

    def g(s, vals):
        a, b = vals
        if isinstance(a, N) and a.kind == 'mapit':
            return [(s, cmp_mapit(op, a, b))]
        if isinstance(a, N) and a.kind == 'str':
            return [(s, E.compare(op, a, b))]
        if op == '-' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if not same_loc(a.loc, b.loc):
                raise Unsupported('iterator difference')
            return [(s, a.idx - b.idx)]
        if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, Opq) or isinstance(b, Opq):
            return [(s, E.compare(op, a, b))]
        if op in ('==', '!=') and isinstance(a, N) and isinstance(b, N):
            eq = struct_eq(E, a, b)
            return [(s, eq if op == '==' else z3.Not(eq))]
        raise Unsupported('free operator %s on %r, %r' % (op, a, b))
    return E.bind(vals_ptr(E, e['a'], st), g)


def struct_eq(E, a, b):
    if a.kind == 'map':
        h = z3.Int('k!me')
        cs = [a['has'] == b['has']]
        k = z3.Int(E.fresh_name('mk'))
        def lf(x, y):
            cs.append(z3.ForAll([k], z3.Implies(z3.Select(a['has'], k), z3.Select(x, k) == z3.Select(y, k))))
            return x
        tmap(lf, a['val'], b['val'])
        return z3.And(cs)
    if a.kind == 'vec':
        k = z3.Int(E.fresh_name('vk'))
        cs = [a['len'] == b['len']]
        def lf(x, y):
            cs.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < a['len']), z3.Select(x, k) == z3.Select(y, k))))
            return x
        tmap(lf, a['data'], b['data'])
        return z3.And(cs)
    cs = []
    def lf2(x, y):
        cs.append(x == y)
        return x
    tmap(lf2, a, b)
    return z3.And(cs)


def cmp_mapit(op, a, b):
    eq = z3.Or(z3.And(z3.Not(a['has']), z3.Not(b['has'])), z3.And(a['has'], b['has'], a['k'] == b['k']))
    return eq if op == '==' else z3.Not(eq)


def mapit_op(E, st, e, op, ol, cur):
    if op == '->':
        m = E.read(st, cur.meta)
        return [(st, Ptr(E.newcell(st, N('struct', {'first': cur['k'], 'second': tsel(m['val'], cur['k'])}, 'pair'))))]
    if op in ('==', '!='):
        return E.bind(vals_ptr(E, e['a'], st), lambda s, vals: [(s, cmp_mapit(op, cur, vals[0]))])
    raise Unsupported('map iterator ' + op)


for nm in ('__gnu_cxx::__normal_iterator::', 'std::_List_iterator::', 'std::_List_const_iterator::', 'std::_Rb_tree_iterator::',
           'std::_Rb_tree_const_iterator::'):
    G.METHODS_PRE.append((nm, iter_op))
for op in ('==', '!=', '-', '<', '>', '<=', '>='):
    for ns in ('__gnu_cxx::', 'std::', 'std::__detail::'):
        G.BUILTIN[ns + 'operator' + op] = iter_op


# ------------------------------------------------------------------ constructors
def ctor_seq(E, st, e, t, targs):
    A = e['a']
    base = split_targs(t)[0]
    et = targs[0]
    pts = E.ptypes_of(e['fn'])
    if base == 'std::queue':
        return [(st, E.default(t, True))]
    # drop trailing allocator arguments
    A = [a for a, p in zip(A, pts) if 'allocator' not in unref(p).split('<')[0]] if pts else A
    if not A:
        return [(st, E.default(t, True))]

    def f(s, vals):
        v = E.fresh(t, 'vec')
        if len(vals) == 1:
            x = vals[0]
            if isinstance(x, N) and x.kind == 'vec':
                return [(s, N('vec', dict(x.f), et))]
            if is_z(x):
                E.oblige(s, 'vector-size-nonneg', x >= 0, e['ln'], 'safety')
                d = E.default(et, True)
                return [(s, N('vec', {'len': x, 'data': tmap(lambda l, a: z3.K(I, coerce(l, a.sort().range())) if is_z(l) else l, d, v['data'])}, et))]
        if len(vals) == 2 and isinstance(vals[0], Ptr) and isinstance(vals[1], Ptr):
            b, en = vals
            src = E.read(s, b.loc)
            n = z3.simplify(en.idx - b.idx)
            cb = concrete(b.idx)
            if cb == 0:
                data = src['data']
            else:
                j = z3.Int('j!cp')
                data = tmap(lambda a: z3.Lambda([j], z3.Select(a, j + b.idx)), src['data'])
            return [(s, N('vec', {'len': n, 'data': data}, et))]
        if len(vals) == 2 and is_z(vals[0]):
            n, x = vals
            if isinstance(x, Loc):
                x = E.read(s, x)
            E.oblige(s, 'vector-size-nonneg', n >= 0, e['ln'], 'safety')
            return [(s, N('vec', {'len': n, 'data': tmap(lambda l, a: z3.K(I, coerce(l, a.sort().range())) if is_z(l) else l, x, v['data'])}, et))]
        raise Unsupported('container constructor %s' % e['fn'])
    # initializer_list argument
    if len(A) >= 1 and pts and 'initializer_list' in pts[0]:
        il = A[0]
        while il['k'] in ('MatTemp', 'Cast'):
            il = il['e']
        if il['k'] == 'InitList':
            def g(s, vals):
                v = E.fresh(t, 'vec').set(len=IV(len(vals)))
                d = v['data']
                if is_z(d) and d.sort() == G.AI:
                    d = z3.K(I, IV(0))
                for i, x in enumerate(vals):
                    d = tstore(d, IV(i), E.adapt(x, et))
                return [(s, v.set(data=d))]
            return E.bind(E.rvals(il['a'], st), g)
        if il['k'] == 'Ctor' and not il['a']:
            return [(st, E.default(t, True))]
    return E.bind(vals_ptr(E, A, st), f)


for nm in ('std::vector', 'std::list', 'std::deque', 'std::queue', 'std::array'):
    G.CTORS[nm] = ctor_seq
G.CTORS['std::initializer_list'] = lambda E, st, e, t, ta: [(st, E.default('std::vector<%s>' % ta[0], True))]


def ctor_opt(E, st, e, t, targs):
    if not e['a'] or 'nullopt' in e['fn']:
        return [(st, E.default(t, True))]

    def f(s, vals):
        v = vals[0]
        if isinstance(v, N) and v.kind == 'opt':
            return [(s, v)]
        if isinstance(v, Opq) and 'nullopt' in str(v.tag):
            return [(s, E.default(t, True))]
        return [(s, N('opt', {'has': z3.BoolVal(True), 'val': E.adapt(v, targs[0])}, targs[0]))]
    return E.bind(vals_ptr(E, e['a'], st), f)


G.CTORS['std::optional'] = ctor_opt


def ctor_str(E, st, e, t, targs):
    def f(s, vals):
        for v in vals:
            if isinstance(v, N) and v.kind == 'str':
                return [(s, v)]
        return [(s, E.fresh('std::basic_string<char>', 's') if e['a'] else E.strlit(''))]
    try:
        return E.bind(vals_ptr(E, e['a'], st), f)
    except Unsupported:
        return [(st, E.fresh('std::basic_string<char>', 's'))]


G.CTORS['std::basic_string'] = ctor_str
G.CTORS['std::basic_string_view'] = ctor_str


def ctor_sp(E, st, e, t, targs):
    A = e['a']
    if not A:
        return [(st, Ptr(None, None, True))]
    return E.bind(vals_ptr(E, A, st), lambda s, vals: [(s, vals[0])])


for nm in ('std::shared_ptr', 'std::unique_ptr', '__gnu_cxx::__normal_iterator', 'std::_List_iterator', 'std::_List_const_iterator', 'std::_Rb_tree_const_iterator'):
    G.CTORS[nm] = ctor_sp


def ctor_fn(E, st, e, t, targs):
    if not e['a']:
        return [(st, Opq('empty function'))]
    return E.bind(vals_ptr(E, e['a'], st), lambda s, vals: [(s, vals[0])])


G.CTORS['std::function'] = ctor_fn


def ctor_map(E, st, e, t, targs):
    if not e['a']:
        return [(st, E.default(t, True))]
    return E.bind(vals_ptr(E, e['a'], st), lambda s, vals: [(s, vals[0])])


G.CTORS['std::map'] = ctor_map


def ctor_pair(E, st, e, t, targs):
    def f(s, vals):
        if len(vals) == 1:
            v = E.read(s, vals[0]) if isinstance(vals[0], Loc) else vals[0]
            if isinstance(v, N) and v.kind == 'struct' and '0' in v.f and len(targs) == len(v.f) and v.meta and v.meta.startswith('std::tuple<'):
                src = split_targs(v.meta)[1]
                if len(src) == len(targs) and src != list(targs):      # converting constructor

                    def conv(x, ft, tt):
                        if not is_z(x) or uncv(ft) == uncv(tt):
                            return x
                        if E.sort_of(tt) == R:
                            x = coerce(x, R)
                            return E.opts['f32'](E, s, x) if 'f32' in E.opts and uncv(tt) == 'float' else x
                        if x.sort() == I:
                            return E.intcast(s, x, uncv(ft), uncv(tt), e['ln'])
                        return E.adapt(x, tt)
                    return [(s, N('struct', {k: conv(x, a, b) for (k, x), a, b in zip(v.f.items(), src, targs)}, t))]
            return [(s, vals[0])]
        ks = ['first', 'second'] if t.startswith('std::pair') else [str(i) for i in range(len(vals))]
        return [(s, N('struct', {k: E.adapt(v, ta) if is_z(v) else v for k, v, ta in zip(ks, vals, targs)}, t))]
    return E.bind(vals_ptr(E, e['a'], st), f)


G.CTORS['std::pair'] = ctor_pair
G.CTORS['std::tuple'] = ctor_pair


# ------------------------------------------------------------------ free functions
def reg(*names):
    def d(f):
        for n in names:
            G.BUILTIN[n] = f
            if not n.startswith('std::') and '::' not in n:
                G.BUILTIN['std::' + n] = f
        return f
    return d


def scal(E, e, st, f):
    return E.bind(vals_ptr(E, e['a'], st), lambda s, vals: [(s, f(s, *vals))])


@reg('abs', 'fabs', 'fabsf', 'labs', 'llabs')
def b_abs(E, st, e):
    def f(s, x):
        if isinstance(x, Opq):
            return E.fresh(e['t'], 'abs')
        if isinstance(x, N):   # complex
            return SQRT(x['re'] * x['re'] + x['im'] * x['im'])
        if concrete(x) is not None if x.sort() == I else False:
            return IV(abs(concrete(x)))
        return z3.If(x >= 0, x, -x)
    return scal(E, e, st, f)


@reg('round', 'roundf')
def b_round(E, st, e):
    return scal(E, e, st, lambda s, x: z3.ToReal(round_(coerce(x, R))))


@reg('lround', 'llround', 'lroundf', 'llrint', 'lrint')
def b_lround(E, st, e):
    return scal(E, e, st, lambda s, x: round_(coerce(x, R)))


@reg('floor', 'floorf')
def b_floor(E, st, e):
    return scal(E, e, st, lambda s, x: z3.ToReal(floor_(coerce(x, R))))


@reg('ceil', 'ceilf')
def b_ceil(E, st, e):
    return scal(E, e, st, lambda s, x: z3.ToReal(ceil_(coerce(x, R))))


@reg('trunc')
def b_trunc(E, st, e):
    return scal(E, e, st, lambda s, x: z3.ToReal(G.trunc_(coerce(x, R))))


def sqrt_term(E, s, x):
    x = coerce(x, R)
    r = SQRT(x)
    s.pc.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
    return r


@reg('sqrt', 'sqrtf')
def b_sqrt(E, st, e):
    return scal(E, e, st, lambda s, x: sqrt_term(E, s, x))


@reg('pow', 'powf')
def b_pow(E, st, e):
    def f(s, x, y):
        x, y = coerce(x, R), coerce(y, R)
        ys = z3.simplify(y)
        if z3.is_rational_value(ys) and ys.denominator_as_long() == 1 and 0 <= ys.numerator_as_long() <= 4:
            n = ys.numerator_as_long()
            r = RV(1)
            for _ in range(n):
                r = r * x
            return r
        return uf('pow', R, R, R)(x, y)
    return scal(E, e, st, f)


for fn1 in ('log', 'log10', 'log2', 'exp', 'sin', 'cos', 'atan2'):
    def mk(fn1):
        def b(E, st, e):
            return scal(E, e, st, lambda s, *xs: uf(fn1, *([R] * (len(xs) + 1)))(*[coerce(x, R) for x in xs]))
        return b
    reg(fn1, fn1 + 'f')(mk(fn1))


@reg('min')
def b_min(E, st, e):
    def f(s, a, b):
        a, b = same(a, b)
        return z3.If(b < a, b, a)
    return scal(E, e, st, f)


@reg('max')
def b_max(E, st, e):
    def f(s, a, b):
        a, b = same(a, b)
        return z3.If(a < b, b, a)
    return scal(E, e, st, f)


def same(a, b):
    if a.sort() != b.sort():
        return coerce(a, R), coerce(b, R)
    return a, b


@reg('isnan', 'isinf')
def b_isnan(E, st, e):
    E.assumptions.add('floating-point arithmetic treated as real arithmetic (no rounding, NaN or infinity)')
    return scal(E, e, st, lambda s, x: z3.BoolVal(False))


@reg('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref')
def b_move(E, st, e):
    return E.lval(e['a'][0], st)


@reg('std::make_shared', 'std::make_unique')
def b_ms(E, st, e):
    t = e['ta'][0]
    def f(s, vals):
        if not vals:
            v = E.default(t, True)
        elif len(vals) == 1 and not (E.all_fields(t) and is_z(vals[0])):
            v = vals[0]
        else:
            raise Unsupported('make_shared with several arguments')
        return [(s, Ptr(E.newcell(s, v)))]
    return E.bind(vals_ptr(E, e['a'], st), f)


@reg('std::make_pair', 'std::make_tuple')
def b_mp(E, st, e):
    def f(s, vals):
        ks = ['first', 'second'] if e['q'].endswith('pair') else [str(i) for i in range(len(vals))]
        return [(s, N('struct', dict(zip(ks, vals)), unref(e['t'])))]
    return E.bind(vals_ptr(E, e['a'], st), f)


@reg('std::get')
def b_get(E, st, e):
    k = e['ta'][0]
    def f(s, l):
        v = E.read(s, l)
        if isinstance(v, N) and k in v.f:
            return [(s, l.fld(k))]
        if isinstance(v, N) and v.kind == 'struct' and k in ('0', '1'):
            return [(s, l.fld(['first', 'second'][int(k)]))]
        raise Unsupported('std::get<%s>' % k)
    return E.bind(E.lval(e['a'][0], st), f)


@reg('std::begin', 'std::cbegin')
def b_begin(E, st, e):
    return E.bind(E.lval(e['a'][0], st), lambda s, l: [(s, Ptr(l, IV(0)))])


@reg('std::end', 'std::cend')
def b_end(E, st, e):
    return E.bind(E.lval(e['a'][0], st), lambda s, l: [(s, Ptr(l, E.read(s, l)['len']))])


@reg('std::next', 'std::prev')
def b_next(E, st, e):
    def f(s, vals):
        d = vals[1] if len(vals) > 1 else IV(1)
        return [(s, vals[0].add(d if e['q'].endswith('next') else -d))]
    return E.bind(vals_ptr(E, e['a'], st), f)


@reg('std::distance')
def b_dist(E, st, e):
    return E.bind(vals_ptr(E, e['a'], st), lambda s, vals: [(s, vals[1].idx - vals[0].idx)])


@reg('std::accumulate')
def b_accumulate(E, st, e):
    """accumulate over a whole integer sequence: SUM / PROD spec functions (seed folded in)"""
    T = e['ta'][1]

    def f(s, vals):
        b, en, init = vals[:3]
        cont = E.read(s, b.loc)
        data = cont['data'] if isinstance(cont, N) else cont
        op = '+'
        if len(vals) > 3:
            t3 = unref(e['a'][3]['t'])
            if 'multiplies' in t3:
                op = '*'
            elif 'plus' in t3:
                op = '+'
            else:
                raise Unsupported('accumulate with ' + t3)
        if concrete(b.idx) != 0:
            raise Unsupported('accumulate not from the beginning')
        if not is_z(data) or data.sort() != G.AI:
            raise Unsupported('accumulate over non-integers')
        n = en.idx
        cn = concrete(n)
        if cn is not None and cn <= 16:
            r = init
            for k in range(cn):
                r = r + z3.Select(data, k) if op == '+' else r * z3.Select(data, k)
            for k in range(cn + 1):
                s.pc.append((SUMF if op == '+' else PRODF)(data, IV(k)) == (z3.Sum([IV(0)] + [z3.Select(data, q) for q in range(k)]) if op == '+' else z3.Product([IV(1)] + [z3.Select(data, q) for q in range(k)])))
        elif op == '+':
            r = init + SUMF(data, n)
        else:
            r = init * PRODF(data, n)
        r = z3.simplify(r)
        if T in ('int', 'unsigned int'):
            lo, hi = G.INT_RANGES[T]
            if concrete(r) is None:
                # the accumulator has type T: each partial value is narrowed to it
                E.oblige(s, 'accumulator-fits-%s' % T.replace(' ', '-'), z3.And(r >= lo, r <= hi), e['ln'], 'safety')
        return [(s, r)]
    return E.bind(vals_ptr(E, e['a'], st), f)


@reg('std::numeric_limits::min', 'std::numeric_limits::max', 'std::numeric_limits::lowest', 'std::numeric_limits::epsilon', 'std::numeric_limits::infinity')
def b_nl(E, st, e):
    t = unref(e['t'])
    nm = e['q'].split('::')[-1]
    if t in G.INT_RANGES:
        lo, hi = G.INT_RANGES[t]
        return [(st, IV(hi if nm == 'max' else lo))]
    vals = {('float', 'min'): '1/85070591730234615865843651857942052864', ('float', 'max'): str(int(3.4028234663852886e38)),
            ('float', 'lowest'): str(-int(3.4028234663852886e38)), ('float', 'epsilon'): '1/8388608',
            ('double', 'max'): str(int(1.7976931348623157e308)), ('double', 'lowest'): str(-int(1.7976931348623157e308))}
    if (t, nm) in vals:
        return [(st, RV(vals[(t, nm)]))]
    return [(st, E.leaf(R, 'limit'))]


def _literal(n):
    if isinstance(n, dict):
        if n.get('k') == 'Str':
            return n.get('v')
        for v in n.values():
            r = _literal(v)
            if r is not None:
                return r
    elif isinstance(n, list):
        for v in n:
            r = _literal(v)
            if r is not None:
                return r
    return None


def message_format(E, st, e):
    """fmt throws when the format string is malformed or names an argument that is not there: the format must be fixed text with an argument for every field"""
    for k, a in enumerate(e.get('a', [])):
        if 'basic_format_string' not in str(a.get('t', '')):
            continue
        text = _literal(a)
        if text is None:
            E._unsup('message formatted by text that is not fixed')
        given = len(e['a']) - k - 1
        try:
            fields = [f for _, f, _, _ in string.Formatter().parse(text) if f is not None]
        except ValueError:
            fields = None
        if fields is None or any(f and not f.isdigit() for f in fields) or len([f for f in fields if not f]) > given or any(int(f) >= given for f in fields if f):
            E.oblige(st, 'message-format', z3.BoolVal(False), e.get('ln', 0), 'pre')
        return


def ignore_str(E, st, e):
    """formatting / printing: no effect on the verified state"""
    message_format(E, st, e)
    t = unref(e['t'])
    if t == 'void':
        return [(st, None)]
    if 'string' in t:
        return [(st, E.fresh('std::basic_string<char>', 'fmt'))]
    s = E.sort_of(t)
    return [(st, E.leaf(s, 'fmt') if s is not None else Opq('fmt'))]


G.BUILTIN_PRE.append(('fmt::', ignore_str))
G.BUILTIN['printf'] = ignore_str
G.BUILTIN['std::to_string'] = ignore_str

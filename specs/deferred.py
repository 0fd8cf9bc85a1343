"""deferred arrays (bland/bland/ndarray_deferred.cpp): how often the computation runs and what each use observes

An array is represented by its identity; the n-th run of the computation yields RES(n); moving array a to device d
yields MOVED(a, d).  The number of runs so far is ghost state."""
import z3
from dv.engine import IV, I, B, N, Ptr, Loc, Opq, Unsupported
from dv import stdlib
from .odometer import lem
UNITS = [('bland/bland/ndarray_deferred.cpp', [r'^bland::ndarray_deferred::(ctor|conv|to)\b'], [r'^bland::ndarray::'])]
RES = z3.Function('result_of_run', I, I, I)          # computation, run
MOVED = z3.Function('moved', I, I, I, I)
D = 'bland::ndarray_deferred'
POLICY = {'memoize': 0, 'lazy': 1, 'eager': 2}


def arr(i):
    return N('struct', {'id': i}, 'bland::ndarray')


def val(E, s, v):
    return E.read(s, v) if isinstance(v, Loc) else v


def runs(E, s):
    return E.read(s, s.frames[0].env['g:runs'])


def devid(v):
    v = v if 'device_type' in v.f else v
    return v['device_type'], v['device_id']


def moved(a, dv):
    t, i = devid(dv)
    return MOVED(a, t, i)


def contracts():
    C = {}
    vp = lambda f: (lambda E, st, e: E.bind(stdlib.vals_ptr(E, e['a'], st), lambda s, vs: f(E, s, vs, e)))
    vm = lambda f: (lambda E, st, e, ol: E.bind(stdlib.vals_ptr(E, e['a'], st), lambda s, vs: f(E, s, ol, vs, e)))

    def alt(E, s, v):
        v = val(E, s, v)
        if isinstance(v, N) and v.meta == 'variant':
            return v
        if isinstance(v, N) and 'id' in v.f:
            return N('struct', {'fn': z3.BoolVal(False), 'fid': IV(0), 'arr': v['id']}, 'variant')
        if isinstance(v, N) and 'fid' in v.f:
            return N('struct', {'fn': z3.BoolVal(True), 'fid': v['fid'], 'arr': IV(0)}, 'variant')
        raise Unsupported('alternative %r' % (v,))

    def which(e):
        t = e['ta'][0]
        return 'fn' if 'function' in t else 'arr'
    C['std::make_shared'] = vp(lambda E, s, vs, e: [(s, Ptr(E.newcell(s, alt(E, s, vs[0])), None))])

    def holds(E, st, e):
        return E.bind(stdlib.vals_ptr(E, e['a'], st), lambda s, vs: [(s, val(E, s, vs[0])['fn'] if which(e) == 'fn' else z3.Not(val(E, s, vs[0])['fn']))])
    C['std::holds_alternative'] = holds

    def get(E, s, vs, e):
        v = val(E, s, vs[0])
        w = which(e)
        E.oblige(s, 'alternative-held', v['fn'] if w == 'fn' else z3.Not(v['fn']), e['ln'], 'safety')
        return [(s, E.newcell(s, N('struct', {'fid': v['fid']}, 'callable') if w == 'fn' else arr(v['arr'])))]
    C['std::get'] = vp(get)

    def run(E, s, ol, vs, e):
        f = val(E, s, ol)
        n = runs(E, s) + 1
        E.write(s, s.frames[0].env['g:runs'], n)
        return [(s, arr(RES(f['fid'], n)))]
    C['std::function::operator()'] = vm(run)

    def vassign(E, s, ol, vs, e):
        E.write(s, ol, alt(E, s, vs[0]))
        return [(s, ol)]
    C['std::variant::operator='] = vm(vassign)

    def nd_ctor(E, s, vs, e):
        return [(s, val(E, s, vs[0]) if vs else arr(IV(-1)))]
    C['ctor:bland::ndarray'] = vp(nd_ctor)
    C['default:bland::ndarray'] = lambda E, t: arr(IV(-1))
    C['ctor:std::function'] = vp(nd_ctor)
    C['bland::ndarray::operator='] = vm(lambda E, s, ol, vs, e: (E.write(s, ol, val(E, s, vs[0])), [(s, ol)])[1])

    def to(E, s, ol, vs, e):
        dv = val(E, s, vs[0])
        E.assumptions.add('contract of ndarray::to: the result depends on array and device only; moving twice to the same device is moving once (same device: proved under P02)')
        return [(s, arr(moved(val(E, s, ol)['id'], dv)))]
    C['bland::ndarray::to'] = vm(to)
    C['ctor:bland::ndarray::dev'] = vp(lambda E, s, vs, e: [(s, val(E, s, vs[0]) if vs else N('struct', {'device_type': IV(1), 'device_id': IV(0)}, 'bland::ndarray::dev'))])
    return C


def world(E, st):
    """an existing deferred array: what it shares, its device and policy"""
    runs0 = z3.Int('runs')
    st.frames[0].env['g:runs'] = E.newcell(st, runs0)
    hf, fid, a0 = z3.Bool('holds_computation'), z3.Int('computation'), z3.Int('array')
    has, dt, di, pol = z3.Bool('has_device'), z3.Int('device_type'), z3.Int('device_id'), z3.Int('policy')
    st.pc += [pol >= 0, pol <= 2]
    shared = E.newcell(st, N('struct', {'fn': hf, 'fid': fid, 'arr': a0}, 'variant'))
    dv = N('struct', {'device_type': dt, 'device_id': di}, 'bland::ndarray::dev')
    v = E.default(D)
    v = v.set(_deferred_data=Ptr(shared, None), _device=N('opt', {'has': has, 'val': dv}, 'bland::ndarray::dev'), _policy=pol)
    return E.newcell(st, v), shared, dict(runs=runs0, fn=hf, fid=fid, arr=a0, has=has, dev=dv, pol=pol)


def same_shared(E, s, v, cell):
    p = v['_deferred_data']
    return z3.BoolVal(isinstance(p, Ptr) and not p.null and p.loc.cell == cell.cell)


def content(E, s, v):
    return E.read(s, v['_deferred_data'].loc)


def verify(S):
    C = contracts()
    for p, pn in ((0, 'memoize'), (1, 'lazy'), (2, 'eager')):
        def b_fn(E, st, F, p=p):
            fid = z3.Int('computation')
            runs0 = z3.Int('runs')
            st.frames[0].env['g:runs'] = E.newcell(st, runs0)
            this = E.newcell(st, E.default(D))

            def post(E, s, r):
                v = E.read(s, this)
                c = content(E, s, v)
                out = [('policy-kept', v['_policy'] == p), ('no-device', z3.Not(v['_device']['has']))]
                if p == POLICY['eager']:
                    return out + [('computed-once', runs(E, s) == runs0 + 1), ('holds-result', z3.And(z3.Not(c['fn']), c['arr'] == RES(fid, runs0 + 1)))]
                return out + [('not-computed', runs(E, s) == runs0), ('holds-computation', z3.And(c['fn'], c['fid'] == fid))]
            return {'this': this, 'args': [N('struct', {'fid': fid}, 'callable'), IV(p)], 'post': post}
        S.function(D + '::ctor', b_fn, sig=r'ctor\(std::function', name='ndarray_deferred(computation, %s)' % pn, contracts=C)

    def b_pod(E, st, F):
        runs0 = z3.Int('runs')
        st.frames[0].env['g:runs'] = E.newcell(st, runs0)
        this = E.newcell(st, E.default(D))
        a = z3.Int('array')

        def post(E, s, r):
            v = E.read(s, this)
            c = content(E, s, v)
            return [('holds-value', z3.And(z3.Not(c['fn']), c['arr'] == a)), ('not-computed', runs(E, s) == runs0), ('no-device', z3.Not(v['_device']['has']))]
        return {'this': this, 'args': [arr(a)], 'post': post}
    S.function(D + '::ctor', b_pod, sig=r'ctor\(bland::ndarray\)', name='ndarray_deferred(value)', contracts=C)

    def b_copy(E, st, F):
        src, shared, w = world(E, st)
        this = E.newcell(st, E.default(D))

        def post(E, s, r):
            v = E.read(s, this)
            c = E.read(s, shared)
            return [('shares', same_shared(E, s, v, shared)), ('policy', v['_policy'] == w['pol']), ('device', z3.And(v['_device']['has'] == w['has'], z3.Implies(w['has'], z3.And([a == b for a, b in zip(devid(v['_device']['val']), devid(w['dev']))])))),
                    ('source-unchanged', z3.And(c['fn'] == w['fn'], c['fid'] == w['fid'], c['arr'] == w['arr'])), ('not-computed', runs(E, s) == w['runs'])]
        return {'this': this, 'args': [src], 'post': post}
    S.function(D + '::ctor', b_copy, sig=r'ctor\(&const bland::ndarray_deferred', name='ndarray_deferred(copy)', contracts=C)

    def b_use(E, st, F):
        this, shared, w = world(E, st)

        def post(E, s, r):
            r = val(E, s, r)
            v = E.read(s, this)
            c = E.read(s, shared)
            raw = z3.If(w['fn'], RES(w['fid'], w['runs'] + 1), w['arr'])
            want = z3.If(w['has'], moved(raw, w['dev']), raw)
            return [('runs', runs(E, s) == w['runs'] + z3.If(w['fn'], 1, 0)), ('observes', r['id'] == want), ('still-shared', same_shared(E, s, v, shared)), ('policy-kept', v['_policy'] == w['pol']),
                    ('remembers', z3.Implies(w['pol'] == POLICY['memoize'], z3.And(z3.Not(c['fn']), c['arr'] == want))),
                    ('otherwise-unchanged', z3.Implies(w['pol'] != POLICY['memoize'], z3.And(c['fn'] == w['fn'], c['fid'] == w['fid'], c['arr'] == w['arr'])))]
        return {'this': this, 'args': [], 'post': post}
    S.function(D + '::conv', b_use, name='use', contracts=C)

    def b_to(E, st, F):
        this, shared, w = world(E, st)
        nt, ni = z3.Ints('new_type new_id')
        ndv = N('struct', {'device_type': nt, 'device_id': ni}, 'bland::ndarray::dev')

        def post(E, s, r):
            r = val(E, s, r)
            c0, c = E.read(s, shared), content(E, s, r)
            out = [('not-computed', runs(E, s) == w['runs']), ('others-unchanged', z3.And(c0['fn'] == w['fn'], c0['fid'] == w['fid'], c0['arr'] == w['arr'])), ('policy-kept', r['_policy'] == w['pol']),
                   ('device', z3.And(r['_device']['has'], r['_device']['val']['device_type'] == nt, r['_device']['val']['device_id'] == ni)),
                   ('value', z3.Implies(z3.Not(w['fn']), z3.And(z3.Not(c['fn']), z3.Or(c['arr'] == MOVED(w['arr'], nt, ni), c['arr'] == w['arr']))))]
            sh = same_shared(E, s, r, shared)
            out.append(('computation-stays-shared', z3.Implies(w['fn'], z3.And(sh, c['fn'], c['fid'] == w['fid']))))
            return out
        return {'this': this, 'args': [ndv], 'post': post}
    S.function(D + '::to', b_to, sig=r'dev\)', name='to(device)', contracts=C)

    # ---- histories of uses: the number of runs and what is observed, from the contract of one use
    r0, k, fid = z3.Ints('runs0 uses computation')
    R_, H, A = [z3.Function(n, I, s) for n, s in (('runs_after', I), ('holds_after', B), ('array_after', I))]
    X = z3.Function('observed', I, I)
    has = z3.Bool('has_device')
    t, d = z3.Ints('t d')
    mv = lambda a: z3.If(has, MOVED(a, t, d), a)

    def use(pol, k):
        raw = z3.If(H(k), RES(fid, R_(k) + 1), A(k))
        return [R_(k + 1) == R_(k) + z3.If(H(k), 1, 0), X(k + 1) == mv(raw)] + ([z3.Not(H(k + 1)), A(k + 1) == mv(raw)] if pol == 0 else [H(k + 1) == H(k), A(k + 1) == A(k)])
    idem = [MOVED(MOVED(RES(fid, r0 + 1), t, d), t, d) == MOVED(RES(fid, r0 + 1), t, d)]
    first = mv(RES(fid, r0 + 1))
    inv0 = lambda k: z3.If(k == 0, z3.And(H(k), R_(k) == r0), z3.And(z3.Not(H(k)), R_(k) == r0 + 1, A(k) == first, X(k) == first))
    lem(S, 'memoized-once.base', [H(0), R_(0) == r0], inv0(IV(0)))
    lem(S, 'memoized-once.step', [k >= 0, inv0(k)] + use(0, k) + idem, inv0(k + 1))
    inv1 = lambda k: z3.And(H(k), R_(k) == r0 + k, z3.Implies(k >= 1, X(k) == mv(RES(fid, r0 + k))))
    lem(S, 'lazy-each-time.base', [H(0), R_(0) == r0], inv1(IV(0)))
    lem(S, 'lazy-each-time.step', [k >= 0, inv1(k)] + use(1, k), inv1(k + 1))
    inv2 = lambda k: z3.And(z3.Not(H(k)), R_(k) == r0 + 1, A(k) == RES(fid, r0 + 1), z3.Implies(k >= 1, X(k) == first))
    lem(S, 'eager-once.base', [z3.Not(H(0)), R_(0) == r0 + 1, A(0) == RES(fid, r0 + 1)], inv2(IV(0)))
    lem(S, 'eager-once.step', [k >= 0, inv2(k)] + use(2, k), inv2(k + 1))

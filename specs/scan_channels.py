"""contracts of scan::read_coarse_channel, peak_coarse_channel, slice_scan_channels, get_coarse_channel_with_frequency and of the
coarse_channel constructors they use (bliss/core/scan.cpp, coarse_channel.cpp)

A channel created by read_coarse_channel carries readers for exactly its own slab of the file: the closures are
executed symbolically and the slab they request from the file is compared with the channel's index."""
import re
import z3
from dv.session import Q, Session
from dv.engine import IV, RV, I, R, B, N, Loc, Ptr, Opq, Clo, Unsupported, tsel, absr, leaves, is_z
from dv import ndmodel as M, stdlib

UNITS = [('bliss/core/scan.cpp', [r'^bliss::scan::(read_coarse_channel|peak_coarse_channel|slice_scan_channels|get_coarse_channel_with_frequency|get_number_coarse_channels)\('], [r'^bland::', r'^bliss::h5', r'^bliss::coarse_channel::set_device']),
         ('bliss/core/coarse_channel.cpp', [r'^bliss::coarse_channel::ctor\('], [r'^bland::'])]
META = ['_foff', '_nifs', '_source_name', '_tsamp', '_tstart', '_data_type', '_src_dej', '_src_raj', '_telescope_id', '_az_start', '_za_start', '_machine_id']


def same(a, b):
    la, lb = list(leaves(a)), list(leaves(b))
    if [p for p, _ in la] != [p for p, _ in lb]:
        return z3.BoolVal(False)
    return z3.And([x == y for (_, x), (_, y) in zip(la, lb)])


def verify(S):
    q, foff, fch1 = z3.Reals('q foff fch1')
    W = {}

    def fresh_deferred(E, t, n, lift=0):
        return Opq('deferred:' + n)

    # ------------------------------------------------ the map of channels already created, as entries key -> pointer
    def pmap(entries, other):
        d = {'other': other}
        for i, (k, p) in enumerate(entries):
            d['k%d' % i], d['p%d' % i] = k, p
        return N('pmap', d)

    def entries(m):
        i, out = 0, []
        while 'k%d' % i in m.f:
            out.append((m['k%d' % i], m['p%d' % i]))
            i += 1
        return out

    def key_of(E, s, vals):
        k = vals[0]
        return E.read(s, k) if isinstance(k, Loc) else k

    def m_find(E, st, e, ol):
        def f(s, vals):
            k = key_of(E, s, vals)
            m = E.read(s, ol)
            return [(s, N('mapit', {'k': k, 'has': z3.Or([k == a for a, _ in entries(m)] + [z3.BoolVal(False)])}, ol))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)

    def m_count(E, st, e, ol):
        def f(s, vals):
            k = key_of(E, s, vals)
            return [(s, z3.If(z3.Or([k == a for a, _ in entries(E.read(s, ol))] + [z3.BoolVal(False)]), IV(1), IV(0)))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)

    def m_end(E, st, e, ol):
        return [(st, N('mapit', {'k': IV(0), 'has': z3.BoolVal(False)}, ol))]

    def m_at(E, st, e, ol):
        def f(s, vals):
            k = key_of(E, s, vals)
            m = E.read(s, ol)
            out = []
            todo = [(s, entries(m))]
            for a, p in entries(m):
                nxt = []
                for s1, _ in todo:
                    for s2, tv in E.fork_on(s1, k == a):
                        if tv:
                            out.append((s2, p))
                        else:
                            nxt.append((s2, None))
                todo = nxt
            for s1, _ in todo:
                E.oblige(s1, 'map-key-present', z3.BoolVal(False), e['ln'], 'safety')
            return out
        return E.bind(stdlib.vals_any(E, e['a'], st), f)

    def m_insert(E, st, e, ol):
        def f(s, vals):
            p = vals[0]
            if isinstance(p, Loc):
                p = E.read(s, p)
            k, v = list(p.f.values())
            m = E.read(s, ol)
            for a, _ in entries(m):
                E.oblige(s, 'map-insert-of-new-key', k != a, e['ln'], 'safety')
            E.write(s, ol, pmap(entries(m) + [(k, v)], m['other']))
            return [(s, Opq('insert result'))]
        return E.bind(stdlib.vals_any(E, e['a'], st), f)

    # ------------------------------------------------ make_shared of a channel: run the real constructor
    def c_make_shared(E, st, e):
        t = e['ta'][0]
        if len(e['a']) == 1:
            return stdlib.b_ms(E, st, e)
        keys = [k for k, F in E.P['functions'].items() if F['q'] == t + '::ctor' and len(F['params']) == len(e['a'])]

        def f(s, vals):
            def fits(F):
                for p, v in zip(F['params'], vals):
                    pt = p['t']
                    if ('std::function' in pt) != isinstance(v, Clo):
                        return False
                    if ('std::optional' in pt) != (isinstance(v, N) and v.kind == 'opt') and not ('std::optional' in pt and is_z(v)):
                        return False
                return True
            ks = [k for k in keys if fits(E.P['functions'][k])]
            if len(ks) != 1:
                raise Unsupported('constructor used by make_shared<%s>: %d candidates' % (t, len(ks)))
            vals = [N('opt', {'has': z3.BoolVal(True), 'val': v}, 'converted') if 'std::optional' in p['t'] and is_z(v) else v for p, v in zip(E.P['functions'][ks[0]]['params'], vals)]
            obj = E.newcell(s, E.default(t))
            return [(s2, Ptr(obj)) for s2, _ in E.inline(ks[0], obj, vals, s, e['ln'])]
        return E.bind(stdlib.vals_ptr(E, e['a'], st), f)

    def c_deferred_assign(E, st, e, ol):
        def f(s, vals):
            v = vals[0]
            E.write(s, ol, E.read(s, v) if isinstance(v, Loc) else v)
            return [(s, ol)]
        return E.bind(stdlib.vals_ptr(E, e['a'], st), f)

    def c_deferred_ctor(E, st, e):
        if not e['a']:
            return [(st, Opq('deferred:empty'))]
        return E.bind(stdlib.vals_ptr(E, e['a'], st), lambda s, vals: [(s, E.read(s, vals[0]) if isinstance(vals[0], Loc) else vals[0])])

    def c_shape(E, st, e, ol):
        v = E.fresh('std::vector<long>', 'fileshape').set(len=IV(3))
        a = z3.Store(z3.Store(z3.Store(v['data'], 0, W['T']), 1, W['NF']), 2, W['F'])
        E.assumptions.add('contract of h5_filterbank_file::get_data_shape: [time steps, feeds, channels] of the file')
        return [(st, v.set(data=a))]

    def c_read(what):
        def h(E, st, e, ol):
            def f(s, vs):
                vs = [E.read(s, v) if isinstance(v, Loc) else v for v in vs]
                s.frames[0].env['req:' + what] = E.newcell(s, N('struct', {'off': vs[0], 'cnt': vs[1]}, 'request'))
                E.assumptions.add('h5_filterbank_file::read_%s returns the requested slab (HDF5 library; checked by the bounded harness against real files)' % what)
                return [(s, Opq(what))]
            return E.bind(E.eval_args(E.ptypes_of(e['fn']), e['a'], st), f)
        return h

    def c_setdev(E, st, e, ol):
        return E.bind(stdlib.vals_ptr(E, e['a'], st), lambda s, vals: (E.write(s, ol.fld('_device'), E.read(s, vals[0]) if isinstance(vals[0], Loc) else vals[0]), [(s, None)])[1])

    # transforms: an uninterpreted sequence of functions; application recorded as a count
    app = z3.Function('transform', I, R, R)      # what the k-th queued transform makes of a channel (identified by its first frequency)
    Tn = z3.Function('transformed', I, R, R)     # the first k transforms in order

    def c_fcall(E, st, e, ol):
        k = ol.path[-1]
        if not is_z(k):
            raise Unsupported('call of an unknown std::function')

        def f(s, vs):
            v = E.read(s, vs[0]) if isinstance(vs[0], Loc) else vs[0]
            out = E.fresh('bliss::coarse_channel', 'transformed')
            return [(s, out.set(_fch1=app(k, v['_fch1'])))]
        return E.bind(E.eval_args(['bliss::coarse_channel'], e['a'], st), f)

    def mkscan(E, st):
        M.install(E, st)
        for b in ('bland::ndarray', 'bland::ndarray_deferred'):
            E.C['fresh:' + b] = fresh_deferred
            E.C['default:' + b] = lambda E, t: Opq('deferred:empty')
        for b in ('std::shared_ptr',):
            E.C['fresh:' + b] = lambda E, t, n, lift=0: Ptr(None, None, True)
        sc = E.fresh('bliss::scan', 'sc')
        st.pc += [sc['_num_coarse_channels'] >= 0, sc['_fine_channels_per_coarse'] >= 1, sc['_coarse_channel_offset'] >= 0,
                  sc['_nchans'] == sc['_num_coarse_channels'] * sc['_fine_channels_per_coarse'], sc['_nchans'] < 2 ** 31,
                  sc['_coarse_channel_offset'] + sc['_num_coarse_channels'] < 2 ** 31, sc['_num_coarse_channels'] < 2 ** 31]
        E.assumptions.add('preconditions: fewer than 2^31 fine channels, scan divided evenly (P31)')
        W['T'], W['NF'], W['F'] = z3.Ints('file_T file_NF file_F')
        st.pc += [W['T'] >= 0, W['NF'] >= 1, W['F'] >= 0, W['T'] < 2 ** 31]
        return sc

    def run_reader(E, s, clo, what):
        """execute the stored closure and return the slab it asks for"""
        s0 = s.copy() if hasattr(s, 'copy') else s
        r = E.call_clo_vals(clo, [], s0)
        outs = [x for x, _ in r if not x.sig]
        if len(outs) != 1:
            raise Unsupported('reader with %d paths' % len(outs))
        s1 = outs[0]
        if 'req:' + what not in s1.frames[0].env:
            return s1, None
        return s1, E.read(s1, s1.frames[0].env['req:' + what])

    def channel_facts(E, s, sc, cc, idx):
        g = sc['_coarse_channel_offset'] + idx
        nf = sc['_fine_channels_per_coarse']
        out = [('channels', cc['_nchans'] == nf), ('first-frequency', cc['_fch1'] == sc['_fch1'] + sc['_foff'] * z3.ToReal(idx * nf)),
               ('number', cc['_coarse_channel_number'] == g), ('time-steps', cc['_ntsteps'] == W['T'])]
        for m in META:
            out.append(('same' + m, same(cc[m], sc[m])))
        out.append(('same_nbits', z3.And(cc['_nbits']['has'], cc['_nbits']['val'] == sc['_nbits'])))
        return out

    def slab(E, s, cc, what, sc, idx):
        clo = cc['_' + what]
        if not isinstance(clo, Clo):
            return z3.BoolVal(False)
        s1, r = run_reader(E, s, clo, what)
        if r is None:
            return z3.BoolVal(False)
        o, c = r['off'], r['cnt']
        nf = sc['_fine_channels_per_coarse']
        g = sc['_coarse_channel_offset'] + idx
        return z3.And(o['len'] == 3, c['len'] == 3, o['data'][0] == 0, o['data'][1] == 0, o['data'][2] == g * nf,
                      c['data'][0] == W['T'], c['data'][1] == W['NF'], c['data'][2] == nf)

    base = dict(M.contracts(), **{'std::map::find': m_find, 'std::map::count': m_count, 'std::map::end': m_end, 'std::map::at': m_at, 'std::map::insert': m_insert,
                                  'std::make_shared': c_make_shared, 'bland::ndarray_deferred::operator=': c_deferred_assign, 'ctor:bland::ndarray_deferred': c_deferred_ctor,
                                  'bliss::h5_filterbank_file::get_data_shape': c_shape, 'bliss::h5_filterbank_file::read_data': c_read('data'),
                                  'bliss::h5_filterbank_file::read_mask': c_read('mask'), 'bliss::coarse_channel::set_device': c_setdev, 'std::function::operator()': c_fcall, 'bland::ndarray::dev::operator=': c_deferred_assign})

    def build_read(cached, peak=False):
        def build(E, st, F):
            sc = mkscan(E, st)
            idx = z3.Int('index')
            st.pc += [idx >= -2 ** 31, idx < 2 ** 31]
            g = sc['_coarse_channel_offset'] + idx
            cc0 = E.fresh('bliss::coarse_channel', 'cached')
            loc0 = E.newcell(st, cc0)
            kc = z3.Int('cached_key')
            st.pc.append(kc == g if cached else kc != g)
            h5 = E.newcell(st, Opq('h5'))
            sc = sc.set(_coarse_channels=pmap([(kc, Ptr(loc0))], IV(0)), _h5_file_handle=Ptr(h5))
            pl = sc['_coarse_channel_pipeline']
            st.pc.append(pl['len'] >= 0)
            W['n'] = n = pl['len']
            this = E.newcell(st, sc)
            E.assumptions.add('queued transforms are pure functions of the channel they are given; the cache of channels is represented by one other entry and, if present, the requested one')
            inr = z3.And(idx >= 0, idx < sc['_num_coarse_channels'])

            def post(E, s, ret):
                out = [('in-range', inr)]
                if peak and not cached:
                    return out + [('absent-stays-absent', z3.BoolVal(isinstance(ret, Ptr) and ret.null is True or (isinstance(ret, Ptr) and ret.target() is None)))]
                if not isinstance(ret, Ptr) or ret.target() is None:
                    return out + [('returns-a-channel', z3.BoolVal(False))]
                cc = E.read(s, ret.target())
                new = E.read(s, this)['_coarse_channels']
                es = entries(new)
                src = E.read(s, es[-1][1].target())
                first = src['_fch1']
                out.append(('every-transform-in-order', z3.Implies(z3.BoolVal(True), cc['_fch1'] == Tn(n, first))))
                W['base'] = Tn(IV(0), first) == first
                s.pc.append(W['base'])
                if not cached:
                    cc = src
                    if 0:
                        pass
                if cached:
                    lv = [z3.Implies(n == 0, same(cc[k], cc0[k])) for k in ('_fch1', '_foff', '_nchans', '_coarse_channel_number', '_ntsteps') + tuple(META[1:])]
                    out.append(('returns-cached', z3.And(lv)))
                    out.append(('returns-a-copy', z3.BoolVal(ret.target().cell != loc0.cell)))
                else:
                    out += channel_facts(E, s, sc, cc, idx)
                    out.append(('data-slab', slab(E, s, cc, 'data', sc, idx)))
                    out.append(('mask-slab', slab(E, s, cc, 'mask', sc, idx)))
                    ok = len(es) == 2
                    out.append(('remembered', es[1][0] == g if ok else z3.BoolVal(False)))
                    out.append(('others-kept', z3.And(es[0][0] == kc, z3.BoolVal(es[0][1].target().cell == loc0.cell)) if ok else z3.BoolVal(False)))
                return out

            def thrown(E, s):
                return [('only-out-of-range', z3.Not(inr))]
            return {'args': [idx], 'this': this, 'post': post, 'throws': thrown}
        return build

    def loop_t(c):
        i = c.idx('transform')
        t, cc = c['transformed_cc'], c['cc']
        cc = c.E.read(c.st, cc.target()) if isinstance(cc, Ptr) else cc
        x = cc['_fch1']
        names = ('_foff', '_nchans', '_coarse_channel_number', '_ntsteps') + tuple(META[1:])
        return [('range', z3.And(i >= 0, i <= W['n'])),
                ('applied', Q([], lambda: t['_fch1'] == Tn(i, x), use=lambda: [Tn(IV(0), x) == x, Tn(i, x) == app(i - 1, Tn(i - 1, x))] if not z3.is_int_value(i) else [Tn(IV(0), x) == x])),
                ('unchanged-before-first', z3.Implies(i == 0, z3.And([same(t[k], cc[k]) for k in names])))]
    for nm, cached in (('fresh', False), ('cached', True)):
        S.function('bliss::scan::read_coarse_channel', build_read(cached), contracts=base, loops={0: loop_t}, name='read_coarse_channel.' + nm)
        S.function('bliss::scan::peak_coarse_channel', build_read(cached, True), contracts=base, loops={0: loop_t}, name='peak_coarse_channel.' + nm)

    # ------------------------------------------------ slicing
    def build_slice(E, st, F):
        sc = mkscan(E, st)
        start, count = z3.Ints('start count')
        st.pc += [start >= 0, start < 2 ** 31, count >= -1, count < 2 ** 31, z3.Implies(count >= 0, start + count <= sc['_num_coarse_channels']), start <= sc['_num_coarse_channels']]
        E.assumptions.add('precondition of slice_scan_channels: a range inside the scan, or count -1')
        n = z3.If(count == -1, sc['_num_coarse_channels'] - start, count)
        this = E.newcell(st, sc)

        def post(E, s, ret):
            i = z3.Int('i!sl')
            nf = sc['_fine_channels_per_coarse']
            return [('channels', ret['_num_coarse_channels'] == n), ('fine-per-coarse', ret['_fine_channels_per_coarse'] == nf), ('fine', ret['_nchans'] == n * nf),
                    ('same-file-position', ret['_coarse_channel_offset'] == sc['_coarse_channel_offset'] + start),
                    ('frequency-of-channel', Q(['i'], lambda i: ret['_fch1'] + ret['_foff'] * z3.ToReal(i * nf) == sc['_fch1'] + sc['_foff'] * z3.ToReal((start + i) * nf))),
                    ('metadata', z3.And([same(ret[m], sc[m]) for m in META + ['_nbits', '_ntsteps', '_tduration_secs']])),
                    ('source-unchanged', same(E.read(s, this), sc))]
        return {'args': [start, count], 'this': this, 'post': post}
    S.function('bliss::scan::slice_scan_channels', build_slice, contracts=base, name='slice_scan_channels')

    # ------------------------------------------------ lookup by frequency
    def build_freq(E, st, F):
        sc = mkscan(E, st)
        f = z3.Real('frequency')
        i = z3.Int('coarse')
        x = z3.Real('position')
        nf = sc['_fine_channels_per_coarse']
        nc = sc['_num_coarse_channels']
        st.pc += [sc['_foff'] != 0, nc >= 1, i >= 0, i < nc, x >= 0, x < 1, f == sc['_fch1'] + sc['_foff'] * (z3.ToReal(i) + x) * z3.ToReal(nf)]
        # the value the code computes, stated for the solver: (i+x)*nf/nchans*nc = i+x
        st.pc += [z3.ToReal(sc['_nchans']) == z3.ToReal(nc) * z3.ToReal(nf)]
        E.assumptions.add('precondition: non-zero channel width, frequency inside the scan')

        def post(E, s, ret):
            return [('channel-holding-frequency', ret == i)]
        return {'args': [f], 'this': E.newcell(st, sc), 'post': post}
    S.function('bliss::scan::get_coarse_channel_with_frequency', build_freq, contracts=base, name='get_coarse_channel_with_frequency')

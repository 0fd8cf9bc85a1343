"""reductions: public functions down to the kernels (specs.reductions)

The result array has the kept extents in order ([1] if all axes are reduced), the source's element type and device; the
kernel instance is the one of the written reduction and of the arrays' run-time element types; the axes are passed
unchanged, an empty list meaning all of them; other devices and element types are rejected."""
import re
import z3
from dv.session import Q
from dv.engine import IV, I, R, B, N, Loc, Ptr, Unsupported
from dv import ndmodel as M, stdlib
from .dispatch import Sym, contracts as dcontracts, targs, is_val
from .odometer import gvec
from .reductions import FILE, find_contract, assigned, keys

NAMES = ['max', 'mean', 'sum', 'stddev', 'masked_mean', 'masked_stddev', 'mean_stddev', 'masked_mean_stddev']
VARS = ['var', 'masked_var']
CPUSTOP = [r'^\w+_impl::call<', r'^bland::ndarray::(ndarray|shape|device|ndim|numel)\(', r'^bland::cpu::square']
UNITS = [('bland/bland/ops/statistical.cpp', [r'^bland::(%s|count_true)\(' % '|'.join(NAMES + VARS)], [r'^bland::cpu::', r'^bland::square', r'^bland::ndarray::(ndarray|shape|device|ndim|numel)\(']),
         (FILE, [r'^bland::cpu::(max|mean|sum|stddev|masked_mean|masked_stddev|count_true)\('], CPUSTOP), M.UNIT_DT]
KERNEL_TYPES = {(2, 32): 'float', (0, 32): 'int', (0, 64): 'long', (1, 8): 'unsigned char', (1, 32): 'unsigned int'}


class Axes:
    def __init__(self):
        self.ln = z3.Int('axes_given')
        self.R = z3.Array('R', I, I)
        self.pos = z3.Function('position', I, I)
        self.K = z3.Function('kept_before', I, I)

    def red(self, d):
        p = self.pos(d)
        return z3.And(p >= 0, p < self.ln, self.R[p] == d)

    def ok(self, p, nd):
        return z3.Implies(z3.And(p >= 0, p < self.ln), z3.And(self.R[p] >= 0, self.R[p] < nd, self.pos(self.R[p]) == p))

    def kstep(self, d):
        return self.K(d + 1) == self.K(d) + z3.If(self.red(d), IV(0), IV(1))


def record(tag):
    def h(E, st, e):
        def f(s, vs):
            vs = [E.read(s, v) if isinstance(v, Loc) else (E.read(s, v.loc) if isinstance(v, Ptr) and v.idx is None and v.loc is not None else v) for v in vs]
            s.frames[0].env['g:red'] = s.frames[0].env.get('g:red', ()) + ((tag, e['fn'], vs),)
            out = [v for v in vs if isinstance(v, N) and v.kind == 'nd']
            t = e['t']
            if 'pair' in t:
                outs = out[-2:]
                return [(s, N('struct', {'first': outs[0], 'second': outs[1]}, t))]
            if t == 'long':
                return [(s, z3.Int('counted'))]
            if tag == 'square':
                return [(s, out[-1] if len(out) > 1 else N('nd', dict(out[0].f, p=Ptr(E.newcell(s, N('buf', {'size': z3.Int('sz'), 'data': z3.Array('sq', I, R)})), IV(0))), out[0].meta))]
            return [(s, out[-1] if '_impl::' not in e['fn'] else out[0])]
        return E.bind(E.eval_args(E.ptypes_of(e['fn']), e['a'], st), f)
    return h


def base(E, S):
    C = dcontracts(E, S)
    C['std::find'] = find_contract
    for nm in NAMES + VARS + ['count_true', 'square']:
        C['bland::cpu::' + nm] = record(nm)
    C['bland::square'] = record('square')
    return C


def arg_of(E, st, v, t):
    return E.newcell(st, v) if t.rstrip().endswith('&') or t.startswith('&') else v


def verify(S):
    for nm in NAMES + VARS:
        for k in keys(S, 'bland::' + nm):
            public(S, nm, k)
    for k in keys(S, 'bland::count_true'):
        counter(S, k)
    for nm in ['max', 'mean', 'sum', 'stddev', 'masked_mean', 'masked_stddev']:
        for k in keys(S, 'bland::cpu::' + nm):
            inner(S, nm, k)
    for k in keys(S, 'bland::cpu::count_true'):
        inner(S, 'count_true', k)


def public(S, nm, key):
    F0 = S.P['functions'][key]
    masked = nm.startswith('masked')
    given = any(p['n'].startswith('out') for p in F0['params'])
    pair = nm.endswith('mean_stddev')
    a, m, o1, o2 = Sym('a'), Sym('mask'), Sym('out1'), Sym('out2')
    ax = Axes()
    G = {}

    def build(E, st, F):
        M.install(E, st)
        p, d = z3.Ints('p!b d!b')
        E.compat = z3.BoolVal(True)
        E.C.update(base(E, S))
        E.find_at = lambda v, k: [ax.pos(v), ax.ok(k, a.nd)]
        for x in (a, m, o1, o2):
            st.pc += x.pre()
        st.pc += [a.nd >= 1, ax.ln >= 0, ax.ln <= a.nd, ax.K(0) == 0, z3.ForAll([p], ax.ok(p, a.nd), patterns=[ax.R[p]])]
        vals = {'a': a, 'mask': m, 'out': o1, 'out_mean': o1, 'out_stddev': o2}
        args = []
        for x in F['params']:
            v = gvec(ax.ln, ax.R) if 'vector' in x['t'] else vals[x['n']].val(E, st)
            G[x['n']] = v
            args.append(arg_of(E, st, v, x['t']))

        def post(E, s, ret):
            calls = s.frames[0].env.get('g:red', ())
            base_nm = nm.replace('var', 'stddev')
            want = 2 if 'var' in nm else 1
            res = [('one-kernel-call', z3.BoolVal(len(calls) == want and calls[0][0] == base_nm))]
            if len(calls) != want or calls[0][0] != base_nm:
                return res
            vs = calls[0][2]
            nds = [v for v in vs if v.kind == 'nd']
            axes = [v for v in vs if v.kind == 'vec'][0]
            outs = nds[2:] if masked else nds[1:]
            res.append(('operands', z3.BoolVal(is_val(nds[0], a) and (not masked or is_val(nds[1], m)))))
            res.append(('axes', Q(['p'], lambda p: z3.And(z3.If(ax.ln == 0, axes['len'] == a.nd, axes['len'] == ax.ln), z3.Implies(z3.And(p >= 0, p < axes['len']), axes['data'][p] == z3.If(ax.ln == 0, p, ax.R[p]))))))
            names = [x['n'] for x in F['params']]
            fresh = s.frames[0].env.get('g:fresh', ())
            for w, ov in enumerate(outs):
                if given:
                    res.append(('result-array.%d' % w, z3.BoolVal(is_val(ov, (o1, o2)[w]))))
                else:
                    res.append(('result-is-fresh.%d' % w, z3.BoolVal(ov['p'].loc.cell in fresh and all(ov['p'].loc.cell != q['p'].loc.cell for q in outs[:w]))))
                    res.append(('result-type.%d' % w, z3.And(ov['dt']['code'] == a.code, ov['dt']['bits'] == a.bits, ov['dev']['device_type'] == a.devt, ov['dev']['device_id'] == a.devi)))
                    sh = ov['shape']
                    allr = z3.Or(ax.ln == 0, ax.K(a.nd) == 0)
                    res.append(('result-rank.%d' % w, sh['len'] == z3.If(allr, IV(1), ax.K(a.nd))))
                    res.append(('result-shape.%d' % w, Q(['d'], lambda d, sh=sh: z3.If(allr, sh['data'][0] == 1, z3.Implies(z3.And(d >= 0, d < a.nd, z3.Not(ax.red(d))), sh['data'][ax.K(d)] == a.shape[d])))))
            if 'var' in nm:
                sq = [v for v in calls[1][2] if v.kind == 'nd']
                res.append(('squares-the-deviation', z3.BoolVal(sq[0]['p'].loc.cell == outs[0]['p'].loc.cell and calls[1][0] == 'square')))
                if given:
                    res.append(('stores-the-variance', z3.BoolVal(len(sq) == 2 and sq[1]['p'].loc.cell == outs[0]['p'].loc.cell)))
            elif pair:
                fs = [E.read(s, ret[f]) if isinstance(ret[f], Loc) else ret[f] for f in ('first', 'second')]
                res.append(('returns-results', z3.BoolVal(all(f['p'].loc.cell == ov['p'].loc.cell for f, ov in zip(fs, outs)))))
            else:
                res.append(('returns-result', z3.BoolVal(ret['p'].loc.cell == outs[0]['p'].loc.cell)))
            return res

        def throws(E, s):
            good = [a.devt == 1]
            if masked:
                good += [m.devt == a.devt, m.devi == a.devi]
            if given:
                for o in ((o1, o2) if pair else (o1,)):
                    good += [o.devt == a.devt, o.devi == a.devi]
            return [('only-other-devices', z3.Not(z3.And(good)))]
        return {'args': args, 'post': post, 'throws': throws}

    def match(E, n, st, ordn):
        mod = assigned(n)
        var = n['init']['a'][0]['n'] if n.get('init') and n['init'].get('a') else None

        def push(c):
            x, k = c['reduced_axes'], c[var]
            return [('range', z3.And(k >= 0, k <= a.nd, x['len'] == k)), ('axes', Q(['p'], lambda p: z3.Implies(z3.And(p >= 0, p < k), x['data'][p] == p), pats=lambda p: x['data'][p]))]

        def shape(c):
            k, x = c[var], c['out_shape']
            return [('range', z3.And(k >= 0, k <= a.nd)), ('kept', Q([], lambda: z3.And(x['len'] == ax.K(k), ax.K(k) >= 0, ax.K(k) <= k), use=lambda: [ax.kstep(k - 1)])),
                    ('order', Q(['d'], lambda d: z3.Implies(z3.And(d >= 0, d < k, z3.Not(ax.red(d))), z3.And(ax.K(d) >= 0, ax.K(d) < ax.K(k))), pats=lambda d: ax.K(d), use=lambda d: [ax.kstep(k - 1), ax.kstep(d)])),
                    ('extents', Q(['d'], lambda d: z3.Implies(z3.And(d >= 0, d < k, z3.Not(ax.red(d))), x['data'][ax.K(d)] == a.shape[d]), pats=lambda d: ax.K(d), use=lambda d: [ax.kstep(k - 1)]))]
        return {('reduced_axes',): push, ('out_shape',): shape}.get(tuple(sorted(mod)))
    S.function('bland::' + nm, build, sig='^' + re.escape(key) + '$', name=nm + ('(out given)' if given else ''), loops={'match': match}, opts={'merge_arrays': True})


def counter(S, key):
    a = Sym('a')

    def build(E, st, F):
        M.install(E, st)
        E.compat = z3.BoolVal(True)
        E.C.update(base(E, S))
        st.pc += a.pre()

        def post(E, s, ret):
            calls = s.frames[0].env.get('g:red', ())
            return [('one-kernel-call', z3.BoolVal(len(calls) == 1 and calls[0][0] == 'count_true' and is_val(calls[0][2][0], a))), ('returned', ret == z3.Int('counted'))]
        return {'args': [arg_of(E, st, a.val(E, st), F['params'][0]['t'])], 'post': post, 'throws': lambda E, s: [('only-other-devices', a.devt != 1)]}
    S.function('bland::count_true', build, sig='^' + re.escape(key) + '$', name='count_true', opts={'merge_arrays': True})


def inner(S, nm, key):
    F0 = S.P['functions'][key]
    a, m, o = Sym('a'), Sym('mask'), Sym('out')
    ln, RR = z3.Int('axes_given'), z3.Array('R', I, I)

    def build(E, st, F):
        M.install(E, st)
        E.compat = z3.BoolVal(True)
        E.C.update(base(E, S))
        for k, f in list(S.P['functions'].items()):
            pass
        for q in set(re.findall(r'(\w+_impl)::call', repr([n for n in walkcalls(S)]))):
            E.C[q + '::call'] = record('kernel')
        for x in (a, m, o):
            st.pc += x.pre()
        st.pc += [ln >= 0]
        args = []
        for x in F['params']:
            v = gvec(ln, RR) if 'vector' in x['t'] else {'a': a, 'mask': m, 'out': o, 'x': a}[x['n']].val(E, st)
            args.append(arg_of(E, st, v, x['t']))

        def post(E, s, ret):
            calls = s.frames[0].env.get('g:red', ())
            res = [('one-kernel-call', z3.BoolVal(len(calls) == 1))]
            if len(calls) != 1:
                return res
            _, fn, vs = calls[0]
            want = {'count_true': 'count_impl'}.get(nm, nm + '_impl')
            res.append(('kernel', z3.BoolVal(fn.startswith(want + '::call<'))))
            ta = targs(fn)
            ct = lambda t: [k for k, v in KERNEL_TYPES.items() if v == t] or [(99, 99)]
            nds = [v for v in vs if isinstance(v, N) and v.kind == 'nd']
            if nm == 'count_true':
                c, b = ct(ta[0])[0]
                return res + [('operand', z3.BoolVal(is_val(nds[0], a))), ('element-type', z3.And(a.code == c, a.bits == b)), ('returned', ret == z3.Int('counted'))]
            axes = [v for v in vs if isinstance(v, N) and v.kind == 'vec'][0]
            res.append(('operands', z3.BoolVal(is_val(nds[0], o) and is_val(nds[1], a) and (not nm.startswith('masked') or is_val(nds[2], m)))))
            res.append(('axes', z3.And(axes['len'] == ln, z3.BoolVal(z3.eq(axes['data'], RR)))))
            c, b = ct(ta[0])[0]
            res.append(('result-element-type', z3.And(o.code == c, o.bits == b)))
            c, b = ct(ta[-1])[0]
            res.append(('operand-element-type', z3.And(a.code == c, a.bits == b)))
            return res

        def throws(E, s):
            ok = lambda x: z3.Or([z3.And(x.code == c, x.bits == b) for c, b in KERNEL_TYPES])
            if nm == 'count_true':
                return [('only-unsupported', z3.Not(z3.And(ok(a), z3.Not(z3.And(a.code == 0, a.bits == 64)))))]
            same = [o.code == a.code, o.bits == a.bits] if nm == 'max' else []
            return [('only-unsupported', z3.Not(z3.And([ok(a), ok(o)] + same)))]
        return {'args': args, 'post': post, 'throws': throws}
    S.function('bland::cpu::' + nm, build, sig='^' + re.escape(key) + '$', name='cpu::' + nm, opts={'merge_arrays': True})


def walkcalls(S):
    """kernels named in the extracted dispatch code"""
    def walk(n):
        if isinstance(n, dict):
            if n.get('k') == 'Call' and '_impl::call' in str(n.get('q')):
                yield n['q']
            for v in n.values():
                yield from walk(v)
        elif isinstance(n, list):
            for v in n:
                yield from walk(v)
    return sorted({q for f in S.P['functions'].values() for q in walk(f['body'])})

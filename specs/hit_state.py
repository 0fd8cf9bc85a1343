"""the saved state of a hit (bliss/core/hit.cpp): setting the state another hit reports makes an equal hit

The state is whatever get_state returns: the property is proved for the composition of the two functions, so it does not
depend on how the state is laid out."""
import z3
from dv.session import Q, obl_q
from dv.engine import IV, RV, I, R, B, N, Loc, Opq, Unsupported, leaves, is_z
from . import loopkit, levels, capnp
from .levels import rd

UNITS = [('bliss/core/hit.cpp', [r'^bliss::hit::(get_state|set_state)'], [r'^fmt::'])]
HIT = 'bliss::hit'
INTS = {'start_freq_index', 'rate_index', 'time_span_steps', 'binwidth', 'coarse_channel_number'}


def stored(n):
    """the map whose elements a loop sets"""
    if isinstance(n, dict):
        if n.get('k') == 'OpCall' and n.get('q') == 'std::map::operator[]' and n['a'][0].get('lv'):
            return n['a'][0]
        n = list(n.values())
    for x in n if isinstance(n, list) else []:
        r = stored(x)
        if r is not None:
            return r


def verify(S):
    def hit(E, st, n):
        v = E.fresh(HIT, n)
        m = v['rfi_counts']
        k = z3.Int('k!flag')
        st.pc += [z3.ForAll([k], z3.Implies(m['has'][k], z3.And(k >= 0, k < 64)), patterns=[m['has'][k]]),
                  z3.ForAll([k], z3.And(m['val'][k] >= 0, m['val'][k] < 256), patterns=[m['val'][k]])]
        for f, x in v.f.items():
            if f in INTS or is_z(x) and x.sort() == I:
                st.pc.append(z3.And(x >= -2 ** 31, x < 2 ** 31) if f == 'time_span_steps' else z3.And(x >= -2 ** 63, x < 2 ** 63))
        E.assumptions.add('precondition: flag values of a hit are combinations of the flags (below 64)')
        return v

    def copying(E, node, st, ordn):
        """loops that copy one map into another"""
        def inv(c):
            i, facts = loopkit.counter(c)
            en = c.st.frames[-1].env.get('g:enum')
            if en is None:
                raise Unsupported('loop of another kind')
            en = E.read(c.st, en)
            dst = stored(node['body'])
            if dst is None:
                raise Unsupported('map being filled not recognised')
            d = rd(E, c.st, E.lval(dst, c.st.fork())[0][1])
            d0 = rd(E, c.entry, E.lval(dst, c.entry.fork())[0][1])
            sv = en['map']
            out = [('range', z3.And([i >= 0, i <= en['n']] + facts)),
                   ('keys-so-far', Q(['x'], lambda x: d['has'][x] == z3.Or(d0['has'][x], z3.And(sv['has'][x], en['pos'][x] < i)), pats=lambda x: d['has'][x])),
                   ('counts-so-far', Q(['x'], lambda x: z3.Implies(z3.And(sv['has'][x], en['pos'][x] < i), d['val'][x] == sv['val'][x]), pats=lambda x: d['val'][x]))]
            return out
        return inv

    def build(E, st, F):
        h = hit(E, st, 'h')
        fresh = E.newcell(st, E.fresh(HIT, 'restored'))
        src = E.newcell(st, h)

        def post(E, s, r):
            after = E.read(s, src)
            out = [('the-hit-itself-unchanged', z3.And([f for _, f in same(after, h)]))]
            sets = [k for k, f in E.P['functions'].items() if f['q'] == HIT + '::set_state']
            if len(sets) != 1:
                raise Unsupported('set_state not found')
            for s2, _ in E.inline(sets[0], fresh, [E.newcell(s, r) if isinstance(r, N) else r], s, F['ln']):
                if s2.sig and s2.sig[0] == 'throw':
                    E.oblige(s2, 'no-exception', z3.BoolVal(False), F['ln'], 'spec')
                else:
                    for nm, f in same(E.read(s2, fresh), h):
                        obl_q(E, s2, 'ensures.restored-' + nm, f, F['ln'])
            return out
        return {'this': src, 'args': [], 'post': post}

    def same(a, b):
        out = []
        for f in a.f:
            x, y = a[f], b[f]
            if isinstance(x, N) and x.kind == 'map':
                k = z3.Int('any_flag')
                out.append((f, z3.And(x['has'][k] == y['has'][k], z3.Implies(x['has'][k], x['val'][k] == y['val'][k]))))
            else:
                out.append((f, x == y))
        return out
    S.function(HIT + '::get_state', build, loops={'match': copying}, opts=capnp.OPT, name='state', after=(HIT + '::set_state',))

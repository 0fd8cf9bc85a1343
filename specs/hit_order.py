"""contracts of hit::operator< and hit::operator== (bliss/core/include/core/hit.hpp)

Each operator is reduced, over all paths, to a formula over the two hits' fields; the order laws are then
lemmas over those formulas, for all hits."""
import z3
from dv.session import Session
from dv.engine import Engine, Frame, State, Obl, N, IV, I, R, B, Loc, Unsupported, leaves, is_z
from dv import stdlib

UNITS = [('bliss/core/hit.cpp', [r'^bliss::hit::operator'])]

MAPRANK = z3.Function('map_rank', z3.ArraySort(I, B), z3.ArraySort(I, I), I)
MAPEQ = z3.Function('map_canon', z3.ArraySort(I, B), z3.ArraySort(I, I), I)


def map_lt(E, st, e):
    def g(s, vs):
        a, b = vs
        if not (isinstance(a, N) and a.kind == 'map' and isinstance(b, N) and b.kind == 'map'):
            return stdlib.iter_op(E, st, e)
        E.assumptions.add('std::map comparison: operator< is a strict total order and operator== its equality (represented by a rank)')
        x, y = MAPRANK(a['has'], a['val']), MAPRANK(b['has'], b['val'])
        op = e['q'].split('operator')[-1].strip()
        return [(s, {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[op])]
    return E.bind(stdlib.vals_ptr(E, e['a'], st), g)


def consts(f, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if f.get_id() in seen:
        return acc
    seen.add(f.get_id())
    if z3.is_const(f) and f.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        acc.add(f.decl().name())
    for c in f.children():
        consts(c, acc, seen)
    return acc


def verify(S):
    rel = {}
    for op in ('<', '=='):
        def build(E, st, F, op=op):
            a, b = E.fresh('bliss::hit', 'a'), E.fresh('bliss::hit', 'b')
            la, lb = E.newcell(st, a), E.newcell(st, b)
            paths = []

            def post(E, s, ret):
                paths.append((list(s.pc), ret))
                return [('operands-unchanged', z3.BoolVal(s.cells[la.cell] is a and s.cells[lb.cell] is b))]
            rel[op] = (a, b, paths)
            return {'args': [lb], 'this': la, 'post': post}
        S.function('bliss::hit::operator' + op, build, contracts={'std::operator' + o: map_lt for o in ('<', '>', '==', '!=', '<=', '>=')},
                   opts={'name_big': 100000}, name='operator' + op)
    if S.rep.unsupported:
        return
    fields = None

    def formula(op, x, y):
        a, b, paths = rel[op]
        sub, names = [], set()
        for t, u in ((a, x), (b, y)):
            for (p, l), (_, m) in zip(leaves(t), leaves(u)):
                sub.append((l, m))
                names.add(l.decl().name())
        f = z3.Or([z3.And(pc + [ret]) for pc, ret in paths])
        # 8-bit / width facts about loaded fields are true of every hit, not path conditions
        extra = consts(f) - names
        if extra:
            raise Unsupported('operator%s is not a function of its operands: %s' % (op, sorted(extra)[:4]))
        return z3.substitute(f, *sub)

    import copy
    E = Engine(S.P)
    hits = {n: E.fresh('bliss::hit', n) for n in 'xyz'}
    x, y, z = hits['x'], hits['y'], hits['z']
    lt = lambda p, q: formula('<', p, q)
    eq = lambda p, q: formula('==', p, q)

    def same(p, q, skip):
        cs = []
        for k in p.f:
            if k in skip:
                continue
            if k == 'rfi_counts':
                cs.append(MAPRANK(p[k]['has'], p[k]['val']) == MAPRANK(q[k]['has'], q[k]['val']))
            else:
                cs += [l == m for (_, l), (_, m) in zip(leaves(p[k]), leaves(q[k]))]
        return z3.And(cs)
    unequal = z3.And(z3.Not(lt(x, y)), z3.Not(lt(y, x)))
    L = [('irreflexive', [], z3.Not(lt(x, x))),
         ('asymmetric', [lt(x, y)], z3.Not(lt(y, x))),
         ('transitive', [lt(x, y), lt(y, z)], lt(x, z)),
         ('incomparable-are-equal', [z3.Not(lt(x, y)), z3.Not(lt(y, x))], eq(x, y)),
         ('equal-are-incomparable', [eq(x, y)], unequal),
         ('equality-is-reflexive', [], eq(x, x)),
         ('equal-implies-fields-equal', [eq(x, y)], same(x, y, ('coarse_channel_number',))),
         ('fields-equal-implies-equal', [same(x, y, ('coarse_channel_number',))], eq(x, y)),
         ('ordered-by-channel-first', [x['start_freq_index'] < y['start_freq_index']], lt(x, y))]
    for n, h, g in L:
        S.rep.obls.append(Obl('operator</' + n, list(h), g, 0, 'operator<', 'spec', []))
        S.rep.lemmas.append(n)

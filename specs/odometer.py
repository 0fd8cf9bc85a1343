"""specification of n-dimensional iteration, for any rank

idx(n,d)   digit d of the n-th multi-index of shape S in row-major (lexicographic) order, defined by its
           start (all zero) and its successor: the last digit that is not at its maximum (carry(n)) is
           incremented, everything after it returns to zero.
D_x(n,d)   sum of idx(n,i)*stride_x(i) over the first d dimensions: address of the element relative to the
           array's offset.
The lemmas are proved on every run by explicit induction and only then used."""
import z3
from dv.session import Q
from dv.engine import IV, I, Obl


def lem(S, name, hyps, goal):
    S.rep.obls.append(Obl('lemma/' + name, list(hyps), goal, 0, 'lemma', 'lemma', []))
    S.rep.lemmas.append(name)


class Odo:
    def __init__(self, tag=''):
        self.tag = tag
        self.nd = z3.Int('nd' + tag)
        self.numel = z3.Int('numel' + tag)
        self.S = z3.Array('S' + tag, I, I)
        self.idx = z3.Function('idx' + tag, I, I, I)
        self.carry = z3.Function('carry' + tag, I, I)

    # ---- definitional instances
    def digit0(self, d):
        return self.idx(0, d) == 0

    def succ(self, n, d):
        return self.idx(n + 1, d) == z3.If(d < self.carry(n), self.idx(n, d), z3.If(d == self.carry(n), self.idx(n, d) + 1, IV(0)))

    def carry_def(self, n, d=None):
        c = self.carry(n)
        out = [c >= -1, c < self.nd, z3.Implies(c >= 0, self.idx(n, c) != self.S[c] - 1)]
        if d is not None:
            out.append(z3.Implies(z3.And(d > c, d < self.nd), self.idx(n, d) == self.S[d] - 1))
        return out

    def carry_axiom(self):
        n, d = z3.Ints('n!ca d!ca')
        return z3.ForAll([n, d], z3.Implies(z3.And(d > self.carry(n), d < self.nd), self.idx(n, d) == self.S[d] - 1), patterns=[self.idx(n, d)])

    def digit_range(self, n, d):
        """lemma digit-range"""
        return z3.Implies(z3.And(n >= 0, d >= 0, d < self.nd), z3.And(self.idx(n, d) >= 0, self.idx(n, d) < self.S[d]))

    def shape_ok(self, d):
        """extents positive (iteration only happens over non-empty shapes)"""
        return z3.Implies(z3.And(d >= 0, d < self.nd), self.S[d] >= 1)

    def lemmas(self, S):
        n, d = z3.Ints('n d')
        lem(S, 'digit-range.base' + self.tag, [self.digit0(d), self.shape_ok(d)], self.digit_range(IV(0), d))
        lem(S, 'digit-range.step' + self.tag, [n >= 0, self.digit_range(n, d), self.succ(n, d), self.shape_ok(d)] + self.carry_def(n, d), self.digit_range(n + 1, d))

    def view(self, name, strides):
        return View(self, name, strides)


class View:
    """addresses of one array under the iteration; strides: z3 Array (effective strides: zero where broadcast)"""

    def __init__(self, odo, name, strides):
        self.o, self.name, self.st = odo, name, strides
        self.D = z3.Function('D_' + name, I, I, I)

    def d0(self, n):
        return self.D(n, 0) == 0

    def dstep(self, n, d):
        return self.D(n, d + 1) == self.D(n, d) + self.o.idx(n, d) * self.st[d]

    def at(self, n):
        return self.D(n, self.o.nd)

    def prefix(self, n, d):
        """lemma: digits before the carry are unchanged"""
        return z3.Implies(z3.And(d >= 0, d <= self.o.carry(n)), self.D(n + 1, d) == self.D(n, d))

    def zeros(self, n, d):
        """lemma: digits after the carry are zero"""
        return z3.Implies(z3.And(d >= self.o.carry(n) + 1, d <= self.o.nd), self.D(n + 1, d) == self.D(n + 1, self.o.carry(n) + 1))

    def next(self, n):
        """lemma: address of the successor"""
        o, c = self.o, self.o.carry(n)
        return z3.If(c >= 0, self.at(n + 1) == self.D(n, c + 1) + self.st[c], self.at(n + 1) == 0)

    def first(self):
        """lemma: the first element is at the array's offset"""
        return self.at(IV(0)) == 0

    def lemmas(self, S):
        o = self.o
        n, d = z3.Ints('n d')
        nm = self.name
        # D over dimensions, by induction on d
        lem(S, 'prefix.%s.base' % nm, [self.d0(n), self.d0(n + 1)], self.prefix(n, IV(0)))
        lem(S, 'prefix.%s.step' % nm, [d >= 0, self.prefix(n, d), self.dstep(n, d), self.dstep(n + 1, d), o.succ(n, d)], self.prefix(n, d + 1))
        lem(S, 'zeros.%s.base' % nm, [], self.zeros(n, o.carry(n) + 1))
        lem(S, 'zeros.%s.step' % nm, [d >= o.carry(n) + 1, self.zeros(n, d), self.dstep(n + 1, d), o.succ(n, d)], self.zeros(n, d + 1))
        c = o.carry(n)
        lem(S, 'next.%s' % nm, o.carry_def(n) + [o.nd >= 1, self.prefix(n, c), self.zeros(n, o.nd), self.d0(n + 1), self.dstep(n + 1, c), self.dstep(n, c), o.succ(n, c)], self.next(n))
        F0 = lambda d: z3.Implies(z3.And(d >= 0, d <= o.nd), self.D(0, d) == 0)
        lem(S, 'first.%s.base' % nm, [self.d0(IV(0))], F0(IV(0)))
        lem(S, 'first.%s.step' % nm, [d >= 0, F0(d), self.dstep(IV(0), d), o.digit0(d)], F0(d + 1))


def contiguous_lemma(S, o, v):
    """for row-major contiguous strides (stride(nd-1)=1, stride(d-1)=stride(d)*S(d)) the address of the r-th
    multi-index is r, for every r up to the first wrap-around: the enumeration visits every element of a
    fresh array exactly once, in storage order."""
    n, d = z3.Ints('n d')
    nd = o.nd
    contig = lambda d: z3.And(z3.Implies(z3.And(d >= 0, d + 1 < nd), v.st[d] == v.st[d + 1] * o.S[d + 1]), v.st[nd - 1] == 1)
    # tail(d) = D(n,nd) - D(n,d) when digits d.. are all at maximum: st(d-1) - 1
    T = lambda d: z3.Implies(z3.And(d > o.carry(n), d >= 1, d <= nd), v.at(n) - v.D(n, d) == v.st[d - 1] - 1)
    lem(S, 'contiguous.%s.tail.base' % v.name, [nd >= 1, contig(nd)], T(nd))
    lem(S, 'contiguous.%s.tail.step' % v.name, [nd >= 1, d >= 2, d <= nd, T(d), v.dstep(n, d - 1), contig(d - 2)] + o.carry_def(n, d - 1), T(d - 1))
    c = o.carry(n)
    # successor: +1
    lem(S, 'contiguous.%s.next' % v.name, [nd >= 1, c >= 0, v.next(n), T(c + 1), contig(c)] + o.carry_def(n), v.at(n + 1) == v.at(n) + 1)
    last = z3.Implies(c == -1, v.at(n) == v.st[0] * o.S[0] - 1)
    lem(S, 'contiguous.%s.last' % v.name, [nd >= 1, T(IV(1)), v.d0(n), v.dstep(n, 0)] + o.carry_def(n, 0), last)
    full = lambda n: z3.Implies(z3.And(n >= 0, n < v.st[0] * o.S[0]), v.at(n) == n)
    lem(S, 'contiguous.%s.base' % v.name, [v.first()], full(IV(0)))
    lem(S, 'contiguous.%s.step' % v.name, [n >= 0, full(n), last, z3.Implies(c >= 0, v.at(n + 1) == v.at(n) + 1)] + o.carry_def(n), full(n + 1))


# ------------------------------------------------------------------ arrays of any rank
def gvec(ln, data):
    from dv.engine import N
    return N('vec', {'len': ln, 'data': data}, 'long')


def gnd(E, st, name, nd, shape, strides, offsets, elem, size, data):
    from dv.engine import N, Ptr
    from dv import ndmodel as M
    loc = E.newcell(st, N('buf', {'size': size, 'data': data}))
    return N('nd', {'shape': gvec(nd, shape), 'strides': gvec(nd, strides), 'offsets': gvec(nd, offsets), 'p': Ptr(loc, IV(0)),
                    'dt': M.dtval(elem), 'dev': M.devval(E)}, elem)


def canon(F):
    """structure of a function with the types of expressions and the names of element operations left out:
    two instances of one template that agree here differ only in element types, which the proofs of the
    iteration do not depend on (conversions are nodes of the structure and do make a difference)"""
    import json, re

    def strip(n):
        if isinstance(n, dict):
            return {k: strip(v) for k, v in n.items() if k not in ('t', 'ta', 'fn', 'id')}
        if isinstance(n, list):
            return [strip(x) for x in n]
        return n
    s = json.dumps([strip(F['body']), len(F['params'])], sort_keys=True)
    return re.sub(r'\b(elementwise_\w+_op(_ts)?|\w+_impl)::call', 'OP', s)


def classes(S, q):
    """instances of q grouped by canonical text: [(representative key, number of members)]"""
    by = {}
    for k, F in S.P['functions'].items():
        if F['q'] == q:
            by.setdefault(canon(F), []).append(k)
    return sorted(((sorted(v, key=lambda k: (0 if 'float' in str(k) else 1, str(k)))[0], sorted(map(str, v))) for v in by.values()), key=lambda x: str(x[0]))


def last_index_lemma(S, o, v):
    """numel = stride(0)*S(0) for contiguous strides: the enumeration wraps around exactly after the last
    element, so a step that carries somewhere stays below numel"""
    n, d = z3.Ints('n d')
    nd = o.nd
    contig = lambda d: z3.And(z3.Implies(z3.And(d >= 0, d + 1 < nd), v.st[d] == v.st[d + 1] * o.S[d + 1]), v.st[nd - 1] == 1)
    pos = lambda d: z3.Implies(z3.And(d >= 0, d < nd), v.st[d] >= 1)
    lem(S, 'stride-positive.base', [nd >= 1, contig(nd - 1)], pos(nd - 1))
    lem(S, 'stride-positive.step', [d >= 1, pos(d), contig(d - 1), o.shape_ok(d), z3.Implies(z3.And(v.st[d] >= 1, o.S[d] >= 1), v.st[d] * o.S[d] >= 1)], pos(d - 1))
    x, y = z3.Ints('x y')
    lem(S, 'product-positive', [], z3.Implies(z3.And(x >= 1, y >= 1), x * y >= 1))
    lem(S, 'product-monotone', [], z3.Implies(z3.And(x >= 0, x <= y, d >= 1), x * d <= y * d))
    rest = lambda d: z3.Implies(z3.And(d >= 1, d <= nd, n >= 0), v.at(n) - v.D(n, d) <= v.st[d - 1] - 1)
    lem(S, 'rest.base', [nd >= 1, contig(nd)], rest(nd))
    mono = z3.Implies(z3.And(o.idx(n, d - 1) >= 0, o.idx(n, d - 1) <= o.S[d - 1] - 1, v.st[d - 1] >= 1), o.idx(n, d - 1) * v.st[d - 1] <= (o.S[d - 1] - 1) * v.st[d - 1])
    lem(S, 'rest.step', [nd >= 1, d >= 2, d <= nd, rest(d), v.dstep(n, d - 1), contig(d - 2), pos(d - 1), o.digit_range(n, d - 1), mono], rest(d - 1))
    mono0 = z3.Implies(z3.And(o.idx(n, 0) >= 0, o.idx(n, 0) <= o.S[0] - 1, v.st[0] >= 1), o.idx(n, 0) * v.st[0] <= (o.S[0] - 1) * v.st[0])
    total = z3.Implies(n >= 0, v.at(n) <= v.st[0] * o.S[0] - 1)
    lem(S, 'address-below-total', [nd >= 1, rest(IV(1)), v.dstep(n, 0), v.d0(n), pos(IV(0)), o.digit_range(n, 0), mono0], total)
    full = lambda n: z3.Implies(z3.And(n >= 0, n < v.st[0] * o.S[0]), v.at(n) == n)
    lem(S, 'last-index', [o.numel == v.st[0] * o.S[0], full(n), z3.Implies(o.carry(n) >= 0, v.at(n + 1) == v.at(n) + 1), z3.substitute(total, (n, n + 1))], last_index(o, n))


def last_index(o, n):
    return z3.Implies(z3.And(n >= 0, n < o.numel, o.carry(n) >= 0), n + 1 < o.numel)


class Block:
    """j steps inside the last dimension"""

    def __init__(self, o, views):
        self.o, self.views = o, views

    def ok(self, n, j):
        return z3.And(n >= 0, n < self.o.numel, j >= 0, self.o.idx(n, self.o.nd - 1) + j < self.o.S[self.o.nd - 1])

    def digits(self, n, j, d):
        o = self.o
        return z3.Implies(z3.And(self.ok(n, j), d >= 0, d < o.nd), o.idx(n + j, d) == z3.If(d == o.nd - 1, o.idx(n, d) + j, o.idx(n, d)))

    def below(self, n, j):
        return z3.Implies(self.ok(n, j), n + j < self.o.numel)

    def address(self, v, n, j):
        return z3.Implies(self.ok(n, j), v.at(n + j) == v.at(n) + j * v.st[self.o.nd - 1])

    def lemmas(self, S):
        n, j, d = z3.Ints('n j d')
        o = self.o
        last = o.nd - 1
        lem(S, 'block.digits.base', [], self.digits(n, IV(0), d))
        cd = o.carry_def(n + j, last)
        lem(S, 'block.digits.step', [o.nd >= 1, j >= 0, self.digits(n, j, d), self.digits(n, j, last), o.succ(n + j, d)] + cd, self.digits(n, j + 1, d))
        lem(S, 'block.below.base', [], self.below(n, IV(0)))
        lem(S, 'block.below.step', [o.nd >= 1, j >= 0, self.below(n, j), self.digits(n, j, last), last_index(o, n + j)] + cd, self.below(n, j + 1))
        for v in self.views:
            lem(S, 'block.address.%s.base' % v.name, [], self.address(v, n, IV(0)))
            lem(S, 'block.address.%s.step' % v.name, [o.nd >= 1, j >= 0, self.address(v, n, j), self.digits(n, j, last), v.next(n + j)] + cd, self.address(v, n, j + 1))

    def facts(self, n, j):
        last = self.o.nd - 1
        return [self.below(n, j), self.digits(n, j, last)] + [self.address(v, n, j) for v in self.views]

"""dv: a deductive verifier for the C++ subset n-west/bliss is written in.

Input: the JSON AST that tools/xtract (clang) extracts mechanically from /repo's current sources.
Method: forward symbolic execution (strongest postcondition), function by function.  A call to a
function that has a contract is replaced by the contract; a call to one that has none is inlined.
Every loop is cut by an invariant (init / preservation obligations, for all iterations) unless its
trip count is a literal constant.  Every obligation is discharged by an SMT solver.
"""
import z3, re, itertools, sys, struct
from fractions import Fraction

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    """construct / code shape outside the verifier's reach: a tool limit, never a violation"""


I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
IV = z3.IntVal
RV = z3.RealVal

INT_RANGES = {
    'char': (-128, 127), 'signed char': (-128, 127), 'unsigned char': (0, 255),
    'short': (-2**15, 2**15 - 1), 'unsigned short': (0, 2**16 - 1),
    'int': (-2**31, 2**31 - 1), 'unsigned int': (0, 2**32 - 1),
    'long': (-2**63, 2**63 - 1), 'unsigned long': (0, 2**64 - 1),
    'long long': (-2**63, 2**63 - 1), 'unsigned long long': (0, 2**64 - 1),
}
FLOATS = {'float', 'double', 'long double'}


def uncv(t):
    t = t.strip()
    while True:
        if t.startswith('const '):
            t = t[6:]
        elif t.startswith('volatile '):
            t = t[9:]
        else:
            return t


def unref(t):
    t = uncv(t)
    while t.startswith('&'):
        t = uncv(t[1:])
    return t


def isref(t):
    return uncv(t).startswith('&')


def isint(t):
    return t in INT_RANGES or t.startswith('enum ')


def isfloat(t):
    return t in FLOATS


class N:
    """tree node; leaves are z3 terms (or Ptr/Clo/Opq python objects)"""
    __slots__ = ('kind', 'f', 'meta')

    def __init__(self, kind, f, meta=None):
        self.kind, self.f, self.meta = kind, f, meta

    def set(self, **kw):
        d = dict(self.f)
        d.update(kw)
        return N(self.kind, d, self.meta)

    def setk(self, k, v):
        d = dict(self.f)
        d[k] = v
        return N(self.kind, d, self.meta)

    def __getitem__(self, k):
        return self.f[k]

    def __repr__(self):
        return '%s(%s)' % (self.kind if not self.meta else self.meta, ', '.join('%s=%s' % i for i in self.f.items()))


class Ptr:
    """pointer / iterator: base location + index (index None: pointer to exactly that object)"""
    __slots__ = ('loc', 'idx', 'null')

    def __init__(self, loc, idx=None, null=False):
        self.loc, self.idx, self.null = loc, idx, null

    def target(self):
        if self.null or self.loc is None:
            return None
        if self.idx is None:
            return self.loc
        return Loc(self.loc.cell, self.loc.path + (self.idx,))

    def add(self, d):
        if self.idx is None:
            raise Unsupported('arithmetic on single-object pointer')
        return Ptr(self.loc, z3.simplify(self.idx + d))

    def __repr__(self):
        return 'Ptr(null)' if self.null else 'Ptr(%s,%s)' % (self.loc, self.idx)


class Clo:
    def __init__(self, fn, caps, this=None):
        self.fn, self.caps, self.this = fn, caps, this

    def __repr__(self):
        return 'Clo(%s)' % self.fn


class Opq:
    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return 'Opq(%s)' % (self.tag,)


class Loc:
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, path

    def fld(self, f):
        return Loc(self.cell, self.path + (f,))

    def __repr__(self):
        return 'Loc(%s%s)' % (self.cell, ''.join('.%s' % p if isinstance(p, str) else '[%s]' % p for p in self.path))


def same_loc(a, b):
    if a is None or b is None:
        return a is b
    if a.cell != b.cell or len(a.path) != len(b.path):
        return False
    for p, q in zip(a.path, b.path):
        if isinstance(p, str) or isinstance(q, str):
            if p != q:
                return False
        elif not z3.eq(z3.simplify(p), z3.simplify(q)):
            return False
    return True


def is_z(x):
    return isinstance(x, z3.ExprRef)


def tmap(f, *ts):
    t = ts[0]
    if isinstance(t, N):
        return N(t.kind, {k: tmap(f, *[x.f[k] for x in ts]) for k in t.f}, t.meta)
    return f(*ts)


def leaves(t, pre=()):
    if isinstance(t, N):
        for k, v in t.f.items():
            yield from leaves(v, pre + (k,))
    else:
        yield pre, t


def sel_lit(a, i):
    """select at a literal index, through stores at literal indices"""
    while z3.is_store(a) and z3.is_int_value(a.arg(1)):
        if a.arg(1).as_long() == i.as_long():
            return a.arg(2)
        a = a.arg(0)
    if z3.is_K(a):
        return a.arg(0)
    return z3.Select(a, i)


def tsel(t, i):
    return tmap(lambda a: z3.Select(a, i) if is_z(a) else a, t)


def tstore(t, i, v):
    if isinstance(t, N):
        if not isinstance(v, N):
            raise Unsupported('store shape mismatch %s <- %s' % (t, v))
        return N(t.kind, {k: (tstore(t.f[k], i, v.f[k]) if k in v.f else t.f[k]) for k in t.f}, t.meta)
    if is_z(t) and is_z(v):
        return z3.Store(t, i, coerce(v, t.sort().range()))
    return t


def coerce(v, sort):
    if v.sort() == sort:
        return v
    if sort == R and v.sort() == I:
        return z3.ToReal(v)
    if sort == I and v.sort() == B:
        return z3.If(v, IV(1), IV(0))
    if sort == B and v.sort() == I:
        return v != 0
    if sort == R and v.sort() == B:
        return z3.If(v, RV(1), RV(0))
    raise Unsupported('coerce %s to %s' % (v.sort(), sort))


def concrete(x):
    """int value of a z3 int term if literally constant"""
    if isinstance(x, int):
        return x
    x = z3.simplify(x)
    if z3.is_int_value(x):
        return x.as_long()
    return None


class State:
    __slots__ = ('cells', 'pc', 'frames', 'sig', 'trace')

    def __init__(self):
        self.cells, self.pc, self.frames, self.sig, self.trace = {}, [], [], None, []

    def fork(self):
        s = State()
        s.cells = dict(self.cells)
        s.pc = list(self.pc)
        s.frames = [f.copy() for f in self.frames]
        s.sig = self.sig
        s.trace = list(self.trace)
        return s


class Frame:
    __slots__ = ('env', 'this', 'fn', 'names', 'types', 'cid')

    def __init__(self, fn, cid):
        self.env, self.this, self.fn, self.names, self.types, self.cid = {}, None, fn, {}, {}, cid

    def copy(self):
        f = Frame(self.fn, self.cid)
        f.env = dict(self.env)
        f.this = self.this
        f.names = dict(self.names)
        f.types = dict(self.types)
        return f


class Obl:
    __slots__ = ('name', 'pc', 'goal', 'line', 'fn', 'status', 'model', 'time', 'backend', 'kind', 'trace', 'hints', 'odd')

    def __init__(self, name, pc, goal, line, fn, kind, trace):
        self.name, self.pc, self.goal, self.line, self.fn, self.kind, self.trace = name, pc, goal, line, fn, kind, trace
        self.status, self.model, self.time, self.backend = None, None, 0.0, None
        self.hints = self.odd = None


def merge_programs(jsons):
    """jsons: list of (tu, dict).  functions are keyed by key (+ tu for lambdas)"""
    P = {'functions': {}, 'records': {}, 'enums': {}, 'globals': {}}
    for tu, d in jsons:
        for k, f in d['functions'].items():
            f['tu'] = tu
            if k.startswith('lambda#'):
                P['functions'][(tu, k)] = f
            elif k not in P['functions']:
                P['functions'][k] = f
        for k, r in d['records'].items():
            if k.startswith('lambda#'):
                P['records'][(tu, k)] = r
            elif k not in P['records'] or (not P['records'][k].get('fields') and r.get('fields')):
                P['records'][k] = r
        P['enums'].update(d['enums'])
        for k, g in d['globals'].items():
            if k not in P['globals'] or 'init' not in P['globals'][k]:
                g['tu'] = tu
                P['globals'][k] = g
    return P


def split_targs(t):
    """std::vector<long, std::allocator<long>> -> ('std::vector', ['long', ...])"""
    i = t.find('<')
    if i < 0:
        return t, []
    base, inner = t[:i], t[i + 1:t.rfind('>')]
    out, d, cur = [], 0, ''
    for ch in inner:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return base, out


VECS = {'std::vector', 'std::list', 'std::deque', 'std::initializer_list', 'std::array'}

# ---------------------------------------------------------------- spec functions
AI = z3.ArraySort(I, I)
SUMF = z3.Function('SUM', AI, I, I)     # SUM(a,k) = a[0]+..+a[k-1]
PRODF = z3.Function('PROD', AI, I, I)   # PROD(a,k) = a[0]*..*a[k-1]
SQRT = z3.Function('sqrt', R, R)
UF = {}


def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in UF:
        UF[k] = z3.Function(name, *sorts)
    return UF[k]


def floor_(x):
    return z3.ToInt(x)


def ceil_(x):
    return -z3.ToInt(-x)


def round_(x):
    """C round(): half away from zero"""
    return z3.If(x >= 0, z3.ToInt(x + RV('1/2')), -z3.ToInt(-x + RV('1/2')))


def trunc_(x):
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def absr(x):
    return z3.If(x >= 0, x, -x)


def tdiv(a, b):
    ca, cb = concrete(a), concrete(b)
    if cb is not None and cb > 0:
        return z3.If(a >= 0, a / b, -((-a) / b))
    q = z3.If(b > 0, z3.If(a >= 0, a / b, -((-a) / b)), z3.If(a >= 0, -(a / (-b)), (-a) / (-b)))
    return q


def tmod(a, b):
    return a - b * tdiv(a, b)


def bit(x, k):
    return (x / IV(1 << k)) % 2


def wrap(v, t):
    """C++ conversion to an integer type: modulo 2^width"""
    lo, hi = INT_RANGES[t]
    m = hi - lo + 1
    if lo == 0:
        return v % m
    return z3.If(z3.And(v >= lo, v <= hi), v, (v - lo) % m + lo)


UB_ARITH = ('float-to-int-in-range', 'conversion-to-unsigned-nonnegative', 'narrowing-conversion-preserves-value', 'division-by-zero', 'int-overflow',
            'unsigned-underflow', 'unsigned-overflow')


class Engine:
    def __init__(self, program, contracts=None, opts=None):
        self.P = program
        self.C = contracts or {}
        self.opts = opts or {}
        self.obls = []
        self.ncell = 0
        self.nfresh = 0
        self.assumptions = set()
        self.inlined = set()
        self.called = set()
        self.suppress = 0
        self.writes = None
        self.loop_ord = {}
        self.loops = {}
        self.curfn = '?'
        self.max_paths = 4000
        self.qsolver_to = 150
        self.strs = {}
        self.bufsize = {}   # cell -> size term
        self.ncall = 0
        self.npaths = 0
        self.loopstack = []
        self.readonly = set()
        self.relocate = bool(self.opts.get('relocate'))

    # ------------------------------------------------------------ fresh values
    def fresh_name(self, p):
        self.nfresh += 1
        return '%s!%d' % (p, self.nfresh)

    def leaf(self, sort, name, lift=0):
        for _ in range(lift):
            sort = z3.ArraySort(I, sort)
        return z3.Const(self.fresh_name(name), sort)

    def sort_of(self, t):
        t = uncv(t)
        if t == 'bool':
            return B
        if isint(t):
            return I
        if isfloat(t):
            return R
        return None

    def all_fields(self, cls, tu=None):
        r = self.P['records'].get(cls)
        if r is None:
            return None
        out = []
        for b in r.get('bases', []):
            fb = self.all_fields(b)
            if fb is None:
                return None
            out += fb
        if 'fields' not in r:
            return None
        for f in r['fields']:
            out.append((f['n'], f['t'], f.get('init')))
        return out

    def fresh(self, t, name, lift=0):
        t = unref(t)
        s = self.sort_of(t)
        if s is not None:
            return self.leaf(s, name, lift)
        if t.startswith('*'):
            return Opq('ptr:' + name)
        base, args = split_targs(t)
        if base in VECS:
            v = N('vec', {'len': self.leaf(I, name + '.len', lift), 'data': self.fresh(args[0], name + '.d', lift + 1)}, args[0])
            return v
        if base == 'std::queue':
            return N('queue', {'head': self.leaf(I, name + '.h', lift), 'tail': self.leaf(I, name + '.t', lift),
                               'data': self.fresh(args[0], name + '.d', lift + 1)}, args[0])
        if base in ('std::map', 'std::unordered_map'):
            return N('map', {'has': self.leaf(z3.ArraySort(I, B), name + '.has', lift), 'val': self.fresh(args[1], name + '.v', lift + 1)}, args[0] + '|' + args[1])
        if base == 'std::optional':
            return N('opt', {'has': self.leaf(B, name + '.has', lift), 'val': self.fresh(args[0], name + '.val', lift)}, args[0])
        if base == 'std::pair':
            return N('struct', {'first': self.fresh(args[0], name + '.1', lift), 'second': self.fresh(args[1], name + '.2', lift)}, t)
        if base == 'std::tuple':
            return N('struct', {str(i): self.fresh(a, name + '.%d' % i, lift) for i, a in enumerate(args)}, t)
        if base == 'std::complex':
            return N('struct', {'re': self.leaf(R, name + '.re', lift), 'im': self.leaf(R, name + '.im', lift)}, t)
        if base in ('std::basic_string', 'std::basic_string_view'):
            return N('str', {'id': self.leaf(I, name + '.s', lift)}, None)
        h = self.C.get('fresh:' + base)
        if h:
            return h(self, t, name, lift)
        fs = self.all_fields(t)
        if fs is not None:
            return N('struct', {n: self.fresh(ft, name + '.' + n, lift) for n, ft, _ in fs}, t)
        return Opq(t)

    def refresh(self, v, name):
        return tmap(lambda l: z3.Const(self.fresh_name(name), l.sort()) if is_z(l) else l, v)

    def default(self, t, zero=False):
        """value-initialised (zero) or default-initialised value of type t"""
        t = unref(t)
        s = self.sort_of(t)
        if s is not None:
            if not zero:
                return self.leaf(s, 'uninit')
            return {B: z3.BoolVal(False), I: IV(0), R: RV(0)}[s]
        if t.startswith('*'):
            return Ptr(None, None, True)
        base, args = split_targs(t)
        if base in VECS or base == 'std::queue':
            v = self.fresh(t, 'empty')
            if base == 'std::array':
                return v.set(len=IV(int(args[1])))
            if base == 'std::queue':
                return v.set(head=IV(0), tail=IV(0))
            return v.set(len=IV(0))
        if base in ('std::map', 'std::unordered_map'):
            v = self.fresh(t, 'emptymap')
            return v.set(has=z3.K(I, z3.BoolVal(False)))
        if base == 'std::optional':
            v = self.fresh(t, 'noopt')
            return v.set(has=z3.BoolVal(False))
        if base in ('std::shared_ptr', 'std::unique_ptr'):
            return Ptr(None, None, True)
        if base in ('std::basic_string', 'std::basic_string_view'):
            return self.strlit('')
        if base == 'std::pair':
            return N('struct', {'first': self.default(args[0], True), 'second': self.default(args[1], True)}, t)
        h = self.C.get('default:' + base)
        if h:
            return h(self, t)
        fs = self.all_fields(t)
        if fs is not None:
            d = {}
            for n, ft, init in fs:
                if init is not None:
                    d[n] = self.const_init(init, ft)
                else:
                    d[n] = self.default(ft, zero)
            return N('struct', d, t)
        return Opq(t)

    def const_init(self, e, ft):
        st = State()
        st.frames.append(Frame('<init>', 0))
        rs = self.rval(e, st)
        if len(rs) != 1:
            raise Unsupported('field initialiser')
        v = rs[0][1]
        s = self.sort_of(ft)
        if s is not None and is_z(v):
            v = coerce(v, s)
        return v

    def strlit(self, s):
        if self.opts.get('strings'):
            return N('str', {'id': z3.StringVal(s)}, None)
        if s not in self.strs:
            self.strs[s] = len(self.strs) + 1
        return N('str', {'id': IV(-self.strs[s])}, None)

    # ------------------------------------------------------------ memory
    def newcell(self, st, v):
        self.ncell += 1
        if self.relocate and isinstance(v, N):
            v = self.rebase(v, Loc(self.ncell))
        st.cells[self.ncell] = v
        return Loc(self.ncell)

    # An object built as a temporary and then used to initialise another one is the same object in C++ (guaranteed
    # elision); here it is copied as a value.  With opts['relocate'], pointers into the object itself are kept
    # relative to it while it is a value ('self') and made absolute again where it is stored.
    def rebase(self, v, loc):
        def g(l):
            if isinstance(l, Ptr) and l.loc is not None and not isinstance(l.loc, Opq) and l.loc.cell == 'self':
                return Ptr(Loc(loc.cell, loc.path + l.loc.path), l.idx)
            return l
        return tmap(g, v)

    def relative(self, v, loc):
        k = len(loc.path)

        def g(l):
            if isinstance(l, Ptr) and l.loc is not None and not isinstance(l.loc, Opq) and l.loc.cell == loc.cell and l.loc.path[:k] == loc.path:
                return Ptr(Loc('self', l.loc.path[k:]), l.idx)
            return l
        return tmap(g, v)

    def sub(self, v, p):
        if isinstance(p, str):
            if isinstance(v, N):
                if p not in v.f:
                    g = self.opts.get('virtual', {}).get((v.meta, p))
                    if g is not None:
                        return g(v)
                    raise Unsupported('no field %s in %s' % (p, v.meta or v.kind))
                return v.f[p]
            raise Unsupported('field %s of %r' % (p, v))
        if isinstance(v, N):
            if v.kind in ('vec', 'queue'):
                return tsel(v.f['data'], p) if not z3.is_int_value(p) else tmap(lambda a: sel_lit(a, p) if is_z(a) else a, v.f['data'])
            if v.kind == 'map':
                return tsel(v.f['val'], p)
            if v.kind == 'buf':
                return tsel(v.f['data'], p)
            raise Unsupported('index into ' + v.kind)
        if is_z(v):
            return z3.Select(v, p)
        raise Unsupported('index into %r' % (v,))

    def upd(self, v, path, val):
        if not path:
            return val
        p = path[0]
        if isinstance(p, str):
            return v.setk(p, self.upd(v.f[p], path[1:], val))
        if isinstance(v, N):
            el = self.sub(v, p)
            nv = self.upd(el, path[1:], val)
            key = 'val' if v.kind == 'map' else 'data'
            return v.setk(key, tstore(v.f[key], p, nv))
        if is_z(v):
            nv = self.upd(z3.Select(v, p), path[1:], val)
            return z3.Store(v, p, coerce(nv, v.sort().range()))
        raise Unsupported('write into %r' % (v,))

    def read(self, st, loc):
        if loc is None:
            raise Unsupported('null dereference path')
        if isinstance(loc, Opq):
            return loc
        v = st.cells[loc.cell]
        for p in loc.path:
            v = self.sub(v, p)
        return v

    def write(self, st, loc, val):
        if isinstance(loc, Opq):
            return
        if self.relocate and isinstance(val, N):
            val = self.rebase(val, loc)
        old = st.cells[loc.cell]
        if self.writes is not None:
            pre = []
            for p in loc.path:
                if isinstance(p, str):
                    pre.append(p)
                else:
                    pre.append('[]')
                    break
            self.writes.add((loc.cell, tuple(pre)))
        # adapt scalar sorts
        if is_z(val):
            cur = self.read(st, loc) if loc.path else old
            if is_z(cur) and cur.sort() != val.sort():
                val = coerce(val, cur.sort())
        st.cells[loc.cell] = self.upd(old, loc.path, val)

    def bounds(self, st, loc, ln):
        """emit index-in-bounds obligations along a location path (checked at dereference)"""
        v = st.cells[loc.cell]
        for p in loc.path:
            if not isinstance(p, str):
                if isinstance(v, N) and v.kind == 'vec':
                    self.oblige(st, 'index-in-bounds', z3.And(p >= 0, p < v.f['len']), ln, 'safety')
                elif isinstance(v, N) and v.kind == 'buf':
                    self.oblige(st, 'buffer-in-bounds', z3.And(p >= 0, p < v.f['size']), ln, 'safety')
            v = self.sub(v, p)

    # ------------------------------------------------------------ logic
    def assume(self, st, f):
        if z3.is_true(f):
            return
        st.pc.append(f)

    def oblige(self, st, name, goal, ln=0, kind='spec'):
        if self.suppress:
            return
        if kind == 'safety' and self.opts.get('ub_pre') and name in UB_ARITH:
            self.assumptions.add('no undefined C++ arithmetic (overflow of signed integers, division by zero, out-of-range conversion)')
            st.pc.append(goal)
            return
        g = z3.simplify(goal)
        o = Obl('%s/%s@%s' % (self.curfn, name, ln), None, goal, ln, self.curfn, kind, list(st.trace))
        if z3.is_true(g):
            o.status, o.backend = 'proved', 'simplifier'
            o.pc = []
            self.obls.append(o)
            return
        o.pc = list(st.pc)
        o.goal = goal
        self.obls.append(o)
        # once obliged, it may be assumed (reported separately if it fails)
        if kind == 'safety':
            st.pc.append(goal)

    def oblige_q(self, st, name, f, ln, kind):
        if isinstance(f, z3.ExprRef):
            return self.oblige(st, name, f, ln, kind)
        vs = [z3.Const(self.fresh_name(n), s) for n, s in zip(f.names, f.sorts or [I] * len(f.names))]
        n0 = len(st.pc)
        if f.use:
            st.pc.extend(f.use(*vs))
        self.oblige(st, name, f.body(*vs), ln, kind)
        del st.pc[n0:]

    def assume_q(self, st, f):
        self.assume(st, f if isinstance(f, z3.ExprRef) else f.forall())

    def feasible(self, st, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.suppress:
            return None
        s = z3.SolverFor('QF_UFLIRA') if False else z3.Solver()
        s.set('timeout', self.qsolver_to)
        for f in st.pc:
            if not has_quant(f):
                s.add(f)
        s.add(c)
        r = s.check()
        if r == z3.unsat:
            return False
        return None

    def fork_on(self, st, cond):
        """-> [(state, bool)]"""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        out = []
        ft = self.feasible(st, c)
        if ft is False:
            st.pc.append(z3.Not(c))
            return [(st, False)]
        ff = self.feasible(st, z3.Not(c))
        if ff is False:
            st.pc.append(c)
            return [(st, True)]
        s1, s2 = st, st.fork()
        s1.pc.append(c)
        s2.pc.append(z3.simplify(z3.Not(c)))
        self.npaths += 1
        if self.npaths > self.max_paths:
            raise Unsupported('too many paths')
        return [(s1, True), (s2, False)]

    # ------------------------------------------------------------ expressions
    def bind(self, results, f):
        out = []
        for s, v in results:
            if s.sig:
                out.append((s, v))
            else:
                out.extend(f(s, v))
        return out

    def rvals(self, es, st):
        """evaluate a list of rvalues left to right -> [(st,[vals])]"""
        res = [(st, [])]
        for e in es:
            res = self.bind(res, lambda s, vs, e=e: [(s2, vs + [v]) for s2, v in self.rval(e, s)])
        return res

    def typed_load(self, st, v, t):
        t = uncv(t)
        if is_z(v) and t in INT_RANGES and v.sort() == I and not z3.is_int_value(v):
            lo, hi = INT_RANGES[t]
            if t in ('long', 'long long'):
                return v
            if v.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED):
                if t in ('unsigned long', 'unsigned long long'):
                    f = v >= 0
                else:
                    f = z3.And(v >= lo, v <= hi)
                st.pc.append(f)
        return v

    def rval(self, e, st):
        k = e['k']
        m = getattr(self, 'r_' + k, None)
        if m is None:
            if e.get('lv'):
                return self.bind(self.lval(e, st), lambda s, l: [(s, self.read(s, l))])
            raise Unsupported('expr %s %s at line %s' % (k, e.get('w', ''), e.get('ln')))
        return m(e, st)

    def lval(self, e, st):
        k = e['k']
        m = getattr(self, 'l_' + k, None)
        if m is not None:
            return m(e, st)
        # class prvalue used as object: materialise
        return self.bind(self.rval(e, st), lambda s, v: [(s, self.newcell(s, v) if not isinstance(v, Loc) else v)])

    # literals
    def r_Int(self, e, st):
        return [(st, IV(int(e['v'])))]

    def r_Flt(self, e, st):
        x = float(e['v'])
        if uncv(e['t']) == 'float':
            x = struct.unpack('f', struct.pack('f', x))[0]
        return [(st, RV(str(Fraction(x))))]

    def r_Bool(self, e, st):
        return [(st, z3.BoolVal(e['v']))]

    def r_Str(self, e, st):
        return [(st, self.strlit(e['v']))]

    def r_Null(self, e, st):
        return [(st, Ptr(None, None, True))]

    def r_ZeroInit(self, e, st):
        return [(st, self.default(e['t'], True))]

    def r_This(self, e, st):
        return [(st, Ptr(st.frames[-1].this))]

    def r_MatTemp(self, e, st):
        return self.rval(e['e'], st)

    def l_MatTemp(self, e, st):
        if e['e'].get('lv'):
            return self.lval(e['e'], st)
        return self.bind(self.rval(e['e'], st), lambda s, v: [(s, v if isinstance(v, Loc) else self.newcell(s, v))])

    def r_FnRef(self, e, st):
        return [(st, Clo(e['fn'], {}))]

    l_Str = lambda self, e, st: [(st, self.newcell(st, self.strlit(e['v'])))]

    def lookup(self, st, e):
        i = e.get('id')
        fr = st.frames[-1]
        if i in fr.env:
            return fr.env[i]
        if e.get('glob'):
            key = 'glob:' + e['glob']
            for f in st.frames:
                if key in f.env:
                    return f.env[key]
            g = self.P['globals'].get(e['glob'])
            if g is None:
                raise Unsupported('global ' + e['glob'])
            if 'init' in g and g.get('const'):
                v = self.const_init(g['init'], g['t'])
            else:
                v = self.fresh(g['t'], e['glob'])
            loc = self.newcell(st, v)
            st.frames[0].env[key] = loc
            return loc
        # local constexpr/const captured implicitly, or enclosing variable
        for f in reversed(st.frames):
            if i in f.env:
                return f.env[i]
        raise Unsupported('variable %s not in scope' % e.get('n'))

    def l_Ref(self, e, st):
        return [(st, self.lookup(st, e))]

    def r_Ref(self, e, st):
        return [(st, self.read(st, self.lookup(st, e)))]

    def l_Binding(self, e, st):
        i = e['id']
        for f in reversed(st.frames):
            if i in f.env:
                return [(st, f.env[i])]
        raise Unsupported('binding')

    def base_loc(self, e, st):
        """location of the object a member expression applies to"""
        if e.get('arrow'):
            def f(s, p):
                if isinstance(p, Ptr):
                    t = p.target()
                    if t is None:
                        s.sig = ('ub', 'null deref')
                        self.oblige(s, 'null-dereference', z3.BoolVal(False), e.get('ln', 0), 'safety')
                        return [(s, None)]
                    return [(s, t)]
                if isinstance(p, Loc):
                    return [(s, p)]
                if isinstance(p, Opq):
                    return [(s, p)]
                raise Unsupported('arrow on %r' % (p,))
            return self.bind(self.rval(e['b'], st), f)
        return self.lval(e['b'], st)

    def l_Mem(self, e, st):
        def f(s, l):
            if isinstance(l, Opq):
                return [(s, Opq(str(l.tag) + '.' + e['f']))]
            h = self.C.get('mem:%s.%s' % (e.get('cls'), e['f']))
            if h:
                return h(self, s, l, e)
            return [(s, l.fld(e['f']))]
        return self.bind(self.base_loc(e, st), f)

    def r_Mem(self, e, st):
        return self.bind(self.l_Mem(e, st), lambda s, l: [(s, self.read(s, l))])

    def l_Idx(self, e, st):
        def f(s, vs):
            b, i = vs
            if isinstance(b, Ptr):
                p = b.add(i) if b.idx is not None else b
                t = p.target()
                if b.idx is None:
                    raise Unsupported('index on object pointer')
                return [(s, t)]
            if isinstance(b, Opq):
                return [(s, b)]
            raise Unsupported('subscript of %r' % (b,))
        be, ie = e['b'], e['i']
        if not uncv(be['t']).startswith('*') and not uncv(be['t']).startswith('['):
            be, ie = ie, be
        return self.bind(self.rvals([be, ie], st), f)

    def deref_read(self, s, loc, t, ln):
        if isinstance(loc, Opq):
            return self.fresh(t, 'opq')
        self.bounds(s, loc, ln)
        return self.typed_load(s, self.read(s, loc), t)

    def r_Cast(self, e, st):
        ck, sub = e['ck'], e['e']
        t, ft = uncv(e['t']), uncv(sub['t'])
        if ck == 'LValueToRValue':
            def f(s, l):
                if any(not isinstance(p, str) for p in getattr(l, 'path', ())):
                    return [(s, self.deref_read(s, l, t, e['ln']))]
                return [(s, self.typed_load(s, self.read(s, l), t))]
            return self.bind(self.lval(sub, st), f)
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'AtomicToNonAtomic', 'LValueBitCast', 'Dynamic', 'BaseToDerived'):
            return self.rval(sub, st)
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase'):
            return self.rval(sub, st)
        if ck == 'ArrayToPointerDecay':
            if sub['k'] == 'Str':
                return self.rval(sub, st)
            return self.bind(self.lval(sub, st), lambda s, l: [(s, Ptr(l, IV(0)))])
        if ck == 'FunctionToPointerDecay':
            return self.rval(sub, st)
        if ck == 'NullToPointer':
            return [(st, Ptr(None, None, True))]
        if ck == 'ToVoid':
            return self.bind(self.rval(sub, st), lambda s, v: [(s, None)])

        def conv(s, v):
            if isinstance(v, Opq):
                srt = self.sort_of(t)
                return [(s, self.leaf(srt, 'opq') if srt is not None else v)]
            if ck == 'IntegralCast':
                return [(s, self.intcast(s, v, ft, t, e['ln']))]
            if ck == 'IntegralToFloating':
                r = coerce(v, R)
                return [(s, self.opts['f32'](self, s, r) if 'f32' in self.opts and t == 'float' else r)]
            if ck == 'FloatingToIntegral':
                r = trunc_(v) if v.sort() == R else v
                r = z3.simplify(r)
                if t in INT_RANGES and not self.opts.get('no_float_to_int_range'):
                    lo, hi = INT_RANGES[t]
                    self.oblige(s, 'float-to-int-in-range', z3.And(r >= lo, r <= hi), e['ln'], 'safety')
                return [(s, r)]
            if ck == 'FloatingCast':
                return [(s, self.opts['f32'](self, s, v) if 'f32' in self.opts and t == 'float' and ft != 'float' else v)]
            if ck == 'IntegralToBoolean':
                return [(s, coerce(v, B))]
            if ck == 'FloatingToBoolean':
                return [(s, v != 0)]
            if ck == 'PointerToBoolean' or ck == 'MemberPointerToBoolean':
                if isinstance(v, Ptr):
                    return [(s, z3.BoolVal(not v.null))]
                raise Unsupported('pointer to bool %r' % (v,))
            if ck == 'BitCast':
                return [(s, v)]
            raise Unsupported('cast ' + ck)
        return self.bind(self.rval(sub, st), conv)

    def l_Cast(self, e, st):
        ck = e['ck']
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'LValueBitCast', 'BaseToDerived'):
            return self.lval(e['e'], st)
        return self.bind(self.rval(e, st), lambda s, v: [(s, v if isinstance(v, Loc) else self.newcell(s, v))])

    def intcast(self, s, v, ft, t, ln):
        v = coerce(v, I)
        if t == 'bool':
            return v != 0
        if t.startswith('enum ') or ft.startswith('enum '):
            return v
        if t not in INT_RANGES or ft not in INT_RANGES:
            return v
        lo, hi = INT_RANGES[t]
        flo, fhi = INT_RANGES[ft]
        if lo <= flo and fhi <= hi:
            return v
        c = concrete(v)
        if c is None and self.opts.get('wrap'):
            return wrap(v, t)
        if c is not None:
            if lo <= c <= hi:
                return v
            w = (c - lo) % (hi - lo + 1) + lo
            return IV(w)
        if ft == 'unsigned long' and t in ('long', 'long long'):
            self.assumptions.add('64-bit integer arithmetic treated as mathematical (no 64-bit overflow)')
            return v
        if t in ('unsigned long', 'unsigned long long'):
            self.oblige(s, 'conversion-to-unsigned-nonnegative', v >= 0, ln, 'safety')
            return v
        self.oblige(s, 'narrowing-conversion-preserves-value', z3.And(v >= lo, v <= hi), ln, 'safety')
        return v

    def arith(self, s, op, a, b, t, ln):
        """binary arithmetic on scalars already converted to type t"""
        t = uncv(t)
        if isinstance(a, Opq) or isinstance(b, Opq):
            srt = self.sort_of(t)
            return self.leaf(srt, 'opq') if srt is not None else Opq('arith')
        if a.sort() == B:
            a = coerce(a, I)
        if b.sort() == B:
            b = coerce(b, I)
        if a.sort() != b.sort():
            a, b = coerce(a, R), coerce(b, R)
        if op == '+':
            r = a + b
        elif op == '-':
            r = a - b
        elif op == '*':
            r = a * b
            if self.opts.get('ufmul') and a.sort() == I and concrete(a) is None and concrete(b) is None:
                r = uf('mul', I, I, I)(a, b)
        elif op == '/':
            if a.sort() == R:
                return a / b
            self.oblige(s, 'division-by-zero', b != 0, ln, 'safety')
            r = tdiv(a, b)
        elif op == '%':
            self.oblige(s, 'division-by-zero', b != 0, ln, 'safety')
            r = tmod(a, b)
        elif op in ('&', '|', '^', '<<', '>>'):
            return self.bitop(s, op, a, b, t, ln)
        else:
            raise Unsupported('op ' + op)
        if a.sort() == I:
            cr = concrete(r)
            if cr is not None:
                r = IV(cr)
            elif self.opts.get('wrap') and t.startswith('unsigned'):
                return wrap(r, t)
            if t in INT_RANGES:
                lo, hi = INT_RANGES[t]
                if t in ('int',) and op in '+-*':
                    if cr is None and not self.opts.get('no_int_overflow'):
                        self.oblige(s, 'int-overflow', z3.And(r >= lo, r <= hi), ln, 'safety')
                elif t in ('unsigned long', 'unsigned int', 'unsigned long long') and op == '-':
                    if cr is not None and cr < 0:
                        r = IV(cr % (hi + 1))
                    elif cr is None:
                        self.oblige(s, 'unsigned-underflow', r >= 0, ln, 'safety')
                elif t == 'unsigned int' and op in '+*' and cr is None:
                    self.oblige(s, 'unsigned-overflow', r <= hi, ln, 'safety')
                else:
                    self.assumptions.add('64-bit integer arithmetic treated as mathematical (no 64-bit overflow)')
        else:
            self.assumptions.add('floating-point arithmetic treated as real arithmetic (no rounding, NaN or infinity)')
        return r

    def bitop(self, s, op, a, b, t, ln):
        ca, cb = concrete(a), concrete(b)
        if ca is not None and cb is not None:
            v = {'&': ca & cb, '|': ca | cb, '^': ca ^ cb, '<<': ca << cb, '>>': ca >> cb}[op]
            return IV(v)
        if op == '<<' and cb is not None:
            return a * (1 << cb)
        if op == '>>' and cb is not None:
            return a / IV(1 << cb)
        if op == '<<' and ca is not None:
            f = uf('pow2', I, I)
            for k in range(0, 41):
                pass
            return ca * f(b)
        if op == '&':
            if ca is not None:
                a, b, ca, cb = b, a, cb, ca
            if cb is not None and cb >= 0:
                return z3.Sum([bit(a, k) * (1 << k) for k in range(cb.bit_length()) if cb >> k & 1]) if cb else IV(0)
        if op == '|':
            if ca is not None:
                a, b, ca, cb = b, a, cb, ca
            if cb is not None and cb >= 0:
                return a + z3.Sum([(1 - bit(a, k)) * (1 << k) for k in range(cb.bit_length()) if cb >> k & 1]) if cb else a
        if op == '&' and self.opts.get('wrap'):
            self.oblige(s, 'bitop-nonnegative-or-int', z3.BoolVal(True), ln, 'safety')
            return uf('bitand', I, I, I)(a, b)
        # generic on 8 bits (uint8 operands promoted to int)
        if op in '&|^':
            out = IV(0)
            for k in range(8):
                x, y = bit(a, k), bit(b, k)
                bb = {'&': x * y, '|': z3.If(x + y >= 1, IV(1), IV(0)), '^': (x + y) % 2}[op]
                out = out + bb * (1 << k)
            self.oblige(s, 'bitop-8bit', z3.And(a >= 0, a <= 255, b >= 0, b <= 255), ln, 'safety')
            return out
        raise Unsupported('bit op ' + op)

    def compare(self, op, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.null or b.null:
                    eq = z3.BoolVal(a.null == b.null)
                elif a.idx is not None and b.idx is not None and same_loc(a.loc, b.loc):
                    if op == '==':
                        return a.idx == b.idx
                    if op == '!=':
                        return a.idx != b.idx
                    return {'<': a.idx < b.idx, '<=': a.idx <= b.idx, '>': a.idx > b.idx, '>=': a.idx >= b.idx}[op]
                elif a.idx is None and b.idx is None:
                    eq = z3.BoolVal(same_loc(a.loc, b.loc))
                else:
                    raise Unsupported('pointer compare')
                if op == '==':
                    return eq
                if op == '!=':
                    return z3.Not(eq)
            raise Unsupported('pointer compare %r %r' % (a, b))
        if isinstance(a, N) and a.kind == 'str':
            a, b = a.f['id'], b.f['id']
        if isinstance(a, Opq) or isinstance(b, Opq):
            return self.leaf(B, 'opqcmp')
        if not (is_z(a) and is_z(b)):
            raise Unsupported('compare %r %r' % (a, b))
        if a.sort() != b.sort():
            if a.sort() == B:
                a = coerce(a, I)
            if b.sort() == B:
                b = coerce(b, I)
            if a.sort() != b.sort():
                a, b = coerce(a, R), coerce(b, R)
        if a.sort() == B and op not in ('==', '!='):
            a, b = coerce(a, I), coerce(b, I)
        return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[op]()

    def r_Bin(self, e, st):
        op = e['op']
        if op == ',':
            return self.bind(self.rval_any(e['l'], st), lambda s, v: self.rval(e['r'], s))
        if op == '=':
            return self.bind(self.l_Bin(e, st), lambda s, l: [(s, self.read(s, l))])
        if op in ('&&', '||'):
            # pure right operand: build formula, else fork
            def f(s, a):
                out = []
                for s2, tv in self.fork_on(s, a):
                    if (op == '&&') != tv:
                        out.append((s2, z3.BoolVal(tv)))
                    else:
                        out.extend(self.rval(e['r'], s2))
                return self.merge_bool(out)
            def g(s, a):
                n0 = len(s.pc)
                c = z3.simplify(a)
                if z3.is_true(c) or z3.is_false(c):
                    return f(s, a)
                guard = a if op == '&&' else z3.Not(a)
                # try evaluating rhs under guard without forking
                s2 = s.fork()
                s2.pc.append(guard)
                ncell = self.ncell
                w0 = self.writes
                self.writes = set() if w0 is None else w0
                wbefore = set(self.writes)
                res = self.rval(e['r'], s2)
                wrote = self.writes - wbefore
                self.writes = w0
                if len(res) == 1 and not res[0][0].sig and not any(w[0] <= ncell for w in wrote):
                    s3, b = res[0]
                    base = len(s.pc) + 1
                    for a2 in s3.pc[base:]:
                        s.pc.append(z3.Implies(guard, a2))
                    for cid, cv in s3.cells.items():
                        if cid > ncell:
                            s.cells[cid] = cv
                    return [(s, z3.And(a, b) if op == '&&' else z3.Or(a, b))]
                # general: fork
                res2 = list(res)
                s.pc.append(z3.Not(guard))
                res2.append((s, z3.BoolVal(op == '||')))
                return res2
            return self.bind(self.rval(e['l'], st), g)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return self.bind(self.rvals([e['l'], e['r']], st), lambda s, vs: [(s, self.compare(op, vs[0], vs[1]))])

        def ar(s, vs):
            a, b = vs
            if isinstance(a, Ptr) and is_z(b):
                return [(s, a.add(b if op == '+' else -b))]
            if isinstance(b, Ptr) and is_z(a) and op == '+':
                return [(s, b.add(a))]
            if isinstance(a, Ptr) and isinstance(b, Ptr) and op == '-':
                if same_loc(a.loc, b.loc):
                    return [(s, a.idx - b.idx)]
                raise Unsupported('pointer difference')
            return [(s, self.arith(s, op, a, b, e['t'], e['ln']))]
        return self.bind(self.rvals([e['l'], e['r']], st), ar)

    def merge_bool(self, outs):
        return outs

    def rval_any(self, e, st):
        if e.get('lv'):
            return self.lval(e, st)
        return self.rval(e, st)

    def l_Bin(self, e, st):
        op = e['op']
        if op == '=':
            def f(s, v):
                def g(s2, l):
                    self.store(s2, l, v, e['l']['t'], e['ln'])
                    return [(s2, l)]
                return self.bind(self.lval(e['l'], s), g)
            return self.bind(self.rval(e['r'], st), f)
        if op == ',':
            return self.bind(self.rval_any(e['l'], st), lambda s, v: self.lval(e['r'], s))
        raise Unsupported('lvalue bin ' + op)

    def store(self, s, l, v, t, ln):
        if isinstance(l, Loc) and any(not isinstance(p, str) for p in l.path):
            self.bounds(s, l, ln)
        self.write(s, l, v)

    def l_CAsg(self, e, st):
        def f(s, r):
            def g(s2, l):
                if isinstance(l, Loc) and any(not isinstance(p, str) for p in l.path):
                    cur = self.deref_read(s2, l, e['l']['t'], e['ln'])
                else:
                    cur = self.typed_load(s2, self.read(s2, l), e['l']['t'])
                if isinstance(cur, Ptr):
                    nv = cur.add(r if e['op'] == '+' else -r)
                else:
                    lt, ct = uncv(e['l']['t']), uncv(e['cr'])
                    a = cur
                    if isfloat(ct) and is_z(a):
                        a = coerce(a, R)
                    nv = self.arith(s2, e['op'], a, r, ct, e['ln'])
                    if isint(lt) and isfloat(ct):
                        nv = trunc_(nv)
                    elif lt in INT_RANGES and ct in INT_RANGES and lt != ct:
                        nv = self.intcast(s2, nv, ct, lt, e['ln'])
                self.write(s2, l, nv)
                return [(s2, l)]
            return self.bind(self.lval(e['l'], s), g)
        return self.bind(self.rval(e['r'], st), f)

    def r_CAsg(self, e, st):
        return self.bind(self.l_CAsg(e, st), lambda s, l: [(s, self.read(s, l))])

    def incdec(self, e, st):
        op = e['op']

        def f(s, l):
            t = uncv(e['e']['t'])
            if isinstance(l, Loc) and any(not isinstance(p, str) for p in l.path):
                cur = self.deref_read(s, l, t, e['ln'])
            else:
                cur = self.typed_load(s, self.read(s, l), t)
            if isinstance(cur, Ptr):
                nv = cur.add(IV(1) if op == '++' else IV(-1))
            else:
                one = RV(1) if cur.sort() == R else IV(1)
                ct = 'int' if t in ('unsigned char', 'char', 'short', 'unsigned short', 'signed char') else t
                nv = self.arith(s, '+' if op == '++' else '-', cur, one, ct, e['ln'])
                if ct != t:
                    nv = self.intcast(s, nv, ct, t, e['ln'])
            self.write(s, l, nv)
            return [(s, (l, cur))]
        return self.bind(self.lval(e['e'], st), f)

    def r_Un(self, e, st):
        op = e['op']
        if op in ('++', '--'):
            return self.bind(self.incdec(e, st), lambda s, lc: [(s, lc[1] if e['post'] else self.read(s, lc[0]))])
        if op == '*':
            return self.bind(self.l_Un(e, st), lambda s, l: [(s, self.read(s, l))])
        if op == '&':
            def adr(s, l):
                if isinstance(l, Loc) and l.path and not isinstance(l.path[-1], str):
                    return [(s, Ptr(Loc(l.cell, l.path[:-1]), l.path[-1]))]
                return [(s, Ptr(l))]
            return self.bind(self.lval(e['e'], st), adr)

        def f(s, v):
            if isinstance(v, Opq):
                return [(s, v)]
            if op == '-':
                if v.sort() == I and uncv(e['t']) == 'int' and concrete(v) is None:
                    self.oblige(s, 'int-overflow', v > -2**31, e['ln'], 'safety')
                return [(s, -v if concrete_or_none(v) is None else z3.simplify(-v))]
            if op == '+':
                return [(s, v)]
            if op == '!':
                return [(s, z3.Not(coerce(v, B)))]
            raise Unsupported('unary ' + op)
        return self.bind(self.rval(e['e'], st), f)

    def l_Un(self, e, st):
        op = e['op']
        if op in ('++', '--'):
            return self.bind(self.incdec(e, st), lambda s, lc: [(s, lc[0])])
        if op == '*':
            def f(s, p):
                if isinstance(p, Ptr):
                    t = p.target()
                    if t is None:
                        self.oblige(s, 'null-dereference', z3.BoolVal(False), e['ln'], 'safety')
                        s.sig = ('ub', 'null')
                        return [(s, None)]
                    return [(s, t)]
                if isinstance(p, Opq):
                    return [(s, p)]
                raise Unsupported('deref %r' % (p,))
            return self.bind(self.rval(e['e'], st), f)
        raise Unsupported('lvalue unary ' + op)

    def r_Cond(self, e, st):
        def f(s, c):
            cs = z3.simplify(c)
            if z3.is_true(cs):
                return self.rval(e['l'], s)
            if z3.is_false(cs):
                return self.rval(e['r'], s)
            out = []
            for s2, tv in self.fork_on(s, c):
                out.extend(self.rval(e['l'] if tv else e['r'], s2))
            return out
        return self.bind(self.rval(e['c'], st), f)

    def l_Cond(self, e, st):
        def f(s, c):
            out = []
            for s2, tv in self.fork_on(s, c):
                out.extend(self.lval(e['l'] if tv else e['r'], s2))
            return out
        return self.bind(self.rval(e['c'], st), f)

    def r_Throw(self, e, st):
        st.sig = ('throw', e.get('e', {}).get('t') if e.get('e') else None)
        st.trace.append('throw@%s' % e['ln'])
        return [(st, None)]

    def r_InitList(self, e, st):
        t = unref(e['t'])
        s = self.sort_of(t)
        if s is not None:
            if not e['a']:
                return [(st, self.default(t, True))]
            return self.rval(e['a'][0], st)
        base, args = split_targs(t)
        if t.startswith('['):
            m = re.match(r'\[(\d+)\](.*)', t)
            et = m.group(2)

            def f(s2, vs):
                v = self.fresh('std::vector<%s>' % et, 'arr')
                v = v.set(len=IV(int(m.group(1))))
                for i, x in enumerate(vs):
                    v = self.upd(v, (IV(i),), self.adapt(x, et))
                return [(s2, v)]
            return self.bind(self.rvals(e['a'], st), f)
        if base == 'std::array':
            if e['a'] and e['a'][0]['k'] == 'InitList':
                e = e['a'][0]
                def f(s2, vs):
                    v = self.fresh(t, 'arr').set(len=IV(int(args[1])))
                    for i, x in enumerate(vs):
                        v = self.upd(v, (IV(i),), self.adapt(x, args[0]))
                    return [(s2, v)]
                return self.bind(self.rvals(e['a'], st), f)
        fs = self.all_fields(t)
        if fs is None:
            raise Unsupported('init list for ' + t)

        r = self.P['records'][t]
        nb = len(r.get('bases', []))

        def f(s2, vs):
            d = {}
            vs = list(vs)
            if nb:
                for v in vs[:nb]:
                    d.update(v.f)
                vs = vs[nb:]
            own = [(x['n'], x['t']) for x in r['fields']]
            for (n, ft), v in itertools.zip_longest(own, vs[:len(own)]):
                d[n] = self.default(ft, True) if v is None else self.adapt(v, ft)
            return [(s2, N('struct', d, t))]
        return self.bind(self.rvals(e['a'], st), f)

    def adapt(self, v, t):
        s = self.sort_of(unref(t))
        if s is not None and is_z(v) and v.sort() != s:
            return coerce(v, s)
        return v

    def r_Lambda(self, e, st):
        tu = self.P['functions'][st.frames[-1].fn]['tu'] if st.frames[-1].fn in self.P['functions'] else None
        rec = self.P['records'].get((tu, e['cls'])) or self.P['records'].get(e['cls'])
        caps = {}
        this = None
        for c, ci in zip(rec['captures'], e['ci']):
            if c.get('this'):
                this = st.frames[-1].this
                continue
            if c['byref']:
                (s, l), = self.lval(ci, st)
                caps[c['id']] = ('ref', l)
            else:
                (s, v), = self.rval(ci, st)
                caps[c['id']] = ('val', v)
        return [(st, Clo((tu, e['fn']), caps, this))]

    def r_Unk(self, e, st):
        raise Unsupported('expression %s at line %s' % (e.get('w'), e.get('ln')))

    def r_New(self, e, st):
        if e.get('arr'):
            raise Unsupported('array new')
        if e.get('e'):
            return self.bind(self.rval(e['e'], st), lambda s, v: [(s, Ptr(self.newcell(s, v)))])
        return [(st, Ptr(self.newcell(st, self.default(e['at']))))]

    # ------------------------------------------------------------ calls
    def contract_for(self, q, fn):
        c = self.C.get('key:' + fn) if isinstance(fn, str) else None
        if c is None:
            c = self.C.get(q)
        return c

    def argval(self, pt, ae, st):
        """evaluate an argument for parameter type pt: Loc for references, value otherwise"""
        if isref(pt):
            return self.lval(ae, st)
        return self.rval(ae, st)

    def eval_args(self, ptypes, aes, st):
        res = [(st, [])]
        for i, a in enumerate(aes):
            pt = ptypes[i] if i < len(ptypes) else a['t']
            res = self.bind(res, lambda s, vs, a=a, pt=pt: [(s2, vs + [v]) for s2, v in self.argval(pt, a, s)])
        return res

    @staticmethod
    def ptypes_of(fn):
        """parameter types out of a function key"""
        if not isinstance(fn, str):
            fn = fn[1]
        s = fn
        if s.endswith('const'):
            s = s[:-5]
        if not s.endswith(')'):
            return []
        d = 0
        for i in range(len(s) - 1, -1, -1):
            if s[i] == ')':
                d += 1
            elif s[i] == '(':
                d -= 1
                if d == 0:
                    break
        return split_targs('x<' + s[i + 1:-1] + '>')[1]

    def r_Call(self, e, st):
        return self.unwrap_ref(e, self.do_call(e, st))

    def l_Call(self, e, st):
        return self.ensure_loc(self.do_call(e, st))

    r_MCall = r_OpCall = None

    def unwrap_ref(self, e, res):
        def f(s, v):
            if isinstance(v, Loc):
                return [(s, self.read(s, v))]
            return [(s, v)]
        return self.bind(res, f)

    def ensure_loc(self, res):
        return self.bind(res, lambda s, v: [(s, v if isinstance(v, (Loc, Opq)) else self.newcell(s, v))])

    def do_call(self, e, st):
        if 'fn' not in e:
            def f(s, c):
                if not isinstance(c, Clo):
                    raise Unsupported('indirect call')
                return self.call_clo(c, e['a'], s, e)
            return self.bind(self.rval(e['callee'], st), f)
        q, fn = e['q'], e['fn']
        h = self.contract_for(q, fn)
        if h is not None:
            self.called.add(q)
            return h(self, st, e)
        b = BUILTIN.get(q)
        if b is None:
            for pre, bb in BUILTIN_PRE:
                if q.startswith(pre):
                    b = bb
                    break
        if b is not None:
            return b(self, st, e)
        if fn in self.P['functions']:
            pts = [p['t'] for p in self.P['functions'][fn]['params']]
            return self.bind(self.eval_args(pts, e['a'], st), lambda s, vs: self.inline(fn, None, vs, s, e['ln']))
        raise Unsupported('call to %s (no contract, no body) at line %s' % (fn, e['ln']))

    def call_clo(self, c, aes, st, e):
        fn = c.fn
        key = fn if fn in self.P['functions'] else (fn[1] if isinstance(fn, tuple) else fn)
        if key not in self.P['functions']:
            h = self.C.get(key.split('(')[0]) if isinstance(key, str) else None
            raise Unsupported('closure body %s' % (fn,))
        pts = [p['t'] for p in self.P['functions'][key]['params']]
        return self.bind(self.eval_args(pts, aes, st), lambda s, vs: self.inline(key, c.this, vs, s, e.get('ln', 0), c))

    def call_clo_vals(self, c, vals, st, ln=0):
        fn = c.fn
        key = fn if fn in self.P['functions'] else (fn[1] if isinstance(fn, tuple) else fn)
        return self.inline(key, c.this, vals, st, ln, c)

    def inline(self, fn, this, args, st, ln, clo=None):
        F = self.P['functions'][fn]
        if len(st.frames) > 40:
            raise Unsupported('call depth (recursion?) at ' + str(fn))
        self.inlined.add(F['q'])
        self.ncall += 1
        fr = Frame(fn, self.ncall)
        fr.this = this
        for p, a in zip(F['params'], args):
            if isref(p['t']):
                loc = a if isinstance(a, (Loc, Opq)) else self.newcell(st, a)
            else:
                if isinstance(a, Loc):
                    a = self.read(st, a)
                loc = self.newcell(st, self.adapt(a, p['t']))
            fr.env[p['id']] = loc
            fr.names[p['n']] = p['id']
            fr.types[p['id']] = p['t']
        if clo:
            for i, (kind, v) in clo.caps.items():
                fr.env[i] = v if kind == 'ref' else self.newcell(st, v)
        st.frames.append(fr)
        depth = len(st.frames)
        out = []
        isret_ref = isref(F['ret'])
        res = [(st, None)]
        if 'inits' in F:
            res = self.run_ctor_inits(F, st)
        for s, _ in res:
            if s.sig:
                s.frames = s.frames[:depth - 1]
                out.append((s, None))
                continue
            for s2 in self.exec(F['body'], s):
                s2.frames = s2.frames[:depth - 1]
                if s2.sig and s2.sig[0] == 'ret':
                    v = s2.sig[1]
                    s2.sig = None
                    if isinstance(v, Loc) and not isret_ref:
                        v = self.read(s2, v)
                    out.append((s2, v))
                elif s2.sig and s2.sig[0] in ('throw', 'ub', 'exit'):
                    out.append((s2, None))
                else:
                    s2.sig = None
                    out.append((s2, None))
        return out

    def run_ctor_inits(self, F, st):
        res = [(st, None)]
        for i in F['inits']:
            def f(s, _, i=i):
                th = s.frames[-1].this
                if 'f' in i:
                    loc = th.fld(i['f'])
                    if isref(i.get('ft', '')):
                        raise Unsupported('reference member')
                    if i['e'] is None:
                        return [(s, None)]

                    def g(s2, v):
                        cur = self.read(s2, loc)
                        if isinstance(v, Loc):
                            v = self.read(s2, v)
                        self.write(s2, loc, self.adapt(v, i['ft']))
                        return [(s2, None)]
                    return self.bind(self.rval(i['e'], s), g)
                # base or delegating
                def h(s2, v):
                    if isinstance(v, Loc):
                        v = self.read(s2, v)
                    if isinstance(v, N) and v.kind == 'struct':
                        cur = self.read(s2, th)
                        if not isinstance(cur, N):
                            self.write(s2, th, v)
                        else:
                            d = dict(cur.f)
                            d.update(v.f)
                            self.write(s2, th, N(cur.kind, d, cur.meta))
                    return [(s2, None)]
                return self.bind(self.rval(i['e'], s), h)
            res = self.bind(res, f)
        return res

    def r_MCall_(self, e, st):
        return self.unwrap_ref(e, self.do_mcall(e, st))

    def do_mcall(self, e, st):
        q, fn = e['q'], e['fn']
        h = self.contract_for(q, fn)

        def withobj(s, ol):
            if isinstance(ol, Ptr):
                ol = ol.target()
                if ol is None:
                    self.oblige(s, 'null-dereference', z3.BoolVal(False), e['ln'], 'safety')
                    s.sig = ('ub', 'null')
                    return [(s, None)]
            if h is not None:
                self.called.add(q)
                return h(self, s, e, ol)
            b = METHODS.get(q)
            if b is not None:
                return b(self, s, e, ol)
            for pre, bb in METHODS_PRE:
                if q.startswith(pre):
                    return bb(self, s, e, ol)
            if fn in self.P['functions']:
                pts = [p['t'] for p in self.P['functions'][fn]['params']]
                return self.bind(self.eval_args(pts, e['a'], s), lambda s2, vs: self.inline(fn, ol, vs, s2, e['ln']))
            raise Unsupported('method %s (no contract, no body) at line %s' % (fn, e['ln']))
        if e.get('arrow'):
            return self.bind(self.rval(e['o'], st), withobj)
        return self.bind(self.lval(e['o'], st), withobj)

    def do_opcall(self, e, st):
        q = e.get('q')
        if q is None:
            raise Unsupported('operator call without callee')
        if e.get('meth'):
            e2 = dict(e)
            e2['o'] = e['a'][0]
            e2['a'] = e['a'][1:]
            e2['arrow'] = False
            return self.do_mcall(e2, st)
        return self.do_call(e, st)

    def r_Ctor(self, e, st):
        return self.unwrap_ref(e, self.do_ctor(e, st))

    def do_ctor(self, e, st):
        t = unref(e['t'])
        base, targs = split_targs(t)
        h = self.C.get('ctor:' + base)
        if h is not None:
            r = h(self, st, e)
            if r is not None:
                return r
        if e.get('copy'):
            user = e['fn'] in self.P['functions'] and (not e.get('dflt') or base in self.opts.get('deepcopy', ()))
            if not user or self.C.get('valuecopy:' + base):
                a = e['a'][0]
                return self.unwrap_ref(e, self.rval_any2(a, st))
        b = CTORS.get(base)
        if b is not None:
            return b(self, st, e, t, targs)
        if e['fn'] in self.P['functions']:
            F = self.P['functions'][e['fn']]
            obj = self.newcell(st, self.default(t))
            pts = [p['t'] for p in F['params']]

            def f(s, vs):
                fin = (lambda v: self.relative(v, obj)) if self.relocate else (lambda v: v)
                return [(s2, fin(s2.cells[obj.cell]) if not s2.sig else None) for s2, _ in self.inline(e['fn'], obj, vs, s, e['ln'])]
            return self.bind(self.eval_args(pts, e['a'], st), f)
        if not e['a']:
            return [(st, self.default(t, e.get('zero', False)))]
        if e.get('triv') and len(e['a']) == 1:
            return self.rval_any2(e['a'][0], st)
        return [(st, Opq(t))] if base.startswith('std::') or base.startswith('fmt::') else self._unsup('constructor of ' + t)

    def _unsup(self, m):
        raise Unsupported(m)

    def rval_any2(self, a, st):
        if a.get('lv'):
            return self.bind(self.lval(a, st), lambda s, l: [(s, self.read(s, l) if isinstance(l, Loc) else l)])
        return self.rval(a, st)

    # ------------------------------------------------------------ statements
    def exec(self, n, st):
        if n is None:
            return [st]
        k = n['k']
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported('statement %s %s at line %s' % (k, n.get('w', ''), n.get('ln')))
        return m(n, st)

    def s_Nop(self, n, st):
        return [st]

    def s_Block(self, n, st):
        sts = [st]
        for c in n['a']:
            nxt = []
            for s in sts:
                if s.sig:
                    nxt.append(s)
                else:
                    nxt.extend(self.exec(c, s))
            sts = nxt
        return sts

    def s_Expr(self, n, st):
        e = n['e']
        if e.get('lv') or e['k'] in ('Bin', 'CAsg', 'Un') and False:
            return [s for s, _ in self.lval(e, st)]
        return [s for s, _ in self.rval(e, st)]

    def name_big(self, st, val, hint):
        """give a large scalar term a name (definitional equation), so that later terms stay small"""
        if is_z(val) and val.sort() in (I, R) and not z3.is_array(val) and big_term(val, self.opts.get('name_big', 14)):
            c = z3.Const(self.fresh_name(hint), val.sort())
            st.pc.append(c == val)
            return c
        return val

    def declare(self, st, v, val):
        fr = st.frames[-1]
        val = self.name_big(st, val, v['n'] + '$')
        loc = val if isinstance(val, (Loc,)) and isref(v['t']) else self.newcell(st, val)
        fr.env[v['id']] = loc
        fr.names[v['n']] = v['id']
        fr.types[v['id']] = v['t']
        if v.get('bind'):
            bv = self.read(st, loc)
            ks = list(bv.f.keys()) if isinstance(bv, N) and bv.kind != 'vec' else []
            for b, kx in zip(v['bind'], ks):
                fr.env[b['id']] = loc.fld(kx)
                fr.names[b['n']] = b['id']

    def s_Decl(self, n, st):
        sts = [st]
        for v in n['a']:
            nxt = []
            for s in sts:
                if s.sig:
                    nxt.append(s)
                    continue
                if isref(v['t']) and 'init' in v:
                    res = self.lval(v['init'], s)
                elif 'init' in v and v['init'] is not None:
                    res = self.rval(v['init'], s)
                else:
                    res = [(s, self.default(v['t']))]
                for s2, val in res:
                    if not s2.sig:
                        if not isref(v['t']):
                            val = self.adapt(val, v['t'])
                        elif isinstance(val, Opq):
                            val = self.newcell(s2, val)
                        self.declare(s2, v, val)
                    nxt.append(s2)
            sts = nxt
        return sts

    def s_Ret(self, n, st):
        e = n['e']
        if e is None:
            st.sig = ('ret', None)
            return [st]
        fn = st.frames[-1].fn
        F = self.P['functions'].get(fn)
        res = self.lval(e, st) if F and isref(F['ret']) else self.rval(e, st)
        out = []
        for s, v in res:
            if not s.sig:
                s.sig = ('ret', v)
            out.append(s)
        return out

    def s_Break(self, n, st):
        st.sig = ('break',)
        return [st]

    def s_Cont(self, n, st):
        st.sig = ('cont',)
        return [st]

    def s_If(self, n, st):
        sts = [st]
        if n.get('init'):
            sts = self.exec(n['init'], st)
        out = []
        for s in sts:
            if s.sig:
                out.append(s)
                continue
            if n.get('var'):
                ss = self.s_Decl({'a': [n['var']]}, s)
            else:
                ss = [s]
            for s0 in ss:
                if s0.sig:
                    out.append(s0)
                    continue
                for s1, c in self.rval(n['c'], s0):
                    if s1.sig:
                        out.append(s1)
                        continue
                    if not is_z(c):
                        raise Unsupported('condition %r' % (c,))
                    c = coerce(c, B)
                    npc = len(s1.pc)
                    br = self.fork_on(s1, c)
                    ress = []
                    for s2, tv in br:
                        s2.trace.append('%s:%s' % (n['ln'], 'T' if tv else 'F'))
                        ress.append((tv, self.exec(n['th'] if tv else n['el'], s2)))
                    if len(ress) == 2 and len(ress[0][1]) == 1 and len(ress[1][1]) == 1 and self.opts.get('merge', True):
                        a, b = ress[0][1][0], ress[1][1][0]
                        m = self.try_merge(a, b, c, npc) if ress[0][0] else None
                        if m is not None:
                            out.append(m)
                            continue
                    for _, r in ress:
                        out.extend(r)
        return out

    def try_merge(self, a, b, c, npc):
        """join two normal states after an if when only a few scalar leaves differ"""
        if a.sig or b.sig:
            return None
        if len(a.frames) != len(b.frames):
            return None
        for f, g in zip(a.frames, b.frames):
            common = [k for k in f.env if k in g.env]
            for k in common:
                if not (isinstance(f.env[k], Loc) and isinstance(g.env[k], Loc) and same_loc(f.env[k], g.env[k])):
                    return None
        diffs = []
        for cid in a.cells:
            if cid in b.cells and a.cells[cid] is not b.cells[cid]:
                try:
                    la, lb = list(leaves(a.cells[cid])), list(leaves(b.cells[cid]))
                except Exception:
                    return None
                if [p for p, _ in la] != [p for p, _ in lb]:
                    return None
                for (p, x), (_, y) in zip(la, lb):
                    if x is y:
                        continue
                    if not is_z(x) or not is_z(y):
                        return None
                    if z3.eq(x, y):
                        continue
                    if not self.opts.get('merge_arrays') and z3.is_array(x):
                        return None
                    diffs.append((cid, p, x, y))
        if len(diffs) > self.opts.get('merge_max', 8):
            return None
        m = a
        ea, eb = a.pc[npc + 1:], b.pc[npc + 1:]
        pc = a.pc[:npc]
        pc += [z3.Implies(c, f) for f in ea] + [z3.Implies(z3.Not(c), f) for f in eb]
        for cid in b.cells:
            if cid not in m.cells:
                m.cells[cid] = b.cells[cid]
        for cid, p, x, y in diffs:
            it = z3.If(c, x, y)
            if not z3.is_array(it):
                k = z3.Const(self.fresh_name('join$'), it.sort())
                pc.append(k == it)
                it = k
            m.cells[cid] = setpath(m.cells[cid], p, it)
        for f, g in zip(m.frames, b.frames):
            for k in g.env:
                if k not in f.env:
                    f.env[k] = g.env[k]
        m.pc = pc
        return m

    def s_Switch(self, n, st):
        out = []
        for s, v in self.rval(n['c'], st):
            if s.sig:
                out.append(s)
                continue
            body = n['body']['a'] if n['body']['k'] == 'Block' else [n['body']]
            # flatten nested case labels
            items = []   # (labels, stmt)

            def flat(x):
                labs = []
                while x['k'] in ('Case', 'Default'):
                    labs.append(('d', None) if x['k'] == 'Default' else ('c', int(x['iv'])))
                    x = x['s']
                items.append((labs, x))
            for x in body:
                flat(x)
            allc = [l[1] for labs, _ in items for l in labs if l[0] == 'c']
            v = coerce(v, I)
            hasdef = any(l[0] == 'd' for labs, _ in items for l in labs)
            entries = []
            for i, (labs, _) in enumerate(items):
                for l in labs:
                    if l[0] == 'c':
                        entries.append((v == l[1], i))
                    else:
                        entries.append((z3.And([v != c for c in allc]) if allc else z3.BoolVal(True), i))
            if not hasdef:
                entries.append((z3.And([v != c for c in allc]), len(items)))
            for cond, i in entries:
                f = self.feasible(s, cond)
                if f is False:
                    continue
                s2 = s.fork()
                s2.pc.append(cond)
                s2.trace.append('switch@%s:%d' % (n['ln'], i))
                sts = [s2]
                for _, x in items[i:]:
                    nxt = []
                    for y in sts:
                        nxt.extend([y] if y.sig else self.exec(x, y))
                    sts = nxt
                for y in sts:
                    if y.sig and y.sig[0] == 'break':
                        y.sig = None
                    out.append(y)
        return out

    LOGIC = {'std::logic_error', 'std::invalid_argument', 'std::out_of_range', 'std::domain_error', 'std::length_error'}
    RUNTIME = {'std::runtime_error', 'std::range_error', 'std::overflow_error', 'std::underflow_error', 'std::system_error', 'std::ios_base::failure'}
    OTHER = {'std::bad_optional_access', 'std::bad_variant_access', 'std::bad_alloc', 'std::bad_cast', 'kj::Exception', 'H5::FileIException'}

    def catches(self, declared, thrown):
        """does a handler of the declared type catch what is thrown"""
        c, t = [re.sub(r'\bconst\b|[&\s]', '', x or '') for x in (declared, thrown)]
        if c == t:
            return True
        known = self.LOGIC | self.RUNTIME | self.OTHER
        if t not in known:
            raise Unsupported('handler of %s for %s' % (c, t))
        if c == 'std::exception':
            return t.startswith('std::')
        return c == 'std::logic_error' and t in self.LOGIC or c == 'std::runtime_error' and t in self.RUNTIME

    def s_Try(self, n, st):
        out = []
        d = len(st.frames)
        for s in self.exec(n['body'], st):
            if s.sig and s.sig[0] == 'throw':
                for h in n['h']:
                    if h['t'] == '...' or self.catches(h['t'], s.sig[1]):
                        break
                else:
                    out.append(s)
                    continue
                s.frames = s.frames[:d]
                s.sig = None
                if 'v' in h:
                    self.declare(s, h['v'], self.newcell(s, Opq('exception')))
                out.extend(self.exec(h['body'], s))
            else:
                out.append(s)
        return out

    # ------------------------------------------------------------ loops
    def s_For(self, n, st):
        sts = self.exec(n['init'], st) if n.get('init') else [st]
        out = []
        for s in sts:
            if s.sig:
                out.append(s)
            else:
                out.extend(self.loop(n, s, n.get('c'), n['body'], n.get('inc')))
        return out

    def s_While(self, n, st):
        return self.loop(n, st, n['c'], n['body'], None)

    def s_Do(self, n, st):
        return self.loop(n, st, n['c'], n['body'], None, do=True)

    def s_Range(self, n, st):
        """range-for, desugared to an index loop over the container"""
        out = []
        for s, l in self.lval(n['r'], st):
            if s.sig:
                out.append(s)
                continue
            v = self.read(s, l)
            if isinstance(v, N) and v.kind == 'map':
                out.extend(self.range_map(n, s, l, v))
                continue
            if not (isinstance(v, N) and v.kind == 'vec'):
                raise Unsupported('range over %r' % (v,))
            fr = s.frames[-1]
            il = self.newcell(s, IV(0))
            fr.env[('ri', n['ln'], n['v']['id'])] = il
            fr.names['__idx_' + n['v']['n']] = ('ri', n['ln'], n['v']['id'])
            lenv = v.f['len']

            def cond(s2):
                return [(s2, self.read(s2, il) < lenv)]

            def pre(s2):
                i = self.read(s2, il)
                el = Loc(l.cell, l.path + (i,))
                if isref(n['v']['t']):
                    self.declare(s2, n['v'], el)
                else:
                    self.declare(s2, n['v'], self.typed_load(s2, self.read(s2, el), n['v']['t']))

            def inc(s2):
                self.write(s2, il, self.read(s2, il) + 1)
            out.extend(self.loop(n, s, None, n['body'], None, hooks=(cond, pre, inc)))
        return out

    def range_map(self, n, s, l, v):
        """range-for over a map: a ghost enumeration of its keys (each present key exactly once, in any order)"""
        if v['has'].sort() != z3.ArraySort(I, B):
            raise Unsupported('range over map with other keys')
        if isref(n['v']['t']) and not n['v']['t'].lstrip('&').startswith('const '):
            raise Unsupported('range over map by mutable reference')
        num, key, pos = z3.Int(self.fresh_name('map.size')), z3.Const(self.fresh_name('map.key'), z3.ArraySort(I, I)), z3.Const(self.fresh_name('map.position'), z3.ArraySort(I, I))
        k = z3.Int('k!m')
        s.pc += [num >= 0, num < 2 ** 31,
                 z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < num), z3.And(v['has'][key[k]], pos[key[k]] == k)), patterns=[key[k]]),
                 z3.ForAll([k], z3.Implies(v['has'][k], z3.And(pos[k] >= 0, pos[k] < num, key[pos[k]] == k)), patterns=[v['has'][k]])]
        fr = s.frames[-1]
        fr.env['g:enum'] = self.newcell(s, N('struct', {'n': num, 'key': key, 'pos': pos, 'map': v}, 'enumeration'))
        il = self.newcell(s, IV(0))
        fr.env[('ri', n['ln'], n['v']['id'])] = il
        fr.names['__idx_' + n['v']['n']] = ('ri', n['ln'], n['v']['id'])

        def pre(s2):
            x = key[self.read(s2, il)]
            m = self.read(s2, l)
            self.oblige(s2, 'map-unchanged-while-traversed', z3.And(m['has'] == v['has'], True), n['ln'], 'safety')
            kt = n['v']['t']
            p = N('struct', {'first': x, 'second': self.sub(m, x)}, 'pair')
            self.declare(s2, n['v'], self.newcell(s2, p) if isref(kt) else p)

        def inc(s2):
            self.write(s2, il, self.read(s2, il) + 1)
        return self.loop(n, s, None, n['body'], None, hooks=(lambda s2: [(s2, self.read(s2, il) < num)], pre, inc))

    def loop_key(self, n, st):
        k = tuple(f.fn if isinstance(f.fn, str) else f.fn[1] for f in st.frames) + (n['ln'], n['k'], id(n))
        if k not in self.loop_ord:
            self.loop_ord[k] = len(self.loop_ord)
            import os; os.environ.get("DVLOOPS") and print("LOOP", len(self.loop_ord)-1, k[-3:-1], len(st.frames))
        return self.loop_ord[k]

    def loop(self, n, st, cond, body, inc, do=False, hooks=None):
        def ev_cond(s):
            if hooks:
                return hooks[0](s)
            if cond is None:
                return [(s, z3.BoolVal(True))]
            return [(s2, coerce(c, B) if is_z(c) else c) for s2, c in self.rval(cond, s)]

        def ev_body(s):
            if hooks:
                hooks[1](s)
            return self.exec(body, s)

        def ev_inc(s):
            if hooks:
                hooks[2](s)
                return [s]
            if inc is None:
                return [s]
            if inc.get('lv'):
                return [x for x, _ in self.lval(inc, s)]
            return [x for x, _ in self.rval(inc, s)]

        # 1. constant trip count: unroll
        st0 = st.fork()
        unrolled = self.try_unroll(st, ev_cond, ev_body, ev_inc, do)
        if unrolled is not None:
            return unrolled
        st = st0
        # loops are numbered in the order in which verified paths reach them (not during write-set tracing)
        ordn = -1 if self.suppress else self.loop_key(n, st)
        spec = None if self.suppress else self.find_spec(ordn, n, st)
        if spec is None and not self.suppress:
            raise Unsupported('loop #%d at line %s of %s has no invariant' % (ordn, n['ln'], st.frames[-1].fn))
        entry = st.fork()
        # 2. write set by trace execution
        W = self.trace_writes(st, ev_cond, ev_body, ev_inc, do)
        ctx0 = LoopCtx(self, st, entry, n, ordn)
        if spec is not None and not self.suppress:
            for name, f in spec(ctx0):
                self.oblige_q(st, 'loop%d.%s.init' % (ordn, name), f, n['ln'], 'inv')
        # 3. havoc + assume
        h = st.fork()
        self.havoc(h, W)
        if self.writes is not None:
            self.writes |= W
        h.trace.append('loop%d' % ordn)
        if spec is not None:
            ctx = LoopCtx(self, h, entry, n, ordn)
            for name, f in spec(ctx):
                self.assume_q(h, f)
        out = []
        self.loopstack.append(ordn)

        def finish_iter(s):
            for s3 in ev_inc(s):
                if s3.sig:
                    out.append(s3)
                    continue
                if spec is not None and not self.suppress:
                    c = LoopCtx(self, s3, entry, n, ordn, head=h)
                    for name, f in spec(c):
                        self.oblige_q(s3, 'loop%d.%s.preserved' % (ordn, name), f, n['ln'], 'inv')

        heads = [(h.fork(), None)] if do else ev_cond(h.fork())
        for s, c in heads:
            if s.sig:
                out.append(s)
                continue
            brs = [(s, True)] if do else self.fork_on(s, c)
            for s1, tv in brs:
                if not tv:
                    s1.trace.append('exit%d' % ordn)
                    out.append(s1)
                    continue
                for s2 in ev_body(s1):
                    if s2.sig is None or s2.sig[0] == 'cont':
                        s2.sig = None
                        if do:
                            for s3, c3 in ev_cond(s2):
                                if s3.sig:
                                    out.append(s3)
                                    continue
                                for s4, tv4 in self.fork_on(s3, c3):
                                    if tv4:
                                        finish_iter(s4)
                                    else:
                                        s4.trace.append('exit%d' % ordn)
                                        out.append(s4)
                        else:
                            finish_iter(s2)
                    elif s2.sig[0] == 'break':
                        s2.sig = None
                        s2.trace.append('break%d' % ordn)
                        out.append(s2)
                    else:
                        out.append(s2)
        self.loopstack.pop()
        return out

    def try_unroll(self, st, ev_cond, ev_body, ev_inc, do):
        limit = self.opts.get('unroll', 40)
        w0 = self.writes
        if self.suppress and not self.opts.get('unroll_in_trace', True):
            return None
        # cheap test: first condition must be literally decidable
        nobl = len(self.obls)
        probe = st.fork()
        if not do:
            self.suppress += 1
            try:
                r = ev_cond(probe)
            finally:
                self.suppress -= 1
            if len(r) != 1 or r[0][0].sig:
                return None
            c = z3.simplify(r[0][1])
            if z3.is_false(c):
                return [s for s, _ in ev_cond(st)]
            if not z3.is_true(c):
                return None
        # a decidable first test is not enough: simulate the counter with bodies executed
        cur, done = [st.fork()], []
        snap_np, snap_nobl = self.npaths, len(self.obls)
        wsnap = None if self.writes is None else set(self.writes)
        for it in range(limit + 1):
            nxt = []
            for s in cur:
                if not (do and it == 0):
                    rs = ev_cond(s)
                    if len(rs) != 1 or rs[0][0].sig:
                        return self._unroll_fail(snap_nobl, wsnap)
                    s, cnd = rs[0]
                    c = z3.simplify(cnd)
                    if z3.is_false(c):
                        done.append(s)
                        continue
                    if not z3.is_true(c):
                        return self._unroll_fail(snap_nobl, wsnap)
                if it == limit:
                    return self._unroll_fail(snap_nobl, wsnap)
                for s2 in ev_body(s):
                    if s2.sig is None or s2.sig[0] == 'cont':
                        s2.sig = None
                        nxt.extend(ev_inc(s2))
                    elif s2.sig[0] == 'break':
                        s2.sig = None
                        done.append(s2)
                    else:
                        done.append(s2)
            cur = nxt
            if not cur:
                return done
        return self._unroll_fail(snap_nobl, wsnap)

    def _unroll_fail(self, nobl, wsnap):
        del self.obls[nobl:]
        if wsnap is not None:
            self.writes = wsnap
        return None

    def trace_writes(self, st, ev_cond, ev_body, ev_inc, do):
        mark = self.ncell
        W = set()
        saved = self.writes
        self.suppress += 1
        try:
            for _ in range(6):
                self.writes = set()
                s = st.fork()
                self.havoc(s, W)
                for s1, c in ([(s, None)] if do else ev_cond(s)):
                    if s1.sig:
                        continue
                    for s2 in ev_body(s1):
                        if s2.sig is None or s2.sig[0] in ('cont',):
                            s2.sig = None
                            if do:
                                ev_cond(s2)
                            ev_inc(s2)
                new = {w for w in self.writes if w[0] <= mark}
                if new <= W:
                    break
                W |= new
            else:
                raise Unsupported('loop write set did not stabilise')
        finally:
            self.suppress -= 1
            self.writes = saved
        return W

    def havoc(self, st, W):
        for cell, path in sorted(W, key=lambda w: (w[0], len(w[1]), str(w[1]))):
            v = st.cells[cell]
            p = path
            idx = False
            if p and p[-1] == '[]':
                p, idx = p[:-1], True
            cur = v
            for f in p:
                cur = cur.f[f]
            if idx and isinstance(cur, N):
                key = 'val' if cur.kind == 'map' else 'data'
                nv = cur.setk(key, self.refresh(cur.f[key], 'h'))
            elif isinstance(cur, N) and cur.kind in ('vec',):
                nv = self.refresh(cur, 'h')
                st.pc.append(nv.f['len'] >= 0) if nv.f['len'].sort() == I else None
            elif isinstance(cur, Ptr):
                if cur.idx is not None:
                    nv = Ptr(cur.loc, z3.Int(self.fresh_name('hp')))
                elif path:
                    nv = Opq('pointer member reassigned in loop')
                else:
                    raise Unsupported('pointer variable reassigned in loop')
            else:   # pointers and closures inside a reassigned object are no longer known
                nv = tmap(lambda l: Opq('reassigned in loop') if isinstance(l, (Ptr, Clo)) else l, self.refresh(cur, 'h'))
            st.cells[cell] = setpath(v, p, nv)

    def find_spec(self, ordn, n, st):
        s = self.loops.get(ordn)
        if s is None and callable(self.loops.get('match')):
            s = self.loops['match'](self, n, st, ordn)
        return s


def big_term(t, limit):
    n, todo = 0, [t]
    while todo:
        x = todo.pop()
        n += 1
        if n > limit:
            return True
        todo.extend(x.children())
    return False


def setpath(v, p, nv):
    if not p:
        return nv
    return v.setk(p[0], setpath(v.f[p[0]], p[1:], nv))


def concrete_or_none(v):
    return concrete(v) if v.sort() == I else None


def has_quant(f, cache={}):
    k = f.get_id()
    r = cache.get(k)
    if r is not None and r[0].eq(f):
        return r[1]
    res = False
    if z3.is_quantifier(f):
        res = True
    else:
        for c in f.children():
            if has_quant(c):
                res = True
                break
    cache[k] = (f, res)
    return res


class LoopCtx:
    """what an invariant may refer to"""

    def __init__(self, E, st, entry, node, ordn, head=None):
        self.E, self.st, self.entry, self.node, self.ordn, self.head = E, st, entry, node, ordn, head

    def _find(self, st, name):
        for f in reversed(st.frames):
            if name in f.names and f.names[name] in f.env:
                return f.env[f.names[name]]
        raise Unsupported("invariant of loop %s (line %s) refers to variable \"%s\", absent from the current source" % (self.ordn, self.node["ln"], name))

    def has(self, name):
        try:
            self._find(self.st, name)
            return True
        except Unsupported:
            return False

    def __getitem__(self, name):
        return self.E.read(self.st, self._find(self.st, name))

    def loc(self, name):
        return self._find(self.st, name)

    def old(self, name):
        """value at loop entry"""
        return self.E.read(self.entry, self._find(self.entry, name))

    def cell(self, loc):
        return self.E.read(self.st, loc)

    def oldcell(self, loc):
        return self.E.read(self.entry, loc)

    def idx(self, name):
        return self['__idx_' + name]


Engine.r_MCall = Engine.r_MCall_
Engine.l_MCall = lambda self, e, st: self.ensure_loc(self.do_mcall(e, st))
Engine.r_OpCall = lambda self, e, st: self.unwrap_ref(e, self.do_opcall(e, st))
Engine.l_OpCall = lambda self, e, st: self.ensure_loc(self.do_opcall(e, st))
Engine.l_Ctor = lambda self, e, st: self.ensure_loc(self.do_ctor(e, st))

BUILTIN = {}
BUILTIN_PRE = []
METHODS = {}
METHODS_PRE = []
CTORS = {}

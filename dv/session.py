"""A verification session: extract functions mechanically from /repo's current sources, run the VC
generator on every function under contract, discharge the obligations."""
import os, json, subprocess, time, re, hashlib, tempfile, shutil, sys, traceback
import z3
from . import engine as G
from . import stdlib  # noqa: registers std contracts
from . import solve, baseline
from .engine import Engine, State, Frame, Loc, N, Ptr, Unsupported, Obl, IV, I, R, B

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, 'build')


class ExtractError(Exception):
    pass


def incflags(gen):
    r = REPO
    inc = ['bland/bland/include', 'bland/bland/internal/include', 'bland/bland', 'bland/external/dlpack', 'bliss/core/include',
           'bliss/drift_search/include', 'bliss/file_types/include', 'bliss/flaggers/include',
           'bliss/estimators/include', 'bliss/preprocess/include', 'bliss/drift_search', 'bliss/file_types', 'bliss/core']
    return ['-std=gnu++17', '-DFMT_DEPRECATED_OSTREAM', '-DBLISS_USE_CAPNP=1'] + ['-I%s/%s' % (r, i) for i in inc] + ['-I' + gen, '-I%s/bliss' % r, '-isystem', '/usr/include/hdf5/serial']


def gen_dir(scratch):
    """regenerate the capnp sources from the current schema, and the (empty) CUDA arch list of a CPU build"""
    g = os.path.join(scratch, 'gen')
    if not os.path.isdir(g):
        os.makedirs(os.path.join(g, 'generated'))
        open(os.path.join(g, 'generated/bland_cuda_archs.hpp'), 'w').write('#pragma once\n#include <array>\nconstexpr std::array<int, 0> compiled_archs = {};\n')
        d = os.path.join(REPO, 'bliss/file_types')
        subprocess.run(['capnp', 'compile', '-oc++:' + g, '--src-prefix=' + d, os.path.join(d, 'hit.capnp')], check=False, capture_output=True)
    return g


def build_xtract():
    out = os.path.join(BUILD, 'xtract')
    src = os.path.join(HERE, 'tools/xtract.cpp')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    subprocess.run(['clang++', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
                    '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '/usr/lib/llvm-18/lib/libLLVM.so.1'], check=True)
    os.rename(tmp, out)
    return out


class Report:
    """what one session did"""

    def __init__(self):
        self.obls, self.functions, self.unsupported, self.assumptions = [], [], [], set()
        self.lemmas, self.vacuity, self.extract_s, self.solve_s = [], [], 0.0, 0.0


class Session:
    def __init__(self, units, scratch, tier='quick', verbose=False):
        self.rep = Report()
        self.tier, self.verbose = tier, verbose
        self.scratch = scratch
        self.axioms = []          # lemmas already proved (closed formulas) / spec function definitions
        self.lemma_obls = []
        t = time.time()
        self.P = self.extract(units)
        self.odd = {} if os.environ.get('DV_NOBASE') else baseline.apply(self.P, baseline.load())
        self.rep.extract_s = time.time() - t
        self.canaries = []
        self.hashes = {}

    # ------------------------------------------------------------ extraction
    def extract(self, units):
        x = build_xtract()
        gen = gen_dir(self.scratch)
        procs, outs = [], []
        for n, u in enumerate(units):
            src, roots = u[0], u[1]
            stops = u[2] if len(u) > 2 else []
            o = os.path.join(self.scratch, 'x%d.json' % n)
            cmd = [x, '--root', REPO + '/']
            for r in roots:
                cmd += ['-r', r]
            for s in stops:
                cmd += ['-s', s]
            cmd += ['-o', o, os.path.join(REPO, src), '--'] + incflags(gen)
            procs.append((src, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
            outs.append((src, o))
        for src, p in procs:
            so, se = p.communicate()
            if p.returncode != 0:
                raise ExtractError('%s: %s' % (src, (so + se)[-1500:]))
        js = []
        for src, o in outs:
            txt = open(o).read().replace('__cxx11::', '').replace('std::__1::', 'std::')
            js.append((src, json.loads(txt)))
            os.unlink(o)
        return G.merge_programs(js)

    def find(self, q, sig=None):
        c = [k for k, f in self.P['functions'].items() if f['q'] == q and (sig is None or re.search(sig, k if isinstance(k, str) else k[1]))]
        if len(c) != 1:
            raise Unsupported('function %s%s: %d definitions found in the extraction' % (q, ' ~ ' + sig if sig else '', len(c)))
        return c[0]

    # ------------------------------------------------------------ lemmas
    def lemma(self, name, goal, hyps=(), axiom_after=None):
        """an auxiliary mathematical fact: proved by the solver on every run (induction steps given
        explicitly), then usable"""
        o = Obl('lemma/' + name, list(hyps), goal, 0, 'lemma', 'lemma', [])
        self.rep.obls.append(o)
        self.rep.lemmas.append(name)
        return o

    # ------------------------------------------------------------ one function
    def function(self, q, build, sig=None, loops=None, contracts=None, opts=None, name=None, axioms=(), throws=None, after=()):
        """build(E, st, F) -> dict(args=[Loc|value...], this=Loc|None, post=f(E, st, ret) -> [(name, formula)],
        throws=f(E, st)->[(name, formula)] allowed exceptional exits)"""
        label = name or q.split('::')[-1]
        E = None
        try:
            key = self.find(q, sig) if not (isinstance(q, tuple)) else q
            F = self.P['functions'][key]
            E = Engine(self.P, dict(contracts or {}), dict(opts or {}))
            E.curfn = label
            E.loops = loops or {}
            E.axioms = []
            st = State()
            st.frames.append(Frame(key, 0))
            ctx = build(E, st, F)
            pre_pc = list(st.pc)
            outs = E.inline(key, ctx.get('this'), ctx.get('args', []), st, F['ln'])
            nexit = 0
            can = []
            for s, ret in outs:
                if s.sig and s.sig[0] == 'throw':
                    th = ctx.get('throws')
                    if th is None:
                        E.oblige(s, 'no-exception', z3.BoolVal(False), F['ln'], 'spec')
                    else:
                        for nm, f in th(E, s):
                            obl_q(E, s, 'throws.' + nm, f, F['ln'])
                    continue
                if s.sig and s.sig[0] == 'ub':
                    continue
                s.sig = None
                nexit += 1
                if isinstance(ret, Loc) and not ctx.get('retloc'):
                    ret = E.read(s, ret)
                can.append(list(s.pc))
                for nm, f in ctx['post'](E, s, ret):
                    obl_q(E, s, 'ensures.' + nm, f, F['ln'])
            axs = list(axioms) + E.axioms
            for o in E.obls:
                o.hints = axs
            why = sorted({'%s: %s' % (f['q'], self.odd[k]) for k, f in self.P['functions'].items() if k in self.odd and (k == key or f['q'] in E.inlined or f['q'] in after)})
            for o in E.obls:
                o.odd = why
            self.rep.obls += E.obls
            self.canaries.append((label, pre_pc, can, axs, nexit, bool(ctx.get('throws'))))
            self.rep.assumptions |= E.assumptions
            self.rep.functions.append({'function': label, 'q': F['q'], 'file': os.path.relpath(F['file'], REPO), 'line': F['ln'],
                                       'obligations': len(E.obls), 'paths': len(outs), 'inlined': sorted(E.inlined - {F['q']}),
                                       'contracts_used': sorted(E.called)})
        except Unsupported as ex:
            ln = ''
            self.rep.unsupported.append('%s: %s%s' % (label, ex, ln))
            if self.verbose:
                traceback.print_exc()
        except (KeyError, AttributeError, TypeError, z3.Z3Exception, IndexError, AssertionError, ValueError, RecursionError) as ex:
            tb = traceback.extract_tb(ex.__traceback__)[-1]
            self.rep.unsupported.append('%s: verifier limit: %r at %s:%d' % (label, ex, os.path.basename(tb.filename), tb.lineno))
            if self.verbose:
                traceback.print_exc()

    # ------------------------------------------------------------ solving
    def discharge(self, budget_ms, deadline=None):
        t = time.time()
        solve.discharge(self.rep.obls, budget=budget_ms, deadline=deadline)
        self.rep.solve_s = time.time() - t
        # vacuity: no precondition / no complete set of exits may be contradictory
        canobl = []
        for label, pre, exits, axs, nexit, th in self.canaries:
            o = Obl('canary/%s/precondition' % label, pre, z3.BoolVal(False), 0, label, 'canary', [])
            o.hints = axs
            canobl.append((label, 'pre', o))
            for e in exits[:12]:
                o = Obl('canary/%s/exit' % label, e, z3.BoolVal(False), 0, label, 'canary', [])
                o.hints = axs
                canobl.append((label, 'exit', o))
        solve.discharge([o for _, _, o in canobl], budget=1500, canary=True)
        by = {}
        for label, k, o in canobl:
            by.setdefault((label, k), []).append(o.status == 'proved')
        for (label, k), v in by.items():
            if all(v):
                self.rep.vacuity.append('%s: %s contradictory' % (label, k))
        for label, pre, exits, axs, nexit, th in self.canaries:
            if nexit == 0 and not th:
                self.rep.vacuity.append('%s: no normal exit' % label)
        return self.rep


class Q:
    """universally quantified spec formula.  Assumed: ForAll with patterns.  To be proved: fresh constants,
    plus instances of already proved lemmas / assumed universals about them (use)."""

    def __init__(self, names, body, pats=None, use=None, sorts=None):
        self.names, self.body, self.pats, self.use, self.sorts = names, body, pats, use, sorts

    def consts(self, tag=''):
        so = self.sorts or [I] * len(self.names)
        return [z3.Const(n + tag, s) for n, s in zip(self.names, so)]

    def forall(self):
        if not self.names:
            return self.body()
        vs = self.consts('!b')
        b = self.body(*vs)
        if self.pats:
            ps = self.pats(*vs)
            if not isinstance(ps, (list, tuple)):
                ps = [ps]
            ps = [z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in ps]
            return z3.ForAll(vs, b, patterns=ps)
        return z3.ForAll(vs, b)

    def inst(self, *ts):
        return self.body(*ts)


def obl_q(E, st, name, f, ln, kind='spec'):
    if isinstance(f, Q):
        vs = [z3.Const(E.fresh_name(n), s) for n, s in zip(f.names, f.sorts or [I] * len(f.names))]
        n0 = len(st.pc)
        if f.use:
            st.pc.extend(f.use(*vs))
        E.oblige(st, name, f.body(*vs), ln, kind)
        del st.pc[n0:]
    else:
        E.oblige(st, name, f, ln, kind)


def assume_q(st, f):
    st.pc.append(f.forall() if isinstance(f, Q) else f)

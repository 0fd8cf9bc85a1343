"""The shape the specifications were written for.

Loop invariants are written for particular loops and name local variables of the verified function.  The names do
not matter to the meaning of the code, so locals that were merely renamed are renamed back before verification
(alpha-renaming: variables are identified by declaration, never by name, so this cannot change what is verified).
Where the loops themselves have another structure than the one the invariants were written for, a failed
obligation says nothing about the code: such a function counts as not re-proved and the bounded stand-in decides.
The record (specs/baseline.json) is written by tools/mkbaseline.py, never by a check."""
import os, json, difflib

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', 'baseline.json')


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def local_decls(F):
    """declarations in order: parameters, then locals; [name, type, id]"""
    out = [[p['n'], p['t'], p['id']] for p in F.get('params', [])]
    for n in walk(F.get('body')):
        if n.get('k') == 'Decl':
            for v in n['a']:
                out.append([v['n'], v['t'], v['id']])
                out += [[b['n'], 'bind', b['id']] for b in v.get('bind', [])]
        elif n.get('k') in ('Range',) and isinstance(n.get('v'), dict):
            v = n['v']
            out.append([v['n'], v['t'], v['id']])
            out += [[b['n'], 'bind', b['id']] for b in v.get('bind', [])]
    return out


def loops(F):
    """loop statements in order: kind, nesting depth, own break / continue / return statements"""
    out = []

    def go(n, depth, cur, brk):
        if isinstance(n, list):
            for x in n:
                go(x, depth, cur, brk)
            return
        if not isinstance(n, dict):
            return
        k = n.get('k')
        if k in ('For', 'While', 'Do', 'Range'):
            me = [k, depth, 0, 0, 0]
            out.append(me)
            for v in n.values():
                go(v, depth + 1, me, True)
            return
        if k == 'Switch':
            for v in n.values():
                go(v, depth, cur, False)
            return
        if cur is not None:
            if k == 'Break' and brk:
                cur[2] += 1
            elif k in ('Cont', 'Continue'):
                cur[3] += 1
            elif k in ('Ret', 'Return'):
                cur[4] += 1
        for v in n.values():
            if isinstance(v, (dict, list)):
                go(v, depth, cur, brk)
    go(F.get('body'), 0, None, False)
    return [''.join(map(str, x)) for x in out]


def ident(F, key):
    return 'lambda in ' + F['tu'] if not isinstance(key, str) else F['q']


def load():
    try:
        return json.load(open(PATH))
    except (OSError, ValueError):
        return None


def align(base, cur):
    """name in the current source -> name in the baseline, for locals that were renamed"""
    bn, cn = [b[0] for b in base], [c[0] for c in cur]
    free_b, free_c = set(bn) - set(cn), set(cn) - set(bn)
    m = {}
    for op, i1, i2, j1, j2 in difflib.SequenceMatcher(None, bn, cn, autojunk=False).get_opcodes():
        if op == 'replace' and i2 - i1 == j2 - j1:
            for b, c in zip(bn[i1:i2], cn[j1:j2]):
                if b in free_b and c in free_c and c not in m and b not in m.values():
                    m[c] = b
    lb = [b for b in base if b[0] in free_b and b[0] not in m.values()]
    lc = [c for c in cur if c[0] in free_c and c[0] not in m]
    for t in {b[1] for b in lb}:
        x, y = [b[0] for b in lb if b[1] == t], [c[0] for c in lc if c[1] == t]
        if len(x) == len(y) and len(set(x)) == len(x) and len(set(y)) == len(y):
            m.update({c: b for c, b in zip(y, x)})
    return m


def apply(P, BL):
    """rename renamed locals back; returns {function key: why it no longer has the recorded shape}"""
    odd = {}
    if BL is None:
        return odd
    for key, F in P['functions'].items():
        if not F.get('body'):
            continue
        ds, lp = local_decls(F), loops(F)
        if not ds and not lp:
            continue
        vs = BL.get(ident(F, key))
        if vs is None:
            if lp:
                odd[key] = 'new function with %d loops' % len(lp)
            continue
        if not isinstance(key, str):
            if lp and not any(v['loops'] == lp for v in vs):
                odd[key] = 'loops of a lambda differ'
            continue
        names = [d[0] for d in ds]
        same = [v for v in vs if [x[0] for x in v['locals']] == names]
        if not same:
            np = len(F.get('params', []))
            cand = [v for v in vs if v['np'] == np] or vs
            best = max(cand, key=lambda v: (v['loops'] == lp, difflib.SequenceMatcher(None, [x[0] for x in v['locals']], names, autojunk=False).ratio(),
                                            sum(a[1] == b[1] for a, b in zip(v['locals'], ds))))
            m = align(best['locals'], ds)
            if m:
                ren = {d[2]: m[d[0]] for d in ds if d[0] in m}
                for n in walk(F.get('body')):
                    if n.get('id') in ren and 'n' in n and n['n'] in m:
                        n['n'] = m[n['n']]
                for n in walk(F.get('inits')):
                    if n.get('id') in ren and 'n' in n and n['n'] in m:
                        n['n'] = m[n['n']]
                for p in F.get('params', []):
                    if p['id'] in ren:
                        p['n'] = m[p['n']]
                if lp:
                    odd[key] = 'renamed locals: ' + ', '.join('%s -> %s' % x for x in sorted(m.items()))
            same = [best]
        if lp and not any(v['loops'] == lp for v in same):
            odd[key] = 'loops differ from the ones the invariants were written for'
    return odd


def record(P, out):
    for key, F in P['functions'].items():
        if not F.get('body'):
            continue
        ds, lp = local_decls(F), loops(F)
        if not ds and not lp:
            continue
        vs = out.setdefault(ident(F, key), [])
        if not isinstance(key, str):
            if not lp:
                continue
            ds = []
        e = {'locals': [[d[0], d[1]] for d in ds], 'np': len(F.get('params', [])), 'loops': lp}
        if not any([x[0] for x in v['locals']] == [x[0] for x in e['locals']] and v['loops'] == lp for v in vs):
            vs.append(e)

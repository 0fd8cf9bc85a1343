"""recognising what a loop steps, whatever its variables are called"""
import z3
from dv.engine import Unsupported, Ptr


def _inc(e):
    """name of the variable an expression statement increments by one"""
    while isinstance(e, dict) and e.get('k') in ('Expr', 'Cast', 'Paren'):
        e = e.get('e')
    if not isinstance(e, dict):
        return None
    if e.get('k') == 'Un' and e.get('op') == '++' and e['e'].get('k') == 'Ref':
        return e['e']['n']
    if e.get('k') == 'OpCall' and e.get('op') == '++' and e.get('a') and e['a'][0].get('k') == 'Ref':
        return e['a'][0]['n']
    return _plus_one(e)


def _plus_one(e):
    """x += 1"""
    if e.get('k') == 'CAsg' and e.get('op') == '+' and isinstance(e.get('l'), dict) and e['l'].get('k') == 'Ref':
        r = e['r']
        while r.get('k') == 'Cast':
            r = r['e']
        if r.get('k') == 'Int' and str(r.get('v')) == '1':
            return e['l']['n']
    return None


def stepped(n):
    """names of the integer variables the loop increments once per iteration"""
    out = []
    if n['k'] == 'Range':
        out.append('__idx_' + n['v']['n'])
    if n.get('inc'):
        stack = [n['inc']]
        while stack:
            e = stack.pop()
            if isinstance(e, dict) and e.get('k') == 'Bin' and e.get('op') == ',':
                stack += [e['l'], e['r']]
            elif _inc(e):
                out.append(_inc(e))
    top = n['body'].get('a', []) if n['body'].get('k') == 'Block' else [n['body']]
    for x in top:
        if _inc(x):
            out.append(_inc(x))
    every = _incs(n['body'], False)
    for nm, sure in every:
        if sure and nm not in out and sum(1 for m, _ in every if m == nm) == 1:
            out.append(nm)
    return out


def _incs(e, cond):
    """(variable, happens in every iteration) of the increments inside an expression or statement"""
    if isinstance(e, list):
        return [x for y in e for x in _incs(y, cond)]
    if not isinstance(e, dict):
        return []
    out = []
    if e.get('k') == 'Un' and '++' in str(e.get('op')) and isinstance(e.get('e'), dict) and e['e'].get('k') == 'Ref':
        out.append((e['e']['n'], not cond))
    if e.get('k') == 'OpCall' and e.get('op') == '++' and e.get('a') and isinstance(e['a'][0], dict) and e['a'][0].get('k') == 'Ref':
        out.append((e['a'][0]['n'], not cond))
    if _plus_one(e):
        out.append((_plus_one(e), not cond))
    inner = cond or e.get('k') in ('If', 'For', 'While', 'Do', 'Range', 'Switch', 'Cond', 'Lambda', 'Try') or (e.get('k') == 'Bin' and e.get('op') in ('&&', '||'))
    for v in e.values():
        if isinstance(v, (dict, list)):
            out += _incs(v, inner)
    return out


def counter(c):
    """iterations done so far, and the facts tying the other stepped variables to it"""
    main, facts = None, []
    for nm in stepped(c.node):
        if not c.has(nm):
            continue
        v = c[nm]
        if isinstance(v, Ptr) and v.idx is not None:     # an iterator: its position
            try:
                o = c.old(nm)
            except Unsupported:
                o = None
            d = z3.simplify(v.idx - (o.idx if isinstance(o, Ptr) and o.idx is not None else z3.IntVal(0)))
            if main is None:
                main = d
            else:
                facts.append(d == main)
            continue
        if not (z3.is_expr(v) and z3.is_int(v)):
            continue
        try:
            o = c.old(nm)
        except Unsupported:
            o = z3.IntVal(0)
        d = z3.simplify(v - o)
        if main is None:
            main = d
        else:
            facts.append(d == main)
    if main is None:
        raise Unsupported('loop at line %s steps no recognised counter' % c.node.get('ln'))
    return main, facts

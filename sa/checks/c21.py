"""C21: the two directions of a permutation undo each other.

T1 composition  for every type of permutation, forward and then backward is the position started from, and the other way
                round, on every pair of paths through the two functions, for all positions below the length
T2 partnership  where both directions are stored, every function that changes them changes both so that they still undo
                each other: exchanging them, swapping two elements of one and the two elements these name in the other, or
                deriving one from the other after the change
"""
from absint import TooComplex
from cmpterm import Comparer
from term import N, fld, num, proj, sym
import term as T

REARRANGE = {'rotate_left', 'rotate_right', 'reversed', 'swapped', 'sorted', 'perm'}
TRAIT = 'Permutation'


def stored(c):
    """Types with a forward and a backward list."""
    out = {}
    for (ty, f), t in c.prog.field_types.items():
        if f in ('forward', 'backward') and 'Vec<' in t:
            out.setdefault(ty, set()).add(f)
    return {ty for ty, fs in out.items() if len(fs) == 2}


def undo(t):
    """What one stored direction names under the other is the position itself."""
    m = {}
    for x in T.subnodes(t):
        if x.op == 'idx' and x.a[0].op == 'fld' and x.a[1].op == 'idx' and x.a[1].a[0].op == 'fld' and \
                x.a[0].a[0] is x.a[1].a[0].a[0] and {x.a[0].a[1], x.a[1].a[0].a[1]} == {'forward', 'backward'}:
            m[x] = x.a[1].a[1]
    return T.subst(t, m) if m else t


def composition(c, ty, first, second, lenb):
    key = 'composition:%s: %s after %s' % (ty, second.name.rpartition('::')[2], first.name.rpartition('::')[2])
    e = c.engine()
    try:
        _, ps = c.run(first, engine=e)
        _, ls = c.run(lenb, engine=e)
        if len(ls) != 1 or ls[0].kind != 'ret':
            return c.undecided(key, 'the length is not one term')
        i = sym('a1')
        n = 0
        for p in ps:
            if p.kind != 'ret':
                continue
            st = e.assume_sign(p.state.copy(), T.sub(i, ls[0].ret), (-1,))
            if st is None:
                continue
            conds = dict(st.conds)
            _, qs = c.run(second, args=[None, p.ret], pre=lambda s: s.conds.update(conds), engine=e)
            cmp_ = Comparer(e)
            for q in qs:
                if not cmp_.feasible(q.state):
                    continue
                if q.kind == 'panic':
                    return c.undecided(key, 'a panic at %s' % (q.span,))
                n += 1
                got = undo(q.ret)
                if cmp_.equal(q.state, got, i):
                    continue
                if any(x.op not in ('poly', 'num', 'sym', 'fld', 'idx', 'len', 'call') or
                       x.op == 'call' and x.a[0].rpartition('::')[2] != 'len' for x in T.subnodes(got)):
                    return c.undecided(key, 'not fully interpreted: ' + T.pretty(got)[:200])
                return c.violated(key, {'function': second.id, 'after': first.id, 'from position': T.pretty(i), 'over': T.pretty(p.ret)[:200],
                                        'to': T.pretty(got)[:200], 'facts': [T.p_cond(x) for x in q.state.conds.items()][:10]})
        if n == 0:
            return c.undecided(key, 'no path')
        c.ok(key, '%d pairs of paths' % n)
    except TooComplex as x:
        c.undecided(key, 'too complex: %s' % x)


def writes(v, base):
    """[(index, value)] of a chain of single writes over base, or None."""
    out = []
    while v.op == 'upd' and v.a[1][0] == 'i':
        out.append((v.a[1][1], v.a[2]))
        v = v.a[0]
    return out[::-1] if v is base else None


def swap_of(ws, base):
    """The two positions exchanged by the writes."""
    if ws is None or len(ws) != 2:
        return None
    (x, a), (y, b) = ws
    at = lambda k: proj(base, ('i', k))
    return {x, y} if a is at(y) and b is at(x) else None


def derived(b, b0, f, f0):
    """b is what f says, written position by position from the lowest position f changed onwards."""
    lo = None
    if f is f0:
        lo = None
    elif f.op == 'upd' and f.a[0] is f0 and f.a[1][0] == 'sl' and f.a[1][2] is T.length(f0) and \
            f.a[2].op == 'call' and f.a[2].a[0] in REARRANGE and f.a[2].a[1][0] is N('slice', f0, f.a[1][1], f.a[1][2]):
        lo = f.a[1][1]
    elif f.op == 'call' and f.a[0] in REARRANGE and f.a[1][0] is f0:
        lo = num(0)
    else:
        return False
    if b.op != 'fold' or len(b.a[0]) != 1 or len(b.a[1]) != 1 or b.a[1][0] is not b0 or len(b.a[2]) != 1:
        return False
    (k, a, n, rev), = b.a[0]
    conds, vs = b.a[2][0]
    ws = writes(vs[0], N('bphi', b.a[3], 0))
    if conds or ws is None or len(ws) != 1:
        return False
    at, j = ws[0]
    start = T.subst(j, {k: num(0)})
    if T.sub(j, T.add(start, k)) is not num(0) or T.sub(T.add(start, n), T.length(f0)) is not num(0) or a is not num(0):
        return False
    if lo is not None and start is not lo and start is not num(0):
        return False
    return at is proj(f, ('i', j))


PLAIN = {'upd', 'fld', 'idx', 'slice', 'num', 'poly', 'len', 'sym'}


def partnership(c, ty, b):
    key = 'partnership:' + b.id
    try:
        e, ps = c.run(b)
    except TooComplex as x:
        return c.undecided(key, 'too complex: %s' % x)
    s = sym('self')
    F0, B0 = fld(s, 'forward'), fld(s, 'backward')
    und = None
    for p in ps:
        if p.kind != 'ret':
            continue
        v = p.state.mem.get(('S', s), s)
        F, B = proj(v, ('f', 'forward')), proj(v, ('f', 'backward'))
        if F is F0 and B is B0 or F is B0 and B is F0:
            continue
        sf, sb = swap_of(writes(F, F0), F0), swap_of(writes(B, B0), B0)
        if sf and sb and (sb == {proj(F0, ('i', x)) for x in sf} or sf == {proj(B0, ('i', x)) for x in sb}):
            continue
        if derived(B, B0, F, F0) or derived(F, F0, B, B0):
            continue
        facts = [T.p_cond(x) for x in p.conds.items()][:10]
        if all(x.op in PLAIN or x.op == 'call' and x.a[0] in REARRANGE for y in (F, B) for x in T.subnodes(y)):
            return c.violated(key, {'function': b.id, 'at': b.loc(), 'forward becomes': T.pretty(F)[:400], 'backward becomes': T.pretty(B)[:400],
                                    'facts': facts})
        und = 'forward %s, backward %s' % (T.pretty(F)[:150], T.pretty(B)[:150])
    if und:
        c.undecided(key, und)
    else:
        c.ok(key, '%d paths' % len(ps))


def check(c):
    c.rule('composition', 'forward and then backward, and backward and then forward, is the position started from')
    c.rule('partnership', 'every change of the stored directions leaves them inverse to each other')
    pairs = {}
    for fid, b in c.prog.fns.items():
        for m in ('forward', 'backward', 'len'):
            if fid.endswith(' as %s>::%s' % (TRAIT, m)):
                pairs.setdefault(fid[1:].partition(' as ')[0], {})[m] = b
    for ty, ms in sorted(pairs.items()):
        if len(ms) < 3:
            c.undecided('composition:' + ty, 'not all of forward, backward, len found')
            continue
        composition(c, ty, ms['forward'], ms['backward'], ms['len'])
        composition(c, ty, ms['backward'], ms['forward'], ms['len'])
    if not pairs:
        c.undecided('composition', 'no implementation of Permutation found')
    for ty in sorted(stored(c)):
        for fid, b in sorted(c.prog.fns.items()):
            if '{closure#' in b.name or not b.params or b.impl is None or not b.loc().startswith('src/'):
                continue
            t = b.params[0][1]
            if b.param_names()[:1] == ['self'] and t.startswith('&') and 'mut ' in t and T_last(t) == T_last(ty):
                partnership(c, ty, b)


def T_last(t):
    from mir import last_seg, strip_generics
    return last_seg(strip_generics(t.replace('&', '').replace('mut ', '').strip()))

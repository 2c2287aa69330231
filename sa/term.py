"""Hash-consed value terms with a polynomial normal form, and finite/interval condition domains."""
from fractions import Fraction


class Node:
    __slots__ = ('op', 'a', 'id', '_free')

    def __repr__(self):
        return pretty(self)


_TABLE = {}


def N(op, *a):
    key = (op, a)
    n = _TABLE.get(key)
    if n is None:
        n = Node()
        n.op, n.a, n.id, n._free = op, a, len(_TABLE), None
        _TABLE[key] = n
    return n


# ---- traversal -----------------------------------------------------------------------------
def _walk(x, f):
    if isinstance(x, Node):
        f(x)
    elif isinstance(x, tuple):
        for y in x:
            _walk(y, f)


def subnodes(n, seen=None):
    """All distinct subterms."""
    seen = {} if seen is None else seen
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, Node):
            if x.id in seen:
                continue
            seen[x.id] = x
            stack.append(x.a)
        elif isinstance(x, (tuple, frozenset)):
            stack.extend(x)
    return seen.values()


def contains(n, pred):
    return any(pred(x) for x in subnodes(n))


def subst(n, m, cache=None):
    """Replace nodes by m (dict node -> node), rebuilding through the smart constructors."""
    cache = {} if cache is None else cache

    def go(x):
        if isinstance(x, Node):
            if x in m:
                return m[x]
            r = cache.get(x.id)
            if r is None:
                a = tuple(go(y) for y in x.a)
                r = x if all(p is q for p, q in zip(a, x.a)) else rebuild(x.op, a)
                cache[x.id] = r
            return r
        if isinstance(x, tuple):
            t = tuple(go(y) for y in x)
            return x if all(p is q for p, q in zip(t, x)) else t
        return x
    return go(n)


def rebuild(op, a):
    if op == 'poly':
        d = {}
        for mono, c in a[0]:
            t = {(): c}
            for x, e in mono:
                t = p_mul(t, p_pow(p_of(x), e))
            for k, v in t.items():
                d[k] = d.get(k, 0) + v
        return p_node(d)
    if op == 'fld':
        return proj(a[0], ('f', a[1]))
    if op == 'dc':
        return proj(a[0], ('v', a[1]))
    if op == 'idx':
        return proj(a[0], ('i', a[1]))
    if op == 'slice':
        return proj(a[0], ('sl', a[1], a[2]))
    if op == 'len':
        return length(a[0])
    if op == 'vec':
        return vec(a[0])
    if op == 'sgn':
        return sgn(a[0], a[1])
    if op == 'not':
        return bnot(a[0])
    if op == 'cmp':
        return cmp_node(a[0])
    if op == 'sum':
        return mksum(a[0], a[1])
    return N(op, *a)


# ---- numbers -------------------------------------------------------------------------------
def num(c):
    return N('num', Fraction(c))


ZERO, ONE = None, None


def p_of(n):
    if n.op == 'num':
        return {(): n.a[0]} if n.a[0] else {}
    if n.op == 'poly':
        return dict(n.a[0])
    return {((n, 1),): Fraction(1)}


def _mkey(mono):
    return tuple((x.id, e) for x, e in mono)


def p_node(d):
    items = [(m, c) for m, c in d.items() if c]
    if not items:
        return num(0)
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: _mkey(mc[0]))
    return N('poly', tuple(items))


def p_add(a, b, s=1):
    d = dict(a)
    for m, c in b.items():
        d[m] = d.get(m, 0) + s * c
        if not d[m]:
            del d[m]
    return d


def p_mul(a, b):
    d = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            e = {}
            for x, k in m1 + m2:
                e[x] = e.get(x, 0) + k
            m = tuple(sorted(((x, k) for x, k in e.items() if k), key=lambda t: t[0].id))
            d[m] = d.get(m, 0) + c1 * c2
    return {m: c for m, c in d.items() if c}


def p_pow(a, e):
    if e == 0:
        return {(): Fraction(1)}
    if e > 0:
        r = a
        for _ in range(e - 1):
            r = p_mul(r, a)
        return r
    inv = p_inv(a)
    return p_pow(inv, -e)


def p_inv(a):
    if len(a) == 1:
        (m, c), = a.items()
        return {tuple((x, -k) for x, k in m): 1 / Fraction(c)}
    # make monic so that inverses of proportional polynomials coincide
    n = p_node(a)
    lead = n.a[0][0][1]
    mon = p_node({m: c / lead for m, c in a.items()})
    return {((mon, -1),): 1 / Fraction(lead)}


def add(a, b):
    return p_node(p_add(p_of(a), p_of(b)))


def sub(a, b):
    return p_node(p_add(p_of(a), p_of(b), -1))


def mul(a, b):
    return p_node(p_mul(p_of(a), p_of(b)))


def neg(a):
    return p_node({m: -c for m, c in p_of(a).items()})


def div(a, b):
    pb = p_of(b)
    if not pb:
        return N('call', 'div0', (a, b))
    return p_node(p_mul(p_of(a), p_inv(pb)))


def is_num(n):
    return n.op == 'num'


# ---- sign conditions -----------------------------------------------------------------------
ALL3 = (-1, 0, 1)


def sgn(p, signs):
    """Bool term: sign(p) in signs."""
    signs = tuple(sorted(set(signs)))
    if p.op == 'num':
        v = p.a[0]
        return TRUE if (v > 0) - (v < 0) in signs else FALSE
    if signs == ALL3:
        return TRUE
    if signs == ():
        return FALSE
    return N('sgn', p, signs)


def bnot(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == 'not':
        return x.a[0]
    if x.op == 'sgn':
        return sgn(x.a[0], [s for s in ALL3 if s not in x.a[1]])
    return N('not', x)


def boolean(v):
    return TRUE if v else FALSE


def cmp_node(p):
    if p.op == 'num':
        v = p.a[0]
        return adt('Ordering', 'Less' if v < 0 else 'Greater' if v > 0 else 'Equal')
    return N('cmp', p)


# ---- aggregates ----------------------------------------------------------------------------
def adt(ty, variant=None, fields=()):
    return N('adt', ty, variant, tuple(fields))


def tup(*vals):
    return N('tup', tuple(vals))


def some(x):
    return adt('Option', 'Some', (('0', x),))


def sym(name):
    return N('sym', name)


def call(f, *args):
    return N('call', f, tuple(args))


def fld(x, *names):
    for n in names:
        x = proj(x, ('f', n))
    return x


def pay(x, variant, name='0'):
    return proj(proj(x, ('v', variant)), ('f', name))


def vec(parts):
    out = []
    for p in parts:
        if p[0] == 'all' and isinstance(p[1], Node) and p[1].op == 'vec':
            out.extend(p[1].a[0])
        elif p[0] == 'for' and not p[2]:
            continue
        elif p[0] == 'for' and len(p[2]) == 1 and len(p[1]) == 1:
            # identity comprehension
            conds, inner = p[2][0]
            k, lo, hi, rev = p[1][0]
            if not conds and len(inner) == 1 and inner[0][0] == 'one' and not rev and lo is num(0):
                e = inner[0][1]
                if e.op == 'idx' and e.a[1] is k and length(e.a[0]) is hi and not contains(e.a[0], lambda x: x is k):
                    out.extend(vec((('all', e.a[0]),)).a[0] if e.a[0].op == 'vec' else [('all', e.a[0])])
                    continue
            if len(inner) == 1 and inner[0][0] == 'for' and part_len(p) is None and \
                    not {g[0] for g in p[1]} & {g[0] for g in inner[0][1]}:
                # all that the iterations of a loop within a loop contribute
                p = ('for', tuple(p[1]) + tuple(inner[0][1]), tuple((tuple(conds) + tuple(c), q) for c, q in inner[0][2]))
            out.append(p)
        else:
            out.append(p)
    if len(out) == 1 and out[0][0] == 'all':
        return out[0][1]
    return N('vec', tuple(out))


def vec_parts(v):
    return v.a[0] if v.op == 'vec' else (('all', v),)


def part_len(p):
    if p[0] == 'one':
        return num(1)
    if p[0] == 'all':
        return length(p[1])
    if p[0] == 'for' and len(p[1]) == 1 and len(p[2]) == 1 and not p[2][0][0]:
        k, lo, hi, rev = p[1][0]
        inner = num(0)
        for q in p[2][0][1]:
            l = part_len(q)
            if l is None:
                return None
            inner = add(inner, l)
        if is_num(inner):
            return mul(inner, sub(hi, lo))
    return None


# Sizes that the constructors of a type declare equal are one size where this is set (see agree.py): the major dimension
# of a matrix and the collections it stores; rows of a constraint matrix, their relations and the right-hand side;
# variables and columns; the vectors of a carry matrix.
INVARIANTS = False
ROWS = ('constraint_types', 'basis_indices')


def length(v):
    if INVARIANTS and v.op == 'fld':
        if v.a[1] in ROWS:
            return length(fld(v.a[0], 'b', 'data'))
        if v.a[1] == 'variables':
            return length(fld(v.a[0], 'constraints', 'data'))
        if v.a[1] == 'data' and v.a[0].op == 'fld' and v.a[0].a[1] == 'minus_pi':
            return length(fld(v.a[0].a[0], 'b', 'data'))
    if INVARIANTS and v.op == 'call' and v.a[0] == 'remove_indices!0' and len(v.a[1]) == 2:
        return sub(length(v.a[1][0]), length(v.a[1][1]))      # the indices are distinct and exist
    if v.op == 'vec':
        t = num(0)
        for p in v.a[0]:
            l = part_len(p)
            if l is None:
                return N('len', v)
            t = add(t, l)
        return t
    if v.op == 'slice':
        return sub(v.a[2], v.a[1])
    if v.op == 'rep':
        return v.a[1]
    if v.op == 'upd' and v.a[1][0] in ('i', 'sl'):
        return length(v.a[0])
    if v.op == 'adt' and v.a[1] is None and len(v.a[2]) == 1:
        pass
    if v.op == 'call' and v.a[0] in LEN_PRESERVING:
        return length(v.a[1][0])
    if v.op == 'call' and v.a[0] in ('keys', 'values', 'into_keys', 'into_values') and len(v.a) > 1 and len(v.a[1]) == 1:
        return length(v.a[1][0])
    if v.op == 'fold':
        b = N('bphi', v.a[3], 0)
        if all(same_length(vs[0], b) for _, vs in v.a[2]):
            return length(v.a[1][0])
    if v.op == 'fld' and v.a[1] in LENGTHS and given(v.a[0]):
        return LENGTHS[v.a[1]](v)
    return N('len', v)


def same_length(v, base):
    while v is not base:
        if v.op == 'upd' and v.a[1][0] in ('i', 'sl'):
            v = v.a[0]
        elif v.op == 'fold' and all(same_length(vs[0], N('bphi', v.a[3], 0)) for _, vs in v.a[2]):
            v = v.a[1][0]
        elif v.op == 'call' and v.a[0] in LEN_PRESERVING:
            v = v.a[1][0]
        else:
            return False
    return True


def _apart(i, j):
    """The indices differ whatever the loop counters are."""
    if i.op in ('adt', 'str', 'tup') or j.op in ('adt', 'str', 'tup'):
        return _distinct_index(i, j)
    for d in (sub(i, j), sub(j, i)):
        p = dict(p_of(d))
        c = p.pop((), 0)
        if c > 0 and all(x > 0 and all(y.op in ('k', 'len') for y, _ in m) for m, x in p.items()):
            return True
    return False


def untouched(f, i):
    """Element i of the first value a fold carries is neither read nor written by any step."""
    b = N('bphi', f.a[3], 0)
    hole = N('sym', '#element')
    def only(x):
        # b occurs in x only as b[j] with j apart from i
        m = {y: hole for y in subnodes(x) if y.op == 'idx' and y.a[0] is b and _apart(y.a[1], i)}
        return not contains(subst(x, m), lambda y: y is b)
    for conds, vs in f.a[2]:
        for key, _ in conds:
            if contains(key[1], lambda y: y is b):
                return False
        v = vs[0]
        while v.op == 'upd' and v.a[1][0] == 'i':
            if not _apart(v.a[1][1], i) or not only(v.a[2]):
                return False
            v = v.a[0]
        if v is not b or any(contains(x, lambda y: y is b) for x in vs[1:]):
            return False
    return True


def _differ(conds, i, j):
    """The conditions of a step, or the shape of the indices, keep them apart."""
    if _apart(i, j):
        return True
    d = sub(i, j)
    if d.op != 'poly':
        return False
    L, s, c = linkey(d)
    for key, v in conds:
        if key[0] == 'lin' and v[0] == 'iv':
            key, v = norm_lin(key, v)
            if key[1] is L and not any((lo is None or lo < -c or (lo == -c and c1)) and
                                       (hi is None or hi > -c or (hi == -c and d1)) for lo, c1, hi, d1 in v[1]):
                return True
    return False


def _beside(conds, vs, states):
    """Reads of elements next to the one the step wrote."""
    for _ in range(4):
        m = {}
        for x in subnodes(vs):
            if x.op == 'idx' and x.a[0].op == 'upd' and x.a[0].a[1][0] == 'i':
                v = x.a[0]
                while v.op == 'upd' and v.a[1][0] == 'i' and _differ(conds, x.a[1], v.a[1][1]):
                    v = v.a[0]
                if v is not x.a[0] and v in states:
                    m[x] = proj(v, ('i', x.a[1]))
        if not m:
            return vs
        vs = tuple(subst(v, m) for v in vs)
    return vs


def settle(ini, rows, level):
    """Reads, within a step, of elements that no step writes are reads of the initial value."""
    b0 = [N('bphi', level, n) for n in range(len(ini))]
    rows = tuple((conds, _beside(conds, vs, b0)) for conds, vs in rows)
    m = {}
    for n, start in enumerate(ini):
        b = b0[n]
        written, plain = [], True
        for conds, vs in rows:
            v = vs[n]
            while v.op == 'upd' and v.a[1][0] == 'i':
                written.append((conds, v.a[1][1]))
                v = v.a[0]
            plain = plain and v is b
        if not plain:
            continue
        for x in subnodes(rows):
            if x.op == 'len' and x.a[0] is b:
                m[x] = length(start)
            if x.op == 'idx' and x.a[0] is b and not contains(x.a[1], lambda y: y.op in ('bphi', 'k', 'phi', 'bvar', 'bound')):
                if all(_differ(c, x.a[1], j) for c, j in written):
                    m[x] = proj(start, ('i', x.a[1]))
    if not m:
        return rows
    out = [(tuple(((k[0], subst(k[1], m)), c) for k, c in conds), tuple(subst(v, m) for v in vs)) for conds, vs in rows]
    return tuple(sorted(out, key=lambda t: (tuple((k[0], k[1].id) for k, _ in t[0]), tuple(v.id for v in t[1]))))


def fold(gens, ini, rows, level):
    """A fold; what was written to elements it leaves alone is written after it instead."""
    first = ini[0]
    if first.op == 'upd' and first.a[1][0] == 'i':
        probe = N('fold', gens, (first.a[0],) + tuple(ini[1:]), rows, level)
        if untouched(probe, first.a[1][1]):
            return update(fold(gens, (first.a[0],) + tuple(ini[1:]), rows, level), (first.a[1],), first.a[2])
    return N('fold', gens, ini, rows, level)


def given(v):
    """Part of a value a function starts with."""
    while v.op in ('fld', 'dc', 'idx'):
        v = v.a[0]
    return v.op == 'sym'


def _dimension(v):
    return length(fld(v.a[0], 'row_permutation', 'forward'))


# lengths that the invariants of a type fix (what builds or changes a value of the type is compared itself):
# an LU decomposition of an m x m matrix, a permutation and its inverse
LENGTHS = {
    'upper_diagonal': _dimension,
    'upper_triangular': lambda v: sub(_dimension(v), num(1)),
    'lower_triangular': lambda v: sub(_dimension(v), num(1)),
    'backward': lambda v: length(fld(v.a[0], 'forward')),
    'forward': lambda v: length(fld(v.a[0].a[0], 'row_permutation', 'forward'))
        if v.a[0].op == 'fld' and v.a[0].a[1] == 'column_permutation' else N('len', v),
}


LEN_PRESERVING = {'rotate_left', 'rotate_right', 'sorted', 'reversed', 'swapped', 'perm'}


# ---- projections ---------------------------------------------------------------------------
def _distinct_index(i, j):
    if i.op in ('adt', 'str', 'tup') or j.op in ('adt', 'str', 'tup'):
        return i.op == j.op and i.op in ('adt', 'str') and (i.op == 'str' or (not i.a[2] and not j.a[2])) and i is not j
    d = sub(i, j)
    return d.op == 'num' and d.a[0] != 0


def _counted(d):
    """A number, the count of an iteration, a length, or a sum of such: not negative."""
    if is_num(d):
        return d.a[0] >= 0
    if d.op == 'poly':
        return all(c >= 0 and all(x.op in ('k', 'len') for x, _ in m) for m, c in d.a[0])
    return d.op in ('k', 'len')


def proj(v, e):
    k = e[0]
    if v.op == 'ref' and k == 'f':
        return v            # Box internals
    if v.op == 'upd':
        base, ue, val = v.a
        if ue == e:
            return val
        if k == 'i' and ue[0] == 'i':
            if _distinct_index(ue[1], e[1]):
                return proj(base, e)
            return N('idx', v, e[1])
        if k == 'i' and ue[0] == 'sl':
            d = sub(e[1], ue[1])
            if is_num(d) and d.a[0] < 0:
                return proj(base, e)
            if ue[2] is length(base) and _counted(d):
                return proj(val, ('i', d))
            return N('idx', v, e[1])
        if k == 'sl':
            return N('slice', v, e[1], e[2])
        return proj(base, e)
    if k == 'f':
        if v.op == 'adt':
            for n, x in v.a[2]:
                if n == e[1]:
                    return x
        elif v.op == 'tup':
            i = e[1]
            if i.isdigit() and int(i) < len(v.a[0]):
                return v.a[0][int(i)]
        elif v.op == 'clo':
            for n, (nm, x) in enumerate(v.a[1]):
                if str(n) == e[1]:
                    return x
        elif v.op == 'dc' and v.a[1] == 'Some' and v.a[0].op == 'call' and v.a[0].a[0] == 'get' and len(v.a[0].a[1]) == 2 and \
                not (v.a[0].a[1][1].op == 'adt' and v.a[0].a[1][1].a[0].startswith('Range')):
            return proj(v.a[0].a[1][0], ('i', v.a[0].a[1][1]))     # what is found under a key
        if INVARIANTS and e[1] == 'major_dimension_size':
            return length(proj(v, ('f', 'data')))
        if INVARIANTS and e[1] == 'minor_dimension_size' and v.op == 'fld' and v.a[1] == 'constraints':
            return length(fld(v.a[0], 'b', 'data'))
        return N('fld', v, e[1])
    if k == 'v':
        if v.op == 'adt':
            return v
        return N('dc', v, e[1])
    if k == 'i':
        i = e[1]
        if v.op == 'vec':
            pos = num(0)
            for p in v.a[0]:
                l = part_len(p)
                d = sub(i, pos)
                if p[0] == 'one':
                    if d is num(0):
                        return p[1]
                elif p[0] == 'for' and l is not None and len(v.a[0]) == 1 and len(p[1]) == 1 and not p[1][0][3]:
                    kk, lo, hi, rev = p[1][0]
                    if len(p[2][0][1]) == 1 and p[2][0][1][0][0] == 'one':
                        return subst(p[2][0][1][0][1], {kk: add(lo, i)})
                if l is None or not (is_num(d) and d.a[0] >= 0):
                    break
                pos = add(pos, l)
            return N('idx', v, i)
        if v.op == 'slice':
            return proj(v.a[0], ('i', add(v.a[1], i)))
        if v.op == 'rep':
            return v.a[0]
        if v.op == 'call' and v.a[0] == 'insert' and len(v.a[1]) == 3 and v.a[1][1] is i:
            return v.a[1][2]
        if v.op == 'fold' and untouched(v, i):
            return proj(v.a[1][0], e)
        return N('idx', v, i)
    if k == 'sl':
        a, b = e[1], e[2]
        if v.op == 'slice':
            return proj(v.a[0], ('sl', add(v.a[1], a), add(v.a[1], b)))
        if a is num(0) and b is length(v):
            return v
        return N('slice', v, a, b)
    raise AssertionError(e)


def update(v, path, val):
    if not path:
        return val
    e, rest = path[0], path[1:]
    new = update(proj(v, e), rest, val)
    return set_elem(v, e, new)


def set_elem(v, e, new):
    k = e[0]
    if k == 'f':
        if v.op == 'adt':
            fs = tuple((n, new if n == e[1] else x) for n, x in v.a[2])
            if any(n == e[1] for n, _ in v.a[2]):
                return N('adt', v.a[0], v.a[1], fs)
        if v.op == 'tup' and e[1].isdigit() and int(e[1]) < len(v.a[0]):
            t = list(v.a[0])
            t[int(e[1])] = new
            return N('tup', tuple(t))
        if v.op == 'clo' and e[1].isdigit() and int(e[1]) < len(v.a[1]):
            t = list(v.a[1])
            t[int(e[1])] = (t[int(e[1])][0], new)
            return N('clo', v.a[0], tuple(t))
    if k == 'v' and v.op == 'adt':
        return new
    if k == 'i' and v.op == 'vec' and all(p[0] == 'one' for p in v.a[0]) and is_num(e[1]) and 0 <= e[1].a[0] < len(v.a[0]):
        t = list(v.a[0])
        t[int(e[1].a[0])] = ('one', new)
        return N('vec', tuple(t))
    if v.op == 'upd' and v.a[1] == e:
        return set_elem(v.a[0], e, new)
    if k == 'i' and v.op == 'call' and v.a[0] == 'insert' and len(v.a[1]) == 3 and v.a[1][1] is e[1]:
        return N('call', 'insert', v.a[1][:2] + (new,))
    if new is proj(v, e):
        return v
    # keep upd chains of distinct fields in canonical order
    if v.op == 'upd' and k == 'f' and v.a[1][0] == 'f' and v.a[1][1] > e[1]:
        inner = set_elem(v.a[0], e, new)
        return N('upd', inner, v.a[1], v.a[2])
    if v.op == 'upd' and k == 'f' and v.a[1][0] == 'f':
        # same field deeper in the chain
        base, had = v, False
        chain = []
        while base.op == 'upd' and base.a[1][0] == 'f':
            if base.a[1] == e:
                had = True
                break
            chain.append((base.a[1], base.a[2]))
            base = base.a[0]
        if had:
            r = set_elem(base.a[0], e, new)
            for ce, cv in reversed(chain):
                r = set_elem(r, ce, cv)
            return r
    return N('upd', v, e, new)


# ---- sums ----------------------------------------------------------------------------------
def mksum(gens, alts):
    """Sum over generators of guarded alternatives ((conds, value), ...)."""
    alts = tuple((c, v) for c, v in alts if v is not num(0))
    if not alts:
        return num(0)
    if len(alts) == 1 and alts[0][1].op == 'poly':
        # distribute over numeric coefficients only
        items = alts[0][1].a[0]
        if len(items) == 1:
            m, c = items[0]
            if c != 1:
                return mul(num(c), mksum(gens, ((alts[0][0], p_node({m: Fraction(1)})),)))
    return N('sum', gens, tuple(sorted(alts, key=lambda a: (tuple((k[0], k[1].id) for k, _ in a[0]), a[1].id))))


# ---- conditions ----------------------------------------------------------------------------
# interval sets over the rationals: tuple of (lo, lo_closed, hi, hi_closed); None = infinite
FULL = ((None, False, None, False),)


def iv_intersect(a, b):
    out = []
    for l1, c1, h1, d1 in a:
        for l2, c2, h2, d2 in b:
            if l1 is None or (l2 is not None and (l2 > l1 or (l2 == l1 and not c2))):
                l, c = l2, c2
            else:
                l, c = l1, c1
            if h1 is None or (h2 is not None and (h2 < h1 or (h2 == h1 and not d2))):
                h, d = h2, d2
            else:
                h, d = h1, d1
            if l is not None and h is not None and (l > h or (l == h and not (c and d))):
                continue
            out.append((l, c, h, d))
    return tuple(sorted(out, key=lambda t: (t[0] is not None, t[0] or 0)))


def iv_int(a):
    out = []
    for l, c, h, d in a:
        if l is not None:
            f = -(-l.numerator // l.denominator)
            l, c = Fraction(f + 1 if (f == l and not c) else f), True
        if h is not None:
            f = h.numerator // h.denominator
            h, d = Fraction(f - 1 if (f == h and not d) else f), True
        if l is not None and h is not None and l > h:
            continue
        out.append((l, c, h, d))
    # merge adjacent
    out.sort(key=lambda t: (t[0] is not None, t[0] or 0))
    m = []
    for t in out:
        if m and m[-1][2] is not None and t[0] is not None and m[-1][2] + 1 >= t[0]:
            p = m.pop()
            h = t[2] if (t[2] is None or (p[2] is not None and t[2] > p[2])) else p[2]
            m.append((p[0], p[1], h, h is not None))
        else:
            m.append(t)
    return tuple(m)


def iv_of_signs(signs, c):
    """{x : sign(x + c) in signs} = x in {< -c, = -c, > -c}"""
    z = -c
    out = []
    s = set(signs)
    if s == {-1, 0, 1}:
        return FULL
    if s == {-1, 0}:
        return ((None, False, z, True),)
    if s == {0, 1}:
        return ((z, True, None, False),)
    if -1 in s:
        out.append((None, False, z, False))
    if 0 in s:
        out.append((z, True, z, True))
    if 1 in s:
        out.append((z, False, None, False))
    return tuple(out)


def linkey(p):
    """p -> (L, scale_sign, c): sign(p) = scale_sign * sign(L + c), L monic without constant."""
    d = p_of(p)
    c = d.pop((), Fraction(0))
    n = p_node(d)
    lead = n.a[0][0][1] if n.op == 'poly' else Fraction(1)
    L = p_node({m: x / lead for m, x in d.items()})
    return L, (1 if lead > 0 else -1), c / lead


def norm_lin(key, c):
    """Interval fact on an arbitrary polynomial -> fact on its canonical linear form."""
    n = key[1]
    if n.op != 'poly':
        return key, c
    items = n.a[0]
    if items[0][0] != () and items[0][1] == 1:
        return key, c
    d = p_of(n)
    const = d.pop((), Fraction(0))
    m = p_node(d)
    lead = m.a[0][0][1] if m.op == 'poly' else Fraction(1)
    L = p_node({k: v / lead for k, v in d.items()})
    ivs = []
    for lo, c1, hi, d1 in c[1]:
        lo2 = None if lo is None else (lo - const) / lead
        hi2 = None if hi is None else (hi - const) / lead
        ivs.append((lo2, c1, hi2, d1) if lead > 0 else (hi2, d1, lo2, c1))
    ivs = tuple(sorted(ivs, key=lambda t: (t[0] is not None, t[0] or 0)))
    return ('lin', L), ('iv', ivs, c[2])


# ---- printing ------------------------------------------------------------------------------
def pretty(x, depth=0):
    if depth > 14:
        return '…'
    if isinstance(x, tuple):
        return '(' + ', '.join(pretty(y, depth + 1) for y in x) + ')'
    if not isinstance(x, Node):
        return str(x)
    o, a = x.op, x.a
    d = depth + 1
    if o == 'num':
        return str(a[0])
    if o == 'poly':
        ts = []
        for m, c in a[0]:
            t = '*'.join(pretty(y, d) if e == 1 else '%s^%d' % (pretty(y, d), e) for y, e in m)
            ts.append(t if c == 1 and t else '-' + t if c == -1 and t else str(c) + ('*' + t if t else ''))
        return '(' + ' + '.join(ts) + ')'
    if o == 'b':
        return 'true' if a[0] else 'false'
    if o == 'str':
        return '"%s"' % a[0]
    if o == 'sym':
        return a[0]
    if o == 'fld':
        return '%s.%s' % (pretty(a[0], d), a[1])
    if o == 'dc':
        return '%s?%s' % (pretty(a[0], d), a[1])
    if o == 'idx':
        return '%s[%s]' % (pretty(a[0], d), pretty(a[1], d))
    if o == 'len':
        return 'len(%s)' % pretty(a[0], d)
    if o == 'slice':
        return '%s[%s..%s]' % tuple(pretty(y, d) for y in a)
    if o == 'adt':
        nm = a[0] + ('::' + a[1] if a[1] else '')
        if not a[2]:
            return nm
        return nm + '{' + ', '.join('%s: %s' % (n, pretty(v, d)) for n, v in a[2]) + '}'
    if o == 'tup':
        return '(' + ', '.join(pretty(y, d) for y in a[0]) + ')'
    if o == 'call':
        return '%s(%s)' % (a[0], ', '.join(pretty(y, d) for y in a[1]))
    if o == 'sgn':
        n = {(-1,): '<0', (0,): '==0', (1,): '>0', (-1, 0): '<=0', (0, 1): '>=0', (-1, 1): '!=0'}[a[1]]
        return '%s%s' % (pretty(a[0], d), n)
    if o == 'not':
        return '!' + pretty(a[0], d)
    if o == 'k':
        return 'k%d∈[%s,%s)' % (a[2], pretty(a[0], d), pretty(a[1], d)) if depth < 6 else 'k'
    if o == 'upd':
        return '%s{%s:=%s}' % (pretty(a[0], d), pretty(a[1][1], d), pretty(a[2], d))
    if o == 'vec':
        return '[' + ', '.join(p_part(p, d) for p in a[0]) + ']'
    if o == 'sum':
        return 'Σ[%s]{%s}' % (p_gens(a[0], d), '; '.join('%s%s' % (p_conds(c, d), pretty(v, d)) for c, v in a[1]))
    if o == 'ref':
        return '&' + str(a[0][0]) + ':' + '/'.join(pretty(y, d) for y in a[0][1:]) + pretty(a[1], d)
    return o + '(' + ', '.join(pretty(y, d) for y in a) + ')'


def p_gens(gens, d=0):
    return ', '.join('%s' % pretty(g[0], 0) + (' rev' if g[3] else '') for g in gens)


def p_conds(conds, d=0):
    return ('if ' + ' & '.join(p_cond(c, d) for c in conds) + ' ') if conds else ''


def p_cond(c, d=0):
    k, v = c
    kind, t = k
    if kind == 'lin':
        ivs = v[1]
        s = '∪'.join('%s%s,%s%s' % ('[' if c1 else '(', '-∞' if l is None else l, '∞' if h is None else h, ']' if d1 else ')')
                     for l, c1, h, d1 in ivs)
        return '%s∈%s' % (pretty(t, d), s)
    if kind == 'disc':
        return '%s is %s' % (pretty(t, d), '|'.join(sorted(v)))
    if kind == 'str':
        return '%s %s %s' % (pretty(t, d), v[0], sorted(v[1]))
    return '%s=%s' % (pretty(t, d), '|'.join(str(x) for x in sorted(v)))


def p_part(p, d=0):
    if p[0] == 'one':
        return pretty(p[1], d)
    if p[0] == 'all':
        return '..' + pretty(p[1], d)
    return 'for %s {%s}' % (p_gens(p[1], d), '; '.join('%s%s' % (p_conds(c, d), ','.join(p_part(q, d) for q in ps)) for c, ps in p[2]))


ERROR_TEXT = N('str', '(message)')
TRUE = N('b', True)
FALSE = N('b', False)
UNIT = N('tup', ())

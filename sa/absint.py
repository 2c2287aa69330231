"""Value-flow summariser over MIR.

A forward dataflow analysis that computes, for one function, the table of its outcomes: for every
consistent combination of branch outcomes (facts about enum variants, signs of canonical linear
forms, string constants), the returned value and the writes it makes to memory the caller can see,
as terms over the parameters in polynomial normal form. Crate-local callees and closures are
analysed in place; loops are summarised by one abstract iteration over a symbolic element; iterator
adapter chains and `for` loops have the same representation. No input is ever chosen and no solver
is involved: facts are finite sets and intervals, terms are compared by normal form.
"""
import re
from fractions import Fraction

from mir import split_top, strip_generics, last_seg, base_type, find_close
from prog import ty_tree
import term as T
from term import (N, Node, num, adt, tup, sym, call, fld, pay, proj, some, TRUE, FALSE, UNIT,
                  sgn, bnot, add, sub, mul, neg, div, length, vec, vec_parts, update, subst, contains)


from models import Models, PANICS, TooComplex


STD_ENUMS = {
    'Option': [('None', 0), ('Some', 1)],
    'Result': [('Ok', 0), ('Err', 1)],
    'Ordering': [('Less', -1), ('Equal', 0), ('Greater', 1)],
    'ControlFlow': [('Continue', 0), ('Break', 1)],
    'Bound': [('Included', 0), ('Excluded', 1), ('Unbounded', 2)],
    'NonZeroSign': [('Positive', 1), ('Negative', -1)],
    'Sign': [('Positive', 1), ('Zero', 0), ('Negative', -1)],
    'Cow': [('Borrowed', 0), ('Owned', 1)],
    'Either': [('Left', 0), ('Right', 1)],
    'Infallible': [],
    'AssertKind': [('Eq', 0), ('Ne', 1), ('Match', 2)],
    'Entry': [('Occupied', 0), ('Vacant', 1)],
}
NONE = adt('Option', 'None')
SIGN_OF = {'Positive': 1, 'Zero': 0, 'Negative': -1, 'Less': -1, 'Equal': 0, 'Greater': 1}
INTS = {'usize', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128'}


class State:
    __slots__ = ('mem', 'conds', 'eff', 'binders', 'gen', 'advanced', 'witness')

    def __init__(self):
        self.mem, self.conds, self.eff, self.binders = {}, {}, (), ()
        self.gen = {}          # loc -> original iterator (advanced inside the current loop)
        self.witness = ()      # generators instantiated by find/any-style searches
        self.advanced = ()     # ((loc, 'some'|'none'), ...) events in the current loop iteration

    def copy(self):
        s = State()
        s.mem, s.conds, s.eff, s.binders = dict(self.mem), dict(self.conds), self.eff, self.binders
        s.gen, s.advanced, s.witness = self.gen, self.advanced, self.witness
        return s

    def read(self, root):
        v = self.mem.get(root)
        if v is None:
            if root[0] == 'S':
                return root[1]
            return N('undef')
        return v


def read_path(v, path):
    for e in path:
        v = proj(v, e)
    return v


def norm_path(path):
    out = []
    for e in path:
        if out and out[-1][0] == 'sl' and e[0] == 'i':
            s = out.pop()
            out.append(('i', add(s[1], e[1])))
        elif out and out[-1][0] == 'sl' and e[0] == 'sl':
            s = out.pop()
            out.append(('sl', add(s[1], e[1]), add(s[1], e[2])))
        else:
            out.append(e)
    return tuple(out)


def lvalue(root, path):
    """Symbolic name of an external memory location."""
    x = root[1] if root[0] == 'S' else N('local', root[1], root[2])
    for e in path:
        if e[0] == 'f':
            x = N('fld', x, e[1])
        elif e[0] == 'v':
            x = N('dc', x, e[1])
        elif e[0] == 'i':
            x = N('idx', x, e[1])
        else:
            x = N('slice', x, e[1], e[2])
    return x


class Frame:
    __slots__ = ('body', 'fid', 'depth', 'stack')

    def __init__(self, body, fid, depth, stack):
        self.body, self.fid, self.depth, self.stack = body, fid, depth, stack


NEVER_RETURNS = 'never_returns'


class Path:
    """One row of a function's outcome table."""
    __slots__ = ('kind', 'conds', 'eff', 'ret', 'state', 'span', 'binders')

    def __init__(self, kind, st, ret, span=None):
        self.kind, self.state, self.ret, self.span = kind, st, ret, span
        self.conds, self.eff, self.binders = st.conds, st.eff, st.binders


class CFG:
    def __init__(self, body):
        self.body = body
        succ = {b: [s for s in body.succs(b)] for b in body.blocks}
        self.succ = succ
        pred = {b: [] for b in succ}
        order, seen = [], set()
        stack = [(0, iter(succ.get(0, [])))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.order = order
        idx = {b: i for i, b in enumerate(order)}
        for b in order:
            for s in succ[b]:
                pred[s].append(b)
        self.pred = pred
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom
        self.loops = {}
        for b in order:
            for s in succ[b]:
                if self.dominates(s, b):
                    blocks = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in blocks:
                            blocks.add(x)
                            st.extend(pred[x])
        self._live = None

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in self.idom:
                return False
            b = self.idom[b]

    def live_in(self):
        """Locals live at block entry; borrowed locals are always live."""
        if self._live is not None:
            return self._live
        use, dfn, borrowed = {}, {}, set()
        body = self.body

        def uses_op(op, u, d):
            if op[0] == 'place':
                uses_pl(op[1], u, d)

        def uses_pl(pl, u, d):
            if pl[0] not in d:
                u.add(pl[0])
            for p in pl[1]:
                if p[0] == 'index' and p[1] not in d:
                    u.add(p[1])
        for b, blk in body.blocks.items():
            u, d = set(), set()
            for s in blk.stmts:
                rv = s.rv
                if s.kind != 'assign':
                    continue
                k = rv[0]
                if k in ('use', 'cast'):
                    uses_op(rv[1], u, d)
                elif k == 'bin':
                    uses_op(rv[2], u, d)
                    uses_op(rv[3], u, d)
                elif k == 'un':
                    uses_op(rv[2], u, d)
                elif k in ('disc', 'len'):
                    uses_pl(rv[1], u, d)
                elif k == 'ref':
                    uses_pl(rv[2], u, d)
                    if not any(p[0] == 'deref' for p in rv[2][1]):
                        borrowed.add(rv[2][0])
                elif k in ('tuple', 'array'):
                    for o in rv[1]:
                        uses_op(o, u, d)
                elif k == 'repeat':
                    uses_op(rv[1], u, d)
                elif k in ('closure', 'agg'):
                    for _, o in rv[2]:
                        uses_op(o, u, d)
                if s.place[1]:
                    uses_pl(s.place, u, d)
                else:
                    d.add(s.place[0])
            t = blk.term
            if t is not None:
                if t.kind == 'switch':
                    uses_op(t.a[0], u, d)
                elif t.kind == 'assert':
                    uses_op(t.a[0], u, d)
                elif t.kind == 'call':
                    for o in t.a[2]:
                        uses_op(o, u, d)
                    if t.a[0] is not None:
                        if t.a[0][1]:
                            uses_pl(t.a[0], u, d)
                        else:
                            d.add(t.a[0][0])
                elif t.kind == 'return':
                    if 0 not in d:
                        u.add(0)
            use[b], dfn[b] = u, d
        live = {b: set(use[b]) for b in body.blocks}
        changed = True
        while changed:
            changed = False
            for b in reversed(self.order):
                out = set()
                for s in self.succ[b]:
                    out |= live[s]
                new = use[b] | (out - dfn[b])
                if new - live[b]:
                    live[b] |= new
                    changed = True
        self._live = (live, borrowed)
        return self._live


def cfg_of(body):
    c = getattr(body, '_cfg', None)
    if c is None:
        c = CFG(body)
        body._cfg = c
    return c


class Engine(Models):
    def __init__(self, prog, opaque=(), inline=None, types=None, max_states=40000, depth=14, pure=(), hooks=None):
        self.hooks = hooks or {}
        self.alias = {}         # callee or field that stands for another one
        self.foot = None        # function id -> {argument: (paths read, paths written)}
        self.called = set()
        self.prog = prog
        self.opaque = set(opaque)
        self.inline_pred = inline
        self.types = types or {}
        self.max_states = max_states
        self.max_depth = depth
        self.pure = set(pure)
        self.states = 0
        self.fid = 0
        self.ints = set()
        self.unsigned = set()
        self.visited = set()      # ids of bodies analysed
        self.unmodelled = {}      # callee -> count
        self.panics = []

    # ------------------------------------------------------------------ facts
    def mark_int(self, n, unsigned=False):
        if n.op == 'num':
            return
        p = T.p_of(n)
        for m in p:
            for x, e in m:
                self.ints.add(x)
        if unsigned and len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and m[0][1] == 1 and c == 1:
                self.unsigned.add(m[0][0])

    def is_int(self, L):
        for m, c in T.p_of(L).items():
            if c.denominator != 1:
                return False
            for x, e in m:
                if e < 0 or not (x in self.ints or x.op in ('len', 'k')):
                    return False
        return True

    def base_iv(self, L):
        if L.op in ('len', 'k') or L in self.unsigned:
            return ((Fraction(0), True, None, False),)
        return T.FULL

    def _iv(self, st, L):
        c = st.conds.get(('lin', L))
        if c is not None:
            return c[1]
        return self.base_iv(L)

    def assume_sign(self, st, p, signs):
        """Restrict sign(p) to signs; None if inconsistent. Mutates st."""
        if p.op == 'num':
            v = p.a[0]
            return st if ((v > 0) - (v < 0)) in signs else None
        if set(signs) == {-1, 0, 1}:
            return st
        L, s, c = T.linkey(p)
        # bounds implied by non-negative atoms: skip; interval on L
        want = T.iv_of_signs([x * s for x in signs], c)
        isint = self.is_int(L)
        cur = self._iv(st, L)
        new = T.iv_intersect(cur, want)
        if isint:
            new = T.iv_int(new)
        if not new:
            return None
        if new != cur or ('lin', L) in st.conds:
            st.conds[('lin', L)] = ('iv', new, isint)
        return st

    def possible_signs(self, st, p):
        return [s for s in (-1, 0, 1) if self.assume_sign(st.copy(), p, (s,)) is not None]

    def assume_disc(self, st, node, variants, universe):
        variants = frozenset(variants)
        key = ('disc', node)
        cur = st.conds.get(key, frozenset(universe))
        new = cur & variants
        if not new:
            return None
        if new != frozenset(universe) or key in st.conds:
            st.conds[key] = new
        return st

    def assume(self, st, b, truth):
        """Mutates/returns st restricted to b == truth, or None."""
        if b.op == 'b':
            return st if b.a[0] == truth else None
        if b.op == 'not':
            return self.assume(st, b.a[0], not truth)
        if b.op == 'sgn':
            signs = b.a[1] if truth else [s for s in (-1, 0, 1) if s not in b.a[1]]
            return self.assume_sign(st, b.a[0], signs)
        if b.op == 'isv':
            node, vs, uni = b.a
            return self.assume_disc(st, node, vs if truth else uni - vs, uni)
        if b.op == 'streq':
            node, s = b.a
            key = ('str', node)
            cur = st.conds.get(key, ('notin', frozenset()))
            if truth:
                ok = s in cur[1] if cur[0] == 'in' else s not in cur[1]
                if not ok:
                    return None
                st.conds[key] = ('in', frozenset([s]))
            else:
                if cur[0] == 'in':
                    left = cur[1] - {s}
                    if not left:
                        return None
                    st.conds[key] = ('in', left)
                else:
                    st.conds[key] = ('notin', cur[1] | {s})
            return st
        key = ('b', b)
        cur = st.conds.get(key)
        if cur is not None:
            return st if truth in cur else None
        st.conds[key] = frozenset([truth])
        return st

    def assume_all(self, st, conds):
        """Conjoin a tuple of (key, constraint)."""
        for key, c in conds:
            kind, node = key
            if kind == 'lin':
                if node.op in ('num', 'poly'):
                    key, c = T.norm_lin(key, c)
                    node = key[1]
                    if node.op == 'num':
                        v = node.a[0]
                        if not T.iv_intersect(c[1], ((v, True, v, True),)):
                            return None
                        continue
                cur = self._iv(st, node)
                new = T.iv_intersect(cur, c[1])
                if c[2]:
                    new = T.iv_int(new)
                if not new:
                    return None
                st.conds[key] = ('iv', new, c[2])
            elif kind == 'disc':
                cur = st.conds.get(key)
                new = c if cur is None else cur & c
                if not new:
                    return None
                st.conds[key] = new
            elif kind == 'str':
                cur = st.conds.get(key)
                if cur is None:
                    st.conds[key] = c
                elif cur[0] == 'in' and c[0] == 'in':
                    new = cur[1] & c[1]
                    if not new:
                        return None
                    st.conds[key] = ('in', new)
                elif cur[0] == 'in' or c[0] == 'in':
                    i, n = (cur, c) if cur[0] == 'in' else (c, cur)
                    new = i[1] - n[1]
                    if not new:
                        return None
                    st.conds[key] = ('in', new)
                else:
                    st.conds[key] = ('notin', cur[1] | c[1])
            else:
                cur = st.conds.get(key)
                new = c if cur is None else cur & c
                if not new:
                    return None
                st.conds[key] = new
        return st

    def fork(self, st, b):
        """[(state, bool)]"""
        if b.op == 'b':
            return [(st, b.a[0])]
        out = []
        for t in (True, False):
            s = self.assume(st.copy(), b, t)
            if s is not None:
                out.append((s, t))
        return out

    def variants(self, ename):
        n = last_seg(strip_generics(ename))
        if ename in self.prog.src.enums:
            return [(v, d) for v, _, d in self.prog.src.enums[ename]]
        p = self.prog.adt_path(ename, self.prog.src.enums)
        if isinstance(p, str):
            return [(v, d) for v, _, d in self.prog.src.enums[p]]
        if isinstance(p, tuple) and p[0] == 'ambiguous':
            return [(v, d) for v, _, d in self.prog.src.enums[p[1][0]]]
        if n in STD_ENUMS:
            return STD_ENUMS[n]
        return None

    def split_disc(self, st, node, ename):
        """[(state, variant)] for the enum value `node`."""
        if node.op == 'adt' and node.a[1] is not None:
            return [(st, node.a[1])]
        if node.op == 'upd' and node.a[1][0] == 'v':
            return self.split_disc(st, node.a[0], ename)
        if node.op in ('cmp', 'nzs', 'sgnv'):
            names = {'cmp': {-1: 'Less', 0: 'Equal', 1: 'Greater'},
                     'nzs': {-1: 'Negative', 1: 'Positive'},
                     'sgnv': {-1: 'Negative', 0: 'Zero', 1: 'Positive'}}[node.op]
            out = []
            for s, nm in names.items():
                x = self.assume_sign(st.copy(), node.a[0], (s,))
                if x is not None:
                    out.append((x, nm))
            return out
        if node.op == 'ite':
            out = []
            for c, v in node.a[0]:
                x = self.assume_all(st.copy(), c)
                if x is not None:
                    out.extend(self.split_disc(x, v, ename))
            return out
        vs = self.variants(ename)
        if vs is None:
            return [(st, None)]
        uni = frozenset(v for v, _ in vs)
        cur = st.conds.get(('disc', node), uni)
        out = []
        for v, _ in vs:
            if v in cur:
                x = self.assume_disc(st.copy(), node, [v], uni)
                if x is not None:
                    out.append((x, v))
        return out

    def match_opt(self, st, v, ename='Option'):
        """[(state, variant, payload)]"""
        out = []
        for s, var in self.split_disc(st, v, ename):
            if var == 'None':
                out.append((s, var, None))
            else:
                out.append((s, var, pay(v, var)))
        return out

    # ------------------------------------------------------------------ memory
    def deref_loc(self, st, v):
        """Location a reference value points to."""
        if v.op == 'ref':
            return v.a[0], v.a[1]
        return ('S', v), ()

    def deref(self, st, v):
        n = 0
        while v.op == 'ref' and n < 20:
            v = read_path(st.read(v.a[0]), v.a[1])
            n += 1
        return v

    def reify(self, st, v):
        """Replace references inside a value by what they point to."""
        if not self._has_ref(v):
            return v
        seen = {}

        def go(x, d):
            if d > 60:
                return x
            if isinstance(x, Node):
                if x.op == 'ref':
                    return go(self.deref(st, x), d + 1)
                if not self._has_ref(x):
                    return x
                if x.id in seen:
                    return seen[x.id]
                a = tuple(go(y, d + 1) for y in x.a)
                r = x if all(p is q for p, q in zip(a, x.a)) else T.rebuild(x.op, a)
                seen[x.id] = r
                return r
            if isinstance(x, tuple):
                return tuple(go(y, d + 1) for y in x)
            return x
        return go(v, 0)

    def _has_ref(self, v):
        if v._free is None:
            def chk(x):
                if isinstance(x, Node):
                    if x.op == 'ref':
                        return True
                    if x._free is not None:
                        return x._free
                    r = any(chk(y) for y in x.a)
                    x._free = r
                    return r
                if isinstance(x, tuple):
                    return any(chk(y) for y in x)
                return False
            if v.op == 'ref':
                return True
            v._free = chk(v)
        return v._free

    def write(self, st, root, path, val, span=None):
        path = norm_path(path)
        if root[0] == 'S':
            v = self.reify(st, val)
            st.eff = st.eff + (('w', lvalue(root, path), v, span),)
        st.mem[root] = update(st.read(root), path, val)

    def fresh(self):
        self.fid += 1
        return self.fid

    def temp(self, st, v):
        root = ('L', self.fresh(), 't')
        st.mem[root] = v
        return N('ref', root, ())

    # ------------------------------------------------------------------ places & operands
    def ty_of_place(self, body, place):
        ty = body.locals.get(place[0], '?')
        variant = None
        for p in place[1]:
            if p[0] == 'deref':
                t = ty.strip()
                m = re.match(r"^(&('[A-Za-z_]\w* )?(mut )?|\*const |\*mut )", t)
                if m:
                    ty = t[m.end():]
                elif t.startswith(('std::boxed::Box<', 'Box<')):
                    i = t.index('<')
                    ty = split_top(t[i + 1:find_close(t, i)])[0]
            elif p[0] == 'field':
                ty = p[2]
                variant = None
            elif p[0] == 'downcast':
                variant = p[1]
            elif p[0] in ('index', 'cindex'):
                t = ty.strip()
                if t.startswith('['):
                    ty = split_top(t[1:-1], ';')[0]
                else:
                    ty = '?'
        return ty

    def loc(self, fr, st, place):
        root, path = ('L', fr.fid, place[0]), ()
        body = fr.body
        ty = body.locals.get(place[0], '?')
        variant = None
        for p in place[1]:
            k = p[0]
            if k == 'deref':
                v = read_path(st.read(root), path)
                if v.op == 'ref':
                    root, path = v.a[0], v.a[1]
                else:
                    root, path = ('S', v), ()
                t = ty.strip()
                m = re.match(r"^(&('[A-Za-z_]\w* )?(mut )?|\*const |\*mut )", t)
                if m:
                    ty = t[m.end():]
                elif t.startswith(('std::boxed::Box<', 'Box<')):
                    i = t.index('<')
                    ty = split_top(t[i + 1:find_close(t, i)])[0]
            elif k == 'field':
                name = self.field_name(ty, variant, p[1])
                self.prog.field_types.setdefault((base_type(ty.strip()), name), p[2])
                if self.alias:
                    name = self.alias.get((base_type(ty.strip()), name), name)
                v = read_path(st.read(root), path)
                if v.op == 'ref' and not (root[0] == 'L' and False):
                    pass    # Box internals: stay on the reference
                else:
                    path = path + (('f', name),)
                ty, variant = p[2], None
            elif k == 'downcast':
                variant = p[1]
                path = path + (('v', variant),)
            elif k == 'index':
                iv = self.deref(st, st.read(('L', fr.fid, p[1])))
                path = norm_path(path + (('i', iv),))
                t = ty.strip()
                ty = split_top(t[1:-1], ';')[0] if t.startswith('[') else '?'
            elif k == 'cindex':
                if p[2]:
                    iv = sub(length(read_path(st.read(root), path)), num(p[1]))
                else:
                    iv = num(p[1])
                path = norm_path(path + (('i', iv),))
                t = ty.strip()
                ty = split_top(t[1:-1], ';')[0] if t.startswith('[') else '?'
            elif k == 'subslice':
                v = read_path(st.read(root), path)
                path = norm_path(path + (('sl', num(p[1]), N('call', 'subslice_end', (length(v), N('str', p[2])))),))
        return root, path, ty

    def field_name(self, ty, variant, i):
        t = ty.strip()
        if variant is not None:
            p = self.prog.adt_path(t, self.prog.src.enums)
            if isinstance(p, tuple):
                p = p[1][0]
            if p:
                for v, fs, _ in self.prog.src.enums[p]:
                    if v == variant and i < len(fs):
                        return fs[i]
            return str(i)
        if t.startswith(('(', '{', '&')):
            return str(i)
        p = self.prog.adt_path(t, self.prog.src.structs)
        if isinstance(p, tuple):
            p = p[1][0]
        if p:
            fs = self.prog.src.structs[p]
            if i < len(fs):
                return fs[i]
        if base_type(t).endswith('ops::Range') or base_type(t) == 'Range':
            return ('start', 'end')[i] if i < 2 else str(i)
        return str(i)

    def read_place(self, fr, st, place):
        root, path, _ = self.loc(fr, st, place)
        return read_path(st.read(root), path)

    def operand(self, fr, st, op):
        if op[0] == 'place':
            return self.read_place(fr, st, op[1])
        return self.const(fr, st, op[1])

    def op_type(self, fr, op):
        if op[0] == 'place':
            return self.ty_of_place(fr.body, op[1])
        m = re.match(r'^-?[\d_.]+_([a-z]\w+)$', op[1])
        if m:
            return m.group(1)
        if op[1].startswith('"'):
            return '&str'
        if op[1] in ('true', 'false'):
            return 'bool'
        return '?'

    def const(self, fr, st, c):
        c = c.strip()
        m = re.match(r'^(-?\d[\d_]*?)_?(usize|isize|[ui](?:8|16|32|64|128))$', c)
        if m:
            return num(int(m.group(1)))
        m = re.match(r'^(-?[\d.]+(?:e-?\d+)?)_?f(32|64)$', c)
        if m or c.endswith(('f64', 'f32')):
            return N('float', c)
        if c == 'true':
            return TRUE
        if c == 'false':
            return FALSE
        if c == '()':
            return UNIT
        if c.startswith('"'):
            return N('str', c[1:-1])
        if c.startswith("'"):
            return N('chr', c[1:-1])
        if c.startswith(('b"', "b'")):
            return N('str', c)
        m = re.search(r'promoted\[(\d+)\]$', c)
        if m:
            key = fr.body.name + '::promoted[%s]' % m.group(1)
            b = self.prog.consts.get(key)
            if b is not None:
                r = self._const_body(fr, st, b)
                if r is not None:
                    return r
            return N('const', key)
        s = strip_generics(c)
        cands = [b for n, b in self.prog.consts.items()
                 if 'promoted[' not in n and (n == s or n.endswith('::' + last_seg(s)) or n == last_seg(s))]
        if cands:
            ex = [b for b in cands if b.name == s or s.endswith(b.name) or b.name.endswith(s)]
            b = (ex or cands)[0]
            if len(ex) == 1 or len(cands) == 1:
                r = self._const_body(fr, st, b)
                if r is not None:
                    return r
            return N('const', s)
        if last_seg(s) in ('MAX', 'MIN', 'BITS', 'EPSILON'):
            return N('const', s)
        if re.match(r'^_?\d', c):
            return N('const', c)
        # function item or unit struct / unit variant
        return N('fn', c)

    def _const_body(self, fr, st, b):
        if b.id in fr.stack:
            return None
        f2 = Frame(b, self.fresh(), fr.depth + 1, fr.stack + (b.id,))
        outs = self.exec(f2, st.copy(), 0)
        if len(outs) == 1 and outs[0][0] == 'ret':
            s2 = outs[0][1]
            v = s2.read(('L', f2.fid, 0))
            return self.reify(s2, v)
        return None

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, rv, dest_ty):
        """[(state, value)]"""
        k = rv[0]
        if k == 'use':
            return [(st, self.operand(fr, st, rv[1]))]
        if k == 'ref':
            root, path, _ = self.loc(fr, st, rv[2])
            return [(st, N('ref', root, path))]
        if k == 'bin':
            return self.binop(fr, st, rv)
        if k == 'un':
            v = self.operand(fr, st, rv[2])
            if rv[1] == 'Not':
                if v.op in ('num',) or (self.op_type(fr, rv[2]) in INTS):
                    return [(st, N('call', 'bitnot', (v,)))]
                return [(st, bnot(v))]
            if rv[1] == 'Neg':
                return [(st, neg(v))]
            if rv[1] in ('PtrMetadata', 'Len'):
                x = length(self.deref(st, v))
                self.mark_int(x, True)
                return [(st, x)]
            return [(st, N('call', rv[1], (v,)))]
        if k == 'len':
            root, path, _ = self.loc(fr, st, rv[1])
            x = length(read_path(st.read(root), path))
            return [(st, x)]
        if k == 'disc':
            root, path, ty = self.loc(fr, st, rv[1])
            v = read_path(st.read(root), path)
            return [(st, N('disc', v, base_type(ty)))]
        if k == 'tuple':
            return [(st, tup(*[self.operand(fr, st, o) for o in rv[1]]))]
        if k == 'array':
            return [(st, vec(tuple(('one', self.operand(fr, st, o)) for o in rv[1])))]
        if k == 'repeat':
            n = rv[2]
            m = re.match(r'^(\d+)(_usize)?$', n)
            v = self.operand(fr, st, rv[1])
            return [(st, N('rep', v, num(int(m.group(1))) if m else N('const', n)))]
        if k == 'closure':
            return [(st, N('clo', self.prog.closure_name(rv[1]), tuple((n, self.operand(fr, st, o)) for n, o in rv[2])))]
        if k == 'cast':
            v = self.operand(fr, st, rv[1])
            if 'Float' in rv[3]:
                return [(st, N('call', 'cast:' + rv[3], (v,)))]
            if rv[3].startswith('PointerCoercion(ReifyFnPointer') or rv[3].startswith('PointerCoercion(Closure'):
                return [(st, v)]
            if self.op_type(fr, rv[1]) == 'bool':
                return [(s, num(1 if t else 0)) for s, t in self.fork(st, v)]
            if v.op == 'disc':
                outs = []
                for s, var in self.split_disc(st, v.a[0], v.a[1]):
                    d = dict(self.variants(v.a[1]) or {}).get(var)
                    outs.append((s, num(d) if d is not None else v))
                return outs
            return [(st, v)]
        if k == 'agg':
            return [(st, self.aggregate(fr, st, rv))]
        raise TooComplex('rvalue %r' % (rv,))

    def aggregate(self, fr, st, rv):
        path = strip_generics(rv[1])
        fields = rv[2]
        if path == 'ShallowInitBox':
            return self.temp(st, N('undef'))
        segs = path.split('::')
        last = segs[-1]
        if len(segs) >= 2:
            en = '::'.join(segs[:-1])
            vs = self.variants(en)
            if vs is not None and any(v == last for v, _ in vs):
                p = self.prog.adt_path(en, self.prog.src.enums)
                if isinstance(p, tuple):
                    p = p[1][0]
                names = None
                if p:
                    names = next(fs for v, fs, _ in self.prog.src.enums[p] if v == last)
                vals = []
                for n, o in fields:
                    vals.append((n, self.operand(fr, st, o)))
                if p and str(p).startswith('io::error::') and last == 'FileExtension':
                    vals = [(n, T.ERROR_TEXT) for n, _ in vals]
                if names:
                    order = {n: i for i, n in enumerate(names)}
                    vals.sort(key=lambda t: order.get(t[0], 99))
                return adt(last_seg(en), last, tuple(vals))
        p = self.prog.adt_path(path, self.prog.src.structs)
        vals = tuple((n, self.operand(fr, st, o)) for n, o in fields)
        if isinstance(p, str) and self.prog.renames:
            vals = tuple((self.prog.renames.get((p, n), n), v) for n, v in vals)
        if isinstance(p, str):
            order = {n: i for i, n in enumerate(self.prog.src.structs[p])}
            vals = tuple(sorted(vals, key=lambda t: order.get(t[0], 99)))
            if p.startswith('io::error::'):
                # the wording of an error message is not behaviour
                vals = tuple((n, T.ERROR_TEXT if n == 'description' else v) for n, v in vals)
        if not fields and last in ('One',) and 'relp_num' in path:
            return num(1)
        return adt(last, None, vals)

    def binop(self, fr, st, rv):
        op, x, y = rv[1], rv[2], rv[3]
        a, b = self.operand(fr, st, x), self.operand(fr, st, y)
        a, b = self.deref(st, a), self.deref(st, b)
        ta, tb = self.op_type(fr, x), self.op_type(fr, y)
        if 'disc' in (a.op, b.op):
            return self.disc_cmp(st, op, a, b)
        if (ta in INTS or tb in INTS) and op not in ('Shl', 'Shr'):
            uns = (ta if ta in INTS else tb).startswith('u')
            self.mark_int(a, uns)
            self.mark_int(b, uns)
        if op in ('Add', 'AddUnchecked'):
            return [(st, add(a, b))]
        if op in ('Sub', 'SubUnchecked'):
            return [(st, sub(a, b))]
        if op in ('Mul', 'MulUnchecked'):
            return [(st, mul(a, b))]
        if op == 'AddWithOverflow':
            return [(st, tup(add(a, b), FALSE))]
        if op == 'SubWithOverflow':
            return [(st, tup(sub(a, b), FALSE))]
        if op == 'MulWithOverflow':
            return [(st, tup(mul(a, b), FALSE))]
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if ta == 'bool' or a.op == 'b' or b.op == 'b' or a.op == 'sgn':
                if op in ('Eq', 'Ne'):
                    for u, w in ((a, b), (b, a)):
                        if w.op == 'b':
                            return [(st, u if w.a[0] == (op == 'Eq') else bnot(u))]
                    outs = []
                    for s, u in self.fork(st, a):
                        for s2, w in self.fork(s, b):
                            outs.append((s2, T.boolean((u == w) == (op == 'Eq'))))
                    return outs
            if a.op in ('str', 'chr') or b.op in ('str', 'chr') or ta == 'char':
                if op in ('Eq', 'Ne'):
                    r = self.streq(a, b)
                    return [(st, r if op == 'Eq' else bnot(r))]
            signs = {'Eq': (0,), 'Ne': (-1, 1), 'Lt': (-1,), 'Le': (-1, 0), 'Gt': (1,), 'Ge': (0, 1)}[op]
            return [(st, sgn(sub(a, b), signs))]
        if op in ('BitAnd', 'BitOr', 'BitXor') and (ta == 'bool' or tb == 'bool'):
            # branch on the operand that is known, or does not depend on what a loop carries
            if a.op == 'b' or b.op != 'b' and not contains(a, lambda x: x.op == 'phi') and contains(b, lambda x: x.op == 'phi'):
                a, b = b, a
            outs = []
            for s, w in self.fork(st, b):
                if op == 'BitXor':
                    outs.append((s, bnot(a) if w else a))
                else:
                    outs.append((s, T.boolean(w) if w == (op == 'BitOr') else a))
            return outs
        if op == 'Cmp':
            return [(st, T.cmp_node(sub(a, b)))]
        if op == 'Div' and 'f' != ta[:1]:
            return [(st, N('call', 'idiv', (a, b)))]
        return [(st, N('call', op, (a, b)))]

    def disc_cmp(self, st, op, a, b):
        outs = []
        if a.op == 'disc' and b.op == 'num' or b.op == 'disc' and a.op == 'num':
            d, c = (a, b) if a.op == 'disc' else (b, a)
            table = dict(self.variants(d.a[1]) or {})
            for s, var in self.split_disc(st, d.a[0], d.a[1]):
                val = table.get(var)
                if val is None:
                    return [(st, N('call', op, (a, b)))]
                eq = val == c.a[0]
                outs.append((s, T.boolean(eq if op == 'Eq' else not eq)))
            return outs
        if a.op == 'disc' and b.op == 'disc':
            for s, v1 in self.split_disc(st, a.a[0], a.a[1]):
                for s2, v2 in self.split_disc(s, b.a[0], b.a[1]):
                    eq = v1 == v2
                    outs.append((s2, T.boolean(eq if op == 'Eq' else not eq)))
            return outs
        return [(st, N('call', op, (a, b)))]

    def streq(self, a, b):
        if a.op in ('str', 'chr') and b.op == a.op:
            return T.boolean(a is b)
        if a.op in ('str', 'chr'):
            a, b = b, a
        if b.op in ('str', 'chr'):
            return N('streq', a, b.a[0])
        if a is b:
            return TRUE
        if a.id > b.id:
            a, b = b, a
        return call('eq', a, b)

    # ------------------------------------------------------------------ execution
    def exec(self, fr, st, bb, within=None, header=None):
        """Outcomes: ('ret', st) ('panic', st, span) ('back', st) ('exit', st, bb)"""
        body = fr.body
        self.visited.add(body.id)
        cfg = cfg_of(body)
        out = []
        work = [(st, bb, True)]
        while work:
            st, bb, first = work.pop()
            self.states += 1
            if self.states > self.max_states:
                raise TooComplex('state limit in ' + body.id)
            if within is not None:
                if bb == header and not first:
                    out.append(('back', st))
                    continue
                if bb not in within:
                    out.append(('exit', st, bb))
                    continue
            if bb in cfg.loops and not (first and bb == header):
                for o in self.run_loop(fr, st, bb, cfg.loops[bb]):
                    if o[0] == 'goto':
                        work.append((o[1], o[2], False))
                    else:
                        out.append(o)
                continue
            self.step(fr, st, bb, work, out)
        return out

    def step(self, fr, st, bb, work, out):
        body = fr.body
        blk = body.blocks[bb]
        states = [st]
        for s in blk.stmts:
            if s.kind != 'assign':
                continue
            nxt = []
            for x in states:
                ty = None
                for y, v in self.rvalue(fr, x, s.rv, ty):
                    root, path, _ = self.loc(fr, y, s.place)
                    self.write(y, root, path, v, s.span)
                    nxt.append(y)
            states = nxt
        t = blk.term
        for st in states:
            k = t.kind
            if k == 'goto':
                work.append((st, t.a, False))
            elif k == 'return':
                out.append(('ret', st))
            elif k == 'unreachable' or k == 'resume':
                continue
            elif k == 'drop':
                work.append((st, t.a[1], False))
            elif k == 'assert':
                work.append((st, t.a[4], False))
            elif k == 'switch':
                self.switch(fr, st, t, work)
            elif k == 'call':
                dest, callee, args, ret = t.a
                vals = [self.operand(fr, st, a) for a in args]
                tys = [self.op_type(fr, a) for a in args]
                for st2, v in self.call(fr, st, callee, vals, tys, t.span):
                    if v is None:
                        out.append(('panic', st2, (t.span, callee)))
                        continue
                    if ret is None:
                        out.append(('panic', st2, (t.span, callee)))
                        continue
                    root, path, _ = self.loc(fr, st2, dest)
                    if v.op == 'call' and (self.ty_of_place(body, dest) or '').strip() == '()':
                        v = tup()
                    self.write(st2, root, path, v, t.span)
                    work.append((st2, ret, False))
            else:
                raise TooComplex('terminator ' + k)

    def switch(self, fr, st, t, work):
        op, targets, other = t.a
        v = self.deref(st, self.operand(fr, st, op))
        if v.op == 'disc':
            table = self.variants(v.a[1])
            if table is None:
                node = N('disc', v.a[0], v.a[1])
                rest = st
                for val, bb in targets:
                    s = self.assume_disc(st.copy(), node, ['#%d' % val],
                                         ['#%d' % x for x, _ in targets] + ['#other'])
                    if s is not None:
                        work.append((s, bb, False))
                if other is not None:
                    s = self.assume_disc(st.copy(), node, ['#other'],
                                         ['#%d' % x for x, _ in targets] + ['#other'])
                    if s is not None:
                        work.append((s, other, False))
                return
            m = {}
            for name, d in table:
                m[name] = d
            for s, var in self.split_disc(st, v.a[0], v.a[1]):
                d = m.get(var)
                dest = other
                for val, bb in targets:
                    if d is not None and (val == d or (d < 0 and val in (d + 256, d + (1 << 16), d + (1 << 32), d + (1 << 64)))):
                        dest = bb
                        break
                if dest is not None:
                    work.append((s, dest, False))
            return
        boolish = v.op in ('b', 'sgn', 'not', 'isv', 'streq') or self.op_type(fr, op) == 'bool'
        if boolish:
            for s, truth in self.fork(st, v):
                want = 1 if truth else 0
                dest = other
                for val, bb in targets:
                    if val == want:
                        dest = bb
                        break
                if dest is not None:
                    work.append((s, dest, False))
            return
        ty = self.op_type(fr, op)
        if ty == 'char':
            rest = st
            for val, bb in targets:
                s = self.assume(rest.copy(), self.streq(v, N('chr', chr(val))), True)
                if s is not None:
                    work.append((s, bb, False))
                rest = self.assume(rest, self.streq(v, N('chr', chr(val))), False)
                if rest is None:
                    return
            if other is not None:
                work.append((rest, other, False))
            return
        # integer switch
        self.mark_int(v, ty.startswith('u'))
        rest = st
        for val, bb in targets:
            if ty.startswith('i') and ty in INTS and val >= 1 << 63:
                val -= 1 << 64
            s = self.assume(rest.copy(), sgn(sub(v, num(val)), (0,)), True)
            if s is not None:
                work.append((s, bb, False))
            rest = self.assume(rest, sgn(sub(v, num(val)), (0,)), False)
            if rest is None:
                return
        if other is not None:
            work.append((rest, other, False))

    # ------------------------------------------------------------------ calls into bodies
    def call_body(self, fr, st, body, vals):
        """Analyse a crate-local callee in place. [(state, value)] value None = diverges."""
        fid = self.fresh()
        f2 = Frame(body, fid, fr.depth + 1 if fr else 0, (fr.stack if fr else ()) + (body.id,))
        for (l, _), v in zip(body.params, vals):
            st.mem[('L', fid, l)] = v
        res = []
        for o in self.exec(f2, st, 0):
            if o[0] == 'ret':
                s = o[1]
                v = s.read(('L', fid, 0))
                if v.op == 'undef':
                    v = UNIT
                self.drop_frame(s, fid, v)
                res.append((s, v))
            elif o[0] == 'panic':
                self.panic_out(res, o)
        return res

    def panic_out(self, res, o):
        o[1].advanced = o[1].advanced
        res.append((o[1], None))
        self.last_panic = o[2]

    def drop_frame(self, st, fid, v):
        keep = None
        for r in [r for r in st.mem if r[0] == 'L' and r[1] == fid]:
            if keep is None:
                keep = set()
                if self._has_ref(v):
                    for x in T.subnodes(v):
                        if x.op == 'ref':
                            keep.add(x.a[0])
                if any(r2 != r for r2 in ()):
                    pass
            if r not in keep:
                del st.mem[r]

    def apply(self, fr, st, f, args):
        """Call a closure / function value with a list of argument values."""
        f = self.deref(st, f)
        if f.op == 'clo':
            body = self.prog.closures.get(f.a[0])
            if body is not None and body.id not in fr.stack and fr.depth < self.max_depth:
                ty = body.params[0][1]
                selfv = self.temp(st, f) if ty.startswith('&') else f
                return self.call_body(fr, st, body, [selfv] + list(args))
            return [(st, call('apply', N('clo', f.a[0], ()), *[self.reify(st, a) for a in args]))]
        if f.op == 'fn':
            return self.call(fr, st, f.a[0], list(args), ['?'] * len(args), None)
        return [(st, call('apply', self.reify(st, f), *[self.reify(st, a) for a in args]))]

    def is_variant_ctor(self, path):
        s = strip_generics(path)
        segs = s.split('::')
        if len(segs) >= 2:
            vs = self.variants('::'.join(segs[:-1]))
            if vs and any(v == segs[-1] for v, _ in vs):
                return segs[-2], segs[-1]
        return None

    # ------------------------------------------------------------------ top level
    def run(self, body, args=None, pre=None):
        """Outcome table of a function."""
        self.states = 0
        st = State()
        if pre:
            pre(st)
        names = body.param_names()
        vals = []
        for i, (l, ty) in enumerate(body.params):
            if args is not None and i < len(args) and args[i] is not None:
                vals.append(args[i])
            else:
                n = 'self' if names[i] == 'self' else 'a%d' % i
                v = sym(n)
                if re.match(r"^(&('[a-z_]\w* )?)?(usize|u\d+)$", ty):
                    self.ints.add(v)
                    self.unsigned.add(v)
                if re.match(r"^&('[A-Za-z_]\w* )?mut ", ty):
                    v = N('ref', ('S', v), ())
                vals.append(v)
        fid = self.fresh()
        f = Frame(body, fid, 0, (body.id,))
        for (l, _), v in zip(body.params, vals):
            st.mem[('L', fid, l)] = v
        paths = []
        for o in self.exec(f, st, 0):
            if o[0] == 'ret':
                s = o[1]
                v = s.read(('L', fid, 0))
                if v.op == 'undef':
                    v = UNIT
                p = Path('ret', s, self.reify(s, v))
                # final values of by-reference or owned parameters
                paths.append(p)
            elif o[0] == 'panic':
                paths.append(Path('panic', o[1], None, o[2]))
        return paths

    # ------------------------------------------------------------------ loops
    def run_loop(self, fr, st0, header, blocks):
        body = fr.body
        live, borrowed = cfg_of(body).live_in()
        return self.generic_loop(fr, st0, lambda entry: self.exec(fr, entry, header, within=blocks, header=header),
                                 live[header] | borrowed, (body.id, header, len(st0.binders)))

    def generic_loop(self, fr, st0, iterate, live, lid):
        phis = {}
        binders0 = len(st0.binders)
        saved_gen, saved_adv = st0.gen, st0.advanced
        result = None
        ind = {}
        for rnd in range(10):
            entry = st0.copy()
            entry.eff = ()
            entry.advanced = ()
            for (root, path), ph in phis.items():
                k = ind.get((root, path))
                v = ph if k is None else add(read_path(st0.read(root), path), k)
                entry.mem[root] = update(entry.read(root), path, v)
            entry_conds = dict(entry.conds)
            entry_mem = dict(entry.mem)
            entry.gen = entry_mem
            if ind:
                for (root, path), k in ind.items():
                    entry.binders = entry.binders + ((k, k.a[0], k.a[1], False),)
            outs = iterate(entry)
            if rnd == 0:
                r = self.unroll(st0, iterate, outs)
                if r is not None:
                    return r
            new = False
            for o in outs:
                if o[0] != 'back':
                    continue
                s = o[1]
                for root in list(s.mem):
                    if root[0] == 'L' and root[1] == fr.fid and root not in entry_mem:
                        continue
                    if root[0] == 'L' and root not in entry_mem:
                        continue
                    if live is not None and root[0] == 'L' and root[1] == fr.fid and root[2] not in live:
                        continue
                    a = entry_mem.get(root)
                    if a is None:
                        a = root[1] if root[0] == 'S' else None
                    b = s.mem[root]
                    for path in self.diff(a, b, ()):
                        if any(pr == root and pp == path[:len(pp)] for pr, pp in phis):
                            continue
                        # drop phis below this path
                        for key in [k for k in phis if k[0] == root and k[1][:len(path)] == path]:
                            del phis[key]
                        phis[(root, path)] = N('phi', lid, len(phis))
                        new = True
            if new:
                continue
            # induction variable of a counting loop without a generator
            if not ind and not any(o[1].advanced for o in outs):
                cand = self.induction(st0, entry_mem, phis, outs, entry_conds)
                if cand:
                    ind = cand
                    continue
            result = outs
            break
        if result is None:
            raise TooComplex('loop fixpoint in %r' % (lid,))
        return self.loop_result(fr, st0, entry_mem, entry_conds, phis, ind, result, binders0, saved_gen,
                                saved_adv, lid)

    def unroll(self, st0, iterate, outs):
        """A loop over a constant, small number of elements runs its body that many times."""
        where = {x[0] for o in outs for x in o[1].advanced}
        if len(where) != 1:
            return None
        w = where.pop()
        if not isinstance(w[1], tuple):
            return None
        root, path = w
        it = read_path(st0.read(root), path)
        if it.op != 'iter' or not it.a[0] or any(it is not read_path(o[1].read(root), path) and o[0] == 'back'
                                                  and read_path(o[1].read(root), path).op != 'iteradv' for o in outs):
            return None
        n = 0
        for gens, alts in it.a[0]:
            if len(alts) != 1 or alts[0][0]:
                return None
            if not gens:
                n += 1
            elif len(gens) == 1 and all(isinstance(x, Node) and x.op == 'num' for x in gens[0][1:3]):
                n += max(0, int(gens[0][2].a[0] - gens[0][1].a[0]))
            else:
                return None
            if n > 3:
                return None
        todo, res = [st0], []
        for i in range(n + 1):
            nxt = []
            for s in todo:
                e = s.copy()
                e.gen = {k: v for k, v in e.gen.items() if k != root}
                for o in iterate(e):
                    if o[0] == 'back':
                        o[1].gen = st0.gen
                        nxt.append(o[1])
                    elif o[0] == 'exit':
                        o[1].gen = st0.gen
                        res.append(('goto',) + tuple(o[1:]))
                    else:
                        res.append(o)
            todo = nxt
            if len(todo) > 8:
                return None
        return res if not todo else None

    def diff(self, a, b, path):
        if a is b:
            return []
        if a is None:
            return [path]
        if b.op == 'iteradv' and (b.a[0] is a or a.op == 'iteradv' or a.op == 'iter'):
            return []
        if a.op == 'adt' and b.op == 'adt' and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
            out = []
            for (n, x), (_, y) in zip(a.a[2], b.a[2]):
                e = path + (((('v', a.a[1]),) if a.a[1] else ()) + (('f', n),))
                out.extend(self.diff(x, y, e))
            return out
        if a.op == 'tup' and b.op == 'tup' and len(a.a[0]) == len(b.a[0]):
            out = []
            for i, (x, y) in enumerate(zip(a.a[0], b.a[0])):
                out.extend(self.diff(x, y, path + (('f', str(i)),)))
            return out
        # upd chains over the same base, or upd over a
        ca, ba = self._chain(a)
        cb, bb = self._chain(b)
        if ba is bb or bb is a:
            out = []
            for e in dict.fromkeys(ca + cb):
                out.extend(self.diff(proj(a, e), proj(b, e), path + (e,)))
            return out
        return [path]

    @staticmethod
    def _chain(v):
        es = []
        while v.op == 'upd' and v.a[1][0] in ('f', 'v'):
            es.append(v.a[1])
            v = v.a[0]
        return es, v

    def induction(self, st0, entry_mem, phis, outs, entry_conds):
        backs = [o[1] for o in outs if o[0] == 'back']
        if not backs:
            return None
        for (root, path), ph in phis.items():
            init = read_path(st0.read(root), path)
            if not all(read_path(s.read(root), path) is add(ph, num(1)) for s in backs):
                continue
            # every back path knows ph < hi for a common loop-invariant hi
            his = None
            for s in backs:
                cand = set()
                for key, c in s.conds.items():
                    if key[0] != 'lin' or entry_conds.get(key) == c:
                        continue
                    p = T.p_of(key[1])
                    co = p.get(((ph, 1),))
                    if co not in (1, -1):
                        continue
                    rest = T.p_node({m: x for m, x in p.items() if m != ((ph, 1),)})
                    if contains(rest, lambda x: x.op == 'phi' and x.a[0] == ph.a[0]):
                        continue
                    ivs = c[1]
                    if co == 1 and len(ivs) == 1 and ivs[0][2] is not None:
                        up = ivs[0][2]           # ph + rest <= up (ints) or < up
                        lim = up + 1 if ivs[0][3] else up
                        cand.add(add(neg(rest), num(lim)))
                    elif co == -1 and len(ivs) == 1 and ivs[0][0] is not None:
                        lo = ivs[0][0]           # rest - ph >= lo
                        lim = lo - 1 if ivs[0][1] else lo
                        cand.add(sub(rest, num(lim)))
                his = cand if his is None else his & cand
            if his and len(his) == 1:
                hi = his.pop()
                k = self.new_k(st0, num(0), sub(hi, init))
                return {(root, path): k}
        return None

    def delta(self, conds, base, drop=()):
        out = []
        for key, c in conds.items():
            if base.get(key) == c or key in drop:
                continue
            out.append((key, c))
        return tuple(sorted(out, key=lambda t: (t[0][0], t[0][1].id)))

    def loop_result(self, fr, st0, entry_mem, entry_conds, phis, ind, outs, binders0, saved_gen, saved_adv, lid):
        backs, exits, others = [], [], []
        indkeys = set()
        for o in outs:
            if o[0] == 'back':
                backs.append(o[1])
            elif o[0] == 'exit':
                exits.append(o)
            else:
                others.append(o)
        indk = set(ind.values())

        def is_range_key(key):
            # facts lo <= k < hi restated
            if key[0] != 'lin':
                return False
            for k in indk:
                for q in (sub(k, k.a[1]), sub(k, k.a[0]), k):
                    if q.op == 'num':
                        continue
                    if T.linkey(q)[0] is key[1]:
                        return True
            return False
        drop = {key for o in outs for key in o[1].conds if is_range_key(key)}
        # element-wise in-place updates: phi[k] is the initial element
        sub_map = {}
        for (root, path), ph in phis.items():
            if (root, path) in ind:
                continue
            init = read_path(st0.read(root), path)
            ok = bool(backs)
            ks = set()
            for s in backs:
                v = read_path(s.read(root), path)
                while v.op == 'upd' and v.a[1][0] == 'i':
                    ks.add(v.a[1][1])
                    v = v.a[0]
                if v is not ph:
                    ok = False
            if ok and len(ks) == 1:
                k = next(iter(ks))
                gens = [b[0] for s in backs for b in s.binders[binders0:]]
                if len(set(gens)) == 1 and (k is gens[0] or gens[0].op == 'k' and sub(k, gens[0]).op == 'num'):
                    sub_map[N('idx', ph, k)] = proj(init, ('i', k))
        # gather alternatives of one iteration
        gens = None
        for s in backs:
            g = s.binders[binders0:]
            if gens is None or len(g) > len(gens):
                gens = g
        for o in exits:
            g = o[1].binders[binders0:]
            if gens is None:
                gens = g
        gens = gens or ()
        # what grows by the same amount in every iteration is a multiple of the number of iterations so far
        counters = {}
        if len(gens) == 1 and not gens[0][3] and backs and all(tuple(s.binders[binders0:]) == tuple(gens) for s in backs):
            k, lo, hi, _ = gens[0]
            for (root, path), ph in phis.items():
                if (root, path) in ind:
                    continue
                ds = {sub(read_path(s.read(root), path), ph) for s in backs}
                d = ds.pop()
                if not ds and d.op == 'num' and d.a[0] != 0 and hi is not None:
                    init = read_path(st0.read(root), path)
                    counters[ph] = (add(init, mul(d, sub(k, lo))), add(init, mul(d, sub(hi, lo))))
            stops = [o[1] for o in exits + others
                     if not (any(e[1] == 'none' for e in o[1].advanced) and not any(e[1] == 'some' for e in o[1].advanced))]
            if indk:
                stops = [s for s in stops if -1 in self.possible_signs(s, sub(k, k.a[1]))]
            if counters and not self.covered(st0, [self.delta(s.conds, entry_conds, drop) for s in backs + stops]):
                counters = {}
        if counters:
            m = {ph: v[0] for ph, v in counters.items()}
            for s in backs + stops:
                s.eff = tuple(self.subst_eff(e, m) for e in s.eff)
                s.conds = {(c[0], subst(c[1], m)): v for c, v in s.conds.items()}
                for r in list(s.mem):
                    s.mem[r] = subst(s.mem[r], m)
        if sub_map:
            for s in backs + [o[1] for o in exits + others]:
                s.eff = tuple(self.subst_eff(e, sub_map) for e in s.eff)
                s.conds = {(k[0], subst(k[1], sub_map)): c for k, c in s.conds.items()}
                for r in list(s.mem):
                    s.mem[r] = subst(s.mem[r], sub_map)
        alts = []
        for s in backs:
            alts.append((s.binders[binders0:], self.delta(s.conds, entry_conds, drop), s))
        # summaries of loop-carried locations
        summ = {}
        mk = self.loop_system(phis, ind, st0, alts, gens)
        early = self.early_exits(exits, others, entry_conds, binders0, drop, indk, phis, ind, mk)
        for (root, path), ph in phis.items():
            init = read_path(st0.read(root), path)
            if (root, path) in ind:
                summ[ph] = add(init, ind[(root, path)].a[1])
                continue
            if ph in counters:
                summ[ph] = counters[ph][1]
                continue
            summ[ph] = self.summarise(ph, init, [(g, c, read_path(s.read(root), path)) for g, c, s in alts], gens)
            if summ[ph] is None:
                summ[ph] = mk('fold', ph)
        loop_eff = ()
        effalts = tuple((g, c, s.eff) for g, c, s in alts if s.eff)
        if effalts:
            loop_eff = (('loop', gens, effalts, None),)
        res = []
        full = {}
        for ph, v in summ.items():
            full[ph] = v
        # resolve phis that occur inside other summaries
        for o in exits:
            s = o[1]
            ns = s.copy()
            ns.gen, ns.advanced = saved_gen, saved_adv
            inner = s.binders[binders0:]
            normal = False
            if any(e[1] == 'none' for e in s.advanced) and not any(e[1] == 'some' for e in s.advanced):
                normal = True
            if ind:
                # exit with k >= hi is the normal exit
                k = next(iter(indk))
                if (-1 not in self.possible_signs(s, sub(k, k.a[1]))):
                    normal = True
            if normal:
                m = dict(full)
                if ind:
                    for k in indk:
                        m[k] = k.a[1]
                ns.mem = {r: (subst(v, m) if m else v) for r, v in s.mem.items()}
                nc = {}
                for key, c in s.conds.items():
                    if key in drop:
                        continue
                    if entry_conds.get(key) == c:
                        nc[key] = c
                        continue
                    nc[(key[0], subst(key[1], m) if m else key[1])] = c
                ns.conds = nc
                ns.binders = s.binders[:binders0]
                ns.eff = st0.eff + loop_eff + tuple(self.subst_eff(e, m) for e in s.eff)
                # iterators consumed by the loop are exhausted
                ok = True
                for key in list(ns.conds):
                    if key[1].op in ('num',):
                        del ns.conds[key]
                if early is not None:
                    ns = self.assume(ns, early, False)
                    if ns is None:
                        continue
            else:
                self.to_head(ns, phis, ind, mk)
                ns.eff = st0.eff + loop_eff + s.eff
                if early is not None and inner:
                    ns = self.assume(ns, early, True)
                    if ns is None:
                        continue
            res.append(('goto', ns, o[2]))
        for o in others:
            s = o[1]
            self.to_head(s, phis, ind, mk)
            s.eff = st0.eff + loop_eff + s.eff
            s.gen, s.advanced = saved_gen, saved_adv
            res.append(o)
        if backs and not exits and not any(o[0] == 'ret' for o in others):
            # nothing that an iteration does leads out of the loop
            ns = st0.copy()
            if early is not None:
                ns = self.assume(ns, early, False)
            if ns is not None:
                res.append(('panic', ns, ('a loop without a way out', NEVER_RETURNS)))
        return res

    def covered(self, st, alts):
        """Whether one of the alternatives holds in every case."""
        if any(not c for c in alts):
            return True
        from cmpterm import CaseLimit, Comparer
        none = N('sym', '#none')
        try:
            return all(v is not none for _, v in Comparer(self).complete(st.copy(), [(c, TRUE) for c in alts], none))
        except CaseLimit:
            return False

    def loop_system(self, phis, ind, st0, alts, gens):
        """Closed description of loop-carried values: initial values and one guarded step for all of them."""
        plist = [(root, path, ph) for (root, path), ph in phis.items() if (root, path) not in ind]
        rows = []
        for g, c, s in alts:
            rows.append((c, {ph: read_path(s.read(root), path) for root, path, ph in plist}))
        inits = {ph: read_path(st0.read(root), path) for root, path, ph in plist}
        cache = {}

        def refs(x):
            return [y for y in T.subnodes(x) if y.op == 'phi' and y in inits]

        def mk(op, sel):
            key = (op, sel)
            if key in cache:
                return cache[key]
            need, todo = [sel], [sel]
            condphis = []
            for c, vs in rows:
                for k, _ in c:
                    condphis += refs(k[1])
            condphis.sort(key=lambda y: inits[y].id)
            first = True
            while todo:
                ph = todo.pop(0)
                found = []
                for c, vs in rows:
                    found += sorted(refs(vs[ph]), key=lambda y: inits[y].id)
                if first:
                    found += condphis
                    first = False
                for y in found:
                    if y not in need:
                        need.append(y)
                        todo.append(y)
            body = []
            for c, vs in rows:
                body.append((c, tuple(vs[y] for y in need)))
            ini = tuple(inits[y] for y in need)
            lvl = 0
            for x in T.subnodes((ini, tuple(body))):
                if x.op == 'bphi':
                    lvl = max(lvl, x.a[0])
            m = {y: N('bphi', lvl + 1, i) for i, y in enumerate(need)}
            nb = tuple(sorted(((tuple(((k[0], subst(k[1], m)), x) for k, x in c), tuple(subst(v, m) for v in vs))
                               for c, vs in body), key=lambda t: (tuple((k[0], k[1].id) for k, _ in t[0]),
                                                                  tuple(v.id for v in t[1]))))
            nb = T.settle(ini, nb, lvl + 1)
            r = T.fold(gens, ini, nb, lvl + 1) if op == 'fold' else N(op, gens, ini, nb, lvl + 1)
            cache[key] = r
            return r
        return mk

    def early_exits(self, exits, others, entry_conds, binders0, drop, indk, phis, ind, mk):
        """Boolean term: some element makes the loop stop before its end."""
        segs = {}
        for o in exits + others:
            s = o[1]
            g = s.binders[binders0:]
            if not g or any(e[1] == 'none' for e in s.advanced) and not any(e[1] == 'some' for e in s.advanced):
                continue
            if indk and o in exits:
                k = next(iter(indk))
                if -1 not in self.possible_signs(s, sub(k, k.a[1])):
                    continue
            c = tuple((k, v) for k, v in self.delta(s.conds, entry_conds, drop)
                      if not (k[0] == 'b' and k[1].op == 'any'))
            if any(contains(k[1], lambda x: x.op == 'phi') for k, _ in c):
                m = {ph: mk('head', ph) for key, ph in phis.items() if key not in ind}
                c = tuple(((k[0], subst(k[1], m)), v) for k, v in c)
            segs.setdefault(g, []).append((c, TRUE))
        if not segs:
            return None
        return self.quantify('any', [(g, al) for g, al in segs.items()])

    def to_head(self, s, phis, ind, mk):
        m = {ph: mk('head', ph) for key, ph in phis.items() if key not in ind}
        if not m:
            return
        cache = {}
        s.mem = {r: subst(v, m, cache) for r, v in s.mem.items()}
        s.conds = {(k[0], subst(k[1], m, cache)): c for k, c in s.conds.items()}
        s.eff = tuple(self.subst_eff(e, m) for e in s.eff)

    def subst_eff(self, e, m):
        if not m:
            return e
        if e[0] == 'w':
            return ('w', subst(e[1], m), subst(e[2], m), e[3])
        if e[0] == 'call':
            return ('call', e[1], tuple(subst(x, m) for x in e[2]), e[3])
        if e[0] == 'loop':
            return ('loop', tuple((subst(g[0], m), subst(g[1], m), subst(g[2], m), g[3]) for g in e[1]),
                    tuple((tuple((subst(g[0], m), subst(g[1], m), subst(g[2], m), g[3]) for g in gg),
                           tuple(((k[0], subst(k[1], m)), c) for k, c in cc),
                           tuple(self.subst_eff(x, m) for x in ee)) for gg, cc, ee in e[2]), e[3])
        return e

    def summarise(self, ph, init, alts, gens):
        """Value after the loop of a location that holds `ph` at the start of an iteration."""
        isphi = lambda x: x is ph
        anyphi = lambda x: x.op == 'phi' and x.a[0] == ph.a[0]
        if not alts:
            return init
        # sequence appends
        parts = []
        ok = True
        for g, c, v in alts:
            ps = vec_parts(v)
            if any(contains(k[1], anyphi) for k, _ in c):
                ok = False
                break
            if v is ph:
                parts.append((g, c, ()))
                continue
            if ps and ps[0] == ('all', ph) and not any(contains(q, anyphi) for q in ps[1:] for q in [N('tup', (q,))]):
                parts.append((g, c, ps[1:]))
            else:
                ok = False
                break
        if ok and any(p[2] for p in parts):
            body = tuple((c, p) for g, c, p in parts if p)
            return vec(vec_parts(init) + (('for', gens, body),))
        # insertions into an empty set
        if init.op == 'call' and init.a[0] in ('empty:HashSet', 'empty:BTreeSet'):
            parts = []
            for g, c, v in alts:
                new = []
                while v.op == 'call' and v.a[0] == 'insert' and len(v.a[1]) == 2:
                    new.append(('one', v.a[1][1]))
                    v = v.a[1][0]
                if v is not ph or any(contains(x, anyphi) for _, x in new) or any(contains(k[1], anyphi) for k, _ in c):
                    break
                parts.append((c, tuple(new[::-1])))
            else:
                if any(p for _, p in parts):
                    return N('call', 'collect:set', (vec((('for', gens, tuple(x for x in parts if x[1])),)),))
        # every element replaced by something that depends on it and its position only
        if len(alts) == 1 and not alts[0][1] and len(gens) == 1 and gens[0][1] is num(0) and not gens[0][3]:
            k, v = gens[0][0], alts[0][2]
            x = v
            while x.op == 'upd' and x.a[1] == ('i', k):
                x = x.a[0]
            if v is not ph and x is ph and gens[0][2] is length(init):
                e = subst(proj(v, ('i', k)), {N('idx', ph, k): proj(init, ('i', k))})
                if not contains(e, anyphi):
                    return vec((('for', gens, (((), (('one', e),)),)),))
        # one element that the loop does not choose
        at = {v.a[1] for _, _, v in alts if v is not ph and v.op == 'upd' and v.a[0] is ph and v.a[1][0] == 'i'}
        if ph.op == 'phi' and len(at) == 1 and all(v is ph or v.op == 'upd' and v.a[0] is ph for _, _, v in alts):
            e = at.pop()
            if not contains(e[1], lambda y: anyphi(y) or any(y is g[0] for g in gens)):
                one = N('phi', ph.a[0], ('at', ph.a[1]))
                m = {proj(ph, e): one}
                inner = [(g, tuple(((k[0], subst(k[1], m)), x) for k, x in c), one if v is ph else subst(v.a[2], m)) for g, c, v in alts]
                if not any(contains(N('tup', (v,) + tuple(k[1] for k, _ in c)), lambda y: y is ph) for _, c, v in inner):
                    r = self.summarise(one, proj(init, e), inner, gens)
                    if r is not None:
                        return update(init, (e,), r)
        # accumulation
        terms = []
        ok = True
        for g, c, v in alts:
            d = sub(v, ph)
            if any(contains(k[1], anyphi) for k, _ in c):
                ok = False
                break
            if contains(d, anyphi) or v.op in ('adt', 'vec', 'b', 'str', 'tup', 'iter', 'clo', 'ref', 'iteradv'):
                ok = False
                break
            terms.append((c, d))
        if ok and ph.op == 'phi' and any(t[1] is not num(0) for t in terms):
            return add(init, T.mksum(gens, tuple(terms)))
        return None

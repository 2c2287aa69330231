"""Equality of value terms under path facts, by normal form (no solver)."""
import term as T
from term import N, Node, num, sub, add, mul, proj, subst, contains, length
from absint import State, TooComplex


class CaseLimit(TooComplex):
    pass


class Comparer:
    def __init__(self, engine):
        self.e = engine
        self.budget = 20000
        self.gave_up = False    # a comparison ended because of a limit: "not equal" means nothing
        self.stack = set()
        self.depth = 0
        self.ref = None         # set when the terms come from two programs
        self.clo = None
        self.elementwise = {}   # element k of a sequence of which the step for k writes element k only

    # -- simplification under facts
    def point_facts(self, st):
        m = {}
        for key, c in st.conds.items():
            if key[0] != 'lin':
                continue
            iv = c[1]
            if len(iv) == 1 and iv[0][0] is not None and iv[0][0] == iv[0][2]:
                L, v = key[1], iv[0][0]
                p = T.p_of(L)
                # solve for one atom with linear unit coefficient, not occurring elsewhere
                best = None
                for mono, co in p.items():
                    if len(mono) == 1 and mono[0][1] == 1:
                        x = mono[0][0]
                        rest = T.p_node({a: b for a, b in p.items() if a != mono})
                        if not contains(rest, lambda y: y is x):
                            if best is None or x.id > best[0].id:
                                best = (x, mul(num(-1 / co), sub(rest, num(v))))
                if best:
                    m[best[0]] = best[1]
        return m

    def simp(self, st, t):
        for _ in range(4):
            m = self.point_facts(st)
            if not m:
                return t
            n = subst(t, m)
            if n is t:
                return t
            t = n
        return t

    def states(self, st, conds):
        s = self.e.assume_all(st.copy(), conds)
        return s

    # -- equality
    def equal(self, st, a, b):
        if a is b:
            return True
        self.budget -= 1
        if self.budget < 0 or self.depth > 150 or (a, b) in self.stack:
            self.gave_up = True
            return False
        self.stack.add((a, b))
        self.depth += 1
        try:
            return self._equal(st, a, b)
        except (RecursionError, CaseLimit):
            self.gave_up = True
            return False
        finally:
            self.stack.discard((a, b))
            self.depth -= 1

    def _equal(self, st, a, b):
        if not isinstance(a, Node) or not isinstance(b, Node):
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
                return all(self.equal(st, x, y) for x, y in zip(a, b))
            return a == b
        sa, sb = self.simp(st, a), self.simp(st, b)
        if sa is sb:
            return True
        a, b = sa, sb
        # a variable known to be one enum variant equals that variant
        for x, y in ((a, b), (b, a)):
            if y.op == 'adt' and y.a[1] and x.op != 'adt':
                if x.op in ('cmp', 'nzs', 'sgnv'):
                    want = {'Less': -1, 'Equal': 0, 'Greater': 1, 'Negative': -1, 'Zero': 0, 'Positive': 1}.get(y.a[1])
                    if want is not None and self.e.possible_signs(st, x.a[0]) == [want]:
                        return True
                    return False
                base = x
                while base.op == 'upd' and base.a[1][0] == 'v':
                    base = base.a[0]
                if base.op == 'adt':
                    if base.a[1] != y.a[1]:
                        return False
                elif st.conds.get(('disc', base)) != frozenset([y.a[1]]):
                    return False
                return all(self.equal(st, T.pay(x, y.a[1], n), v) for n, v in y.a[2])
        # a structure or tuple equals one with equal fields
        for x, y in ((a, b), (b, a)):
            if y.op == 'adt' and not y.a[1] and y.a[2] and x.op in ('upd', 'sym', 'fld', 'idx', 'dc', 'call', 'bphi'):
                return all(self.equal(st, proj(x, ('f', n)), v) for n, v in y.a[2])
            if y.op == 'tup' and y.a[0] and x.op in ('upd', 'sym', 'fld', 'idx', 'dc', 'call', 'bphi'):
                return all(self.equal(st, proj(x, ('f', str(i))), v) for i, v in enumerate(y.a[0]))
        if self.boolish(a) or self.boolish(b):
            return self.bool_equal(st, a, b)
        if a.op == b.op == 'adt':
            if a.a[0] != b.a[0] or a.a[1] != b.a[1] or len(a.a[2]) != len(b.a[2]):
                return False
            da, db = dict(a.a[2]), dict(b.a[2])
            return set(da) == set(db) and all(self.equal(st, da[k], db[k]) for k in da)
        if a.op == b.op == 'tup':
            return len(a.a[0]) == len(b.a[0]) and all(self.equal(st, x, y) for x, y in zip(a.a[0], b.a[0]))
        for x, y in ((a, b), (b, a)):
            if x.op == 'call' and x.a[0] == 'remove_indices!0' and y.op == 'vec':
                w = self.select_first(x)
                if w is not None:
                    return self.equal(st, w, y)
        if a.op == 'upd' and b.op == 'vec' or a.op == 'vec' and b.op == 'upd':
            a, b = self.within_prefix(a, b), self.within_prefix(b, a)
            if a is b:
                return True
        if a.op == b.op == 'rep':
            return self.equal(st, a.a[1], b.a[1]) and self.equal(st, a.a[0], b.a[0])
        if {a.op, b.op} & {'vec', 'rep'} or (a.op == 'call' and b.op == 'vec'):
            if self.vec_equal(st, a, b):
                return True
        if {a.op, b.op} & {'num', 'poly', 'sum'}:
            return self.num_equal(st, a, b)
        if 'upd' in (a.op, b.op):
            for x, y in ((a, b), (b, a)):
                # writing the value of a key that is present, and inserting it
                if x.op == 'upd' and x.a[1][0] == 'i' and y.op == 'call' and y.a[0] == 'insert' and len(y.a[1]) == 3:
                    m, k, v = y.a[1]
                    if st.conds.get(('disc', N('call', 'get', (m, k)))) == frozenset(['Some']) and \
                            self.equal(st, x.a[1][1], k) and self.equal(st, x.a[2], v) and self.equal(st, x.a[0], m):
                        return True
            return self.upd_equal(st, a, b)
        if a.op != b.op:
            return False
        if a.op == 'call' and a.a[0] in ('insert', 'remove') and b.a[0] in ('insert', 'remove') and \
                self.set_edits_equal(st, a, b):
            return True
        if a.op == 'call':
            return a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]) and all(self.equal(st, x, y) for x, y in zip(a.a[1], b.a[1]))
        if a.op in ('fld', 'dc', 'idx', 'slice', 'len', 'nzs', 'sgnv', 'cmp'):
            return len(a.a) == len(b.a) and all(self.equal(st, x, y) for x, y in zip(a.a, b.a))
        if a.op == 'any':
            return self.any_equal(st, a, b)
        if a.op == 'keys':
            return self.alts_equal(st, a.a[0], b.a[0])
        if a.op in ('fold', 'head'):
            return self.fold_equal(st, a, b)
        if a.op == 'clo':
            return self.clo_equal(st, a, b)
        if a.op == 'iter' and len(a.a[0]) == len(b.a[0]):
            # what an iterator yields, part by part
            return all(self.for_equal(st, ('for', x[0], x[1]), ('for', y[0], y[1]), self.equal, T.FALSE) for x, y in zip(a.a[0], b.a[0]))
        return len(a.a) == len(b.a) and all(self.equal(st, x, y) for x, y in zip(a.a, b.a))

    def set_edits_equal(self, st, a, b):
        """The same insertions into and removals from a set or map; those of different keys commute."""
        def chain(x):
            out = []
            while x.op == 'call' and x.a[0] in ('insert', 'remove') and len(x.a[1]) in (2, 3):
                out.append((x.a[0], x.a[1][1], x.a[1][2:]))
                x = x.a[1][0]
            return out[::-1], x
        (ca, ba), (cb, bb) = chain(a), chain(b)
        if len(ca) != len(cb) or len(ca) < 2 or not self.equal(st, ba, bb):
            return False
        left = list(cb)
        for op in ca:
            for n, other in enumerate(left):
                if op[0] == other[0] and self.equal(st, op[1], other[1]) and self.equal(st, op[2], other[2]):
                    left.pop(n)
                    break
                if self.equal(st, op[1], other[1]):
                    return False
            else:
                return False
        return True

    @staticmethod
    def select_first(x):
        """Selecting from changed elements is changing the selected elements."""
        v = x.a[1][0]
        if v.op != 'vec' or len(v.a[0]) != 1 or v.a[0][0][0] != 'for':
            return None
        _, gens, alts = v.a[0][0][:3]
        if len(gens) != 1 or len(alts) != 1 or gens[0][1] is not num(0) or gens[0][3] or alts[0][0]:
            return None
        k, lo, hi, _ = gens[0]
        parts = alts[0][1]
        if len(parts) != 1 or parts[0][0] != 'one':
            return None
        src = {y.a[0] for y in T.subnodes(parts[0][1]) if y.op == 'idx' and y.a[1] is k and T.length(y.a[0]) is hi}
        for s in src:
            hole = N('sym', '#selected')
            e = T.subst(parts[0][1], {N('idx', s, k): hole})
            if T.contains(e, lambda y: y is k):
                continue
            t = N('call', x.a[0], (s,) + tuple(x.a[1][1:]))
            kk = N('k', num(0), T.length(t), *k.a[2:])
            return T.vec([('for', ((kk, num(0), T.length(t), False),), (((), (('one', T.subst(e, {hole: N('idx', t, kk)})),)),))])
        return None

    def within_prefix(self, x, y):
        """[..A, rest]{i := v} as [..A{i := v}, rest] when A[i] is read too, so that i lies within A."""
        if x.op != 'upd' or x.a[1][0] != 'i' or x.a[0].op != 'vec':
            return x
        whole, i, v = x.a[0], x.a[1][1], x.a[2]
        first = whole.a[0][0] if whole.a[0] else None
        if first is None or first[0] != 'all':
            return x
        read = N('idx', first[1], i)
        if not contains(N('tup', (x, y)), lambda z: z is read):
            return x
        v = subst(v, {N('idx', whole, i): read})
        return T.vec((('all', T.update(first[1], (('i', i),), v)),) + tuple(whole.a[0][1:]))

    def boolish(self, x):
        return x.op in ('b', 'sgn', 'not', 'isv', 'streq', 'any')

    def bool_equal(self, st, a, b):
        if a.op == 'not' and b.op == 'not':
            return self.equal(st, a.a[0], b.a[0])
        if a.op == 'any' and b.op == 'any':
            return self.any_equal(st, a, b)
        # equal iff the four combinations agree
        for ta in (True, False):
            s = self.e.assume(st.copy(), a, ta)
            if s is None:
                continue
            for tb in (True, False):
                if ta == tb:
                    continue
                if self.e.assume(s.copy(), b, tb) is not None:
                    return False
        return True

    def num_equal(self, st, a, b):
        d = self.simp(st, sub(a, b))
        if d.op == 'num':
            return d.a[0] == 0
        p = T.p_of(d)
        groups, rest = {}, {}
        for mono, c in p.items():
            sums = [x for x, e in mono if x.op == 'sum' and e == 1]
            if len(sums) == 1:
                others = tuple((x, e) for x, e in mono if x is not sums[0])
                # push loop-invariant factors into the sum
                groups.setdefault(self.gens_key(sums[0].a[0]), []).append((c, others, sums[0]))
            else:
                rest[mono] = c
        if groups and not rest:
            return all(self.sum_zero(st, g) for g in groups.values())
        if groups:
            ok = all(self.sum_zero(st, g) for g in groups.values())
            if ok:
                return self.num_equal(st, T.p_node(rest), num(0)) if rest else True
            return False
        # opaque subterms that are equal under the facts
        atoms = sorted({x for mono in p for x, e in mono if x.op not in ('sym', 'k')}, key=lambda n: n.id)
        m = {}
        for i, x in enumerate(atoms):
            for y in atoms[:i]:
                if y not in m and x.op == y.op and self.equal(st, x, y):
                    m[x] = y
                    break
        if m:
            d2 = self.simp(st, subst(d, m))
            if d2.op == 'num':
                return d2.a[0] == 0
        return False

    def gens_key(self, gens):
        return tuple((lo, hi) for k, lo, hi, rev in gens)

    def sum_zero(self, st, items):
        base = items[0][2].a[0]
        ks = [g[0] for g in base]
        lists = []
        for c, others, s in items:
            m = {g[0]: k for g, k in zip(s.a[0], ks) if g[0] is not k}
            f = T.p_node({others: c}) if others else num(c)
            alts = []
            for conds, v in s.a[1]:
                if m:
                    conds = tuple(((k[0], subst(k[1], m)), x) for k, x in conds)
                    v = subst(v, m)
                alts.append((conds, mul(f, v)))
            lists.append(alts)
        # each sum contributes the alternatives whose conditions hold (0 otherwise)
        def rec(s, i, acc):
            if i == len(lists):
                d = self.simp(s, acc)
                return d.op == 'num' and d.a[0] == 0 or (d.op != 'num' and self.num_equal(s, d, num(0)))
            for s2, v in self.complete(s, lists[i]):
                if not rec(s2, i + 1, add(acc, v)):
                    return False
            return True
        return rec(self.outside(st, ks), 0, num(0))

    def complete(self, st, alts, default=None):
        """Split st by the alternatives; the remaining cases yield `default` (0)."""
        default = num(0) if default is None else default
        out = []
        budget = [0]

        def known(s, key, c):
            d = s.conds.get(key)
            if d is None or key[0] not in ('disc', 'b'):
                return None
            return False if not d & c else True if d <= c else None

        def split(s, todo):
            budget[0] += 1
            if budget[0] > 1500:
                raise CaseLimit('more than 1500 cases')
            live = []
            for conds, v in todo:
                left = []
                for key, c in conds:
                    t = known(s, key, c)
                    if t is False:
                        break
                    if t is None:
                        left.append((key, c))
                else:
                    if not left:
                        out.append((s, v))
                        return
                    live.append((left, v))
            if not live:
                out.append((s, default))
                return
            count = {}
            for conds, _ in live:
                for x in conds:
                    count[x[0]] = count.get(x[0], 0) + 1
            best = max(count.values())
            pick = next(x for conds, _ in live for x in conds if count[x[0]] == best)
            yes = self.e.assume_all(s.copy(), (pick,))
            if yes is not None:
                split(yes, [([x for x in conds if x != pick], v) for conds, v in live])
            rest = [(conds, v) for conds, v in live if pick not in conds]
            for no in self.neg_one(s, *pick):
                split(no, rest)
        split(st, [(tuple(conds), v) for conds, v in alts])
        return out

    def negate(self, st, conds):
        """States of st where the conjunction fails (disjoint)."""
        out = []
        cur = st
        for key, c in conds:
            for n in self.neg_one(cur, key, c):
                out.append(n)
            cur = self.e.assume_all(cur.copy(), ((key, c),))
            if cur is None:
                break
        return out

    def neg_one(self, st, key, c):
        kind = key[0]
        if kind == 'lin':
            comp = self.iv_complement(c[1])
            s = self.e.assume_all(st.copy(), ((key, ('iv', comp, c[2])),)) if comp else None
            return [s] if s is not None else []
        if kind == 'disc':
            node = key[1]
            uni = self.universe(node, c)
            if uni is None:
                return []
            left = uni - c
            if not left:
                return []
            s = self.e.assume_all(st.copy(), ((key, frozenset(left)),))
            return [s] if s is not None else []
        if kind == 'str':
            s = self.e.assume_all(st.copy(), ((key, ('notin' if c[0] == 'in' else 'in', c[1])),))
            return [s] if s is not None else []
        left = frozenset([True, False]) - c
        s = self.e.assume_all(st.copy(), ((key, left),)) if left else None
        return [s] if s is not None else []

    def universe(self, node, c):
        """Variants the node may have: of every enum that knows the variants in c, as the type is not at hand."""
        from absint import STD_ENUMS
        out = frozenset()
        for vs in list(self.e.prog.src.enums.values()) + list(STD_ENUMS.values()):
            names = frozenset(x[0] for x in vs)
            if c <= names:
                out |= names
        return out or None

    @staticmethod
    def iv_complement(ivs):
        cur = T.FULL
        for lo, c1, hi, d1 in ivs:
            parts = []
            if lo is not None:
                parts.append((None, False, lo, not c1))
            if hi is not None:
                parts.append((hi, not d1, None, False))
            if not parts:
                return ()
            cur = T.iv_intersect(cur, tuple(parts))
        return cur

    def alts_equal(self, st, x, y):
        """Two guarded alternative lists ((conds, value), ...) agree wherever both apply."""
        for c1, v1 in x:
            s = self.e.assume_all(st.copy(), c1)
            if s is None:
                continue
            for c2, v2 in y:
                s2 = self.e.assume_all(s.copy(), c2)
                if s2 is not None and not self.equal(s2, v1, v2):
                    return False
        return True

    def vec_equal(self, st, a, b):
        pa, pb = T.vec_parts(a), T.vec_parts(b)
        whole = pa == (('all', a),) or pb == (('all', b),) or pa == [('all', a)] or pb == [('all', b)]
        if not whole and len(pa) == len(pb) and all(self.part_equal(st, p, q) for p, q in zip(pa, pb)):
            return True
        # elementwise, when both have a computable element at a symbolic position
        la, lb = length(a), length(b)
        if la.op == 'len' and a.op == 'vec' or lb.op == 'len' and b.op == 'vec':
            return False
        if not self.equal(st, la, lb):
            return False
        if la.op == 'num':
            n = int(la.a[0])
            if n > 16:
                return False
            return all(self.elem_equal(st, self.elems(a, num(i)), self.elems(b, num(i))) for i in range(n))
        k = N('k', num(0), la, 7)
        ea, eb = self.elems(a, k), self.elems(b, k)
        if ea is None or eb is None:
            return False
        for v, alts in ((a, ea), (b, eb)):
            if v.op == 'vec' and len(alts) == 1 and alts[0][1].op == 'idx' and alts[0][1].a[0] is v:
                return False        # no better known element by element
        return self.elem_equal(st, ea, eb)

    def elem_equal(self, st, ea, eb):
        if ea is None or eb is None:
            return False
        return self.alts_equal(st, ea, eb)

    def elems(self, v, i):
        """Guarded alternatives for element i."""
        if v.op == 'vec' and len(v.a[0]) == 1 and v.a[0][0][0] == 'for':
            _, gens, body = v.a[0][0]
            if len(gens) != 1:
                return None
            k, lo, hi, rev = gens[0]
            to = add(lo, i) if not rev else sub(sub(hi, num(1)), i)
            out = []
            for c, ps in body:
                if len(ps) != 1 or ps[0][0] != 'one':
                    return None
                out.append((tuple(((x[0], subst(x[1], {k: to})), y) for x, y in c), subst(ps[0][1], {k: to})))
            return out
        return [((), proj(v, ('i', i)))]

    def part_equal(self, st, p, q):
        if p[0] == 'one' and q[0] == 'one':
            return self.equal(st, p[1], q[1])
        if p[0] == 'all' and q[0] == 'all':
            return self.equal(st, p[1], q[1])
        if p[0] == 'for' and q[0] == 'for':
            return self.for_equal(st, p, q, lambda s, x, y: self.parts_equal(s, x, y), ())
        return False

    def parts_equal(self, st, x, y):
        return len(x) == len(y) and all(self.part_equal(st, p, q) for p, q in zip(x, y))

    def align(self, g1, g2):
        """Rename the generators of g2 to those of g1; None if the domains differ."""
        if len(g1) != len(g2):
            return None
        m = {}
        for (k1, lo1, hi1, r1), (k2, lo2, hi2, r2) in zip(g1, g2):
            lo2, hi2 = subst(lo2, m), subst(hi2, m)
            if r1 != r2:
                return None
            if lo1 is lo2 and hi1 is hi2:
                if k2 is not k1:
                    m[k2] = k1
            elif sub(hi1, lo1) is sub(hi2, lo2):
                m[k2] = add(k1, sub(lo2, lo1))
            else:
                return None
        return m

    def for_equal(self, st, p, q, eq, empty):
        m = self.align(p[1], q[1])
        if m is None:
            return False
        qa = q[2]
        if m:
            qa = tuple((tuple(((k[0], subst(k[1], m)), c) for k, c in cc), subst(v, m)) for cc, v in qa)
        m = self.unify(st, tuple(cc for cc, _ in p[2]), tuple(cc for cc, _ in qa))
        if m:
            qa = tuple((tuple(((k[0], subst(k[1], m)), c) for k, c in cc), subst(v, m)) for cc, v in qa)
        for s1, v1 in self.complete(self.outside(st, [g[0] for g in p[1]]), p[2], empty):
            for s2, v2 in self.complete(s1, qa, empty):
                if not eq(s2, v1, v2):
                    return False
        return True

    @staticmethod
    def outer_loops(t):
        seen, out, stack = set(), {}, [t]
        while stack:
            x = stack.pop()
            if isinstance(x, Node):
                if x in seen:
                    continue
                seen.add(x)
                if x.op in ('fold', 'head'):
                    out[x] = True
                    stack.extend((x.a[0], x.a[1]))
                else:
                    stack.append(x.a)
            elif isinstance(x, (tuple, frozenset)):
                stack.extend(x)
        return out

    def unify(self, st, t1, t2):
        """Map from loops inside t2 to the equal loops inside t1, so that facts about them meet."""
        a, b = self.outer_loops(t1), self.outer_loops(t2)
        oa = sorted((x for x in a if x not in b), key=lambda x: x.id)
        ob = sorted((x for x in b if x not in a), key=lambda x: x.id)
        if not oa or not ob or len(oa) * len(ob) > 64:
            return {}
        m = {}
        for y in ob:
            y2 = subst(y, m) if m else y
            for x in oa:
                if x.op == y.op and len(x.a[0]) == len(y.a[0]) and (x is y2 or self.equal(st, x, y2)):
                    m[y] = x
                    break
        return m

    def any_equal(self, st, a, b):
        if len(a.a[0]) != len(b.a[0]):
            return False
        for (g1, c1), (g2, c2) in zip(a.a[0], b.a[0]):
            if not self.for_equal(st, ('for', g1, c1), ('for', g2, c2), lambda s, x, y: self.equal(s, x, y), T.FALSE):
                return False
        return True

    def fold_equal(self, st, a, b):
        """Same domain, and a matching of the carried values with equal initial values and equal steps."""
        g1, i1, r1, l1 = a.a
        g2, i2, r2, l2 = b.a
        m = self.align(g1, g2)
        if m is None:
            return False
        if not self.equal(st, i1[0], i2[0]):
            return False
        n1, n2 = len(i1), len(i2)
        # fresh names for b's carried values, to keep them apart from a's
        tmp = [N('sym', '!phi%d.%d' % (l1, i)) for i in range(n2)]
        m2 = dict(m)
        m2.update({N('bphi', l2, i): tmp[i] for i in range(n2)})
        rows2 = tuple((tuple(((k[0], subst(k[1], m2)), c) for k, c in cc), tuple(subst(v, m2) for v in vs)) for cc, vs in r2)
        eqs = {}

        def ini(i, j):
            if (i, j) not in eqs:
                eqs[(i, j)] = self.equal(st, i1[i], i2[j])
            return eqs[(i, j)]
        tries = [0]
        small = min(n1, n2)

        def search(i, pi):
            """pi: the matched pairs; what only one loop carries must not matter to the others."""
            if tries[0] > 24:
                return False
            if i == small:
                tries[0] += 1
                m3 = {tmp[y]: N('bphi', l1, x) for x, y in pi}
                rr = tuple((tuple(((k[0], subst(k[1], m3)), c) for k, c in cc), tuple(subst(vs[y], m3) for _, y in pi)) for cc, vs in rows2)
                ra = tuple((cc, tuple(vs[x] for x, _ in pi)) for cc, vs in r1)
                keep = tuple(N('bphi', l1, x) for x, _ in pi)
                saved = self.elementwise
                steps = self.element_steps(ra, rr, keep, [g[0] for g in g1], [i1[x] for x, _ in pi])
                self.elementwise = {**saved, **steps}
                deep = {x: y for x, y in steps.items() if x.a[0].op == 'idx'}
                if deep:
                    ra, rr = (tuple((tuple(((k[0], subst(k[1], deep)), c) for k, c in cc), tuple(subst(v, deep) for v in vs))
                                    for cc, vs in r) for r in (ra, rr))
                try:
                    return self.rows_equal(self.outside(st, [g[0] for g in g1], l1), ra, rr, keep)
                finally:
                    self.elementwise = saved
            used = {p[1] if n1 <= n2 else p[0] for p in pi}
            for j in range(max(n1, n2)):
                x, y = (i, j) if n1 <= n2 else (j, i)
                if j not in used and (i != 0 or j == 0) and ini(x, y):
                    if search(i + 1, pi + [(x, y)]):
                        return True
            return False
        return search(0, [])

    @staticmethod
    def outside(st, counters, level=None):
        """The state without what it says about one particular iteration of the loop."""
        inner = set(counters)
        hit = {}

        def bound(x):
            if not isinstance(x, Node):
                return False
            if x not in hit:
                hit[x] = contains(x, lambda y: y in inner or (y.op == 'bphi' and y.a[0] == level))
            return hit[x]
        if not any(bound(k[1]) for k in st.conds):
            return st
        s = st.copy()
        s.conds = {k: c for k, c in st.conds.items() if not bound(k[1])}
        return s

    @staticmethod
    def element_steps(r1, r2, keep, counters, inits):
        out = {}
        for i, ph in enumerate(keep):
            ks = set()
            for _, vs in tuple(r1) + tuple(r2):
                v = vs[i]
                while v.op == 'upd' and v.a[1][0] == 'i':
                    j, w = v.a[1][1], v.a[2]
                    v = v.a[0]
                    if v is ph and len(counters) == 1 and j is not counters[0]:
                        # an element of an element that the loop does not choose
                        whole = N('idx', ph, j)
                        while w.op == 'upd' and w.a[1][0] == 'i' and w.a[1][1] is counters[0]:
                            w = w.a[0]
                        if w is whole and not contains(j, lambda y: y is counters[0] or y is ph):
                            j = (j, counters[0])
                    ks.add(j)
                if v is not ph:
                    ks.add(None)
            if len(ks) == 1 and len(counters) == 1 and isinstance(next(iter(ks)), tuple):
                j, k = next(iter(ks))
                if not contains(inits[i], lambda y: y is k):
                    out[N('idx', N('idx', ph, j), k)] = proj(proj(inits[i], ('i', j)), ('i', k))
            if len(ks) == 1 and len(counters) == 1 and list(ks) == counters:
                k = counters[0]
                if not contains(inits[i], lambda y: y is k):
                    out[N('idx', ph, k)] = proj(inits[i], ('i', k))
        return out

    def rows_equal(self, st, r1, r2, keep):
        if r1 == r2:
            return True
        if not r1 or not r2:
            return False
        m = self.unify(st, tuple(cc for cc, _ in r1), tuple(cc for cc, _ in r2))
        if m:
            r2 = tuple((tuple(((k[0], subst(k[1], m)), c) for k, c in cc), tuple(subst(v, m) for v in vs)) for cc, vs in r2)
        s0 = st.copy()
        for s1, v1 in self.complete(s0, r1, keep):
            for s2, v2 in self.complete(s1, r2, keep):
                if v1 is v2:
                    continue
                if not all(self.equal(s2, x, y) for x, y in zip(v1, v2)) and self.feasible(s2):
                    return False
        return True

    def clo_equal(self, st, a, b):
        if a.a[0] == b.a[0] and self.ref is None:
            return len(a.a[1]) == len(b.a[1]) and all(self.equal(st, x[1], y[1]) for x, y in zip(a.a[1], b.a[1]))
        if self.clo is not None:
            return self.clo(st, a, b)
        return False

    # -- consistency of facts beyond intervals on single linear forms
    def feasible(self, st):
        try:
            return self._feasible(st)
        except RecursionError:
            self.gave_up = True
            return True

    def _feasible(self, st):
        # equalities and decided conditions substituted into the other facts
        for _ in range(3):
            m = self.decided(st)
            m.update(self.point_facts(st))
            if not m:
                break
            s2 = st.copy()
            s2.conds = {}
            changed = False
            cache = {}
            for key, c in st.conds.items():
                n = subst(key[1], m, cache) if key[1] not in m else key[1]
                if key[0] == 'lin' and n is not key[1]:
                    if n.op == 'num':
                        v = n.a[0]
                        if not T.iv_intersect(c[1], ((v, True, v, True),)):
                            return False
                        continue
                    changed = True
                    s2 = self.e.assume_all(s2, ((('lin', n), c),))
                elif n is not key[1]:
                    changed = True
                    if key[0] == 'disc':
                        if n.op == 'adt' and n.a[1]:
                            if n.a[1] not in c:
                                return False
                            continue
                        s2 = self.e.assume_all(s2, (((key[0], n), c),))
                    elif key[0] == 'b' and len(c) == 1:
                        s2 = self.e.assume(s2, n, next(iter(c)))
                    else:
                        s2 = self.e.assume_all(s2, (((key[0], n), c),))
                else:
                    s2 = self.e.assume_all(s2, ((key, c),))
                if s2 is None:
                    return False
            if not changed:
                break
            s2.witness, s2.binders = st.witness, st.binders
            st = s2
        # facts about equal enum values, equal options of equal calls
        if not self.any_feasible(st) or not self.congruent(st):
            return False
        return self.linear_feasible(st)

    def decided(self, st):
        """Conditions inside the facts that the facts themselves decide."""
        seen = {}
        for key in st.conds:
            for a in key[1].a if key[1].op in ('sgn', 'isv', 'not') else (key[1],):
                if isinstance(a, Node):
                    T.subnodes(a, seen)
        m = {}
        for x in seen.values():
            if x.op not in ('sgn', 'isv') or x in m:
                continue
            try:
                if self.e.assume(st.copy(), x, False) is None:
                    m[x] = T.TRUE
                elif self.e.assume(st.copy(), x, True) is None:
                    m[x] = T.FALSE
            except KeyError:
                continue
        return m

    def congruent(self, st):
        """Facts about equal results of a call with equal arguments are about the same value."""
        groups = {}
        for key, c in st.conds.items():
            if key[0] == 'disc':
                x = key[1]
                while x.op in ('fld', 'dc', 'idx'):
                    x = x.a[0]
                if x.op == 'call':
                    groups.setdefault((key[1].op, x.a[0], len(x.a[1])), []).append((key[1], c))
        budget = self.budget
        try:
            n = 0
            for ks in groups.values():
                for i, (x, c) in enumerate(ks):
                    for y, d in ks[:i]:
                        if c & d or n > 200:
                            continue
                        n += 1
                        self.budget = 1500
                        if self.equal(st, x, y):
                            return False
        finally:
            self.budget = budget
        return True

    def any_feasible(self, st):
        anys = [(k[1], next(iter(c))) for k, c in st.conds.items() if k[0] == 'b' and k[1].op == 'any' and len(c) == 1]
        if not anys:
            return True
        budget, self.budget = self.budget, 3000
        try:
            for x, tx in anys:
                for y, ty in anys:
                    if tx and not ty and (x is y or self.any_equal(st, x, y)):
                        return False
            # a witness contradicts "no element satisfies"
            ks = {}
            for key in st.conds:
                for z in T.subnodes(key[1]):
                    if z.op == 'k':
                        ks.setdefault((z.a[0], z.a[1]), set()).add(z)
            for b in st.witness + st.binders:
                ks.setdefault((b[1], b[2]), set()).add(b[0])
            for x, tx in anys:
                if tx:
                    continue
                for gens, alts in x.a[0]:
                    if len(gens) != 1:
                        continue
                    g, lo, hi, rev = gens[0]
                    for k in ks.get((lo, hi), ()):
                        m = {g: k}
                        for c, v in alts:
                            cc = tuple(((q[0], subst(q[1], m)), w) for q, w in c)
                            if not cc:
                                continue
                            if all(k not in T.subnodes(q[1]) for q, w in cc) and k is not g:
                                continue
                            if self.negate(st, cc):
                                continue
                            vv = subst(v, m)
                            if vv is T.TRUE or self.e.assume(st.copy(), vv, False) is None:
                                return False
        finally:
            self.budget = budget
        return True

    def linear_feasible(self, st):
        cons = []           # (dict mono->coef, const, strict):  sum + const >= 0 (> 0)
        atoms = set()

        def addc(d, const, strict):
            cons.append((dict(d), const, strict))
        signs = {}
        for key, c in st.conds.items():
            if key[0] != 'lin' or len(c[1]) != 1:
                continue
            d = T.p_of(key[1])
            lo, c1, hi, d1 = c[1][0]
            if lo is not None:
                addc(d, -lo, not c1)
            if hi is not None:
                addc({m: -v for m, v in d.items()}, hi, not d1)
            if len(d) == 1:
                (m, v), = d.items()
                if len(m) == 1 and m[0][1] == 1 and v == 1:
                    if lo is not None and (lo > 0 or (lo == 0 and not c1)):
                        signs[m[0][0]] = 1
                    if hi is not None and (hi < 0 or (hi == 0 and not d1)):
                        signs[m[0][0]] = -1
        monos = {m for d, _, _ in cons for m in d}
        for m in list(monos):
            for x, e in m:
                atoms.add(x)
            if len(m) > 1 or m[0][1] != 1:
                s = 1
                for x, e in m:
                    if e % 2 == 0 and e > 0:
                        if x not in signs:
                            s = 0
                    elif x in signs:
                        s *= signs[x]
                    else:
                        s = 0
                if s:
                    addc({m: s}, 0, True)
        seen = set()
        todo = list(atoms)
        while todo:
            x = todo.pop()
            if x in seen or len(seen) > 60:
                continue
            seen.add(x)
            if x.op == 'k':
                d = dict(T.p_of(sub(x, x.a[0])))
                cst = d.pop((), 0)
                addc(d, cst, False)
                if x.a[1].op != 'sym' or x.a[1].a[0] != '∞':
                    d = dict(T.p_of(sub(x.a[1], x)))
                    cst = d.pop((), 0)
                    addc(d, cst - 1, False)
                    for mm in d:
                        for y, e in mm:
                            todo.append(y)
            if x.op == 'len' or x in self.e.unsigned:
                addc({((x, 1),): 1}, 0, False)
        # Fourier-Motzkin elimination (rational relaxation), bounded
        while True:
            monos = {}
            for d, c, s in cons:
                for m in d:
                    monos[m] = monos.get(m, 0) + 1
            for d, c, s in cons:
                if not d and (c < 0 or (c == 0 and s)):
                    return False
            cons = [x for x in cons if x[0]]
            if not monos or not cons:
                return True
            m = min(monos, key=lambda q: (monos[q], tuple((x.id, e) for x, e in q)))
            pos = [x for x in cons if x[0].get(m, 0) > 0]
            ng = [x for x in cons if x[0].get(m, 0) < 0]
            rest = [x for x in cons if m not in x[0]]
            if len(pos) * len(ng) > 400 or len(rest) > 600:
                return True
            new = {}
            for d1, c1, s1 in pos:
                for d2, c2, s2 in ng:
                    a, b = d1[m], -d2[m]
                    d = {}
                    for k, v in d1.items():
                        d[k] = d.get(k, 0) + v * b
                    for k, v in d2.items():
                        d[k] = d.get(k, 0) + v * a
                    d = {k: v for k, v in d.items() if v}
                    new[tuple(sorted(((tuple((x.id, e) for x, e in k), v) for k, v in d.items()))), c1 * b + c2 * a, s1 or s2] = (d, c1 * b + c2 * a, s1 or s2)
            cons = rest + list(new.values())

    def upd_equal(self, st, a, b):
        def chain(x):
            es = []
            while x.op == 'upd':
                if x.a[1] not in es:
                    es.append(x.a[1])
                x = x.a[0]
            return es, x
        ea, ba = chain(a)
        eb, bb = chain(b)
        if ba is not bb and not self.equal(st, ba, bb):
            return False
        # index updates must come in the same order; field updates commute
        if any(e[0] == 'i' for e in ea + eb):
            if [e for e in ea if e[0] == 'i'] and len(ea) == len(eb) and all(x[0] == y[0] for x, y in zip(ea, eb)):
                x, y = a, b
                same = True
                while x.op == 'upd' and y.op == 'upd':
                    e1, e2 = x.a[1], y.a[1]
                    if e1[0] == 'i':
                        if not self.equal(st, e1[1], e2[1]):
                            same = False
                    elif e1 != e2:
                        same = False
                    if not self.equal(st, x.a[2], y.a[2]):
                        same = False
                    x, y = x.a[0], y.a[0]
                if same:
                    return True
            allidx = {e for e in ea + eb}
            if not all(e[0] == 'i' for e in allidx):
                return False
            idx = sorted(allidx, key=lambda e: e[1].id)
            for i, e in enumerate(idx):
                for f in idx[:i]:
                    if not T._distinct_index(e[1], f[1]):
                        return False
        at = lambda x, e: self.elementwise.get(proj(x, e), proj(x, e))
        return all(self.equal(st, at(a, e), at(b, e)) for e in dict.fromkeys(ea + eb))


def vocabulary(t):
    """Names of uninterpreted functions in a term, and analysis artefacts."""
    out = set()
    for x in T.subnodes(t):
        if x.op == 'call':
            out.add(x.a[0])
        elif x.op in ('fold', 'head', 'phi', 'iteradv', 'undef', 'iter', 'clo'):
            out.add('#' + x.op)
    return out

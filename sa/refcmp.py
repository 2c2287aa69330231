"""Agreement of the current program with the reviewed reference program.

Both programs are summarised by the same value-flow analysis (absint); a function agrees when every
consistent pair of a current path and a reference path returns equal values and leaves equal values
in the memory the caller can see. A comparison is decided only when both sides are expressed in the
same vocabulary; anything else is undecided and never reported.
"""
import io
import lzma
import os
import re
import tarfile

import term as T
from term import N, Node, subst, num, sym
from mir import REPO, last_seg, strip_generics
from prog import Program
from footprint import Joint
from absint import NEVER_RETURNS, Engine, Path, State, TooComplex, lvalue, read_path
from cmpterm import CaseLimit, Comparer, vocabulary

HERE = os.path.dirname(os.path.abspath(__file__))
REF = os.path.join(os.path.dirname(HERE), 'ref')
ARTEFACTS = {'#phi', '#iteradv', '#undef', '#iter'}

# Functions of the standard library of which no two are the same on the same arguments.
FAMILIES = [
    {'eq', 'eq_ignore_ascii_case', 'starts_with', 'ends_with', 'contains'},
    {'trim', 'trim_start', 'trim_end'},
    {'find', 'rfind'},
    {'split_once', 'rsplit_once'},
    {'strip_prefix', 'strip_suffix'},
    {'is_alphabetic', 'is_numeric', 'is_alphanumeric', 'is_ascii_digit', 'is_whitespace', 'is_ascii_whitespace'},
]
# Functions of the standard library, with the functions they could be rewritten from or to.
TEXT = {'find', 'rfind', 'split', 'split_once', 'rsplit_once', 'splitn', 'chars', 'char_indices', 'bytes', 'as_bytes', 'matches',
        'position', 'first', 'last', 'get', 'strip_prefix', 'strip_suffix', 'starts_with', 'ends_with', 'contains', 'eq',
        'split_terminator', 'split_at', '#any'}
TRIMS = {'trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'split_whitespace',
         'split_ascii_whitespace', 'strip_prefix', 'strip_suffix', 'is_whitespace', 'chars', 'char_indices', 'bytes', 'as_bytes', 'split'}
CASES = {'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'eq_ignore_ascii_case',
         'make_ascii_lowercase', 'make_ascii_uppercase'}
EXPRESSED_BY = {
    'contains': TEXT - {'starts_with', 'ends_with'} | {'insert', 'contains_key'},
    'starts_with': TEXT, 'ends_with': TEXT, 'strip_prefix': TEXT, 'strip_suffix': TEXT,
    'trim_matches': TRIMS, 'trim': TRIMS,
    'trim_start_matches': TRIMS - {'trim_end', 'trim_end_matches', 'strip_suffix'},
    'trim_end_matches': TRIMS - {'trim_start', 'trim_start_matches', 'strip_prefix'},
    'trim_start': TRIMS - {'trim_end', 'trim_end_matches', 'strip_suffix'},
    'trim_end': TRIMS - {'trim_start', 'trim_start_matches', 'strip_prefix'},
    **{x: CASES for x in CASES},
    'wrapping_mul': set(), 'saturating_mul': set(), 'wrapping_pow': {'pow'}, 'saturating_pow': {'pow'},
}


class MemSource:
    pass


def load_reference(contracts=False):
    """Reference program from the committed snapshot (source and MIR text), with or without its debug assertions."""
    import tempfile
    text = lzma.open(os.path.join(REF, 'contracts.txt.xz' if contracts else 'mir.txt.xz'), 'rt').read()
    d = tempfile.mkdtemp(prefix='saref')
    try:
        with tarfile.open(os.path.join(REF, 'src.tar.xz')) as t:
            t.extractall(d, filter='data')
        p = Program(text, root=d)
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    return p


def iter_outline(x):
    return tuple((tuple(g[3] for g in seg[0]), len(seg[1])) for seg in x.a[0])


def save_reference(text, contracts=None):
    os.makedirs(REF, exist_ok=True)
    if contracts is not None:
        with lzma.open(os.path.join(REF, 'contracts.txt.xz'), 'wt', preset=9) as f:
            f.write(contracts)
    with lzma.open(os.path.join(REF, 'mir.txt.xz'), 'wt', preset=9) as f:
        f.write(text)
    with tarfile.open(os.path.join(REF, 'src.tar.xz'), 'w:xz') as t:
        def flt(ti):
            ti.mtime = 0
            ti.uid = ti.gid = 0
            ti.uname = ti.gname = ''
            return ti
        t.add(os.path.join(REPO, 'src'), 'src', filter=flt)


LOC = re.compile(r'src/[\w/]+\.rs:\d+:\d+: \d+:\d+( \(#\d+\))?')


class Reference:
    """Pairs the current program with the reference one."""

    def __init__(self, cur, ref, max_states=40000):
        self.cur, self.ref = cur, ref
        self.max_states = max_states
        self.shape_changed = set()
        self.align_names()
        self.cache = {}
        self.tables = {}
        self.cover = {}         # functions inlined by the comparison that decided
        self.fp = {}
        self.visited = set()
        self.npaths = 0
        self.nstates = 0
        self.pairs = 0
        self.known_calls = self.crate_names(cur) | self.crate_names(ref)
        self.all_pairs = False
        self.foot = Joint(cur, ref)

    @staticmethod
    def crate_names(p):
        out = set(p.fns)
        for b in p.fns.values():
            if b.impl is not None:
                m = last_seg(strip_generics(b.name))
                if b.impl.trait_tree is not None:
                    out.add('%s::%s' % (last_seg(b.impl.trait_tree[1]), m))
        for (t, m) in p.defaults:
            out.add('%s::%s' % (t, m))
        return out

    # -- names of fields
    def align_names(self):
        c, r = self.cur.src, self.ref.src
        for path, fr in list(r.structs.items()):
            fc = c.structs.get(path)
            nm = last_seg(path)
            if fc is None:
                alt = [q for q in c.structs if last_seg(q) == nm]
                if len(alt) == 1:
                    fc = c.structs[alt[0]]
            if fc is None or fc == fr:
                continue
            if len(fc) != len(fr):
                self.shape_changed.add(nm)
                continue
            if set(fc) == set(fr):
                continue
            new = list(fr)
            left_c = [x for x in fc if x not in fr]
            left_r = [x for x in fr if x not in fc]
            ren = dict(zip(left_r, left_c))
            for o, n in ren.items():
                self.ref.renames[(path, o)] = n
            r.structs[path] = [ren.get(x, x) for x in fr]
        for path, vr in r.enums.items():
            vc = c.enums.get(path)
            if vc is not None and [(v, len(f)) for v, f, _ in vc] != [(v, len(f)) for v, f, _ in vr]:
                if sorted((v, len(f)) for v, f, _ in vc) != sorted((v, len(f)) for v, f, _ in vr):
                    self.shape_changed.add(last_seg(path))

    # -- fingerprints
    def fingerprint(self, prog, b):
        """Text of a body without source positions."""
        return prog.content(b)

    def same_body(self, fid):
        a, b = self.cur.fns.get(fid), self.ref.fns.get(fid)
        if a is None or b is None:
            return False
        return self.fingerprint(self.cur, a) == self.fingerprint(self.ref, b)

    def callees(self, prog, b):
        key = ('callees', id(prog), b.id)
        if key not in self.fp:
            out = set()
            for blk in b.blocks.values():
                t = blk.term
                if t is not None and t.kind == 'call':
                    bodies, kind = prog.resolve(t.a[1])
                    for x in bodies:
                        out.add(x.id)
                for s in blk.stmts:
                    if s.kind == 'assign' and s.rv[0] == 'closure':
                        cb = prog.closures.get(s.rv[1])
                        if cb is not None:
                            out.add(cb.id)
                            out |= self.callees(prog, cb)
            self.fp[key] = out
        return self.fp[key]

    def callers(self, prog):
        key = ('callers', id(prog))
        if key not in self.fp:
            m = {}
            for fid, b in prog.fns.items():
                if '{closure#' in b.name:
                    continue
                for c in self.callees(prog, b):
                    m.setdefault(c, set()).add(fid)
            self.fp[key] = m
        return self.fp[key]

    # -- outcome tables
    alias = {}

    def engine(self, prog, opaque, max_states):
        e = Engine(prog, opaque=opaque, max_states=max_states)
        if prog is self.cur:
            e.alias = self.alias
        e.foot = self.foot
        return e

    def table(self, prog, body, opaque=frozenset(), max_states=None):
        key = (id(prog), body.id, opaque)
        if key not in self.tables:
            e = self.engine(prog, opaque, max_states or self.max_states)
            try:
                ps = [q for q in (self.without_references(e, p) for p in e.run(body)) if q is not None]
                self.tables[key] = (e, ps)
            except TooComplex as x:
                self.tables[key] = (e, x)
            except RecursionError as x:
                self.tables[key] = (e, TooComplex('recursion'))
            self.nstates += e.states
            if prog is self.cur:
                self.visited |= e.visited
        e, r = self.tables[key]
        if isinstance(r, Exception):
            raise r
        return e, r

    @staticmethod
    def without_references(e, p):
        """Conditions that mention a reference to an argument mention its value instead."""
        if not any(isinstance(k[1], Node) and e._has_ref(k[1]) for k in p.conds):
            return p
        seen = {}

        def go(x):
            if isinstance(x, Node):
                if x.op == 'ref':
                    return go(read_path(x.a[0][1], x.a[1])) if x.a[0][0] == 'S' else x
                if not e._has_ref(x):
                    return x
                if x.id not in seen:
                    a = tuple(go(y) for y in x.a)
                    seen[x.id] = x if all(u is v for u, v in zip(a, x.a)) else T.rebuild(x.op, a)
                return seen[x.id]
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        s = p.state.copy()
        conds = list(s.conds.items())
        s.conds = {}
        s = e.assume_all(s, [((k[0], go(k[1])) + tuple(k[2:]), c) for k, c in conds])
        if s is None:
            return None
        return Path(p.kind, s, p.ret, p.span)

    def common_ids(self):
        if 'common' not in self.fp:
            out = set()
            for i, b in self.cur.fns.items():
                r = self.ref.fns.get(i)
                if r is not None and self.signature(b) == self.signature(r):
                    out.add(i)
            self.fp['common'] = frozenset(out)
        return self.fp['common']

    @staticmethod
    def signature(b):
        ret = re.sub(r"'[A-Za-z_]\w* ?|\{closure@[^}]*\}", '', b.ret or '')
        if re.match(r'^((std|core|itertools)::)?(\w+::)*(Filter|Map|FilterMap|Enumerate|Chain|Zip|Skip|Take|Rev|Copied|Cloned|Peekable|FlatMap|'
                    r'Flatten|Once|SkipWhile|TakeWhile|MapWhile|StepBy|Inspect|Fuse|Scan|Empty|Repeat|RepeatN|FromFn|Successors|'
                    r'(vec|array|slice|option|hash_map|hash_set|btree_map)::(Iter|IterMut|IntoIter|Drain)|Lines|Chars)(<|$)|^impl Iterator', ret):
            ret = 'impl Iterator'
        return tuple(re.sub(r"'[A-Za-z_]\w* ?|\{closure@[^}]*\}", '', ty) for _, ty in b.params), ret

    def new_ids(self):
        return set(self.cur.fns) - set(self.ref.fns)

    # -- comparison of one function
    def compare(self, fid, rid=None, assumed=frozenset()):
        """('ok'|'undecided'|'violated', detail); calls of the `assumed` functions are taken to agree."""
        key = (fid, rid, assumed)
        if key not in self.cache:
            self.cache[key] = self._compare(fid, rid or fid, assumed)
        return self.cache[key]

    def _compare(self, fid, rid, assumed):
        cb, rb = self.cur.fns.get(fid), self.ref.fns.get(rid)
        if cb is None or rb is None:
            return 'undecided', 'not present in both programs'
        if self.signature(cb) != self.signature(rb):
            return 'undecided', 'signature changed'
        small = frozenset((assumed & self.common_ids()) - {fid, rid})
        full = frozenset(self.common_ids() - {fid, rid})
        last = None
        for opaque, limit in ((small, 6000), (full, 20000)):
            self.extras = []
            try:
                ec, pc = self.table(self.cur, cb, opaque, limit)
                er, pr = self.table(self.ref, rb, opaque, limit)
            except TooComplex as x:
                last = 'too complex: %s' % x
                continue
            r = self.compare_tables(cb, ec, pc, er, pr)
            if r[0] != 'ok' and self.name_alike(pc, pr):
                try:
                    ec, pc = self.table(self.cur, cb, opaque, limit)
                    r = self.compare_tables(cb, ec, pc, er, pr)
                except TooComplex:
                    pass
            if r[0] != 'undecided':
                self.cover[fid] = frozenset(ec.visited)
                return r
            last = r[1]
            if opaque is full or small == full:
                v = self.replaced(cb, rb, opaque, limit, er, pr)
                if v:
                    self.cover[fid] = frozenset(ec.visited)
                    return 'violated', v
        if self.same_body(fid) and fid == rid:
            return 'ok', 'same code as reviewed'
        return 'undecided', last

    # -- one member used in the place of another
    def replaced(self, cb, rb, opaque, limit, er, pr):
        """The functions agree as soon as one callee or field is read for another one of the same type."""
        if self.alias or not self.extras:
            return None
        extra = frozenset().union(*self.extras)
        if len(extra) > 4:
            return None
        names, _ = self.vocab_paths(pr)
        cands = []
        ft = {**self.ref.field_types, **self.cur.field_types}
        for e in sorted(extra, key=lambda x: (x[0] == '.', x)):
            if e.startswith('.'):
                for (ty, f), t in list(ft.items()):
                    if f != e[1:]:
                        continue
                    for (ty2, g), t2 in list(ft.items()):
                        if ty2 == ty and t2 == t and g != f and '.' + g in names:
                            cands.append(({(ty, f): g}, 'field %s' % f, 'field %s' % g))
            elif e in self.known_calls:
                for v in sorted(names & self.known_calls - {e}):
                    if self.prototypes(e) & self.prototypes(v) and not self.same_function(e, v):
                        cands.append(({e: v}, e, v))
        for alias, got, want in cands[:12]:
            keep, extras, tables = self.tables, self.extras, self.cache
            self.alias, self.tables, self.cache = alias, {}, {}
            try:
                ec, pc = self.table(self.cur, cb, opaque, limit)
                r = self.compare_tables(cb, ec, pc, er, pr)
            except (TooComplex, RecursionError):
                r = ('undecided', '')
            finally:
                self.alias, self.tables, self.extras, self.cache = {}, keep, extras, tables
            if r[0] == 'ok':
                return {'function': cb.id, 'at': cb.loc(), 'difference': {'uses': got, 'instead of': want}}
        return None

    def prototypes(self, name):
        out = set()
        for b in ([self.cur.fns[name]] if name in self.cur.fns else self.trait_bodies(name)):
            out.add(self.signature(b))
        return out

    def trait_bodies(self, name):
        t, _, m = name.rpartition('::')
        return [b for b in self.cur.fns.values() if b.impl is not None and b.impl.trait_tree is not None and '{closure#' not in b.name
                and last_seg(b.impl.trait_tree[1]) == t and last_seg(strip_generics(b.name)) == m]

    def same_function(self, e, v):
        a, b = self.cur.fns.get(e), self.ref.fns.get(v)
        if a is None or b is None:
            return False
        try:
            ec, pc = self.table(self.cur, a, frozenset(), 6000)
            er, pr = self.table(self.ref, b, frozenset(), 6000)
            return self.compare_tables(a, ec, pc, er, pr)[0] == 'ok'
        except (TooComplex, RecursionError):
            return True

    extras = []

    def compare_tables(self, body, ec, pc, er, pr, loops=True):
        self.npaths += len(pc)
        e = ec
        self.import_errors = bool(re.search(r'^(\w+::)*Result<.*, (\w+::)*(Parse|Inconsistency|Import)>$', body.ret or ''))
        e.ints |= er.ints
        e.unsigned |= er.unsigned
        cmp_ = Comparer(e)
        cmp_.ref = self.ref
        cmp_.clo = self.closure_equal
        vref = None
        und = 0
        n = 0
        self.questions = {k for p in pc for k in p.conds}
        if loops:
            pr = self.canonical(cmp_, pc, pr)
        ref_by_conds = {}
        for q in pr:
            ref_by_conds.setdefault(frozenset(q.conds.items()), []).append(q)
        for p in pc:
            same = ref_by_conds.get(frozenset(p.conds.items()))
            if same and any(self.identical(p, q) for q in same):
                n += 1
                continue
            partners = same if same and not self.all_pairs else pr
            for q in partners:
                st = self.joint(e, p, q)
                if st is None:
                    continue
                n += 1
                self.pairs += 1
                cmp_.budget = 6000
                cmp_.gave_up = False
                d = self.difference(cmp_, st, p, q)
                if d is None:
                    continue
                gave_up = cmp_.gave_up
                cmp_.budget = 6000
                cmp_.gave_up = False
                if not cmp_.feasible(st):
                    continue
                if gave_up or cmp_.gave_up:
                    und += 1
                    continue
                if self.exclusive(cmp_, st, p, q):
                    continue
                if vref is None:
                    vref = self.vocab_paths(pr)
                    vref = (self.with_others(vref[0], pc, pr), vref[1])
                verdict = self.judge(p, q, d, vref)
                if verdict:
                    return 'violated', {
                        'function': body.id, 'at': body.loc(),
                        'under': [T.p_cond(c) for c in st.conds.items()][:40],
                        'difference': verdict}
                und += 1
        if und:
            d = self.loop_difference(cmp_, body, ec, pc, er, pr) if loops else None
            if d:
                return 'violated', d
            return 'undecided', '%d of %d path pairs use terms the reference does not' % (und, n)
        return 'ok', '%d paths' % len(pc)

    # -- one loop computes something else, everything around it is unchanged
    def loop_difference(self, cmp_, body, ec, pc, er, pr):
        """The tables agree once the loops of the reference are replaced by the corresponding loops of the
        current program (same carried values and initial values), and the steps or domains of such a pair differ."""
        def gather(ps):
            seen = {}
            for p in ps:
                for k in p.conds:
                    T.subnodes(k[1], seen)
                if p.ret is not None:
                    T.subnodes(p.ret, seen)
                for k, v in p.state.mem.items():
                    if k[0] == 'S' and v is not k[1]:
                        T.subnodes(v, seen)
            return set(seen.values())
        def outer_loops(ps):
            """Loops that are not part of a step of another loop."""
            seen, out = set(), set()
            stack = []
            for p in ps:
                stack.extend(k[1] for k in p.conds)
                if p.ret is not None:
                    stack.append(p.ret)
                stack.extend(v for k, v in p.state.mem.items() if k[0] == 'S' and v is not k[1])
            while stack:
                x = stack.pop()
                if isinstance(x, Node):
                    if x in seen:
                        continue
                    seen.add(x)
                    if x.op in ('fold', 'head'):
                        out.add(x)
                        stack.extend((x.a[0], x.a[1]))
                    else:
                        stack.append(x.a)
                elif isinstance(x, (tuple, frozenset)):
                    stack.extend(x)
            return out
        sb = gather(pr)
        oa, ob = outer_loops(pc), outer_loops(pr)
        only_a = sorted(oa - ob, key=lambda x: -x.id)
        only_b = sorted(ob - oa, key=lambda x: -x.id)
        if not only_a or not only_b or len(only_a) * len(only_b) > 900:
            return None
        st = State()
        m, found = {}, []
        nodes = sb
        vref = self.with_others(self.vocab_nodes(sb), pc, pr, gather(pc), sb)
        for y in only_b:
            best = None
            for x in only_a:
                if x.op != y.op:
                    continue
                cmp_.budget, cmp_.gave_up = 30000, False
                try:
                    d = self.step_difference(cmp_, st, x, y, nodes, vref)
                except CaseLimit:
                    d = None
                if d is None:
                    continue
                if d == ():
                    best = (x, d)
                    break
                if best is None:
                    best = (x, d)
            if best:
                m[y] = best[0]
                if best[1]:
                    found.append(best)
        if not found:
            return None
        cache = {}
        pr2 = []
        for q in pr:
            s = q.state.copy()
            s.mem = {k: subst(v, m, cache) for k, v in s.mem.items()}
            s.conds = {}
            s2 = cmp_.e.assume_all(s, [((k[0], subst(k[1], m, cache)), c) for k, c in q.conds.items()])
            if s2 is None:
                continue
            pr2.append(Path(q.kind, s2, subst(q.ret, m, cache) if q.ret is not None else None, q.span))
        r = self.compare_tables(body, ec, pc, er, pr2, loops=False)
        if r[0] != 'ok':
            return None
        # the innermost description
        x, d = found[-1]
        return {'function': body.id, 'at': body.loc(), 'under': [], 'difference':
                {'in': 'loop: ' + d[0], 'expected': T.pretty(d[2])[:1500], 'actual': T.pretty(d[1])[:1500]}}

    def step_difference(self, cmp_, st, x, y, nodes, vref, depth=0):
        """() when the loops are the same, (what, got, want) for a definite difference, None when they do not correspond."""
        g1, i1, r1, l1 = x.a
        g2, i2, r2, l2 = y.a
        if len(g1) != len(g2) or depth > 5:
            return None
        m = cmp_.align(g1, g2)
        dom = None
        if m is None:
            m = {}
            for (k1, lo1, hi1, v1), (k2, lo2, hi2, v2) in zip(g1, g2):
                lo2, hi2 = subst(lo2, m), subst(hi2, m)
                if k2 is not k1:
                    m[k2] = k1
                for p, q in ((lo1, lo2), (hi1, hi2)):
                    if p is not q and not cmp_.equal(st, p, q):
                        dom = ('range of the loop', p, q)
                if v1 != v2:
                    dom = ('direction of the loop', lo1, hi1)
            if dom is not None and not self.in_vocabulary(dom[1], nodes, vref):
                return None
        if not cmp_.equal(st, i1[0], i2[0]):
            return None
        # the values both loops carry; what only one of them carries takes part in its own steps only
        pairs, used = [(0, 0)], {0}
        for i in range(1, len(i1)):
            for j in [i] + list(range(1, len(i2))):
                if j not in used and j < len(i2) and cmp_.equal(st, i1[i], i2[j]):
                    pairs.append((i, j))
                    used.add(j)
                    break
        if len(pairs) < min(len(i1), len(i2)):
            return None
        n = len(i2)
        tmp = [N('sym', '!phi%d.%d' % (l1, i)) for i in range(n)]
        b1 = [N('bphi', l1, i) for i, j in pairs]
        m2 = dict(m)
        m2.update({N('bphi', l2, i): tmp[i] for i in range(n)})
        m3 = {tmp[j]: N('bphi', l1, i) for i, j in pairs}
        r1 = tuple((cc, tuple(vs[i] for i, _ in pairs)) for cc, vs in r1)
        perm = [j for _, j in pairs]

        def ren(t):
            return subst(subst(t, m2), m3)
        rows2 = tuple((tuple(((k[0], ren(k[1])), c) for k, c in cc), tuple(ren(vs[j]) for j in perm)) for cc, vs in r2)
        if not r1 or not rows2:
            return None
        m = cmp_.unify(st, tuple(cc for cc, _ in r1), tuple(cc for cc, _ in rows2))
        if m:
            rows2 = tuple((tuple(((k[0], subst(k[1], m)), c) for k, c in cc), tuple(subst(v, m) for v in vs)) for cc, vs in rows2)
        diffs = []
        keep = tuple(b1)
        for s1, v1 in cmp_.complete(st.copy(), r1, keep):
            for s2, v2 in cmp_.complete(s1, rows2, keep):
                if v1 is v2:
                    continue
                for a, b in zip(v1, v2):
                    if a is b or cmp_.equal(s2, a, b):
                        continue
                    if cmp_.gave_up or not cmp_.feasible(s2) or cmp_.gave_up:
                        if cmp_.gave_up:
                            return None
                        break
                    diffs.append((s2, a, b))
        if not diffs:
            return dom if dom is not None else ()
        if dom is not None:
            return None
        out = ()
        for s2, a, b in diffs:
            d = self.local_difference(cmp_, s2, a, b, nodes, vref, depth)
            if d is None:
                return None
            out = out or d
        if out == ():
            return ()
        conds = {}
        for s2, _, _ in diffs:
            for k in s2.conds:
                T.subnodes(k[1], conds)
        if not self.in_vocabulary(tuple(conds.values()), nodes, vref):
            return None
        return out

    def local_difference(self, cmp_, st, a, b, nodes, vref, depth=0):
        """The place where two terms of the same outline differ, if it is expressed in shared vocabulary."""
        while True:
            if a.op in ('fold', 'head') and b.op == a.op:
                return self.step_difference(cmp_, st, a, b, nodes, vref, depth + 1)
            kids = None
            if a.op == b.op and len(a.a) == len(b.a) and a.op in ('upd', 'adt', 'call', 'fld', 'idx', 'tup', 'vec', 'proj', 'len'):
                kids = []
                same = True
                for p, q in zip(a.a, b.a):
                    if p is q or p == q:
                        continue
                    if isinstance(p, Node) and isinstance(q, Node):
                        if not cmp_.equal(st, p, q):
                            kids.append((p, q))
                    elif isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q):
                        for u, v in zip(p, q):
                            if u is v or u == v:
                                continue
                            if isinstance(u, Node) and isinstance(v, Node):
                                if not cmp_.equal(st, u, v):
                                    kids.append((u, v))
                            else:
                                same = False
                    else:
                        same = False
                if not same or not kids:
                    kids = None
            if kids is None:
                break
            if len(kids) > 1:
                if len(kids) > 2 or {x for x, _ in kids} == {y for _, y in kids}:
                    return None
                ds = [self.local_difference(cmp_, st, x, y, nodes, vref, depth + 1) for x, y in kids]
                return None if any(d is None for d in ds) else next((d for d in ds if d), ())
            a, b = kids[0]
        if not self.in_vocabulary(a, nodes, vref):
            return None
        return ('value of one step', a, b)

    def in_vocabulary(self, t, nodes, vref):
        """Only calls, fields and loops the reference function also has; an unresolved part must be the very same."""
        seen = {}
        for x in (t if isinstance(t, tuple) else (t,)):
            T.subnodes(x, seen)
        if self.unresolved(seen.values(), nodes):
            return False
        used = self.vocab_nodes(seen.values()) - ARTEFACTS
        if any('adt ' + s in used for s in self.shape_changed):
            return False
        return not {x for x in used - vref if not x.startswith(('adt ', '#fold/', '#head/'))}

    def canonical(self, cmp_, pc, pr):
        """Loop summaries of the reference that equal one of the current program get its name."""
        def gather(ps):
            seen = {}
            for p in ps:
                for k in p.conds:
                    T.subnodes(k[1], seen)
            return {x for x in seen.values() if x.op in ('fold', 'head', 'any')}
        a, b = gather(pc), gather(pr)
        only_a = sorted(a - b, key=lambda x: x.id)
        only_b = sorted(b - a, key=lambda x: x.id)
        if not only_a or not only_b or len(only_a) * len(only_b) > 400:
            return pr
        m = {}
        st = State()
        for y in only_b:
            y2 = subst(y, m) if m else y
            for x in only_a:
                if x.op == y.op and len(x.a[0]) == len(y.a[0]) and (x.op == 'any' or len(x.a[1]) == len(y.a[1])):
                    cmp_.budget = 4000
                    if x is y2 or cmp_.equal(st, x, y2):
                        m[y] = x
                        break
        if not m:
            return pr
        out = []
        cache = {}
        for q in pr:
            s = q.state.copy()
            s.mem = {k: subst(v, m, cache) for k, v in s.mem.items()}
            s.conds = {}
            s2 = cmp_.e.assume_all(s, [((k[0], subst(k[1], m, cache)), c) for k, c in q.conds.items()])
            if s2 is None:
                continue
            out.append(Path(q.kind, s2, subst(q.ret, m, cache) if q.ret is not None else None, q.span))
        return out

    @staticmethod
    def identical(p, q):
        if p.kind != q.kind:
            return False
        if p.kind == 'panic':
            return True
        if p.ret is not q.ret:
            return False
        a = {k: v for k, v in p.state.mem.items() if k[0] == 'S' and v is not k[1]}
        b = {k: v for k, v in q.state.mem.items() if k[0] == 'S' and v is not k[1]}
        return a.keys() == b.keys() and all(a[k] is b[k] for k in a)

    @staticmethod
    def joint(e, p, q):
        a, b = p.conds, q.conds
        # quick test: incompatible finite facts
        for k, c in b.items():
            d = a.get(k)
            if d is not None and k[0] in ('disc', 'b') and not (c & d):
                return None
        s = p.state.copy()
        s.conds = dict(a)
        s = e.assume_all(s, b.items())
        if s is None:
            return None
        s.witness = p.state.witness + q.state.witness
        s.binders = p.state.binders + q.state.binders
        return s

    @staticmethod
    def exclusive(cmp_, st, p, q):
        """The paths cannot be taken by the same input: they decide equal questions, written differently, differently."""
        tries = [0, 0]
        big = lambda x: any(y.op in ('fold', 'head', 'vec', 'upd', 'any') for y in T.subnodes(x))
        for kp, c in p.conds.items():
            if kp in q.conds or kp[0] == 'str':
                continue
            for kq, d in q.conds.items():
                if kq[0] != kp[0] or kq in p.conds or kq[1] is kp[1]:
                    continue
                if kp[0] == 'lin':
                    if T.iv_intersect(c[1], d[1]):
                        continue
                elif c & d:
                    continue
                size = 1 if big(kp[1]) or big(kq[1]) else 0
                tries[size] += 1
                if tries[size] > (40, 12)[size]:
                    continue
                s = st.copy()
                s.conds = {k: v for k, v in st.conds.items() if k != kp and k != kq}
                cmp_.budget, cmp_.gave_up = 3000, False
                try:
                    if cmp_.equal(s, kp[1], kq[1]) and not cmp_.gave_up:
                        return True
                except RecursionError:
                    pass
        return False

    def both_errors(self, x, y):
        """Of several failing steps, which one is reported is not behaviour."""
        def err(v):
            return v is not None and v.op == 'adt' and v.a[0] == 'Result' and v.a[1] == 'Err'

        def passed_on(v):
            return T.contains(v, lambda n: n.op == 'dc' and n.a[1] == 'Err')
        return self.import_errors and err(x) and err(y) and (passed_on(x) or passed_on(y))

    import_errors = False

    def difference(self, cmp_, st, p, q):
        """None, or (what, got, want)"""
        if q.kind == 'panic':
            return None
        if p.kind == 'panic':
            return ('panic', p.span, None)
        if not cmp_.equal(st, p.ret, q.ret) and not self.both_errors(p.ret, q.ret):
            return ('returned value', p.ret, q.ret)
        a = {k: v for k, v in p.state.mem.items() if k[0] == 'S' and v is not k[1]}
        b = {k: v for k, v in q.state.mem.items() if k[0] == 'S' and v is not k[1]}
        for k in list(a) + [k for k in b if k not in a]:
            x, y = a.get(k, k[1]), b.get(k, k[1])
            if x is y:
                continue
            x, y = p.state and self.reify(cmp_.e, p.state, x), self.reify(cmp_.e, q.state, y)
            if not cmp_.equal(st, x, y):
                return ('final value of ' + T.pretty(k[1])[:200], x, y)
        return None

    @staticmethod
    def reify(e, st, v):
        return e.reify(st, v)

    def with_others(self, vref, pc, pr, sc=None, sr=None):
        """The vocabulary of the reference, and what else cannot be another way to write what it says.

        (pc, pr: paths of the two sides; sc, sr: their terms, when not those of the paths)
        """
        if sc is None:
            sc, sr = self.path_nodes(pc), self.path_nodes(pr)
        vcur = self.vocab_nodes(sc)
        minor = ('adt ', '#fold/', '#head/')
        extra = {x for x in vcur - vref - ARTEFACTS if not x.startswith(minor)}
        if not extra:
            return vref
        dropped = {x for x in vref - vcur - ARTEFACTS if not x.startswith(minor)}
        known = {x for x in extra if x[:1] == '.' and x[1:].isdigit()}      # a part of a value that is passed on whole
        for x in extra - known:
            bare = x.rpartition('::')[2]
            if x in EXPRESSED_BY or x.startswith('num::impl::') and bare in EXPRESSED_BY:
                if not {y.rpartition('::')[2] if y.startswith('num::impl') else y for y in vref} & EXPRESSED_BY.get(x, EXPRESSED_BY.get(bare)):
                    known.add(x)
                    continue
            for fam in FAMILIES:
                if x in fam and len(dropped & fam) <= 1 and self.in_place(x, fam, sc, sr):
                    known.add(x)
        if not dropped:
            known |= {x for x in extra if x.startswith('.') and self.independent(x[1:])}
        calls = lambda xs: {x for x in xs if not x.startswith('.')}
        if calls(extra - known) == {'eq'} and not calls(dropped) and self.fresh_comparison(sc, pc, pr):
            known.add('eq')
        return vref | known

    @staticmethod
    def in_place(x, fam, sc, sr):
        """Every call of `x` has the arguments of a call of another member of the family, no longer made."""
        def calls(nodes):
            out = {}
            for y in nodes:
                if y.op == 'call' and y.a[0] in fam:
                    a = frozenset(y.a[1]) if len(y.a[1]) == 2 and 'eq' in fam else y.a[1]
                    out.setdefault(a, set()).add(y.a[0])
            return out
        c, r = calls(sc), calls(sr)
        return all(len(r.get(a, ())) == 1 and not (r[a] & fs) for a, fs in c.items() if x in fs)

    def independent(self, field):
        """The field holds data that no other part of the state determines."""
        if field.isdigit():
            return False
        ft = {**self.ref.field_types, **self.cur.field_types}
        tys = [t for (_, f), t in ft.items() if f == field]

        def plain(t):
            t = t.strip()
            m = re.fullmatch(r'(?:\w+::)*Option<(.*)>', t)
            if m:
                return plain(m.group(1))
            if t == 'bool' or re.fullmatch(r'[A-Z][A-Z0-9]?F?|OF[OI]?|F[OI]?', t):
                return True
            e = self.cur.src.enums.get(t) or next((v for k, v in self.cur.src.enums.items() if last_seg(k) == last_seg(t)), None)
            return bool(e) and all(not fs for _, fs, _ in e)
        return bool(tys) and all(plain(t) for t in tys)

    @staticmethod
    def fresh_comparison(nodes, pc, pr):
        """What is compared for equality is compared in no other way."""
        known = set()
        for p in list(pc) + list(pr):
            for k in p.conds:
                if k[0] == 'disc':
                    known.add(k[1])
                elif k[0] in ('lin', 'str'):
                    known |= set(T.subnodes(k[1]))
        return not any(x.op == 'call' and x.a[0] == 'eq' and any(
            y in known or y.op not in ('fld', 'idx', 'dc', 'sym') for y in x.a[1]) for x in nodes)

    @staticmethod
    def path_nodes(ps):
        seen = {}
        for q in ps:
            for k, _ in q.conds.items():
                T.subnodes(k[1], seen)
            if q.ret is not None:
                T.subnodes(q.ret, seen)
            for k, v in q.state.mem.items():
                if k[0] == 'S':
                    T.subnodes(v, seen)
        return set(seen.values())

    def vocab_paths(self, pr):
        out = set()
        seen = {}
        for q in pr:
            for k, _ in q.conds.items():
                T.subnodes(k[1], seen)
            if q.ret is not None:
                T.subnodes(q.ret, seen)
            for k, v in q.state.mem.items():
                if k[0] == 'S':
                    T.subnodes(v, seen)
        return self.vocab_nodes(seen.values()), set(seen.values())

    def vocab_nodes(self, nodes):
        out = set()
        for x in nodes:
            if x.op == 'call':
                out.add(x.a[0])
            elif x.op in ('fold', 'head'):
                out.add('#%s/%d/%d' % (x.op, len(x.a[0]), len(x.a[1])))
            elif x.op in ('phi', 'iteradv', 'undef', 'iter'):
                out.add('#' + x.op)
            elif x.op == 'adt':
                out.add('adt ' + str(x.a[0]))
            elif x.op in ('fld',):
                out.add('.' + str(x.a[1]))
            elif x.op == 'any':
                out.add('#any')
            elif x.op == 'fn':
                out.add('fn ' + str(x.a[0]))
            elif x.op == 'clo':
                out.add('#clo')
        return out

    def judge(self, p, q, d, vref):
        """Description when the difference is definite, None when it cannot be decided."""
        what, got, want = d
        seen = {}
        for k, _ in p.conds.items():
            T.subnodes(k[1], seen)
        if what == 'panic':
            callee = got[1] if got else ''
            if not self.hard_panic(callee):
                return None
            used = self.vocab_nodes(seen.values())
        else:
            if not self.clash(got, want):
                T.subnodes(got, seen)
            used = self.vocab_nodes(seen.values())
        # an unresolved part decides nothing unless the reference has the very same one
        if self.unresolved(seen.values(), vref[1]):
            return None
        used -= ARTEFACTS
        vref = vref[0]
        extra = {x for x in used - vref if not x.startswith('adt ')}
        if any('adt ' + s in used for s in self.shape_changed):
            return None
        if extra:
            if what != 'panic':
                sw = self.swapped(got, want, extra)
                if sw:
                    return {'in': what, 'calls': sw[0], 'instead of': sw[1]}
                case = self.added_case(p, q, got, want, extra)
                if case:
                    return {'in': what, 'expected': T.pretty(want)[:1500], 'actual': T.pretty(got)[:1500], 'when': case[:600]}
            self.extras.append(frozenset(extra))
            return None
        if what == 'panic':
            return {'in': 'outcome', 'expected': 'return of ' + T.pretty(q.ret)[:500], 'actual': 'no return: %s' % got[0] if got[1] == NEVER_RETURNS else 'panic in %s at %s' % (got[1], got[0])}
        return {'in': what, 'expected': T.pretty(want)[:1500], 'actual': T.pretty(got)[:1500]}

    def added_case(self, p, q, got, want, extra):
        """All that decides the result in the reference is decided the same way, or would be on another path; a question it does not ask is asked
        in addition, and the answer to that changes the result.

        Returns the additional questions, when they are about quantities that the questions of the reference do not
        determine: what an unknown implementation of a trait of the crate answers.
        """
        for k, c in q.conds.items():
            d = p.conds.get(k)
            if d is None and k in self.questions:
                continue
            if d is None or not (T.iv_intersect(d[1], c[1]) == d[1] if k[0] == 'lin' else d == c if k[0] == 'str' else d <= c):
                return None
        clash = self.clash(got, want)
        if not clash and self.vocab_nodes(T.subnodes(got)) & extra:
            return None
        asked = []
        for k, c in p.conds.items():
            if not self.vocab_nodes(T.subnodes(k[1])) & extra:
                continue
            if k[0] not in ('lin', 'b') or not (clash or k[0] == 'b' or self.roomy(k, c)):
                return None
            asked.append((k, c))
        if not asked or not all(x in ('idiv', 'rem') or x.startswith('.') or self.abstract_method(x) for x in extra):
            return None
        if not any(self.abstract_method(x) for x in extra) and not all(k[0] == 'lin' and self.roomy(k, c) for k, c in asked):
            return None
        return '; '.join(T.p_cond(x) for x in asked)

    @staticmethod
    def roomy(k, c):
        """A quantity by itself is compared, and not singled out as nought or one."""
        return k[1].op in ('call', 'fld') and all(iv[2] is None or iv[2] > 1 for iv in c[1])

    def abstract_method(self, name):
        """A method of a trait of the crate, of a type that is not known."""
        tr, _, m = name.rpartition('::')
        return tr in self.cur.traits and tr in self.ref.traits

    @staticmethod
    def clash(got, want):
        """The terms are built from different variants or different constants, at the same place."""
        stack = [(got, want)]
        while stack:
            a, b = stack.pop()
            if a is b or not isinstance(a, Node) or not isinstance(b, Node) or a.op != b.op:
                continue
            if a.op == 'adt':
                if a.a[0] != b.a[0]:
                    continue
                if a.a[1] != b.a[1]:
                    return True
                d = dict(b.a[2])
                stack.extend((v, d[n]) for n, v in a.a[2] if n in d)
            elif a.op == 'tup' and len(a.a[0]) == len(b.a[0]):
                stack.extend(zip(a.a[0], b.a[0]))
            elif a.op == 'num' and a.a[0] != b.a[0] or a.op == 'b' and a.a != b.a:
                return True
        return False

    @staticmethod
    def unresolved(terms, nodes):
        """Some term stands for a value that was not worked out, and is not one of `nodes`."""
        outlines = None
        for x in terms:
            if x.op in ('phi', 'undef', 'iteradv') and x not in nodes:
                return True
            if x.op == 'iter' and x not in nodes:
                # an iterator handed to an unknown function: its elements are worked out, in an order of generation
                if outlines is None:
                    outlines = {iter_outline(y) for y in nodes if y.op == 'iter'}
                if iter_outline(x) not in outlines:
                    return True
        return False

    @staticmethod
    def hard_panic(callee):
        return bool(re.search(r'(unwrap|expect|unwrap_failed|panic|panic_fmt|unreachable|unimplemented|todo|begin_panic|never_returns)\b', callee or '')) \
            and 'assert' not in (callee or '') and 'bounds' not in (callee or '')

    def swapped(self, got, want, extra):
        """The terms differ exactly by calls of one crate method instead of another on the same arguments."""
        diffs = set()

        def walk(a, b, depth=0):
            if a is b:
                return True
            if isinstance(a, tuple) and isinstance(b, tuple):
                return len(a) == len(b) and all(walk(x, y, depth + 1) for x, y in zip(a, b))
            if isinstance(a, Node) and isinstance(b, Node):
                if a.op != b.op or depth > 60:
                    return False
                if a.op == 'call' and a.a[0] != b.a[0]:
                    if a.a[0] in self.known_calls and b.a[0] in self.known_calls and a.a[1] == b.a[1]:
                        diffs.add((a.a[0], b.a[0]))
                        return True
                    return False
                return len(a.a) == len(b.a) and all(walk(x, y, depth + 1) for x, y in zip(a.a, b.a))
            return a == b
        if not walk(got, want) or len(diffs) != 1:
            return None
        x, y = diffs.pop()
        return (x, y) if extra <= {x} else None

    # -- closures that escape into uninterpreted calls
    def name_alike(self, pc, pr):
        """Closures that compute the same, whatever they capture, get the same name; whether any did."""
        def closures(ps):
            seen = {}
            for q in ps:
                for k, _ in q.conds.items():
                    T.subnodes(k[1], seen)
                for _, v in q.state.mem.items():
                    T.subnodes(v, seen)
                if q.ret is not None:
                    T.subnodes(q.ret, seen)
            return {x.a[0]: tuple(n for n, _ in x.a[1]) for x in seen.values() if x.op == 'clo'}
        a, b = closures(pc), closures(pr)
        done = False
        for h, names in a.items():
            if h in self.ref.closures:
                continue
            for g, other in b.items():
                if len(names) != len(other):
                    continue
                env = tuple(sym('!e%d' % i) for i in range(len(names)))
                if self.closure_equal(None, N('clo', h, tuple(zip(names, env))), N('clo', g, tuple(zip(other, env)))):
                    self.cur.closures.setdefault(g, self.cur.closures[h])
                    for loc, n in self.cur.closure_ids.items():
                        if n == h:
                            self.cur.closure_ids[loc] = g
                    done = True
                    break
        if done:
            self.tables = {k: v for k, v in self.tables.items() if k[0] != id(self.cur)}
        return done

    def closure_equal(self, st, a, b):
        ca, cb = self.cur.closures.get(a.a[0]), self.ref.closures.get(b.a[0])
        if (ca is None or cb is None) and a.a[0] in self.ref.closures and b.a[0] in self.cur.closures:
            a, b = b, a
            ca, cb = self.cur.closures.get(a.a[0]), self.ref.closures.get(b.a[0])
        if a is b and ca is not None and cb is None:
            return True
        if ca is None or cb is None or len(a.a[1]) != len(b.a[1]) or len(ca.params) != len(cb.params):
            return False
        from framework import Undecided
        key = ('clo', a, b)
        if key in self.cache:
            return self.cache[key]
        self.cache[key] = False
        try:
            args = [sym('!c%d' % i) for i in range(len(ca.params) - 1)]
            full = frozenset(self.common_ids())
            out = []
            for prog, body, f in ((self.cur, ca, a), (self.ref, cb, b)):
                e = self.engine(prog, full, 4000)
                env = N('clo', 'env', f.a[1])
                ps = e.run(body, [env] + args)
                out.append((e, ps))
            r = self.compare_tables(ca, out[0][0], out[0][1], out[1][0], out[1][1])
            self.cache[key] = r[0] == 'ok'
        except TooComplex:
            pass
        return self.cache[key]

"""Whole-program index: definitions, impl headers, callee resolution, call graph."""
import hashlib
import re
from mir import (Source, parse_mir, dump_mir, split_top, find_close, strip_generics, last_seg,
                 base_type, MirError)

IMPL = re.compile(r'<impl at ([^:>]+):(\d+):(\d+): (\d+):(\d+)>')


# ---- types as trees ------------------------------------------------------------------------
def ty_tree(t):
    """Type text -> nested tuples; lifetimes dropped."""
    t = t.strip()
    t = re.sub(r"^for<[^>]*> ?", '', t)
    m = re.match(r"^&('[A-Za-z_]\w* |'_ )?(mut )?", t)
    if m and t.startswith('&'):
        return ('&', ty_tree(t[m.end():]))
    if t.startswith(('*const ', '*mut ')):
        return ('*', ty_tree(t.split(' ', 1)[1]))
    if t.startswith('('):
        return ('tup',) + tuple(ty_tree(x) for x in split_top(t[1:find_close(t, 0)]))
    if t.startswith('['):
        inner = t[1:find_close(t, 0)]
        p = split_top(inner, ';')
        return ('[]', ty_tree(p[0]))
    if t.startswith('<'):
        e = find_close(t, 0)
        inner = t[1:e]
        k = _top_as(inner)
        if k is not None:
            return ('proj', ty_tree(inner[:k]), ty_tree(inner[k + 4:]), t[e + 1:])
        return ('q', t)
    if t.startswith(('impl ', 'dyn ')):
        return ('dyn', t)
    if t.startswith('{'):
        return ('closure', t)
    if '<' in t:
        i = t.index('<')
        e = find_close(t, i)
        name = t[:i].rstrip(':')
        args = [a for a in split_top(t[i + 1:e]) if not a.startswith("'")]
        rest = t[e + 1:]
        if rest.startswith('::'):
            name = name + rest
        return ('n', name) + tuple(ty_tree(a.split(' = ', 1)[1] if ' = ' in a else a) for a in args)
    return ('n', t)


def _top_as(s):
    depth, i = 0, 0
    while i < len(s):
        c = s[i]
        if c in '([{<':
            depth += 1
        elif c in ')]}' or (c == '>' and s[i - 1] not in '-='):
            depth -= 1
        elif depth == 0 and s.startswith(' as ', i):
            return i
        i += 1
    return None


def path_match(a, b):
    """Either path is a suffix of the other (on whole segments)."""
    if a == b:
        return True
    x, y = a.split('::'), b.split('::')
    n = min(len(x), len(y))
    return x[-n:] == y[-n:]


def unify(pat, vars_, t):
    """Does pattern (impl side, with generic params vars_) cover type t?"""
    if pat[0] == 'n' and len(pat) == 2 and pat[1] in vars_:
        return True
    if pat[0] == 'proj' or t[0] == 'proj':
        return pat[0] == t[0] or pat[0] == 'proj'
    if pat[0] != t[0]:
        return False
    if pat[0] == 'n':
        if not path_match(pat[1], t[1]):
            return False
        if len(pat) != len(t):
            # defaulted trait parameters (Mul == Mul<Self>)
            return len(pat) == 2 or len(t) == 2
        return all(unify(p, vars_, q) for p, q in zip(pat[2:], t[2:]))
    if pat[0] in ('q', 'dyn', 'closure'):
        return pat[1] == t[1] or pat[0] == 'dyn'
    if len(pat) != len(t):
        return False
    return all(unify(p, vars_, q) for p, q in zip(pat[1:], t[1:]))


OPERATORS = {o + a for o in ('Add', 'Sub', 'Mul', 'Div', 'Rem') for a in ('', 'Assign')} | {'Neg', 'Not'}


class Impl:
    def __init__(self, header):
        self.header = header
        h = header.strip()
        h = re.sub(r'^(default\s+|unsafe\s+)*impl', '', h, count=1).strip()
        self.vars = set()
        if h.startswith('<'):
            e = find_close(h, 0)
            for g in split_top(h[1:e]):
                g = re.sub(r'^const ', '', g)
                if not g.startswith("'"):
                    self.vars.add(re.match(r'\w+', g).group(0))
            h = h[e + 1:].strip()
        # cut where clause at top level
        h = _cut_where(h)
        k = _top_for(h)
        if k is None:
            self.trait, self.self_ty = None, h.strip()
        else:
            self.trait, self.self_ty = h[:k].strip(), h[k + 5:].strip()
        self.trait_tree = ty_tree(self.trait) if self.trait else None
        self.self_tree = ty_tree(self.self_ty)

    def name(self):
        s = strip_generics(base_or(self.self_ty))
        s = last_seg(s) if not s.startswith(('(', '[', '<')) else s
        ref = '&' if self.self_ty.startswith('&') else ''
        if self.trait:
            return '<%s%s as %s>' % (ref, s, norm_ws(last_seg_generic(self.trait)))
        return s


def norm_ws(s):
    s = re.sub(r"'[A-Za-z_]\w*(, )?", '', s)
    return re.sub(r'\s+', ' ', s).replace('<>', '').strip()


def base_or(t):
    t = t.strip()
    while t.startswith('&'):
        t = re.sub(r"^&('[a-z_]\w* |'_ )?(mut )?", '', t)
    return t


def last_seg_generic(t):
    i = t.find('<')
    return last_seg(t[:i]) + t[i:] if i >= 0 else last_seg(t)


def _cut_where(h):
    depth = 0
    for m in re.finditer(r'\bwhere\b', h):
        return h[:m.start()].strip()
    return h


def _top_for(h):
    depth, i = 0, 0
    while i < len(h):
        c = h[i]
        if c in '([{<':
            depth += 1
        elif c in ')]}' or (c == '>' and h[i - 1] not in '-='):
            depth -= 1
        elif depth == 0 and h.startswith(' for ', i) and not h.startswith(' for<', i):
            return i
        i += 1
    return None


class Program:
    def __init__(self, text=None, root=None):
        self.src = Source(root)
        self.renames = {}
        self.bodies = parse_mir(text if text is not None else dump_mir())
        self.by_raw = {}
        self.fns = {}          # canonical id -> Body
        self.consts = {}
        self.impls = {}        # span text -> Impl
        self.methods = {}      # method name -> [(Impl, Body, id)]
        self.inherent = {}     # (type, method) -> Body
        self.defaults = {}     # (trait, method) -> Body
        self.free = {}         # last segment -> [Body]
        self.field_types = {}  # (type, field) -> type, for the fields the analysis met
        self.closures = {}     # closure location text -> Body
        self.traits = {last_seg(t) for t in self.src.traits}
        for b in self.bodies:
            self._index(b)
        self._name_closures()

    def _index(self, b):
        raw = b.name
        impls = list(IMPL.finditer(raw))
        cid = raw
        if impls:
            m = impls[0]
            key = m.group(0)
            if key not in self.impls:
                h = self.src.impl_header(m.group(1), *[int(m.group(k)) for k in range(2, 6)])
                if h and h.lstrip().startswith(('impl', 'default', 'unsafe')):
                    self.impls[key] = Impl(h)
                else:
                    self.impls[key] = None     # derive expansion: span is the derive ident
            imp = self.impls[key]
            rest = raw[m.end():].lstrip(':')
            if imp is None:
                # derived impl: name it by file position's trait ident + following item
                cid = self._derived(m) + '::' + rest
            else:
                cid = imp.name() + '::' + rest
        b.impl = self.impls.get(impls[0].group(0)) if impls else None
        b.module = Source.module(impls[0].group(1)) if impls else None
        b.file = impls[0].group(1) if impls else None
        b.id = cid
        k = 2
        while b.kind == 'fn' and b.id in self.fns:
            b.id = '%s#%d' % (cid, k)
            k += 1
        self.by_raw[raw] = b
        if b.kind == 'const':
            self.consts.setdefault(raw, b)
            return
        self.fns[b.id] = b
        if '{closure#' in raw:
            if b.params:
                m = re.search(r'\{closure@[^}]*\}', b.params[0][1])
                if m:
                    self.closures[m.group(0)] = b
            return
        meth = last_seg(strip_generics(raw)) if not raw.endswith('>') else raw
        if b.impl is not None:
            self.methods.setdefault(meth, []).append(b)
        elif not impls:
            segs = raw.split('::')
            if len(segs) >= 2 and segs[-2] in self.traits:
                self.defaults[(segs[-2], segs[-1])] = b
            else:
                self.free.setdefault(segs[-1], []).append(b)

    LOC = re.compile(r'(src/)?[\w/]+\.rs:\d+:\d+: \d+:\d+( \(#\d+\))?')

    def _name_closures(self):
        """Closures are named by their content (nested closures and constants included), not their position."""
        groups = {}
        for b in self.bodies:
            n = b.name
            while True:
                i = max(n.rfind('::{closure#'), n.rfind('::promoted['))
                if i < 0:
                    break
                n = n[:i]
                groups.setdefault(n, []).append(b)
        self.groups = groups
        self.closure_ids = {}
        for loc, b in list(self.closures.items()):
            h = '{closure@%s}' % hashlib.sha1(self.content(b).encode()).hexdigest()[:12]
            self.closure_ids[loc] = h
            self.closures.setdefault(h, b)

    def content(self, b):
        """Text of a body with its closures and constants, without source positions."""
        cache = self.__dict__.setdefault('_content', {})
        if b.name not in cache:
            out = [self.LOC.sub('@', b.raw_text())]
            for g in sorted(self.groups.get(b.name, []), key=lambda x: x.name):
                out.append(g.name[len(b.name):])
                out.append(self.LOC.sub('@', g.raw_text()))
            cache[b.name] = '\n'.join(out)
        return cache[b.name]

    def closure_name(self, loc):
        return self.closure_ids.get(loc, loc)

    def _derived(self, m):
        file, line, col = m.group(1), int(m.group(2)), int(m.group(3))
        s = self.src.files.get(file)
        if not s:
            return '<derived>'
        lines = s[1].split('\n')
        trait = re.match(r'\w*', lines[line - 1][col - 1:]).group(0)
        tail = '\n'.join(lines[line - 1:])
        mm = re.search(r'\b(struct|enum)\s+(\w+)', tail)
        return '<%s as %s(derived)>' % (mm.group(2) if mm else '?', trait)

    # ---- resolution ----------------------------------------------------------------------
    def resolve(self, callee, caller=None):
        """callee text -> (list of candidate bodies, kind). kind: 'direct' | 'dispatch' | 'ext'"""
        cache = self.__dict__.setdefault('_rcache', {})
        if callee in cache:
            return cache[callee]
        r = self._resolve(callee)
        cache[callee] = r
        return r

    @staticmethod
    def receiver(b, im, selft):
        """An operator implemented for an alias of a type: the compiled receiver has the type itself."""
        if last_seg(strip_generics(im.trait_tree[1])) not in OPERATORS or not b.params:
            return False
        own = b.params[0][1].strip()
        if b.name.endswith('_assign'):
            own = re.sub(r"^&('\w+ )?mut ", '', own)
        return unify(ty_tree(own), im.vars, selft)

    def _resolve(self, callee):
        c = callee.strip()
        if c.startswith('<'):
            e = find_close(c, 0)
            inner = c[1:e]
            rest = c[e + 1:].lstrip(':')
            meth = strip_generics(rest)
            k = _top_as(inner)
            if k is None:
                # <impl X>::m or <[T]>::m
                return ([], 'ext')
            selft, trait = ty_tree(inner[:k]), ty_tree(inner[k + 4:])
            cands = []
            for b in self.methods.get(meth, []):
                im = b.impl
                if im.trait_tree is None:
                    continue
                if unify(im.trait_tree, im.vars, trait) and (unify(im.self_tree, im.vars, selft) or
                                                             im.trait_tree[0] == 'n' and self.receiver(b, im, selft)):
                    cands.append(b)
            if cands:
                # specialisation: prefer a non-blanket impl when the self type is concrete
                spec = [b for b in cands if not (b.impl.self_tree[0] == 'n' and b.impl.self_tree[1] in b.impl.vars)]
                if spec and len(spec) < len(cands):
                    cands = spec
                return (cands, 'direct' if len(cands) == 1 else 'dispatch')
            tname = last_seg(strip_generics(trait[1])) if trait[0] == 'n' else None
            selfname = selft[1] if selft[0] == 'n' else None
            is_param = selfname is not None and '::' not in selfname and len(selft) == 2 and (
                selfname == 'Self' or re.match(r'^[A-Z][A-Z0-9]*$', selfname))
            if selft[0] == 'proj':
                is_param = True
            if tname in self.traits:
                d = self.defaults.get((tname, meth))
                if is_param:
                    al = [b for b in self.methods.get(meth, [])
                          if b.impl.trait_tree and last_seg(b.impl.trait_tree[1]) == tname]
                    if d:
                        al = al + [d]
                    return (al, 'dispatch')
                if d:
                    return ([d], 'direct')
            return ([], 'ext')
        p = strip_generics(c)
        segs = p.split('::')
        meth = segs[-1]
        # `module::<impl Type<..>>::method` printing
        m = re.match(r'^(.*)<impl (.*)>::([^:<]+)(::<.*>)?$', c)
        if m:
            ty = ty_tree(m.group(2))
            cands = [b for b in self.methods.get(m.group(3), [])
                     if b.impl.trait_tree is None and unify(b.impl.self_tree, b.impl.vars, ty)]
            if cands:
                return (cands, 'direct' if len(cands) == 1 else 'dispatch')
            return ([], 'ext')
        if len(segs) >= 2:
            tname = '::'.join(segs[:-1])
            cands = []
            for b in self.methods.get(meth, []):
                im = b.impl
                if im.trait_tree is not None:
                    continue
                st = im.self_tree
                if st[0] == 'n' and path_match(st[1], tname):
                    cands.append(b)
            if len(cands) > 1:
                # several impl blocks or same-named types: use module path
                full = [b for b in cands if path_match((b.module or '') + '::' + last_seg(b.impl.self_tree[1]), tname)]
                if full:
                    cands = full
                if len(cands) > 1:
                    # disambiguate by generic args of the callee
                    i = c.rfind('::' + meth)
                    t = ty_tree(c[:i])
                    u = [b for b in cands if unify(b.impl.self_tree, b.impl.vars, t)]
                    if u:
                        cands = u
            if cands:
                return (cands, 'direct' if len(cands) == 1 else 'dispatch')
            if segs[-2] in self.traits and (segs[-2], meth) in self.defaults:
                return ([self.defaults[(segs[-2], meth)]], 'direct')
        cands = self.free.get(meth, [])
        if cands:
            u = [b for b in cands if path_match(strip_generics(b.name), p)]
            if u:
                return (u, 'direct' if len(u) == 1 else 'dispatch')
        return ([], 'ext')

    # ---- lookup for checks ------------------------------------------------------------------
    def find(self, self_ty, method, trait=None, module=None):
        out = []
        for b in self.methods.get(method, []):
            im = b.impl
            st = im.self_tree
            while st[0] == '&':
                st = st[1]
            if st[0] == 'n':
                nm = last_seg(st[1])
            else:
                nm = None
            if self_ty is not None and nm != self_ty:
                continue
            if (trait is None) != (im.trait is None):
                continue
            if trait is not None and last_seg(im.trait_tree[1]) != trait:
                continue
            if module is not None and not (b.module or '').endswith(module):
                continue
            out.append(b)
        return out

    def find_free(self, name, module=None):
        return [b for b in self.free.get(name, [])
                if module is None or module in b.name or (b.loc() or '').find(module.replace('::', '/')) >= 0]

    def adt_path(self, ty, table):
        """Resolve the nominal type text to a declared struct/enum path."""
        n = base_type(ty)
        c = self.__dict__.setdefault('_adt', {})
        key = (n, id(table))
        if key in c:
            return c[key]
        r = None
        if n in table:
            r = n
        else:
            cand = [k for k in table if path_match(k, n)]
            if len(cand) == 1:
                r = cand[0]
            elif cand:
                # prefer longest common suffix
                cand.sort(key=lambda k: -len(k))
                full = [k for k in cand if k.endswith('::' + n)]
                r = full[0] if len(full) == 1 else (full or cand)[0]
                if len(full) != 1 and len(set(map(str, (table[k] for k in (full or cand))))) > 1:
                    r = ('ambiguous', tuple(full or cand))
        c[key] = r
        return r

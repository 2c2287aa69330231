"""What a function may read and write behind the references it is given (interprocedural, flow-insensitive).

For every reference parameter: the field paths that may be read, and those that may be written. Everything
that is not understood (library calls, calls dispatched through a trait, references stored or returned)
counts as reading the whole location, and as writing it when the reference allows that."""
import re
from absint import Engine

DEPTH = 3
MUT = re.compile(r"^&('[A-Za-z_]\w* |'_ )?mut ")


PLAIN = set('''usize isize u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 bool char f32 f64 Vec Option std vec option IntoIter OF F
String alloc string cmp Ordering core'''.split())


def plain(ty):
    """Values of the type hold no references (numbers and owned collections of numbers)."""
    return "'" not in ty and '&' not in ty and '*' not in ty and all(x in PLAIN for x in re.findall(r'[A-Za-z_]\w*', ty))


class Foot:
    def __init__(self):
        self.reads, self.writes, self.ret, self.retmut = {}, {}, {}, {}


def cover(paths):
    """Minimal set of paths, none below another."""
    ps = sorted(set(paths), key=len)
    out = []
    for p in ps:
        if not any(p[:len(q)] == q for q in out):
            out.append(p)
    return tuple(sorted(out))


class Footprints:
    def __init__(self, prog):
        self.prog = prog
        self.done = {}
        self.active = []

    def field_name(self, ty, variant, i):
        return Engine.field_name(self, ty, variant, i)

    def of(self, body):
        """{parameter number: (paths read, paths written)} for the reference parameters."""
        f = self.summary(body)
        out = {}
        for i, (l, ty) in enumerate(body.params):
            if not ty.strip().startswith('&'):
                continue
            if f is None:
                out[i] = (((),), ((),) if MUT.match(ty.strip()) else ())
            else:
                r = cover(f.reads.get(i, set()) | f.ret.get(i, set()))
                w = cover(f.writes.get(i, set()) | f.retmut.get(i, set())) if MUT.match(ty.strip()) else ()
                out[i] = (r, w)
        return out

    def summary(self, body):
        if body.id in self.done:
            return self.done[body.id]
        if body.id in self.active or len(self.active) > 60:
            return None
        self.active.append(body.id)
        try:
            f = self.analyse(body)
        except Exception:
            f = None
        self.active.pop()
        self.done[body.id] = f
        return f

    def place(self, body, alias, place):
        """(aliases of the location as [(parameter, path, mutable, through a reference)], type)"""
        base = alias.get(place[0], set())
        ty = body.locals.get(place[0], '?')
        variant = None
        names, stop, deref, shared = (), False, False, False
        for p in place[1]:
            if p[0] == 'deref':
                deref = True
                t = ty.strip()
                m = re.match(r"^(&('[A-Za-z_]\w* )?(mut )?|\*const |\*mut )", t)
                if m:
                    ty = t[m.end():]
                    if t.startswith('&') and not m.group(3):
                        shared = True
                else:
                    stop = True
            elif p[0] == 'field':
                if deref and not stop and variant is None:
                    names += (self.field_name(ty, variant, p[1]),)
                elif deref:
                    stop = True
                ty, variant = p[2], None
            elif p[0] == 'downcast':
                variant = p[1]
                if deref:
                    stop = True
            else:
                if deref:
                    stop = True
                t = ty.strip()
                ty = t[1:-1].rsplit(';', 1)[0] if t.startswith('[') else '?'
        out = {(i, (q + names)[:DEPTH], m and not shared) for i, q, m in base} if deref else set(base)
        return out, deref, ty

    def analyse(self, body):
        f = Foot()
        alias = {}
        env = None
        if '{closure#' in body.name and body.params:
            env = body.params[0][0]
        for i, (l, ty) in enumerate(body.params):
            t = ty.strip()
            if l == env:
                continue
            if t.startswith('&'):
                alias[l] = {(i, (), bool(MUT.match(t)))}
        changed = [True]

        def read(als):
            for i, p, m in als:
                f.reads.setdefault(i, set()).add(p)

        def write(als):
            for i, p, m in als:
                f.writes.setdefault(i, set()).add(p)
                f.reads.setdefault(i, set()).add(p)

        def escape(als):
            read(als)
            write({a for a in als if a[2]})

        def put(place, als):
            if not als:
                return
            _, deref, _ = self.place(body, alias, place)
            if deref:
                escape(als)
                return
            if plain(body.locals.get(place[0], '?')):
                return
            s = alias.setdefault(place[0], set())
            if not als <= s:
                s |= als
                changed[0] = True

        def location(place):
            """Aliases of a place: captured variables of a closure count as parameters ('c', number)."""
            if env is not None and place[0] == env:
                projs = list(place[1])
                k = 0
                while k < len(projs) and projs[k][0] == 'deref':
                    k += 1
                if k >= len(projs) or projs[k][0] != 'field':
                    return {(('c', None), (), True)}, True, '?'
                idx, ty = projs[k][1], projs[k][2]
                sub = (-1, tuple(projs[k + 1:]))
                alias[-1] = {(('c', idx), (), True)}
                body.locals[-1] = ty
                # a captured value that is not a reference is the location itself
                if not sub[1]:
                    return {(('c', idx), (), True)}, not ty.strip().startswith('&'), ty
                if not ty.strip().startswith('&'):
                    sub = (-1, (('deref',),) + sub[1])
                    body.locals[-1] = '&mut ' + ty
                return self.place(body, alias, sub)
            return self.place(body, alias, place)

        def operand(op):
            """Aliases carried by the value; reads what is copied out."""
            if op[0] != 'place':
                return set()
            als, deref, ty = location(op[1])
            if not deref:
                return set() if plain(ty) else als
            if ty.strip().startswith('&'):
                return {(i, p, m and bool(MUT.match(ty.strip()))) for i, p, m in als}
            read(als)
            return set()

        blocks = [b for b in body.blocks.values() if not b.cleanup]
        while changed[0]:
            changed[0] = False
            for blk in blocks:
                for s in blk.stmts:
                    if s.kind != 'assign':
                        continue
                    rv = s.rv
                    k = rv[0]
                    got = set()
                    if k == 'use' or k == 'cast':
                        got = operand(rv[1])
                    elif k == 'ref':
                        als, deref, _ = location(rv[2])
                        m = 'mut' in rv[1] or 'raw' in rv[1]
                        got = {(i, p, mm and m) for i, p, mm in als} if deref else als
                    elif k == 'bin':
                        escape(operand(rv[2]) | operand(rv[3]))
                    elif k == 'un':
                        escape(operand(rv[2]))
                    elif k in ('disc', 'len'):
                        als, deref, _ = location(rv[1])
                        read(als)
                    elif k in ('tuple', 'array'):
                        for o in rv[1]:
                            got |= operand(o)
                    elif k == 'repeat':
                        got = operand(rv[1])
                    elif k == 'agg':
                        for _, o in rv[2]:
                            got |= operand(o)
                    elif k == 'closure':
                        caps = [operand(o) for _, o in rv[2]]
                        cb = self.prog.closures.get(rv[1])
                        cf = self.summary(cb) if cb is not None else None
                        for n, als in enumerate(caps):
                            if cf is None or ('c', None) in cf.reads or ('c', None) in cf.writes:
                                escape(als)
                                got |= als
                                continue
                            for i, p, m in als:
                                for q in cf.reads.get(('c', n), ()):
                                    read({(i, (p + q)[:DEPTH], m)})
                                for q in cf.writes.get(('c', n), ()):
                                    if m:
                                        write({(i, (p + q)[:DEPTH], m)})
                                for q in cf.ret.get(('c', n), ()):
                                    read({(i, (p + q)[:DEPTH], m)})
                                for q in cf.retmut.get(('c', n), ()):
                                    if m:
                                        write({(i, (p + q)[:DEPTH], m)})
                    else:
                        raise ValueError(k)
                    als, deref, _ = location(s.place)
                    if deref and als:
                        write(als)
                        escape(got)
                    else:
                        put(s.place, got)
                t = blk.term
                if t is None:
                    continue
                if t.kind in ('switch', 'assert'):
                    escape(operand(t.a[0]))
                elif t.kind == 'call':
                    dest, callee, args, ret = t.a
                    carried = [operand(a) for a in args]
                    bodies, kind = self.prog.resolve(callee)
                    cf = self.summary(bodies[0]) if kind == 'direct' else None
                    got = set()
                    for n, als in enumerate(carried):
                        if not als:
                            continue
                        byref = kind == 'direct' and n < len(bodies[0].params) and bodies[0].params[n][1].strip().startswith('&')
                        if cf is None or not byref:
                            escape(als)
                            got |= als
                            continue
                        for i, p, m in als:
                            for q in cf.reads.get(n, ()):
                                read({(i, (p + q)[:DEPTH], m)})
                            for q in cf.writes.get(n, ()):
                                if m:
                                    write({(i, (p + q)[:DEPTH], m)})
                            got |= {(i, (p + q)[:DEPTH], False) for q in cf.ret.get(n, ())}
                            got |= {(i, (p + q)[:DEPTH], m) for q in cf.retmut.get(n, ())}
                    if dest is not None:
                        als, deref, _ = location(dest)
                        if deref and als:
                            write(als)
                            escape(got)
                        else:
                            put(dest, got)
        for i, p, m in alias.get(0, ()):
            f.ret.setdefault(i, set()).add(p)
            if m:
                f.retmut.setdefault(i, set()).add(p)
        if env is not None and any(i == ('c', None) for d in (f.reads, f.writes, f.ret) for i in d):
            return None
        return f


class Joint:
    """Footprints valid for two programs at once."""
    def __init__(self, *progs):
        self.foots = [Footprints(p) for p in progs]
        self.cache = {}

    def __call__(self, fid):
        if fid not in self.cache:
            out = {}
            for fs in self.foots:
                b = fs.prog.fns.get(fid)
                if b is None:
                    continue
                for i, (r, w) in fs.of(b).items():
                    o = out.get(i, ((), ()))
                    out[i] = (cover(o[0] + r), cover(o[1] + w))
            # a path written is read as well: the parts of it that stay depend on what was there
            for i, (r, w) in out.items():
                out[i] = (cover(r + w), w)
            self.cache[fid] = out
        return self.cache[fid]

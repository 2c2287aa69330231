"""C25: exact, deterministic, self-contained. Effect, type and order rules over the whole library.

R1 effects      no call of anything that reads or changes the outside world, except reading the imported file
R2 globals      no mutable or lazily computed static, no thread local
R3 memory       no unsafe code and no address turned into a number
R4 exactness    binary floating point appears only where the API names it (reading a file as f64, a comparison helper)
R5 hash order   what is taken out of a hash map or set in iteration order is consumed in a way that does not show the order
"""
import re

from mir import last_seg, strip_generics

FORBIDDEN = [
    (r'\b(std|core)::time::(Instant|SystemTime)|\b(Instant|SystemTime)::(now|elapsed|duration_since)', 'clock'),
    (r'\b(std::)?env::(var|vars|var_os|args|args_os|current_dir|temp_dir|set_var)\b', 'environment'),
    (r'\b(rand|getrandom|fastrand|oorandom)::|\bthread_rng\b|\bRandomState\b.*(hash_one|build_hasher)|\bDefaultHasher\b', 'randomness'),
    (r'\b(std::)?process::(exit|abort|id|Command)\b|\bCommand::(new|spawn|output)\b', 'process'),
    (r'\b(std::)?thread::(spawn|sleep|scope|park|current|yield_now|Builder)\b|\brayon\b|\bavailable_parallelism\b', 'threads'),
    (r'\bnet::|\b(TcpStream|UdpSocket|TcpListener)::', 'network'),
    (r'\bstdin\b|\bread_line\b', 'standard input'),
    (r'\bfs::(write|remove_\w+|create_\w+|rename|copy|read_dir|set_permissions|hard_link|metadata|read|read_to_string|canonicalize)\b'
     r'|\b(File|OpenOptions)::\w+|\bDirBuilder::', 'file system'),
    (r'\bget_unchecked(_mut)?\b|\btransmute(_copy)?\b|\bunwrap_unchecked\b|\bunreachable_unchecked\b|\bfrom_utf8_unchecked\b'
     r'|\bassume_init\b|\bMaybeUninit\b|\bset_len\b|\bfrom_raw(_parts(_mut)?)?\b|\bptr::(read|write|copy|swap)\b|\bzeroed\b', 'unchecked memory'),
    (r'\bAtomic(Usize|Bool|Isize|U64|I64|U32|I32|Ptr)\b|\b(Mutex|RwLock|OnceLock|OnceCell|LazyLock|LazyCell|LocalKey|Once)\b::|'
     r'\bLocalKey\b', 'shared state'),
    (r'\b(RefCell|Cell|UnsafeCell)::<|\b(RefCell|Cell|UnsafeCell)::\w', 'interior mutability'),
]
FORBIDDEN = [(re.compile(p), w) for p, w in FORBIDDEN]

# the importer opens and reads the file it is given
FILE_READERS = re.compile(r'^import(::\{closure#\d+\})?$')
FILE_CALLS = re.compile(r'File::open\b|\bFile\b.*\b(metadata|read_to_string)\b|Read>::read_to_string|fs::read_to_string\b')

FLOAT_OK = [
    (re.compile(r'<f(32|64) as (\w+::)*Parse>'), 'reading a file as binary floating point, when the caller asks for it'),
    (re.compile(r'is_probably_equal_to'), 'comparison helper whose interface takes a fraction'),
    (re.compile(r'from_test_data'), 'constructor from numbers of any kind, used to write tests'),
]

HASH = r'(?:std::collections::)?(?:hash_(?:map|set)::)?Hash(?:Map|Set)'
SOURCE = re.compile(r'^%s::(?:<.*>)?::?(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|extract_if|'
                    r'difference|union|intersection|symmetric_difference)\b' % HASH)
INTO = re.compile(r'^<&?(?:\'\w+ )?(?:mut )?%s<.* as IntoIterator>::into_iter' % HASH)
ADAPTERS = {'map', 'filter', 'filter_map', 'cloned', 'copied', 'chain', 'flat_map', 'flatten', 'inspect', 'into_iter', 'by_ref',
            'from', 'into', 'fuse'}
UNORDERED = {'all', 'any', 'count', 'sum', 'product', 'min', 'max', 'len', 'size_hint', 'is_empty'}
COLLECTIONS = re.compile(r'(?:^|[<:, ])(?:std::collections::)?(HashSet|HashMap|BTreeSet|BTreeMap)<')

# loops and other uses reviewed by hand: what they do does not depend on the order: (container, places, reason)
REVIEWED = {
    'Tableau::new_with_basis': ('HashSet', 1, 'the order in which the columns of a basis are listed; every use of the tableau is '
                                'indexed by column'),
    'Updates::into_changes': ('HashMap', 2, 'inserted in a map by key; a list of (row, relation) that is applied row by row'),
    'GeneralForm::update_values_that_remain': ('HashMap', 2, 'each key is written to its own constraint or variable'),
    'GeneralForm::make_b_non_negative': ('HashSet', 1, 'each row is changed on its own'),
    'Solution::is_probably_equal_to': ('HashMap', 1, 'counts the keys that agree'),
}


def outer(fid):
    return re.sub(r'::\{closure#.*', '', fid)


def is_test(b, fid):
    return '/test' in b.loc() or '::test::' in fid or '::tests::' in fid


def hash_sites(b):
    """[(span, callee, verdict)] of the places where a hash container is walked in its own order."""
    sorted_roots = set()
    copies = {}
    for blk in b.blocks.values():
        for s in blk.stmts:
            if s.kind == 'assign' and not s.place[1]:
                copies[s.place[0]] = s.rv
    out = []
    calls = [(n, blk.term) for n, blk in b.blocks.items() if blk.term is not None and blk.term.kind == 'call']

    def locals_in(x):
        r = set()

        def go(y):
            if isinstance(y, tuple):
                if len(y) == 2 and isinstance(y[0], int) and isinstance(y[1], tuple):
                    r.add(y[0])
                for z in y:
                    go(z)
            elif isinstance(y, list):
                for z in y:
                    go(z)
        go(x)
        return r
    uses = {}
    for n, t in calls:
        for a in t.a[2]:
            for m in re.findall(r'_(\d+)', str(a)) if isinstance(a, str) else map(str, locals_in(a)):
                uses.setdefault(int(m), []).append(('call', t))
    for blk in b.blocks.values():
        for s in blk.stmts:
            if s.kind == 'assign':
                for m in locals_in(s.rv):
                    uses.setdefault(m, []).append(('assign', s))

    def sorted_later(d):
        todo, seen = [d], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for kind, u in uses.get(x, ()):
                if kind == 'assign':
                    if not u.place[1]:
                        todo.append(u.place[0])
                else:
                    m = last_seg(strip_generics(u.a[1]))
                    if m.startswith('sort'):
                        return True
                    if m in ('deref_mut', 'as_mut_slice', 'index_mut', 'deref') and u.a[0] is not None:
                        todo.append(u.a[0][0])
        return False

    def consume(d, depth=0):
        """None when every use of the iterator in local d hides the order, else a description."""
        if depth > 12:
            return 'long chain'
        bad = None
        n = 0
        for kind, u in uses.get(d, ()):
            n += 1
            if kind == 'assign':
                if not u.place[1]:
                    r = consume(u.place[0], depth + 1)
                    bad = bad or r
                else:
                    bad = bad or 'stored'
                continue
            callee = u.a[1]
            m = last_seg(strip_generics(callee))
            dest = u.a[0][0] if u.a[0] is not None else None
            if m in UNORDERED:
                continue
            if m in ('collect', 'from_iter', 'extend'):
                tys = callee if m != 'collect' else callee.rsplit('collect', 1)[1]
                if m == 'collect' and COLLECTIONS.search(tys[:60]):
                    continue
                if m == 'extend' and re.match(r'^<?&?(mut )?(std::collections::)?(HashSet|HashMap|BTreeSet|BTreeMap)', callee.lstrip('<')):
                    continue
                if m == 'collect' and sorted_later(dest):
                    continue
                bad = bad or '%s in iteration order' % m
                continue
            if m in ADAPTERS:
                bad = bad or consume(dest, depth + 1)
                continue
            bad = bad or m
        if n == 0:
            return 'returned or stored'
        return bad
    for n, t in calls:
        c = t.a[1]
        m = SOURCE.match(c)
        if m or INTO.match(c):
            if m and m.group(1) == 'retain':
                out.append((t.span, c, None))
                continue
            out.append((t.span, c, consume(t.a[0][0]) if t.a[0] is not None else 'unknown'))
        elif re.search(r'(?:extend|zip|chain|from_iter|flat_map|eq|partial_cmp|cmp)::<[^<]*%s<' % HASH, c):
            out.append((t.span, c, 'passed on as an iterator'))
    return out


def float_uses(b):
    out = set()
    for l, ty in b.locals.items():
        if re.search(r'(?<![\w])f(32|64)(?![\w])', ty):
            out.add('value of type %s' % re.search(r'f(32|64)', ty).group(0))
    for blk in b.blocks.values():
        t = blk.term
        if t is not None and t.kind == 'call':
            m = last_seg(strip_generics(t.a[1]))
            if re.match(r'^(to|from)_f(32|64)$', m) or re.search(r'(?<![\w])f(32|64)(?![\w])', t.a[1]):
                out.add('call of %s' % m)
    return out


def check(c):
    prog = c.prog
    fns = {f: b for f, b in prog.fns.items() if not is_test(b, f)}
    c.rule('effects', 'no call whose resolved path names a clock, the environment, randomness, a process, a thread, the network, '
           'standard input, a file (except opening and reading the imported one), unchecked memory or shared state')
    c.rule('globals', 'no `static mut`, no static with interior mutability, no thread local')
    c.rule('memory', 'no `unsafe` in library code, no reference or pointer cast to a number')
    c.rule('exactness', 'no local variable or call of binary floating point type outside %d named functions' % len(FLOAT_OK))
    c.rule('hash order', 'every iterator over a hash container ends in an order-independent consumer, in a sorted list, or in a '
           'reviewed place')
    sites = 0
    bad = {}
    floats = {}
    for fid, b in fns.items():
        for blk in b.blocks.values():
            t = blk.term
            if t is not None and t.kind == 'call':
                sites += 1
                callee = t.a[1]
                for rx, what in FORBIDDEN:
                    if rx.search(callee):
                        if what == 'file system' and FILE_READERS.match(last_seg(outer(fid))) and FILE_CALLS.search(callee):
                            continue
                        if what == 'unchecked memory' and not (t.span or '').startswith('src/'):
                            continue        # the expansion of another crate's macro
                        bad.setdefault((what, outer(fid), last_seg(strip_generics(callee))), t.span)
            for s in blk.stmts:
                if s.kind == 'assign' and re.search(r'PointerExpose|PointerFromExposed|\bas usize \(Transmute|\(FnPtrToPtr', s.raw):
                    bad.setdefault(('address as a number', outer(fid), ''), s.span)
        if not any(rx.search(fid) for rx, _ in FLOAT_OK):
            for u in float_uses(b):
                floats.setdefault((outer(fid), u), b.loc())
    c.call_sites += sites
    c.functions |= set(fns)
    for (what, f, callee), span in sorted(bad.items()):
        c.violated('effects:%s:%s:%s' % (what, f, callee), '%s used in %s (%s)' % (what, f, callee), span)
    if not bad:
        c.ok('effects', '%d call sites in %d functions' % (sites, len(fns)))
    for (f, u), span in sorted(floats.items()):
        c.violated('exactness:%s:%s' % (f, u), '%s in %s' % (u, f), span)
    if not floats:
        c.ok('exactness', '%d functions' % len(fns))
    # source level: unsafe and statics
    n = 0
    found = []
    for rel, (src, blank) in prog.src.files.items():
        if '/test' in rel or rel.endswith('/tests.rs'):
            continue
        n += 1
        cut = [(m.start(), close(blank, m.end() - 1)) for m in re.finditer(r'#\[cfg\(test\)\]\s*(?:pub )?mod \w+ \{', blank)]
        for m in re.finditer(r'\bunsafe\b|\bstatic\s+mut\b|\bthread_local!|\blazy_static!|'
                             r'\bstatic\s+\w+\s*:[^=;]*(?:Cell|Mutex|RwLock|Atomic|Once|Lazy)', blank):
            if any(a <= m.start() <= z for a, z in cut):
                continue
            found.append((rel, m.group(0).split()[0], blank.count('\n', 0, m.start()) + 1))
    for rel, what, line in found:
        c.violated('memory:%s:%s' % (what, rel), '`%s` in %s' % (what, rel), '%s:%d' % (rel, line))
    if not found:
        c.ok('memory', '%d source files' % n)
        c.ok('globals', '%d source files' % n)
    # hash order
    rest = {}
    for kind, n, _ in REVIEWED.values():
        rest[kind] = rest.get(kind, 0) + n
    total, open_ = 0, {}
    for fid, b in fns.items():
        for span, callee, why in hash_sites(b):
            total += 1
            if why is not None:
                open_.setdefault(kind_of(callee), []).append((outer(fid), span, last_seg(strip_generics(callee)), why))
    worse = False
    for k, xs in sorted(open_.items()):
        if len(xs) > rest.get(k, 0):
            new = [x for x in xs if re.sub(r'#\d+$', '', x[0]) not in REVIEWED] or xs
            for f, span, m, why in new:
                worse = True
                c.violated('hash order:%s:%s' % (f, k), 'the iteration order of a hash container shows: %s of %s, then %s' % (m, k, why), span)
    if not worse:
        c.ok('hash order', '%d iterations over hash containers, %d reviewed by hand' % (total, sum(map(len, open_.values()))))


def kind_of(callee):
    m = re.search(r'Hash(?:Map|Set)<', callee) or re.search(r'Hash(?:Map|Set)::<', callee)
    return m.group(0).split('<')[0].rstrip(':') if m else '?'


def close(b, o):
    d = 0
    for i in range(o, len(b)):
        if b[i] == '{':
            d += 1
        elif b[i] == '}':
            d -= 1
            if d == 0:
                return i
    return len(b)

"""Parser for rustc's textual MIR (`-Zunpretty=mir`) plus a tiny item index of the source.

Everything the analyses know about /repo comes through this module: the MIR of every function
that the real toolchain produced from the current tree, with resolved callees, and the struct /
enum declarations (field names, variant order).
"""
import os
import re
import subprocess
import sys

REPO = os.environ.get('SA_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class MirError(Exception):
    pass


# ------------------------------------------------------------------------------------------
# building
# ------------------------------------------------------------------------------------------
def dump_mir(assertions='off'):
    """Compile /repo's library with the pinned toolchain and return the MIR text."""
    target = os.environ.get('SA_TARGET', os.path.join(VERIF, '.build'))
    os.makedirs(target, exist_ok=True)
    out = os.path.join(target, 'relp.%d.mir' % os.getpid())
    env = dict(os.environ)
    env.update(HOME='/root', RUSTUP_TOOLCHAIN='nightly-2025-03-01', CARGO_NET_OFFLINE='true',
               CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_TARGET_DIR=target,
               CARGO_INCREMENTAL='0', RUSTFLAGS='')
    env['PATH'] = '/root/.cargo/bin:' + env.get('PATH', '')
    env.pop('CARGO_ENCODED_RUSTFLAGS', None)
    lock = os.path.join(REPO, 'Cargo.lock')
    made_lock = False
    if not os.path.exists(lock) and os.path.exists('/opt/vp/Cargo.lock'):
        import shutil
        shutil.copy('/opt/vp/Cargo.lock', lock)
        made_lock = True
    cmd = ['cargo', 'rustc', '--lib', '--offline', '--', '-Zunpretty=mir', '-Zmir-opt-level=0',
           '-Zmir-include-spans=yes', '-Cdebug-assertions=' + assertions, '-Coverflow-checks=on',
           '-Awarnings', '-o', out]
    try:
        r = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=800)
    finally:
        if made_lock:
            os.unlink(lock)
    if not os.path.exists(out):
        raise MirError('building /repo failed:\n' + r.stdout[-4000:])
    with open(out) as f:
        text = f.read()
    os.unlink(out)
    return text


# ------------------------------------------------------------------------------------------
# lexical helpers
# ------------------------------------------------------------------------------------------
def skip_string(s, i):
    """s[i] == '"': index after the closing quote."""
    i += 1
    n = len(s)
    while i < n:
        c = s[i]
        if c == '\\':
            i += 2
            continue
        if c == '"':
            return i + 1
        i += 1
    return n


OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}
CLOSE = {')', ']', '}', '>'}


def split_top(s, sep=','):
    """Split at top-level separators, respecting (), [], {}, <> and strings."""
    parts, depth, start, i, n = [], 0, 0, 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = skip_string(s, i)
            continue
        if c == "'" and i + 2 < n and (s[i + 2] == "'" or s[i + 1] == '\\'):
            # char literal
            j = s.find("'", i + 2)
            i = j + 1
            continue
        if c in '([{<':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == '>':
            if i > 0 and s[i - 1] in '-=':
                pass
            else:
                depth -= 1
        elif c == sep and depth == 0:
            parts.append(s[start:i].strip())
            start = i + 1
        i += 1
    last = s[start:].strip()
    if last:
        parts.append(last)
    return parts


def find_close(s, i):
    """s[i] is an opening bracket; index of its match."""
    depth, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = skip_string(s, i)
            continue
        if c == "'" and i + 2 < n and (s[i + 2] == "'" or s[i + 1] == '\\'):
            j = s.find("'", i + 2)
            i = j + 1
            continue
        if c in '([{<':
            depth += 1
        elif c in ')]}' or (c == '>' and s[i - 1] not in '-='):
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise MirError('unbalanced: ' + s[:200])


def strip_generics(path):
    """`Updates::<'_, OF>::b` -> `Updates::b` (angle brackets removed, except a leading <A as B>)."""
    out, depth, i = [], 0, 0
    lead = path.startswith('<')
    if lead:
        j = find_close(path, 0)
        return path[:j + 1] + strip_generics(path[j + 1:])
    while i < len(path):
        c = path[i]
        if c == '{':
            j = find_close(path, i)
            if depth == 0:
                out.append(path[i:j + 1])
            i = j + 1
            continue
        if c == '<':
            if depth == 0 and out[-2:] == [':', ':']:
                del out[-2:]
            depth += 1
        elif c == '>' and path[i - 1] not in '-=':
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return ''.join(out)


def base_type(ty):
    """Nominal part of a type: references, lifetimes and generics stripped."""
    ty = ty.strip()
    while True:
        m = re.match(r"^(&('[a-z_]+ )?(mut )?|\*const |\*mut |mut )", ty)
        if not m:
            break
        ty = ty[m.end():].strip()
    if ty.startswith('std::boxed::Box<') or ty.startswith('Box<'):
        inner = ty[ty.index('<') + 1:find_close(ty, ty.index('<'))]
        return base_type(split_top(inner)[0])
    if ty and ty[0] in '([{<':
        return ty
    return strip_generics(ty)


def last_seg(path):
    return path.rsplit('::', 1)[-1]


# ------------------------------------------------------------------------------------------
# places, operands, rvalues
# ------------------------------------------------------------------------------------------
# place: (local, (proj, ...)) with proj one of
#   ('deref',) ('field', idx, ty) ('downcast', variant) ('index', local) ('cindex', k, from_end)
#   ('subslice', a, b)
def parse_place(s, i=0):
    """Parse a place at s[i:]; returns (place, next index)."""
    if s[i] == '(':
        if s[i + 1] == '*':
            inner, j = parse_place(s, i + 2)
            if s[j] != ')':
                raise MirError('deref place: ' + s)
            place, j = (inner[0], inner[1] + (('deref',),)), j + 1
        else:
            inner, j = parse_place(s, i + 1)
            if s.startswith(' as ', j):
                e = _close_paren(s, i)
                variant = s[j + 4:e]
                place, j = (inner[0], inner[1] + (('downcast', last_seg(variant)),)), e + 1
            elif s[j] == '.':
                m = re.compile(r'\.(\d+): ').match(s, j)
                if not m:
                    raise MirError('field place: ' + s[i:i + 200])
                e = _close_paren(s, i)
                place, j = (inner[0], inner[1] + (('field', int(m.group(1)), s[m.end():e]),)), e + 1
            else:
                raise MirError('place: ' + s[i:i + 200])
    else:
        m = re.compile(r'_(\d+)').match(s, i)
        if not m:
            raise MirError('place: ' + s[i:i + 200])
        place, j = (int(m.group(1)), ()), m.end()
    while j < len(s) and s[j] == '[':
        e = s.index(']', j)
        idx = s[j + 1:e]
        m = re.match(r'^_(\d+)$', idx)
        if m:
            p = ('index', int(m.group(1)))
        else:
            m = re.match(r'^(-?)(\d+) of (\d+)$', idx)
            if m:
                p = ('cindex', int(m.group(2)), m.group(1) == '-')
            else:
                m = re.match(r'^(\d*):(-?)(\d*)$', idx) or re.match(r'^(\d*)\.\.(-?)(\d*)$', idx)
                if not m:
                    raise MirError('index: ' + idx)
                p = ('subslice', int(m.group(1) or 0), idx)
        place, j = (place[0], place[1] + (p,)), e + 1
    return place, j


def _close_paren(s, i):
    return find_close(s, i)


def parse_operand(s):
    s = s.strip()
    for kw in ('move ', 'copy ', 'deref_copy '):
        if s.startswith(kw):
            place, j = parse_place(s, len(kw))
            return ('place', place)
    if s.startswith('const '):
        return ('const', s[6:].strip())
    if re.match(r'^\(?[*(]*_\d+', s):
        place, j = parse_place(s, 0)
        return ('place', place)
    # function item / unit-like constant
    return ('const', s)


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr', 'Eq', 'Lt',
          'Le', 'Ne', 'Ge', 'Gt', 'Cmp', 'Offset', 'AddWithOverflow', 'SubWithOverflow',
          'MulWithOverflow', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked', 'ShlUnchecked',
          'ShrUnchecked'}
UNOPS = {'Not', 'Neg', 'PtrMetadata', 'Len', 'discriminant', 'SizeOf', 'AlignOf'}


def parse_rvalue(s):
    s = s.strip()
    m = re.match(r'^([A-Za-z]+)\(', s)
    if m and s.endswith(')'):
        name = m.group(1)
        inner = s[m.end():-1]
        if name in BINOPS:
            a, b = split_top(inner)
            return ('bin', name, parse_operand(a), parse_operand(b))
        if name in ('discriminant', 'Len'):
            place, _ = parse_place(inner.strip())
            return ('disc' if name == 'discriminant' else 'len', place)
        if name in UNOPS:
            return ('un', name, parse_operand(inner))
    s = s.replace(' (fake) ', ' ')
    if s.startswith('&'):
        m = re.match(r'^&(raw const |raw mut |mut |\(fake\) |\(fake shallow\) |fake shallow |fake )?', s)
        place, _ = parse_place(s, m.end())
        return ('ref', (m.group(1) or '').strip(), place)
    if s.startswith(('move ', 'copy ', 'deref_copy ', 'const ')):
        # cast?
        m = re.match(r'^(move|copy|deref_copy) ', s)
        if m:
            _, j = parse_place(s, m.end())
            if s.startswith(' as ', j):
                k = s.rfind(' (')
                return ('cast', parse_operand(s[:j]), s[j + 4:k], s[k + 2:-1])
            return ('use', parse_operand(s))
        m = re.match(r'^(const (?:[^"<>]|<[^>]*>)+?) as (.+) \(([A-Za-z]+(\(.*\))?)\)$', s)
        if m:
            return ('cast', parse_operand(m.group(1)), m.group(2), m.group(3))
        return ('use', parse_operand(s))
    if s == '()':
        return ('tuple', ())
    if s.startswith('['):
        inner = s[1:-1]
        parts = split_top(inner, ';')
        if len(parts) == 2:
            return ('repeat', parse_operand(parts[0]), parts[1])
        return ('array', tuple(parse_operand(x) for x in split_top(inner)))
    if s.startswith('{closure@') or s.startswith('{coroutine'):
        e = find_close(s, 0)
        loc = s[:e + 1]
        rest = s[e + 1:].strip()
        fields = ()
        if rest.startswith('{'):
            fields = tuple((f.split(':', 1)[0].strip(), parse_operand(f.split(':', 1)[1]))
                           for f in split_top(rest[1:-1]))
        elif rest.startswith('('):
            fields = tuple((str(k), parse_operand(f)) for k, f in enumerate(split_top(rest[1:-1])))
        return ('closure', loc, fields)
    if re.match(r'^\(', s) and s.endswith(')'):
        inner = s[1:-1]
        if re.match(r'^\(*\*?\(*_\d+', s) is None or split_top(inner)[0].startswith(('move', 'copy', 'const')):
            return ('tuple', tuple(parse_operand(x) for x in split_top(inner)))
    if re.match(r'^\(*\*?\(*_\d+', s):
        return ('use', parse_operand(s))
    # aggregates: Path { f: op } / Path(op, ..) / Path
    if s.endswith('}'):
        i = _agg_brace(s)
        if i is not None:
            path = s[:i].strip()
            fields = tuple((f.split(':', 1)[0].strip(), parse_operand(f.split(':', 1)[1]))
                           for f in split_top(s[i + 1:-1]))
            return ('agg', path, fields)
    if s.endswith(')'):
        i = _agg_paren(s)
        if i is not None:
            path = s[:i].strip()
            fields = tuple((str(k), parse_operand(f)) for k, f in enumerate(split_top(s[i + 1:-1])))
            return ('agg', path, fields)
    return ('agg', s, ())


def _agg_brace(s):
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == '<' or c == '(' or c == '[':
            i = find_close(s, i) + 1
            continue
        if c == '{':
            return i
        i += 1
    return None


def _agg_paren(s):
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == '<' or c == '[' or c == '{':
            i = find_close(s, i) + 1
            continue
        if c == '(':
            return i
        i += 1
    return None


# ------------------------------------------------------------------------------------------
# bodies
# ------------------------------------------------------------------------------------------
class Stmt:
    __slots__ = ('place', 'rv', 'raw', 'span', 'kind')

    def __init__(self, kind, place, rv, raw, span):
        self.kind, self.place, self.rv, self.raw, self.span = kind, place, rv, raw, span


class Term:
    __slots__ = ('kind', 'a', 'raw', 'span')

    def __init__(self, kind, a, raw, span):
        self.kind, self.a, self.raw, self.span = kind, a, raw, span


class Block:
    __slots__ = ('stmts', 'term', 'cleanup', '_raw')

    def __init__(self):
        self.stmts, self.term, self.cleanup, self._raw = [], None, False, []


class Body:
    def __init__(self, header):
        self.header = header
        self.raw = []
        self.name = None
        self.kind = 'fn'
        self.params = []      # [(local, type)]
        self.ret = None
        self._parsed = False
        self._locals = {}
        self._debug = {}
        self._blocks = {}

    # lazily parsed parts
    @property
    def locals(self):
        self._parse()
        return self._locals

    @property
    def debug(self):
        self._parse()
        return self._debug

    @property
    def blocks(self):
        self._parse()
        return self._blocks

    def param_names(self):
        names = {}
        for n, (loc, projs) in self.debug.items():
            if not projs and loc not in names:
                names[loc] = n
        return [names.get(l, '_%d' % l) for l, _ in self.params]

    def raw_text(self):
        return self.ret_text() + '\n'.join(l.strip() for l, _ in self.raw if not l.strip().startswith(('scope ', 'debug ', '}')))

    def ret_text(self):
        return '%s -> %s\n' % (', '.join(t for _, t in self.params), self.ret)

    def loc(self):
        """file:line of the first statement with a source span in the repository."""
        for b in self.blocks.values():
            for s in b.stmts + ([b.term] if b.term else []):
                if s.span and s.span.startswith('src/'):
                    return s.span
        return '?'

    def _parse(self):
        if self._parsed:
            return
        self._parsed = True
        cur = None
        for l, ty in self.params:
            self._locals[l] = ty
        self._locals[0] = self.ret or '()'
        for line, span in self.raw:
            t = line.strip()
            if not t or t == '}' or t.startswith('scope '):
                continue
            if cur is None or t.startswith('bb'):
                m = re.match(r'^let (mut )?_(\d+): (.*);$', t)
                if m:
                    self._locals[int(m.group(2))] = m.group(3)
                    continue
                m = re.match(r'^debug ([^ ]+) => (.*);$', t)
                if m:
                    if re.match(r'^[(*]*_\d', m.group(2)):
                        try:
                            self._debug.setdefault(m.group(1), parse_place(m.group(2))[0])
                        except MirError:
                            pass
                    continue
                m = re.match(r'^bb(\d+)( \(cleanup\))?: \{$', t)
                if m:
                    cur = Block()
                    cur.cleanup = bool(m.group(2))
                    self._blocks[int(m.group(1))] = cur
                    continue
                if cur is None:
                    continue
            self._line(cur, t, span)

    def _line(self, blk, t, span):
        if t.startswith(('StorageLive', 'StorageDead', 'nop', 'FakeRead', 'PlaceMention',
                         'AscribeUserType', 'Coverage', 'Retag', 'ConstEvalCounter', 'Deinit',
                         'BackwardIncompatibleDropHint')):
            return
        if not t.endswith(';'):
            # terminators with block lists always end with ';' too
            raise MirError('line: ' + t)
        t = t[:-1]
        if t == 'return':
            blk.term = Term('return', None, t, span)
        elif t == 'unreachable':
            blk.term = Term('unreachable', None, t, span)
        elif t == 'resume' or t.startswith('terminate') or t.startswith('abort'):
            blk.term = Term('resume', None, t, span)
        elif t.startswith('goto -> '):
            blk.term = Term('goto', int(t[10:]), t, span)
        elif t.startswith('switchInt('):
            e = find_close(t, len('switchInt'))
            op = parse_operand(t[len('switchInt('):e])
            m = re.search(r'-> \[(.*)\]$', t[e:])
            targets, other = [], None
            for part in m.group(1).split(', '):
                k, v = part.split(': ')
                if k == 'otherwise':
                    other = int(v[2:])
                else:
                    targets.append((int(k), int(v[2:])))
            blk.term = Term('switch', (op, targets, other), t, span)
        elif t.startswith('drop('):
            m = re.search(r'return: bb(\d+)', t)
            e = find_close(t, 4)
            blk.term = Term('drop', (parse_place(t[5:e])[0], int(m.group(1)) if m else None), t, span)
        elif t.startswith('assert('):
            e = find_close(t, 6)
            m = re.search(r'success: bb(\d+)', t[e:])
            args = split_top(t[7:e])
            cond = args[0]
            neg = cond.startswith('!')
            blk.term = Term('assert', (parse_operand(cond[1:] if neg else cond), not neg,
                                       args[1] if len(args) > 1 else '', args[2:],
                                       int(m.group(1)) if m else None), t, span)
        elif ' -> [return: bb' in t or ' -> unwind ' in t or re.search(r' -> \[unwind', t) or ' -> bb' in t:
            k = t.rfind(' -> ')
            m = re.search(r'return: bb(\d+)', t[k:]) or re.match(r'^ -> bb(\d+)$', t[k:])
            ret = int(m.group(1)) if m else None
            head = t[:k]
            dest = None
            if re.match(r'^[(*]*_\d', head):
                place, j = parse_place(head)
                if head[j:j + 3] != ' = ':
                    raise MirError('call dest: ' + head)
                dest, head = place, head[j + 3:]
            # callee(args): find last top-level paren group
            if not head.endswith(')'):
                raise MirError('call: ' + head)
            i = _call_paren(head)
            callee = head[:i]
            args = [parse_operand(x) for x in split_top(head[i + 1:-1])]
            blk.term = Term('call', (dest, callee, args, ret), t, span)
        elif t.startswith('discriminant('):
            e = find_close(t, len('discriminant'))
            place, _ = parse_place(t[len('discriminant('):e])
            blk.stmts.append(Stmt('setdisc', place, int(t.split(' = ')[-1]), t, span))
        elif t.startswith('assume('):
            return
        else:
            place, j = parse_place(t)
            if t[j:j + 3] != ' = ':
                raise MirError('stmt: ' + t)
            blk.stmts.append(Stmt('assign', place, parse_rvalue(t[j + 3:]), t, span))

    def succs(self, b):
        t = self.blocks[b].term
        if t is None:
            return []
        k = t.kind
        if k == 'goto':
            return [t.a]
        if k == 'switch':
            r = [x for _, x in t.a[1]]
            if t.a[2] is not None:
                r.append(t.a[2])
            return r
        if k == 'drop':
            return [t.a[1]] if t.a[1] is not None else []
        if k == 'assert':
            return [t.a[4]] if t.a[4] is not None else []
        if k == 'call':
            return [t.a[3]] if t.a[3] is not None else []
        return []


def _call_paren(head):
    """Index of the '(' opening the argument list: the one matching the final ')'."""
    i, n, last = 0, len(head), None
    while i < n:
        c = head[i]
        if c == '"':
            i = skip_string(head, i)
            continue
        if c in '([{<':
            e = find_close(head, i)
            if c == '(' and e == n - 1:
                return i
            i = e + 1
            continue
        i += 1
    raise MirError('call paren: ' + head)


SPAN = re.compile(r'\s+// (?:in )?scope \d+ at (.*)$')
COMMENT = re.compile(r'^\s+(//|\|)')


def parse_mir(text):
    bodies = []
    cur = None
    for line in text.split('\n'):
        if cur is None:
            if line.startswith(('fn ', 'const ', 'static ')) and line.endswith('{'):
                cur = Body(line)
            elif line.startswith(('fn ', 'const ', 'static ')):
                # strip trailing comment
                m = re.match(r'^(.*\{)\s*//.*$', line)
                if m:
                    cur = Body(m.group(1))
            continue
        if line == '}' or line.startswith('}'):
            bodies.append(cur)
            cur = None
            continue
        if 'Storage' in line and line.lstrip().startswith('Storage'):
            continue
        if COMMENT.match(line):
            continue
        m = SPAN.search(line)
        if m:
            cur.raw.append((line[:m.start()], m.group(1)))
        else:
            cur.raw.append((line, None))
    for b in bodies:
        parse_header(b)
    return bodies


def parse_header(b):
    h = b.header
    if h.startswith('fn '):
        b.kind = 'fn'
        s = h[3:]
        # name up to the '(' that opens parameters: scan skipping <> groups
        i, n = 0, len(s)
        while i < n:
            c = s[i]
            if c in '<{[':
                i = find_close(s, i) + 1
                continue
            if c == '(':
                break
            i += 1
        b.name = s[:i]
        e = find_close(s, i)
        for p in split_top(s[i + 1:e]):
            m = re.match(r'^_(\d+): (.*)$', p, re.S)
            b.params.append((int(m.group(1)), m.group(2)))
        m = re.match(r'^ -> (.*) \{$', s[e + 1:])
        b.ret = m.group(1) if m else '()'
    else:
        b.kind = 'const'
        s = h.split(' ', 1)[1]
        if s.startswith('mut '):
            s = s[4:]
        # NAME: TYPE = {
        i, n = 0, len(s)
        while i < n:
            c = s[i]
            if c in '<{[(':
                i = find_close(s, i) + 1
                continue
            if c == ':' and s[i + 1] == ' ':
                break
            i += 1
        b.name = s[:i]
        b.ret = re.sub(r' = \{$', '', s[i + 2:])


# ------------------------------------------------------------------------------------------
# source items: structs, enums, impl headers
# ------------------------------------------------------------------------------------------
def blank_source(src):
    """Replace comments and string contents by spaces (same length and line structure)."""
    out = list(src)
    i, n = 0, len(src)

    def wipe(a, b):
        for k in range(a, b):
            if out[k] != '\n':
                out[k] = ' '
    while i < n:
        c = src[i]
        if src.startswith('//', i):
            j = src.find('\n', i)
            j = n if j < 0 else j
            wipe(i, j)
            i = j
        elif src.startswith('/*', i):
            depth, j = 1, i + 2
            while j < n and depth:
                if src.startswith('/*', j):
                    depth += 1
                    j += 2
                elif src.startswith('*/', j):
                    depth -= 1
                    j += 2
                else:
                    j += 1
            wipe(i, j)
            i = j
        elif c == '"':
            j = skip_string(src, i)
            wipe(i + 1, j - 1)
            i = j
        elif c == 'r' and re.match(r'r#*"', src[i:i + 6]) and not (i and (src[i - 1].isalnum() or src[i - 1] == '_')):
            m = re.match(r'r(#*)"', src[i:])
            j = src.find('"' + m.group(1), i + m.end())
            j = n if j < 0 else j + 1 + len(m.group(1))
            wipe(i + 1, j)
            i = j
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^'\\])'", src[i:i + 12])
            if m:
                wipe(i + 1, i + m.end() - 1)
                i += m.end()
            else:
                i += 1
        else:
            i += 1
    return ''.join(out)


class Source:
    def __init__(self, root=None):
        self.root = root or REPO
        self.files = {}
        self.structs = {}   # full path -> [field names]
        self.enums = {}     # full path -> [(variant, [field names], discriminant)]
        self.traits = set()
        base = os.path.join(self.root, 'src')
        for d, _, fs in os.walk(base):
            for f in sorted(fs):
                if f.endswith('.rs'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.root)
                    with open(p, encoding='utf-8') as fh:
                        s = fh.read()
                    self.files[rel] = (s, blank_source(s))
        for rel, (_, b) in self.files.items():
            self._items(rel, b)

    @staticmethod
    def module(rel):
        m = rel[len('src/'):-3]
        parts = m.split('/')
        if parts[-1] == 'mod':
            parts.pop()
        if parts == ['lib']:
            parts = []
        return '::'.join(parts)

    def _items(self, rel, b):
        mod = self.module(rel)
        for m in re.finditer(r'\b(struct|enum|trait)\s+([A-Za-z_]\w*)', b):
            kind, name = m.group(1), m.group(2)
            full = (mod + '::' if mod else '') + name
            if kind == 'trait':
                self.traits.add(full)
                continue
            # body start: skip generics and where
            i = m.end()
            depth = 0
            n = len(b)
            while i < n:
                c = b[i]
                if c == '<':
                    i = find_close(b, i) + 1
                    continue
                if c in '{(;':
                    break
                i += 1
            if i >= n or b[i] == ';':
                if kind == 'struct':
                    self.structs.setdefault(full, [])
                continue
            e = find_close(b, i)
            inner = b[i + 1:e]
            if kind == 'struct':
                self.structs.setdefault(full, self._fields(b[i], inner))
            else:
                vs, disc = [], 0
                for part in split_top(inner):
                    part = re.sub(r'#\s*\[[^\]]*\]', ' ', part).strip()
                    if not part:
                        continue
                    mm = re.match(r'^([A-Za-z_]\w*)\s*', part)
                    vn, rest = mm.group(1), part[mm.end():]
                    fs = []
                    md = re.search(r'=\s*(-?\d+)\s*$', rest)
                    if md:
                        disc = int(md.group(1))
                        rest = rest[:md.start()].strip()
                    if rest and rest[0] in '({':
                        fs = self._fields(rest[0], rest[1:find_close(rest, 0)])
                    vs.append((vn, fs, disc))
                    disc += 1
                self.enums.setdefault(full, vs)

    @staticmethod
    def _fields(br, inner):
        parts = [re.sub(r'#\s*\[[^\]]*\]', ' ', p).strip() for p in split_top(inner)]
        parts = [p for p in parts if p]
        if br == '(':
            return [str(k) for k in range(len(parts))]
        names = []
        for p in parts:
            m = re.match(r"^(pub\s*(\([^)]*\))?\s*)?(r#)?([A-Za-z_]\w*)\s*:", p)
            names.append(m.group(4) if m else '?')
        return names

    def impl_header(self, file, line, col, line2, col2):
        s = self.files.get(file)
        if not s:
            return None
        lines = s[0].split('\n')
        blank = s[1].split('\n')
        if line == line2:
            return blank[line - 1][col - 1:col2 - 1]
        out = [blank[line - 1][col - 1:]] + blank[line:line2 - 1] + [blank[line2 - 1][:col2 - 1]]
        return ' '.join(x.strip() for x in out)

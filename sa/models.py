"""Abstract semantics of the library functions the analysed code calls (std, num_traits, relp_num, itertools,
fifo_set, ...), as transfer functions of the value-flow analysis. Anything not modelled becomes an
uninterpreted term (for `&mut` arguments: an uninterpreted update), and is counted in `unmodelled`."""
import functools
import re
from fractions import Fraction

from mir import split_top, strip_generics, last_seg, find_close, base_type
from prog import _top_as
import term as T
from term import (N, Node, num, adt, tup, sym, call, fld, pay, proj, some, TRUE, FALSE, UNIT,
                  sgn, bnot, add, sub, mul, neg, div, length, vec, vec_parts, update, subst, contains)

NONE = adt('Option', 'None')
INTS = {'usize', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128'}
PANICS = {'panic', 'panic_fmt', 'assert_failed', 'panic_cold_explicit', 'panic_explicit',
          'unreachable_display', 'panic_display', 'panic_nounwind', 'begin_panic', 'assert_failed_inner',
          'unwrap_failed', 'expect_failed', 'panic_str_2015', 'slice_end_index_len_fail', 'panic_str',
          'assert_matches_failed', 'exit', 'abort', 'out_of_bounds'}
IDENT = {'clone', 'to_owned', 'borrow', 'borrow_mut', 'as_ref', 'as_mut', 'deref', 'deref_mut', 'as_slice',
         'as_mut_slice', 'as_str', 'into_boxed_slice', 'into_vec', 'to_vec', 'into_string', 'by_ref',
         'must_use', 'as_deref', 'identity', 'into_boxed_str', 'into_inner', 'into_owned', 'trim_start_matches_none',
         'black_box', 'copied', 'cloned', 'to_string_lossy', 'as_mut_str', 'peekable', 'fuse'}
ARITH = {'add': add, 'sub': sub, 'mul': mul, 'div': div}
ORDS = {'lt': (-1,), 'le': (-1, 0), 'gt': (1,), 'ge': (0, 1)}
ITER_ADAPT = {'map', 'filter', 'filter_map', 'enumerate', 'zip', 'rev', 'chain', 'cloned', 'copied', 'skip', 'take',
              'flat_map', 'flatten', 'peekable', 'by_ref', 'fuse', 'inspect'}
ITER_TERM = {'sum', 'product', 'count', 'collect', 'any', 'all', 'find', 'find_map', 'position', 'for_each', 'fold', 'min', 'max',
             'min_by_key', 'max_by_key', 'min_by', 'max_by', 'last', 'nth', 'next', 'unzip', 'partition',
             'all_unique', 'collect_vec', 'try_for_each', 'size_hint', 'len', 'next_back', 'all_equal'}
INF = sym('∞')


def parse_callee(c):
    """(self type text or None, trait text or None, path without generics, method, generic args text)"""
    c = c.strip()
    if c.startswith('<'):
        e = find_close(c, 0)
        inner, rest = c[1:e], c[e + 1:].lstrip(':')
        k = _top_as(inner)
        g = rest[rest.index('<') + 1:-1] if '<' in rest else ''
        meth = strip_generics(rest)
        if k is None:
            return inner, None, inner, meth, g
        return inner[:k], inner[k + 4:], None, meth, g
    m = re.match(r'^(.*)<impl (.*)>::([A-Za-z_]\w*)(::<.*>)?$', c)
    if m and not re.search(r'(^|::)[A-Z]\w*::$', m.group(1)):
        return m.group(2), None, m.group(1) + 'impl', m.group(3), (m.group(4) or '')[3:-1]
    p = strip_generics(c)
    segs = p.split('::')
    g = ''
    if c.endswith('>'):
        i = c.rfind('::<')
        # outermost trailing generic list
        j, depth = len(c) - 1, 0
        while j >= 0:
            if c[j] == '>' and c[j - 1] not in '-=':
                depth += 1
            elif c[j] == '<':
                depth -= 1
                if depth == 0:
                    break
            j -= 1
        g = c[j + 1:-1]
    return ('::'.join(segs[:-1]) or None), None, p, segs[-1], g


def head(t):
    """Nominal head of a type text, without references."""
    t = t.strip()
    while t.startswith('&'):
        t = re.sub(r"^&('[A-Za-z_]\w* |'_ )?(mut )?", '', t)
    if t.startswith(('[', '(')):
        return t[0]
    if t.startswith('<'):
        return 'proj'
    if t.startswith('{'):
        return 'closure'
    if t.startswith(('impl ', 'dyn ')):
        return 'dyn'
    return last_seg(strip_generics(t))


def is_numeric(prog, t):
    h = head(t)
    if h in INTS or h in ('f64', 'f32'):
        return True
    if h in ('proj', 'dyn', 'Ratio', 'Big', 'Ubig', 'NonZeroUbig') or h.startswith('Rational'):
        return True
    return bool(re.match(r'^[A-Z][A-Z0-9]?[A-Z0-9]?$', h)) or h in ('Rhs',) and True


SKIP = N('sym', '!skip')


ONE_CHAR = {'starts_with', 'ends_with', 'contains', 'find', 'rfind', 'split', 'rsplit', 'split_once', 'rsplit_once', 'strip_prefix',
            'strip_suffix', 'matches', 'split_terminator', 'splitn', 'replace', 'trim_start_matches', 'trim_end_matches'}


MUTREF = re.compile(r"^&('[A-Za-z_]\w* |'_ )?mut ")


class TooComplex(Exception):
    pass


class Stateful(TooComplex):
    """A closure given to an iterator adapter changes what it captured."""


class Models:
    # ------------------------------------------------------------------ entry
    def call(self, fr, st, callee, vals, tys, span):
        for k, v in self.types.items():
            callee = re.sub(r'(?<![\w:])%s(?!\w)' % k, v, callee)
        selft, trait, path, meth, g = parse_callee(callee)
        tr = last_seg(strip_generics(trait)) if trait else None
        # 1. closures and function values
        if tr in ('Fn', 'FnMut', 'FnOnce') and meth in ('call', 'call_mut', 'call_once'):
            packed = self.deref(st, vals[1])
            args = list(packed.a[0]) if packed.op == 'tup' else [packed]
            f = self.deref(st, vals[0])
            given = [t.strip() for t in split_top(tys[1].strip()[1:-1]) if t.strip()] if len(tys) > 1 and tys[1].strip().startswith('(') else []
            if f.op not in ('clo', 'fn') and len(given) == len(args) and any(MUTREF.match(t) for t in given):
                # a callable that the caller supplies may change what it is handed mutably
                return self.uninterpreted(fr, st, 'apply', [f] + args, ['?'] + given, span)
            return self.apply(fr, st, vals[0], args)
        # 2. diverging functions
        if meth in PANICS and (tr is None):
            return [(st, None)]
        # 3. crate-local bodies
        bodies, kind = self.prog.resolve(callee)
        if kind == 'direct' and not (tr == 'Iterator' and vals and self.deref(st, vals[0]).op in ('iter', 'iteradv')):
            b = bodies[0]
            if self.can_inline(fr, b):
                return self.call_body(fr, st, b, vals)
            return self.uninterpreted(fr, st, b.id, vals, tys, span, known=True)
        if kind == 'dispatch':
            nm = '%s::%s' % (tr or last_seg(path or ''), meth)
            if nm in self.hooks:
                return self.hooks[nm](self, fr, st, vals)
            return self.uninterpreted(fr, st, nm, vals, tys, span, known=True)
        # 4. constructors
        if tr is None and path:
            vc = self.is_variant_ctor(callee)
            if vc:
                return [(st, adt(vc[0], vc[1], tuple((str(i), v) for i, v in enumerate(vals))))]
            if meth[:1].isupper():
                return [(st, adt(meth, None, tuple((str(i), v) for i, v in enumerate(vals))))]
        # 5. library models
        r = self.library(fr, st, callee, selft, tr, trait, path, meth, g, vals, tys, span)
        if r is not None:
            return r
        # 6. unknown
        nm = ('%s::%s' % (tr, meth)) if tr else '::'.join((path or meth).split('::')[-2:])
        if not tr and nm.endswith('impl'):
            nm = nm + '::' + meth
        if nm in self.hooks:
            return self.hooks[nm](self, fr, st, vals)
        return self.uninterpreted(fr, st, nm, vals, tys, span)

    def can_inline(self, fr, b):
        if b.id in self.opaque or b.id in fr.stack or fr.depth >= self.max_depth:
            return False
        if self.inline_pred is not None and not self.inline_pred(b):
            return False
        return True

    def uninterpreted(self, fr, st, nm, vals, tys, span, known=False):
        if not known:
            self.unmodelled[nm] = self.unmodelled.get(nm, 0) + 1
        nm = self.alias.get(nm, nm)
        self.called.add(nm)
        vs = [self.reify(st, v) for v in vals]
        if known and nm in self.prog.fns and self.prog.fns[nm].file == 'src/io/error.rs':
            # the wording of an error message is not behaviour
            vs = [T.ERROR_TEXT if v.op == 'str' else v for v in vs]
        from absint import norm_path, read_path
        foot = self.foot(nm) if known and self.foot is not None and nm in self.prog.fns else {}
        for i, (r, w) in foot.items():
            # only what the function may read of what a reference points to is an argument
            if i < len(vs) and r != ((),):
                vs[i] = adt('view', None, tuple(('.'.join(p), read_path(vs[i], tuple(('f', e) for e in p))) for p in r))
        out = N('call', nm, tuple(vs))
        muts = []
        for i, (v, t) in enumerate(zip(vals, tys)):
            if MUTREF.match(t.strip()):
                muts.append(i)
        if muts:
            st = st.copy()
            ext = False
            for i in muts:
                root, pth = self.deref_loc(st, vals[i])
                while True:
                    x = self.read_at(st, root, pth)
                    if x.op == 'ref':
                        root, pth = x.a[0], x.a[1]
                    else:
                        break
                written = foot[i][1] if i in foot else ((),)
                if root[0] == 'S' and written:
                    ext = True
                for w in written:
                    at = norm_path(tuple(pth) + tuple(('f', e) for e in w))
                    st.mem[root] = update(st.read(root), at, N('call', '.'.join((nm + '!' + str(i),) + w), tuple(vs)))
            if ext:
                st.eff = st.eff + (('call', nm, tuple(vs), span),)
        return [(st, out)]

    def read_at(self, st, root, path):
        v = st.read(root)
        for e in path:
            v = proj(v, e)
        return v

    # ------------------------------------------------------------------ library dispatch
    def library(self, fr, st, callee, selft, tr, trait, path, meth, g, vals, tys, span):
        D = lambda i: self.deref(st, vals[i])
        h = head(selft) if selft else None
        # --- formatting machinery: constants
        if path and ('core::fmt' in path or path.startswith('Arguments') or '::fmt::' in path
                     or path in ('format', 'std::fmt::format', 'alloc::fmt::format')):
            return [(st, N('str', '<fmt>'))]
        if h == 'Arguments' or h == 'Argument':
            return [(st, N('str', '<fmt>'))]
        if h == 'Formatter' or (tr in ('Display', 'Debug') and meth == 'fmt'):
            return [(st, N('call', 'fmt::Result', ()))]
        # --- numeric traits
        if tr in ('Add', 'Sub', 'Mul', 'Div') and h not in ('String',):
            a, b = D(0), D(1)
            if h in INTS:
                if tr == 'Div':
                    return [(st, N('call', 'idiv', (a, b)))]
                self.mark_int(a, h[0] == 'u')
                self.mark_int(b, h[0] == 'u')
            return [(st, ARITH[meth](a, b))]
        if tr in ('AddAssign', 'SubAssign', 'MulAssign', 'DivAssign') and h not in ('String',):
            root, pth = self.deref_loc(st, vals[0])
            st = st.copy()
            v = ARITH[meth.split('_')[0]](self.read_at(st, root, pth), D(1))
            self.write(st, root, pth, v, span)
            return [(st, UNIT)]
        if tr == 'Neg':
            return [(st, neg(D(0)))]
        if tr == 'Rem' or tr == 'RemAssign':
            return None
        if meth == 'zero' and tr == 'Zero':
            return [(st, num(0))]
        if meth == 'one' and tr == 'One':
            return [(st, num(1))]
        if tr == 'Zero' and meth == 'is_zero':
            return [(st, sgn(D(0), (0,)))]
        if tr == 'One' and meth == 'is_one':
            return [(st, sgn(sub(D(0), num(1)), (0,)))]
        if meth == 'is_not_zero':
            return [(st, sgn(D(0), (-1, 1)))]
        if meth == 'is_positive':
            return [(st, sgn(D(0), (1,)))]
        if meth == 'is_negative':
            return [(st, sgn(D(0), (-1,)))]
        if tr in ('Signed',) and meth == 'signum':
            return [(st, N('sgnv', D(0)))]
        if meth == 'non_zero_signum':
            return [(st, N('nzs', D(0)))]
        if meth in ('abs', 'unsigned_abs') and len(vals) == 1:
            v = D(0)
            out = []
            for s, t in self.fork(st, sgn(v, (-1,))):
                out.append((s, neg(v) if t else v))
            return out
        if tr == 'Negateable' and meth == 'negate':
            root, pth = self.deref_loc(st, vals[0])
            st = st.copy()
            v = self.read_at(st, root, pth)
            if v.op == 'adt' and v.a[1] in ('Positive', 'Negative', 'Zero'):
                nv = adt(v.a[0], {'Positive': 'Negative', 'Negative': 'Positive', 'Zero': 'Zero'}[v.a[1]])
            else:
                nv = neg(v)
            self.write(st, root, pth, nv, span)
            return [(st, UNIT)]
        if h in ('NonZeroSign', 'Sign') and tr in ('Not', 'Neg'):
            v = D(0)
            out = []
            for s, var in self.split_disc(st, v, h):
                out.append((s, adt(h, {'Positive': 'Negative', 'Negative': 'Positive', 'Zero': 'Zero'}[var])))
            return out
        # --- comparisons
        if tr == 'PartialEq' and h == 'Discriminant':
            return [(st, sgn(sub(D(0), D(1)), (0,) if meth == 'eq' else (-1, 1)))]
        if tr == 'PartialEq':
            return self.eq_call(fr, st, selft, D(0), D(1), meth == 'ne')
        if tr == 'PartialOrd' and meth in ORDS:
            if is_numeric(self.prog, selft):
                a, b = D(0), D(1)
                if h in INTS:
                    self.mark_int(a, h[0] == 'u')
                    self.mark_int(b, h[0] == 'u')
                return [(st, sgn(sub(a, b), ORDS[meth]))]
            return [(st, call(meth, self.reify(st, D(0)), self.reify(st, D(1))))]
        if tr in ('Ord', 'PartialOrd') and meth in ('cmp', 'partial_cmp'):
            if is_numeric(self.prog, selft):
                c = T.cmp_node(sub(D(0), D(1)))
            else:
                c = call('cmp', self.reify(st, D(0)), self.reify(st, D(1)))
            return [(st, some(c) if meth == 'partial_cmp' else c)]
        if (tr == 'Ord' or (path or '').endswith(('cmp::max', 'cmp::min'))) and meth in ('max', 'min'):
            a, b = D(0), D(1)
            out = []
            for s, t in self.fork(st, sgn(sub(a, b), (1,))):
                out.append((s, (a if t else b) if meth == 'max' else (b if t else a)))
            return out
        if h == 'Ordering':
            return self.ordering(fr, st, meth, vals)
        # --- control-flow sugar
        if tr == 'Try' and meth == 'branch':
            v = D(0)
            out = []
            if h == 'Option':
                for s, var, p in self.match_opt(st, v):
                    out.append((s, adt('ControlFlow', 'Continue', (('0', p),)) if var == 'Some' else
                                adt('ControlFlow', 'Break', (('0', NONE),))))
            else:
                for s, var in self.split_disc(st, v, 'Result'):
                    if var == 'Ok':
                        out.append((s, adt('ControlFlow', 'Continue', (('0', pay(v, 'Ok')),))))
                    else:
                        out.append((s, adt('ControlFlow', 'Break', (('0', adt('Result', 'Err', (('0', pay(v, 'Err')),))),))))
            return out
        if tr == 'FromResidual':
            v = D(0)
            if h == 'Option':
                return [(st, NONE)]
            e = pay(v, 'Err')
            t1 = self.err_type(selft)
            i = trait.index('<')
            t2 = self.err_type(trait[i + 1:find_close(trait, i)])
            return [(s, None if x is None else adt('Result', 'Err', (('0', x),)))
                    for s, x in self.convert(fr, st, e, t2, t1, span)]
        if tr in ('From', 'Into') and meth in ('from', 'into'):
            i = trait.find('<')
            other = trait[i + 1:find_close(trait, i)] if i >= 0 else '?'
            if tr == 'From':
                return self.convert(fr, st, vals[0], other, selft, span)
            return self.convert(fr, st, vals[0], selft, other, span)
        if tr in ('TryFrom', 'TryInto'):
            return None
        if tr == 'Default' and meth == 'default':
            if h in INTS:
                return [(st, num(0))]
            if h in ('Vec',):
                return [(st, vec(()))]
            if h == 'bool':
                return [(st, FALSE)]
            if h == 'Option':
                return [(st, NONE)]
            return [(st, call('default:' + h))]
        # --- identities
        if tr in ('Clone', 'ToOwned', 'Borrow', 'BorrowMut', 'AsRef', 'AsMut', 'Deref', 'DerefMut'):
            if tr == 'Clone':
                v = D(0)
                return [(st, v)]
            return [(st, vals[0])] if tr != 'ToOwned' else [(st, D(0))]
        if meth == 'to_string' and tr == 'ToString':
            if h in ('str', 'String'):
                return [(st, D(0))]
            return [(st, call('to_string', self.reify(st, D(0))))]
        if path in ('must_use', 'black_box', 'core::hint::must_use') or meth == 'must_use':
            return [(st, vals[0])]
        if tr == 'Drop' or path in ('drop', 'std::mem::drop', 'std::mem::forget'):
            return [(st, UNIT)]
        # --- mem
        if path in ('std::mem::discriminant', 'core::mem::discriminant', 'discriminant') and len(vals) == 1:
            t = re.sub(r"^&('[A-Za-z_]\w* |'_ )?(mut )?", '', tys[0]).strip()
            vs = self.variants(base_type(t))
            if vs:
                ix = {v: i for i, (v, _) in enumerate(vs)}
                return [(s, num(ix[var])) for s, var in self.split_disc(st, D(0), base_type(t))]
        if path in ('std::mem::replace', 'core::mem::replace'):
            root, pth = self.deref_loc(st, vals[0])
            st = st.copy()
            old = self.read_at(st, root, pth)
            self.write(st, root, pth, vals[1], span)
            return [(st, old)]
        if path in ('std::mem::take', 'core::mem::take'):
            root, pth = self.deref_loc(st, vals[0])
            st = st.copy()
            old = self.read_at(st, root, pth)
            t = re.sub(r"^&('[A-Za-z_]\w* |'_ )?mut ", '', tys[0])
            d = vec(()) if head(t) == 'Vec' else NONE if head(t) == 'Option' else num(0) if head(t) in INTS else call('default')
            self.write(st, root, pth, d, span)
            return [(st, old)]
        if path in ('std::mem::swap', 'core::mem::swap'):
            r1, p1 = self.deref_loc(st, vals[0])
            r2, p2 = self.deref_loc(st, vals[1])
            st = st.copy()
            a, b = self.read_at(st, r1, p1), self.read_at(st, r2, p2)
            self.write(st, r1, p1, b, span)
            self.write(st, r2, p2, a, span)
            return [(st, UNIT)]
        # --- Option / Result
        if h == 'Option' and tr is None:
            r = self.option(fr, st, meth, g, vals, tys, span)
            if r is not None:
                return r
        if h == 'Result' and tr is None:
            r = self.result(fr, st, meth, g, vals, tys, span)
            if r is not None:
                return r
        if h == 'bool' and tr is None and meth in ('then', 'then_some'):
            out = []
            for s, t in self.fork(st, D(0)):
                if not t:
                    out.append((s, NONE))
                elif meth == 'then_some':
                    out.append((s, some(vals[1])))
                else:
                    out.extend((s2, None if x is None else some(x)) for s2, x in self.apply(fr, s, vals[1], []))
            return out
        if h == 'RangeInclusive' and meth == 'new':
            return [(st, adt('RangeInclusive', None, (('start', vals[0]), ('end', vals[1]))))]
        # --- boxes
        if path and path.endswith('exchange_malloc'):
            return [(st, N('str', '<alloc>'))]
        if h == 'Box' and meth in ('new',):
            return [(st, self.temp(st, vals[0]))]
        if meth == 'box_new':
            return [(st, self.temp(st, vals[0]))]
        # --- iterators
        r = self.iterators(fr, st, callee, selft, tr, path, meth, g, vals, tys, span, h)
        if r is not None:
            return r
        # --- collections & strings
        r = self.collections(fr, st, selft, tr, trait, path, meth, g, vals, tys, span, h, callee)
        if r is not None:
            return r
        if h in INTS and tr is None:
            a = D(0)
            if meth in ('checked_add', 'checked_sub', 'checked_mul'):
                f = {'checked_add': add, 'checked_sub': sub, 'checked_mul': mul}[meth]
                ok = call('in_range:' + h, f(a, D(1)))
                if meth == 'checked_sub' and h.startswith('u'):
                    ok = T.sgn(sub(a, D(1)), (0, 1))
                out = []
                for s, t in self.fork(st, ok):
                    out.append((s, some(f(a, D(1))) if t else NONE))
                return out
        return None

    # ------------------------------------------------------------------ conversions & equality
    def err_type(self, t):
        i = t.find('<')
        if i < 0:
            return t
        p = split_top(t[i + 1:find_close(t, i)])
        return p[1].strip() if len(p) > 1 else '?'

    def convert(self, fr, st, v, frm, to, span):
        frm, to = frm.strip(), to.strip()
        if frm == to:
            return [(st, v)]
        if frm == 'bool':
            return [(s, num(1 if t else 0)) for s, t in self.fork(st, self.deref(st, v))]
        bodies, kind = self.prog.resolve('<%s as From<%s>>::from' % (to, frm))
        if kind == 'direct':
            if self.can_inline(fr, bodies[0]):
                return self.call_body(fr, st, bodies[0], [v])
            return self.uninterpreted(fr, st, bodies[0].id, [v], ['?'], span, known=True)
        bodies, kind = self.prog.resolve('<%s as Into<%s>>::into' % (frm, to))
        if kind == 'direct' and self.can_inline(fr, bodies[0]):
            return self.call_body(fr, st, bodies[0], [v])
        x = self.deref(st, v)
        return [(st, x)]

    def eq_call(self, fr, st, selft, a, b, negate):
        outs = self.eq_values(st, a, b, selft)
        return [(s, bnot(r) if negate else r) for s, r in outs]

    def eq_values(self, st, a, b, ty):
        a, b = self.reify(st, a), self.reify(st, b)
        h = head(ty)
        if a is b:
            return [(st, TRUE)]
        if h in ('str', 'String', 'char') or a.op in ('str', 'chr') or b.op in ('str', 'chr'):
            return [(st, self.streq(a, b))]
        if h == 'bool' or a.op in ('b', 'sgn', 'not', 'isv') or b.op in ('b', 'sgn', 'not', 'isv'):
            out = []
            for s, x in self.fork(st, a):
                for s2, y in self.fork(s, b):
                    out.append((s2, T.boolean(x == y)))
            return out
        enumish = h if self.variants(h) else None
        if enumish is None and (a.op == 'adt' and a.a[1] or b.op == 'adt' and b.a[1]):
            enumish = (a if a.op == 'adt' else b).a[0]
        if a.op in ('nzs', 'sgnv', 'cmp') and enumish is None:
            enumish = {'nzs': 'NonZeroSign', 'sgnv': 'Sign', 'cmp': 'Ordering'}[a.op]
        if enumish:
            # compare with a known unit variant: a single two-way fact
            for x, y in ((a, b), (b, a)):
                if y.op == 'adt' and y.a[1] and not y.a[2] and x.op not in ('adt', 'nzs', 'sgnv', 'cmp', 'ite', 'upd'):
                    vs = self.variants(enumish)
                    if vs:
                        return [(st, N('isv', x, frozenset([y.a[1]]), frozenset(v for v, _ in vs)))]
            out = []
            for s, v1 in self.split_disc(st, a, enumish):
                for s2, v2 in self.split_disc(s, b, enumish):
                    if v1 != v2:
                        out.append((s2, FALSE))
                        continue
                    names = self.payload_names(enumish, v1, a, b)
                    cur = [(s2, TRUE)]
                    for n in names:
                        nxt = []
                        for s3, r in cur:
                            if r is FALSE:
                                nxt.append((s3, r))
                                continue
                            for s4, q in self.eq_values(s3, pay(a, v1, n), pay(b, v2, n), '?'):
                                if r is TRUE:
                                    nxt.append((s4, q))
                                else:
                                    for s5, t in self.fork(s4, r):
                                        nxt.append((s5, q if t else FALSE))
                        cur = nxt
                    out.extend(cur)
            return out
        if a.op == 'tup' and b.op == 'tup' and len(a.a[0]) == len(b.a[0]):
            cur = [(st, TRUE)]
            for x, y in zip(a.a[0], b.a[0]):
                nxt = []
                for s, r in cur:
                    if r is FALSE:
                        nxt.append((s, r))
                        continue
                    for s2, q in self.eq_values(s, x, y, '?'):
                        if r is TRUE:
                            nxt.append((s2, q))
                        else:
                            for s3, t in self.fork(s2, r):
                                nxt.append((s3, q if t else FALSE))
                cur = nxt
            return cur
        if is_numeric(self.prog, ty) or ((ty == '?') and (a.op in ('num', 'poly') or b.op in ('num', 'poly'))):
            if h in INTS:
                self.mark_int(a, h[0] == 'u')
                self.mark_int(b, h[0] == 'u')
            return [(st, sgn(sub(a, b), (0,)))]
        x, y = (a, b) if a.id < b.id else (b, a)
        return [(st, call('eq', x, y))]

    def payload_names(self, en, variant, a, b):
        for x in (a, b):
            if x.op == 'adt' and x.a[1] == variant:
                return [n for n, _ in x.a[2]]
        p = self.prog.adt_path(en, self.prog.src.enums)
        if isinstance(p, str):
            return list(next(fs for v, fs, _ in self.prog.src.enums[p] if v == variant))
        if en in ('Option', 'Result') and variant in ('Some', 'Ok', 'Err'):
            return ['0']
        return []

    def ordering(self, fr, st, meth, vals):
        v = self.deref(st, vals[0])
        table = {'is_lt': ('Less',), 'is_le': ('Less', 'Equal'), 'is_gt': ('Greater',), 'is_ge': ('Greater', 'Equal'),
                 'is_eq': ('Equal',), 'is_ne': ('Less', 'Greater')}
        out = []
        if meth in table:
            return [(s, T.boolean(var in table[meth])) for s, var in self.split_disc(st, v, 'Ordering')]
        if meth == 'reverse':
            if v.op == 'cmp':
                return [(st, T.cmp_node(neg(v.a[0])))]
            m = {'Less': 'Greater', 'Greater': 'Less', 'Equal': 'Equal'}
            return [(s, adt('Ordering', m[var])) for s, var in self.split_disc(st, v, 'Ordering')]
        if meth in ('then', 'then_with'):
            for s, var in self.split_disc(st, v, 'Ordering'):
                if var != 'Equal':
                    out.append((s, adt('Ordering', var)))
                elif meth == 'then':
                    out.append((s, vals[1]))
                else:
                    out.extend(self.apply(fr, s, vals[1], []))
            return out
        return None

    # ------------------------------------------------------------------ Option / Result
    def ref_payload(self, st, v, variant):
        """Reference to the payload behind a reference to an Option/Result."""
        if v.op == 'ref':
            return N('ref', v.a[0], v.a[1] + (('v', variant), ('f', '0')))
        return pay(v, variant)

    def option(self, fr, st, meth, g, vals, tys, span):
        D = lambda i: self.deref(st, vals[i])
        v = D(0)
        m = lambda: self.match_opt(st, v)
        A = lambda s, i, args: self.apply(fr, s, vals[i], args)
        wrap = lambda pairs, f: [(s, None if x is None else f(x)) for s, x in pairs]
        out = []
        if meth in ('is_some', 'is_none'):
            if v.op == 'adt' or v.op == 'ite':
                return [(s, T.boolean((var == 'Some') == (meth == 'is_some'))) for s, var, _ in m()]
            return [(st, N('isv', v, frozenset(['Some' if meth == 'is_some' else 'None']), frozenset(('Some', 'None'))))]
        if meth in ('as_ref', 'as_mut', 'as_deref', 'as_deref_mut'):
            base = vals[0]
            # collapse ref-to-ref
            while base.op == 'ref':
                x = self.read_at(st, base.a[0], base.a[1])
                if x.op == 'ref':
                    base = x
                else:
                    break
            for s, var, p in m():
                out.append((s, NONE if var == 'None' else some(self.ref_payload(s, base, 'Some'))))
            return out
        if meth in ('cloned', 'copied'):
            for s, var, p in m():
                out.append((s, NONE if var == 'None' else some(self.deref(s, p))))
            return out
        if meth in ('unwrap', 'expect', 'unwrap_unchecked'):
            for s, var, p in m():
                out.append((s, None if var == 'None' else p))
            return out
        if meth in ('unwrap_or', 'unwrap_or_else', 'unwrap_or_default'):
            for s, var, p in m():
                if var == 'Some':
                    out.append((s, p))
                elif meth == 'unwrap_or':
                    out.append((s, vals[1]))
                elif meth == 'unwrap_or_else':
                    out.extend(A(s, 1, []))
                else:
                    out.append((s, num(0)))
            return out
        if meth in ('map', 'and_then', 'filter', 'is_some_and', 'is_none_or', 'inspect'):
            for s, var, p in m():
                if var == 'None':
                    out.append((s, NONE if meth in ('map', 'and_then', 'filter', 'inspect') else T.boolean(meth == 'is_none_or')))
                elif meth == 'map':
                    out.extend(wrap(A(s, 1, [p]), some))
                elif meth == 'inspect':
                    out.extend(wrap(A(s, 1, [self.temp(s, p)]), lambda x: some(p)))
                elif meth == 'filter':
                    for s2, b in A(s, 1, [self.temp(s, p)]):
                        if b is None:
                            out.append((s2, None))
                            continue
                        for s3, t in self.fork(s2, b):
                            out.append((s3, some(p) if t else NONE))
                else:
                    out.extend(A(s, 1, [p]))
            return out
        if meth in ('map_or', 'map_or_else'):
            for s, var, p in m():
                if var == 'Some':
                    out.extend(A(s, 2, [p]))
                elif meth == 'map_or':
                    out.append((s, vals[1]))
                else:
                    out.extend(A(s, 1, []))
            return out
        if meth in ('ok_or', 'ok_or_else'):
            for s, var, p in m():
                if var == 'Some':
                    out.append((s, adt('Result', 'Ok', (('0', p),))))
                elif meth == 'ok_or':
                    out.append((s, adt('Result', 'Err', (('0', vals[1]),))))
                else:
                    out.extend(wrap(A(s, 1, []), lambda x: adt('Result', 'Err', (('0', x),))))
            return out
        if meth in ('or', 'or_else'):
            for s, var, p in m():
                if var == 'Some':
                    out.append((s, some(p)))
                elif meth == 'or':
                    out.append((s, vals[1]))
                else:
                    out.extend(A(s, 1, []))
            return out
        if meth in ('and', 'zip', 'xor'):
            for s, var, p in m():
                for s2, var2, p2 in self.match_opt(s, D(1)):
                    if meth == 'and':
                        out.append((s2, NONE if var == 'None' else (some(p2) if var2 == 'Some' else NONE)))
                    elif meth == 'zip':
                        out.append((s2, some(tup(p, p2)) if var == var2 == 'Some' else NONE))
                    else:
                        out.append((s2, NONE if var == var2 else some(p if var == 'Some' else p2)))
            return out
        if meth in ('take', 'replace', 'insert', 'get_or_insert', 'get_or_insert_with'):
            root, pth = self.deref_loc(st, vals[0])
            if meth == 'take':
                st = st.copy()
                self.write(st, root, pth, NONE, span)
                return [(st, v)]
            if meth == 'replace':
                st = st.copy()
                self.write(st, root, pth, some(vals[1]), span)
                return [(st, v)]
            if meth == 'insert':
                st = st.copy()
                self.write(st, root, pth, some(vals[1]), span)
                return [(st, N('ref', root, pth + (('v', 'Some'), ('f', '0'))))]
            for s, var, p in m():
                rf = N('ref', root, pth + (('v', 'Some'), ('f', '0')))
                if var == 'Some':
                    out.append((s, rf))
                else:
                    for s2, x in ([(s, vals[1])] if meth == 'get_or_insert' else A(s, 1, [])):
                        s2 = s2.copy()
                        if x is not None:
                            self.write(s2, root, pth, some(x), span)
                        out.append((s2, None if x is None else rf))
            return out
        if meth == 'flatten':
            for s, var, p in m():
                out.append((s, NONE if var == 'None' else p))
            return out
        if meth == 'transpose':
            for s, var, p in m():
                if var == 'None':
                    out.append((s, adt('Result', 'Ok', (('0', NONE),))))
                else:
                    for s2, v2 in self.split_disc(s, p, 'Result'):
                        out.append((s2, adt('Result', 'Ok', (('0', some(pay(p, 'Ok'))),)) if v2 == 'Ok' else
                                    adt('Result', 'Err', (('0', pay(p, 'Err')),))))
            return out
        if meth in ('iter', 'iter_mut', 'into_iter'):
            for s, var, p in m():
                if var == 'None':
                    out.append((s, N('iter', ())))
                else:
                    out.append((s, N('iter', (((), (((), self.ref_payload(s, vals[0], 'Some') if meth != 'into_iter' else p),)),))))
            return out
        return None

    def result(self, fr, st, meth, g, vals, tys, span):
        v = self.deref(st, vals[0])
        out = []
        A = lambda s, i, args: self.apply(fr, s, vals[i], args)
        ok = lambda x: adt('Result', 'Ok', (('0', x),))
        er = lambda x: adt('Result', 'Err', (('0', x),))
        wrap = lambda pairs, f: [(s, None if x is None else f(x)) for s, x in pairs]
        if meth in ('is_ok', 'is_err') and v.op not in ('adt', 'ite'):
            return [(st, N('isv', v, frozenset(['Ok' if meth == 'is_ok' else 'Err']), frozenset(('Ok', 'Err'))))]
        if meth not in ('is_ok', 'is_err', 'ok', 'err', 'unwrap', 'expect', 'unwrap_err', 'expect_err', 'map', 'map_err',
                        'and_then', 'or_else', 'unwrap_or', 'unwrap_or_else', 'map_or', 'as_ref', 'as_mut', 'map_or_else',
                        'is_ok_and', 'is_err_and', 'unwrap_or_default'):
            return None
        for s, var in self.split_disc(st, v, 'Result'):
            p = pay(v, var)
            good = var == 'Ok'
            if meth in ('is_ok', 'is_err'):
                out.append((s, T.boolean(good == (meth == 'is_ok'))))
            elif meth in ('ok', 'err'):
                out.append((s, some(p) if good == (meth == 'ok') else NONE))
            elif meth in ('unwrap', 'expect', 'unwrap_err', 'expect_err'):
                out.append((s, p if good == (meth in ('unwrap', 'expect')) else None))
            elif meth == 'map':
                out.extend(wrap(A(s, 1, [p]), ok) if good else [(s, er(p))])
            elif meth == 'map_err':
                out.extend([(s, ok(p))] if good else wrap(A(s, 1, [p]), er))
            elif meth == 'and_then':
                out.extend(A(s, 1, [p]) if good else [(s, er(p))])
            elif meth == 'or_else':
                out.extend([(s, ok(p))] if good else A(s, 1, [p]))
            elif meth == 'unwrap_or':
                out.append((s, p if good else vals[1]))
            elif meth == 'unwrap_or_default':
                out.append((s, p if good else num(0)))
            elif meth == 'unwrap_or_else':
                out.extend([(s, p)] if good else A(s, 1, [p]))
            elif meth == 'map_or':
                out.extend(A(s, 2, [p]) if good else [(s, vals[1])])
            elif meth == 'map_or_else':
                out.extend(A(s, 2, [p]) if good else A(s, 1, [p]))
            elif meth in ('is_ok_and', 'is_err_and'):
                out.extend(A(s, 1, [p]) if good == (meth == 'is_ok_and') else [(s, FALSE)])
            elif meth in ('as_ref', 'as_mut'):
                r = self.ref_payload(s, vals[0], var)
                out.append((s, ok(r) if good else er(r)))
        return out

    # ------------------------------------------------------------------ iterators
    def new_k(self, st, lo, hi, used=()):
        nest = sum(1 for b in st.binders if b[1] is lo and b[2] is hi)
        nest += sum(1 for b in used if b[1] is lo and b[2] is hi)
        nest += sum(1 for b in st.witness if b[1] is lo and b[2] is hi)
        k = N('k', lo, hi, nest)
        self.mark_int(k, True)
        return k

    def to_iter(self, fr, st, v, mutable=False, owned=False, used=()):
        """Iterator value (segments) for a collection / iterator / range value; None if unknown."""
        base = v
        while base.op == 'ref':
            x = self.read_at(st, base.a[0], base.a[1])
            if x.op == 'ref':
                base = x
            else:
                break
        x = self.deref(st, v)
        if x.op in ('iter', 'iteradv'):
            return x
        if x.op == 'adt' and x.a[0] == 'Range':
            d = dict(x.a[2])
            lo, hi = self.deref(st, d['start']), self.deref(st, d['end'])
            n = sub(hi, lo)
            k = self.new_k(st, num(0), n, used)
            return N('iter', ((((k, num(0), n, False),), (((), add(lo, k)),)),))
        if x.op == 'adt' and x.a[0] == 'RangeInclusive':
            d = dict(x.a[2])
            lo, hi = d.get('start'), add(d.get('end'), num(1))
            n = sub(hi, lo)
            k = self.new_k(st, num(0), n, used)
            return N('iter', ((((k, num(0), n, False),), (((), add(lo, k)),)),))
        if x.op == 'adt' and x.a[0] == 'RangeFrom':
            lo = dict(x.a[2])['start']
            k = self.new_k(st, num(0), INF, used)
            return N('iter', ((((k, num(0), INF, False),), (((), add(lo, k)),)),))
        if x.op == 'adt' and x.a[0] == 'Option':
            if x.a[1] == 'None':
                return N('iter', ())
            return N('iter', (((), (((), x.a[2][0][1]),)),))
        if x.op == 'vec' and not mutable:
            segs = []
            for p in x.a[0]:
                if p[0] == 'one':
                    segs.append(((), (((), p[1]),)))
                elif p[0] == 'all':
                    segs.extend(self.gen_over(st, p[1], None, used))
                else:
                    alts = self.flat_alts(p[2])
                    if alts is None:
                        segs.extend(self.gen_over(st, vec((p,)), None, used))
                    else:
                        segs.append((p[1], alts))
            return N('iter', tuple(segs))
        if x.op == 'rep':
            k = self.new_k(st, num(0), x.a[1], used)
            ref = base if base.op == 'ref' and (mutable or not owned) else None
            e = N('ref', base.a[0], base.a[1] + (('i', k),)) if ref is not None else x.a[0]
            return N('iter', ((((k, num(0), x.a[1], False),), (((), e),)),))
        ref = base if base.op == 'ref' and not owned else None
        return N('iter', tuple(self.gen_over(st, x, ref, used)))

    def flat_alts(self, body):
        """((conds, parts), ...) with single-element parts -> ((conds, elem), ...)"""
        out = []
        for c, ps in body:
            if len(ps) > 1:
                return None
            for q in ps:
                if q[0] != 'one':
                    return None
                out.append((c, q[1]))
        return tuple(out)

    def crate_iter(self, fr, st, ty, v):
        """The elements of an iterator type of the crate, from what its `next` does; None if not understood.

        Two shapes: a counter (one field goes up by one for every element, until a bound that stays the same),
        and a wrapper (`next` is the `next` of one field)."""
        if v.op in ('iter', 'iteradv', 'undef') or '<' not in ty and not ty[:1].isupper() or ty.startswith(('&', 'impl ')):
            return None
        bodies, kind = self.prog.resolve('<%s as Iterator>::next' % ty)
        if kind != 'direct' or not self.can_inline(fr, bodies[0]):
            return None
        def run(v):
            s = st.copy()
            ref = self.temp(s, v)
            return [(o, x, o.read(ref.a[0]) if x is not None else None) for o, x in self.call_body(fr, s, bodies[0], [ref])]
        outs = [o for o in run(v) if o[1] is not None]
        if v.op == 'adt':
            inner = [(n, x) for n, x in v.a[2] if x.op == 'iter']
            if len(inner) == 1:
                n, x = inner[0]
                s = st.copy()
                ref = self.temp(s, x)
                exp = self.iter_next(fr, s, ref, None)
                f = lambda outs, get: [(r, get(m), self.delta_conds(o, st)) for o, r, m in outs]
                p = ((('v', v.a[1]),) if v.a[1] else ()) + (('f', n),)
                field = lambda m: functools.reduce(proj, p, m)
                if f(outs, field) == [(r, o.read(ref.a[0]), self.delta_conds(o, st)) for o, r in exp]:
                    return x
        counters = set()
        for o, r, m in outs:
            for pth in self.diff(v, m, ()):
                old, new = functools.reduce(proj, pth, v), functools.reduce(proj, pth, m)
                if new is add(old, num(1)):
                    counters.add(pth)
                else:
                    return None
        if len(counters) != 1:
            return None
        pth = counters.pop()
        lo = functools.reduce(proj, pth, v)
        c = N('k', lo, INF, 77)
        self.mark_int(c, True)
        outs = run(update(v, pth, c))
        found, hi, elem = None, None, None
        for o, r, m in outs:
            if r is None:
                return None
            d = self.delta_conds(o, st)
            if len(d) != 1 or d[0][0][0] != 'lin' or len(d[0][1][1]) != 1:
                return None
            if r is NONE:
                if m is not update(v, pth, c):
                    return None
                continue
            if found is not None or r.op != 'adt' or r.a[1] != 'Some' or m is not update(v, pth, add(c, num(1))):
                return None
            found, elem = d[0], r.a[2][0][1]
        if found is None:
            return None
        p = T.p_of(found[0][1])
        co = p.get(((c, 1),))
        rest = T.p_node({m: x for m, x in p.items() if m != ((c, 1),)})
        (a, ao, b, bo), = found[1][1]
        if co == 1 and b is not None:
            hi = sub(num(b + 1 if bo else b), rest)
        elif co == -1 and a is not None:
            hi = sub(rest, num(a - 1 if ao else a))
        if hi is None or contains(hi, lambda x: x is c):
            return None
        n = sub(hi, lo)
        k = self.new_k(st, num(0), n)
        return N('iter', ((((k, num(0), n, False),), (((), self.subst_ref(elem, {c: add(lo, k)})),)),))

    def gen_over(self, st, x, ref, used=()):
        n = length(x)
        self.mark_int(n, True)
        k = self.new_k(st, num(0), n, used)
        if ref is not None:
            from absint import norm_path
            e = N('ref', ref.a[0], norm_path(ref.a[1] + (('i', k),)))
        else:
            e = proj(x, ('i', k))
        return [(((k, num(0), n, False),), (((), e),))]

    def delta_conds(self, s2, s1):
        out = []
        for key, c in s2.conds.items():
            if s1.conds.get(key) != c:
                out.append((key, c))
        return tuple(sorted(out, key=lambda t: (t[0][0], t[0][1].id)))

    def adapter_outcomes(self, fr, s, meth, f, e):
        """[(state, value | None for a panic | SKIP)] of one element of map / filter / filter_map."""
        if meth == 'map':
            return self.apply(fr, s, f, [e])
        out = []
        if meth == 'filter':
            for s2, b in self.apply(fr, s, f, [self.temp(s, e)]):
                if b is None:
                    out.append((s2, None))
                    continue
                for s3, t in self.fork(s2, b):
                    out.append((s3, e if t else SKIP))
        else:
            for s2, o in self.apply(fr, s, f, [e]):
                if o is None:
                    out.append((s2, None))
                    continue
                for s3, var, p in self.match_opt(s2, o):
                    out.append((s3, p if var == 'Some' else SKIP))
        return out

    def pure_adapter(self, fr, st, it, meth, vals):
        base = dict(st.mem), dict(st.conds)
        try:
            segs, pan = self.alt_map(fr, st, it, lambda s, e: self.adapter_outcomes(fr, s, meth, vals[1], e))
        except Stateful:
            st.mem, st.conds = base
            raise
        return pan + [(st, self.mk_iter(segs))]

    def stateful_adapter(self, fr, st, it, meth, vals, span):
        """The closure changes what it captured: the elements are computed in order, as a loop that pushes."""
        states = [(st, None)]
        accloc = ('L', self.fresh(), 'acc')
        st = st.copy()
        st.mem[accloc] = vec(())
        done, todo = [], [st]
        for gens, alts in it.a[0]:
            nxt = []
            for s0 in todo:
                def body(entry, gens=gens, alts=alts):
                    outs = []
                    for conds, e in alts:
                        s = entry.copy()
                        s.binders = s.binders + tuple(gens)
                        s = self.assume_all(s, conds)
                        if s is None:
                            continue
                        s.advanced = s.advanced + ((accloc, 'some'),)
                        for s2, v in self.adapter_outcomes(fr, s, meth, vals[1], e):
                            if v is None:
                                outs.append(('panic', s2, (span, 'closure')))
                                continue
                            if v is not SKIP:
                                s2.mem[accloc] = vec(vec_parts(s2.read(accloc)) + (('one', v),))
                            outs.append(('back', s2))
                    s = entry.copy()
                    s.advanced = s.advanced + ((accloc, 'none'),)
                    outs.append(('exit', s, None))
                    return outs
                if not gens and len(alts) == 1 and not alts[0][0]:
                    for s2, v in self.adapter_outcomes(fr, s0.copy(), meth, vals[1], alts[0][1]):
                        if v is None:
                            done.append((s2, None))
                            continue
                        if v is not SKIP:
                            s2.mem[accloc] = vec(vec_parts(s2.read(accloc)) + (('one', v),))
                        nxt.append(s2)
                    continue
                for o in self.generic_loop(fr, s0, body, None, ('itermap', accloc[1])):
                    if o[0] == 'goto':
                        nxt.append(o[1])
                    else:
                        done.append((o[1], None))
            todo = nxt
        for s in todo:
            c = s.read(accloc)
            done.append((s, N('iter', tuple(self.gen_over(s, c, None)))))
        return done

    def stateful_any(self, fr, st, it, meth, vals, span):
        """any / all with a closure that changes what it captured: a loop that stops early."""
        done, todo = [], [st.copy()]
        want = meth == 'any'
        mark = ('L', self.fresh(), 'any')

        def one(s, e, outs):
            for s2, b in self.apply(fr, s, vals[1], [e]):
                if b is None:
                    outs.append(('panic', s2, (span, 'closure')))
                    continue
                for s3, t in self.fork(s2, b):
                    outs.append(('exit', s3, 'hit') if t == want else ('back', s3))
        for gens, alts in it.a[0]:
            nxt = []
            for s0 in todo:
                def body(entry, gens=gens, alts=alts):
                    outs = []
                    for conds, e in alts:
                        s = entry.copy()
                        s.binders = s.binders + tuple(gens)
                        s = self.assume_all(s, conds)
                        if s is None:
                            continue
                        s.advanced = s.advanced + ((mark, 'some'),)
                        one(s, e, outs)
                    s = entry.copy()
                    s.advanced = s.advanced + ((mark, 'none'),)
                    outs.append(('exit', s, None))
                    return outs
                if not gens and len(alts) == 1 and not alts[0][0]:
                    outs = []
                    one(s0.copy(), alts[0][1], outs)
                    outs = [('goto', o[1], None) if o[0] == 'back' else ('goto', o[1], 'hit') if o[0] == 'exit' else o for o in outs]
                else:
                    outs = self.generic_loop(fr, s0, body, None, ('any', mark[1]))
                for o in outs:
                    if o[0] != 'goto':
                        done.append((o[1], None))
                    elif o[2] == 'hit':
                        done.append((o[1], T.boolean(want)))
                    else:
                        nxt.append(o[1])
            todo = nxt
        return done + [(s, T.boolean(not want)) for s in todo]

    def alt_map(self, fr, st, it, f, elem_ref=False):
        """Apply f(state, elem) -> [(state, value|None)] under each alternative.
        Returns (segs as [(gens, [(conds, value)])], panics). Memory temporaries are merged into st."""
        segs, pan = [], []
        psegs = []
        roots = dict(st.mem)
        for gens, alts in it.a[0]:
            na = []
            np = []
            for conds, e in alts:
                s = st.copy()
                s.binders = s.binders + tuple(gens)
                s = self.assume_all(s, conds)
                if s is None:
                    continue
                base = s.copy()
                for s2, v in f(s, e):
                    if v is None:
                        pan.append((s2, None))
                        np.append((self.delta_conds(s2, st), TRUE))
                        continue
                    for r, x in s2.mem.items():
                        y = roots.get(r, r[1] if r[0] == 'S' else x)
                        if y is not x and self.diff(y, x, ()):
                            raise Stateful(r)
                    if s2.eff != st.eff:
                        self.unmodelled['effects in iterator adapter'] = self.unmodelled.get('effects in iterator adapter', 0) + 1
                    for r in s2.mem:
                        if r not in st.mem:
                            st.mem[r] = s2.mem[r]
                    if v is not SKIP:
                        na.append((self.delta_conds(s2, st), v))
            segs.append((gens, na))
            if np:
                psegs.append((gens, np))
        if psegs:
            # the panicking outcomes are reported separately; what follows assumes that there was none
            q = self.quantify('any', psegs)
            s = self.assume(st.copy(), q, False) if q is not TRUE else None
            if s is not None:
                st.conds = s.conds
        return segs, pan

    def mk_iter(self, segs):
        return N('iter', tuple((g, tuple(sorted(a, key=self.alt_key))) for g, a in segs if a))

    @staticmethod
    def alt_key(a):
        return tuple((k[0], k[1].id) for k, _ in a[0]), a[1].id if isinstance(a[1], Node) else 0

    def simple(self, it):
        """(k, lo, hi, rev, elem) when the iterator is one unconditional single-generator segment."""
        if it.op == 'iter' and len(it.a[0]) == 1:
            gens, alts = it.a[0][0]
            if len(gens) == 1 and len(alts) == 1 and not alts[0][0]:
                k, lo, hi, rev = gens[0]
                return k, lo, hi, rev, alts[0][1]
        return None

    def iter_len(self, it):
        n = num(0)
        if it.op != 'iter':
            return call('len_iter', it)
        for gens, alts in it.a[0]:
            if not gens and len(alts) == 1 and not alts[0][0]:
                n = add(n, num(1))
            elif len(gens) == 1 and len(alts) == 1 and not alts[0][0] and not contains(tup(gens[0][1], gens[0][2]), lambda x: x.op == 'k' and False):
                n = add(n, sub(gens[0][2], gens[0][1]))
            else:
                n = add(n, T.mksum(gens, tuple((c, num(1)) for c, _ in alts)))
        return n

    def iter_vec(self, st, it):
        """The sequence of elements as a vector term."""
        parts = []
        for gens, alts in it.a[0]:
            if not gens and len(alts) == 1 and not alts[0][0]:
                parts.append(('one', self.reify(st, alts[0][1])))
            else:
                parts.append(('for', gens, tuple((c, (('one', self.reify(st, e)),)) for c, e in alts)))
        return vec(tuple(parts))

    def quantify(self, kind, it_segs):
        """exists/forall as a boolean term; segs: [(gens, [(conds, bool term)])]"""
        ex = []
        for gens, alts in it_segs:
            cs = []
            for c, b in alts:
                if b is FALSE:
                    continue
                if not gens and not c and b is TRUE:
                    return TRUE
                cs.append((c, b))
            if cs:
                ex.append((gens, tuple(sorted(cs, key=self.alt_key))))
        if not ex:
            return FALSE
        if len(ex) == 1 and not ex[0][0] and len(ex[0][1]) == 1 and not ex[0][1][0][0]:
            return ex[0][1][0][1]
        return N('any', tuple(ex))

    def fork_alts(self, segs_alts):
        """Turn boolean alternatives into conditions: [(conds, bool)] -> [(conds,)] where true."""
        return segs_alts

    def iterators(self, fr, st, callee, selft, tr, path, meth, g, vals, tys, span, h):
        D = lambda i: self.deref(st, vals[i])
        # sources
        if vals and selft and (tr in ('IntoIterator', 'Iterator', 'Itertools', 'DoubleEndedIterator')) and meth != 'next' and vals[0].op != 'ref':
            it = self.crate_iter(fr, st, selft.strip(), vals[0])
            if it is not None:
                vals = [it] + list(vals[1:])
        if meth in ('into_iter',) and tr == 'IntoIterator':
            ty = selft.strip()
            v = D(0)
            if v.op in ('iter', 'iteradv'):
                return [(st, vals[0] if vals[0].op == 'ref' and vals[0].op != v.op and ty.startswith('&mut') else v)]
            if head(ty) == 'Option':
                return self.option(fr, st, 'iter' if ty.startswith('&') else 'into_iter', g, vals, tys, span)
            return [(st, self.to_iter(fr, st, vals[0], mutable=ty.startswith('&mut'), owned=not ty.startswith('&')))]
        if tr is None and meth in ('iter', 'iter_mut', 'drain', 'into_values', 'into_keys') and len(vals) == 1 and h not in ('Option', 'Result'):
            if h in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet', 'FIFOSet', 'EnumMap') and h in ('HashMap', 'BTreeMap'):
                v = self.reify(st, D(0))
                c = call(meth, v)
                return [(st, N('iter', tuple(self.gen_over(st, c, None))))]
            return [(st, self.to_iter(fr, st, vals[0], mutable=meth == 'iter_mut'))]
        if tr is None and meth in ('keys', 'values', 'values_mut', 'lines', 'chars', 'split_whitespace', 'char_indices', 'bytes'):
            c = call(meth, self.reify(st, D(0)))
            return [(st, N('iter', tuple(self.gen_over(st, c, None))))]
        if tr is None and meth in ('windows', 'chunks', 'chunks_exact', 'array_windows') and len(vals) == 2:
            if meth == 'windows' and T.is_num(D(1)):
                base = vals[0]
                x = D(0)
                n = add(sub(length(x), D(1)), num(1))
                k = self.new_k(st, num(0), n)
                if base.op == 'ref':
                    e = N('ref', base.a[0], base.a[1] + (('sl', k, add(k, D(1))),))
                else:
                    e = proj(x, ('sl', k, add(k, D(1))))
                return [(st, N('iter', ((((k, num(0), n, False),), (((), e),)),)))]
            return [(st, N('iter', tuple(self.gen_over(st, call(meth, self.reify(st, D(0)), D(1)), None))))]
        if meth in ('once',) and tr is None and len(vals) == 1:
            return [(st, N('iter', (((), (((), vals[0]),)),)))]
        if meth == 'empty' and tr is None and path and 'iter' in path:
            return [(st, N('iter', ()))]
        if meth == 'repeat' and path and 'str' not in path and len(vals) == 1:
            k = self.new_k(st, num(0), INF)
            return [(st, N('iter', ((((k, num(0), INF, False),), (((), vals[0]),)),)))]
        if not (tr in ('Iterator', 'Itertools', 'DoubleEndedIterator', 'ExactSizeIterator', 'PeekingNext')
                or (h in ('Peekable', 'Iter', 'IterMut', 'IntoIter', 'Copied') and tr is None)):
            return None
        if meth not in ITER_ADAPT and meth not in ITER_TERM:
            if meth in ('peek', 'next_if', 'peek_mut'):
                pass
            # unknown adapter: opaque sequence
            if tr in ('Iterator', 'Itertools') and meth in ('skip_while', 'take_while', 'scan', 'step_by', 'cycle', 'sorted', 'dedup',
                                                           'unique', 'map_while', 'tuple_windows', 'interleave', 'sorted_by_key',
                                                           'cartesian_product', 'merge'):
                it = self.to_iter(fr, st, vals[0])
                base = self.iter_vec(st, it) if it.op == 'iter' else it
                c = call('it:' + meth, base, *[self.reify(st, v) for v in vals[1:]])
                return [(st, N('iter', tuple(self.gen_over(st, c, None))))]
            return None
        if meth == 'next' and tr == 'Iterator':
            return self.iter_next(fr, st, vals[0], span)
        it = self.to_iter(fr, st, vals[0])
        if it.op == 'iteradv':
            if meth in ('by_ref', 'peekable'):
                return [(st, vals[0])]
            return None
        F = lambda i: (lambda s, e: self.apply(fr, s, vals[i], [e]))
        FR = lambda i: (lambda s, e: self.apply(fr, s, vals[i], [self.temp(s, e)]))
        if meth in ('cloned', 'copied'):
            segs, pan = self.alt_map(fr, st, it, lambda s, e: [(s, self.deref(s, e))])
            return [(st, self.mk_iter(segs))]
        if meth in ('peekable', 'fuse', 'inspect'):
            return [(st, it)]
        if meth == 'by_ref':
            return [(st, vals[0])]
        if meth in ('map', 'filter', 'filter_map') and it.op == 'iter':
            try:
                return self.pure_adapter(fr, st, it, meth, vals)
            except Stateful:
                return self.stateful_adapter(fr, st, it, meth, vals, span)
        if meth in ('flat_map', 'flatten'):
            nsegs, pan = [], []
            for gens, alts in it.a[0]:
                body = []           # per alternative of one outer element: the inner segments
                for conds, e in alts:
                    s = st.copy()
                    s.binders = s.binders + tuple(gens)
                    s = self.assume_all(s, conds)
                    if s is None:
                        continue
                    for s2, x in (self.apply(fr, s, vals[1], [e]) if meth == 'flat_map' else [(s, e)]):
                        if x is None:
                            pan.append((s2, None))
                            continue
                        xv = self.deref(s2, x)
                        results = []
                        if xv.op not in ('iter', 'vec', 'rep') and (
                                xv.op == 'adt' and xv.a[0] == 'Option' or 'Option' in callee and meth == 'flatten'):
                            for s3, var, p in self.match_opt(s2, xv):
                                if var == 'Some':
                                    results.append((s3, N('iter', (((), (((), p),)),))))
                        else:
                            results.append((s2, self.to_iter(fr, s2, x, used=())))
                        for s3, inner in results:
                            for r in s3.mem:
                                if r not in st.mem:
                                    st.mem[r] = s3.mem[r]
                            dc = self.delta_conds(s3, st)
                            if inner.op != 'iter':
                                return None
                            if inner.a[0]:
                                body.append((s3, dc, inner))
                if not body:
                    continue
                shapes = {tuple(tuple(ig) for ig, _ in inner.a[0]) for _, _, inner in body}
                if not gens and len(body) == 1 or len(shapes) == 1 and len(next(iter(shapes))) == 1:
                    # every outer element gives at most one run of inner elements, of the same extent
                    for n in range(len(body[0][2].a[0])):
                        nsegs.append((tuple(gens) + tuple(body[0][2].a[0][n][0]),
                                      tuple((self.merge_conds(dc, c), ee) for _, dc, inner in body for c, ee in inner.a[0][n][1])))
                else:
                    v = vec((('for', tuple(gens), tuple((dc, T.vec_parts(self.iter_vec(s3, inner))) for s3, dc, inner in body)),))
                    nsegs.extend(self.gen_over(st, v, None))
            return pan + [(st, self.mk_iter(nsegs))]
        if meth == 'enumerate':
            segs, off = [], num(0)
            for gens, alts in it.a[0]:
                if not gens and len(alts) == 1 and not alts[0][0]:
                    segs.append((gens, (((), tup(off, alts[0][1])),)))
                    off = add(off, num(1)) if off is not None else None
                elif len(gens) == 1 and len(alts) == 1 and not alts[0][0] and off is not None:
                    k, lo, hi, rev = gens[0]
                    pos = sub(k, lo) if not rev else sub(sub(hi, num(1)), k)
                    segs.append((gens, (((), tup(add(off, pos), alts[0][1])),)))
                    off = add(off, sub(hi, lo))
                elif len(gens) == 1 and off is not None and self.exhaustive(st, alts):
                    k, lo, hi, rev = gens[0]
                    pos = sub(k, lo) if not rev else sub(sub(hi, num(1)), k)
                    segs.append((gens, tuple((c, tup(add(off, pos), e)) for c, e in alts)))
                    off = add(off, sub(hi, lo))
                else:
                    p = call('pos', N('iter', it.a[0]), *[b[0] for b in gens])
                    segs.append((gens, tuple((c, tup(p, e)) for c, e in alts)))
                    off = add(off if off is not None else num(0), T.mksum(gens, tuple((c, num(1)) for c, _ in alts)))
            return [(st, N('iter', tuple(segs)))]
        if meth == 'rev':
            segs = tuple((tuple((k, lo, hi, not rev) for k, lo, hi, rev in gens), alts) for gens, alts in reversed(it.a[0]))
            return [(st, N('iter', segs))]
        if meth == 'chain':
            o = self.to_iter(fr, st, vals[1], owned=True)
            if o.op != 'iter':
                return None
            return [(st, N('iter', it.a[0] + o.a[0]))]
        if meth in ('skip', 'take'):
            sp = self.simple(it)
            if sp is None:
                c = call('it:' + meth, self.iter_vec(st, it), D(1))
                return [(st, N('iter', tuple(self.gen_over(st, c, None))))]
            k, lo, hi, rev, e = sp
            n = D(1)
            at = k
            if meth == 'skip':
                nlo, nhi = lo, sub(hi, n) if hi is not INF else hi
                if not rev:
                    at = add(k, n)
            elif hi is INF:
                nlo, nhi = lo, add(lo, n)
            else:
                out = []
                for s, t in self.fork(st, sgn(sub(n, sub(hi, lo)), (0, 1))):
                    a, b = (lo, hi) if t else (lo, add(lo, n))
                    k2 = self.new_k(s, a, b)
                    at = k2 if t or not rev else add(k2, sub(sub(hi, lo), n))
                    out.append((s, N('iter', ((((k2, a, b, rev),), (((), self.subst_ref(e, {k: at})),)),))))
                return out
            k2 = self.new_k(st, nlo, nhi)
            return [(st, N('iter', ((((k2, nlo, nhi, rev),), (((), self.subst_ref(e, {k: subst(at, {k: k2})})),)),)))]
        if meth == 'zip':
            o = self.to_iter(fr, st, vals[1], owned=not tys[1].startswith('&') if len(tys) > 1 else True)
            a, b = self.simple(it), self.simple(o) if o.op == 'iter' else None
            if a and b:
                k1, lo1, hi1, r1, e1 = a
                k2, lo2, hi2, r2, e2 = b
                n1 = sub(hi1, lo1) if hi1 is not INF else INF
                n2 = sub(hi2, lo2) if hi2 is not INF else INF
                if n1 is n2 or n2 is INF:
                    n, first = n1, True
                elif n1 is INF:
                    n, first = n2, False
                else:
                    n, first = call('min', *sorted((n1, n2), key=lambda x: x.id)), True
                if r1 != r2 and INF in (n1, n2):
                    return None
                if first:
                    lo, r, k = lo1, r1, k1
                    hi = hi1 if n is n1 else add(lo1, n)
                else:
                    lo, r, k = lo2, r2, k2
                    hi = hi2
                nk = self.new_k(st, lo, hi) if hi not in (hi1 if first else hi2,) else k
                off = sub(nk, lo)
                if r1 != r2:
                    m1 = {k1: add(lo1, off)}
                    m2 = {k2: sub(sub(hi2, num(1)), off)} if r2 != r else {k2: add(lo2, off)}
                else:
                    m1, m2 = {k1: add(lo1, off)}, {k2: add(lo2, off)}
                    if r1 and n1 is not n2:
                        return None
                e = tup(self.subst_ref(e1, m1), self.subst_ref(e2, m2))
                return [(st, N('iter', ((((nk, lo, hi, r),), (((), e),)),)))]
            va, vb = self.iter_vec(st, it), (self.iter_vec(st, o) if o.op == 'iter' else o)
            n1, n2 = length(va), length(vb)
            n = n1 if n1 is n2 else call('min', *sorted((n1, n2), key=lambda x: x.id))
            k = self.new_k(st, num(0), n)
            return [(st, N('iter', ((((k, num(0), n, False),), (((), tup(proj(va, ('i', k)), proj(vb, ('i', k)))),)),)))]
        # ---- terminal operations
        if meth in ('count', 'len') and len(vals) == 1:
            return [(st, self.iter_len(it))]
        if meth == 'size_hint':
            n = self.iter_len(it)
            return [(st, tup(n, some(n)))]
        if meth == 'sum':
            t = num(0)
            for gens, alts in it.a[0]:
                al = tuple((c, self.deref(st, e)) for c, e in alts)
                if not gens and len(al) == 1 and not al[0][0]:
                    t = add(t, al[0][1])
                else:
                    t = add(t, T.mksum(gens, al))
            return [(st, t)]
        if meth in ('any', 'all'):
            def f(s, e):
                out = []
                for s2, b in self.apply(fr, s, vals[1], [e]):
                    if b is None:
                        out.append((s2, None))
                    else:
                        for s3, t in self.fork(s2, b):
                            if t == (meth == 'any'):
                                out.append((s3, TRUE))
                return out
            base = dict(st.mem), dict(st.conds)
            try:
                segs, pan = self.alt_map(fr, st, it, f)
            except Stateful:
                st.mem, st.conds = base
                return self.stateful_any(fr, st, it, meth, vals, span)
            r = self.quantify('any', segs)
            return pan + [(st, r if meth == 'any' else bnot(r))]
        if meth in ('find', 'find_map', 'position'):
            def f(s, e):
                out = []
                arg = e if meth == 'find_map' or meth == 'position' else self.temp(s, e)
                for s2, b in self.apply(fr, s, vals[1], [arg]):
                    if b is None:
                        out.append((s2, None))
                    elif meth == 'find_map':
                        for s3, var, p in self.match_opt(s2, b):
                            if var == 'Some':
                                out.append((s3, p))
                    else:
                        for s3, t in self.fork(s2, b):
                            if t:
                                out.append((s3, e))
                return out
            segs, pan = self.alt_map(fr, st, it, f)
            out = list(pan)
            none = self.quantify('any', [(g_, [(c, TRUE) for c, e in a]) for g_, a in segs])
            for gens, alts in segs:
                for c, e in alts:
                    s = self.assume_all(st.copy(), c)
                    if s is None:
                        continue
                    if none.op == 'any':
                        s = self.assume(s, none, True)
                        if s is None:
                            continue
                    for gk, lo, hi, rev in gens:
                        s.witness = s.witness + ((gk, lo, hi, rev),)
                    if meth == 'position':
                        if len(gens) == 1:
                            e = sub(gens[0][0], gens[0][1])
                        else:
                            e = call('pos', *[x[0] for x in gens])
                    out.append((s, some(e)))
            s = self.assume(st.copy(), none, False)
            if s is not None:
                out.append((s, NONE))
            return out
        if meth in ('collect', 'collect_vec'):
            return self.collect(fr, st, it, g, meth)
        if meth in ('for_each', 'fold', 'try_for_each'):
            return self.iter_fold(fr, st, it, meth, vals, span)
        if meth in ('min', 'max', 'min_by_key', 'max_by_key', 'min_by', 'max_by', 'last', 'product', 'nth', 'next_back',
                    'unzip', 'partition', 'all_unique', 'all_equal'):
            v = self.iter_vec(st, it)
            if meth in ('min_by_key', 'max_by_key'):
                segs, pan = self.alt_map(fr, st, it, lambda s, e: self.apply(fr, s, vals[1], [self.temp(s, e)]))
                keys = self.iter_vec(st, self.mk_iter(segs))
                r = call(meth, v, keys)
            elif meth == 'unzip':
                def pick(i):
                    segs, _ = self.alt_map(fr, st, it, lambda s, e: [(s, fld(self.deref(s, e), str(i)))])
                    return self.iter_vec(st, self.mk_iter(segs))
                return [(st, tup(pick(0), pick(1)))]
            elif meth == 'partition':
                def sel(want):
                    def f(s, e):
                        out = []
                        for s2, b in self.apply(fr, s, vals[1], [self.temp(s, e)]):
                            if b is None:
                                continue
                            for s3, t in self.fork(s2, b):
                                if t == want:
                                    out.append((s3, e))
                        return out
                    segs, _ = self.alt_map(fr, st, it, f)
                    return self.iter_vec(st, self.mk_iter(segs))
                return [(st, tup(sel(True), sel(False)))]
            elif meth in ('min_by', 'max_by'):
                a, b = sym('x'), sym('y')
                res = self.apply(fr, st.copy(), vals[1], [self.temp(st, a), self.temp(st, b)])
                cmpv = tuple(sorted((self.reify(s, x) for s, x in res if x is not None), key=lambda n: n.id))
                r = call(meth, v, N('cmpfn', cmpv))
            elif meth in ('nth',):
                r = call(meth, v, D(1))
            else:
                r = call(meth, v)
            if meth in ('all_unique', 'all_equal', 'product'):
                return [(st, r)]
            return [(st, r)]
        return None

    def exhaustive(self, st, alts):
        """Alternatives cover every case of one discriminating fact (sign or enum)."""
        keys = None
        for c, _ in alts:
            ks = {k for k, _ in c}
            keys = ks if keys is None else keys & ks
        if not keys or any(len(c) != 1 for c, _ in alts):
            return False
        k = next(iter(keys))
        if k[0] == 'b':
            return len({t for c, _ in alts for t in c[0][1]}) == 2
        if k[0] == 'lin':
            los = any(iv[0] is None for c, _ in alts for iv in c[0][1][1])
            his = any(iv[2] is None for c, _ in alts for iv in c[0][1][1])
            return los and his and len(alts) >= 2
        return False

    def merge_conds(self, a, b):
        d = dict(a)
        for k, c in b:
            if k in d and k[0] == 'lin':
                d[k] = ('iv', T.iv_intersect(d[k][1], c[1]), c[2])
            else:
                d[k] = c
        return tuple(sorted(d.items(), key=lambda t: (t[0][0], t[0][1].id)))

    def subst_ref(self, e, m):
        """Substitution that also reaches the paths of references."""
        if e.op == 'ref':
            return N('ref', e.a[0], tuple(tuple(subst(x, m) if isinstance(x, Node) else x for x in p) for p in e.a[1]))
        if e.op == 'tup':
            return tup(*[self.subst_ref(x, m) for x in e.a[0]])
        return subst(e, m)

    def collect(self, fr, st, it, g, meth):
        t = g.strip() or 'Vec'
        h = head(t)
        if h == 'Result' or h == 'Option':
            ename = h
            good, bad = ('Ok', 'Err') if h == 'Result' else ('Some', 'None')
            okseg, badany = [], []

            def f(want):
                def ff(s, e):
                    v = self.deref(s, e)
                    out = []
                    for s2, var in self.split_disc(s, v, ename):
                        if var == want:
                            out.append((s2, pay(v, var) if var != 'None' else UNIT))
                    return out
                return ff
            gs, _ = self.alt_map(fr, st, it, f(good))
            bs, _ = self.alt_map(fr, st, it, f(bad))
            out = []
            anybad = self.quantify('any', [(gn, [(c, TRUE) for c, e in al]) for gn, al in bs])
            s = self.assume(st.copy(), anybad, False)
            if s is not None:
                # inside the Ok result every element is good: drop the facts that say so
                segs = []
                for (gn, al), (gn0, al0) in zip(gs, it.a[0]):
                    segs.append((gn, [(tuple(x for x in c if not (x[0][0] == 'disc' and x[1] == frozenset([good]))), e) for c, e in al]))
                v = self.iter_vec(s, self.mk_iter(segs))
                inner = split_top(t[t.index('<') + 1:find_close(t, t.index('<'))])[0]
                v = self.wrap_collect(v, head(inner))
                out.append((s, adt(h, good, (('0', v),))))
            for gn, al in bs:
                for c, e in al:
                    s = self.assume_all(st.copy(), c)
                    if s is None:
                        continue
                    s = self.assume(s, anybad, True) if anybad is not TRUE else s
                    if s is None:
                        continue
                    s.witness = s.witness + tuple(gn)
                    out.append((s, adt('Result', 'Err', (('0', e),)) if h == 'Result' else NONE))
            return out
        v = self.iter_vec(st, it)
        return [(st, self.wrap_collect(v, h))]

    def wrap_collect(self, v, h):
        if h in ('Vec', '_', '[', 'Box', 'VecDeque'):
            return v
        return call('collect:' + ('set' if h in ('HashSet', 'BTreeSet') else h), v)

    def iter_next(self, fr, st, ref, span):
        root, pth = self.deref_loc(st, ref)
        while True:
            it = self.read_at(st, root, pth)
            if it.op == 'ref':
                root, pth = it.a[0], it.a[1]
            else:
                break
        if it.op == 'adt' and it.a[0].startswith('Range'):
            it = self.to_iter(fr, st, it)
            st = st.copy()
            st.mem[root] = update(st.read(root), pth, it)
        out = []
        if it.op == 'iter':
            g0 = st.gen.get(root)
            is_gen = False
            if g0 is not None:
                x = g0
                for e in pth:
                    x = proj(x, e)
                is_gen = x is it
            if is_gen:
                for gens, alts in it.a[0]:
                    for conds, e in alts:
                        s = st.copy()
                        s.binders = s.binders + tuple(gens)
                        s = self.assume_all(s, conds)
                        if s is None:
                            continue
                        s.mem[root] = update(s.read(root), pth, N('iteradv', it))
                        s.advanced = s.advanced + (((root, pth), 'some'),)
                        out.append((s, some(e)))
                s = st.copy()
                s.mem[root] = update(s.read(root), pth, N('iter', ()))
                s.advanced = s.advanced + (((root, pth), 'none'),)
                out.append((s, NONE))
                return out
            # sequential use
            if not it.a[0]:
                return [(st, NONE)]
            gens, alts = it.a[0][0]
            rest = it.a[0][1:]
            if not gens and len(alts) == 1 and not alts[0][0]:
                s = st.copy()
                s.mem[root] = update(s.read(root), pth, N('iter', rest))
                return [(s, some(alts[0][1]))]
            if len(gens) == 1 and len(alts) == 1 and not alts[0][0]:
                k, lo, hi, rev = gens[0]
                e = alts[0][1]
                for s, t in self.fork(st, sgn(sub(hi, lo), (1,))) if hi is not INF else [(st.copy(), True)]:
                    if t:
                        s = s.copy()
                        nlo, nhi = lo, sub(hi, num(1)) if hi is not INF else hi
                        k2 = self.new_k(s, nlo, nhi)
                        seg = (((k2, nlo, nhi, rev),), (((), self.subst_ref(e, {k: add(k2, num(1)) if not rev else k2})),))
                        s.mem[root] = update(s.read(root), pth, N('iter', (seg,) + rest))
                        out.append((s, some(self.subst_ref(e, {k: lo if not rev else sub(hi, num(1))}))))
                    elif not rest:
                        s = s.copy()
                        s.mem[root] = update(s.read(root), pth, N('iter', ()))
                        out.append((s, NONE))
                    else:
                        s = s.copy()
                        s.mem[root] = update(s.read(root), pth, N('iter', rest))
                        out.extend(self.iter_next(fr, s, ref, span))
                return out
        r = call('next', self.reify(st, it) if it.op != 'undef' else it)
        st = st.copy()
        if it.op != 'iteradv':
            st.mem[root] = update(st.read(root), pth, call('next!', it))
            if root[0] == 'S':
                st.eff = st.eff + (('call', 'Iterator::next', (it,), span),)
        else:
            self.unmodelled['second next in an iteration'] = self.unmodelled.get('second next in an iteration', 0) + 1
        return [(st, r)]

    def iter_fold(self, fr, st, it, meth, vals, span):
        """for_each / fold as a loop over the segments."""
        if meth == 'try_for_each':
            return None
        states = [(st, vals[1] if meth == 'fold' else UNIT)]
        for gens, alts in it.a[0]:
            nxt = []
            for s0, acc in states:
                if acc is None:
                    nxt.append((s0, None))
                    continue
                if not gens and len(alts) == 1 and not alts[0][0]:
                    e = alts[0][1]
                    if meth == 'fold':
                        nxt.extend(self.apply(fr, s0, vals[2], [acc, e]))
                    else:
                        nxt.extend(self.apply(fr, s0, vals[1], [e]))
                    continue
                accloc = ('L', self.fresh(), 'acc')
                s1 = s0.copy()
                s1.mem[accloc] = acc

                def body(entry, gens=gens, alts=alts):
                    outs = []
                    for conds, e in alts:
                        s = entry.copy()
                        s.binders = s.binders + tuple(gens)
                        s = self.assume_all(s, conds)
                        if s is None:
                            continue
                        a = [s.read(accloc), e] if meth == 'fold' else [e]
                        s.advanced = s.advanced + ((accloc, 'some'),)
                        for s2, v in self.apply(fr, s, vals[2] if meth == 'fold' else vals[1], a):
                            if v is None:
                                outs.append(('panic', s2, (span, 'closure')))
                                continue
                            if meth == 'fold':
                                s2.mem[accloc] = v
                            outs.append(('back', s2))
                    s = entry.copy()
                    s.advanced = s.advanced + ((accloc, 'none'),)
                    outs.append(('exit', s, None))
                    return outs
                for o in self.generic_loop(fr, s1, body, None, ('iterfold', accloc[1])):
                    if o[0] == 'goto':
                        nxt.append((o[1], o[1].read(accloc)))
                    else:
                        nxt.append((o[1], None))
            states = nxt
        return [(s, (a if meth == 'fold' else UNIT) if a is not None else None) for s, a in states]

    # ------------------------------------------------------------------ collections
    def collections(self, fr, st, selft, tr, trait, path, meth, g, vals, tys, span, h, callee_text=''):
        D = lambda i: self.deref(st, vals[i])

        def loc():
            root, pth = self.deref_loc(st, vals[0])
            while True:
                x = self.read_at(st, root, pth)
                if x.op == 'ref':
                    root, pth = x.a[0], x.a[1]
                else:
                    return root, pth

        def put(val, ret=UNIT):
            s = st.copy()
            root, pth = loc()
            self.write(s, root, pth, val, span)
            return [(s, ret)]
        if tr in ('Index', 'IndexMut'):
            return self.index(fr, st, selft, trait, vals, tys, span)
        if meth == 'inner_product_slice_iter' and len(vals) == 2:
            pass
        if meth == 'from_elem' and len(vals) == 2:
            return [(st, N('rep', self.reify(st, vals[0]), D(1)))]
        if meth in ('new', 'with_capacity', 'default') and h in ('Vec', 'String', 'HashMap', 'HashSet', 'BTreeMap', 'BTreeSet', 'FIFOSet', 'VecDeque'):
            return [(st, vec(()) if h in ('Vec', 'VecDeque') else call('empty:' + h))]
        if meth == 'from_array' and 'EnumMap' in callee_text:
            m = re.search(r'EnumMap::<([\w:]+),', callee_text)
            vs = self.variants(m.group(1)) if m else None
            a = D(0)
            if vs:
                v = call('empty:EnumMap')
                for i, (name, _) in enumerate(vs):
                    v = update(v, (('i', adt(last_seg(m.group(1)), name)),), proj(a, ('i', num(i))))
                return [(st, v)]
            return None
        if meth == 'split_first_mut' or meth == 'split_at_mut' and len(vals) == 2:
            base = vals[0]
            while base.op == 'ref':
                x = self.read_at(st, base.a[0], base.a[1])
                if x.op == 'ref':
                    base = x
                else:
                    break
            if base.op == 'ref':
                from absint import norm_path
                n = length(D(0))
                self.mark_int(n, True)
                R = lambda e: N('ref', base.a[0], norm_path(base.a[1] + (e,)))
                if meth == 'split_at_mut':
                    return [(st, tup(R(('sl', num(0), D(1))), R(('sl', D(1), n))))]
                out = []
                for s, t in self.fork(st, sgn(n, (1,))):
                    out.append((s, some(tup(R(('i', num(0))), R(('sl', num(1), n)))) if t else NONE))
                return out
        seq = h in ('Vec', '[', 'VecDeque', 'slice', 'FIFOSet', 'str', 'String', 'HashMap', 'HashSet', 'BTreeMap', 'BTreeSet', 'EnumMap') \
            or (path or '').startswith(('core::slice', 'std::slice', 'alloc::slice', 'core::str', 'std::str', 'alloc::str'))
        if tr == 'Extend' and meth == 'extend':
            it = self.to_iter(fr, st, vals[1], owned=True)
            if it.op != 'iter':
                return None
            if h == 'Vec':
                return put(vec(vec_parts(D(0)) + vec_parts(self.iter_vec(st, it))))
            return put(call('extend', D(0), self.iter_vec(st, it)))
        if h in ('Entry', 'OccupiedEntry', 'VacantEntry') and tr is None:
            r = self.map_entry(fr, st, meth, vals, h)
            if r is not None:
                return r
        if tr == 'Sum' or tr == 'FromIterator':
            return None
        if not seq or tr is not None:
            return None
        if meth == 'len':
            n = length(D(0))
            self.mark_int(n, True)
            return [(st, n)]
        if meth == 'is_empty':
            n = length(D(0))
            self.mark_int(n, True)
            return [(st, sgn(n, (0,)))]
        if meth == 'push' and len(vals) == 2:
            if h == 'FIFOSet' or h == 'String':
                x = self.reify(st, D(0))
                r = put(call('push', x, self.reify(st, vals[1])))
                return [(s, call('pushed', x, self.reify(st, vals[1])) if h == 'FIFOSet' else u) for s, u in r]
            return put(vec(vec_parts(D(0)) + (('one', vals[1]),)))
        if meth in ('push_str',):
            return put(call('push', D(0), D(1)))
        if meth in ('reserve', 'shrink_to_fit'):
            return [(st, UNIT)]
        if meth == 'clear':
            return put(vec(()) if h == 'Vec' else call('empty:' + h))
        if meth == 'truncate':
            return put(proj(D(0), ('sl', num(0), D(1))))
        if meth == 'append' and h == 'Vec':
            r2, p2 = self.deref_loc(st, vals[1])
            s = st.copy()
            root, pth = loc()
            self.write(s, root, pth, vec(vec_parts(D(0)) + vec_parts(D(1))), span)
            self.write(s, r2, p2, vec(()), span)
            return [(s, UNIT)]
        if meth == 'extend_from_slice':
            return put(vec(vec_parts(D(0)) + vec_parts(D(1))))
        if meth == 'resize' and len(vals) == 3:
            v = D(0)
            if v.op == 'vec' and not v.a[0]:
                return put(N('rep', vals[2], D(1)))
            return put(vec(vec_parts(v) + (('all', N('rep', self.reify(st, vals[2]), sub(D(1), length(v)))),)))
        if meth == 'pop' and h in ('Vec', 'FIFOSet', 'String', 'VecDeque'):
            v = D(0)
            n = length(v)
            out = []
            if h == 'FIFOSet':
                x = self.reify(st, v)
                return put(call('pop!', x), call('pop', x))
            for s, t in self.fork(st, sgn(n, (1,))):
                if not t:
                    out.append((s, NONE))
                    continue
                root, pth = loc()
                s = s.copy()
                if v.op == 'vec' and v.a[0] and v.a[0][-1][0] == 'one':
                    nv, e = vec(v.a[0][:-1]), v.a[0][-1][1]
                else:
                    e = proj(v, ('i', sub(n, num(1))))
                    nv = proj(v, ('sl', num(0), sub(n, num(1))))
                self.write(s, root, pth, nv, span)
                out.append((s, some(e)))
            return out
        if meth in ('first', 'last', 'get', 'get_mut', 'first_mut', 'last_mut', 'split_first', 'split_last') and h not in ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet'):
            v = D(0)
            n = length(v)
            self.mark_int(n, True)
            out = []
            if meth in ('get', 'get_mut'):
                i = D(1)
                if i.op == 'adt':
                    return [(st, call('get', self.reify(st, v), i))]
                cond = sgn(sub(n, i), (1,))
                self.mark_int(i, True)
            else:
                i = num(0) if 'first' in meth else sub(n, num(1))
                cond = sgn(n, (1,))
            base = vals[0]
            while base.op == 'ref':
                x = self.read_at(st, base.a[0], base.a[1])
                if x.op == 'ref':
                    base = x
                else:
                    break
            for s, t in self.fork(st, cond):
                if not t:
                    out.append((s, NONE))
                elif meth.startswith('split'):
                    e = proj(v, ('i', i))
                    rest = proj(v, ('sl', num(1), n)) if meth == 'split_first' else proj(v, ('sl', num(0), sub(n, num(1))))
                    out.append((s, some(tup(e, rest))))
                else:
                    from absint import norm_path
                    e = N('ref', base.a[0], norm_path(base.a[1] + (('i', i),))) if base.op == 'ref' else proj(v, ('i', i))
                    out.append((s, some(e)))
            return out
        if meth == 'contains' and len(vals) == 2:
            v, x = self.reify(st, D(0)), self.reify(st, D(1))
            if v.op == 'vec' and all(p[0] == 'one' for p in v.a[0]) and len(v.a[0]) <= 8:
                cur = [(st, FALSE)]
                for p in v.a[0]:
                    nxt = []
                    for s, r in cur:
                        if r is TRUE:
                            nxt.append((s, r))
                            continue
                        for s2, q in self.eq_values(s, p[1], x, '?'):
                            for s3, t in self.fork(s2, q):
                                nxt.append((s3, T.boolean(t)))
                    cur = nxt
                return cur
            return [(st, call('contains', v, x))]
        if meth in ('contains_key',):
            v, k = self.reify(st, D(0)), self.reify(st, D(1))
            r = self.map_get(v, k)
            if r.op == 'adt':
                return [(st, T.boolean(r.a[1] == 'Some'))]
            return [(st, N('isv', r, frozenset(['Some']), frozenset(('Some', 'None'))))]
        if h in ('HashMap', 'BTreeMap'):
            v = self.reify(st, D(0))
            if meth in ('get', 'get_mut'):
                k = self.reify(st, D(1))
                r = self.map_get(v, k)
                if meth == 'get_mut' and vals[0].op == 'ref':
                    out = []
                    for s, var, p in self.match_opt(st, r):
                        if var == 'None':
                            out.append((s, NONE))
                        else:
                            root, pth = loc()
                            out.append((s, some(N('ref', root, pth + (('i', k),)))))
                    return out
                return [(st, r)]
            if meth == 'insert':
                k, x = self.reify(st, vals[1]), self.reify(st, vals[2])
                return put(call('insert', v, k, x), self.map_get(v, k))
            if meth == 'remove':
                k = self.reify(st, D(1))
                return put(call('remove', v, k), self.map_get(v, k))
            if meth in ('pop_last', 'pop_first'):
                return put(call(meth + '!', v), call(meth, v))
            if meth == 'entry' and tr is None and vals[0].op == 'ref':
                k = self.reify(st, D(1))
                root, pth = loc()
                where = (('map', N('ref', root, pth)), ('key', k))
                return [(s, adt('Entry', 'Occupied', (('0', adt('OccupiedEntry', None, where)),)) if var == 'Some' else
                         adt('Entry', 'Vacant', (('0', adt('VacantEntry', None, where)),)))
                        for s, var, _ in self.match_opt(st, self.map_get(v, k))]
        if h in ('HashSet', 'BTreeSet'):
            v = self.reify(st, D(0))
            if meth == 'insert':
                k = self.reify(st, vals[1])
                return put(call('insert', v, k), bnot(call('contains', v, k)))
            if meth == 'remove':
                k = self.reify(st, D(1))
                return put(call('remove', v, k), call('contains', v, k))
        if meth in ('sort', 'sort_unstable'):
            return put(call('sorted', self.reify(st, D(0))))
        if meth in ('sort_by_key', 'sort_unstable_by_key', 'sort_by_cached_key', 'sort_by', 'sort_unstable_by'):
            v = self.reify(st, D(0))
            x, y = sym('x'), sym('y')
            args = [self.temp(st, x)] + ([self.temp(st, y)] if meth in ('sort_by', 'sort_unstable_by') else [])
            res = self.apply(fr, st.copy(), vals[1], args)
            keys = tuple((self.delta_conds(s, st), self.reify(s, r)) for s, r in res if r is not None)
            key = keys[0][1] if len(keys) == 1 else N('keys', keys)
            if len(args) == 2 and key.op == 'cmp':
                # comparing f(x) with f(y) is sorting by the key f(x)
                d = T.p_of(key.a[0])
                q = T.p_node({m: c for m, c in d.items() if not any(T.contains(a, lambda z: z is y) for a, _ in m)})
                if q is not num(0) and sub(q, T.subst(q, {x: y})) is key.a[0]:
                    key = q
            stable = 'unstable' not in meth
            return put(N('call', 'sorted', (v, key)))
        if meth == 'reverse':
            return put(call('reversed', self.reify(st, D(0))))
        if meth == 'swap' and len(vals) == 3:
            v, i, j = D(0), D(1), D(2)
            a, b = proj(v, ('i', i)), proj(v, ('i', j))
            if i is j:
                return [(st, UNIT)]
            root, pth = loc()
            s = st.copy()
            from absint import norm_path
            nv = T.set_elem(T.set_elem(v, ('i', i), b), ('i', j), a)
            if root[0] == 'S':
                s.eff = s.eff + (('call', 'swap', (self.reify(st, v), i, j), span),)
            s.mem[root] = update(s.read(root), norm_path(pth), nv)
            return [(s, UNIT)]
        if meth == 'retain':
            it = self.to_iter(fr, st, vals[0])
            if it.op != 'iter':
                return None

            def f(s, e):
                out = []
                for s2, b in self.apply(fr, s, vals[1], [self.temp(s, e) if e.op != 'ref' else e]):
                    if b is None:
                        out.append((s2, None))
                        continue
                    for s3, t in self.fork(s2, b):
                        if t:
                            out.append((s3, e))
                return out
            segs, pan = self.alt_map(fr, st, it, f)
            return pan + put(self.iter_vec(st, self.mk_iter(segs)))
        if meth in ('remove', 'swap_remove') and h == 'Vec':
            v, i = D(0), D(1)
            return put(call('removed' if meth == 'remove' else 'swap_removed', self.reify(st, v), i), proj(v, ('i', i)))
        if meth == 'insert' and h == 'Vec':
            return put(call('inserted', self.reify(st, D(0)), D(1), self.reify(st, vals[2])))
        if meth in ('rotate_left', 'rotate_right', 'fill'):
            return put(call(meth, self.reify(st, D(0)), D(1)))
        if meth in ('drain', 'split_off') and len(vals) == 2:
            v, r = self.reify(st, D(0)), D(1)
            res = put(call(meth + '!', v, r), None)
            s = res[0][0]
            o = call(meth, v, r)
            return [(s, N('iter', tuple(self.gen_over(s, o, None))) if meth == 'drain' else o)]
        if meth in ('dedup', 'dedup_by_key'):
            return put(call(meth, self.reify(st, D(0))))
        if meth in ('into_vec', 'into_boxed_slice', 'to_vec', 'as_slice', 'as_mut_slice', 'as_str', 'as_bytes', 'into_boxed_str',
                    'to_owned', 'as_ref'):
            return [(st, vals[0] if meth in ('as_slice', 'as_mut_slice', 'as_str', 'as_ref') else D(0))]
        if meth in ('binary_search', 'binary_search_by_key', 'binary_search_by'):
            v = self.reify(st, D(0))
            if meth == 'binary_search_by_key':
                x = sym('x')
                res = self.apply(fr, st.copy(), vals[2], [self.temp(st, x)])
                key = self.reify(res[0][0], res[0][1]) if len(res) == 1 and res[0][1] is not None else sym('?')
                return [(st, call('bsearch', v, self.reify(st, D(1)), key))]
            if meth == 'binary_search':
                return [(st, call('bsearch', v, self.reify(st, D(1)), sym('x')))]
            return [(st, call('bsearch_by', v, self.reify(st, vals[1])))]
        if meth in ('is_sorted', 'is_sorted_by_key', 'is_sorted_by'):
            return [(st, call(meth, self.reify(st, D(0))))]
        # immutable string functions
        muts = [i for i, t in enumerate(tys) if re.match(r"^&('[A-Za-z_]\w* |'_ )?mut ", t.strip())]
        if not muts:
            if h in ('str', 'String') or 'str' in (path or ''):
                nm = meth + (':' + g if meth == 'parse' else '')
                vs = [self.reify(st, v) for v in vals]
                if meth in ONE_CHAR:
                    # a pattern of one character is a pattern of that text
                    vs = vs[:1] + [N('str', v.a[0]) if v.op == 'chr' and v.a[0] != '"' else v for v in vs[1:]]
                return [(st, N('call', nm, tuple(vs)))]
            return [(st, N('call', (h if h not in ('[',) else 'slice') + '::' + meth, tuple(self.reify(st, v) for v in vals)))]
        return None

    def map_entry(self, fr, st, meth, vals, h):
        e = self.deref(st, vals[0])
        if e.op != 'adt' or e.a[0] not in ('Entry', 'OccupiedEntry', 'VacantEntry'):
            return None
        occupied = e.a[1] == 'Occupied' or e.a[0] == 'OccupiedEntry'
        where = dict((e.a[2][0][1] if e.a[0] == 'Entry' else e).a[2])
        m, k = where['map'], where['key']
        place = N('ref', m.a[0], m.a[1] + (('i', k),))

        def insert(s, x):
            s = s.copy()
            v = self.reify(s, self.deref(s, m))
            self.write(s, m.a[0], m.a[1], call('insert', v, k, self.reify(s, x)), None)
            return s
        if h == 'Entry':
            if meth in ('or_insert', 'or_default', 'or_insert_with', 'or_insert_with_key'):
                if occupied:
                    return [(st, place)]
                if meth == 'or_insert':
                    return [(insert(st, vals[1]), place)]
                if meth == 'or_default':
                    return None
                args = [self.temp(st, k)] if meth == 'or_insert_with_key' else []
                return [(s, None) if x is None else (insert(s, x), place) for s, x in self.apply(fr, st, vals[1], args)]
            if meth == 'and_modify':
                if not occupied:
                    return [(st, e)]
                return [(s, None if x is None else e) for s, x in self.apply(fr, st, vals[1], [place])]
        if meth == 'key':
            return [(st, self.temp(st, k))]
        if h == 'OccupiedEntry':
            if meth in ('get', 'get_mut', 'into_mut'):
                return [(st, place)]
            if meth == 'insert':
                s = insert(st, vals[1])
                return [(s, pay(self.map_get(self.reify(st, self.deref(st, m)), k), 'Some'))]
            if meth == 'remove':
                s = st.copy()
                v = self.reify(s, self.deref(s, m))
                self.write(s, m.a[0], m.a[1], call('remove', v, k), None)
                return [(s, pay(self.map_get(v, k), 'Some'))]
        if h == 'VacantEntry' and meth == 'insert':
            return [(insert(st, vals[1]), place)]
        raise TooComplex('map entry')

    def map_get(self, m, k):
        while m.op == 'call' and m.a[0] in ('insert', 'remove') and len(m.a[1]) >= 2 or m.op == 'upd' and m.a[1][0] == 'i':
            if m.op == 'upd':
                if m.a[1][1] is k:
                    return some(m.a[2])
                if not self.const_distinct(m.a[1][1], k):
                    break
                m = m.a[0]
                continue
            mk = m.a[1][1]
            if mk is k:
                return some(m.a[1][2]) if m.a[0] == 'insert' else NONE
            if self.const_distinct(mk, k):
                m = m.a[1][0]
            else:
                break
        if m.op == 'call' and m.a[0].startswith('empty:'):
            return NONE
        return call('get', m, k)

    def const_distinct(self, a, b):
        if a.op == 'str' and b.op == 'str':
            return a is not b
        if a.op == 'tup' and b.op == 'tup' and len(a.a[0]) == len(b.a[0]):
            return any(self.const_distinct(x, y) for x, y in zip(a.a[0], b.a[0]))
        if a.op == 'adt' and b.op == 'adt' and a.a[1] != b.a[1]:
            return True
        d = sub(a, b)
        return d.op == 'num' and d.a[0] != 0

    def index(self, fr, st, selft, trait, vals, tys, span):
        h = head(selft)
        base = vals[0]
        while base.op == 'ref':
            x = self.read_at(st, base.a[0], base.a[1])
            if x.op == 'ref':
                base = x
            else:
                break
        v = self.deref(st, base)
        i = self.deref(st, vals[1])
        if h in ('HashMap', 'BTreeMap'):
            out = []
            for s, var, p in self.match_opt(st, self.map_get(self.reify(st, v), self.reify(st, i))):
                out.append((s, p if var == 'Some' else None))
            return out
        if i.op == 'adt' and i.a[0].startswith('Range'):
            d = {n: self.deref(st, x) for n, x in i.a[2]}
            n = length(v)
            self.mark_int(n, True)
            lo = d.get('start', num(0))
            if i.a[0] == 'RangeInclusive' or i.a[0] == 'RangeToInclusive':
                hi = add(d['end'], num(1)) if 'end' in d else n
            else:
                hi = d.get('end', n)
            e = ('sl', lo, hi)
        elif i.op == 'call' and i.a[0].endswith('RangeInclusive::new'):
            e = ('sl', i.a[1][0], add(i.a[1][1], num(1)))
        else:
            e = ('i', i)
        from absint import norm_path
        if base.op == 'ref':
            return [(st, N('ref', base.a[0], norm_path(base.a[1] + (e,))))]
        if v.op not in ('vec', 'rep', 'adt', 'tup', 'upd', 'slice'):
            # external memory: keep it addressable
            return [(st, N('ref', ('S', v), (e,)))]
        return [(st, proj(v, e))]

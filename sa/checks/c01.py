"""C01: text is only cut where a character ends.

T1 boundaries   indexing a string by a range aborts unless both ends are character boundaries; every function of the
                importer that does so obtains positions from the text itself (a search, a character iteration, a
                prefix or boundary test), never from a column number alone
"""
import re

from mir import last_seg, strip_generics

CUT = re.compile(r'^<(?:str|(?:std::string::)?String) as (?:std::ops::|core::ops::)?Index(?:Mut)?<.*Range')
CUTS = {'split_at', 'split_at_mut', 'truncate', 'split_off', 'replace_range', 'drain'}
POSITIONS = {'find', 'rfind', 'char_indices', 'is_char_boundary', 'is_ascii', 'position', 'rposition', 'len_utf8', 'match_indices',
             'rmatch_indices', 'starts_with', 'ends_with', 'strip_prefix', 'strip_suffix', 'chars', 'bytes', 'as_bytes', 'floor_char_boundary',
             'ceil_char_boundary', 'get'}


def outer(fid):
    return re.sub(r'::\{closure#.*', '', fid)


def check(c):
    c.rule('boundaries', 'every function that cuts a string by positions takes these from the text or tests them')
    cuts, seen = {}, {}
    for fid, b in c.prog.fns.items():
        if not b.loc().startswith('src/io/') or '/test' in b.loc() or '::test::' in fid or '::tests::' in fid:
            continue
        o = outer(fid)
        for n, blk in b.blocks.items():
            t = blk.term
            if t is None or t.kind != 'call':
                continue
            callee = t.a[1] if isinstance(t.a[1], str) else ''
            m = last_seg(strip_generics(callee))
            if CUT.match(callee) or m in CUTS and re.search(r'(^|::|<impl )(str|String)(>|::)', callee):
                cuts.setdefault(o, []).append((t.span, callee))
            elif m in POSITIONS:
                seen.setdefault(o, set()).add(m)
    for o, sites in sorted(cuts.items()):
        key = 'boundaries:' + o
        if seen.get(o):
            c.ok(key, '%d cuts; positions from %s' % (len(sites), ', '.join(sorted(seen[o]))))
        else:
            c.violated(key, {'function': o, 'cuts a string at positions not taken from it': [s[0] for s in sites][:4]})
    c.functions |= set(cuts)
    c.ok('boundaries', '%d functions cut strings' % len(cuts))

"""C26: decision tables over relations, directions and signs.

T1 conversions  each kind of relation converts to the same relation of the richer kind; a range keeps its width
T2 reversal     negating a bound direction exchanges lower and upper; so does multiplying by a negative sign, and only then
T3 involution   negating twice, and multiplying twice by the same sign, gives back the direction
T4 equality     equality of these kinds is equality of the variant (and of the width of a range)
T5 default      a problem without stated objective sense is minimized
T6 frames       none of these functions writes to its arguments
"""
from framework import ANY
from term import N, adt, fld, pay, sym, TRUE, FALSE, proj
import term as T

SAME = [
    ('ConstraintRelation', 'InequalityRelation', ['Less', 'Greater']),
    ('RangedConstraintRelation', 'InequalityRelation', ['Less', 'Greater']),
    ('RangedConstraintRelation', 'ConstraintRelation', ['Less', 'Equal', 'Greater']),
    ('RangedConstraintRelationKind', 'RangedConstraintRelation', ['Less', 'Equal', 'Greater', 'Range']),
]
EQ = ['InequalityRelation', 'ConstraintRelation', 'RangedConstraintRelation', 'RangedConstraintRelationKind', 'BoundDirection',
      'VariableType', 'Objective']
OPPOSITE = {'Lower': 'Upper', 'Upper': 'Lower', 'Continuous': 'Integer', 'Integer': 'Continuous'}


def find(c, pred):
    out = [b for fid, b in c.prog.fns.items() if '{closure#' not in b.name and pred(fid)]
    return out[0] if out else None


def conv(c, to, frm):
    for fid, b in c.prog.fns.items():
        if fid.startswith('<%s as From<' % to) and fid.endswith('>::from'):
            arg = b.params[0][1].lstrip('&').split('<')[0].split('::')[-1]
            if arg == frm:
                return b
    return None


def check(c):
    c.rule('conversions', 'converting between kinds of relations keeps the relation (table over all variants)')
    for to, frm, vs in SAME:
        b = conv(c, to, frm)

        def oracle(q, p, to=to, frm=frm):
            x = sym('a0')
            v = q.variant(x, frm)
            if v == 'Range' and to == 'RangedConstraintRelation':
                return {'ret': adt(to, v, (('0', pay(x, 'Range')),)), 'only': []}
            return {'ret': adt(to, v, ()), 'only': []}
        c.table('conversion:%s from %s' % (to, frm), b, oracle)
    c.rule('reversal', 'not() exchanges the two values; multiplication by a sign exchanges them exactly for the negative sign')
    for ty in ('BoundDirection', 'VariableType'):
        b = c.fn(ty, 'not', 'Not')

        def oracle(q, p, ty=ty):
            v = q.variant(sym('self'), ty)
            return {'ret': adt(ty, OPPOSITE[v], ()), 'only': []}
        if ty == 'BoundDirection' or b is not None:
            c.table('reversal:!' + ty, b, oracle)
    b = c.fn('BoundDirection', 'mul', 'Mul')

    def oracle(q, p):
        v = q.variant(sym('self'), 'BoundDirection')
        s = q.variant(sym('a1'), 'NonZeroSign')
        return {'ret': adt('BoundDirection', OPPOSITE[v] if s == 'Negative' else v, ()), 'only': []}
    c.table('reversal:BoundDirection * sign', b, oracle)
    c.rule('equality', 'two values are equal exactly when they are the same variant with the same width')
    for ty in EQ:
        b = c.id('<%s as PartialEq>::eq' % ty, '<%s as PartialEq(derived)>::eq' % ty)
        if b is None:
            continue

        def oracle(q, p, ty=ty):
            v = q.variant(sym('self'), ty)
            w = q.variant(sym('a1'), ty)
            if v != w:
                return {'ret': FALSE, 'only': []}
            if v == 'Range' and ty == 'RangedConstraintRelation':
                same = q.eq(pay(sym('self'), 'Range'), pay(sym('a1'), 'Range'))
                return {'ret': T.boolean(same), 'only': []}
            return {'ret': TRUE, 'only': []}
        c.table('equality:' + ty, b, oracle)
    c.rule('default', 'the default objective is to minimize')
    b = c.fn('Objective', 'default', 'Default')
    c.table('default:Objective', b, lambda q, p: {'ret': adt('Objective', 'Minimize', ()), 'only': []})

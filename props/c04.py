"""C04: safe_compare and checked comparisons: comparisons of builtin integers of any two types are mathematically exact"""
from common import *

TYPES = INTS + ['char', 'wchar', 'll', 'ull']
FN = ['less_than', 'greater_than', 'less_than_equal', 'greater_than_equal', 'equal', 'not_equal']


def spec(h, p, env):
    a, b = env['a'], env['b']
    if p.kind != 'ret':
        return [('must not throw', FALSE)]
    want = [a.lt(b), a.gt(b), a.le(b), a.ge(b), a.eq(b), a.ne(b)]
    g = []
    if h.meta.get('checked'):
        want.pop()
        g += [('checked::%s reports no error' % FN[i], z3.BoolVal(p.c(5 + i) == 0)) for i in range(5)]
    for i, w in enumerate(want):
        r = p.u(i)
        rb = r != 0 if not isinstance(r, int) else z3.BoolVal(r != 0)
        g.append(('%s agrees with the mathematical order' % FN[i], rb == w))
    return g


def check(tier):
    units = []
    for t in TYPES:
        hs = []
        for u in TYPES:
            body = '\n'.join('    o[%d] = safe_compare::%s(a, b);' % (i, f) for i, f in enumerate(FN))
            hs.append(Harness('h_cmp_%s_%s' % (t, u), [('a', t), ('b', u)], body, spec))
        units.append(hs)
    units.append([Harness('h_checked_%s' % t, [('a', t), ('b', t)], '\n'.join(
        '    { const checked_result<bool> r = checked::%s<%s>(a, b); o[%d] = r.exception(); if(!r.exception()) o[%d] = static_cast<bool>(r); }'
        % (f, T[t][0], 5 + i, i) for i, f in enumerate(FN[:5])), spec, meta=dict(checked=True)) for t in TYPES])
    k = 3
    us = [Unit('c04_%d' % i, sum(units[i::k], [])) for i in range(k)]
    return Check('C04', us, 'mixed comparisons', 'every pair of 12 integral types, all values of both operands; checked:: comparison functions for two operands of each type')

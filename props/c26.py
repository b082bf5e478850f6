"""C26: significant_bits, ilog2, round_out, minmax, max"""
from common import *

PRE = PRELUDE + '#include <boost/safe_numerics/utility.hpp>\n'


def spec(h, p, env):
    m = h.meta
    op, ty = m['op'], m['ty']
    _, bits, sg = T[ty]
    if p.kind != 'ret':
        return [('ends with %s %s' % (p.kind, p.info), FALSE)]
    if op in ('max', 'minmax'):
        a, b = env['a'], env['b']
        if op == 'max':
            return [('max is the larger value', p.mi(0, sg).eq(ite(a.lt(b), b, a)))]
        c = env['c']
        lo = ite(a.lt(b), a, b)
        hi = ite(a.lt(b), b, a)
        return [('minmax is the smallest and largest value', z3.And(p.mi(0, sg).eq(ite(c.lt(lo), c, lo)), p.mi(1, sg).eq(ite(c.gt(hi), c, hi))))]
    a = env['a']
    n = ite(a.lt(0), -a - 1, a)
    W = 80
    nb = n.at(W)
    one = z3.BitVecVal(1, W)
    # position of the highest set bit + 1 (1 for zero)
    k = z3.BitVecVal(1, W)
    for i in range(1, bits):
        k = z3.If(z3.UGE(nb, one << i), z3.BitVecVal(i + 1, W), k)
    if op == 'sb':
        return [('significant_bits is the bit length', p.mi(0, False).at(W) == k)]
    if op == 'ilog2':
        return [('ilog2 is floor(log2)', p.mi(0, False).at(W) == k - 1)]
    r = p.mi(0, sg).at(W)
    ones = (one << k) - 1
    return [('round_out is the all-ones value of the bit length', r == z3.If(a.lt(0), ~ones, ones))]


def check(tier):
    hs = []
    for ty in INTS + ['ll', 'ull', 'c16', 'c32']:
        _, bits, sg = T[ty]
        for op, e in (('sb', 'utility::significant_bits(a)'), ('ilog2', 'utility::ilog2(a)'), ('round', 'utility::round_out(a)')):
            asm = (lambda env: [env['a'].gt(0)]) if op == 'ilog2' else None
            hs.append(Harness('h_%s_%s' % (op, ty), [('a', ty)], '    put(o, 0, %s);' % e, spec, assume=asm, meta=dict(op=op, ty=ty)))
        hs.append(Harness('h_max_%s' % ty, [('a', ty), ('b', ty)], '    put(o, 0, utility::max(a, b));', spec, meta=dict(op='max', ty=ty)))
        hs.append(Harness('h_minmax_%s' % ty, [('a', ty), ('b', ty), ('c', ty)],
                          '    std::pair<%s, %s> r = utility::minmax<%s>({a, b, c}); put(o, 0, r.first); put(o, 1, r.second);' % ((T[ty][0],) * 3),
                          spec, meta=dict(op='minmax', ty=ty)))
    return Check('C26', [Unit('c26', hs, prelude=PRE)], 'bit-length helpers', 'every value of 12 integer types; recursion fully unrolled')

"""C11: the static range of a result contains every value the operation delivers (ranged operands)"""
from binop import *
import edges

R_S = [(-10, 10), (1, 100), (-100, -1), (0, 0), (-128, 127), (100, 300), (-3, 70000), (-2147483648, -7), (-5, 1 << 40),
       (-(1 << 63), (1 << 63) - 1), (7, 7)]
R_U = [(0, 10), (1, 255), (3, 9), (200, 70000), (0, 0), (1 << 31, (1 << 32) - 1), (5, (1 << 64) - 1)]
SMALL = [((-10, 10), True), ((1, 100), True), ((-100, -1), True), ((100, 300), True), ((-3, 70000), True), ((-5, 1 << 40), True),
         ((-(1 << 63), (1 << 63) - 1), True), ((0, 10), False), ((3, 9), False), ((200, 70000), False), ((1 << 31, (1 << 32) - 1), False),
         ((5, (1 << 64) - 1), False)]


def ranges(tier, pol):
    if tier == 'thorough':
        rs = [(r, True) for r in R_S] + [(r, False) for r in R_U]
    else:
        rs = SMALL
    return [range_t(lo, hi, sg, pol) for (lo, hi), sg in rs]


def check(tier):
    hs = []
    rs = ranges(tier, 'native')
    for op in ('add', 'sub', 'mul', 'div', 'mod'):
        for A in rs:
            for B in rs:
                hs.append(binop(op, A, B, rtype=conv(A.base, B.base)))
        for A, B in edges.arith(op, 'native', tier == 'thorough'):
            hs.append(binop(op, A, B, rtype=conv(A.base, B.base)))
    return Check('C11', units('c11', hs, 36), 'static result ranges', 'selected declared ranges of 8-64 bit base types and ranges at the edge of overflow, zero divisors and lowest / -1; every value in them')

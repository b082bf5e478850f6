"""C06: automatic promotion: exact results; no error while some 64-bit type holds every exact result"""
from binop import *
import c11
import edges


def fits64(op, A, B):
    lo, hi = hull(op, A, B)
    sg = op == 'sub' or lim(A.base)[0] < 0 or lim(B.base)[0] < 0     # documented signedness of the common type
    l, h = irange(sg, 64)
    ops_fit = l <= A.lo and A.hi <= h and l <= B.lo and B.hi <= h
    return ops_fit and l <= lo and hi <= h


def make(op, A, B):
    return binop(op, A, B, nothrow=fits64(op, A, B))


def check(tier):
    hs = []
    rs = c11.ranges(tier, 'automatic')
    for op in ('add', 'sub', 'mul', 'div', 'mod'):
        for ta in INTS:
            for tb in INTS:
                hs.append(make(op, safe_t(ta, 'automatic'), safe_t(tb, 'automatic')))
        for i, A in enumerate(rs):
            for j, B in enumerate(rs):
                hs.append(make(op, A, B))
        for A, B in edges.arith(op, 'automatic', tier == 'thorough'):
            hs.append(make(op, A, B))
        for ta, tb in [('i32', 'u8'), ('u64', 'i32'), ('i8', 'i64'), ('u16', 'u32'), ('i64', 'i32')]:
            hs.append(make(op, safe_t(ta, 'automatic'), base_t(tb)))
            hs.append(make(op, base_t(ta), safe_t(tb, 'automatic')))
    return Check('C06', units('c06', hs, 45), 'automatic promotion',
                 'all pairs of the eight safe<T, automatic> types and selected declared ranges (also at the edge of overflow and zero divisors), all values')

"""C09: << >> | & ^ on safe values: builtin bits or exact shifts, inside the declared result range"""
from binop import *
import c11
import edges

W = 140


def shl(a, b):
    """a * 2**b in W bits for 0 <= a < 2**64, 0 <= b <= 64"""
    return a.at(W) << b.at(W)


def spec(h, p, env):
    m = h.meta
    op, A, B = m['op'], m['A'], m['B']
    a, b = env['a'], env['b']
    sg, bits, lo, hi = static_type(h, p)
    tlo, thi = irange(sg, bits)
    digits = bits - (1 if sg else 0)
    g = []
    if m.get('rtype'):
        g.append(('the result type is the one the policy prescribes', z3.BoolVal((bits, sg) == tuple(m['rtype']))))
    if m.get('rsign') is not None:
        g.append(('the sign of the result is the sign of the left operand', z3.BoolVal(sg == m['rsign'])))
    g.append(('the declared result range lies in the result type', z3.BoolVal(tlo <= lo <= hi <= thi)))
    if p.kind == 'ret':
        v = p.mi(0, sg)
        g.append(('the result lies in the range its type declares', v.inr(lo, hi)))
        if op in ('or', 'and', 'xor'):
            x, y = a.at(128), b.at(128)
            r = {'or': x | y, 'and': x & y, 'xor': x ^ y}[op]
            g.append(('the result is the bitwise combination of the operands', z3.Extract(bits - 1, 0, r) == p.low(0, bits)))
        elif op == 'shl':
            g.append(('a left shift that succeeds is multiplication by a power of two',
                      z3.If(b.eq(0), v.eq(a), z3.And(a.ge(0), b.inr(0, 64), v.at(W) == shl(a, b)))))
        else:
            g.append(('a right shift that succeeds is division by a power of two',
                      z3.If(b.eq(0), v.eq(a), z3.And(a.ge(0), b.inr(0, bits), v.at(W) == z3.LShR(a.at(W), b.at(W))))))
        return g
    if p.kind != 'err':
        return g + [('ends with %s %s' % (p.kind, p.info), FALSE)]
    if op in ('or', 'and', 'xor'):
        return g + [('bitwise operations never fail', FALSE)]
    k, c = const(p.err[0]), sconst(p.err[1])
    fit = z3.And(a.inr(tlo, thi), b.inr(tlo, thi))
    if op == 'shl':
        ok = z3.Or(b.eq(0), z3.And(a.ge(0), b.ge(0), b.lt(digits), shl(a, b) <= z3.BitVecVal(thi, W)))
    else:
        ok = z3.And(a.ge(0), b.ge(0), b.lt(digits))
    g.append(('an error is reported only when an operand does not fit or the shift is undefined or does not fit', z3.Not(z3.And(fit, ok))))
    if c in (POS, NEG, DOMAIN):
        g.append(('arithmetic failures reach the arithmetic handler', z3.BoolVal(k == ARITH)))
        g.append(('arithmetic failures mean an operand does not fit the result type', z3.Not(fit)))
        if c == POS:
            g.append(('positive overflow means something is above the maximum', z3.Or(a.gt(thi), b.gt(thi))))
        else:
            g.append(('negative overflow means something is below the minimum', z3.Or(a.lt(tlo), b.lt(tlo))))
    elif c in (NEGSHIFT, NEGVAL, LARGE):
        g.append(('shift failures reach the handler for implementation defined behaviour', z3.BoolVal(k == IMPL)))
        if c == LARGE:
            g.append(('too large means the bits do not fit', b.gt(0) if op == 'shl' else b.ge(digits)))
        else:
            g.append(('negative shift means a negative operand', z3.Or(a.lt(0), b.lt(0))))
    else:
        g.append(('unexpected error code %r' % c, FALSE))
    return g


def check(tier):
    hs = []
    for pol in ('native', 'automatic'):
        for op in ('shl', 'shr', 'or', 'and', 'xor'):
            def add(A, B):
                rt = rs = None
                if op in ('or', 'and', 'xor'):
                    rt = conv(A.base, B.base)
                elif pol == 'native':
                    rt = conv(A.base)
                else:
                    rs = lim(A.base)[0] < 0
                hs.append(binop(op, A, B, spec, rtype=rt, rsign=rs))
            for ta in INTS:
                for tb in INTS:
                    add(safe_t(ta, pol), safe_t(tb, pol))
            for ta, tb in [('i32', 'u8'), ('u64', 'i32'), ('i8', 'i64'), ('u16', 'u32'), ('i64', 'i32'), ('u32', 'i32')]:
                add(safe_t(ta, pol), base_t(tb))
                add(base_t(ta), safe_t(tb, pol))
            rs = c11.ranges(tier, pol)
            cnt = [range_t(lo, hi, sg, pol) for lo, hi, sg in
                   [(0, 3, True), (0, 7, False), (1, 31, True), (-2, 40, True), (5, 63, False), (0, 64, False)]]
            for A in rs:
                for B in (cnt if op in ('shl', 'shr') else rs):
                    add(A, B)
            for A, B in edges.shifts(op, pol, tier == 'thorough') if op in ('shl', 'shr') else edges.bitwise(pol):
                add(A, B)
    for h in hs:
        h.name = h.name.replace('h_', 'h_%s_' % ('auto' if 'automatic' in h.meta['A'].cpp + h.meta['B'].cpp else 'nat'), 1)
    return Check('C09', units('c09', hs, 40), 'shifts and bitwise operations on safe types',
                 'all pairs of the eight safe<T> types (native and automatic), mixed builtin operands and selected declared ranges, among them counts at the width, all values')

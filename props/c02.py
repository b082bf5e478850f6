"""C02: checked shifts and bitwise operations"""
from common import *

W = 140


def shl_exact(a, b):
    """a * 2**b in W bits, for 0 <= a < 2**64 and 0 <= b <= 64"""
    return a.at(W) << b.at(W)


def spec(h, p, env):
    op, ty = h.meta['op'], h.meta['ty']
    _, bits, sg = T[ty]
    lo, hi = irange(sg, bits)
    digits = bits - (1 if sg else 0)
    if p.kind != 'ret':
        return [('must not throw', FALSE)]
    err = p.c(0)
    if op.startswith('bitwise'):
        a = env.bv['a']
        b = env.bv.get('b')
        x = {'bitwise_or': lambda: a | b, 'bitwise_and': lambda: a & b, 'bitwise_xor': lambda: a ^ b, 'bitwise_not': lambda: ~a}[op]()
        if err:
            return [('bitwise operations on a type never fail', FALSE)]
        return [('the result is the bitwise combination of the operands', p.mi(2, sg).eq(MI.bv(x, sg)))]
    a, b = env['a'], env['b']
    code = p.c(1)
    if op == 'left_shift':
        fits = z3.And(a.ge(0), b.ge(0), b.lt(digits), shl_exact(a, b) <= z3.BitVecVal(hi, W))
        if err:
            g = [('an error is reported only when the shift is undefined or does not fit', z3.And(b.ne(0), z3.Not(fits)))]
            if code == LARGE:
                g.append(('too large means the bits do not fit', b.gt(0)))
            else:
                g.append(('negative shift means a negative operand', z3.And(z3.BoolVal(code in (NEGSHIFT, NEGVAL)), z3.Or(a.lt(0), b.lt(0)))))
            return g
        return [('a left shift that succeeds is multiplication by a power of two',
                 z3.If(b.eq(0), p.mi(2, sg).eq(a), z3.And(fits, p.mi(2, sg).at(W) == shl_exact(a, b))))]
    if err:
        g = [('an error is reported only for a negative operand or a count that exhausts the type', z3.Or(a.lt(0), b.lt(0), b.ge(digits)))]
        if code == LARGE:
            g.append(('too large means the count exhausts the type', z3.And(b.ge(digits))))
        else:
            g.append(('negative shift means a negative operand', z3.And(z3.BoolVal(code in (NEGSHIFT, NEGVAL)), z3.Or(a.lt(0), b.lt(0)))))
        return g
    return [('a right shift that succeeds is division by a power of two',
             z3.And(a.ge(0), b.ge(0), b.le(digits), p.mi(2, sg).at(W) == z3.LShR(a.at(W), b.at(W))))]


def check(tier):
    hs = []
    for op in ('left_shift', 'right_shift', 'bitwise_or', 'bitwise_and', 'bitwise_xor', 'bitwise_not'):
        for ty in INTS + ['ll', 'ull']:
            params = [('a', ty)] + ([('b', ty)] if op != 'bitwise_not' else [])
            body = '''    auto r = checked::%s<%s>(%s);
    o[0] = r.exception(); o[1] = (std::uint64_t)static_cast<safe_numerics_error>(r);
    if (!r.exception()) put(o, 2, static_cast<%s>(r));''' % (op, T[ty][0], ', '.join(x for x, _ in params), T[ty][0])
            hs.append(Harness('h_%s_%s' % (op, ty), params, body, spec, meta=dict(op=op, ty=ty)))
    return Check('C02', [Unit('c02', hs)], 'checked shifts and bitwise operations',
                 'all operand pairs at full width for 8-, 16-, 32- and 64-bit signed and unsigned types; recursion of the bit-length '
                 'helper is fully unrolled')

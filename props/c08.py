"""C08: comparisons on safe values decide the mathematical order, or report an operand that does not fit the comparison type"""
from binop import *
import c11
import edges

CMP = {'lt': MI.lt, 'gt': MI.gt, 'le': MI.le, 'ge': MI.ge, 'eq': MI.eq, 'ne': MI.ne}


def spec(h, p, env):
    m = h.meta
    op = m['op']
    a, b = env['a'], env['b']
    if p.kind == 'ret':
        r = p.u(0)
        r = z3.BoolVal(bool(r)) if isinstance(r, int) else r == 1
        return [('a comparison that is decided agrees with the mathematical values', CMP[op](a, b) == r)]
    if p.kind != 'err':
        return [('ends with %s %s' % (p.kind, p.info), FALSE)]
    k, c = const(p.err[0]), sconst(p.err[1])
    tlo, thi = m['ctype']
    g = [('an error is reported only when an operand does not fit the comparison type', z3.Or(z3.Not(a.inr(tlo, thi)), z3.Not(b.inr(tlo, thi)))),
         ('arithmetic failures reach the arithmetic handler', z3.BoolVal(k == ARITH))]
    if c == POS:
        g.append(('positive overflow means something is above the maximum', z3.Or(a.gt(thi), b.gt(thi))))
    elif c in (NEG, DOMAIN):
        g.append(('negative overflow means something is below the minimum', z3.Or(a.lt(tlo), b.lt(tlo))))
    else:
        g.append(('unexpected error code %r' % c, FALSE))
    return g


def body(op, A, B):
    return '''    typedef %s TA; typedef %s TB;
    const TA x(a); const TB y(b);
    static_assert(std::is_same<decltype(x %s y), bool>::value, "comparison result");
    o[0] = (x %s y) ? 1 : 0;''' % (A.cpp, B.cpp, OPSYM[op], OPSYM[op])


def make(op, A, B, pol):
    if pol == 'native':
        bits, sg = conv(A.base, B.base)
        ct = irange(sg, bits)
    else:
        sg = lim(A.base)[0] < 0 or lim(B.base)[0] < 0
        ct = irange(sg, 64)
    return Harness('h_%s_%s_%s_%s' % (pol[:4], op, A.name, B.name), [('a', A.base), ('b', B.base)], body(op, A, B), spec,
                   assume=assume(A, B), meta=dict(op=op, A=A, B=B, ctype=ct))


def check(tier):
    hs = []
    ops = list(CMP)
    for pol in ('native', 'automatic'):
        for op in ops:
            for ta in INTS:
                for tb in INTS:
                    hs.append(make(op, safe_t(ta, pol), safe_t(tb, pol), pol))
            for ta, tb in [('i32', 'u8'), ('u64', 'i32'), ('i8', 'i64'), ('u16', 'u32'), ('i64', 'i32'), ('u32', 'i32'), ('i32', 'u64')]:
                hs.append(make(op, safe_t(ta, pol), base_t(tb), pol))
                hs.append(make(op, base_t(ta), safe_t(tb, pol), pol))
        rs = c11.ranges(tier, pol)
        for op in (ops if tier == 'thorough' else ('lt', 'eq', 'ge')):
            for A in rs:
                for B in rs:
                    hs.append(make(op, A, B, pol))
        es = edges.compare(pol, tier == 'thorough')
        for i, (A, B) in enumerate(es):
            for op in (ops if tier == 'thorough' else ('lt', 'eq', ('gt', 'le', 'ge', 'ne')[i % 4])):
                hs.append(make(op, A, B, pol))
    return Check('C08', units('c08', hs, 48), 'comparisons on safe types',
                 'all six operators; all pairs of the eight safe<T> types (native and automatic), mixed builtin operands and selected '
                 'declared ranges, among them ranges that touch, all values')

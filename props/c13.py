"""C13: compound assignment, increment and decrement"""
from binop import *
import c09
import c11
import edges

COMP = '''    typedef %(T)s TA; typedef %(U)s TU;
    TA x(a); const TU y(b);
    typedef decltype(x %(op)s y) R;
    info<R>(o);
    o[6] = 0;
    try { auto && r = (x %(op)s= y); put(o, 9, base_value(r)); put(o, 11, std::is_same<decltype(r), TA &>::value && &r == &x); }
    catch (const Err & e) { o[6] = 1; o[7] = e.kind; o[8] = e.code; }
    put(o, 10, base_value(x));'''
SELF = COMP.replace('const TU y(b);', '').replace('x %(op)s= y', 'x %(op)s= x').replace('decltype(x %(op)s y)', 'decltype(x %(op)s x)')
INC = '''    typedef %(T)s TA;
    TA x(a);
    typedef decltype(x + 1) R;
    info<R>(o);
    o[6] = 0;
    try { auto && r = (%(e)s); put(o, 9, base_value(r)); put(o, 11, std::is_same<decltype(r), TA &>::value && &r == &x); }
    catch (const Err & e) { o[6] = 1; o[7] = e.kind; o[8] = e.code; }
    put(o, 10, base_value(x));'''


def value(op, a, b, sg, bits):
    """-> (exact value, condition under which the operation itself must succeed, condition under which it may)"""
    tlo, thi = irange(sg, bits)
    fit = z3.And(a.inr(tlo, thi), b.inr(tlo, thi))
    digits = bits - (1 if sg else 0)
    if op in ('add', 'sub', 'mul', 'div', 'mod'):
        x, d = exact(op, a, b)
        return x, z3.And(fit, d, x.inr(tlo, thi)), z3.And(d, x.inr(tlo, thi))
    if op in ('or', 'and', 'xor'):
        x, y = a.at(128), b.at(128)
        r = {'or': x | y, 'and': x & y, 'xor': x ^ y}[op]
        return MI.bv(z3.Extract(bits - 1, 0, r), sg), TRUE, TRUE
    if op == 'shl':
        r = c09.shl(a, b)
        ok = z3.And(a.ge(0), b.inr(0, digits - 1), r <= z3.BitVecVal(thi, c09.W))
        zero = b.eq(0)
        v = MI.bv(z3.If(zero, a.at(c09.W), r), True, c09.W)
        return v, z3.And(fit, z3.Or(zero, ok)), z3.Or(zero, z3.And(a.ge(0), b.inr(0, 64)))
    r = z3.LShR(a.at(c09.W), b.at(c09.W))
    ok = z3.And(a.ge(0), b.inr(0, digits - 1))
    v = MI.bv(z3.If(b.eq(0), a.at(c09.W), r), True, c09.W)
    return v, z3.And(fit, ok), z3.And(z3.Or(a.ge(0), b.eq(0)), b.inr(0, 64))


def spec(h, p, env):
    m = h.meta
    op, A = m['op'], m['A']
    a = env['a']
    b = env['b'] if m['kind'] == 'comp' else a if m['kind'] == 'self' else MI.of(1)
    if p.kind != 'ret':
        return [('ends with %s %s' % (p.kind, p.info), FALSE)]
    sg, bits, lo, hi = static_type(h, p)
    asg = lim(A.base)[0] < 0
    x, must, may = value(op, a, b, sg, bits)
    v = p.mi(10, asg)
    if p.c(6):
        k, c = p.c(7), sconst(p.c(8))
        kinds = (ARITH, IMPL) if op in ('shl', 'shr') else (ARITH,)
        return [('an error is raised only when the operation fails or its result does not fit the target', z3.Not(z3.And(must, x.inr(A.lo, A.hi)))),
                ('a failed compound assignment leaves the target unchanged', v.eq(a)),
                ('the failure reaches the handler of its kind', z3.BoolVal(k == (IMPL if c in (NEGSHIFT, NEGVAL, LARGE) else ARITH) and k in kinds
                                                                       and c in (POS, NEG, DOMAIN, NEGSHIFT, NEGVAL, LARGE)))]
    g = [('the target holds the result of the operation, inside its range', z3.And(may, v.inr(A.lo, A.hi), v.eq(x)))]
    ret = p.mi(9, asg)
    g.append(('the value of the expression is the %s value' % ('old' if m['kind'] == 'post' else 'new'), ret.eq(a) if m['kind'] == 'post' else ret.eq(x)))
    if m['kind'] != 'post':
        g.append(('the expression is the target itself, not a copy', p.mi(11, False).eq(1)))
    return g


def disjoint(op, A, B):
    if op in ('add', 'sub', 'mul', 'div', 'mod'):
        lo, hi = hull(op, A, B)
        return hi < A.lo or lo > A.hi
    return True


def check(tier):
    hs = []
    ops = ['add', 'sub', 'mul', 'div', 'mod', 'shl', 'shr', 'or', 'and', 'xor']

    def add(op, A, B, pol):
        hs.append(Harness('h_%s_%s_%s_%s' % (pol[:3], op, A.name, B.name), [('a', A.base), ('b', B.base)],
                          COMP % dict(T=A.cpp, U=B.cpp, op=OPSYM[op]), spec, assume=assume(A, B),
                          meta=dict(op=op, A=A, B=B, kind='comp'), may_reject=(A.lo, A.hi) != lim(A.base)))

    for op in ops:
        for ta in INTS:
            for tb in INTS:
                add(op, safe_t(ta), safe_t(tb), 'native')
        for ta, tb in [('i32', 'u8'), ('u64', 'i32'), ('i8', 'i64'), ('u16', 'i16'), ('u8', 'u8'), ('i32', 'u32')]:
            add(op, safe_t(ta), base_t(tb), 'native')
            add(op, base_t(ta), safe_t(tb), 'native')
        for ta, tb in [('i32', 'i32'), ('u8', 'i8'), ('i8', 'u16'), ('u32', 'u32'), ('i16', 'i64'), ('u64', 'u64'), ('i64', 'i64')]:
            add(op, safe_t(ta, 'automatic'), safe_t(tb, 'automatic'), 'automatic')
    rs = {p: [range_t(lo, hi, s, p) for (lo, hi), s in [((-10, 10), True), ((1, 100), True), ((-100, -1), True), ((-3, 70000), True), ((0, 10), False),
                                                        ((200, 70000), False), ((5, (1 << 64) - 1), False)]] for p in ('native', 'automatic')}
    for pol in rs:
        for op in ops:
            for A in rs[pol]:
                for B in (rs[pol] if op in ('add', 'sub') or tier == 'thorough' else rs[pol][::3]):
                    if disjoint(op, A, B) and op in ('add', 'sub', 'mul', 'div', 'mod'):
                        continue
                    if op in ('shl', 'shr', 'or', 'and', 'xor') and A.lo > 0:
                        continue        # the declared range of the result may be disjoint from the target: refused at compile time
                    add(op, A, B, pol)
        for A in [safe_t(t, pol) for t in INTS] + rs[pol] + [range_t(5, 6, True, pol), range_t(-128, 127, True, pol)]:
            for kind, e, op in (('pre', '++x', 'add'), ('post', 'x++', 'add'), ('pre', '--x', 'sub'), ('post', 'x--', 'sub')):
                hs.append(Harness('h_%s_%s_%s_%s' % (pol[:3], kind, op, A.name), [('a', A.base)], INC % dict(T=A.cpp, e=e), spec,
                                  assume=lambda env, A=A: [env['a'].inr(A.lo, A.hi)], meta=dict(op=op, A=A, kind=kind)))
        for A in [safe_t(t, pol) for t in INTS]:
            for op in ops:
                hs.append(Harness('h_%s_self_%s_%s' % (pol[:3], op, A.name), [('a', A.base)], SELF % dict(T=A.cpp, U=A.cpp, op=OPSYM[op]), spec,
                                  assume=lambda env, A=A: [env['a'].inr(A.lo, A.hi)], meta=dict(op=op, A=A, kind='self')))
    for mn, mc in (('z80', (8, 16, 16, 32, 32)), ('lp64', (8, 16, 32, 64, 64)), ('avr', (8, 16, 16, 32, 64))):
        pol = 'cpp<%d, %d, %d, %d, %d>' % mc
        tys = [t for t in INTS if T[t][1] in mc]
        for k, op in enumerate(ops):
            for i, ta in enumerate(tys):
                for j, tb in enumerate(tys):
                    if tier == 'thorough' or (i + 2 * j + k) % 4 == 0:
                        add(op, safe_t(ta, pol), safe_t(tb, pol), mn)
        for A in [safe_t(t, pol) for t in tys]:
            for kind, e, op in (('pre', '++x', 'add'), ('post', 'x++', 'add'), ('pre', '--x', 'sub'), ('post', 'x--', 'sub')):
                hs.append(Harness('h_%s_%s_%s_%s' % (mn, kind, op, A.name), [('a', A.base)], INC % dict(T=A.cpp, e=e), spec,
                                  assume=lambda env, A=A: [env['a'].inr(A.lo, A.hi)], meta=dict(op=op, A=A, kind=kind)))
    # ranges whose results just fit the target or just do not
    for op in ('add', 'sub', 'mul', 'div', 'mod'):
        for i, (A, B) in enumerate(edges.arith(op, 'native')):
            if (tier == 'thorough' or i % 2 == 0) and not disjoint(op, A, B):
                add(op, A, B, 'native')
    for A in [edges.b_t(t, lo, hi) for t in INTS for lo, hi in ((3, 3), (0, 1), (5, lim(t)[1]), (lim(t)[0], 9), (lim(t)[0] + 1, lim(t)[1] - 1))]:
        for kind, e, op in (('pre', '++x', 'add'), ('post', 'x++', 'add'), ('pre', '--x', 'sub'), ('post', 'x--', 'sub')):
            hs.append(Harness('h_edge_%s_%s_%s' % (kind, op, A.name), [('a', A.base)], INC % dict(T=A.cpp, e=e), spec,
                              assume=lambda env, A=A: [env['a'].inr(A.lo, A.hi)], meta=dict(op=op, A=A, kind=kind), may_reject=A.lo == A.hi))
    return Check('C13', units('c13', hs, 45, prelude=PRE + '#include <boost/safe_numerics/cpp.hpp>\n'), 'compound assignment, ++ and --',
                 'all values; ten compound operators on all pairs of the eight safe<T> types, mixed builtin operands, aliased operands and selected '
                 'ranges, also at the edge of overflow; ++/-- on the eight types and selected ranges; native, automatic and three emulated machines')

"""C12: conversion of a safe value to a builtin type"""
from binop import *
import c11
import edges

BODY = {
    'implicit': '''    typedef %(T)s TA;
    const TA x(a);
    const %(R)s r = x;
    put(o, 4, r);''',
    'cast': '''    typedef %(T)s TA;
    const TA x(a);
    put(o, 4, static_cast<%(R)s>(x));''',
    'assign': '''    typedef %(T)s TA;
    const TA x(a);
    %(R)s r = 1;
    try { r = x; o[1] = 0; }
    catch (const Err & e) { o[1] = 1; o[2] = e.kind; o[3] = e.code; }
    put(o, 4, r);''',
    'base': '''    typedef %(T)s TA;
    const TA x(a);
    static_assert(std::is_same<base_type<TA>::type, %(R)s>::value, "base type");
    put(o, 4, base_value(x));''',
}


def fail(k, c, a, lo, hi, sg):
    g = [('an error is raised only for a value the target cannot represent', z3.Not(a.inr(lo, hi))),
         ('arithmetic failures reach the arithmetic handler', z3.BoolVal(k == ARITH))]
    if c == POS:
        g.append(('positive overflow means above the maximum', a.gt(hi)))
    elif c == NEG:
        g.append(('negative overflow means below the minimum', a.lt(lo)))
    elif c == DOMAIN:
        g.append(('domain error means negative into unsigned', z3.And(z3.BoolVal(not sg), a.lt(lo))))
    else:
        g.append(('unexpected error code %r' % c, FALSE))
    return g


def spec(h, p, env):
    m = h.meta
    r = m['R']
    _, bits, sg = T[r]
    lo, hi = irange(sg, bits)
    a = env['a']
    if p.kind == 'err' and m['kind'] != 'assign':
        return fail(const(p.err[0]), sconst(p.err[1]), a, lo, hi, sg)
    if p.kind != 'ret':
        return [('ends with %s %s' % (p.kind, p.info), FALSE)]
    v = p.mi(4, sg)
    if m['kind'] == 'assign' and p.c(1):
        return fail(p.c(2), sconst(p.c(3)), a, lo, hi, sg) + [('a failed assignment leaves the target unchanged', v.eq(1))]
    return [('a conversion that succeeds preserves the value', z3.And(a.inr(lo, hi), v.eq(a)))]


def check(tier):
    hs = []

    def add(A, r, kinds):
        l, h_ = lim(r)
        if A.hi < l or A.lo > h_:
            return            # refused at compile time: the ranges do not overlap
        for kind in kinds:
            hs.append(Harness('h_%s_%s_%s_to_%s' % (kind, pol[:4], A.name, r), [('a', A.base)], BODY[kind] % dict(T=A.cpp, R=T[r][0]), spec,
                              assume=lambda env, A=A: [env['a'].inr(A.lo, A.hi)], meta=dict(A=A, R=r, kind=kind)))

    for pol in ('native', 'automatic'):
        ss = [safe_t(t, pol) for t in INTS] + c11.ranges(tier, pol)
        if pol == 'automatic' and tier != 'thorough':
            ss = [ss[i] for i in (0, 2, 5, 7, 8, 13, 16)]
        for A in ss:
            for r in INTS + ['bool', 'char', 'wchar', 'c16', 'c32', 'll', 'ull']:
                add(A, r, ('implicit', 'cast', 'assign'))
            hs.append(Harness('h_base_%s_%s' % (pol[:4], A.name), [('a', A.base)], BODY['base'] % dict(T=A.cpp, R=T[A.base][0]), spec,
                              assume=lambda env, A=A: [env['a'].inr(A.lo, A.hi)], meta=dict(A=A, R=A.base, kind='base')))
        if pol == 'native' or tier == 'thorough':
            for r in INTS + ['bool', 'char']:
                l, h_ = lim(r)
                for s in ('i8', 'i32', 'i64', 'u64', 'u16'):
                    for lo, hi in ((l, h_), (l - 1, h_), (l, h_ + 1), (h_, h_ + 1), (l - 1, l), (l + 1, h_ - 1), (0, h_ + 1), (-1, h_)):
                        if lim(s)[0] <= lo <= hi <= lim(s)[1]:
                            add(edges.b_t(s, lo, hi, pol), r, ('implicit', 'cast', 'assign'))
    return Check('C12', units('c12', hs, 60), 'conversion to builtin types',
                 'all values of the eight safe<T> types and selected ranges (also ranges that end within one of the limits of the target), to 15 builtin types including bool and character types')

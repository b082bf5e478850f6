"""C10: construction and assignment keep a safe variable inside its declared range"""
from binop import *
import c11
import edges

BODY = {
    'ctor': '''    typedef %(T)s TA; typedef %(U)s TU;
    const TU u(b);
    const TA x(u);
    put(o, 4, base_value(x));''',
    'init': '''    typedef %(T)s TA; typedef %(U)s TU;
    const TU u(b);
    TA x = u;
    TA y(std::move(x)); TA z(y);
    put(o, 4, base_value(z));''',
    'assign': '''    typedef %(T)s TA; typedef %(U)s TU;
    const TU u(b);
    TA x(a);
    o[1] = 0;
    try { TA & r = (x = u); o[5] = (&r == &x); }
    catch (const Err & e) { o[1] = 1; o[2] = e.kind; o[3] = e.code; }
    put(o, 4, base_value(x));''',
    'copy': '''    typedef %(T)s TA;
    TA x(a); TA y(b);
    x = y; TA z(1 ? x : y); y = std::move(z);
    put(o, 4, base_value(x)); put(o, 5, base_value(y));''',
}


def fail_goals(k, c, b, A):
    sg = lim(A.base)[0] < 0
    g = [('an error is raised only for a value outside the declared range', z3.Not(b.inr(A.lo, A.hi))),
         ('arithmetic failures reach the arithmetic handler', z3.BoolVal(k == ARITH))]
    if c == POS:
        g.append(('positive overflow means above the maximum', b.gt(A.hi)))
    elif c == NEG:
        g.append(('negative overflow means below the minimum', b.lt(A.lo)))
    elif c == DOMAIN:
        g.append(('domain error means negative into unsigned', z3.And(z3.BoolVal(not sg), b.lt(A.lo))))
    else:
        g.append(('unexpected error code %r' % c, FALSE))
    return g


def spec(h, p, env):
    m = h.meta
    A = m['A']
    sg = lim(A.base)[0] < 0
    b = env['b']
    if m['kind'] == 'copy':
        if p.kind != 'ret':
            return [('copying never fails (%s)' % p.kind, FALSE)]
        return [('copy and move preserve the value', z3.And(p.mi(4, sg).eq(b), p.mi(5, sg).eq(b)))]
    if m['kind'] == 'assign':
        if p.kind != 'ret':
            return [('ends with %s %s' % (p.kind, p.info), FALSE)]
        v = p.mi(4, sg)
        if p.c(1):
            return fail_goals(p.c(2), sconst(p.c(3)), b, A) + [('a failed assignment leaves the target unchanged', v.eq(env['a']))]
        return [('a successful assignment stores the value, which lies in the range', z3.And(b.inr(A.lo, A.hi), v.eq(b))),
                ('assignment returns its target', p.u(5) == 1 if not isinstance(p.u(5), int) else z3.BoolVal(p.u(5) == 1))]
    if p.kind == 'err':
        return fail_goals(const(p.err[0]), sconst(p.err[1]), b, A)
    if p.kind != 'ret':
        return [('ends with %s %s' % (p.kind, p.info), FALSE)]
    return [('a successful construction stores the value, which lies in the range', z3.And(b.inr(A.lo, A.hi), p.mi(4, sg).eq(b)))]


def targets(tier, pol='native'):
    return [safe_t(t, pol) for t in INTS] + c11.ranges(tier, pol) + \
        ([] if tier == 'thorough' else [range_t(0, 0, True, pol), range_t(7, 7, True, pol), range_t(-128, 127, True, pol)])


def check(tier):
    hs = []
    ch = ['bool', 'char', 'wchar', 'c16', 'c32', 'll', 'ull']

    def add(A, U, pol):
        if A.hi < U.lo or U.hi < A.lo:
            return              # refused at compile time
        for kind in ('ctor', 'assign', 'init'):
            if kind == 'init' and U.base not in ('i32', 'u64', 'u8'):
                continue
            params = ([('a', A.base)] if kind == 'assign' else []) + [('b', U.base)]

            def asm(env, A=A, U=U, kind=kind):
                return ([env['a'].inr(A.lo, A.hi)] if kind == 'assign' else []) + [env['b'].inr(U.lo, U.hi)]
            hs.append(Harness('h_%s_%s_%s_from_%s%s' % (kind, pol[:4], A.name, 's' if 'safe' in U.cpp else '', U.name), params,
                              BODY[kind] % dict(T=A.cpp, U=U.cpp), spec, assume=asm, meta=dict(A=A, U=U, kind=kind)))

    for pol in ('native', 'automatic'):
        ts = targets(tier, pol)
        if pol == 'automatic' and tier != 'thorough':
            ts = [ts[i] for i in (0, 2, 5, 7, 8, 13, 16)]
        for A in ts:
            srcs = [base_t(t) for t in INTS + ch] + [safe_t(t, pol) for t in INTS] + c11.ranges(tier, pol)
            for U in srcs:
                add(A, U, pol)
            hs.append(Harness('h_copy_%s_%s' % (pol[:4], A.name), [('a', A.base), ('b', A.base)], BODY['copy'] % dict(T=A.cpp), spec,
                              assume=lambda env, A=A: [env['a'].inr(A.lo, A.hi), env['b'].inr(A.lo, A.hi)], meta=dict(A=A, kind='copy')))
        if pol == 'native' or tier == 'thorough':
            for A, U in edges.convert(pol):
                add(A, U, pol)
    return Check('C10', units('c10', hs, 60), 'construction and assignment',
                 'all values of 15 builtin source types, the eight safe<T> types and selected ranges, into the eight safe<T> types and '
                 'selected ranges (native and automatic); source and target ranges that are equal, off by one or touch')

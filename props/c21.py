"""C21: extraction of safe values from streams"""
from streams import *

BODY = '''    typedef %(X)s X;
    X x(init);
    put(o, 8, 0);
    Text t = { ws, neg, over, tail, kind, first, m };
    In<%(C)s> is(t, pre);
    try { is >> x; } catch (const Err & e) { o[8] = e.kind; o[9] = e.code; }
    put(o, 1, is.fail());
    put(o, 0, base_value(x));'''


def spec(h, p, env):
    if p.kind != 'ret':
        return [('extraction returns or reports its error to the policy (ends with %s %s)' % (p.kind, p.info), FALSE)]
    A = h.meta['A']
    raised = p.c(8)
    x = p.mi(0, T[A.base][2])
    m, num = the_number(env)
    neg = env['neg'].ne(0)
    n = ite(neg, -m, m)
    ok = z3.And(num, n.inr(A.lo, A.hi))
    if raised:
        may = z3.Not(ok)
        if not T[A.base][2]:
            may = z3.Or(may, neg)               # "-0" is not an unsigned number
        return [('an error is raised only when extraction fails or the number is not in the declared range', may),
                ('a failed extraction leaves a value of the declared range', x.inr(A.lo, A.hi))]
    return [('extraction fails or the number is not in the declared range, so an error is raised', ok),
            ('the number extracted is stored', x.eq(n))]


def hn(A, C):
    return Harness('h_in_%s%s' % (A.name, '_w' if C == 'wchar_t' else ''), [('init', A.base)] + TEXT, BODY % dict(X=A.cpp, C=C), spec,
                   assume=lambda env: [env['init'].inr(A.lo, A.hi)] + text_ok(env), meta=dict(A=A), merge=True)


def check(tier):
    ts = [safe_t(t) for t in INTS + ['char', 'll', 'ull', 'wchar']]
    for lo, hi, sg in ((-10, 100, True), (3, 40, True), (3, 40, False), (-100000, -7, True), (1000, 60000, False), (200, 255, False),
                       (-5, 1 << 50, True), (5, (1 << 64) - 2, False), (-(1 << 63) + 1, -7, True),
                       (3000000000, 4000000000, False), (-(1 << 40), -(1 << 33), True), (1 << 33, 1 << 34, True), (1 << 40, (1 << 64) - 1, False)):
        ts.append(range_t(lo, hi, sg))
    hs = [hn(A, C) for C in ('char', 'wchar_t') for A in ts]
    return Check('C21', [Unit('c21', hs, prelude=TPRE)], 'stream extraction',
                 'all texts [white space][-](digits of any 64-bit magnitude or beyond | no number)[white space], stream good or failed before, '
                 'narrow and wide streams without exception mask, eight integer types, plain char, wchar_t and selected declared ranges',
                 stubs=['std::basic_istream: formatted extraction as the standard and libstdc++ define it (validated on real string streams)'])

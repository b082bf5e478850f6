"""C22: insertion of safe values into streams"""
from streams import *
import c23

BODY = '''    typedef %(X)s X;
    %(decl)s
    Out<%(C)s> os;
    os << x;
    os.report(o);'''


def spec(h, p, env):
    if p.kind != 'ret':
        return [('insertion does not raise (ends with %s %s)' % (p.kind, p.info), FALSE)]
    v = env['a'] if 'a' in env.mi else MI(h.meta['v'])
    if p.c(1) != 1:
        return [('a number is inserted', FALSE)]
    neg = z3.simplify(bv64(p.u(2)) != 0)
    x = p.u(0)
    return [('the number inserted is the number stored', z3.If(neg, p.mi(0, True).eq(v), p.mi(0, False).eq(v)))]


def bv64(v):
    return z3.BitVecVal(v, 64) if isinstance(v, int) else v


def check(tier):
    ts = [safe_t(t) for t in INTS + ['char', 'wchar', 'll', 'ull']] + [safe_t(t, 'automatic') for t in ('i8', 'u8', 'u64')]
    ts[-3].name, ts[-2].name, ts[-1].name = 'auto_i8', 'auto_u8', 'auto_u64'
    for lo, hi, sg in ((-10, 100, True), (3, 40, False), (200, 255, False), (-100000, -7, True), (5, (1 << 64) - 2, False)):
        ts.append(range_t(lo, hi, sg))
    hs = []
    for A in ts:
        for C in ('char', 'wchar_t'):
            hs.append(Harness('h_out_%s%s' % (A.name, '_w' if C == 'wchar_t' else ''), [('a', A.base)],
                              BODY % dict(X=A.cpp, C=C, decl='const X x(a);'), spec,
                              assume=lambda env, A=A: [env['a'].inr(A.lo, A.hi)], meta=dict(A=A)))
    for n, sg in ((0, True), (65, True), (-7, True), (-128, True), (200, False), (255, False), (40000, False), (-70000, True), (1 << 40, True), ((1 << 64) - 1, False),
                  (-(1 << 63) + 1, True)):
        L = c23.lit_t(n, sg)
        for C in ('char', 'wchar_t'):
            hs.append(Harness('h_out_%s%s' % (L.name, '_w' if C == 'wchar_t' else ''), [], BODY % dict(X=L.cpp, C=C, decl='const X x;'), spec, meta=dict(v=n)))
    return Check('C22', [Unit('c22', hs, prelude=TPRE + '#include <boost/safe_numerics/safe_integer_literal.hpp>\n')], 'stream insertion',
                 'eleven literals; every value of eight integer types, plain char, wchar_t and selected declared ranges; narrow and wide streams in their default format',
                 stubs=['std::basic_ostream: formatted insertion of numbers, recorded (validated on real string streams)'])

"""C24: unary -, + and ~ on safe values"""
from binop import *
import c07
import c11

BODY = '''    typedef %(T)s TA;
    const TA x(a);
    typedef decltype(%(op)s std::declval<TA const &>()) R;
    info<R>(o);
    const R r = %(op)s x;
    put(o, 0, base_value(r));'''


def spec(h, p, env):
    m = h.meta
    op, A = m['op'], m['A']
    a = env['a']
    sg, bits, lo, hi = static_type(h, p)
    tlo, thi = irange(sg, bits)
    g = [('the declared result range lies in the result type', z3.BoolVal(tlo <= lo <= hi <= thi))]
    x = {'neg': -a, 'pos': a, 'not': None}[op]
    if m.get('rtype'):
        g.append(('the result type is the one the policy prescribes', z3.BoolVal((bits, sg) == tuple(m['rtype']))))
    if m.get('rtypes'):
        g.append(('the result type is one the emulated machine may prescribe', z3.BoolVal((bits, sg) in m['rtypes'])))
    if p.kind == 'ret':
        v = p.mi(0, sg)
        g.append(('the result lies in the range its type declares', v.inr(lo, hi)))
        if op == 'not':
            g.append(('the result is the builtin complement', p.low(0, bits) == z3.Extract(bits - 1, 0, ~a.at(128))))
        else:
            g.append(('a result that is delivered is exact', v.eq(x)))
        return g
    if p.kind != 'err' or op != 'neg':
        return g + [('ends with %s %s' % (p.kind, p.info), FALSE)]
    k, c = const(p.err[0]), sconst(p.err[1])
    g.append(('an error is raised only when the negation (or the operand) does not fit the result type', z3.Or(z3.Not(x.inr(tlo, thi)), z3.Not(a.inr(tlo, thi)))))
    g.append(('arithmetic failures reach the arithmetic handler', z3.BoolVal(k == ARITH)))
    if c == POS:
        g.append(('positive overflow means above the maximum', z3.Or(x.gt(thi), a.gt(thi))))
    elif c in (NEG, DOMAIN):
        g.append(('negative overflow means below the minimum', z3.Or(x.lt(tlo), a.lt(tlo))))
    else:
        g.append(('unexpected error code %r' % c, FALSE))
    return g


def check(tier):
    hs = []
    for pol in ('native', 'automatic'):
        for A in [safe_t(t, pol) for t in INTS + ['char', 'll', 'ull']] + c11.ranges('thorough', pol):
            for op, sym in (('neg', '-'), ('pos', '+'), ('not', '~')):
                rt = conv(A.base) if op == 'not' or (op == 'neg' and pol == 'native') else T[A.base][1:] if op == 'pos' else None
                hs.append(Harness('h_%s_%s_%s' % (pol[:4], op, A.name), [('a', A.base)], BODY % dict(T=A.cpp, op=sym), spec,
                                  assume=lambda env, A=A: [env['a'].inr(A.lo, A.hi)], meta=dict(op=op, A=A, rtype=rt)))
    for mn, mc in c07.MACH.items():
        pol = 'cpp<%d, %d, %d, %d, %d>' % mc
        tys = [t for t in INTS if T[t][1] in mc]
        rs = [range_t(lo, hi, lo < 0, pol) for lo, hi in ((0, 10), (-128, 127), (0, 255), (-1, 0), (5, 40000), (-32768, 5))]
        for A in [safe_t(t, pol) for t in tys] + [r for r in rs if T[r.base][1] in mc]:
            for op, sym in (('neg', '-'), ('pos', '+'), ('not', '~')):
                rts = (c07.types('sub', 'i32', A.base, mc) if 32 in mc and T[A.base][1] in mc else None) if op == 'neg' else [T[A.base][1:]] if op == 'pos' else None
                hs.append(Harness('h_%s_%s_%s' % (mn, op, A.name), [('a', A.base)], BODY % dict(T=A.cpp, op=sym), spec,
                                  assume=lambda env, A=A: [env['a'].inr(A.lo, A.hi)], meta=dict(op=op, A=A, rtypes=rts)))
    return Check('C24', units('c24', hs, 30, prelude=PRE + '#include <boost/safe_numerics/cpp.hpp>\n'), 'unary operators',
                 'all values of 11 integer types and 18 selected ranges, native and automatic promotion; the integer types each of seven emulated machines has, and up to 6 ranges')

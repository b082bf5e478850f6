"""C28: what a trapping policy lets compile cannot fail"""
from binop import *
import edges

TPRE = PRE + r'''
// the trapping policies with types of their own for each harness, so that every rejection names its harness
template<int N, class A> struct tagged : A { constexpr tagged() = default; };
template<int N, class P> struct retag;
template<int N, class A, class B, class C, class D> struct retag<N, exception_policy<A, B, C, D> > {
    typedef exception_policy<tagged<N * 4, A>, tagged<N * 4 + 1, B>, tagged<N * 4 + 2, C>, tagged<N * 4 + 3, D> > type;
};
template<class X> inline X raw(typename base_type<X>::type v) { return X(v, typename X::skip_validation()); }
'''
HEAD = '''    typedef typename retag<%(n)d, %(P)s>::type Q; typedef %(pol)s PP;
    typedef %(A)s TA; typedef %(B)s TB;
    const TA x(raw<TA>(a)); const TB y(raw<TB>(b)); (void)x; (void)y;
'''
OP = HEAD + '''    const auto r = x %(op)s y;
    info<typename std::decay<decltype(r)>::type>(o);
    put(o, 0, base_value(r));'''
CMP = HEAD + '    put(o, 0, x %(op)s y);'
CONV = HEAD + '    const TB r(x); put(o, 0, base_value(r));'
SET = HEAD + '    TB r(y); r = x; put(o, 0, base_value(r));'
ASG = HEAD + '    TA r(x); r %(op)s= y; put(o, 0, base_value(r));'
NEG = HEAD + '''    const auto r = -x;
    info<typename std::decay<decltype(r)>::type>(o);
    put(o, 0, base_value(r));'''
OUT = HEAD + '    const %(out)s r = x; put(o, 0, r);'
W = 140


def result(op, a, b):
    """-> exact value, defined"""
    if op == 'shl':
        return MI.bv(a.at(W) << b.at(W), True), b.inr(0, 64)
    if op == 'shr':
        return MI.bv(a.at(W) >> b.at(W), True), b.ge(0)
    if op in ('or', 'and', 'xor'):
        x, y = a.at(W), b.at(W)
        return MI.bv({'or': x | y, 'and': x & y, 'xor': x ^ y}[op], True), TRUE
    if op == 'neg':
        return -a, TRUE
    return exact(op, a, b)


def spec(h, p, env):
    m = h.meta
    k, op, A, B = m['k'], m['op'], m['A'], m['B']
    a, b = env['a'], env['b']
    if p.kind != 'ret':
        return [('an accepted expression does not fail (ends with %s %s)' % (p.kind, p.info), FALSE)]
    if k == 'cmp':
        t = {'lt': a.lt(b), 'le': a.le(b), 'gt': a.gt(b), 'ge': a.ge(b), 'eq': a.eq(b), 'ne': a.ne(b)}[op]
        return [('the comparison is true mathematically', p.mi(0, False).ne(0) == t)]
    if k in ('conv', 'set'):
        v = p.mi(0, T[B.base][2])
        return [('the value is preserved', v.eq(a)), ('the value is in the declared range', v.inr(B.lo, B.hi))]
    if k == 'out':
        return [('the value is preserved', p.mi(0, T[m['out']][2]).eq(a))]
    x, defined = result(op, a, b)
    if k == 'asg':
        v, lo, hi, bits = p.mi(0, T[A.base][2]), A.lo, A.hi, T[A.base][1]
    else:
        sg, bits, lo, hi = static_type(h, p)
        v = p.mi(0, sg)
    g = [('the result lies in its declared range', v.inr(lo, hi))]
    if op in ('or', 'and', 'xor'):
        g.append(('the bits are those of the mathematical operation', z3.Extract(bits - 1, 0, v.at(W)) == z3.Extract(bits - 1, 0, x.at(W))))
    else:
        g.append(('the result is exact', z3.And(defined, v.eq(x))))
    return g


RANGES = [(0, 10, True), (1, 100, True), (-100, -1, True), (-10, 10, True), (-128, 127, True), (3, 9, False), (0, 255, False), (1, 31, False),
          (-3, 70000, True), (200, 70000, False), (-40000, 40000, True), (1, 1 << 31, True), (-(1 << 31), (1 << 31) - 1, True), (0, (1 << 32) - 1, False),
          (7, 7, True), (-5, 1 << 40, True), (0, 1 << 62, False), (-(1 << 31) + 1, (1 << 31) - 1, True), (0, 46340, True), (-65535, 65535, True), (2, 65536, False)]


def check(tier):
    hs = []
    cnt = [0]

    def add(k, body, op, A, B, pol, P, prom, **kw):
        cnt[0] += 1
        q = lambda X: X.cpp.replace('native', 'PP').replace('EP>', 'Q>')
        hs.append(Harness('h_%s_%s_%s%s_%s_%s%s' % (pol, prom[:4], k, '_' + op if op else '', A.name, B.name, '_' + kw['out'] if 'out' in kw else ''),
                          [('a', A.base), ('b', B.base)],
                          body % dict(n=cnt[0], P=P, pol=prom, A=q(A), B=q(B), op=OPSYM.get(op), out=T[kw['out']][0] if 'out' in kw else ''), spec,
                          assume=lambda env: [env['a'].inr(A.lo, A.hi), env['b'].inr(B.lo, B.hi)],
                          meta=dict(k=k, op=op, A=A, B=B, **kw), may_reject=True))
    rs = [range_t(lo, hi, sg) for lo, hi, sg in RANGES]
    full = tier == 'thorough'
    for prom in ('native', 'automatic'):
        for i, A in enumerate(rs):
            for j, B in enumerate(rs):
                pol = ('strict', 'loose')[(i + j) % 2]
                for l, op in enumerate(('add', 'sub', 'mul', 'div', 'mod', 'shl', 'shr', 'or', 'and', 'xor')):
                    if op in ('shl', 'shr'):
                        pp = 'strict'
                        if B.hi > 70 and not full:
                            continue
                    else:
                        pp = pol
                    if not full and (i * 3 + j * 5 + l) % 3:
                        continue
                    add('op', OP, op, A, B, pp, pp + '_trap_policy', prom)
                    if prom == 'native' and (i + j + l) % 4 == 0:
                        add('asg', ASG, op, A, B, pp, pp + '_trap_policy', prom)
                if (i + j) % 3 == 0 or full:
                    add('cmp', CMP, ('lt', 'le', 'gt', 'ge', 'eq', 'ne')[(i * 7 + j) % 6], A, B, pol, pol + '_trap_policy', prom)
                if prom == 'native':
                    add('conv', CONV, None, A, B, pol, pol + '_trap_policy', prom)
                    if full or (i + j) % 2:
                        add('set', SET, None, A, B, pol, pol + '_trap_policy', prom)
            add('op', NEG, 'neg', A, A, 'strict', 'strict_trap_policy', prom)
        if prom == 'native':
            for A in rs:
                for t in INTS:
                    add('out', OUT, None, A, A, 'strict', 'strict_trap_policy', prom, out=t)
        if prom == 'native':
            for op in ('add', 'sub', 'mul', 'div', 'mod', 'shl', 'shr'):
                es = edges.shifts(op, 'native') if op in ('shl', 'shr') else edges.arith(op, 'native', full)
                for A, B in es:
                    add('op', OP, op, A, B, 'strict', 'strict_trap_policy', prom)
            for A, B in edges.convert('native'):
                add('conv', CONV, None, B, A, 'strict', 'strict_trap_policy', prom)
            for i, (A, B) in enumerate(edges.compare('native')):
                add('cmp', CMP, ('lt', 'le', 'gt', 'ge', 'eq', 'ne')[i % 6], A, B, 'strict', 'strict_trap_policy', prom)
    return Check('C28', [Unit('c28_%d' % (i // 48), hs[i:i + 48], prelude=TPRE) for i in range(0, len(hs), 48)], 'trap policy soundness',
                 '21 declared ranges and pairs of ranges at the edge of overflow, zero divisors and the shift width: arithmetic, bitwise, comparison, conversion, compound assignment under strict and loose trap policies, shifts under the '
                 'strict one, native and automatic promotion; expressions rejected at compile time are counted, not judged')

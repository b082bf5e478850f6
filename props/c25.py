"""C25: numeric_limits of safe types and the stored types of ranges"""
from common import *

BODY = '''    typedef %(X)s X;
    typedef std::numeric_limits<X> L;
    typedef typename base_type<X>::type B;
    put(o, 0, base_value(L::min()));
    put(o, 1, base_value(L::max()));
    put(o, 2, base_value(L::lowest()));
    put(o, 3, std::is_signed<B>::value);
    put(o, 4, sizeof(B) * 8);
    put(o, 5, L::is_specialized && L::is_integer && L::is_exact && L::is_signed == std::is_signed<B>::value
        && L::digits == std::numeric_limits<B>::digits && L::radix == 2 && L::is_bounded);
    put(o, 6, std::numeric_limits<const X>::is_specialized && std::is_same<X, typename std::decay<decltype(L::min())>::type>::value
        && std::is_same<X, typename std::decay<decltype(L::max())>::type>::value);
    const X lo(L::min()), hi = L::max();
    put(o, 7, base_value(lo) == base_value(L::min()) && base_value(hi) == base_value(L::max()));
    put(o, 8, 0);
    %(make)s
    put(o, 10, base_value(x));'''


def spec(h, p, env):
    A, v = h.meta['A'], env['v']
    sg = T[A.base][2]
    g = []
    if p.has(2):
        g += [('min is the declared lower bound', p.mi(0, sg).eq(A.lo)), ('max is the declared upper bound', p.mi(1, sg).eq(A.hi)),
              ('lowest is the declared lower bound', p.mi(2, sg).eq(A.lo)),
              ('the stored type represents both bounds', z3.BoolVal(p.c(3) == int(sg) and irange(sg, p.c(4))[0] <= A.lo and A.hi <= irange(sg, p.c(4))[1])),
              ('the other members describe the base type', z3.BoolVal(p.c(5) == 1 and p.c(6) == 1))]
    if not p.has(7):
        return g + [('the bounds are constructible (ends with %s %s)' % (p.kind, p.info), FALSE)]
    g.append(('the bounds are stored unchanged', bv64(p.u(7)) == 1))
    ok = v.inr(A.lo, A.hi)
    if p.kind == 'ret':
        g += [('only values of the range are constructed', ok), ('the value is stored unchanged', p.mi(10, sg).eq(v))]
    else:
        g.append(('a value of the range is constructed (ends with %s %s)' % (p.kind, p.info), z3.And(z3.Not(ok), z3.BoolVal(p.kind == 'err'))))
    return g


def bv64(v):
    return z3.BitVecVal(v, 64) if isinstance(v, int) else v


HELP = {
    's': ('std::int64_t', 'i64', 'put(o, 0, utility::max(utility::significant_bits(a), utility::significant_bits(b)) + 1);'),
    'u': ('std::uint64_t', 'u64', 'put(o, 0, utility::significant_bits(b));'),
}


def hspec(h, p, env):
    if p.kind != 'ret':
        return [('the helper returns', FALSE)]
    sg = h.meta['sg']
    a, b, n = env['a'], env['b'], p.mi(0, False)
    fits = FALSE
    for k in range(1, 66 if sg else 65):
        lo, hi = (-(1 << (k - 1)), (1 << (k - 1)) - 1) if sg else (0, (1 << k) - 1)
        fits = z3.Or(fits, z3.And(n.eq(k), a.inr(lo, hi), b.inr(lo, hi)))
    # (bounds of the full 64 bit range need a 65 bit type: int_t does not exist then)
    return [('the width chosen for the stored type represents both bounds', fits)]


CR = '''    typedef %(T)s T;
    typedef std::numeric_limits<checked_result<T> > L;
    const checked_result<T> lo = L::min(), hi = L::max();
    const interval<T> i = make_interval<T>(), j = make_interval(v);
    o[0] = ! lo.exception() && ! hi.exception();
    o[1] = static_cast<T>(lo) <= v && v <= static_cast<T>(hi);
    o[2] = (bool)(i.includes(v) && j.includes(v));
    o[3] = L::is_specialized && L::digits == std::numeric_limits<T>::digits;
    o[4] = i.l == std::numeric_limits<T>::min() && j.u == std::numeric_limits<T>::max();'''


def cspec(h, p, env):
    if p.kind != 'ret':
        return [('ends with %s' % p.kind, FALSE)]
    return [('limits of a checked result and the default interval hold every value of the type and describe it (%d)' % i, bv64(p.u(i)) == 1) for i in range(5)]


FL = '''    const interval<%(T)s> i = make_interval<%(T)s>(), j = make_interval(v), k;
    o[0] = (bool)i.includes(v) && (bool)j.includes(v) && (bool)k.includes(v);
    o[1] = (bool)i.excludes(v) || (bool)j.excludes(v) || (bool)k.excludes(v);'''


def fspec(h, p, env):
    if p.kind != 'ret':
        return [('ends with %s' % p.kind, FALSE)]
    return [('the default interval of floating point numbers holds every finite number', z3.And(bv64(p.u(0)) == 1, bv64(p.u(1)) == 0))]


def finite(F):
    def f(env):
        x = z3.fpBVToFP(env.bv['v'], F)
        return [z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsInf(x))]
    return f


def check(tier):
    hs = []
    rs = set()
    for k in range(0, 64):
        for lo, hi in ((-(1 << k), 0), (0, 1 << k), (-(1 << k) - 1, 1), (-1, (1 << k) - 1), ((1 << k) - 1, 1 << k), (-(1 << k), -(1 << k) + 1),
                       (-(1 << k), (1 << k) - 1), (-(1 << k) + 1, (1 << k))):
            if lo >= -(1 << 63) and hi < 1 << 63 and lo <= hi:
                rs.add((lo, hi, True))
        for lo, hi in ((0, 1 << k), (0, (1 << k) - 1), ((1 << k) - 1, 1 << k), (1 << k, (2 << k) - 1), (1, (1 << k) + 1)):
            rs.add((lo, min(hi, (1 << 64) - 1), False))
    rs = sorted(rs)
    ts = [range_t(lo, hi, sg) for lo, hi, sg in rs]
    ts += [range_t(lo, hi, sg) for lo, hi, sg in ((-10, 100, True), (-200, -100, True), (7, 7, True), (3, 1000, False), (40000, 70000, True),
                                                 (-70000, 5, True), (250, 260, False), (5000000000, 6000000000, False))]
    ts += [safe_t(t) for t in INTS + ['char', 'wchar', 'll', 'ull']]
    for t in INTS:
        lo, hi = lim(t)
        ts.append(S('b_%s' % t, 'safe_base<%s, %d, %d, native, EP>' % (T[t][0], lo // 3 + 1, hi // 3), t, lo // 3 + 1, hi // 3))
    seen = set()
    ts = [x for x in ts if x.name not in seen and not seen.add(x.name)]
    for A in ts:
        srcs = ['i64', 'u64'] if tier == 'thorough' or A.name in INTS else ['i64' if T[A.base][2] else 'u64']
        for s in srcs:
            lo, hi = lim(s)
            if A.hi < lo or A.lo > hi:
                continue
            hs.append(Harness('h_lim_%s_%s' % (A.name, s), [('v', s)], BODY % dict(X=A.cpp, make='const X x(v);'), spec, meta=dict(A=A)))
        if A.name in INTS or len(hs) % 4 == 0:
            s = 'i64' if T[A.base][2] else 'u64'
            hs.append(Harness('h_set_%s' % A.name, [('v', s)], BODY % dict(X=A.cpp, make='X x(L::min()); x = v;'), spec, meta=dict(A=A)))
    us = [Unit('c25_%d' % i, hs[i:i + 40]) for i in range(0, len(hs), 40)]
    hh = [Harness('h_width_%s' % k, [('a', t), ('b', t)], '    ' + code, hspec, meta=dict(sg=k == 's'), merge=True,
                  assume=(lambda env: [env['a'].le(env['b'])])) for k, (c, t, code) in HELP.items()]
    us.append(Unit('c25_w', hh))
    us.append(Unit('c25_c', [Harness('h_checked_%s' % t, [('v', t)], CR % dict(T=T[t][0]), cspec) for t in INTS + ['ll', 'ull']] + [
        Harness('h_float_%s' % t, [('v', t)], FL % dict(T=n), fspec, assume=finite(F)) for t, n, F in (('f32', 'float', z3.Float32()), ('f64', 'double', z3.Float64()))],
        prelude=PRELUDE
                   + '#include <boost/safe_numerics/interval.hpp>\n#include <boost/safe_numerics/checked_result_operations.hpp>\n'))
    return Check('C25', us, 'numeric_limits and stored types',
                 'ranges with a bound within one of a power of two (all 64) and others, all base types; every 64-bit candidate value; '
                 'the width computation behind signed_stored_type / unsigned_stored_type for every pair of 64-bit bounds (its expression is restated '
                 'in the harness; the alias itself is decided for the ranges listed)')

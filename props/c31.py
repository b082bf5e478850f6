"""C31: displaying intervals, range values and checked results"""
from streams import *
import c23
from c22 import bv64

IV = '''    typedef %(T)s T;
    const interval<T> i((T)a, (T)b);
    Out<%(C)s> os;
    os << i;
    os.tokens(o, false, false);'''
RV = '''    typedef %(T)s X;
    const X x(a);
    Out<%(C)s> os;
    os << make_range_value(x);
    os.tokens(o, false, false);'''
RD = '''    typedef %(T)s X;
    const X x(a);
    Out<%(C)s> os;
    os << make_result_display(x);
    os.tokens(o, true, false);'''
CR = '''    const checked_result<%(T)s> r(a);
    Out<%(C)s> os;
    os << r;
    os.tokens(o, false, true);'''
CE = '''    const safe_numerics_error n = (safe_numerics_error)e;
    const checked_result<%(T)s> r(n, e & 1 ? "odd text" : "");
    Out<%(C)s> os;
    os << r;
    const std::string m = make_error_code(n).message();
    o[0] = os.shows("1", m, e & 1 ? ":odd text" : ":");
    o[1] = m.size() > 0;'''


def text(p, want):
    """the tokens written are the wanted ones: characters, or numbers (MI)"""
    n = p.c(0)
    g = [('as many items are written as the format has (%d)' % n, z3.BoolVal(n == len(want)))]
    for i, w in enumerate(want[:n]):
        k = p.c(1 + 2 * i) if isinstance(w, str) else p.u(1 + 2 * i)
        if isinstance(w, str):
            g.append(('item %d is %s' % (i + 1, w), z3.BoolVal(k == 3 and p.c(2 + 2 * i) == ord(w))))
        else:
            k = bv64(k)
            ws = w if isinstance(w, list) else [w]
            g.append(('item %d is the number it should show' % (i + 1), z3.And(z3.Or(k == 1, k == 2), z3.Or([
                z3.If(k == 2, p.mi(2 + 2 * i, True).eq(v), p.mi(2 + 2 * i, False).eq(v)) for v in ws]))))
    return g


def spec(h, p, env):
    if p.kind != 'ret':
        return [('output does not raise (ends with %s %s)' % (p.kind, p.info), FALSE)]
    m = h.meta
    if m['k'] == 'ce':
        return [('an error shows as 1, the message of its code, a colon and its text', z3.BoolVal(p.c(0) == 1 and p.c(1) == 1))]
    k, a = m['k'], env['a']
    if k == 'iv':
        return text(p, ['[', a, ',', env['b'], ']'])
    if k == 'cr':
        return text(p, [MI(0), a])
    A = m['A']
    if k == 'rv':
        return text(p, ['[', MI(A.lo), ',', MI(A.hi), ']', a])
    # a negative number shows its two's complement in its own type or that of the promoted one
    hx = lambda v: [MI.ite(v.lt(0), v + (1 << bits), v) for bits in {T[A.base][1], max(T[A.base][1], 32)}]
    return text(p, ['[', hx(MI(A.lo)), ',', hx(MI(A.hi)), ']', hx(a), '(', a, ')'])


def check(tier):
    hs = []
    for C in ('char', 'wchar_t'):
        w = '_w' if C == 'wchar_t' else ''
        for t in INTS:
            hs.append(Harness('h_interval_%s%s' % (t, w), [('a', t), ('b', t)], IV % dict(T=T[t][0], C=C), spec, assume=lambda env: [env['a'].le(env['b'])], meta=dict(k='iv')))
            hs.append(Harness('h_checked_%s%s' % (t, w), [('a', t)], CR % dict(T=T[t][0], C=C), spec, meta=dict(k='cr')))
            hs.append(Harness('h_failed_%s%s' % (t, w), [('e', 'u8')], CE % dict(T=T[t][0], C=C), spec, assume=lambda env: [env['e'].ge(1), env['e'].le(10)], meta=dict(k='ce')))
        for A in [safe_t(t) for t in INTS] + [range_t(lo, hi, lo < 0) for lo, hi in ((-10, 100), (3, 40), (200, 255), (-100000, -7), (5, (1 << 64) - 2), (0, 65535))]:
            for k, b in (('rv', RV), ('rd', RD)):
                hs.append(Harness('h_%s_%s%s' % (k, A.name, w), [('a', A.base)], b % dict(T=A.cpp, C=C), spec,
                                  assume=lambda env, A=A: [env['a'].inr(A.lo, A.hi)], meta=dict(k=k, A=A)))
    return Check('C31', [Unit('c31', hs, prelude=TPRE + '#include <boost/safe_numerics/interval.hpp>\n#include <boost/safe_numerics/range_value.hpp>\n'
                              '#include <boost/safe_numerics/checked_result_operations.hpp>\n')], 'display of intervals, ranges and checked results',
                 'every pair of bounds of eight integer types; every value of eight safe types and six declared ranges; every checked value and error; narrow and wide streams',
                 stubs=['std::basic_ostream: formatted insertion of numbers and characters, std::hex and std::dec, recorded (validated on real string streams)'])

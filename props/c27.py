"""C27: conversions between integers and floating point numbers; comparisons of floating point numbers"""
from common import *
from binop import const

FS = {'f32': z3.Float32(), 'f64': z3.Float64()}
DIG = {'f32': 24, 'f64': 53}
RNE, RTZ = z3.RNE(), z3.RTZ()


def fp(env, n, ty):
    return z3.fpBVToFP(env.bv[n], FS[ty])


def bv64(v):
    return z3.BitVecVal(v, 64) if isinstance(v, int) else v


def f2i(h, p, env):
    """floating point -> integer in [lo, hi]"""
    m = h.meta
    f, lo, hi = fp(env, 'a', m['f']), m['lo'], m['hi']
    _, bits, sg = T[m['i']]
    F = FS[m['f']]
    # the integer part as a mathematical number, where it has one in the type
    big = 2.0 ** (bits - sg)
    inside = z3.And(z3.fpLT(f, z3.FPVal(big, F)), z3.fpGEQ(f, z3.FPVal(-big, F)) if sg else z3.fpGT(f, z3.FPVal(-1.0, F)))
    r = (z3.fpToSBV if sg else z3.fpToUBV)(RTZ, f, z3.BitVecSort(bits))
    v = MI.bv(r, sg)
    back = (z3.fpSignedToFP if sg else z3.fpUnsignedToFP)(RNE, r, F)
    nan = z3.fpIsNaN(f)
    whole = z3.fpEQ(back, f)
    fits = z3.And(inside, whole, v.inr(lo, hi))
    above = z3.And(z3.Not(nan), z3.Or(z3.fpGEQ(f, z3.FPVal(big, F)), z3.And(inside, z3.Or(v.gt(hi), z3.And(v.eq(hi), z3.fpGT(f, back))))))
    below = z3.And(z3.Not(nan), z3.Or(z3.fpLT(f, z3.FPVal(-big, F)) if sg else z3.fpLEQ(f, z3.FPVal(-1.0, F)),
                                      z3.And(inside, z3.Or(v.lt(lo), z3.And(v.eq(lo), z3.fpLT(f, back))))))
    if p.kind == 'ret' and not (m.get('checked', True) and p.c(0)):
        return [('a value is delivered only if it fits', fits), ('the value is the number', p.mi(2, T[m['i']][2]).eq(v))]
    if m.get('checked', True):
        if p.kind != 'ret':
            return [('ends with %s %s' % (p.kind, p.info), FALSE)]
        c = p.c(1)
    elif p.kind == 'err':
        c = const(p.err[1])
        if const(p.err[0]) != ARITH:
            return [('the arithmetic handler is called', FALSE)]
    else:
        return [('ends with %s %s' % (p.kind, p.info), FALSE)]
    if c == POS:
        return [('positive overflow means the number is above the maximum', above)]
    if c == NEG:
        return [('negative overflow means the number is below the minimum', below)]
    if c == PREC:
        return [('a precision error means it is not an integer', z3.And(inside, z3.Not(whole)))]
    if c == DOMAIN:
        return [('domain error means it is not a number', nan)]
    return [('unexpected error code %d' % c, FALSE)]


def i2f(h, p, env):
    """integer -> floating point"""
    m = h.meta
    a, F = env.bv['a'], FS[m['f']]
    sg, bits = T[m['i']][2], T[m['i']][1]
    e = z3.SignExt(72 - a.size(), a) if sg else z3.ZeroExt(72 - a.size(), a)
    mag = z3.If(e < 0, ~e, e)
    short = mag < z3.BitVecVal(1 << DIG[m['f']], 72)
    if p.kind == 'ret' and not (m['checked'] and p.c(0)):
        r = z3.fpBVToFP(z3.Extract(T[m['f']][1] - 1, 0, bv64(p.u(2))), F)
        return [('the number delivered is the integer', z3.And(z3.Not(z3.fpIsInf(r)), z3.Not(z3.fpIsNaN(r)), z3.fpToSBV(RTZ, r, z3.BitVecSort(72)) == e,
                                                              z3.fpEQ(z3.fpRoundToIntegral(RTZ, r), r)))]
    if m['checked'] and p.kind == 'ret':
        return [('an error is reported only for more bits than the type has', z3.Not(short)), ('it is a precision error', z3.BoolVal(p.c(1) == PREC))]
    if not m['checked'] and p.kind == 'err':
        return [('an error is raised only for more bits than the type has', z3.Not(short)),
                ('it is a precision error', z3.BoolVal(const(p.err[1]) == PREC))]
    return [('ends with %s %s' % (p.kind, p.info), FALSE)]


def cmp_spec(h, p, env):
    m = h.meta
    x, y = [z3.fpToFP(RNE, fp(env, n, t), FS['f64']) for n, t in (('a', m['f']), ('b', m['g']))]
    if p.kind != 'ret':
        return [('ends with %s %s' % (p.kind, p.info), FALSE)]
    want = [z3.fpLT(x, y), z3.fpGT(x, y), z3.fpLEQ(x, y), z3.fpGEQ(x, y), z3.fpEQ(x, y), z3.Not(z3.fpEQ(x, y))]
    return [('%s agrees with the order of the numbers' % f, (bv64(p.u(i)) != 0) == w) for i, (f, w) in enumerate(zip(m['fn'], want))]


def mixed(h, p, env):
    """safe integer op floating point number"""
    m = h.meta
    a, F = env.bv['a'], FS[m['f']]
    sg = T[m['i']][2]
    e = z3.SignExt(72 - a.size(), a) if sg else z3.ZeroExt(72 - a.size(), a)
    short = z3.If(e < 0, ~e, e) < z3.BitVecVal(1 << DIG[m['f']], 72)
    if p.kind == 'err':
        return [('an error is raised only for more bits than the type has', z3.Not(short)), ('it is a precision error', z3.BoolVal(const(p.err[1]) == PREC))]
    if p.kind != 'ret':
        return [('ends with %s %s' % (p.kind, p.info), FALSE)]
    # exact, because it has few enough bits
    x, y = (z3.fpSignedToFP if sg else z3.fpUnsignedToFP)(RNE, a, F), fp(env, 'b', m['f'])
    if m['swap']:
        x, y = y, x
    want = [z3.fpLT(x, y), z3.fpGT(x, y), z3.fpLEQ(x, y), z3.fpGEQ(x, y), z3.fpEQ(x, y), z3.Not(z3.fpEQ(x, y))]
    return [('only an integer the floating point type can hold is compared in it', short)] + [
        ('%s is true mathematically' % f, (bv64(p.u(i)) != 0) == w) for i, (f, w) in enumerate(zip(('<', '>', '<=', '>=', '==', '!='), want))]


FN = ['less_than', 'greater_than', 'less_than_equal', 'greater_than_equal', 'equal', 'not_equal']
OUT = '''    o[0] = r.exception(); o[1] = (std::uint64_t)static_cast<safe_numerics_error>(r);
    if(! r.exception()) put(o, 2, static_cast<%s>(r));'''
OUTF = '''    o[0] = r.exception(); o[1] = (std::uint64_t)static_cast<safe_numerics_error>(r);
    if(! r.exception()) { const %(F)s f = static_cast<%(F)s>(r); %(W)s w; std::memcpy(&w, &f, sizeof w); o[2] = w; }'''
PRE = PRELUDE + '#include <cstring>\n#include <boost/safe_numerics/checked_integer.hpp>\n'


def check(tier):
    hs, h20 = [], []
    num = lambda m: (lambda env: [z3.Not(z3.fpIsNaN(fp(env, n, t))) for n, t in (('a', m['f']), ('b', m['g']))])
    for f in FS:
        F, W = T[f][0], 'std::uint%d_t' % T[f][1]
        for i in INTS + ['ll', 'ull']:
            lo, hi = lim(i)
            hs.append(Harness('h_int_%s_%s' % (f, i), [('a', f)], '    const auto r = checked::cast<%s>(a);\n' % T[i][0] + OUT % T[i][0], f2i,
                              meta=dict(f=f, i=i, lo=lo, hi=hi)))
            for lo, hi in ((-10, 100), (3, 40), (-128, -7), (lim(i)[0] // 2 + 1, lim(i)[1] - 1)):
                if lim(i)[0] <= lo <= hi <= lim(i)[1]:
                    hs.append(Harness('h_range_%s_%s_%s_%s' % (f, i, str(lo).replace('-', 'm'), str(hi).replace('-', 'm')), [('a', f)],
                                      '    const auto r = heterogeneous_checked_operation<%s, %s, %s, %s>::cast(a);\n' % (T[i][0], lit(lo, T[i][2]), lit(hi, T[i][2]), F) + OUT % T[i][0],
                                      f2i, meta=dict(f=f, i=i, lo=lo, hi=hi)))
            for k, e in (('cmp', 'x %s b'), ('pmc', 'b %s x')):
                h20.append(Harness('h_mixed_%s_%s_%s' % (k, f, i), [('a', i), ('b', f)], '    const %s x(a);\n' % safe_t(i).cpp + '\n'.join(
                    '    o[%d] = %s;' % (j, e % op) for j, op in enumerate(('<', '>', '<=', '>=', '==', '!='))), mixed,
                    assume=lambda env, f=f: [z3.Not(z3.fpIsNaN(fp(env, 'b', f)))], meta=dict(f=f, i=i, swap=k == 'pmc')))
            A = safe_t(i)
            st = "put(o, 2, base_value(x));"
            hs.append(Harness('h_ctor_%s_%s' % (f, i), [('a', f)], '    const %s x(a); %s' % (A.cpp, st), f2i, meta=dict(f=f, i=i, lo=A.lo, hi=A.hi, checked=False)))
            hs.append(Harness('h_set_%s_%s' % (f, i), [('a', f)], '    %s x(1); x = a; %s' % (A.cpp, st), f2i, meta=dict(f=f, i=i, lo=A.lo, hi=A.hi, checked=False)))
            h20.append(Harness('h_float_%s_%s' % (f, i), [('a', i)], '    const auto r = checked::cast<%s>(a);\n' % F + OUTF % dict(F=F, W=W), i2f,
                               meta=dict(f=f, i=i, checked=True)))
            h20.append(Harness('h_safe_%s_%s' % (f, i), [('a', i)], '''    const safe<%s, native, EP> x(a);
    const %s f = static_cast<%s>(x); %s w; std::memcpy(&w, &f, sizeof w); o[2] = w;''' % (T[i][0], F, F, W), i2f, meta=dict(f=f, i=i, checked=False)))
        for lo, hi in ((-10, 100), (0, 40), (-100000, 5), (0, (1 << 40) + 1), (-(1 << 53) - 1, (1 << 53) + 1)):
            A = range_t(lo, hi, lo < 0)
            hs.append(Harness('h_ctor_%s_%s' % (f, A.name), [('a', f)], '    typedef %s X; const X x(a); %s' % (A.cpp, st), f2i,
                              meta=dict(f=f, i=A.base, lo=lo, hi=hi, checked=False)))
        for g in FS:
            m = dict(f=f, g=g, fn=FN)
            hs.append(Harness('h_cmp_%s_%s' % (f, g), [('a', f), ('b', g)],
                              '\n'.join('    o[%d] = safe_compare::%s(a, b);' % (k, n) for k, n in enumerate(FN)), cmp_spec, assume=num(m), meta=m))
    us = [Unit('c27', hs, prelude=PRE), Unit('c27_20', h20, prelude=PRE, std='c++20')]
    return Check('C27', us, 'conversions between integers and floating point', 'every float and double (including NaN and infinities) to ten integer types and sub-ranges; '
                 'every value of ten integer types to float and double (C++20, earlier standards reject it); comparisons of every pair of numbers; safe integer with a number in either order (C++20)')

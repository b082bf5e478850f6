"""C03: checked::cast between any two integral types"""
from common import *

TYPES = INTS + ['bool', 'char', 'wchar', 'c16', 'c32', 'll', 'ull']


def spec(h, p, env):
    r = h.meta['r']
    _, bits, sg = T[r]
    lo, hi = h.meta.get('lohi') or irange(sg, bits)
    a = env['a']
    if p.kind != 'ret':
        return [('must not throw', FALSE)]
    if p.c(0):
        code = p.c(1)
        g = [('a conversion fails only when the value is not representable', z3.Not(a.inr(lo, hi)))]
        if code == POS:
            g.append(('positive overflow means above the maximum', a.gt(hi)))
        elif code == NEG:
            g.append(('negative overflow means below the minimum', a.lt(lo)))
        elif code == DOMAIN:
            g.append(('domain error means negative into unsigned', z3.And(z3.BoolVal(not sg), a.lt(lo))))
        else:
            g.append(('unexpected error code %d' % code, FALSE))
        return g
    return [('a conversion that succeeds preserves the value', z3.And(a.inr(lo, hi), p.mi(2, sg).eq(a)))]


def sub(r):
    """sub-ranges of r"""
    lo, hi = lim(r)
    out = [(lo, hi)]
    if hi > 1:
        out += [(lo + (hi - lo) // 3, hi - (hi - lo) // 4), (max(lo, -1), hi // 2), (hi // 3, hi), (hi // 2, hi // 2)]
        if lo < 0:
            out += [(lo, -1), (lo // 2, lo // 3)]
    return out


def check(tier):
    hs, hs2 = [], []
    for r in TYPES:
        for t in TYPES:
            body = '''    auto r = checked::cast<%s>(a);
    o[0] = r.exception(); o[1] = (std::uint64_t)static_cast<safe_numerics_error>(r);
    if (!r.exception()) put(o, 2, static_cast<%s>(r));''' % (T[r][0], T[r][0])
            hs.append(Harness('h_cast_%s_from_%s' % (r, t), [('a', t)], body, spec, meta=dict(r=r)))
    rs = INTS if tier == 'thorough' else ['i8', 'u16', 'i32', 'u64', 'i64', 'u32']
    for r in rs:
        for i, (lo, hi) in enumerate(sub(r)):
            if i == 0:
                continue
            for t in INTS:
                body = '''    auto r = heterogeneous_checked_operation<%s, (%s)%s, (%s)%s, %s, make_checked_result<%s> >::cast(a);
    o[0] = r.exception(); o[1] = (std::uint64_t)static_cast<safe_numerics_error>(r);
    if (!r.exception()) put(o, 2, static_cast<%s>(r));''' % (T[r][0], T[r][0], lit(lo, lo < 0), T[r][0], lit(hi, lo < 0), T[t][0], T[r][0], T[r][0])
                hs2.append(Harness('h_cast_%s_sub%d_from_%s' % (r, i, t), [('a', t)], body, spec, meta=dict(r=r, lohi=(lo, hi))))
    return Check('C03', [Unit('c03a', hs[:113]), Unit('c03b', hs[113:]), Unit('c03c', hs2)], 'checked conversions',
                 'every pair of the 15 integral types (8-64 bit, bool and character types), all values; selected sub-ranges of the target')

"""C16: arithmetic on checked results: exact on values, extended integers on errors"""
from crcommon import *

AR = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'mod': '%'}
SH = {'shl': '<<', 'shr': '>>'}
BW = {'or': '|', 'and': '&', 'xor': '^'}
W = 140


class R:
    """result written by put_cr"""

    def __init__(self, p, i, sg):
        c = p.c(i)
        self.code = c
        self.isv, self.neg, self.pos = c == SUCCESS, c == NEG, c == POS
        self.und = not (self.isv or self.neg or self.pos)
        self.v = p.mi(i + 1, sg) if self.isv else None


def on_values(r, x, defined, lo, hi, sg):
    """goal: r is what the exact result x (where defined) demands"""
    if r.isv:
        return 'a value is the exact result', z3.And(defined, r.v.eq(x))
    if r.neg:
        return 'negative overflow means the exact result is below the minimum', z3.Or(z3.Not(defined), x.lt(lo))
    if r.pos:
        return 'positive overflow means the exact result is above the maximum', z3.Or(z3.Not(defined), x.gt(hi))
    return 'an undetermined error means there is no result (or a negative one for an unsigned type)', \
        z3.Or(z3.Not(defined), z3.And(z3.BoolVal(not sg), x.lt(0)))


def inf_goal(r, neg, pos, val=None, any_err=FALSE):
    """with an overflow or undetermined operand: neg/pos = conditions for the infinities, val = (cond, value), any_err = condition under which
    any error is right, otherwise undetermined"""
    others = z3.Or([neg, pos] + ([val[0]] if val else []))
    if r.isv:
        return ('a value is justified', z3.And(val[0], r.v.eq(val[1]))) if val else ('no value is justified', FALSE)
    if r.neg:
        return 'a negative overflow is justified', z3.Or(neg, any_err)
    if r.pos:
        return 'a positive overflow is justified', z3.Or(pos, any_err)
    return 'undetermined only if nothing definite is justified', z3.Or(any_err, z3.Not(others))


def shift_exact(a, n, left):
    """floor(a * 2**n) resp. floor(a / 2**n) for n >= 0, saturated far outside 64 bits"""
    big = n.gt(66)
    k = ite(big, MI(66), n)
    if left:
        return MI(a.at(W) << k.at(W), -(1 << 131), 1 << 131)
    return MI(a.at(W) >> k.at(W), -(1 << 64), 1 << 64)


def spec(h, p, env):
    if p.kind != 'ret':
        return [('ends with %s %s' % (p.kind, p.info), FALSE)]
    m = h.meta
    op, ty = m['op'], m['ty']
    lo, hi = lim(ty)
    sg = lo < 0
    r = R(p, 0, sg)
    t = X(env['e'], env['a'])
    a = env['a']
    if op in ('neg', 'pos', 'not'):
        if op == 'neg':
            lv, gv = on_values(r, -a, TRUE, lo, hi, sg)
            le, ge = inf_goal(r, t.pos, t.neg)
        elif op == 'pos':
            lv, gv = on_values(r, a, TRUE, lo, hi, sg)
            le, ge = inf_goal(r, t.neg, t.pos)
        else:
            lv, gv = on_values(r, (MI(-1) if sg else MI(hi)) - a, TRUE, lo, hi, sg)
            le, ge = 'an error stays an error', z3.BoolVal(not r.isv)
        return [(lv, z3.Implies(t.isv, gv)), (le, z3.Implies(z3.Not(t.isv), ge))]
    u = X(env['f'], env['b'])
    b = env['b']
    vals = z3.And(t.isv, u.isv)
    anyind = z3.Or(t.ind, u.ind)
    okinf = z3.Not(anyind)
    if op in BW:
        if r.isv:
            x, y = a.at(128), b.at(128)
            w = {'or': x | y, 'and': x & y, 'xor': x ^ y}[op]
            return [('the bits of the operands', z3.And(vals, r.v.at(128) == w))]
        return [('only error operands give an error', z3.Not(vals))]
    if op in AR:
        x, defined = exact(op, a, b)
        lv, gv = on_values(r, x, defined, lo, hi, sg)
    tn, tp, un, up = t.neg, t.pos, u.neg, u.pos
    tz, uz = z3.And(t.isv, a.eq(0)), z3.And(u.isv, b.eq(0))
    tlz, tgz = z3.Or(tn, z3.And(t.isv, a.lt(0))), z3.Or(tp, z3.And(t.isv, a.gt(0)))
    ulz, ugz = z3.Or(un, z3.And(u.isv, b.lt(0))), z3.Or(up, z3.And(u.isv, b.gt(0)))
    uinf, tinf = z3.Or(un, up), z3.Or(tn, tp)
    if op in ('add', 'sub'):
        if op == 'sub':
            un, up = up, un
        neg = z3.And(okinf, z3.Or(tn, un), z3.Not(tp), z3.Not(up))
        pos = z3.And(okinf, z3.Or(tp, up), z3.Not(tn), z3.Not(un))
        le, ge = inf_goal(r, neg, pos)
    elif op == 'mul':
        neg = z3.And(okinf, z3.Or(z3.And(tlz, ugz), z3.And(tgz, ulz)))
        pos = z3.And(okinf, z3.Or(z3.And(tlz, ulz), z3.And(tgz, ugz)))
        le, ge = inf_goal(r, neg, pos, (z3.And(okinf, z3.Or(tz, uz)), MI(0)))
    elif op == 'div':
        neg = z3.And(tinf, u.isv, z3.Or(z3.And(tn, ugz), z3.And(tp, ulz)))
        pos = z3.And(tinf, u.isv, z3.Or(z3.And(tn, ulz), z3.And(tp, ugz)))
        le, ge = inf_goal(r, neg, pos, (z3.And(t.isv, uinf), MI(0)), z3.And(okinf, tinf, z3.Or(uinf, uz)))
    elif op == 'mod':
        if r.isv:
            m_ = ite(b.lt(0), -b, b)
            le, ge = 'a remainder is one an overflowed operand justifies', z3.Or(
                z3.And(t.isv, uinf, r.v.eq(a)),
                z3.And(tinf, u.isv, r.v.lt(m_), r.v.gt(-m_), z3.If(tn, r.v.le(0), r.v.ge(0))))
        elif r.und:
            le, ge = 'undetermined only if nothing definite is justified', z3.Not(z3.And(t.isv, uinf))
        else:
            le, ge = 'an overflow direction is justified', z3.And(tinf, u.isv, z3.BoolVal(not sg))
    else:
        left = op == 'shl'
        nb = ite(b.lt(0), -b, b)
        tw = z3.Or(b.ge(0)) if left else b.le(0)       # magnitude grows
        r1, r2 = shift_exact(a, nb, True), shift_exact(a, nb, False)
        l1, g1 = on_values(r, r1, TRUE, lo, hi, sg)
        l2, g2 = on_values(r, r2, TRUE, lo, hi, sg)
        lv, gv = ('a shift multiplies or divides by the power of two', z3.If(tw, g1, g2))
        grow, shrink = (up, un) if left else (un, up)
        neg = z3.Or(z3.And(tn, z3.Or(u.isv, grow)), z3.And(t.isv, a.lt(0), grow))
        pos = z3.Or(z3.And(tp, z3.Or(u.isv, grow)), z3.And(t.isv, a.gt(0), grow))
        val = (z3.Or(tz, z3.And(t.isv, shrink)), ite(a.lt(0), MI(-1), MI(0)))
        le, ge = inf_goal(r, neg, pos, val)
    return [(lv, z3.Implies(vals, gv)), (le, z3.Implies(z3.Not(vals), ge))]


def conv_spec(h, p, env):
    if p.kind != 'ret':
        return [('ends with %s %s' % (p.kind, p.info), FALSE)]
    to, e, a = h.meta['to'], env['e'], env['a']
    lo, hi = lim(to)
    if p.c(0):
        return [('an error comes from that error', z3.And(e.ne(0), p.mi(1, False).eq(e), z3.BoolVal(p.c(2) == 1)))]
    return [('a value comes from a value, the same if the type can hold it', z3.And(e.eq(0), z3.Implies(a.inr(lo, hi), p.mi(3, lo < 0).eq(a))))]


def check(tier):
    units = []
    for ty in INTS:
        t = T[ty][0]
        sg = T[ty][2]
        hs = []
        pre = '    checked_result<%s> t = mk<%s>(e, a), u = mk<%s>(f, b);\n' % (t, t, t)
        for op, s in list(AR.items()) + list(SH.items()) + list(BW.items()):
            hs.append(Harness('h_%s_%s' % (op, ty), [('e', 'u8'), ('a', ty), ('f', 'u8'), ('b', ty)],
                              pre + '    put_cr(o, 0, checked_result<%s>(t %s u));' % (t, s), spec,
                              assume=lambda env: codes(env, 'e', 'f'), meta=dict(op=op, ty=ty)))
        for op, s in (('neg', '-'), ('pos', '+'), ('not', '~')):
            hs.append(Harness('h_%s_%s' % (op, ty), [('e', 'u8'), ('a', ty)],
                              '    checked_result<%s> t = mk<%s>(e, a);\n    put_cr(o, 0, checked_result<%s>(%st));' % (t, t, t, s), spec,
                              assume=lambda env: codes(env, 'e'), meta=dict(op=op, ty=ty)))
        for to in INTS:
            hs.append(Harness('h_from_%s_%s' % (ty, to), [('e', 'u8'), ('a', ty)], '''    const checked_result<%(t)s> t = mk<%(t)s>(e, a);
    const checked_result<%(r)s> r(t);
    if(r.exception()){
        o[0] = 1; put(o, 1, (int)static_cast<safe_numerics_error>(r));
        if(static_cast<const char *>(r) == static_cast<const char *>(t)) o[2] = 1; else o[2] = 0;
    }
    else { o[0] = 0; put(o, 3, static_cast<%(r)s>(r)); }''' % dict(t=t, r=T[to][0]), conv_spec, assume=lambda env: codes(env, 'e'), meta=dict(to=to)))
        units.append(Unit('c16_' + ty, hs, prelude=CPRE))
    return Check('C16', units, 'checked_result arithmetic',
                 'eight integer types; every value and every one of the 10 error codes for both operands; construction from the checked results of the others')

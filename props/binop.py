"""harness generator and oracle for binary arithmetic on safe operands"""
from common import *

PRE = PRELUDE + r'''
template<class R> inline void info(std::uint64_t *o) {
    typedef typename base_type<R>::type B;
    o[1] = std::is_signed<B>::value;
    o[2] = sizeof(B) * 8;
    o[3] = (std::uint64_t)base_value(std::numeric_limits<R>::min());
    o[4] = (std::uint64_t)base_value(std::numeric_limits<R>::max());
    o[5] = is_safe<R>::value;
}
'''


def body(op, A, B):
    return '''    typedef %s TA; typedef %s TB;
    typedef decltype(std::declval<TA const &>() %s std::declval<TB const &>()) R;
    info<R>(o);
    const TA x(a); const TB y(b);
    const R r = x %s y;
    put(o, 0, base_value(r));''' % (A.cpp, B.cpp, OPSYM[op], OPSYM[op])


def const(v):
    if isinstance(v, int):
        return v
    v = z3.simplify(v)
    return v.as_long() if z3.is_bv_value(v) else None


def sconst(v, bits=32):
    v = const(v)
    return v if v is None or v < 1 << (bits - 1) else v - (1 << bits)


def static_type(h, p):
    """(signed, bits, declared lo, declared hi) of the result, written before the operation runs"""
    sg = bool(p.c(1))
    k = lambda v: v - (1 << 64) if sg and v >> 63 else v
    return sg, p.c(2), k(p.c(3)), k(p.c(4))


def err_goals(p, a, b, x, defined, lo, hi, unsigned, kind=ARITH):
    """goals for an error outcome of an arithmetic operation evaluated in [lo, hi]"""
    k, c = const(p.err[0]), sconst(p.err[1])
    ops = [v for v in (a, b) if v is not None]
    out = [z3.Not(v.inr(lo, hi)) for v in ops]
    g = [('an error is reported only when an operand or the exact result does not fit the result type',
          z3.Or(out + [z3.Not(z3.And(defined, x.inr(lo, hi)))])),
         ('arithmetic failures reach the arithmetic handler', z3.BoolVal(k == kind))]
    above = z3.Or([v.gt(hi) for v in ops] + [z3.And(defined, x.gt(hi))])
    below = z3.Or([v.lt(lo) for v in ops] + [z3.And(defined, x.lt(lo))])
    if c == POS:
        g.append(('positive overflow means something is above the maximum', above))
    elif c == NEG:
        g.append(('negative overflow means something is below the minimum', below))
    elif c == DOMAIN:
        g.append(('domain error means division by zero or a negative value for an unsigned type',
                  z3.Or(z3.Not(defined), z3.And(z3.BoolVal(unsigned), below))))
    else:
        g.append(('unexpected error code %r' % c, FALSE))
    return g


def arith_spec(h, p, env):
    m = h.meta
    op, A, B = m['op'], m['A'], m['B']
    a, b = env['a'], env['b']
    x, defined = exact(op, a, b)
    sg, bits, lo, hi = static_type(h, p)
    tlo, thi = irange(sg, bits)
    g = []
    if m.get('rtype'):
        g.append(('the result type is the one the policy prescribes', z3.BoolVal((bits, sg) == tuple(m['rtype']))))
    g.append(('the declared result range lies in the result type', z3.BoolVal(tlo <= lo <= hi <= thi)))
    if p.kind == 'ret':
        v = p.mi(0, sg)
        g.append(('a result that is delivered is the exact mathematical result', z3.And(defined, v.eq(x))))
        g.append(('the result lies in the range its type declares', v.inr(lo, hi)))
        return g
    if p.kind != 'err':
        return g + [('ends with %s %s' % (p.kind, p.info), FALSE)]
    g += err_goals(p, a, b, x, defined, tlo, thi, not sg)
    if m.get('nothrow'):
        g.append(('no error when every exact result fits a 64-bit type', z3.Not(defined)))
    return g


def assume(A, B):
    def f(env):
        return [env['a'].inr(A.lo, A.hi), env['b'].inr(B.lo, B.hi)]
    return f


def rtype_native(op, A, B):
    return conv(A.base, B.base)


def binop(op, A, B, spec=arith_spec, rtype=None, **meta):
    nm = 'h_%s_%s_%s' % (op, A.name, B.name)
    return Harness(nm, [('a', A.base), ('b', B.base)], body(op, A, B), spec, assume=assume(A, B),
                   meta=dict(op=op, A=A, B=B, rtype=rtype, **meta))


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def hull(op, A, B):
    """exact range of all results over the operand ranges"""
    al, ah, bl, bh = A.lo, A.hi, B.lo, B.hi
    if op == 'add':
        return al + bl, ah + bh
    if op == 'sub':
        return al - bh, ah - bl
    if op == 'mul':
        c = [al * bl, al * bh, ah * bl, ah * bh]
        return min(c), max(c)
    ds = [d for d in (bl, bh, -1, 1) if d and bl <= d <= bh]
    if op == 'div':
        c = [tdiv(n, d) for n in (al, ah) for d in ds] or [0]
        if al <= 0 <= ah:
            c.append(0)
        return min(c), max(c)
    m = max([abs(d) - 1 for d in ds] or [0])
    return (max(al, -m) if al < 0 else 0), (min(ah, m) if ah > 0 else 0)


def units(prefix, hs, n=40, prelude=PRE, **kw):
    seen = set()
    out = []
    for h in hs:
        if h.name not in seen:
            seen.add(h.name)
            out.append(h)
    return [Unit('%s_%d' % (prefix, i), out[i * n:(i + 1) * n], prelude=prelude, **kw) for i in range((len(out) + n - 1) // n)]

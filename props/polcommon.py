"""operations run twice: under the recording policy and under the policy in question"""
from binop import *

PPRE = PRE + '''
template<class X> using typename_type = typename base_type<typename std::decay<X>::type>::type;
'''

# o[8] kind recorded by EP (0: none) o[9] code o[10] value under EP; o[0] value under the policy, o[1..5] its type
BODY = '''    typedef %(P)s P;
    put(o, 8, 0);
    try {
        typedef EP Q;
        %(A)s
        %(B)s
        %(expr)s
        put(o, 10, base_value(r));
    } catch (const Err & e) { o[8] = e.kind; o[9] = e.code; }
    {
        typedef P Q;
        %(A)s
        %(B)s
        info<typename std::decay<decltype(%(type)s)>::type>(o);
        %(expr)s
        %(guard)sput(o, 0, base_value(r));
    }'''

POLICIES = {
    'default': ('default_exception_policy', {ARITH, IMPL}),
    'strict': ('strict_exception_policy', {ARITH, IMPL}),
    'loose': ('loose_exception_policy', {ARITH}),
    'ignore': ('exception_policy<ignore_exception, ignore_exception, ignore_exception, ignore_exception>', set()),
    'arithonly': ('exception_policy<throw_exception, ignore_exception, ignore_exception, ignore_exception>', {ARITH}),
    'implonly': ('exception_policy<ignore_exception, throw_exception, ignore_exception, ignore_exception>', {IMPL}),
}


def action_of(c):
    return ARITH if 1 <= c <= 6 else IMPL if 7 <= c <= 9 else UNINITK if c == 10 else 0


def wrap(x, bits, signed):
    """value of x (MI or 64-bit) converted to the type"""
    v = x.at(160)
    e = z3.Extract(bits - 1, 0, v)
    return MI.bv(e, signed)


def harness(pol, k, op, A, B, spec, name=None, **meta):
    """k: bin (A op B), cmp, neg, asg (A op= B), inc, conv (A from builtin B), toB (A to builtin B)"""
    a = 'typedef %s TA; TA x(a);' % A.cpp.replace('EP>', 'Q>')
    b = ''
    params = [('a', A.base)]
    rs = [('a', A)]
    if k == 'conv':
        a = 'typedef %s TA;' % A.cpp.replace('EP>', 'Q>')
        b = ''
        params = [('b', B.base)]
        rs = [('b', B)]
        expr, ty = 'const TA r = TA(b);', 'std::declval<TA>()'
    elif k == 'assign':
        params.append(('b', B.base))
        rs.append(('b', B))
        expr, ty = 'x = b; const TA r = x;', 'std::declval<TA>()'
    elif k == 'toB':
        expr, ty = 'const %s r = static_cast<%s>(x);' % (T[B.base][0], T[B.base][0]), 'std::declval<%s>()' % T[B.base][0]
    elif k == 'neg':
        expr, ty = 'const auto r = -x;', '-x'
    elif k == 'inc':
        expr, ty = {'++': 'const TA r = ++x;', '--': 'const TA r = --x;'}[op], 'std::declval<TA>()'
    else:
        params.append(('b', B.base))
        rs.append(('b', B))
        b = 'typedef %s TB; TB y(b);' % B.cpp.replace('EP>', 'Q>')
        sym = OPSYM[op]
        if k in ('bin', 'cmp'):
            expr, ty = 'const auto r = x %s y;' % sym, 'x %s y' % sym
        else:
            expr, ty = 'x %s= y; const TA r = x;' % sym, 'std::declval<TA>()'
    # no builtin result exists for a zero divisor (what an ignoring policy delivers then is not specified)
    guard = 'typedef typename_type<decltype(%s)> RB; if (!o[8] || (static_cast<RB>(b) != 0 && static_cast<RB>(b) != static_cast<RB>(-1))) ' % ty \
        if op in ('div', 'mod') and k in ('bin', 'asg') else ''
    h = Harness(name or 'h_%s_%s_%s_%s%s' % (pol, k, {'++': 'pp', '--': 'mm'}.get(op, op) or 'x', A.name, '_' + B.name if B is not None else ''), params,
                BODY % dict(guard=guard, P=POLICIES[pol][0], A=a, B=b, expr=expr, type=ty), spec,
                assume=lambda env: [env[n].inr(s.lo, s.hi) for n, s in rs], meta=dict(k=k, op=op, A=A, B=B, pol=pol, own_ub=True, **meta))
    return h

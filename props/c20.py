"""C20: error codes, conditions, actions and messages agree"""
from common import *

PRE = PRELUDE + r'''
typedef safe_numerics_error E;
typedef safe_numerics_actions A;
// libstdc++'s default members of error_category, as specified by the standard
extern "C" bool stub_equivalent_condition(const std::error_category * c, int code, const std::error_condition & cond) {
    return c->default_error_condition(code) == cond;
}
extern "C" bool stub_equivalent_code(const std::error_category * c, const std::error_code & code, int cond) {
    return *c == code.category() && code.value() == cond;
}
static bool same(const char * a, const char * b) {
    for (; *a && *a == *b; ++a, ++b) ;
    return *a == *b;
}
struct Other : std::error_category {
    const char * name() const noexcept { return "other"; }
    std::string message(int) const { return "other"; }
};
static const Other other;
std::error_code far_code(int i);
std::error_condition far_condition(int i);
'''
EXTRA = '''
#include <boost/safe_numerics/safe_integer.hpp>
using namespace boost::safe_numerics;
// names the category directly: what an inlined make_error_code does
std::error_code far_code(int i) { return std::error_code(i, safe_numerics_error_category); }
std::error_condition far_condition(int i) { return std::error_condition(i, safe_numerics_actions_category); }
'''


def action(e):
    """action the documentation assigns to an error"""
    if 1 <= e <= 6:
        return 2
    if 7 <= e <= 9:
        return 3
    return 1 if e == 10 else 0


def act(v):
    r = z3.BitVecVal(0, 64)
    for e in range(11):
        r = z3.If(v == e, z3.BitVecVal(action(e), 64), r)
    return r


def slot(p, i):
    v = p.u(i)
    return z3.BitVecVal(v, 64) if isinstance(v, int) else v


def spec(h, p, env):
    k = h.meta['k']
    if k == 'route':
        e = h.meta['e']
        kind = {2: ARITH, 3: IMPL, 1: UNINITK}[action(e)]
        return [('the error reaches the handler of its action with its code',
                 z3.BoolVal(p.kind == 'err' and const32(p.err[0]) == kind and const32(p.err[1]) == e))]
    if p.kind != 'ret':
        return [('ends with %s %s' % (p.kind, p.info), FALSE)]
    v = env['v'].at(64)
    one = z3.BitVecVal(1, 64)
    bit = lambda i, c: slot(p, i) == z3.If(c, one, z3.BitVecVal(0, 64))
    if k == 'code':
        return [('the error code has the value of the error', slot(p, 0) == v),
                ('the error code has the category of safe numerics', slot(p, 1) == 1),
                ('the message is not empty', slot(p, 2) != 0), ('the literal is not empty', slot(p, 3) != 0),
                ('true exactly for an error', bit(4, v != 0))]
    w = env['w'].at(64)
    if k == 'distinct':
        return [('messages are equal only for equal errors', bit(0, v == w)), ('literals are equal only for equal errors', bit(1, v == w)),
                ('error codes are equal only for equal errors', bit(2, v == w)), ('codes and errors compare by value', bit(3, v == w))]
    if k == 'action':
        return [('make_safe_numerics_action gives the documented action', slot(p, 0) == act(v)),
                ('the category finds a code equivalent to exactly its action', bit(1, act(v) == w)),
                ('an error code equals exactly the action it is routed to', bit(2, act(v) == w)),
                ('a code of another category equals no action', slot(p, 3) == 0)]
    if k == 'far':
        return [('an error code made in another translation unit equals exactly the same error', bit(0, v == w))]
    return [('an error code made in another translation unit equals exactly its action', bit(0, act(v) == w)),
            ('an action of another translation unit matches exactly its codes', bit(1, act(v) == w))]


def const32(x):
    if not isinstance(x, int):
        x = z3.simplify(x)
        x = x.as_long() if z3.is_bv_value(x) else None
    return x


def check(tier):
    err = lambda env: [env['v'].inr(0, 10)]
    two = lambda env: [env['v'].inr(0, 10), env['w'].inr(0, 10)]
    ea = lambda env: [env['v'].inr(0, 10), env['w'].inr(0, 4)]
    hs = [Harness('h_code', [('v', 'u8')], '''    const E e = static_cast<E>(v);
    const std::error_code c = e;
    put(o, 0, c.value()); put(o, 1, &c.category() == &static_cast<const std::error_category &>(safe_numerics_error_category));
    const std::string m = c.message();
    put(o, 2, m.size());
    const char * l = literal_string(e);
    put(o, 3, l != 0 && *l != 0);
    put(o, 4, static_cast<bool>(c));''', spec, assume=err, meta=dict(k='code')),
          Harness('h_distinct', [('v', 'u8'), ('w', 'u8')], '''    const E e = static_cast<E>(v), f = static_cast<E>(w);
    const std::error_code c = e, d = f;
    const std::string m = c.message(), n = d.message();
    put(o, 0, same(m.c_str(), n.c_str()));
    put(o, 1, same(literal_string(e), literal_string(f)));
    put(o, 2, c == d); put(o, 3, c == f && d == e);''', spec, assume=two, meta=dict(k='distinct')),
          Harness('h_action', [('v', 'u8'), ('w', 'u8')], '''    const E e = static_cast<E>(v);
    const A a = static_cast<A>(w);
    const std::error_code c = e, x(v, other);
    put(o, 0, static_cast<int>(make_safe_numerics_action(e)));
    put(o, 1, safe_numerics_actions_category.equivalent(c, w));
    put(o, 2, c == a && a == c && !(c != a));
    put(o, 3, x == a || safe_numerics_actions_category.equivalent(x, w));''', spec, assume=ea, meta=dict(k='action'))]
    names = 'positive_overflow_error negative_overflow_error domain_error range_error precision_overflow_error underflow_error negative_value_shift negative_shift shift_too_large uninitialized_value'.split()
    for i, n in enumerate(names):
        hs.append(Harness('h_route_' + n, [], '    dispatch<EP, E::%s>("m");\n    put(o, 0, 0);' % n, spec, meta=dict(k='route', e=i + 1)))
    far = [Harness('h_far', [('v', 'u8'), ('w', 'u8')], '    put(o, 0, far_code(v) == std::error_code(w, safe_numerics_error_category));', spec, assume=two, meta=dict(k='far')),
           Harness('h_far_action', [('v', 'u8'), ('w', 'u8')],
                   '    put(o, 0, far_code(v) == std::error_condition(w, safe_numerics_actions_category));'
                   ' put(o, 1, std::error_code(v, safe_numerics_error_category) == far_condition(w));',
                   spec, assume=ea, meta=dict(k='faraction'))]
    return Check('C20', [Unit('c20', hs, prelude=PRE), Unit('c20far', far, prelude=PRE, extra=[EXTRA])],
                 'error codes, actions, messages', 'every error (0..10), every pair of errors, every action; codes made in another translation unit',
                 stubs=['std::string constructed from a literal refers to the literal', 'libstdc++ default error_category::equivalent and '
                        'default_error_condition behave as the standard specifies'])

"""C17: comparisons of checked results"""
from crcommon import *

OPS = ['<', '>', '<=', '>=', '==', '!=']


def spec(h, p, env):
    if p.kind != 'ret':
        return [('ends with %s %s' % (p.kind, p.info), FALSE)]
    t, u = X(env['e'], env['a']), X(env['f'], env['b'])
    want = [x_lt(t, u), x_lt(u, t), neg3(x_lt(u, t)), neg3(x_lt(t, u)), x_eq(t, u), neg3(x_eq(t, u))]
    return [('%s gives the definite answer exactly when there is one' % o, tri(p.u(i), w)) for i, (o, w) in enumerate(zip(OPS, want))]


def check(tier):
    hs = []
    for ty in INTS + ['ll', 'ull', 'char', 'wchar']:
        t = T[ty][0]
        body = '    checked_result<%s> t = mk<%s>(e, a), u = mk<%s>(f, b);\n' % (t, t, t) + \
               '\n'.join('    put_tri(o, %d, t %s u);' % (i, op) for i, op in enumerate(OPS))
        hs.append(Harness('h_cmp_%s' % ty, [('e', 'u8'), ('a', ty), ('f', 'u8'), ('b', ty)], body, spec,
                          assume=lambda env: codes(env, 'e', 'f')))
    return Check('C17', [Unit('c17', hs, prelude=CPRE)], 'checked_result comparisons',
                 '12 integer types; every value and every one of the 10 error codes for both operands')

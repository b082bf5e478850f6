"""C15: interval predicates, on builtin bounds and on checked_result bounds"""
from crcommon import *

EXPR = [('inc_p', 't.includes(x)'), ('exc_p', 't.excludes(x)'), ('inc_i', 't.includes(u)'), ('exc_i', 't.excludes(u)'), ('intersect', 'intersect(t, u)'),
        ('lt', 't < u'), ('gt', 't > u'), ('le', 't <= u'), ('ge', 't >= u')]


def bits(r):
    return r if not isinstance(r, int) else z3.BitVecVal(r, 64)


def order(r, less, greater, weak_ge, strict_true=True):
    """goals for a verdict r on 'every t < every u': less/greater/weak_ge = conditions on the intervals"""
    r = bits(r)
    return [('true exactly if every member is less', (r == 1) == less), ('false if every member is greater', z3.Implies(greater, r == 0)),
            ('false only if no member is less', z3.Implies(r == 0, weak_ge)), ('a tribool', z3.ULE(r, 2))]


def order_le(r, lt, gt, weak_le):
    r = bits(r)
    return [('false exactly if every member is greater', (r == 0) == gt), ('true if every member is less', z3.Implies(lt, r == 1)),
            ('true only if no member is greater', z3.Implies(r == 1, weak_le)), ('a tribool', z3.ULE(r, 2))]


def orders(p, base, lt, gt, no_lt, no_gt):
    g = [('<: ' + l, x) for l, x in order(p.u(base), lt, gt, no_lt)]
    g += [('>: ' + l, x) for l, x in order(p.u(base + 1), gt, lt, no_gt)]
    g += [('<=: ' + l, x) for l, x in order_le(p.u(base + 2), lt, gt, no_gt)]
    g += [('>=: ' + l, x) for l, x in order_le(p.u(base + 3), gt, lt, no_lt)]
    return g


def spec(h, p, env):
    if p.kind != 'ret':
        return [('ends with %s %s' % (p.kind, p.info), FALSE)]
    tl, tu, ul, uu, x = (env[n] for n in ('tl', 'tu', 'ul', 'uu', 'x'))
    b = lambda c: (c, z3.Not(c))
    g = [('includes a point', tri(p.u(0), b(z3.And(tl.le(x), x.le(tu))))), ('excludes a point', tri(p.u(1), b(z3.Or(x.lt(tl), x.gt(tu))))),
         ('includes every member of an interval', tri(p.u(2), b(z3.And(tl.le(ul), tu.ge(uu))))),
         ('excludes every member of an interval', tri(p.u(3), b(z3.Or(uu.lt(tl), tu.lt(ul))))),
         ('intersect means a common member', tri(p.u(4), b(z3.And(tu.ge(ul), tl.le(uu)))))]
    g += orders(p, 5, tu.lt(ul), tl.gt(uu), tl.ge(uu), tu.le(ul))
    eq = z3.And(tl.eq(ul), tu.eq(uu))
    g += [('==', (bits(p.u(9)) != 0) == eq), ('!=', (bits(p.u(10)) != 0) == z3.Not(eq))]
    return g


def spec_cr(h, p, env):
    if p.kind != 'ret':
        return [('ends with %s %s' % (p.kind, p.info), FALSE)]
    tl, tu, ul, uu, x = (X(env['e' + n], env[n]) for n in ('tl', 'tu', 'ul', 'uu', 'x'))
    le = lambda a, b: neg3(x_lt(b, a))
    w = h.meta['what']
    if w == 'inc_p':
        return [('includes a point', tri(p.u(0), and3(le(tl, x), le(x, tu))))]
    if w == 'exc_p':
        return [('excludes a point', tri(p.u(0), or3(x_lt(x, tl), x_lt(tu, x))))]
    if w == 'inc_i':
        return [('includes an interval', tri(p.u(0), and3(le(uu, tu), le(tl, ul))))]
    if w == 'exc_i':
        return [('excludes an interval', tri(p.u(0), or3(x_lt(uu, tl), x_lt(tu, ul))))]
    if w == 'intersect':
        return [('intersects', tri(p.u(0), and3(le(ul, tu), le(tl, uu))))]
    return orders(p, 0, x_lt(tu, ul)[0], x_lt(uu, tl)[0], x_lt(tl, uu)[1], x_lt(ul, tu)[1])


def cr_assume(env):
    g = codes(env, 'etl', 'etu', 'eul', 'euu', 'ex')
    for l, u in (('tl', 'tu'), ('ul', 'uu')):      # not upside down
        g.append(z3.Not(x_lt(X(env['e' + u], env[u]), X(env['e' + l], env[l]))[0]))
    return g


def from_spec(h, p, env):
    if p.kind != 'ret':
        return [('ends with %s' % p.kind, FALSE)]
    sg = h.meta['sg']
    return [('the interval has the bounds it is made from', z3.And([p.mi(i, sg).eq(env['tu' if i % 2 else 'tl']) for i in range(h.meta['n'])]))]


FROM = '''    const interval<%(t)s> t(tl, tu);
    const interval<%(r)s> r(t);
    put(o, 0, r.l); put(o, 1, r.u);'''
PAIR = '''    const interval<%(t)s> t(std::pair<%(t)s, %(t)s>(tl, tu)), r(t), s = r;
    put(o, 0, t.l); put(o, 1, t.u); put(o, 2, s.l); put(o, 3, s.u);'''


def check(tier):
    units = []
    vs = ['tl', 'tu', 'ul', 'uu', 'x']
    for ty in INTS:
        t = T[ty][0]
        body = '    typedef %s T;\n    interval<T> t(tl, tu), u(ul, uu);\n' % t + \
            '\n'.join('    put_tri(o, %d, %s);' % (i, e) for i, (n, e) in enumerate(EXPR)) + '\n    o[9] = t == u; o[10] = t != u;'
        hs = [Harness('h_iv_' + ty, [(v, ty) for v in vs], body, spec,
                      assume=lambda env: [env['tl'].le(env['tu']), env['ul'].le(env['uu'])])]
        if ty in ('i8', 'u16', 'i64', 'u64') or tier == 'thorough':
            mkall = '    typedef %s T; typedef checked_result<T> C;\n' % t
            iv = '    interval<C> t(mk<T>(etl, tl), mk<T>(etu, tu))'
            for n, e in EXPR[:5] + [('order', None)]:
                need = ['tl', 'tu'] + (['x'] if n.endswith('_p') else ['ul', 'uu'])
                b = mkall + iv + (';\n    C x_ = mk<T>(ex, x);\n' if 'x' in need else ', u(mk<T>(eul, ul), mk<T>(euu, uu));\n')
                if e:
                    b += '    put_tri(o, 0, %s);' % e.replace('(x)', '(x_)')
                else:
                    b += '\n'.join('    put_tri(o, %d, %s);' % (i, e2) for i, (_, e2) in enumerate(EXPR[5:]))
                hs.append(Harness('h_cr_%s_%s' % (n, ty), [y for v in vs for y in (('e' + v, 'u8'), (v, ty))], b, spec_cr,
                                  assume=cr_assume, meta=dict(what=n)))
        for to in INTS:
            lo, hi = lim(to)
            hs.append(Harness('h_from_%s_%s' % (ty, to), [('tl', ty), ('tu', ty)], FROM % dict(t=t, r=T[to][0]), from_spec,
                              assume=lambda env, lo=lo, hi=hi: [env['tl'].le(env['tu']), env['tl'].ge(lo), env['tu'].le(hi)], meta=dict(sg=T[to][2], n=2)))
        hs.append(Harness('h_pair_' + ty, [('tl', ty), ('tu', ty)], PAIR % dict(t=t), from_spec, assume=lambda env: [env['tl'].le(env['tu'])],
                          meta=dict(sg=T[ty][2], n=4)))
        units.append(Unit('c15_' + ty, hs, prelude=CPRE))
    return Check('C15', units, 'interval predicates',
                 'intervals of eight integer types, every bound (lower <= upper) and point; checked_result bounds and points of %s types with every value '
                 'and error code' % ('eight' if tier == 'thorough' else 'four'))

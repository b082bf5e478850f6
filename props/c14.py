"""C14: interval arithmetic encloses every result of members of the operands"""
from crcommon import *
from c16 import shift_exact

SYM = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'mod': '%', 'shl': '<<', 'shr': '>>', 'union': '|', 'inter': '&'}


def result(op, a, b):
    if op in ('shl', 'shr'):
        nb = ite(b.lt(0), -b, b)
        grow = b.ge(0) if op == 'shl' else b.le(0)
        return ite(grow, shift_exact(a, nb, True), shift_exact(a, nb, False)), TRUE
    return exact(op, a, b)


def encl(lab, tl, tu, lo, hi, x, cond):
    """goals: x lies in the interval whose bounds were written as (code, value) pairs"""
    g = []
    for nm, (c, v), below in (('lower', tl, True), ('upper', tu, False)):
        if c == SUCCESS:
            g.append(('%s: %s bound' % (lab, nm), z3.Implies(cond, v.le(x) if below else v.ge(x))))
        elif c == POS and below:
            g.append(('%s: a lower bound above the type' % lab, z3.Implies(cond, x.gt(hi))))
        elif c == NEG and not below:
            g.append(('%s: an upper bound below the type' % lab, z3.Implies(cond, x.lt(lo))))
    return g


def bound(p, i, sg):
    c = p.c(i)
    return c, (p.mi(i + 1, sg) if c == SUCCESS else None)


def members(env):
    return [env['tl'].le(env['a']), env['a'].le(env['tu']), env['ul'].le(env['b']), env['b'].le(env['uu'])]


def spec(h, p, env):
    if p.kind != 'ret':
        return [('ends with %s %s' % (p.kind, p.info), FALSE)]
    m = h.meta
    op, ty = m['op'], m['ty']
    lo, hi = lim(ty)
    sg = lo < 0
    L, U = bound(p, 0, sg), bound(p, 2, sg)
    a, b = env['a'], env['b']
    if op == 'union':
        return encl('a member of the left interval', L, U, lo, hi, a, TRUE) + encl('a member of the right interval', L, U, lo, hi, b, TRUE)
    if op == 'inter':
        both = a.inr(0, 0) if False else z3.And(env['ul'].le(a), a.le(env['uu']))
        inr = z3.And(L[1].le(a), a.le(U[1])) if L[0] == 0 and U[0] == 0 else FALSE
        return [('a member of the left interval is in the intersection exactly if it is in the right one', inr == both)]
    x, d = result(op, a, b)
    return encl('the result of two members is enclosed', L, U, lo, hi, x, d)


def assume_cr(op):
    def f(env):
        g = members(env)
        if op == 'div':
            g.append(z3.Or(env['ul'].gt(0), env['uu'].lt(0)))
        return g
    return f


def signs(op, i, j):
    """case split: operand intervals non-negative, negative, or both"""
    def f(env):
        g = assume_cr(op)(env)
        for k, l, u in ((i, 'tl', 'tu'), (j, 'ul', 'uu')):
            g += [[env[l].ge(0)], [env[u].lt(0)], [env[l].lt(0), env[u].ge(0)]][k]
        return g
    return f


def assume_builtin(op, ty):
    lo, hi = lim(ty)

    def f(env):
        g = assume_cr(op)(env)
        tl, tu, ul, uu = (env[n] for n in ('tl', 'tu', 'ul', 'uu'))
        if op in ('union', 'inter'):
            return g
        if op in ('shl', 'shr'):
            g += [ul.ge(0), uu.lt(min(32, hi.bit_length()) if op == 'shl' else hi.bit_length())]
        if op == 'mod':
            g += [ul.gt(lo), tl.gt(lo)] if lo < 0 else []
            return g
        for a in (tl, tu):
            for b in (ul, uu):
                g.append(result(op, a, b)[0].inr(lo, hi))
        return g
    return f


def check(tier):
    units = []
    deep = tier == 'thorough'
    for ty in INTS:
        t = T[ty][0]
        bits = T[ty][1]
        hs = []
        ps = [(n, ty) for n in ('tl', 'tu', 'ul', 'uu', 'a', 'b')]
        for op, s in SYM.items():
            if op in ('mul', 'div', 'mod') and bits > (16 if deep else 8):
                continue
            if op in ('shl', 'shr') and bits > (16 if deep else 8 if T[ty][2] else 16):
                continue
            if op not in ('union', 'inter'):
                b = '    typedef %s T; typedef checked_result<T> C;\n    C x1(tl), x2(tu), x3(ul), x4(uu); interval<C> t(x1, x2), u(x3, x4);\n    interval<C> r = t %s u;\n' \
                    '    put_cr(o, 0, r.l); put_cr(o, 2, r.u);' % (t, s)
                if T[ty][2] and op in ('mul', 'div', 'shl', 'shr'):
                    for i in range(3):
                        for j in range(3):
                            if op == 'div' and j == 2:
                                continue
                            hs.append(Harness('h_cr_%s_%s_%s%s' % (op, ty, 'pnm'[i], 'pnm'[j]), ps, b, spec, assume=signs(op, i, j), max_steps=4000000, max_paths=40000,
                                              meta=dict(op=op, ty=ty)))
                else:
                    hs.append(Harness('h_cr_%s_%s' % (op, ty), ps, b, spec, assume=assume_cr(op), meta=dict(op=op, ty=ty)))
            if bits in (8, 32) and (op in ('add', 'sub', 'union', 'inter') or bits == 8):
                b = '    typedef %s T;\n    interval<T> t(tl, tu), u(ul, uu);\n    interval<T> r = t %s u;\n' \
                    '    o[0] = 0; o[2] = 0; put(o, 1, r.l); put(o, 3, r.u);' % (t, s)
                hs.append(Harness('h_bi_%s_%s' % (op, ty), ps, b, spec, assume=assume_builtin(op, ty), meta=dict(op=op, ty=ty)))
        for i in range(0, len(hs), 12):
            units.append(Unit('c14_%s_%d' % (ty, i // 12), hs[i:i + 12], prelude=CPRE, flags=['-Wno-narrowing']))
    return Check('C14', units, 'interval arithmetic',
                 'every interval and every pair of members: + - of eight integer types, * / % of 8-bit types (thorough: 16-bit), << >> of 8-bit and unsigned '
                 '16-bit types (thorough: all 16-bit), each with checked_result bounds; builtin bounds at 8 and 32 bits where the bounds of the result fit; '
                 'divisor intervals without zero')

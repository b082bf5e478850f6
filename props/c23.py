"""C23: safe literals"""
from binop import *
import c09

LPRE = PRE + '#include <boost/safe_numerics/safe_integer_literal.hpp>\n'


def lit_t(n, signed, P='void', E='void'):
    nm = 'l%s%s%s' % ('s' if signed else 'u', str(n).replace('-', 'm'), '' if P == 'void' else '_' + P[:4])
    s = S(nm, 'safe_%ssigned_literal<%s, %s, %s>' % ('' if signed else 'un', lit(n, signed), P, E), stored(n, n, signed), n, n)
    if signed:      # the base type has one bit more than needed for the largest values; see C25
        pass
    s.lit = n
    return s


def is_lit(A):
    return hasattr(A, 'lit')


def decl(A, ty, var, par):
    return 'typedef %s %s; const %s %s%s;' % (A.cpp, ty, ty, var, '' if is_lit(A) else '(%s)' % par)


BIN = '''    %(A)s %(B)s
    typedef typename std::decay<decltype(x %(op)s y)>::type R;
    info<R>(o);
    put(o, 6, sizeof(typename base_type<TA>::type) * 8);
    const R r = x %(op)s y;
    put(o, 0, base_value(r));'''


def val(env, A, n):
    return MI(A.lit) if is_lit(A) else env[n]


class Sub(dict):
    """environment in which literals have their value"""

    def __init__(self, h, env):
        A, B = h.meta['A'], h.meta['B']
        dict.__init__(self, a=val(env, A, 'a'))
        if B is not None:
            self['b'] = val(env, B, 'b')


def bin_spec(h, p, env):
    return arith_spec(h, p, Sub(h, env))


def bit_spec(h, p, env):
    return c09.spec(h, p, Sub(h, env))


def cmp_spec(h, p, env):
    op, e = h.meta['op'], Sub(h, env)
    a, b = e['a'], e['b']
    if p.kind == 'err':
        if not h.meta.get('rt'):
            return [('comparison is decided without error', FALSE)]
        lo, hi = irange(h.meta['rt'][1], h.meta['rt'][0])
        return [('comparison raises only when an operand does not fit the type compared in', z3.Or(z3.Not(a.inr(lo, hi)), z3.Not(b.inr(lo, hi))))]
    if p.kind != 'ret':
        return [('ends with %s %s' % (p.kind, p.info), FALSE)]
    t = {'lt': a.lt(b), 'le': a.le(b), 'gt': a.gt(b), 'ge': a.ge(b), 'eq': a.eq(b), 'ne': a.ne(b)}[op]
    return [('the comparison is true mathematically', p.mi(0, False).ne(0) == t)]


CMP = '''    %(A)s %(B)s
    put(o, 0, x %(op)s y);'''


def conv_spec(h, p, env):
    n, sg, ok = h.meta['n'], h.meta['sg'], h.meta['ok']
    if p.kind == 'ret':
        return [('only a representable literal is stored', z3.BoolVal(ok)), ('the value is the literal', p.mi(0, sg).eq(n))]
    return [('a representable literal is stored without error (ends with %s %s)' % (p.kind, p.info), z3.BoolVal(not ok and p.kind in ('err', 'abort')))]


def same(n, sg):
    def f(h, p, env):
        if p.kind != 'ret':
            return [('no error', FALSE)]
        return [('has the value of the literal', p.mi(0, sg).eq(n))] + ([('min, max and lowest are the literal', z3.And(
            [p.mi(i, sg).eq(n) for i in (1, 2, 3)]))] if p.has(1) else [])
    return f


def check(tier):
    hs = []
    S_ = [0, 1, -1, 3, 42, 127, 128, -128, -129, 1000, 40000, -70000, (1 << 31) - 1, 1 << 31, -(1 << 31) - 1, (1 << 62) + 1, -(1 << 63) + 1]
    U_ = [0, 1, 7, 200, 255, 256, 40000, (1 << 31), (1 << 32) - 1, 1 << 32, (1 << 63), (1 << 64) - 1]
    if tier == 'thorough':
        S_ += [2, -2, 10, -42, 255, 256, 32767, 32768, -32768, -32769, (1 << 32) - 1, 1 << 32, -(1 << 32), (1 << 63) - 1]
        U_ += [2, 127, 128, 32768, 65535, 65536, (1 << 31) - 1, (1 << 63) - 1]
    lits = [(n, True) for n in S_] + [(n, False) for n in U_]

    def mk(nm, A, B, body, spec, **meta):
        ps = [('a', A.base)] if A is not None and not is_lit(A) else []
        if B is not None and not is_lit(B):
            ps.append(('b', B.base))
        rs = {n: s for n, s in (('a', A), ('b', B)) if s is not None and not is_lit(s)}
        hs.append(Harness(nm, ps, body, spec, assume=lambda env: [env[n].inr(s.lo, s.hi) for n, s in rs.items()],
                          meta=dict(A=A, B=B, **meta), may_reject=meta.get('rej', False)))
    small = [(3, True), (-1, True), (42, True), (-129, True), (40000, True), (-70000, True), (200, False), ((1 << 32) - 1, False), (0, True)]
    if tier == 'thorough':
        small = lits
    ops = [safe_t(t, pol) for pol in ('native', 'automatic') for t in INTS] + [range_t(-10, 100, True), range_t(3, 40, False), range_t(-7, 90000, True, 'automatic')]
    for k, X in enumerate(ops):
        auto = 'automatic' in X.cpp
        for i, (n, sg) in enumerate(small):
            L = lit_t(n, sg)
            for j, op in enumerate(('add', 'sub', 'mul', 'div', 'mod')):
                for A, B in ((L, X), (X, L)):
                    if tier != 'thorough' and (i + j + k + (A is L)) % 2:
                        continue
                    nm = 'h_%s_%s%s_%s%s' % (op, A.name, '_at' if auto and A is X else '', B.name, '_at' if auto and B is X else '')
                    rt = None if auto else conv(A.base, B.base)
                    mk(nm, A, B, BIN % dict(A=decl(A, 'TA', 'x', 'a'), B=decl(B, 'TB', 'y', 'b'), op=OPSYM[op]), bin_spec, op=op, rtype=rt)
            for j, op in enumerate(('shl', 'shr', 'or', 'and', 'xor')):
                for A, B in ((L, X), (X, L)):
                    if tier != 'thorough' and (i + j + k + (A is L)) % 2 == 0:
                        continue
                    nm = 'h_%s_%s%s_%s%s' % (op, A.name, '_at' if auto and A is X else '', B.name, '_at' if auto and B is X else '')
                    bit = op not in ('shl', 'shr')
                    mk(nm, A, B, BIN % dict(A=decl(A, 'TA', 'x', 'a'), B=decl(B, 'TB', 'y', 'b'), op=OPSYM[op]), bit_spec, op=op,
                       rtype=conv(A.base, B.base) if bit else None if auto else conv(A.base))
            for j, op in enumerate(('lt', 'le', 'gt', 'ge', 'eq', 'ne')):
                A, B = ((L, X), (X, L))[(i + j + k) % 2]
                nm = 'h_%s_%s%s_%s%s' % (op, A.name, '_at' if auto and A is X else '', B.name, '_at' if auto and B is X else '')
                mk(nm, A, B, CMP % dict(A=decl(A, 'TA', 'x', 'a'), B=decl(B, 'TB', 'y', 'b'), op=OPSYM[op]), cmp_spec, op=op,
                   rt=(64, lim(A.base)[0] < 0 or lim(B.base)[0] < 0) if auto else conv(A.base, B.base))
    for n, sg in lits:
        L = lit_t(n, sg, 'native', 'EP')
        for t in INTS + ['char', 'll', 'ull']:
            lo, hi = lim(t)
            mk('h_to_%s_%s' % (L.name, t), None, None, '    const %s x; const %s r = x; put(o, 0, r);' % (L.cpp, T[t][0]), conv_spec,
               n=n, sg=T[t][2], ok=lo <= n <= hi, rej=not lo <= n <= hi)
        for X in ops:
            ok = X.lo <= n <= X.hi
            V = lit_t(n, sg)
            at = '_at' if 'automatic' in X.cpp else ''
            mk('h_ctor_%s_%s%s' % (V.name, X.name, at), None, None,
               '    const %s x; typedef %s X; const X r = x; put(o, 0, base_value(r));' % (V.cpp, X.cpp), conv_spec, n=n, sg=T[X.base][2], ok=ok, rej=not ok)
            mk('h_set_%s_%s%s' % (V.name, X.name, at), None, None,
               '    const %s x; typedef %s X; X r(%s); r = x; put(o, 0, base_value(r));' % (V.cpp, X.cpp, lit(max(X.lo, min(X.hi, 7)), T[X.base][2])),
               conv_spec, n=n, sg=T[X.base][2], ok=ok, rej=not ok)
        mk('h_val_%s' % L.name, None, None, '''    typedef %s L; const L x; typedef std::numeric_limits<L> M;
    put(o, 0, base_value(x)); put(o, 1, base_value(M::min())); put(o, 2, base_value(M::max())); put(o, 3, base_value(M::lowest()));''' % L.cpp, same(n, sg))
        mk('h_plus_%s' % L.name, None, None, '    const %s x; put(o, 0, base_value(+x));' % L.cpp, same(n, sg))
        mk('h_neg_%s' % L.name, None, None, '    const %s x; put(o, 0, base_value(-x));' % L.cpp, same(-n, True), rej=not sg or n != 0)
        if sg:
            mk('h_not_%s' % L.name, None, None, '    const %s x; put(o, 0, base_value(~x));' % L.cpp, same(~n, True))
        mk('h_make_%s' % L.name, None, None, '    const auto x = make_safe_literal(%s, native, EP); put(o, 0, base_value(x));' % lit(n, sg), same(n, sg))
    for (n, s1), (m, s2) in ((a, b) for a in small[:6] for b in small[:6]):
        A, B = lit_t(n, s1, 'native', 'EP'), lit_t(m, s2, 'native', 'EP')
        for op in ('add', 'sub', 'mul') + (('div', 'mod') if m else ()):
            mk('h_ll_%s_%s_%s' % (op, A.name, B.name), A, B, BIN % dict(A=decl(A, 'TA', 'x', 'a'), B=decl(B, 'TB', 'y', 'b'), op=OPSYM[op]), bin_spec,
               op=op, rtype=conv(A.base, B.base))
        for op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
            mk('h_ll_%s_%s_%s' % (op, A.name, B.name), A, B, CMP % dict(A=decl(A, 'TA', 'x', 'a'), B=decl(B, 'TB', 'y', 'b'), op=OPSYM[op]), cmp_spec,
               op=op, rt=conv(A.base, B.base))
        for op in ('shl', 'shr', 'or', 'and', 'xor'):
            bit = op not in ('shl', 'shr')
            mk('h_ll_%s_%s_%s' % (op, A.name, B.name), A, B, BIN % dict(A=decl(A, 'TA', 'x', 'a'), B=decl(B, 'TB', 'y', 'b'), op=OPSYM[op]), bit_spec,
               op=op, rtype=conv(A.base, B.base) if bit else conv(A.base))
    return Check('C23', units('c23', hs, 60, prelude=LPRE), 'safe literals',
                 'literals at type boundaries and others (both signednesses); every operand value of eight base types under native and automatic promotion and '
                 'selected ranges; a combination that can never succeed may be rejected at compile time')

"""C19: what an operation delivers when the policy ignores the error it meets"""
from polcommon import *
from c18 import bv64


def conv_to(x, ty):
    bits, sg = ty
    return wrap(x, bits, sg)


def builtin(k, op, a, b, m, sg, bits):
    """-> (value of the builtin operation on the converted operands, condition under which it is defined)"""
    A, B = m['A'], m['B']
    if k in ('conv', 'assign'):
        return wrap(b, bits, sg), TRUE
    if k == 'toB':
        if B.base == 'bool':
            return ite(a.ne(0), MI(1), MI(0)), TRUE
        return wrap(a, bits, sg), TRUE
    rt = m['rt']                        # type the operation is evaluated in: (bits, signed)
    lo, hi = irange(rt[1], rt[0])
    x = conv_to(a, rt)
    y = conv_to(b, rt) if b is not None else MI(1)
    if k == 'neg':
        e, d = (-x), TRUE
    elif k == 'inc':
        e, d = (x + 1 if op == '++' else x - 1), TRUE
    elif op in ('shl', 'shr'):
        d = z3.And(y.ge(0), y.lt(rt[0]))
        xv, yv = x.at(160), y.at(160)
        e = MI.bv(xv << yv if op == 'shl' else xv >> yv, True)
        # left shift of a negative value or into the sign: two's complement, as C++20 defines it
        r = wrap(e, *rt)
        return (wrap(r, bits, sg) if k == 'asg' else r), d
    elif k == 'cmp':
        return ite(x.lt(y), MI(1), MI(0)), TRUE
    else:
        e, d = exact(op, x, y)
    if rt[1]:
        d = z3.And(d, e.inr(lo, hi))
    r = wrap(e, *rt)
    return (wrap(r, bits, sg) if k in ('asg', 'inc') else r), d


def spec(h, p, env):
    m = h.meta
    k, op = m['k'], m['op']
    ignored = {ARITH, IMPL, UNDEFB, UNINITK} - POLICIES[m['pol']][1]
    a = env['a'] if 'a' in env.mi else None
    b = env['b'] if 'b' in env.mi else None
    kind = p.c(8)
    sg, bits = bool(p.c(1)), p.c(2)
    want, defined = builtin(k, op, a, b, m, sg, bits)
    g = []
    if kind == 0:
        if p.kind != 'ret':
            return [('no error is raised where the recording policy sees none (ends with %s %s)' % (p.kind, p.info), FALSE)]
        return [('a result without error is the same under every policy', bv64(p.u(0)) == bv64(p.u(10)))]
    if p.kind in ('ub', 'abort'):
        return [('undefined behaviour only where the builtin operation has it (%s)' % p.info, z3.Not(defined))]
    if p.kind != 'ret':
        if kind in ignored and p.kind == 'sys' and m['pol'] == 'loose':
            return []
        return [('an ignored error is not raised (ends with %s %s)' % (p.kind, p.info), FALSE)] if kind in ignored else []
    if not p.has(0):
        return []
    return [('an operation whose error is ignored yields what the builtin operation on the converted operands yields',
             z3.Implies(defined, p.mi(0, sg).eq(want)))]


def check(tier):
    hs = []
    pairs = [('i32', 'i32'), ('u32', 'u32'), ('i8', 'u16'), ('i32', 'u32'), ('u64', 'i32'), ('i64', 'i64'), ('u8', 'i64')]
    if tier == 'thorough':
        pairs = [(a, b) for a in INTS for b in INTS]
    for ta, tb in pairs:
        A, B = safe_t(ta), safe_t(tb)
        rt = conv(ta, tb)
        for op in ('add', 'sub', 'mul', 'div', 'mod', 'shl', 'shr'):
            sh = op in ('shl', 'shr')
            t = conv(ta) if sh else rt
            hs.append(harness('ignore', 'bin', op, A, B, spec, rt=t))
            hs.append(harness('ignore', 'asg', op, A, B, spec, rt=t))
            if sh:
                hs.append(harness('loose', 'bin', op, A, B, spec, rt=t))
        hs.append(harness('ignore', 'cmp', 'lt', A, B, spec, rt=rt))
        hs.append(harness('ignore', 'conv', None, A, base_t(tb), spec))
        hs.append(harness('ignore', 'assign', None, A, base_t(tb), spec))
        hs.append(harness('ignore', 'toB', None, A, base_t(tb), spec))
        hs.append(harness('ignore', 'conv', None, B, base_t(ta), spec))
        hs.append(harness('ignore', 'toB', None, B, base_t(ta), spec))
        hs.append(harness('ignore', 'neg', None, A, None, spec, rt=conv(ta)))
        hs.append(harness('ignore', 'inc', '++', A, None, spec, rt=conv(ta)))
        hs.append(harness('ignore', 'inc', '--', A, None, spec, rt=conv(ta)))
    for t in INTS:
        hs.append(harness('ignore', 'toB', None, safe_t(t), base_t('bool'), spec))
    R, S_ = range_t(-10, 100, True), range_t(3, 40, True)
    for op in ('add', 'sub', 'mul', 'div', 'mod', 'shl', 'shr'):
        hs.append(harness('ignore', 'bin', op, R, S_, spec, rt=(32, True)))
    for t in INTS:
        hs.append(harness('ignore', 'conv', None, R, base_t(t), spec))
    return Check('C19', units('c19', hs, 30, prelude=PPRE), 'ignored errors',
                 'all values of the operand types, native promotion; the all-ignoring and the loose policy; results of a division by zero '
                 '(undefined for builtins) are not constrained')

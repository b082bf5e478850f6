"""C01: checked::{add,subtract,multiply,divide,modulus,minus}: exact or flagged."""
from common import *

OPS = {'add': 'add', 'subtract': 'sub', 'multiply': 'mul', 'divide': 'div', 'modulus': 'mod', 'minus': 'neg'}


def spec(h, p, env):
    op, ty = h.meta['op'], h.meta['ty']
    _, bits, sg = T[ty]
    lo, hi = irange(sg, bits)
    a = env['a']
    b = env['b'] if op != 'minus' else None
    x, defined = exact(OPS[op], a, b)
    ok = z3.And(defined, x.inr(lo, hi))
    if p.kind != 'ret':
        return [('must not throw', FALSE)]
    g = []
    if p.c(0):
        g.append(('an error is reported only when the exact result does not exist in the type', z3.Not(ok)))
        code = p.c(1)
        if code == POS:
            g.append(('positive overflow means the exact result is above the maximum', z3.And(defined, x.gt(hi))))
        elif code == NEG:
            g.append(('negative overflow means the exact result is below the minimum', z3.And(defined, x.lt(lo))))
        elif code == DOMAIN:
            g.append(('domain error means division by zero', z3.Not(defined)))
        else:
            g.append(('unexpected error code %d' % code, FALSE))
    else:
        g.append(('a success result equals the exact mathematical result', z3.And(defined, p.mi(2, sg).eq(x))))
        g.append(('success code', z3.BoolVal(p.c(1) == 0)))
    return g


def check(tier):
    hs = []
    for op in OPS:
        for ty in INTS + ['ll', 'ull']:
            params = [('a', ty)] + ([('b', ty)] if op != 'minus' else [])
            body = '''    auto r = checked::%s<%s>(%s);
    o[0] = r.exception(); o[1] = (std::uint64_t)static_cast<safe_numerics_error>(r);
    if (!r.exception()) put(o, 2, static_cast<%s>(r));''' % (op, T[ty][0], ', '.join(x for x, _ in params), T[ty][0])
            hs.append(Harness('h_%s_%s' % (op, ty), params, body, spec, meta=dict(op=op, ty=ty)))
    return Check('C01', [Unit('c01', hs)], 'checked arithmetic',
                 'all operands at full width for 8-, 16-, 32- and 64-bit signed and unsigned types; no loop bound needed')

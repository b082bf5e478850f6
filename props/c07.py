"""C07: the cpp policy emulates the arithmetic of a machine with given widths"""
from binop import *
import c08
import c09

MACH = {'z80': (8, 16, 16, 32, 32), 'avr': (8, 16, 16, 32, 64), 'lp64': (8, 16, 32, 64, 64), 'llp64': (8, 16, 32, 32, 64), 'byte': (8, 8, 8, 16, 32),
        'ilp64': (8, 16, 64, 64, 64), 'word': (8, 32, 32, 32, 64)}
BASE = {'ll': ('i64', 64), 'ull': ('u64', 64)}


def promote(t, m, legacy):
    """integral promotion on machine m; legacy: unsigned types narrower than int become unsigned int"""
    _, bits, sg = T[t]
    if bits < m[2]:
        return m[2], sg if legacy else True
    return bits, sg


def uac(x, y):
    if x[1] == y[1]:
        return max(x[0], y[0]), x[1]
    s, u = (x, y) if x[1] else (y, x)
    return (u[0], False) if u[0] >= s[0] else (s[0], True)


def types(op, ta, tb, m):
    """-> type C++ prescribes, type with the documented-by-test promotion of narrow unsigned types"""
    r = []
    for legacy in (False, True):
        x, y = promote(ta, m, legacy), promote(tb, m, legacy)
        r.append(x if op in ('shl', 'shr') else uac(x, y))
    return r


def spec(h, p, env):
    m = h.meta
    std, legacy = m['types']
    sg, bits, lo, hi = static_type(h, p)
    g = [('the result type is the one C++ prescribes or the one narrow unsigned operands promote to in this library', z3.BoolVal((bits, sg) in (std, legacy))),
         ('the result type is the one C++ prescribes for the machine', z3.BoolVal((bits, sg) == std))]
    return g + (c09.spec if m['op'] in c09_ops else arith_spec)(h, p, env)


c09_ops = ('shl', 'shr', 'or', 'and', 'xor')


def cmp_spec(h, p, env):
    g = c08.spec(h, p, env)
    if p.kind == 'err':         # the range common to both candidate types is what must be decided
        a, b = env['a'], env['b']
        rs = [irange(sg, bits) for bits, sg in h.meta['types']]
        g[0] = (g[0][0], z3.Or([z3.Not(x.inr(lo, hi)) for x in (a, b) for lo, hi in rs]))
    return g[:2]


def check(tier):
    hs = []
    for mn, m in MACH.items():
        if tier != 'thorough' and mn in ('word', 'ilp64'):
            continue
        pol = 'cpp<%d, %d, %d, %d, %d>' % m
        tys = [t for t in INTS if T[t][1] in m] + (['ll', 'ull'] if m[4] == 64 else [])
        for i, ta in enumerate(tys):
            for j, tb in enumerate(tys):
                A, B = safe_t(ta, pol), safe_t(tb, pol)
                for k, op in enumerate(('add', 'sub', 'mul', 'div', 'mod') + c09_ops):
                    if ('ll' in (ta, tb) or 'ull' in (ta, tb)) and (i + j + k) % 3:
                        continue
                    if tier != 'thorough' and (k in (1, 4, 7, 8) and (i + j + k) % 2 or mn == 'byte' and (i + j + k) % 2):
                        continue
                    h = binop(op, A, B, spec, types=types(op, ta, tb, m))
                    h.name = h.name.replace('h_', 'h_%s_' % mn, 1)
                    hs.append(h)
                h = c08.make(('lt', 'ge', 'eq')[(i + j) % 3], A, B, 'native')
                h.name, h.spec = 'h_%s_cmp_%s_%s' % (mn, ta, tb), cmp_spec
                h.meta.update(types=types('add', ta, tb, m), ctype=(0, 0))
                hs.append(h)
            # with a builtin operand
            tb = tys[(i * 3 + 1) % len(tys)]
            for op in ('add', 'div', 'shl'):
                for A, B in ((safe_t(ta, pol), base_t(tb)), (base_t(tb), safe_t(ta, pol))):
                    h = binop(op, A, B, spec, types=types(op, A.base, B.base, m))
                    h.name = h.name.replace('h_', 'h_%s_' % mn, 1)
                    hs.append(h)
    return Check('C07', units('c07', hs, 45, prelude=PRE + '#include <boost/safe_numerics/cpp.hpp>\n'), 'cpp promotion policy',
                 'emulated machines with char/short/int/long/long long of %s bits; every value of the pairs of integer types the machine has (a type of a width it lacks is outside the claim)' % (
                     ', '.join('/'.join(map(str, m)) for m in MACH.values())))

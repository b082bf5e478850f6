"""pieces shared by the properties: error codes, C++ conversion rules, safe operand types, operation specs"""
import z3
from harness import Check, Harness, Unit, T, INTS, PRELUDE, SpecUndef
from wide import MI, irange

SUCCESS, POS, NEG, DOMAIN, RANGE, PREC, UNDER, NEGVAL, NEGSHIFT, LARGE, UNINIT = range(11)
ARITH, IMPL, UNDEFB, UNINITK = 1, 2, 3, 4           # handler kinds recorded by rec<K>
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def lim(ty):
    _, bits, sg = T[ty]
    return irange(sg, bits)


def conv(a, b=None):
    """usual arithmetic conversions of the host (bits, signed)"""
    def promote(t):
        _, bits, sg = T[t]
        if bits < 32 or t == 'wchar' and False:
            return 32, True
        return bits, sg
    x = promote(a)
    if b is None:
        return x
    y = promote(b)
    if x[1] == y[1]:
        return max(x[0], y[0]), x[1]
    s, u = (x, y) if x[1] else (y, x)
    if u[0] >= s[0]:
        return u[0], False
    return s[0], True


class S:
    """a safe operand type: base type + declared range + C++ spelling"""

    def __init__(self, name, cpp, base, lo=None, hi=None):
        self.name, self.cpp, self.base = name, cpp, base
        l, h = lim(base)
        self.lo, self.hi = (l if lo is None else lo), (h if hi is None else hi)


def lit(v, signed):
    if signed:
        return '(-9223372036854775807LL-1)' if v == -(1 << 63) else '%dLL' % v
    return '%dULL' % v


def stored(lo, hi, signed):
    """base type chosen by safe_signed_range / safe_unsigned_range"""
    for bits in (8, 16, 32, 64):
        l, h = irange(signed, bits)
        if l <= lo and hi <= h:
            return ('i' if signed else 'u') + str(bits)


def safe_t(base, pol='native', ep='EP'):
    return S(base, 'safe<%s, %s, %s>' % (T[base][0], pol, ep), base)


def range_t(lo, hi, signed, pol='native', ep='EP'):
    nm = ('s' if signed else 'u') + '_%s_%s' % (str(lo).replace('-', 'm'), str(hi).replace('-', 'm'))
    cpp = 'safe_%ssigned_range<%s, %s, %s, %s>' % ('' if signed else 'un', lit(lo, signed), lit(hi, signed), pol, ep)
    return S(nm, cpp, stored(lo, hi, signed), lo, hi)


def in_range(x, s):
    return x.inr(s.lo, s.hi)


def base_t(base):
    """plain builtin operand"""
    return S('b' + base, T[base][0], base)


OPSYM = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'mod': '%', 'shl': '<<', 'shr': '>>', 'or': '|', 'and': '&', 'xor': '^',
         'lt': '<', 'gt': '>', 'le': '<=', 'ge': '>=', 'eq': '==', 'ne': '!='}


def exact(op, a, b):
    """-> exact mathematical result, condition under which it exists"""
    if op == 'add':
        return a + b, TRUE
    if op == 'sub':
        return a - b, TRUE
    if op == 'mul':
        return a * b, TRUE
    if op == 'neg':
        return -a, TRUE
    if op == 'div':
        return a.tdiv(b), b.ne(0)
    if op == 'mod':
        return a.trem(b), b.ne(0)
    raise KeyError(op)


def ite(c, a, b):
    return MI.ite(c, a, b)

"""Mathematical integers for oracles: a bit-vector expression wide enough for its
statically tracked range, so that no oracle operation ever wraps."""
import z3


def simp(e):
    return z3.simplify(e, elim_sign_ext=False)


def xtr(hi, lo, x):
    """Extract seen through concatenations, extensions and other extracts"""
    n = x.size()
    if lo == 0 and hi == n - 1:
        return x
    if z3.is_bv_value(x):
        return z3.BitVecVal(x.as_long() >> lo, hi - lo + 1)
    k = x.decl().kind()
    if k == z3.Z3_OP_EXTRACT:
        l2 = x.params()[1]
        return xtr(hi + l2, lo + l2, x.arg(0))
    if k == z3.Z3_OP_CONCAT:
        top = n
        for c in x.children():
            base = top - c.size()
            if lo >= base:
                return xtr(hi - base, lo - base, c) if hi < top else z3.Extract(hi, lo, x)
            if hi >= top:
                break
            top = base
        # spans several children: keep the parts it covers
        parts, top = [], n
        for c in x.children():
            base = top - c.size()
            if base <= hi and top > lo:
                parts.append(xtr(min(hi, top - 1) - base, max(lo, base) - base, c))
            top = base
        return z3.Concat(*parts) if len(parts) > 1 else parts[0]
    if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
        y = x.arg(0)
        m = y.size()
        if hi < m:
            return xtr(hi, lo, y)
        if k == z3.Z3_OP_ZERO_EXT and lo >= m:
            return z3.BitVecVal(0, hi - lo + 1)
        if lo == 0:
            return (z3.ZeroExt if k == z3.Z3_OP_ZERO_EXT else z3.SignExt)(hi + 1 - m, y)
    return z3.Extract(hi, lo, x)


def width(lo, hi):
    n = 1
    while lo < -(1 << (n - 1)) or hi > (1 << (n - 1)) - 1:
        n += 1
    return n


class MI:
    __slots__ = ('e', 'lo', 'hi')

    def __init__(self, e, lo=None, hi=None):
        if isinstance(e, int):
            lo = hi = e
        elif z3.is_bv_value(e):
            e = e.as_signed_long()
            lo = hi = e
        self.e, self.lo, self.hi = e, lo, hi

    @staticmethod
    def of(x):
        return x if isinstance(x, MI) else MI(int(x))

    @staticmethod
    def bv(e, signed, width_=None):
        """value of machine integer e (int or bit-vector of width_ bits)"""
        if isinstance(e, int):
            n = width_
            if signed and e >> (n - 1):
                e -= 1 << n
            return MI(e)
        n = e.size()
        if z3.is_bv_value(e):
            return MI(e.as_signed_long() if signed else e.as_long())
        if signed:
            return MI(e, -(1 << (n - 1)), (1 << (n - 1)) - 1)
        return MI(z3.ZeroExt(1, e), 0, (1 << n) - 1)

    def at(self, n):
        """as signed bit-vector of n bits"""
        if isinstance(self.e, int):
            return z3.BitVecVal(self.e, n)
        k = self.e.size()
        if k < n:
            return z3.SignExt(n - k, self.e)
        if k > n:
            return z3.Extract(n - 1, 0, self.e)
        return self.e

    def const(self):
        return self.e if isinstance(self.e, int) else None

    def _bin(self, o, lo, hi, f, g):
        o = MI.of(o)
        if isinstance(self.e, int) and isinstance(o.e, int):
            return MI(g(self.e, o.e))
        n = max(width(lo, hi), width(self.lo, self.hi), width(o.lo, o.hi))
        return MI(f(self.at(n), o.at(n)), lo, hi)

    def __add__(self, o):
        o = MI.of(o)
        return self._bin(o, self.lo + o.lo, self.hi + o.hi, lambda a, b: a + b, lambda a, b: a + b)

    def __sub__(self, o):
        o = MI.of(o)
        return self._bin(o, self.lo - o.hi, self.hi - o.lo, lambda a, b: a - b, lambda a, b: a - b)

    def __neg__(self):
        return MI(0) - self

    def __mul__(self, o):
        o = MI.of(o)
        ps = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi]
        return self._bin(o, min(ps), max(ps), lambda a, b: a * b, lambda a, b: a * b)

    def tdiv(self, o):
        """truncated quotient; meaningless when o == 0"""
        o = MI.of(o)
        m = max(abs(self.lo), abs(self.hi))

        def g(a, b):
            if b == 0:
                return 0
            q = abs(a) // abs(b)
            return -q if (a < 0) != (b < 0) else q
        return self._bin(o, -m, m, lambda a, b: a / b, g)

    def trem(self, o):
        o = MI.of(o)
        m = max(abs(o.lo), abs(o.hi), abs(self.lo), abs(self.hi))

        def g(a, b):
            if b == 0:
                return 0
            r = abs(a) % abs(b)
            return -r if a < 0 else r
        return self._bin(o, -m, m, z3.SRem, g)

    def _cmp(self, o, f, g):
        o = MI.of(o)
        if isinstance(self.e, int) and isinstance(o.e, int):
            return z3.BoolVal(g(self.e, o.e))
        n = max(width(self.lo, self.hi), width(o.lo, o.hi))
        return f(self.at(n), o.at(n))

    def lt(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def le(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def gt(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def ge(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def eq(self, o):
        return self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)

    def ne(self, o):
        return z3.Not(self.eq(o))

    def inr(self, lo, hi):
        """lo <= self <= hi"""
        return z3.And(self.ge(lo), self.le(hi))

    @staticmethod
    def ite(c, a, b):
        a, b = MI.of(a), MI.of(b)
        lo, hi = min(a.lo, b.lo), max(a.hi, b.hi)
        n = width(lo, hi)
        return MI(z3.If(c, a.at(n), b.at(n)), lo, hi)

    @staticmethod
    def max(a, b):
        a, b = MI.of(a), MI.of(b)
        if a.const() is not None and b.const() is not None:
            return MI(max(a.e, b.e))
        return MI.ite(a.lt(b), b, a)

    @staticmethod
    def min(a, b):
        a, b = MI.of(a), MI.of(b)
        if a.const() is not None and b.const() is not None:
            return MI(min(a.e, b.e))
        return MI.ite(b.lt(a), b, a)


def irange(signed, bits):
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)

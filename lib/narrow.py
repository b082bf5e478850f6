"""Width reduction: rewrite bit-vector terms at the smallest width their ranges need.

Operands coming from narrow machine integers (sign/zero extensions, bounded variables)
make wide products and quotients equivalent to narrow ones; the code and the oracle,
written at different widths, meet in the same canonical narrow term."""
import z3
import bv2int
from wide import simp, width, xtr

K = z3


def ulen(hi):
    return max(1, hi.bit_length())


class Narrow:
    def __init__(self, cs):
        self.flat = bv2int.flatten(cs)
        self.vb = {k: v for k, v in bv2int.var_bounds(self.flat).items() if v[0] <= v[1]}
        self.memo = {}
        self.keep = []
        self.used = {}
        self.rc = {}

    # ---- ranges: (slo, shi, ulo, uhi) of a term
    def full(self, n):
        return -(1 << (n - 1)), (1 << (n - 1)) - 1, 0, (1 << n) - 1

    def both(self, n, lo, hi):
        """exact integer value in [lo, hi]; fold into views where it fits"""
        sl, sh, ul, uh = self.full(n)
        if lo >= 0 and hi <= uh:
            ul, uh = lo, hi
            if hi <= sh:
                sl, sh = lo, hi
        elif lo >= sl and hi <= sh:
            sl, sh = lo, hi
            if hi < 0:
                ul, uh = lo + (1 << n), hi + (1 << n)
        return sl, sh, ul, uh

    def rng(self, t):
        i = t.get_id()
        r = self.rc.get(i)
        if r is None:
            r = self._rng(t)
            self.rc[i] = r
            self.keep.append(t)
        return r

    def _rng(self, t):
        n = t.size()
        k = t.decl().kind()
        if z3.is_bv_value(t):
            s, u = t.as_signed_long(), t.as_long()
            return s, s, u, u
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
            b = self.vb.get(t.decl().name())
            if b:
                self.used[t.decl().name()] = (t, b)
                if b[0] >= 0:
                    return b[0], b[1], b[0], b[1]
                if b[1] < 0:
                    return b[0], b[1], b[0] + (1 << n), b[1] + (1 << n)
                return b[0], b[1], 0, (1 << n) - 1
            return self.full(n)
        if k == z3.Z3_OP_SIGN_EXT:
            s = self.rng(t.arg(0))
            return self.both(n, s[0], s[1])
        if k == z3.Z3_OP_ZERO_EXT:
            s = self.rng(t.arg(0))
            return self.both(n, s[2], s[3])
        if k == z3.Z3_OP_CONCAT and self.zpad(t) is not None:
            s = self.rng(self.zpad(t))
            return self.both(n, s[2], s[3])
        if k == z3.Z3_OP_ITE:
            a, b = self.rng(t.arg(1)), self.rng(t.arg(2))
            return min(a[0], b[0]), max(a[1], b[1]), min(a[2], b[2]), max(a[3], b[3])
        if k == z3.Z3_OP_EXTRACT:
            h, l = t.params()
            if l == 0:
                s = self.rng(t.arg(0))
                r = self.full(n)
                sl, sh = (s[0], s[1]) if s[0] >= r[0] and s[1] <= r[1] else (r[0], r[1])
                ul, uh = (s[2], s[3]) if s[3] <= r[3] else (r[2], r[3])
                return sl, sh, ul, uh
            return self.full(n)
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL, z3.Z3_OP_BNEG):
            best = None
            f = self.full(n)
            for v in (0, 2):
                rs = [self.rng(c)[v:v + 2] for c in t.children()]
                lo, hi = self.arith(k, rs)
                L, H = f[v], f[v + 1]
                if lo >= L and hi <= H:
                    r = self.both(n, lo, hi)
                    if best is None:
                        best = r
                    else:
                        best = (max(best[0], r[0]), min(best[1], r[1]), max(best[2], r[2]), min(best[3], r[3]))
            return best or f
        if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I):
            a, b = self.rng(t.arg(0)), self.rng(t.arg(1))
            m = max(abs(a[0]), abs(a[1]), 1)
            if a[0] >= 0 and b[0] > 0:
                return self.both(n, 0, a[1])
            return self.both(n, -m, m)
        if k in (z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I):
            a, b = self.rng(t.arg(0)), self.rng(t.arg(1))
            hi = max(a[1], 0)
            lo = min(a[0], 0)
            if b[0] > 0 or b[1] < 0:
                m = max(abs(b[0]), abs(b[1])) - 1
                lo, hi = max(lo, -m), min(hi, m)
            return self.both(n, lo, hi)
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
            a, b = self.rng(t.arg(0)), self.rng(t.arg(1))
            return self.both(n, 0, a[3]) if b[2] > 0 else self.full(n)
        if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            a, b = self.rng(t.arg(0)), self.rng(t.arg(1))
            return self.both(n, 0, min(a[3], b[3] - 1) if b[2] > 0 else a[3])
        return self.full(n)

    @staticmethod
    def arith(k, rs):
        lo, hi = rs[0]
        if k == z3.Z3_OP_BNEG:
            return -hi, -lo
        for l, h in rs[1:]:
            if k == z3.Z3_OP_BADD:
                lo, hi = lo + l, hi + h
            elif k == z3.Z3_OP_BSUB:
                lo, hi = lo - h, hi - l
            else:
                c = (lo * l, lo * h, hi * l, hi * h)
                lo, hi = min(c), max(c)
        return lo, hi

    @staticmethod
    def zpad(t):
        a = t.arg(0)
        if z3.is_bv_value(a) and a.as_long() == 0:
            return t.arg(1) if t.num_args() == 2 else z3.Concat(*t.children()[1:])
        return None

    # ---- shrink x (already rewritten) to w bits, value preserved in the signed or unsigned view
    def cut(self, x, w, signed):
        n = x.size()
        if n == w:
            return x
        if n < w:
            return z3.SignExt(w - n, x) if signed else z3.ZeroExt(w - n, x)
        if z3.is_bv_value(x):
            return z3.BitVecVal(x.as_long(), w)
        k = x.decl().kind()
        if k in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT):
            y = x.arg(0)
            if y.size() >= w:
                return self.cut(y, w, signed)
            return z3.SignExt(w - y.size(), y) if k == z3.Z3_OP_SIGN_EXT else z3.ZeroExt(w - y.size(), y)
        if k == z3.Z3_OP_CONCAT:
            y = self.zpad(x)
            if y is not None:
                if y.size() >= w:
                    return self.cut(y, w, signed)
                return z3.ZeroExt(w - y.size(), y)
        if k == z3.Z3_OP_ITE:
            return z3.If(x.arg(0), self.cut(x.arg(1), w, signed), self.cut(x.arg(2), w, signed))
        return xtr(w - 1, 0, x)

    def ext(self, x, n, signed):
        w = x.size()
        if w == n:
            return x
        if w > n:
            return xtr(n - 1, 0, x)
        return z3.SignExt(n - w, x) if signed else z3.ZeroExt(n - w, x)

    def r(self, t):
        i = t.get_id()
        x = self.memo.get(i)
        if x is None:
            x = self._r(t)
            self.memo[i] = x
            self.keep.append(t)
        return x

    def _r(self, t):
        if t.num_args() == 0:
            return t
        if z3.is_bool(t):
            return self.rb(t)
        if not z3.is_bv(t):
            return t
        n = t.size()
        k = t.decl().kind()
        g = self.rng(t)
        if g[0] == g[1]:
            return z3.BitVecVal(g[0], n)
        if g[2] == g[3]:
            return z3.BitVecVal(g[2], n)
        ch = [self.r(c) for c in t.children()]
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL, z3.Z3_OP_BNEG):
            for v in (2, 0):
                rs = [self.rng(c)[v:v + 2] for c in t.children()]
                lo, hi = self.arith(k, rs)
                f = self.full(n)[v:v + 2]
                if lo < f[0] or hi > f[1]:
                    continue
                if v == 2:
                    w = max([ulen(hi)] + [ulen(x[1]) for x in rs])
                else:
                    if v == 0 and lo >= 0 and all(x[0] >= 0 for x in rs):
                        pass
                    w = max([width(lo, hi)] + [width(*x) for x in rs])
                if w > n:
                    continue
                if v == 2 and any(x[0] < 0 for x in rs):
                    continue
                a = [self.cut(c, w, v == 0) for c in ch]
                op = self.build(k, a)
                return self.ext(op, n, v == 0)
            return self.build(k, ch)
        if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I):
            div = k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I)
            a, b = self.rng(t.arg(0)), self.rng(t.arg(1))
            if a[0] >= 0 and b[0] >= 0:
                return self.ud(ch, a[1], b[1], b[0], n, div, z3.BitVecVal(-1, n))
            m = max(abs(a[0]), abs(a[1]), 1)
            w = max(width(-m, m) if div else width(a[0], a[1]), width(b[0], b[1]))
            if w < n:
                x, y = self.cut(ch[0], w, True), self.cut(ch[1], w, True)
                return z3.SignExt(n - w, x / y if div else z3.SRem(x, y))
            return ch[0] / ch[1] if div else z3.SRem(ch[0], ch[1])
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            div = k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I)
            a, b = self.rng(t.arg(0)), self.rng(t.arg(1))
            return self.ud(ch, a[3], b[3], b[2], n, div, z3.BitVecVal(-1, n))
        if k == z3.Z3_OP_ITE:
            c = ch[0]
            if z3.is_true(c):
                return ch[1]
            if z3.is_false(c):
                return ch[2]
            return z3.If(c, ch[1], ch[2])
        if k == z3.Z3_OP_SIGN_EXT:
            if g[0] >= 0:
                return z3.ZeroExt(n - ch[0].size(), ch[0])
            return z3.SignExt(n - ch[0].size(), ch[0])
        if k == z3.Z3_OP_EXTRACT:
            h, l = t.params()
            if l == 0:
                s = self.rng(t.arg(0))
                f = self.full(n)
                if s[3] <= f[3]:
                    return self.cut(ch[0], n, False)
                if s[0] >= f[0] and s[1] <= f[1]:
                    return self.cut(ch[0], n, True)
            return xtr(h, l, ch[0])
        return t.decl()(*ch) if t.num_args() == t.decl().arity() else self.build(k, ch)

    def ud(self, ch, ah, bh, bl, n, div, zero):
        w = max(ulen(ah), ulen(bh))
        if w >= n:
            x, y = ch
            return z3.UDiv(x, y) if div else z3.URem(x, y)
        x, y = self.cut(ch[0], w, False), self.cut(ch[1], w, False)
        q = z3.ZeroExt(n - w, z3.UDiv(x, y) if div else z3.URem(x, y))
        if div and bl == 0:
            return z3.If(y == 0, zero, q)
        return q

    def build(self, k, ch):
        if k == z3.Z3_OP_BNEG:
            return -ch[0]
        acc = ch[0]
        for c in ch[1:]:
            if k == z3.Z3_OP_BADD:
                acc = acc + c
            elif k == z3.Z3_OP_BSUB:
                acc = acc - c
            elif k == z3.Z3_OP_BMUL:
                acc = acc * c
            elif k == z3.Z3_OP_BAND:
                acc = acc & c
            elif k == z3.Z3_OP_BOR:
                acc = acc | c
            elif k == z3.Z3_OP_BXOR:
                acc = acc ^ c
            elif k == z3.Z3_OP_CONCAT:
                acc = z3.Concat(acc, c)
            else:
                raise z3.Z3Exception('narrow: kind %d' % k)
        return acc

    def rb(self, t):
        k = t.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            c = [self.r(x) for x in t.children()]
            return z3.And(*c) if k == z3.Z3_OP_AND else z3.Or(*c)
        if k == z3.Z3_OP_DISTINCT and t.num_args() == 2:
            return z3.Not(self.rb(t.arg(0) == t.arg(1)))
        signed = {z3.Z3_OP_SLT: '<', z3.Z3_OP_SLEQ: '<=', z3.Z3_OP_SGT: '>', z3.Z3_OP_SGEQ: '>='}
        uns = {z3.Z3_OP_ULT: '<', z3.Z3_OP_ULEQ: '<=', z3.Z3_OP_UGT: '>', z3.Z3_OP_UGEQ: '>='}
        op = signed.get(k) or uns.get(k)
        iseq = k == z3.Z3_OP_EQ and z3.is_bv(t.arg(0))
        if op or iseq:
            v = 2 if k in uns else 0
            a, b = self.rng(t.arg(0)), self.rng(t.arg(1))
            x, y = self.r(t.arg(0)), self.r(t.arg(1))
            if iseq:
                if a[1] < b[0] or b[1] < a[0] or a[3] < b[2] or b[3] < a[2]:
                    return z3.BoolVal(False)
                nonneg = min(a[0], b[0]) >= 0 or True
                wu = max(ulen(a[3]), ulen(b[3]))
                ws = max(width(a[0], a[1]), width(b[0], b[1]))
                n = x.size()
                if wu < n and wu <= ws:
                    return self.cut(x, wu, False) == self.cut(y, wu, False)
                if ws < n:
                    return self.cut(x, ws, True) == self.cut(y, ws, True)
                return x == y
            al, ah, bl, bh = a[v], a[v + 1], b[v], b[v + 1]
            if op == '<':
                tr, fa = ah < bl, al >= bh
            elif op == '<=':
                tr, fa = ah <= bl, al > bh
            elif op == '>':
                tr, fa = al > bh, ah <= bl
            else:
                tr, fa = al >= bh, ah < bl
            if tr:
                return z3.BoolVal(True)
            if fa:
                return z3.BoolVal(False)
            n = x.size()
            if v == 0 and al >= 0 and bl >= 0:
                v = 2
            if v == 2:
                w = max(ulen(ah), ulen(bh))
                if w <= n:
                    x, y = self.cut(x, w, False), self.cut(y, w, False)
                return {'<': z3.ULT, '<=': z3.ULE, '>': z3.UGT, '>=': z3.UGE}[op](x, y)
            w = max(width(al, ah), width(bl, bh))
            if w <= n:
                x, y = self.cut(x, w, True), self.cut(y, w, True)
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
        ch = [self.r(c) for c in t.children()]
        if k == z3.Z3_OP_EQ:
            return ch[0] == ch[1]
        if k == z3.Z3_OP_NOT:
            return z3.Not(ch[0])
        if k == z3.Z3_OP_ITE:
            return z3.If(ch[0], ch[1], ch[2])
        return t.decl()(*ch)


def narrow(cs):
    """equisatisfiable (same variables, same models) constraints at reduced widths"""
    nw = Narrow(cs)
    out = []
    for c in nw.flat:
        out.append(simp(nw.r(c)))
    for v, (lo, hi) in nw.used.values():
        n = v.size()
        if lo > -(1 << (n - 1)):
            out.append(v >= lo)
        if hi < (1 << (n - 1)) - 1:
            out.append(v <= hi)
    return out

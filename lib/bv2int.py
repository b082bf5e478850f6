"""Translate bit-vector formulas to integer arithmetic, keeping the mod-2^k semantics.

Every bit-vector term t of width n becomes an Int term E with known bounds and
value(t) == E (mod 2^n).  A wrap is introduced (E = v + 2^n*k) only where the
bounds do not exclude one, which is what makes multiplication, division and
remainder by symbolic operands tractable.  Truncating division is defined over
magnitudes by |a| = q*|b| + r, 0 <= r < |b|.

Operators without an arithmetic reading (or, xor, ...) become fresh variables:
then only an `unsat` answer carries over (`exact` is False)."""
import z3


class Tr:
    def __init__(self):
        self.cache = {}
        self.side = []
        self.vars = {}          # bv const name -> Int var (signed view)
        self.n = 0
        self.exact = True
        self.bounds = {}        # ast id of bv var -> (lo, hi) signed
        self.divs = {}
        self.muls = {}
        self.keep = []
        self.bcache = {}
        self.ucache = {}

    def fresh(self, lo=None, hi=None, nm='v'):
        self.n += 1
        v = z3.Int('%s!%d' % (nm, self.n))
        if lo is not None:
            self.side.append(v >= lo)
        if hi is not None:
            self.side.append(v <= hi)
        return v

    # -- views
    def wrap(self, E, lo, hi, L, H, n):
        """Int congruent to E mod 2^n inside [L, H] where H-L+1 == 2^n"""
        if lo >= L and hi <= H:
            return E, lo, hi
        m = 1 << n
        key = (E.get_id(), L, n)
        if key in self.ucache:
            return self.ucache[key][1]
        # one-step wrap expressible without a fresh variable
        if lo >= L - m and hi <= H + m:
            x = E
            if hi > H:
                x = z3.If(E > H, E - m, x)
            if lo < L:
                x = z3.If(E < L, E + m, x)
            # name it so that the case split is explicit
            v = self.fresh(L, H, 'w')
            self.side.append(v == x)
        else:
            v = self.fresh(L, H, 'w')
            k = self.fresh(None, None, 'k')
            self.side.append(E == v + m * k)
            self.side.append(k >= (lo - H) // m)
            self.side.append(k <= (hi - L) // m + 1)
        r = (v, L, H)
        self.ucache[key] = (E, r)
        return r

    def s(self, t):
        E, lo, hi = self.t(t)
        n = t.size()
        return self.wrap(E, lo, hi, -(1 << (n - 1)), (1 << (n - 1)) - 1, n)

    def u(self, t):
        E, lo, hi = self.t(t)
        n = t.size()
        return self.wrap(E, lo, hi, 0, (1 << n) - 1, n)

    def I(self, v):
        return z3.IntVal(v)

    def mul(self, a, b):
        A, al, ah = a
        B, bl, bh = b
        ps = [al * bl, al * bh, ah * bl, ah * bh]
        lo, hi = min(ps), max(ps)
        if z3.is_int_value(A) or z3.is_int_value(B):
            return z3.simplify(A * B), lo, hi
        k = tuple(sorted((A.get_id(), B.get_id())))
        if k in self.muls:
            return self.muls[k][1], lo, hi
        v = self.fresh(lo, hi, 'p')
        self.side.append(v == A * B)
        self.muls[k] = ((A, B), v)
        return v, lo, hi

    def absv(self, a):
        A, lo, hi = a
        if lo >= 0:
            return a
        if hi <= 0:
            return z3.simplify(-A), -hi, -lo
        key = ('abs', A.get_id())
        if key in self.ucache:
            return self.ucache[key][1]
        v = self.fresh(0, max(-lo, hi), 'abs')
        self.side.append(v == z3.If(A >= 0, A, -A))
        r = (v, 0, max(-lo, hi))
        self.ucache[key] = (A, r)
        return r

    def udivrem(self, a, b):
        """magnitudes, b may include 0 (then unconstrained)"""
        A, al, ah = a
        B, bl, bh = b
        A, B = z3.simplify(A), z3.simplify(B)
        key = (A.sexpr(), B.sexpr())
        if key in self.divs:
            return self.divs[key]
        q = self.fresh(0, None, 'q')
        r = self.fresh(0, None, 'r')
        bl1 = max(bl, 1)
        qh = ah // bl1
        rh = min(ah, max(bh - 1, 0))
        c = [q <= qh, r <= rh, r < B]
        if z3.is_int_value(B):
            c.append(A == B * q + r)
        else:
            p = self.fresh(0, ah, 'qb')
            c += [p == q * B, A == p + r, z3.Implies(q >= 1, p >= B), z3.Implies(A < B, q == 0),
                  z3.Implies(B == 1, q == A), p >= q]
        if bl <= 0:
            self.side.append(z3.Implies(B != 0, z3.And(*c)))
        else:
            self.side += c
        res = ((q, 0, qh), (r, 0, rh))
        if bl <= 0:
            res = ((q, 0, None), (r, 0, None))
        self.divs[key] = res
        self.keep += [A, B]
        return res

    def t(self, t):
        i = t.get_id()
        r = self.cache.get(i)
        if r is None:
            r = self._t(t)
            self.cache[i] = r
            self.keep.append(t)
        return r

    def opaque(self, t):
        self.exact = False
        n = t.size()
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        return self.fresh(lo, hi, 'o'), lo, hi

    def _t(self, t):
        n = t.size()
        k = t.decl().kind()
        if z3.is_bv_value(t):
            v = t.as_signed_long()
            return self.I(v), v, v
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
            lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
            v = z3.Int(t.decl().name() + '_s')
            b = self.bounds.get(t.decl().name())
            L, H = lo, hi
            if b:
                if b[0] >= 0 or b[1] < (1 << (n - 1)):
                    pass
                L, H = b
            self.side += [v >= L, v <= H]
            self.vars[t.decl().name()] = (v, n)
            return v, L, H
        if k == z3.Z3_OP_BADD:
            E, lo, hi = self.pick(t.arg(0))
            for c in t.children()[1:]:
                F, l2, h2 = self.pick(c)
                E, lo, hi = E + F, lo + l2, hi + h2
            return self.norm(E, lo, hi, n)
        if k == z3.Z3_OP_BSUB:
            E, lo, hi = self.pick(t.arg(0))
            F, l2, h2 = self.pick(t.arg(1))
            return self.norm(E - F, lo - h2, hi - l2, n)
        if k == z3.Z3_OP_BNEG:
            E, lo, hi = self.pick(t.arg(0))
            return self.norm(-E, -hi, -lo, n)
        if k == z3.Z3_OP_BNOT:
            E, lo, hi = self.pick(t.arg(0))
            return self.norm(-E - 1, -hi - 1, -lo - 1, n)
        if k == z3.Z3_OP_BMUL:
            acc = self.pick(t.arg(0))
            for c in t.children()[1:]:
                acc = self.mul(acc, self.pick(c))
                acc = self.limit(acc, n)
            return self.norm(acc[0], acc[1], acc[2], n)
        if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I):
            a, b = self.s(t.arg(0)), self.s(t.arg(1))
            q, r = self.udivrem(self.absv(a), self.absv(b))
            m = 1 << (n - 1)
            zero_ok = b[1] <= 0 <= b[2]
            if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I):
                x = q
                neg = self.oppsign(a, b)
                other = z3.If(a[0] >= 0, self.I(-1), self.I(1))   # SMT-LIB: x/0 = -1 or 1
            else:
                x = r
                neg = (a[0] < 0) if not (a[1] >= 0 or a[2] < 0) else (a[1] < 0)
                other = a[0]
            hi = x[2] if x[2] is not None else m
            if neg is False:
                E, lo, h = x[0], 0, hi
            elif neg is True:
                E, lo, h = -x[0], -hi, 0
            else:
                E, lo, h = z3.If(neg, -x[0], x[0]), -hi, hi
            if zero_ok:
                E = z3.If(b[0] == 0, other, E)
                lo, h = -m, m
            v = self.fresh(lo, h, 'd') if not isinstance(neg, bool) or zero_ok else None
            if v is not None:
                self.side.append(v == E)
                E = v
            return self.norm(E, lo, h, n)
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            a, b = self.u(t.arg(0)), self.u(t.arg(1))
            q, r = self.udivrem(a, b)
            zero_ok = b[1] <= 0
            isdiv = k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I)
            x = q if isdiv else r
            hi = x[2] if x[2] is not None else (1 << n) - 1
            E = x[0]
            if zero_ok:
                v = self.fresh(0, (1 << n) - 1, 'd')
                self.side.append(v == z3.If(b[0] == 0, self.I((1 << n) - 1) if isdiv else a[0], E))
                E, hi = v, (1 << n) - 1
            return E, 0, hi
        if k == z3.Z3_OP_SIGN_EXT:
            return self.s(t.arg(0))
        if k == z3.Z3_OP_ZERO_EXT:
            return self.u(t.arg(0))
        if k == z3.Z3_OP_ITE:
            c = self.b(t.arg(0))
            A, al, ah = self.pick(t.arg(1))
            B, bl, bh = self.pick(t.arg(2))
            return z3.If(c, A, B), min(al, bl), max(ah, bh)
        if k == z3.Z3_OP_EXTRACT:
            h, l = t.params()
            x = t.arg(0)
            if l == 0:
                E, lo, hi = self.t(x)
                return self.norm(E, lo, hi, n)
            E, lo, hi = self.u(x)
            q, r = self.udivrem((E, lo, hi), (self.I(1 << l), 1 << l, 1 << l))
            return self.norm(q[0], q[1], q[2], n)
        if k == z3.Z3_OP_CONCAT:
            E, lo, hi = self.u(t.arg(t.num_args() - 1))
            sh = t.arg(t.num_args() - 1).size()
            for c in reversed(t.children()[:-1]):
                F, l2, h2 = self.u(c)
                E, lo, hi = E + F * (1 << sh), lo + l2 * (1 << sh), hi + h2 * (1 << sh)
                sh += c.size()
            return E, lo, hi
        if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR):
            if z3.is_bv_value(t.arg(1)):
                c = t.arg(1).as_long()
                if c >= n:
                    if k != z3.Z3_OP_BASHR:
                        return self.I(0), 0, 0
                    c = n - 1
                if k == z3.Z3_OP_BSHL:
                    E, lo, hi = self.pick(t.arg(0))
                    return self.norm(E * (1 << c), lo << c, hi << c, n)
                a = self.u(t.arg(0)) if k == z3.Z3_OP_BLSHR else self.s(t.arg(0))
                if a[1] >= 0:
                    return self.udivrem(a, (self.I(1 << c), 1 << c, 1 << c))[0]
                off = 1 << (n - 1)      # floor((a + off)/2^c) - off/2^c
                q, r = self.udivrem((a[0] + off, a[1] + off, a[2] + off), (self.I(1 << c), 1 << c, 1 << c))
                d = off >> c
                return q[0] - d, q[1] - d, q[2] - d
            return self.opaque(t)
        if k == z3.Z3_OP_BAND:
            if t.num_args() == 2:
                for x, y in ((0, 1), (1, 0)):
                    if z3.is_bv_value(t.arg(x)):
                        m = t.arg(x).as_long()
                        if m & (m + 1) == 0:
                            a = self.u(t.arg(y))
                            if a[2] <= m:
                                return a
                            return self.udivrem(a, (self.I(m + 1), m + 1, m + 1))[1]
            return self.opaque(t)
        return self.opaque(t)

    def pick(self, t):
        """signed or unsigned view, whichever needs no wrap; signed preferred"""
        E, lo, hi = self.t(t)
        return E, lo, hi

    def limit(self, x, n):
        E, lo, hi = x
        if lo < -(1 << (n + 1)) or hi > (1 << (n + 1)):
            return self.wrap(E, lo, hi, -(1 << (n - 1)), (1 << (n - 1)) - 1, n)
        return x

    def norm(self, E, lo, hi, n):
        """keep congruent terms unwrapped while their bounds stay small"""
        if lo < -(1 << (n + 70)) or hi > (1 << (n + 70)):
            return self.wrap(E, lo, hi, -(1 << (n - 1)), (1 << (n - 1)) - 1, n)
        return E, lo, hi

    def oppsign(self, a, b):
        def sg(x):
            if x[1] >= 0:
                return 1
            if x[2] <= 0:
                return -1
            return None
        p, q = sg(a), sg(b)
        if p is not None and q is not None:
            return p != q
        if p is not None:
            return (b[0] < 0) if p > 0 else (b[0] > 0)
        if q is not None:
            return (a[0] < 0) if q > 0 else (a[0] > 0)
        return z3.Xor(a[0] < 0, b[0] < 0)

    # -- booleans
    def b(self, t):
        i = t.get_id()
        r = self.bcache.get(i)
        if r is None:
            r = self._b(t)
            self.bcache[i] = r
            self.keep.append(t)
        return r

    def _b(self, t):
        k = t.decl().kind()
        if k == z3.Z3_OP_TRUE or k == z3.Z3_OP_FALSE:
            return t
        if k == z3.Z3_OP_AND:
            return z3.And(*[self.b(c) for c in t.children()])
        if k == z3.Z3_OP_OR:
            return z3.Or(*[self.b(c) for c in t.children()])
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.b(t.arg(0)))
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.b(t.arg(0)), self.b(t.arg(1)))
        if k == z3.Z3_OP_XOR:
            return z3.Xor(self.b(t.arg(0)), self.b(t.arg(1)))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_IFF):
            a, c = t.arg(0), t.arg(1)
            if z3.is_bool(a):
                r = self.b(a) == self.b(c)
            else:
                ra, rc = self.t(a), self.t(c)
                n = a.size()
                # same window for both sides
                S = (-(1 << (n - 1)), (1 << (n - 1)) - 1)
                U = (0, (1 << n) - 1)
                if all(x[1] >= U[0] and x[2] <= U[1] for x in (ra, rc)):
                    r = ra[0] == rc[0]
                else:
                    r = self.s(a)[0] == self.s(c)[0]
            return z3.Not(r) if k == z3.Z3_OP_DISTINCT else r
        if k == z3.Z3_OP_ITE:
            return z3.If(self.b(t.arg(0)), self.b(t.arg(1)), self.b(t.arg(2)))
        cmp = {z3.Z3_OP_SLT: (1, '<'), z3.Z3_OP_SLEQ: (1, '<='), z3.Z3_OP_SGT: (1, '>'), z3.Z3_OP_SGEQ: (1, '>='),
               z3.Z3_OP_ULT: (0, '<'), z3.Z3_OP_ULEQ: (0, '<='), z3.Z3_OP_UGT: (0, '>'), z3.Z3_OP_UGEQ: (0, '>=')}.get(k)
        if cmp:
            f = self.s if cmp[0] else self.u
            a, c = f(t.arg(0))[0], f(t.arg(1))[0]
            return {'<': a < c, '<=': a <= c, '>': a > c, '>=': a >= c}[cmp[1]]
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
            return t
        self.exact = False
        self.n += 1
        return z3.Bool('ob!%d' % self.n)


def flatten(cs):
    out = []
    work = list(cs)
    while work:
        c = work.pop(0)
        if z3.is_and(c):
            work = list(c.children()) + work
        elif z3.is_not(c) and z3.is_or(c.arg(0)):
            work = [z3.Not(x) for x in c.arg(0).children()] + work
        else:
            out.append(c)
    return out


def var_bounds(cs):
    """signed bounds of variables implied by conjuncts comparing them with constants"""
    b = {}

    def upd(v, lo, hi):
        n = v.size()
        nm = v.decl().name()
        L, H = b.get(nm, (-(1 << (n - 1)), (1 << (n - 1)) - 1))
        if lo is not None:
            L = max(L, lo)
        if hi is not None:
            H = min(H, hi)
        b[nm] = (L, H)

    def isvar(x):
        return z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED
    for rnd in range(2):
        for c in cs:
            neg = False
            while z3.is_not(c):
                neg = not neg
                c = c.arg(0)
            k = c.decl().kind()
            if c.num_args() != 2:
                continue
            x, y = c.arg(0), c.arg(1)
            swap = False
            if z3.is_bv_value(x):
                x, y = y, x
                swap = True
            if not z3.is_bv_value(y):
                continue
            while z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SIGN_EXT:
                x = x.arg(0)
            if not isvar(x):
                continue
            n = x.size()
            v = y.as_signed_long()
            op = {z3.Z3_OP_SLT: '<', z3.Z3_OP_SLEQ: '<=', z3.Z3_OP_SGT: '>', z3.Z3_OP_SGEQ: '>='}.get(k)
            if op is None:
                if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
                    ne = (k == z3.Z3_OP_DISTINCT) != neg
                    if not ne:
                        upd(x, v, v)
                    else:
                        L, H = b.get(x.decl().name(), (-(1 << (n - 1)), (1 << (n - 1)) - 1))
                        if v == L:
                            upd(x, L + 1, None)
                        if v == H:
                            upd(x, None, H - 1)
                continue
            if swap:
                op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[op]
            if neg:
                op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}[op]
            if op == '<':
                upd(x, None, v - 1)
            elif op == '<=':
                upd(x, None, v)
            elif op == '>':
                upd(x, v + 1, None)
            else:
                upd(x, v, None)
    return b


def translate(cs):
    """-> (Tr, list of Int/Bool constraints)"""
    cs = flatten(cs)
    tr = Tr()
    tr.bounds = {k: v for k, v in var_bounds(cs).items() if v[0] <= v[1]}
    out = [tr.b(c) for c in cs]
    return tr, tr.side + out

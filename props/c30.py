"""C30: composite expressions and statement sequences: exact, or stopped at the first step that cannot be"""
import random
from binop import *
import c13

CPRE = PRE + r'''
#include <boost/safe_numerics/cpp.hpp>
template<class R> inline void typ(std::uint64_t *o, int i) {
    typedef typename base_type<R>::type B;
    o[i] = std::is_signed<B>::value | (sizeof(B) * 8) << 8;
}
template<class A> A const & val();
'''
V0, CNT, ERR, KIND, CODE, T0 = 0, 5, 6, 7, 8, 9      # slots: variables, statements done, error, types of the operations
NAMES = 'xyzw'


class X:
    """expression: ('v', name) | ('c', int) | (binary op, X, X) | ('neg', X) | ('cast', S, X)"""

    def __init__(self, op, *k):
        self.op, self.k = op, k

    def show(self):
        if self.op in 'vc':
            return str(self.k[0])
        if self.op == 'cast':
            return '%s(%s)' % (self.k[0].name, self.k[1].show())
        if self.op == 'neg':
            return '-' + self.k[0].show()
        return '(%s %s %s)' % (self.k[0].show(), OPSYM[self.op], self.k[1].show())


def flat(x, typs, body):
    """C++ for x -> (name of the value, name of its type)"""
    if x.op == 'v':
        return x.k[0], 'T' + x.k[0]
    if x.op == 'c':
        return str(x.k[0]), 'int'
    ks = [flat(k, typs, body) for k in (x.k if x.op != 'cast' else x.k[1:])]
    i = len(typs)
    if x.op == 'cast':
        typs.append('typedef %s N%d;' % (x.k[0].cpp, i))
        body.append('const N%d n%d(%s);' % (i, i, ks[0][0]))
    elif x.op == 'neg':
        typs.append('typedef decltype(-val<%s>()) N%d;' % (ks[0][1], i))
        body.append('const N%d n%d = -%s;' % (i, i, ks[0][0]))
    else:
        typs.append('typedef decltype(val<%s>() %s val<%s>()) N%d;' % (ks[0][1], OPSYM[x.op], ks[1][1], i))
        body.append('const N%d n%d = %s %s %s;' % (i, i, ks[0][0], OPSYM[x.op], ks[1][0]))
    return 'n%d' % i, 'N%d' % i


def code_of(prog, ts):
    """prog: statements ('=', var, X) | ('op=', var, op, X) | ('++'|'--', var, prefix)"""
    head = ''.join('    typedef %s T%s; T%s %s(p%d);\n' % (t.cpp, n, n, n, i) for i, (n, t) in enumerate(zip(NAMES, ts)))
    typs, text = [], ''
    for k, s in enumerate(prog):
        body = []
        if s[0] == '=':
            v, _ = flat(s[2], typs, body)
            body.append('%s = %s;' % (s[1], v))
        elif s[0] == 'op=':
            v, ty = flat(s[3], typs, body)
            typs.append('typedef decltype(val<T%s>() %s val<%s>()) N%d;' % (s[1], OPSYM[s[2]], ty, len(typs)))
            body.append('%s %s= %s;' % (s[1], OPSYM[s[2]], v))
        else:
            typs.append('typedef decltype(val<T%s>() + 1) N%d;' % (s[1], len(typs)))
            body.append('%s;' % (s[0] + s[1] if s[2] else s[1] + s[0]))
        text += '        { %s }\n        o[%d] = %d;\n' % ('\n          '.join(body), CNT, k + 1)
    assert T0 + len(typs) <= 32
    return head + ''.join('    %s typ<N%d>(o, %d);\n' % (t, i, T0 + i) for i, t in enumerate(typs)) + \
        '    o[%d] = 0; o[%d] = 0;\n    try {\n%s    }\n    catch (const Err & e) { o[%d] = 1; o[%d] = e.kind; o[%d] = e.code; }\n' % (CNT, ERR, text, ERR, KIND, CODE) + \
        ''.join('    put(o, %d, base_value(%s));\n' % (V0 + i, n) for i, n in enumerate(NAMES[:len(ts)]))


class Sem:
    def __init__(self, p):
        self.p, self.i = p, 0
        self.must, self.may = [], []

    def type(self):
        v = self.p.c(T0 + self.i)
        self.i += 1
        return bool(v & 1), v >> 8

    def op(self, op, a, b):
        sg, bits = self.type()
        if op == 'neg':
            lo, hi = irange(sg, bits)
            v = MI(0) - a
            must, may = z3.And(a.inr(lo, hi), v.inr(lo, hi)), v.inr(lo, hi)
        else:
            v, must, may = c13.value(op, a, b, sg, bits)
        self.must.append(must)
        self.may.append(may)
        return v

    def value(self, x, val):
        if x.op == 'v':
            return val[x.k[0]]
        if x.op == 'c':
            return MI(x.k[0])
        if x.op == 'cast':
            a = self.value(x.k[1], val)
            self.type()
            ok = a.inr(x.k[0].lo, x.k[0].hi)
            self.must.append(ok)
            self.may.append(ok)
            return a
        ks = [self.value(k, val) for k in x.k]
        return self.op(x.op, ks[0], ks[1] if len(ks) > 1 else None)


def spec(h, p, env):
    prog, ts = h.meta['prog'], h.meta['ts']
    if p.kind != 'ret':
        return [('ends with %s %s' % (p.kind, p.info), FALSE)]
    done, err = p.c(CNT), p.c(ERR)
    val = {n: env['p%d' % i] for i, n in enumerate(NAMES[:len(ts)])}
    sem, g = Sem(p), []
    for k, s in enumerate(prog[:done + (1 if err else 0)]):
        sem.must, sem.may = [], []
        tgt = ts[NAMES.index(s[1])]
        if s[0] == '=':
            v = sem.value(s[2], val)
        elif s[0] == 'op=':
            v = sem.op(s[2], val[s[1]], sem.value(s[3], val))
        else:
            v = sem.op('add' if s[0] == '++' else 'sub', val[s[1]], MI(1))
        inr = v.inr(tgt.lo, tgt.hi)
        if k == done:
            g.append(('statement %d raises only if a step of it has no exact result that fits' % (k + 1), z3.Not(z3.And(sem.must + [inr]))))
            c = sconst(p.c(CODE))
            g.append(('the error reaches the handler of its kind', z3.BoolVal(p.c(KIND) == (IMPL if c in (NEGSHIFT, NEGVAL, LARGE) else ARITH))))
        else:
            g.append(('statement %d completes only if every step of it has an exact result that fits' % (k + 1), z3.And(sem.may + [inr])))
            val[s[1]] = v
    for i, n in enumerate(NAMES[:len(ts)]):
        g.append(('%s holds what the completed statements make it' % n, p.mi(V0 + i, T[ts[i].base][2]).eq(val[n])))
    return g


V = lambda n: X('v', n)
C = lambda n: X('c', n)
x, y, z, w = map(V, NAMES)
B = lambda op, a, b: X(op, a, b)

SHAPES = [
    [('=', 'x', B('mul', B('add', x, y), z))],
    [('=', 'x', B('div', B('sub', x, y), z))],
    [('=', 'x', B('mod', B('mul', x, y), z))],
    [('=', 'x', B('sub', B('mul', x, x), B('mul', y, y)))],
    [('=', 'x', B('add', x, B('div', B('sub', y, x), C(2))))],
    [('=', 'x', B('add', B('mul', B('add', B('mul', C(3), x), y), x), z))],
    [('=', 'x', B('sub', X('neg', x), X('neg', y)))],
    [('=', 'z', B('add', B('and', x, C(15)), B('or', y, C(1))))],
    [('=', 'z', B('add', B('shl', x, C(2)), B('shr', y, C(3))))],
    [('=', 'z', B('sub', B('add', x, y), B('sub', x, y)))],
    [('=', 'z', B('div', B('mul', x, y), B('add', B('mul', y, y), C(1))))],
    [('op=', 'x', 'add', y), ('op=', 'y', 'sub', x), ('op=', 'x', 'add', z)],
    [('op=', 'x', 'mul', y), ('=', 'z', B('sub', x, y)), ('op=', 'z', 'div', y)],
    [('++', 'x', True), ('op=', 'y', 'mul', x), ('--', 'y', False), ('=', 'x', B('mod', y, x))],
    [('=', 'z', B('add', x, y)), ('=', 'x', B('sub', z, x)), ('=', 'y', B('sub', z, y))],                # swap
    [('op=', 'x', 'add', y), ('op=', 'x', 'add', y), ('op=', 'x', 'add', y), ('op=', 'x', 'sub', B('mul', C(3), y))],
    [('op=', 'x', 'shl', C(1)), ('op=', 'x', 'or', C(1)), ('op=', 'x', 'shl', C(1)), ('op=', 'x', 'xor', y)],
]


def occ(e):
    """variables of an expression"""
    return {e.k[0]} if e.op == 'v' else set().union(*[occ(k) for k in e.k if isinstance(k, X)], set())


def rnd_expr(r, n, names, ops):
    if n == 0:
        return V(r.choice(names)) if r.random() < .8 else C(r.choice([1, 2, 3, 5, 7, 10, 100]))
    k = r.randrange(n)
    op = r.choice(ops)
    if op == 'neg':
        e = rnd_expr(r, n - 1, names, ops)
        return X('neg', e if occ(e) else V(r.choice(names)))
    a, b = rnd_expr(r, k, names, ops), rnd_expr(r, n - 1 - k, names, ops)
    if not occ(a) and (not occ(b) or op in ('shl', 'shr')):
        a = V(r.choice(names))
    if op in ('shl', 'shr'):
        b = C(r.randrange(4))
    return X(op, a, b)


def rnd_prog(r, names, ops):
    p = []
    for _ in range(r.randrange(2, 5)):
        k = r.random()
        v = r.choice(names)
        if k < .45:
            p.append(('=', v, rnd_expr(r, r.randrange(1, 4), names, ops)))
        elif k < .85:
            bo = [o for o in ops if o != 'neg']
            o = r.choice(bo)
            p.append(('op=', v, o, C(r.randrange(4)) if o in ('shl', 'shr') else rnd_expr(r, r.randrange(0, 2), names, ops)))
        else:
            p.append((r.choice(['++', '--']), v, r.random() < .5))
    return p


ALL = ['add', 'sub', 'mul', 'div', 'mod', 'neg', 'or', 'and', 'xor', 'shl', 'shr']
LIN = ['add', 'sub', 'add', 'sub', 'neg', 'or', 'and', 'xor']


def weight(prog):
    """highest degree of nonlinearity of a value in the program"""
    deg = {n: 1 for n in NAMES}
    top = [0]

    def comb(op, a, b):
        if op == 'mul':
            d = a + b
        elif op in ('div', 'mod'):
            d = a + b + 1 if b else a
        elif op in ('or', 'and', 'xor') and (a and b or max(a, b) > 1) or op in ('shl', 'shr') and max(a, b) > 1:
            d = max(a, b) + 1
        else:
            d = max(a, b)
        top[0] = max(top[0], d)
        return d

    def f(e):
        if e.op == 'v':
            return deg[e.k[0]]
        if e.op == 'c':
            return 0
        ks = [f(c) for c in e.k if isinstance(c, X)]
        return comb(e.op, ks[0], ks[1]) if len(ks) > 1 else ks[0]
    for st in prog:
        if st[0] == '=':
            deg[st[1]] = f(st[2])
        elif st[0] == 'op=':
            deg[st[1]] = comb(st[2], deg[st[1]], f(st[3]))
    return top[0]


def nvars(prog):
    s = set()
    for st in prog:
        s.add(st[1])
        if isinstance(st[-1], X):
            s |= occ(st[-1])
    return max(NAMES.index(n) for n in s) + 1


def check(tier):
    hs = []

    def add(tag, prog, ts, reject=False):
        n = nvars(prog)
        ts = ts[:n]
        hs.append(Harness('h_%s_%d' % (tag, len(hs)), [('p%d' % i, t.base) for i, t in enumerate(ts)], code_of(prog, ts), spec,
                          assume=lambda env, ts=ts: [env['p%d' % i].inr(t.lo, t.hi) for i, t in enumerate(ts)],
                          meta=dict(prog=prog, ts=ts), may_reject=reject))
    r = random.Random(7)
    full = tier == 'thorough'
    if full:
        import os
        r = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1) * 1000 + 7)
    def heavy(r, n):
        while True:
            prog = rnd_prog(r, NAMES[:n], ALL)
            if weight(prog) <= (4 if full else 3):
                return prog
    small = ['i8', 'u8', 'i16', 'u16']
    for pol, nm in (('native', 'nat'), ('automatic', 'aut'), ('cpp<8, 16, 16, 32, 64>', 'cpp')):
        R = lambda lo, hi, sg: range_t(lo, hi, sg, pol)
        rs = [R(-10, 10, True), R(0, 100, False), R(-128, 127, True), R(1, 50, True), R(-100, 1000, True), R(0, 255, False), R(0, 15, False)]
        for i, prog in enumerate(SHAPES):
            lin = i in (6, 7, 9, 11, 14)
            for tt in (['i8', 'i8', 'i8'], ['u8', 'u8', 'u8'], ['i8', 'u8', 'i16'], ['u16', 'i8', 'u8']) + ((['i32', 'i32', 'i32'], ['u32', 'i32', 'u64'], ['i64', 'u32', 'i64']) if lin else ()):
                if not full and (i + len(tt[0])) % 2 and nm == 'cpp':
                    continue
                add(nm + '_shape', prog, [safe_t(t, pol) for t in tt])
            for k in range(3):
                add(nm + '_rshape', prog, [rs[(i * 3 + k + j * (k + 1)) % len(rs)] for j in range(3)], True)
        for k in range(300 if full else 30):
            n = r.choice([2, 2, 3])
            if k % 3:
                prog = heavy(r, n)
                ts = [safe_t(r.choice(small), pol) for _ in range(n)]
            else:
                prog = rnd_prog(r, NAMES[:n], LIN)
                ts = [safe_t(r.choice(INTS), pol) for _ in range(n)]
            # a builtin operand once in a while
            add(nm + '_rnd', prog, ts)
            prog = heavy(r, n)
            add(nm + '_rrnd', prog, [r.choice(rs) for _ in range(n)], True)
    return Check('C30', units('c30', hs, 24, prelude=CPRE), 'composite expressions and statement sequences',
                 'expression trees of up to 5 operations and sequences of up to 4 statements over 2-3 variables (17 written shapes and generated ones), '
                 'native, automatic and cpp promotion; 8/16-bit operands where * / % occur, up to 64-bit otherwise; all values')

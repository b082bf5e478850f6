"""operand ranges at the edges that compile-time decisions depend on: results that just fit or just do not, ranges that touch, divisors at 0 and -1,
shift counts at the width"""
from common import *


def b_t(base, lo, hi, pol='native'):
    """safe_base over a given base type"""
    k = lambda v: lit(v, T[base][2])
    nm = 'b%s_%s_%s' % (base, str(lo).replace('-', 'm'), str(hi).replace('-', 'm'))
    if T[base][1] < 64:
        k = lambda v: '(%s)%s' % (T[base][0], lit(v, T[base][2]))
    return S(nm, 'safe_base<%s, %s, %s, %s, EP>' % (T[base][0], k(lo), k(hi), pol), base, lo, hi)


def arith(op, pol='native', full=False):
    out = []
    tys = ['i32', 'u32', 'i64', 'u64'] if pol == 'native' else ['i64', 'u64'] + (['i32', 'u32'] if full else ['i32'])
    for t in tys:
        m, M = lim(t)
        sg = m < 0
        w = T[t][1]
        R = lambda lo, hi: b_t(t, lo, hi, pol)
        P = lambda a, b: out.append((R(*a), R(*b)))
        if op == 'add':
            for k in (5, M // 2):
                P((0, M - k), (0, k))
                P((0, M - k), (0, k + 1))
                if sg:
                    P((m + k, 0), (-k, 0))
                    P((m + k, 0), (-k - 1, 0))
        elif op == 'sub':
            for k in (5, M // 2):
                if sg:
                    P((0, M - k), (-k, 0))
                    P((0, M - k), (-k - 1, 0))
                    P((m + k, 0), (0, k))
                    P((m + k, 0), (0, k + 1))
                else:
                    P((k, M), (0, k))
                    P((k, M), (0, k + 1))
        elif op == 'mul':
            h = w // 2
            if sg:
                P((0, 1 << h), (0, 1 << (h - 1)))
                P((0, 1 << h), (0, (1 << (h - 1)) - 1))
                P((-(1 << h), 0), (0, 1 << (h - 1)))
                P((-(1 << h), 0), (0, (1 << (h - 1)) + 1))
                P((-(1 << h), -1), (-(1 << (h - 1)), -1))
                P((-3, 5), (-7, 2))
                P((-3, 5), (-(M // 5), M // 5))
                P((-3, 6), (-(M // 5), M // 5))
            else:
                P((0, (1 << h) - 1), (0, (1 << h) + 1))
                P((0, 1 << h), (0, 1 << h))
                P((2, 3), (5, M // 3))
                P((2, 3), (5, M // 3 + 1))
        elif op in ('div', 'mod'):
            if sg:
                for n in ((m, M), (m + 1, M), (-7, 9), (m, -3)):
                    for d in ((-5, -1), (-5, -2), (-5, 0), (0, 5), (1, 5), (-1, 1), (-1, -1)):
                        if n[0] in (m + 1, -7) and d in ((-5, 0), (0, 5), (-5, -2)) and not full:
                            continue
                        P(n, d)
                P((5, 9), (-4, -2))
                P((-20, 3), (7, 7))
                P((m, M), (m, m))
                P((m, M), (m, -M))
            else:
                P((0, 10), (3, 9))
                P((7, 200), (1, 3))
                P((7, 200), (0, 3))
                P((0, M), (M, M))
                P((M - 1, M), (1, 2))
    if op in ('div', 'mod', 'mul'):
        for a, b in ((('i8', -100, 100), ('u8', 200, 250)), (('i8', -100, 100), ('u8', 3, 250)), (('u8', 200, 250), ('i8', -100, -3)),
                     (('i16', -100, -3), ('u16', 1, 60000)), (('u8', 100, 200), ('i8', 2, 9)), (('i32', -5, 5), ('u32', 1 << 31, (1 << 32) - 1)),
                     (('i64', -9, 9), ('u64', 1, (1 << 63))), (('i8', -128, 127), ('i8', -128, -1))):
            out.append((b_t(*a, pol), b_t(*b, pol)))
    return out


def compare(pol='native', full=False):
    out = []
    for t in (['i32', 'u64', 'i8', 'u16'] if not full else INTS):
        m, M = lim(t)
        for a, b in (((0, 10), (10, 20)), ((0, 10), (11, 20)), ((5, 5), (5, 5)), ((m, M), (M, M)), ((m, m), (m, M)), ((m, 7), (7, M)), ((m, M - 1), (M, M)),
                     ((3, 9), (0, 20))):
            out.append((b_t(t, *a, pol), b_t(t, *b, pol)))
            if a != b:
                out.append((b_t(t, *b, pol), b_t(t, *a, pol)))
    for s, u in (('i32', 'u32'), ('i64', 'u64'), ('i8', 'u16'), ('i64', 'u32'), ('i32', 'u64')):
        sM, uM = lim(s)[1], lim(u)[1]
        for a, b in (((-10, -1), (0, 5)), ((-10, 0), (0, 5)), ((-1, 5), (5, 9)), ((0, 5), (5, 9)), ((0, sM), (uM, uM)), ((-2, -1), (uM - 1, uM)),
                     ((-3, 3), (uM - 3, uM)), ((5, sM), (min(sM, uM), uM))):
            out.append((b_t(s, *a, pol), b_t(u, *b, pol)))
            out.append((b_t(u, *b, pol), b_t(s, *a, pol)))
    return out


def shifts(op, pol='native', full=False):
    out = []
    for t in ('i32', 'u32', 'i64', 'u64') + (('i8', 'u8', 'i16', 'u16') if full else ('i8', 'u16')):
        m, M = lim(t)
        w = max(T[t][1], 32)
        n = w - (1 if m < 0 or T[t][1] < 32 else 0)    # value bits of the promoted type
        k = min(3, M.bit_length() - 1)
        vals = [(0, 1), (1 << k, (2 << k) - 1), (1, M)] + ([(-1, 5), (m, m), (0, 0)] if full or t == 'i32' else [(0, 0)]) if op == 'shl' else \
               [(0, M), (M, M)] + ([(-1, 5), (m, -1), (1, 1)] if m < 0 else [(1, 1)])
        cnts = [(0, n - 1), (0, n), (1, n + 1), (n - 1, n - 1), (0, 0), (n, n)]
        if op == 'shl':
            cnts += [(0, n - 1 - k), (0, n - k), (n - k - 1, n - k - 1), (n - k, n - k)]
        for v in vals:
            for c in cnts:
                for ct in (('i32', 'u8') if full else (('i32',) if v[0] < 0 or c[0] % 2 else ('u8',))):
                    out.append((b_t(t, *v, pol), b_t(ct, *c, pol)))
    for c in ((-1, 5), (-3, -1), (0, 3)):
        out.append((b_t('i32', 1, 100, pol), b_t('i8', *c, pol)))
        out.append((b_t('u64', 1, 100, pol), b_t('i64', *c, pol)))
    return out


def bitwise(pol='native'):
    out = []
    R = [('i8', -128, -1), ('i8', 0, 127), ('i16', -1, 0), ('u8', 0, 128), ('u8', 128, 255), ('i32', -129, 63), ('u32', 0, 1 << 31), ('i32', 0, 0),
         ('i64', -(1 << 63), -1), ('u64', 0, 1 << 63), ('i32', -(1 << 31), 0), ('i64', 5, 1 << 32)]
    for i, a in enumerate(R):
        for j, b in enumerate(R):
            out.append((b_t(*a, pol), b_t(*b, pol)))
    return out


def convert(pol='native', full=False):
    """(target, source) ranges that are equal, off by one or have a single value in common"""
    out = []
    for t, s in (('i32', 'i32'), ('u32', 'u32'), ('i32', 'u32'), ('u32', 'i32'), ('i64', 'u64'), ('u64', 'i64'), ('i8', 'i64'), ('u64', 'u8'), ('u8', 'u16'), ('i16', 'i8')):
        l, h = max(lim(t)[0], lim(s)[0]), min(lim(t)[1], lim(s)[1])
        c = [((10, 20), (10, 20)), ((10, 20), (9, 20)), ((10, 20), (10, 21)), ((10, 20), (0, 10)), ((10, 20), (20, 90)), ((7, 7), (7, 7)), ((7, 7), (0, 9)),
             ((l, h), (l, h)), ((l + 1, h), (l, h)), ((l, h - 1), (l, h)), ((l + 1, h - 1), (l, h)), ((h, h), (0, h)), ((l, l), (l, 5)), ((5, 100), (l, h)),
             ((10, 20), (5, 15)), ((10, 20), (15, 25)), ((10, 20), (12, 18)), ((10, 20), (5, 25))]
        if l < 0:
            c += [((-20, -10), (-20, -10)), ((-20, -10), (-21, -10)), ((-20, -10), (-20, -9)), ((-20, 10), (-10, 20)), ((-20, -10), (-10, 5))]
        for a, b in c:
            out.append((b_t(t, *a, pol), b_t(s, *b, pol)))
        if lim(s)[0] < lim(t)[0]:
            c = [((lim(t)[0], h), (lim(t)[0] - 1, h)), ((lim(t)[0] + 3, h), (lim(t)[0] - 1, h)), ((lim(t)[0], 9), (lim(t)[0] - 1, lim(t)[0]))]
        else:
            c = []
        if lim(s)[1] > lim(t)[1]:
            c += [((l, lim(t)[1]), (l, lim(t)[1] + 1)), ((5, lim(t)[1]), (lim(t)[1], lim(t)[1] + 1))]
        for a, b in c + [(lim(t), lim(s))]:
            out.append((b_t(t, *a, pol), b_t(s, *b, pol)))
    return out

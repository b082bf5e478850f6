"""C05: + - * / % on safe<T>, native promotion: exact in the type C++ prescribes, or an arithmetic error"""
from binop import *


def check(tier):
    hs = []
    tys = INTS + (['char', 'll', 'ull'] if tier == 'thorough' else [])
    for op in ('add', 'sub', 'mul', 'div', 'mod'):
        for ta in tys:
            for tb in tys:
                A, B = safe_t(ta), safe_t(tb)
                hs.append(binop(op, A, B, rtype=conv(ta, tb)))
        for ta, tb in [('i32', 'u8'), ('u64', 'i32'), ('i8', 'i64'), ('u16', 'u32'), ('i64', 'i32'), ('u32', 'i32')]:
            hs.append(binop(op, safe_t(ta), base_t(tb), rtype=conv(ta, tb)))
            hs.append(binop(op, base_t(ta), safe_t(tb), rtype=conv(ta, tb)))
    return Check('C05', units('c05', hs), 'safe arithmetic, native promotion',
                 'all values of all pairs of the eight 8-64 bit safe<T> types (and safe with builtin, six pairs each way); no loops')

"""checked_result operands: symbolic value or error; extended integers"""
from common import *

CPRE = PRELUDE + r'''
#include <boost/safe_numerics/checked_result.hpp>
#include <boost/safe_numerics/checked_result_operations.hpp>
#include <boost/safe_numerics/interval.hpp>
// error code 0: the value; otherwise that error
template<class T> inline checked_result<T> mk(std::uint8_t e, T v) {
    return e ? checked_result<T>(static_cast<safe_numerics_error>(e)) : checked_result<T>(v);
}
template<class T> inline void put_cr(std::uint64_t *o, int i, const checked_result<T> & r) {
    safe_numerics_error e = static_cast<safe_numerics_error>(r);
    if (!r.exception()) { o[i] = 0; o[i + 1] = (std::uint64_t)static_cast<T>(r); }
    else if (e == safe_numerics_error::positive_overflow_error) o[i] = 1;
    else if (e == safe_numerics_error::negative_overflow_error) o[i] = 2;
    else o[i] = 4;
}
inline void put_tri(std::uint64_t *o, int i, const boost::logic::tribool & r) { o[i] = (std::uint64_t)r.value; }
'''
FALSE_, TRUE_, IND = 0, 1, 2


class X:
    """extended integer: value / below every value / above every value / undetermined"""

    def __init__(self, e, v):
        self.v = v
        self.isv, self.neg, self.pos = e.eq(0), e.eq(NEG), e.eq(POS)
        self.ind = z3.Not(z3.Or(self.isv, self.neg, self.pos))
        self.e = e


def codes(env, *names):
    return [env[n].le(UNINIT) for n in names]


def x_lt(t, u):
    """-> (definitely less, definitely not less)"""
    yes = z3.Or(z3.And(t.isv, u.isv, t.v.lt(u.v)), z3.And(t.neg, z3.Or(u.isv, u.pos)), z3.And(t.isv, u.pos))
    no = z3.Or(z3.And(t.isv, u.isv, t.v.ge(u.v)), z3.And(t.pos, z3.Or(u.isv, u.neg)), z3.And(t.isv, u.neg))
    return yes, no


def x_eq(t, u):
    yes = z3.And(t.isv, u.isv, t.v.eq(u.v))
    no = z3.Or(z3.And(t.isv, u.isv, t.v.ne(u.v)),
               z3.And(z3.Not(z3.Or(t.ind, u.ind)), z3.Or(t.isv != u.isv, z3.And(t.neg, u.pos), z3.And(t.pos, u.neg))))
    return yes, no


def tri(r, yn):
    """r (64-bit slot) is the three-valued verdict (yes, no, otherwise indeterminate)"""
    y, n = yn
    r = r if not isinstance(r, int) else z3.BitVecVal(r, 64)
    return r == z3.If(y, z3.BitVecVal(1, 64), z3.If(n, z3.BitVecVal(0, 64), z3.BitVecVal(2, 64)))


def neg3(yn):
    return yn[1], yn[0]


def and3(a, b):
    return z3.And(a[0], b[0]), z3.Or(a[1], b[1])


def or3(a, b):
    return z3.Or(a[0], b[0]), z3.And(a[1], b[1])

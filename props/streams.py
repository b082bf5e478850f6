"""standard streams over a text with one number: the specification of formatted extraction and insertion (C++11, libstdc++),
used in place of libstdc++ in the encoding; native replays run on real string streams, which also validates this stub"""
from common import *

SPRE_ALL = r'''
#include <istream>
#include <ostream>
#include <sstream>
#include <string>
'''
STUB = r'''
// the text: [white space] [-] (digits | "x" | nothing) [white space]; the digits stand for m, or, when over, for m * 10^20
struct Text { bool ws, neg, over, tail; int kind, first; std::uint64_t m; };
#ifdef VERIF_NATIVE
template<class C> struct In : std::basic_istringstream<C> {
    static std::basic_string<C> text(const Text & t) {
        std::string s;
        if (t.ws) s += " \t";
        if (t.neg) s += "-";
        if (t.kind == 0) s += std::to_string(t.m);
        if (t.kind == 0 && t.over) s += "00000000000000000000";
        if (t.kind == 1) s += "x";
        if (t.tail) s += " ";
        return std::basic_string<C>(s.begin(), s.end());
    }
    In(const Text & t, bool failed) : std::basic_istringstream<C>(text(t)) { if (failed) this->setstate(std::ios_base::failbit); }
};
template<class C> struct Out : std::basic_ostringstream<C> {
    void report(std::uint64_t *o) {
        std::string s;
        for (C c : this->str()) s += (char)c;
        std::string t;
        std::uint64_t v = 0;
        bool neg = !s.empty() && s[0] == '-';
        for (std::size_t i = neg; i < s.size(); ++i) v = v * 10 + (s[i] - '0');
        if (neg) { v = 0 - v; t = std::to_string((long long)v); } else t = std::to_string((unsigned long long)v);
        put(o, 1, s == t);
        if (s == t) { put(o, 0, v); put(o, 2, neg); }
    }
    // the text is x, then y, then z
    bool shows(const char * x, const std::string & y, const char * z) const {
        std::string s;
        for (C c : this->str()) s += (char)c;
        return s == x + y + z;
    }
    // o[0] number of tokens, then kind and value of each: 1 number, 2 negative number, 3 character; hex: numbers up to the first parenthesis
    // are hexadecimal; flag: the first character is a number of its own
    void tokens(std::uint64_t *o, bool hex, bool flag) {
        std::string s;
        for (C c : this->str()) s += (char)c;
        int n = 0;
        for (std::size_t i = 0; i < s.size(); ++n) {
            bool neg = s[i] == '-' && i + 1 < s.size() && isdigit(s[i + 1]);
            std::uint64_t v = 0; int k = 3;
            if (neg || (hex ? isxdigit(s[i]) : isdigit(s[i]))) {
                k = neg ? 2 : 1;
                for (i += neg; i < s.size() && (hex ? isxdigit(s[i]) : isdigit(s[i])); ++i) {
                    v = v * (hex ? 16 : 10) + (isdigit(s[i]) ? s[i] - '0' : tolower(s[i]) - 'a' + 10);
                    if (flag && n == 0) { ++i; break; }
                }
                if (neg) v = 0 - v;
            } else { if (s[i] == '(') hex = false; v = (unsigned char)s[i]; ++i; }
            if (n < 10) { put(o, 1 + 2 * n, k); put(o, 2 + 2 * n, v); }
        }
        put(o, 0, n);
    }
};
#else
template<class C> struct VT : std::char_traits<C> {};
namespace std {
template<class C> class basic_istream<C, VT<C> > {
public:
    typedef C char_type;
    typedef VT<C> traits_type;
    typedef typename VT<C>::int_type int_type;
    Text t;
    int pos;                // 0 start, 1 at the sign, 2 at the first digit, 3 behind the number
    ios_base::iostate s;
    basic_istream(const Text & x, bool f) : t(x), pos(0), s(f ? ios_base::failbit : ios_base::goodbit) {}
    bool good() const { return s == ios_base::goodbit; }
    bool fail() const { return (s & (ios_base::failbit | ios_base::badbit)) != 0; }
    bool eof() const { return (s & ios_base::eofbit) != 0; }
    bool bad() const { return (s & ios_base::badbit) != 0; }
    bool operator!() const { return fail(); }
    explicit operator bool() const { return !fail(); }
    ios_base::iostate rdstate() const { return s; }
    void clear(ios_base::iostate x = ios_base::goodbit) { s = x; }
    void setstate(ios_base::iostate x) { s = (ios_base::iostate)(s | x); }
    C widen(char c) const { return (C)c; }
    char narrow(C c, char) const { return (char)c; }
    // the next character, or -1 at the end of the text
    int next() const {
        if (pos == 0 && t.ws) return ' ';
        if (pos <= 1 && t.neg) return '-';
        if (pos <= 2 && t.kind == 0) return '0' + t.first;
        if (pos <= 2 && t.kind == 1) return 'x';
        if (pos <= 3 && t.tail) return ' ';
        return -1;
    }
    void skip() { if (pos == 0) pos = 1; else if (pos == 3) pos = 4; }
    void skip_ws() {
        if (!good()) return;
        if (pos == 0) pos = 1;
        else if (pos == 3) pos = 4;
        if (pos == 1 && !t.neg && t.kind == 2) pos = 4;
        if (next() < 0) setstate(ios_base::eofbit);
    }
    // what the constructor of sentry does: false if nothing may be read
    bool sentry(bool noskip) {
        if (!good()) { setstate(ios_base::failbit); return false; }
        if (!noskip) { skip_ws(); if (eof()) { setstate(ios_base::failbit); return false; } }
        return true;
    }
    int_type peek() {
        if (!sentry(true)) return VT<C>::eof();
        int c = next();
        if (c < 0) { setstate(ios_base::eofbit); return VT<C>::eof(); }
        return (int_type)c;
    }
    basic_istream & operator>>(basic_istream & (*f)(basic_istream &)) { return f(*this); }
    basic_istream & operator>>(ios_base & (*)(ios_base &)) { return *this; }
    basic_istream & operator>>(basic_ios<C, VT<C> > & (*)(basic_ios<C, VT<C> > &)) { return *this; }
    template<class V> void number(V & v) {
        if (!sentry(false)) return;
        bool n = t.neg && pos <= 1;
        if (t.neg && t.kind == 2 && !t.tail) setstate(ios_base::eofbit);
        pos = 3;
        if (t.kind != 0) { v = 0; setstate(ios_base::failbit); return; }
        if (!t.tail) setstate(ios_base::eofbit);
        if (std::is_signed<V>::value) {
            std::uint64_t most = n ? (std::uint64_t)0 - (std::uint64_t)(std::int64_t)std::numeric_limits<V>::min()
                : (std::uint64_t)std::numeric_limits<V>::max();
            if (t.over || t.m > most) {
                v = n ? std::numeric_limits<V>::min() : std::numeric_limits<V>::max();
                setstate(ios_base::failbit);
                return;
            }
        } else if (t.over || t.m > (std::uint64_t)std::numeric_limits<V>::max()) {
            v = std::numeric_limits<V>::max();
            setstate(ios_base::failbit);
            return;
        }
        v = (V)(n ? 0 - t.m : t.m);
    }
    template<class V> void character(V & v) {
        if (!sentry(false)) return;
        v = (V)next();
        pos = pos + 1;
    }
#define VERIF_NUM(V) basic_istream & operator>>(V & v) { number(v); return *this; }
    VERIF_NUM(short) VERIF_NUM(unsigned short) VERIF_NUM(int) VERIF_NUM(unsigned) VERIF_NUM(long) VERIF_NUM(unsigned long)
    VERIF_NUM(long long) VERIF_NUM(unsigned long long)
#undef VERIF_NUM
    basic_istream & operator>>(C & v) { character(v); return *this; }
    template<class V> typename std::enable_if<std::is_same<C, char>::value && (std::is_same<V, signed char>::value || std::is_same<V, unsigned char>::value),
        basic_istream &>::type operator>>(V & v) { character(v); return *this; }
};
template<> inline basic_istream<char, VT<char> > & ws(basic_istream<char, VT<char> > & is) { is.skip_ws(); return is; }
template<> inline basic_istream<wchar_t, VT<wchar_t> > & ws(basic_istream<wchar_t, VT<wchar_t> > & is) { is.skip_ws(); return is; }

template<class C> class basic_ostream<C, VT<C> > {
public:
    typedef C char_type;
    typedef VT<C> traits_type;
    std::uint64_t v; bool neg; int n; bool other, hex;
    std::uint64_t tok[20]; int nt;
    char txt[128]; int len;     // characters, with # for a number other than 0 and 1
    basic_ostream() : v(0), neg(false), n(0), other(false), hex(false), nt(0), len(0) {}
    void chr(char c) { if (len < 128) txt[len] = c; ++len; }
    void push(std::uint64_t k, std::uint64_t x) { if (nt < 10) { tok[2 * nt] = k; tok[2 * nt + 1] = x; } ++nt; }
#define VERIF_NUM(V) basic_ostream & operator<<(V x) { chr('#'); v = (std::uint64_t)x; neg = x < 0; ++n; \
        if (hex) push(1, (std::uint64_t)(typename std::make_unsigned<V>::type)x); else push(x < 0 ? 2 : 1, (std::uint64_t)x); return *this; }
    VERIF_NUM(short) VERIF_NUM(unsigned short) VERIF_NUM(int) VERIF_NUM(unsigned) VERIF_NUM(long) VERIF_NUM(unsigned long)
    VERIF_NUM(long long) VERIF_NUM(unsigned long long)
#undef VERIF_NUM
    basic_ostream & operator<<(bool x) { *this << (long)x; --len; chr(x ? '1' : '0'); return *this; }
    basic_ostream & operator<<(char c) { other = true; chr(c); push(3, (unsigned char)c); return *this; }
    basic_ostream & operator<<(signed char c) { other = true; push(3, (unsigned char)c); return *this; }
    basic_ostream & operator<<(unsigned char c) { other = true; push(3, c); return *this; }
    basic_ostream & operator<<(double) { other = true; push(4, 0); return *this; }
    basic_ostream & operator<<(const char *s) { for (; *s; ++s) *this << *s; return *this; }
    basic_ostream & operator<<(const basic_string<C> & s) {
        other = true; push(4, 0);
        const C * q = s.c_str();
        for (std::size_t i = 0; i < s.size(); ++i) chr((char)q[i]);
        return *this;
    }
    basic_ostream & operator<<(ios_base & (*f)(ios_base &)) {
        if (f == (ios_base & (*)(ios_base &))std::hex) hex = true;
        else if (f == (ios_base & (*)(ios_base &))std::dec) hex = false;
        else other = true;
        return *this;
    }
};
template<> inline basic_ostream<char, VT<char> > & basic_ostream_wchar(basic_ostream<char, VT<char> > &);
}
template<class C> using In = std::basic_istream<C, VT<C> >;
template<class C> struct Out : std::basic_ostream<C, VT<C> > {
    void report(std::uint64_t *o) {
        bool ok = this->n == 1 && !this->other;
        put(o, 1, ok);
        if (ok) { put(o, 0, this->v); put(o, 2, this->neg); }
    }
    bool part(const char * x, int & i) const {
        for (; *x; ++x, ++i) if (i >= this->len || i >= 128 || this->txt[i] != *x) return false;
        return true;
    }
    bool shows(const char * x, const std::string & y, const char * z) const {
        int i = 0;
        return part(x, i) && part(y.c_str(), i) && part(z, i) && i == this->len;
    }
    void tokens(std::uint64_t *o, bool, bool) {
        for (int i = 0; i < this->nt && i < 10; ++i) { put(o, 1 + 2 * i, this->tok[2 * i]); put(o, 2 + 2 * i, this->tok[2 * i + 1]); }
        put(o, 0, this->nt);
    }
};
#endif
'''.replace('template<> inline basic_ostream<char, VT<char> > & basic_ostream_wchar(basic_ostream<char, VT<char> > &);\n', '')
TPRE = SPRE_ALL + PRELUDE + STUB
TEXT = [('ws', 'bool'), ('neg', 'bool'), ('over', 'bool'), ('tail', 'bool'), ('pre', 'bool'), ('kind', 'u8'), ('first', 'u8'), ('m', 'u64')]


def text_ok(env):
    """the text exists: kind is one of three, first is the first digit of m"""
    k, f, m = env['kind'], env['first'], env['m']
    dig = [z3.And(f.eq(0), m.eq(0))]
    for e in range(20):
        dig.append(z3.And(f.ge(1), (f * (10 ** e)).le(m), m.lt((f + 1) * (10 ** e))))
    return [k.le(2), f.le(9), z3.Or(*dig), z3.Implies(env['over'].ne(0), m.ne(0))]


def the_number(env):
    return env['m'], z3.And(env['kind'].eq(0), env['over'].eq(0), env['pre'].eq(0))

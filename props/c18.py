"""C18: routing of errors and what the throwing policies throw"""
from polcommon import *
from c20 import const32


def spec(h, p, env):
    m = h.meta
    thrown = POLICIES[m['pol']][1]
    k = p.c(8)
    if k == 0:
        if p.kind != 'ret':
            return [('no error is raised where the recording policy sees none (ends with %s %s)' % (p.kind, p.info), FALSE)]
        return [('a result without error is the same under every policy', bv64(p.u(0)) == bv64(p.u(10)))]
    c = sconst(p.c(9))
    g = [('the error is passed to the handler of its kind', z3.BoolVal(c is not None and action_of(c) == k))]
    if k in thrown:
        g.append(('the throwing policy raises std::system_error in the category of safe numerics with exactly the error code',
                  z3.BoolVal(p.kind == 'sys' and p.sys[1] == 'safe' and const32(p.sys[0]) == c)))
    elif p.kind == 'sys':
        # a later error of a kind which is not ignored
        g.append(('an error of an ignored kind is not thrown', z3.BoolVal(p.sys[1] == 'safe' and action_of(const32(p.sys[0])) in thrown)))
    elif p.kind not in ('ret', 'ub', 'abort'):
        g.append(('an error of an ignored kind is not thrown (ends with %s %s)' % (p.kind, p.info), FALSE))
    return g


def bv64(v):
    return z3.BitVecVal(v, 64) if isinstance(v, int) else v


def uspec(h, p, env):
    m = h.meta
    if m['want'] == 'err':
        return [('default construction invokes the handler for uninitialized values',
                 z3.BoolVal(p.kind == 'err' and const32(p.err[0]) == UNINITK and const32(p.err[1]) == UNINIT))]
    if m['want'] == 'sys':
        return [('default construction raises under a policy which throws for uninitialized values',
                 z3.BoolVal(p.kind == 'sys' and p.sys[1] == 'safe' and const32(p.sys[0]) == UNINIT))]
    return [('default construction is ignored by strict and loose policies', z3.BoolVal(p.kind == 'ret'))]


NOEXC = '''
namespace boost { namespace safe_numerics {
inline void throw_exception::operator()(const safe_numerics_error & e, const char * message){ throw std::system_error(std::error_code(e), message); }
} }
'''


def check(tier):
    hs = []
    I = lambda t, pol='native': safe_t(t, pol)
    pairs = [('i32', 'i32'), ('u32', 'u32'), ('i8', 'u16'), ('i32', 'u32'), ('u64', 'i32'), ('i64', 'i64')]
    if tier == 'thorough':
        pairs = [(a, b) for a in INTS for b in INTS]
    for pol in ('default', 'strict', 'loose', 'arithonly', 'implonly'):
        pp = pairs if pol in ('default', 'loose') or tier == 'thorough' else pairs[:3]
        for prom in ('native', 'automatic'):
            for ta, tb in pp if prom == 'native' else pp[-2:]:
                A, B = I(ta, prom), I(tb, prom)
                for op in ('add', 'sub', 'mul', 'div', 'mod', 'shl', 'shr'):
                    hs.append(harness(pol, 'bin', op, A, B, spec, name='h_%s_%s_%s_%s_%s' % (pol, prom[:4], op, ta, tb)))
                if prom == 'native':
                    hs.append(harness(pol, 'cmp', 'lt', A, B, spec))
                    hs.append(harness(pol, 'asg', 'add', A, B, spec))
                    hs.append(harness(pol, 'asg', 'shl', A, B, spec))
                    hs.append(harness(pol, 'conv', None, A, base_t(tb), spec))
                    hs.append(harness(pol, 'assign', None, A, base_t(tb), spec))
                    hs.append(harness(pol, 'toB', None, A, base_t(tb), spec))
                    hs.append(harness(pol, 'neg', None, A, None, spec))
                    hs.append(harness(pol, 'inc', '++', A, None, spec))
                    hs.append(harness(pol, 'inc', '--', A, None, spec))
        R, S_ = range_t(-10, 100, True), range_t(3, 40, True)
        for op in ('add', 'sub', 'mul', 'div', 'shl', 'shr'):
            hs.append(harness(pol, 'bin', op, R, S_, spec))
        hs.append(harness(pol, 'asg', 'mul', R, S_, spec))
        hs.append(harness(pol, 'conv', None, R, base_t('i32'), spec))
        hs.append(harness(pol, 'conv', None, R, base_t('u64'), spec))
    for nm, P, want in (('rec', 'EP', 'err'), ('strict', 'strict_exception_policy', 'ret'), ('loose', 'loose_exception_policy', 'ret'),
                        ('default', 'default_exception_policy', 'ret'),
                        ('throw', 'exception_policy<ignore_exception, ignore_exception, ignore_exception, throw_exception>', 'sys')):
        for ty, cpp in (('i32', 'safe<std::int32_t, native, %s>'), ('u8', 'safe<std::uint8_t, automatic, %s>'),
                        ('r', 'safe_signed_range<-3, 300, native, %s>')):
            hs.append(Harness('h_uninit_%s_%s' % (nm, ty), [], '    typedef %s X;\n    X x; (void)x; put(o, 0, 1);' % (cpp % P), uspec, meta=dict(want=want)))
    # without exceptions: the program provides the handler of the throwing policies (here it throws all the same)
    ne = []
    for pol in ('default', 'loose'):
        for ta, tb in pairs[:2]:
            A, B = I(ta), I(tb)
            for op in ('add', 'mul', 'div', 'shl'):
                ne.append(harness(pol, 'bin', op, A, B, spec))
            ne.append(harness(pol, 'cmp', 'lt', A, B, spec))
            ne.append(harness(pol, 'conv', None, A, base_t(tb), spec))
            ne.append(harness(pol, 'asg', 'sub', A, B, spec))
    for h in ne:
        h.name += '_noexc'
    return Check('C18', units('c18', hs, 30, prelude=PPRE) + [Unit('c18_ne', ne, prelude=PPRE + NOEXC, flags=['-DBOOST_NO_EXCEPTIONS'])],
                 'routing of errors to policy handlers',
                 'all values of the operand types; five policies; arithmetic, shifts, comparison, conversions, compound assignment, '
                 '++, --, unary minus and default construction; a selection with BOOST_NO_EXCEPTIONS, where the program provides the throwing handler')

"""Harness units, symbolic obligations, native validation/replay, evidence, verdict."""
import collections
import concurrent.futures as cf
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import queue
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

import z3

import irparse
import solve
import symex
from irparse import UNDEF, IntTy
from symex import Bytes, Outcome, bv
from wide import MI, irange

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
INC = os.path.join(REPO, 'include')
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
NPROC = int(os.environ.get('VERIF_JOBS', '8'))
NSLOT = 32
SENT = 0xA5A5A5A5A5A5A5A5

# name -> (C++ type, bits, signed)
T = {
    'i8': ('std::int8_t', 8, True), 'i16': ('std::int16_t', 16, True),
    'i32': ('std::int32_t', 32, True), 'i64': ('std::int64_t', 64, True),
    'u8': ('std::uint8_t', 8, False), 'u16': ('std::uint16_t', 16, False),
    'u32': ('std::uint32_t', 32, False), 'u64': ('std::uint64_t', 64, False),
    'bool': ('bool', 1, False), 'char': ('char', 8, True), 'wchar': ('wchar_t', 32, True),
    'c16': ('char16_t', 16, False), 'c32': ('char32_t', 32, False),
    'll': ('long long', 64, True), 'ull': ('unsigned long long', 64, False),
    'f32': ('float', 32, True), 'f64': ('double', 64, True),
}
INTS = ['i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64']
FLOATS = ('f32', 'f64')

PRELUDE = r'''
#include <limits>
#include <cstdint>
#include <cstddef>
#include <type_traits>
#include <boost/safe_numerics/safe_integer.hpp>
#include <boost/safe_numerics/safe_integer_range.hpp>
#include <boost/safe_numerics/automatic.hpp>
#include <boost/safe_numerics/native.hpp>
#include <boost/safe_numerics/exception_policies.hpp>
using namespace boost::safe_numerics;
struct Err { std::int32_t kind; std::int32_t code; };
template<int K> struct rec {
    constexpr rec() = default;
    void operator()(const safe_numerics_error & e, const char *) { throw Err{K, (std::int32_t)e}; }
};
// records which handler the library picked: 1 arithmetic, 2 implementation defined, 3 undefined, 4 uninitialized
typedef exception_policy<rec<1>, rec<2>, rec<3>, rec<4> > EP;
extern "C" { extern const std::error_category * const verif_category;
const std::error_category * const verif_category = &static_cast<const std::error_category &>(safe_numerics_error_category); }
template<class V> inline void put(std::uint64_t *o, int i, V v) { o[i] = (std::uint64_t)v; }
// o[i]=value o[i+1]=is_signed o[i+2]=bits o[i+3]=declared min o[i+4]=declared max
template<class R> inline void put_safe(std::uint64_t *o, int i, const R & r) {
    typedef typename base_type<R>::type B;
    o[i] = (std::uint64_t)base_value(r);
    o[i + 1] = std::is_signed<B>::value;
    o[i + 2] = sizeof(B) * 8;
    o[i + 3] = (std::uint64_t)base_value(std::numeric_limits<R>::min());
    o[i + 4] = (std::uint64_t)base_value(std::numeric_limits<R>::max());
}
'''

NATIVE_MAIN = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <system_error>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
struct ENTRY { const char *name; void (*f)(const std::uint64_t *, std::uint64_t *); };
static const ENTRY TABLE[] = { %(table)s };
static void run(const ENTRY & e, const std::uint64_t *a) {
    std::uint64_t *o = (std::uint64_t *)malloc(%(nslot)d * 8);
    for (int i = 0; i < %(nslot)d; ++i) o[i] = 0xA5A5A5A5A5A5A5A5ull;
    char head[200];
    try { e.f(a, o); strcpy(head, "R"); }
    catch (const Err & x) { snprintf(head, 200, "E %%d %%d", x.kind, x.code); }
    catch (const std::system_error & x) { snprintf(head, 200, "S %%d %%s", x.code().value(),
        x.code().category() == safe_numerics_error_category ? "safe" : "other"); }
    catch (...) { strcpy(head, "X"); }
    printf("%%s |", head);
    for (int i = 0; i < %(nslot)d; ++i) printf(" %%llx", (unsigned long long)o[i]);
    printf("\n"); fflush(stdout);
}
int main(int argc, char **argv) {
    char line[1024];
    while (fgets(line, sizeof line, stdin)) {
        char nm[200]; std::uint64_t a[16] = {0}; int n = 0, k = 0;
        char *p = line;
        if (sscanf(p, "%%199s%%n", nm, &k) != 1) continue;
        p += k;
        unsigned long long v;
        while (sscanf(p, "%%llx%%n", &v, &k) == 1) { a[n++] = v; p += k; }
        const ENTRY *e = 0;
        for (const ENTRY & t : TABLE) if (!strcmp(t.name, nm)) e = &t;
        if (!e) { printf("?\n"); fflush(stdout); continue; }
        pid_t c = fork();
        if (c == 0) { %(sig)s alarm(20); run(*e, a); _exit(0); }
        int st; waitpid(c, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { printf("C %%d\n", WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)); fflush(stdout); }
    }
}
'''


class SpecUndef(Exception):
    pass


class Harness:
    def __init__(self, name, params, body, spec, assume=None, meta=None, merge=False, setup=None, feas_ms=300, may_reject=False,
                 max_paths=4000, max_steps=400000):
        self.name, self.params, self.body, self.spec = name, params, body, spec
        self.assume, self.meta, self.merge, self.setup, self.feas_ms = assume, meta or {}, merge, setup, feas_ms
        self.may_reject = may_reject
        self.max_paths, self.max_steps = max_paths, max_steps

    def code(self):
        return 'extern "C" void %s(%s) {\n%s\n}\n' % (
            self.name, ', '.join(['%s %s' % (T[t][0], n) for n, t in self.params] + ['std::uint64_t *o']), self.body)


class Unit:
    def __init__(self, name, harnesses, prelude=PRELUDE, std='c++14', flags=(), native=True, extra=()):
        self.name, self.hs, self.prelude, self.std, self.flags, self.native = name, harnesses, prelude, std, list(flags), native
        self.extra = list(extra)        # sources of further translation units
        self.dropped = []

    def source(self, only=None):
        return self.prelude + ''.join(h.code() for h in self.hs if only is None or h.name in only)

    def native_source(self, only=None, fork_signals=''):
        s = self.source(only)
        rows = []
        for h in self.hs:
            if only is not None and h.name not in only:
                continue
            args = []
            for i, (n, t) in enumerate(h.params):
                if t == 'f32':
                    args.append('bits_f32(a[%d])' % i)
                elif t == 'f64':
                    args.append('bits_f64(a[%d])' % i)
                else:
                    args.append('(%s)a[%d]' % (T[t][0], i))
            s += 'static void w_%s(const std::uint64_t *a, std::uint64_t *o) { (void)a; %s(%s); }\n' % (
                h.name, h.name, ', '.join(args + ['o']))
            rows.append('{"%s", w_%s}' % (h.name, h.name))
        s = ('#define VERIF_NATIVE 1\n#include <cstdint>\n#include <cstring>\nstatic inline float bits_f32(std::uint64_t v){std::uint32_t w=(std::uint32_t)v;float f;'
             'std::memcpy(&f,&w,4);return f;}\nstatic inline double bits_f64(std::uint64_t v){double f;std::memcpy(&f,&v,8);return f;}\n') + s
        return s + NATIVE_MAIN % dict(table=', '.join(rows), nslot=NSLOT, sig=fork_signals)


class Path:
    """one way a harness ends; slots are 64-bit (int or z3)"""

    def __init__(self, kind, slots, err=None, sys=None, info=None, pc=(), events=(), ex=None, st=None):
        self.kind, self.slots, self.err, self.sys, self.info, self.pc = kind, slots, err, sys, info, pc
        self.events, self.ex, self.st = events, ex, st

    def has(self, i):
        return self.slots.get(i) is not None

    def u(self, i):
        v = self.slots.get(i)
        if v is None or v is UNDEF or isinstance(v, Bytes):
            raise SpecUndef('slot %d' % i)
        return v

    def low(self, i, bits):
        """the low bits of a slot, as a bit-vector"""
        v = self.u(i)
        return z3.Extract(bits - 1, 0, z3.BitVecVal(v, 64) if isinstance(v, int) else v)

    def mi(self, i, signed):
        return MI.bv(self.u(i), signed, 64)

    def c(self, i):
        """slot that must be a compile-time constant"""
        v = self.u(i)
        if isinstance(v, int):
            return v
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return v.as_long()
        raise SpecUndef('slot %d is not constant' % i)

    def safe(self, i):
        """slots written by put_safe -> (value, lo, hi, signed, bits)"""
        sg = bool(self.c(i + 1))
        return self.mi(i, sg), self.mi(i + 3, sg), self.mi(i + 4, sg), sg, self.c(i + 2)


class Env:
    def __init__(self, h, vals=None):
        self.bv, self.mi = {}, {}
        for n, t in h.params:
            _, bits, sg = T[t]
            w = max(bits, 8)
            b = z3.BitVec(n, w) if vals is None else z3.BitVecVal(vals[n], w)
            self.bv[n] = b
            if t not in FLOATS:
                self.mi[n] = MI.bv(b, sg)

    def __getitem__(self, n):
        return self.mi[n]


def run_cmd(cmd, inp=None, timeout=600):
    try:
        p = subprocess.run(cmd, input=inp, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, '', 'timeout'


def clang_cmd(unit, src, out):
    return [CLANG, '-std=' + unit.std, '-O0', '-S', '-emit-llvm', '-fno-discard-value-names', '-w', '-ferror-limit=0',
            '-I' + INC] + unit.flags + [src, '-o', out]


def extra_files(unit, src):
    out = []
    for i, x in enumerate(unit.extra):
        fn = '%s.tu%d.cpp' % (src, i)
        open(fn, 'w').write(x)
        out.append(fn)
    return out


def clang_run(unit, src, ll):
    """compile a unit (all its translation units, linked) to IR"""
    rc, out, err = run_cmd(clang_cmd(unit, src, ll))
    if rc or not unit.extra:
        return rc, out, err
    parts = [ll]
    for fn in extra_files(unit, src):
        rc, out, err = run_cmd(clang_cmd(unit, fn, fn + '.ll'))
        if rc:
            return rc, out, err
        parts.append(fn + '.ll')
    return run_cmd(['llvm-link-18', '-S'] + parts + ['-o', ll])


def gxx_cmd(unit, src, out, opt=('-O1',)):
    return (['g++', '-std=' + unit.std, '-w', '-I' + INC] + list(opt) + [f for f in unit.flags if not f.startswith('-X')] + [src] +
            extra_files(unit, src) + ['-o', out])


# ------------------------------------------------------------------ symbolic side (worker)
_W = {}


def sym_args(h):
    args = []
    pc = []
    for n, t in h.params:
        bits = T[t][1]
        b = z3.BitVec(n, max(bits, 8))
        if t == 'bool':
            pc.append(z3.ULE(b, 1))
            args.append(z3.Extract(0, 0, b) == 1)
        else:
            args.append(b)
    return args, pc


def outcome_path(ex, o, out):
    """Outcome -> Path"""
    slots = {}
    obj = ex.obj(o.st, out >> irparse.SHIFT) if o.st is not None else None
    if obj is not None:
        for off in range(0, NSLOT * 8, 8):
            if any(k in obj.cells for k in range(off, off + 8)):
                slots[off // 8] = ex.load_raw(obj, off, 8)
    kind, err, sysi = o.kind, None, None
    info = o.info
    if kind == 'throw':
        addr, ti = o.val
        nm = ex.mod.sym_at(ti) if isinstance(ti, int) else None
        if nm == '_ZTI3Err':
            try:
                err = (ex.load(o.st, addr, IntTy(32)), ex.load(o.st, addr + 4, IntTy(32)))
                kind = 'err'
            except symex.UB:
                kind = 'throw'
        elif nm == '_ZTISt12system_error':
            ev = [e for e in o.st.events if e[0] == 'system_error' and e[1] == addr]
            if ev:
                cat = 'safe' if ev[-1][3] == ex.load(o.st, ex.mod.addr('verif_category'), irparse.PTR) else 'other'
                sysi = (ev[-1][2], cat)
                kind = 'sys'
        info = info or nm
    return Path(kind, slots, err, sysi, info, o.st.pc if o.st is not None else (), o.st.events if o.st is not None else (), ex, o.st)


def enc_run(mod, h):
    ex = symex.Executor(mod, feas_ms=h.feas_ms, merge=h.merge, max_paths=h.max_paths, max_steps=h.max_steps)
    env = Env(h)
    st = ex.initial_state()
    out = ex.new_obj(st, NSLOT * 8, 'out')
    args, pc = sym_args(h)
    if h.assume:
        pc += list(h.assume(env))
    st.pc = tuple(pc)
    if h.setup:
        h.setup(ex, st, env)
    outs = ex.run(h.name, args + [out], st)
    return ex, env, [outcome_path(ex, o, out) for o in outs]


def eval_slot(v, sub):
    if v is None or v is UNDEF or isinstance(v, Bytes):
        return None
    if isinstance(v, int):
        return v
    r = z3.simplify(z3.substitute(v, *sub)) if sub else z3.simplify(v)
    return r.as_long() if z3.is_bv_value(r) else None


def goals_of(h, p, env):
    if p.kind == 'ub' and not h.meta.get('own_ub'):
        return [('undefined behaviour: %s' % p.info, z3.BoolVal(False))]
    if p.kind == 'abort':
        return [('aborts: %s' % p.info, z3.BoolVal(False))]
    try:
        return list(h.spec(h, p, env))
    except SpecUndef as e:
        return [('uninitialised or missing result (%s)' % e, z3.BoolVal(False))]


def task(args):
    """verify a list of harnesses of one unit; runs in a worker process; yields names started and results"""
    ui, names, ll, deadline, plan, known, nval = args
    unit = _W['check'].units[ui]
    try:
        mod = _W.get(('mod', ll))
        if mod is None:
            mod = _W[('mod', ll)] = irparse.Module(open(ll).read())
    except Exception as e:
        for n in names:
            yield dict(unit=ui, h=n, error='IR parse: %s' % e)
        return
    for h in unit.hs:
        if h.name not in names:
            continue
        yield h.name
        t0 = time.time()
        r = blank(ui, h.name)
        try:
            verify(mod, h, r, deadline, plan, known, nval)
        except Exception as e:
            r['error'] = '%s\n%s' % (e, traceback.format_exc(limit=8))
        r['wall'] = time.time() - t0
        r['paths'] = dict(r['paths'])
        r['stats'] = dict(r['stats'])
        yield r


def blank(ui, name):
    return dict(unit=ui, h=name, paths=collections.Counter(), proved=0, undecided=[], refuted=[], known=[], samples=[],
                stats=solve.Stats(), steps=0, funcs=[], feas=0, trivial=0, wall=0)


class Workers:
    """forked solver processes.  z3 does not always honour its time limit: a process that stays in one solver call for
    longer than `limit` seconds (or dies) is killed, the harness it was at is left undecided and a spare takes over"""

    def __init__(self, n, limit, spares=8):
        ctx = mp.get_context('fork')
        self.hb = ctx.RawArray('d', n + spares)
        self.limit, self.results, self.tasks = limit, queue.Queue(), collections.deque()
        self.names, self.closed, self.lock = [], False, threading.Lock()
        self.ws = []
        for i in range(n + spares):
            a, b = ctx.Pipe()
            p = ctx.Process(target=self.serve, args=(b, i), daemon=True)
            p.start()
            b.close()
            self.ws.append(dict(i=i, conn=a, proc=p, task=None, cur=None, done=set()))
        self.idle, self.spare, self.busy = self.ws[:n], self.ws[n:], []
        self.wake_r, self.wake_w = ctx.Pipe(False)
        self.thread = None

    def serve(self, conn, i):
        hb, check = self.hb, z3.Solver.check

        def timed(solver, *a):
            hb[i] = time.time()
            try:
                return check(solver, *a)
            finally:
                hb[i] = 0
        z3.Solver.check = timed
        try:
            while True:
                t = conn.recv()
                for x in task(t):
                    conn.send(x)
                conn.send(None)
        except (EOFError, KeyboardInterrupt, BrokenPipeError):
            pass
        os._exit(0)

    def submit(self, t):
        if self.thread is None:         # started after every fork
            self.thread = threading.Thread(target=self.loop, daemon=True)
            self.thread.start()
        with self.lock:
            self.tasks.append(t)
            self.names += [(t[0], n) for n in t[1]]
        self.wake_w.send(0)

    def loop(self):
        while not self.closed:
            with self.lock:
                while self.tasks and self.idle:
                    w, t = self.idle.pop(), self.tasks.popleft()
                    w.update(task=t, cur=None, done=set())
                    self.hb[w['i']] = 0
                    try:
                        w['conn'].send(t)
                        self.busy.append(w)
                    except (BrokenPipeError, OSError):
                        self.tasks.appendleft(t)
                        self.replace()
                if self.tasks and not self.idle and not self.busy:
                    for t in self.tasks:
                        for n in t[1]:
                            self.put(dict(unit=t[0], h=n, error='no solver process left'))
                    self.tasks.clear()
            ready = mpc.wait([w['conn'] for w in self.busy] + [self.wake_r], timeout=2)
            if self.wake_r in ready:
                self.wake_r.recv()
            for w in [w for w in self.busy if w['conn'] in ready]:
                try:
                    x = w['conn'].recv()
                except (EOFError, OSError):
                    self.lost(w, 'the solver process died')
                    continue
                if x is None:
                    self.busy.remove(w)
                    self.idle.append(w)
                elif isinstance(x, str):
                    w['cur'] = x
                else:
                    w['done'].add(x['h'])
                    w['cur'] = None
                    self.put(x)
            now = time.time()
            for w in list(self.busy):
                t = self.hb[w['i']]
                if t and now - t > self.limit:
                    self.lost(w, 'the solver did not return within %d s' % self.limit)

    def put(self, r):
        self.results.put(r)

    def replace(self):
        if self.spare:
            self.idle.append(self.spare.pop())

    def lost(self, w, why):
        self.busy.remove(w)
        w['proc'].kill()
        ui, names = w['task'][0], w['task'][1]
        if w['cur']:
            r = blank(ui, w['cur'])
            r['paths'], r['stats'] = {}, {}
            r['undecided'].append(why)
            w['done'].add(w['cur'])
            self.put(r)
        rest = set(names) - w['done']
        with self.lock:
            if rest:
                self.tasks.appendleft((ui, rest) + tuple(w['task'][2:]))
            self.replace()

    def close(self):
        self.closed = True
        for w in self.ws:
            try:
                w['proc'].kill()
            except Exception:
                pass


def verify(mod, h, r, deadline, plan, known, nval):
    if time.time() > deadline:
        r['undecided'].append('time budget exhausted before encoding')
        return
    ex, env, paths = enc_run(mod, h)
    r['steps'] = ex.stat['steps']
    r['feas'] = ex.stat['feas']
    r['xstat'] = dict(ex.stat)
    r['funcs'] = sorted(ex.funcs_used)
    samples = 0
    for p in paths:
        r['paths'][p.kind] += 1
        if p.kind == 'unsupported':
            r['undecided'].append('unsupported: ' + str(p.info))
            continue
        # a model of the path, for validation against the native build
        model = None
        if p.kind != 'ub' and samples < nval:
            if p.st.model is not None:
                model = {}
                for n, t in h.params:
                    x = z3.BitVec(n, max(T[t][1], 8))
                    model[n] = p.st.model.eval(x, model_completion=True).as_long()
                if not solve.evaluate([c for c in p.pc], model):
                    model = None
            if model is None:
                s, m = solve.bv_solve(list(p.pc), 300)
                if s == 'sat':
                    model = {n: m.get(n, 0) for n, _ in h.params}
                    if any(k not in model for k in m):
                        model = None        # depends on stub values: not replayable natively
            elif any(k not in model for k in solve.consts(list(p.pc))):
                model = None
            if model is not None:
                sub = [(z3.BitVec(n, max(T[t][1], 8)), z3.BitVecVal(model[n], max(T[t][1], 8))) for n, t in h.params]
                pred = dict(kind=p.kind, slots={i: eval_slot(v, sub) for i, v in p.slots.items()})
                if p.err:
                    pred['err'] = [eval_slot(x, sub) for x in p.err]
                if p.sys:
                    pred['sys'] = eval_slot(p.sys[0], sub)
                r['samples'].append((model, pred))
                samples += 1
        for label, goal in goals_of(h, p, env):
            if time.time() > deadline:
                r['undecided'].append('%s: time budget' % label)
                continue
            pc = list(p.pc)
            kf = [k for k in known if any(re.fullmatch(x, h.name) for x in k['harness']) and re.search(k['label'], label)]
            if kf:
                k = kf[0]
                region = eval(k['region'], {'z3': z3, 'MI': MI}, dict(env.mi))
                s, m = solve.check(pc + [region, z3.Not(goal)], plan, r['stats'])
                if s == 'sat':
                    r['known'].append(k['what'])
                pc.append(z3.Not(region))
            s, m = solve.prove(pc, goal, plan, r['stats'])
            if s == 'proved':
                r['proved'] += 1
            elif s == 'unknown':
                r['undecided'].append(label)
            else:
                model = {n: m.get(n, 0) for n, _ in h.params}
                r['refuted'].append(dict(label=label, model=model, kind=p.kind, info=p.info,
                                         extra={k: v for k, v in m.items() if k not in model}))
                if len(r['refuted']) >= 3:
                    return
    if not paths:
        r['error'] = 'no feasible path: vacuous harness'


# ------------------------------------------------------------------ native side
def parse_native(line):
    head, _, rest = line.partition('|')
    h = head.split()
    slots = {i: int(x, 16) for i, x in enumerate(rest.split())}
    slots = {i: v for i, v in slots.items() if v != SENT}
    if not h:
        return dict(kind='?', slots={})
    if h[0] == 'R':
        return dict(kind='ret', slots=slots)
    if h[0] == 'E':
        return dict(kind='err', slots=slots, err=[int(h[1]), int(h[2])])
    if h[0] == 'S':
        return dict(kind='sys', slots=slots, sys=int(h[1]), cat=h[2])
    if h[0] == 'X':
        return dict(kind='throw', slots=slots)
    if h[0] == 'C':
        return dict(kind='crash', slots={}, sig=int(h[1]))
    return dict(kind='?', slots={})


def run_native(exe, reqs):
    """reqs: [(harness name, [ints])] -> list of dicts"""
    inp = ''.join('%s %s\n' % (n, ' '.join('%x' % v for v in vals)) for n, vals in reqs)
    rc, out, err = run_cmd([exe], inp, timeout=300)
    lines = out.splitlines()
    return [parse_native(l) for l in lines], err


def concrete_path(res):
    k = res['kind']
    if k == 'crash':
        return Path('abort', {}, info='signal %d' % res['sig'])
    return Path(k, res['slots'], err=res.get('err'), sys=(res.get('sys'), res.get('cat')) if k == 'sys' else None)


def native_violates(h, model, res):
    """labels of goals the native outcome breaks"""
    env = Env(h, model)
    if h.assume:
        for c in h.assume(env):
            if not z3.is_true(z3.simplify(c)):
                return []
    p = concrete_path(res)
    bad = []
    for label, goal in goals_of(h, p, env):
        if goal is False or z3.is_expr(goal) and z3.is_false(z3.simplify(goal)):
            bad.append(label)
    return bad


# ------------------------------------------------------------------ the check
class Check:
    def __init__(self, pid, units, title, bounds, assumptions=(), level='model_checking', stubs=(), nval=4,
                 static_results=None):
        self.pid, self.units, self.title, self.bounds = pid, units, title, bounds
        self.assumptions, self.level, self.stubs, self.nval = list(assumptions), level, list(stubs), nval
        self.static = static_results      # callable -> list of (label, ok, detail): compile-time facts

    def run(self):
        t0 = time.time()
        tier = os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        plan = solve.DEEP if tier == 'thorough' else solve.QUICK
        budget = float(os.environ.get('VERIF_BUDGET', '780' if tier == 'quick' else '14000'))
        deadline = t0 + budget
        only = os.environ.get('VERIF_ONLY')
        if only:
            for u in self.units:
                u.hs = [h for h in u.hs if re.search(only, h.name)]
            self.units = [u for u in self.units if u.hs]
        scratch = tempfile.mkdtemp(prefix='verif_%s_' % self.pid)
        try:
            return self._run(t0, tier, seed, plan, deadline, scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    def _run(self, t0, tier, seed, plan, deadline, scratch):
        pid = self.pid
        known = [k for k in load_known() if k['property'] == pid]
        _W['check'] = self
        pool = Workers(NPROC, 75 if tier == 'quick' else 240)      # forked before any thread exists
        tp = cf.ThreadPoolExecutor(NPROC)
        results, errors, violations, notes = [], [], [], []
        compile_fail = []
        native_exe = {}
        self._dropped_defs, self.rejected = {}, []

        def build(ui):
            unit = self.units[ui]
            src = os.path.join(scratch, unit.name + '.cpp')
            ll = os.path.join(scratch, unit.name + '.ll')
            open(src, 'w').write(unit.source())
            rc, out, err = clang_run(unit, src, ll)
            if rc == 0:
                return ui, ll, []
            ll, bad = self.bisect(unit, ui, scratch, tp)
            return ui, ll, bad

        def build_native(ui):
            unit = self.units[ui]
            src = os.path.join(scratch, unit.name + '_n.cpp')
            exe = os.path.join(scratch, unit.name + '_n')
            open(src, 'w').write(unit.native_source())
            rc, out, err = run_cmd(gxx_cmd(unit, src, exe, ('-O0',)))
            return ui, exe if rc == 0 else None, err

        compile_s = time.time()
        futs = [tp.submit(build, ui) for ui in range(len(self.units))]
        nfuts = []
        for f in cf.as_completed(futs):
            ui, ll, bad = f.result()
            unit = self.units[ui]
            compile_fail += bad
            if ll is None:
                continue
            names = [h.name for h in unit.hs]
            k = max(1, min(8, len(names) // 16 or 1))
            chunks = [names[i::max(1, len(names) // k)] for i in range(max(1, len(names) // k))]
            for c in chunks:
                if c:
                    pool.submit((ui, set(c), ll, deadline, plan, known, self.nval))
            if unit.native:
                nfuts.append(tp.submit(build_native, ui))
        compile_s = time.time() - compile_s
        tbl = {(ui, h.name): h for ui, u in enumerate(self.units) for h in u.hs}
        confirmed_h = set()
        unconfirmed = []
        pending = set(pool.names)
        while pending:
            try:
                r = pool.results.get(timeout=max(5, deadline + 60 - time.time()))
            except queue.Empty:
                for ui, n in pending:
                    r = blank(ui, n)
                    r['paths'], r['stats'] = {}, {}
                    r['undecided'].append('time budget exhausted')
                    results.append(r)
                break
            pending.discard((r['unit'], r['h']))
            results.append(r)
            if r.get('error'):
                errors.append('%s: %s' % (r['h'], r['error']))
                continue
            for v in r['refuted']:
                if os.environ.get('VERIF_ALL'):
                    print('REFUTED %s -- %s %s %s %s' % (r['h'], v['label'], fmt_model(tbl[(r['unit'], r['h'])], v['model']), v["kind"], str(v["info"])[:60]))
                    continue
                if len(violations) >= 3:
                    break
                h = tbl[(r['unit'], r['h'])]
                ok, detail = self.replay(self.units[r['unit']], h, v, scratch)
                if ok:
                    violations.append((h, v, detail))
                else:
                    unconfirmed.append('%s: %s at %s: %s' % (h.name, v['label'], v['model'], detail))
            if violations:
                break
        pool.close()
        # ---- compile failures of public expressions
        for ui, hname, msg, both in compile_fail:
            if both:
                h = self._dropped_defs.get((ui, hname)) or tbl[(ui, hname)]
                violations.append((h, dict(label='expression no longer compiles', model={}, kind='compile', info=msg[:400], extra={}),
                                   self.save_replay(h, self.units[ui], dict(label='does not compile', model={}), dict(error=msg[:2000]))))
            else:
                notes.append('clang-only compile failure, not encoded: %s: %s' % (hname, msg[:200]))
        if self.static:
            st = self.static(scratch, tier)
        else:
            st = []
        for label, ok, detail in st:
            if not ok:
                rp = os.path.join(ROOT, 'replays', pid)
                os.makedirs(rp, exist_ok=True)
                fn = os.path.join(rp, re.sub(r'\W+', '_', label)[:80] + '.txt')
                open(fn, 'w').write(label + '\n' + str(detail) + '\n')
                violations.append((None, dict(label=label, model={}), fn))
        # ---- validation of the encoding against the native build
        mism, nvalid = [], 0
        if not violations:
            for f in nfuts:
                ui, exe, err = f.result()
                if exe is None:
                    errors.append('g++ failed on unit %s: %s' % (self.units[ui].name, err[:500]))
                else:
                    native_exe[ui] = exe
            for ui, exe in native_exe.items():
                reqs, preds = [], []
                for r in results:
                    if r['unit'] != ui or r.get('error'):
                        continue
                    h = tbl[(ui, r['h'])]
                    for model, pred in r['samples']:
                        reqs.append((h.name, [model[n] for n, _ in h.params]))
                        preds.append((h, model, pred))
                if not reqs:
                    continue
                res, err = run_native(exe, reqs)
                if len(res) != len(reqs):
                    errors.append('native run of %s incomplete' % self.units[ui].name)
                    continue
                for (h, model, pred), got in zip(preds, res):
                    nvalid += 1
                    d = differs(pred, got)
                    if d:
                        mism.append('%s %s: %s' % (h.name, model, d))
        tp.shutdown(wait=False, cancel_futures=True)
        return self.report(t0, tier, seed, results, errors, violations, notes, unconfirmed, mism, nvalid, compile_s, known, st)

    def bisect(self, unit, ui, scratch, tp):
        """find the harnesses that do not compile; returns IR of the rest"""
        def single(h):
            s = os.path.join(scratch, '%s_%s_b.cpp' % (unit.name, h.name))
            open(s, 'w').write(unit.source({h.name}))
            rc, _, err = run_cmd([CLANG, '-std=' + unit.std, '-fsyntax-only', '-w', '-I' + INC] + unit.flags + [s])
            if rc == 0:
                return h, None, False
            rc2, _, err2 = run_cmd(['g++', '-std=' + unit.std, '-fsyntax-only', '-w', '-I' + INC] +
                                   [f for f in unit.flags if not f.startswith('-X')] + [s])
            return h, (err2 or err), rc2 != 0

        def build(hs):
            src = os.path.join(scratch, unit.name + '_k.cpp')
            ll = os.path.join(scratch, unit.name + '_k.ll')
            text = unit.prelude + ''.join(h.code() for h in hs)
            open(src, 'w').write(text)
            rc, out, err = clang_run(unit, src, ll)
            if rc == 0:
                return ll, []
            # attribute the errors to harnesses through the source lines the instantiation notes name
            line, owner = unit.prelude.count('\n') + 1, {}
            for h in hs:
                n = h.code().count('\n')
                for k in range(line, line + n):
                    owner[k] = h
                line += n
            bad = []
            for mm in re.finditer(re.escape(src) + r':(\d+):', err):
                h = owner.get(int(mm.group(1)))
                if h is not None and h not in bad:
                    bad.append(h)
            return None, bad
        orig = list(unit.hs)
        keep, out_hs, ll = list(orig), [], None
        for _ in range(12):
            ll, named = build(keep)
            if ll or not named:
                break
            out_hs += named
            keep = [h for h in keep if h not in named]
            if not keep:
                break
        if ll is None and keep:
            out_hs = list(orig)
        bad = []
        suspects = [h for h in out_hs if not h.may_reject] if ll else out_hs
        with cf.ThreadPoolExecutor(NPROC) as t2:
            for h, err, both in t2.map(single, suspects):
                if err is not None:
                    m = [l for l in err.splitlines() if 'error' in l]
                    bad.append((ui, h.name, '\n'.join(m[:3]) or err[:300], both))
        if ll is None:
            names = {x[1] for x in bad}
            keep = [h for h in orig if h.name not in names]
            if keep:
                ll, _ = build(keep)
            rej = [h.name for h in orig if h.name in names and h.may_reject]
            bad = [x for x in bad if x[1] not in rej]
        else:
            rej = [h.name for h in out_hs if h.may_reject]
        self.rejected.extend(rej)
        unit.hs = keep
        for h in orig:
            if h not in keep:
                self._dropped_defs[(ui, h.name)] = h
        return ll, bad

    def save_replay(self, h, unit, v, detail):
        rp = os.path.join(ROOT, 'replays', self.pid)
        os.makedirs(rp, exist_ok=True)
        fn = os.path.join(rp, h.name + '.json')
        src = os.path.join(rp, h.name + '.cpp')
        try:
            open(src, 'w').write(Unit(unit.name, [h], unit.prelude, unit.std, unit.flags).native_source())
        except Exception:
            pass
        json.dump(dict(property=self.pid, harness=h.name, label=v['label'], inputs=v.get('model'), body=h.body,
                       params=h.params, detail=detail, source=src,
                       how='g++ -std=%s -I%s %s -o r && echo "%s %s" | ./r' % (
                           unit.std, INC, src, h.name, ' '.join('%x' % v['model'].get(n, 0) for n, _ in h.params))),
                  open(fn, 'w'), indent=1, default=str)
        return fn

    def replay(self, unit, h, v, scratch):
        """confirm a counterexample on native builds; -> (confirmed, replay path or reason)"""
        if hasattr(h, 'replay') and h.replay:
            ok, detail = h.replay(unit, h, v, scratch)
            return (True, self.save_replay(h, unit, v, detail)) if ok else (False, detail)
        vals = [v['model'][n] for n, _ in h.params]
        one = Unit(unit.name, [h], unit.prelude, unit.std, unit.flags, extra=unit.extra)
        src = os.path.join(scratch, 'replay_%s.cpp' % h.name)
        open(src, 'w').write(one.native_source())
        got = {}
        builds = [('g++-O0', 'g++', ['-O0']),
                  ('g++-ubsan', 'g++', ['-O0', '-fsanitize=undefined,address', '-fno-sanitize-recover=all'])]
        if 'uninitialised' in v['label']:
            builds.append(('clang-msan', CLANG, ['-O0', '-fsanitize=memory']))
        builds.append(('g++-O2', 'g++', ['-O2']))
        for nm, cc, opt in builds:
            exe = os.path.join(scratch, 'replay_%s_%s' % (h.name, nm))
            rc, _, err = run_cmd([cc, '-std=' + unit.std, '-w', '-I' + INC] + opt +
                                 [f for f in unit.flags if not f.startswith('-X')] + [src] + extra_files(unit, src) + ['-o', exe])
            if rc:
                got[nm] = 'build failed: ' + err[:300]
                continue
            res, err = run_native(exe, [(h.name, vals)])
            if not res:
                got[nm] = 'no output'
                continue
            bad = native_violates(h, v['model'], res[0])
            got[nm] = dict(outcome=res[0], violates=bad, stderr=err[:600])
            if bad:
                return True, self.save_replay(h, unit, v, got)
        return False, got

    def report(self, t0, tier, seed, results, errors, violations, notes, unconfirmed, mism, nvalid, compile_s, known, st):
        pid = self.pid
        good = [r for r in results if not r.get('error')]
        proved = sum(r['proved'] for r in good)
        und = [(r['h'], u) for r in good for u in r['undecided']]
        qs = collections.Counter()
        stime = 0.0
        for r in good:
            for k, n in r['stats'].items():
                if k == 'time':
                    stime += n
                else:
                    qs[k] += n
        funcs = set()
        for r in good:
            funcs.update(r['funcs'])
        paths = collections.Counter()
        for r in good:
            paths.update(r['paths'])
        boostf = sorted(f for f in funcs if 'safe_numerics' in f)
        kn = sorted({k for r in good for k in r['known']})
        samples = []
        for r in good[:: max(1, len(good) // 4)][:5]:
            if r['samples']:
                samples.append(dict(harness=r['h'], path_model=r['samples'][0][0], predicted=r['samples'][0][1],
                                    obligations_proved=r['proved'], paths=r['paths']))
        ev = dict(property=pid, tier=tier, seed=seed, level=self.level,
                  coverage=dict(
                      states=sum(paths.values()),
                      transitions=sum(r['steps'] for r in good),
                      traces_validated_against_impl=nvalid,
                      samples=samples or [dict(note='no path model')],
                      obligations=proved + len(und) + sum(len(r['refuted']) for r in good),
                      discharged=proved,
                      undecided=[('%s: %s' % u)[:300] for u in und[:40]],
                      undecided_count=len(und),
                      harnesses=len(good), path_outcomes=dict(paths),
                      solver_queries=dict(qs), feasibility_queries=sum(r['feas'] for r in good),
                      solver_time_s=round(stime, 2), compile_s=round(compile_s, 2),
                      functions_encoded=len(boostf), functions_encoded_sample=demangle(boostf[:: max(1, len(boostf) // 25)][:25]),
                      bounds=self.bounds, static_facts=len(st),
                      rejected_at_compile_time=len(getattr(self, 'rejected', [])),
                      explanation='states = symbolic paths (each covers every input satisfying its path condition); transitions = '
                                  'IR instructions executed symbolically; traces_validated = path models run through a native g++ '
                                  'build and compared with the encoding'),
                  assumptions=self.assumptions + ['environment stub: ' + s for s in self.stubs] + [
                      'the code verified is the LLVM IR of clang++-18 -O0 for x86-64; left shift of a negative value is taken as '
                      'two\'s complement (C++20), other undefined behaviour is an outcome that must be unreachable',
                      'trusted: clang front end, this executor (validated on the listed traces), z3/cvc5'],
                  wall_s=round(time.time() - t0, 2), violations=len(violations))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        if notes:
            ev['coverage']['notes'] = notes[:20]
        json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
        print('%s: %d harnesses, %d paths %s, %d obligations proved, %d undecided, %d native traces compared, solver %.1fs, wall %.1fs' % (
            pid, len(good), sum(paths.values()), dict(paths), proved, len(und), nvalid, stime, time.time() - t0))
        for n in notes[:5]:
            print('note: ' + n)
        for k in kn:
            print('KNOWN-FINDING: property=%s %s' % (pid, k))
        if os.environ.get('VERIF_VERBOSE'):
            for h, u in und[:40]:
                print('UNDECIDED %s: %s' % (h, u))
            print('queries', dict(qs))
            for r in sorted(good, key=lambda r: -r['wall'])[:8]:
                print('slow %s %.1fs %s' % (r['h'], r['wall'], r.get('xstat')))
        if violations:
            for h, v, rp in violations:
                if h is not None:
                    print('  broken: %s -- %s, inputs %s' % (h.name, v['label'], fmt_model(h, v['model'])))
                else:
                    print('  broken: %s' % v['label'])
                print('VIOLATION property=%s replay=%s' % (pid, rp))
            return 1
        if unconfirmed:
            for u in unconfirmed[:5]:
                print('UNCONFIRMED counterexample (not reproduced natively): ' + u[:1500])
            return 2
        if mism:
            for m in mism[:5]:
                print('ENCODING MISMATCH: ' + m[:600])
            return 2
        if errors:
            for e in errors[:5]:
                print('ERROR: ' + e[:1500])
            return 2
        if und:
            print('UNDECIDED obligations: %d (listed in the evidence)' % len(und))
            if len(und) > proved:
                return 2
        if not proved and not st:
            print('ERROR: nothing was proved')
            return 2
        return 0


def fmt_model(h, m):
    out = {}
    for n, t in h.params:
        v = m.get(n, 0)
        _, bits, sg = T[t]
        if sg and v >> (bits - 1) and t not in FLOATS:
            v -= 1 << bits
        out[n] = v
    return out


def differs(pred, got):
    if pred['kind'] != got['kind']:
        if pred['kind'] == 'throw' and got['kind'] in ('throw', 'sys'):
            return None
        return 'predicted %s, native %s' % (pred['kind'], got)
    for i, v in pred['slots'].items():
        if v is not None and got['slots'].get(i, SENT) != v:
            return 'slot %d predicted %#x, native %r' % (i, v, got['slots'].get(i))
    if 'err' in pred and pred['err'] != got['err']:
        return 'error predicted %r native %r' % (pred['err'], got['err'])
    if 'sys' in pred and pred['sys'] is not None and pred['sys'] != got['sys']:
        return 'system_error predicted %r native %r' % (pred['sys'], got['sys'])
    return None


def demangle(names):
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        return [x[:240] for x in p.stdout.splitlines()]
    except Exception:
        return names


def load_known():
    fn = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    return json.load(open(fn)).get('findings', [])

"""Symbolic executor for clang -O0 LLVM IR (see irparse.py).

A function is executed with symbolic arguments (z3 bit-vectors).  Every feasible
path ends in an Outcome: 'ret', 'throw', 'ub', 'abort' (terminate / failed
assert) or 'unsupported'.  Undefined behaviour the source language gives to the
compiler is an explicit outcome: signed overflow (nsw), division by zero or
MIN/-1, oversized shifts, out-of-bounds or dangling accesses, branching on an
uninitialised value, reaching `unreachable`."""
import re
import z3
from wide import simp, xtr
from irparse import (Module, Reg, UNDEF, SHIFT, OFFMASK, FIRST_DYNAMIC, IntTy, PTR, VOID, META)

M64 = (1 << 64) - 1
BVR = z3.BitVecRef
z3.set_param('smt.random_seed', 1)
z3.set_param('lp.dio', False)        # loops without honouring the time limit


class Unsupported(Exception):
    pass


class Bytes(list):
    """partially undefined integer: list of bytes, low first (int, BV8 or UNDEF)"""


class Fork(Exception):
    """raised by memory access on a symbolic address: conditions to split on"""
    def __init__(self, conds):
        self.conds = conds


class UB(Exception):
    pass


class Obj:
    __slots__ = ('size', 'cells', 'const', 'owner', 'name', 'alive')

    def __init__(self, size, cells, const, owner, name):
        self.size, self.cells, self.const, self.owner, self.name = size, cells, const, owner, name
        self.alive = True


class State:
    __slots__ = ('mem', 'pc', 'events', 'model', 'nobj', 'steps', 'exc')

    def __init__(self):
        self.mem = {}
        self.pc = ()
        self.events = ()
        self.model = None
        self.nobj = FIRST_DYNAMIC
        self.exc = ()

    def fork(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.events = self.events
        s.model = self.model
        s.nobj = self.nobj
        s.exc = self.exc
        return s

    def wobj(self, oid, o):
        """object for writing"""
        if o.owner is not self:
            n = Obj(o.size, dict(o.cells), o.const, self, o.name)
            self.mem[oid] = n
            return n
        return o


class Outcome:
    __slots__ = ('kind', 'val', 'st', 'info')

    def __init__(self, kind, val, st, info=None):
        self.kind, self.val, self.st, self.info = kind, val, st, info


def join_bytes(parts):
    """little-endian [(value, nbytes)] -> one value; pieces of the same term are put back together"""
    acc = []            # (term or int, hi, lo) with hi/lo bit positions inside term; ints: (int, nbits, None)
    for x, n in parts:
        if type(x) is int:
            if acc and acc[-1][2] is None:
                v, w, _ = acc[-1]
                acc[-1] = (v | x << w, w + 8 * n, None)
            else:
                acc.append((x, 8 * n, None))
            continue
        hi, lo, t = 8 * n - 1, 0, x
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_EXTRACT:
            hi, lo = x.params()
            t = x.arg(0)
        if acc and acc[-1][2] is not None and acc[-1][0].eq(t) and acc[-1][1] + 1 == lo:
            acc[-1] = (t, hi, acc[-1][2])
        else:
            acc.append((t, hi, lo))
    out = []
    for t, hi, lo in acc:
        if lo is None:
            out.append(z3.BitVecVal(t, hi))
        elif lo == 0 and hi == t.size() - 1:
            out.append(t)
        else:
            out.append(xtr(hi, lo, t))
    if len(out) == 1:
        return out[0].as_long() if z3.is_bv_value(out[0]) else out[0]
    return z3.Concat(*reversed(out))


def is_conc(v):
    return type(v) is int


def bv(v, n):
    return z3.BitVecVal(v, n) if type(v) is int else v


def toi(v, n):
    return v - (1 << n) if v >> (n - 1) else v


def as_bool(v):
    """i1 value -> z3 Bool or python bool"""
    if type(v) is int:
        return bool(v)
    return v


def ite_const(t):
    """(cond, x, y) if t is If(cond, numeral, numeral)"""
    if t.decl().kind() == z3.Z3_OP_ITE:
        x, y = t.arg(1), t.arg(2)
        if z3.is_bv_value(x) and z3.is_bv_value(y):
            return t.arg(0), x.as_long(), y.as_long()
    return None


def has_ite_head(t, d=3):
    k = t.decl().kind()
    if k == z3.Z3_OP_ITE:
        return True
    if d and k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT, z3.Z3_OP_EXTRACT):
        return has_ite_head(t.arg(0), d - 1)
    return False


def norm_bool(c):
    if z3.is_true(c):
        return 1
    if z3.is_false(c):
        return 0
    return c


class Executor:
    def __init__(self, mod, feas_ms=300, merge=False, max_paths=4000, max_steps=400000, max_visits=600):
        self.mod = mod
        self.gobjs = {}
        self.feas_ms = feas_ms
        self.merge = merge
        self._small = {}
        self.max_paths, self.max_steps, self.max_visits = max_paths, max_steps, max_visits
        self.externs = dict(EXTERNS)
        self.extern_re = list(EXTERN_RE)
        self.intercept = {}
        self.intercept_re = []
        self._icache = {}
        self.stat = dict(steps=0, paths=0, feas=0, feas_unknown=0, feas_unknown2=0, forks=0)
        self.feas_ms = feas_ms
        self.funcs_used = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', feas_ms)
        self.depth = 0
        self.fresh = 0
        self.ctx_checks = True
        self._init_state = None
        self._budget = max_steps

    # ------------------------------------------------------------------ init
    def initial_state(self):
        """state after the module's static constructors"""
        if self._init_state is None:
            st = State()
            if 'llvm.global_ctors' in self.mod.globals:
                t, init, _ = self.mod.global_info('llvm.global_ctors')
                for c in init or []:
                    nm = self.mod.sym_at(c[1])
                    f = self.mod.func(nm) if nm else None
                    if f is None:
                        continue
                    outs = self.exec_function(f, [], st)
                    outs = [o for o in outs if o.kind == 'ret']
                    if len(outs) == 1:
                        st = outs[0].st
            self._init_state = st
            self.stat.update(steps=0, paths=0, feas=0, feas_unknown=0, feas_unknown2=0, forks=0)
            self.funcs_used = {}
        st = self._init_state.fork()
        st.nobj = self._init_state.nobj
        return st

    # ---------------------------------------------------------------- memory
    def obj(self, st, oid):
        o = st.mem.get(oid)
        if o is not None:
            return o
        o = self.gobjs.get(oid)
        if o is not None:
            return o
        nm = self.mod.byid.get(oid)
        if nm is None or oid >= FIRST_DYNAMIC:
            return None
        if nm in self.mod.globals:
            t, init, const = self.mod.global_info(nm)
            o = Obj(t.size, {}, const, None, nm)
            if init is None:
                o.size = 1 << (SHIFT - 1)   # external: opaque
                o.name = 'extern:' + nm
            else:
                self._init_cells(o.cells, 0, t, init)
        else:
            o = Obj(1, {}, True, None, 'func:' + nm)
        self.gobjs[oid] = o
        return o

    def _init_cells(self, cells, off, t, v):
        if t.k == 'a':
            if v is UNDEF:
                return
            for i, x in enumerate(v):
                self._init_cells(cells, off + i * t.el.size, t.el, x)
        elif t.k == 's':
            for o, f, x in zip(t.offs, t.fields, v):
                self._init_cells(cells, off + o, f, x)
        elif v is not UNDEF:
            cells[off] = (t.size, v)

    def new_obj(self, st, size, name=''):
        oid = st.nobj
        st.nobj += 1
        st.mem[oid] = Obj(size, {}, False, st, name)
        return oid << SHIFT

    def resolve(self, st, addr, size):
        """-> (oid, obj, offset) for a concrete address; raises UB"""
        if type(addr) is not int:
            if addr is UNDEF or isinstance(addr, Bytes):
                raise UB('access through uninitialised pointer')
            return self.sym_resolve(st, addr, size)
        oid = addr >> SHIFT
        off = addr & OFFMASK
        o = self.obj(st, oid)
        if o is None:
            raise UB('access through invalid pointer %#x' % addr)
        if not o.alive:
            raise UB('access to dead object')
        if off + size > o.size:
            raise UB('out-of-bounds access: offset %d size %d of %d in %s' % (off, size, o.size, o.name))
        return oid, o, off

    def ask(self, ms=20000):
        """check the assertions of self.solver, with a second, longer attempt -> (result, model)"""
        r = self.solver.check()
        if r == z3.sat:
            return r, self.solver.model()
        if r == z3.unsat:
            return r, None
        s = z3.Solver()
        s.set('timeout', ms)
        s.add(*self.solver.assertions())
        r = s.check()
        return r, s.model() if r == z3.sat else None

    def sym_resolve(self, st, addr, size):
        s = simp(addr)
        if z3.is_bv_value(s):
            return self.resolve(st, s.as_long(), size)
        # find all feasible concrete addresses
        vals = []
        self.solver.push()
        try:
            self.solver.add(*st.pc)
            while len(vals) <= 300:
                r, m = self.ask()
                if r == z3.unsat:
                    break
                if r != z3.sat:
                    raise Unsupported('targets of a symbolic address not decided in time')
                v = m.eval(addr, model_completion=True).as_long()
                vals.append(v)
                self.solver.add(addr != v)
            else:
                raise Unsupported('symbolic address with too many targets')
        finally:
            self.solver.pop()
        if not vals:
            raise UB('access through symbolic pointer with no feasible target')
        if len(vals) == 1:
            return self.resolve(st, vals[0], size)
        raise Fork([addr == v for v in vals])

    def table_load(self, st, addr, ty):
        """read of a table of constants at a symbolic index: one term instead of one path per entry; None if not that"""
        if ty.k != 'i' or ty.n & 7:
            return None
        if z3.is_bv_value(simp(addr)):
            return None
        n = ty.size
        self.solver.push()
        try:
            self.solver.add(*st.pc)
            r, m = self.ask()
            if r != z3.sat:
                return None
            a0 = m.eval(addr, model_completion=True).as_long()
            oid = a0 >> SHIFT
            o = self.obj(st, oid)
            if o is None or not o.alive or o.size < 16 or o.size > 8192 or o.name.startswith('extern:'):
                return None
            base = oid << SHIFT
            inb = z3.And(z3.UGE(addr, base), z3.ULE(addr, base + o.size - n))
            if n > 1:
                inb = z3.And(inb, (addr & (n - 1)) == (base & (n - 1)))
            self.solver.add(z3.Not(inb))
            if self.ask()[0] != z3.unsat:
                return None
        finally:
            self.solver.pop()
        vals = []
        for off in range(0, o.size - n + 1, n):
            v = self.load_raw(o, off, n)
            if type(v) is not int:
                return None
            vals.append((off, v))
        runs = [vals[0]]
        for off, v in vals[1:]:
            if v != runs[-1][1]:
                runs.append((off, v))
        if len(runs) > 300:
            return None
        t = z3.BitVecVal(runs[-1][1], 8 * n)
        for (o1, v), (o2, _) in reversed(list(zip(runs, runs[1:]))):
            t = z3.If(z3.ULT(addr, base + o2), z3.BitVecVal(v, 8 * n), t)
        return t

    def small_term(self, v, depth=0):
        """is v built from small constants only (bit counts and the like)?"""
        if type(v) is int:
            return v <= 512
        if not isinstance(v, z3.BitVecRef) or depth > 60:
            return False
        k = v.get_id()
        c = self._small.get(k)
        if c is not None:
            return c[0]
        d = v.decl().kind()
        if z3.is_bv_value(v):
            r = v.as_long() <= 512 or v.as_long() >= (1 << v.size()) - 512
        elif d == z3.Z3_OP_ITE:
            r = self.small_term(v.arg(1), depth + 1) and self.small_term(v.arg(2), depth + 1)
        elif d in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB):
            r = all(self.small_term(x, depth + 1) for x in v.children())
        elif d in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT, z3.Z3_OP_EXTRACT, z3.Z3_OP_CONCAT):
            r = all(self.small_term(x, depth + 1) for x in v.children())
        else:
            r = False
        self._small[k] = (r, v)
        return r

    def merge_small(self, outs, base_pc, f):
        """join the returns of a side-effect-free function that computes a small count"""
        if f.ret.k != 'i' or f.ret.n < 8:
            return outs
        rets = [o for o in outs if o.kind == 'ret' and o.val is not UNDEF and self.small_term(o.val)]
        if len(rets) < 2:
            return outs
        a = rets[0]
        n = len(base_pc)
        group = [a]
        for o in rets[1:]:
            if o.st.events == a.st.events and o.st.exc == a.st.exc and self._same_mem(a.st, o.st):
                group.append(o)
        if len(group) < 2 or any(o.st.pc[:n] != base_pc for o in group):
            return outs
        v = bv(group[-1].val, f.ret.n)
        for o in reversed(group[:-1]):
            v = z3.If(self._conj(o.st.pc[n:]), bv(o.val, f.ret.n), v)
        ids = set(map(id, group))
        rest = [o for o in outs if id(o) not in ids]
        st = a.st.fork()
        st.nobj = max(o.st.nobj for o in group)
        st.pc = base_pc if not rest else base_pc + (simp(z3.Or(*[self._conj(o.st.pc[n:]) for o in group])),)
        return rest + [Outcome('ret', v, st)]

    def _same_mem(self, a, b):
        for oid in set(a.mem) | set(b.mem):
            x, y = a.mem.get(oid), b.mem.get(oid)
            if x is y:
                continue
            if x is None or y is None:
                g = self.gobjs.get(oid)
                if g is None:
                    return False
                x, y = x or g, y or g
            if x.size != y.size or set(x.cells) != set(y.cells) or x.alive != y.alive:
                return False
            for off, p in x.cells.items():
                q = y.cells[off]
                if p[0] != q[0] or not (p[1] is q[1] or self._same(p[1], q[1])):
                    return False
        return True

    def byte_at(self, cells, off):
        for k in range(0, 16):
            c = cells.get(off - k)
            if c is not None:
                if c[0] > k:
                    return c[1], k, c[0]
                # smaller cell starting earlier; keep looking only if bigger cells may cover
        return None

    def load_raw(self, o, off, size):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        parts = []          # (value, first byte, nbytes, cellsize)
        for i in range(size):
            b = self.byte_at(o.cells, off + i)
            if b is None:
                if parts and parts[-1][0] is UNDEF:
                    parts[-1][2] += 1
                else:
                    parts.append([UNDEF, 0, 1, 0])
                continue
            v, k, n = b
            if parts and parts[-1][0] is v and v is not UNDEF and parts[-1][1] + parts[-1][2] == k and parts[-1][3] == n \
                    and k != 0:
                parts[-1][2] += 1
            else:
                parts.append([v, k, 1, n])
        out = []
        undef = False
        for v, k, n, cs in parts:
            if v is UNDEF:
                out.append((UNDEF, n)); undef = True
            elif type(v) is int:
                out.append(((v >> (8 * k)) & ((1 << (8 * n)) - 1), n))
            elif isinstance(v, Bytes):
                for j in range(k, k + n):
                    x = v[j] if j < len(v) else UNDEF
                    if x is UNDEF:
                        undef = True
                    out.append((x, 1))
            elif isinstance(v, z3.BoolRef):
                out.append((z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), 1))
            else:
                if k == 0 and n * 8 == v.size():
                    out.append((v, n))
                else:
                    if v.size() < cs * 8:
                        v = z3.ZeroExt(cs * 8 - v.size(), v)
                    out.append((z3.Extract(8 * (k + n) - 1, 8 * k, v), n))
        if undef:
            if all(x is UNDEF for x, _ in out):
                return UNDEF
            bs = Bytes()
            for x, n in out:
                for j in range(n):
                    if x is UNDEF:
                        bs.append(UNDEF)
                    elif type(x) is int:
                        bs.append((x >> (8 * j)) & 255)
                    elif n == 1:
                        bs.append(x)
                    else:
                        bs.append(z3.Extract(8 * j + 7, 8 * j, x))
            return bs
        if all(type(x) is int for x, _ in out):
            r = 0
            sh = 0
            for x, n in out:
                r |= x << sh
                sh += 8 * n
            return r
        return join_bytes(out)

    def load(self, st, addr, ty):
        if ty.k == 's':
            return [self.load(st, self.add(addr, o), f) for o, f in zip(ty.offs, ty.fields)]
        if ty.k == 'a':
            return [self.load(st, self.add(addr, i * ty.el.size), ty.el) for i in range(ty.n)]
        if type(addr) is not int and isinstance(addr, z3.BitVecRef):
            v = self.table_load(st, addr, ty)
            if v is not None:
                return v
        oid, o, off = self.resolve(st, addr, ty.size)
        if o.name.startswith('extern:') and not o.cells:
            raise Unsupported('load from external object ' + o.name)
        v = self.load_raw(o, off, ty.size)
        if ty.k == 'i' and ty.n & 7:
            return self.trunc(v, ty.size * 8, ty.n)
        return v

    def add(self, addr, k):
        if k == 0:
            return addr
        if type(addr) is int:
            return (addr + k) & M64
        if addr is UNDEF or isinstance(addr, Bytes):
            return UNDEF
        return addr + k

    def clear_range(self, cells, off, size):
        for k in range(off - 15, off + size):
            c = cells.get(k)
            if c is None or k + c[0] <= off:
                continue
            if k >= off and k + c[0] <= off + size:
                del cells[k]
                continue
            # partial overlap: split remainder into bytes
            n, v = c
            del cells[k]
            tmp = Obj(0, {k: (n, v)}, False, None, '')
            for j in range(k, k + n):
                if j < off or j >= off + size:
                    cells[j] = (1, self.load_raw(tmp, j, 1))

    def store_raw(self, st, oid, o, off, size, v):
        o = st.wobj(oid, o)
        c = o.cells.get(off)
        if c is None or c[0] != size:
            self.clear_range(o.cells, off, size)
        if v is UNDEF:
            o.cells.pop(off, None)
        else:
            o.cells[off] = (size, v)

    def store(self, st, addr, ty, v):
        if ty.k == 's':
            if v is UNDEF:
                v = self.mod.undef_of(ty)
            for o, f, x in zip(ty.offs, ty.fields, v):
                self.store(st, self.add(addr, o), f, x)
            return
        if ty.k == 'a':
            if v is UNDEF:
                v = self.mod.undef_of(ty)
            for i, x in enumerate(v):
                self.store(st, self.add(addr, i * ty.el.size), ty.el, x)
            return
        oid, o, off = self.resolve(st, addr, ty.size)
        if o.const:
            raise UB('store to constant ' + o.name)
        if ty.k == 'i' and ty.n & 7:
            v = self.zext(v, ty.n, ty.size * 8)
        self.store_raw(st, oid, o, off, ty.size, v)

    def memcpy(self, st, d, s, n):
        if type(n) is not int:
            s1 = simp(n)
            if z3.is_bv_value(s1):
                n = s1.as_long()
            else:
                raise Unsupported('symbolic memcpy length')
        if n == 0:
            return
        sid, so, soff = self.resolve(st, s, n)
        if so.name.startswith('extern:') and not so.cells:
            raise Unsupported('memcpy from external object ' + so.name)
        did, do, doff = self.resolve(st, d, n)
        if do.const:
            raise UB('memcpy to constant')
        items = []
        i = 0
        while i < n:
            c = so.cells.get(soff + i)
            if c is not None and i + c[0] <= n:
                items.append((i, c[0], c[1]))
                i += c[0]
            else:
                v = self.load_raw(so, soff + i, 1)
                items.append((i, 1, v))
                i += 1
        do = st.wobj(did, do)
        self.clear_range(do.cells, doff, n)
        for i, sz, v in items:
            if v is not UNDEF:
                do.cells[doff + i] = (sz, v)

    # ------------------------------------------------------------ feasibility
    def feasible(self, st, cond):
        """is pc & cond satisfiable?  -> (bool, model or None); unknown counts as feasible"""
        if st.model is not None:
            if z3.is_true(st.model.eval(cond, model_completion=True)):
                return True, st.model
        self.stat['feas'] += 1
        s = self.solver
        s.push()
        try:
            s.add(*st.pc)
            s.add(cond)
            r = s.check()
            if r == z3.sat:
                return True, s.model()
            if r == z3.unsat:
                return False, None
            self.stat['feas_unknown'] += 1
            s2 = z3.SolverFor('QF_BV')
            s2.set('timeout', 3 * self.feas_ms)
            s2.add(*st.pc)
            s2.add(cond)
            r = s2.check()
            if r == z3.sat:
                return True, s2.model()
            if r == z3.unsat:
                return False, None
            self.stat['feas_unknown2'] += 1
            return True, None
        finally:
            s.pop()

    def branch(self, st, cond):
        """-> list of (truth, state)"""
        if type(cond) is int:
            return [(bool(cond), st)]
        if z3.is_true(cond):
            return [(True, st)]
        if z3.is_false(cond):
            return [(False, st)]
        nc = z3.Not(cond)
        ft, mt = self.feasible(st, cond)
        ff, mf = self.feasible(st, nc)
        if ft and ff:
            self.stat['forks'] += 1
            s2 = st.fork()
            # fork() shares objects: make both non-owning
            s1 = st.fork()
            s1.pc = st.pc + (cond,)
            s1.model = mt
            s2.pc = st.pc + (nc,)
            s2.model = mf
            return [(True, s1), (False, s2)]
        if ft:
            return [(True, st)]
        if ff:
            return [(False, st)]
        return []

    # ------------------------------------------------------------- arithmetic
    def zext(self, v, n, m):
        if type(v) is int:
            return v
        if v is UNDEF:
            return UNDEF
        if isinstance(v, Bytes):
            return UNDEF if m != n else v
        if n == 1:
            return z3.If(v, z3.BitVecVal(1, m), z3.BitVecVal(0, m))
        return z3.ZeroExt(m - n, v) if m > n else v

    def sext(self, v, n, m):
        if type(v) is int:
            return toi(v, n) & ((1 << m) - 1)
        if v is UNDEF or isinstance(v, Bytes):
            return UNDEF
        if n == 1:
            return z3.If(v, z3.BitVecVal((1 << m) - 1, m), z3.BitVecVal(0, m))
        return z3.SignExt(m - n, v)

    def trunc(self, v, n, m):
        if type(v) is int:
            return v & ((1 << m) - 1)
        if v is UNDEF:
            return UNDEF
        if isinstance(v, Bytes):
            k = m // 8
            if m % 8 == 0 and all(x is not UNDEF for x in v[:k]):
                if all(type(x) is int for x in v[:k]):
                    return sum(x << (8 * i) for i, x in enumerate(v[:k]))
                if k == 1:
                    return v[0]
                return simp(z3.Concat(*[bv(x, 8) for x in reversed(v[:k])]))
            return UNDEF
        if m == 1:
            ic = ite_const(v)
            if ic:
                c, x, y = ic
                x &= 1; y &= 1
                if x == y:
                    return x
                return c if x else norm_bool(z3.Not(c))
            return norm_bool(simp(xtr(0, 0, v) == 1))
        k = v.decl().kind()
        if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
            x = v.arg(0)
            if x.size() == m:
                return x
            if x.size() > m:
                return xtr(m - 1, 0, x)
            return z3.ZeroExt(m - x.size(), x) if k == z3.Z3_OP_ZERO_EXT else z3.SignExt(m - x.size(), x)
        return xtr(m - 1, 0, v)

    def icmp(self, pred, a, b, ty):
        if a is UNDEF or b is UNDEF or isinstance(a, Bytes) or isinstance(b, Bytes):
            return UNDEF
        n = 64 if ty.k == 'p' else ty.n
        if type(a) is int and type(b) is int:
            if pred[0] == 's':
                a, b = toi(a, n), toi(b, n)
                pred = pred[1:]
            elif pred[0] == 'u':
                pred = pred[1:]
            r = (a == b if pred == 'eq' else a != b if pred == 'ne' else a < b if pred == 'lt' else
                 a <= b if pred == 'le' else a > b if pred == 'gt' else a >= b)
            return int(r)
        if n == 1:
            A = as_bool(a); B = as_bool(b)
            if not isinstance(A, bool) or not isinstance(B, bool):
                A = z3.BoolVal(A) if isinstance(A, bool) else A
                B = z3.BoolVal(B) if isinstance(B, bool) else B
            e = A == B
            if pred == 'eq':
                return norm_bool(simp(e))
            if pred == 'ne':
                return norm_bool(simp(z3.Not(e)))
            raise Unsupported('ordered i1 compare')
        sa = type(a) is not int
        simple = (sa and has_ite_head(a)) or (type(b) is not int and has_ite_head(b))
        A, B = bv(a, n), bv(b, n)
        if pred == 'eq':
            r = A == B
        elif pred == 'ne':
            r = A != B
        elif pred == 'slt':
            r = A < B
        elif pred == 'sle':
            r = A <= B
        elif pred == 'sgt':
            r = A > B
        elif pred == 'sge':
            r = A >= B
        elif pred == 'ult':
            r = z3.ULT(A, B)
        elif pred == 'ule':
            r = z3.ULE(A, B)
        elif pred == 'ugt':
            r = z3.UGT(A, B)
        else:
            r = z3.UGE(A, B)
        if simple:
            r = simp(r)
        elif A.eq(B):
            r = simp(r)
        return norm_bool(r)

    def binop(self, I, a, b, n):
        """-> (value, [ (ubcond, message, defer) ])"""
        op = I.op
        if op[0] == 'f':
            return self.fbin(op, a, b, n), ()
        if a is UNDEF or b is UNDEF:
            if op in ('udiv', 'sdiv', 'urem', 'srem') and b is UNDEF:
                raise UB('division by uninitialised value')
            return UNDEF, ()
        if isinstance(a, Bytes):
            if op == 'lshr' and type(b) is int and b % 8 == 0:
                r = Bytes(list(a[b // 8:]) + [0] * (b // 8))
                return self.trunc(r, n, n) if all(x is not UNDEF for x in r) else r, ()
            return UNDEF, ()
        if isinstance(b, Bytes):
            return UNDEF, ()
        mask = (1 << n) - 1
        if n == 1:
            if type(a) is int and type(b) is int:
                return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a ^ b, 'sub': a ^ b, 'mul': a & b}[op], ()
            A = z3.BoolVal(bool(a)) if type(a) is int else a
            B = z3.BoolVal(bool(b)) if type(b) is int else b
            r = {'and': z3.And, 'mul': z3.And, 'or': z3.Or, 'xor': z3.Xor, 'add': z3.Xor, 'sub': z3.Xor}[op](A, B)
            return norm_bool(simp(r)), ()
        nsw = 'nsw' in I.flags
        nuw = 'nuw' in I.flags
        if type(a) is int and type(b) is int:
            sa, sb = toi(a, n), toi(b, n)
            if op == 'add':
                r, s, u = a + b, sa + sb, a + b
            elif op == 'sub':
                r, s, u = a - b, sa - sb, a - b
            elif op == 'mul':
                r, s, u = a * b, sa * sb, a * b
            elif op in ('udiv', 'urem'):
                if b == 0:
                    raise UB('division by zero')
                return (a // b if op == 'udiv' else a % b), ()
            elif op in ('sdiv', 'srem'):
                if b == 0:
                    raise UB('division by zero')
                q = abs(sa) // abs(sb)
                if (sa < 0) != (sb < 0):
                    q = -q
                if q == 1 << (n - 1):
                    raise UB('signed division overflow')
                return ((q if op == 'sdiv' else sa - q * sb) & mask), ()
            elif op == 'and':
                return a & b, ()
            elif op == 'or':
                return a | b, ()
            elif op == 'xor':
                return a ^ b, ()
            else:
                if b >= n:
                    raise UB('shift amount %d >= width %d' % (b, n))
                if op == 'shl':
                    r = a << b
                    if nsw and toi(r & mask, n) != sa << b:
                        raise UB('signed shift overflow')
                    return r & mask, ()
                if op == 'lshr':
                    return a >> b, ()
                return (sa >> b) & mask, ()
            if nsw and not -(1 << (n - 1)) <= s < 1 << (n - 1):
                raise UB('signed integer overflow in %s' % op)
            if nuw and not 0 <= u < 1 << n:
                raise UB('unsigned wrap in nuw %s' % op)
            return r & mask, ()
        A, B = bv(a, n), bv(b, n)
        if op == 'add':
            ub = []
            if nsw:
                ub.append((z3.SignExt(1, A) + z3.SignExt(1, B) != z3.SignExt(1, A + B), 'signed integer overflow in +', False))
            if nuw:
                ub.append((z3.Not(z3.BVAddNoOverflow(A, B, False)), 'unsigned wrap in nuw +', False))
            return A + B, ub
        if op == 'sub':
            ub = []
            if nsw:
                ub.append((z3.SignExt(1, A) - z3.SignExt(1, B) != z3.SignExt(1, A - B), 'signed integer overflow in -', False))
            if nuw:
                ub.append((z3.ULT(A, B), 'unsigned wrap in nuw -', False))
            return A - B, ub
        if op == 'mul':
            ub = []
            if nsw:
                ub.append((z3.SignExt(n, A) * z3.SignExt(n, B) != z3.SignExt(n, A * B), 'signed integer overflow in *',
                           n > 16))
            if nuw:
                ub.append((z3.ZeroExt(n, A) * z3.ZeroExt(n, B) != z3.ZeroExt(n, A * B), 'unsigned wrap in nuw *', n > 16))
            return A * B, ub
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            ub = [(B == 0, 'division by zero', False)] if type(b) is not int else []
            if type(b) is int and b == 0:
                raise UB('division by zero')
            if op[0] == 's':
                c = []
                if type(b) is not int:
                    c.append(B == mask)
                elif b != mask:
                    c = None
                if c is not None:
                    c.append(A == (1 << (n - 1)))
                    ub.append((z3.And(*c) if len(c) > 1 else c[0], 'signed division overflow', False))
            r = {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda x, y: x / y, 'srem': z3.SRem}[op](A, B)
            return r, ub
        if op == 'and':
            return A & B, ()
        if op == 'or':
            return A | B, ()
        if op == 'xor':
            return A ^ B, ()
        ub = ()
        if type(b) is int:
            if b >= n:
                raise UB('shift amount %d >= width %d' % (b, n))
        else:
            ub = [(z3.UGE(B, n), 'shift amount >= width', False)]
        if op == 'shl':
            r = A << B
            if nsw:
                ub = list(ub) + [((r >> B) != A, 'signed shift overflow', False)]
            return r, ub
        if op == 'lshr':
            return z3.LShR(A, B), ub
        return A >> B, ub

    # floats are carried as their bit pattern
    FS = {16: z3.FPSort(5, 11), 32: z3.Float32(), 64: z3.Float64()}

    def tofp(self, v, n):
        if n not in self.FS:
            raise Unsupported('fp type of %d bits' % n)
        return z3.fpBVToFP(bv(v, n), self.FS[n])

    def fbits(self, f):
        s = simp(z3.fpToIEEEBV(f))
        return s.as_long() if z3.is_bv_value(s) else z3.fpToIEEEBV(f)

    def fbin(self, op, a, b, n):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        x, y = self.tofp(a, n), self.tofp(b, n)
        rm = z3.RNE()
        r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}.get(op)
        if r is None:
            raise Unsupported(op)
        return self.fbits(r(rm, x, y))

    def fcmp(self, pred, a, b, n):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        x, y = self.tofp(a, n), self.tofp(b, n)
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        base = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}
        if pred in ('true', 'false'):
            return int(pred == 'true')
        if pred == 'ord':
            r = z3.Not(un)
        elif pred == 'uno':
            r = un
        elif pred[1:] == 'ne':
            r = z3.Not(z3.fpEQ(x, y))
            if pred[0] == 'o':
                r = z3.And(z3.Not(un), r)
        else:
            r = base[pred[1:]](x, y)
            if pred[0] == 'u':
                r = z3.Or(un, r)
        return norm_bool(simp(r))

    def fcast(self, op, v, t0, t1):
        """-> (value, ub list)"""
        if v is UNDEF:
            return UNDEF, ()
        rm = z3.RNE()
        if op in ('sitofp', 'uitofp'):
            x = bv(v, t0.n) if t0.n > 1 else z3.If(as_bool(v), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            f = (z3.fpSignedToFP if op == 'sitofp' else z3.fpUnsignedToFP)(rm, x, self.FS[t1.n])
            return self.fbits(f), ()
        if op in ('fpext', 'fptrunc'):
            return self.fbits(z3.fpToFP(rm, self.tofp(v, t0.n), self.FS[t1.n])), ()
        f = self.tofp(v, t0.n)
        n = t1.n
        # representable after truncation towards zero?
        g = z3.fpRoundToIntegral(z3.RTZ(), f)
        F64 = z3.Float64()
        g64 = z3.fpToFP(rm, g, F64) if t0.n != 64 else g
        if op == 'fptosi':
            lo, hi = -(2.0 ** (n - 1)), 2.0 ** (n - 1)
            r = z3.fpToSBV(z3.RTZ(), f, z3.BitVecSort(n))
        else:
            lo, hi = 0.0, 2.0 ** n
            r = z3.fpToUBV(z3.RTZ(), f, z3.BitVecSort(n))
        bad = z3.Not(z3.And(z3.fpGEQ(g64, z3.FPVal(lo, F64)), z3.fpLT(g64, z3.FPVal(hi, F64))))
        s = simp(r)
        if z3.is_bv_value(s):
            r = s.as_long()
        return r, [(simp(bad), 'float to integer conversion out of range', False)]

    # -------------------------------------------------------------- execution
    def run(self, name, args, st=None):
        f = self.mod.func(name)
        if f is None:
            raise Unsupported('no function ' + name)
        if st is None:
            st = self.initial_state()
        self._budget = self.stat['steps'] + self.max_steps
        self._paths0 = 0
        return self.exec_function(f, args, st)

    def exec_function(self, f, args, st):
        if self.depth > 120:
            return [Outcome('unsupported', None, st, 'call depth')]
        blocks = f.parsed()
        self.funcs_used[f.name] = self.funcs_used.get(f.name, 0) + 1
        regs = {}
        for (t, r), bvt, a in zip(f.params, f.byval, args):
            regs[r] = a
        base_pc = st.pc
        self.depth += 1
        try:
            outs = self._loop(f, blocks, regs, st)
        finally:
            self.depth -= 1
        if self.merge and len(outs) > 1:
            outs = self.merge_outcomes(outs, base_pc, f)
        elif len(outs) > 1:
            outs = self.merge_small(outs, base_pc, f)
        return outs

    def _loop(self, f, blocks, regs, st):
        outs = []
        work = [(blocks[f.entry], 0, f.entry, None, regs, st, [], {})]
        steps = 0
        while work:
            block, ip, bname, prev, regs, st, allocs, visits = work.pop()
            while True:
                I = block[ip]
                ip += 1
                self.stat['steps'] += 1
                op = I.op
                try:
                    if op == 'load':
                        a = I.a
                        if type(a) is Reg:
                            a = regs[a]
                        regs[I.res] = self.load(st, a, I.ty)
                        continue
                    if op == 'store':
                        v = I.a
                        if type(v) is Reg:
                            v = regs[v]
                        a = I.b
                        if type(a) is Reg:
                            a = regs[a]
                        self.store(st, a, I.ty, v)
                        continue
                    if op == 'alloca':
                        n = I.a
                        if type(n) is Reg:
                            n = regs[n]
                        if type(n) is not int:
                            raise Unsupported('symbolic alloca')
                        a = self.new_obj(st, I.ty.size * n, I.res)
                        allocs.append(a >> SHIFT)
                        regs[I.res] = a
                        continue
                    if op == 'gep':
                        a = I.a
                        if type(a) is Reg:
                            a = regs[a]
                        if a is UNDEF:
                            regs[I.res] = UNDEF
                            continue
                        a = self.add(a, I.b)
                        for n, v, stride in I.c:
                            v = regs[v] if type(v) is Reg else v
                            if v is UNDEF:
                                a = UNDEF
                                break
                            if type(v) is int:
                                a = self.add(a, toi(v, n) * stride)
                            else:
                                x = v if n == 64 else z3.SignExt(64 - n, v)
                                a = bv(a, 64) + x * stride
                        regs[I.res] = a
                        continue
                    if op == 'br':
                        prev, bname = bname, I.a
                        block = blocks[bname]
                        ip = 0
                        k = visits.get(bname, 0) + 1
                        visits[bname] = k
                        if k > self.max_visits:
                            raise Unsupported('loop bound exceeded in ' + f.name)
                        ip = self._phis(block, prev, regs)
                        continue
                    if op == 'call':
                        r = self._call(I, f, regs, st)
                        if len(r) == 1 and r[0].kind == 'ret' :
                            o = r[0]
                            st = o.st
                            if I.res is not None:
                                regs[I.res] = o.val
                            if I.c is not None:
                                prev, bname = bname, I.c
                                block = blocks[bname]
                                ip = self._phis(block, prev, regs)
                            continue
                        first = True
                        for o in r:
                            if o.kind == 'ret':
                                rg = dict(regs)
                                if I.res is not None:
                                    rg[I.res] = o.val
                                if I.c is not None:
                                    nb = blocks[I.c]
                                    work.append((nb, self._phis(nb, bname, rg), I.c, bname, rg, o.st, list(allocs), dict(visits)))
                                else:
                                    work.append((block, ip, bname, prev, rg, o.st, list(allocs), dict(visits)))
                            elif o.kind == 'throw' and I.d is not None:
                                rg = dict(regs)
                                nb = blocks[I.d]
                                o.st.exc = o.st.exc + (o.val,)
                                work.append((nb, self._phis(nb, bname, rg), I.d, bname, rg, o.st, list(allocs), dict(visits)))
                            else:
                                if o.kind == 'throw':
                                    self._kill(o.st, allocs)
                                outs.append(o)
                        if len(work) + len(outs) > self.max_paths:
                            return outs + [Outcome('unsupported', None, st, 'path limit in ' + f.name)]
                        break
                    if op == 'ret':
                        v = I.a
                        if type(v) is Reg:
                            v = regs[v]
                        self._kill(st, allocs)
                        outs.append(Outcome('ret', v, st))
                        break
                    if op == 'condbr':
                        c = I.a
                        if type(c) is Reg:
                            c = regs[c]
                        if c is UNDEF:
                            raise UB('branch on uninitialised value')
                        if type(c) is int:
                            prev, bname = bname, (I.b if c else I.c)
                            block = blocks[bname]
                            k = visits.get(bname, 0) + 1
                            visits[bname] = k
                            if k > self.max_visits:
                                raise Unsupported('loop bound exceeded in ' + f.name)
                            ip = self._phis(block, prev, regs)
                            continue
                        br = self.branch(st, c)
                        if len(br) == 1:
                            st = br[0][1]
                            prev, bname = bname, (I.b if br[0][0] else I.c)
                            block = blocks[bname]
                            k = visits.get(bname, 0) + 1
                            visits[bname] = k
                            if k > self.max_visits:
                                raise Unsupported('loop bound exceeded in ' + f.name)
                            ip = self._phis(block, prev, regs)
                            continue
                        for truth, s2 in br:
                            nbn = I.b if truth else I.c
                            nb = blocks[nbn]
                            rg = dict(regs)
                            vs = dict(visits)
                            k = vs.get(nbn, 0) + 1
                            vs[nbn] = k
                            if k > self.max_visits:
                                raise Unsupported('loop bound exceeded in ' + f.name)
                            work.append((nb, self._phis(nb, bname, rg), nbn, bname, rg, s2, list(allocs), vs))
                        if len(work) + len(outs) > self.max_paths:
                            return outs + [Outcome('unsupported', None, st, 'path limit in ' + f.name)]
                        break
                    if op == 'icmp':
                        a = I.a
                        if type(a) is Reg:
                            a = regs[a]
                        b = I.b
                        if type(b) is Reg:
                            b = regs[b]
                        regs[I.res] = self.icmp(I.c, a, b, I.ty)
                        continue
                    if op == 'sext' or op == 'zext' or op == 'trunc':
                        a = I.a
                        if type(a) is Reg:
                            a = regs[a]
                        regs[I.res] = getattr(self, op)(a, I.b.n, I.ty.n)
                        continue
                    if op == 'extractvalue':
                        a = regs[I.a] if type(I.a) is Reg else I.a
                        for k in I.b:
                            a = UNDEF if a is UNDEF else a[k]
                        regs[I.res] = a
                        continue
                    if op == 'insertvalue':
                        a = regs[I.a] if type(I.a) is Reg else I.a
                        if a is UNDEF:
                            a = self.mod.undef_of(I.ty)
                        b = regs[I.b] if type(I.b) is Reg else I.b
                        regs[I.res] = self._insert(a, b, I.c)
                        continue
                    if op == 'select':
                        c = regs[I.a] if type(I.a) is Reg else I.a
                        a = regs[I.b] if type(I.b) is Reg else I.b
                        b = regs[I.c] if type(I.c) is Reg else I.c
                        if c is UNDEF:
                            raise UB('select on uninitialised value')
                        if type(c) is int:
                            regs[I.res] = a if c else b
                            continue
                        r = self.ite(c, a, b, I.ty)
                        if r is None:
                            br = self.branch(st, c)
                            if len(br) == 1:
                                st = br[0][1]
                                regs[I.res] = a if br[0][0] else b
                                continue
                            for truth, s2 in br:
                                rg = dict(regs)
                                rg[I.res] = a if truth else b
                                work.append((block, ip, bname, prev, rg, s2, list(allocs), dict(visits)))
                            break
                        regs[I.res] = r
                        continue
                    if op == 'switch':
                        v = regs[I.a] if type(I.a) is Reg else I.a
                        if v is UNDEF or isinstance(v, Bytes):
                            raise UB('switch on uninitialised value')
                        if type(v) is not int:
                            s = simp(v) if has_ite_head(v) else v
                            if z3.is_bv_value(s):
                                v = s.as_long()
                        if type(v) is int:
                            t = I.b
                            for cv, l in I.c:
                                if cv == v:
                                    t = l
                                    break
                            prev, bname = bname, t
                            block = blocks[bname]
                            ip = self._phis(block, prev, regs)
                            continue
                        bylab = {}
                        for cv, l in I.c:
                            bylab.setdefault(l, []).append(v == cv)
                        rest = st
                        targets = []
                        for l, cs in bylab.items():
                            c = cs[0] if len(cs) == 1 else z3.Or(*cs)
                            c = norm_bool(simp(c))
                            nxt = None
                            for truth, s2 in self.branch(rest, c):
                                if truth:
                                    targets.append((l, s2))
                                else:
                                    nxt = s2
                            rest = nxt
                            if rest is None:
                                break
                        if rest is not None:
                            targets.append((I.b, rest))
                        for l, s2 in targets:
                            rg = dict(regs)
                            nb = blocks[l]
                            work.append((nb, self._phis(nb, bname, rg), l, bname, rg, s2, list(allocs), dict(visits)))
                        break
                    if op == 'unreachable':
                        raise UB('unreachable reached in ' + f.name)
                    if op == 'landingpad':
                        r = self._landingpad(I, st)
                        if r is None:       # no clause matches: keep unwinding
                            e = st.exc[-1]
                            st.exc = st.exc[:-1]
                            self._kill(st, allocs)
                            outs.append(Outcome('throw', e, st))
                            break
                        regs[I.res] = r
                        continue
                    if op == 'resume':
                        e = st.exc[-1] if st.exc else None
                        st.exc = st.exc[:-1]
                        self._kill(st, allocs)
                        outs.append(Outcome('throw', e, st))
                        break
                    if op in ('ptrtoint', 'inttoptr', 'bitcast'):
                        a = regs[I.a] if type(I.a) is Reg else I.a
                        if op == 'ptrtoint' and I.ty.n < 64:
                            a = self.trunc(a, 64, I.ty.n)
                        regs[I.res] = a
                        continue
                    if op == 'freeze':
                        a = regs[I.a] if type(I.a) is Reg else I.a
                        if a is UNDEF:
                            a = self.fresh_bv(I.ty.n, 'freeze')
                        regs[I.res] = a
                        continue
                    if op == 'fcmp':
                        a = regs[I.a] if type(I.a) is Reg else I.a
                        b = regs[I.b] if type(I.b) is Reg else I.b
                        regs[I.res] = self.fcmp(I.c, a, b, I.ty.n)
                        continue
                    if op == 'fneg':
                        a = regs[I.a] if type(I.a) is Reg else I.a
                        regs[I.res] = self.fbits(z3.fpNeg(self.tofp(a, I.ty.n)))
                        continue
                    if op == 'unsupported':
                        raise Unsupported(I.a)
                    # binary operators and fp casts
                    a = I.a
                    if type(a) is Reg:
                        a = regs[a]
                    if op in FPCASTS:
                        r, ub = self.fcast(op, a, I.b, I.ty)
                    else:
                        b = I.b
                        if type(b) is Reg:
                            b = regs[b]
                        if I.ty.k not in 'if':
                            raise Unsupported('vector op')
                        r, ub = self.binop(I, a, b, I.ty.n)
                    regs[I.res] = r
                    for cond, msg, defer in ub:
                        cond = norm_bool(cond) if not isinstance(cond, bool) else int(cond)
                        if type(cond) is int and not cond:
                            continue
                        if type(cond) is int:
                            raise UB(msg)
                        if defer:
                            s2 = st.fork()
                            s2.pc = st.pc + (cond,)
                            s2.model = None
                            st = st.fork()
                            outs.append(Outcome('ub', None, s2, msg + ' in ' + f.name))
                            continue
                        br = self.branch(st, cond)
                        st = None
                        for truth, s2 in br:
                            if truth:
                                outs.append(Outcome('ub', None, s2, msg + ' in ' + f.name))
                            else:
                                st = s2
                        if st is None:
                            break
                    if st is None:
                        break
                    continue
                except UB as e:
                    outs.append(Outcome('ub', None, st, '%s in %s' % (e, f.name)))
                    break
                except Unsupported as e:
                    outs.append(Outcome('unsupported', None, st, '%s in %s' % (e, f.name)))
                    break
                except Fork as e:
                    ip -= 1
                    for c in e.conds:
                        s2 = st.fork()
                        s2.pc = st.pc + (c,)
                        s2.model = None
                        ok, m = self.feasible(s2, z3.BoolVal(True))
                        if not ok:
                            continue
                        s2.model = m
                        # pin: re-execute the instruction with the address now implied
                        work.append((block, ip, bname, prev, dict(regs), s2, list(allocs), dict(visits)))
                    break
            if self.stat['steps'] > self._budget:
                return outs + [Outcome('unsupported', None, st or State(), 'step budget in ' + f.name)]
        return outs

    def _kill(self, st, allocs):
        for oid in allocs:
            st.mem.pop(oid, None)

    def _phis(self, block, prev, regs):
        k = 0
        if block[0].op != 'phi':
            return 0
        new = []
        while block[k].op == 'phi':
            I = block[k]
            v = I.a[prev] if prev in I.a else I.a['%entry' if '%entry' in I.a else next(iter(I.a))]
            if type(v) is Reg:
                v = regs[v]
            new.append((I.res, v))
            k += 1
        for r, v in new:
            regs[r] = v
        return k

    def _insert(self, a, b, idx):
        a = list(a)
        if len(idx) == 1:
            a[idx[0]] = b
        else:
            a[idx[0]] = self._insert(a[idx[0]], b, idx[1:])
        return a

    def ite(self, c, a, b, ty):
        """None if not expressible"""
        if type(a) is int and type(b) is int and a == b:
            return a
        if a is b:
            return a
        if ty.k in 'sa':
            els = ty.fields if ty.k == 's' else [ty.el] * ty.n
            out = []
            for x, y, t in zip(a, b, els):
                r = self.ite(c, x, y, t)
                if r is None:
                    return None
                out.append(r)
            return out
        if a is UNDEF or b is UNDEF or isinstance(a, Bytes) or isinstance(b, Bytes):
            return None
        if ty.k == 'i' and ty.n == 1:
            A = z3.BoolVal(bool(a)) if type(a) is int else a
            B = z3.BoolVal(bool(b)) if type(b) is int else b
            return norm_bool(simp(z3.If(c, A, B)))
        if ty.k == 'p' and type(a) is int and type(b) is int and not self.merge:
            return None         # keep pointers concrete: fork instead
        n = 64 if ty.k == 'p' else ty.n
        return z3.If(c, bv(a, n), bv(b, n))

    def fresh_bv(self, n, nm='fresh'):
        self.fresh += 1
        return z3.BitVec('%s!%d' % (nm, self.fresh), n)

    # -------------------------------------------------------------- exceptions
    def _landingpad(self, I, st):
        exc, ti = st.exc[-1]
        cleanup = False
        for k, v in I.a:
            if k == 'cleanup':
                cleanup = True
            elif k == 'catch':
                if v == 0 or self.catches(st, v, ti):
                    return [exc, v >> SHIFT if v else 1]
            elif k == 'filter':
                fl = v if isinstance(v, list) else []
                if not any(self.catches(st, x, ti) for x in fl):
                    return [exc, M64 & 0xffffffff]
        if cleanup:
            return [exc, 0]
        return None

    def catches(self, st, want, have):
        seen = set()
        work = [have]
        while work:
            t = work.pop()
            if t == want:
                return True
            if t in seen:
                continue
            seen.add(t)
            nm = self.mod.sym_at(t)
            if nm in KNOWN_BASES:
                work += [self.mod.addr(x) for x in KNOWN_BASES[nm]]
            elif nm and nm in self.mod.globals:
                ty, init, _ = self.mod.global_info(nm)
                if init is not None and len(init) >= 3:
                    vt = self.mod.sym_at(init[0] & ~OFFMASK)
                    if vt and '__si_class_type_info' in vt:
                        work.append(init[2])
                    elif vt and '__vmi_class_type_info' in vt:
                        work += [x for x in init[4::2] if isinstance(x, int)]
        return False

    # ------------------------------------------------------------------ calls
    def _handler(self, nm):
        """intercepting handler for a *defined* function"""
        if nm in self._icache:
            return self._icache[nm]
        h = self.intercept.get(nm) or INTERCEPT.get(nm)
        if h is None:
            for rx, hh in self.intercept_re + INTERCEPT_RE:
                if rx.search(nm):
                    h = hh
                    break
        self._icache[nm] = h
        return h

    def _call(self, I, f, regs, st):
        callee = I.a
        if type(callee) is Reg:
            callee = regs[callee]
        if type(callee) is not int:
            if callee is UNDEF:
                raise UB('call through uninitialised pointer')
            s = simp(callee)
            if not z3.is_bv_value(s):
                oid, o, off = self.sym_resolve(st, callee, 1)
                callee = oid << SHIFT
            else:
                callee = s.as_long()
        nm = self.mod.sym_at(callee)
        if nm is None:
            raise UB('call to a non-function')
        args = []
        for t, v, bvt in I.b:
            if type(v) is Reg:
                v = regs[v]
            if bvt is not None:
                c = self.new_obj(st, bvt.size, 'byval')
                self.memcpy(st, c, v, bvt.size)
                v = c
            args.append(v)
        h = self._handler(nm)
        if h is not None:
            return h(self, st, args, I)
        fn = self.mod.func(nm)
        if fn is not None:
            return self.exec_function(fn, args, st)
        h = self.externs.get(nm)
        if h is None:
            for rx, hh in self.extern_re:
                if rx.search(nm):
                    h = hh
                    break
        if h is None:
            raise Unsupported('external function ' + nm)
        return h(self, st, args, I)

    # ------------------------------------------------------------------ merge
    def merge_outcomes(self, outs, base_pc, f):
        rets = [o for o in outs if o.kind == 'ret']
        rest = [o for o in outs if o.kind != 'ret']
        if len(rets) < 2:
            return outs
        n = len(base_pc)
        acc = rets[0]
        extra = []
        accc = self._conj(acc.st.pc[n:])
        for o in rets[1:]:
            oc = self._conj(o.st.pc[n:])
            m = self._merge2(acc, accc, o, oc, f)
            if m is None:
                extra.append(o)
                continue
            acc = m
            accc = simp(z3.Or(accc, oc))
        if not extra and not rest:
            acc.st.pc = base_pc
        else:
            acc.st.pc = base_pc + (accc,)
        return rest + extra + [acc]

    def _conj(self, cs):
        if not cs:
            return z3.BoolVal(True)
        return cs[0] if len(cs) == 1 else z3.And(*cs)

    def _merge2(self, a, ac, b, bc, f):
        if a.st.events != b.st.events or a.st.exc != b.st.exc:
            return None
        if (a.val is UNDEF) != (b.val is UNDEF):
            return None
        v = None
        if f.ret.k != 'v':
            v = self._mval(bc, b.val, a.val, f.ret)
            if v is None:
                return None
        st = a.st.fork()
        st.nobj = max(a.st.nobj, b.st.nobj)
        st.model = a.st.model
        for oid in set(a.st.mem) | set(b.st.mem):
            x, y = a.st.mem.get(oid), b.st.mem.get(oid)
            if x is y:
                continue
            if x is None or y is None:
                g = self.gobjs.get(oid)
                if g is None:
                    st.mem[oid] = x or y
                    continue
                x, y = x or g, y or g
            if x.size != y.size:
                return None
            cells = {}
            xc, yc = x.cells, y.cells
            for off in set(xc) | set(yc):
                p, q = xc.get(off), yc.get(off)
                if p == q if not (p and q) else (p[0] == q[0] and (p[1] is q[1] or self._same(p[1], q[1]))):
                    cells[off] = p
            done = set(cells)
            todo = sorted((set(xc) | set(yc)) - done)
            for off in todo:
                p, q = xc.get(off), yc.get(off)
                sz = max(p[0] if p else 0, q[0] if q else 0)
                pv = self.load_raw(x, off, sz)
                qv = self.load_raw(y, off, sz)
                r = self._mcell(bc, qv, pv, sz)
                if r is None:
                    return None
                # overlapping cells of different shape: keep the widest
                cells[off] = (sz, r)
            # drop cells covered by an earlier wider cell
            end = -1
            for off in sorted(cells):
                if off < end:
                    if off + cells[off][0] > end:
                        return None
                    del cells[off]
                else:
                    end = off + cells[off][0]
            st.mem[oid] = Obj(x.size, cells, x.const, st, x.name)
        return Outcome('ret', v, st)

    def _same(self, p, q):
        if type(p) is int or type(q) is int:
            return type(p) is int and type(q) is int and p == q
        if isinstance(p, z3.ExprRef) and isinstance(q, z3.ExprRef):
            return p.eq(q)
        return p is q

    def _mcell(self, c, p, q, sz):
        if p is UNDEF or q is UNDEF:
            return p if p is q else None
        if isinstance(p, Bytes) or isinstance(q, Bytes):
            def by(v):
                if isinstance(v, Bytes):
                    return list(v)
                if type(v) is int:
                    return [(v >> (8 * j)) & 255 for j in range(sz)]
                return [z3.Extract(8 * j + 7, 8 * j, v) for j in range(sz)]
            P, Q = by(p), by(q)
            out = Bytes()
            for x, y in zip(P, Q):
                out.append(y if x is UNDEF else x if y is UNDEF else
                           x if type(x) is int and type(y) is int and x == y else z3.If(c, bv(x, 8), bv(y, 8)))
            if any(x is UNDEF for x in out):
                return out
            return join_bytes([(x, 1) for x in out])
        if type(p) is int and type(q) is int and p == q:
            return p
        return z3.If(c, bv(p, 8 * sz), bv(q, 8 * sz))

    def _mval(self, c, p, q, ty):
        if ty.k in 'sa':
            els = ty.fields if ty.k == 's' else [ty.el] * ty.n
            out = []
            for x, y, t in zip(p, q, els):
                r = self._mval(c, x, y, t)
                if r is None:
                    return None
                out.append(r)
            return out
        if p is UNDEF and q is UNDEF:
            return UNDEF
        if isinstance(p, Bytes) or isinstance(q, Bytes) or p is UNDEF or q is UNDEF:
            return self._mcell(c, p, q, ty.size)
        if type(p) is int and type(q) is int and p == q:
            return p
        if ty.k == 'i' and ty.n == 1:
            P = z3.BoolVal(bool(p)) if type(p) is int else p
            Q = z3.BoolVal(bool(q)) if type(q) is int else q
            return norm_bool(simp(z3.If(c, P, Q)))
        n = 64 if ty.k == 'p' else ty.n
        return z3.If(c, bv(p, n), bv(q, n))


FPCASTS = set('fptosi fptoui sitofp uitofp fpext fptrunc'.split())

KNOWN_BASES = {
    '_ZTISt12system_error': ['_ZTISt13runtime_error'],
    '_ZTISt13runtime_error': ['_ZTISt9exception'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
    '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
    '_ZTISt12domain_error': ['_ZTISt11logic_error'],
    '_ZTISt14overflow_error': ['_ZTISt13runtime_error'],
    '_ZTISt15underflow_error': ['_ZTISt13runtime_error'],
    '_ZTISt11range_error': ['_ZTISt13runtime_error'],
    '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt9exception': [],
    '_ZTINSt8ios_base7failureB5cxx11E': ['_ZTISt12system_error'],
}


# ---------------------------------------------------------------- environment
def ret(st, v=None):
    return [Outcome('ret', v, st)]


def e_nop(ex, st, a, I):
    return ret(st, 0 if I.ty.k in 'ip' else None)


def e_alloc_exc(ex, st, a, I):
    return ret(st, ex.new_obj(st, a[0], 'exception'))


def e_throw(ex, st, a, I):
    return [Outcome('throw', (a[0], a[1]), st)]


def e_rethrow(ex, st, a, I):
    caught = [e for e in st.events if e[0] == 'catch']
    return [Outcome('throw', caught[-1][1], st)]


def e_begin_catch(ex, st, a, I):
    e = st.exc[-1]
    st.exc = st.exc[:-1]
    st.events = st.events + (('catch', e),)
    return ret(st, a[0])


def e_memcpy(ex, st, a, I):
    ex.memcpy(st, a[0], a[1], a[2])
    return ret(st, a[0] if I.ty.k == 'p' else None)


def e_memset(ex, st, a, I):
    if type(a[2]) is not int:
        raise Unsupported('symbolic memset length')
    v = a[1]
    if type(v) is int:
        v &= 255
    elif v is not UNDEF and v.size() > 8:
        v = xtr(7, 0, v)
    for i in range(a[2]):
        oid, o, off = ex.resolve(st, ex.add(a[0], i), 1)
        ex.store_raw(st, oid, o, off, 1, v)
    return ret(st, a[0] if I.ty.k == 'p' else None)


def e_strlen(ex, st, a, I):
    n = 0
    while True:
        c = ex.load(st, ex.add(a[0], n), IntTy(8))
        if type(c) is not int:
            raise Unsupported('symbolic strlen')
        if c == 0:
            return ret(st, n)
        n += 1


def e_abort(ex, st, a, I):
    return [Outcome('abort', None, st, 'abort/terminate')]


def e_assert_fail(ex, st, a, I):
    return [Outcome('abort', None, st, 'assertion failed')]


def e_typeid(ex, st, a, I):
    return ret(st, a[0] >> SHIFT)


def e_new(ex, st, a, I):
    if type(a[0]) is not int:
        raise Unsupported('symbolic new')
    return ret(st, ex.new_obj(st, a[0], 'new'))


def e_minmax(ex, st, a, I):
    nm = I.line
    n = I.ty.n
    k = re.search(r'llvm\.([us])(min|max)', nm)
    x, y = a[0], a[1]
    if x is UNDEF or y is UNDEF:
        return ret(st, UNDEF)
    c = ex.icmp(('s' if k.group(1) == 's' else 'u') + ('lt' if k.group(2) == 'min' else 'gt'), x, y, I.ty)
    if type(c) is int:
        return ret(st, x if c else y)
    return ret(st, z3.If(c, bv(x, n), bv(y, n)))


def e_with_overflow(ex, st, a, I):
    k = re.search(r'llvm\.([us])(add|sub|mul)\.with\.overflow', I.line)
    n = I.ty.fields[0].n
    x, y = a
    if x is UNDEF or y is UNDEF:
        return ret(st, [UNDEF, UNDEF])
    sg = k.group(1) == 's'
    if type(x) is int and type(y) is int:
        X, Y = (toi(x, n), toi(y, n)) if sg else (x, y)
        r = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[k.group(2)]
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, (1 << n) - 1)
        return ret(st, [r & ((1 << n) - 1), int(not lo <= r <= hi)])
    X, Y = bv(x, n), bv(y, n)
    m = n if k.group(2) == 'mul' else 2
    ext = z3.SignExt if sg else z3.ZeroExt
    f = {'add': lambda p, q: p + q, 'sub': lambda p, q: p - q, 'mul': lambda p, q: p * q}[k.group(2)]
    r = f(X, Y)
    w = f(ext(m, X), ext(m, Y))
    o = w != (z3.SignExt(m, r) if sg else z3.ZeroExt(m, r))
    return ret(st, [r, norm_bool(simp(o)) if n < 64 else o])


def e_abs(ex, st, a, I):
    n = I.ty.n
    x = a[0]
    if x is UNDEF:
        return ret(st, UNDEF)
    if type(x) is int:
        return ret(st, abs(toi(x, n)) & ((1 << n) - 1))
    return ret(st, z3.If(x < 0, -x, x))


def e_bits(ex, st, a, I):
    k = re.search(r'llvm\.(ctlz|cttz|ctpop)', I.line).group(1)
    n = I.ty.n
    x = a[0]
    if x is UNDEF:
        return ret(st, UNDEF)
    zp = len(a) > 1 and a[1] == 1
    if type(x) is int:
        if k == 'ctpop':
            return ret(st, bin(x).count('1'))
        if x == 0:
            if zp:
                raise UB('clz/ctz of zero')
            return ret(st, n)
        return ret(st, n - x.bit_length() if k == 'ctlz' else (x & -x).bit_length() - 1)
    if k == 'ctpop':
        r = z3.BitVecVal(0, n)
        for i in range(n):
            r = r + z3.ZeroExt(n - 1, xtr(i, i, x))
        return ret(st, r)
    r = z3.BitVecVal(n, n)
    rng = range(n) if k == 'ctlz' else range(n - 1, -1, -1)
    for i in rng:
        r = z3.If(xtr(i, i, x) == 1, z3.BitVecVal(n - 1 - i if k == 'ctlz' else i, n), r)
    if zp:
        out = []
        for truth, s2 in ex.branch(st, x == 0):
            out.append(Outcome('ub', None, s2, 'clz/ctz of zero') if truth else Outcome('ret', r, s2))
        return out
    return ret(st, r)


def e_expect(ex, st, a, I):
    return ret(st, a[0])


def e_assume(ex, st, a, I):
    out = []
    for truth, s2 in ex.branch(st, a[0]):
        out.append(Outcome('ret', None, s2) if truth else Outcome('ub', None, s2, 'llvm.assume violated'))
    return out


def e_is_constant(ex, st, a, I):
    return ret(st, 0)


def e_guard_acquire(ex, st, a, I):
    v = ex.load(st, a[0], IntTy(8))
    return ret(st, 0 if type(v) is int and v == 1 else 1)


def e_guard_release(ex, st, a, I):
    ex.store(st, a[0], IntTy(8), 1)
    return ret(st)


def e_system_error_ctor(ex, st, a, I):
    # (this, error_code{i32, ptr}[, message])
    st.events = st.events + (('system_error', a[0], a[1], a[2]),)
    return ret(st)


def e_category(name):
    def h(ex, st, a, I):
        nm = 'ext.' + name
        return ret(st, ex.mod.addr(nm))
    return h


def e_string_ctor(ex, st, a, I):
    """std::string(const char *): the characters are not copied, the object refers to the (immutable) literal"""
    n = 0
    while True:
        c = ex.load(st, ex.add(a[1], n), IntTy(8))
        if type(c) is not int:
            raise Unsupported('std::string from symbolic characters')
        if c == 0:
            break
        n += 1
    ex.store(st, a[0], PTR, a[1])
    ex.store(st, ex.add(a[0], 8), IntTy(64), n)
    return ret(st)


def e_string_data(ex, st, a, I):
    return ret(st, ex.load(st, a[0], PTR))


def e_string_size(ex, st, a, I):
    return ret(st, ex.load(st, ex.add(a[0], 8), IntTy(64)))


def e_redirect(name):
    """run a function of the harness in place of a library function"""
    def h(ex, st, a, I):
        f = ex.mod.func(name)
        if f is None:
            raise Unsupported('no model ' + name)
        return ex.exec_function(f, list(a), st)
    return h


def e_pair(ex, st, a, I):
    return ret(st, [a[1], a[0]])


STR = '_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
EXTERNS = {
    STR + '4sizeEv': e_string_size, STR + '6lengthEv': e_string_size,
    STR + '4dataEv': e_string_data, STR + '5c_strEv': e_string_data,
    '_ZNKSt3_V214error_category10equivalentEiRKSt15error_condition': e_redirect('stub_equivalent_condition'),
    '_ZNKSt3_V214error_category10equivalentERKSt10error_codei': e_redirect('stub_equivalent_code'),
    '_ZNKSt3_V214error_category23default_error_conditionEi': e_pair,
    '__cxa_allocate_exception': e_alloc_exc,
    '__cxa_free_exception': e_nop,
    '__cxa_throw': e_throw,
    '__cxa_rethrow': e_rethrow,
    '__cxa_begin_catch': e_begin_catch,
    '__cxa_end_catch': e_nop,
    '__cxa_atexit': e_nop,
    '__cxa_guard_acquire': e_guard_acquire,
    '__cxa_guard_release': e_guard_release,
    'memcpy': e_memcpy, 'memmove': e_memcpy, 'memset': e_memset,
    'strlen': e_strlen,
    'abort': e_abort, '_ZSt9terminatev': e_abort, '__cxa_pure_virtual': e_abort,
    '__assert_fail': e_assert_fail,
    '__clang_call_terminate': e_abort,
    '_Znwm': e_new, '_ZdlPv': e_nop, '_ZdlPvm': e_nop,
    '_ZNSt8ios_base4InitC1Ev': e_nop, '_ZNSt8ios_base4InitD1Ev': e_nop,
    '_ZNSt3_V215system_categoryEv': e_category('system_category'),
    '_ZNSt3_V216generic_categoryEv': e_category('generic_category'),
}
EXTERN_RE = [
    (re.compile(r'^llvm\.(lifetime|dbg|experimental\.noalias|donothing|invariant|stackrestore)'), e_nop),
    (re.compile(r'^llvm\.mem(cpy|move)\.'), e_memcpy),
    (re.compile(r'^llvm\.memset\.'), e_memset),
    (re.compile(r'^llvm\.eh\.typeid\.for'), e_typeid),
    (re.compile(r'^llvm\.[us](min|max)\.'), e_minmax),
    (re.compile(r'^llvm\.[us](add|sub|mul)\.with\.overflow\.'), e_with_overflow),
    (re.compile(r'^llvm\.abs\.'), e_abs),
    (re.compile(r'^llvm\.(ctlz|cttz|ctpop)\.'), e_bits),
    (re.compile(r'^llvm\.expect\.'), e_expect),
    (re.compile(r'^llvm\.assume'), e_assume),
    (re.compile(r'^llvm\.is\.constant\.'), e_is_constant),
    (re.compile(r'^llvm\.trap'), e_abort),
    (re.compile(r'^_ZNSt12system_errorC[12]E'), e_system_error_ctor),
]
INTERCEPT = {'__clang_call_terminate': e_abort}
INTERCEPT_RE = [
    (re.compile(r'^_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC[12](I.*)?EPKcRKS3_$'), e_string_ctor),
    (re.compile(r'^_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEED[12]Ev$'), e_nop),
    (re.compile(r'^_ZN(SaIc|St15__new_allocatorIc)E?[CD][12]Ev$'), e_nop),
    (re.compile(r'^_ZNSt12system_errorC[12]ESt10error_code'), e_system_error_ctor),
    (re.compile(r'^_ZNSt12system_errorD[012]Ev'), e_nop),
    (re.compile(r'^_ZNSt3_V214error_categoryD[012]Ev'), e_nop),
]

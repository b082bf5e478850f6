"""Discharge `assumptions => goal` over bit-vectors: a portfolio of bit-blasting and
integer reasoning (bv2int), with cvc5 as last resort.  A `sat` answer is only given
with an assignment that has been evaluated against the bit-vector formula."""
import os
import subprocess
import tempfile
import time
import z3
import bv2int
import narrow
from wide import simp


class Stats(dict):
    def hit(self, k, t=0.0):
        self[k] = self.get(k, 0) + 1
        self['time'] = self.get('time', 0.0) + t


def consts(cs):
    seen, out, work = set(), {}, list(cs)
    while work:
        t = work.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[t.decl().name()] = t
        work += t.children()
    return out


def hard(cs):
    """does the formula hold a wide product/quotient of two symbolic terms?"""
    seen, work = set(), list(cs)
    while work:
        t = work.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        k = t.decl().kind()
        if k in HARD and t.size() > 10:
            nc = [c for c in t.children() if not z3.is_bv_value(c)]
            if len(nc) > 1 or k not in (z3.Z3_OP_BMUL,):
                return True
        work += t.children()
    return False


HARD = {z3.Z3_OP_BMUL, z3.Z3_OP_BSDIV, z3.Z3_OP_BUDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BUREM,
        z3.Z3_OP_BSDIV_I, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BSREM_I, z3.Z3_OP_BUREM_I}


def evaluate(cs, model):
    """all constraints true under {name: int}? (bools as 0/1)"""
    vs = consts(cs)
    sub = []
    for n, t in vs.items():
        v = model.get(n, 0)
        if z3.is_bool(t):
            sub.append((t, z3.BoolVal(bool(v))))
        else:
            sub.append((t, z3.BitVecVal(v, t.size())))
    for c in cs:
        r = simp(z3.substitute(c, *sub)) if sub else simp(c)
        if not z3.is_true(r):
            return False
    return True


def bv_solve(cs, ms):
    s = z3.Solver()
    s.set('timeout', ms)
    s.add(*cs)
    r = s.check()
    if r == z3.sat:
        m = s.model()
        out = {}
        for n, t in consts(cs).items():
            v = m.eval(t, model_completion=True)
            out[n] = int(z3.is_true(v)) if z3.is_bool(t) else v.as_long()
        return 'sat', out
    return ('unsat', None) if r == z3.unsat else ('unknown', None)


def int_solve(cs, ms):
    try:
        tr, ics = bv2int.translate(cs)
    except z3.Z3Exception:
        return 'unknown', None
    s = z3.Solver()
    s.set('timeout', ms)
    s.add(*ics)
    r = s.check()
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        m = s.model()
        out = {}
        for n, t in consts(cs).items():
            if z3.is_bool(t):
                out[n] = int(z3.is_true(m.eval(t, model_completion=True)))
            elif n in tr.vars:
                v, w = tr.vars[n]
                out[n] = m.eval(v, model_completion=True).as_long() & ((1 << w) - 1)
            else:
                out[n] = 0
        if evaluate(cs, out):
            return 'sat', out
    return 'unknown', None


def cvc5_solve(cs, ms, opts):
    vs = consts(cs)
    txt = ['(set-logic ALL)', '(set-option :produce-models true)']
    for n, t in vs.items():
        txt.append('(declare-const |%s| %s)' % (n, t.sort().sexpr()))
    for c in cs:
        txt.append('(assert %s)' % c.sexpr())
    txt.append('(check-sat)')
    s = '\n'.join(txt)
    if '_i ' in s and any(x in s for x in ('bvudiv_i', 'bvsdiv_i', 'bvurem_i', 'bvsrem_i')):
        s = s.replace('bvudiv_i', 'bvudiv').replace('bvsdiv_i', 'bvsdiv').replace('bvurem_i', 'bvurem').replace('bvsrem_i', 'bvsrem')
    fd, fn = tempfile.mkstemp(suffix='.smt2')
    try:
        os.write(fd, s.encode())
        os.close(fd)
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % ms] + opts + [fn], capture_output=True, text=True,
                               timeout=ms / 1000 + 5)
        except subprocess.TimeoutExpired:
            return 'unknown', None
        if '(error' in p.stdout + p.stderr:
            return 'unknown', None
        if p.stdout.strip() == 'unsat':
            return 'unsat', None
        return 'unknown', None      # sat without a model is not used
    finally:
        os.unlink(fn)


QUICK = [('nbv', 500), ('int', 2000), ('nint', 2000), ('nbv', 5000), ('int', 10000), ('nint', 10000), ('cvc5-int', 12000),
         ('cvc5-bv', 12000)]
DEEP = [('nbv', 500), ('int', 3000), ('nint', 3000), ('nbv', 10000), ('int', 30000), ('nint', 30000), ('nbv', 60000),
        ('cvc5-int', 60000), ('cvc5-bv', 60000), ('int', 120000)]


def check(cs, plan=QUICK, stats=None):
    """-> ('unsat'|'sat'|'unknown', model)"""
    cs = [c for c in cs if not z3.is_true(c)]
    if any(z3.is_false(c) for c in cs):
        return 'unsat', None
    if not cs:
        return 'sat', {}
    try:
        ns = [c for c in narrow.narrow(cs) if not z3.is_true(c)]
    except z3.Z3Exception:
        ns = cs
    if any(z3.is_false(c) for c in ns):
        if stats is not None:
            stats.hit('narrow:unsat')
        return 'unsat', None
    h = hard(ns)
    for kind, ms in plan:
        if not h and 'int' in kind:
            continue
        if h and kind == 'nbv' and ms <= 500:
            continue                # integer reasoning first on hard kernels
        t = time.time()
        q = ns if kind[0] == 'n' else cs
        if kind in ('bv', 'nbv'):
            r = bv_solve(q, ms)
        elif kind in ('int', 'nint'):
            r = int_solve(q, ms)
        elif kind == 'cvc5-int':
            r = cvc5_solve(q, ms, ['--solve-bv-as-int=sum'])
        else:
            r = cvc5_solve(ns, ms, [])
        dt = time.time() - t
        if stats is not None:
            stats.hit(kind + ':' + r[0], dt)
        if r[0] == 'sat' and q is ns and not evaluate(cs, r[1]):
            r = 'unknown', None
        if r[0] != 'unknown':
            return r
    return 'unknown', None


def prove(pc, goal, plan=QUICK, stats=None):
    """-> ('proved'|'refuted'|'unknown', model)"""
    g = simp(goal)
    if z3.is_true(g):
        if stats is not None:
            stats.hit('trivial')
        return 'proved', None
    if z3.is_and(goal):
        # split conjunctions: smaller queries, and the integer translation likes them
        for c in goal.children():
            r = prove(pc, c, plan, stats)
            if r[0] != 'proved':
                return r
        return 'proved', None
    r, m = check(list(pc) + [z3.Not(goal)], plan, stats)
    return {'unsat': 'proved', 'sat': 'refuted', 'unknown': 'unknown'}[r], m

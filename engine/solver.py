"""Solver layer: z3 queries over terms, equivalence sweeping, GF(2) normal forms, CNF export to kissat."""
import math
import os
import random
import subprocess
import sys
import tempfile
import time

import z3

import terms as T
from terms import Term, mask


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.cache_hits = 0
        self.model_hits = 0
        self.lemmas = 0
        self.anf = 0
        self.lia = 0
        self.structural = 0

    def as_dict(self):
        return {k: (round(v, 3) if isinstance(v, float) else v) for k, v in self.__dict__.items()}


stats = Stats()
DEADLINE = [None]


def time_left():
    return 1e9 if DEADLINE[0] is None else DEADLINE[0] - time.time()


# ---------------------------------------------------------------- translation
def _bv(x, w):
    return z3.BitVecVal(x, w)


def _b2bv(b):
    return z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))


class Z:
    """term -> z3 translator with an optional cut (term id -> fresh constant)"""

    def __init__(self, cut=None):
        self.cut = cut or {}
        self.memo = {}
        self.bmemo = {}
        self.ufs = {}
        self.keep = []

    def bv(self, t, w=None):
        if type(t) is int:
            return z3.BitVecVal(t, w)
        r = self.memo.get(t.id)
        if r is not None:
            return r
        self._build(t)
        return self.memo[t.id]

    def boolean(self, t):
        """width-1 term as z3 Bool"""
        if type(t) is int:
            return z3.BoolVal(bool(t))
        r = self.bmemo.get(t.id)
        if r is None:
            v = self.bv(t)
            r = self.bmemo.get(t.id)
            if r is None:
                r = v == z3.BitVecVal(1, 1)
                self.bmemo[t.id] = r
        return r

    def _build(self, root):
        stack = [root]
        memo = self.memo
        while stack:
            t = stack[-1]
            if t.id in memo:
                stack.pop()
                continue
            if t.id in self.cut:
                memo[t.id] = z3.BitVec("cut!%d" % t.id, t.w)
                self.keep.append(t)
                stack.pop()
                continue
            pend = [a for a in t.args if type(a) is not int and a.id not in memo]
            if pend:
                stack.extend(pend)
                continue
            stack.pop()
            memo[t.id] = self._one(t)
            self.keep.append(t)

    def _one(self, t):
        op = t.op
        w = t.w
        m = self.memo
        if op == "var":
            return z3.BitVec(t.aux, w)

        def A(i, ww=None):
            a = t.args[i]
            return z3.BitVecVal(a, ww if ww is not None else w) if type(a) is int else m[a.id]

        if op == "add":
            r = None
            M = 1 << w
            for i, c in enumerate(t.aux[:-1]):
                a = A(i)
                if c == 1:
                    x = a
                elif c == M - 1:
                    if r is not None:
                        r = r - a
                        continue
                    x = -a
                else:
                    x = a * z3.BitVecVal(c, w)
                r = x if r is None else r + x
            if t.aux[-1]:
                r = r + z3.BitVecVal(t.aux[-1], w)
            return r
        if op == "concat":
            return z3.Concat(*[A(i, aw) for i, aw in enumerate(t.aux)])
        if op == "extract":
            return z3.Extract(t.aux[0], t.aux[1], A(0))
        if op in ("xor", "and", "or"):
            if w == 1 and op != "xor":
                bs = [self.boolean(a) for a in t.args]
                b = z3.And(*bs) if op == "and" else z3.Or(*bs)
                self.bmemo[t.id] = b
                return _b2bv(b)
            r = A(0)
            for i in range(1, len(t.args)):
                r = (r ^ A(i)) if op == "xor" else ((r & A(i)) if op == "and" else (r | A(i)))
            return r
        if op == "not":
            b = z3.Not(self.boolean(t.args[0]))
            self.bmemo[t.id] = b
            return _b2bv(b)
        if op == "ite":
            return z3.If(self.boolean(t.args[0]), A(1), A(2))
        if op in ("eq", "ult", "ule", "slt", "sle"):
            a, b = A(0, t.aux), A(1, t.aux)
            x = {"eq": lambda: a == b, "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b), "slt": lambda: a < b, "sle": lambda: a <= b}[op]()
            self.bmemo[t.id] = x
            return _b2bv(x)
        if op == "mul":
            return A(0) * A(1)
        if op == "sext":
            return z3.SignExt(w - t.aux, A(0))
        if op == "shl":
            return A(0) << A(1)
        if op == "lshr":
            return z3.LShR(A(0), A(1))
        if op == "ashr":
            return A(0) >> A(1)
        if op == "udiv":
            return z3.UDiv(A(0), A(1))
        if op == "urem":
            return z3.URem(A(0), A(1))
        if op == "sdiv":
            return A(0) / A(1)
        if op == "srem":
            return z3.SRem(A(0), A(1))
        if op == "tbl":
            vals = T.table(t.aux)
            iw = t.args[0].w
            return self._mux(m[t.args[0].id], iw, vals, w)
        if op == "clmul":
            aw = t.aux
            a = z3.ZeroExt(aw, A(0, aw))
            b = A(1, aw)
            r = z3.BitVecVal(0, w)
            for i in range(aw):
                r = r ^ z3.If(z3.Extract(i, i, b) == 1, a << i, z3.BitVecVal(0, w))
            return r
        if op == "ctpop":
            a = A(0)
            r = z3.BitVecVal(0, w)
            for i in range(t.args[0].w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, a))
            return r
        if op == "uf":
            name, widths = t.aux
            f = z3.Function(name + "!uf", *[z3.BitVecSort(x) for x in widths], z3.BitVecSort(w))
            return f(*[A(i, x) for i, x in enumerate(widths)])
        raise NotImplementedError(op)

    def _mux(self, idx, iw, vals, w):
        n = len(vals)
        bits = max(1, (n - 1).bit_length())
        full = list(vals) + [vals[0]] * ((1 << bits) - n)
        lvl = [z3.BitVecVal(v, w) for v in full]
        raw = full
        for b in range(min(bits, iw)):
            c = z3.Extract(b, b, idx) == 1
            nl = []
            nr = []
            for i in range(0, len(lvl), 2):
                if raw[i] is not None and raw[i] == raw[i + 1]:
                    nl.append(lvl[i])
                    nr.append(raw[i])
                else:
                    nl.append(z3.If(c, lvl[i + 1], lvl[i]))
                    nr.append(None)
            lvl, raw = nl, nr
        r = lvl[0]
        if iw > bits:
            r = z3.If(z3.Extract(iw - 1, bits, idx) == 0, r, z3.BitVecVal(vals[0], w))
        return r


# ---------------------------------------------------------------- satisfiability
_vars_memo = {}


def vars_of(t):
    r = _vars_memo.get(t.id)
    if r is None:
        r = frozenset(x.aux for x in T.topo([t]) if x.op == "var")
        _vars_memo[t.id] = r
    return r


def slice_pc(pc, goal_vars):
    """constraints transitively sharing variables with goal_vars"""
    rest = list(pc)
    vs = set(goal_vars)
    out = []
    changed = True
    while changed and rest:
        changed = False
        nr = []
        for c in rest:
            v = vars_of(c)
            if v & vs:
                out.append(c)
                if not v <= vs:
                    vs |= v
                changed = True
            else:
                nr.append(c)
        rest = nr
    return out


_cache = {}
_models = []


def reset():
    _cache.clear()
    _models.clear()
    _vars_memo.clear()
    _hard.clear()
    _anf_objs.clear()
    _lift_ctx[0] = None


def check_sat(constraints, timeout=20.0, use_cache=True):
    """constraints: list of 1-bit values.  returns ('sat', env) | ('unsat', None) | ('unknown', None)"""
    cs = []
    for c in constraints:
        if type(c) is int:
            if not c:
                return ("unsat", None)
            continue
        cs.append(c)
    if not cs:
        return ("sat", {})
    key = frozenset(c.id for c in cs)
    if use_cache:
        r = _cache.get(key)
        if r is not None:
            stats.cache_hits += 1
            return r
        for env in reversed(_models[-6:]):
            try:
                cache = {}
                if all(T.eval_terms([c], env, cache)[0] for c in cs):
                    stats.model_hits += 1
                    return ("sat", env)
            except NotImplementedError:
                pass
    t0 = time.time()
    z = Z()
    s = z3.SolverFor("QF_UFBV") if any_uf(cs) else z3.SolverFor("QF_BV")
    timeout = max(0.05, min(timeout, time_left()))
    s.set("timeout", int(timeout * 1000))
    for c in cs:
        s.add(z.boolean(c))
    r = s.check()
    stats.queries += 1
    stats.time += time.time() - t0
    if r == z3.unsat:
        stats.unsat += 1
        res = ("unsat", None)
    elif r == z3.sat:
        stats.sat += 1
        m = s.model()
        env = {}
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                if z3.is_bv_value(v):
                    env[d.name()] = v.as_long()
        uf_values(m, z, cs, env)
        res = ("sat", env)
        _models.append(env)
        if len(_models) > 200:
            del _models[:100]
    else:
        stats.unknown += 1
        return ("unknown", None)
    _cache[key] = res
    return res


def uf_values(m, z, roots, env):
    """record the solver's interpretation of the uninterpreted functions at the argument values that occur"""
    for t in T.topo([r for r in roots if type(r) is not int]):
        if t.op != "uf" or t.id not in z.memo:
            continue
        av = []
        for a, aw in zip(t.args, t.aux[1]):
            if type(a) is not int:
                a = m.eval(z.bv(a), model_completion=True).as_long()
            av.append(a)
        env.setdefault("!uf", {})[(t.aux[0], tuple(av))] = m.eval(z.bv(t), model_completion=True).as_long()


def any_uf(cs):
    return any(t.op == "uf" for t in T.topo(cs))


def full_model(pc, extra, timeout=30.0):
    """model of the complete path condition plus extra"""
    return check_sat(list(pc) + list(extra), timeout)


_hard = {}


def hard(t):
    """a product of two unknowns, carry-less or not, or a long chain of arithmetic lies below"""
    r = _hard.get(t.id)
    if r is None:
        r = False
        n = 0
        for x in T.topo([t]):
            if x.op == "add":
                n += 1
            if x.op == "clmul" or n > 40 or (x.op == "mul" and sum(type(a) is not int for a in x.args) > 1):
                r = True
                break
        _hard[t.id] = r
    return r


def feasible(pc, cond, timeout=10.0):
    """may cond hold under pc?  returns True/False/None(unknown -> treat as True)"""
    if type(cond) is int:
        return bool(cond)
    rel = slice_pc(pc, vars_of(cond))
    if hard(cond):
        # products in the condition: assignments are tried first, and an undecided branch counts as feasible
        rnd = random.Random(cond.id)
        vs = T.free_vars(rel + [cond])
        for i in range(40):
            env = {v.aux: rnd.getrandbits(v.w) if i % 2 else random_value(rnd, v.w) for v in vs}
            try:
                if all(T.eval_terms(rel + [cond], env)):
                    stats.model_hits += 1
                    return True
            except NotImplementedError:
                break
        timeout = min(timeout, 0.5)
    r, _ = check_sat(rel + [cond], timeout)
    if r == "unknown":
        return None
    return r == "sat"


# ---------------------------------------------------------------- random environments
def random_value(rnd, w):
    k = rnd.random()
    if k < 0.55:
        return rnd.getrandbits(w)
    if k < 0.65:
        return 0
    if k < 0.75:
        return mask(w)
    if k < 0.85:
        return 1 << rnd.randrange(w)
    if k < 0.95:
        return mask(rnd.randrange(w) + 1)
    return (mask(w) ^ mask(rnd.randrange(w))) & mask(w)


def sample_envs(vars_, pc, n, rnd, biased=True):
    """random assignments satisfying pc"""
    out = []
    pcv = set()
    for c in pc:
        pcv |= vars_of(c)
    base = [{}]
    if pc:
        r, env = check_sat(list(pc), 20)
        if r == "unsat":
            return None
        if r == "sat":
            base = [env]
    tries = 0
    while len(out) < n and tries < 6 * n:
        tries += 1
        env = {"!uf": base[0]["!uf"]} if "!uf" in base[0] else {}
        style = rnd.randrange(4) if biased else 0
        for v in vars_:
            if v.aux in pcv:
                continue
            env[v.aux] = rnd.getrandbits(v.w) if style < 2 else random_value(rnd, v.w)
        if pcv:
            # try randomising pc vars too, fall back to the solver's model
            ok = False
            for k in range(6):
                e2 = dict(env)
                for v in vars_:
                    if v.aux in pcv:
                        if k < 2:
                            e2[v.aux] = rnd.getrandbits(v.w) if rnd.random() < .6 else base[0].get(v.aux, 0)
                        else:
                            e2[v.aux] = rnd.getrandbits(rnd.randrange(v.w) + 1) if rnd.random() < .8 else base[0].get(v.aux, 0)
                if all(T.eval_terms(list(pc), e2)):
                    env = e2
                    ok = True
                    break
            if not ok:
                for v in vars_:
                    if v.aux in pcv:
                        env[v.aux] = base[0].get(v.aux, 0)
                if not all(T.eval_terms(list(pc), env)):
                    continue
        out.append(env)
    return out


# ---------------------------------------------------------------- ANF (GF(2) polynomials)
def bitmul(t):
    """constant + constant * bit"""
    return len(t.args) == 1 and len(t.aux) == 2 and T.rng(t.args[0])[1] <= 1


class AnfTooBig(Exception):
    pass


class Anf:
    """bits as GF(2) polynomials: frozenset/ set of monomials; a monomial is a frozenset of var ids, encoded as int bitmask"""

    def __init__(self, cut, limit=60000):
        self.cut = cut
        self.memo = {}
        self.vix = {}
        self.limit = limit
        self.work = 0

    def varbits(self, t):
        out = []
        for i in range(t.w):
            k = (t.id, i)
            ix = self.vix.get(k)
            if ix is None:
                ix = self.vix[k] = len(self.vix)
            out.append(frozenset((frozenset((ix,)),)))
        return out

    ZERO = frozenset()
    ONE = frozenset((frozenset(),))

    def AND(self, p, q):
        if not p or not q:
            return self.ZERO
        if p == self.ONE:
            return q
        if q == self.ONE:
            return p
        if p == q:
            return p
        self.work += len(p) * len(q)
        if len(p) * len(q) > self.limit or self.work > 6_000_000:
            raise AnfTooBig
        r = set()
        for a in p:
            for b in q:
                m = a | b
                if m in r:
                    r.remove(m)
                else:
                    r.add(m)
        return frozenset(r)

    def XOR(self, p, q):
        self.work += len(q)
        if self.work > 6_000_000:
            raise AnfTooBig
        return p ^ q

    def bits(self, t, w=None):
        """list lsb first"""
        if type(t) is int:
            return [self.ONE if (t >> i) & 1 else self.ZERO for i in range(w)]
        for x in self._order(t):
            if x.id not in self.memo:
                self.memo[x.id] = self._one(x)
        return self.memo[t.id]

    def _order(self, root):
        seen = set()
        out = []
        stack = [(root, 0)]
        seen.add(root.id)
        while stack:
            t, i = stack.pop()
            if t.id in self.memo:
                continue
            if t.id not in self.cut and i < len(t.args):
                stack.append((t, i + 1))
                a = t.args[i]
                if type(a) is not int and a.id not in seen:
                    seen.add(a.id)
                    stack.append((a, 0))
            else:
                out.append(t)
        return out

    def _b(self, a, w):
        if type(a) is int:
            return [self.ONE if (a >> i) & 1 else self.ZERO for i in range(w)]
        return self.memo[a.id]

    def _one(self, t):
        op = t.op
        w = t.w
        if t.id in self.cut or op in ("var", "uf"):
            return self.varbits(t)
        if op == "concat":
            out = []
            for a, aw in reversed(list(zip(t.args, t.aux))):
                out.extend(self._b(a, aw))
            return out
        if op == "extract":
            return self._b(t.args[0], None)[t.aux[1]:t.aux[0] + 1]
        if op == "xor":
            r = self._b(t.args[0], w)
            for a in t.args[1:]:
                b = self._b(a, w)
                r = [self.XOR(x, y) for x, y in zip(r, b)]
            return r
        if op == "and":
            r = self._b(t.args[0], w)
            for a in t.args[1:]:
                b = self._b(a, w)
                r = [self.AND(x, y) for x, y in zip(r, b)]
            return r
        if op == "or":
            r = self._b(t.args[0], w)
            for a in t.args[1:]:
                b = self._b(a, w)
                r = [self.XOR(self.XOR(x, y), self.AND(x, y)) for x, y in zip(r, b)]
            return r
        if op == "not":
            return [self.XOR(self._b(t.args[0], 1)[0], self.ONE)]
        if op == "ite":
            c = self._b(t.args[0], 1)[0]
            a = self._b(t.args[1], w)
            b = self._b(t.args[2], w)
            return [self.XOR(y, self.AND(c, self.XOR(x, y))) for x, y in zip(a, b)]
        if op == "clmul":
            aw = t.aux
            a = self._b(t.args[0], aw)
            b = self._b(t.args[1], aw)
            out = []
            acc = [set() for _ in range(w)]
            for i in range(aw):
                for j in range(aw):
                    if a[i] and b[j]:
                        acc[i + j] ^= self.AND(a[i], b[j])
            return [frozenset(x) for x in acc]
        if op == "sext":
            r = list(self._b(t.args[0], t.aux))
            return r + [r[-1]] * (w - t.aux)
        if op == "add" and bitmul(t):
            c, k = t.aux
            x = self._b(t.args[0], w)[0]
            return [self.XOR(self.ONE if k >> i & 1 else self.ZERO, x if (c + k ^ k) >> i & 1 else self.ZERO) for i in range(w)]
        if op == "eq" and t.aux <= 8:
            a = self._b(t.args[0], t.aux)
            b = self._b(t.args[1], t.aux)
            r = self.ONE
            for x, y in zip(a, b):
                r = self.AND(r, self.XOR(self.XOR(x, y), self.ONE))
            return [r]
        if op == "tbl":
            vals = T.table(t.aux)
            iw = t.args[0].w
            n = 1 << iw
            if iw > 8:
                raise AnfTooBig
            x = self._b(t.args[0], iw)
            out = []
            for bit in range(w):
                # Moebius transform of the truth table
                f = [((vals[i] if i < len(vals) else vals[0]) >> bit) & 1 for i in range(n)]
                for k in range(iw):
                    for i in range(n):
                        if i >> k & 1:
                            f[i] ^= f[i ^ (1 << k)]
                r = self.ZERO
                for i in range(n):
                    if f[i]:
                        m = self.ONE
                        for k in range(iw):
                            if i >> k & 1:
                                m = self.AND(m, x[k])
                        r = self.XOR(r, m)
                out.append(r)
            return out
        raise AnfTooBig(t.op)


def below(t, op):
    while t.op in ("extract", "not"):
        t = t.args[0]
    return t.op == op


def lower_cut(cut, ops, mul=False):
    ops = frozenset(ops)
    """the cut moved down through these operators (and, with mul, below the carry-less products it contains)"""
    out, seen, st = {}, set(), [(t, ops) for t in cut.values()]
    while st:
        t, o = st.pop()
        if type(t) is int or (t.id, o) in seen:
            continue
        seen.add((t.id, o))
        if t.op in o:
            st.extend((x, o) for x in t.args)
        elif mul and t.op == "clmul" and o is ops:
            st.extend((x, LINEAR2) for x in t.args)
        elif t.op != "var":
            out[t.id] = t
    return out


_anf_objs = {}


def anf_equal(a, b, w, cut):
    key = frozenset(cut)
    A = _anf_objs.pop(key, None) or Anf(cut)
    if len(_anf_objs) >= 6:
        del _anf_objs[next(iter(_anf_objs))]
    A.work = 0
    try:
        r = A.bits(a, w) == A.bits(b, w)
        _anf_objs[key] = A
        stats.anf += 1
        return True if r else False
    except (AnfTooBig, RecursionError):
        return None


LINEAR2 = ("xor", "concat", "extract", "not", "sext")
LINEAR = {"xor", "concat", "extract", "not", "sext"}


_affine = {}


def affine(t):
    """for a table lookup: (constant, value of each index bit) when the table is affine over GF(2)"""
    k = (t.aux, t.args[0].w)
    r = _affine.get(k, 0)
    if r == 0:
        vals = T.table(t.aux)
        iw = t.args[0].w
        r = None
        if len(vals) == 1 << iw:
            basis = [vals[1 << i] ^ vals[0] for i in range(iw)]
            r = (vals[0], basis)
            for i, v in enumerate(vals):
                x = vals[0]
                for j in range(iw):
                    if i >> j & 1:
                        x ^= basis[j]
                if x != v:
                    r = None
                    break
        _affine[k] = r
    return r


_moebius = {}


def moebius(name, iw, const):
    """algebraic normal form of table[x ^ const]: value bits per monomial of x"""
    k = (name, iw, const)
    r = _moebius.get(k)
    if r is None:
        vals = T.table(name)
        n = 1 << iw
        f = [vals[(i ^ const)] if (i ^ const) < len(vals) else vals[0] for i in range(n)]
        for b in range(iw):
            for i in range(n):
                if i >> b & 1:
                    f[i] ^= f[i ^ (1 << b)]
        r = _moebius[k] = f
    return r


class TooBig(Exception):
    pass


class Lin:
    """terms as GF(2)-linear forms (bit masks; bit 0 is the constant) over the bits of their non-linear sub-terms;
    a table lookup is a linear form over the monomials of its index"""

    def __init__(self, limit=4000):
        self.limit = limit
        self.seen = 0
        self.memo = ({}, {})
        self.idx = {}
        self.n = 1
        self.mono = {}

    def const_form(self, t):
        """a choice between two constants, or a mask"""
        if t.op == "ite":
            return type(t.args[1]) is int and type(t.args[2]) is int
        if t.op == "add":
            return bitmul(t)
        return t.op == "and" and len(t.args) == 2 and (type(t.args[0]) is int or type(t.args[1]) is int)

    def small_tbl(self, t):
        return t.op == "tbl" and t.args[0].w <= 8 and len(T.table(t.aux)) == 1 << t.args[0].w

    def is_lin(self, t, lvl=0):
        if type(t) is int or t.op in LINEAR or t.op in ("ite", "and", "add") and self.const_form(t):
            return True
        if t.op != "tbl":
            return False
        if affine(t) is not None:
            return True
        return lvl == 0 and self.small_tbl(t)

    def _order(self, root, lvl):
        memo = self.memo[lvl]
        out, seen, st = [], set(), [(root, 0)]
        while st:
            t, i = st.pop()
            if t.id in memo:
                continue
            if i == 0:
                if t.id in seen:
                    continue
                seen.add(t.id)
                self.seen += 1
                if self.seen > self.limit:
                    raise TooBig
            if (t.op in LINEAR or self.const_form(t) or t.op == "tbl" and affine(t) is not None) and i < len(t.args):
                st.append((t, i + 1))
                x = t.args[i]
                if type(x) is not int and x.id not in seen:
                    st.append((x, 0))
            else:
                out.append(t)
        return out

    def _b(self, x, wx, lvl):
        if type(x) is int:
            return [(x >> i) & 1 for i in range(wx)]
        return self.memo[lvl][x.id]

    def bits(self, root, w, lvl=0):
        if type(root) is int:
            return self._b(root, w, lvl)
        for t in self._order(root, lvl):
            if t.id not in self.memo[lvl]:
                self.memo[lvl][t.id] = self._one(t, lvl)
        return self.memo[lvl][root.id]

    def _one(self, t, lvl):
        op = t.op
        if op == "concat":
            r = []
            for x, xw in reversed(list(zip(t.args, t.aux))):
                r.extend(self._b(x, xw, lvl))
            return r
        if op == "extract":
            return self._b(t.args[0], None, lvl)[t.aux[1]:t.aux[0] + 1]
        if op == "xor":
            r = self._b(t.args[0], t.w, lvl)
            for x in t.args[1:]:
                r = [p ^ q for p, q in zip(r, self._b(x, t.w, lvl))]
            return r
        if op == "not":
            return [self._b(t.args[0], 1, lvl)[0] ^ 1]
        if op in ("ite", "and", "add") and self.const_form(t):
            if op == "add":
                c, k = t.aux
                x = self._b(t.args[0], t.w, lvl)[0]
                return [(k >> i & 1) ^ (x if (c + k ^ k) >> i & 1 else 0) for i in range(t.w)]
            if op == "ite":
                c = self._b(t.args[0], 1, lvl)[0]
                return [(y & 1) ^ (c if (x ^ y) & 1 else 0) for x, y in ((t.args[1] >> i, t.args[2] >> i) for i in range(t.w))]
            m, x = t.args if type(t.args[0]) is int else (t.args[1], t.args[0])
            return [v if m >> i & 1 else 0 for i, v in enumerate(self._b(x, t.w, lvl))]
        if op == "sext":
            r = list(self._b(t.args[0], t.aux, lvl))
            return r + [r[-1]] * (t.w - t.aux)
        if op == "tbl":
            af = affine(t)
            if af is not None:
                c, basis = af
                x = self._b(t.args[0], None, lvl)
                r = []
                for i in range(t.w):
                    v = (c >> i) & 1
                    for j, bb in enumerate(basis):
                        if bb >> i & 1:
                            v ^= x[j]
                    r.append(v)
                return r
            if lvl == 0 and self.small_tbl(t):
                x = self.bits(t.args[0], t.args[0].w, 1)
                iw = len(x)
                const = sum((v & 1) << k for k, v in enumerate(x))
                key = tuple(v & ~1 for v in x)
                base = self.mono.get(key)
                if base is None:
                    base = self.mono[key] = self.n
                    self.n += 1 << iw
                f = moebius(t.aux, iw, const)
                r = [0] * t.w
                for m, v in enumerate(f):
                    if not v:
                        continue
                    form = 1 if m == 0 else key[m.bit_length() - 1] if m & (m - 1) == 0 else 1 << (base + m)
                    while v:
                        low = v & -v
                        r[low.bit_length() - 1] ^= form
                        v ^= low
                return r
        k = self.idx.get(t.id)
        if k is None:
            k = self.idx[t.id] = self.n
            self.n += t.w
        r = [1 << (k + i) for i in range(t.w)]
        for i in range(T.rng(t)[1].bit_length(), t.w):
            r[i] = 0
        if t.op == "add":
            kl, kv = T.known_low(t)
            for i in range(kl):
                r[i] = (kv >> i) & 1
        return r


def lin_equal(a, b, w, limit=4000):
    """True when both sides are the same linear form"""
    L = Lin(limit)
    if not (L.is_lin(a) and L.is_lin(b)):
        return None
    try:
        return L.bits(a, w) == L.bits(b, w)
    except TooBig:
        return None


# ---------------------------------------------------------------- local equivalence
def frontier(a, b):
    """topmost terms shared by the cones of a and b"""
    if type(a) is int or type(b) is int:
        return {}
    ca = {t.id for t in T.topo([a])}
    cb = {t.id for t in T.topo([b])}
    sh = ca & cb
    cut = {}
    for root in (a, b):
        seen = set()
        st = [root]
        while st:
            t = st.pop()
            if t.id in seen:
                continue
            seen.add(t.id)
            if t.id in sh:
                if t.op != "var":
                    cut[t.id] = t
                continue
            for x in t.args:
                if type(x) is not int:
                    st.append(x)
    return cut


def cone_size(t, cut, limit=4000):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if type(x) is int or x.id in seen:
            continue
        seen.add(x.id)
        if len(seen) > limit:
            return limit
        if x.id in cut:
            continue
        st.extend(x.args)
    return len(seen)


def has_op(t, ops, cut):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if type(x) is int or x.id in seen:
            continue
        seen.add(x.id)
        if x.id in cut:
            continue
        if x.op in ops:
            return True
        st.extend(x.args)
    return False


def z3_equal(a, b, w, cut, timeout, pc=()):
    t0 = time.time()
    z = Z(cut)
    timeout = max(0.05, min(timeout, time_left()))
    s = z3.SolverFor("QF_UFBV") if has_op(a, ("uf",), cut) or has_op(b, ("uf",), cut) else z3.SolverFor("QF_BV")
    s.set("timeout", int(timeout * 1000))
    for c in pc:
        s.add(z.boolean(c))
    s.add(z.bv(a, w) != z.bv(b, w))
    r = s.check()
    stats.queries += 1
    stats.time += time.time() - t0
    if r == z3.unsat:
        stats.unsat += 1
        return True, None
    if r == z3.sat:
        stats.sat += 1
        if cut:
            return False, None
        m = s.model()
        env = {}
        for d in m.decls():
            if d.arity() == 0 and z3.is_bv_value(m[d]):
                env[d.name()] = m[d].as_long()
        uf_values(m, z, [a, b] + list(pc), env)
        return False, env
    stats.unknown += 1
    return None, None


def residual_equal(a, b, w, timeout):
    """two sums: cancel the common terms and the common factor, decide what is left"""
    A = dict(zip(a.args, a.aux))
    B = dict(zip(b.args, b.aux))
    m = T.mask(w)
    ia, ib = [], []
    for x, c in A.items():
        d = (c - B.get(x, 0)) & m
        if d:
            ia.append((x, d))
    for x, c in B.items():
        if x not in A:
            ib.append((x, c))
    if len(ia) + len(ib) > 8 or len(ia) + len(ib) >= len(A) + len(B):
        return None
    k = (a.aux[-1] - b.aux[-1]) & m
    g = k
    for _, c in ia + ib:
        g = math.gcd(g, c)
    if not g:
        return None
    # sufficient condition: equality after dividing by the common factor
    ra = T.lincomb([(x, c // g) for x, c in ia], k // g, w)
    rb = T.lincomb([(x, c // g) for x, c in ib], 0, w)
    tz = (g & -g).bit_length() - 1
    if tz:
        if tz >= w:
            return True
        ra, rb = T.extract(ra, w - tz - 1, 0), T.extract(rb, w - tz - 1, 0)
        w -= tz
    if ra is rb:
        return True
    if type(ra) is int and type(rb) is int:
        return ra == rb
    cut = frontier(ra, rb)
    r, _ = z3_equal(ra, rb, w, cut, min(timeout, 1.0))
    if r is False and cut:
        c2 = deepen(cut, ra, rb)
        if c2 is not None:
            r, _ = z3_equal(ra, rb, w, c2, min(timeout, 1.0))
    return r


def local_equal(a, b, w, timeout=2.0, extra=()):
    """prove a == b for all inputs, cutting at the shared frontier.  True/False(real)/None, env"""
    if lin_equal(a, b, w):
        stats.lemmas += 1
        stats.anf += 1
        return True, None
    if type(a) is not int and type(b) is not int and a.op == "add" and b.op == "add":
        r = residual_equal(a, b, w, timeout)
        if r:
            stats.lemmas += 1
            return True, None
    cut = frontier(a, b)
    big = max(cone_size(a, cut), cone_size(b, cut))
    for f in extra:
        r = f(a, b, w, cut)
        if r:
            return True, None
    if w == 1 and type(a) is not int and a.op == "eq":
        pass
    elif has_op(a, ("clmul",), cut) or has_op(b, ("clmul",), cut) or any(below(t, "clmul") for t in cut.values()):
        tried = []
        cuts = [lower_cut(cut, ("extract", "concat")), lower_cut(cut, LINEAR), lower_cut(cut, LINEAR, True)]
        tops = [x for x in T.topo([y for y in (a, b) if type(y) is not int]) if x.op == "clmul"]
        if not any(hard(y) for x in tops for y in x.args if type(y) is not int):
            # a single product: down to the functions it is applied to
            cuts.append({x.id: x for x in T.topo([y for y in (a, b) if type(y) is not int]) if x.op in ("uf", "tbl")})
        for c in cuts:
            if c.keys() in tried:
                continue
            tried.append(c.keys())
            if anf_equal(a, b, w, c):
                stats.lemmas += 1
                return True, None
        if not cut:
            return None, None
    elif big <= 600 and not has_op(a, ("add", "mul", "ult", "slt", "ule", "sle"), cut) and not has_op(b, ("add", "mul", "ult", "slt", "ule", "sle"), cut) and big > 60:
        r = anf_equal(a, b, w, cut)
        if r:
            stats.lemmas += 1
            return True, None
    r, env = z3_equal(a, b, w, cut, timeout)
    if r:
        stats.lemmas += 1
        return True, None
    if cut:
        # the cut may hide a relation between its members: move it down through bitwise operators
        c2 = deepen(cut, a, b)
        if c2 is not None:
            r, env = z3_equal(a, b, w, c2, timeout)
            if r:
                stats.lemmas += 1
                return True, None
        if r is False and len(cut) <= 6:
            c3 = deepen(cut, a, b, 24, None)
            if c3 is not None and c3 != c2:
                r, env = z3_equal(a, b, w, c3, min(timeout, 0.5))
                if r:
                    stats.lemmas += 1
                    return True, None
    return r, env


BITWISE = {"and", "or", "xor", "not", "ite", "concat", "extract", "eq"}


def deepen(cut, a, b, limit=150, ops=BITWISE):
    new = {}
    changed = False
    n = 0
    stack = list(cut.values())
    seen = set()
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        n += 1
        if t.op != "var" and (ops is None or t.op in ops) and n < limit and len(t.args) < 8:
            changed = True
            for x in t.args:
                if type(x) is not int:
                    stack.append(x)
        elif t.op != "var":
            new[t.id] = t
    return new if changed else None


# ---------------------------------------------------------------- sweeping
class SweepResult:
    def __init__(self, ok, env=None, failed=None, unknown=None):
        self.ok = ok
        self.env = env
        self.failed = failed
        self.unknown = unknown


def prove_equal(pairs, pc=(), seed=1, timeout=120.0, nvec=20, extra_provers=(), verbose=False, known=None, lift_first=False):
    """pairs: list of (a, b, w).  Decide whether every pair is equal under pc for all inputs.
    Returns SweepResult: ok True (proved), False (env = counterexample) or None (unknown)"""
    t0 = time.time()
    todo = []
    for a, b, w in pairs:
        if a is b or (type(a) is int and type(b) is int and a == b):
            stats.structural += 1
            continue
        todo.append((a, b, w))
    if not todo:
        return SweepResult(True)
    rnd = random.Random(seed)
    roots = [x for p in todo for x in p[:2] if type(x) is not int]
    order = T.topo(roots)
    vars_ = [t for t in order if t.op == "var"]
    allv = {v.aux: v for v in vars_}
    for c in pc:
        for v in T.free_vars([c]):
            allv.setdefault(v.aux, v)
    vlist = list(allv.values())
    envs = sample_envs(vlist, pc, nvec, rnd)
    if envs is None:
        return SweepResult(True)  # infeasible path
    sims = []
    for env in envs:
        cache = {}
        T.eval_terms(roots, env, cache)
        sims.append(cache)
        for a, b, w in todo:
            va = a if type(a) is int else cache[a.id]
            vb = b if type(b) is int else cache[b.id]
            if va != vb:
                # a concrete disagreement: the solver decides the negated goal; if it needs long, the assignment is
                # handed to it as a candidate model (replay against the real code follows in any case)
                r, e2 = z3_equal(a, b, w, {}, 5.0, pc)
                if r is True:
                    raise AssertionError("evaluator and solver disagree")
                if r is False and e2 is not None:
                    va, vb = T.eval_terms([a, b], e2)
                    if va != vb and all(T.eval_terms(list(pc), e2)):
                        return SweepResult(False, e2, (a, b, w))
                return SweepResult(False, env, (a, b, w))
    if sum(v.w for v in vars_) <= 8 and len(order) > 500 and not any(t.op == "uf" for t in order):
        # fewer than 9 symbolic bits below a large circuit: decide by evaluating every assignment
        nb = sum(v.w for v in vars_)
        for x in range(1 << nb):
            env = {}
            y = x
            for v in vars_:
                env[v.aux] = y & T.mask(v.w)
                y >>= v.w
            cache = {}
            T.eval_terms(roots, env, cache)
            for a, b, w in todo:
                va = a if type(a) is int else cache[a.id]
                vb = b if type(b) is int else cache[b.id]
                if va != vb:
                    r, full = full_model(list(pc) + [T.eq(v, env[v.aux], v.w) for v in vars_], [])
                    if r == "unknown":
                        return SweepResult(None, None, None, [(a, b, w)])
                    if r == "sat":
                        full.update(env)
                        return SweepResult(False, full, (a, b, w))
        stats.anf += 1
        return SweepResult(True)
    if lift_first or any(t.op == "mul" and type(t.args[0]) is not int and type(t.args[1]) is not int for t in order):
        left = []
        tl = time.time()
        for a, b, w in todo:
            if time.time() - tl < timeout * 0.5 and lift_equal(a, b, w, timeout * 0.5):
                continue
            left.append((a, b, w))
        if verbose and left:
            print("   lift: %d of %d pairs open" % (len(left), len(todo)))
        todo = left
        if not todo:
            return SweepResult(True)
        roots = [x for p in todo for x in p[:2] if type(x) is not int]
        order = T.topo(roots)
    sig = {}
    if sims:
        for t in order:
            sig[t.id] = tuple(c[t.id] for c in sims)
    new = {}
    classes = {}
    const_try = 0
    fails = 0
    deadline = t0 + timeout
    proved_cache = known if known is not None else {}
    for t in order:
        args = [a if type(a) is int else new[a.id] for a in t.args]
        if t.op == "var":
            n = t
        elif all(x is y for x, y in zip(args, t.args)):
            n = t
        else:
            n = T.rebuild(t, args)
        if type(n) is int:
            new[t.id] = n
            continue
        if not sims:
            new[t.id] = n
            continue
        s = (t.w, sig[t.id])
        lst = classes.get(s)
        if lst is None:
            if t.w > 1 and len(set(sig[t.id])) == 1 and t.op not in ("var",) and not hard(n) and fails < 400 and time.time() < deadline:
                # looks constant
                c = sig[t.id][0]
                k = (n.id, c)
                if k not in proved_cache:
                    r, _ = local_equal(n, c, t.w, 0.5)
                    proved_cache[k] = r
                if proved_cache[k]:
                    new[t.id] = c
                    classes[s] = [c]
                    continue
                fails += 1
            classes[s] = [n]
            new[t.id] = n
            continue
        hit = None
        for c in lst[:8]:
            if c is n or (type(c) is int and type(n) is int and c == n):
                hit = c
                break
        if hit is None and time.time() < deadline and fails < 2000 and (t.w > 1 or nvec >= 16):
            for c in lst[:6] if t.w <= 32 and hard(n) else lst[:2]:
                if t.w == 1 and (hard(n) or type(c) is not int and hard(c)):
                    continue
                k = (n.id, c if type(c) is int else -c.id)
                if k in proved_cache:
                    if proved_cache[k]:
                        hit = c
                        break
                    continue
                tm = 3.0 if t.w > 1 else 1.0
                r, env = local_equal(n, c, t.w, tm, extra_provers)
                proved_cache[k] = r
                if verbose and not r:
                    print("   sweep: not merged", n, c, r)
                if r:
                    hit = c
                    break
                fails += 1
        if hit is not None:
            new[t.id] = hit
        else:
            lst.append(n)
            new[t.id] = n
    rest = []
    for a, b, w in todo:
        na = a if type(a) is int else new[a.id]
        nb = b if type(b) is int else new[b.id]
        if na is nb or (type(na) is int and type(nb) is int and na == nb):
            continue
        rest.append((na, nb, w))
    if not rest:
        return SweepResult(True)
    # remaining pairs: direct queries with the path condition
    unknown = []
    for a, b, w in rest:
        if unknown:
            break
        left = max(2.0, deadline - time.time())
        for f in extra_provers:
            if f(a, b, w, frontier(a, b)):
                break
        else:
            r, env = z3_equal(a, b, w, {}, min(left, 60), pc)
            if r is False:
                # validate the model concretely
                cache = {}
                try:
                    va, vb = T.eval_terms([a, b], env, cache)
                    if va != vb and all(T.eval_terms(list(pc), env, cache)):
                        return SweepResult(False, env, (a, b, w))
                except NotImplementedError:
                    pass
                unknown.append((a, b, w))
            elif r is None:
                r = kissat_equal(a, b, w, pc, min(left, 120))
                if r is True:
                    continue
                if isinstance(r, dict):
                    return SweepResult(False, r, (a, b, w))
                unknown.append((a, b, w))
    if unknown:
        return SweepResult(None, None, None, unknown)
    return SweepResult(True)


# ---------------------------------------------------------------- kissat back end
def kissat_equal(a, b, w, pc, timeout):
    """True (equal) / dict env (different) / None"""
    if has_op(a, ("uf",), {}) or has_op(b, ("uf",), {}):
        return None
    z = Z()
    g = z3.Goal()
    for c in pc:
        g.add(z.boolean(c))
    g.add(z.bv(a, w) != z.bv(b, w))
    return kissat_goal(g, timeout)


def kissat_goal(g, timeout):
    t0 = time.time()
    try:
        tac = z3.Then("simplify", "bit-blast", "tseitin-cnf")
        r = tac(g)
    except z3.Z3Exception:
        return None
    cnf = r[0]
    d = cnf.dimacs()
    fd, path = tempfile.mkstemp(suffix=".cnf")
    os.close(fd)
    try:
        with open(path, "w") as f:
            f.write(d)
        p = subprocess.run(["kissat", "-q", "-n", "--time=%d" % max(1, int(min(timeout, time_left()))), path], capture_output=True, text=True)
        stats.queries += 1
        stats.time += time.time() - t0
        if p.returncode == 20:
            stats.unsat += 1
            return True
        stats.unknown += 1
        return None
    finally:
        os.unlink(path)


def valid(pc, cond, timeout=30.0):
    """is cond implied by pc?  True / env / None"""
    if type(cond) is int:
        if cond:
            return True
        r, env = check_sat(list(pc), timeout)
        if r == "unsat":
            return True
        return env if r == "sat" else None
    n = T.not_(cond)
    rel = slice_pc(pc, vars_of(cond))
    r, env = check_sat(rel + [n], timeout)
    if r == "unsat":
        return True
    if r == "sat":
        if len(rel) != len(pc):
            r, env = check_sat(list(pc) + [n], timeout)
            if r == "unsat":
                return True
            if r == "unknown":
                return None
        return env
    return None


# ---------------------------------------------------------------- integer lifting
def depth_cut(t, d):
    """terms at depth d below t (variables excluded)"""
    cut = {}
    seen = {t.id: 0}
    level = [t]
    for _ in range(d):
        nxt = []
        for x in level:
            for a in x.args:
                if type(a) is not int and a.id not in seen:
                    seen[a.id] = 1
                    nxt.append(a)
        level = nxt
        if not level:
            break
    for x in level:
        if x.op not in ("var",):
            cut[x.id] = x
    return cut, len(seen)


def nowrap(ctx, t, lo, hi, w):
    """the constant multiple of 2^w that the exact sum t exceeds its width by, if it is always 0"""
    if not (lo < 1 << w and hi >= 0):
        return None
    ctx.left -= 1
    e = 8
    items = []
    half = 1 << (w - 1)
    for a, c in zip(t.args, t.aux):
        items.append((T.zext(a, w, w + e), c - (1 << w) if c >= half else c))
    k = t.aux[-1]
    if k > half:
        k -= 1 << w
    s = T.lincomb(items, k, w + e)
    goal = T.extract(s, w + e - 1, w)
    if goal == 0:
        return 0
    if type(goal) is int:
        return None
    rnd = random.Random(5)
    vs = T.free_vars([goal])
    for i in range(8):
        env = {v.aux: (rnd.getrandbits(v.w) if i > 1 else T.mask(v.w) * i) for v in vs}
        if T.eval_terms([goal], env)[0]:
            return None
    last = 0
    for d in (6, 12, 24, 48):
        cut, n = depth_cut(goal, d)
        if n == last or n > 3000:
            break
        last = n
        r, _ = z3_equal(goal, 0, e, cut, 3.0)
        if r:
            stats.lemmas += 1
            return 0
        if r is None:
            break
    return None


_lift_ctx = [None]


def lift_ctx(timeout):
    import lift
    c = _lift_ctx[0]
    if c is None:
        c = lift.Ctx(prover=nowrap)
        _lift_ctx[0] = c
    c.deadline = time.time() + timeout
    return c


def lift_equal(a, b, w, timeout, modulus=None):
    import lift
    t0 = time.time()
    r = lift.lift_equal(lift_ctx(timeout), a, b, w, modulus)
    stats.time += time.time() - t0
    if r:
        stats.anf += 1
        stats.lemmas += 1
    return r


def prove_cong(a, b, w, M, pc=(), seed=1, timeout=120.0):
    """a == b modulo M for all inputs satisfying pc"""
    if type(a) is int and type(b) is int:
        return SweepResult((a - b) % M == 0, {})
    roots = [x for x in (a, b) if type(x) is not int]
    vlist = T.free_vars(roots + list(pc))
    envs = sample_envs(vlist, pc, 24, random.Random(seed))
    if envs is None:
        return SweepResult(True)
    for env in envs:
        va, vb = T.eval_terms([a, b], env)
        if (va - vb) % M:
            r, full = full_model(list(pc) + [T.eq(v, env.get(v.aux, 0), v.w) for v in vlist], [])
            if r == "sat":
                full.update(env)
                return SweepResult(False, full, (a, b, w))
    if lift_equal(a, b, w, timeout, M):
        return SweepResult(True)
    # bit-precise attempt
    k = max(w, M.bit_length()) + 1
    d = T.sub(T.zext(a, w, k), T.zext(b, w, k), k)
    # (a - b) mod M == 0  <=>  a mod M == b mod M
    g = T.eq(T.urem(T.zext(a, w, k), M, k), T.urem(T.zext(b, w, k), M, k), k)
    r = valid(pc, g, min(timeout, 30.0))
    if r is True:
        return SweepResult(True)
    if isinstance(r, dict):
        va, vb = T.eval_terms([a, b], r)
        if (va - vb) % M:
            return SweepResult(False, r, (a, b, w))
    return SweepResult(None, None, None, [(a, b, w)])

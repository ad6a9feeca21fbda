"""Symbolic executor for LLVM IR with state merging at immediate post-dominators and function returns."""
import sys
import time

import ir
import solver as S
import terms as T
from terms import Term, mask

sys.setrecursionlimit(1000000)

M64 = (1 << 64) - 1
FN_BASE = 0x7E00_0000_0000_0000
HALF = 1 << 31


class Abort(Exception):
    """the current path ends here"""


class Unsupported(Exception):
    pass


class BudgetExceeded(Exception):
    pass


class Obj:
    __slots__ = ("id", "size", "data", "owner", "alive", "const", "name", "kind")

    def __init__(self, id, size, data, owner, name, kind, const=False):
        self.id = id
        self.size = size
        self.data = data
        self.owner = owner
        self.alive = True
        self.const = const
        self.name = name
        self.kind = kind

    def clone(self, owner):
        o = Obj(self.id, self.size, list(self.data), owner, self.name, self.kind, self.const)
        o.alive = self.alive
        return o


class State:
    __slots__ = ("mem", "pc", "cnt", "tok", "names", "ghost", "caught")

    def __init__(self):
        self.mem = {}
        self.pc = ()
        self.cnt = {}
        self.tok = object()
        self.names = {}
        self.ghost = {}
        self.caught = ()

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.cnt = dict(self.cnt)
        s.names = dict(self.names)
        s.ghost = dict(self.ghost)
        s.caught = self.caught
        self.tok = object()
        return s


class Exc:
    __slots__ = ("ptr", "tinfo")

    def __init__(self, ptr, tinfo):
        self.ptr = ptr
        self.tinfo = tinfo


_obj_ids = {}
_obj_keys = {}


def obj_id(key):
    i = _obj_ids.get(key)
    if i is None:
        i = _obj_ids[key] = len(_obj_ids) + 16
        _obj_keys[i] = key
    return i


def base_of(i):
    return i << 32


class Violation:
    def __init__(self, kind, label, env, where, pc=()):
        self.kind = kind
        self.label = label
        self.env = env
        self.where = where
        self.pc = pc


STD_EXC = {
    "_ZTISt13runtime_error": ["_ZTISt9exception"],
    "_ZTISt12out_of_range": ["_ZTISt11logic_error", "_ZTISt9exception"],
    "_ZTISt12length_error": ["_ZTISt11logic_error", "_ZTISt9exception"],
    "_ZTISt11logic_error": ["_ZTISt9exception"],
    "_ZTISt9bad_alloc": ["_ZTISt9exception"],
    "_ZTISt20bad_array_new_length": ["_ZTISt9bad_alloc", "_ZTISt9exception"],
    "_ZTISt16invalid_argument": ["_ZTISt11logic_error", "_ZTISt9exception"],
    "_ZTISt18bad_variant_access": ["_ZTISt9exception"],
}


class Executor:
    def __init__(self, module, opts=None):
        self.m = module
        self.opts = opts or {}
        self.gaddr = {}
        self.fnaddr = {}
        self.addrfn = {}
        module.addr_of = self.addr_of
        self.violations = []
        self.checks = []       # (label, status)
        self.unknowns = []
        self.reached = {}
        self.funcs = {}
        self.steps = 0
        self.forks = 0
        self.merges = 0
        self.max_steps = self.opts.get("max_steps", 200_000_000)
        self.intercepts = {}
        self.ct_log = None
        self.subst = {}
        self.inputs = {}       # var name -> width
        self.undef_n = 0
        self.pending_init = []
        self.stack = []
        self.deadline = None
        self.merge_ptr = self.opts.get("merge_ptr", True)
        self.max_viol = self.opts.get("max_viol", 6)
        self.extra_provers = ()
        self.prove_timeout = self.opts.get("prove_timeout", 120)
        import models
        self.models = models
        self.mtab = models.TABLE
        self.mprefix = models.PREFIX
        self.state0 = State()
        self.init_globals = set()
        self.collect = None
        self.globals_base = {}
        self.concrete = self.opts.get("concrete")
        self.provers = ()
        self.known = {}
        self.outputs = []
        self.uf_apps = []
        self.secrets = set()
        self.ct_results = []

    def start(self, ctors=True):
        """initial state, with the static constructors run"""
        st = self.state0
        if ctors:
            g = self.m.globals.get("@llvm.global_ctors")
            if g is not None:
                for nm in self.m.ctor_names():
                    outs = self.run_function(st, nm, [])
                    if len(outs) != 1 or outs[0][0] != "ret":
                        raise Unsupported("static constructor forks")
                    st = outs[0][1]
        return st

    # ------------------------------------------------------------ addresses
    def addr_of(self, name):
        name = self.m.resolve_alias(name)
        a = self.gaddr.get(name)
        if a is not None:
            return a
        if name in self.m.functions or (name in self.m.declares):
            n = len(self.fnaddr)
            a = FN_BASE + (n << 8)
            self.fnaddr[name] = a
            self.addrfn[a] = name
            self.gaddr[name] = a
            return a
        i = obj_id(("g", name))
        a = base_of(i)
        self.gaddr[name] = a
        g = self.m.globals.get(name)
        if g is None:
            raise Unsupported("unknown global " + name)
        self.pending_init.append(name)
        return a

    def flush_globals(self, st):
        while self.pending_init:
            name = self.pending_init.pop()
            self.materialize(name)

    def materialize(self, name):
        if name in self.init_globals:
            return
        self.init_globals.add(name)
        g = self.m.globals[name]
        p = ir.Parser(self.m, self.addr_of)
        p.load(g.init_toks)
        ty = p.type()
        i = obj_id(("g", name))
        data = [0] * max(ty.size, 1)
        size = ty.size
        if not g.external:
            val = p.const(ty)
            self._init_bytes(data, 0, ty, val)
        else:
            size = max(size, 64)
            data = [0] * size
            if name[1:].startswith("_ZTV"):
                size = 512
                data = [0] * 512
        o = Obj(i, size, data, None, name, "global", g.const)
        self.gobj_new(o)

    def gobj_new(self, o):
        self.globals_base[o.id] = o

    globals_base = None

    def _init_bytes(self, data, off, ty, val):
        if ty.k == "arr":
            if isinstance(val, tuple) and val and val[0] == "zeros":
                return
            es = ty.el.size
            for i, v in enumerate(val):
                self._init_bytes(data, off + i * es, ty.el, v)
        elif ty.k == "struct":
            for o, e, v in zip(ty.offs, ty.els, val):
                self._init_bytes(data, off + o, e, v)
        else:
            n = (ty.bits + 7) // 8
            for k in range(n):
                data[off + k] = (val >> (8 * k)) & 0xFF

    # ------------------------------------------------------------ memory
    def get_obj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            if self.pending_init:
                self.flush_globals(st)
            o = self.globals_base.get(oid)
        return o

    def wobj(self, st, o):
        if o.owner is not st.tok:
            o = o.clone(st.tok)
            st.mem[o.id] = o
        return o

    def alloc(self, st, size, kind, name=""):
        k = (kind, size)
        n = st.cnt.get(k, 0)
        st.cnt[k] = n + 1
        i = obj_id((kind, size, n))
        o = Obj(i, size, [None] * size, st.tok, name, kind)
        st.mem[i] = o
        return i << 32

    def fresh_undef(self, w):
        self.undef_n += 1
        return T.var("undef!%d" % self.undef_n, w)

    def where(self):
        return " < ".join(reversed([f for f in self.stack[-6:]]))

    def violation(self, st, kind, label, cond=None):
        """record a violation if st.pc (and cond) is satisfiable"""
        extra = [] if cond is None else [cond]
        r, env = S.check_sat(list(st.pc) + extra, 30)
        if r == "unsat":
            return False
        if r == "unknown":
            self.unknowns.append((label, kind, "solver unknown"))
            return True
        v = Violation(kind, label, env, self.where(), st.pc)
        self.violations.append(v)
        if len(self.violations) >= self.max_viol:
            raise BudgetExceeded("violations")
        return True

    def mem_fault(self, st, kind, cond=None):
        lab = "memory-safety: " + kind
        self.violation(st, "memory", lab, cond)

    def resolve(self, st, a, n=None):
        """address -> list of (cond, oid, offset)"""
        if type(a) is int:
            oid = (a + HALF) >> 32
            return [(1, oid, a - (oid << 32))]
        out = []
        self._resolve(st, a, 1, out, 0)
        if len(out) > 1 and not (n is not None and len(out) <= 8 and all(self.surely(st, o, f, n) for c, o, f in out)):
            out = [x for x in out if S.feasible(st.pc, x[0]) is not False]
        return out

    def surely(self, st, oid, off, n):
        o = self.get_obj(st, oid)
        return o is not None and o.alive and type(off) is int and 0 <= off and off + n <= o.size

    def _resolve(self, st, a, c, out, depth):
        if type(a) is int:
            oid = (a + HALF) >> 32
            out.append((c, oid, a - (oid << 32)))
            return
        if a.op == "ite":
            self._resolve(st, a.args[1], T.band(c, a.args[0]), out, depth + 1)
            self._resolve(st, a.args[2], T.band(c, T.not_(a.args[0])), out, depth + 1)
            return
        hi = T.extract(a, 63, 32)
        if type(hi) is int and hi:
            out.append((c, hi, T.zext(T.extract(a, 31, 0), 32, 64)))
            return
        if a.op == "add":
            for k, (t, cf) in enumerate(zip(a.args, a.aux)):
                if cf == 1 and t.op == "ite" and T.rng(t)[1] >= (1 << 36) and depth < 64:
                    rest = [(x, y) for j, (x, y) in enumerate(zip(a.args, a.aux)) if j != k]
                    for v, cc in ((t.args[1], t.args[0]), (t.args[2], T.not_(t.args[0]))):
                        self._resolve(st, T.lincomb(rest + [(v, 1)], a.aux[-1], 64), T.band(c, cc), out, depth + 1)
                    return
            cst = a.aux[-1]
            oid = (cst + HALF) >> 32
            if oid >= 16:
                out.append((c, oid, T.sub(a, oid << 32, 64)))
                return
        if a.op == "concat":
            # address assembled from pieces (e.g. ite merged in segments): try splitting on an ite segment
            for s in a.args:
                if type(s) is not int and s.op == "ite" and depth < 64:
                    for v, cc in ((1, s.args[0]), (0, T.not_(s.args[0]))):
                        na = subst_ite(a, s.args[0], v)
                        self._resolve(st, na, T.band(c, cc), out, depth + 1)
                    return
        # general fallback: enumerate objects with the solver
        pcs = list(st.pc) + [c]
        hi = T.extract(T.add(a, HALF, 64), 63, 32)
        if type(hi) is int:
            out.append((c, hi, T.sub(a, hi << 32, 64)))
            return
        for _ in range(64):
            r, env = S.check_sat(pcs, 20)
            if r != "sat":
                return
            v = T.eval_terms([hi], env)[0]
            e = T.eq(hi, v, 32)
            out.append((T.band(c, e), v, T.sub(a, v << 32, 64)))
            pcs.append(T.not_(e))
        raise Unsupported("address resolution")

    def bounds(self, st, oid, off, n, what, cond=1):
        """check the access; returns object or None if always invalid"""
        o = self.get_obj(st, oid)
        if o is None:
            self.mem_fault(st, "%s through invalid or null pointer" % what, None if cond == 1 and type(cond) is int else cond)
            return None
        if not o.alive:
            self.mem_fault(st, "%s of freed memory (%s)" % (what, o.kind), None if type(cond) is int else cond)
            return None
        if type(off) is int:
            if off < 0 or off + n > o.size:
                self.mem_fault(st, "%s out of bounds: offset %d size %d object %d bytes (%s)" % (what, off, n, o.size, o.kind), None if type(cond) is int else cond)
                return None
            return o
        if n > o.size:
            self.mem_fault(st, "%s out of bounds (%s)" % (what, o.kind), None if type(cond) is int else cond)
            return None
        ok = T.ule(off, o.size - n, 64)
        bad = T.band(cond, T.not_(ok))
        if type(bad) is int and bad == 0:
            return o
        f = S.feasible(st.pc, bad)
        if f is None or f:
            self.mem_fault(st, "%s out of bounds: symbolic offset, object %d bytes (%s)" % (what, o.size, o.kind), bad)
            # continue with the in-bounds part
            c2 = T.bor(T.not_(cond), ok) if type(cond) is not int else ok
            if S.feasible(st.pc, c2) is False:
                return None
            if type(c2) is not int:
                st.pc = st.pc + (c2,)
        return o

    def load(self, st, a, n):
        """n bytes -> value of 8n bits"""
        if type(a) is int:
            oid = (a + HALF) >> 32
            off = a - (oid << 32)
            o = st.mem.get(oid)
            if o is None:
                o = self.get_obj(st, oid)
            if o is None or not o.alive or off < 0 or off + n > o.size:
                self.bounds(st, oid, off, n, "read")
                raise Abort
            return self.read(o, off, n)
        if self.ct_log is not None:
            self.ct_log.append(("address", self.where(), a, st.pc))
        res = self.resolve(st, a, n)
        val = None
        first = True
        for c, oid, off in res:
            o = self.bounds(st, oid, off, n, "read", c)
            if o is None:
                if not (type(c) is int):
                    st.pc = st.pc + (T.not_(c),)
                continue
            v = self.read_sym(st, o, off, n)
            val = v if first else T.ite(c, v, val, 8 * n)
            first = False
        if first:
            raise Abort
        return val

    def read(self, o, off, n):
        d = o.data
        if n == 1:
            b = d[off]
            if type(b) is int:
                return b
            if b is None:
                v = self.fresh_undef(8)
                return v
            t, k = b
            if t.w == 8:
                return t
            return T.extract(t, 8 * k + 7, 8 * k)
        chunk = d[off:off + n]
        b0 = chunk[0]
        if type(b0) is int:
            try:
                return int.from_bytes(bytes(chunk), "little")
            except TypeError:
                pass
        elif b0 is not None:
            t, k = b0
            if k == 0 and t.w == 8 * n:
                for i in range(1, n):
                    b = chunk[i]
                    if type(b) is not tuple or b[0] is not t or b[1] != i:
                        break
                else:
                    return t
        parts = []
        i = n - 1
        while i >= 0:
            b = chunk[i]
            if type(b) is int:
                parts.append((b, 8))
                i -= 1
            elif b is None:
                parts.append((self.fresh_undef(8), 8))
                i -= 1
            else:
                t, k = b
                j = i
                while j > 0 and type(chunk[j - 1]) is tuple and chunk[j - 1][0] is t and chunk[j - 1][1] == k - (i - j) - 1:
                    j -= 1
                lo = k - (i - j)
                if lo == 0 and t.w == 8 * (k + 1):
                    parts.append((t, t.w))
                else:
                    parts.append((T.extract(t, 8 * k + 7, 8 * lo), 8 * (k - lo + 1)))
                i = j - 1
        return T.concat_list(parts)

    def cand_offsets(self, off, size, n):
        """possible concrete offsets of a symbolic offset within bounds, and an index term"""
        lo, hi = T.rng(off)
        c = 0
        base = off
        if off.op == "add":
            c = off.aux[-1]
            base = T.lincomb(list(zip(off.args, off.aux)), 0, 64)
        tz = 0
        if type(base) is not int:
            tz = trailing_zeros(base)
        step = 1 << tz
        cm = c % step
        lo = max(lo, 0)
        hi = min(hi, size - n)
        start = lo + ((cm - lo) % step)
        offs = list(range(start, hi + 1, step))
        return offs, start, tz

    def read_sym(self, st, o, off, n):
        if type(off) is int:
            return self.read(o, off, n)
        offs, start, tz = self.cand_offsets(off, o.size, n)
        if len(offs) > 5000:
            raise Unsupported("symbolic read over %d positions" % len(offs))
        if not offs:
            raise Abort
        vals = [self.read(o, k, n) for k in offs]
        if all(type(v) is int for v in vals):
            idx = T.sub(off, start, 64)
            if tz:
                idx = T.lshr(idx, tz, 64)
            # narrow the index
            nb = max(1, (len(vals) - 1).bit_length())
            hi = T.rng(idx)[1]
            w = max(nb, min(64, hi.bit_length()))
            idx = T.extract(idx, w - 1, 0, 64) if w < 64 else idx
            return T.tbl(vals, idx, 8 * n)
        r = vals[-1]
        for k, v in zip(reversed(offs[:-1]), reversed(vals[:-1])):
            r = T.ite(T.eq(off, k, 64), v, r, 8 * n)
        return r

    def put(self, o, off, v, n):
        d = o.data
        if type(v) is int:
            if n == 1:
                d[off] = v
            else:
                d[off:off + n] = v.to_bytes(n, "little")
        elif n == 1:
            d[off] = (v, 0)
        else:
            if v.op == "concat" and all(aw % 8 == 0 for aw in v.aux):
                p = off + n
                for a, aw in zip(v.args, v.aux):
                    k = aw // 8
                    p -= k
                    if type(a) is int:
                        d[p:p + k] = a.to_bytes(k, "little")
                    else:
                        d[p:p + k] = [(a, i) for i in range(k)]
            else:
                d[off:off + n] = [(v, i) for i in range(n)]

    def store(self, st, a, v, n):
        if type(a) is int:
            oid = (a + HALF) >> 32
            off = a - (oid << 32)
            o = st.mem.get(oid)
            if o is None:
                o = self.get_obj(st, oid)
            if o is None or not o.alive or off < 0 or off + n > o.size:
                self.bounds(st, oid, off, n, "write")
                raise Abort
            if o.const:
                self.mem_fault(st, "write to constant")
                raise Abort
            if o.owner is not st.tok:
                o = o.clone(st.tok)
                st.mem[oid] = o
            self.put(o, off, v, n)
            return
        if self.ct_log is not None:
            self.ct_log.append(("address", self.where(), a, st.pc))
        res = self.resolve(st, a)
        any_ = False
        for c, oid, off in res:
            o = self.bounds(st, oid, off, n, "write", c)
            if o is None:
                if not (type(c) is int):
                    st.pc = st.pc + (T.not_(c),)
                continue
            if o.const:
                self.mem_fault(st, "write to constant")
                continue
            any_ = True
            o = self.wobj(st, o)
            if type(off) is int:
                self.put(o, off, T.ite(c, v, self.read(o, off, n), 8 * n) if type(c) is not int else v, n)
                continue
            offs, start, tz = self.cand_offsets(off, o.size, n)
            if len(offs) > 3000:
                raise Unsupported("symbolic write over %d positions" % len(offs))
            for k in offs:
                e = T.band(c, T.eq(off, k, 64))
                if type(e) is int and e == 0:
                    continue
                if type(e) is not int and len(offs) > 8 and False:
                    pass
                self.put(o, k, T.ite(e, v, self.read(o, k, n), 8 * n), n)
        if not any_:
            raise Abort

    def read_bytes(self, st, a, n):
        """list of raw byte cells (int | (t,k) | None)"""
        if n == 0:
            return []
        if type(a) is int:
            oid = (a + HALF) >> 32
            off = a - (oid << 32)
            o = self.bounds(st, oid, off, n, "read")
            if o is None:
                raise Abort
            return o.data[off:off + n]
        out = []
        for i in range(n):
            v = self.load(st, T.add(a, i, 64), 1)
            out.append(v if type(v) is int else (v, 0))
        return out

    def write_bytes(self, st, a, cells):
        n = len(cells)
        if n == 0:
            return
        if type(a) is int:
            oid = (a + HALF) >> 32
            off = a - (oid << 32)
            o = self.bounds(st, oid, off, n, "write")
            if o is None:
                raise Abort
            if o.const:
                self.mem_fault(st, "write to constant")
                raise Abort
            o = self.wobj(st, o)
            o.data[off:off + n] = cells
            return
        for i, c in enumerate(cells):
            v = c if type(c) is int else (self.fresh_undef(8) if c is None else T.extract(c[0], 8 * c[1] + 7, 8 * c[1]))
            self.store(st, T.add(a, i, 64), v, 1)

    def cell_val(self, c):
        if type(c) is int:
            return c
        if c is None:
            return self.fresh_undef(8)
        return T.extract(c[0], 8 * c[1] + 7, 8 * c[1])

    def cstring(self, st, a):
        out = []
        while True:
            b = self.load(st, a, 1)
            if type(b) is not int:
                raise Unsupported("symbolic C string")
            if b == 0:
                return bytes(out).decode("latin1")
            out.append(b)
            a += 1

    # typed memory access
    def load_ty(self, st, a, ty):
        k = ty.k
        if k in ("struct", "arr"):
            if k == "struct":
                return tuple(self.load_ty(st, T.add(a, o, 64), e) for o, e in zip(ty.offs, ty.els))
            return tuple(self.load_ty(st, T.add(a, i * ty.el.size, 64), ty.el) for i in range(ty.n))
        bits = ty.bits
        n = (bits + 7) // 8
        v = self.load(st, a, n)
        if bits != 8 * n:
            v = T.extract(v, bits - 1, 0, 8 * n)
        return v

    def store_ty(self, st, a, v, ty):
        k = ty.k
        if k == "struct":
            for o, e, x in zip(ty.offs, ty.els, v):
                self.store_ty(st, T.add(a, o, 64), x, e)
            return
        if k == "arr":
            for i, x in enumerate(v):
                self.store_ty(st, T.add(a, i * ty.el.size, 64), x, ty.el)
            return
        bits = ty.bits
        n = (bits + 7) // 8
        if bits != 8 * n:
            v = T.zext(v, bits, 8 * n)
        self.store(st, a, v, n)

    # ------------------------------------------------------------ merging
    def merge_states(self, items):
        """items: list of (state, regs or None, val or None) -> merged list"""
        if len(items) <= 1:
            return items
        acc = items[0]
        out = []
        for it in items[1:]:
            r = self.merge2(acc, it)
            if r is None:
                out.append(acc)
                acc = it
            else:
                acc = r
        out.append(acc)
        if len(out) > 2:
            # second attempt: try merging any pair
            res = []
            for it in out:
                for i, e in enumerate(res):
                    r = self.merge2(e, it)
                    if r is not None:
                        res[i] = r
                        break
                else:
                    res.append(it)
            out = res
        return out

    def merge2(self, x, y):
        s1, r1, v1 = x
        s2, r2, v2 = y
        if s1.caught != s2.caught:
            return None
        p1, p2 = s1.pc, s2.pc
        k = 0
        n = min(len(p1), len(p2))
        while k < n and p1[k] is p2[k]:
            k += 1
        c1 = 1
        for t in p1[k:]:
            c1 = T.band(c1, t)
        c2 = 1
        for t in p2[k:]:
            c2 = T.band(c2, t)
        if type(c1) is int:
            # s1 has no extra condition: cannot be distinguished from s2 (should not happen)
            return None
        c = c1
        if self.opts.get("nomerge"):
            return None
        if not self.merge_ptr and self.ptr_conflict(s1, s2):
            return None
        for key in set(s1.ghost) | set(s2.ghost):
            if s1.ghost.get(key) != s2.ghost.get(key):
                return None
        try:
            s = State()
            s.caught = s1.caught
            s.ghost = dict(s1.ghost)
            s.pc = p1[:k]
            o = T.bor(c1, c2)
            if type(o) is not int:
                s.pc = s.pc + (o,)
            s.cnt = dict(s1.cnt)
            for kk, vv in s2.cnt.items():
                if s.cnt.get(kk, 0) < vv:
                    s.cnt[kk] = vv
            s.names = dict(s1.names)
            for kk, vv in s2.names.items():
                if s.names.get(kk, 0) < vv:
                    s.names[kk] = vv
            m1, m2 = s1.mem, s2.mem
            mem = s.mem = {}
            for oid, a in m1.items():
                b = m2.get(oid)
                if b is None:
                    b0 = self.globals_base.get(oid)
                    if b0 is None:
                        mem[oid] = a
                        continue
                    b = b0
                if a is b:
                    mem[oid] = a
                    continue
                mem[oid] = self.merge_obj(c, a, b, s.tok)
            for oid, b in m2.items():
                if oid not in m1:
                    a = self.globals_base.get(oid)
                    if a is None:
                        mem[oid] = b
                    else:
                        mem[oid] = self.merge_obj(c, a, b, s.tok)
            regs = None
            if r1 is not None:
                regs = {}
                for kk, a in r1.items():
                    if kk in r2:
                        b = r2[kk]
                        regs[kk] = a if a is b else self.merge_val(c, a, b)
            v = None
            if v1 is not None or v2 is not None:
                v = v1 if v1 is v2 else self.merge_val(c, v1, v2)
            self.merges += 1
            return (s, regs, v)
        except _NoMerge:
            return None

    def ptr_conflict(self, s1, s2):
        m1, m2 = s1.mem, s2.mem
        for oid, a in m1.items():
            b = m2.get(oid)
            if b is None or a is b or not a.alive or not b.alive:
                continue
            d1, d2 = a.data, b.data
            for i in range(0, a.size - 7, 8):
                w1 = d1[i:i + 8]
                w2 = d2[i:i + 8]
                if w1 != w2:
                    try:
                        x1 = int.from_bytes(bytes(w1), "little")
                        x2 = int.from_bytes(bytes(w2), "little")
                    except TypeError:
                        continue
                    if (x1 + HALF) >> 32 in m1 or (x2 + HALF) >> 32 in m2:
                        return True
        return False

    def merge_obj(self, c, a, b, tok):
        o = Obj(a.id, a.size, list(a.data), tok, a.name, a.kind, a.const)
        o.alive = a.alive or b.alive
        if not a.alive:
            o.data = list(b.data)
            return o
        if not b.alive:
            return o
        d1, d2, d = a.data, b.data, o.data
        n = a.size
        if d1 == d2:
            return o
        i = 0
        while i < n:
            x, y = d1[i], d2[i]
            if x is y or (x == y and type(x) is type(y)):
                i += 1
                continue
            # whole-word runs
            if type(x) is tuple or type(y) is tuple:
                t = x[0] if type(x) is tuple else y[0]
                k0 = x[1] if type(x) is tuple else y[1]
                nb = t.w // 8
                if k0 == 0 and nb > 1 and i + nb <= n:
                    w1 = d1[i:i + nb]
                    w2 = d2[i:i + nb]
                    v1 = self._word(w1, nb)
                    v2 = self._word(w2, nb)
                    if v1 is not None and v2 is not None:
                        r = T.ite(c, v1, v2, 8 * nb)
                        self.put(o, i, r, nb)
                        i += nb
                        continue
            elif i + 8 <= n and i % 8 == 0 and type(x) is int and type(y) is int:
                # a differing 8-byte word of constants (pointers, sizes)
                w1, w2 = d1[i:i + 8], d2[i:i + 8]
                v1, v2 = self._word(w1, 8), self._word(w2, 8)
                if type(v1) is int and type(v2) is int and (v1 >> 36 or v2 >> 36) and not ((v1 >> 60) or (v2 >> 60)):
                    r = T.ite(c, v1, v2, 64)
                    self.put(o, i, r, 8)
                    i += 8
                    continue
            v1 = self.cell_val(x)
            v2 = self.cell_val(y)
            r = T.ite(c, v1, v2, 8)
            d[i] = r if type(r) is int else (r, 0)
            i += 1
        return o

    def _word(self, w, nb):
        b = w[0]
        if type(b) is int:
            try:
                return int.from_bytes(bytes(w), "little")
            except (TypeError, ValueError):
                return None
        if b is None:
            return None
        t = b[0]
        if b[1] != 0 or t.w != 8 * nb:
            return None
        for i in range(1, nb):
            x = w[i]
            if type(x) is not tuple or x[0] is not t or x[1] != i:
                return None
        return t

    def merge_val(self, c, a, b):
        if type(a) is int and type(b) is int and a == b:
            return a
        if type(a) is tuple:
            if type(b) is not tuple or len(a) != len(b):
                raise _NoMerge
            return tuple(x if x is y else self.merge_val(c, x, y) for x, y in zip(a, b))
        if a is None or b is None:
            raise _NoMerge
        if type(a) is Term:
            return T.ite(c, a, b, a.w)
        if type(b) is Term:
            return T.ite(c, a, b, b.w)
        if type(a) is int and type(b) is int:
            # width unknown: registers hold it; delay by using a 64-bit ite only when harmless
            return _WIDTHLESS(c, a, b)
        raise _NoMerge

    # ------------------------------------------------------------ running
    def run_function(self, st, name, args):
        """-> list of ('ret', state, val) / ('throw', state, Exc)"""
        f = self.m.functions.get(name)
        if f is None:
            raise Unsupported("no body for " + name)
        self.ensure_parsed(f)
        self.funcs[name] = self.funcs.get(name, 0) + 1
        regs = {}
        allocas = []
        for (pn, pt, byval), v in zip(f.params, args):
            if byval is not None:
                p = self.alloc(st, byval.size, "stack", name)
                self.write_bytes(st, p, self.read_bytes(st, v, byval.size))
                v = p
                allocas.append(p)
            regs[pn] = v
        self.stack.append(name)
        if len(self.stack) > 400:
            raise Unsupported("call depth")
        depth = len(self.stack)
        regs["!allocas"] = tuple(allocas)
        try:
            outs = self.region(st, regs, f, f.entry, 0, None, None)
        finally:
            del self.stack[depth - 1:]
        rets = []
        res = []
        for o in outs:
            kind, s, v, al = o
            for p in al:
                s.mem.pop(p >> 32, None)
            if kind == "ret":
                rets.append((s, None, v))
            else:
                res.append((kind, s, v))
        wrapped = len(rets) > 1
        rets = self.merge_states(rets)
        w = f.ret
        for s, _, v in rets:
            res.append(("ret", s, fixw(v, w)))
        return res

    def ensure_parsed(self, f):
        if not f.parsed:
            f.parse()
            self.flush_globals(None)
            self.fix_widths(f)

    def fix_widths(self, f):
        """register -> type map, needed to give widths to merged constants"""
        wt = {}
        for pn, pt, _ in f.params:
            wt[pn] = pt
        for b in f.order:
            for d, t, inc in b.phis:
                wt[d] = t
            for i in b.insts:
                if i.dest:
                    op = i.op
                    if op in ("icmp", "fcmp"):
                        wt[i.dest] = ir.int_ty(1) if i.ty.k != "vec" else ir.vec_ty(i.ty.n, ir.int_ty(1))
                    elif op == "alloca" or op == "gep":
                        wt[i.dest] = ir.PTR
                    elif op == "extractvalue":
                        t = i.ty
                        for k in i.x:
                            t = t.els[k] if t.k == "struct" else t.el
                        wt[i.dest] = t
                    elif op == "extractelement":
                        wt[i.dest] = i.ty.el
                    elif op == "shufflevector":
                        wt[i.dest] = ir.vec_ty(len(i.x), i.ty.el)
                    else:
                        wt[i.dest] = i.ty
            if b.term.op == "invoke" and b.term.dest:
                wt[b.term.dest] = b.term.ty
        f.wt = wt

    def fix_regs(self, f, regs):
        wt = f.wt
        for k, v in regs.items():
            if type(v) is _W or type(v) is tuple:
                t = wt.get(k)
                if t is not None:
                    regs[k] = fixw(v, t)

    def do_phis(self, blk, prev, regs):
        if not blk.phis:
            return
        vals = []
        for d, t, inc in blk.phis:
            v = inc[prev]
            if type(v) is str:
                v = regs[v]
            vals.append((d, v))
        for d, v in vals:
            regs[d] = v

    def region(self, st, regs, f, blk, idx, prev, stop):
        """execute until `stop` is reached or the function ends.
        outcomes: ('stop', state, regs, ()) ('ret', state, val, allocas) ('throw', state, exc, allocas)"""
        pending = []
        HAND = HANDLERS
        first = True
        while True:
            if idx == 0 and prev is not None:
                self.do_phis(blk, prev, regs)
                if blk is stop:
                    pending.append(("stop", st, regs, ()))
                    return pending
            insts = blk.insts
            n = len(insts)
            forked = None
            try:
                while idx < n:
                    ins = insts[idx]
                    self.steps += 1
                    op = ins.op
                    if op == "call":
                        r = self.call(st, regs, ins, f)
                        if r is not None:
                            forked = r
                            idx += 1
                            break
                    else:
                        HAND[op](self, st, regs, ins)
                    idx += 1
            except Abort:
                return pending
            if self.steps > self.max_steps:
                self.budget(st)
            if self.deadline is not None and (self.steps & 0x3FF) < n and time.time() > self.deadline:
                raise BudgetExceeded("time")
            if forked is not None:
                # list of (kind, state, val)
                conts = []
                for kind, s, v in forked:
                    if kind == "throw":
                        pending.append(("throw", s, v, regs["!allocas"]))
                    else:
                        r2 = dict(regs)
                        if ins.dest:
                            r2[ins.dest] = v
                        conts.append((s, r2))
                if not conts:
                    return pending
                if len(conts) == 1:
                    st, regs = conts[0]
                    continue
                P = blk.ipdom
                outs = []
                for s, r2 in conts:
                    outs.extend(self.region(s, r2, f, blk, idx, None, P))
                c = self.join(f, outs, P, stop, pending)
                if c is None:
                    return pending
                if c == "multi":
                    return pending
                st, regs = c
                blk, idx, prev = P, 0, None
                if P is stop:
                    pending.append(("stop", st, regs, ()))
                    return pending
                continue
            t = blk.term
            op = t.op
            self.steps += 1
            if op == "br":
                prev = blk.name
                blk = f.blocks[t.a[0]]
                idx = 0
                continue
            if op == "condbr":
                c = t.a[0]
                if type(c) is str:
                    c = regs[c]
                if type(c) is int:
                    prev = blk.name
                    blk = f.blocks[t.a[1] if c else t.a[2]]
                    idx = 0
                    continue
                if self.ct_log is not None:
                    self.ct_log.append(("branch", self.where(), c, st.pc))
                nc = T.not_(c)
                ft = S.feasible(st.pc, c)
                ff = S.feasible(st.pc, nc) if ft is not False else True
                if ft is False or ff is False:
                    prev = blk.name
                    blk = f.blocks[t.a[1] if ft is not False else t.a[2]]
                    idx = 0
                    continue
                targets = [(c, t.a[1]), (nc, t.a[2])]
            elif op == "switch":
                v = t.a[0]
                if type(v) is str:
                    v = regs[v]
                if type(v) is int:
                    prev = blk.name
                    for cv, tb in t.x:
                        if cv == v:
                            blk = f.blocks[tb]
                            break
                    else:
                        blk = f.blocks[t.a[1]]
                    idx = 0
                    continue
                if self.ct_log is not None:
                    self.ct_log.append(("branch", self.where(), v, st.pc))
                w = t.ty.w
                by = {}
                dflt = 1
                for cv, tb in t.x:
                    e = T.eq(v, cv, w)
                    by[tb] = T.bor(by.get(tb, 0), e)
                    dflt = T.band(dflt, T.not_(e))
                by[t.a[1]] = T.bor(by.get(t.a[1], 0), dflt)
                targets = [(c, tb) for tb, c in by.items() if S.feasible(st.pc, c) is not False]
                if len(targets) == 1:
                    prev = blk.name
                    blk = f.blocks[targets[0][1]]
                    idx = 0
                    continue
                if not targets:
                    return pending
            elif op == "ret":
                v = t.a[0]
                if type(v) is str:
                    v = regs[v]
                pending.append(("ret", st, v, regs["!allocas"]))
                return pending
            elif op == "unreachable":
                self.violation(st, "unreachable", "reached code the compiler considers unreachable (undefined behaviour)")
                return pending
            elif op == "resume":
                v = t.a[0]
                if type(v) is str:
                    v = regs[v]
                ex = Exc(v[0], self.exc_tinfo(st, v[0]))
                pending.append(("throw", st, ex, regs["!allocas"]))
                return pending
            elif op == "invoke":
                try:
                    r = self.call(st, regs, t, f, invoke=True)
                except Abort:
                    return pending
                if r is None:
                    prev = blk.name
                    blk = f.blocks[t.x["normal"]]
                    idx = 0
                    continue
                conts = []
                for kind, s, v in r:
                    r2 = dict(regs)
                    if kind == "throw":
                        r2["!exc"] = v
                        conts.append((s, r2, t.x["unwind"]))
                    else:
                        if t.dest:
                            r2[t.dest] = v
                        conts.append((s, r2, t.x["normal"]))
                if len(conts) == 1:
                    st, regs, tb = conts[0]
                    prev = blk.name
                    blk = f.blocks[tb]
                    idx = 0
                    continue
                if not conts:
                    return pending
                P = blk.ipdom
                outs = []
                for s, r2, tb in conts:
                    outs.extend(self.region(s, r2, f, f.blocks[tb], 0, blk.name, P))
                c = self.join(f, outs, P, stop, pending)
                if c is None or c == "multi":
                    return pending
                st, regs = c
                blk, idx, prev = P, 0, None
                if P is stop:
                    pending.append(("stop", st, regs, ()))
                    return pending
                continue
            else:
                raise Unsupported(op)
            # ---- fork
            self.forks += 1
            P = blk.ipdom
            outs = []
            last = len(targets) - 1
            base = st
            for k, (c, tb) in enumerate(targets):
                s = base.fork() if k != last else base
                r2 = dict(regs) if k != last else regs
                if k == last:
                    base.tok = object()
                s.pc = s.pc + (c,)
                outs.extend(self.region(s, r2, f, f.blocks[tb], 0, blk.name, P))
            c = self.join(f, outs, P, stop, pending)
            if c is None or c == "multi":
                return pending
            st, regs = c
            blk, idx, prev = P, 0, None
            if P is stop:
                pending.append(("stop", st, regs, ()))
                return pending

    def join(self, f, outs, P, stop, pending):
        stops = []
        for o in outs:
            if o[0] == "stop":
                stops.append((o[1], o[2], None))
            else:
                pending.append(o)
        if not stops:
            return None
        merged = self.merge_states(stops)
        for s, r, _ in merged:
            self.fix_regs(f, r)
        if len(merged) == 1:
            return merged[0][0], merged[0][1]
        if P is stop:
            for s, r, _ in merged:
                pending.append(("stop", s, r, ()))
            return "multi"
        for s, r, _ in merged:
            pending.extend(self.region(s, r, f, P, 0, None, stop))
        return "multi"

    def budget(self, st):
        self.violation(st, "nontermination", "step budget exceeded (possible endless loop)")
        raise BudgetExceeded("steps")

    # ------------------------------------------------------------ calls
    def call(self, st, regs, ins, f, invoke=False):
        callee, cargs = ins.a
        args = []
        for t, v, bv in cargs:
            if type(v) is str:
                v = regs[v]
            args.append(v)
        if type(callee) is str:
            a = regs[callee]
            if type(a) is not int:
                # symbolic function pointer: resolve alternatives
                leaves = []
                self._leaves(a, 1, leaves)
                leaves = [(c, x) for c, x in leaves if S.feasible(st.pc, c) is not False]
                if len(leaves) == 1:
                    a = leaves[0][1]
                else:
                    outs = []
                    for c, x in leaves:
                        s = st.fork()
                        s.pc = s.pc + (c,)
                        try:
                            r = self.call_named(s, self.fn_at(s, x), args, ins, cargs)
                            outs.extend(r)
                        except Abort:
                            pass
                    if not outs:
                        raise Abort
                    rets = [(s, None, v) for k, s, v in outs if k == "ret"]
                    rest = [o for o in outs if o[0] != "ret"]
                    return rest + [("ret", s, fixw(v, ins.ty)) for s, _, v in self.merge_states(rets)]
            name = self.fn_at(st, a)
        elif callee[0] == "fn":
            name = callee[1]
            if name in self.m.aliases:
                name = self.m.resolve_alias(name)
            if self.subst:
                name = self.subst.get(name, name)
        elif callee[0] == "addr":
            name = self.fn_at(st, callee[1])
        else:
            return self.inline_asm(st, regs, ins, callee, args)
        # fast path for intrinsics
        m = self.intercepts.get(name)
        if m is None:
            m = self.mtab.get(name)
            if m is None and name not in self.m.functions:
                m = self.find_model(name)
        if m is not None:
            r = m(self, st, args, ins, name)
            if type(r) is list:
                outs = r
            else:
                if ins.dest:
                    regs[ins.dest] = r
                return None
        else:
            outs = self.run_function(st, name, args)
        if len(outs) == 1 and outs[0][0] == "ret" and outs[0][1] is st:
            if ins.dest:
                regs[ins.dest] = outs[0][2]
            return None
        if not outs:
            raise Abort
        return outs

    def call_named(self, st, name, args, ins, cargs):
        m = self.intercepts.get(name) or self.mtab.get(name)
        if m is None and name not in self.m.functions:
            m = self.find_model(name)
        if m is not None:
            r = m(self, st, args, ins, name)
            return r if type(r) is list else [("ret", st, r)]
        return self.run_function(st, name, args)

    def _leaves(self, a, c, out):
        if type(a) is int:
            out.append((c, a))
        elif a.op == "ite":
            self._leaves(a.args[1], T.band(c, a.args[0]), out)
            self._leaves(a.args[2], T.band(c, T.not_(a.args[0])), out)
        else:
            raise Unsupported("symbolic function pointer")

    def fn_at(self, st, a):
        n = self.addrfn.get(a)
        if n is None:
            self.mem_fault(st, "call through an invalid function pointer")
            raise Abort
        return n

    def find_model(self, name):
        for p, fn in self.mprefix:
            if name.startswith(p):
                self.mtab[name] = fn
                return fn
        raise Unsupported("external function " + name)

    def inline_asm(self, st, regs, ins, callee, args):
        # an empty asm statement (optimisation barrier) has no effect on memory contents
        if callee[1] == '""':
            if ins.dest:
                regs[ins.dest] = args[0] if args else 0
            return None
        raise Unsupported("inline asm " + callee[1])

    # ------------------------------------------------------------ exceptions
    def exc_tinfo(self, st, p):
        return st.ghost.get(("exc", p))

    def throw(self, st, tinfo_name):
        p = self.alloc(st, 64, "exc")
        st.ghost[("exc", p)] = tinfo_name
        o = st.mem[p >> 32]
        o.data = [0] * 64
        return [("throw", st, Exc(p, tinfo_name))]

    def concretize(self, st, v, w, limit=300):
        """fork over all feasible values: list of (state, int)"""
        if type(v) is int:
            return [(st, v)]
        out = []
        excl = []
        vals = []
        while True:
            r, env = S.check_sat(list(st.pc) + excl, 20)
            if r == "unsat":
                break
            if r == "unknown":
                raise Unsupported("concretize: solver unknown")
            x = T.eval_terms([v], env)[0]
            vals.append(x)
            excl.append(T.not_(T.eq(v, x, w)))
            if len(vals) > limit:
                raise Unsupported("concretize: more than %d values" % limit)
        vals.sort()
        for x in vals:
            s = st.fork()
            e = T.eq(v, x, w)
            if type(e) is not int:
                s.pc = s.pc + (e,)
            out.append((s, x))
        return out


class _NoMerge(Exception):
    pass


class _W:
    """merged constants whose width is fixed when the register type is known"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b


def _WIDTHLESS(c, a, b):
    return _W(c, a, b)


def fixw(v, ty):
    if type(v) is _W:
        w = ty.bits
        if w is None:
            raise Unsupported("aggregate width")
        return T.ite(v.c, fixw(v.a, ty), fixw(v.b, ty), w)
    if type(v) is tuple:
        if ty.k == "struct":
            return tuple(fixw(x, t) for x, t in zip(v, ty.els))
        if ty.k == "arr":
            return tuple(fixw(x, ty.el) for x in v)
    return v


def subst_ite(a, cond, val):
    """replace ite(cond,..) inside the concat by the chosen arm"""
    parts = []
    for s, w in zip(a.args, a.aux):
        if type(s) is not int and s.op == "ite" and s.args[0] is cond:
            s = s.args[1] if val else s.args[2]
        parts.append((s, w))
    return T.concat_list(parts)


def trailing_zeros(t):
    if type(t) is int:
        return (t & -t).bit_length() - 1 if t else 63
    if t.op == "concat":
        n = 0
        for a, aw in zip(reversed(t.args), reversed(t.aux)):
            if type(a) is int and a == 0:
                n += aw
                continue
            return n + (trailing_zeros(a) if type(a) is int else (trailing_zeros(a) if a.op in ("add", "ite") else 0))
        return n
    if t.op == "add":
        z = 63
        for a, c in zip(t.args, t.aux):
            z = min(z, trailing_zeros(a) + ((c & -c).bit_length() - 1))
        return z
    if t.op == "ite":
        return min(trailing_zeros(t.args[1]), trailing_zeros(t.args[2]))
    return 0


# ---------------------------------------------------------------- instruction handlers
def _val(regs, v):
    return regs[v] if type(v) is str else v


def h_bin(fn):
    def h(ex, st, regs, i):
        a, b = i.a
        if type(a) is str:
            a = regs[a]
        if type(b) is str:
            b = regs[b]
        t = i.ty
        if t.k == "vec":
            regs[i.dest] = vecmap(fn, a, b, t)
        else:
            regs[i.dest] = fn(a, b, t.w)
    return h


def vecmap(fn, a, b, t):
    n, w = t.n, t.el.bits
    parts = []
    for k in range(n - 1, -1, -1):
        x = T.extract(a, k * w + w - 1, k * w, n * w)
        y = T.extract(b, k * w + w - 1, k * w, n * w)
        parts.append((fn(x, y, w), w))
    return T.concat_list(parts)


def h_bitwise(fn):
    def h(ex, st, regs, i):
        a, b = i.a
        if type(a) is str:
            a = regs[a]
        if type(b) is str:
            b = regs[b]
        regs[i.dest] = fn(a, b, i.ty.bits)
    return h


def h_add(ex, st, regs, i):
    a, b = i.a
    if type(a) is str:
        a = regs[a]
    if type(b) is str:
        b = regs[b]
    t = i.ty
    if t.k == "vec":
        regs[i.dest] = vecmap(T.add, a, b, t)
    elif type(a) is int and type(b) is int:
        regs[i.dest] = (a + b) & ((1 << t.w) - 1)
    else:
        regs[i.dest] = T.add(a, b, t.w)


def h_div(fn):
    def h(ex, st, regs, i):
        a, b = _val(regs, i.a[0]), _val(regs, i.a[1])
        w = i.ty.w
        z = T.eq(b, 0, w)
        if type(z) is int:
            if z:
                ex.violation(st, "divzero", "division by zero")
                raise Abort
        elif S.feasible(st.pc, z) is not False:
            ex.violation(st, "divzero", "division by zero", z)
            st.pc = st.pc + (T.not_(z),)
        regs[i.dest] = fn(a, b, w)
    return h


def h_icmp(ex, st, regs, i):
    a, b = i.a
    if type(a) is str:
        a = regs[a]
    if type(b) is str:
        b = regs[b]
    t = i.ty
    p = i.x
    if t.k == "vec":
        regs[i.dest] = vec_icmp(p, a, b, t)
        return
    regs[i.dest] = icmp(p, a, b, t.w)


def icmp(p, a, b, w):
    if type(a) is int and type(b) is int:
        if p == "eq":
            return 1 if a == b else 0
        if p == "ne":
            return 1 if a != b else 0
    if p == "eq":
        return T.eq(a, b, w)
    if p == "ne":
        return T.not_(T.eq(a, b, w))
    if p == "ult":
        return T.ult(a, b, w)
    if p == "ugt":
        return T.ult(b, a, w)
    if p == "ule":
        return T.not_(T.ult(b, a, w))
    if p == "uge":
        return T.not_(T.ult(a, b, w))
    if p == "slt":
        return T.slt(a, b, w)
    if p == "sgt":
        return T.slt(b, a, w)
    if p == "sle":
        return T.not_(T.slt(b, a, w))
    if p == "sge":
        return T.not_(T.slt(a, b, w))
    raise Unsupported(p)


def vec_icmp(p, a, b, t):
    n, w = t.n, t.el.bits
    parts = []
    for k in range(n - 1, -1, -1):
        x = T.extract(a, k * w + w - 1, k * w, n * w)
        y = T.extract(b, k * w + w - 1, k * w, n * w)
        parts.append((icmp(p, x, y, w), 1))
    return T.concat_list(parts)


def h_zext(ex, st, regs, i):
    v = _val(regs, i.a[0])
    if i.ty.k == "vec":
        regs[i.dest] = vcast(T.zext, v, i.x, i.ty)
    else:
        regs[i.dest] = v if type(v) is int else T.zext(v, i.x.w, i.ty.w)


def h_sext(ex, st, regs, i):
    v = _val(regs, i.a[0])
    if i.ty.k == "vec":
        regs[i.dest] = vcast(T.sext, v, i.x, i.ty)
    else:
        regs[i.dest] = T.sext(v, i.x.w, i.ty.w)


def vcast(fn, v, ft, tt):
    n, w, w2 = ft.n, ft.el.bits, tt.el.bits
    return T.concat_list([(fn(T.extract(v, k * w + w - 1, k * w, n * w), w, w2), w2) for k in range(n - 1, -1, -1)])


def h_trunc(ex, st, regs, i):
    v = _val(regs, i.a[0])
    if i.ty.k == "vec":
        regs[i.dest] = vcast(lambda x, w, w2: T.extract(x, w2 - 1, 0, w), v, i.x, i.ty)
    elif type(v) is int:
        regs[i.dest] = v & ((1 << i.ty.w) - 1)
    else:
        regs[i.dest] = T.extract(v, i.ty.w - 1, 0)


def h_same(ex, st, regs, i):
    v = _val(regs, i.a[0])
    ft, tt = i.x, i.ty
    if ft.bits == tt.bits:
        regs[i.dest] = v
    elif ft.bits > tt.bits:
        regs[i.dest] = T.extract(v, tt.bits - 1, 0, ft.bits)
    else:
        regs[i.dest] = T.zext(v, ft.bits, tt.bits)


def h_load(ex, st, regs, i):
    a = i.a[0]
    if type(a) is str:
        a = regs[a]
    t = i.ty
    if t.k in ("struct", "arr"):
        regs[i.dest] = ex.load_ty(st, a, t)
        return
    bits = t.bits
    if bits & 7:
        n = (bits + 7) // 8
        regs[i.dest] = T.extract(ex.load(st, a, n), bits - 1, 0, 8 * n)
    else:
        regs[i.dest] = ex.load(st, a, bits >> 3)


def h_store(ex, st, regs, i):
    v, a = i.a
    if type(v) is str:
        v = regs[v]
    if type(a) is str:
        a = regs[a]
    t = i.ty
    bits = t.bits
    if bits is None or bits & 7:
        ex.store_ty(st, a, v, t)
    else:
        ex.store(st, a, v, bits >> 3)


def h_gep(ex, st, regs, i):
    b = i.a[0]
    if type(b) is str:
        b = regs[b]
    c, dyn = i.x
    if not dyn:
        if type(b) is int:
            regs[i.dest] = (b + c) & M64
        else:
            regs[i.dest] = T.lincomb([(b, 1)], c, 64)
        return
    items = [(b, 1)]
    allc = type(b) is int
    for v, w, sc in dyn:
        if type(v) is str:
            v = regs[v]
        if type(v) is int:
            if v >> (w - 1):
                v -= 1 << w
            c += v * sc
        else:
            allc = False
            items.append((T.sext(v, w, 64) if w < 64 else v, sc))
    if allc:
        regs[i.dest] = (b + c) & M64
    else:
        regs[i.dest] = T.lincomb(items, c, 64)


def h_alloca(ex, st, regs, i):
    n = _val(regs, i.a[0])
    if type(n) is not int:
        raise Unsupported("dynamic alloca")
    a = ex.alloc(st, i.ty.size * n, "stack", i.dest)
    regs[i.dest] = a
    regs["!allocas"] = regs["!allocas"] + (a,)


def h_select(ex, st, regs, i):
    c, a, b = i.a
    if type(c) is str:
        c = regs[c]
    if type(a) is str:
        a = regs[a]
    if type(b) is str:
        b = regs[b]
    if i.x.k == "vec":
        n, w = i.ty.n, i.ty.el.bits
        regs[i.dest] = T.concat_list([(T.ite(T.extract(c, k, k, n), T.extract(a, k * w + w - 1, k * w, n * w), T.extract(b, k * w + w - 1, k * w, n * w), w), w) for k in range(n - 1, -1, -1)])
        return
    if type(c) is int:
        regs[i.dest] = a if c else b
    else:
        if type(a) is tuple:
            regs[i.dest] = tuple(fixw(_W(c, x, y), t) if not (x is y) else x for x, y, t in zip(a, b, i.ty.els))
        else:
            regs[i.dest] = T.ite(c, a, b, i.ty.bits)


def h_freeze(ex, st, regs, i):
    regs[i.dest] = _val(regs, i.a[0])


def _agg(regs, v):
    v = _val(regs, v)
    if type(v) is tuple:
        return tuple(_agg(regs, x) if type(x) in (str, tuple) else x for x in v)
    return v


def h_extractvalue(ex, st, regs, i):
    v = _agg(regs, i.a[0])
    for k in i.x:
        v = v[k]
    regs[i.dest] = v


def _ins(v, idx, x):
    if not idx:
        return x
    l = list(v)
    l[idx[0]] = _ins(l[idx[0]], idx[1:], x)
    return tuple(l)


def h_insertvalue(ex, st, regs, i):
    v = _agg(regs, i.a[0])
    regs[i.dest] = _ins(v, i.x, _val(regs, i.a[1]))


def h_extractelement(ex, st, regs, i):
    v = _val(regs, i.a[0])
    k = _val(regs, i.a[1])
    w = i.ty.el.bits
    if type(k) is not int:
        raise Unsupported("symbolic extractelement")
    regs[i.dest] = T.extract(v, k * w + w - 1, k * w, i.ty.bits)


def h_insertelement(ex, st, regs, i):
    v = _val(regs, i.a[0])
    x = _val(regs, i.a[1])
    k = _val(regs, i.a[2])
    if type(k) is not int:
        raise Unsupported("symbolic insertelement")
    w = i.ty.el.bits
    n = i.ty.n
    parts = []
    for j in range(n - 1, -1, -1):
        parts.append((x if j == k else T.extract(v, j * w + w - 1, j * w, n * w), w))
    regs[i.dest] = T.concat_list(parts)


def h_shuffle(ex, st, regs, i):
    a = _val(regs, i.a[0])
    b = _val(regs, i.a[1])
    w = i.ty.el.bits
    n = i.ty.n
    parts = []
    for k in reversed(i.x):
        if k is None:
            parts.append((0, w))
        elif k < n:
            parts.append((T.extract(a, k * w + w - 1, k * w, n * w), w))
        else:
            k -= n
            parts.append((T.extract(b, k * w + w - 1, k * w, n * w), w))
    regs[i.dest] = T.concat_list(parts)


def typeid(addr):
    return (addr >> 32) & 0x7FFFFFFF


def h_landingpad(ex, st, regs, i):
    e = regs["!exc"]
    cleanup, clauses = i.x
    sel = 0
    names = [e.tinfo] + STD_EXC.get(e.tinfo or "", [])
    for kind, v in clauses:
        if kind == "catch":
            if v == 0:
                sel = 1
                break
            for nm in names:
                if nm and ex.gaddr.get("@" + nm) == v:
                    sel = typeid(v)
                    break
            if sel:
                break
    regs[i.dest] = (e.ptr, sel)


def h_float(ex, st, regs, i):
    import struct
    t = i.ty if i.op not in ("fcmp",) else i.ty

    def dec(v, t):
        return struct.unpack("<f", struct.pack("<I", v))[0] if t.k == "float" else struct.unpack("<d", struct.pack("<Q", v))[0]

    def enc(v, t):
        return struct.unpack("<I", struct.pack("<f", v))[0] if t.k == "float" else struct.unpack("<Q", struct.pack("<d", v))[0]
    vs = [_val(regs, x) for x in i.a]
    if any(type(v) is not int for v in vs):
        raise Unsupported("symbolic floating point")
    op = i.op
    if op in ("fadd", "fsub", "fmul", "fdiv"):
        a, b = dec(vs[0], t), dec(vs[1], t)
        regs[i.dest] = enc({"fadd": lambda: a + b, "fsub": lambda: a - b, "fmul": lambda: a * b, "fdiv": lambda: a / b}[op](), t)
    elif op == "uitofp":
        regs[i.dest] = enc(float(vs[0]), t)
    elif op == "sitofp":
        regs[i.dest] = enc(float(T.tosigned(vs[0], i.x.w)), t)
    elif op in ("fptoui", "fptosi"):
        regs[i.dest] = int(dec(vs[0], i.x)) & mask(t.w)
    elif op in ("fpext", "fptrunc"):
        regs[i.dest] = enc(dec(vs[0], i.x), t)
    elif op == "fcmp":
        a, b = dec(vs[0], t), dec(vs[1], t)
        p = i.x
        regs[i.dest] = int({"lt": a < b, "gt": a > b, "le": a <= b, "ge": a >= b, "eq": a == b, "ne": a != b}[p[1:]])
    else:
        raise Unsupported(op)


def h_atomicrmw(ex, st, regs, i):
    a = _val(regs, i.a[0])
    v = _val(regs, i.a[1])
    n = i.ty.bits // 8
    old = ex.load(st, a, n)
    f = {"add": T.add, "sub": T.sub, "and": T.and_, "or": T.or_, "xor": T.xor_, "xchg": lambda o, x, w: x}[i.x]
    ex.store(st, a, f(old, v, i.ty.bits), n)
    regs[i.dest] = old


HANDLERS = {
    "add": h_add, "sub": h_bin(T.sub), "mul": h_bin(T.mul),
    "udiv": h_div(T.udiv), "urem": h_div(T.urem), "sdiv": h_div(T.sdiv), "srem": h_div(T.srem),
    "and": h_bitwise(T.and_), "or": h_bitwise(T.or_), "xor": h_bitwise(T.xor_),
    "shl": h_bin(T.shl), "lshr": h_bin(T.lshr), "ashr": h_bin(T.ashr),
    "icmp": h_icmp, "zext": h_zext, "sext": h_sext, "trunc": h_trunc,
    "bitcast": h_same, "ptrtoint": h_same, "inttoptr": h_same, "addrspacecast": h_same,
    "load": h_load, "store": h_store, "gep": h_gep, "alloca": h_alloca, "select": h_select, "freeze": h_freeze,
    "extractvalue": h_extractvalue, "insertvalue": h_insertvalue, "extractelement": h_extractelement,
    "insertelement": h_insertelement, "shufflevector": h_shuffle, "landingpad": h_landingpad,
    "atomicrmw": h_atomicrmw,
}
for _o in ("fadd", "fsub", "fmul", "fdiv", "uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc", "fcmp"):
    HANDLERS[_o] = h_float

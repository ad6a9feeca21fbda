"""Integer lifting: decide equalities of multi-word arithmetic.

Every term of width w is translated into an integer-valued polynomial over atoms whose value is exactly the
unsigned value of the term.  Atoms are input words and floor quotients Q(P, k) = floor(P / 2^k) of polynomials; a
wrapping operation of width w on the exact value P is P - 2^w Q(P, w).  Quotients are brought to a normal form by
facts that hold for all integers (moving multiples of 2^k out, floor of floor, interval bounds), so two circuits that
carry in a different order get the same polynomial.  A pair is equal when every coefficient of the difference is
divisible by 2^w (or, for congruences, by the modulus).  A failure to prove says nothing."""
import math, time, sys
import terms as T

sys.setrecursionlimit(100000)


class GiveUp(Exception):
    pass


class Atom:
    __slots__ = ("id", "lo", "hi", "kind", "data")


class Ctx:
    def __init__(self, deadline=None, prover=None, maxmono=60000):
        self.atoms = []
        self.byterm = {}
        self.byq = {}
        self.memo = {}
        self.deadline = deadline
        self.prover = prover  # f(term cond) -> True when the 1-bit term is valid
        self.maxmono = maxmono
        self.fq = {}
        self.zeroq = set()
        self.left = 200
        self.tries = 40
        self.frozen = set()
        self.sgn = {}

    # ---- atoms
    def new(self, lo, hi, kind, data):
        a = Atom()
        a.id = len(self.atoms)
        a.lo, a.hi, a.kind, a.data = lo, hi, kind, data
        self.atoms.append(a)
        return a

    def opaque(self, t):
        a = self.byterm.get(t.id)
        if a is None:
            lo, hi = T.rng(t)
            a = self.new(lo, hi, "t", t)
            self.byterm[t.id] = a
        return ({(a.id,): 1}, a.lo, a.hi)

    # ---- polynomials
    def addto(self, p, q, c=1):
        for m, k in q.items():
            v = p.get(m, 0) + c * k
            if v:
                p[m] = v
            else:
                p.pop(m, None)
        if len(p) > self.maxmono:
            raise GiveUp("size")
        return p

    def isbool(self, i):
        a = self.atoms[i]
        return a.hi - a.lo == 1 and (a.lo == 0 or a.lo == -1)

    def monomul(self, m, n):
        """product of monomials; booleans are idempotent (s*s = s or -s).  Returns (mono, sign)"""
        if not m:
            return n, 1
        if not n:
            return m, 1
        r = sorted(m + n)
        out = []
        sign = 1
        for x in r:
            if out and out[-1] == x and self.isbool(x):
                if self.atoms[x].lo == -1:
                    sign = -sign
                continue
            out.append(x)
        return tuple(out), sign

    def mul(self, p, q):
        if len(p) * len(q) > 4 * self.maxmono:
            raise GiveUp("size")
        if self.deadline and time.time() > self.deadline:
            raise GiveUp("time")
        r = {}
        for m, a in p.items():
            for n, b in q.items():
                k, s = self.monomul(m, n)
                v = r.get(k, 0) + a * b * s
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return r

    def interval(self, p):
        lo = hi = 0
        for m, c in p.items():
            l = h = 1
            for i in m:
                a = self.atoms[i]
                c4 = (l * a.lo, l * a.hi, h * a.lo, h * a.hi)
                l, h = min(c4), max(c4)
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        return lo, hi

    # ---- floor quotients
    def floorq(self, P, k, lo, hi):
        """floor(P / 2^k) as (poly, lo, hi), lo <= P <= hi known"""
        if k <= 0:
            return P, lo, hi
        l, h = lo >> k, hi >> k
        if l == h:
            return ({(): l} if l else {}), l, h
        l2, h2 = self.interval(P)
        lo, hi = max(lo, l2), min(hi, h2)
        l, h = lo >> k, hi >> k
        if l == h:
            return ({(): l} if l else {}), l, h
        if lo < 0 and lo >= -(1 << k) and hi < (1 << k):
            j = max((-lo - 1).bit_length(), hi.bit_length() if hi > 0 else 0)
            k = min(k, j) if j else k
            if j == 0:
                # P in {-1, 0}
                return dict(P), lo, hi
        q = self._floor(P, k, 0)
        return q, l, h

    def _floor(self, P, k, depth):
        if self.deadline and time.time() > self.deadline:
            raise GiveUp("time")
        key = (frozenset(P.items()), k)
        r = self.fq.get(key)
        if r is None:
            r = self.__floor(P, k, depth)
            self.fq[key] = r
        return dict(r)

    def __floor(self, P, k, depth):
        out = {}
        R = {}
        m = (1 << k) - 1
        for mono, c in P.items():
            d = c >> k
            c &= m
            if mono and c > 1 << (k - 1): # coefficients nearest to zero
                c -= 1 << k
                d += 1
            if d:
                out[mono] = d
            if c:
                R[mono] = c
        if not R:
            return out
        if depth > 200:
            raise GiveUp("depth")
        # common power of two
        g = k
        for mono, c in R.items():
            if mono:
                g = min(g, (c & -c).bit_length() - 1)
        if g > 0:
            if g >= k:
                return out  # only a constant below 2^k is left
            R = {mono: c >> g for mono, c in R.items() if c >> g} # (only the constant has bits below g)
            k -= g
            return self.addto(out, self._floor(R, k, depth + 1))
        # a quotient with coefficient 1 or -1: floor((A + floor(B/2^j)) / 2^k) = floor((2^j A + B) / 2^(j+k))
        cand = []
        for mono, c in R.items():
            if len(mono) == 1 and (c == 1 or c == -1):
                a = self.atoms[mono[0]]
                if a.kind == "q" and a.id not in self.frozen:
                    cand.append((mono, c, a))
        if cand:
            mono, c, a = max(cand, key=lambda x: (x[1] == 1, x[2].data[1], x[2].id))
            B, j = a.data
            A = dict(R)
            del A[mono]
            A = {n: x << j for n, x in A.items()}
            if c == 1:
                self.addto(A, B)
            else:
                self.addto(A, B, -1)
                A[()] = A.get((), 0) + (1 << j) - 1
                if not A[()]:
                    del A[()]
            return self.addto(out, self._floor(A, j + k, depth + 1))
        # exact intervals, also with coefficients taken as negative
        lo, hi = self.interval(R)
        if lo >> k == hi >> k:
            if lo >> k:
                self.addto(out, {(): lo >> k})
            return out
        # boolean conditions multiplied with other atoms: expand
        bools = set()
        for mono in R:
            if len(mono) > 1:
                for i in mono:
                    if self.isbool(i):
                        bools.add(i)
        if bools and depth < 12:
            b = min(bools)
            v = self.atoms[b].lo if self.atoms[b].lo else 1
            P0, P1 = {}, {}
            for mono, c in R.items():
                n = mono.count(b)
                if n:
                    rest = tuple(x for x in mono if x != b)
                    P1[rest] = P1.get(rest, 0) + c * (v ** n)
                else:
                    P0[mono] = c
                    P1[mono] = P1.get(mono, 0) + c
            P1 = {a: c for a, c in P1.items() if c}
            q0 = self._floor(P0, k, depth + 1)
            q1 = self._floor(P1, k, depth + 1)
            d = self.addto(dict(q1), q0, -1)
            self.addto(out, q0)
            return self.addto(out, self.mul({(b,): v}, d))
        # floor((-P - 1) / 2^k) = -1 - floor(P / 2^k): one of the two signs is the normal form
        flip = False
        for mono in sorted(R):
            if mono and R[mono] != 1 << (k - 1):
                flip = R[mono] < 0
                break
        if flip:
            N = {mono: -c for mono, c in R.items()}
            N[()] = N.get((), 0) - 1
            if not N[()]:
                del N[()]
            self.addto(out, {(): -1})
            return self.addto(out, self._floor(N, k, depth + 1), -1)
        key = (frozenset(R.items()), k)
        a = self.byq.get(key)
        if a is None:
            a = self.new(lo >> k, hi >> k, "q", (R, k))
            self.byq[key] = a
            if 1 < a.hi - a.lo <= 3 and self.tries > 0:
                self.tighten(a)
        if a.lo == a.hi:
            return self.addto(out, {(): a.lo} if a.lo else {})
        return self.addto(out, {(a.id,): 1})

    def tighten(self, a):
        """a quotient with few possible values: exclude the extreme ones that the definitions rule out"""
        for side in (0, 1):
            while a.lo < a.hi and self.tries > 0:
                L = Lia(self, 0.5, 40, depth=3)
                v = L.atom(a.id)
                if not L.refuted([v == (a.hi if side else a.lo)]):
                    self.tries -= 1
                    break
                if side:
                    a.hi -= 1
                else:
                    a.lo += 1

    # ---- terms
    def wrap(self, P, lo, hi, w, t=None):
        if lo >= 0 and hi < 1 << w:
            return P, lo, hi
        q, ql, qh = self.floorq(P, w, lo, hi)
        if ql != qh and self.prover is not None and t is not None and self.left > 0 and t.op == "add":
            c = self.nowrap(t, lo, hi, w)
            if c is not None:
                q, ql, qh = ({(): c} if c else {}), c, c
        r = dict(P)
        self.addto(r, q, -(1 << w))
        if (ql, qh) == (-1, 0) and t is not None:
            self.sgn[t.id] = (q, lo, hi)
        if ql == qh:
            return r, max(0, lo - (ql << w)), min((1 << w) - 1, hi - (ql << w))
        return r, 0, (1 << w) - 1

    def nowrap(self, t, lo, hi, w):
        return self.prover(self, t, lo, hi, w)

    def lift(self, t):
        if type(t) is int:
            return ({(): t} if t else {}), t, t
        r = self.memo.get(t.id)
        if r is None:
            # bottom-up to keep the recursion shallow
            for x in T.topo([t]):
                if x.id not in self.memo:
                    r = self.lift1(x)
                    l, h = T.rng(x)
                    lo, hi = max(l, r[1]), min(h, r[2])
                    if len(r[0]) > self.maxmono:
                        raise GiveUp("size")
                    self.memo[x.id] = (r[0], lo, hi)
            r = self.memo[t.id]
        return r

    def get(self, x):
        if type(x) is int:
            return ({(): x} if x else {}), x, x
        return self.memo[x.id] if x.id in self.memo else self.lift(x)

    def lift1(self, t):
        op, w = t.op, t.w
        if op in ("var", "uf", "tbl"):
            return self.opaque(t)
        if op == "add":
            P = {}
            lo = hi = 0
            k = t.aux[-1]
            half = 1 << (w - 1)
            if k > half and len(t.args):
                k -= 1 << w
            if k:
                P[()] = k
            lo = hi = k
            for a, c in zip(t.args, t.aux):
                if c >= half:
                    c -= 1 << w
                q, l, h = self.addend(a, w)
                self.addto(P, q, c)
                lo += c * (l if c > 0 else h)
                hi += c * (h if c > 0 else l)
            return self.wrap(P, lo, hi, w, t)
        if op == "mul":
            a, b = self.get(t.args[0]), self.get(t.args[1])
            return self.wrap(self.mul(a[0], b[0]), a[1] * b[1], a[2] * b[2], w)
        if op == "concat":
            P = {}
            lo = hi = 0
            pos = w
            for a, aw in zip(t.args, t.aux):
                pos -= aw
                q, l, h = self.get(a)
                self.addto(P, q, 1 << pos)
                lo += l << pos
                hi += h << pos
            return P, lo, hi
        if op == "extract":
            hi, lo = t.aux
            return self.extract(t.args[0], hi, lo, t)
        if op == "sext":
            x = t.args[0]
            fw = t.aux
            P, l, h = self.get(x)
            q, ql, qh = self.floorq(P, fw - 1, l, h)
            r = dict(P)
            self.addto(r, q, (1 << w) - (1 << fw))
            return r, 0, (1 << w) - 1
        if op == "ite":
            c = self.get(t.args[0])
            a, b = self.get(t.args[1]), self.get(t.args[2])
            return self.ite(c, a, b)
        if op == "not":
            p, l, h = self.get(t.args[0])
            r = {(): 1}
            self.addto(r, p, -1)
            return r, 1 - h, 1 - l
        if w == 1 and op in ("and", "or", "xor"):
            r = self.get(t.args[0])[0]
            for x in t.args[1:]:
                q = self.get(x)[0]
                pq = self.mul(r, q)
                if op == "and":
                    r = pq
                else:
                    r = self.addto(dict(r), q)
                    self.addto(r, pq, -1 if op == "or" else -2)
            return r, 0, 1
        if op in ("xor", "and", "or"):
            return self.bitop(t)
        if op in ("ult", "ule"):
            x, y = t.args
            if op == "ule":
                x, y = y, x
            r = self.signlt(x, y, t.aux)
            if r is not None:
                if op == "ule":
                    n = {(): 1}
                    return self.addto(n, r, -1), 0, 1
                return r, 0, 1
            return self.lt(self.get(x), self.get(y), op == "ule")
        if op in ("slt", "sle"):
            vw = t.aux
            x, y = [self.signed(a, vw) for a in t.args]
            if op == "sle":
                x, y = y, x
            return self.lt(x, y, op == "sle")
        if op == "eq":
            return self.eq(t)
        if op == "urem" and type(t.args[1]) is int and t.args[1] & (t.args[1] - 1) == 0:
            k = t.args[1].bit_length() - 1
            return self.extract(t.args[0], k - 1, 0, t)
        return self.opaque(t)

    def addend(self, a, w):
        """a value congruent to a modulo 2^w: negative constants and sign extensions are taken as negative"""
        if type(a) is not int:
            if a.op == "sext":
                return self.signed(a.args[0], a.aux)
            if a.op == "ite" and any(type(x) is int and x >> (w - 1) for x in a.args[1:]):
                v = []
                for x in a.args[1:]:
                    if type(x) is int:
                        if x >> (w - 1):
                            x -= 1 << w
                        v.append(({(): x} if x else {}, x, x))
                    else:
                        v.append(self.addend(x, w))
                return self.ite(self.get(a.args[0]), *v)
        return self.get(a)

    def bitop(self, t):
        w = t.w
        if t.op == "xor" and len(t.args) == 2 and type(t.args[1]) is int and t.args[1] == T.mask(w):
            p, l, h = self.get(t.args[0])
            m = T.mask(w)
            r = {(): m}
            self.addto(r, p, -1)
            return r, m - h, m - l
        return self.opaque(t)

    def signed(self, x, w):
        P, l, h = self.get(x)
        q, ql, qh = self.floorq(P, w - 1, l, h)
        r = dict(P)
        self.addto(r, q, -(1 << w))
        if ql == qh:
            return r, l - (ql << w), h - (ql << w)
        return r, -(1 << (w - 1)), (1 << (w - 1)) - 1

    def signlt(self, x, y, w):
        """[x < y] where one side is constant and the other is P + 2^w s, s = [P < 0], with the constant between"""
        if type(x) is int and type(y) is not int:
            self.get(y)
            g = self.sgn.get(y.id)
            if g and g[2] <= x < (1 << w) + g[1]:
                n = {}
                return self.addto(n, g[0], -1)
        elif type(y) is int and type(x) is not int:
            self.get(x)
            g = self.sgn.get(x.id)
            if g and g[2] < y <= (1 << w) + g[1]:
                n = {(): 1}
                return self.addto(n, g[0])
        return None

    def lt(self, x, y, neg):
        """[x < y] (or its negation)"""
        D = self.addto(dict(x[0]), y[0], -1)
        lo, hi = x[1] - y[2], x[2] - y[1]
        if hi < 0:
            return ({} if neg else {(): 1}), 0 if neg else 1, 0 if neg else 1
        if lo >= 0:
            return ({(): 1} if neg else {}), 1 if neg else 0, 1 if neg else 0
        k = max((-lo - 1).bit_length(), hi.bit_length())
        q, ql, qh = self.floorq(D, k, lo, hi)
        r = {}
        if neg:
            r[()] = 1
            self.addto(r, q)
        else:
            self.addto(r, q, -1)
        return r, 0, 1

    def eq(self, t):
        x, y = self.get(t.args[0]), self.get(t.args[1])
        D = self.addto(dict(x[0]), y[0], -1)
        lo, hi = x[1] - y[2], x[2] - y[1]
        if not D:
            return {(): 1}, 1, 1
        if lo > 0 or hi < 0:
            return {}, 0, 0
        g = 0
        for c in D.values():
            g = math.gcd(g, c)
        if g > 1:
            D = {m: c // g for m, c in D.items()}
            lo, hi = -((-lo) // g), hi // g
        l2, h2 = self.interval(D)
        lo, hi = max(lo, l2), min(hi, h2)
        if lo == hi:
            return ({(): 1} if lo == 0 else {}), int(lo == 0), int(lo == 0)
        if (lo, hi) == (0, 1):
            r = {(): 1}
            return self.addto(r, D, -1), 0, 1
        if (lo, hi) == (-1, 0):
            r = {(): 1}
            return self.addto(r, D, 1), 0, 1
        # an opaque boolean, the same for D and -D
        items = tuple(sorted(D.items()))
        neg = tuple(sorted((m, -c) for m, c in D.items()))
        key = ("eq", min(items, neg))
        a = self.byq.get(key)
        if a is None:
            a = self.new(0, 1, "e", D)
            self.byq[key] = a
        return {(a.id,): 1}, 0, 1

    def named(self, c, create=True):
        """a composite condition becomes one boolean atom"""
        p, l, h = c
        if l == h:
            return c
        q = p
        neg = p.get((), 0) == 1
        if neg:
            q = {m: -k for m, k in p.items()}
            del q[()]
        if len(q) == 1 and len(next(iter(q))) == 1 and self.isbool(next(iter(q))[0]):
            return c
        p = q
        key = ("b", frozenset(p.items()))
        a = self.byq.get(key)
        if a is None and not create:
            return c
        if a is None:
            a = self.new(0, 1, "b", p)
            self.byq[key] = a
        return ({(): 1, (a.id,): -1} if neg else {(a.id,): 1}), 0, 1

    def freeze(self, c):
        """a condition that selects words stays an atom of its own: it is not merged into later quotients"""
        m = [x for x in c[0] if x]
        if len(m) == 1 and len(m[0]) == 1:
            self.frozen.add(m[0][0])

    def ite(self, c, a, b):
        D = self.addto(dict(a[0]), b[0], -1)
        d = abs(D.get((), 0)) if all(not m for m in D) else None
        # a choice between x and x + 1, or 0 and -1, is a carry or borrow: its condition stays a polynomial
        if d is None:
            c = self.named(c)
            self.freeze(c)
        elif d != 1 and (d & (d + 1) or d < 1 << 40):
            c = self.named(c)
            self.freeze(c)
        else:
            c = self.named(c, False)
        r = dict(b[0])
        self.addto(r, self.mul(c[0], D))
        return r, min(a[1], b[1]), max(a[2], b[2])

    def extract(self, x, hi, lo, t):
        if type(x) is not int and x.op == "ite":
            c = self.get(x.args[0])
            parts = []
            for y in x.args[1:]:
                if type(y) is int:
                    v = (y >> lo) & T.mask(hi - lo + 1)
                    parts.append((({(): v} if v else {}), v, v))
                else:
                    parts.append(self.extract(y, hi, lo, None))
            return self.ite(c, *parts)
        P, l, h = self.get(x)
        q1, l1, h1 = self.floorq(P, lo, l, h)
        q2, l2, h2 = self.floorq(P, hi + 1, l, h)
        r = dict(q1)
        n = hi - lo + 1
        self.addto(r, q2, -(1 << n))
        if l2 == h2:
            return r, l1 - (l2 << n), h1 - (l2 << n)
        return r, 0, (1 << n) - 1


class Lia:
    """linear integer arithmetic over the atoms, their bounds and their defining inequalities (products of words abstracted)"""

    def __init__(self, ctx, timeout, limit=400, depth=99):
        import z3
        self.depth = depth
        self.z3 = z3
        self.ctx = ctx
        self.vars = {}
        self.s = z3.Solver()
        self.s.set("timeout", int(timeout * 1000))
        self.done = set()
        self.todo = []
        self.level = 0
        self.limit = limit

    def atom(self, i):
        v = self.vars.get(i)
        if v is None:
            a = self.ctx.atoms[i]
            v = self.z3.Int("a%d" % i)
            self.vars[i] = v
            self.s.add(v >= a.lo, v <= a.hi)
            self.todo.append((a, self.level))
        return v

    def mono(self, m):
        z3 = self.z3
        if len(m) == 1:
            return self.atom(m[0])
        b = [i for i in m if self.ctx.isbool(i)]
        r = tuple(i for i in m if not self.ctx.isbool(i))
        if len(r) > 1:
            x = self.vars.get(r)
            if x is None:
                lo, hi = self.ctx.interval({r: 1})
                x = z3.Int("m" + "_".join(map(str, r)))
                self.vars[r] = x
                self.s.add(x >= lo, x <= hi)
        elif r:
            x = self.atom(r[0])
        else:
            x = z3.IntVal(1)
        sign = 1
        cs = []
        for i in set(b):
            v = self.atom(i)
            cs.append(v != 0)
            if self.ctx.atoms[i].lo == -1 and b.count(i) % 2:
                sign = -sign
        if cs:
            x = z3.If(z3.And(cs), x if sign > 0 else -x, 0)
        return x

    def poly(self, p):
        z3 = self.z3
        terms = []
        for m, c in p.items():
            terms.append(z3.IntVal(c) if not m else self.mono(m) * z3.IntVal(c))
        return z3.Sum(terms) if len(terms) > 1 else terms[0] if terms else z3.IntVal(0)

    def close(self):
        n = 0
        while self.todo:
            a, d = self.todo.pop(0)
            if d >= self.depth:
                continue
            self.level = d + 1
            n += 1
            if n > self.limit:
                return False
            v = self.vars[a.id]
            if a.kind == "q":
                P, k = a.data
                e = self.poly(P)
                self.s.add(e >= v * (1 << k), e <= v * (1 << k) + ((1 << k) - 1))
            elif a.kind == "b":
                self.s.add(v == self.poly(a.data))
        return True

    def refuted(self, cs):
        """no assignment satisfies cs"""
        for c in cs:
            self.s.add(c)
        if not self.close():
            return False
        return str(self.s.check()) == "unsat"


def lia_zero(ctx, D, M, timeout):
    D = {m: c % M if c % M <= M // 2 else c % M - M for m, c in D.items() if c % M}
    if not D:
        return True
    lo, hi = ctx.interval(D)
    t0 = time.time()
    for depth in (2, 3, 5, 9, 99):
        left = timeout - (time.time() - t0)
        if left <= 0:
            return False
        L = Lia(ctx, min(left, 1.0 if depth < 5 else left), depth=depth)
        e = L.poly(D)
        if hi - lo < M * 4:
            cs = [e != j * M for j in range(-(-lo // M), hi // M + 1)]
        else:
            cs = [e != 0]
        if L.refuted(cs):
            return True
    return False


def lift_equal(ctx, a, b, w, modulus=None, timeout=10.0):
    """True if a == b (mod 2^w, or the given modulus) is established"""
    try:
        A, B = ctx.lift(a), ctx.lift(b)
        D = ctx.addto(dict(A[0]), B[0], -1)
    except GiveUp:
        return None
    M = modulus or (1 << w)
    if all(c % M == 0 for c in D.values()):
        return True
    if len(D) < 200 and lia_zero(ctx, D, M, timeout):
        return True
    return None

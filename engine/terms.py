"""Hash-consed bit-vector terms with aggressive local simplification.

A value is either a Python int (a constant; the width is known from context) or a Term.
Booleans are 1-bit values.  Concatenation is most-significant part first.
"""
import itertools

_tab = {}
_count = itertools.count(1)


class Term:
    __slots__ = ("op", "args", "aux", "w", "id", "_rng", "_z3", "__weakref__")

    def __init__(self, op, args, aux, w):
        self.op = op
        self.args = args
        self.aux = aux
        self.w = w
        self.id = next(_count)
        self._rng = None
        self._z3 = None

    def __repr__(self):
        return "<%s#%d:%d>" % (self.op, self.id, self.w)

    # identity hashing (terms are unique)


def is_const(x):
    return type(x) is int


def _key(x):
    return x if type(x) is int else ("t", x.id)


def mk(op, args, aux, w):
    k = (op, tuple(a if type(a) is int else -a.id for a in args), aux, w)
    t = _tab.get(k)
    if t is None:
        t = Term(op, args, aux, w)
        _tab[k] = t
    return t


_varnames = {}


def var(name, w):
    t = _varnames.get(name)
    if t is None:
        t = Term("var", (), name, w)
        _varnames[name] = t
    elif t.w != w:
        raise ValueError("variable %s redeclared with another width" % name)
    return t


def reset():
    _tab.clear()
    _varnames.clear()
    _tables.clear()
    _ext_memo.clear()
    _bwh.clear()
    _fext_memo.clear()
    _table_ids.clear()


def mask(w):
    return (1 << w) - 1


# ---------------------------------------------------------------- ranges
def rng(t, w=None):
    """unsigned interval (lo, hi) of a value"""
    if type(t) is int:
        return (t, t)
    r = t._rng
    if r is None:
        r = _rng(t)
        t._rng = r
    return r


def _rng(t):
    op = t.op
    w = t.w
    full = (0, (1 << w) - 1)
    if op == "concat":
        lo = hi = 0
        for a, aw in zip(t.args, t.aux):
            l, h = rng(a)
            lo = (lo << aw) | l
            hi = (hi << aw) | h
        return (lo, hi)
    if op == "ite":
        l1, h1 = rng(t.args[1])
        l2, h2 = rng(t.args[2])
        return (min(l1, l2), max(h1, h2))
    if op == "add":
        lo = hi = t.aux[-1]
        # coefficients as signed
        m = 1 << w
        for a, c in zip(t.args, t.aux):
            l, h = rng(a)
            if c > m >> 1:
                c -= m
                lo += c * h
                hi += c * l
            else:
                lo += c * l
                hi += c * h
        if lo >= 0 and hi < m:
            return (lo, hi)
        # entirely within one wrap
        k = lo // m
        if k == hi // m:
            return (lo - k * m, hi - k * m)
        return full
    if op == "mul":
        l1, h1 = rng(t.args[0])
        l2, h2 = rng(t.args[1])
        if h1 * h2 < (1 << w):
            return (l1 * l2, h1 * h2)
        return full
    if op == "and":
        h = full[1]
        for a in t.args:
            h = min(h, rng(a)[1])
        return (0, h)
    if op == "or" or op == "xor":
        h = 0
        for a in t.args:
            h = max(h, rng(a)[1].bit_length())
        lo = 0
        if op == "or":
            lo = max(rng(a)[0] for a in t.args)
        return (lo, mask(h))
    if op == "extract":
        hi, lo = t.aux
        l, h = rng(t.args[0])
        if (l >> (hi + 1)) == (h >> (hi + 1)):
            if (l >> lo) <= (h >> lo) :
                return ((l >> lo) & mask(hi - lo + 1), (h >> lo) & mask(hi - lo + 1))
        return full
    if op == "urem":
        l2, h2 = rng(t.args[1])
        if l2 > 0:
            return (0, min(h2 - 1, rng(t.args[0])[1]))
        return full
    if op == "udiv":
        l1, h1 = rng(t.args[0])
        l2, h2 = rng(t.args[1])
        if l2 > 0:
            return (l1 // h2, h1 // l2)
        return full
    if op == "lshr":
        l1, h1 = rng(t.args[0])
        l2, h2 = rng(t.args[1])
        return (l1 >> min(h2, w), h1 >> min(l2, w))
    if op == "tbl":
        vals = table(t.aux)
        return (min(vals), max(vals))
    if op == "ctpop":
        return (0, t.args[0].w)
    return full


# ---------------------------------------------------------------- tables
_tables = []
_table_ids = {}


def table_id(vals):
    vals = tuple(vals)
    i = _table_ids.get(vals)
    if i is None:
        i = len(_tables)
        _tables.append(vals)
        _table_ids[vals] = i
    return i


def table(i):
    return _tables[i]


def tbl(vals, idx, w):
    """vals[idx]; idx must be < len(vals) whenever the result matters (else result is vals[0])"""
    if type(idx) is int:
        return vals[idx] if idx < len(vals) else vals[0]
    lo, hi = rng(idx)
    if lo >= len(vals):
        return vals[0]
    # trim trailing part not reachable
    n = min(len(vals), hi + 1)
    vals = tuple(vals[:n])
    f = vals[0]
    if all(v == f for v in vals):
        return f
    if n == 2 and idx.w == 1:
        return ite(idx, vals[1], vals[0], w)
    if n <= (1 << w) and all(v == i for i, v in enumerate(vals)) and n == hi + 1:
        return zext(idx, idx.w, w) if w >= idx.w else extract(idx, w - 1, 0, idx.w)
    return mk("tbl", (idx,), table_id(vals), w)


# ---------------------------------------------------------------- concat / extract
def segs(x, w):
    """list of (value, width) msb first"""
    if type(x) is int:
        return [(x, w)]
    if x.op == "concat":
        return list(zip(x.args, x.aux))
    return [(x, w)]


def concat_list(parts):
    """parts: list of (value,width) msb first"""
    out = []

    def push(v, vw):
        if vw == 0:
            return
        if type(v) is not int and v.op == "concat":
            for a, aw in zip(v.args, v.aux):
                push(a, aw)
            return
        if out:
            pv, pw = out[-1]
            if type(v) is int:
                if type(pv) is int:
                    out[-1] = ((pv << vw) | v, pw + vw)
                    return
            elif type(pv) is not int:
                # merge adjacent extracts
                bv, bh, bl = (pv.args[0], pv.aux[0], pv.aux[1]) if pv.op == "extract" else (pv, pw - 1, 0)
                cv, ch, cl = (v.args[0], v.aux[0], v.aux[1]) if v.op == "extract" else (v, vw - 1, 0)
                if bv is cv and bl == ch + 1:
                    if bh == bv.w - 1 and cl == 0:
                        out[-1] = (bv, pw + vw)
                    else:
                        out[-1] = (mk("extract", (bv,), (bh, cl), bh - cl + 1), pw + vw)
                    return
                # sign replication handled elsewhere
        out.append((v, vw))

    for v, vw in parts:
        push(v, vw)
    if not out:
        return 0
    if len(out) == 1:
        return out[0][0]
    w = sum(x[1] for x in out)
    return mk("concat", tuple(x[0] for x in out), tuple(x[1] for x in out), w)


def concat(a, aw, b, bw):
    if type(a) is int and type(b) is int:
        return (a << bw) | b
    return concat_list([(a, aw), (b, bw)])


def zext(x, fw, tw):
    if type(x) is int or fw == tw:
        return x
    return concat_list([(0, tw - fw), (x, fw)])


def sext(x, fw, tw):
    if fw == tw:
        return x
    if type(x) is int:
        if x >> (fw - 1) & 1:
            return x | (mask(tw) ^ mask(fw))
        return x
    # known non-negative
    lo, hi = rng(x)
    if hi < (1 << (fw - 1)):
        return zext(x, fw, tw)
    if fw == 1:
        return ite(x, mask(tw), 0, tw)
    if x.op == "ite" and type(x.args[1]) is int and type(x.args[2]) is int:
        return ite(x.args[0], sext(x.args[1], fw, tw), sext(x.args[2], fw, tw), tw)
    return mk("sext", (x,), fw, tw)


def tzeros(x, w):
    """number of low bits known to be zero"""
    if type(x) is int:
        return w if x == 0 else (x & -x).bit_length() - 1
    if x.op == "concat":
        n = 0
        for a, aw in zip(reversed(x.args), reversed(x.aux)):
            k = tzeros(a, aw)
            n += k
            if k < aw:
                break
        return n
    if x.op == "add":
        return min(min(tzeros(a, w) + tzeros(c, w) for a, c in zip(x.args, x.aux)), tzeros(x.aux[-1], w))
    return 0


def known_low(x):
    """(k, value): the k low bits of a sum that are constant"""
    if type(x) is int or x.op != "add":
        return 0, 0
    k = min(min(tzeros(a, x.w) + tzeros(c, x.w) for a, c in zip(x.args, x.aux)), x.w)
    return k, x.aux[-1] & mask(k)


_ext_memo = {}
_fext_memo = {}


def extract(x, hi, lo, w=None):
    if type(x) is int:
        return (x >> lo) & ((1 << (hi - lo + 1)) - 1)
    k = (x.id, hi, lo)
    r = _ext_memo.get(k)
    if r is None:
        r = _ext_memo[k] = _extract(x, hi, lo)
    return r


def _free_extract(a, hi, lo, w):
    if type(a) is int:
        return (a >> lo) & mask(hi - lo + 1)
    k = (a.id, hi, lo)
    r = _fext_memo.get(k, 0.5)
    if r == 0.5:
        r = _fext_memo[k] = _free_extract0(a, hi, lo, w)
    return r


def _extract(x, hi, lo):
    w = x.w
    nw = hi - lo + 1
    if nw == w:
        return x
    op = x.op
    if op == "extract":
        return extract(x.args[0], x.aux[1] + hi, x.aux[1] + lo)
    if op == "concat":
        pos = w
        out = []
        for a, aw in zip(x.args, x.aux):
            ph, pl = pos - 1, pos - aw
            pos = pl
            if pl > hi:
                continue
            if ph < lo:
                break
            h2, l2 = min(hi, ph) - pl, max(lo, pl) - pl
            out.append((extract(a, h2, l2) if (h2 - l2 + 1) != aw else a, h2 - l2 + 1))
        return concat_list(out)
    if op == "sext":
        fw = x.aux
        if hi < fw:
            return extract(x.args[0], hi, lo)
        if lo < fw - 1:
            return sext(extract(x.args[0], fw - 1, lo), fw - lo, nw)
        # all sign bits
        s = extract(x.args[0], fw - 1, fw - 1)
        return sext(s, 1, nw)
    if op in ("and", "or", "xor"):
        parts = []
        for a in x.args:
            e = _free_extract(a, hi, lo, w)
            if e is None:
                break
            parts.append(e)
        else:
            f = {"and": and_, "or": or_, "xor": xor_}[op]
            r = parts[0]
            for p in parts[1:]:
                r = f(r, p, nw)
            return r
    if op == "ite":
        a, b = x.args[1], x.args[2]
        e1 = _free_extract(a, hi, lo, w)
        if e1 is not None:
            e2 = _free_extract(b, hi, lo, w)
            if e2 is not None:
                return ite(x.args[0], e1, e2, nw)
    hb = rng(x)[1].bit_length()
    if hb <= lo:
        return 0
    if hb <= hi:
        return concat_list([(0, hi - hb + 1), (extract(x, hb - 1, lo), hb - lo)])
    if op == "tbl" :
        vals = table(x.aux)
        return tbl([(v >> lo) & mask(nw) for v in vals], x.args[0], nw)
    if hi < w - 1 and lo == 0 and op == "add":
        # truncation of a sum whose terms are all plain multiples: only when some coefficient vanishes
        m = mask(nw)
        if any((c & m) == 0 for c in x.aux[:-1]):
            return lincomb([(extract(a, nw - 1, 0), c & m) for a, c in zip(x.args, x.aux) if c & m], x.aux[-1] & m, nw)
    if op == "add":
        k, v = known_low(x)
        if k > lo:
            if hi < k:
                return (v >> lo) & mask(nw)
            return concat_list([(extract(x, hi, k), hi - k + 1), (v >> lo, k - lo)])
    return mk("extract", (x,), (hi, lo), nw)


_bwh = {}


def bwheight(t):
    """height of the bitwise structure above variables and arithmetic (capped)"""
    if type(t) is int or t.op == "var":
        return 0
    r = _bwh.get(t.id)
    if r is None:
        if t.op in ("and", "or", "xor", "ite", "concat", "extract", "not"):
            r = min(99, (0 if t.op in ("concat", "extract") else 1) + max(bwheight(a) for a in t.args))
        else:
            r = 0
        _bwh[t.id] = r
    return r


def _free_extract0(a, hi, lo, w):
    if bwheight(a) > 6:
        return None
    if a.op == "var":
        return mk("extract", (a,), (hi, lo), hi - lo + 1) if a.w != hi - lo + 1 else a
    if a.op == "concat":
        pos = w
        for s, sw in zip(a.args, a.aux):
            pos -= sw
            if pos <= lo and hi < pos + sw:
                if type(s) is int:
                    return (s >> (lo - pos)) & mask(hi - lo + 1)
                if pos == lo and sw == hi - lo + 1:
                    return s
                return _free_extract(s, hi - pos, lo - pos, sw)
        e = extract(a, hi, lo)
        if type(e) is int:
            return e
        if all(type(v) is int or v.op != "extract" or v.args[0].op == "var" for v, _ in segs(e, hi - lo + 1)):
            return e
        return None
    if a.op == "extract" and a.args[0].op == "var":
        return extract(a, hi, lo)
    if a.op in ("and", "or", "xor", "ite"):
        # nested bitwise: only if fully free (bounded depth through recursion on small trees)
        if a.op == "ite":
            e1 = _free_extract(a.args[1], hi, lo, w)
            if e1 is None:
                return None
            e2 = _free_extract(a.args[2], hi, lo, w)
            if e2 is None:
                return None
            return ite(a.args[0], e1, e2, hi - lo + 1)
        parts = []
        for b in a.args:
            e = _free_extract(b, hi, lo, w)
            if e is None:
                return None
            parts.append(e)
        f = {"and": and_, "or": or_, "xor": xor_}[a.op]
        r = parts[0]
        for p in parts[1:]:
            r = f(r, p, hi - lo + 1)
        return r
    return None


# ---------------------------------------------------------------- arithmetic
def lincomb(items, const, w):
    """items: list of (term or int, coefficient)"""
    m = mask(w)
    const &= m
    acc = {}
    for t, c in items:
        c &= m
        if c == 0:
            continue
        if type(t) is int:
            const = (const + c * t) & m
            continue
        if t.op == "add" and len(t.args) <= 4000:
            for a, ac in zip(t.args, t.aux):
                k = (ac * c) & m
                o = acc.get(a)
                acc[a] = k if o is None else (o + k) & m
            const = (const + c * t.aux[-1]) & m
            continue
        if t.op in ("or", "xor") and len(t.args) == 2 and w > 1 and type(t.args[1]) is not int and compl_disjoint(t.args[0], t.args[1], w):
            for a in t.args:
                o = acc.get(a)
                acc[a] = c if o is None else (o + c) & m
            continue
        if t.op == "concat" and any(type(a) is int and a for a in t.args):
            pos, k = w, 0
            for a, aw in zip(t.args, t.aux):
                pos -= aw
                if type(a) is int:
                    k |= a << pos
            const = (const + c * k) & m
            t = concat_list([(0 if type(a) is int else a, aw) for a, aw in zip(t.args, t.aux)])
        o = acc.get(t)
        acc[t] = c if o is None else (o + c) & m
    lst = [(t, c) for t, c in acc.items() if c]
    if not lst:
        return const
    if len(lst) == 1 and const == 0 and lst[0][1] == 1:
        return lst[0][0]
    # disjoint concat: every operand occupies different bits
    r = _disjoint(lst, const, w)
    if r is not None:
        return r
    if len(lst) == 1 and const == 0:
        t, c = lst[0]
        if c & (c - 1) == 0:
            k = c.bit_length() - 1
            return concat_list([(extract(t, w - 1 - k, 0), w - k), (0, k)])
    lst.sort(key=lambda x: x[0].id)
    return mk("add", tuple(x[0] for x in lst), tuple(x[1] for x in lst) + (const,), w)


def compl_disjoint(x, y, w):
    """x & y == 0 because one has a conjunct whose complement is a conjunct of the other"""
    fx = x.args if x.op == "and" else (x,)
    fy = y.args if y.op == "and" else (y,)
    sy = set(f for f in fy if type(f) is not int)
    for f in fx:
        if type(f) is not int:
            g = bvnot(f, w)
            if type(g) is not int and g in sy:
                return True
    return False


def nzmask(x, w):
    """mask of bits possibly non-zero"""
    if type(x) is int:
        return x
    if x.op == "concat":
        r = 0
        for a, aw in zip(x.args, x.aux):
            r = (r << aw) | nzmask(a, aw)
        return r
    if x.op == "ite":
        return nzmask(x.args[1], w) | nzmask(x.args[2], w) if (type(x.args[1]) is int or type(x.args[2]) is int or x.args[1].op == "concat" or x.args[2].op == "concat") else mask(rng(x)[1].bit_length())
    return mask(rng(x)[1].bit_length())


def _disjoint(lst, const, w):
    """if the summands occupy disjoint bits, build the concat"""
    if len(lst) > 16:
        return None
    used = const
    if len(lst) == 1 and const == 0:
        return None
    ops = []
    for t, c in lst:
        if c != 1:
            if c & (c - 1):
                return None
            k = c.bit_length() - 1
            t = concat_list([(extract(t, w - 1 - k, 0), w - k), (0, k)])
            if type(t) is int:
                return None
        if t.op != "concat":
            if rng(t)[1] == mask(w):
                return None
        nz = nzmask(t, w)
        if used & nz:
            return None
        used |= nz
        ops.append(t)
    if const:
        ops.append(const)
    return overlay(ops, w)


def overlay(ops, w):
    """bitwise combine of values with pairwise disjoint possibly-nonzero bits"""
    cuts = {0, w}
    for o in ops:
        if type(o) is int:
            continue
        pos = w
        for a, aw in segs(o, w):
            pos -= aw
            if type(a) is int:
                continue
            n = rng(a)[1].bit_length()
            cuts.add(pos)
            cuts.add(pos + n)
    cs = sorted(cuts, reverse=True)
    out = []
    for h, l in zip(cs, cs[1:]):
        acc = 0
        sym = None
        for o in ops:
            if nzmask_range(o, h - 1, l, w) == 0:
                continue
            e = extract(o, h - 1, l)
            if type(e) is int:
                acc |= e
            elif sym is None:
                sym = e
            else:
                return None
        if sym is None:
            out.append((acc, h - l))
        elif acc == 0:
            out.append((sym, h - l))
        else:
            # const bits overlap a symbolic segment which has internal zero bits
            return None
    return concat_list(out)


def nzmask_range(o, h, l, w):
    return (nzmask(o, w) >> l) & mask(h - l + 1)


def add(a, b, w):
    if type(a) is int and type(b) is int:
        return (a + b) & mask(w)
    return lincomb([(a, 1), (b, 1)], 0, w)


def sub(a, b, w):
    if type(a) is int and type(b) is int:
        return (a - b) & mask(w)
    return lincomb([(a, 1), (b, mask(w))], 0, w)


def neg(a, w):
    return sub(0, a, w)


def mul(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return (a * b) & mask(w)
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        # ite(c,k,0)*b
        if a.op == "ite" and type(a.args[1]) is int and type(a.args[2]) is int:
            return ite(a.args[0], (a.args[1] * b) & mask(w), (a.args[2] * b) & mask(w), w)
        if a.op == "concat" and len(a.args) == 2 and a.args[0] == 0 and type(a.args[0]) is int and a.aux[1] == 1:
            return ite(a.args[1], b, 0, w)
        return lincomb([(a, b)], 0, w)
    # (1-bit zext) * x -> ite
    for x, y in ((a, b), (b, a)):
        if x.op == "concat" and len(x.args) == 2 and type(x.args[0]) is int and x.args[0] == 0 and x.aux[1] == 1:
            return ite(x.args[1], y, 0, w)
        if x.op == "ite" and type(x.args[1]) is int and type(x.args[2]) is int and x.args[2] == 0:
            return ite(x.args[0], mul(y, x.args[1], w), 0, w)
    if a.id > b.id:
        a, b = b, a
    return mk("mul", (a, b), None, w)


def udiv(a, b, w):
    if type(b) is int:
        if b == 0:
            return mask(w)
        if type(a) is int:
            return a // b
        if b & (b - 1) == 0:
            return lshr(a, b.bit_length() - 1, w)
        if rng(a)[1] < b:
            return 0
    return mk("udiv", (a, b), None, w)


def urem(a, b, w):
    if type(b) is int:
        if b == 0:
            return a
        if type(a) is int:
            return a % b
        if b & (b - 1) == 0:
            k = b.bit_length() - 1
            if k == 0:
                return 0
            return zext(extract(a, k - 1, 0), k, w)
        if rng(a)[1] < b:
            return a
        if a.op == "add" and sum(c * rng(x)[1] for x, c in zip(a.args, a.aux)) + a.aux[-1] <= mask(w):
            # no wrap-around: multiples of the divisor vanish
            items = [(x, c % b) for x, c in zip(a.args, a.aux) if c % b]
            if len(items) < len(a.args) or a.aux[-1] >= b or any(c >= b for c in a.aux[:-1]):
                return urem(lincomb(items, a.aux[-1] % b, w), b, w)
    return mk("urem", (a, b), None, w)


def tosigned(a, w):
    return a - (1 << w) if a >> (w - 1) else a


def sdiv(a, b, w):
    if type(a) is int and type(b) is int:
        if b == 0:
            return mask(w)
        x, y = tosigned(a, w), tosigned(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & mask(w)
    if type(b) is int and b < (1 << (w - 1)) and rng(a)[1] < (1 << (w - 1)):
        return udiv(a, b, w)
    return mk("sdiv", (a, b), None, w)


def srem(a, b, w):
    if type(a) is int and type(b) is int:
        if b == 0:
            return a
        x, y = tosigned(a, w), tosigned(b, w)
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & mask(w)
    if type(b) is int and b < (1 << (w - 1)) and rng(a)[1] < (1 << (w - 1)):
        return urem(a, b, w)
    return mk("srem", (a, b), None, w)


# ---------------------------------------------------------------- bitwise
def runs(c, w):
    """(bit, width) msb first"""
    out = []
    i = w - 1
    while i >= 0:
        b = (c >> i) & 1
        j = i
        while j >= 0 and ((c >> j) & 1) == b:
            j -= 1
        out.append((b, i - j))
        i = j
    return out


def _segmented(a, b, w, f):
    """apply bitwise f segmentwise on the union of boundaries of the two"""
    sa, sb = segs(a, w), segs(b, w)
    ia = ib = 0
    va, wa = sa[0]
    vb, wb = sb[0]
    out = []
    left = w
    while left:
        n = min(wa, wb)
        x = va if n == wa else extract(va, wa - 1, wa - n, wa)
        y = vb if n == wb else extract(vb, wb - 1, wb - n, wb)
        out.append((f(x, y, n), n))
        left -= n
        if not left:
            break
        if n == wa:
            ia += 1
            va, wa = sa[ia]
        else:
            va = extract(va, wa - n - 1, 0, wa)
            wa -= n
        if n == wb:
            ib += 1
            vb, wb = sb[ib]
        else:
            vb = extract(vb, wb - n - 1, 0, wb)
            wb -= n
    return concat_list(out)


def _has_const_seg(x):
    return x.op == "concat" and any(type(a) is int for a in x.args)


def and_(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return a & b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b == mask(w):
            return a
        rs = runs(b, w)
        if len(rs) <= 12 or a.op == "concat":
            out = []
            pos = w
            for bit, n in rs:
                pos -= n
                out.append((extract(a, pos + n - 1, pos) if bit else 0, n))
            return concat_list(out)
        return _ac("and", a, b, w)
    if a is b:
        return a
    if w == 1:
        return _bool_ac("and", a, b)
    if a.op == "concat" and b.op == "concat":
        if a.aux == b.aux or _has_const_seg(a) or _has_const_seg(b):
            return _segmented(a, b, w, and_)
    elif _has_const_seg(a) or _has_const_seg(b):
        return _segmented(a, b, w, and_)
    return _ac("and", a, b, w)


def or_(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return a | b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        if b == mask(w):
            return b
        rs = runs(b, w)
        if len(rs) <= 12 or a.op == "concat":
            out = []
            pos = w
            for bit, n in rs:
                pos -= n
                out.append((extract(a, pos + n - 1, pos) if not bit else mask(n), n))
            return concat_list(out)
        return _ac("or", a, b, w)
    if a is b:
        return a
    if w == 1:
        return _bool_ac("or", a, b)
    if a.op == "concat" and b.op == "concat":
        if a.aux == b.aux or _has_const_seg(a) or _has_const_seg(b):
            return _segmented(a, b, w, or_)
    elif _has_const_seg(a) or _has_const_seg(b):
        return _segmented(a, b, w, or_)
    return _ac("or", a, b, w)


def xor_(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return a ^ b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        if w == 1:
            return not_(a)
        if a.op == "concat":
            return _segmented(a, b, w, xor_)
        return _ac("xor", a, b, w)
    if a is b:
        return 0
    if w == 1 and (a.op == "not" or b.op == "not"):
        n = 0
        if a.op == "not":
            a = a.args[0]
            n ^= 1
        if b.op == "not":
            b = b.args[0]
            n ^= 1
        r = xor_(a, b, 1)
        return not_(r) if n else r
    if a.op == "concat" and b.op == "concat":
        if a.aux == b.aux or _has_const_seg(a) or _has_const_seg(b):
            return _segmented(a, b, w, xor_)
    elif _has_const_seg(a) or _has_const_seg(b):
        return _segmented(a, b, w, xor_)
    return _ac("xor", a, b, w)


FLAT_LIMIT = 24


def _maskcond(t, w):
    """the condition under which t is all ones, when t is all ones or zero"""
    if type(t) is int:
        return None
    if t.op == "ite" and type(t.args[1]) is int and type(t.args[2]) is int:
        if t.args[1] == mask(w) and t.args[2] == 0:
            return t.args[0]
        if t.args[2] == mask(w) and t.args[1] == 0:
            return not_(t.args[0])
    if t.op == "concat" and all(a is t.args[0] for a in t.args) and type(t.args[0]) is not int and t.args[0].w == 1:
        return t.args[0]
    if t.op == "sext" and t.args[0].w == 1:
        return t.args[0]
    return None


def _masked_swap(e, rest, w):
    """a ^ ((a ^ b) & mask(c)) is c ? b : a"""
    for m, x in (e.args, e.args[::-1]):
        c = _maskcond(m, w)
        if c is None or type(x) is int or x.op != "xor":
            continue
        if not any(y in rest for y in x.args if type(y) is not int):
            continue
        r = 0
        for t in rest:
            r = xor_(r, t, w)
        return ite(c, xor_(r, x, w), r, w)
    return None


def _ac(op, a, b, w):
    ident = mask(w) if op == "and" else 0
    const = ident
    lst = []
    for x in (a, b):
        if type(x) is int:
            const = const & x if op == "and" else (const | x if op == "or" else const ^ x)
        elif x.op == op and len(x.args) <= FLAT_LIMIT:
            for y in x.args:
                if type(y) is int:
                    const = const & y if op == "and" else (const | y if op == "or" else const ^ y)
                else:
                    lst.append(y)
        else:
            lst.append(x)
    if op == "xor":
        acc = {}
        for t in lst:
            if t in acc:
                del acc[t]
            else:
                acc[t] = 1
        lst = list(acc)
        if 1 < w and len(lst) > 1:
            for e in lst:
                if e.op != "and" or len(e.args) != 2:
                    continue
                r = _masked_swap(e, [t for t in lst if t is not e], w)
                if r is not None:
                    return xor_(r, const, w)
    else:
        lst = list(dict.fromkeys(lst))
        if op == "and":
            if const == 0:
                return 0
        elif const == mask(w):
            return const
        # complements
        s = set(lst)
        for t in lst:
            if t.op == "xor" and len(t.args) == 2 and type(t.args[1]) is int and t.args[1] == mask(w) and t.args[0] in s:
                return 0 if op == "and" else mask(w)
    if not lst:
        return const
    lst.sort(key=lambda t: t.id)
    if const != ident:
        return mk(op, tuple(lst) + (const,), None, w)
    if len(lst) == 1:
        return lst[0]
    return mk(op, tuple(lst), None, w)


def _bool_ac(op, a, b):
    """width 1 and/or: flatten, complement detection"""
    lst = []
    for x in (a, b):
        if x.op == op and len(x.args) <= FLAT_LIMIT:
            lst.extend(x.args)
        else:
            lst.append(x)
    lst = list(dict.fromkeys(lst))
    s = set(lst)
    for t in lst:
        if not_(t) in s:
            return 0 if op == "and" else 1
    if len(lst) == 1:
        return lst[0]
    # absorption: a & (a|b) = a ; a | (a&b) = a ; and  x & (!x | y) -> x & y
    dual = "or" if op == "and" else "and"
    changed = False
    out = []
    for t in lst:
        if t.op == dual:
            args = t.args
            if any(x in s for x in args):
                changed = True
                continue
            keep = [x for x in args if not_(x) not in s]
            if len(keep) != len(args):
                changed = True
                r = keep[0] if keep else (1 if dual == "and" else 0)
                for x in keep[1:]:
                    r = and_(r, x, 1) if dual == "and" else or_(r, x, 1)
                out.append(r)
                continue
        out.append(t)
    if changed:
        r = 1 if op == "and" else 0
        for t in out:
            r = and_(r, t, 1) if op == "and" else or_(r, t, 1)
        return r
    lst.sort(key=lambda t: t.id)
    return mk(op, tuple(lst), None, 1)


def not_(a):
    """boolean negation"""
    if type(a) is int:
        return 1 - a
    if a.op == "not":
        return a.args[0]
    if a.op == "ult":
        return mk("ule", (a.args[1], a.args[0]), a.aux, 1)
    if a.op == "ule":
        return mk("ult", (a.args[1], a.args[0]), a.aux, 1)
    if a.op == "slt":
        return mk("sle", (a.args[1], a.args[0]), a.aux, 1)
    if a.op == "sle":
        return mk("slt", (a.args[1], a.args[0]), a.aux, 1)
    return mk("not", (a,), None, 1)


def bvnot(a, w):
    return not_(a) if w == 1 else xor_(a, mask(w), w)


# ---------------------------------------------------------------- shifts
def shl(a, k, w):
    if type(k) is int:
        if k >= w:
            return 0
        if k == 0:
            return a
        if type(a) is int:
            return (a << k) & mask(w)
        return concat_list([(extract(a, w - 1 - k, 0), w - k), (0, k)])
    if type(a) is int and a == 0:
        return 0
    return _symshift("shl", a, k, w)


def lshr(a, k, w):
    if type(k) is int:
        if k >= w:
            return 0
        if k == 0:
            return a
        if type(a) is int:
            return a >> k
        return concat_list([(0, k), (extract(a, w - 1, k), w - k)])
    if type(a) is int and a == 0:
        return 0
    return _symshift("lshr", a, k, w)


def ashr(a, k, w):
    if type(k) is int:
        if k >= w:
            k = w - 1
        if k == 0:
            return a
        if type(a) is int:
            return (tosigned(a, w) >> k) & mask(w)
        return sext(extract(a, w - 1, k), w - k, w)
    return _symshift("ashr", a, k, w)


def _symshift(op, a, k, w):
    lo, hi = rng(k)
    if hi - lo <= 1 or (k.op == "ite" and type(k.args[1]) is int and type(k.args[2]) is int):
        f = {"shl": shl, "lshr": lshr, "ashr": ashr}[op]
        if k.op == "ite" and type(k.args[1]) is int and type(k.args[2]) is int:
            return ite(k.args[0], f(a, k.args[1], w), f(a, k.args[2], w), w)
        return ite(eq(k, lo, w), f(a, lo, w), f(a, hi, w), w)
    if type(a) is int and w <= 64:
        # constant shifted by symbolic: table
        f = {"shl": shl, "lshr": lshr, "ashr": ashr}[op]
        if hi < 4 * w:
            return tbl([f(a, i, w) for i in range(hi + 1)], k, w)
    return mk(op, (a, k), None, w)


# ---------------------------------------------------------------- comparisons
def eq(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return 1 if a == b else 0
        a, b = b, a
    if a is b:
        return 1
    if type(b) is int:
        lo, hi = rng(a)
        if b < lo or b > hi:
            return 0
        if w == 1:
            return a if b else not_(a)
        op = a.op
        if op == "concat":
            r = 1
            pos = w
            for s, sw in zip(a.args, a.aux):
                pos -= sw
                r = band(r, eq(s, (b >> pos) & mask(sw), sw))
                if type(r) is int and r == 0:
                    return 0
            return r
        if op == "ite":
            x, y = a.args[1], a.args[2]
            if type(x) is int or type(y) is int:
                ex, ey = eq(x, b, w), eq(y, b, w)
                return ite(a.args[0], ex, ey, 1)
            ex = eq(x, b, w)
            ey = eq(y, b, w)
            if type(ex) is int or type(ey) is int:
                return ite(a.args[0], ex, ey, 1)
        if op == "add" and a.aux[-1]:
            if len(a.args) == 1 and a.aux[0] == 1:
                return eq(a.args[0], (b - a.aux[-1]) & mask(w), w)
            if len(a.args) == 1 and a.aux[0] == mask(w):
                return eq(a.args[0], (a.aux[-1] - b) & mask(w), w)
            return eq(lincomb(list(zip(a.args, a.aux)), 0, w), (b - a.aux[-1]) & mask(w), w)
        if op == "add" and b == 0 and len(a.args) == 2:
            m = mask(w)
            if a.aux[0] == 1 and a.aux[1] == m:
                return eq(a.args[0], a.args[1], w)
            if a.aux[1] == 1 and a.aux[0] == m:
                return eq(a.args[0], a.args[1], w)
        if op == "xor" and type(a.args[-1]) is int:
            r = a.args[0]
            for y in a.args[1:-1]:
                r = xor_(r, y, w)
            return eq(r, b ^ a.args[-1], w)
        if op == "xor" and b == 0 and len(a.args) == 2:
            return eq(a.args[0], a.args[1], w)
        if op == "tbl":
            vals = table(a.aux)
            hits = [i for i, v in enumerate(vals) if v == b]
            if not hits:
                return 0
            if len(hits) == 1 and hits[0] != 0:
                return eq(a.args[0], hits[0], a.args[0].w)
            if len(vals) <= 4096:
                return tbl([1 if v == b else 0 for v in vals], a.args[0], 1)
        if op == "sext":
            fw = a.aux
            e = extract(b, fw - 1, 0, w)
            if sext(e, fw, w) != b:
                return 0
            return eq(a.args[0], e, fw)
        if op == "or" and b == 0:
            r = 1
            for x in a.args:
                r = band(r, eq(x, 0, w))
            return r
        return mk("eq", (a, b), w, 1)
    if w == 1:
        return not_(xor_(a, b, 1))
    (la, ha), (lb, hb) = rng(a), rng(b)
    if ha < lb or hb < la:
        return 0
    if a.op == "concat" and b.op == "concat" and a.aux == b.aux:
        r = 1
        for x, y, sw in zip(a.args, b.args, a.aux):
            r = band(r, eq(x, y, sw))
        return r
    if (a.op == "concat" and _has_const_seg(a)) or (b.op == "concat" and _has_const_seg(b)):
        # split
        parts = []
        _segmented(a, b, w, lambda x, y, n: parts.append((x, y, n)) or 0)
        if len(parts) > 1:
            r = 1
            for x, y, n in parts:
                r = band(r, eq(x, y, n))
                if type(r) is int and r == 0:
                    return 0
            return r
    if a.op == "add" or b.op == "add":
        d = sub(a, b, w)
        if type(d) is int:
            return 1 if d == 0 else 0
        if d.op != "add" or len(d.args) < len(a.args if a.op == "add" else ()) + len(b.args if b.op == "add" else ()):
            if d.op == "add":
                if len(d.args) > 2 or d.aux[-1]:
                    c = d.aux[-1]
                    d2 = lincomb(list(zip(d.args, d.aux)), 0, w)
                    return mk("eq", (d2, (-c) & mask(w)), w, 1) if type(d2) is not int else eq(d2, (-c) & mask(w), w)
                else:
                    return eq(d, 0, w)
            else:
                return eq(d, 0, w)
    if a.op == "ite" and (a.args[1] is b or a.args[2] is b):
        if a.args[1] is b:
            return bor(a.args[0], eq(a.args[2], b, w))
        return bor(not_(a.args[0]), eq(a.args[1], b, w))
    if b.op == "ite" and (b.args[1] is a or b.args[2] is a):
        return eq(b, a, w)
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), w, 1)


def ne(a, b, w):
    return not_(eq(a, b, w))


def ult(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if a < b else 0
    if a is b:
        return 0
    (la, ha), (lb, hb) = rng(a), rng(b)
    if ha < lb:
        return 1
    if la >= hb:
        return 0
    if type(b) is int and b == 1:
        return eq(a, 0, w)
    if type(a) is int and a == 0:
        return not_(eq(b, 0, w))
    if w == 1:
        return and_(not_(a), b, 1)
    # strip common zero-extension
    a2, b2, w2 = a, b, w
    za = a.aux[0] if type(a) is not int and a.op == "concat" and type(a.args[0]) is int and a.args[0] == 0 else (w - a.bit_length() if type(a) is int else 0)
    zb = b.aux[0] if type(b) is not int and b.op == "concat" and type(b.args[0]) is int and b.args[0] == 0 else (w - b.bit_length() if type(b) is int else 0)
    z = min(za, zb)
    if 0 < z < w:
        w2 = w - z
        a2 = extract(a, w2 - 1, 0, w)
        b2 = extract(b, w2 - 1, 0, w)
        return ult(a2, b2, w2)
    if type(a) is not int and a.op == "ite" and type(a.args[1]) is int and type(a.args[2]) is int:
        return ite(a.args[0], ult(a.args[1], b, w), ult(a.args[2], b, w), 1)
    if type(b) is not int and b.op == "ite" and type(b.args[1]) is int and type(b.args[2]) is int:
        return ite(b.args[0], ult(a, b.args[1], w), ult(a, b.args[2], w), 1)
    if type(b) is int and type(a) is not int and a.op == "tbl":
        return tbl([1 if v < b else 0 for v in table(a.aux)], a.args[0], 1)
    if type(a) is int and type(b) is not int and b.op == "tbl":
        return tbl([1 if a < v else 0 for v in table(b.aux)], b.args[0], 1)
    return mk("ult", (a, b), w, 1)


def ule(a, b, w):
    return not_(ult(b, a, w))


def slt(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if tosigned(a, w) < tosigned(b, w) else 0
    if a is b:
        return 0
    h = 1 << (w - 1)
    (la, ha), (lb, hb) = rng(a), rng(b)
    # both in same half: unsigned comparison
    if (ha < h and hb < h) or (la >= h and lb >= h):
        return ult(a, b, w)
    if ha < h and lb >= h:
        return 0
    if la >= h and hb < h:
        return 1
    if type(b) is int and b == 0:
        return extract(a, w - 1, w - 1, w)
    if type(a) is int and a == mask(w):
        return not_(extract(b, w - 1, w - 1, w))
    if type(a) is not int and a.op == "sext" and type(b) is int:
        fw = a.aux
        bs = tosigned(b, w)
        if bs >= (1 << (fw - 1)):
            return 1
        if bs < -(1 << (fw - 1)):
            return 0
        return slt(a.args[0], bs & mask(fw), fw)
    if type(b) is not int and b.op == "sext" and type(a) is int:
        fw = b.aux
        s = tosigned(a, w)
        if s >= (1 << (fw - 1)):
            return 0
        if s < -(1 << (fw - 1)):
            return 1
        return slt(s & mask(fw), b.args[0], fw)
    if type(b) is int and type(a) is not int and a.op == "tbl":
        return tbl([1 if tosigned(v, w) < tosigned(b, w) else 0 for v in table(a.aux)], a.args[0], 1)
    if type(a) is int and type(b) is not int and b.op == "tbl":
        return tbl([1 if tosigned(a, w) < tosigned(v, w) else 0 for v in table(b.aux)], b.args[0], 1)
    return mk("slt", (a, b), w, 1)


def sle(a, b, w):
    return not_(slt(b, a, w))


def band(a, b):
    return and_(a, b, 1)


def bor(a, b):
    return or_(a, b, 1)


# ---------------------------------------------------------------- ite
def ite(c, a, b, w):
    if type(c) is int:
        return a if c else b
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    if c.op == "not":
        return ite(c.args[0], b, a, w)
    if w == 1:
        if type(a) is int:
            return bor(c, b) if a else band(not_(c), b)
        if type(b) is int:
            return bor(not_(c), a) if b else band(c, a)
        if a is not_(b):
            return not_(xor_(c, a, 1))
    if type(a) is not int and a.op == "ite":
        if a.args[0] is c:
            return ite(c, a.args[1], b, w)
        if a.args[2] is b or (type(b) is int and type(a.args[2]) is int and a.args[2] == b):
            return ite(band(c, a.args[0]), a.args[1], b, w)
    if type(b) is not int and b.op == "ite":
        if b.args[0] is c:
            return ite(c, a, b.args[2], w)
        if b.args[1] is a or (type(a) is int and type(b.args[1]) is int and b.args[1] == a):
            return ite(bor(c, b.args[0]), a, b.args[2], w)
    # common concat structure
    if (type(a) is not int and a.op == "concat") or (type(b) is not int and b.op == "concat"):
        if (type(a) is int or a.op == "concat") and (type(b) is int or b.op == "concat"):
            if type(a) is int or type(b) is int or a.aux == b.aux:
                return _segmented(a, b, w, lambda x, y, n: ite(c, x, y, n))
    return mk("ite", (c, a, b), None, w)


# ---------------------------------------------------------------- misc
def clmul(a, b, w):
    """carry-less product of two w-bit values, 2w bits"""
    if type(a) is int and type(b) is int:
        r = 0
        i = 0
        while b >> i:
            if (b >> i) & 1:
                r ^= a << i
            i += 1
        return r
    if type(a) is int and a == 0 or type(b) is int and b == 0:
        return 0
    if type(a) is int:
        a, b = b, a
    if type(b) is not int and a.id > b.id:
        a, b = b, a
    return mk("clmul", (a, b), w, 2 * w)


def ctpop(a, w):
    if type(a) is int:
        return bin(a).count("1")
    return mk("ctpop", (a,), None, w)


def bswap(a, w):
    n = w // 8
    return concat_list([(extract(a, 8 * i + 7, 8 * i, w), 8) for i in range(n)])


def uf(name, args, widths, w):
    """uninterpreted function application"""
    return mk("uf", tuple(args), (name, tuple(widths)), w)


# ---------------------------------------------------------------- evaluation
UF_IMPL = {}


def eval_terms(roots, env, cache=None):
    """evaluate terms under env (var name -> int); returns list"""
    if cache is None:
        cache = {}
    for r in roots:
        if type(r) is int or r.id in cache:
            continue
        stack = [r]
        while stack:
            t = stack[-1]
            if t.id in cache:
                stack.pop()
                continue
            pend = [a for a in t.args if type(a) is not int and a.id not in cache]
            if pend:
                stack.extend(pend)
                continue
            stack.pop()
            cache[t.id] = _eval1(t, [a if type(a) is int else cache[a.id] for a in t.args], env)
    return [r if type(r) is int else cache[r.id] for r in roots]


def _default_uf(name, widths, args, w):
    import hashlib
    h = hashlib.shake_128(repr((name, widths, args)).encode()).digest((w + 7) // 8)
    return int.from_bytes(h, "little") & mask(w)


def _eval1(t, a, env):
    op = t.op
    w = t.w
    if op == "var":
        return env.get(t.aux, 0) & mask(w)
    if op == "add":
        s = t.aux[-1]
        for x, c in zip(a, t.aux):
            s += x * c
        return s & mask(w)
    if op == "concat":
        r = 0
        for x, xw in zip(a, t.aux):
            r = (r << xw) | x
        return r
    if op == "extract":
        return (a[0] >> t.aux[1]) & mask(w)
    if op == "xor":
        r = 0
        for x in a:
            r ^= x
        return r
    if op == "and":
        r = mask(w)
        for x in a:
            r &= x
        return r
    if op == "or":
        r = 0
        for x in a:
            r |= x
        return r
    if op == "not":
        return 1 - a[0]
    if op == "ite":
        return a[1] if a[0] else a[2]
    if op == "eq":
        return 1 if a[0] == a[1] else 0
    if op == "ult":
        return 1 if a[0] < a[1] else 0
    if op == "ule":
        return 1 if a[0] <= a[1] else 0
    if op == "slt":
        return 1 if tosigned(a[0], t.aux) < tosigned(a[1], t.aux) else 0
    if op == "sle":
        return 1 if tosigned(a[0], t.aux) <= tosigned(a[1], t.aux) else 0
    if op == "mul":
        return (a[0] * a[1]) & mask(w)
    if op == "tbl":
        v = table(t.aux)
        return v[a[0]] if a[0] < len(v) else v[0]
    if op == "sext":
        return sext(a[0], t.aux, w)
    if op == "shl":
        return shl(a[0], a[1], w)
    if op == "lshr":
        return lshr(a[0], a[1], w)
    if op == "ashr":
        return ashr(a[0], a[1], w)
    if op == "udiv":
        return udiv(a[0], a[1], w)
    if op == "urem":
        return urem(a[0], a[1], w)
    if op == "sdiv":
        return sdiv(a[0], a[1], w)
    if op == "srem":
        return srem(a[0], a[1], w)
    if op == "clmul":
        return clmul(a[0], a[1], t.aux)
    if op == "ctpop":
        return bin(a[0]).count("1")
    if op == "uf":
        name, widths = t.aux
        u = env.get("!uf")
        if u is not None:
            v = u.get((name, tuple(a)))
            if v is not None:
                return v
        f = UF_IMPL.get(name)
        if f:
            return f(*a) & mask(w)
        return _default_uf(name, widths, a, w)
    raise NotImplementedError(op)


def rebuild(t, a):
    """re-apply the smart constructor of t on new arguments"""
    op = t.op
    w = t.w
    if op == "add":
        return lincomb(list(zip(a, t.aux)), t.aux[-1], w)
    if op == "concat":
        return concat_list(list(zip(a, t.aux)))
    if op == "extract":
        return extract(a[0], t.aux[0], t.aux[1], None)
    if op in ("xor", "and", "or"):
        f = {"and": and_, "or": or_, "xor": xor_}[op]
        r = a[0]
        for x in a[1:]:
            r = f(r, x, w)
        return r
    if op == "not":
        return not_(a[0])
    if op == "ite":
        return ite(a[0], a[1], a[2], w)
    if op == "eq":
        return eq(a[0], a[1], t.aux)
    if op == "ult":
        return ult(a[0], a[1], t.aux)
    if op == "ule":
        return ule(a[0], a[1], t.aux)
    if op == "slt":
        return slt(a[0], a[1], t.aux)
    if op == "sle":
        return sle(a[0], a[1], t.aux)
    if op == "mul":
        return mul(a[0], a[1], w)
    if op == "tbl":
        return tbl(table(t.aux), a[0], w)
    if op == "sext":
        return sext(a[0], t.aux, w)
    if op in ("shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
        return globals()[op](a[0], a[1], w)
    if op == "clmul":
        return clmul(a[0], a[1], t.aux)
    if op == "ctpop":
        return ctpop(a[0], w)
    if op == "uf":
        return mk("uf", tuple(a), t.aux, w)
    raise NotImplementedError(op)


def topo(roots):
    """all terms under roots, children first"""
    seen = set()
    out = []
    for r in roots:
        if type(r) is int or r.id in seen:
            continue
        stack = [(r, 0)]
        seen.add(r.id)
        while stack:
            t, i = stack.pop()
            if i < len(t.args):
                stack.append((t, i + 1))
                a = t.args[i]
                if type(a) is not int and a.id not in seen:
                    seen.add(a.id)
                    stack.append((a, 0))
            else:
                out.append(t)
    return out


def free_vars(roots):
    return [t for t in topo(roots) if t.op == "var"]

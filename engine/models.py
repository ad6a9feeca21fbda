"""Models of everything the code under test calls outside its own IR, and the harness interface (vf_*)."""
import solver as S
import terms as T
from terms import mask
import sym

M64 = (1 << 64) - 1
TABLE = {}
PREFIX = []
ALLOC_LIMIT = 1 << 22


def model(*names):
    def d(fn):
        for n in names:
            TABLE["@" + n] = fn
        return fn
    return d


def prefix(*names):
    def d(fn):
        for n in names:
            PREFIX.append(("@" + n, fn))
        return fn
    return d


def rets(l):
    return [("ret", s, v) for s, v in l]


def split_len(ex, st, n):
    """fork over the concrete values of a symbolic length"""
    if type(n) is int:
        return [(st, n)]
    return ex.concretize(st, n, 64)


# ---------------------------------------------------------------- llvm intrinsics
@prefix("llvm.lifetime.", "llvm.experimental.noalias", "llvm.assume", "llvm.dbg.", "llvm.invariant.", "llvm.prefetch",
        "llvm.va_", "llvm.stackrestore")
def m_nop(ex, st, args, ins, name):
    return 0


@prefix("llvm.memcpy.", "llvm.memmove.")
def m_memcpy(ex, st, args, ins, name):
    d, s, n = args[:3]
    if type(n) is int:
        if n:
            ex.write_bytes(st, d, list(ex.read_bytes(st, s, n)))
        return 0
    out = []
    for s2, k in split_len(ex, st, n):
        try:
            if k:
                ex.write_bytes(s2, d, list(ex.read_bytes(s2, s, k)))
        except sym.Abort:
            continue
        out.append((s2, None, 0))
    return [("ret", a, 0) for a, _, _ in ex.merge_states(out)]


@model("memcpy", "memmove")
def m_memcpy_c(ex, st, args, ins, name):
    r = m_memcpy(ex, st, args, ins, name)
    if type(r) is list:
        return [(k, s, args[0]) for k, s, v in r]
    return args[0]


@prefix("llvm.memset.")
def m_memset(ex, st, args, ins, name):
    d, v, n = args[:3]
    c = v & 255 if type(v) is int else (T.extract(v, 7, 0), 0)
    if type(n) is int:
        if n:
            ex.write_bytes(st, d, [c] * n)
        return 0
    out = []
    for s2, k in split_len(ex, st, n):
        try:
            if k:
                ex.write_bytes(s2, d, [c] * k)
        except sym.Abort:
            continue
        out.append((s2, None, 0))
    return [("ret", a, 0) for a, _, _ in ex.merge_states(out)]


@model("memset")
def m_memset_c(ex, st, args, ins, name):
    r = m_memset(ex, st, args, ins, name)
    if type(r) is list:
        return [(k, s, args[0]) for k, s, v in r]
    return args[0]


@model("memcmp", "bcmp", "strncmp")
def m_memcmp(ex, st, args, ins, name):
    a, b, n = args
    if type(n) is not int:
        out = []
        for s2, k in split_len(ex, st, n):
            try:
                out.append(("ret", s2, _cmp(ex, s2, a, b, k, name)))
            except sym.Abort:
                pass
        return out
    return _cmp(ex, st, a, b, n, name)


def _cmp(ex, st, a, b, n, name):
    if n == 0:
        return 0
    x = [ex.cell_val(c) for c in ex.read_bytes(st, a, n)]
    y = [ex.cell_val(c) for c in ex.read_bytes(st, b, n)]
    if ex.ct_log is not None:
        e = 1
        for p, q in zip(x, y):
            e = T.band(e, T.eq(p, q, 8))
        if type(e) is not int:
            ex.ct_log.append(("memcmp", ex.where(), e, st.pc))
    if name == "@bcmp":
        e = 1
        for p, q in zip(x, y):
            e = T.band(e, T.eq(p, q, 8))
        return T.ite(e, 0, 1, 32)
    r = 0
    for p, q in reversed(list(zip(x, y))):
        if type(p) is int and type(q) is int:
            if p != q:
                r = 1 if p > q else mask(32)
        else:
            r = T.ite(T.eq(p, q, 8), r, T.ite(T.ult(p, q, 8), mask(32), 1, 32), 32)
    return r


@model("memchr")
def m_memchr(ex, st, args, ins, name):
    p, c, n = args
    if type(c) is not int:
        c = T.extract(c, 7, 0)
    else:
        c &= 255
    if type(n) is not int:
        out = []
        for s2, k in split_len(ex, st, n):
            try:
                out.append(("ret", s2, _memchr(ex, s2, p, c, k)))
            except sym.Abort:
                pass
        return out
    return _memchr(ex, st, p, c, n)


def _memchr(ex, st, p, c, n):
    x = [ex.cell_val(k) for k in ex.read_bytes(st, p, n)]
    r = 0
    for i in range(n - 1, -1, -1):
        r = T.ite(T.eq(x[i], c, 8), T.add(p, i, 64), r, 64)
    return r


@model("strlen")
def m_strlen(ex, st, args, ins, name):
    a = args[0]
    if type(a) is not int:
        raise sym.Unsupported("strlen of a symbolic pointer")
    n = 0
    r = None
    acc = []
    while True:
        b = ex.load(st, a + n, 1)
        if type(b) is int:
            if b == 0:
                break
        else:
            acc.append((T.eq(b, 0, 8), n))
        n += 1
    r = n
    for c, k in reversed(acc):
        r = T.ite(c, k, r, 64)
    return r


@prefix("llvm.fshl.", "llvm.fshr.")
def m_fsh(ex, st, args, ins, name):
    a, b, c = args
    t = ins.ty
    left = name.startswith("@llvm.fshl")
    if t.k == "vec":
        n, w = t.n, t.el.bits
        return T.concat_list([(_fsh(T.extract(a, k * w + w - 1, k * w, n * w), T.extract(b, k * w + w - 1, k * w, n * w),
                                    T.extract(c, k * w + w - 1, k * w, n * w), w, left), w) for k in range(n - 1, -1, -1)])
    return _fsh(a, b, c, t.w, left)


def _fsh(a, b, c, w, left):
    if type(c) is int:
        c %= w
        if c == 0:
            return a if left else b
        if not left:
            c = w - c
        return T.concat_list([(T.extract(a, w - 1 - c, 0, w), w - c), (T.extract(b, w - 1, w - c, w), c)])
    # symbolic amount
    c = T.and_(c, w - 1, w)
    inv = T.and_(T.sub(w, c, w), w - 1, w)
    z = T.eq(c, 0, w)
    if left:
        return T.ite(z, a, T.or_(T.shl(a, c, w), T.lshr(b, inv, w), w), w)
    return T.ite(z, b, T.or_(T.shl(a, inv, w), T.lshr(b, c, w), w), w)


def _lanes(fn):
    def f(ex, st, args, ins, name):
        t = ins.ty
        if t.k == "vec":
            n, w = t.n, t.el.bits
            return T.concat_list([(fn(*[T.extract(a, k * w + w - 1, k * w, n * w) for a in args[:2]], w), w) for k in range(n - 1, -1, -1)])
        return fn(args[0], args[1], t.w)
    return f


prefix("llvm.umin.")(_lanes(lambda a, b, w: T.ite(T.ult(a, b, w), a, b, w)))
prefix("llvm.umax.")(_lanes(lambda a, b, w: T.ite(T.ult(a, b, w), b, a, w)))
prefix("llvm.smin.")(_lanes(lambda a, b, w: T.ite(T.slt(a, b, w), a, b, w)))
prefix("llvm.smax.")(_lanes(lambda a, b, w: T.ite(T.slt(a, b, w), b, a, w)))


def _usub_sat(a, b, w):
    return T.ite(T.ult(a, b, w), 0, T.sub(a, b, w), w)


prefix("llvm.usub.sat.")(_lanes(_usub_sat))


@prefix("llvm.uadd.with.overflow.")
def m_uaddo(ex, st, args, ins, name):
    w = ins.ty.els[0].w
    a, b = args
    r = T.add(a, b, w)
    x = T.add(T.zext(a, w, w + 1), T.zext(b, w, w + 1), w + 1)
    return (r, T.extract(x, w, w, w + 1))


@prefix("llvm.usub.with.overflow.")
def m_usubo(ex, st, args, ins, name):
    w = ins.ty.els[0].w
    a, b = args
    return (T.sub(a, b, w), T.ult(a, b, w))


@prefix("llvm.umul.with.overflow.")
def m_umulo(ex, st, args, ins, name):
    w = ins.ty.els[0].w
    a, b = args
    p = T.mul(T.zext(a, w, 2 * w), T.zext(b, w, 2 * w), 2 * w)
    return (T.extract(p, w - 1, 0, 2 * w), T.not_(T.eq(T.extract(p, 2 * w - 1, w, 2 * w), 0, w)))


@prefix("llvm.sadd.with.overflow.", "llvm.ssub.with.overflow.", "llvm.smul.with.overflow.")
def m_so(ex, st, args, ins, name):
    w = ins.ty.els[0].w
    a, b = args
    W = 2 * w
    f = {"sad": T.add, "ssu": T.sub, "smu": T.mul}[name[6:9]]
    x = f(T.sext(a, w, W), T.sext(b, w, W), W)
    r = T.extract(x, w - 1, 0, W)
    return (r, T.not_(T.eq(T.sext(r, w, W), x, W)))


@prefix("llvm.bswap.")
def m_bswap(ex, st, args, ins, name):
    t = ins.ty
    if t.k == "vec":
        n, w = t.n, t.el.bits
        return T.concat_list([(T.bswap(T.extract(args[0], k * w + w - 1, k * w, n * w), w), w) for k in range(n - 1, -1, -1)])
    return T.bswap(args[0], t.w)


@prefix("llvm.bitreverse.")
def m_bitrev(ex, st, args, ins, name):
    w = ins.ty.w
    return T.concat_list([(T.extract(args[0], i, i, w), 1) for i in range(w)])


@prefix("llvm.ctpop.")
def m_ctpop(ex, st, args, ins, name):
    return T.ctpop(args[0], ins.ty.w)


@prefix("llvm.ctlz.")
def m_ctlz(ex, st, args, ins, name):
    a, w = args[0], ins.ty.w
    if type(a) is int:
        return w - a.bit_length()
    r = w
    for i in range(w):
        r = T.ite(T.extract(a, i, i), w - 1 - i, r, w)
    return r


@prefix("llvm.cttz.")
def m_cttz(ex, st, args, ins, name):
    a, w = args[0], ins.ty.w
    if type(a) is int:
        return (a & -a).bit_length() - 1 if a else w
    r = w
    for i in range(w - 1, -1, -1):
        r = T.ite(T.extract(a, i, i), i, r, w)
    return r


@prefix("llvm.abs.")
def m_abs(ex, st, args, ins, name):
    a, w = args[0], ins.ty.w
    return T.ite(T.slt(a, 0, w), T.neg(a, w), a, w)


@prefix("llvm.expect.", "llvm.ssa.copy", "llvm.launder", "llvm.strip", "llvm.threadlocal.address")
def m_first(ex, st, args, ins, name):
    return args[0]


@prefix("llvm.is.constant.")
def m_isconst(ex, st, args, ins, name):
    return 0


@prefix("llvm.objectsize.")
def m_objsize(ex, st, args, ins, name):
    return M64


@prefix("llvm.eh.typeid.for")
def m_typeid(ex, st, args, ins, name):
    return sym.typeid(args[0])


@prefix("llvm.stacksave")
def m_stacksave(ex, st, args, ins, name):
    return 0


@prefix("llvm.vector.reduce.")
def m_vred(ex, st, args, ins, name):
    op = name.split(".")[3]
    a = args[0]
    vt = ins.a[1][0][0]
    n, w = vt.n, vt.el.bits
    l = [T.extract(a, k * w + w - 1, k * w, n * w) for k in range(n)]
    f = {"add": T.add, "xor": T.xor_, "or": T.or_, "and": T.and_, "mul": T.mul,
         "umax": lambda x, y, w: T.ite(T.ult(x, y, w), y, x, w), "umin": lambda x, y, w: T.ite(T.ult(x, y, w), x, y, w)}[op]
    r = l[0]
    for x in l[1:]:
        r = f(r, x, w)
    return r


@model("llvm.trap", "abort", "_ZSt9terminatev", "__clang_call_terminate", "exit", "_exit", "__assert_fail", "_ZSt21__glibcxx_assert_failPKciS0_S0_")
def m_term(ex, st, args, ins, name):
    ex.violation(st, "terminate", "the program is terminated (%s)" % name[1:])
    raise sym.Abort


# ---------------------------------------------------------------- x86
_SBOX = None


def sbox():
    global _SBOX
    if _SBOX is None:
        s = [0] * 256
        p = q = 1
        while True:
            p = p ^ ((p << 1) & 0xFF) ^ (0x1B if p & 0x80 else 0)
            q ^= q << 1
            q ^= q << 2
            q ^= q << 4
            q &= 0xFF
            if q & 0x80:
                q ^= 0x09
            x = q ^ ((q << 1 | q >> 7) & 255) ^ ((q << 2 | q >> 6) & 255) ^ ((q << 3 | q >> 5) & 255) ^ ((q << 4 | q >> 4) & 255)
            s[p] = x ^ 0x63
            if p == 1:
                break
        s[0] = 0x63
        _SBOX = tuple(s)
    return _SBOX


_INV = None


def inv_sbox():
    global _INV
    if _INV is None:
        v = [0] * 256
        for i, x in enumerate(sbox()):
            v[x] = i
        _INV = tuple(v)
    return _INV


def sub_byte(x):
    return T.tbl(sbox(), x, 8)


def xtime(x):
    h = T.extract(x, 7, 7, 8)
    sh = T.concat(T.extract(x, 6, 0, 8), 7, 0, 1)
    return T.xor_(sh, T.concat_list([(0, 3), (h, 1), (h, 1), (0, 1), (h, 1), (h, 1)]), 8)


def _bytes(x):
    return [T.extract(x, 8 * i + 7, 8 * i, 128) for i in range(16)]


def _pack(l):
    return T.concat_list([(b, 8) for b in reversed(l)])


def _aes(args, last):
    s = _bytes(args[0])
    # ShiftRows then SubBytes
    s = [sub_byte(s[(i % 4) + 4 * ((i // 4 + i % 4) % 4)]) for i in range(16)]
    if not last:
        o = []
        for c in range(4):
            a = s[4 * c:4 * c + 4]
            x = [xtime(b) for b in a]
            for r in range(4):
                v = T.xor_(x[r], x[(r + 1) % 4], 8)
                for t in (a[(r + 1) % 4], a[(r + 2) % 4], a[(r + 3) % 4]):
                    v = T.xor_(v, t, 8)
                o.append(v)
        s = o
    k = _bytes(args[1])
    return _pack([T.xor_(a, b, 8) for a, b in zip(s, k)])


@model("llvm.x86.aesni.aesenc")
def m_aesenc(ex, st, args, ins, name):
    return _aes(args, False)


@model("llvm.x86.aesni.aesenclast")
def m_aesenclast(ex, st, args, ins, name):
    return _aes(args, True)


def _aesdec(args, last):
    s = _bytes(args[0])
    s = [T.tbl(inv_sbox(), s[(i % 4) + 4 * ((i // 4 - i % 4) % 4)], 8) for i in range(16)]
    if not last:
        s = _invmix(s)
    k = _bytes(args[1])
    return _pack([T.xor_(a, b, 8) for a, b in zip(s, k)])


def _invmix(s):
    o = []
    for c in range(4):
        a = s[4 * c:4 * c + 4]

        def m(x, n):
            r = 0
            p = x
            while n:
                if n & 1:
                    r = T.xor_(r, p, 8)
                p = xtime(p)
                n >>= 1
            return r
        for r in range(4):
            v = 0
            for j, n in enumerate((14, 11, 13, 9)):
                v = T.xor_(v, m(a[(r + j) % 4], n), 8)
            o.append(v)
    return o


@model("llvm.x86.aesni.aesdec")
def m_aesdec(ex, st, args, ins, name):
    return _aesdec(args, False)


@model("llvm.x86.aesni.aesdeclast")
def m_aesdeclast(ex, st, args, ins, name):
    return _aesdec(args, True)


@model("llvm.x86.aesni.aesimc")
def m_aesimc(ex, st, args, ins, name):
    return _pack(_invmix(_bytes(args[0])))


@model("llvm.x86.aesni.aeskeygenassist")
def m_keygen(ex, st, args, ins, name):
    b = _bytes(args[0])
    rc = args[1] & 255
    x1 = [sub_byte(v) for v in b[4:8]]
    x3 = [sub_byte(v) for v in b[12:16]]

    def rot(x):
        r = x[1:] + x[:1]
        return [T.xor_(r[0], rc, 8)] + r[1:]
    return _pack(x1 + rot(x1) + x3 + rot(x3))


@model("llvm.x86.pclmulqdq")
def m_pclmul(ex, st, args, ins, name):
    a, b, imm = args
    x = T.extract(a, 127, 64, 128) if imm & 1 else T.extract(a, 63, 0, 128)
    y = T.extract(b, 127, 64, 128) if imm & 16 else T.extract(b, 63, 0, 128)
    return T.clmul(x, y, 64)


@prefix("llvm.x86.sse2.psll", "llvm.x86.sse2.psrl", "llvm.x86.sse2.psra")
def m_psh(ex, st, args, ins, name):
    # pslli.{w,d,q} / psll.{w,d,q}
    a, n = args
    parts = name.split(".")
    w = {"w": 16, "d": 32, "q": 64}[parts[-1]]
    if not parts[-2].endswith("i"):
        n = T.extract(n, 63, 0, 128)
    if type(n) is not int:
        raise sym.Unsupported(name)
    f = T.shl if "psll" in name else (T.lshr if "psrl" in name else T.ashr)
    if n >= w:
        if f is T.ashr:
            n = w - 1
        else:
            return 0
    return T.concat_list([(f(T.extract(a, k * w + w - 1, k * w, 128), n, w), w) for k in range(128 // w - 1, -1, -1)])


@model("llvm.x86.ssse3.pshuf.b.128")
def m_pshufb(ex, st, args, ins, name):
    a, m = args
    if type(m) is not int:
        raise sym.Unsupported(name)
    b = _bytes(a)
    o = []
    for i in range(16):
        k = (m >> (8 * i)) & 255
        o.append(0 if k & 128 else b[k & 15])
    return _pack(o)


@model("llvm.x86.addcarry.64", "llvm.x86.addcarry.32")
def m_addcarry(ex, st, args, ins, name):
    c, a, b = args
    w = 64 if name.endswith("64") else 32
    ci = T.not_(T.eq(c, 0, 8))
    x = T.add(T.add(T.zext(a, w, w + 1), T.zext(b, w, w + 1), w + 1), T.zext(ci, 1, w + 1), w + 1)
    return (T.zext(T.extract(x, w, w, w + 1), 1, 8), T.extract(x, w - 1, 0, w + 1))


@model("llvm.x86.subborrow.64", "llvm.x86.subborrow.32")
def m_subborrow(ex, st, args, ins, name):
    c, a, b = args
    w = 64 if name.endswith("64") else 32
    ci = T.not_(T.eq(c, 0, 8))
    x = T.sub(T.sub(T.zext(a, w, w + 1), T.zext(b, w, w + 1), w + 1), T.zext(ci, 1, w + 1), w + 1)
    return (T.zext(T.extract(x, w, w, w + 1), 1, 8), T.extract(x, w - 1, 0, w + 1))


@prefix("llvm.x86.rdrand.", "llvm.x86.rdseed.")
def m_rdrand(ex, st, args, ins, name):
    t = ins.ty
    w = t.els[0].w
    v = new_input(ex, st, "rdrand", w)
    ok = new_input(ex, st, "rdrand_ok", 1)
    return (T.ite(ok, v, 0, w), T.zext(ok, 1, 32))


# ---------------------------------------------------------------- C and C++ runtime
@model("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t")
def m_new(ex, st, args, ins, name):
    n = args[0]
    if type(n) is int:
        if n > ALLOC_LIMIT:
            if name == "@malloc":
                return 0
            return ex.throw(st, "_ZTISt9bad_alloc")
        return ex.alloc(st, n, "heap", name)
    out = []
    big = T.ult(ALLOC_LIMIT, n, 64)
    if type(big) is int:
        if big:
            return ex.throw(st, "_ZTISt9bad_alloc")
    elif S.feasible(st.pc, big) is not False:
        s = st.fork()
        s.pc = s.pc + (big,)
        out += ex.throw(s, "_ZTISt9bad_alloc")
        st.pc = st.pc + (T.not_(big),)
    vals = ex.concretize(st, n, 64)
    for s, k in vals:
        out.append(("ret", s, ex.alloc(s, k, "heap", name)))
    return out


@model("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "_ZdlPvmSt11align_val_t", "_ZdlPvSt11align_val_t")
def m_delete(ex, st, args, ins, name):
    p = args[0]
    if type(p) is int:
        if p:
            _free(ex, st, p, 1)
        return 0
    for c, oid, off in ex.resolve(st, p):
        if oid == 0:
            continue
        if type(off) is not int or off != 0:
            ex.mem_fault(st, "invalid free", c)
            continue
        o = ex.get_obj(st, oid)
        if o is None or o.kind != "heap":
            ex.mem_fault(st, "invalid free", c)
        # conditional free: the object stays readable (a later use after free through this path is not reported)
    return 0


def _free(ex, st, p, c):
    oid = (p + sym.HALF) >> 32
    o = ex.get_obj(st, oid)
    if o is None or o.kind != "heap" or p - (oid << 32) != 0:
        ex.mem_fault(st, "invalid free")
        raise sym.Abort
    if not o.alive:
        ex.mem_fault(st, "double free")
        raise sym.Abort
    if st.ghost.get("keepfree"):
        pass
    o = sym.Obj(o.id, o.size, [], st.tok, o.name, o.kind)
    o.alive = False
    st.mem[oid] = o


@model("printf", "puts", "putchar", "fprintf", "fflush", "fwrite", "vprintf", "fputs", "fputc", "putc")
def m_print(ex, st, args, ins, name):
    return 0


@model("__cxa_allocate_exception")
def m_allocexc(ex, st, args, ins, name):
    p = ex.alloc(st, max(64, args[0]), "exc")
    st.mem[p >> 32].data = [0] * max(64, args[0])
    return p


@model("__cxa_free_exception")
def m_freeexc(ex, st, args, ins, name):
    return 0


@model("__cxa_throw")
def m_throw(ex, st, args, ins, name):
    p, ti = args[0], args[1]
    nm = None
    for g, a in ex.gaddr.items():
        if a == ti:
            nm = g[1:]
            break
    st.ghost[("exc", p)] = nm
    return [("throw", st, sym.Exc(p, nm))]


@model("__cxa_begin_catch")
def m_begincatch(ex, st, args, ins, name):
    st.caught = st.caught + (args[0],)
    return args[0]


@model("__cxa_end_catch")
def m_endcatch(ex, st, args, ins, name):
    if st.caught:
        p = st.caught[-1]
        st.caught = st.caught[:-1]
        if ("re", p) in st.ghost:
            del st.ghost[("re", p)]
        else:
            st.ghost.pop(("exc", p), None)
            if type(p) is int:
                st.mem.pop(p >> 32, None)
    return 0


@model("__cxa_rethrow")
def m_rethrow(ex, st, args, ins, name):
    p = st.caught[-1]
    st.ghost[("re", p)] = 1
    return [("throw", st, sym.Exc(p, st.ghost.get(("exc", p))))]


@model("__cxa_guard_acquire")
def m_guard(ex, st, args, ins, name):
    b = ex.load(st, args[0], 1)
    return T.ite(T.eq(b, 0, 8), 1, 0, 32)


@model("__cxa_guard_release")
def m_guardrel(ex, st, args, ins, name):
    ex.store(st, args[0], 1, 1)
    return 0


@model("__cxa_guard_abort", "__cxa_atexit", "atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev")
def m_zero(ex, st, args, ins, name):
    return 0


@model("__cxa_pure_virtual")
def m_pure(ex, st, args, ins, name):
    ex.violation(st, "terminate", "pure virtual call")
    raise sym.Abort


@model("_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13runtime_errorC1EPKc",
       "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorC1ERKS_", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt12out_of_rangeD1Ev",
       "_ZNSt16invalid_argumentC1EPKc", "_ZNSt16invalid_argumentD1Ev", "_ZNSt12length_errorC1EPKc", "_ZNSt12length_errorD1Ev",
       "_ZNSt11logic_errorC1EPKc", "_ZNSt11logic_errorD1Ev", "_ZNSt13runtime_errorC2EPKc", "_ZNSt13runtime_errorD2Ev",
       "_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
       "_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
       "_ZNSt12length_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
       "_ZNSt12domain_errorC1EPKc", "_ZNSt12domain_errorD1Ev", "_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev")
def m_excctor(ex, st, args, ins, name):
    return 0


def thrower(ti):
    def f(ex, st, args, ins, name):
        return ex.throw(st, ti)
    return f


for _n, _t in (("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"), ("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"),
               ("_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"),
               ("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"), ("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"),
               ("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"), ("_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"),
               ("_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"), ("_ZSt26__throw_bad_variant_accessPKc", "_ZTISt18bad_variant_access"),
               ("_ZSt26__throw_bad_variant_accessb", "_ZTISt18bad_variant_access"),
               ("_ZSt27__throw_bad_optional_accessv", "_ZTISt19bad_optional_access"),
               ("_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call")):
    model(_n)(thrower(_t))


@model("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE15_M_replace_coldEPcmPKcmm")
def m_replace_cold(ex, st, args, ins, name):
    this, p, len1, s, len2, how = args
    if any(type(x) is not int for x in (len1, len2, how)):
        raise sym.Unsupported("symbolic string replace")
    src = list(ex.read_bytes(st, s, len2))
    if how and len1 != len2:
        ex.write_bytes(st, T.add(p, len2, 64), list(ex.read_bytes(st, T.add(p, len1, 64), how)))
    ex.write_bytes(st, p, src)
    return 0


@model("_ZSt11_Hash_bytesPKvmm")
def m_hashbytes(ex, st, args, ins, name):
    # results must not depend on which hash function the library uses: the constant one is as good as any
    ex.read_bytes(st, args[0], args[1]) if type(args[1]) is int else None
    return 0


@model("_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm")
def m_rehash(ex, st, args, ins, name):
    # growing the table is an optimisation: a table that never grows has the same contents
    return (0, 0)


@model("_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm")
def m_nextbkt(ex, st, args, ins, name):
    return max(1, args[1]) if type(args[1]) is int else 1


# ---------------------------------------------------------------- harness interface
def new_input(ex, st, name, w):
    k = st.names.get(name, 0)
    st.names[name] = k + 1
    full = name if k == 0 else "%s#%d" % (name, k)
    ex.inputs[full] = w
    if ex.concrete is not None:
        return ex.concrete.get(full, 0) & mask(w)
    return T.var(full, w)


def new_name(st, name):
    k = st.names.get(name, 0)
    st.names[name] = k + 1
    return name if k == 0 else "%s#%d" % (name, k)


@model("vf_bytes")
def vf_bytes(ex, st, args, ins, name):
    p, n, nm = args
    nm = new_name(st, ex.cstring(st, nm))
    cells = []
    for i in range(n):
        full = "%s[%d]" % (nm, i)
        ex.inputs[full] = 8
        if ex.concrete is not None:
            cells.append(ex.concrete.get(full, 0) & 255)
        else:
            cells.append((T.var(full, 8), 0))
    ex.write_bytes(st, p, cells)
    return 0


def _scalar(w):
    def f(ex, st, args, ins, name):
        return new_input(ex, st, ex.cstring(st, args[0]), w)
    return f


model("vf_u64")(_scalar(64))
model("vf_u32")(_scalar(32))
model("vf_u16")(_scalar(16))
model("vf_u8")(_scalar(8))
model("vf_bool")(_scalar(1))


@model("vf_choose")
def vf_choose(ex, st, args, ins, name):
    nm, lo, hi = args
    nm = ex.cstring(st, nm)
    v = new_input(ex, st, nm, 64)
    if type(v) is int:
        return v
    out = []
    for x in range(lo, hi + 1):
        s = st.fork()
        s.pc = s.pc + (T.eq(v, x, 64),)
        s.ghost["choose:" + str(v.aux)] = x   # keeps the alternatives apart
        out.append(("ret", s, x))
    return out


@model("vf_assume")
def vf_assume(ex, st, args, ins, name):
    c = args[0]
    if type(c) is int:
        if not c & 1:
            raise sym.Abort
        return 0
    if c.w != 1:
        c = T.not_(T.eq(c, 0, c.w))
        if type(c) is int:
            if not c:
                raise sym.Abort
            return 0
    if S.feasible(st.pc, c) is False:
        raise sym.Abort
    st.pc = st.pc + (c,)
    return 0


def record(ex, st, label, status, env=None, kind="check"):
    ex.checks.append((label, status))
    if status == "violated":
        v = sym.Violation(kind, label, env, ex.where(), st.pc)
        ex.violations.append(v)
        if len(ex.violations) >= ex.max_viol:
            raise sym.BudgetExceeded("violations")
    elif status == "unknown":
        ex.unknowns.append((label, "check", "solver gave no verdict"))


def label_of(ex, st, p):
    if type(p) is not int and p.op == "ite":
        return "%s / %s" % (label_of(ex, st, p.args[1]), label_of(ex, st, p.args[2]))
    return ex.cstring(st, p)


@model("vf_check")
def vf_check(ex, st, args, ins, name):
    c, lab = args[0], label_of(ex, st, args[1])
    if type(c) is not int and c.w != 1:
        c = T.not_(T.eq(c, 0, c.w))
    if type(c) is int and c & 1:
        record(ex, st, lab, "proved")
        return 0
    if type(c) is int:
        c = 0
    if ex.provers:
        for p in ex.provers:
            r = p(ex, st, c)
            if r:
                record(ex, st, lab, "proved")
                return 0
    r = S.valid(st.pc, c, ex.prove_timeout)
    if r is True:
        record(ex, st, lab, "proved")
    elif r is None:
        record(ex, st, lab, "unknown")
    else:
        record(ex, st, lab, "violated", r)
        raise sym.Abort
    if type(c) is not int:
        st.pc = st.pc + (c,)
    return 0


def chunks(ex, a, b):
    """split two byte-cell lists into (term, term, width) at natural word boundaries"""
    out = []
    n = len(a)
    i = 0
    o1 = sym.Obj(0, n, a, None, "", "")
    o2 = sym.Obj(0, n, b, None, "", "")

    def natural(l, i):
        c = l[i]
        if type(c) is tuple and c[1] == 0:
            k = c[0].w // 8
            if i + k <= n and all(type(l[i + j]) is tuple and l[i + j][0] is c[0] and l[i + j][1] == j for j in range(k)):
                return k
        return 1
    while i < n:
        k = max(natural(a, i), natural(b, i))
        if k > 1 and not (natural(a, i) == k or natural(b, i) == k):
            k = 1
        out.append((ex.read(o1, i, k), ex.read(o2, i, k), 8 * k))
        i += k
    return out


@model("vf_check_eq")
def vf_check_eq(ex, st, args, ins, name):
    p, q, n, lab = args
    lab = label_of(ex, st, lab)
    if type(n) is not int:
        raise sym.Unsupported("vf_check_eq with symbolic length")
    a = list(ex.read_bytes(st, p, n))
    b = list(ex.read_bytes(st, q, n))
    pairs = chunks(ex, a, b)
    r = S.prove_equal(pairs, st.pc, timeout=ex.prove_timeout, extra_provers=ex.extra_provers, known=ex.known, lift_first=getattr(ex, "lift_first", False))
    if r.ok is True:
        record(ex, st, lab, "proved")
    elif r.ok is None:
        record(ex, st, lab, "unknown")
    else:
        record(ex, st, lab, "violated", r.env)
        raise sym.Abort
    return 0


@model("vf_cong")
def vf_cong(ex, st, args, ins, name):
    """vf_cong(p, n, q, m, mod, k, label): the little-endian numbers p[0..n) and q[0..m) are congruent modulo mod[0..k)"""
    p, n, q, m, md, k, lab = args
    lab = label_of(ex, st, lab)
    v = []
    for ptr, l in ((p, n), (q, m), (md, k)):
        cells = list(ex.read_bytes(st, ptr, l))
        o = sym.Obj(0, l, cells, None, "", "")
        v.append(ex.read(o, 0, l))
    a, b, M = v
    if type(M) is not int:
        raise sym.Unsupported("vf_cong with a symbolic modulus")
    w = 8 * max(n, m)
    r = S.prove_cong(T.zext(a, 8 * n, w), T.zext(b, 8 * m, w), w, M, st.pc, timeout=ex.prove_timeout)
    if r.ok is True:
        record(ex, st, lab, "proved")
    elif r.ok is None:
        record(ex, st, lab, "unknown")
    else:
        record(ex, st, lab, "violated", r.env)
        raise sym.Abort
    return 0


@model("vf_lift_first")
def vf_lift_first(ex, st, args, ins, name):
    ex.lift_first = True
    return 0


@model("vf_note")
def vf_note(ex, st, args, ins, name):
    lab = ex.cstring(st, args[0])
    if lab not in ex.reached:
        r, env = S.check_sat(list(st.pc), 20)
        if r != "unsat":
            ex.reached[lab] = env or {}
    return 0


@model("vf_symbolic")
def vf_symbolic(ex, st, args, ins, name):
    return 1


@model("vf_out")
def vf_out(ex, st, args, ins, name):
    p, n, lab = args
    lab = label_of(ex, st, lab)
    ex.outputs.append((lab, [ex.cell_val(c) for c in ex.read_bytes(st, p, n)], st.pc))
    return 0


@model("vf_uf")
def vf_uf(ex, st, args, ins, name):
    """vf_uf(name, in, n, out, m): out[m] = F_name_n(in[n]) for an arbitrary but fixed function"""
    nm, p, n, q, m = args
    nm = ex.cstring(st, nm)
    if type(n) is not int:
        raise sym.Unsupported("vf_uf with a symbolic length")
    cells = [ex.cell_val(c) for c in ex.read_bytes(st, p, n)]
    fn = "%s/%d/%d" % (nm, n, m)
    v = T.uf(fn, tuple(cells), (8,) * n, 8 * m)
    ex.uf_apps.append((nm, n, m, tuple(cells), v))
    if type(v) is int:
        ex.write_bytes(st, q, list(v.to_bytes(m, "little")))
    else:
        ex.write_bytes(st, q, [(v, i) for i in range(m)])
    return 0


@model("vf_substitute")
def vf_substitute(ex, st, args, ins, name):
    """from here on, calls to a function F (its name containing the string) with a definition of vf_subst_F in the harness go there"""
    only = ex.cstring(st, args[0])
    ex.subst = {"@" + n[10:]: n for n in ex.m.functions if n.startswith("@vf_subst_") and only in n}
    return len(ex.subst)


@model("vf_uf_comm")
def vf_uf_comm(ex, st, args, ins, name):
    """an arbitrary commutative function: the operands are put in a fixed order"""
    nm, a, b, n, q, m = args
    x, y = ([ex.cell_val(c) for c in ex.read_bytes(st, p, n)] for p in (a, b))

    def key(v):
        return [(0, c) if type(c) is int else (1, c.id) for c in v]
    cells = x + y if key(x) <= key(y) else y + x
    v = T.uf("%s/%d/%d" % (ex.cstring(st, nm), 2 * n, m), tuple(cells), (8,) * (2 * n), 8 * m)
    if type(v) is int:
        ex.write_bytes(st, q, list(v.to_bytes(m, "little")))
    else:
        ex.write_bytes(st, q, [(v, i) for i in range(m)])
    return 0


@model("vf_same")
def vf_same(ex, st, args, ins, name):
    x, y = ([ex.cell_val(c) for c in ex.read_bytes(st, p, args[2])] for p in args[:2])
    return int(all((a is b) or (type(a) is int and type(b) is int and a == b) or (type(a) is not int and type(b) is not int and a.id == b.id) for a, b in zip(x, y)))


@model("vf_is_const")
def vf_is_const(ex, st, args, ins, name):
    return 1 if type(args[0]) is int else 0


@model("vf_concretize")
def vf_concretize(ex, st, args, ins, name):
    v = args[0]
    if type(v) is int:
        return v
    out = []
    for s, x in ex.concretize(st, v, 64):
        if type(x) is int:
            s.ghost["choose:conc%d" % v.id] = x
        out.append(("ret", s, x))
    return out


@model("vf_secret")
def vf_secret(ex, st, args, ins, name):
    """marks input bytes as secret for the constant-time property"""
    p, n = args
    for c in ex.read_bytes(st, p, n):
        if type(c) is tuple:
            for v in T.free_vars([c[0]]):
                ex.secrets.add(v.aux)
    return 0


@model("vf_ct_begin")
def vf_ct_begin(ex, st, args, ins, name):
    ex.ct_log = []
    return 0


@model("vf_ct_end")
def vf_ct_end(ex, st, args, ins, name):
    log = ex.ct_log or []
    ex.ct_log = None
    ex.ct_results.append(log)
    return 0


@model("vf_alloc")
def vf_alloc(ex, st, args, ins, name):
    """exactly sized heap buffer, so that a one-byte overrun is visible"""
    return ex.alloc(st, args[0], "heap", "vf_alloc")

"""Parser for textual LLVM IR (LLVM 18, opaque pointers).  Function bodies are parsed on demand."""
import re

TOK = re.compile(r'''
   \s*(?:
   (?P<str>c"(?:[^"])*")
 | (?P<lid>%(?:"[^"]*"|[-\w$.]+))
 | (?P<gid>@(?:"[^"]*"|[-\w$.]+))
 | (?P<num>-?\d+\.\d+e[+-]?\d+|0x[0-9A-FHKLMR]+|-?\d+(?![\w.]))
 | (?P<meta>!(?:"[^"]*"|[\w.]+)?)
 | (?P<attr>\#\d+)
 | (?P<dots>\.\.\.)
 | (?P<qs>"[^"]*")
 | (?P<word>[A-Za-z_$][\w$.]*)
 | (?P<p>[()\[\]{}<>,=*:|])
   )''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while True:
        m = TOK.match(s, i)
        if not m:
            rest = s[i:].strip()
            if not rest or rest.startswith(";"):
                break
            raise SyntaxError("token: %r in %r" % (s[i:i + 40], s[:200]))
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "w", "el", "n", "els", "size", "align", "offs", "bits", "name")


def _mkint(w):
    t = Ty()
    t.k = "int"
    t.w = w
    t.bits = w
    b = (w + 7) // 8
    a = 1
    while a < b and a < 16:
        a *= 2
    t.align = a
    t.size = (b + a - 1) // a * a
    return t


INTS = {}


def int_ty(w):
    t = INTS.get(w)
    if t is None:
        t = INTS[w] = _mkint(w)
    return t


def _mkprim(k, w, size):
    t = Ty()
    t.k = k
    t.w = w
    t.bits = w
    t.size = size
    t.align = size
    return t


PTR = _mkprim("ptr", 64, 8)
FLOAT = _mkprim("float", 32, 4)
DOUBLE = _mkprim("double", 64, 8)
X86FP80 = _mkprim("x86_fp80", 80, 16)
VOID = _mkprim("void", 0, 0)
LABEL = _mkprim("label", 0, 0)
META = _mkprim("metadata", 0, 0)
TOKEN = _mkprim("token", 0, 0)


def arr_ty(n, el):
    t = Ty()
    t.k = "arr"
    t.n = n
    t.el = el
    t.size = n * el.size
    t.align = el.align
    t.bits = None
    t.w = None
    return t


def vec_ty(n, el):
    t = Ty()
    t.k = "vec"
    t.n = n
    t.el = el
    t.bits = n * el.bits
    t.w = t.bits
    t.size = (t.bits + 7) // 8
    p = 1
    while p < t.size:
        p *= 2
    t.size = p
    t.align = t.size
    return t


def struct_ty(els, packed=False):
    t = Ty()
    t.k = "struct"
    t.els = els
    t.bits = None
    t.w = None
    off = 0
    al = 1
    offs = []
    for e in els:
        a = 1 if packed else e.align
        off = (off + a - 1) // a * a
        offs.append(off)
        off += e.size
        al = max(al, a)
    off = (off + al - 1) // al * al
    t.offs = offs
    t.size = off
    t.align = al
    return t


class Global:
    __slots__ = ("name", "ty", "init_toks", "const", "external", "addr", "thread_local")


class Inst:
    __slots__ = ("op", "dest", "ty", "a", "x", "fn", "line")

    def __init__(self, op, dest=None, ty=None, a=None, x=None):
        self.op = op
        self.dest = dest
        self.ty = ty
        self.a = a
        self.x = x

    def __repr__(self):
        return "%s = %s %s" % (self.dest, self.op, self.a)


class Block:
    __slots__ = ("name", "phis", "insts", "term", "fn", "succs", "ipdom", "idx", "live")


class Function:
    def __init__(self, name, header, body_lines, module):
        self.name = name
        self.header = header
        self.body_lines = body_lines
        self.module = module
        self.parsed = False
        self.params = None

    def parse(self):
        if not self.parsed:
            Parser(self.module).function(self)
            self.parsed = True
        return self


class FuncRef:
    """address of a function as a constant"""
    __slots__ = ("name",)


PARAM_ATTRS_WITH_ARG = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "inalloca",
                        "preallocated", "elementtype", "nofpclass", "memory", "allocsize", "vscale_range", "range", "captures", "initializes"}


class Module:
    def __init__(self, text):
        self.types = {}
        self.type_toks = {}
        self.globals = {}
        self.functions = {}
        self.declares = {}
        self.aliases = {}
        self.ctors = []
        self.text = text
        self._index(text)

    def _index(self, text):
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if not ln or ln[0] == ";" or ln[0] == "!":
                i += 1
                continue
            c = ln[0]
            if c == "%":
                m = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = type (.*)$', ln)
                self.type_toks[m.group(1)] = m.group(2)
            elif c == "@":
                m = re.match(r'(@(?:"[^"]*"|[-\w$.]+)) = (.*)$', ln)
                self._global(m.group(1), m.group(2))
            elif ln.startswith("define "):
                m = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', ln)
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self.functions[m.group(1)] = Function(m.group(1), ln, lines[i + 1:j], self)
                i = j
            elif ln.startswith("declare "):
                m = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', ln)
                self.declares[m.group(1)] = ln
            i += 1

    def _global(self, name, rest):
        g = Global()
        g.name = name
        g.addr = None
        m = re.match(r'((?:(?:private|internal|linkonce|linkonce_odr|weak|weak_odr|common|appending|external|extern_weak|available_externally|dso_local|local_unnamed_addr|unnamed_addr|hidden|protected|default|externally_initialized|thread_local(?:\([a-z]+\))?)\s+)*)(constant|global|alias)\s+(.*)$', rest)
        if not m:
            raise SyntaxError("global: " + name + " " + rest[:100])
        quals = m.group(1)
        if m.group(2) == "alias":
            self.aliases[name] = m.group(3)
            return
        g.const = m.group(2) == "constant"
        g.external = "external" in quals.split() or "extern_weak" in quals.split()
        g.thread_local = "thread_local" in quals
        g.init_toks = m.group(3)
        g.ty = None
        self.globals[name] = g

    def func(self, name):
        return self.functions.get(name)

    def ctor_names(self):
        for l in self.text.splitlines():
            if l.startswith("@llvm.global_ctors"):
                return re.findall(r"ptr (@[-\w.$]+|@\"[^\"]+\"), ptr", l)
        return []

    def resolve_alias(self, name):
        while name in self.aliases:
            m = re.search(r'ptr (@(?:"[^"]*"|[-\w$.]+))', self.aliases[name])
            name = m.group(1)
        return name


class Parser:
    def __init__(self, module, addr_of=None):
        self.m = module
        self.addr_of = addr_of or module.addr_of

    # -- token helpers
    def load(self, s):
        self.t = tokenize(s)
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def nxt(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise SyntaxError("expected %r got %r in %r" % (v, self.t[self.i:self.i + 5], self.t[:30]))

    # -- types
    def type(self):
        k, v = self.nxt()
        if k == "word":
            if v[0] == "i" and v[1:].isdigit():
                t = int_ty(int(v[1:]))
            elif v == "ptr":
                t = PTR
                if self.peek()[1] == "addrspace":
                    self.nxt(); self.expect("("); self.nxt(); self.expect(")")
            elif v == "void":
                t = VOID
            elif v == "float":
                t = FLOAT
            elif v == "double":
                t = DOUBLE
            elif v == "x86_fp80":
                t = X86FP80
            elif v == "label":
                t = LABEL
            elif v == "metadata":
                t = META
            elif v == "token":
                t = TOKEN
            elif v == "opaque":
                t = struct_ty([])
            else:
                raise SyntaxError("type %r" % v)
        elif k == "lid":
            t = self.named(v)
        elif v == "[":
            n = int(self.nxt()[1])
            self.expect("x")
            el = self.type()
            self.expect("]")
            t = arr_ty(n, el)
        elif v == "<":
            if self.peek()[1] == "{":
                self.nxt()
                t = self._struct_body(True)
                self.expect(">")
            else:
                n = int(self.nxt()[1])
                self.expect("x")
                el = self.type()
                self.expect(">")
                t = vec_ty(n, el)
        elif v == "{":
            t = self._struct_body(False)
        else:
            raise SyntaxError("type %r %r" % (k, v))
        # function type
        while self.peek()[1] == "(":
            save = self.i
            # only when used as function type in calls:  i32 (ptr, ...)
            self.nxt()
            depth = 1
            while depth:
                v2 = self.nxt()[1]
                if v2 == "(":
                    depth += 1
                elif v2 == ")":
                    depth -= 1
            break
        return t

    def _struct_body(self, packed):
        els = []
        if self.accept("}"):
            return struct_ty(els, packed)
        while True:
            els.append(self.type())
            if self.accept("}"):
                break
            self.expect(",")
        return struct_ty(els, packed)

    def named(self, name):
        t = self.m.types.get(name)
        if t is None:
            save = (self.t, self.i)
            body = self.m.type_toks.get(name)
            if body is None or body.strip() == "opaque":
                t = struct_ty([])
            else:
                self.load(body)
                t = self.type()
            self.t, self.i = save
            self.m.types[name] = t
        return t

    # -- constants / operands.  Returns: str register name | int | tuple (aggregate) | ("zero",ty)
    def operand(self, ty):
        k, v = self.nxt()
        if k == "lid":
            return v
        return self.const_from(k, v, ty)

    def const(self, ty):
        k, v = self.nxt()
        return self.const_from(k, v, ty)

    def const_from(self, k, v, ty):
        if k == "num":
            if ty.k == "int":
                if v.startswith("0x"):
                    return int(v, 16)
                return int(v) & ((1 << ty.w) - 1)
            import struct
            if v.startswith("0x"):
                bits = int(v[2:], 16) if v[2] not in "KLMHR" else int(v[3:], 16)
                if ty.k == "float":
                    return struct.unpack("<I", struct.pack("<f", struct.unpack("<d", struct.pack("<Q", bits))[0]))[0]
                return bits
            f = float(v)
            if ty.k == "float":
                return struct.unpack("<I", struct.pack("<f", f))[0]
            return struct.unpack("<Q", struct.pack("<d", f))[0]
        if k == "word":
            if v == "true":
                return 1
            if v == "false":
                return 0
            if v == "null" or v == "none":
                return 0
            if v == "zeroinitializer":
                return self.zero(ty)
            if v == "undef":
                return self.undef(ty)
            if v == "poison":
                return self.zero(ty)
            if v in ("getelementptr", "inttoptr", "ptrtoint", "bitcast", "add", "sub", "trunc", "zext", "icmp", "select", "and", "or", "shl", "lshr", "mul", "xor", "addrspacecast"):
                return self.constexpr(v, ty)
            if v == "dso_local_equivalent" or v == "no_cfi":
                return self.const(ty)
            if v == "asm":
                while self.peek()[0] in ("word",):
                    self.nxt()
                a = self.nxt()[1]
                self.accept(",")
                b = self.nxt()[1]
                return ("asm", a, b)
            raise SyntaxError("const %r" % v)
        if k == "gid":
            return self.addr_of(v)
        if k == "str":
            b = []
            s = v[2:-1]
            i = 0
            while i < len(s):
                if s[i] == "\\" and s[i + 1] == "\\":
                    b.append(92)
                    i += 2
                elif s[i] == "\\":
                    b.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    b.append(ord(s[i]))
                    i += 1
            return tuple(b)
        if v == "[":
            out = []
            if not self.accept("]"):
                while True:
                    t = self.type()
                    out.append(self.operand(t))
                    if self.accept("]"):
                        break
                    self.expect(",")
            return tuple(out)
        if v == "{" or (v == "<" and self.peek()[1] == "{"):
            packed = v == "<"
            if packed:
                self.nxt()
            out = []
            if not self.accept("}"):
                while True:
                    t = self.type()
                    out.append(self.operand(t))
                    if self.accept("}"):
                        break
                    self.expect(",")
            if packed:
                self.expect(">")
            return tuple(out)
        if v == "<":
            r = 0
            sh = 0
            while True:
                t = self.type()
                c = self.const(t)
                r |= (c if type(c) is int else 0) << sh
                sh += t.bits
                if self.accept(">"):
                    break
                self.expect(",")
            return r
        if k == "meta":
            return ("meta", v)
        raise SyntaxError("const %r %r" % (k, v))

    def zero(self, ty):
        if ty.k in ("arr",):
            return tuple(self.zero(ty.el) for _ in range(ty.n)) if ty.n <= 4096 else ("zeros", ty)
        if ty.k == "struct":
            return tuple(self.zero(e) for e in ty.els)
        return 0

    def undef(self, ty):
        return self.zero(ty)

    def constexpr(self, op, ty):
        while self.peek()[1] in ("inbounds", "nuw", "nsw", "exact", "nusw", "inrange"):
            if self.nxt()[1] == "inrange" and self.peek()[1] == "(":
                while self.nxt()[1] != ")":
                    pass
        if op == "getelementptr":
            self.expect("(")
            sty = self.type()
            self.expect(",")
            self.type()
            base = self.const(PTR)
            idx = []
            while self.accept(","):
                self.accept("inrange")
                it = self.type()
                idx.append((it, self.const(it)))
            self.expect(")")
            return (base + gep_const(sty, idx)) & ((1 << 64) - 1)
        if op in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "addrspacecast"):
            self.expect("(")
            st = self.type()
            v = self.const(st)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            if op == "trunc" or op == "ptrtoint":
                v &= (1 << t2.bits) - 1
            return v
        if op == "icmp":
            pred = self.nxt()[1]
            self.expect("(")
            t1 = self.type(); a = self.const(t1); self.expect(",")
            t1 = self.type(); b = self.const(t1); self.expect(")")
            return {"eq": a == b, "ne": a != b, "ult": a < b, "ugt": a > b, "ule": a <= b, "uge": a >= b}[pred] * 1
        if op == "select":
            self.expect("(")
            t1 = self.type(); c = self.const(t1); self.expect(",")
            t1 = self.type(); a = self.const(t1); self.expect(",")
            t1 = self.type(); b = self.const(t1); self.expect(")")
            return a if c else b
        self.expect("(")
        t1 = self.type()
        a = self.const(t1)
        self.expect(",")
        t2 = self.type()
        b = self.const(t2)
        self.expect(")")
        m = (1 << t1.bits) - 1
        return {"add": a + b, "sub": a - b, "and": a & b, "or": a | b, "xor": a ^ b, "mul": a * b, "shl": a << min(b, 64), "lshr": a >> b}[op] & m

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == "word" and v not in ("true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "inttoptr", "ptrtoint", "none", "asm", "c", "bitcast", "icmp", "select", "add", "sub", "blockaddress", "trunc", "zext"):
                self.nxt()
                if self.peek()[1] == "(" and v in PARAM_ATTRS_WITH_ARG:
                    depth = 0
                    while True:
                        x = self.nxt()[1]
                        if x == "(":
                            depth += 1
                        elif x == ")":
                            depth -= 1
                            if depth == 0:
                                break
                elif v == "align" and self.peek()[0] == "num":
                    self.nxt()
                continue
            if k == "qs":
                self.nxt()
                if self.accept("="):
                    self.nxt()
                continue
            return

    # -- functions
    def function(self, f):
        self.load(f.header)
        self.expect("define")
        while True:
            k, v = self.peek()
            if k == "word" and v in ("i1", "i8", "i16", "i32", "i64", "i128", "ptr", "void", "float", "double"):
                break
            if k == "word" and re.fullmatch(r"i\d+", v):
                break
            if k == "lid" or v in ("{", "<", "["):
                break
            self.nxt()
            if v in PARAM_ATTRS_WITH_ARG and self.peek()[1] == "(":
                while self.nxt()[1] != ")":
                    pass
            elif v == "align":
                self.nxt()
        f.ret = self.type_nofn()
        self.nxt()  # name
        self.expect("(")
        f.params = []
        f.sret = None
        n = 0
        if not self.accept(")"):
            while True:
                if self.accept("..."):
                    self.expect(")")
                    break
                t = self.type()
                byval = None
                # look for byval
                j = self.i
                self.skip_attrs_byval = None
                byval = self._param_attrs()
                if self.peek()[0] == "lid":
                    nm = self.nxt()[1]
                else:
                    nm = "%%%d" % n
                n += 1
                f.params.append((nm, t, byval))
                if self.accept(")"):
                    break
                self.expect(",")
        f.blocks = {}
        f.order = []
        cur = None
        entry_name = "%%%d" % n
        lines = f.body_lines
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            if not ln or ln.lstrip().startswith(";"):
                continue
            if ln[0] != " " and ln[0] != "\t":
                m = re.match(r'("[^"]*"|[-\w$.]+):', ln)
                cur = Block()
                cur.name = "%" + m.group(1)
                cur.phis = []
                cur.insts = []
                cur.term = None
                cur.fn = f
                cur.ipdom = None
                cur.live = None
                f.blocks[cur.name] = cur
                f.order.append(cur)
                continue
            if cur is None:
                cur = Block()
                cur.name = entry_name
                cur.phis = []
                cur.insts = []
                cur.term = None
                cur.fn = f
                cur.ipdom = None
                cur.live = None
                f.blocks[cur.name] = cur
                f.order.append(cur)
            s = ln.strip()
            # join continuation lines
            if s.startswith("switch") or " switch " in s[:20]:
                while "]" not in s:
                    s += " " + lines[i].strip()
                    i += 1
            elif s.startswith("invoke") or re.match(r'%[^ ]+ = invoke', s):
                if " unwind label" not in s:
                    s += " " + lines[i].strip()
                    i += 1
            elif "landingpad" in s[:60]:
                while i < len(lines) and re.match(r'\s+(catch|filter|cleanup)\b', lines[i]):
                    s += " " + lines[i].strip()
                    i += 1
            self.instruction(cur, s)
        f.entry = f.order[0]
        for idx, b in enumerate(f.order):
            b.idx = idx
            t = b.term
            if t.op == "br":
                b.succs = [t.a[0]]
            elif t.op == "condbr":
                b.succs = [t.a[1], t.a[2]]
            elif t.op == "switch":
                b.succs = [t.a[1]] + [x[1] for x in t.x]
            elif t.op == "invoke":
                b.succs = [t.x["normal"], t.x["unwind"]]
            else:
                b.succs = []
        compute_ipdom(f)

    def _param_attrs(self):
        byval = None
        while True:
            k, v = self.peek()
            if k == "word":
                self.nxt()
                if v in ("byval", "sret") and self.peek()[1] == "(":
                    self.nxt()
                    t = self.type()
                    self.expect(")")
                    if v == "byval":
                        byval = t
                elif self.peek()[1] == "(":
                    depth = 0
                    while True:
                        x = self.nxt()[1]
                        if x == "(":
                            depth += 1
                        elif x == ")":
                            depth -= 1
                            if depth == 0:
                                break
                elif v == "align":
                    self.nxt()
                continue
            if k == "qs":
                self.nxt()
                if self.accept("="):
                    self.nxt()
                continue
            return byval

    def type_nofn(self):
        # type without function suffix
        k, v = self.peek()
        j = self.i
        t = self._type_simple()
        return t

    def _type_simple(self):
        save = self.i
        k, v = self.nxt()
        if k == "word":
            self.i = save
            # avoid consuming "(": types followed by ident in defines, safe
            return self.type()
        self.i = save
        return self.type()

    BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
           "fadd", "fsub", "fmul", "fdiv", "frem"}
    CAST = {"zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc", "addrspacecast"}
    FLAGS = {"nuw", "nsw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "disjoint", "nneg", "volatile", "atomic", "nusw"}

    def instruction(self, blk, s):
        # strip metadata suffix
        k = s.find(", !")
        if k >= 0:
            s = s[:k]
        k = s.find(" !srcloc")
        if k >= 0:
            s = s[:k]
        self.load(s)
        dest = None
        if self.peek()[0] == "lid" and self.peek(1)[1] == "=":
            dest = self.nxt()[1]
            self.nxt()
        op = self.nxt()[1]
        tail = False
        while op in ("tail", "musttail", "notail"):
            op = self.nxt()[1]
        while self.peek()[1] in self.FLAGS:
            self.nxt()
        if op in self.BIN:
            t = self.type()
            a = self.operand(t)
            self.expect(",")
            b = self.operand(t)
            blk.insts.append(Inst(op, dest, t, (a, b)))
        elif op == "icmp" or op == "fcmp":
            while self.peek()[1] in self.FLAGS:
                self.nxt()
            pred = self.nxt()[1]
            t = self.type()
            a = self.operand(t)
            self.expect(",")
            b = self.operand(t)
            blk.insts.append(Inst(op, dest, t, (a, b), pred))
        elif op in self.CAST:
            t = self.type()
            a = self.operand(t)
            self.expect("to")
            t2 = self.type()
            blk.insts.append(Inst(op, dest, t2, (a,), t))
        elif op == "load":
            while self.peek()[1] in self.FLAGS:
                self.nxt()
            t = self.type()
            self.expect(",")
            self.type()
            a = self.operand(PTR)
            blk.insts.append(Inst("load", dest, t, (a,)))
        elif op == "store":
            while self.peek()[1] in self.FLAGS:
                self.nxt()
            t = self.type()
            v = self.operand(t)
            self.expect(",")
            self.type()
            a = self.operand(PTR)
            blk.insts.append(Inst("store", None, t, (v, a)))
        elif op == "getelementptr":
            while self.peek()[1] in self.FLAGS:
                self.nxt()
            sty = self.type()
            self.expect(",")
            self.type()
            base = self.operand(PTR)
            idx = []
            while self.accept(","):
                self.accept("inrange")
                it = self.type()
                idx.append((it, self.operand(it)))
            const, dyn = gep_plan(sty, idx)
            blk.insts.append(Inst("gep", dest, PTR, (base,), (const, dyn)))
        elif op == "alloca":
            self.accept("inalloca")
            t = self.type()
            n = 1
            if self.accept(","):
                if self.peek()[1] == "align":
                    pass
                else:
                    ct = self.type()
                    n = self.operand(ct)
            blk.insts.append(Inst("alloca", dest, t, (n,)))
        elif op == "phi":
            t = self.type()
            inc = {}
            while True:
                self.expect("[")
                v = self.operand(t)
                self.expect(",")
                b = self.nxt()[1]
                self.expect("]")
                inc[b] = v
                if not self.accept(","):
                    break
            blk.phis.append((dest, t, inc))
        elif op == "select":
            ct = self.type()
            c = self.operand(ct)
            self.expect(",")
            t = self.type()
            a = self.operand(t)
            self.expect(",")
            self.type()
            b = self.operand(t)
            blk.insts.append(Inst("select", dest, t, (c, a, b), ct))
        elif op == "freeze":
            t = self.type()
            blk.insts.append(Inst("freeze", dest, t, (self.operand(t),)))
        elif op == "extractvalue":
            t = self.type()
            a = self.operand(t)
            idx = []
            while self.accept(","):
                idx.append(int(self.nxt()[1]))
            blk.insts.append(Inst("extractvalue", dest, t, (a,), idx))
        elif op == "insertvalue":
            t = self.type()
            a = self.operand(t)
            self.expect(",")
            t2 = self.type()
            b = self.operand(t2)
            idx = []
            while self.accept(","):
                idx.append(int(self.nxt()[1]))
            blk.insts.append(Inst("insertvalue", dest, t, (a, b), idx))
        elif op == "extractelement":
            t = self.type()
            a = self.operand(t)
            self.expect(",")
            it = self.type()
            b = self.operand(it)
            blk.insts.append(Inst("extractelement", dest, t, (a, b)))
        elif op == "insertelement":
            t = self.type()
            a = self.operand(t)
            self.expect(",")
            et = self.type()
            v = self.operand(et)
            self.expect(",")
            it = self.type()
            b = self.operand(it)
            blk.insts.append(Inst("insertelement", dest, t, (a, v, b)))
        elif op == "shufflevector":
            t = self.type()
            a = self.operand(t)
            self.expect(",")
            self.type()
            b = self.operand(t)
            self.expect(",")
            mt = self.type()
            # mask: parse element by element
            k, v = self.nxt()
            if v == "zeroinitializer":
                msk = [0] * mt.n
            elif v == "poison" or v == "undef":
                msk = [None] * mt.n
            else:
                msk = []
                while True:
                    self.type()
                    x = self.nxt()[1]
                    msk.append(None if x in ("undef", "poison") else int(x))
                    if self.accept(">"):
                        break
                    self.expect(",")
            blk.insts.append(Inst("shufflevector", dest, t, (a, b), msk))
        elif op == "br":
            if self.peek()[1] == "label":
                self.nxt()
                blk.term = Inst("br", None, None, (self.nxt()[1],))
            else:
                self.type()
                c = self.operand(int_ty(1))
                self.expect(",")
                self.expect("label")
                a = self.nxt()[1]
                self.expect(",")
                self.expect("label")
                b = self.nxt()[1]
                blk.term = Inst("condbr", None, None, (c, a, b))
        elif op == "switch":
            t = self.type()
            v = self.operand(t)
            self.expect(",")
            self.expect("label")
            d = self.nxt()[1]
            self.expect("[")
            cases = []
            while not self.accept("]"):
                ct = self.type()
                cv = self.const(ct)
                self.expect(",")
                self.expect("label")
                cases.append((cv, self.nxt()[1]))
            blk.term = Inst("switch", None, t, (v, d), cases)
        elif op == "ret":
            t = self.type()
            blk.term = Inst("ret", None, t, (None if t.k == "void" else self.operand(t),))
        elif op == "unreachable":
            blk.term = Inst("unreachable", None, None, ())
        elif op == "resume":
            t = self.type()
            blk.term = Inst("resume", None, t, (self.operand(t),))
        elif op == "landingpad":
            t = self.type()
            clauses = []
            cleanup = False
            while self.i < len(self.t):
                v = self.nxt()[1]
                if v == "cleanup":
                    cleanup = True
                elif v == "catch":
                    self.type()
                    clauses.append(("catch", self.const(PTR)))
                elif v == "filter":
                    ft = self.type()
                    clauses.append(("filter", self.const(ft)))
            blk.insts.append(Inst("landingpad", dest, t, None, (cleanup, clauses)))
        elif op in ("call", "invoke"):
            self.skip_call_attrs()
            t = self.type()
            k, v = self.nxt()
            if k == "lid":
                callee = v
            elif k == "gid":
                callee = ("fn", self.m.resolve_alias(v))
            elif v == "asm":
                while self.peek()[0] == "word":
                    self.nxt()
                a = self.nxt()[1]
                self.expect(",")
                b = self.nxt()[1]
                callee = ("asm", a, b)
            else:
                c = self.const_from(k, v, PTR)
                callee = ("addr", c)
            self.expect("(")
            args = []
            if not self.accept(")"):
                while True:
                    at = self.type()
                    if at.k == "metadata":
                        # skip until , or ) at depth 0
                        depth = 0
                        while True:
                            pk = self.peek()[1]
                            if depth == 0 and pk in (",", ")"):
                                break
                            if pk in ("(", "{"):
                                depth += 1
                            if pk in (")", "}"):
                                depth -= 1
                            self.nxt()
                        args.append((at, 0, None))
                    else:
                        bv = self._call_param_attrs()
                        args.append((at, self.operand(at), bv))
                    if self.accept(")"):
                        break
                    self.expect(",")
            if op == "call":
                blk.insts.append(Inst("call", dest, t, (callee, args)))
            else:
                while self.peek()[1] != "to":
                    self.nxt()
                self.nxt()
                self.expect("label")
                nb = self.nxt()[1]
                self.expect("unwind")
                self.expect("label")
                ub = self.nxt()[1]
                blk.term = Inst("invoke", dest, t, (callee, args), {"normal": nb, "unwind": ub})
        elif op == "cmpxchg" or op == "atomicrmw" or op == "fence":
            if op == "fence":
                return
            if op == "atomicrmw":
                sub = self.nxt()[1]
                self.type()
                a = self.operand(PTR)
                self.expect(",")
                t = self.type()
                v = self.operand(t)
                blk.insts.append(Inst("atomicrmw", dest, t, (a, v), sub))
            else:
                raise SyntaxError("cmpxchg")
        elif op == "fneg":
            t = self.type()
            blk.insts.append(Inst("fneg", dest, t, (self.operand(t),)))
        else:
            raise SyntaxError("instruction %r: %s" % (op, s[:200]))

    def _call_param_attrs(self):
        byval = None
        while True:
            k, v = self.peek()
            if k == "word" and v in ("byval", "sret"):
                self.nxt()
                if self.accept("("):
                    t = self.type()
                    self.expect(")")
                    if v == "byval":
                        byval = t
                continue
            j = self.i
            self.skip_attrs_one()
            if self.i == j:
                return byval

    STOP = {"true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "inttoptr", "ptrtoint", "none", "asm", "bitcast", "icmp", "select", "add", "sub", "blockaddress", "trunc", "zext", "and", "or", "shl", "lshr", "mul", "xor", "dso_local_equivalent", "no_cfi"}

    def skip_attrs_one(self):
        k, v = self.peek()
        if k == "word" and v not in self.STOP:
            self.nxt()
            if v == "align" and self.peek()[0] == "num":
                self.nxt()
            elif self.peek()[1] == "(":
                depth = 0
                while True:
                    x = self.nxt()[1]
                    if x == "(":
                        depth += 1
                    elif x == ")":
                        depth -= 1
                        if depth == 0:
                            break
        elif k == "qs":
            self.nxt()
            if self.accept("="):
                self.nxt()

    def skip_call_attrs(self):
        while True:
            k, v = self.peek()
            if k == "word" and (re.fullmatch(r"i\d+", v) or v in ("ptr", "void", "float", "double", "x86_fp80")):
                return
            if k == "lid" or v in ("{", "<", "["):
                return
            j = self.i
            self.skip_attrs_one()
            if j == self.i:
                return


def gep_const(sty, idx):
    c, dyn = gep_plan(sty, idx)
    assert not dyn
    return c


def gep_plan(sty, idx):
    """returns (const offset, [(operand, width, scale)])"""
    const = 0
    dyn = []
    t = None
    for n, (it, v) in enumerate(idx):
        if n == 0:
            sz = sty.size
            t = sty
        elif t.k == "struct":
            const += t.offs[v]
            t = t.els[v]
            continue
        elif t.k in ("arr", "vec"):
            t = t.el
            sz = t.size
        else:
            raise SyntaxError("gep")
        if type(v) is int:
            if v >> (it.w - 1):
                v -= 1 << it.w
            const += v * sz
        else:
            dyn.append((v, it.w, sz))
    return const, dyn


def compute_ipdom(f):
    """immediate post-dominators (None = function exit)"""
    n = len(f.order)
    idx = {b.name: i for i, b in enumerate(f.order)}
    succ = [[idx[s] for s in b.succs] for b in f.order]
    EXIT = n
    # blocks ending in unreachable are ignored as exits (they never rejoin): treat as having no successors,
    # and do not connect them to the exit, so that they do not destroy post-dominance
    exits = []
    for i, b in enumerate(f.order):
        if b.term.op in ("ret",):
            succ[i] = [EXIT]
        elif b.term.op in ("resume",):
            succ[i] = []
        elif b.term.op == "invoke":
            # exceptional edges do not count for merging
            succ[i] = [idx[b.term.x["normal"]]]
    # the set of blocks that can reach EXIT
    pred = [[] for _ in range(n + 1)]
    for i, ss in enumerate(succ):
        for s in ss:
            pred[s].append(i)
    reach = [False] * (n + 1)
    st = [EXIT]
    reach[EXIT] = True
    while st:
        x = st.pop()
        for p in pred[x]:
            if not reach[p]:
                reach[p] = True
                st.append(p)
    # iterative dataflow on the reverse graph (Cooper-Harvey-Kennedy)
    order = []
    seen = [False] * (n + 1)

    def dfs(r):
        stack = [(r, 0)]
        seen[r] = True
        while stack:
            x, k = stack.pop()
            if k < len(pred[x]):
                stack.append((x, k + 1))
                p = pred[x][k]
                if not seen[p]:
                    seen[p] = True
                    stack.append((p, 0))
            else:
                order.append(x)

    dfs(EXIT)
    num = {x: i for i, x in enumerate(order)}
    ip = {EXIT: EXIT}
    changed = True
    rpo = order[::-1]
    while changed:
        changed = False
        for x in rpo:
            if x == EXIT:
                continue
            new = None
            for s in succ[x]:
                if s in ip:
                    if new is None:
                        new = s
                    else:
                        a, b = new, s
                        while a != b:
                            while num[a] < num[b]:
                                a = ip[a]
                            while num[b] < num[a]:
                                b = ip[b]
                        new = a
            if new is not None and ip.get(x) != new:
                ip[x] = new
                changed = True
    for i, b in enumerate(f.order):
        j = ip.get(i)
        b.ipdom = None if j is None or j == EXIT else f.order[j]

"""Parser for the textual LLVM IR (clang 18, opaque pointers) that the checks verify.

Only the subset clang emits at -O0 for this library is accepted; anything else raises
IRError, which the driver reports as "outside the verifier's reach", never as a verdict.
"""
import re


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "el", "packed", "name", "_sz", "_al", "_offs")

    def __init__(self, k, n=0, el=None, packed=False, name=None):
        self.k, self.n, self.el, self.packed, self.name = k, n, el, packed, name
        self._sz = self._al = self._offs = None

    def __repr__(self):
        return f"Ty({self.k},{self.n},{self.name})"


_int_cache = {}


def int_ty(n):
    t = _int_cache.get(n)
    if t is None:
        t = _int_cache[n] = Ty("int", n)
    return t


PTR = Ty("ptr")
VOID = Ty("void")
LABEL = Ty("label")
META = Ty("metadata")
FLOATS = {"half": 16, "float": 32, "double": 64, "x86_fp80": 80, "fp128": 128}

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<var>[%@](?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[KLMH]?[0-9A-Fa-f]+)
 | (?P<id>[A-Za-z_][\w.]*)
 | (?P<dots>\.\.\.)
 | (?P<meta>![\w."]*|\#\d+)
 | (?P<p>[\[\]{}()<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i].isspace():
            i += 1
            continue
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError("cannot tokenize: " + s[i:i + 60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


ATTRS = set("""noundef nonnull noalias nocapture readonly writeonly readnone returned zeroext signext inreg nest
immarg swiftself swifterror noinline nofree nounwind dso_local local_unnamed_addr unnamed_addr captures noext
inrange writable dead_on_unwind""".split())
ATTRS_PAREN = set("align dereferenceable dereferenceable_or_null sret byval byref inalloca elementtype preallocated nofpclass range memory allocsize".split())


class P:
    """token cursor"""

    def __init__(self, mod, toks):
        self.mod, self.t, self.i = mod, toks, 0

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def peekk(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x[1]

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise IRError(f"expected {v!r} got {self.t[self.i:self.i+6]}")

    def done(self):
        return self.i >= len(self.t)

    def type(self):
        v = self.next()
        if v == "ptr":
            if self.accept("addrspace"):
                self.expect("("); self.next(); self.expect(")")
            t = PTR
        elif v == "void":
            t = VOID
        elif v == "label":
            t = LABEL
        elif v == "metadata":
            t = META
        elif v in FLOATS:
            t = Ty("float", FLOATS[v])
        elif v[0] == "i" and v[1:].isdigit():
            t = int_ty(int(v[1:]))
        elif v == "[":
            n = int(self.next()); self.expect("x"); el = self.type(); self.expect("]")
            t = Ty("arr", n, el)
        elif v == "{":
            t = Ty("struct", 0, self.typelist("}"))
        elif v == "<":
            if self.accept("{"):
                els = self.typelist("}")
                self.expect(">")
                t = Ty("struct", 0, els, True)
            else:
                n = int(self.next()); self.expect("x"); el = self.type(); self.expect(">")
                t = Ty("vec", n, el)
        elif v[0] == "%":
            t = self.mod.named(v)
        else:
            raise IRError("type? " + v)
        # function type suffix
        while self.peek() == "(":
            save = self.i
            self.next()
            depth = 1
            while depth:
                x = self.next()
                if x == "(":
                    depth += 1
                elif x == ")":
                    depth -= 1
            t = Ty("func", 0, [t])
        return t

    def typelist(self, end):
        els = []
        if self.accept(end):
            return els
        while True:
            els.append(self.type())
            if self.accept(end):
                return els
            self.expect(",")

    def attrs(self):
        """skip parameter attributes; return set of interesting ones"""
        out = {}
        while True:
            v = self.peek()
            if v in ATTRS:
                self.next(); out[v] = True
            elif v in ATTRS_PAREN:
                self.next()
                if self.peek() == "(":
                    self.next()
                    depth = 1
                    j = self.i
                    while depth:
                        x = self.next()
                        if x == "(":
                            depth += 1
                        elif x == ")":
                            depth -= 1
                    out[v] = self.t[j:self.i - 1]
                else:
                    self.next()
                    out[v] = True
            elif self.peekk() == "str" and not v.startswith("c"):
                self.next()
                if self.accept("="):
                    self.next()
            else:
                return out

    # ---- values: ("r",name) ("i",int) ("g",name) ("null",) ("undef",) ("zero",ty) ("agg",[..]) ("str",bytes) ("ce",op,...)
    def value(self, ty):
        v = self.next()
        k = self.t[self.i - 1][0]
        if k == "var":
            if v[0] == "%":
                return ("r", v)
            return ("g", v)
        if k == "num":
            if ty.k == "float":
                return ("f", v, ty.n)
            if v.startswith("0x"):
                return ("i", int(v, 16))
            return ("i", int(v) & ((1 << ty.n) - 1))
        if v == "true":
            return ("i", 1)
        if v == "false":
            return ("i", 0)
        if v == "null":
            return ("null",)
        if v in ("undef", "poison"):
            return ("undef",)
        if v == "zeroinitializer":
            return ("zero", ty)
        if k == "str":
            return ("str", unescape(v[2:-1]))
        if v == "[" or v == "{":
            end = "]" if v == "[" else "}"
            return ("agg", self.consts(end))
        if v == "<":
            if self.accept("{"):
                els = self.consts("}")
                self.expect(">")
                return ("agg", els)
            return ("agg", self.consts(">"))
        if v == "getelementptr":
            self.accept("inbounds")
            self.expect("(")
            t = self.type(); self.expect(",")
            self.type(); self.attrs()
            base = self.value(PTR)
            idx = []
            while self.accept(","):
                self.accept("inrange")
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(")")
            return ("gep", t, base, idx)
        if v in ("ptrtoint", "inttoptr", "bitcast"):
            self.expect("(")
            t = self.type(); x = self.value(t); self.expect("to"); self.type(); self.expect(")")
            return x
        if v in ("dso_local_equivalent", "no_cfi"):
            return self.value(ty)
        if v in ("sub", "add"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            t = self.type(); a = self.value(t); self.expect(","); t2 = self.type(); b = self.value(t2); self.expect(")")
            return ("cbin", v, t, a, b)
        raise IRError("value? " + v)

    def consts(self, end):
        els = []
        if self.accept(end):
            return els
        while True:
            t = self.type()
            els.append((t, self.value(t)))
            if self.accept(end):
                return els
            self.expect(",")

    def tv(self):
        t = self.type()
        if t is META:
            # metadata operand: skip
            depth = 0
            while self.peek() is not None:
                x = self.peek()
                if depth == 0 and x in (",", ")"):
                    break
                if x in "([{":
                    depth += 1
                if x in ")]}":
                    depth -= 1
                self.next()
            return t, ("undef",)
        self.attrs()
        return t, self.value(t)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == "\\":
            if s[i + 1] == "\\":
                out.append(0x5c); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out += c.encode("latin1"); i += 1
    return bytes(out)


class Func:
    __slots__ = ("name", "params", "ret", "blocks", "order", "entry", "ptypes", "lines", "loops", "code", "sret", "nparams", "byval", "cfg")

    def __init__(self):
        self.blocks = {}
        self.order = []
        self.loops = None
        self.code = None


class Module:
    def __init__(self, text):
        self.types = {}
        self.typedefs = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self._parse(text)

    def named(self, v):
        t = self.types.get(v)
        if t is None:
            t = self.types[v] = Ty("named", 0, None, False, v)
        return t

    # --- layout (x86-64)
    def resolve(self, t):
        if t.k == "named":
            if t.el is None:
                body = self.typedefs.get(t.name)
                if body is None:
                    raise IRError("opaque type " + t.name)
                p = P(self, tokenize(body))
                t.el = p.type()
            return self.resolve(t.el)
        return t

    def size_align(self, t):
        if t._sz is not None:
            return t._sz, t._al
        r = self.resolve(t)
        k = r.k
        if k == "int":
            n = (r.n + 7) // 8
            p = 1
            while p < n:
                p *= 2
            sz = p
            al = min(p, 16)
        elif k == "ptr":
            sz = al = 8
        elif k == "float":
            sz = {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[r.n]
            al = sz
        elif k in ("arr", "vec"):
            s, al = self.size_align(r.el)
            sz = s * r.n
        elif k == "struct":
            off = 0
            al = 1
            offs = []
            for e in r.el:
                s, a = self.size_align(e)
                if r.packed:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            sz = (off + al - 1) // al * al
            r._offs = offs
        else:
            raise IRError("size of " + k)
        t._sz, t._al = sz, al
        r._sz, r._al = sz, al
        return sz, al

    def sizeof(self, t):
        return self.size_align(t)[0]

    def offsets(self, t):
        r = self.resolve(t)
        self.size_align(r)
        return r._offs

    def _parse(self, text):
        lines = text.split("\n")
        i = 0
        n = len(lines)
        glob = []
        while i < n:
            ln = lines[i]
            i += 1
            if not ln:
                continue
            c = ln[0]
            if c == "%":
                name, body = ln.split(" = type ", 1)
                self.typedefs[name] = body
            elif c == "@":
                glob.append(ln)
            elif ln.startswith("define"):
                body = []
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                i += 1
                self._func(ln, body)
            elif ln.startswith("declare"):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(', ln)
                self.decls["@" + m.group(1)] = ln
        for ln in glob:
            self._global(ln)

    def _global(self, ln):
        m = re.match(r'(@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+)) = ', ln)
        name = m.group(1)
        rest = ln[m.end():]
        if rest.startswith("external") or " external " in rest[:40]:
            toks = tokenize(rest)
            self.globals[name] = (None, None, False)
            return
        toks = tokenize(rest)
        p = P(self, toks)
        while p.peek() not in ("global", "constant", "alias"):
            x = p.next()
            if p.peek() == "(":
                while p.next() != ")":
                    pass
        kind = p.next()
        if kind == "alias":
            # alias <ty>, ptr @target
            p.type(); p.expect(","); p.type()
            self.globals[name] = ("alias", p.value(PTR), True)
            return
        t = p.type()
        v = p.value(t)
        self.globals[name] = (t, v, kind == "constant")

    def _func(self, head, body):
        f = Func()
        p = P(self, tokenize(head[len("define"):]))
        # skip linkage words until type parse succeeds
        words = {"linkonce_odr", "internal", "private", "weak_odr", "weak", "dso_local", "hidden", "protected",
                 "available_externally", "external", "linkonce", "fastcc", "ccc", "local_unnamed_addr"}
        while p.peek() in words:
            p.next()
        p.attrs()
        f.ret = p.type() if not (p.peek().startswith("@")) else VOID
        f.name = p.next()
        p.expect("(")
        f.params = []
        f.ptypes = []
        f.byval = []
        idx = 0
        if not p.accept(")"):
            while True:
                if p.accept("..."):
                    p.expect(")")
                    break
                t = p.type()
                at = p.attrs()
                nm = p.next() if p.peekk() == "var" else f"%{idx}"
                f.params.append(nm)
                f.ptypes.append(t)
                f.byval.append("byval" in at)
                idx += 1
                if p.accept(")"):
                    break
                p.expect(",")
        # blocks
        cur = None
        f.lines = body
        for ln in body:
            if not ln or ln.lstrip().startswith(";"):
                continue
            if ln[0] != " ":
                lab = ln.split(":", 1)[0]
                cur = "%" + lab
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if cur is None:
                cur = "%" + str(len(f.params)) if all(x[1:].isdigit() for x in f.params) else "%entry"
                f.blocks[cur] = []
                f.order.append(cur)
            f.blocks[cur].append(ln)
        f.entry = f.order[0]
        f.nparams = len(f.params)
        self.funcs[f.name] = f

    # --- instruction parse (lazy)
    def parse_func(self, f):
        if f.code is not None:
            return f
        code = {}
        for lab in f.order:
            ins = []
            lines = f.blocks[lab]
            i = 0
            while i < len(lines):
                ln = lines[i]
                i += 1
                if ln.lstrip().startswith("switch") or re.match(r"\s+%\S+ = .*landingpad", ln) or ln.lstrip().startswith(("invoke",)) or " = invoke " in ln:
                    while i < len(lines) and (lines[i].startswith("    ") or lines[i].strip() == "]" or lines[i].lstrip().startswith("to label")):
                        ln += " " + lines[i].strip()
                        i += 1
                x = self.inst(ln)
                if x is not None:
                    ins.append(x)
            code[lab] = ins
        thread(code)
        f.code = code
        self._loops(f)
        return f

    def inst(self, ln):
        p = P(self, tokenize(ln))
        dst = None
        if p.peekk() == "var":
            dst = p.next()
            p.expect("=")
        op = p.next()
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        if op == "alloca":
            p.accept("inalloca")
            t = p.type()
            cnt = ("i", 1)
            if p.accept(","):
                if p.peek() != "align":
                    ct = p.type(); cnt = p.value(ct)
            return ("alloca", dst, t, cnt)
        if op == "load":
            p.accept("atomic"); p.accept("volatile")
            t = p.type(); p.expect(",")
            _, v = p.tv()
            return ("load", dst, t, v)
        if op == "store":
            p.accept("atomic"); p.accept("volatile")
            t, v = p.tv(); p.expect(",")
            _, a = p.tv()
            return ("store", None, t, v, a)
        if op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"):
                p.next()
            t = p.type(); p.expect(",")
            _, b = p.tv()
            idx = []
            while p.accept(","):
                if p.peekk() == "meta":
                    break
                it, iv = p.tv()
                idx.append((it, iv))
            return ("gep", dst, t, b, idx)
        if op in ("call", "invoke"):
            while p.peek() in ("fastcc", "ccc", "coldcc", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"):
                p.next()
            p.attrs()
            rt = p.type()
            if rt.k == "func":
                rt = rt.el[0]
            p.attrs()
            if p.peek() == "asm":
                return ("unsup", dst, "inline asm")
            cal = p.value(PTR)
            p.expect("(")
            args = []
            if not p.accept(")"):
                while True:
                    t = p.type()
                    if t is META:
                        return None
                    at = p.attrs()
                    args.append((t, p.value(t), at.get("byval")))
                    if p.accept(")"):
                        break
                    p.expect(",")
            if op == "invoke":
                while p.peek() != "to":
                    p.next()
                p.next(); p.expect("label")
                nl = p.next()
                return ("invoke", dst, rt, cal, args, nl)
            return ("call", dst, rt, cal, args)
        if op == "br":
            if p.accept("label"):
                return ("jmp", None, p.next())
            p.type(); c = p.value(int_ty(1)); p.expect(","); p.expect("label")
            a = p.next(); p.expect(","); p.expect("label"); b = p.next()
            return ("br", None, c, a, b)
        if op == "switch":
            t = p.type(); v = p.value(t); p.expect(","); p.expect("label"); d = p.next()
            p.expect("[")
            cs = []
            while not p.accept("]"):
                ct = p.type(); cv = p.value(ct); p.expect(","); p.expect("label"); cs.append((cv[1], p.next()))
            return ("switch", None, t, v, d, cs)
        if op == "ret":
            t = p.type()
            if t is VOID:
                return ("ret", None, None, None)
            return ("ret", None, t, p.value(t))
        if op == "unreachable":
            return ("unreachable", None)
        if op == "icmp":
            if p.accept("samesign"):
                pass
            pred = p.next(); t = p.type(); a = p.value(t); p.expect(","); b = p.value(t)
            return ("icmp", dst, pred, t, a, b)
        if op == "fcmp":
            while p.peek() in ("nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"):
                p.next()
            return ("unsup", dst, "fcmp")
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            flags = set()
            while p.peek() in ("nuw", "nsw", "exact", "disjoint"):
                flags.add(p.next())
            t = p.type(); a = p.value(t); p.expect(","); b = p.value(t)
            return ("bin", dst, op, t, a, b, frozenset(flags))
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            while p.peek() in ("nuw", "nsw", "nneg"):
                p.next()
            t, v = p.tv()
            if op == "freeze":
                return ("cast", dst, "bitcast", t, v, t)
            p.expect("to")
            t2 = p.type()
            return ("cast", dst, op, t, v, t2)
        if op == "phi":
            t = p.type()
            inc = []
            while True:
                p.expect("[")
                v = p.value(t); p.expect(","); l = p.next(); p.expect("]")
                inc.append((v, l))
                if not p.accept(","):
                    break
                if p.peekk() == "meta":
                    break
            return ("phi", dst, t, inc)
        if op == "select":
            ct, c = p.tv(); p.expect(",")
            t, a = p.tv(); p.expect(",")
            _, b = p.tv()
            return ("select", dst, t, c, a, b)
        if op == "extractvalue":
            t, v = p.tv()
            idx = []
            while p.accept(","):
                if p.peekk() == "meta":
                    break
                idx.append(int(p.next()))
            return ("extractvalue", dst, t, v, idx)
        if op == "insertvalue":
            t, v = p.tv(); p.expect(",")
            t2, x = p.tv()
            idx = []
            while p.accept(","):
                if p.peekk() == "meta":
                    break
                idx.append(int(p.next()))
            return ("insertvalue", dst, t, v, t2, x, idx)
        return ("unsup", dst, op)

    def succs(self, ins):
        x = ins[-1]
        if x[0] == "jmp":
            return [x[2]]
        if x[0] == "br":
            return [x[3], x[4]]
        if x[0] == "switch":
            return [x[4]] + [l for _, l in x[5]]
        if x[0] == "invoke":
            return [x[5]]
        return []

    def _loops(self, f):
        """natural loops: header -> frozenset(blocks)"""
        succ = {b: self.succs(f.code[b]) if f.code[b] else [] for b in f.order}
        pred = {b: [] for b in f.order}
        for b, ss in succ.items():
            for s in ss:
                pred[s].append(b)
        # reachable + dominators (simple iterative)
        order = []
        seen = set()

        def dfs(b):
            st = [(b, iter(succ[b]))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(succ[s])))
                        break
                else:
                    order.append(x)
                    st.pop()
        dfs(f.entry)
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        idom = {f.entry: f.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for q in pred[b]:
                    if q in idom:
                        if new is None:
                            new = q
                        else:
                            a, c = new, q
                            while a != c:
                                while num[a] > num[c]:
                                    a = idom[a]
                                while num[c] > num[a]:
                                    c = idom[c]
                            new = a
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == f.entry:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(q for q in pred[x] if q in num)
        f.loops = {h: frozenset(v) for h, v in loops.items()}
        f.cfg = succ


def thread(code):
    """an edge into a block that only branches on a phi, with a constant for that edge, goes straight to where it leads
    (a && b and a || b as the condition of a loop: the test of a then leaves the loop itself)"""
    again = True
    while again:
        again = False
        for lab, ins in code.items():
            if len(ins) != 2 or ins[0][0] != "phi" or ins[1][0] != "br" or ins[1][2] != ("r", ins[0][1]):
                continue
            _, dst, t, inc = ins[0]
            if any(("r", dst) in operands(x) for b, c in code.items() for x in c if b != lab):
                continue
            for v, pred in inc:
                if v[0] != "i" or len(inc) < 2:
                    continue
                tgt = ins[1][3] if v[1] & 1 else ins[1][4]
                x = code[pred][-1]
                if x[0] == "jmp":
                    new = ("jmp", x[1], tgt)
                elif x[0] == "br" and x[3] != x[4]:
                    new = x[:3] + tuple(tgt if y == lab else y for y in x[3:5]) + x[5:]
                    if new[3] == new[4]:
                        continue
                else:
                    continue
                if tgt == lab or code[tgt][0][0] == "phi" and any(pred == q for _, q in code[tgt][0][3]):
                    continue
                code[pred][-1] = new
                ins[0] = ("phi", dst, t, [(a, b) for a, b in inc if b != pred])
                for k, y in enumerate(code[tgt]):
                    if y[0] != "phi":
                        break
                    code[tgt][k] = ("phi", y[1], y[2], y[3] + [(a, pred) for a, b in y[3] if b == lab])
                again = True
                break
            if again:
                break


def operands(x):
    """every ("r", name) occurring in an instruction"""
    out = set()

    def walk(v):
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == "r":
                out.add(v)
            else:
                for y in v:
                    walk(y)
        elif isinstance(v, list):
            for y in v:
                walk(y)
    walk(x[2:])
    return out

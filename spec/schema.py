"""Schema DSL: one Python description of a schema yields (a) the C++ schema and harness that instantiate the real
library and (b) the meaning of that schema (spec.py interprets the same objects).  Nothing here looks at library source."""


class Ty:
    def __init__(self, name, bits, signed, flt=False):
        self.name, self.bits, self.signed, self.flt = name, bits, signed, flt
        self.bytes = bits // 8


u8 = Ty("u8", 8, False)
u16 = Ty("u16", 16, False)
u32 = Ty("u32", 32, False)
u64 = Ty("u64", 64, False)
i8 = Ty("i8", 8, True)
i16 = Ty("i16", 16, True)
i32 = Ty("i32", 32, True)
i64 = Ty("i64", 64, True)
ch = Ty("char", 8, True)
f32 = Ty("float", 32, False, True)
f64 = Ty("double", 64, False, True)
TYPES = {t.name: t for t in (u8, u16, u32, u64, i8, i16, i32, i64, ch, f32, f64)}
UNS = {8: "u8", 16: "u16", 32: "u32", 64: "u64"}


class Cons:
    """constraint: C++ option text + py(ops, value) -> condition; frozen: raw little-endian value bytes of an eq"""

    def __init__(self, cpp, py, frozen=None):
        self.cpp, self.py, self.frozen = cpp, py, frozen


def _lit(t, v):
    if t.signed and v == -(1 << (t.bits - 1)):
        return f"{t.name}({v + 1}ll - 1)"
    if t.bits == 64:
        return f"{t.name}{{{v}ull}}" if not t.signed else f"{t.name}{{{v}ll}}"
    return f"{t.name}({v})"


def eq(t, v, raw=None):
    return Cons(f"s2s::eq{{{raw or _lit(t, v)}}}", lambda o, x: o.eq(x, v), frozen=v)


def neq(t, v):
    return Cons(f"s2s::neq{{{_lit(t, v)}}}", lambda o, x: o.not_(o.eq(x, v)))


def lt(t, v):
    return Cons(f"s2s::lt{{{_lit(t, v)}}}", lambda o, x: o.lt(x, v, t.signed))


def lte(t, v):
    return Cons(f"s2s::lte{{{_lit(t, v)}}}", lambda o, x: o.not_(o.gt(x, v, t.signed)))


def gt(t, v):
    return Cons(f"s2s::gt{{{_lit(t, v)}}}", lambda o, x: o.gt(x, v, t.signed))


def gte(t, v):
    return Cons(f"s2s::gte{{{_lit(t, v)}}}", lambda o, x: o.not_(o.lt(x, v, t.signed)))


def any_of(t, *vs):
    return Cons("s2s::any_of{" + ", ".join(_lit(t, v) for v in vs) + "}", lambda o, x: o.or_(*[o.eq(x, v) for v in vs]))


def user(cpp, py):
    return Cons(cpp, py)


class Size:
    """kind: 'len' (field id) or 'comp' (C++ callable, ids, py)"""

    def __init__(self, kind, ids, cpp, py=None):
        self.kind, self.ids, self.cpp, self.py = kind, ids, cpp, py


def len_of(i):
    return Size("len", [i], f's2s::len_from_field<"{i}">')


def computed(lam, ids, py):
    return Size("comp", ids, f's2s::len_from_fields<{lam}, ' + ", ".join(f'"{i}"' for i in ids) + ">", py)


class Pred:
    """predicate over sibling fields"""

    def __init__(self, lam, ids, py):
        self.lam, self.ids, self.py = lam, ids, py

    def cpp(self, name):
        return f"s2s::{name}<{self.lam}" + "".join(f', "{i}"' for i in self.ids) + ">"


DEFAULT_MAX = 16 * 1024 * 1024


class Field:
    kind = None
    cons = None
    bound = None

    def opts(self, *o):
        l = [x for x in o if x]
        if self.cons:
            l.append(self.cons.cpp)
        if self.bound is not None:
            l.append(f"s2s::max_bytes<{self.bound}>")
        # the options of a descriptor may come in any order
        k = (sum(map(ord, self.id)) + len(self.kind)) % len(l) if l else 0
        l = l[k:] + l[:k]
        return "".join(", " + x for x in l)


class Int(Field):
    kind = "int"

    def __init__(self, id, t, width=None, cons=None, magic=None):
        self.id, self.t, self.w, self.cons, self.magic = id, t, width or t.bytes, cons, magic
        self.explicit = width is not None

    def cpp(self):
        if self.magic is not None:
            return f's2s::magic_number<"{self.id}", {self.t.name}, {self.w}_B, {self.magic}>'
        return f's2s::basic_field<"{self.id}", {self.t.name}' + self.opts(f"{self.w}_B" if self.explicit else None) + ">"

    def tag(self):
        return f"s2s::as_trivial<{self.t.name}" + self.opts(f"{self.w}_B" if self.explicit else None) + ">"

    def vtype(self):
        return self.t.name


class Arr(Field):
    """fixed array; style: array (std::array), carr (T[N])"""
    kind = "arr"

    def __init__(self, id, t, dims, style="array", cons=None):
        self.id, self.t, self.dims, self.style, self.cons = id, t, dims, style, cons
        self.n = 1
        for d in dims:
            self.n *= d

    def inner(self):
        t = self.t.name
        for d in reversed(self.dims[1:]):
            t = f"std::array<{t}, {d}>" if self.style == "array" else f"{t}[{d}]"
        return t

    def cpp(self):
        f = "fixed_array_field" if self.style == "array" else "c_arr_field"
        if self.style == "carr" and len(self.dims) > 1:
            return f's2s::c_arr_field<"{self.id}", {self.t.name}' + "".join(f"[{d}]" for d in self.dims[1:]) + f", {self.dims[0]}" + self.opts() + ">"
        return f's2s::{f}<"{self.id}", {self.inner()}, {self.dims[0]}' + self.opts() + ">"

    def tag(self):
        return f"s2s::as_fixed_arr<{self.t.name}, {self.dims[0]}" + self.opts() + ">"

    def vtype(self):
        return f"std::array<{self.inner()}, {self.dims[0]}>"


class FStr(Field):
    """fixed_string<N> (N+1 bytes), c_str (char[N+1]), magic string"""
    kind = "arr"

    def __init__(self, id, n, cons=None, magic=None, cstr=False):
        self.id, self.len, self.cons, self.magic, self.cstr = id, n, cons, magic, cstr
        self.t, self.dims, self.n = ch, [n + 1], n + 1
        if magic is not None:
            self.cons = eq_bytes(None, magic.encode() + b"\0")

    def cpp(self):
        if self.magic is not None:
            return f's2s::magic_string<"{self.id}", "{self.magic}">'
        if self.cstr:
            return f's2s::c_str_field<"{self.id}", {self.len}' + self.opts() + ">"
        return f's2s::fixed_string_field<"{self.id}", {self.len}' + self.opts() + ">"

    def tag(self):
        return f"s2s::as_fixed_string<{self.len}" + self.opts() + ">"

    def vtype(self):
        return f"s2s::fixed_string<{self.len}>"


def eq_bytes(cpp, bs):
    return Cons(f"s2s::eq{{{cpp}}}", lambda o, x: o.and_(*[o.eq(a, b) for a, b in zip(x.items, bs)]), frozen=list(bs))


def magic_bytes(id, bs):
    f = Arr(id, u8, [len(bs)], cons=eq_bytes("std::array<u8, %d>{%s}" % (len(bs), ", ".join(map(str, bs))), bytes(bs)))
    f.cpp = lambda: 's2s::magic_byte_array<"%s", %d, std::array<u8, %d>{%s}>' % (id, len(bs), len(bs), ", ".join(map(str, bs)))
    return f


class Vec(Field):
    kind = "vec"

    def __init__(self, id, t, size, cons=None, bound=None):
        self.id, self.t, self.size, self.cons, self.bound = id, t, size, cons, bound

    def cpp(self):
        return f's2s::vec_field<"{self.id}", {self.t.name}' + self.opts(self.size.cpp) + ">"

    def tag(self):
        return f"s2s::as_vec<{self.t.name}" + self.opts(self.size.cpp) + ">"

    def vtype(self):
        return f"std::vector<{self.t.name}>"

    @property
    def elsize(self):
        return self.t.bytes


class VecArr(Vec):
    """vector of fixed arrays"""
    def __init__(self, id, t, n, size, bound=None):
        super().__init__(id, t, size, None, bound)
        self.an = n

    def cpp(self):
        return f's2s::vec_field<"{self.id}", std::array<{self.t.name}, {self.an}>' + self.opts(self.size.cpp) + ">"


class Str(Field):
    kind = "vec"
    t = ch

    def __init__(self, id, size, cons=None, bound=None):
        self.id, self.size, self.cons, self.bound = id, size, cons, bound

    def cpp(self):
        return f's2s::str_field<"{self.id}"' + self.opts(self.size.cpp) + ">"

    def tag(self):
        return "s2s::as_string<" + self.opts(self.size.cpp)[2:] + ">"

    def vtype(self):
        return "std::string"

    elsize = 1


class Rec(Field):
    kind = "rec"

    def __init__(self, id, rec, cons=None):
        self.id, self.rec, self.cons = id, rec, cons

    def cpp(self):
        return f's2s::struct_field<"{self.id}", {self.rec.name}' + self.opts() + ">"

    def tag(self):
        return f"s2s::as_struct<{self.rec.name}" + self.opts() + ">"


class ArrRec(Field):
    kind = "arrrec"

    def __init__(self, id, rec, n, cons=None):
        self.id, self.rec, self.n, self.cons = id, rec, n, cons

    def cpp(self):
        return f's2s::array_of_records<"{self.id}", {self.rec.name}, {self.n}' + self.opts() + ">"

    def tag(self):
        return f"s2s::as_arr_of_records<{self.rec.name}, {self.n}" + self.opts() + ">"


class VecRec(Field):
    kind = "vecrec"

    def __init__(self, id, rec, size, cons=None, bound=None, recsize=None):
        self.id, self.rec, self.size, self.cons, self.bound, self.recsize = id, rec, size, cons, bound, recsize

    def cpp(self):
        return f's2s::vector_of_records<"{self.id}", {self.rec.name}' + self.opts(self.size.cpp) + ">"

    def tag(self):
        return f"s2s::as_vec_of_records<{self.rec.name}" + self.opts(self.size.cpp) + ">"


class SmallVecRec(VecRec):
    """a vector of records of varying size; the schema itself admits at most `most` of them"""
    kind = "svec"
    most = 2


class Maybe(Field):
    kind = "opt"

    def __init__(self, base, pred):
        self.base, self.pred = base, pred
        self.id = base.id

    def cpp(self):
        return f"s2s::maybe<{self.base.cpp()}, {self.pred.cpp('parse_if')}>"


class Always(Pred):
    def __init__(self):
        super().__init__(None, [], lambda o: True)

    def cpp(self, name):
        return "s2s::always_present"


class Union(Field):
    """sel: ('match', id, [values]) | ('compute', Pred, rtype, [values]) | ('ladder', [Pred])"""
    kind = "union"

    def __init__(self, id, sel, alts, cons=None):
        self.id, self.sel, self.alts, self.cons = id, sel, alts, cons

    def cpp(self):
        k = self.sel[0]
        if k == "ladder":
            t = "s2s::type<s2s::type_if_else<" + ", ".join(
                f"s2s::branch<{p.cpp('predicate')}, {a.tag()}>" for p, a in zip(self.sel[1], self.alts)) + ">>"
        else:
            sw = "s2s::type_switch<" + ", ".join(f"s2s::match_case<{v}, {a.tag()}>" for v, a in zip(self.sel[-1], self.alts)) + ">"
            if k == "match":
                t = f's2s::type<s2s::match_field<"{self.sel[1]}">, {sw}>'
            else:
                p, rt = self.sel[1], self.sel[2]
                t = f"s2s::type<s2s::compute<{p.lam}, {rt}" + "".join(f', "{i}"' for i in p.ids) + f">, {sw}>"
        return f's2s::variance<"{self.id}", {t}' + self.opts() + ">"


class Record:
    def __init__(self, name, fields):
        self.name, self.fields = name, fields
        self.stored = False

    def by_id(self, i):
        for f in self.fields:
            if f.id == i:
                return f
        raise KeyError(i)


def records_of(rec, out=None):
    """inner records first"""
    out = [] if out is None else out

    def walk(f):
        if f.kind in ("rec", "arrrec", "vecrec", "svec"):
            records_of(f.rec, out)
        elif f.kind == "opt":
            walk(f.base)
        elif f.kind == "union":
            for a in f.alts:
                walk(a)
    for f in rec.fields:
        walk(f)
    if rec not in out:
        out.append(rec)
    return out


def flat(rec):
    return all(f.kind in ("int", "arr") or f.kind in ("rec", "arrrec") and flat(f.rec) for f in rec.fields)


def vec_records(rec):
    """record types stored in vectors, in first-use order"""
    out = []

    def walk(f):
        if f.kind in ("vecrec", "svec") and f.rec not in out:
            out.append(f.rec)
        elif f.kind == "opt":
            walk(f.base)
        elif f.kind == "union":
            for a in f.alts:
                walk(a)
    for r in records_of(rec):
        for f in r.fields:
            walk(f)
    return out


PRELUDE = r'''
#include S2S_HEADER
#include <utility>
#include <type_traits>
using namespace s2s_literals;
using u8 = unsigned char; using u16 = unsigned short; using u32 = unsigned int; using u64 = unsigned long;
using i8 = signed char; using i16 = short; using i32 = int; using i64 = long;
extern "C" {
bool __vf_read(char*, unsigned long);
bool __vf_write(const char*, unsigned long);
unsigned long __vf_sym(unsigned, unsigned);
void __vf_havoc(void*, unsigned long, unsigned);
void __vf_obs(unsigned, unsigned long);
void __vf_obs_buf(unsigned, const void*, unsigned long, unsigned long);
void __vf_assume(bool);
void __vf_rewind();
void __vf_mark(unsigned);
}
struct vs {
  bool ok = true;
  vs& read(char* d, std::streamsize n) { if(!__vf_read(d, (unsigned long)n)) ok = false; return *this; }
  vs& write(const char* d, std::size_t n) { if(!__vf_write(d, n)) ok = false; return *this; }
  explicit operator bool() const { return ok; }
  bool operator!() const { return !ok; }
};
struct cs : s2s::constexpr_stream {
  bool ok = true;
  template <std::size_t N> cs& read(std::array<char, N>& d, std::size_t n) { if(!__vf_read(d.data(), n)) ok = false; return *this; }
  template <std::size_t N> cs& write(const std::array<char, N>& d, std::size_t n) { if(!__vf_write(d.data(), n)) ok = false; return *this; }
  explicit operator bool() const { return ok; }
  bool operator!() const { return !ok; }
};
'''


class Gen:
    """C++ text for one schema.  Tags are allocated deterministically; spec.py walks in the same order."""

    def __init__(self, rec, max_count_bits=34):
        self.rec = rec
        self.mcb = max_count_bits
        self.tag = 100

    def nt(self):
        self.tag += 1
        return self.tag

    def fname(self, rec, i):
        return f"{rec.name}__f{i}"

    def decls(self):
        out = []
        for r in records_of(self.rec):
            for i, f in enumerate(r.fields):
                out.append(f"using {self.fname(r, i)} = {f.cpp()};")
            out.append(f"using {r.name} = s2s::struct_field_list<" + ", ".join(self.fname(r, i) for i in range(len(r.fields))) + ">;")
        return "\n".join(out)

    # --- observation of a value
    def obs_rec(self, rec, e, ind):
        out = []
        for i, f in enumerate(rec.fields):
            out += self.obs(f, f"static_cast<const {self.fname(rec, i)}&>({e}).value", ind)
        return out

    def obs(self, f, e, ind):
        k = f.kind
        t = self.nt()
        if k == "int":
            return [f"{ind}__vf_obs({t}, (unsigned long)({UNS[f.t.bits]})({e}));"]
        if k == "arr":
            return [f"{ind}__vf_obs_buf({t}, &({e}), sizeof({e}), 1);"]
        if k == "vec":
            n = f.an * f.t.bytes if isinstance(f, VecArr) else f.elsize
            return [f"{ind}__vf_obs_buf({t}, ({e}).data(), ({e}).size(), {n});"]
        if k == "rec":
            return [f"{ind}{{ const auto& r{t} = {e};"] + self.obs_rec(f.rec, f"r{t}", ind) + [f"{ind}}}"]
        if k == "arrrec":
            out = []
            for j in range(f.n):
                out += [f"{ind}{{ const auto& r{t}_{j} = ({e})[{j}];"] + self.obs_rec(f.rec, f"r{t}_{j}", ind) + [f"{ind}}}"]
            return out
        if k == "vecrec":
            return [f"{ind}__vf_obs_buf({t}, ({e}).data(), ({e}).size(), sizeof({f.rec.name}));"]
        if k == "svec":
            out = [f"{ind}__vf_obs({t}, ({e}).size());"]
            for j in range(f.most):
                out += [f"{ind}if(({e}).size() > {j}) {{ const auto& r{t}_{j} = ({e})[{j}];"] + self.obs_rec(f.rec, f"r{t}_{j}", ind) + [f"{ind}}}"]
            return out
        if k == "opt":
            return [f"{ind}__vf_obs({t}, ({e}).has_value());", f"{ind}if(({e}).has_value()) {{"] + self.obs(f.base, f"*({e})", ind) + [f"{ind}}}"]
        if k == "union":
            out = [f"{ind}__vf_obs({t}, ({e}).index());"]
            for j, a in enumerate(f.alts):
                out += [f"{ind}if(auto* p{t}_{j} = std::get_if<{j}>(&({e}))) {{"] + self.obs(a, f"*p{t}_{j}", ind) + [f"{ind}}}"]
            return out
        raise KeyError(k)

    def obs_offs(self, rec, e, base, ind):
        out = []
        for i, f in enumerate(rec.fields):
            x = f"static_cast<{self.fname(rec, i)}&>({e}).value"
            if f.kind == "rec":
                out += [f"{ind}{{ auto& q = {x};"] + self.obs_offs(f.rec, "q", base, ind) + [f"{ind}}}"]
            elif f.kind == "arrrec":
                for j in range(f.n):
                    out += [f"{ind}{{ auto& q = ({x})[{j}];"] + self.obs_offs(f.rec, "q", base, ind) + [f"{ind}}}"]
            elif f.kind in ("int", "arr"):
                out.append(f"{ind}__vf_obs(7, (unsigned long)((const char*)&({x}) - {base}));")
            else:
                raise KeyError("leaf " + f.kind)
        return out

    # --- symbolic construction of a struct
    def sym_rec(self, rec, e, ind):
        out = []
        for i, f in enumerate(rec.fields):
            out += self.sym(f, f"static_cast<{self.fname(rec, i)}&>({e}).value", ind)
        return out

    ceil = False

    def lim(self, f, n):
        """counts explored: all the solver can reason about, or (round trips) all a read accepts"""
        if self.ceil:
            return f"{DEFAULT_MAX if f.bound is None else f.bound}ul / {n}"
        return f"(1ul << {self.mcb})"

    def sym(self, f, e, ind):
        k = f.kind
        t = self.nt()
        if k == "int":
            return [f"{ind}{e} = ({f.t.name})({UNS[f.t.bits]})__vf_sym({t}, {f.t.bits});"]
        if k == "arr":
            return [f"{ind}__vf_havoc((void*)&({e}), sizeof({e}), {t});"]
        if k == "vec":
            n = f.an * f.t.bytes if isinstance(f, VecArr) else f.elsize
            return [f"{ind}{{ unsigned long n{t} = __vf_sym({t}, 64); __vf_assume(n{t} <= {self.lim(f, n)});",
                    f"{ind}  ({e}).resize(n{t}); __vf_havoc((void*)({e}).data(), n{t} * {n}, {t}); }}"]
        if k == "rec":
            return [f"{ind}{{ auto& r{t} = {e};"] + self.sym_rec(f.rec, f"r{t}", ind) + [f"{ind}}}"]
        if k == "arrrec":
            out = []
            for j in range(f.n):
                out += [f"{ind}{{ auto& r{t}_{j} = ({e})[{j}];"] + self.sym_rec(f.rec, f"r{t}_{j}", ind) + [f"{ind}}}"]
            return out
        if k == "vecrec":
            return [f"{ind}{{ unsigned long n{t} = __vf_sym({t}, 64); __vf_assume(n{t} <= {self.lim(f, f'sizeof({f.rec.name})')});",
                    f"{ind}  ({e}).resize(n{t}); __vf_havoc((void*)({e}).data(), n{t} * sizeof({f.rec.name}), {t}); }}"]
        if k == "svec":
            out = [f"{ind}{{ unsigned long n{t} = __vf_sym({t}, 64); __vf_assume(n{t} <= {f.most}); ({e}).resize(n{t});"]
            for j in range(f.most):
                out += [f"{ind}if(n{t} > {j}) {{ auto& r{t}_{j} = ({e})[{j}];"] + self.sym_rec(f.rec, f"r{t}_{j}", ind) + [f"{ind}}}"]
            return out + [f"{ind}}}"]
        if k == "opt":
            return [f"{ind}if(__vf_sym({t}, 8) & 1) {{", f"{ind}  ({e}).emplace();"] + self.sym(f.base, f"*({e})", ind + "  ") + [f"{ind}}}"]
        if k == "union":
            out = [f"{ind}{{ unsigned long n{t} = __vf_sym({t}, 8); __vf_assume(n{t} < {len(f.alts)});"]
            for j, a in enumerate(f.alts):
                out += [f"{ind}if(n{t} == {j}) {{ auto& a{t}_{j} = ({e}).template emplace<{j}>();"] + self.sym(a, f"a{t}_{j}", ind + "  ") + [f"{ind}}}"]
            return out + [f"{ind}}}"]
        raise KeyError(k)

    def source(self, variants):
        """variants: list of (kind, endian, stream) -> C++ text"""
        R = self.rec.name
        out = [PRELUDE, self.decls()]
        out.append('''
static void obs_err(const s2s::cast_error& e) {
  __vf_obs(1, 1 + (unsigned long)e.failure_reason);
  __vf_obs_buf(9, e.failed_at.data(), e.failed_at.size(), 1);
}''')
        self.tag = 100
        out.append(f"static void obs_all(const {R}& r) {{")
        out += self.obs_rec(self.rec, "r", "  ")
        out.append("}")
        for self.ceil in (False, True):
            self.tag = 10000
            out.append(f"static void {'sym_in' if self.ceil else 'sym_all'}({R}& r) {{")
            out += self.sym_rec(self.rec, "r", "  ")
            out.append("}")
        out.append('extern "C" void h_layout() {')
        for r in vec_records(self.rec):
            out.append(f"  {{ {r.name} r; __vf_obs(6, sizeof({r.name}));")
            if flat(r):
                out += self.obs_offs(r, "r", "(const char*)&r", "  ")
            out.append("  }")
        out.append("}")
        for kind, en, stm in variants:
            n = f"h_{kind}_{en}_{stm}"
            if kind == "read":
                out.append(f'''extern "C" void {n}() {{
  {stm} s; auto r = s2s::struct_cast_{en}<{R}>(s);
  __vf_mark(1);
  if(r) {{ __vf_obs(1, 0); obs_all(*r); }} else obs_err(r.error());
}}''')
            elif kind == "write":
                out.append(f'''extern "C" void {n}() {{
  {stm} s; {R} r; sym_all(r);
  __vf_mark(0);
  auto w = s2s::stream_cast_{en}<{R}>(s, r);
  __vf_mark(1);
  if(w) __vf_obs(1, 0); else obs_err(w.error());
  obs_all(r);
}}''')
            elif kind == "wr":
                out.append(f'''extern "C" void {n}() {{
  {stm} s; {R} r; sym_in(r);
  auto w = s2s::stream_cast_{en}<{R}>(s, r);
  __vf_assume(w.has_value());
  __vf_rewind();
  auto q = s2s::struct_cast_{en}<{R}>(s);
  __vf_mark(1);
  if(q) {{ __vf_obs(1, 0); obs_all(*q); }} else obs_err(q.error());
}}''')
            elif kind == "rw":
                out.append(f'''extern "C" void {n}() {{
  {stm} s; auto q = s2s::struct_cast_{en}<{R}>(s);
  __vf_assume(q.has_value());
  __vf_mark(0);
  auto w = s2s::stream_cast_{en}<{R}>(s, *q);
  __vf_mark(1);
  if(w) __vf_obs(1, 0); else obs_err(w.error());
}}''')
            elif kind == "life":
                out.append(f'''extern "C" void {n}() {{
  {stm} s; auto q = s2s::struct_cast_{en}<{R}>(s);
  if(q) {{ {R} a = *q; {R} b = std::move(*q); a = b; b = std::move(a); obs_all(b); }}
}}''')
        return "\n".join(out) + "\n"

"""The schemas the contracts are instantiated on.  Each entry: Record + which casts apply.
Every template of the library that a cast can reach is instantiated by at least one of them."""
from schema import *


def L(expr):
    """C++ lambda text"""
    return expr


CAT = {}


class Entry:
    def __init__(self, rec, kinds, endians, streams, tags, cs_kinds):
        self.rec, self.kinds, self.endians, self.streams, self.tags, self.cs_kinds = rec, kinds, endians, streams, set(tags.split()), cs_kinds
        self.name = rec.name
        self.finding = None
        self.quick = None


def add(name, fields, kinds="read write wr rw life", endians="le be", streams="vs cs", tags="", cs_kinds="read write", finding=None):
    rec = fields if isinstance(fields, Record) else Record(name, fields)
    e = CAT[name] = Entry(rec, kinds.split(), endians.split(), streams.split(), tags, cs_kinds.split())
    # schemas that show a known finding count only for these properties
    e.finding = set(finding.split()) if finding else None
    return rec


def p1(lam, i, py):
    return Pred(lam, [i], py)


def flag(i, bit=1):
    return Pred("[](auto f) { return (f & %d) != 0; }" % bit, [i], lambda o, f: o.not_(o.eq(o.band(f, bit), 0)))


def is_val(i, v):
    return Pred("[](auto f) { return f == %d; }" % v, [i], lambda o, f: o.eq(f, v))


def below(i, v):
    return Pred("[](auto f) { return f < %du; }" % v, [i], lambda o, f: o.lt(f, v, False))


# --- scalars
add("scal", [Int("a", u8), Int("b", u16), Int("c", u32), Int("d", u64), Int("e", i8), Int("f", i16), Int("g", i32), Int("h", i64)], tags="scalar")
add("narrow", [Int("a", u32, 3), Int("b", u16, 1), Int("c", u64, 5), Int("d", u32, 2), Int("e", i32, 3), Int("f", u64, 8)], tags="scalar narrow")
# --- fixed buffers
add("arrs", [Arr("a", u16, [3]), Arr("b", u8, [5]), Arr("c", u32, [2, 2]), Arr("d", i64, [2]), Int("z", u8)], tags="buffer")
add("carrs", [Arr("a", u32, [3], "carr"), Arr("m", u16, [2, 2], "carr"), FStr("s", 3, cstr=True), Int("z", u16)], tags="buffer", streams="vs")
add("carr1", [Arr("a", u32, [3], "carr"), FStr("s", 3, cstr=True), Int("z", u16)], tags="buffer")
add("fstr", [FStr("s", 4), Arr("q", ch, [3]), Int("z", u16)], tags="buffer")
add("flt", [Arr("a", f32, [2]), Int("n", u8), Vec("v", f64, len_of("n"))], endians="le", tags="buffer", streams="vs")
# --- constants
add("magic", [Int("a", u32, 4, magic="0xCAFEBABEu", cons=eq(u32, 0xCAFEBABE)), FStr("s", 4, magic="RIFF"), magic_bytes("b", [1, 200, 3]),
              Int("c", u64, 8, magic="0xdead", cons=eq(u64, 0xdead)), Int("d", i16, 2, magic="-7", cons=eq(i16, -7)), Int("z", u8)], tags="constraint frozen")
add("eqs", [Int("a", u16, cons=eq(u16, 0x1234)), Int("b", u32, 3, cons=eq(u32, 0x0a0b0c)), Int("c", i8, cons=eq(i8, -1)), Int("z", u8)], tags="constraint frozen")
add("eqs2", [Arr("a", u16, [2], cons=Cons("s2s::eq{std::array<u16, 2>{u16(0x1234), u16(0xfffe)}}", lambda o, x: o.and_(o.eq(x.items[0], 0x1234), o.eq(x.items[1], 0xfffe)), frozen=[0x1234, 0xfffe])),
             FStr("s", 2, cons=eq_bytes('s2s::fixed_string("ok")', b"ok\0")), Int("z", u8)], tags="constraint frozen")
# --- range constraints
add("cons_u", [Int("a", u8, cons=lt(u8, 10)), Int("b", u16, cons=lte(u16, 300)), Int("c", u32, cons=gt(u32, 5)), Int("d", u64, cons=gte(u64, 1 << 40)),
               Int("e", u16, cons=neq(u16, 7)), Int("f", u8, cons=any_of(u8, 1, 4, 200))], tags="constraint")
add("cons_s", [Int("a", i8, cons=lt(i8, -3)), Int("b", i16, cons=lte(i16, -300)), Int("c", i32, cons=gt(i32, -5)), Int("d", i64, cons=gte(i64, -(1 << 40))),
               Int("e", i32, cons=neq(i32, -7)), Int("f", i16, cons=any_of(i16, -1, 0, 300))], tags="constraint")
add("cons_x", [Int("a", u32, 3, cons=lt(u32, 70000)), Int("b", u16, cons=user("[](const u16& v) { return (v & 1) == 0; }", lambda o, x: o.eq(o.band(x, 1), 0))),
               FStr("s", 3, cons=Cons('s2s::neq{s2s::fixed_string("bad")}', lambda o, x: o.not_(o.and_(*[o.eq(a, b) for a, b in zip(x.items, b"bad\0")])))),
               Arr("q", u8, [2], cons=user("[](const std::array<u8, 2>& v) { return v[0] < v[1]; }", lambda o, x: o.lt(x.items[0], x.items[1], False))),
               Arr("r", u16, [2], cons=Cons("s2s::any_of{std::array<u16, 2>{u16(1), u16(2)}, std::array<u16, 2>{u16(3), u16(65535)}}",
                                            lambda o, x: o.or_(o.and_(o.eq(x.items[0], 1), o.eq(x.items[1], 2)), o.and_(o.eq(x.items[0], 3), o.eq(x.items[1], 65535)))))],
    tags="constraint")
add("cons_v", [Int("n", u8), Vec("v", u16, len_of("n"), cons=user("[](const std::vector<u16>& v) { return v.size() != 3; }", lambda o, x: o.not_(o.c.lcmp("eq", x.count, 3)))),
               Int("m", u16), Str("s", len_of("m"), cons=user("[](const std::string& s) { return s.size() < 200; }", lambda o, x: o.c.lcmp("ult", x.count, 200))), Int("z", u8)],
    tags="constraint container")
# --- containers
add("vecs", [Int("n", u16), Vec("v", u32, len_of("n")), Int("m", u8), Vec("w", u8, len_of("m")), Int("z", u16)], tags="container", kinds="read write wr rw")
add("vec64", [Int("n", u64), Vec("v", u64, len_of("n")), Int("z", u8)], tags="container")
add("vec16s", [Int("n", i32), Vec("v", i16, len_of("n")), Int("z", i8)], tags="container")
add("vecsb", [Int("n", i8), Vec("v", u8, len_of("n")), Int("z", u8)], tags="container")
add("str1", [Int("n", u32), Str("s", len_of("n")), Int("z", u16)], tags="container")
add("lenw", [Int("n", u32, 3), Vec("v", u16, len_of("n")), Int("z", u8)], tags="container narrow")
add("lenc", [Int("n", u16, cons=lt(u16, 50)), Vec("v", u16, len_of("n")), Int("m", u8, cons=gt(u8, 2)), Str("s", len_of("m"))], tags="container constraint", kinds="read write wr rw")
add("lenf", [Int("n", u8, cons=eq(u8, 3)), Vec("v", u16, len_of("n")), Int("z", u8)], tags="container constraint frozen")
add("share", [Int("n", u16), Vec("v", u16, len_of("n")), Vec("w", u8, len_of("n")), Int("z", u8)], tags="container")
add("share3", [Int("n", u8), Vec("v", u8, len_of("n")), Int("k", u16), Vec("w", u8, len_of("n")), Vec("x", u16, len_of("n"))], tags="container", kinds="read write")
add("compsz", [Int("r", u8), Int("c", u8), Vec("v", u16, computed("[](auto a, auto b) { return (std::size_t)a * (std::size_t)b; }", ["r", "c"], lambda o, a, b: o.mul(a, b))), Int("z", u8)],
    tags="container computed")
add("comps", [Int("n", u16), Str("s", computed("[](auto a) { return (std::size_t)a - 1; }", ["n"], lambda o, a: o.sub(a, 1))), Int("z", u8)], tags="container computed")
add("bound", [Int("n", u32), Vec("v", u32, len_of("n"), bound=10), Int("m", u16), Str("s", len_of("m"), bound=5), Int("z", u8)], tags="container bound", kinds="read write wr rw")
add("bound2", [Int("n", u64), Vec("v", u16, len_of("n"), bound=1 << 20), Int("m", u64), Vec("w", u64, len_of("m"))], tags="container bound", kinds="read")
add("bigs", [Int("n", u64), Str("s", len_of("n"), bound=100)], tags="container bound", kinds="read write")
add("vecarr", [Int("n", u16), VecArr("v", u16, 3, len_of("n")), Int("z", u8)], tags="container", kinds="read write wr rw")
# --- records
P = Record("P", [Int("x", u16), Int("y", u8, cons=lt(u8, 100)), Int("w", u32)])
Q = Record("Q", [Int("n", u8), Vec("v", u16, len_of("n")), Int("k", u16, cons=eq(u16, 0xbeef))])
PQ = Record("PQ", [Rec("p", P), Arr("a", u16, [2]), Int("t", u16, cons=gt(u16, 3))])
add("rec", [Int("h", u8), Rec("p", P), Rec("q", Q), Int("z", u16)], tags="record")
add("rec2", [Rec("u", PQ), Int("z", u8, cons=lt(u8, 9))], tags="record")
add("recc", [Rec("p", P, cons=user("[](const P& p) { return p[\"x\"_f] != 5; }", lambda o, r: o.not_(o.eq(r.vals[0], 5)))), Int("z", u8)], tags="record constraint")
add("arrec", [ArrRec("r", P, 2), Int("z", u16)], tags="record")
add("arrec2", [ArrRec("r", Q, 2), Int("z", u8)], tags="record", kinds="read write")
add("vecrec", [Int("n", u16), VecRec("r", P, len_of("n")), Int("z", u16)], tags="record container")
add("vecrec2", [Int("n", u32), VecRec("r", PQ, len_of("n"), bound=4096), Int("z", u16)], tags="record container bound")
S8 = Record("S8", [Int("x", u8), Int("y", u32)])
add("vecrec3", [Int("a", u8), Int("b", u8), VecRec("r", S8, computed("[](auto a, auto b) { return (std::size_t)a + b; }", ["a", "b"], lambda o, a, b: o.add(a, b))), Int("z", u8)],
    tags="record container computed")
# --- optionals
add("opt1", [Int("f", u8), Maybe(Int("a", u32), flag("f", 1)), Maybe(Int("b", u16), flag("f", 2)), Int("z", u8)], tags="optional")
add("opt2", [Int("f", u8), Maybe(Arr("a", u16, [2]), flag("f", 1)), Maybe(Rec("p", P), flag("f", 4)), Maybe(FStr("s", 2), Always()), Int("z", u16)], tags="optional")
add("opt3", [Int("f", u16), Int("n", u8), Maybe(Vec("v", u16, len_of("n")), below("f", 7)), Int("z", u8)], tags="optional container conditional")
add("opt4", [Int("f", u8), Int("g", i16), Maybe(Str("s", computed("[](auto a) { return (std::size_t)a * 2; }", ["f"], lambda o, a: o.scale(a, 2))),
                                                Pred("[](auto a, auto b) { return 3 < a && b < 0; }", ["f", "g"], lambda o, a, b: o.and_(o.gt(a, 3, False), o.lt(b, 0, True)))), Int("z", u8)],
    tags="optional container computed")
add("opt5", [Int("f", u8), Maybe(Int("a", u32, 3), is_val("f", 1)), Maybe(ArrRec("r", S8, 2), is_val("f", 2)), Int("z", u8)], tags="optional narrow")
# --- unions
add("uni1", [Int("t", u8), Union("u", ("match", "t", [1, 2, 7]), [Int("", u32), Arr("", u16, [3]), FStr("", 3)]), Int("z", u16)], tags="union")
add("uni2", [Int("t", u16), Int("n", u8), Union("u", ("match", "t", [0x100, 0x200]), [Vec("", u16, len_of("n")), Rec("", P)]), Int("z", u8)], tags="union conditional container")
add("uni3", [Int("a", u8), Int("b", u8), Union("u", ("compute", Pred("[](auto a, auto b) -> int { return a + b; }", ["a", "b"], lambda o, a, b: o.int_(o.add(a, b))), "int", [3, 4, 300]),
                                               [Int("", u16), Int("", u32), Int("", u64)]), Int("z", u8)], tags="union")
add("uni4", [Int("a", u16), Union("u", ("ladder", [below("a", 10), below("a", 100), flag("a", 1)]), [Int("", u8), Int("", u16), Int("", u32)]), Int("z", u8)], tags="union")
add("uni5", [Int("t", u8), Union("u", ("match", "t", [1, 2]), [Int("", u32, cons=lt(u32, 1000)), Int("", i16, cons=eq(i16, -5))],
                                 cons=user("[](const auto& v) { return v.index() == 1 || std::get<0>(v) != 500; }", lambda o, x: x.idx == 1 or o.not_(o.eq(x.val, 500)))), Int("z", u8)],
    tags="union constraint")
add("uni6", [Int("t", u8), Union("u", ("match", "t", [1, 2]), [Int("", u32), Int("", u16)]), Int("y", u8), Union("v", ("match", "t", [1, 3]), [Int("", u8), Int("", u64)])], tags="union")
add("uni7", [Int("t", i8), Union("u", ("match", "t", [-1, 2]), [Int("", u32), Int("", u16)]), Int("z", u8)], tags="union")
add("uni8", [Int("t", u32, 2, cons=neq(u32, 5)), Union("u", ("match", "t", [5, 6, 70000]), [Int("", u32), Int("", u16), Int("", u8)]), Int("z", u8)], tags="union narrow constraint")
add("uni9", [Int("n", u16), Int("t", u8), Union("u", ("match", "t", [0, 1]), [Vec("", u32, len_of("n"), bound=64), Str("", len_of("n"), bound=9)]), Int("z", u8)], tags="union bound container conditional")
add("uniA", [Int("t", u8), Int("n", u8), Union("u", ("match", "t", [3, 4, 5]), [Rec("", Q), ArrRec("", P, 2), Vec("", u8, computed("[](auto a) { return (std::size_t)a + 1; }", ["n"], lambda o, a: o.add(a, 1)))]), Int("z", u8)],
    tags="union record computed")
# --- lengths with several producers
add("mix1", [Int("f", u8), Int("n", u8), Maybe(Vec("v", u8, len_of("n")), flag("f", 1)), Maybe(Str("s", len_of("n")), flag("f", 2)), Int("z", u8)], tags="conditional container")
add("mix2", [Int("f", u8), Int("n", u16), Vec("v", u16, len_of("n")), Maybe(Vec("w", u8, len_of("n")), flag("f", 1)), Int("z", u8)], tags="conditional container")
add("both", [Int("d", u8), Vec("v", u16, len_of("d")), Union("u", ("match", "d", [1, 3]), [Int("", u32), Int("", u16)]), Int("z", u8)], tags="union container")
# --- every element type in every kind of buffer
ALLT = [u8, u16, u32, u64, i8, i16, i32, i64, ch]
add("arr_t", [Arr("a" + t.name, t, [2]) for t in ALLT] + [Arr("m", u16, [2, 2, 2]), Arr("m2", i32, [1, 3]), Int("z", u8)], tags="buffer")
add("carr_t", [Arr("c" + t.name, t, [3], "carr") for t in ALLT] + [Int("z", u8)], tags="buffer")
add("carr_m", [Arr("a", u8, [2, 3], "carr"), Arr("b", u64, [2, 2], "carr"), Arr("c", i16, [2, 1, 2], "carr"), Int("z", u8)], tags="buffer", streams="vs")
add("fstr2", [FStr("s0", 1), FStr("s1", 7), FStr("s2", 2, cstr=True), FStr("s3", 16), Int("z", u8)], tags="buffer")
for _t in (u16, i32, u64, i64, i8, ch):
    add("vec_" + _t.name, [Int("len", u16), Vec("items", _t, len_of("len")), Int("end", u8)], tags="container", kinds="read write wr")
add("vecarr2", [Int("n", u8), VecArr("v", u64, 2, len_of("n")), Int("m", u32), VecArr("w", u8, 3, len_of("m"), bound=32), Int("z", u8)], tags="container bound", kinds="read write")
# --- every integer type at every width
for _t in (u16, u32, i16, i32):
    add("w_" + _t.name, [Int("w%d" % k, _t, k) for k in range(1, _t.bytes + 1)] + [Int("z", u8)], tags="scalar narrow")
add("w_u64", [Int("w%d" % k, u64, k) for k in range(1, 9)], tags="scalar narrow", kinds="read write wr")
add("w_i64", [Int("w%d" % k, i64, k) for k in range(1, 9)], tags="scalar narrow", kinds="read write wr")
add("one", [Int("only", u32)], tags="scalar")
# --- length slots of every type and width
for _i, (_t, _w) in enumerate([(u16, 1), (u32, 1), (u32, 2), (u64, 3), (u64, 5), (i16, None), (i64, None), (i32, 2), (i16, 1), (u32, None), (u64, 8)]):
    add("ln%d" % _i, [Int("cnt", _t, _w), Str("txt", len_of("cnt")), Int("z", u16)], tags="container narrow", kinds="read write wr")
# --- constraints: every type, edges of the range, any order
for _t in (u8, u16, u32, u64, i8, i16, i32, i64):
    _lo, _hi = (-(1 << (_t.bits - 1)), (1 << (_t.bits - 1)) - 1) if _t.signed else (0, (1 << _t.bits) - 1)
    _mid = 5 if not _t.signed else -5
    add("ce_" + _t.name, [Int("a", _t, cons=lt(_t, _hi)), Int("b", _t, cons=lte(_t, _lo + 1)), Int("c", _t, cons=gt(_t, _lo)), Int("d", _t, cons=gte(_t, _hi - 1)),
                          Int("e", _t, cons=neq(_t, _hi)), Int("f", _t, cons=any_of(_t, _hi, _lo, 7)), Int("g", _t, cons=any_of(_t, _mid)), Int("h", _t, cons=gte(_t, _mid)),
                          Int("i", _t, cons=lte(_t, _mid)), Int("j", _t, cons=eq(_t, _hi))], tags="constraint frozen", kinds="read write")
add("c_str", [FStr("s", 2, cons=Cons('s2s::any_of{s2s::fixed_string("zz"), s2s::fixed_string("ab"), s2s::fixed_string("mm")}',
                                     lambda o, x: o.or_(*[o.and_(*[o.eq(a, b) for a, b in zip(x.items, w)]) for w in (b"zz\0", b"ab\0", b"mm\0")]))),
              Arr("q", u8, [3], cons=Cons("s2s::neq{std::array<u8, 3>{u8(1), u8(2), u8(3)}}", lambda o, x: o.not_(o.and_(*[o.eq(a, b) for a, b in zip(x.items, (1, 2, 3))])))),
              Arr("e", u32, [2], cons=Cons("s2s::eq{std::array<u32, 2>{u32(0xdeadbeef), u32(7)}}", lambda o, x: o.and_(o.eq(x.items[0], 0xdeadbeef), o.eq(x.items[1], 7)), frozen=[0xdeadbeef, 7])),
              Int("z", u8)], tags="constraint frozen")
add("c_nar", [Int("a", u32, 2, cons=gt(u32, 300)), Int("b", u64, 3, cons=any_of(u64, 0x10203, 9, 0x40)), Int("c", u16, 1, cons=eq(u16, 0x7f)), Int("d", u32, 3, cons=neq(u32, 0x10000)),
              Int("e", u64, 6, cons=eq(u64, 0x010203040506))], tags="constraint narrow frozen")
# --- more records, nested three deep; ids that are prefixes of one another
R3 = Record("R3", [Int("len", u8), Str("l", len_of("len")), Rec("le", PQ), Int("lent", i16, cons=lt(i16, 4))])
add("rec3", [Int("r", u16), Rec("re", R3), Int("rec", u8, cons=neq(u8, 1))], tags="record")
R4 = Record("R4", [Int("len", u8), Str("l", len_of("len")), Int("lent", i16, cons=lt(i16, 4))])
add("arrec3", [Int("a", u8), ArrRec("ab", R4, 2), Int("abc", u8)], tags="record", kinds="read write")
V1 = Record("V1", [Int("x", u16), Arr("y", u32, [2]), FStr("s", 2), Rec("p", P), Int("m", u32, 3, cons=eq(u32, 0x040506))])
add("vecrec4", [Int("num", u32), VecRec("recs", V1, len_of("num")), Int("z", u16)], tags="record container", kinds="read write")
add("vecrec5", [Int("num", u64), VecRec("recs", S8, len_of("num"), bound=800), Int("z", u8)], tags="record container bound", kinds="read write")
add("vecrec6", [Int("nu", u8), VecRec("other", S8, len_of("nu"), cons=user("[](const auto& v) { return v.size() != 2; }", lambda o, x: o.not_(o.c.lcmp("eq", x.count, 2)))), Int("z", u8)],
    tags="record container constraint", kinds="read write")
# --- ids with common prefixes and dependencies that are not neighbours
add("ids", [Int("n", u8), Int("nn", u16), Int("nnn", u8), Str("a", len_of("nn")), Vec("ab", u16, len_of("n")), Int("z", u8)], tags="container", kinds="read write wr")
add("ids3", [Int("n", u8), Int("nn", u16), Int("nnn", u8), Maybe(Int("abc", u16), flag("nnn", 4)), Str("abcd", computed("[](auto a) { return (std::size_t)a + 2; }", ["nnn"], lambda o, a: o.add(a, 2))),
             Maybe(Int("abcde", u8), is_val("nn", 9))], tags="container optional computed", kinds="read write wr")
add("ids2", [Int("type", u8), Int("typ", u16), Int("ty", u8), Union("t", ("match", "typ", [0x101, 0x102]), [Int("", u8), Int("", u32)]),
             Union("types", ("match", "ty", [9, 8, 1]), [Int("", u16), FStr("", 1), Arr("", u8, [2])]), Maybe(Int("opt", u8), is_val("type", 0x11))], tags="union optional")
# --- everything once, nested
I1 = Record("I1", [Int("k", u8), Int("m", u8), Union("u", ("match", "k", [1, 2]), [Int("", u16), Rec("", S8)]), Maybe(Int("o", u32), is_val("m", 2))])
add("deep", [Int("h", u16, cons=eq(u16, 0x4d42)), Int("f", u8), Maybe(Rec("i", I1), flag("f", 1)), Int("z", u8)], tags="record union optional")

# --- optionals of every kind
add("opt6", [Int("f", u16), Int("n", u32), Maybe(Vec("v", u32, len_of("n"), bound=40), flag("f", 256)), Maybe(Str("s", len_of("n"), bound=7), flag("f", 512)), Int("z", u8)],
    tags="optional container conditional bound", kinds="read write wr")
add("opt7", [Int("f", i8), Maybe(FStr("s", 3), Pred("[](auto f) { return f < 0; }", ["f"], lambda o, f: o.lt(f, 0, True))), Maybe(Arr("a", i32, [2]), Pred("[](auto f) { return f == 127; }", ["f"], lambda o, f: o.eq(f, 127))),
             Maybe(Rec("r", I1), Pred("[](auto f) { return 0 < f; }", ["f"], lambda o, f: o.gt(f, 0, True))), Int("z", u8)], tags="optional record union", kinds="read write")
add("opt8", [Int("a", u8), Int("b", u16), Int("c", u32), Maybe(Int("o", u64), Pred("[](auto a, auto b, auto c) { return a < b && b < c; }", ["a", "b", "c"], lambda o, a, b, c: o.and_(o.lt(a, b, False), o.lt(b, c, False)))),
             Maybe(Int("p", u16, 1), Pred("[](auto c, auto a) { return c == a; }", ["c", "a"], lambda o, c, a: o.eq(c, a))), Maybe(Int("q", i16), Always()), Int("z", u8)], tags="optional narrow")
add("opt9", [Int("n", u8), Int("f", u8), Maybe(VecRec("r", S8, len_of("n")), flag("f", 1)), Maybe(ArrRec("k", P, 2), flag("f", 2)), Int("z", u8)], tags="optional container record conditional", kinds="read write")
add("optx", [Int("f", u8), Maybe(Int("a", u8), flag("f", 1)), Maybe(Int("b", u8), flag("f", 2)), Maybe(Int("c", u8), flag("f", 4)), Maybe(Int("d", u16), flag("f", 8))], tags="optional", kinds="read write wr")
# --- unions: discriminants of every width, one to eight alternatives, every kind of alternative
add("uniB", [Int("t", u64), Union("u", ("match", "t", [5, 0x500000001, 0xffffffffffffffff]), [Int("", u8), Int("", u16), Int("", u32)]), Int("z", u8)], tags="union")
add("uniC", [Int("t", u8), Union("u", ("match", "t", [200, 3, 90, 1, 0, 255, 7, 8]), [Int("", u8), Int("", u16), Int("", u32), Int("", u64), Int("", i8), Int("", i16), Int("", i32), Int("", i64)]), Int("z", u8)], tags="union",
    kinds="read write wr")
add("uniD", [Int("t", i32), Union("u", ("match", "t", [-70000, 70000]), [Int("", u32, 3), FStr("", 2)]), Int("k", i64), Union("v", ("match", "k", [-1, -0x100000000]), [Int("", u8), Arr("", u16, [2])]), Int("z", u8)], tags="union narrow")
add("uniE", [Int("t", u16, cons=lt(u16, 6)), Int("n", u16), Int("m", u8), Union("u", ("match", "t", [5, 4, 9]), [VecRec("", S8, len_of("n"), bound=200), Str("", len_of("m")), Vec("", u64, len_of("n"), bound=64)]), Int("z", u8)],
    tags="union container conditional bound record constraint", kinds="read write")
add("uniF", [Int("a", u8), Union("u", ("ladder", [is_val("a", 3)]), [Int("", u16)]), Union("v", ("ladder", [flag("a", 1), flag("a", 2), flag("a", 4), below("a", 200)]),
                                                                                [Int("", u8), FStr("", 1), Rec("", S8), Int("", u16)]), Int("z", u8)], tags="union", kinds="read write")
add("uniG", [Int("a", u8), Int("b", i16), Union("u", ("compute", Pred("[](auto a) -> u8 { return u8(a & 3); }", ["a"], lambda o, a: o.band(a, 3)), "u8", [2, 0]), [Arr("", u32, [2], cons=user("[](const std::array<u32, 2>& v) { return v[0] != v[1]; }", lambda o, x: o.not_(o.eq(x.items[0], x.items[1])))),
                                                                                                                                                              FStr("", 2, cons=eq_bytes('s2s::fixed_string("hi")', b"hi\0"))]),
             Int("z", u8)], tags="union constraint", kinds="read write")
add("uniH", [Int("t", u8), Int("n", u8), Union("u", ("match", "t", [1, 2, 3]), [Vec("", u16, len_of("n"), cons=user("[](const std::vector<u16>& v) { return v.size() < 9; }", lambda o, x: o.c.lcmp("ult", x.count, 9))),
                                                                              Str("", len_of("n"), cons=user("[](const std::string& s) { return s.size() != 4; }", lambda o, x: o.not_(o.c.lcmp("eq", x.count, 4)))),
                                                                              Int("", u32, 2, cons=gte(u32, 256))]), Int("z", u8)], tags="union container conditional constraint narrow", kinds="read write")
add("uniI", [Int("t", u8, cons=any_of(u8, 9, 2)), Union("u", ("match", "t", [2, 4, 9]), [Rec("", P), Rec("", S8), ArrRec("", S8, 2)]), Int("t2", u8), Union("w", ("match", "t2", [0]), [Int("", u16, cons=neq(u16, 0))]), Int("z", u8)],
    tags="union record constraint", kinds="read write")
# --- lengths: several producers of each kind, in every order
add("mix3", [Int("f", u8), Int("t", u8), Int("n", u16), Union("u", ("match", "t", [1, 2]), [Str("", len_of("n")), Int("", u16)]), Maybe(Vec("v", u8, len_of("n")), flag("f", 1)), Int("z", u8)], tags="conditional container union optional", kinds="read write")
add("mix4", [Int("t", u8), Int("n", u8), Union("u", ("match", "t", [1, 2, 3]), [Vec("", u8, len_of("n")), Int("", u16), Vec("", u16, len_of("n"))]), Vec("w", u16, len_of("n")), Int("z", u8)], tags="conditional container union", kinds="read write")
add("mix5", [Int("n", u16), Str("s", len_of("n")), VecRec("r", S8, len_of("n")), Int("z", u8)], tags="container record", kinds="read write")
add("mix6", [Int("n", u32, 3), Int("m", u16, cons=neq(u16, 2)), Int("f", u8), Maybe(Str("s", len_of("m")), below("f", 9)), Vec("v", u16, len_of("n")), Int("z", u8)], tags="container conditional narrow constraint", kinds="read write")
add("mix7", [Int("w", u8), Int("h", u8), Int("d", u16), Vec("a", u8, computed("[](auto w, auto h, auto d) { return (std::size_t)w + (std::size_t)h + d; }", ["w", "h", "d"], lambda o, a, b, c: o.add(o.add(a, b), c))), Int("z", u8)],
    tags="container computed", kinds="read write")
add("mix9", [Int("h", u8), Int("d", u16), Str("b", computed("[](auto d) { return (std::size_t)(d & 15); }", ["d"], lambda o, a: o.band(a, 15))), Int("z", u8)], tags="container computed", kinds="read write")
# --- records of records with everything in them, repeated
add("arrec4", [Int("h", u8), ArrRec("r", I1, 2), Int("z", u8)], tags="record union optional", kinds="read write")
add("arrec5", [ArrRec("r", S8, 5), ArrRec("q", P, 1, cons=user("[](const auto& a) { return a[0][\"x\"_f] != 3; }", lambda o, x: o.not_(o.eq(x.items[0].vals[0], 3)))), Int("z", u8)], tags="record constraint")

# --- case values the selector's type cannot hold, many alternatives' worth of dependencies, many fields, long ids
add("uniJ", [Int("t", u8), Union("u", ("match", "t", [0x102, 7, 0x1ff]), [Int("", u32), Int("", u16), Int("", u64)]), Int("k", u16), Union("w", ("match", "k", [0x10007, 0x20000, 9]), [Int("", u8), Int("", u16), Int("", u32)]), Int("z", u8)],
    tags="union", kinds="read write")
add("uniK", [Int("a", u8), Int("b", u8), Int("c", u8), Int("d", u8), Int("e", u8), Int("f", u8), Int("g", u8), Int("h", u8), Int("i", u8), Int("j", u8),
             Union("u", ("ladder", [Pred("[](auto a, auto b, auto c) { return a == b && b == c; }", ["a", "b", "c"], lambda o, a, b, c: o.and_(o.eq(a, b), o.eq(b, c))),
                                    Pred("[](auto d, auto e, auto f) { return d == e && e == f; }", ["d", "e", "f"], lambda o, a, b, c: o.and_(o.eq(a, b), o.eq(b, c))),
                                    Pred("[](auto g, auto h) { return g == h; }", ["g", "h"], lambda o, a, b: o.eq(a, b)),
                                    Pred("[](auto j, auto i) { return j == 1 && i == 2; }", ["j", "i"], lambda o, a, b: o.and_(o.eq(a, 1), o.eq(b, 2)))]),
                   [Int("", u8), Int("", u16), Int("", u32), Int("", u64)]), Int("z", u8)], tags="union", kinds="read write")
add("many", [Int("f%d" % _k, [u8, u16, u32][_k % 3]) for _k in range(9)] + [Str("s", len_of("f1")), Maybe(Int("o", u16), is_val("f8", 5))] + [Int("g%d" % _k, u8) for _k in range(3)] +
    [Maybe(Int("z", u8), is_val("f6", 1))], tags="container optional", kinds="read write")
add("longid", [Int("a_rather_long_field_name_1", u8), Int("a_rather_long_field_name_2", u16), Int("a_rather_long_field_name_3", u8), Int("a_rather_long_field_name_4", u8),
               Vec("a_rather_long_field_name_v", u16, len_of("a_rather_long_field_name_2")), Maybe(Int("a_rather_long_field_name_o", u16), is_val("a_rather_long_field_name_3", 4)),
               Union("a_rather_long_field_name_u", ("match", "a_rather_long_field_name_4", [1, 2]), [Int("", u8), Int("", u32)]), Int("a_rather_long_field_name", u8, cons=gt(u8, 3))],
    tags="container optional union constraint", kinds="read write")
add("args5", [Int("a", u8), Int("b", u16), Int("c", u8), Int("d", u32), Int("e", u8),
              Maybe(Int("o", u16), Pred("[](auto e, auto d, auto c, auto b, auto a) { return e < d && c < b && a == e; }", ["e", "d", "c", "b", "a"],
                                        lambda o, e, d, c, b, a: o.and_(o.lt(e, d, False), o.lt(c, b, False), o.eq(a, e)))), Int("z", u8)], tags="optional", kinds="read write")
add("args4", [Int("a", u8), Int("b", u8), Int("c", u8), Int("d", u8), Str("s", computed("[](auto d, auto c, auto b, auto a) { return (std::size_t)((d & 1) + (c & 2) + (b & 4) + (a & 8)); }", ["d", "c", "b", "a"],
                                lambda o, d, c, b, a: o.add(o.add(o.add(o.band(d, 1), o.band(c, 2)), o.band(b, 4)), o.band(a, 8)))), Int("z", u8)], tags="container computed", kinds="read write")

# --- vectors of records whose size varies
VS = Record("VS", [Int("len", u8), Str("txt", len_of("len")), Int("tail", u16)])
VO = Record("VO", [Int("f", u8), Maybe(Int("o", u16), flag("f", 1)), Int("y", u8, cons=lt(u8, 200))])
VU = Record("VU", [Int("k", u8), Union("u", ("match", "k", [1, 2, 9]), [Int("", u16), Int("", u8), Rec("", S8)])])
VV = Record("VV", [Int("c", u8), VecRec("in", S8, len_of("c")), Int("e", u8)])
VW = Record("VW", [Int("c", u8, cons=lt(u8, 3)), SmallVecRec("in", VO, len_of("c")), Int("e", u8)])
VB = Record("VB", [Int("len", u8), Vec("dat", u8, len_of("len")), Int("tail", u16)])
for _k, _r, _h in (("B", VB, "read write wr rw"), ("S", VS, "read rw"), ("O", VO, "read write wr rw"), ("U", VU, "read write wr rw"), ("V", VV, "write rw"), ("W", VW, "read rw"), ("Q", Q, "write rw")):
    add("vvr" + _k, [Int("num", u16, cons=lt(u16, 3)), SmallVecRec("recs", _r, len_of("num")), Int("z", u16)], tags="record container constraint" + (" union" if _k == "U" else " optional" if _k == "O" else ""), kinds=_h)
    CAT["vvr" + _k].quick = {("le", "vs"), ("be", "cs")} if _k in "BOU" else {("be", "vs")} if _k in "WQ" else {("le", "vs")} if _k == "V" else set()
# --- large fixed extents, many values
add("large", [Arr("a", u16, [40]), Arr("b", u8, [130]), FStr("s", 40), Arr("c", i64, [9, 3]), Arr("m", u32, [33], cons=user("[](const std::array<u32, 33>& v) { return v[32] != 7; }", lambda o, x: o.not_(o.eq(x.items[32], 7)))), Int("z", u8)], tags="buffer", kinds="read write wr")
CAT["large"].quick = {("le", "vs"), ("be", "cs")}
add("large2", [ArrRec("r", S8, 20), Arr("q", u32, [17], "carr"), FStr("t", 33, cstr=True), Int("z", u16)], tags="buffer record", kinds="read write wr")
add("manyv", [Int("a", u16, cons=any_of(u16, 900, 1, 77, 40000, 3, 12, 65535, 0, 256, 31, 500, 44)), Int("b", i8, cons=any_of(i8, 5, -128, 127, -1, 100, 99, -5, 3, 2)), Int("z", u8)], tags="constraint", kinds="read write")

# --- a later dependency names a field whose slot the write path ignores (see KNOWN-FINDINGS.txt)
add("stale1", [Int("n", u8), Vec("v", u8, len_of("n")), Maybe(Int("a", u32), below("n", 3)), Int("z", u8)], kinds="write wr", streams="vs", tags="optional", finding="C12 C04")
add("stale2", [Int("n", u8), Vec("v", u8, len_of("n")), Vec("w", u16, computed("[](auto a) { return (std::size_t)a + 1; }", ["n"], lambda o, a: o.add(a, 1))), Int("z", u8)],
    kinds="write wr", streams="vs", tags="computed", finding="C15 C04")
add("stale3", [Int("t", u8), Union("u", ("match", "t", [1, 2]), [Int("", u32), Int("", u16)]),
               Union("w", ("compute", Pred("[](auto t) -> int { return t; }", ["t"], lambda o, a: o.int_(o.add(a, 0))), "int", [1, 2]), [Int("", u8), Int("", u64)]), Int("z", u8)],
    kinds="write wr", streams="vs", tags="union", finding="C13 C04")
add("stale4", [Int("m", u16, cons=eq(u16, 0x77)), Maybe(Int("a", u32), is_val("m", 0x77)), Int("z", u8)], kinds="write wr", streams="vs", tags="optional", finding="C12 C04")

# costly ones: the quick tier takes the run-time stream little endian and one big-endian stream; the thorough tier all four
for _i, _n in enumerate("arrec3 vecarr2 cons_v opt6 arrec2 bound mix6 mix3 mix1 ids lenc vecs mix2 mix4 mix5 share3 rec3 ids3 bound2 uniH opt9 vecrec4 vecrec2 share uniE uni9 uniA uniK many longid args4".split()):
    CAT[_n].quick = {("le", "vs"), ("be", "cs" if _i % 2 else "vs")}
CAT["arrec3"].quick = {("le", "vs")}


def by_tags(*tags):
    out = []
    for e in CAT.values():
        if not tags or e.tags & set(tags):
            out.append(e)
    return out


def random_entries(seed, n):
    """schemas drawn at random (well-formed, no dependency on a slot the write path ignores), added to the catalogue as rnd<seed>_<k>"""
    import random
    import randschema as R
    rng, k, tries = random.Random(seed), 0, 0
    while k < n and tries < 50 * n:
        tries += 1
        rec = R.make(rng, f"rnd{seed}_{k}")
        if any(stale(x) for x in records_of(rec)):
            continue
        kinds = {f.kind for x in records_of(rec) for f in x.fields}
        fs = [g for x in records_of(rec) for f in x.fields for g in ([f.base] if f.kind == "opt" else f.alts if f.kind == "union" else [f])]
        tags = {"container"} if any(g.kind in ("vec", "vecrec", "svec") for g in fs) else set()
        tags |= {"computed"} if any(g.kind in ("vec", "vecrec", "svec") and g.size.kind != "len" for g in fs) else set()
        tags |= {"union", "conditional"} if "union" in kinds else set()
        tags |= {"optional", "conditional"} if "opt" in kinds else set()
        add(rec.name, rec, tags=" ".join(sorted(tags | {"random"})), kinds="read write wr")
        k += 1


def stale(rec):
    """a predicate, selector or computed length names a derived or frozen field of the same record"""
    slots = {f.id for f in rec.fields if getattr(f, "cons", None) is not None and f.cons.frozen is not None}
    flat = [g for f in rec.fields for g in ([f.base] if f.kind == "opt" else f.alts if f.kind == "union" else [f])]
    slots |= {g.size.ids[0] for g in flat if g.kind in ("vec", "vecrec", "svec") and g.size.kind == "len"}
    slots |= {f.sel[1] for f in rec.fields if f.kind == "union" and f.sel[0] == "match"}
    uses = [i for g in flat if g.kind in ("vec", "vecrec", "svec") and g.size.kind != "len" for i in g.size.ids]
    for f in rec.fields:
        if f.kind == "opt" and getattr(f.pred, "ids", None):
            uses += f.pred.ids
        if f.kind == "union" and f.sel[0] == "compute":
            uses += f.sel[1].ids
        if f.kind == "union" and f.sel[0] == "ladder":
            uses += [i for p in f.sel[1] for i in p.ids]
    return bool(slots & set(uses))

"""C18, C19: the rules the library enforces while the schema is being compiled.

The deciding step for these is the compiler's answer on /repo's current headers for an enumerated family of schemas
(bounded: the families are listed in the evidence); the constexpr functions behind the uniqueness rules are in addition
put under contract and proved for all contents (spec/metafun.py)."""
import itertools
import json
import os
import random
import re
import shutil
import subprocess
import tempfile
import time
from multiprocessing import Pool

import driver as D
import schema as S
import catalogue as K
from schema import *

HEAD = '''#include "pre.hpp"
using namespace s2s_literals;
using u8 = unsigned char; using u16 = unsigned short; using u32 = unsigned int; using u64 = unsigned long;
using i8 = signed char; using i16 = short; using i32 = int; using i64 = long;
'''
PRE = '''#include S2S_HEADER
#include <utility>
#include <sstream>
#include <type_traits>
'''


def lam(k, body="true", ret=""):
    return "[](" + ", ".join("auto" for _ in range(k)) + ")" + ret + " { return %s; }" % body


def F(kind, id):
    return {"int": lambda: Int(id, u16), "arr": lambda: Arr(id, u8, [2]), "fstr": lambda: FStr(id, 2), "rec": lambda: Rec(id, INNER), "eq": lambda: Int(id, u8, cons=eq(u8, 3)),
            "maybe": lambda: Maybe(Int(id, u32), Always()), "mag": lambda: FStr(id, 2, magic="ab")}[kind]()


INNER = Record("INNER", [Int("a", u8), Int("b", u16)])


class Case:
    """one schema; good: it follows the rules"""
    n = 0

    def __init__(self, fam, fields, good, note=""):
        Case.n += 1
        self.i, self.fam, self.good, self.note = Case.n, fam, good, note
        self.rec = Record("S%d" % Case.n, fields)

    def text(self):
        return S.Gen(self.rec).decls()


class Raw(Case):
    """one schema given as the C++ text of its fields"""

    def __init__(self, fam, fields, good, note="", more="", pre=""):
        Case.__init__(self, fam, [], good, note)
        self.t = pre + f"using {self.rec.name} = s2s::struct_field_list<{', '.join(fields)}>;\n" + more.replace("SELF", self.rec.name)

    def text(self):
        return self.t


def options(tier):
    """the trailing options of a field: at most one size, constraint and byte bound each, in any order, a bound only where the stream drives the allocation"""
    out = []
    t, n = 's2s::basic_field<"t", unsigned char, 1_B>', 's2s::basic_field<"n", unsigned, 4_B>'
    pre = ("struct any_1 { constexpr bool operator()(const auto&) const { return true; } };\nstruct any_2 { constexpr bool operator()(const auto&) const { return true; } };\n"
           'using inner_t = s2s::struct_field_list<s2s::basic_field<"x", unsigned, 4_B>>;\n')
    L, B, B2 = 's2s::len_from_field<"n">', "s2s::max_bytes<4096>", "s2s::max_bytes<8192>"
    dyn = [("vec_field", "unsigned short, "), ("vector_of_records", "inner_t, "), ("str_field", "")]
    tag = [("as_vec", "unsigned short, "), ("as_vec_of_records", "inner_t, "), ("as_string", "")]
    fix = [("fixed_array_field", "unsigned short, 3"), ("array_of_records", "inner_t, 2"), ("fixed_string_field", "4"), ("c_arr_field", "unsigned short, 3"), ("c_str_field", "4"), ("struct_field", "inner_t")]
    ftag = [("as_fixed_arr", "unsigned short, 3"), ("as_arr_of_records", "inner_t, 2"), ("as_fixed_string", "4"), ("as_struct", "inner_t")]

    def fld(kind, args, opts):
        return f's2s::{kind}<"x"' + "".join(", " + a for a in [args.rstrip(", ")] + opts if a) + ">"

    def alt(kind, args, opts):
        a = f"s2s::{kind}<" + ", ".join(x for x in [args.rstrip(", ")] + opts if x) + ">"
        return f's2s::variance<"x", s2s::type<s2s::match_field<"t">, s2s::type_switch<s2s::match_case<1, s2s::as_trivial<long, 8_B>>, s2s::match_case<2, {a}>>>>'

    def add(fam, x, good, note):
        out.append(Raw("options:" + fam, [t, n, x], good, note, pre=pre))

    for mk, kinds, fam in ((fld, dyn, "field"), (alt, tag, "alternative")):
        for k, a in kinds:
            for o in itertools.permutations([L, B, "any_1{}"]):
                add(fam, mk(k, a, list(o)), True, k)
            add(fam, mk(k, a, [B, L]), True, k)
            add(fam, mk(k, a, ["any_1{}", L]), True, k)
            add(fam, mk(k, a, [L]), True, k)
            for o in ([B], ["any_1{}"], ["4_B"]):
                add(fam, mk(k, a, o), False, k + ": no size that comes from a field")
            for dup in ([L, L], [B, B2, L], [L, B, B], [B, L, B2], ["any_1{}", L, "any_2{}"], [L, "any_1{}", "any_1{}"], [L, B, "any_1{}", "any_2{}"], [L, "any_1{}", B, L], [L, L, L], [L, B, B, B2]):
                add(fam, mk(k, a, dup), False, k + ": one kind of option twice")
            add(fam, mk(k, a, [L, "42"]), False, k + ": an option of no kind")
    for mk, kinds, fam in ((fld, fix, "field"), (alt, ftag, "alternative")):
        for k, a in kinds:
            add(fam, mk(k, a, []), True, k)
            add(fam, mk(k, a, ["any_1{}"]), True, k)
            for o in ([B], ["any_1{}", B], ["any_1{}", "any_2{}"], ["any_1{}", "any_1{}", "any_2{}"], ["42"]):
                add(fam, mk(k, a, o), False, k)
    for mk, k, fam in ((fld, "basic_field", "field"), (alt, "as_trivial", "alternative")):
        for T, w in (("unsigned short", 2), ("unsigned", 4), ("unsigned long", 8), ("signed char", 1), ("int", 4)):
            for q in range(1, 10):
                if q in (1, w - 1, w, w + 1, 9) and q:
                    add(fam, mk(k, T, [f"{q}_B"]), q <= w, f"{q} bytes of a {w}-byte integer")
                    add(fam, mk(k, T, ["any_1{}", f"{q}_B"]), q <= w, f"{q} bytes of a {w}-byte integer")
            for o in (["1_B", "1_B"], ["any_1{}", "1_B", "any_2{}"], ["1_B", B], ["any_1{}", "any_2{}"], ["1_B", "any_1{}", "1_B"], ["1_B", "42"]):
                add(fam, mk(k, T, o), False, f"{k} of {T}")
    v = 's2s::variance<"x", s2s::type<s2s::match_field<"t">, s2s::type_switch<s2s::match_case<1, s2s::as_trivial<long, 8_B>>>>%s>'
    for o, good in (([], True), (["any_1{}"], True), (["any_1{}", "any_2{}"], False), (["4_B"], False), ([B], False), (["any_1{}", B], False), (["42"], False)):
        add("union", v % "".join(", " + x for x in o), good, "options of a union")
    return out


def edges(tier):
    """schemas of one field, and schemas that fill the library's tables"""
    out = []
    P = lambda d: Pred(lam(len(d)), d, None)
    C = lambda d: Pred(lam(len(d), "1", " -> int"), d, None)
    for bad in ("x", "nope"):
        for f in (Vec("x", u8, len_of(bad)), Str("x", len_of(bad)), VecRec("x", INNER, len_of(bad)), Vec("x", u8, computed(lam(1, "std::size_t(1)"), [bad], None)), Maybe(Int("x", u16), P([bad])),
                  Union("x", ("match", bad, [1, 2]), [Int("", u16), Int("", u32)]), Union("x", ("compute", C([bad]), "int", [1, 2]), [Int("", u16), Int("", u32)]),
                  Union("x", ("ladder", [P([bad])]), [Int("", u16)])):
            out.append(Case("one-field", [f], False, f"depends on {bad!r}"))
    out.append(Case("one-field", [Int("x", u8)], True))
    out.append(Case("one-field", [Maybe(Int("x", u8), Always())], True))
    names = ["d%02d" % i for i in range(64)]
    pre = [Int(i, u8) for i in names]
    mk = {"maybe": lambda d: Maybe(Int("o", u16), P(d)), "size": lambda d: Vec("o", u8, computed(lam(len(d), "std::size_t(1)"), d, None)),
          "compute": lambda d: Union("o", ("compute", C(d), "int", [1, 2]), [Int("", u16), Int("", u32)]),
          "ladder": lambda d: Union("o", ("ladder", [P(d[:len(d) // 2]), P(d[len(d) // 2:])]), [Int("", u16), Int("", u32)])}
    for k, f in mk.items():
        out.append(Case("full:" + k, pre + [f(names)], True, "64 dependencies"))
        for pos in ((63,) if tier == "quick" else (0, 31, 32, 57, 63)):
            d = list(names)
            d[pos] = "late"
            out.append(Case("full:" + k, pre + [f(d), Int("late", u8)], False, f"dependency {pos} of 64"))
    arrs = [Arr("", u8, [k]) for k in range(1, 65)]
    U = lambda a, v: [Int("t", u16), Union("u", ("match", "t", v), a), Int("z", u8)]
    out.append(Case("full:alternatives", U(arrs, list(range(300, 364))), True, "64 alternatives"))
    out.append(Case("full:alternatives", U(arrs[:63] + [arrs[5]], list(range(64))), False, "types 5 = 63 of 64"))
    out.append(Case("full:alternatives", U(arrs, list(range(63)) + [62]), False, "values 62 = 63 of 64"))
    big = ["g%d" % i for i in range(160)]
    out.append(Case("full:fields", [Int(i, u8) for i in big], True, "160 fields"))
    out.append(Case("full:fields", [Int(i, u8) for i in big[:159] + [big[158]]], False, "ids 158 = 159 of 160"))
    return out


def ids(n, style):
    return {"abc": ["f%d" % i for i in range(n)], "prefix": ["x" * (i + 1) for i in range(n)], "suffix": ["y" * (n - i) for i in range(n)],
            "rev": ["f%d" % (n - i) for i in range(n)], "long": ["a_rather_long_field_name_%d" % i for i in range(n)], "case": ["k", "K", "kK", "Kk", "KK", "kk"][:n]}[style]


def deps_container(kind, id, srcs):
    """a container whose size names srcs"""
    one = len(srcs) == 1
    sz = len_of(srcs[0]) if one else computed(lam(len(srcs), "std::size_t(1)"), srcs, None)
    return {"vec": lambda: Vec(id, u16, sz), "str": lambda: Str(id, sz), "vecrec": lambda: VecRec(id, INNER, sz), "maybevec": lambda: Maybe(Vec(id, u8, sz), Always()),
            "alt": lambda: Union(id, ("match", "_t", [1, 2]), [Int("", u32), Vec("", u16, sz)]), "alt0": lambda: Union(id, ("match", "_t", [1, 2]), [Str("", sz), Int("", u32)]),
            "comp1": lambda: Vec(id, u16, computed(lam(1, "std::size_t(1)"), srcs, None))}[kind]()


def deps_pred(kind, id, srcs):
    p = Pred(lam(len(srcs)), srcs, None)
    t, u = Pred(lam(1), ["_t"], None), Pred(lam(1), ["_t"], None)
    return {"maybe": lambda: Maybe(Int(id, u16), p), "mayberec": lambda: Maybe(Rec(id, INNER), p), "mayvec": lambda: Maybe(Vec(id, u8, len_of("_t")), p),
            "compute": lambda: Union(id, ("compute", Pred(lam(len(srcs), "1", " -> int"), srcs, None), "int", [1, 2]), [Int("", u16), Int("", u32)]),
            "ladder0": lambda: Union(id, ("ladder", [p, t]), [Int("", u16), Int("", u32)]), "ladder1": lambda: Union(id, ("ladder", [t, p]), [Int("", u16), Int("", u32)]),
            "ladder2": lambda: Union(id, ("ladder", [t, u, p]), [Int("", u16), Int("", u32), Int("", u8)]),
            "match": lambda: Union(id, ("match", srcs[0], [1, 2]), [Int("", u16), Int("", u32)])}[kind]()


def families(tier, seed):
    out = []
    # ---- field ids
    for n, style in itertools.product((2, 3, 5), ("abc", "prefix", "suffix", "rev", "long", "case")):
        out.append(Case("ids", [Int(i, u8) for i in ids(n, style)], True, style))
    for n, style in ((2, "abc"), (3, "prefix"), (4, "rev"), (5, "suffix")):
        for a, b in itertools.combinations(range(n), 2):
            x = ids(n, style)
            x[b] = x[a]
            out.append(Case("ids", [Int(i, u8) for i in x], False, f"{a}={b} of {n}"))
    kinds = ["int", "arr", "fstr", "rec", "eq", "maybe", "mag"]
    for p, q in itertools.product(kinds, kinds):
        if tier == "thorough" or (kinds.index(p) + kinds.index(q)) % 3 == 0:
            out.append(Case("ids-kinds", [F(p, "q"), Int("m", u8), F(q, "q")], False, p + "," + q))
            out.append(Case("ids-kinds", [F(p, "q"), Int("m", u8), F(q, "qq")], True, p + "," + q))
    # ---- dependencies: the field using them sits between k earlier and j later fields
    src = {"int": lambda i: Int(i, u8)}

    def dep(fam, mk, names):
        """every position of the offender among the dependencies, with an offender that is later, missing or the field itself"""
        k = len(names)
        pre, post = [Int("_t", u8)] + [Int(i, u8) for i in names], [Int("p0", u8), Int("p1", u8)]
        out.append(Case(fam, pre + [mk("x", names)] + post, True))
        for pos in range(k):
            for bad in ("p0", "p1", "nope", "x", "", "_", names[pos] + names[pos][-1:]):
                if bad in ("_", "") and pos:
                    continue
                nn = list(names)
                nn[pos] = bad
                out.append(Case(fam, pre + [mk("x", nn)] + post, False, f"dependency {pos} of {k} is {bad!r}"))

    for c in ("vec", "str", "vecrec", "maybevec", "alt", "alt0", "comp1"):
        dep("size:" + c, lambda i, n, c=c: deps_container(c, i, n), ["s0"])
    for c in ("vec", "vecrec", "maybevec", "alt"):
        dep("size:" + c, lambda i, n, c=c: deps_container(c, i, n), ["s0", "s1"] if c != "vec" else ["s0", "s1", "s2"])
    for c in ("maybe", "mayberec", "mayvec", "compute", "ladder0", "ladder1", "ladder2", "match"):
        dep("pred:" + c, lambda i, n, c=c: deps_pred(c, i, n), ["s0"])
    for c in ("maybe", "compute", "ladder0", "ladder1"):
        dep("pred:" + c, lambda i, n, c=c: deps_pred(c, i, n), ["s0", "s1", "s2"])
    # offender in first and last position of the schema, and nested scopes
    out.append(Case("scope", [Int("n", u8), Rec("r", Record("N1", [Int("m", u8), Vec("v", u8, len_of("m"))]))], True))
    out.append(Case("scope", [Int("n", u8), Rec("r", Record("N2", [Int("m", u8), Vec("v", u8, len_of("n"))]))], False, "an inner length names an outer field"))
    out.append(Case("scope", [Rec("r", Record("N3", [Int("n", u8), Int("w", u8)])), Vec("v", u8, len_of("n"))], False, "an outer length names an inner field"))
    out.append(Case("scope", [Int("a", u8), Rec("r", INNER), Int("b", u8)], True, "inner and outer ids may coincide"))
    out.append(Case("scope", [Vec("v", u8, len_of("n")), Int("n", u8)], False, "first field"))
    out.append(Case("scope", [Int("n", u8), Int("m", u8), Vec("v", u8, len_of("m"))], True, "last field"))
    # ---- union alternatives and case values
    alts = [Int("", u8), Int("", u16), Int("", u32), Arr("", u16, [2]), FStr("", 3), Rec("", INNER)]
    mk = {"match": lambda a, v: Union("u", ("match", "t", v), a), "compute": lambda a, v: Union("u", ("compute", Pred(lam(1, "1", " -> int"), ["t"], None), "int", v), a),
          "ladder": lambda a, v: Union("u", ("ladder", [Pred(lam(1), ["t"], None) for _ in a]), a)}
    for sel, n in itertools.product(mk, (2, 3, 4)):
        out.append(Case("alts:" + sel, [Int("t", u8), mk[sel](alts[:n], list(range(1, n + 1)))], True))
        out.append(Case("alts:" + sel, [Int("t", u8), mk[sel](alts[6 - n:], [7 * i for i in range(n)])], True))
        for a, b in itertools.combinations(range(n), 2):
            x = alts[6 - n:] if n == 3 else alts[:n]
            x[b] = x[a]
            out.append(Case("alts:" + sel, [Int("t", u8), mk[sel](x, list(range(1, n + 1)))], False, f"types {a}={b} of {n}"))
            if sel != "ladder":
                v = list(range(1, n + 1)) if n != 3 else [300, 20, 1]
                v[b] = v[a]
                out.append(Case("values:" + sel, [Int("t", u16), mk[sel](alts[:n], v)], False, f"values {a}={b} of {n}"))
    out.append(Case("alts:narrow", [Int("t", u8), mk["match"]([Int("", u32), Int("", u32, 3)], [1, 2])], False, "same type at two widths"))
    out.append(Case("values:match", [Int("t", i16), mk["match"](alts[:3], [-1, 0, 1])], True))
    out.append(Case("values:match", [Int("t", i16), mk["match"](alts[:3], [-1, 0, -1])], False))
    out.append(Case("values:match", [Int("t", u64), mk["match"](alts[:2], [1, 1 + (1 << 32)])], True, "equal in the low 32 bits"))
    out.append(Case("values:match", [Int("t", u16), mk["match"](alts[:2], [1, 257])], True, "equal in the low 8 bits"))
    # ---- many: dependencies, branches, alternatives, fields; long ids that differ late
    names = ["n%d" % i for i in range(10)]
    pre = [Int(i, u8) for i in names]
    br = lambda ids: Pred(lam(len(ids)), ids, None)
    allt = [Int("", t) for t in (u8, u16, u32, u64, i8, i16, i32, i64)]
    groups = [["n0", "n1", "n2"], ["n3", "n4", "n5"], ["n6", "n7"], ["n8", "n9", "n0"]]
    lad = lambda g: Union("u", ("ladder", [br(x) for x in g]), allt[:len(g)])
    out.append(Case("many:ladder", pre + [lad(groups)], True))
    out.append(Case("many:ladder", pre + [lad([[n] for n in names[:8]])], True))
    for a, b in ((0, 2), (1, 1), (2, 0), (3, 0), (3, 1), (3, 2)):
        g = [list(x) for x in groups]
        g[a][b] = "late"
        out.append(Case("many:ladder", pre + [lad(g), Int("late", u8)], False, f"branch {a}, dependency {b}"))
        out.append(Case("many:ladder", pre + [Int("late", u8), lad(g)], True, f"branch {a}, dependency {b}"))
    for b in range(8):
        g = [[n] for n in names[:8]]
        g[b] = ["late"]
        out.append(Case("many:ladder", pre + [lad(g), Int("late", u8)], False, f"branch {b} of 8"))
    for k in (5, 8):
        for pos in (0, k // 2, k - 1):
            d = names[:k]
            d[pos] = "late"
            for what, mkf in (("maybe", lambda d: Maybe(Int("o", u16), br(d))), ("size", lambda d: Vec("o", u8, computed(lam(len(d), "std::size_t(1)"), d, None))),
                              ("compute", lambda d: Union("o", ("compute", Pred(lam(len(d), "1", " -> int"), d, None), "int", [1, 2]), allt[:2]))):
                out.append(Case("many:" + what, pre + [mkf(d), Int("late", u8)], False, f"dependency {pos} of {k}"))
                if pos == 0:
                    out.append(Case("many:" + what, pre + [Int("late", u8), mkf(d)], True, f"{k} dependencies"))
    alts_len = [Int("", u8), Vec("", u16, len_of("n0")), Vec("", u32, len_of("n1")), Str("", len_of("n2")), Vec("", u8, computed(lam(2, "std::size_t(1)"), ["n3", "n4"], None)), VecRec("", INNER, len_of("n5"))]
    out.append(Case("many:alternatives", pre + [Union("u", ("match", "n9", list(range(6))), alts_len)], True))
    for k, n in enumerate(["n0", "n1", "n2", "n4", "n5"]):
        fs = [f for f in pre if f.id != n] + [Union("u", ("match", "n9", list(range(6))), alts_len), Int(n, u8)]
        out.append(Case("many:alternatives", fs, False, f"{n} comes after the union"))
    for sel in mk:
        out.append(Case("many:alternatives", [Int("t", u8), mk[sel](allt, list(range(8)))], True))
        for a, b in ((0, 7), (3, 6), (6, 7), (0, 1), (2, 5)):
            x = list(allt)
            x[b] = x[a]
            out.append(Case("many:alternatives", [Int("t", u8), mk[sel](x, list(range(8)))], False, f"types {a}={b} of 8"))
            if sel != "ladder":
                v = [9, 200, 3, 44, 5, 60, 7, 1]
                v[b] = v[a]
                out.append(Case("many:values", [Int("t", u16), mk[sel](allt, v)], False, f"values {a}={b} of 8"))
    out.append(Case("many:values", [Int("t", u16), mk["match"](allt, [9, 200, 3, 44, 5, 60, 7, 1])], True))
    for n in (17, 40):
        ns = ["fld%d" % i for i in range(n)]
        out.append(Case("many:fields", [Int(i, u8) for i in ns], True))
        for a, b in ((0, n - 1), (n - 2, n - 1), (7, 8), (0, 1), (3, 16)):
            x = list(ns)
            x[b] = x[a]
            out.append(Case("many:fields", [Int(i, u8) for i in x], False, f"{a}={b} of {n}"))
        out.append(Case("many:fields", [Int(i, u8) for i in ns] + [Vec("v", u8, len_of(ns[0])), Vec("w", u8, len_of(ns[-1]))], True))
        out.append(Case("many:fields", [Int(i, u8) for i in ns[:-1]] + [Vec("v", u8, len_of(ns[-1])), Int(ns[-1], u8)], False, "length comes last"))
    lg = ["a_rather_long_field_name_%d" % i for i in range(4)]
    out.append(Case("long", [Int(lg[0], u8), Int(lg[1], u8), Vec(lg[2], u8, len_of(lg[0])), Maybe(Int(lg[3], u8), br([lg[1]]))], True))
    out.append(Case("long", [Int(lg[0], u8), Vec(lg[2], u8, len_of(lg[1])), Int(lg[1], u8)], False))
    out.append(Case("long", [Int(lg[0], u8), Vec(lg[2], u8, len_of(lg[3]))], False))
    out.append(Case("long", [Int(lg[0], u8), Int(lg[0][:-1], u8), Int(lg[0] + "0", u8)], True))
    out.append(Case("long", [Int(lg[0], u8), Int(lg[1], u8), Int(lg[0], u16)], False))
    out.append(Case("long", [Int(lg[0], u8), Maybe(Int(lg[1], u8), br([lg[2]])), Int(lg[2], u8)], False))
    out.append(Case("long", [Int(lg[0], u8), Union(lg[1], ("match", lg[2], [1, 2]), allt[:2]), Int(lg[2], u8)], False))
    out += edges(tier) + options(tier)
    # ---- larger schemas
    rng = random.Random(seed)
    import randschema as R
    for k in range(24 if tier == "quick" else 120):
        r = R.make(rng, f"R{k}")
        c = Case("random", r.fields, True)
        out.append(c)
        b = R.spoil(rng, r)
        if b:
            out.append(Case("random", b[0], False, b[1]))
    return out


GXX = "/usr/bin/g++-14"


def compile_text(a):
    """-> (ok, stderr)"""
    work, name, text = a
    p = os.path.join(work, name + ".cpp")
    open(p, "w").write(HEAD + text)
    try:
        r = subprocess.run([GXX, "-std=c++23", "-w", "-fsyntax-only", "-fmax-errors=3", "-I", work, p], capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    os.unlink(p)
    if r.returncode and re.search(r"internal compiler error|virtual memory exhausted|Killed", r.stderr):
        return None, r.stderr
    return r.returncode == 0, r.stderr


def uses(name):
    return (f"void use_{name}(std::stringstream& ss, {name}& s) {{ (void)s2s::struct_cast_le<{name}>(ss); (void)s2s::struct_cast_be<{name}>(ss); "
            f"(void)s2s::stream_cast_le<{name}>(ss, s); (void)s2s::stream_cast_be<{name}>(ss, s); }}")


def pch(work, header):
    open(os.path.join(work, "pre.hpp"), "w").write(PRE.replace("S2S_HEADER", f'"{header}"'))
    r = subprocess.run([GXX, "-std=c++23", "-w", "-x", "c++-header", os.path.join(work, "pre.hpp"), "-o", os.path.join(work, "pre.hpp.gch")], capture_output=True, text=True, timeout=600)
    return r.returncode == 0, r.stderr


def one18(a):
    work, i, text = a
    ok, err = compile_text((work, f"c{i}", text))
    return i, ok, err[:3000]


def prog18(c):
    """rules broken: already the type is refused; rules kept: all four casts compile"""
    return c.text() + "\n" + (uses(c.rec.name) if c.good else f"{c.rec.name} s{{}};\n")


def one_text(a):
    return a[1], compile_text(a)


def c18(tier, work, hdrs, ncpu):
    viol, notes, n, samples = [], [], 0, []
    fams = {}
    for hn, hp in hdrs:
        w = os.path.join(work, hn)
        os.makedirs(w)
        ok, err = pch(w, hp)
        if not ok:
            viol.append(dict(schema="(none)", header=hn, label="the header does not compile", detail=err[-3000:], case="", confirmed=True))
            continue
        cases = families(tier, D.SEED)
        seen, uniq = set(), []
        for c in cases:
            key = re.sub(r"\bS\d+\b|\bS\d+__f", "S", c.text()), c.good
            if key not in seen:
                seen.add(key)
                uniq.append(c)
        by = {c.i: c for c in uniq}
        with Pool(ncpu) as pool:
            for i, ok, err in pool.imap_unordered(one18, [(w, c.i, prog18(c)) for c in uniq], chunksize=1):
                c = by[i]
                if ok is None:
                    notes.append(f"{c.fam}: no answer from the compiler: {err[:200]}")
                    continue
                n += 1
                d = fams.setdefault(c.fam, [0, 0])
                d[0 if c.good else 1] += 1
                if len(samples) < 6 and i % 37 == 0:
                    samples.append(dict(family=c.fam, follows_the_rules=c.good, accepted=ok, note=c.note, schema=c.text()))
                if ok != c.good:
                    lab = "a schema that follows the rules is rejected" if c.good else "a schema that breaks a rule is accepted"
                    viol.append(dict(schema=c.fam, header=hn, label=lab, detail=(c.note + "\n" + err[-1500:]).strip(), case=HEAD + prog18(c), confirmed=True))
            if not viol:
                v, nt = functions18(tier, w, hn, hp, pool)
                viol += v
                notes += nt
    return viol, notes, n, samples, fams


PROVED = {}


def functions18(tier, w, hn, hp, pool):
    """the contracts on the constexpr functions, and what their failures mean for schemas"""
    import metafun as M
    viol, notes = [], []
    jobs = [(i, tier, hp, w, D.CLANG, D.IRFLAGS, 300) for i in range(len(M.contracts(tier)))][::-1]
    for name, fn, status, detail, obl, disch, wall in pool.imap_unordered(M.prove_one, jobs, chunksize=1):
        e = PROVED.setdefault(fn, dict(contracts=0, proved=0, obligations=0, discharged=0, solver_and_vcgen_s=0.0, not_decided=[]))
        e["contracts"] += 1
        e["solver_and_vcgen_s"] = round(e["solver_and_vcgen_s"] + wall, 1)
        if status == "proved":
            e["proved"] += 1
            e["obligations"] += obl
            e["discharged"] += disch
        elif status == "n/a":
            e["not_decided"].append(f"{name} [{hn}]: {detail}"[:300])
        else:
            # a failed contract is a violation when a schema built from its counterexample is judged wrongly; otherwise the function's
            # part in the rules has changed and the rule stays decided by the schemas above
            e["not_decided"].append(f"{name} [{hn}]: fails: {detail}"[:300])
            for what, model, sch in detail:
                if sch is None:
                    continue
                ok, err = compile_text((w, "cx", sch[0]))
                if ok is not None and ok != sch[1]:
                    lab = "a schema that follows the rules is rejected" if sch[1] else "a schema that breaks a rule is accepted"
                    viol.append(dict(schema=name, header=hn, label=lab, detail=f"{what}: {model}", case=HEAD + sch[0], confirmed=True))
                    break
            else:
                notes.append(f"{name}: contract not met by this tree, no schema shows it: {detail}"[:400])
    return viol, notes


# ------------------------------------------------------------------------------------------------ C19
def expected(rec, f):
    """hidden | readonly | open, from the statement of the property"""
    top = rec.fields
    if any(p.kind in ("vec", "vecrec", "svec") and p.size.kind == "len" and p.size.ids[0] == f.id for p in top):
        return "hidden"
    if any(p.kind == "union" and p.sel[0] == "match" and p.sel[1] == f.id for p in top):
        return "readonly"
    if f.kind in ("int", "arr") and f.cons is not None and f.cons.frozen is not None:
        return "readonly"
    return "open"


def acc19(rec, only=None):
    """assertions about every accessor expression of one record"""
    R = rec.name
    out = []
    for k, f in enumerate(rec.fields):
        if only is not None and k != only:
            continue
        e = expected(rec, f)
        T = f"std::remove_cvref_t<decltype(static_cast<{R}__f{k}&>(std::declval<{R}&>()).value)>"
        out.append(f'static_assert(!can_reach<{R}&, s2s::field_accessor<"{f.id}">> == {"true" if e == "hidden" else "false"}, "{R} {f.id} reach: {e}");')
        out.append(f'static_assert(!can_reach<const {R}&, s2s::field_accessor<"{f.id}">> == {"true" if e == "hidden" else "false"}, "{R} {f.id} reach through const: {e}");')
        if e != "hidden":
            out.append(f'static_assert(can_assign<{R}&, s2s::field_accessor<"{f.id}">> == {"true" if e == "open" else "false"}, "{R} {f.id} assign: {e}");')
            out.append(f'static_assert(!can_assign<const {R}&, s2s::field_accessor<"{f.id}">>, "{R} {f.id} assign through const");')
            q = "" if e == "open" else "const "
            out.append(f'static_assert(std::is_same_v<decltype(std::declval<{R}&>()["{f.id}"_f]), {q}{T}&>, "{R} {f.id} type: {e}");')
    for bad in ("nope__", rec.fields[0].id + "_", rec.fields[-1].id[:-1] + "~"):
        if only is None and bad not in [f.id for f in rec.fields]:
            out.append(f'static_assert(!can_reach<{R}&, s2s::field_accessor<"{bad}">> && !can_reach<const {R}&, s2s::field_accessor<"{bad}">>, "{R} unknown id {bad}");')
    return "\n".join(out)


ACC = '''
template <typename S, typename A> concept can_reach = requires(S s) { s[A{}]; };
template <typename S, typename A> concept can_assign = requires(S s) { s[A{}]; } && !std::is_const_v<std::remove_reference_t<decltype(std::declval<S>()[A{}])>>
  && std::is_lvalue_reference_v<decltype(std::declval<S>()[A{}])>;
'''


def extra19():
    out = []
    two = ("match", "d", [1, 2])
    A = [Int("", u16), Int("", u32)]
    mk = lambda *f: out.append(Record("X%d" % len(out), list(f)))
    mk(Int("d", u8), Vec("v", u8, len_of("d")), Union("u", two, A))
    mk(Int("d", u8), Union("u", two, A), Vec("v", u8, len_of("d")))
    mk(Int("d", u8, cons=eq(u8, 2)), Union("u", two, A))
    mk(Int("d", u8, cons=eq(u8, 2)), Vec("v", u8, len_of("d")))
    mk(Int("d", u8, cons=neq(u8, 2)), Int("e", u8, cons=any_of(u8, 2)), Int("f", u8, cons=lte(u8, 0)), Int("g", u16, 1, cons=eq(u16, 3)))
    mk(Int("d", u8), Maybe(Vec("v", u8, len_of("d")), Always()))
    mk(Int("d", u8), Int("n", u8), Union("u", two, [Vec("", u8, len_of("n")), Int("", u8)]))
    mk(Int("d", u8), Vec("v", u8, computed(lam(1, "std::size_t(1)"), ["d"], None)))
    mk(Int("d", u8), Union("u", ("compute", Pred(lam(1, "1", " -> int"), ["d"], None), "int", [1, 2]), A))
    mk(Int("d", u8), Union("u", ("ladder", [Pred(lam(1), ["d"], None), Pred(lam(1), ["d"], None)]), A))
    mk(Int("d", u8), Maybe(Int("o", u16, cons=eq(u16, 5)), Pred(lam(1), ["d"], None)))
    mk(Int("a", u8), Int("b", u8), Int("c", u8), VecRec("v", INNER, len_of("b")), Str("s", len_of("c")), Union("u", ("match", "a", [1, 2]), A))
    mk(Int("n", u8), Rec("r", Record("XN", [Int("n", u8), Vec("v", u8, len_of("n")), Int("k", u8)])), Int("k", u8))
    mk(Int("n", u8), Int("nn", u8), Vec("v", u8, len_of("nn")), Int("nnn", u8))
    mk(Int("aaaa", u8), Int("aaa", u8), Union("u", ("match", "aaa", [1, 2]), A), Int("aa", u8))
    mk(Arr("q", u8, [2], cons=eq_bytes("std::array<u8, 2>{1, 2}", b"\1\2")), FStr("s", 2, magic="ab"), FStr("t", 2, cons=eq_bytes('s2s::fixed_string("xy")', b"xy\0")), Arr("w", u16, [2]),
       FStr("c", 3, cstr=True), Arr("m", u16, [2, 2], "carr"))
    mk(Int("n", u8), Vec("v", u16, len_of("n"), cons=user("[](const std::vector<u16>& v) { return v.size() < 9; }", None)), Vec("w", u16, len_of("n")), Str("s", len_of("n")))
    mk(*([Int("l%d" % i, u8) for i in range(6)] + [Vec("v%d" % i, u8, len_of("l%d" % i)) for i in (5, 0, 3)] + [Union("u%d" % i, ("match", "l%d" % i, [1, 2]), A) for i in (4, 1)]))
    return out


def c19(tier, work, hdrs, ncpu):
    viol, notes, n, samples = [], [], 0, []
    fams = {}
    for hn, hp in hdrs:
        w = os.path.join(work, hn)
        os.makedirs(w)
        ok, err = pch(w, hp)
        if not ok:
            viol.append(dict(schema="(none)", header=hn, label="the header does not compile", detail=err[-3000:], case="", confirmed=True))
            continue
        recs = [("catalogue", e.rec) for e in K.CAT.values()] + [("roles", r) for r in extra19()]
        rng = random.Random(D.SEED + 1)
        import randschema as R
        recs += [("random", R.make(rng, f"R{k}")) for k in range(30 if tier == "quick" else 200)]
        with Pool(ncpu) as pool:
            jobs = [(w, r.name, S.Gen(r).decls() + ACC + "\n".join(acc19(x) for x in S.records_of(r))) for _, r in recs]
            res = dict(pool.imap_unordered(one_text, jobs, chunksize=1))
            jt = {j[1]: j[2] for j in jobs}
            for fam, r in recs:
                ok, err = res[r.name]
                if ok is None:
                    notes.append(f"{r.name}: no answer from the compiler: {err[:200]}")
                    continue
                cnt = sum(len(x.fields) for x in S.records_of(r))
                n += cnt
                d = fams.setdefault(fam, {"records": 0, "hidden": 0, "readonly": 0, "open": 0})
                for x in S.records_of(r):
                    d["records"] += 1
                    for f in x.fields:
                        d[expected(x, f)] += 1
                if len(samples) < 4 and fam == "roles":
                    samples.append(dict(schema=S.Gen(r).decls(), expected={f.id: expected(r, f) for f in r.fields}, agreed=ok))
                if ok:
                    continue
                # an accessor that is an error, not a rejected overload, makes the questions themselves fail: ask them one by one
                bare = compile_text((w, r.name + "_d", S.Gen(r).decls() + "\n" + f"{r.name} s{{}};"))
                if bare[0] is False:
                    notes.append(f"{r.name}: the schema itself no longer compiles (decided by C18)")
                    continue
                bad = one_by_one(w, r)
                for msg, text in bad[:2]:
                    viol.append(dict(schema=r.name, header=hn, label=msg, detail=err[-1500:], case=HEAD + text, confirmed=True))
                if not bad:
                    notes.append(f"{r.name}: accessors are hard errors rather than rejected overloads; asked one by one, all as expected")
    return viol, notes, n, samples, fams


def one_by_one(w, r):
    """each accessor expression as a program of its own"""
    bad = []
    for x in S.records_of(r):
        for k, f in enumerate(x.fields):
            e = expected(x, f)
            d = S.Gen(r).decls()
            R = x.name
            progs = [("read through const", f'void g(const {R}& s) {{ (void)s["{f.id}"_f]; }}', e != "hidden"), ("read", f'void g({R}& s) {{ (void)s["{f.id}"_f]; }}', e != "hidden"),
                     ("assign", f'void g({R}& s) {{ auto& q = s["{f.id}"_f]; using T = std::remove_reference_t<decltype(q)>; static_assert(!std::is_const_v<T>); }}', e == "open")]
            for what, p, exp in progs:
                ok, err = compile_text((w, f"o{R}", d + "\n" + p))
                if ok is not None and ok != exp:
                    bad.append((f"{what} of field {f.id} ({'should be' if exp else 'should not be'} possible)", d + "\n" + p))
    return bad


def run(prop, tier):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="s2sv_")
    outdir = os.path.join(D.ROOT, "out", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    ncpu = int(os.environ.get("S2S_JOBS", "8"))
    try:
        hdrs = D.headers(work)
        viol, notes, n, samples, fams = (c18 if prop == "C18" else c19)(tier, work, hdrs, ncpu)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    rule = ("schemas are enumerated per rule (every position of the offender, every kind of field that can carry the dependency, each with a well-formed twin) plus random schemas from VERIF_SEED and the same "
            "schema with one rule broken; each is compiled on its own against the current headers; distinct by normalised text" if prop == "C18" else
            "every field of every record of the catalogue, of the role schemas and of random schemas from VERIF_SEED, asked through a mutable and a const struct: reachable, type, assignable; unknown ids too")
    cov = dict(evaluations=n, distinct_nontrivial=n, rule=rule, samples=samples, families=fams, headers=[h for h, _ in hdrs], notes=notes[:30],
               explanation="bounded: decided by the compiler on the enumerated schemas, not for all schemas; the rules are carried by types, not by the control flow a program verifier sees")
    if prop == "C18":
        cov["functions_under_contract"] = PROVED
        cov["functions_note"] = "constexpr functions that carry the rules, proved for every content at the listed numbers of elements by the engine (z3 back end) on their LLVM IR; this does not lift the check above bounded"
    ev = dict(property=prop, tier=tier, seed=D.SEED, level="exploration", coverage=cov, assumptions=["g++-14 -std=c++23 decides well-formedness", "bounded to the enumerated families"],
              wall_s=round(time.time() - t0, 1), violations=len(viol))
    if n == 0 and not viol:
        ev["level"] = "other"
    os.makedirs(os.path.join(D.ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(D.ROOT, "evidence", prop + ".json"), "w"), indent=1)
    if viol:
        return D.say(prop, viol, outdir)
    print(f"{prop}: held on {n} cases, {round(time.time() - t0, 1)} s")
    return 0

"""Contracts on the constexpr functions that carry the rules of C18, proved on their LLVM IR by the same engine as the casts.

A function template instance has a fixed number of elements, so "for all inputs" means: for every content of the arguments
at that number of elements.  Each contract is instantiated for the numbers listed in SIZES.  The functions are called by the
names they have in the library; when a name no longer exists, its contract is not applicable any more and is reported as
such - the rule itself is still decided on the schemas of static_rules.py."""
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "..", "engine"), HERE]
import z3
from ir import Module
import execu as X
from sym import *

HEAD = '''#include S2S_HEADER
#include <array>
#include <string_view>
using u64 = unsigned long;
extern "C" {
unsigned long __vf_sym(unsigned, unsigned);
void __vf_obs(unsigned, unsigned long);
}
'''


def syms(n, base=1):
    return [z3.BitVec("sym%d" % (base + i), 64) for i in range(n)]


def distinct(xs):
    return z3.And([xs[i] != xs[j] for i in range(len(xs)) for j in range(i)]) if len(xs) > 1 else z3.BoolVal(True)


def call_syms(n, base=1):
    return ", ".join(f"u64(__vf_sym({base + i}, 64))" for i in range(n))


class Contract:
    """schema: from a counterexample, the schema that shows it and whether that schema follows the rules"""
    def __init__(self, fn, n, body, post, rejects=None, schema=None):
        self.fn, self.n, self.body, self.post, self.rejects, self.schema = fn, n, body, post, rejects, schema
        self.name = f"{fn}<{n}>"


def fields_of(*fs):
    return "using P = s2s::struct_field_list<" + ", ".join(fs) + ">; P p{};"


def switch_schema(values, types):
    """a union with these case values over alternatives of these sizes"""
    cases = ", ".join(f"s2s::match_case<{v}ul, s2s::as_fixed_string<{t}>>" for v, t in zip(values, types))
    return fields_of('s2s::basic_field<"t", u64, 8_B>', f's2s::variance<"u", s2s::type<s2s::match_field<"t">, s2s::type_switch<{cases}>>>')


def lit(cs):
    return '"' + "".join('\\%03o' % c for c in cs) + '"'


def show_values(m, n):
    vs = [m.get(f"sym{1 + i}", 0) for i in range(n)]
    return switch_schema(vs, range(2, 2 + n)), len(set(vs)) == n


def show_types(m, n):
    vs = [m.get(f"sym{1 + i}", 0) for i in range(n)]
    return switch_schema(range(n), [2 + vs.index(v) for v in vs]), len(set(vs)) == n


def show_ids(m, tags, lens):
    ids = [tuple(m.get(f"sym{t + k}", 0) for k in range(n)) for t, n in zip(tags, lens)]
    if any(0 in i for i in ids):
        return None
    return fields_of(*(f"s2s::basic_field<{lit(i)}, u8, 1_B>" for i in ids)), len(set(ids)) == len(ids)


def show_deps(m, tags, lens, i, names):
    ids = [tuple(m.get(f"sym{t + k}", 0) for k in range(n)) for t, n in zip(tags, lens)]
    if not ids or any(0 in x for x in ids):
        return None
    pred = "s2s::parse_if<[](" + ", ".join("auto" for _ in ids) + ") { return true; }, " + ", ".join(lit(x) for x in ids) + ">"
    fs = [f's2s::basic_field<"{nm}", u8, 1_B>' for nm in names]
    fs[i] = f"s2s::maybe<{fs[i]}, {pred}>"
    return fields_of(*fs), all(x in [tuple(map(ord, nm)) for nm in names[:i]] for x in ids)


def first_index(xs, t):
    """index of the first element equal to t, or their number"""
    e = z3.BitVecVal(len(xs), 64)
    for i in reversed(range(len(xs))):
        e = z3.If(xs[i] == t, z3.BitVecVal(i, 64), e)
    return e


def chars(tag, n):
    return [z3.BitVec("sym%d" % (tag + k), 8) for k in range(n)]


def text_of(tag, n):
    """C++ statements defining a string of n unconstrained characters"""
    return f"char s{tag}[{n + 1}]{{}}; " + " ".join(f"s{tag}[{k}] = (char)__vf_sym({tag + k}, 8);" for k in range(n))


def same(a, b):
    return z3.BoolVal(False) if len(a) != len(b) else z3.And([x == y for x, y in zip(a, b)]) if a else z3.BoolVal(True)


def contracts(tier):
    out = []
    big = tier == "thorough"
    for fn, t in (("has_unique_match_values", "std::size_t"), ("has_unique_field_choices", "meta::type_identifier")):
        for n in range(1, 7 if big else 6):
            xs = syms(n)
            out.append(Contract(fn, n, f"s2s::static_vector<{t}, {n}> v({call_syms(n)}); __vf_obs(1, s2s::{fn}(v));", lambda o, xs=xs: [("true exactly when the elements are pairwise distinct", (o[1][0] != 0) == distinct(xs))],
                                schema=lambda m, n=n, f=show_values if "values" in fn else show_types: f(m, n)))
    for n in (1, 3, 5):
        xs = syms(n)
        t = z3.BitVec("sym99", 64)
        out.append(Contract("find_index", n, f"s2s::static_vector<u64, {n}> v({call_syms(n)}); u64 t = __vf_sym(99, 64); __vf_obs(1, find_index(v, t));",
                            lambda o, xs=xs, t=t: [("the first matching index, or the size", o[1][0] == first_index(xs, t))]))
        ys = syms(n, 50)
        out.append(Contract("equal_ranges", n, f"s2s::static_vector<u64, {n}> v({call_syms(n)}); s2s::static_vector<u64, {n}> w({call_syms(n, 50)}); __vf_obs(1, equal_ranges(v, w));",
                            lambda o, xs=xs, ys=ys: [("true exactly when all elements agree", (o[1][0] != 0) == z3.And([a == b for a, b in zip(xs, ys)]))]))
    for n in (2, 3, 4) + ((5,) if big else ()):
        xs = syms(n)

        def post_set(o, xs=xs, n=n):
            k, e = o[1][0], o[2]
            m = len(e)
            return [("size", k == m), ("every element of the list is in the set", z3.And([z3.Or([x == y for y in e]) for x in xs])),
                    ("every element of the set is in the list", z3.And([z3.Or([x == y for x in xs]) for y in e])), ("no element twice", distinct(e))]
        out.append(Contract("static_set", n, f"const s2s::static_vector<u64, {n}> v({call_syms(n)}); s2s::static_set<u64, {n}> q(v); __vf_obs(1, q.size()); for(auto x: q) __vf_obs(2, x);", post_set))

        def post_sort(o, xs=xs, n=n):
            e = o[2]
            if len(e) != n:
                return [("size", z3.BoolVal(False))]
            cnt = lambda L, x: z3.Sum([z3.If(y == x, 1, 0) for y in L])
            return [("ascending", z3.And([z3.ULE(e[i], e[i + 1]) for i in range(n - 1)])), ("a permutation", z3.And([cnt(e, x) == cnt(xs, x) for x in xs]))]
        out.append(Contract("sort_ranges", n, f"s2s::static_vector<u64, {n}> v({call_syms(n)}); sort_ranges(v, [](auto a, auto b) {{ return a < b; }}); for(auto x: v) __vf_obs(2, x);", post_sort))
    for n in (1, 2, 3):
        ks, vs, t = syms(n), syms(n, 50), z3.BitVec("sym99", 64)
        ent = ", ".join("{u64(__vf_sym(%d, 64)), u64(__vf_sym(%d, 64))}" % (1 + i, 50 + i) for i in range(n))

        def post_map(o, ks=ks, vs=vs, t=t):
            hit = z3.Or([k == t for k in ks])
            val = vs[0]
            for k, v in zip(ks, vs):
                val = z3.If(k == t, v, val)
            r = [("an entry is found exactly when its key was given", (o[1][0] != 0) == hit)]
            if 2 in o:
                r.append(("its value is the one given last", z3.Implies(hit, o[2][0] == val)))
            return r
        out.append(Contract("static_map", n, f"s2s::static_map<u64, u64, 4> m({{{ent}}}); auto r = m[u64(__vf_sym(99, 64))]; __vf_obs(1, r.has_value()); if(r) __vf_obs(2, *r);", post_map))
    # strings: the contents are unconstrained, the lengths enumerated
    for lens in ((1,), (1, 1), (1, 2), (2, 2), (0, 1), (1, 1, 1), (2, 1, 2), (3, 3), (2, 2, 2)):
        tags = [100 + 10 * i for i in range(len(lens))]
        cs = [chars(t, n) for t, n in zip(tags, lens)]
        body = " ".join(text_of(t, n) for t, n in zip(tags, lens)) + f" std::array<std::string_view, {len(lens)}> a{{" + ", ".join(f"std::string_view{{s{t}, {n}}}" for t, n in zip(tags, lens)) + "}; __vf_obs(1, s2s::are_field_ids_unique(a));"
        out.append(Contract("are_field_ids_unique", "lengths " + ",".join(map(str, lens)), body,
                            lambda o, cs=cs: [("true exactly when the ids are pairwise different", (o[1][0] != 0) == z3.Not(z3.Or([same(cs[i], cs[j]) for i in range(len(cs)) for j in range(i)] + [z3.BoolVal(False)])))],
                            schema=lambda m, tags=tags, lens=lens: show_ids(m, tags, lens)))
    # the field at position i of three depends on the names given: accepted exactly when each of them names an earlier field
    names = ["a", "bb", "c"]
    for i in range(3):
        for lens in ((), (1,), (2,), (1, 1), (1, 2), (0,), (2, 2), (1, 1, 1)) if big else [((1,),), ((2,),), ((1, 2),)][i]:
            tags = [100 + 10 * k for k in range(len(lens))]
            cs = [chars(t, n) for t, n in zip(tags, lens)]
            ft = ", ".join('{std::string_view{"%s"}, field_type_info(%d, %d)}' % (nm, 7 + k, k) for k, nm in enumerate(names))
            dv = "s2s::static_vector<std::string_view, s2s::max_dep_count_per_struct>"
            dt = ", ".join('{std::string_view{"%s"}, %s(%s)}' % (nm, dv, ", ".join(f"std::string_view{{s{t}, {n}}}" for t, n in zip(tags, lens)) if k == i else "") for k, nm in enumerate(names))
            body = " ".join(text_of(t, n) for t, n in zip(tags, lens)) + f" s2s::field_table_t ft({{{ft}}}); s2s::dependency_table_t dt({{{dt}}}); __vf_obs(1, s2s::is_dependencies_resolved(ft, dt));"
            ok = z3.And([z3.Or([same(c, [z3.BitVecVal(ord(x), 8) for x in nm]) for nm in names[:i]] + [z3.BoolVal(False)]) for c in cs] + [z3.BoolVal(True)])
            out.append(Contract("is_dependencies_resolved", f"field {i} of 3, lengths {','.join(map(str, lens)) or 'none'}", body,
                                lambda o, ok=ok: [("true exactly when every name is an earlier field", (o[1][0] != 0) == ok)], rejects=z3.Not(ok),
                                schema=lambda m, tags=tags, lens=lens, i=i: show_deps(m, tags, lens, i, names)))
    return out


def as_bv(v, w=64):
    return bvof(v, w)


def prove_one(a):
    """-> (contract name, function, status, detail, obligations, discharged, wall)"""
    idx, tier, header, work, clang, flags, limit = a
    c = contracts(tier)[idx]
    t0 = time.time()
    src, ll = os.path.join(work, f"m{idx}.cpp"), os.path.join(work, f"m{idx}.ll")
    open(src, "w").write(HEAD.replace("S2S_HEADER", f'"{header}"') + f'extern "C" void m{idx}() {{ {c.body} }}\n')
    try:
        r = subprocess.run([clang] + flags + ["-D_GLIBCXX_ASSERTIONS", "-S", src, "-o", ll], capture_output=True, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return c.name, c.fn, "n/a", "clang: timeout", 0, 0, 0.0
    if r.returncode:
        return c.name, c.fn, "n/a", "does not compile: the function is no longer there under this name and signature: " + r.stderr[:300], 0, 0, time.time() - t0
    obl = disch = 0
    try:
        ex = X.Exec(Module(open(ll).read()), {"timeout_ms": 15000, "max_paths": 4000, "unroll": True, "max_unroll": 3000})   # trip counts are bounded by the number of elements: every path is followed to its end
        ex.deadline = t0 + limit
        st = ex.initial()
        ex.start(st, f"@m{idx}", [])
        term, _, _ = ex.run(st)
        fails, rets = [], 0
        for s in term:
            for n in s.notes:
                assert n[0] != "bounded-loop"
            if s.status == "ret" and not s.viol:
                rets += 1
                o = {}
                for e in s.events:
                    if e[0] == "obs":
                        o.setdefault(e[1], []).append(as_bv(e[2]))
                o.setdefault(2, []) if c.fn in ("static_set", "sort_ranges") else None
                for what, cond in c.post(o):
                    obl += 1
                    m = ex.prove(s, cond)
                    if m is True:
                        disch += 1
                    else:
                        fails.append((what, m))
            elif s.viol:
                obl += 1
                v = s.viol[0]
                # not a constant expression: the schema is rejected
                if c.rejects is not None and v.kind in ("throw", "memory", "uninit"):
                    m = ex.prove(s, c.rejects)
                    if m is True:
                        disch += 2      # with the obligation whose failure is the rejection
                        continue
                    fails.append(("rejected although the contract accepts it: " + v.what, m))
                else:
                    fails.append((f"{v.kind}: {v.what}", None))
        if not rets:
            return c.name, c.fn, "n/a", "no path returns", 0, 0, time.time() - t0
        return c.name, c.fn, "fails" if fails else "proved", [(w, model_of(m), shown(c, m)) for w, m in fails[:3]], obl + ex.stats.obl, disch + ex.stats.disch, time.time() - t0
    except Unsupported as e:
        return c.name, c.fn, "n/a", "outside the engine: " + str(e), 0, 0, time.time() - t0


def model_of(m):
    return {d.name(): m[d].as_long() for d in m.decls() if d.name().startswith("sym")} if isinstance(m, z3.ModelRef) else {}


def shown(c, m):
    return c.schema(model_of(m)) if c.schema and isinstance(m, z3.ModelRef) else None

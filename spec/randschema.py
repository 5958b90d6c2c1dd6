"""Random well-formed schemas, and the same schema with one rule broken."""
import copy

from schema import *

TS = [u8, u16, u32, u64, i8, i16, i32, i64]
US = [u8, u16, u32, u64]


def pred(rng, ids):
    i = rng.choice(ids)
    bit = 1 << rng.randrange(8)
    return Pred("[](auto f) { return (f & %d) != 0; }" % bit, [i], lambda o, f: o.not_(o.eq(o.band(f, bit), 0)))


def comp(rng, ids):
    i = rng.choice(ids)
    k = rng.randrange(4)
    return computed("[](auto f) { return (std::size_t)f + %d; }" % k, [i], lambda o, f: o.add(f, k))


def leaf(rng, id, nums, depth, name, alt=False):
    """a field without variance; nums: earlier unsigned fields usable as sources"""
    k = rng.randrange(10 if nums else 6)
    t = rng.choice(TS)
    if k < 2:
        c = None
        z = rng.randrange(6)
        if z == 0:
            c = rng.choice([lt, lte, gt, gte, neq])(t, rng.randrange(1, 100))
        elif z == 1 and not alt:
            c = eq(t, rng.randrange(100))
        w = rng.randrange(1, t.bytes + 1) if t.bytes > 1 and not t.signed and rng.randrange(4) == 0 else None
        return Int(id, t, w, cons=c)
    if k == 2:
        return Arr(id, rng.choice(TS), [rng.randrange(1, 4)])
    if k == 3:
        return FStr(id, rng.randrange(1, 5))
    if k == 4 and depth > 0:
        return Rec(id, make(rng, name + "_" + (id or "alt%d" % rng.randrange(10 ** 6)), depth - 1, rng.randrange(2, 4)))
    if k == 5 and depth > 0:
        return ArrRec(id, flat(rng, name + "_" + (id or "alt%d" % rng.randrange(10 ** 6))), rng.randrange(1, 3))
    if k <= 5:
        return Int(id, t)
    size = len_of(rng.choice(nums)) if rng.randrange(3) else comp(rng, nums)
    b = rng.choice([None, None, 64, 1000])
    if k == 6:
        return Str(id, size, bound=b)
    if k == 7 and depth > 0:
        return VecRec(id, flat(rng, name + "_" + (id or "alt%d" % rng.randrange(10 ** 6))), size, bound=b)
    return Vec(id, rng.choice(TS), size, bound=b)


def flat(rng, name):
    return Record(name, [Int(chr(97 + i), rng.choice(TS)) for i in range(rng.randrange(1, 4))])


def vkey(f):
    if f.kind in ("rec", "arrrec", "vecrec"):
        return (f.kind, f.rec.name, getattr(f, "n", 0))
    if f.kind == "int":
        return ("int", f.t.name)
    return f.vtype()


def make(rng, name, depth=1, n=None):
    n = n or rng.randrange(3, 8)
    fields, nums = [], []
    ids = rng.sample(["a", "b", "ab", "abc", "n", "len", "x0", "x1", "flag", "flags", "body", "t", "ty", "zz"], n)
    for i, id in enumerate(ids):
        if i < 2 and (i == 0 or rng.randrange(2)):
            t = rng.choice(US)
            fields.append(Int(id, t))
            nums.append(id)
            continue
        k = rng.randrange(5)
        if k == 0:
            b = leaf(rng, id, nums, depth, name)
            b.cons = None          # maybe<> takes an unconstrained base
            fields.append(Maybe(b, pred(rng, nums)))
        elif k == 1:
            m = rng.randrange(2, 4)
            alts, keys = [], set()
            while len(alts) < m:
                a = leaf(rng, "", nums, depth, name, True)
                if vkey(a) not in keys:
                    keys.add(vkey(a))
                    alts.append(a)
            s = rng.randrange(3)
            if s == 0:
                fields.append(Union(id, ("match", rng.choice(nums), rng.sample(range(200), m)), alts))
            elif s == 1:
                q = rng.choice(nums)
                fields.append(Union(id, ("compute", Pred("[](auto a) -> int { return (int)(a & 7); }", [q], lambda o, a: o.int_(o.band(a, 7))), "int", rng.sample(range(8), m)), alts))
            else:
                fields.append(Union(id, ("ladder", [pred(rng, nums) for _ in range(m)]), alts))
        else:
            f = leaf(rng, id, nums, depth, name)
            fields.append(f)
            if f.kind == "int" and not f.t.signed and f.cons is None:
                nums.append(id)
    return Record(name, fields)


def spoil(rng, rec):
    """(fields, what) breaking one rule, or None"""
    for _ in range(20):
        fs = list(rec.fields)
        j = rng.randrange(len(fs))
        f = fs[j]
        k = rng.randrange(4)
        if k == 0 and j:
            g = copy.copy(f)
            if g.kind == "opt":
                g.base = copy.copy(g.base)
                g.base.id = fs[0].id
            g.id = fs[0].id
            if "cpp" in g.__dict__:
                continue
            fs[j] = g
            return fs, f"field {j} has the id of field 0"
        later = [x.id for x in fs[j:]] + ["missing"]
        if k == 1:
            g = f.base if f.kind == "opt" else f
            if g.kind in ("vec", "vecrec"):
                h = copy.copy(g)
                b = rng.choice(later)
                h.size = len_of(b) if g.size.kind == "len" else Size("comp", [b], g.size.cpp.replace('"%s"' % g.size.ids[0], '"%s"' % b), None)
                if f.kind == "opt":
                    m = copy.copy(f)
                    m.base = h
                    h = m
                fs[j] = h
                return fs, f"size of field {j} names {b}"
        if k == 2 and f.kind == "opt":
            m = copy.copy(f)
            b = rng.choice(later)
            m.pred = Pred(f.pred.lam, [b], None)
            fs[j] = m
            return fs, f"predicate of field {j} names {b}"
        if k == 3 and f.kind == "union":
            m = copy.copy(f)
            s = f.sel
            b = rng.choice(later)
            z = rng.randrange(3)
            if z == 0 and s[0] != "ladder":
                v = list(s[-1])
                v[-1] = v[0]
                m.sel = s[:-1] + (v,)
                fs[j] = m
                return fs, f"first and last case value of field {j} coincide"
            if z == 1:
                m.alts = f.alts[:-1] + [f.alts[0]]
                fs[j] = m
                return fs, f"first and last alternative of field {j} coincide"
            if s[0] == "match":
                m.sel = ("match", b, s[2])
            elif s[0] == "compute":
                m.sel = ("compute", Pred(s[1].lam, [b], None), s[2], s[3])
            else:
                ps = list(s[1])
                ps[rng.randrange(len(ps))] = Pred(ps[0].lam, [b], None)
                m.sel = ("ladder", ps)
            fs[j] = m
            return fs, f"selector of field {j} names {b}"
    return None

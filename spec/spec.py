"""The specification: the meaning of a schema (schema.py objects) as pre/postconditions of struct_cast / stream_cast.

This is an executable spec function over terms.  Run symbolically it yields, for one terminal state of the verified
code, the set of expected outcomes (forking where the path condition does not settle a spec-level case split) and the
obligations relating the code's outcome to them; run on concrete data it is the oracle of the native replay.  It is
written from the documentation / property statements and never looks at library code."""
import z3
import schema as S
from sym import *
import execu as X
import loops

BUF, VAL, TDF, FCL, EXC = range(5)
RNAME = ["buffer_exhaustion", "validation_failure", "type_deduction_failure", "found_contradicting_length", "excessive_length"]
RPROP = {BUF: "C11", VAL: "C07", TDF: "C13", EXC: "C10"}


class V:
    """scalar value: type + int / BV(bits) / (64-bit) Lin"""
    __slots__ = ("t", "x")

    def __init__(self, t, x):
        if isinstance(x, z3.BitVecRef):
            x = z3.simplify(x)
            if z3.is_bv_value(x):
                x = x.as_long()
        if isinstance(x, int):
            x &= (1 << t.bits) - 1
        self.t, self.x = t, x

    def __repr__(self):
        return f"{self.x}:{self.t.name}"


class VArr:
    def __init__(self, items):
        self.items = items


class VSeq:
    """count elements; at(j) -> list of V (the scalars of element j)"""

    def __init__(self, count, at):
        self.count, self.at = count, at


class VRec:
    def __init__(self, vals):
        self.vals = vals          # list, in field order


class VRecSeq:
    def __init__(self, count, at):
        self.count, self.at = count, at     # at(j) -> VRec


class VSmall:
    """a record vector of known size"""

    def __init__(self, items):
        self.items, self.count = items, len(items)


class VOpt:
    def __init__(self, val):
        self.val = val


class VUni:
    def __init__(self, idx, val):
        self.idx, self.val = idx, val


class Err(Exception):
    def __init__(self, reason, props, clause):
        self.reason, self.props, self.clause = reason, set(props), clause
        self.id = None


class Stop(Exception):
    """abandon this spec branch (infeasible)"""


def B(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


class Ops:
    """vocabulary of the Python predicates attached to a schema"""

    def __init__(self, ctx):
        self.c = ctx

    def _p(self, a, b):
        if isinstance(b, V) and isinstance(a, V) and b.t.bits != a.t.bits:
            return self.u64(a), self.u64(b), 64
        if not isinstance(a, V):
            a, b = b, a
        w = a.t.bits
        y = b.x if isinstance(b, V) else b & ((1 << w) - 1)
        return a.x, y, w

    def eq(self, a, b):
        x, y, w = self._p(a, b)
        if isinstance(x, int) and isinstance(y, int):
            return x == y
        if w == 64:
            return self.c.lcmp("eq", x, y)
        return bvof(x, w) == bvof(y, w)

    def lt(self, a, b, signed):
        x, y, w = self._p(a, b)
        if isinstance(x, int) and isinstance(y, int):
            if signed:
                x, y = sg(x, w), sg(y, w)
            return x < y
        p, q = bvof(x, w), bvof(y, w)
        return p < q if signed else z3.ULT(p, q)

    def gt(self, a, b, signed):
        x, y, w = self._p(a, b)
        if isinstance(x, int) and isinstance(y, int):
            if signed:
                x, y = sg(x, w), sg(y, w)
            return x > y
        p, q = bvof(x, w), bvof(y, w)
        return p > q if signed else z3.UGT(p, q)

    def ult(self, a, b):
        """64-bit unsigned comparison of sizes (int / Lin / V)"""
        return self.c.lcmp("ult", self.u64(a), self.u64(b))

    def not_(self, c):
        return (not c) if isinstance(c, bool) else z3.Not(c)

    def and_(self, *cs):
        cs = [c for c in cs if c is not True]
        if any(c is False for c in cs):
            return False
        return True if not cs else cs[0] if len(cs) == 1 else z3.And(*cs)

    def or_(self, *cs):
        cs = [c for c in cs if c is not False]
        if any(c is True for c in cs):
            return True
        return False if not cs else cs[0] if len(cs) == 1 else z3.Or(*cs)

    def band(self, a, m):
        """a & m at a's width"""
        w = a.t.bits
        if isinstance(a.x, int):
            return V(a.t, a.x & m)
        return V(a.t, bvof(a.x, w) & z3.BitVecVal(m, w))

    def u64(self, a):
        if not isinstance(a, V):
            return a
        if a.t.bits == 64:
            return a.x if not isinstance(a.x, z3.BitVecRef) else lin_norm(lin_from_bv(a.x))
        from ir import int_ty
        r = self.c.ex.cast(self.c.st, "sext" if a.t.signed else "zext", int_ty(a.t.bits), a.x, int_ty(64))
        return r if isinstance(r, int) else lin_norm(lin_from_bv(r))

    def int_(self, x):
        """a 64-bit quantity as a value comparable with case labels"""
        return V(S.i64, self.u64(x))

    def add(self, a, b):
        return lin_add(self.u64(a), self.u64(b))

    def sub(self, a, b):
        return lin_sub(self.u64(a), self.u64(b))

    def scale(self, a, k):
        return lin_scale(self.u64(a), k)

    def mul(self, a, b):
        x, y = self.u64(a), self.u64(b)
        if isinstance(x, int):
            return lin_scale(y, x)
        if isinstance(y, int):
            return lin_scale(x, y)
        return lin_from_bv(z3.simplify(bvof(x, 64) * bvof(y, 64)))


def sg(x, w):
    return x - (1 << w) if x >> (w - 1) else x


class Ctx:
    """symbolic evaluation of the spec inside one terminal state"""
    concrete = False

    def __init__(self, ex, st, forced, angel, offs=None):
        self.ex = ex
        self.st = st.clone(ex)
        self.forced = forced
        self.made = []
        self.angel = angel
        self.angels = []
        self.o = Ops(self)
        self.pos = 0
        self.segs = []            # (off, kind, data, props)
        self.offs = offs or {}
        self.flags = set()        # opt / union context of the point reached
        self.present_absent = set()

    # --- control
    def br(self, c):
        if isinstance(c, (bool, int)):
            return bool(c)
        try:
            d = self.ex.decide(self.st, c)
        except X.PathEnd:
            raise Stop()
        if d is not None:
            return d
        k = len(self.made)
        v = self.forced[k] if k < len(self.forced) else True
        self.made.append(v)
        self.ex.assume(self.st, c if v else z3.Not(c))
        self.ex.note_decided(self.st, c, v)
        return v

    def lcmp(self, pred, a, b):
        return self.ex.lcmp(self.st, pred, a, b)

    def choose(self, n):
        k = len(self.angels)
        v = self.angel[k] if k < len(self.angel) else 0
        self.angels.append((v, n))
        return v

    # --- environment
    def in_byte(self, pos):
        return self.ex.in_byte(self.st, pos)

    def in_len(self):
        return self.ex.in_len(self.st)

    def out_cap(self):
        return X.OUTCAP

    def sym(self, tag, bits):
        return z3.BitVec("sym%d" % tag, bits)

    def hv(self, tag, k):
        import externs
        return externs.havoc_fn(tag)(bvof(k, 64))

    def exits(self):
        """candidate (peeled iterations, exit index) of the loops on this path"""
        out = []
        for iv, e, _, p in reversed(self.st.loopfacts):
            if not any(p == q[0] and (isinstance(e, int) and isinstance(q[1], int) and e == q[1] or (not isinstance(e, int) and not isinstance(q[1], int) and lin_sub(e, q[1]) == 0)) for q in out):
                out.append((p, e))
        return out + [(0, 0), (1, 0)]

    def skolem(self, hi, base=0):
        """context at an arbitrary 0 <= j < hi; None if empty.  Loop facts are instantiated at iteration base + j"""
        s = Ctx.__new__(Ctx)
        s.__dict__.update(self.__dict__)
        s.st = self.st.clone(self.ex)
        s.o = Ops(s)
        c = s.lcmp("eq", hi, 0)
        if c is True:
            return None, None
        if isinstance(hi, int) and hi == 1:
            s.inst(base)
            return s, 0
        j = self.ex.fresh("sk", 64)
        s.st.his[j.get_id()] = (j, (1 << 40) - 1)
        s.st.model = None
        s.st.pc.append(z3.ULT(j, z3.BitVecVal(1 << 40, 64)))
        s.st.pc.append(B(s.lcmp("ult", lin_from_bv(j), hi)))
        try:
            if not self.ex.feasible(s.st):
                return None, None
        except X.PathEnd:
            return None, None
        jl = lin_from_bv(j)
        s.inst(lin_add(jl, base))
        return s, jl

    def inst(self, j):
        """what each loop on this path established for iteration j"""
        for iv, e, fact, p in self.st.loopfacts:
            if z3.is_true(fact):
                continue
            i = lin_sub(j, p)
            c = self.o.and_(self.lcmp("ule", p, j), self.lcmp("ult", i, e))
            d = c if isinstance(c, bool) else self.ex.decide(self.st, c)
            if d is False:
                continue
            f = loops.as_bool(loops.subst(fact, iv, i))
            if not z3.is_true(f):
                self.st.pc.append(f if d is True else z3.Implies(c, f))
                self.st.model = None


class CCtx(Ctx):
    """concrete evaluation: env has .inp (bytes-like get), .inlen, .cap, .sym{tag}, .hv{tag: bytes}"""
    concrete = True

    def __init__(self, ex, st, env, offs=None):
        super().__init__(ex, st, [], [], offs)
        self.env = env

    def br(self, c):
        assert isinstance(c, (bool, int)), c
        return bool(c)

    def in_byte(self, pos):
        return self.env.inb(pos)

    def in_len(self):
        return self.env.inlen

    def out_cap(self):
        return self.env.cap

    def sym(self, tag, bits):
        return self.env.sym.get(tag, 0) & ((1 << bits) - 1)

    def hv(self, tag, k):
        return self.env.hvb(tag, k)


def scalar(t, bs):
    """bytes (little-endian order) -> V, zero-extended to the type"""
    bs = list(bs)
    if all(isinstance(b, int) for b in bs):
        x = 0
        for k, b in enumerate(bs):
            x |= b << (8 * k)
        return V(t, x)
    bs = [b if not isinstance(b, int) else z3.BitVecVal(b, 8) for b in bs]
    x = bs[0] if len(bs) == 1 else z3.Concat(*reversed(bs))
    if x.size() < t.bits:
        x = z3.ZeroExt(t.bits - x.size(), x)
    return V(t, x)


def bytes_of(v, w=None):
    """V -> list of w byte terms, least significant first"""
    w = w or v.t.bytes
    if isinstance(v.x, int):
        return [(v.x >> (8 * k)) & 255 for k in range(w)]
    x = bvof(v.x, v.t.bits)
    return [z3.simplify(z3.Extract(8 * k + 7, 8 * k, x)) for k in range(w)]


# ------------------------------------------------------------------------------------------------ reading
class Reader:
    def __init__(self, ctx, endian):
        self.c, self.be = ctx, endian == "be"

    def need(self, n, what):
        c = self.c
        room = lin_sub(c.in_len(), c.pos)
        if not c.br(c.lcmp("ule", n, room)):
            raise Err(BUF, {"C11"} | c.flags, "truncated: " + what)

    def take(self, pos, t, w=None):
        w = w or t.bytes
        bs = [self.c.in_byte(lin_add(pos, k)) for k in range(w)]
        if self.be:
            bs.reverse()
        return scalar(t, bs)

    def record(self, rec):
        env, vals = {}, []
        for f in rec.fields:
            try:
                v = self.field(f, env)
                if f.kind != "opt":
                    self.check(f, v)
            except Err as e:
                e.id = f.id
                raise
            env[f.id] = v
            vals.append(v)
        return VRec(vals)

    def check(self, f, v):
        if f.cons is not None and not self.c.br(f.cons.py(self.c.o, v)):
            raise Err(VAL, {"C07"} | self.c.flags, "constraint of " + f.id)

    def field(self, f, env):
        c, k = self.c, f.kind
        if k == "int":
            self.need(f.w, f.id)
            v = self.take(c.pos, f.t, f.w)
            c.pos = lin_add(c.pos, f.w)
            return v
        if k == "arr":
            n = f.n * f.t.bytes
            self.need(n, f.id)
            p = c.pos
            c.pos = lin_add(c.pos, n)
            return VArr([self.take(lin_add(p, i * f.t.bytes), f.t) for i in range(f.n)])
        if k == "vec":
            an = f.an if isinstance(f, S.VecArr) else 1
            el = an * f.t.bytes
            cnt = self.count(f, env)
            self.gate(f, cnt, el)
            self.need(lin_scale(cnt, el), f.id)
            p = c.pos
            c.pos = lin_add(c.pos, lin_scale(cnt, el))
            return VSeq(cnt, lambda j: [self.take(lin_add(lin_add(p, lin_scale(j, el)), i * f.t.bytes), f.t) for i in range(an)])
        if k == "rec":
            return self.record(f.rec)
        if k == "arrrec":
            return VArr([self.record(f.rec) for _ in range(f.n)])
        if k == "vecrec":
            return self.vecrec(f, env)
        if k == "svec":
            cnt = self.count(f, env)
            self.gate(f, cnt, c.offs["sizeof:" + f.rec.name])
            items = []
            self.facts(f)
            while not c.br(c.lcmp("eq", cnt, len(items))):
                if len(items) == f.most:
                    raise Stop()
                items.append(self.record(f.rec))
            return VSmall(items)
        if k == "opt":
            if c.br(self.pred(f.pred, env)):
                old = set(c.flags)
                c.flags.add("C12")
                v = self.field(f.base, env)
                self.check(f.base, v)
                c.flags = old
                return VOpt(v)
            c.present_absent.add("C12")
            return VOpt(None)
        if k == "union":
            i = deduce(c, f, env)
            if i is None:
                raise Err(TDF, {"C13"}, "no alternative of " + f.id)
            old = set(c.flags)
            c.flags.add("C13")
            a = f.alts[i]
            v = self.field(a, env)
            self.check(a, v)
            c.flags = old
            return VUni(i, v)
        raise KeyError(k)

    def pred(self, p, env):
        return p.py(self.c.o, *[env[i] for i in p.ids])

    def count(self, f, env):
        if f.size.kind == "len":
            return self.c.o.u64(env[f.size.ids[0]])
        return self.c.o.u64(f.size.py(self.c.o, *[env[i] for i in f.size.ids]))

    def gate(self, f, cnt, el):
        lim = (S.DEFAULT_MAX if f.bound is None else f.bound) // el
        if not self.c.br(self.c.lcmp("ule", cnt, lim)):
            raise Err(EXC, {"C10"} | self.c.flags, "ceiling of " + f.id)

    def vecrec(self, f, env):
        c = self.c
        cnt = self.count(f, env)
        self.gate(f, cnt, c.offs["sizeof:" + f.rec.name])
        R = wire_size(f.rec)
        start = c.pos
        if c.concrete:
            for j in range(cnt):
                self.record(f.rec)
            return VRecSeq(cnt, lambda j: self.rec_at(f.rec, start, R, j))
        cands = c.exits()
        peel, e = cands[c.choose(len(cands))]
        done = VRecSeq(cnt, lambda j: self.rec_at(f.rec, start, R, j))
        for q in range(peel):
            if c.br(c.lcmp("eq", cnt, q)):
                return done
            self.record(f.rec)
        first = c.pos
        tot = lin_add(e, peel)
        if not c.br(c.lcmp("ule", tot, cnt)):
            raise Angel()
        # every record before the exit is complete and valid
        s, j = c.skolem(e, peel)
        if s is not None:
            s.pos = lin_add(first, lin_scale(j, R))
            s.forced, s.made = [], NoFork()
            try:
                Reader(s, "be" if self.be else "le").record(f.rec)
            except (Err, Fork):
                raise Angel()
            except Stop:
                pass
        c.pos = lin_add(first, lin_scale(e, R))
        if not c.br(c.lcmp("ule", lin_scale(e, R), lin_sub(c.in_len(), first))):
            raise Angel()
        if c.br(c.lcmp("eq", tot, cnt)):
            return done
        self.record(f.rec)
        raise Angel()

    def facts(self, f):
        if not self.c.concrete:
            for j in range(f.most):
                self.c.inst(j)

    def rec_at(self, rec, start, R, j):
        p = lin_add(start, lin_scale(j, R))

        def build(rec):
            nonlocal p
            vals = []
            for f in rec.fields:
                if f.kind == "int":
                    vals.append(self.take(p, f.t, f.w))
                    p = lin_add(p, f.w)
                elif f.kind == "arr":
                    vals.append(VArr([self.take(lin_add(p, i * f.t.bytes), f.t) for i in range(f.n)]))
                    p = lin_add(p, f.n * f.t.bytes)
                elif f.kind == "rec":
                    vals.append(build(f.rec))
                elif f.kind == "arrrec":
                    vals.append(VArr([build(f.rec) for _ in range(f.n)]))
                else:
                    raise KeyError(f.kind)
            return VRec(vals)
        return build(rec)


class Angel(Exception):
    """this existential witness does not fit"""


class Fork(Exception):
    pass


class NoFork(list):
    """decision log of a Skolem context: everything must be settled"""

    def append(self, v):
        raise Fork()


def wire_size(rec):
    n = 0
    for f in rec.fields:
        if f.kind == "int":
            n += f.w
        elif f.kind == "arr":
            n += f.n * f.t.bytes
        elif f.kind == "rec":
            n += wire_size(f.rec)
        elif f.kind == "arrrec":
            n += f.n * wire_size(f.rec)
        else:
            raise KeyError("not a fixed-size record")
    return n


def in_range(t, val):
    return -(1 << (t.bits - 1)) <= val < 1 << (t.bits - 1) if t.signed else 0 <= val < 1 << t.bits


def deduce(c, f, env):
    k = f.sel[0]
    if k == "ladder":
        for i, p in enumerate(f.sel[1]):
            if c.br(p.py(c.o, *[env[q] for q in p.ids])):
                return i
        return None
    if k == "match":
        v = env[f.sel[1]]
    else:
        p = f.sel[1]
        v = p.py(c.o, *[env[q] for q in p.ids])
    for i, val in enumerate(f.sel[-1]):
        if not in_range(v.t, val):
            continue            # no value of the selector equals it
        if c.br(c.o.eq(v, val)):
            return i
    return None


# ------------------------------------------------------------------------------------------------ writing
class Builder:
    """the struct sym_all() constructs, as a value tree (same tag order as Gen.sym)"""

    def __init__(self, ctx):
        self.c = ctx
        self.tag = 10000

    def nt(self):
        self.tag += 1
        return self.tag

    def record(self, rec, live=True):
        return VRec([self.field(f, live) for f in rec.fields])

    def field(self, f, live):
        c, k, t = self.c, f.kind, self.nt()
        if k == "int":
            return V(f.t, c.sym(t, f.t.bits)) if live else None
        if k == "arr":
            if not live:
                return None
            b = f.t.bytes
            return VArr([scalar(f.t, [c.hv(t, i * b + q) for q in range(b)]) for i in range(f.n)])
        if k == "vec":
            if not live:
                return None
            an = f.an if isinstance(f, S.VecArr) else 1
            b = f.t.bytes
            n = c.sym(t, 64)
            n = n if isinstance(n, int) else lin_from_bv(n)
            return VSeq(n, lambda j: [scalar(f.t, [c.hv(t, lin_add(lin_scale(j, an * b), i * b + q)) for q in range(b)]) for i in range(an)])
        if k == "rec":
            return self.record(f.rec, live)
        if k == "arrrec":
            return VArr([self.record(f.rec, live) for _ in range(f.n)])
        if k == "vecrec":
            if not live:
                return None
            n = c.sym(t, 64)
            n = n if isinstance(n, int) else lin_from_bv(n)
            return VRecSeq(n, lambda j: leaves_at(f.rec, c.offs, lambda off, q: c.hv(t, lin_add(lin_scale(j, c.offs["sizeof:" + f.rec.name]), off + q))))
        if k == "svec":
            n = c.sym(t, 64)
            num = None
            for j in range(f.most + 1 if live else 0):
                if c.br(n == j if isinstance(n, int) else c.lcmp("eq", lin_from_bv(n), j)):
                    num = j
                    break
            if live and num is None:
                raise Stop()
            items = [self.record(f.rec, bool(live and j < num)) for j in range(f.most)]
            return VSmall(items[:num]) if live else None
        if k == "opt":
            x = c.sym(t, 8)
            on = bool(x & 1) if isinstance(x, int) else None
            if live and on is None:
                on = c.br(z3.Extract(0, 0, x) == 1)
            v = self.field(f.base, bool(live and on))
            return VOpt(v) if live and on else VOpt(None)
        if k == "union":
            x = c.sym(t, 8)
            r = None
            for i, a in enumerate(f.alts):
                held = False
                if live and r is None:
                    held = c.br(x == i)
                v = self.field(a, held)
                if held:
                    r = VUni(i, v)
            if live and r is None:
                raise Stop()
            return r
        raise KeyError(k)


def leaves_at(rec, offs, byte):
    """record in raw memory: leaf offsets from offs[rec.name] in walk order"""
    it = iter(offs[rec.name])

    def build(rec):
        vals = []
        for f in rec.fields:
            if f.kind == "int":
                o = next(it)
                vals.append(scalar(f.t, [byte(o, q) for q in range(f.t.bytes)]))
            elif f.kind == "arr":
                o = next(it)
                b = f.t.bytes
                vals.append(VArr([scalar(f.t, [byte(o, i * b + q) for q in range(b)]) for i in range(f.n)]))
            elif f.kind == "rec":
                vals.append(build(f.rec))
            elif f.kind == "arrrec":
                vals.append(VArr([build(f.rec) for _ in range(f.n)]))
            else:
                raise KeyError(f.kind)
        return VRec(vals)
    return build(rec)


def len_producers(rec, fid):
    return [(i, f) for i, f in enumerate(rec.fields) if f.kind in ("vec", "vecrec", "svec") and f.size.kind == "len" and f.size.ids[0] == fid]


def disc_producers(rec, fid):
    return [(i, f) for i, f in enumerate(rec.fields) if f.kind == "union" and f.sel[0] == "match" and f.sel[1] == fid]


def cond_producers(rec, fid):
    out = []
    for i, f in enumerate(rec.fields):
        if f.kind == "opt" and f.base.kind in ("vec", "vecrec", "svec") and f.base.size.kind == "len" and f.base.size.ids[0] == fid:
            out.append((i, f, None))
        if f.kind == "union":
            for k, a in enumerate(f.alts):
                if a.kind in ("vec", "vecrec", "svec") and a.size.kind == "len" and a.size.ids[0] == fid:
                    out.append((i, f, k))
    return out


def is_frozen(f):
    return f.kind in ("int", "arr") and f.cons is not None and f.cons.frozen is not None


class Writer:
    def __init__(self, ctx, endian):
        self.c, self.be = ctx, endian == "be"

    # --- emission
    def emit(self, n, kind, data, props):
        c = self.c
        c.segs.append((c.pos, kind, n, data, set(props) | c.flags))
        if not c.br(c.lcmp("ule", n, lin_sub(c.out_cap(), c.pos))):
            raise Err(BUF, {"C09"}, "stream refuses")
        c.pos = lin_add(c.pos, n)

    def enc(self, v, w=None):
        bs = bytes_of(v, w)
        if self.be:
            bs = bs[::-1]
        return bs

    def record(self, rec, val):
        env = {f.id: v for f, v in zip(rec.fields, val.vals)}
        for f, v in zip(rec.fields, val.vals):
            try:
                w = self.top(rec, f, v, env, val)
            except Err as e:
                e.id = f.id
                raise
            # later predicates, sizes and selectors see what a reader will see: the value on the wire
            # (rec.stored: the known finding, they see the slot)
            if w is not None and not rec.stored:
                env[f.id] = w

    def top(self, rec, f, v, env, val):
        """a direct member of a schema"""
        c = self.c
        props = set()
        derived = False
        if f.kind in ("int", "arr"):
            lp, dp = len_producers(rec, f.id), disc_producers(rec, f.id)
            if lp or dp:
                derived = True
                props = ({"C05"} if lp else set()) | ({"C06"} if dp else set())
                v = self.derive(rec, f, lp, dp, val, props)
            elif is_frozen(f):
                props = {"C08"}
                fz = f.cons.frozen
                v = V(f.t, fz) if f.kind == "int" else VArr([V(f.t, x) for x in fz])
                self.plain(rec, f, v, env, val, props)
                return v
        if f.kind != "opt":
            self.check(f, v, props if derived else set())
        self.plain(rec, f, v, env, val, props)
        return v if derived else None

    def derive(self, rec, f, lp, dp, val, props):
        c = self.c
        implied = []
        for i, p in sorted(lp + dp, key=lambda z: z[0]):
            x = val.vals[i]
            implied.append(x.count if p.kind != "union" else p.sel[-1][x.idx] & M64)
        for x in implied[1:]:
            if not c.br(c.lcmp("eq", x, implied[0])):
                raise Err(FCL, props, "contradicting producers of " + f.id)
        x = implied[0]
        T = f.t
        hi = 1 << (8 * f.w)
        # representable at the declared width and in the type, zero-extension on reading included
        if T.signed and f.w == T.bytes:
            half = 1 << (T.bits - 1)
            if isinstance(x, int) and x >= (1 << 63):
                ok = x >= (1 << 64) - half
            else:
                ok = c.lcmp("ult", x, half) if half < M64 else True
        else:
            ok = True if hi > M64 else c.lcmp("ult", x, hi)
        if not c.br(ok):
            raise Err(VAL, props, "derived value does not fit " + f.id)
        if isinstance(x, int):
            return V(T, x)
        b = bvof(x, 64)
        return V(T, b if T.bits == 64 else z3.Extract(T.bits - 1, 0, b))

    def check(self, f, v, props):
        if f.cons is not None and not self.c.br(f.cons.py(self.c.o, v)):
            raise Err(VAL, {"C08"} | props | self.c.flags, "constraint of " + f.id)

    def plain(self, rec, f, v, env, val, props):
        """write the value v of a field of kind f (member, optional payload or alternative)"""
        c, k = self.c, f.kind
        if k == "int":
            for i, p, alt in cond_producers(rec, f.id):
                x = val.vals[i]
                if alt is None:
                    if x.val is None or not c.br(p.pred.py(c.o, *[env[q] for q in p.pred.ids])):
                        continue
                    n = x.val.count
                else:
                    if x.idx != alt:
                        continue
                    n = x.val.count
                props = props | {"C15"}
                if not c.br(c.lcmp("eq", n, c.o.u64(v))):
                    raise Err(FCL, {"C15"}, "conditional length " + f.id)
            if cond_producers(rec, f.id):
                props = props | {"C15"}
            if f.w < f.t.bytes:
                ok = all(b == 0 for b in bytes_of(v)[f.w:]) if isinstance(v.x, int) else z3.ULT(bvof(v.x, f.t.bits), z3.BitVecVal(1 << (8 * f.w), f.t.bits))
                if not c.br(ok):
                    raise Err(VAL, props | {"C03"}, "value does not fit " + f.id)
            pr = {"C03"} | props
            if f.w > 1:
                pr.add("C02")
            self.emit(f.w, "bytes", self.enc(v, f.w), pr)
        elif k == "arr":
            bs = [b for x in v.items for b in self.enc(x)]
            self.emit(len(bs), "bytes", bs, {"C03"} | props | ({"C02"} if f.t.bytes > 1 else set()))
        elif k == "vec":
            if f.size.kind == "comp":
                n = c.o.u64(f.size.py(c.o, *[env[q] for q in f.size.ids]))
                if not c.br(c.lcmp("eq", n, v.count)):
                    raise Err(FCL, {"C15"}, "computed length of " + f.id)
            an = f.an if isinstance(f, S.VecArr) else 1
            el = an * f.t.bytes
            self.emit(lin_scale(v.count, el), "seq", (v.count, el, lambda j: [b for x in v.at(j) for b in self.enc(x)]),
                      {"C03"} | props | ({"C02"} if f.t.bytes > 1 else set()))
        elif k == "rec":
            self.record(f.rec, v)
        elif k == "arrrec":
            for x in v.items:
                self.record(f.rec, x)
        elif k == "vecrec":
            if f.size.kind == "comp":
                n = c.o.u64(f.size.py(c.o, *[env[q] for q in f.size.ids]))
                if not c.br(c.lcmp("eq", n, v.count)):
                    raise Err(FCL, {"C15"}, "computed length of " + f.id)
            self.vecrec(f, v)
        elif k == "svec":
            if not c.concrete:
                for j in range(f.most):
                    c.inst(j)
            for x in v.items:
                self.record(f.rec, x)
        elif k == "opt":
            want = c.br(f.pred.py(c.o, *[env[q] for q in f.pred.ids]))
            if want != (v.val is not None):
                raise Err(VAL, {"C12"}, "presence of " + f.id)
            if want:
                old = set(c.flags)
                c.flags.add("C12")
                self.check(f.base, v.val, set())
                self.plain(rec, f.base, v.val, env, val, set())
                c.flags = old
            else:
                c.present_absent.add("C12")
        elif k == "union":
            if f.sel[0] != "match":
                i = deduce(c, f, env)
                if i is None:
                    raise Err(TDF, {"C13"}, "no alternative of " + f.id)
                if i != v.idx:
                    raise Err(VAL, {"C13"}, "held alternative of " + f.id)
            a = f.alts[v.idx]
            old = set(c.flags)
            c.flags.add("C13")
            self.check(a, v.val, set())
            self.plain_alt(rec, a, v.val, env, val)
            c.flags = old
        else:
            raise KeyError(k)

    def plain_alt(self, rec, a, v, env, val):
        # an alternative carries the union's id, so it is nobody's length target
        if a.kind == "int":
            f2 = S.Int("\0", a.t, a.w)
            return self.plain(rec, f2, v, env, val, set())
        return self.plain(rec, a, v, env, val, set())

    def vecrec(self, f, v):
        c = self.c
        R = wire_size(f.rec)
        start = c.pos
        en = "be" if self.be else "le"

        def wire(j):
            s = Sink(c)
            Writer(s, en).record(f.rec, v.at(j))
            return s.out
        pr = {"C03"} | ({"C02"})
        if c.concrete:
            for j in range(v.count):
                self.record(f.rec, v.at(j))
            return
        cands = c.exits()
        peel, e = cands[c.choose(len(cands))]
        for q in range(peel):
            if c.br(c.lcmp("eq", v.count, q)):
                return
            self.record(f.rec, v.at(q))
        first = c.pos
        tot = lin_add(e, peel)
        if not c.br(c.lcmp("ule", tot, v.count)):
            raise Angel()
        s, j = c.skolem(e, peel)
        if s is not None:
            s.pos = lin_add(first, lin_scale(j, R))
            s.segs = []
            s.forced, s.made = [], NoFork()
            try:
                Writer(s, en).record(f.rec, v.at(lin_add(j, peel)))
            except (Err, Fork):
                raise Angel()
            except Stop:
                pass
        n = lin_scale(e, R)
        if not c.br(c.lcmp("ule", n, lin_sub(c.out_cap(), first))):
            raise Angel()
        if c.lcmp("eq", e, 0) is not True:
            self.emit(n, "seq", (e, R, lambda j: wire(lin_add(j, peel))), pr)
        if c.br(c.lcmp("eq", tot, v.count)):
            return
        self.record(f.rec, v.at(tot))
        raise Angel()


class Sink:
    """context that only collects the encoding (all checks assumed to have passed)"""
    concrete = False

    def __init__(self, c):
        self.ex, self.st = c.ex, c.st
        self.out = []
        self.flags = set()
        self.segs = self
        self.pos = 0
        self.o = Ops(c)
        self.present_absent = set()

    def append(self, seg):
        self.out.extend(seg[3])

    def br(self, c):
        return True

    def lcmp(self, *a):
        return True

    def out_cap(self):
        return 1 << 60

"""Obligations: the outcome of the verified code on one terminal state equals the outcome the spec prescribes."""
import z3
from sym import *
import execu as X
import schema as S
from spec import *


class Failure:
    def __init__(self, label, props, pc, detail=""):
        self.label, self.props, self.pc, self.detail = label, frozenset(props), pc, detail

    def __repr__(self):
        return f"<{self.label} {sorted(self.props)} {self.detail}>"


class Report:
    def __init__(self, ex=None, want=None):
        self.ex, self.want, self.fails = ex, want, []
        self.obl = self.disch = 0
        self.labels = {}
        self.skipped = 0

    def wanted(self, props):
        return self.want is None or bool(self.want & set(props))

    def ob(self, ctx, cond, label, props):
        """prove cond in ctx"""
        if not self.wanted(props):
            self.skipped += 1
            return True
        self.obl += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if cond is True:
            self.disch += 1
            return True
        if ctx.concrete:
            if cond is False:
                self.fails.append(Failure(label, props, None))
                return False
            self.disch += 1
            return True
        st = ctx.ex.stats
        so, sd = st.obl, st.disch
        try:
            r = ctx.ex.prove(ctx.st, cond)
        except X.PathEnd:
            r = True
        st.obl, st.disch = so, sd
        if r is True:
            self.disch += 1
            return True
        self.fails.append(Failure(label, props, list(ctx.st.pc) + [z3.Not(B(cond))]))
        return False

    def bad(self, ctx, label, props):
        return self.ob(ctx, False, label, props)


def eq_bytes(v, n, bs):
    """engine value v of n bytes == list of n byte terms"""
    if isinstance(v, int) and all(isinstance(b, int) for b in bs):
        return v == sum(b << (8 * k) for k, b in enumerate(bs))
    e = scalar(TY(n), bs).x
    return z3.simplify(bvof(v, 8 * n) == bvof(e, 8 * n))


class TY:
    def __init__(self, n):
        self.bits, self.bytes, self.signed, self.name = 8 * n, n, False, "u%d" % (8 * n)


def tf(c):
    if isinstance(c, bool):
        return c
    c = z3.simplify(c)
    return True if z3.is_true(c) else False if z3.is_false(c) else c


class Cmp:
    """walk observation events against the expected value tree"""

    def __init__(self, rep, ctx, events, base, what):
        self.r, self.c, self.ev, self.i = rep, ctx, events, 0
        self.base, self.what = set(base), what

    def nxt(self):
        if self.i >= len(self.ev):
            return None
        e = self.ev[self.i]
        self.i += 1
        return e

    def record(self, rec, val, flags=frozenset()):
        for f, v in zip(rec.fields, val.vals):
            if not self.field(f, v, flags):
                return False
        return True

    def wide(self, t):
        return {"C02"} if t.bytes > 1 and "C02" in self.allow else set()

    allow = {"C02", "C12", "C13"}

    def field(self, f, v, fl):
        k, c, r = f.kind, self.c, self.r
        if k == "rec":
            return self.record(f.rec, v, fl)
        if k == "arrrec":
            for x in v.items:
                if not self.record(f.rec, x, fl):
                    return False
            return True
        e = self.nxt()
        lab = f"{self.what} {f.id}"
        if e is None:
            r.bad(c, lab + ": missing", self.base)
            return False
        if k == "int":
            x = e[2]
            w = f.t.bits
            if isinstance(x, int) and isinstance(v.x, int):
                cond = x == v.x
            elif w == 64:
                cond = c.lcmp("eq", x, v.x)
            else:
                cond = tf(z3.Extract(w - 1, 0, bvof(x, 64)) == bvof(v.x, w))
            r.ob(c, cond, lab, self.base | fl | (self.wide(f.t) if f.w > 1 else set()))
            return True
        if k == "arr":
            exp = [b for x in v.items for b in bytes_of(x)]
            if e[2] != len(exp):
                r.bad(c, lab + ": size", self.base)
                return False
            self.cells(e[4], exp, lab, self.base | fl | self.wide(f.t))
            return True
        if k == "vec":
            if not r.ob(c, tf(c.lcmp("eq", e[2], v.count)), lab + " count", self.base | fl):
                return True
            an = f.an if isinstance(f, S.VecArr) else 1
            self.seq(e, v.count, an * f.t.bytes, lambda j: [b for x in v.at(j) for b in bytes_of(x)], lab, self.base | fl | self.wide(f.t), f.t.bytes)
            return True
        if k == "vecrec":
            if not r.ob(c, tf(c.lcmp("eq", e[2], v.count)), lab + " count", self.base | fl):
                return True
            size = c.offs["sizeof:" + f.rec.name]
            self.recseq(e, f.rec, v, size, lab, self.base | fl | {"C02"})
            return True
        if k == "svec":
            if not r.ob(c, tf(c.lcmp("eq", e[2], v.count)), lab + " count", self.base | fl):
                return False
            return all(self.record(f.rec, x, fl) for x in v.items)
        if k == "opt":
            have = e[2]
            if not r.ob(c, tf(c.lcmp("eq", have, int(v.val is not None))), lab + " presence", self.base | fl | ({"C12"} & self.allow)):
                return False
            return self.field(f.base, v.val, fl) if v.val is not None else True
        if k == "union":
            if not r.ob(c, tf(c.lcmp("eq", e[2], v.idx)), lab + " alternative", self.base | fl | ({"C13"} & self.allow)):
                return False
            return self.field(f.alts[v.idx], v.val, fl | ({"C13"} & self.allow))
        raise KeyError(k)

    def cells(self, src, exp, lab, props):
        """fixed cells vs list of expected bytes"""
        if src[0] == "raw":
            self.r.ob(self.c, bytes(src[1][:len(exp)]) == bytes(exp) if all(isinstance(b, int) for b in exp) else False, lab, props)
            return
        if src[0] == "region":
            for k in range(len(exp)):
                v = self.c.ex.region_load(self.c.st, src[1], lin_add(src[2], k), 1)
                self.val(v, 1, exp[k:k + 1], lab, props)
            return
        for r, s, v in src[2]:
            if r >= len(exp):
                continue
            self.val(v, s, exp[r:r + s], lab, props)

    def val(self, v, n, exp, lab, props):
        if v is None or isinstance(v, Mix) and any(x is None for _, _, x in v.cells):
            return self.r.bad(self.c, lab + ": uninitialised", set(props) | {"C16"})
        if isinstance(v, Mix) or not is_int_val(v):
            v = self.c.ex.ival(self.c.st, v, 8 * n)
        if n != len(exp):
            # object larger than the expected data
            v = extract_bytes(v, n, 0, len(exp))
            n = len(exp)
        return self.r.ob(self.c, tf(eq_bytes(v, n, exp)), lab, props)

    def seq(self, e, count, el, at, lab, props, unit):
        src = e[4]
        if src[0] == "raw":
            exp = bytearray()
            for j in range(count):
                exp += bytes(at(j))
            self.r.ob(self.c, bytes(src[1]) == bytes(exp), lab, props)
            return
        if not self.r.wanted(props):
            return
        if isinstance(e[2], int) and src[0] == "cells":
            exp = [b for j in range(e[2]) for b in at(j)]
            return self.cells(src, exp, lab, props)
        s, j = self.c.skolem(count)
        if s is None:
            return
        sub = Cmp(self.r, s, (), self.base, self.what)
        exp = at_in(s, at, j)
        for k in range(0, el, unit):
            if src[0] == "fixed":
                v = s.ex.byte_table(s.st, src[2], lin_add(lin_scale(j, el), k), unit)
            else:
                v = s.ex.region_load(s.st, src[1], lin_add(lin_add(src[2], lin_scale(j, el)), k), unit)
            sub.val(v, unit, exp[k:k + unit], lab, props)

    def recseq(self, e, rec, v, size, lab, props):
        src = e[4]
        offs = self.c.offs[rec.name]

        def one(c, j, load):
            it = iter(offs)
            sub = Cmp(self.r, c, (), self.base, self.what)

            def go(rec, val):
                for f, x in zip(rec.fields, val.vals):
                    if f.kind == "int":
                        sub.val(load(next(it), f.t.bytes), f.t.bytes, bytes_of(x), lab + "." + f.id, props)
                    elif f.kind == "arr":
                        o = next(it)
                        for q, y in enumerate(x.items):
                            sub.val(load(o + q * f.t.bytes, f.t.bytes), f.t.bytes, bytes_of(y), lab + "." + f.id, props)
                    elif f.kind == "rec":
                        go(f.rec, x)
                    else:
                        for y in x.items:
                            go(f.rec, y)
            go(rec, v.at(j))
        if not self.r.wanted(props):
            return
        if src[0] == "raw":
            for j in range(v.count):
                one(self.c, j, lambda o, n: int.from_bytes(src[1][j * size + o:j * size + o + n], "little"))
            return
        if isinstance(e[2], int) and src[0] == "cells":
            cl = {r: (s, x) for r, s, x in src[2]}
            cc = Cells()
            for r, s, x in src[2]:
                if x is not None:
                    cc.store(r, s, x)
            for j in range(e[2]):
                one(self.c, j, lambda o, n: self.c.ex.mk_value(cc.get(j * size + o, n), n))
            return
        s, j = self.c.skolem(v.count)
        if s is None:
            return
        one(s, j, lambda o, n: s.ex.region_load(s.st, src[1], lin_add(lin_add(src[2], lin_scale(j, size)), o), n))


def at_in(s, at, j):
    return at(j)


# ------------------------------------------------------------------------------------------------ exploration of spec cases
def explore(ex, st, offs, body, rep):
    """run body(ctx, report) for every spec-level case of this terminal state; existential witnesses are searched"""
    n = 0
    angel = []
    best = None
    while True:
        sub = Report(ex, rep.want)
        sub.labels = rep.labels
        bad = False
        cand = None
        stack = [[]]
        while stack:
            forced = stack.pop()
            ctx = Ctx(ex, st, forced, angel, offs)
            try:
                body(ctx, sub)
            except Stop:
                pass
            except X.PathEnd:
                pass
            except Angel:
                bad = True
            if len(ctx.angels) > len(angel):
                angel = [a for a, _ in ctx.angels]
            cand = ctx.angels if len(ctx.angels) >= len(cand or []) else cand
            for k in range(len(forced), len(ctx.made)):
                stack.append(ctx.made[:k] + [not ctx.made[k]])
            n += 1
            if n > 400:
                raise Unsupported("too many spec cases")
            if bad:
                break
        if not bad and not sub.fails:
            best = sub
            break
        if not bad and (best is None or len(sub.fails) < len(best.fails)):
            best = sub
        # next existential choice
        if not cand:
            break
        k = len(cand) - 1
        a = [x for x, _ in cand]
        while k >= 0 and a[k] + 1 >= cand[k][1]:
            k -= 1
        if k < 0:
            break
        a[k] += 1
        angel = a[:k + 1]
    if best is None:
        best = Report(ex, rep.want)
        best.obl = 1
        best.fails.append(Failure("record vector outcome", {"*"}, list(st.pc)))
    rep.obl += best.obl
    rep.disch += best.disch
    rep.skipped += best.skipped
    rep.fails.extend(best.fails)


def status_of(events):
    """-> (index after the status, None | (reason, id bytes), ok)"""
    for i, e in enumerate(events):
        if e[0] == "obs" and e[1] == 1:
            if e[2] == 0:
                return i + 1, None
            b = events[i + 1]
            return i + 2, (e[2] - 1, id_text(b))
    return None, None


def id_text(b):
    if b[4][0] == "raw":
        return b[4][1].decode("latin1")
    n = b[2]
    if not isinstance(n, int):
        return None
    out = bytearray(n)
    for r, s, v in (b[4][2] if n else ()):
        if not isinstance(v, int):
            return None
        out[r:r + s] = v.to_bytes(s, "little")
    return out.decode("latin1")


def rname(e):
    return RNAME[e] if 0 <= e < 5 else "reason %d" % e


# ------------------------------------------------------------------------------------------------ reading
def check_read(rep, rec, en, ctx, events, pos, after):
    """postcondition of struct_cast in ctx"""
    i, err = status_of(events)
    try:
        val = Reader(ctx, en).record(rec)
        exp = None
    except Err as e:
        exp = e
    if exp is None:
        if err is not None:
            props = {"C01"}
            if err[0] in RPROP and err[0] != BUF:
                props.add(RPROP[err[0]])
            f = next((f for f in rec.fields if f.id == err[1]), None)
            if f is not None and f.kind == "opt":
                props.add("C12")
            if f is not None and f.kind == "union":
                props.add("C13")
            props |= {"C12", "C13"} & set(kinds_before(rec, err[1]))
            rep.bad(ctx, f"conforming input is accepted (got {rname(err[0])} at {err[1]})", props)
            return
        rep.ob(ctx, True, "conforming input is accepted", {"C01", "C07", "C10", "C13", "C12"})
        rep.ob(ctx, tf(ctx.lcmp("eq", pos, ctx.pos)), "exactly the field bytes are consumed", {"C01"} | ctx.present_absent)
        Cmp(rep, ctx, events[i:], {"C01"}, "value of").record(rec, val)
        return
    props = {"C14"} | exp.props
    lab = f"{rname(exp.reason)} at {exp.id}"
    if err is None:
        rep.bad(ctx, f"{lab} ({exp.clause}) is reported (got success)", props)
        return
    if err != (exp.reason, exp.id):
        if err[0] in RPROP and err[0] != exp.reason:
            f = next((f for f in rec.fields if f.id == err[1]), None)
            if err[0] in (VAL, TDF, EXC):
                props.add(RPROP[err[0]])
        rep.bad(ctx, f"{lab} ({exp.clause}) is reported (got {rname(err[0])} at {err[1]})", props)
        return
    rep.ob(ctx, True, f"{lab} is reported", props)
    if exp.reason != BUF:
        rep.ob(ctx, tf(ctx.lcmp("eq", pos, ctx.pos)), "nothing after the failing field is read", {"C14"} | ({"C13"} if exp.reason == TDF else {"C10"} if exp.reason == EXC else set()))
    rep.ob(ctx, after == 0, "no read after a failed read", {"C14", "C11"})


def kinds_before(rec, fid):
    out = set()
    for f in rec.fields:
        if f.id == fid:
            break
        if f.kind == "opt":
            out.add("C12")
        if f.kind == "union":
            out.add("C13")
    return out


# ------------------------------------------------------------------------------------------------ writing
def field_prop(rec, fid, reason):
    """which properties govern a failure of this reason at this field of the struct being written"""
    f = next((f for f in rec.fields if f.id == fid), None)
    out = set()
    if f is None:
        return out
    if reason == VAL:
        out.add("C08")
    if len_producers(rec, fid):
        out.add("C05")
    if disc_producers(rec, fid):
        out.add("C06")
    if cond_producers(rec, fid) and reason == FCL:
        out.add("C15")
    if f.kind in ("vec", "vecrec", "svec") and reason == FCL:
        out.add("C15")
    if f.kind == "opt":
        out.add("C12")
    if f.kind == "union":
        out.add("C13")
    if reason == BUF:
        out.add("C09")
    return out


def check_write(rep, rec, en, ctx, events, outlen, outok, after, loader):
    """postcondition of stream_cast in ctx; loader(ctx, off, n) reads the emitted bytes"""
    i, err = status_of(events)
    val = Builder(ctx).record(rec)
    try:
        Writer(ctx, en).record(rec, val)
        exp = None
    except Err as e:
        exp = e
    full = ctx.pos
    segs = ctx.segs
    if exp is None:
        if err is not None:
            rep.bad(ctx, f"consistent struct is written (got {rname(err[0])} at {err[1]})", {"C03"} | field_prop(rec, err[1], err[0]))
        else:
            rep.ob(ctx, True, "consistent struct is written", {"C03", "C05", "C06", "C08", "C12", "C13", "C15"})
            if rep.ob(ctx, tf(ctx.lcmp("eq", outlen, full)), "exactly the encodings are emitted", {"C03"} | ctx.present_absent):
                content(rep, ctx, segs, outlen, loader, set(), True)
    else:
        lab = f"{rname(exp.reason)} at {exp.id}"
        props = {"C14"} | exp.props
        if err is None:
            rep.bad(ctx, f"{lab} ({exp.clause}) is reported (got success)", props)
        elif err != (exp.reason, exp.id):
            if err[1] != exp.id or err[0] != exp.reason:
                props |= {p for p in field_prop(rec, err[1], err[0]) if p in ("C05", "C06", "C12", "C13", "C15")} if err[1] != exp.id else set()
            rep.bad(ctx, f"{lab} ({exp.clause}) is reported (got {rname(err[0])} at {err[1]})", props)
        else:
            rep.ob(ctx, True, f"{lab} is reported", props)
        # the emitted bytes are the complete fields before the failing one, whatever is reported
        if err is not None:
            if exp.reason == BUF:
                off, kind, n, data, pr = segs[-1]
                if rep.ob(ctx, tf(ctx.o.and_(tf(ctx.lcmp("ule", off, outlen)), tf(ctx.lcmp("ule", outlen, ctx.out_cap())))), "a refused write emits a prefix", {"C09"}):
                    content(rep, ctx, segs, outlen, loader, {"C09"}, False)
            else:
                if rep.ob(ctx, tf(ctx.lcmp("eq", outlen, full)), "nothing of the failing field is emitted", {"C09"} | (exp.props - {"C03"})):
                    content(rep, ctx, segs, outlen, loader, {"C09"}, True)
    rep.ob(ctx, after == 0, "no write after a refused write", {"C09", "C14"})
    cm = Cmp(rep, ctx, events[i:], {"C03"}, "struct unchanged:")
    cm.allow = set()
    cm.record(rec, val)


def content(rep, ctx, segs, outlen, loader, extra, complete):
    for q, (off, kind, n, data, props) in enumerate(segs):
        props = set(props) | extra
        if not rep.wanted(props):
            continue
        part = not complete and q == len(segs) - 1
        if kind == "bytes":
            if not part:
                v = loader(ctx, off, n) if n <= 8 else None
                if v is not None and is_int_val(v):
                    rep.ob(ctx, tf(eq_bytes(v, n, data)), "emitted bytes", props)
                    continue
            for k in range(n):
                if part:
                    c = tf(ctx.lcmp("ult", lin_add(off, k), outlen))
                    if not ctx.br(c):
                        break
                one(rep, ctx, loader, lin_add(off, k), data[k], props)
        else:
            count, el, at = data
            if ctx.concrete:
                for j in range(count):
                    bs = at(j)
                    for k in range(el):
                        p = off + j * el + k
                        if part and p >= outlen:
                            break
                        one(rep, ctx, loader, p, bs[k], props)
                continue
            s, j = ctx.skolem(count)
            if s is None:
                continue
            base = lin_add(off, lin_scale(j, el))
            if part:
                # either the whole element is below outlen, or byte-wise
                w = s.lcmp("ule", lin_add(base, el), outlen)
                s.st.pc.append(B(w))
                s.st.model = None
                if s.ex.feasible(s.st):
                    elem(rep, s, loader, base, el, at(j), props)
                s2, j2 = ctx.skolem(count)
                b2 = lin_add(off, lin_scale(j2, el))
                s2.st.pc.append(B(s2.lcmp("ult", b2, outlen)))
                s2.st.pc.append(z3.Not(B(s2.lcmp("ule", lin_add(b2, el), outlen))))
                s2.st.model = None
                if el > 1 and s2.ex.feasible(s2.st):
                    bs = at(j2)
                    for k in range(el):
                        s3 = s2.st.clone(s2.ex)
                        keep = s2.st
                        s2.st = s3
                        s3.pc.append(B(s2.lcmp("ult", lin_add(b2, k), outlen)))
                        s3.model = None
                        if s2.ex.feasible(s3):
                            one(rep, s2, loader, lin_add(b2, k), bs[k], props)
                        s2.st = keep
            else:
                elem(rep, s, loader, base, el, at(j), props)


def elem(rep, s, loader, base, el, bs, props):
    if el in (1, 2, 4, 8):
        v = loader(s, base, el)
        if is_int_val(v):
            rep.ob(s, tf(eq_bytes(v, el, bs)), "emitted elements", props)
            return
    for k in range(el):
        one(rep, s, loader, lin_add(base, k), bs[k], props)


def one(rep, ctx, loader, p, b, props):
    v = loader(ctx, p, 1)
    if not is_int_val(v):
        rep.bad(ctx, "emitted byte exists", props)
        return
    rep.ob(ctx, tf(eq_bytes(v, 1, [b])), "emitted bytes", props)


def sym_loader(ctx, off, n):
    return ctx.ex.region_load(ctx.st, ctx.st.mem[X.OUT].layers, off, n)

"""Verify one harness function of one schema: run the VC generator, then prove the spec's postconditions."""
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "..", "engine"), HERE]
import z3
from ir import Module
import execu as X
from sym import *
import schema as S
from spec import *
import compare as C

MEMKINDS = ("memory", "uninit", "throw")


class Result:
    def __init__(self, schema, harness):
        self.schema, self.harness = schema, harness
        self.fails = []           # Failure
        self.obl = self.disch = 0
        self.status = "proved"    # proved | bounded | unsupported
        self.why = ""
        self.paths = 0
        self.stats = {}
        self.labels = {}
        self.notes = []


def layout(mod, rec):
    """leaf offsets and sizes of records kept in vectors, read from the compiled code"""
    rs = S.vec_records(rec)
    offs = {}
    if not rs:
        return offs
    ex = X.Exec(mod, {})
    st = ex.initial()
    ex.start(st, "@h_layout", [])
    term, _, _ = ex.run(st)
    return layout_from([(e[1], e[2]) for e in term[0].events if e[0] == "obs"], rs)


def layout_from(obs, rs):
    offs = {}
    it = iter(rs)
    cur = None
    for tag, v in obs:
        if tag == 6:
            r = next(it)
            offs["sizeof:" + r.name] = v
            cur = offs[r.name] = []
        elif tag == 7:
            cur.append(v)
    return offs


def ceiling_of(rec):
    m = 0

    def walk(f):
        nonlocal m
        if f.kind in ("vec", "vecrec", "svec"):
            m = max(m, S.DEFAULT_MAX if f.bound is None else f.bound)
        elif f.kind == "opt":
            walk(f.base)
        elif f.kind == "union":
            for a in f.alts:
                walk(a)
    for r in S.records_of(rec):
        for f in r.fields:
            walk(f)
    return m


def alloc_limit(rec):
    """largest allocation a read of this schema may make: its largest ceiling; std::string needs one more byte for the
    terminator and grows geometrically from its 15-byte buffer"""
    m = ceiling_of(rec)
    return max(m + 1, 31) if has_str(rec) else m


def has_str(rec):
    def walk(f):
        if isinstance(f, S.Str):
            return True
        if f.kind == "opt":
            return walk(f.base)
        if f.kind == "union":
            return any(walk(a) for a in f.alts)
        return False
    return any(walk(f) for r in S.records_of(rec) for f in r.fields)


def verify(mod, rec, harness, want=None, opts=None, deadline=None, offs=None):
    """harness: (kind, endian, stream)"""
    kind, en, stm = harness
    res = Result(rec.name, harness)
    o = {"timeout_ms": 15000, "max_paths": 1500}
    o.update(opts or {})
    if kind == "read" and (want is None or "C10" in want):
        o["alloc_limit"] = alloc_limit(rec)
    if any(f.kind == "svec" for r in S.records_of(rec) for f in r.fields):
        o["small_alloc"] = 4
    ex = X.Exec(mod, o)
    ex.deadline = deadline
    rep = C.Report(ex, want)
    t0 = time.time()
    try:
        if offs is None:
            offs = layout(mod, rec)
        st = ex.initial()
        ex.start(st, f"@h_{kind}_{en}_{stm}", [])
        term, _, _ = ex.run(st)
        res.paths = len(term)
        seen = set()
        nret = 0
        for s in term:
            for v in s.viol:
                if id(v) in seen:
                    continue
                seen.add(id(v))
                viol(rep, v)
            for n in s.notes:
                if n not in res.notes:
                    res.notes.append(n)
            if s.status != "ret":
                continue
            nret += 1
            post(rep, ex, s, rec, kind, en, offs)
            if deadline and time.time() > deadline:
                raise Unsupported("time budget exhausted")
        for s, v in ex.loop_viol:
            if id(v) not in seen:
                seen.add(id(v))
                viol(rep, v)
        if nret == 0 and not rep.fails:
            raise Unsupported("no path reaches the postcondition (vacuous)")
        if any(n[0] == "bounded-loop" for n in res.notes):
            res.status = "bounded"
            res.why = "; ".join(sorted({f"{n[1]}" for n in res.notes if n[0] == "bounded-loop"}))[:400]
    except Unsupported as e:
        res.status = "unsupported"
        res.why = str(e)
    res.fails = rep.fails
    res.obl = rep.obl + ex.stats.obl
    res.disch = rep.disch + ex.stats.disch
    res.labels = rep.labels
    st = ex.stats
    res.stats = dict(queries=st.queries, solver_s=st.solver_s, loops=st.loops, instrs=st.instrs, funcs=sorted(st.funcs), wall=time.time() - t0,
                     unrolled=st.unrolled_bounded, loop_fail=[str(x) for x in ex.loop_fail][:6])
    return res


def viol(rep, v):
    props = {"C10"} if v.cls == ("alloc",) else {"C16"}
    rep.obl += 1
    if rep.wanted(props):
        rep.fails.append(C.Failure(f"{v.kind}: {v.what}", props, v.pc, " <- ".join(reversed(v.where))[:600]))


def post(rep, ex, s, rec, kind, en, offs):
    ev = list(s.events)
    if kind == "life":
        return
    if kind == "read":
        pos, after = ex.ghost(s, X.IN_POS), ex.ghost(s, X.IN_AFTER)
        C.explore(ex, s, offs, lambda c, r: C.check_read(r, rec, en, c, ev, pos, after), rep)
    elif kind == "write":
        ol, ok, af = ex.ghost(s, X.OUT_LEN), ex.ghost(s, X.OUT_OK), ex.ghost(s, X.OUT_AFTER)
        C.explore(ex, s, offs, lambda c, r: C.check_write(r, rec, en, c, ev, ol, ok, af, C.sym_loader), rep)
    elif kind == "wr":
        C.explore(ex, s, offs, lambda c, r: check_wr(r, rec, en, c, ev, ex.ghost(s, X.IN_POS), ex.ghost(s, X.OUT_LEN)), rep)
    elif kind == "rw":
        C.explore(ex, s, offs, lambda c, r: check_rw(r, rec, c, ev, ex), rep)


def check_wr(rep, rec, en, ctx, ev, inpos, outlen):
    i, err = C.status_of(ev)
    P = {"C04"}
    if rec.stored and not slots_agree(ctx, rec):
        return
    at_exits(ctx)
    if err is not None:
        rep.bad(ctx, f"bytes written are read back (got {C.rname(err[0])} at {err[1]})", P)
        return
    rep.ob(ctx, True, "bytes written are read back", P)
    rep.ob(ctx, C.tf(ctx.lcmp("eq", inpos, outlen)), "reading back consumes exactly the bytes written", P)
    val = Builder(ctx).record(rec)
    norm(ctx, rec, val)
    cm = C.Cmp(rep, ctx, ev[i:], P, "round trip of")
    cm.allow = set()
    cm.record(rec, val)


def slots_agree(ctx, rec):
    """known finding: outside the structs whose unwritten slots disagree with the wire"""
    val = Builder(ctx).record(rec)
    old = list(val.vals)
    norm(ctx, rec, val)
    for f, a, b in zip(rec.fields, old, val.vals):
        if f.kind == "int" and a is not b and not ctx.br(ctx.o.eq(a, b.x if isinstance(b.x, int) else b)):
            return False
    return True


def at_exits(ctx):
    """what the loops of one cast established, at the indices where the loops of the other one stopped"""
    if not ctx.concrete:
        for p, e in ctx.exits():
            ctx.inst(lin_add(e, p))


def norm(ctx, rec, val):
    """what the written struct means: derived slots and frozen slots hold what the write puts on the wire"""
    for k, f in enumerate(rec.fields):
        v = val.vals[k]
        if f.kind == "int":
            lp, dp = len_producers(rec, f.id), disc_producers(rec, f.id)
            if lp or dp:
                i, p = (lp + dp)[0]
                x = val.vals[i]
                n = x.count if p.kind != "union" else p.sel[-1][x.idx] & M64
                n = n if isinstance(n, int) else bvof(n, 64)
                val.vals[k] = V(f.t, n if isinstance(n, int) or f.t.bits == 64 else z3.Extract(f.t.bits - 1, 0, n))
            elif is_frozen(f):
                val.vals[k] = V(f.t, f.cons.frozen)
        elif f.kind == "arr" and is_frozen(f):
            val.vals[k] = VArr([V(f.t, x) for x in f.cons.frozen])
        elif f.kind == "rec":
            norm(ctx, f.rec, v)
        elif f.kind in ("arrrec", "svec"):
            for x in v.items:
                norm(ctx, f.rec, x)
        elif f.kind == "vecrec":
            at = v.at

            def at2(j, at=at, r=f.rec):
                w = at(j)
                norm(ctx, r, w)
                return w
            v.at = at2
        elif f.kind == "opt" and v.val is not None and f.base.kind == "rec":
            norm(ctx, f.base.rec, v.val)
        elif f.kind == "union" and f.alts[v.idx].kind == "rec":
            norm(ctx, f.alts[v.idx].rec, v.val)


def check_rw(rep, rec, ctx, ev, ex):
    P = {"C04"}
    at_exits(ctx)
    i, err = C.status_of(ev)
    m0 = next(e for e in ev if e[0] == "mark" and e[1] == 0)
    m1 = next(e for e in ev if e[0] == "mark" and e[1] == 1)
    consumed, out, ok = m0[2], m1[3], m1[4]
    if err is not None:
        # the stream may refuse; anything else breaks the identity
        if err[0] == BUF and ok == 0:
            return
        rep.bad(ctx, f"a struct read from a stream is written back (got {C.rname(err[0])} at {err[1]})", P)
        return
    rep.ob(ctx, True, "a struct read from a stream is written back", P)
    if not rep.ob(ctx, C.tf(ctx.lcmp("eq", consumed, out)), "as many bytes are written as were consumed", P):
        return
    # every byte p < consumed: out[p] == in[p]; p ranges over the layers of the output
    for ly in ctx.st.mem[X.OUT].layers:
        s, j = ctx.skolem(ly.count)
        if s is None:
            continue
        base = lin_add(ly.lo, lin_scale(j, ly.stride))
        for k0, sz, fn in ly.parts:
            v = s.ex.region_load(s.st, s.st.mem[X.OUT].layers, lin_add(base, k0), sz)
            if not is_int_val(v):
                rep.bad(s, "bytes written back", P)
                continue
            rep.ob(s, C.tf(C.eq_bytes(v, sz, [s.in_byte(lin_add(base, k0 + q)) for q in range(sz)])), "bytes written back equal the bytes consumed", P)

"""Models (assumed contracts) of everything the verified code calls outside its own source:
the harness intrinsics (__vf_*), compiler intrinsics, and the C / C++ runtime primitives.
These are the only functions whose bodies are not verified."""
import z3
from sym import *
import execu as X

HAVF = {}


def havoc_fn(tag):
    f = HAVF.get(tag)
    if f is None:
        f = HAVF[tag] = z3.Function("hv%d" % tag, X.BV64, X.BV8)
    return f


def B(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def split(ex, st, fr, ins, work, c):
    """fork on boolean c -> list of (state, bool); the current state is one of them.  None if decided"""
    d = c if isinstance(c, bool) else ex.decide(st, c)
    if d is not None:
        return [(st, d)]
    o = st.clone(ex)
    ex.assume(o, z3.Not(c))
    ex.note_decided(o, c, False)
    ex.assume(st, c)
    ex.note_decided(st, c, True)
    return [(o, False), (st, True)]


def finish(ex, st, ins, val):
    fr = st.frames[-1]
    if ins[1] is not None:
        fr.regs[ins[1]] = val


def forked(ex, outs, st, ins, work):
    """outs: list of (state,value) all ready to go on after the call"""
    for s, v in outs:
        finish(ex, s, ins, v)
        if s is not st:
            work.append(s)
    return X.SPLIT


# ---------------------------------------------------------------- harness intrinsics
def vf_read(ex, st, fr, args, ins, work):
    dst, n = args[0], ex.ival(st, args[1], 64)
    ok = ex.ghost(st, X.IN_OK)
    if ok == 0:
        ex.set_ghost(st, X.IN_AFTER, 1)
        return 0
    pos = ex.ghost(st, X.IN_POS)
    ln = ex.in_len(st)
    room = lin_sub(ln, pos)
    c = ex.lcmp(st, "ule", n, room)
    outs = []
    for s, d in split(ex, st, fr, ins, work, c):
        try:
            if d:
                store_input(ex, s, dst, n, pos)
                ex.set_ghost(s, X.IN_POS, lin_add(pos, n))
                outs.append((s, 1))
            else:
                ex.set_ghost(s, X.IN_OK, 0)
                outs.append((s, 0))
        except X.PathEnd:
            s.status = "end"
            ex.ended.append(s)
    return forked(ex, outs, st, ins, work) if any(s is st for s, _ in outs) else gone(ex, outs, ins, work)


def gone(ex, outs, ins, work):
    for s, v in outs:
        finish(ex, s, ins, v)
        work.append(s)
    return X.GONE


def store_input(ex, st, dst, n, pos):
    if isinstance(n, int):
        if n == 0:
            return
        ex.check_access(st, dst, n, "stream read destination")
        cells = []
        if n in (1, 2, 4, 8):
            cells = [(0, n, ex.in_bytes(st, pos, n))]
        else:
            cells = [(k, 1, ex.in_byte(st, lin_add(pos, k))) for k in range(n)]
        ex.write_cells(st, dst, n, cells)
        return
    if ex.decide(st, ex.lcmp(st, "eq", n, 0)) is True:
        return
    o = ex.check_access(st, dst, n, "stream read destination")
    if o.layers is None:
        ex.fixed_range_write(st, dst, n, lambda k: ex.in_byte(st, lin_add(pos, k)))
        return
    o = st.wobj(dst.o)
    if st.insrc is not None:
        fn = X.alias_fn(st.insrc[0], pos)
    else:
        fn = (lambda ex, st, j, pos=pos: X.INF(bvof(lin_add(pos, j), 64)))
    o.layers = o.layers + (Layer(dst.f, 1, n, ((0, 1, fn),)),)


def vf_write(ex, st, fr, args, ins, work):
    src, n = args[0], ex.ival(st, args[1], 64)
    ok = ex.ghost(st, X.OUT_OK)
    if ok == 0:
        ex.set_ghost(st, X.OUT_AFTER, 1)
        return 0
    pos = ex.ghost(st, X.OUT_LEN)
    room = lin_sub(X.OUTCAP, pos)
    c = ex.lcmp(st, "ule", n, room)
    outs = []
    for s, d in split(ex, st, fr, ins, work, c):
        try:
            if d:
                append_output(ex, s, src, n, pos)
                ex.set_ghost(s, X.OUT_LEN, lin_add(pos, n))
                outs.append((s, 1))
            else:
                ex.set_ghost(s, X.OUT_OK, 0)
                outs.append((s, 0))
        except X.PathEnd:
            s.status = "end"
            ex.ended.append(s)
    return forked(ex, outs, st, ins, work) if any(s is st for s, _ in outs) else gone(ex, outs, ins, work)


def append_output(ex, st, src, n, pos):
    if isinstance(n, int):
        if n == 0:
            return
        o = ex.check_access(st, src, n, "stream write source")
        cells = ex.read_cells(st, o, src.f, n)
        cov = sum(s for _, s, _ in cells)
        if cov < n:
            ex.fail(st, "uninit", "uninitialised byte written to the stream")
        for r, s, v in cells:
            if not is_int_val(v):
                if v is POISON:
                    raise Unsupported("loop temporary on the wire")
                ex.fail(st, "uninit", "pointer bytes written to the stream")
        w = st.wobj(X.OUT)
        w.layers = w.layers + (Layer(pos, n, 1, tuple((r, s, X.const_fn(v)) for r, s, v in cells)),)
        return
    if ex.decide(st, ex.lcmp(st, "eq", n, 0)) is True:
        return
    o = ex.check_access(st, src, n, "stream write source")
    w = st.wobj(X.OUT)
    if o.layers is None:
        if not isinstance(src.f, int):
            raise Unsupported("symbolic write from fixed object at symbolic offset")
        lim = o.size - src.f
        vals = ex.table(o, src.f, lim)
        hole = next((k for k in range(lim) if vals[k] is None), lim)
        if hole < lim:
            ex.require(st, B(ex.lcmp(st, "ule", n, hole)), "uninit", "uninitialised byte written to the stream")
        w.layers = w.layers + (Layer(pos, 1, n, ((0, 1, X.table_fn(vals)),)),)
        return
    if o.layers is not None:
        lays = ex.shift_layers(st, o.layers, src.f, n, pos)
        ex.check_init(st, o.layers, src.f, n, "uninitialised byte written to the stream")
        w.layers = w.layers + lays


def vf_sym(ex, st, fr, args, ins, work):
    tag, bits = args[0], args[1]
    v = z3.BitVec("sym%d" % tag, 64)
    if bits < 64:
        return z3.ZeroExt(64 - bits, z3.BitVec("sym%d" % tag, bits))
    return v


def vf_havoc(ex, st, fr, args, ins, work):
    dst, n, tag = args
    n = ex.ival(st, n, 64)
    f = havoc_fn(tag)
    if isinstance(n, int):
        if n == 0:
            return None
        ex.check_access(st, dst, n, "havoc")
        if n in (1, 2, 4, 8):
            parts = [f(z3.BitVecVal(k, 64)) for k in range(n)]
            v = parts[0] if n == 1 else z3.Concat(*reversed(parts))
            ex.write_cells(st, dst, n, [(0, n, v)])
        else:
            ex.write_cells(st, dst, n, [(k, 1, f(z3.BitVecVal(k, 64))) for k in range(n)])
        return None
    if ex.decide(st, ex.lcmp(st, "eq", n, 0)) is True:
        return None
    o = ex.check_access(st, dst, n, "havoc")
    if o.layers is None:
        ex.fixed_range_write(st, dst, n, lambda k: f(z3.BitVecVal(k, 64)))
        return None
    o = st.wobj(dst.o)
    o.layers = o.layers + (Layer(dst.f, 1, n, ((0, 1, lambda ex, st, j: f(bvof(j, 64))),)),)
    return None


def vf_obs(ex, st, fr, args, ins, work):
    v = args[1]
    if isinstance(v, Mix):
        for r, s, x in v.cells:
            if x is None:
                ex.fail(st, "uninit", "result field %d holds uninitialised bytes" % args[0])
    st.events = st.events + (("obs", args[0], ex.ival(st, v, 64)),)
    return None


def vf_obs_buf(ex, st, fr, args, ins, work):
    tag, p, count, el = args
    count = ex.ival(st, count, 64)
    n = lin_scale(count, el)
    if isinstance(n, int):
        if n:
            o = ex.check_access(st, p, n, "result buffer")
            cells = ex.read_cells(st, o, p.f, n)
            st.events = st.events + (("buf", tag, count, el, ("cells", n, tuple(cells))),)
        else:
            st.events = st.events + (("buf", tag, count, el, ("cells", 0, ())),)
        return None
    outs = []
    for s, d in split(ex, st, fr, ins, work, B(ex.lcmp(st, "eq", n, 0))):
        try:
            if d:
                s.events = s.events + (("buf", tag, 0, el, ("cells", 0, ())),)
            else:
                o = ex.check_access(s, p, n, "result buffer")
                if o.layers is None:
                    if not isinstance(p.f, int):
                        raise Unsupported("result buffer at symbolic offset")
                    s.events = s.events + (("buf", tag, count, el, ("fixed", o.size - p.f, tuple(o.cells.raw(p.f, o.size - p.f)))),)
                else:
                    s.events = s.events + (("buf", tag, count, el, ("region", o.layers, p.f)),)
            outs.append((s, None))
        except X.PathEnd:
            s.status = "end"
            ex.ended.append(s)
    return forked(ex, outs, st, ins, work) if any(s is st for s, _ in outs) else gone(ex, outs, ins, work)


def vf_assume(ex, st, fr, args, ins, work):
    c = args[0]
    c = ex.ival(st, c, 1)
    if isinstance(c, int):
        if not c & 1:
            raise X.PathEnd("assume")
        return None
    if isinstance(c, z3.BitVecRef):
        c = z3.Extract(0, 0, c) == 1
    d = ex.decide(st, c)
    if d is False:
        raise X.PathEnd("assume")
    if d is None:
        ex.assume(st, c)
        ex.note_decided(st, c, True)
    return None


def vf_rewind(ex, st, fr, args, ins, work):
    st.insrc = (st.mem[X.OUT].layers, ex.ghost(st, X.OUT_LEN))
    ex.set_ghost(st, X.IN_POS, 0)
    ex.set_ghost(st, X.IN_OK, 1)
    return None


def vf_mark(ex, st, fr, args, ins, work):
    st.events = st.events + (("mark", args[0], ex.ghost(st, X.IN_POS), ex.ghost(st, X.OUT_LEN), ex.ghost(st, X.OUT_OK)),)
    return None


# ---------------------------------------------------------------- runtime
def op_new(ex, st, fr, args, ins, work):
    n = ex.ival(st, args[0], 64)
    st.allocs = st.allocs + (n,)
    lim = ex.opts.get("alloc_limit")
    if lim is not None:
        ex.require(st, B(ex.lcmp(st, "ule", n, lim)), "alloc", "allocation above the field's ceiling", cls=("alloc",))
    if not isinstance(n, int):
        # allocation of absurd sizes fails (and is allowed to): the continuing path has a real object
        c = B(ex.lcmp(st, "ule", n, 1 << 40))
        d = ex.decide(st, c)
        if d is False:
            raise X.PathEnd("allocation failure")
        if d is None:
            ex.assume(st, c)
    elif n > (1 << 40):
        raise X.PathEnd("allocation failure")
    if not isinstance(n, int) and ex.opts.get("small_alloc"):
        # a handful of possible sizes: one path each
        outs = []
        for v in few_values(ex, st, n, ex.opts["small_alloc"]):
            c = B(ex.lcmp(st, "eq", n, v))
            d = ex.decide(st, c)
            if d is False:
                continue
            s = st
            if d is None:
                s = st.clone(ex)
                ex.assume(s, c)
                ex.assume(st, z3.Not(c))
            outs.append((s, Ptr(ex.new_obj(s, v, "heap", "new"), 0)))
            if s is st:
                break
        if outs:
            return forked(ex, outs, st, ins, work) if outs[-1][0] is st else gone(ex, outs, ins, work)
    oid = ex.new_obj(st, n, "heap", "new")
    return Ptr(oid, 0)


def few_values(ex, st, n, most):
    """all values n can have, when there are at most `most`; else none"""
    s, out, b = z3.Solver(), [], bvof(n, 64)
    s.set("timeout", 5000)
    s.add(*[B(c) for c in st.pc])
    while len(out) <= most:
        r = s.check()
        if r == z3.unsat:
            return sorted(out)
        if r != z3.sat or len(out) == most:
            return []
        v = s.model().eval(b, model_completion=True).as_long()
        out.append(v)
        s.add(b != v)


def op_delete(ex, st, fr, args, ins, work):
    p = args[0]
    if not isinstance(p, Ptr):
        if p is POISON:
            raise Unsupported("loop temp pointer")
        ex.fail(st, "memory", "delete of a non-pointer")
    if p.o == 0 and p.f == 0:
        return None
    o = st.mem.get(p.o)
    if o is None or o.kind != "heap" or p.f != 0:
        ex.fail(st, "memory", "delete of a pointer not returned by new")
    if not o.alive:
        ex.fail(st, "memory", "double delete")
    if len(args) > 1:
        n = ex.ival(st, args[1], 64)
        ex.require(st, B(ex.lcmp(st, "eq", n, o.size)), "memory", "sized delete with the wrong size")
    o = st.wobj(p.o)
    o.alive = False
    return None


def thrower(name):
    def h(ex, st, fr, args, ins, work):
        ex.fail(st, "throw", "the cast throws / terminates: " + name)
    return h


def memcpy(ex, st, fr, args, ins, work):
    ex.memcpy(st, args[0], args[1], ex.ival(st, args[2], 64))
    return args[0]


def memset(ex, st, fr, args, ins, work):
    v = ex.ival(st, args[1], 8)
    if isinstance(v, int):
        v &= 255
    elif z3.is_bv(v) and v.size() > 8:
        v = z3.Extract(7, 0, v)
    ex.memset(st, args[0], v, ex.ival(st, args[2], 64))
    return args[0]


def byte_at(ex, st, p, k, what):
    v = ex.load(st, Ptr(p.o, lin_add(p.f, k)), 1, what)
    return ex.ival(st, v, 8)


def strlen(ex, st, fr, args, ins, work):
    p = args[0]
    if not isinstance(p, Ptr):
        ex.fail(st, "memory", "strlen of a non-pointer")
    outs = []
    k = 0
    cur = st
    while True:
        try:
            v = byte_at(ex, cur, p, k, "strlen")
        except X.PathEnd:
            cur.status = "end"
            ex.ended.append(cur)
            return gone(ex, outs, ins, work)
        if isinstance(v, int):
            if v == 0:
                outs.append((cur, k))
                break
        else:
            c = v == 0
            d = ex.decide(cur, c)
            if d is True:
                outs.append((cur, k))
                break
            if d is None:
                o = cur.clone(ex)
                ex.assume(o, c)
                ex.note_decided(o, c, True)
                outs.append((o, k))
                ex.assume(cur, z3.Not(c))
                ex.note_decided(cur, c, False)
        k += 1
        if k > 256:
            raise Unsupported("strlen beyond 256")
    return forked(ex, outs, st, ins, work) if any(s is st for s, _ in outs) else gone(ex, outs, ins, work)


def memcmp(ex, st, fr, args, ins, work):
    a, b, n = args
    n = ex.ival(st, n, 64)
    if not isinstance(n, int):
        outs = []
        return _memcmp_sym(ex, st, a, b, n)
    if n == 0:
        return 0
    ex.check_access(st, a, n, "memcmp")
    ex.check_access(st, b, n, "memcmp")
    if n > 512:
        raise Unsupported("memcmp size")
    return _cmp_chain(ex, st, a, b, range(n), None, n)


def _cmp_chain(ex, st, a, b, ks, cond, n):
    r = z3.BitVecVal(0, 32)
    for k in reversed(list(ks)):
        x = byte_at(ex, st, a, k, "memcmp")
        y = byte_at(ex, st, b, k, "memcmp")
        x, y = bvof(x, 8), bvof(y, 8)
        t = z3.If(x == y, r, z3.If(z3.ULT(x, y), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))
        r = t
    r = z3.simplify(r)
    return r.as_long() if z3.is_bv_value(r) else r


def _memcmp_sym(ex, st, a, b, n):
    for hi in (16, 32, 64, 128):
        if ex.decide(st, B(ex.lcmp(st, "ule", n, hi))) is True:
            break
    else:
        raise Unsupported("memcmp of unbounded size")
    ex.check_access(st, a, n, "memcmp")
    ex.check_access(st, b, n, "memcmp")
    r = z3.BitVecVal(0, 32)
    vals = []
    for k in range(hi):
        c = B(ex.lcmp(st, "ult", k, n))
        if ex.decide(st, c) is False:
            break
        def get(p):
            o = st.mem[p.o]
            if o.layers is None and isinstance(p.f, int):
                v = ex.mk_value(o.cells.get(p.f + k, 1), 1)
            else:
                v = ex.byte_of(st, o, lin_add(p.f, k))
            return bvof(ex.ival(st, v, 8), 8)
        vals.append((c, get(a), get(b)))
    for c, x, y in reversed(vals):
        r = z3.If(z3.Or(z3.Not(c), x == y), r, z3.If(z3.ULT(x, y), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))
    return z3.simplify(r)


def bswap(ex, st, fr, args, ins, work):
    w = ins[2].n
    v = ex.ival(st, args[0], w)
    if isinstance(v, int):
        return int.from_bytes(v.to_bytes(w // 8, "little"), "big")
    x = bvof(v, w)
    return z3.simplify(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, x) for k in range(w // 8)]))


def with_overflow(kind):
    def h(ex, st, fr, args, ins, work):
        w = ins[4][0][0].n
        a, b = ex.ival(st, args[0], w), ex.ival(st, args[1], w)
        if isinstance(a, int) and isinstance(b, int):
            full = a * b if kind == "umul" else a + b if kind == "uadd" else a - b
            return (full & ((1 << w) - 1), int(full < 0 or full >> w != 0))
        x, y = z3.ZeroExt(w, bvof(a, w)), z3.ZeroExt(w, bvof(b, w))
        full = x * y if kind == "umul" else x + y if kind == "uadd" else x - y
        ov = z3.simplify(z3.Extract(2 * w - 1, w, full) != 0)
        lo = ex.binop(st, kind[1:], w, a, b, frozenset())
        return (lo, 1 if z3.is_true(ov) else 0 if z3.is_false(ov) else ov)
    return h


def minmax(op):
    def h(ex, st, fr, args, ins, work):
        w = ins[2].n
        a, b = ex.ival(st, args[0], w), ex.ival(st, args[1], w)
        from ir import int_ty
        pred = {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[op]
        c = ex.icmp(st, pred, int_ty(w), a, b)
        if isinstance(c, int):
            return a if c else b
        d = ex.decide(st, c)
        if d is not None:
            return a if d else b
        return z3.If(c, bvof(a, w), bvof(b, w))
    return h


def first_arg(ex, st, fr, args, ins, work):
    return args[0]


def nop(ex, st, fr, args, ins, work):
    return None


def zero(ex, st, fr, args, ins, work):
    return 0


def install(ex):
    e = ex.externs
    e.update({
        "@__vf_read": vf_read, "@__vf_write": vf_write, "@__vf_sym": vf_sym, "@__vf_havoc": vf_havoc,
        "@__vf_obs": vf_obs, "@__vf_obs_buf": vf_obs_buf, "@__vf_assume": vf_assume, "@__vf_rewind": vf_rewind,
        "@__vf_mark": vf_mark,
        "@_Znwm": op_new, "@_Znam": op_new, "@_ZdlPv": op_delete, "@_ZdlPvm": op_delete, "@_ZdaPv": op_delete,
        "@strlen": strlen, "@memcmp": memcmp, "@bcmp": memcmp, "@memcpy": memcpy, "@memmove": memcpy, "@memset": memset,
        "@_ZSt9terminatev": thrower("std::terminate"), "@abort": thrower("abort"), "@__clang_call_terminate": thrower("terminate"),
        "@__assert_fail": thrower("assert"),
    })
    ex.extern_prefix = [
        ("@llvm.memcpy", memcpy), ("@llvm.memmove", memcpy), ("@llvm.memset", memset), ("@llvm.bswap", bswap),
        ("@llvm.assume", nop), ("@llvm.lifetime", nop), ("@llvm.experimental.noalias", nop), ("@llvm.dbg", nop),
        ("@llvm.expect", first_arg), ("@llvm.launder", first_arg), ("@llvm.is.constant", zero), ("@llvm.is.constant", zero),
        ("@llvm.umul.with.overflow", with_overflow("umul")), ("@llvm.uadd.with.overflow", with_overflow("uadd")),
        ("@llvm.usub.with.overflow", with_overflow("usub")),
        ("@llvm.umin", minmax("umin")), ("@llvm.umax", minmax("umax")), ("@llvm.smin", minmax("smin")), ("@llvm.smax", minmax("smax")),
        ("@llvm.trap", thrower("trap")), ("@_ZSt", None), ("@__cxa_", thrower("exception")),
    ]

    def st_throw(ex, st, fr, args, ins, work):
        name = ins[3][1]
        if "__throw_" in name or "__glibcxx_assert_fail" in name:
            ex.fail(st, "throw", "the cast throws / terminates: " + name)
        raise Unsupported("external function " + name)
    ex.extern_prefix = [(a, b if b is not None else st_throw) for a, b in ex.extern_prefix]

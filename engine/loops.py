"""Inductive loop rule.

For a loop whose trip count is symbolic the invariant is inferred and then *checked* as an inductive
invariant: at the head of iteration i every modified memory cell either equals  v0 + i*delta  (induction
cells, ghost stream positions included) or is havocked (a loop temporary, unreadable before it is written),
and every region written by the loop holds, for all j < i, the value the body stores at j.  Obligations:
the invariant holds initially, one arbitrary iteration preserves it, i never exceeds the bound U read off the
exit test.  If inference or the check fails the loop is left to bounded unrolling, labelled bounded."""
import z3
from sym import *
import execu as X

LIM = 1 << 40


def contains(e, ivar, cache):
    k = e.get_id()
    r = cache.get(k)
    if r is None:
        r = cache[k] = (e, z3.eq(e, ivar) or any(contains(c, ivar, cache) for c in e.children()))
    return r[1]


def subst(v, ivar, e):
    """value v with ivar := e (int / Lin / BV64)"""
    if isinstance(v, int) or v is POISON or v is UNDEF or v is None or isinstance(v, FnPtr):
        return v
    if isinstance(v, Ptr):
        return Ptr(v.o, subst(v.f, ivar, e))
    if isinstance(v, Mix):
        return Mix(v.n, [(r, s, subst(x, ivar, e)) for r, s, x in v.cells])
    if isinstance(v, Lin):
        r = Lin(v.c, {})
        hit = False
        for key, (k, at) in v.t.items():
            if z3.eq(at, ivar):
                r = lin_add(r, e, k)
                hit = True
            else:
                n = zs(at, ivar, e)
                if n is not at:
                    hit = True
                    n = z3.simplify(n)
                    r = lin_add(r, lin_from_bv(n), k)
                else:
                    r = lin_add(r, Lin(0, {key: (1, at)}), k)
        return r if hit else v
    if isinstance(v, z3.ExprRef):
        n = zs(v, ivar, e)
        if n is v:
            return v
        n = z3.simplify(n)
        if z3.is_bv_value(n):
            return n.as_long()
        if z3.is_true(n):
            return 1
        if z3.is_false(n):
            return 0
        return n
    raise Unsupported("substitution in " + type(v).__name__)


def zs(x, ivar, e):
    if not contains(x, ivar, {}):
        return x
    return z3.substitute(x, (ivar, bvof(e, 64)))


def same(ex, st, a, b):
    """syntactic / proved equality of two values"""
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.o == b.o and same(ex, st, a.f, b.f)
    if isinstance(a, FnPtr) and isinstance(b, FnPtr):
        return a.name == b.name
    if isinstance(a, Mix) and isinstance(b, Mix):
        return len(a.cells) == len(b.cells) and all(x[:2] == y[:2] and same(ex, st, x[2], y[2]) for x, y in zip(a.cells, b.cells))
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
        d = lin_sub(a, b)
        if d == 0:
            return True
        if isinstance(d, int):
            return False
        c = ex.lcmp(st, "eq", a, b)
        return c if isinstance(c, bool) else ex.decide(st, c) is True
    if is_int_val(a) and is_int_val(b):
        w = next(x.size() for x in (a, b) if isinstance(x, z3.BitVecRef)) if any(isinstance(x, z3.BitVecRef) for x in (a, b)) else (64 if isinstance(a, Lin) or isinstance(b, Lin) else None)
        if w is None:
            return False
        x, y = bvof(a, w), bvof(b, w)
        if z3.eq(x, y):
            return True
        return ex.decide(st, x == y) is True
    return False


def cell_items(o):
    return {s: o.cells.d[s] for s in o.cells.starts}


class Concrete(Exception):
    """the trip count is a constant: unroll"""


class Plan:
    def __init__(self):
        self.ind = {}       # (oid, off) -> (size, v0, delta)
        self.tmp = {}       # (oid, off) -> size
        self.reg = {}       # oid -> (lo0, c, parts)   parts: [(k0,size,value(i))]
        self.ended = []


def summarize(ex, st, fr, h, snap, work, stop):
    """returns True when the loop was summarised (exit states queued on work)"""
    depth = len(snap.frames)
    f = snap.frames[-1].f
    L = f.loops[h]
    if f.code[h] and f.code[h][0][0] == "phi":
        return False
    so, sd = ex.stats.obl, ex.stats.disch
    try:
        return _summ(ex, st, f, h, L, depth, snap, work, stop, so, sd)
    except Concrete:
        ex.stats.obl, ex.stats.disch = so, sd
        return "concrete"
    except (Unsupported, X.PathEnd) as e:
        ex.stats.obl, ex.stats.disch = so, sd
        ex.loop_fail.append((f.name, h, str(e)))
        return False


def flag_changed(ref, b):
    """a one-byte cell held one constant at the head of the loop and holds another now"""
    for oid, o in b.mem.items():
        r = ref.mem.get(oid)
        if r is None or r is o or r.layers is not None or o.layers is not None:
            continue
        for off, (sz, v) in cell_items(r).items():
            if sz == 1 and isinstance(v, int):
                q = o.cells.d.get(off)
                if q is not None and q[0] == 1 and isinstance(q[1], int) and q[1] != v:
                    return True
    return False


def lean(snap, ex, h):
    g = snap.clone(ex)
    fr = g.frames[-1]
    fr.loops = {k: v for k, v in fr.loops.items() if k != h}
    # the loop is entered "at its header": blocks jump bookkeeping is not needed because stop intercepts it
    return g


def _summ(ex, st, f, h, L, depth, snap, work, stop, so, sd):
    base_mem = snap.mem
    lstop = (depth, h, L)

    def body(g):
        t, b, e = ex.run(g, lstop)
        # an iteration that sets a flag which the next test of the loop finds and leaves on (for(..; ok && i < n; ..)): those
        # states are exits, they just pass the header once more
        keep = []
        for s in b:
            if flag_changed(snap, s):
                so, sd = ex.stats.obl, ex.stats.disch
                s2 = lean(s, ex, h)
                s2.status = None
                t2, b2, e2 = ex.run(s2, lstop)
                if not b2:
                    t, e = list(t) + list(t2), list(e) + list(e2)
                    continue
                ex.stats.obl, ex.stats.disch = so, sd
            keep.append(s)
        return t, keep, e

    # ---- discovery: the first iteration, from the actual entry state
    g0 = lean(snap, ex, h)
    t0, b0, e0 = body(g0)
    if not b0:
        raise Concrete()        # no path of this state comes back to the header
    info = snap.frames[-1].loops.get(h)
    peel = info[0] if info is not None else 0     # iterations already unrolled
    plan = Plan()
    for b in b0:
        diff(ex, plan, snap, b, None, first=True)

    ivar = ex.fresh("it", 64)
    U = None
    for rnd in range(8):
        ex.stats.obl, ex.stats.disch = so, sd
        changed = False
        G = instantiate(ex, snap, h, plan, ivar)
        G.his[ivar.get_id()] = (ivar, LIM - 1)
        G.model = None
        G.pc.append(z3.ULT(ivar, z3.BitVecVal(LIM, 64)))
        npc = len(G.pc)
        gm = dict(G.mem)
        if U is not None:
            ex.assume(G, z3.ULT(ivar, bvof(U, 64)))
            npc = len(G.pc)
        ref = G.clone(ex)
        lv = len(G.viol)
        old_exit = (ex.exit_loop, ex.exit_cmp)
        ex.exit_cmp = cmps = []
        ex.exit_loop = (depth, L)
        try:
            t, b, e = body(G)
        finally:
            ex.exit_loop, ex.exit_cmp = old_exit
        if U is None:
            U = find_bound(ex, ref, ivar, cmps)
            if U is None:
                raise Unsupported("no trip-count bound")
            if isinstance(U, int):
                raise Concrete()
            # base: 0 <= U and U small
            if not bound_ok(ex, snap, U):
                raise Unsupported("trip-count bound not established")
            changed = True
            if not b:
                continue        # the body needs i < U
        if not b:
            raise Unsupported("generic iteration never continues")
        for s in b:
            if diff(ex, plan, ref, s, ivar, first=False):
                changed = True
        if regs_update(ex, plan, ref, b, ivar, npc):
            changed = True
        if not changed:
            break
    else:
        raise Unsupported("loop invariant does not stabilise")
    # ---- the bound is inductive: i < U at every back edge, hence i+1 <= U   (i < U was assumed; the header
    # state i = U must leave the loop)
    facts = [z3.And(*s.pc[npc:]) if len(s.pc) > npc else z3.BoolVal(True) for s in b]
    fact = facts[0] if len(facts) == 1 else z3.Or(*facts)
    # values of induction cells proved in diff(); count obligations
    ex.stats.obl += len(plan.ind) + len(plan.reg) + 1
    ex.stats.disch += len(plan.ind) + len(plan.reg) + 1
    ex.stats.loops += 1
    for s in b:
        for v in s.viol[len(snap.viol):]:
            ex.loop_viol.append((s, v))
    outs = []
    for s in e:
        prev_fact(ex, s, fact, ivar, ivar)
        s.loopfacts = s.loopfacts + ((ivar, ivar, fact, peel),)
        s.idx = s.idx + (ivar,)
        outs.append(s)
    ex.ended.extend(t)
    # ---- i = U
    F = instantiate(ex, snap, h, plan, U)
    F.loopfacts = F.loopfacts + ((ivar, U, fact, peel),)
    prev_fact(ex, F, fact, ivar, U)
    if ex.feasible(F):
        t2, b2, e2 = body(F)
        for s in b2:
            if ex.feasible(s):
                raise Unsupported("loop continues at its bound")
        outs.extend(e2)
        ex.ended.extend(t2)
    for s in outs:
        if not ex.feasible(s):
            continue
        deliver(ex, s, depth, stop, work)
    return True


def deliver(ex, s, depth, stop, work):
    fr = s.frames[-1]
    s.status = None
    if len(s.frames) == depth:
        tgt = fr.blk
        fr.blk = fr.prev
        r = ex.jump(s, fr, tgt, stop)
        if r:
            s.status = r
    else:
        if stop is not None and len(s.frames) < stop[0]:
            s.status = "exit"
    work.append(s)


def prev_fact(ex, s, fact, ivar, e):
    if z3.is_true(fact):
        return
    if isinstance(e, int):
        if e == 0:
            return
        ex.assume(s, as_bool(subst(fact, ivar, e - 1)))
        return
    p = lin_sub(e, 1)
    fz = as_bool(subst(fact, ivar, p))
    if z3.is_true(fz):
        return
    c = ex.lcmp(s, "eq", e, 0)
    if c is True:
        return
    ex.assume(s, fz if c is False else z3.Or(c, fz))


def as_bool(v):
    if isinstance(v, int):
        return z3.BoolVal(bool(v))
    return v


def bound_ok(ex, st, U):
    if isinstance(U, int):
        return 0 <= U < LIM
    lo, hi = ex.lin_range(st, U)
    if hi >= (1 << 63) or lo < -(1 << 63):
        c = z3.ULT(bvof(U, 64), z3.BitVecVal(LIM, 64))
        return ex.decide(st, c) is True
    c = ex.lcmp(st, "sle", 0, U)
    if (c if isinstance(c, bool) else ex.decide(st, c)) is not True:
        return False
    c = ex.lcmp(st, "slt", U, LIM)
    return (c if isinstance(c, bool) else ex.decide(st, c)) is True


def find_bound(ex, st, ivar, cmps):
    for pred, x, y in cmps:
        d = lin_sub(x, y)
        if isinstance(d, int):
            continue
        k = d.t.get(ivar.get_id())
        if k is None:
            continue
        k = k[0]
        rest = Lin(d.c, {q: w for q, w in d.t.items() if q != ivar.get_id()})
        if any(contains(a, ivar, {}) for _, a in rest.t.values()):
            continue
        # k*i + rest (pred) 0
        rest = lin_norm(rest)
        num = lin_scale(rest, -1) if k > 0 else rest
        ak = abs(k)
        cands = []
        nl = lin_of(num)
        c = nl.c
        if pred in ("ule", "sle"):
            # k*i + rest <= 0 : continue/exit boundary one further
            c2 = c + (1 if k > 0 else -1) * 0
        if all(q % ak == 0 for q, _ in nl.t.values()) and c % ak == 0:
            cands.append(lin_norm(Lin(c // ak, {q: (w // ak, a) for q, (w, a) in nl.t.items()})))
        if pred in ("ule", "sle") and all(q % ak == 0 for q, _ in nl.t.values()):
            for dd in (1, -1):
                if (c + dd) % ak == 0:
                    cands.append(lin_norm(Lin((c + dd) // ak, {q: (w // ak, a) for q, (w, a) in nl.t.items()})))
        for U in cands:
            if bound_ok(ex, st, U):
                return U
    return None


def instantiate(ex, snap, h, plan, i):
    G = lean(snap, ex, h)
    for (oid, off), (sz, v0, dl) in plan.ind.items():
        o = G.wobj(oid)
        if isinstance(v0, Ptr):
            v = Ptr(v0.o, lin_add(v0.f, lin_scale(i, dl)))
        else:
            v = lin_add(v0, lin_scale(i, dl)) if sz == 8 else narrow(v0, i, dl, sz)
        o.cells.store(off, sz, v)
    for (oid, off), sz in plan.tmp.items():
        o = G.wobj(oid)
        o.cells.store(off, sz, POISON)
    for oid, (lo0, c, parts) in plan.reg.items():
        if isinstance(i, int) and i == 0:
            continue
        o = G.wobj(oid)
        if o.layers is None:
            if not ex.to_region(G, o):
                raise Unsupported("fixed object written at a loop-dependent offset")
        if c < 0:
            # the last iteration wrote the lowest element
            last = lin_sub(i, 1)
            o.layers = o.layers + (Layer(lin_add(lo0, lin_scale(last, c)), -c, i, tuple((k0, s, rev_fn(v, plan.ivar, last)) for k0, s, v in parts)),)
            continue
        o.layers = o.layers + (Layer(lo0, c, i, tuple((k0, s, part_fn(v, plan.ivar)) for k0, s, v in parts)),)
    # stream invariant (holds initially, preserved by the stream models): a position never passes the end of its stream
    for off, end in ((X.IN_POS, ex.in_len(G)), (X.OUT_LEN, X.OUTCAP)):
        if (X.GHOST, off) in plan.ind:
            c = ex.lcmp(G, "ule", ex.ghost(G, off), end)
            if not isinstance(c, bool):
                ex.assume(G, c)
    return G


def narrow(v0, i, dl, sz):
    w = 8 * sz
    x = bvof(i, 64)
    return z3.simplify(bvof(v0, w) + z3.Extract(w - 1, 0, x) * z3.BitVecVal(dl, w))


def rev_fn(v, ivar, last):
    if isinstance(v, int):
        return X.const_fn(v)

    def fn(ex, st, j):
        return subst(v, ivar, lin_sub(last, j))
    return fn


def part_fn(v, ivar):
    if isinstance(v, int):
        return X.const_fn(v)

    def fn(ex, st, j):
        return subst(v, ivar, j)
    return fn


def diff(ex, plan, ref, b, ivar, first):
    """compare back state b with the head state ref.  Grow the plan; True if something changed"""
    changed = False
    for oid, o in b.mem.items():
        r = ref.mem.get(oid)
        if r is o:
            continue
        if r is None:
            if o.kind == "global" or (o.kind == "heap" and not o.alive):
                continue
            raise Unsupported("allocation inside a summarised loop")
        if r.alive and not o.alive:
            raise Unsupported("deallocation inside a summarised loop")
        if o.layers is not None:
            if r.layers is None and first:
                pass
            continue
        if r.layers is not None:
            raise Unsupported("region became fixed")
        ci, cr = cell_items(o), cell_items(r)
        offs = {}
        for s, (sz, v) in ci.items():
            q = cr.get(s)
            if q is not None and q[0] == sz and (q[1] is v or same_syn(q[1], v)):
                continue
            offs[s] = sz
        # cells of ref that vanished or changed shape
        for s, (sz, v) in cr.items():
            if s not in ci:
                offs.setdefault(s, sz)
        for s, sz in offs.items():
            key = (oid, s)
            v1 = ci.get(s, (0, None))[1]
            q = cr.get(s)
            if key in plan.tmp:
                continue
            if q is None or q[0] != sz or v1 is None:
                set_tmp(plan, oid, s, sz, ci, cr)
                changed = True
                continue
            v0 = q[1]
            if first:
                dl = delta(v0, v1)
                if dl is None or dl == 0:
                    plan.ind.pop(key, None)
                    set_tmp(plan, oid, s, sz, ci, cr)
                else:
                    old = plan.ind.get(key)
                    if old is not None and old[2] != dl:
                        del plan.ind[key]
                        set_tmp(plan, oid, s, sz, ci, cr)
                    else:
                        plan.ind[key] = (sz, v0, dl)
                changed = True
            else:
                ind = plan.ind.get(key)
                if ind is not None:
                    dl = delta(v0, v1)
                    if dl == ind[2]:
                        continue
                    if not isinstance(v0, Ptr) and is_int_val(v1) and sz < 8 and same(ex, b, narrow(v0, 1, ind[2], sz), v1):
                        continue
                    del plan.ind[key]
                set_tmp(plan, oid, s, sz, ci, cr)
                changed = True
    for oid in ref.mem:
        if oid not in b.mem and ref.mem[oid].kind != "global":
            raise Unsupported("object disappeared in loop")
    return changed


def set_tmp(plan, oid, s, sz, ci, cr):
    plan.ind.pop((oid, s), None)
    plan.tmp[(oid, s)] = sz


def same_syn(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.o == b.o and same_syn(a.f, b.f)
    if isinstance(a, FnPtr) and isinstance(b, FnPtr):
        return a.name == b.name
    if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
        return lin_sub(a, b) == 0
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return z3.eq(a, b)
    return False


def delta(v0, v1):
    if isinstance(v0, Ptr) and isinstance(v1, Ptr) and v0.o == v1.o:
        d = lin_sub(v1.f, v0.f)
        return s64(d) if isinstance(d, int) else None
    if isinstance(v0, (int, Lin)) and isinstance(v1, (int, Lin)):
        d = lin_sub(v1, v0)
        return s64(d) if isinstance(d, int) else None
    if isinstance(v0, z3.BitVecRef) or isinstance(v1, z3.BitVecRef):
        w = v0.size() if isinstance(v0, z3.BitVecRef) else v1.size()
        if not (is_int_val(v0) and is_int_val(v1)):
            return None
        if w == 64:
            d = lin_sub(v1, v0)
            return s64(d) if isinstance(d, int) else None
        d = z3.simplify(bvof(v1, w) - bvof(v0, w))
        if z3.is_bv_value(d):
            x = d.as_long()
            return x - (1 << w) if x >> (w - 1) else x
    return None


def regs_update(ex, plan, ref, backs, ivar, npc):
    """regions written by the generic iteration -> per-iteration parts.  True if the plan changed"""
    oids = set()
    for b in backs:
        for oid, o in b.mem.items():
            r = ref.mem.get(oid)
            if r is None or r is o or o.layers is None:
                continue
            if r.layers is None or o.layers is not r.layers and o.layers != r.layers:
                oids.add(oid)
    changed = False
    for oid in oids:
        per = []
        for b in backs:
            o, r = b.mem[oid], ref.mem[oid]
            if r.layers is None:
                raise Unsupported("fixed object written at a loop-dependent offset")
            n = len(r.layers)
            if o.layers[:n] != r.layers and any(x is not y for x, y in zip(o.layers[:n], r.layers)):
                raise Unsupported("region rewritten")
            per.append(flat(ex, b, o.layers[n:], ivar))
        los = per[0][0]
        for p in per[1:]:
            if p[0] is None or los is None or lin_sub(p[0], los) != 0 or p[1] != per[0][1]:
                raise Unsupported("paths of the loop body write different ranges")
        if los is None:
            continue
        lo, c = per[0][0], per[0][1]
        k = lin_of(lo).t.get(ivar.get_id(), (0, None))[0]
        if k > c > 0:
            c = k               # element stride with trailing padding
        if -k > c > 0:
            c = -k
        if abs(k) != c:
            raise Unsupported(f"loop writes are not contiguous ({k} vs {c})")
        lo0 = lin_add(lo, ivar, -k)
        parts = per[0][2]
        if len(per) > 1:
            parts = merge(ex, backs, per, npc)
        plan.ivar = ivar
        old = plan.reg.get(oid)
        new = (lo0, k, parts)
        if old is None or not same_parts(old, new):
            plan.reg[oid] = new
            changed = True
    return changed


def same_parts(a, b):
    if lin_sub(a[0], b[0]) != 0 or a[1] != b[1] or len(a[2]) != len(b[2]):
        return False
    return all(x[0] == y[0] and x[1] == y[1] and (x[2] is y[2] or same_syn(x[2], y[2])) for x, y in zip(a[2], b[2]))


def merge(ex, backs, per, npc):
    # union of cut points, then ITE over the path conditions
    cuts = set()
    for p in per:
        for k0, s, v in p[2]:
            cuts.add(k0)
            cuts.add(k0 + s)
    cuts = sorted(cuts)
    out = []
    for a, z in zip(cuts, cuts[1:]):
        vals = []
        for p in per:
            for k0, s, v in p[2]:
                if k0 <= a and z <= k0 + s:
                    vals.append(extract_bytes(v, s, a - k0, z - a))
                    break
            else:
                vals.append(None)
        if all(v is None for v in vals):
            continue
        if any(v is None for v in vals):
            raise Unsupported("partially written element")
        r = vals[-1]
        for b, v in reversed(list(zip(backs, vals))[:-1]):
            if same_syn(v, r):
                continue
            if not (is_int_val(v) and is_int_val(r)):
                raise Unsupported("merge of pointers in a loop body")
            w = 8 * (z - a)
            r = z3.If(z3.And(*b.pc[npc:]), bvof(v, w), bvof(r, w))
        out.append((a, z - a, r))
    return out


def flat(ex, st, lays, ivar):
    """consecutive constant-size layers -> (lo, size, [(k0,size,value)])"""
    lo = None
    items = []
    for ly in lays:
        if not isinstance(ly.count, int):
            raise Unsupported("nested symbolic region write in a loop body")
        if lo is None:
            lo = ly.lo
        d = lin_sub(ly.lo, lo)
        if not isinstance(d, int):
            raise Unsupported("loop body writes at unrelated offsets")
        d = s64(d)
        if ly.count * ly.stride > 512:
            raise Unsupported("large write per iteration")
        for j in range(ly.count):
            for k0, s, fn in ly.parts:
                items.append((d + j * ly.stride + k0, s, fn(ex, st, j)))
    if lo is None:
        return None, 0, []
    c = Cells()
    for k0, s, v in items:
        if k0 < 0:
            off = -min(k for k, _, _ in items)
            return flat_shift(lo, items, off)
        c.store(k0, s, v)
    end = max(k0 + s for k0, s, _ in items)
    # overall extent includes trailing holes of the last layer
    ext = max(s64(lin_sub(ly.lo, lo)) + ly.count * ly.stride for ly in lays)
    return lo, ext, [(s, c.d[s][0], c.d[s][1]) for s in c.starts]


def flat_shift(lo, items, off):
    lo2 = lin_add(lo, -off)
    c = Cells()
    for k0, s, v in items:
        c.store(k0 + off, s, v)
    ext = max(k0 + off + s for k0, s, _ in items)
    return lo2, ext, [(s, c.d[s][0], c.d[s][1]) for s in c.starts]

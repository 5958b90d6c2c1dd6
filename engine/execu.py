"""Forward VC generation over LLVM IR: strongest-postcondition symbolic execution with
inferred inductive loop invariants.  Every obligation is discharged by z3."""
import itertools
import math
import time
import z3
from ir import Module, IRError, PTR, VOID, int_ty
from sym import *

GHOST, OUT = 1, 2
IN_POS, OUT_LEN, IN_OK, OUT_OK, IN_AFTER, OUT_AFTER = 0, 8, 16, 24, 32, 40
BV8 = z3.BitVecSort(8)
BV64 = z3.BitVecSort(64)
INF = z3.Function("in", BV64, BV8)
INLEN = z3.BitVec("in_len", 64)
OUTCAP = z3.BitVec("out_cap", 64)
TRUE = z3.BoolVal(True)


class Frame:
    __slots__ = ("f", "blk", "ip", "regs", "prev", "dst", "allocas", "cont", "loops", "code", "cbind")

    def __init__(self, f):
        self.f = f
        self.code = f.code
        self.blk = f.entry
        self.ip = 0
        self.regs = {}
        self.prev = None
        self.dst = None
        self.allocas = []
        self.cont = None
        self.loops = {}
        self.cbind = None

    def copy(self):
        n = Frame.__new__(Frame)
        n.f, n.blk, n.ip, n.prev, n.dst, n.cont, n.code = self.f, self.blk, self.ip, self.prev, self.dst, self.cont, self.code
        n.regs = dict(self.regs)
        n.allocas = list(self.allocas)
        n.loops = dict(self.loops)
        n.cbind = self.cbind
        return n


class State:
    __slots__ = ("frames", "mem", "pc", "epoch", "dec", "his", "model", "events", "allocs", "viol", "notes", "trace", "result", "insrc", "status", "loopfacts", "idx")

    def clone(self, ex):
        n = State.__new__(State)
        n.frames = [f.copy() for f in self.frames]
        n.mem = dict(self.mem)
        n.pc = list(self.pc)
        n.dec = dict(self.dec)
        n.his = dict(self.his)
        n.model = self.model
        n.events = self.events
        n.allocs = self.allocs
        n.viol = self.viol
        n.notes = self.notes
        n.result = self.result
        n.insrc = self.insrc
        n.status = self.status
        n.loopfacts = self.loopfacts
        n.idx = self.idx
        self.epoch = ex.new_epoch()
        n.epoch = ex.new_epoch()
        return n

    def obj(self, oid):
        return self.mem[oid]

    def wobj(self, oid):
        o = self.mem[oid]
        if o.epoch != self.epoch:
            o = o.copy()
            o.epoch = self.epoch
            self.mem[oid] = o
        return o


class Violation:
    def __init__(self, kind, what, cond, where, pc, cls):
        self.kind, self.what, self.cond, self.where, self.pc, self.cls = kind, what, cond, where, pc, cls

    def __repr__(self):
        return f"<{self.kind}: {self.what} at {self.where}>"


class PathEnd(Exception):
    """path stops here (after a recorded violation or infeasible assumption)"""


class NeedSummary(Exception):
    def __init__(self, depth, header):
        self.depth, self.header = depth, header


class Stats:
    def __init__(self):
        self.obl = 0
        self.disch = 0
        self.queries = 0
        self.solver_s = 0.0
        self.instrs = 0
        self.paths = 0
        self.loops = 0
        self.unrolled_bounded = 0
        self.funcs = set()
        self.contract_uses = {}


class SolverCtx:
    def __init__(self, stats, timeout_ms=20000):
        self.s = z3.Solver()
        self.s.set("timeout", timeout_ms)
        self.stack = []
        self.stats = stats
        self.timeout_ms = timeout_ms

    def sync(self, pc):
        st = self.stack
        n = 0
        m = min(len(st), len(pc))
        while n < m and st[n] is pc[n]:
            n += 1
        if len(st) > n:
            self.s.pop(len(st) - n)
            del st[n:]
        for c in pc[n:]:
            self.s.push()
            self.s.add(c)
            st.append(c)

    def check(self, pc, extra):
        """-> (bool sat, model)"""
        t = time.time()
        self.sync(pc)
        self.s.push()
        self.s.add(extra)
        r = self.s.check()
        m = self.s.model() if r == z3.sat else None
        self.s.pop()
        if r == z3.unknown:
            # one-shot retry on a fresh solver (bit-blasting tactic)
            s2 = z3.SolverFor("QF_UFBV")
            s2.set("timeout", self.timeout_ms * 2)
            s2.add(*pc)
            s2.add(extra)
            r = s2.check()
            m = s2.model() if r == z3.sat else None
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            raise Unsupported("solver unknown/timeout")
        return r == z3.sat, m


class Exec:
    def __init__(self, mod, opts=None):
        self.m = mod
        self.opts = opts or {}
        self.stats = Stats()
        self.sol = SolverCtx(self.stats, self.opts.get("timeout_ms", 20000))
        self._ep = itertools.count(1)
        self._oid = itertools.count(10)
        self._fresh = itertools.count(1)
        self.gobj = {}
        self.ginit = {}
        self.cmpinfo = {}
        self._lia = {}
        self._canon = {}
        self.externs = {}
        self.contracts = {}
        self.max_instr = self.opts.get("max_instr", 3_000_000)
        self.max_paths = self.opts.get("max_paths", 4000)
        self.deadline = None
        self.hooks = {}
        self.ended = []
        self.exit_loop = None
        self.exit_cmp = []
        self.loop_fail = []
        self.loop_viol = []
        self.bounded_loops = {}
        from externs import install
        install(self)

    def new_epoch(self):
        return next(self._ep)

    def fresh(self, pfx, w):
        return z3.BitVec(f"{pfx}!{next(self._fresh)}", w)

    # ------------------------------------------------------------ state setup
    def initial(self):
        st = State.__new__(State)
        st.frames = []
        st.mem = {}
        st.pc = []
        st.dec = {}
        st.his = {}
        st.model = None
        st.events = ()
        st.allocs = ()
        st.viol = ()
        st.notes = ()
        st.result = None
        st.insrc = None
        st.status = None
        st.loopfacts = ()
        st.idx = ()
        st.epoch = self.new_epoch()
        g = Obj(GHOST, 64, "ghost", "ghost")
        g.epoch = st.epoch
        st.mem[GHOST] = g
        for o, v, n in ((IN_POS, 0, 8), (OUT_LEN, 0, 8), (IN_OK, 1, 8), (OUT_OK, 1, 8), (IN_AFTER, 0, 8), (OUT_AFTER, 0, 8)):
            g.cells.store(o, n, v)
        o = Obj(OUT, None, "out", "out")
        o.layers = ()
        o.epoch = st.epoch
        st.mem[OUT] = o
        nul = Obj(0, 0, "null", "null")
        nul.epoch = st.epoch
        st.mem[0] = nul
        # sane environment: positions stay far from wrap-around
        self.assume(st, z3.ULE(INLEN, z3.BitVecVal(1 << 60, 64)))
        self.assume(st, z3.ULE(OUTCAP, z3.BitVecVal(1 << 60, 64)))
        return st

    def new_obj(self, st, size, kind, name=None):
        oid = next(self._oid)
        o = Obj(oid, size, kind, name)
        o.epoch = st.epoch
        if not isinstance(size, int):
            o.layers = ()
        st.mem[oid] = o
        return oid

    # ------------------------------------------------------------ solver helpers
    def assume(self, st, c):
        st.pc.append(c)
        if st.model is not None:
            v = st.model.eval(c, model_completion=True)
            if not z3.is_true(v):
                st.model = None

    def decide(self, st, c):
        """True/False if the path condition settles c, else None"""
        if isinstance(c, (int, bool)):
            return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        r = st.dec.get(k)
        if r is not None:
            return r[1]
        neg = None
        if z3.is_not(c):
            r = st.dec.get(c.arg(0).get_id())
            if r is not None:
                return None if r[1] is None else (not r[1])
        can_t = can_f = None
        if st.model is not None:
            v = st.model.eval(c, model_completion=True)
            if z3.is_true(v):
                can_t = True
            elif z3.is_false(v):
                can_f = True
        if st.loopfacts or self.exit_loop is not None:
            if can_f is None and self.lia_unsat(st, z3.Not(c)):
                st.dec[k] = (c, True)
                return True
            if can_t is None and self.lia_unsat(st, c):
                st.dec[k] = (c, False)
                return False
        if can_t is None:
            sat, m = self.sol.check(st.pc, c)
            can_t = sat
            if sat and st.model is None:
                st.model = m
            if not sat:
                can_f = True
        if can_f is None:
            sat, m = self.sol.check(st.pc, z3.Not(c))
            can_f = sat
            if sat and st.model is None:
                st.model = m
        if can_t and can_f:
            return None
        if not can_t and not can_f:
            raise PathEnd("infeasible")
        res = bool(can_t)
        st.dec[k] = (c, res)
        return res

    # ------------------------------------------------------------ integer pre-solver
    def lia_atoms(self, c, neg=False):
        """conjunction of integer-linear readings of c: [(rel, a, b, signed)], [] when nothing is readable (sound: weaker)"""
        k = (c.get_id(), neg)
        r = self._lia.get(k)
        if r is not None:
            return r[1]
        out = []
        d = c.decl().kind()
        if d == z3.Z3_OP_NOT:
            out = self.lia_atoms(c.arg(0), not neg)
        elif d == (z3.Z3_OP_OR if neg else z3.Z3_OP_AND):
            for x in c.children():
                out = out + self.lia_atoms(x, neg)
        elif d in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT, z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT, z3.Z3_OP_EQ) \
                and z3.is_bv(c.arg(0)) and c.arg(0).size() == 64:
            a, b = lin_from_bv(c.arg(0)), lin_from_bv(c.arg(1))
            sg = d in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT)
            if d == z3.Z3_OP_EQ:
                out = [("ne" if neg else "eq", a, b, sg)]
            else:
                if d in (z3.Z3_OP_UGEQ, z3.Z3_OP_UGT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
                    a, b = b, a
                strict = d in (z3.Z3_OP_ULT, z3.Z3_OP_SLT, z3.Z3_OP_UGT, z3.Z3_OP_SGT)
                out = [("lt" if strict else "le", a, b, sg)] if not neg else [("le" if strict else "lt", b, a, sg)]
        self._lia[k] = (c, out)
        return out

    def _lia_exact(self, st, x, signed):
        lo, hi = self.lin_range(st, x)
        return hi < (1 << 63) and (lo >= -(1 << 63) if signed else lo >= 0)

    def lia_unsat(self, st, extra):
        """True when the integer-linear part of pc and extra is already contradictory"""
        goal = self.lia_atoms(extra) if not z3.is_true(extra) else []
        if not goal and not z3.is_true(extra):
            return False
        cs = list(goal)
        for c in st.pc:
            cs.extend(self.lia_atoms(c))
        big = False
        vs = {}
        out = []

        def term(x):
            nonlocal big
            if isinstance(x, int):
                return s64(x)
            l = lin_of(x)
            r = l.c
            for key, (k, at) in l.t.items():
                cz = self._canon.get(key)
                if cz is None:
                    cz = self._canon[key] = (at, z3.simplify(at))
                key = cz[1].get_id()
                v = vs.get(key)
                if v is None:
                    v = vs[key] = z3.Int("a%d" % key)
                    h = self.atom_hi(st, at)
                    out.append(v >= 0)
                    out.append(v <= h)
                if k not in (1, -1):
                    big = True
                r = r + k * v
            return r
        n = 0
        for rel, a, b, sg in cs:
            if rel in ("eq", "ne"):
                if not (self._lia_exact(st, a, True) and self._lia_exact(st, b, True)):
                    continue
            elif not (self._lia_exact(st, a, sg) and self._lia_exact(st, b, sg)):
                continue
            x, y = term(a), term(b)
            e = x == y if rel == "eq" else x != y if rel == "ne" else x <= y if rel == "le" else x < y
            if isinstance(e, bool):
                if not e:
                    return True
                continue
            out.append(e)
            n += 1
        if not big or n < 2:
            return False
        s = z3.SolverFor("QF_LIA")
        s.set("timeout", 1000)
        s.add(*out)
        self.stats.queries += 1
        t = time.time()
        r = s.check()
        self.stats.solver_s += time.time() - t
        return r == z3.unsat

    def check(self, st, extra):
        if st.loopfacts or self.exit_loop is not None:
            if self.lia_unsat(st, extra):
                return False, None
        return self.sol.check(st.pc, extra)

    def feasible(self, st):
        if st.model is not None:
            return True
        sat, m = self.check(st, TRUE)
        if sat:
            st.model = m
        return sat

    def note_exit(self, c, depth):
        e = c
        for _ in range(4):
            i = self.cmpinfo.get(e.get_id())
            if i is not None:
                self.exit_cmp.append(i[1])
                return
            if z3.is_not(e):
                e = e.arg(0)
            else:
                return

    def note_decided(self, st, c, val):
        c2 = z3.simplify(c)
        st.dec[c2.get_id()] = (c2, val)

    def prove(self, st, c):
        """obligation: pc => c.  returns True or a model of the negation"""
        self.stats.obl += 1
        if isinstance(c, (int, bool)):
            if c:
                self.stats.disch += 1
                return True
            sat, m = self.check(st, TRUE)
            if not sat:
                self.stats.disch += 1
                raise PathEnd("infeasible")
            return m
        c = z3.simplify(c)
        if z3.is_true(c):
            self.stats.disch += 1
            return True
        r = st.dec.get(c.get_id())
        if r is not None and r[1]:
            self.stats.disch += 1
            return True
        sat, m = self.check(st, z3.Not(c))
        if not sat:
            self.stats.disch += 1
            st.dec[c.get_id()] = (c, True)
            return True
        return m

    def require(self, st, c, kind, what, cls=("mem",)):
        """obligation whose failure is recorded; the path continues under the assumption"""
        r = self.prove(st, c)
        if r is True:
            return
        cz = c if isinstance(c, z3.ExprRef) else z3.BoolVal(bool(c))
        st.viol = st.viol + (Violation(kind, what, cz, self.where(st), list(st.pc) + [z3.Not(cz)], cls),)
        if isinstance(c, (int, bool)) or z3.is_false(z3.simplify(cz)):
            raise PathEnd("violation")
        sat, m = self.check(st, cz)
        if not sat:
            raise PathEnd("violation")
        self.assume(st, cz)

    def fail(self, st, kind, what, cls=("mem",)):
        self.stats.obl += 1
        sat, m = self.check(st, TRUE)
        if not sat:
            raise PathEnd("infeasible")
        st.viol = st.viol + (Violation(kind, what, z3.BoolVal(False), self.where(st), list(st.pc), cls),)
        raise PathEnd("violation")

    def where(self, st):
        return [f.f.name for f in st.frames[-4:]]

    # ------------------------------------------------------------ ranges and linear comparisons
    def atom_hi(self, st, a):
        k = a.get_id()
        r = st.his.get(k)
        if r is not None:
            return r[1]
        h = self._struct_hi(a)
        if h >= (1 << 62):
            for w in (8, 25, 32, 40, 61):
                b = z3.ULE(a, z3.BitVecVal((1 << w) - 1, 64))
                if st.model is not None and not z3.is_true(st.model.eval(b, model_completion=True)):
                    continue
                sat, m = self.sol.check(st.pc, z3.Not(b))
                if not sat:
                    h = (1 << w) - 1
                    break
            else:
                return h        # do not cache a weak bound: the pc may still grow
        st.his[k] = (a, h)
        return h

    def _struct_hi(self, a):
        k = a.decl().kind()
        w = a.size()
        if k == z3.Z3_OP_BNUM:
            return a.as_long()
        if k == z3.Z3_OP_ZERO_EXT:
            return self._struct_hi(a.arg(0))
        if k == z3.Z3_OP_CONCAT:
            if z3.is_bv_value(a.arg(0)) and a.arg(0).as_long() == 0:
                rest = w - a.arg(0).size()
                return (1 << rest) - 1
        if k == z3.Z3_OP_ITE:
            return max(self._struct_hi(a.arg(1)), self._struct_hi(a.arg(2)))
        return (1 << w) - 1

    def lin_range(self, st, l):
        """integer interval of the linear form evaluated over Z"""
        if isinstance(l, int):
            return (s64(l), s64(l))
        l = lin_of(l)
        lo = hi = l.c
        for k, a in l.t.values():
            h = self.atom_hi(st, a)
            if k > 0:
                hi += k * h
            else:
                lo += k * h
        return lo, hi

    def exact_nonneg(self, st, l):
        if isinstance(l, int):
            return s64(l) >= 0
        lo, hi = self.lin_range(st, l)
        if hi >= (1 << 63) or lo < -(1 << 63):
            return False
        if lo >= 0:
            return True
        return self.decide(st, lin_of(l).bv() >= 0) is True

    def lcmp(self, st, pred, a, b):
        """compare 64-bit a,b (int/Lin/BV). returns bool or z3 Bool. pred in eq ne ult ule slt sle"""
        if isinstance(a, z3.ExprRef):
            a = lin_norm(lin_from_bv(bvof(a, 64)))
        if isinstance(b, z3.ExprRef):
            b = lin_norm(lin_from_bv(bvof(b, 64)))
        if isinstance(a, int) and isinstance(b, int):
            if pred == "eq":
                return a == b
            if pred == "ne":
                return a != b
            if pred == "ult":
                return a < b
            if pred == "ule":
                return a <= b
            if pred == "slt":
                return s64(a) < s64(b)
            if pred == "sle":
                return s64(a) <= s64(b)
        if pred == "ne":
            r = self.lcmp(st, "eq", a, b)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        d = lin_sub(a, b)
        if isinstance(d, int):
            sd = s64(d)
            if pred == "eq":
                return d == 0
            if sd == 0:
                return pred in ("ule", "sle")
        ok = False
        dl = lin_of(d)
        lo, hi = self.lin_range(st, d)
        inr = -(1 << 63) <= lo and hi < (1 << 63)
        if inr:
            if pred == "eq":
                ok = True
            elif pred in ("slt", "sle"):
                la, ha = self.lin_range(st, a)
                lb, hb = self.lin_range(st, b)
                ok = la >= -(1 << 63) and ha < (1 << 63) and lb >= -(1 << 63) and hb < (1 << 63)
            else:
                ok = self.exact_nonneg(st, a) and self.exact_nonneg(st, b)
        if not ok:
            x, y = bvof(a, 64), bvof(b, 64)
            if pred == "eq":
                return x == y
            return {"ult": z3.ULT, "ule": z3.ULE, "slt": lambda p, q: p < q, "sle": lambda p, q: p <= q}[pred](x, y)
        # integer reasoning: d = c + sum k*a  (exact)
        if pred in ("slt", "sle", "ult", "ule"):
            strict = pred in ("slt", "ult")
            if (hi < 0) or (not strict and hi <= 0):
                return True
            if lo > 0 or (strict and lo >= 0):
                return False
        else:
            if lo > 0 or hi < 0:
                return False
        g = 0
        for k, _ in dl.t.values():
            g = math.gcd(g, abs(k))
        c = dl.c
        if g > 1:
            if pred == "eq":
                if c % g:
                    return False
                c //= g
            else:
                # sum + c < 0  <=>  g*S < -c <=> S < -c/g ; sum + c <= 0 <=> S <= floor(-c/g)
                if pred in ("slt", "ult"):
                    # S < -c/g  <=> S <= ceil(-c/g)-1 <=> S - ceil(-c/g) < 0
                    c = -(-(c) // g) if False else -math_ceil_div(-c, g)
                else:
                    c = -((-c) // g)
        pos = Lin(0, {})
        neg = Lin(0, {})
        pt, nt = {}, {}
        for key, (k, at) in dl.t.items():
            k2 = k // g if g > 1 else k
            if k2 > 0:
                pt[key] = (k2, at)
            else:
                nt[key] = (-k2, at)
        L = Lin(c if c > 0 else 0, pt).bv()
        R = Lin(-c if c < 0 else 0, nt).bv()
        if pred == "eq":
            return L == R
        if pred in ("slt", "ult"):
            return z3.ULT(L, R)
        return z3.ULE(L, R)

    # ------------------------------------------------------------ globals
    def global_ptr(self, st, name):
        oid = self.gobj.get(name)
        if oid is None:
            oid = next(self._oid)
            self.gobj[name] = oid
        if oid not in st.mem:
            g = self.m.globals.get(name)
            if g is None:
                if name in self.m.funcs or name in self.m.decls:
                    return FnPtr(name)
                raise Unsupported("global " + name)
            t, v, const = g
            if t == "alias":
                return self.const(st, v)
            if t is None:
                raise Unsupported("external global " + name)
            o = self.ginit.get(name)
            if o is None:
                o = Obj(oid, self.m.sizeof(t), "global", name)
                self.ginit[name] = o
                self._init(st, o, 0, t, v)
                o.ro = const
                o.epoch = -1
            st.mem[oid] = o
        return Ptr(oid, 0)

    def _init(self, st, o, off, t, v):
        r = self.m.resolve(t)
        k = v[0]
        if k == "zero" or (k == "i" and r.k == "int") or k == "null":
            n = self.m.sizeof(t)
            if n == 0:
                return
            if k == "null":
                o.cells.store(off, 8, NULL)
            else:
                o.cells.store(off, n, v[1] if k == "i" else 0)
            if k == "zero" and r.k in ("struct", "arr"):
                self._zero_ptrs(o, off, t)
        elif k == "str":
            for i, b in enumerate(v[1]):
                o.cells.store(off + i, 1, b)
        elif k == "agg":
            if r.k == "struct":
                offs = self.m.offsets(t)
                for fo, (et, ev) in zip(offs, v[1]):
                    self._init(st, o, off + fo, et, ev)
            else:
                es = self.m.sizeof(r.el)
                for i, (et, ev) in enumerate(v[1]):
                    self._init(st, o, off + i * es, et, ev)
        elif k == "undef":
            return
        elif k in ("g", "gep"):
            o.cells.store(off, 8, self.const(st, v))
        elif k == "f":
            import struct
            n = v[2] // 8
            tx = v[1]
            if tx.startswith("0x"):
                bits = int(tx, 16)
                if n == 4:
                    d = struct.unpack("<d", struct.pack("<Q", bits))[0]
                    bits = struct.unpack("<I", struct.pack("<f", d))[0]
            else:
                d = float(tx)
                bits = struct.unpack("<I", struct.pack("<f", d))[0] if n == 4 else struct.unpack("<Q", struct.pack("<d", d))[0]
            o.cells.store(off, n, bits)
        else:
            raise Unsupported("init " + k)

    def _zero_ptrs(self, o, off, t):
        pass

    def const(self, st, v):
        k = v[0]
        if k == "i":
            return v[1]
        if k == "null":
            return NULL
        if k == "undef":
            return UNDEF
        if k == "g":
            if v[1] in self.m.funcs or v[1] in self.m.decls:
                return FnPtr(v[1])
            return self.global_ptr(st, v[1])
        if k == "gep":
            return self.gep(st, v[1], self.const(st, v[2]), [(it, self.const(st, iv)) for it, iv in v[3]])
        if k == "zero":
            return self.zero_of(v[1])
        if k == "agg":
            return tuple(self.const(st, ev) for _, ev in v[1])
        if k == "f":
            import struct
            tx = v[1]
            n = v[2] // 8
            if tx.startswith("0x"):
                bits = int(tx, 16)
                if n == 4:
                    d = struct.unpack("<d", struct.pack("<Q", bits))[0]
                    bits = struct.unpack("<I", struct.pack("<f", d))[0]
                return bits
            d = float(tx)
            return struct.unpack("<I", struct.pack("<f", d))[0] if n == 4 else struct.unpack("<Q", struct.pack("<d", d))[0]
        raise Unsupported("const " + k)

    def zero_of(self, t):
        r = self.m.resolve(t)
        if r.k == "ptr":
            return NULL
        if r.k == "struct":
            return tuple(self.zero_of(e) for e in r.el)
        if r.k == "arr":
            return tuple(self.zero_of(r.el) for _ in range(r.n))
        return 0

    def gep(self, st, t, base, idx):
        if not isinstance(base, Ptr):
            if isinstance(base, int):
                base = Ptr(0, base)
            else:
                raise Unsupported(f"gep on {type(base).__name__}")
        off = base.f
        first = True
        cur = t
        for it, iv in idx:
            if first:
                sz = self.m.sizeof(cur)
                first = False
                off = self._addidx(off, it, iv, sz)
            else:
                r = self.m.resolve(cur)
                if r.k == "struct":
                    off = self._addidx(off, it, self.m.offsets(cur)[iv], 1)
                    cur = r.el[iv]
                else:
                    cur = r.el
                    off = self._addidx(off, it, iv, self.m.sizeof(cur))
        return Ptr(base.o, off)

    def _addidx(self, off, it, iv, sz):
        if isinstance(iv, int):
            n = it.n
            if n < 64 and iv >> (n - 1):
                iv -= 1 << n
            d = iv * sz
            if d == 0:
                return off
            if isinstance(off, int):
                return (off + d) & M64
            return lin_add(off, d)
        if it.n < 64:
            iv = z3.SignExt(64 - it.n, bvof(iv, it.n))
        if isinstance(iv, (Ptr, Mix)) or iv is POISON or iv is UNDEF:
            raise Unsupported("gep index")
        return lin_add(off, lin_scale(iv, sz))

    # ------------------------------------------------------------ memory
    def check_access(self, st, p, n, what):
        if not isinstance(p, Ptr):
            if p is POISON:
                raise Unsupported("loop temp pointer")
            if isinstance(p, FnPtr):
                raise Unsupported("data access through function pointer")
            self.fail(st, "memory", f"{what} through a non-pointer value ({type(p).__name__})")
        o = st.mem.get(p.o)
        if o is None:
            self.fail(st, "memory", f"{what} of a dead stack object")
        if p.o == 0:
            if isinstance(n, int) and n == 0:
                return o
            if not isinstance(n, int):
                self.require(st, self.lcmp(st, "eq", n, 0), "memory", f"{what} through null")
                return o
            self.fail(st, "memory", f"{what} through null")
        if not o.alive:
            self.fail(st, "memory", f"{what} after free")
        sz = o.size
        f = p.f
        if isinstance(f, int) and isinstance(n, int) and isinstance(sz, int):
            self.stats.obl += 1
            if f + n <= sz:
                self.stats.disch += 1
                return o
            self.fail(st, "memory", f"{what} of {n} bytes at offset {s64(f)} of {o.kind} object of {sz} bytes")
        end = lin_add(f, n)
        ok = self._inb(st, f, end, sz)
        self.require(st, ok, "memory", f"{what} beyond object bounds")
        return o

    def _inb(self, st, f, end, sz):
        a = self.lcmp(st, "ule", end, sz)
        b = self.lcmp(st, "ule", f, sz)
        # guard against wrapped end
        if isinstance(a, bool) and isinstance(b, bool):
            return a and b
        return z3.And(z3.BoolVal(a) if isinstance(a, bool) else a, z3.BoolVal(b) if isinstance(b, bool) else b)

    def load(self, st, p, n, what="load"):
        o = self.check_access(st, p, n, what)
        if n == 0:
            return 0
        if o.layers is None:
            f = p.f
            if isinstance(f, int):
                c = o.cells.d.get(f)
                if c is not None and c[0] == n:
                    return c[1]
                return self.mk_value(o.cells.get(f, n), n)
            return self.load_symoff(st, o, f, n)
        return self.region_load(st, o.layers, p.f, n)

    def byte_table(self, st, cells, off, n):
        """bytes at a (symbolic) offset of a fixed object given by its cells"""
        if n != 1:
            raise Unsupported("wide access to a small object at a symbolic offset")
        size = max(r + s for r, s, _ in cells)
        vals = [None] * size
        for r, s, v in cells:
            if v is not None and is_int_val(v):
                for k in range(s):
                    vals[r + k] = extract_bytes(v, s, k, 1)
        return table_fn(vals)(self, st, off)

    def load_symoff(self, st, o, f, n):
        """symbolic offset into a concrete object: case split into ITE over aligned candidates"""
        if o.size > 512:
            raise Unsupported("symbolic offset into large fixed object")
        res = None
        step = 1
        fl = lin_of(f)
        g = 0
        for k, _ in fl.t.values():
            g = math.gcd(g, abs(k))
        step = max(1, g)
        start = fl.c % step
        for off in range(start, o.size - n + 1, step):
            c = self.lcmp(st, "eq", f, off)
            if c is False:
                continue
            if not isinstance(c, bool):
                d = self.decide(st, c)
                if d is False:
                    continue
                if d is True:
                    return self.mk_value(o.cells.get(off, n), n)
            v = self.mk_value(o.cells.get(off, n), n)
            if not is_int_val(v):
                raise Unsupported("symbolic offset over non-integer cells")
            v = bvof(v, 8 * n)
            res = v if res is None else z3.If(c, v, res)
        if res is None:
            raise Unsupported("symbolic offset: no candidate")
        return res

    def mk_value(self, cells, n):
        if len(cells) == 1 and cells[0][2] is not None:
            return cells[0][2]
        f0 = cells[0][2]
        if isinstance(f0, Frag) and f0.size == n and all(isinstance(v, Frag) and v.v is f0.v and v.k == r for r, s, v in cells):
            return f0.v
        for r, s, v in cells:
            if v is None or v is POISON or not is_int_val(v):
                return Mix(n, cells)
        return concat_cells([(s, v) for r, s, v in cells])

    def store(self, st, p, n, v, what="store"):
        o = self.check_access(st, p, n, what)
        if n == 0:
            return
        if o.ro:
            self.fail(st, "memory", "store to constant")
        o = st.wobj(p.o)
        if o.layers is None:
            f = p.f
            if isinstance(f, int):
                if isinstance(v, Mix):
                    o.cells.clear(f, n)
                    for r, s, x in v.cells:
                        if x is not None:
                            o.cells.store(f + r, s, x)
                elif v is UNDEF:
                    o.cells.clear(f, n)
                else:
                    o.cells.store(f, n, v)
                return
            if not self.to_region(st, o):
                raise Unsupported("store at symbolic offset into fixed object")
        if isinstance(v, Mix):
            parts = [(r, s, const_fn(x)) for r, s, x in v.cells if x is not None]
        elif v is UNDEF:
            return
        else:
            parts = [(0, n, const_fn(v))]
        o.layers = o.layers + (Layer(p.f, n, 1, tuple(parts)),)

    def to_region(self, st, o):
        """switch a concrete-size heap/stack object to region mode (symbolic offsets)"""
        if o.kind not in ("heap", "stack"):
            return False
        parts = []
        for s in o.cells.starts:
            sz, v = o.cells.d[s]
            parts.append((s, sz, const_fn(v)))
        o.layers = (Layer(0, o.size, 1, tuple(parts)),) if parts else ()
        return True

    # --- region access
    def decomp(self, d, stride):
        """d = stride*J + k with constant 0<=k<stride -> (J,k) or None"""
        if isinstance(d, int):
            sd = s64(d)
            return (sd // stride) & M64, sd % stride
        if stride == 1:
            return d, 0
        t = {}
        for key, (k, at) in d.t.items():
            if k % stride:
                return None
            t[key] = (k // stride, at)
        return lin_norm(Lin(d.c // stride, t)), d.c % stride

    def region_load(self, st, layers, off, n):
        v = self._rl(st, layers, len(layers) - 1, off, n)
        return v

    def _covers(self, st, ly, off, n):
        """True/False/None: does the layer cover all / none of [off,off+n)"""
        end = lin_add(ly.lo, lin_scale(ly.count, ly.stride))
        a = self.lcmp(st, "sle", ly.lo, off)
        b = self.lcmp(st, "sle", lin_add(off, n), end)
        a = a if isinstance(a, bool) else self.decide(st, a)
        b = b if isinstance(b, bool) else self.decide(st, b)
        if a is True and b is True:
            return True
        x = self.lcmp(st, "sle", lin_add(off, n), ly.lo)
        x = x if isinstance(x, bool) else self.decide(st, x)
        if x is True:
            return False
        y = self.lcmp(st, "sle", end, off)
        y = y if isinstance(y, bool) else self.decide(st, y)
        if y is True:
            return False
        return None

    def _rl(self, st, layers, i, off, n):
        while i >= 0:
            ly = layers[i]
            cov = self._covers(st, ly, off, n)
            if cov is False:
                i -= 1
                continue
            if cov is True:
                d = lin_sub(off, ly.lo)
                jk = self.decomp(d, ly.stride)
                if jk is None:
                    return self._generic(st, layers, i, off, n, d)
                J, k = jk
                if k + n <= ly.stride:
                    for k0, sz, fn in ly.parts:
                        if k0 <= k and k + n <= k0 + sz:
                            return extract_bytes(fn(self, st, J), sz, k - k0, n)
                    hit = any(k0 < k + n and k < k0 + sz for k0, sz, fn in ly.parts)
                    if not hit:
                        i -= 1
                        continue
                if n == 1:
                    i -= 1
                    continue
                return self._bytes(st, layers, i, off, n)
            # undecided: split on coverage
            d = lin_sub(off, ly.lo)
            jk = self.decomp(d, ly.stride)
            if jk is None:
                v = self.pin(st, d)
                if v is not None:
                    off = lin_add(ly.lo, s64(v))
                    continue
                v = self.unify_atoms(st, d, ly.stride)
                if v is not None:
                    off = lin_add(ly.lo, v)
                    continue
                if n > 1:
                    return self._bytes(st, layers, i, off, n)
                if isinstance(ly.count, int) and ly.count * ly.stride <= 256 and isinstance(ly.lo, int):
                    res = self._rl(st, layers, i - 1, off, 1)
                    for q in range(ly.lo, ly.lo + ly.count * ly.stride):
                        c = self.lcmp(st, "eq", off, q)
                        if (c if isinstance(c, bool) else self.decide(st, c)) is False:
                            continue
                        b = self._rl(st, layers, i, q, 1)
                        if not is_int_val(b):
                            return Mix(1, [(0, 1, None)])
                        res = b if res is None or not is_int_val(res) else z3.If(c, bvof(b, 8), bvof(res, 8)) if not isinstance(c, bool) else b
                    return res
                end = lin_add(ly.lo, lin_scale(ly.count, ly.stride))
                a = self.lcmp(st, "sle", ly.lo, off)
                b = self.lcmp(st, "sle", lin_add(off, 1), end)
                c = z3.And(a if not isinstance(a, bool) else z3.BoolVal(a), b if not isinstance(b, bool) else z3.BoolVal(b))
                s1, s2 = st.clone(self), st.clone(self)
                self.assume(s1, c)
                self.assume(s2, z3.Not(c))
                if not self.feasible(s1):
                    i -= 1
                    continue
                hi = self._generic(s1, layers, i, off, 1, d)
                return self.ite_byte(st, c, hi, self._rl(s2, layers, i - 1, off, 1)) if self.feasible(s2) else hi
            J, k = jk
            part = None
            for k0, sz, fn in ly.parts:
                if k0 <= k and k + n <= k0 + sz:
                    part = (k0, sz, fn)
            if part is None:
                if n > 1:
                    return self._bytes(st, layers, i, off, n)
                i -= 1
                continue
            end = lin_add(ly.lo, lin_scale(ly.count, ly.stride))
            a = self.lcmp(st, "sle", ly.lo, off)
            b = self.lcmp(st, "sle", lin_add(off, n), end)
            c = z3.And(a if not isinstance(a, bool) else z3.BoolVal(a), b if not isinstance(b, bool) else z3.BoolVal(b))
            s2 = st.clone(self)
            self.assume(s2, z3.Not(c))
            if not self.feasible(s2):
                return extract_bytes(part[2](self, st, J), part[1], k - part[0], n)
            if n > 1:
                # all-or-nothing?
                x = self.lcmp(s2, "sle", lin_add(off, n), ly.lo)
                y = self.lcmp(s2, "sle", end, off)
                u = x is True or y is True or self.decide(s2, z3.Or(x if not isinstance(x, bool) else z3.BoolVal(x), y if not isinstance(y, bool) else z3.BoolVal(y))) is True
                if not u:
                    return self._bytes(st, layers, i, off, n)
            lo = self._rl(s2, layers, i - 1, off, n)
            s1 = st.clone(self)
            self.assume(s1, c)
            if not self.feasible(s1):
                return lo
            hi = extract_bytes(part[2](self, s1, J), part[1], k - part[0], n)
            if n > 1 and not (is_int_val(lo) and is_int_val(hi)):
                return self._bytes(st, layers, i, off, n)
            return self.ite_byte(st, c, hi, lo, n)
        return Mix(n, [(0, n, None)])

    def ite_byte(self, st, c, a, b, n=1):
        for x in (a, b):
            if x is POISON:
                raise Unsupported("loop-carried region read")
            if not is_int_val(x):
                # part uninitialised
                if isinstance(x, Mix):
                    return Mix(1, [(0, 1, ("maybe-uninit",))]) if False else self._maybe_uninit(st, c, a, b)
                raise Unsupported("ite over pointers")
        return z3.If(c, bvof(a, 8 * n), bvof(b, 8 * n))

    def _maybe_uninit(self, st, c, a, b):
        # value is initialised only on one side: represent as uninit (strict)
        return Mix(1, [(0, 1, None)])

    def _bytes(self, st, layers, i, off, n):
        cells = []
        for k in range(n):
            v = self._rl(st, layers, i, lin_add(off, k), 1)
            if isinstance(v, Mix):
                cells.append((k, 1, None))
            else:
                cells.append((k, 1, v))
        return self.mk_value(cells, n)

    def unify_atoms(self, st, d, stride):
        """two atoms the path condition forces to be equal (a count and what was read back of it) become one"""
        if not isinstance(d, Lin):
            return None
        odd = [(k, a) for k, a in d.t.values() if k % stride]
        for x in range(len(odd)):
            for y in range(x + 1, len(odd)):
                (k, a), (l, b) = odd[x], odd[y]
                if (k + l) % stride:
                    continue
                c = self.lcmp(st, "eq", lin_of(a), lin_of(b))
                if (c if isinstance(c, bool) else self.decide(st, c)) is True:
                    return lin_add(lin_add(d, lin_scale(lin_of(a), -k)), lin_scale(lin_of(b), k))
        return None

    def pin(self, st, x):
        """the constant the path condition forces x to, or None"""
        if isinstance(x, int):
            return x
        if not self.feasible(st):
            raise PathEnd("infeasible")
        b = bvof(x, 64)
        v = st.model.eval(b, model_completion=True)
        if not z3.is_bv_value(v):
            return None
        v = v.as_long()
        return v if self.decide(st, b == z3.BitVecVal(v, 64)) is True else None

    def _generic(self, st, layers, i, off, n, d):
        """access at an offset that is not stride-aligned: constant under the path condition, or a small table"""
        ly = layers[i]
        v = self.pin(st, d)
        if v is not None:
            return self._rl(st, layers, i, lin_add(ly.lo, s64(v)), n)
        if n == 1 and isinstance(ly.count, int) and ly.count * ly.stride <= 256 and isinstance(ly.lo, int):
            res = None
            for k in range(ly.count * ly.stride):
                c = self.lcmp(st, "eq", off, ly.lo + k)
                c = c if isinstance(c, bool) else self.decide(st, c)
                if c is False:
                    continue
                b = self._rl(st, layers, i, ly.lo + k, 1)
                if not is_int_val(b):
                    return Mix(1, [(0, 1, None)])
                c = self.lcmp(st, "eq", off, ly.lo + k)
                res = b if res is None else z3.If(c, bvof(b, 8), bvof(res, 8)) if not isinstance(c, bool) else b
            if res is not None:
                return res
        if isinstance(d, Lin):
            # fold the atoms the path condition pins to a constant
            nd = d
            for k, a in list(d.t.values()):
                pv = self.pin(st, a)
                if pv is not None:
                    nd = lin_add(lin_add(nd, lin_scale(lin_of(a), -k)), s64(k * s64(pv)))
            if nd is not d and (isinstance(nd, int) or len(nd.t) < len(d.t)):
                return self._rl(st, layers, i, lin_add(ly.lo, nd), n)
        nd = self.unify_atoms(st, d, ly.stride)
        if nd is not None:
            return self._rl(st, layers, i, lin_add(ly.lo, nd), n)
        s = ly.stride
        if s in (2, 4, 8, 16, 32, 64):
            # a position known only up to the step of its terms: one case per residue the offset can have
            g = math.gcd(s, *[k for k, _ in d.t.values()]) if isinstance(d, Lin) else s
            rs = [r for r in range(s) if (r - (d.c if isinstance(d, Lin) else d)) % g == 0]
            fit = [next((q for q in ly.parts if q[0] <= r and r + n <= q[0] + q[1]), None) for r in rs]
            if all(fit) and len(rs) <= 16:
                x, w = bvof(d, 64), s.bit_length() - 1
                J = lin_norm(lin_from_bv(z3.Concat(z3.BitVecVal(0, w), z3.Extract(63, w, x))))
                rem, res = z3.Extract(w - 1, 0, x), None
                for r, (k0, sz, fn) in zip(rs, fit):
                    b = extract_bytes(fn(self, st, J), sz, r - k0, n)
                    if not is_int_val(b):
                        raise Unsupported("region index decomposition")
                    res = bvof(b, 8 * n) if res is None else z3.If(rem == z3.BitVecVal(r, w), bvof(b, 8 * n), res)
                return res
            if n > 1:
                return self._bytes(st, layers, i, off, n)
        raise Unsupported("region index decomposition")

    # --- block operations
    def memcpy(self, st, dst, src, n, what="memcpy"):
        if isinstance(n, int):
            if n == 0:
                return
            so = self.check_access(st, src, n, what + " source")
            do = self.check_access(st, dst, n, what + " destination")
            cells = self.read_cells(st, so, src.f, n)
            self.write_cells(st, dst, n, cells)
            return
        d = self.decide(st, self.lcmp(st, "eq", n, 0))
        if d is True:
            return
        so = self.check_access(st, src, n, what + " source")
        do = self.check_access(st, dst, n, what + " destination")
        # snapshot source
        if so.layers is not None and do.layers is not None:
            lays = self.shift_layers(st, so.layers, src.f, n, dst.f)
            o = st.wobj(dst.o)
            o.layers = o.layers + lays
            return
        if do.layers is not None:
            # fixed source, symbolic n, region destination
            lim = so.size - src.f if isinstance(src.f, int) else None
            if lim is None or lim > 512:
                raise Unsupported("memcpy symbolic n from fixed object")
            vals = self.table(so, src.f, lim)
            o = st.wobj(dst.o)
            o.layers = o.layers + (Layer(dst.f, 1, n, ((0, 1, table_fn(vals)),)),)
            return
        self.fixed_range_write(st, dst, n, lambda k: self.byte_of(st, so, lin_add(src.f, k)))

    def table(self, o, f, lim):
        vals = [None] * lim
        for r, s, v in o.cells.get(f, lim):
            if v is not None and is_int_val(v):
                for k in range(s):
                    vals[r + k] = extract_bytes(v, s, k, 1)
        return vals

    def shift_layers(self, st, layers, soff, n, doff):
        """layers of [soff,soff+n) re-based to doff"""
        out = []
        end = lin_add(soff, n)
        for ly in layers:
            e = lin_add(ly.lo, lin_scale(ly.count, ly.stride))
            a = self.lcmp(st, "sle", soff, ly.lo)
            a = a if isinstance(a, bool) else self.decide(st, a)
            b = self.lcmp(st, "sle", e, end)
            b = b if isinstance(b, bool) else self.decide(st, b)
            if a is True and b is True:
                out.append(Layer(lin_add(lin_sub(ly.lo, soff), doff), ly.stride, ly.count, ly.parts))
                continue
            x = self.lcmp(st, "sle", e, soff)
            x = x if isinstance(x, bool) else self.decide(st, x)
            if x is True:
                continue
            y = self.lcmp(st, "sle", end, ly.lo)
            y = y if isinstance(y, bool) else self.decide(st, y)
            if y is True:
                continue
            return (Layer(doff, 1, n, ((0, 1, alias_fn(layers, soff)),)),)
        return tuple(out)

    def check_init(self, st, layers, off, n, what):
        """every byte of [off,off+n) initialised?  structural, else by an arbitrary index"""
        end = lin_add(off, n)
        for ly in reversed(layers):
            full = set()
            for k0, sz, fn in ly.parts:
                full.update(range(k0, k0 + sz))
            if len(full) < ly.stride:
                continue
            e = lin_add(ly.lo, lin_scale(ly.count, ly.stride))
            a = self.lcmp(st, "sle", ly.lo, off)
            b = self.lcmp(st, "sle", end, e)
            if (a if isinstance(a, bool) else self.decide(st, a)) is True and (b if isinstance(b, bool) else self.decide(st, b)) is True:
                self.stats.obl += 1
                self.stats.disch += 1
                return
        k = self.fresh("ix", 64)
        o = st.clone(self)
        self.assume(o, z3.ULT(k, bvof(n, 64)))
        v = self.region_load(o, layers, lin_add(off, k), 1)
        if isinstance(v, Mix):
            try:
                self.fail(o, "uninit", what)
            except PathEnd:
                st.viol = o.viol
                raise

    def _fits(self, st, ly, n):
        c = self.lcmp(st, "sle", lin_add(ly.lo, lin_scale(ly.count, ly.stride)), n)
        return c if isinstance(c, bool) else self.decide(st, c) is True

    def byte_of(self, st, o, off):
        if o.layers is not None:
            return self.region_load(st, o.layers, off, 1)
        if isinstance(off, int):
            return self.mk_value(o.cells.get(off, 1), 1)
        raise Unsupported("symbolic byte of fixed object")

    def fixed_range_write(self, st, dst, n, bytefn, limit=64):
        """symbolic-length write into a cell-mode object: finite ITE expansion"""
        o = st.mem[dst.o]
        if not isinstance(dst.f, int):
            raise Unsupported("symbolic range write at symbolic offset")
        cap = o.size - dst.f
        hi = None
        for b in (8, 15, 16, 32, 64, 128, 256):
            if b > cap:
                b = cap
            c = self.lcmp(st, "ule", n, b)
            if (c if isinstance(c, bool) else self.decide(st, c)) is True:
                hi = b
                break
        if hi is None:
            raise Unsupported("unbounded symbolic write into fixed object")
        o = st.wobj(dst.o)
        for k in range(hi):
            c = self.lcmp(st, "ult", k, n)
            dc = c if isinstance(c, bool) else self.decide(st, c)
            if dc is False:
                break
            v = self.ex_bytefn(bytefn, k, st, c)
            if dc is True:
                nv = v
            else:
                old = self.mk_value(o.cells.get(dst.f + k, 1), 1)
                if not is_int_val(old):
                    # previously uninitialised byte: reading it beyond n would be a use of garbage;
                    # model the garbage as an arbitrary byte
                    old = self.fresh("garbage", 8)
                if not is_int_val(v):
                    raise Unsupported("uninit in symbolic write")
                nv = z3.If(c, bvof(v, 8), bvof(old, 8))
            if isinstance(nv, Mix):
                o.cells.clear(dst.f + k, 1)
            else:
                o.cells.store(dst.f + k, 1, nv)

    def ex_bytefn(self, bytefn, k, st, c):
        if isinstance(c, bool) or self.decide(st, c) is True:
            return bytefn(k)
        # evaluate under the guard
        save = len(st.pc)
        sm, sd, sh = st.model, dict(st.dec), dict(st.his)
        st.pc.append(c)
        st.model = None
        try:
            return bytefn(k)
        finally:
            del st.pc[save:]
            st.model, st.dec, st.his = sm, sd, sh

    def read_cells(self, st, o, f, n):
        if o.layers is None:
            if not isinstance(f, int):
                v = self.load_symoff(st, o, f, n)
                return [(0, n, v)]
            return o.cells.raw(f, n)
        # region: prefer the parts of a covering single layer
        layers = o.layers
        i = len(layers) - 1
        while i >= 0:
            ly = layers[i]
            cov = self._covers(st, ly, f, n)
            if cov is False:
                i -= 1
                continue
            if cov is True and ly.stride >= n and ly.stride > 1:
                jk = self.decomp(lin_sub(f, ly.lo), ly.stride)
                if jk and jk[1] + n <= ly.stride:
                    J, k = jk
                    out = []
                    holes = list(range(k, k + n))
                    covered = set()
                    for k0, sz, fn in ly.parts:
                        a, b = max(k, k0), min(k + n, k0 + sz)
                        if a < b:
                            out.append((a - k, b - a, extract_bytes(fn(self, st, J), sz, a - k0, b - a)))
                            covered.update(range(a - k, b - k))
                    miss = [x for x in range(n) if x not in covered]
                    # bytes not covered by this layer: look further down, byte-wise
                    for x in miss:
                        v = self._rl(st, layers, i - 1, lin_add(f, x), 1)
                        if not isinstance(v, Mix):
                            out.append((x, 1, v))
                    out.sort(key=lambda z: z[0])
                    return out
            break
        if i < 0:
            return []
        # group bytes
        out = []
        if n in (1, 2, 4, 8):
            v = self.region_load(st, layers, f, n)
            if isinstance(v, Mix):
                return [(r, s, x) for r, s, x in v.cells if x is not None]
            return [(0, n, v)]
        for k in range(n):
            v = self.region_load(st, layers, lin_add(f, k), 1)
            if not isinstance(v, Mix):
                out.append((k, 1, v))
        return out

    def write_cells(self, st, dst, n, cells):
        o = st.wobj(dst.o)
        if o.ro:
            self.fail(st, "memory", "store to constant")
        if o.layers is None:
            if not isinstance(dst.f, int):
                if not self.to_region(st, o):
                    raise Unsupported("symbolic offset block write")
            else:
                o.cells.clear(dst.f, n)
                for r, s, v in cells:
                    o.cells.store(dst.f + r, s, v)
                return
        # bytes not in cells become uninitialised; represent by an explicit uninit layer only if needed
        o.layers = o.layers + (Layer(dst.f, n, 1, tuple((r, s, const_fn(v)) for r, s, v in cells)),)

    def memset(self, st, dst, val, n):
        if isinstance(n, int) and n == 0:
            return
        o = self.check_access(st, dst, n, "memset")
        if isinstance(n, int):
            if isinstance(val, int):
                v = int.from_bytes(bytes([val & 255]) * n, "little") if n <= 64 or val else 0
            elif n <= 64:
                v = z3.Concat(*([bvof(val, 8)] * n)) if n > 1 else val
            else:
                raise Unsupported("memset symbolic value")
            self.write_cells(st, dst, n, [(0, n, v)])
            return
        if o.layers is None:
            self.fixed_range_write(st, dst, n, lambda k: val)
            return
        o = st.wobj(dst.o)
        o.layers = o.layers + (Layer(dst.f, 1, n, ((0, 1, const_fn(val)),)),)

    # ------------------------------------------------------------ ghost
    def ghost(self, st, off):
        return st.mem[GHOST].cells.d[off][1]

    def set_ghost(self, st, off, v):
        st.wobj(GHOST).cells.store(off, 8, v)

    def in_byte(self, st, pos):
        if st.insrc is not None:
            v = self.region_load(st, st.insrc[0], pos, 1)
            if isinstance(v, Mix):
                self.fail(st, "uninit", "uninitialised byte on the wire", cls=("mem",))
            return v
        return INF(bvof(pos, 64))

    def in_bytes(self, st, pos, n):
        if st.insrc is not None:
            v = self.region_load(st, st.insrc[0], pos, n)
            if isinstance(v, Mix):
                self.fail(st, "uninit", "uninitialised byte on the wire", cls=("mem",))
            return v
        if n == 1:
            return INF(bvof(pos, 64))
        return z3.Concat(*[INF(bvof(lin_add(pos, k), 64)) for k in range(n - 1, -1, -1)])

    def in_len(self, st):
        return st.insrc[1] if st.insrc is not None else INLEN

    # ------------------------------------------------------------ integer ops
    def ival(self, st, v, w, what="operation"):
        """coerce to an integer value; reports use of uninitialised data"""
        if is_int_val(v) or isinstance(v, (Ptr, FnPtr)):
            return v
        if v is POISON:
            raise Unsupported("loop temporary read before write")
        if isinstance(v, Mix):
            parts = []
            for r, s, x in v.cells:
                if x is None:
                    x = self.fresh("undef", 8 * s)
                    parts.append((s, x))
                elif is_int_val(x):
                    parts.append((s, x))
                elif x is POISON:
                    raise Unsupported("loop temporary read before write")
                else:
                    raise Unsupported("pointer fragment in integer operation")
            return concat_cells(parts)
        if v is UNDEF:
            return self.fresh("undef", w)
        raise Unsupported("value " + type(v).__name__)

    def binop(self, st, op, w, a, b, flags):
        a = self.ival(st, a, w)
        b = self.ival(st, b, w)
        if isinstance(a, int) and isinstance(b, int):
            return self.cbin(st, op, w, a, b)
        mask = (1 << w) - 1
        if w == 1:
            return self.boolbin(op, a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.o == b.o:
                    return lin_sub(a.f, b.f) if not (isinstance(a.f, int) and isinstance(b.f, int)) else (a.f - b.f) & M64
                # comparing null-based empties
                raise Unsupported("difference of unrelated pointers")
            if op == "add" and isinstance(a, Ptr) and is_int_val(b):
                return Ptr(a.o, lin_add(a.f, b))
            if op == "sub" and isinstance(a, Ptr) and is_int_val(b):
                return Ptr(a.o, lin_sub(a.f, b))
            raise Unsupported("pointer arithmetic " + op)
        if isinstance(a, z3.BoolRef):
            a = bvof(a, w)
        if isinstance(b, z3.BoolRef):
            b = bvof(b, w)
        if w == 64:
            if op == "add":
                return lin_add(a, b)
            if op == "sub":
                return lin_sub(a, b)
            if op == "mul":
                if isinstance(a, int):
                    return lin_scale(b, a)
                if isinstance(b, int):
                    return lin_scale(a, b)
            if op == "shl" and isinstance(b, int):
                return lin_scale(a, 1 << b) if b < 64 else 0
            if op in ("sdiv", "udiv") and isinstance(b, int) and b:
                la = lin_of(a)
                lo, hi = self.lin_range(st, a)
                if all(k % b == 0 for k, _ in la.t.values()) and la.c % b == 0 and -(1 << 63) <= lo and hi < (1 << 63):
                    if op == "sdiv" or self.exact_nonneg(st, a):
                        return lin_norm(Lin(la.c // b, {key: (k // b, at) for key, (k, at) in la.t.items()}))
            if op == "urem" and isinstance(b, int) and b:
                la = lin_of(a)
                if all(k % b == 0 for k, _ in la.t.values()) and self.exact_nonneg(st, a):
                    return la.c % b
            if op == "lshr" and isinstance(b, int):
                la = lin_of(a)
                g = 1 << b
                if b < 63 and all(k % g == 0 for k, _ in la.t.values()) and la.c % g == 0 and self.exact_nonneg(st, a):
                    return lin_norm(Lin(la.c // g, {key: (k // g, at) for key, (k, at) in la.t.items()}))
            if op == "ashr" and isinstance(b, int):
                la = lin_of(a)
                g = 1 << b
                lo, hi = self.lin_range(st, a)
                if b < 63 and all(k % g == 0 for k, _ in la.t.values()) and la.c % g == 0 and -(1 << 63) <= lo and hi < (1 << 63):
                    return lin_norm(Lin(la.c // g, {key: (k // g, at) for key, (k, at) in la.t.items()}))
        x, y = bvof(a, w), bvof(b, w)
        if op in ("udiv", "sdiv", "urem", "srem"):
            self.require(st, y != 0, "arith", "division by zero")
        if op in ("shl", "lshr", "ashr") and not isinstance(b, int):
            self.require(st, z3.ULT(y, w), "arith", "shift amount out of range")
        r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y,
             "udiv": lambda: z3.UDiv(x, y), "sdiv": lambda: x / y, "urem": lambda: z3.URem(x, y), "srem": lambda: z3.SRem(x, y),
             "shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y), "ashr": lambda: x >> y,
             "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y}[op]()
        r = z3.simplify(r)
        return r.as_long() if z3.is_bv_value(r) else r

    def boolbin(self, op, a, b):
        def B(x):
            if isinstance(x, int):
                return z3.BoolVal(bool(x))
            if isinstance(x, z3.BoolRef):
                return x
            return x == 1
        a, b = B(a), B(b)
        if op == "and" or op == "mul":
            r = z3.And(a, b)
        elif op == "or":
            r = z3.Or(a, b)
        elif op in ("xor", "add", "sub"):
            r = z3.Xor(a, b)
        else:
            raise Unsupported("i1 " + op)
        r = z3.simplify(r)
        return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r

    def cbin(self, st, op, w, a, b):
        mask = (1 << w) - 1

        def sg(x):
            return x - (1 << w) if x >> (w - 1) else x
        if op == "add":
            return (a + b) & mask
        if op == "sub":
            return (a - b) & mask
        if op == "mul":
            return (a * b) & mask
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op in ("shl", "lshr", "ashr"):
            if b >= w:
                self.fail(st, "arith", "shift amount out of range")
            if op == "shl":
                return (a << b) & mask
            if op == "lshr":
                return a >> b
            return (sg(a) >> b) & mask
        if b == 0:
            self.fail(st, "arith", "division by zero")
        if op == "udiv":
            return a // b
        if op == "urem":
            return a % b
        q = abs(sg(a)) // abs(sg(b))
        if (sg(a) < 0) != (sg(b) < 0):
            q = -q
        if op == "sdiv":
            return q & mask
        return (sg(a) - q * sg(b)) & mask

    def icmp(self, st, pred, t, a, b):
        """-> 0/1 or z3 Bool"""
        w = 64 if t.k == "ptr" else t.n
        a = self.ival(st, a, w)
        b = self.ival(st, b, w)
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if isinstance(a, FnPtr) and isinstance(b, FnPtr):
                e = a.name == b.name
            else:
                e = False
            if pred == "eq":
                return int(e)
            if pred == "ne":
                return int(not e)
            raise Unsupported("function pointer order")
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, int):
                a = Ptr(0, a)
            if isinstance(b, int):
                b = Ptr(0, b)
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                raise Unsupported("pointer/integer compare")
            if a.o != b.o:
                if pred == "eq":
                    return 0
                if pred == "ne":
                    return 1
                if a.o == 0 and a.f == 0 and pred in ("ult", "ule"):
                    return 1
                if b.o == 0 and b.f == 0 and pred in ("ugt", "uge"):
                    return 1
                # distinct objects: the library compares addresses to find out whether a pointer lies inside a buffer
                # (std::string::_M_disjunct): order is unspecified but objects are disjoint -> both orders possible
                return z3.FreshConst(z3.BoolSort(), "ptrorder")
            x, y = a.f, b.f
            w = 64
        elif isinstance(a, int) and isinstance(b, int):
            return self.cicmp(pred, w, a, b)
        else:
            x, y = a, b
        if w == 64:
            p = {"eq": "eq", "ne": "ne", "ult": "ult", "ule": "ule", "slt": "slt", "sle": "sle"}
            if pred in p:
                r = self.lcmp(st, pred, x, y)
                info = (pred, x, y)
            else:
                q = {"ugt": "ult", "uge": "ule", "sgt": "slt", "sge": "sle"}[pred]
                r = self.lcmp(st, q, y, x)
                info = (q, y, x)
            if isinstance(r, bool):
                return int(r)
            self.cmpinfo[r.get_id()] = (r, info)
            rs = z3.simplify(r)
            self.cmpinfo[rs.get_id()] = (rs, info)
            return r
        if w == 1:
            def B(v):
                return z3.BoolVal(bool(v)) if isinstance(v, int) else (v if isinstance(v, z3.BoolRef) else v == 1)
            e = B(x) == B(y)
            if pred == "ne":
                e = z3.Not(e)
            elif pred != "eq":
                raise Unsupported("i1 compare")
            e = z3.simplify(e)
            return 1 if z3.is_true(e) else 0 if z3.is_false(e) else e
        x, y = bvof(x, w), bvof(y, w)
        r = {"eq": lambda: x == y, "ne": lambda: x != y, "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y),
             "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y), "slt": lambda: x < y, "sle": lambda: x <= y,
             "sgt": lambda: x > y, "sge": lambda: x >= y}[pred]()
        r = z3.simplify(r)
        return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r

    @staticmethod
    def cicmp(pred, w, a, b):
        if pred[0] == "s":
            if a >> (w - 1):
                a -= 1 << w
            if b >> (w - 1):
                b -= 1 << w
        r = {"eq": a == b, "ne": a != b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b,
             "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b}[pred]
        return int(r)

    def cast(self, st, op, t1, v, t2):
        if op in ("ptrtoint", "inttoptr"):
            if t1.k == "int" and t1.n != 64 or t2.k == "int" and t2.n != 64:
                raise Unsupported("narrow ptr cast")
            return v
        if op == "bitcast":
            return v
        w1, w2 = t1.n, t2.n
        if v is POISON:
            raise Unsupported("loop temporary read before write")
        if op == "trunc":
            if isinstance(v, Mix) and w2 % 8 == 0:
                n2 = w2 // 8
                cells = []
                for r, s, x in v.cells:
                    if r >= n2:
                        continue
                    m = min(s, n2 - r)
                    cells.append((r, m, None if x is None else extract_bytes(x, s, 0, m)))
                return self.mk_value(cells, n2)
            v = self.ival(st, v, w1)
            if isinstance(v, int):
                return v & ((1 << w2) - 1)
            if isinstance(v, Ptr):
                raise Unsupported("trunc of pointer")
            x = bvof(v, w1)
            if w2 == 1:
                r = z3.simplify(z3.Extract(0, 0, x) == 1)
                return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r
            r = z3.simplify(z3.Extract(w2 - 1, 0, x))
            return r.as_long() if z3.is_bv_value(r) else r
        v = self.ival(st, v, w1)
        if isinstance(v, int):
            if op == "sext" and v >> (w1 - 1):
                return v | (((1 << w2) - 1) ^ ((1 << w1) - 1))
            return v
        if isinstance(v, z3.BoolRef):
            if op == "zext":
                return z3.If(v, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
            return z3.If(v, z3.BitVecVal(-1, w2), z3.BitVecVal(0, w2))
        x = bvof(v, w1)
        if op == "zext":
            return z3.ZeroExt(w2 - w1, x)
        # sext of a value known non-negative: keep it as zext (better linear reasoning)
        if self._struct_hi(x) < (1 << (w1 - 1)):
            return z3.ZeroExt(w2 - w1, x)
        return z3.SignExt(w2 - w1, x)

    # ------------------------------------------------------------ instruction compilation
    def opnd(self, v):
        """-> (kind, payload): ('r',name) or ('k',value) or ('c',constexpr)"""
        if v[0] == "r":
            return ("r", v[1])
        if v[0] == "i":
            return ("k", v[1])
        if v[0] == "null":
            return ("k", NULL)
        if v[0] == "undef":
            return ("k", UNDEF)
        return ("c", v)

    def ev(self, st, fr, v):
        k = v[0]
        if k == "r":
            return fr.regs[v[1]]
        if k == "i":
            return v[1]
        return self.const(st, v)

    def run(self, st, stop=None):
        """explore all paths from st. returns (terminals, backs, exits)"""
        work = [st]
        term, backs, exits = [], [], []
        saved = self.ended
        self.ended = []
        try:
            return self._run(work, stop, term, backs, exits)
        finally:
            self.ended = saved

    def _run(self, work, stop, term, backs, exits):
        while work or self.ended:
            if self.ended:
                term.extend(self.ended)
                self.stats.paths += len(self.ended)
                self.ended = []
                continue
            s = work.pop()
            if s.status in ("back", "exit"):
                sig, s.status = s.status, None
                (backs if sig == "back" else exits).append(s)
                continue
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget exhausted")
            try:
                r = self.step(s, stop, work)
            except PathEnd:
                s.status = "end"
                term.append(s)
                self.stats.paths += 1
                continue
            if r == "term":
                s.status = "ret"
                term.append(s)
                self.stats.paths += 1
                if self.stats.paths > self.max_paths:
                    raise Unsupported("too many paths")
            elif r == "back":
                backs.append(s)
            elif r == "exit":
                exits.append(s)
            elif r == "gone":
                pass
        return term, backs, exits

    def branch(self, st, c):
        """c: 0/1 or z3 Bool.  returns True/False or None"""
        if isinstance(c, int):
            return bool(c)
        if isinstance(c, z3.BitVecRef):
            c = c == 1
        return self.decide(st, c)

    def jump(self, st, fr, target, stop):
        """transfer control; returns None or a stop signal"""
        depth = len(st.frames)
        if stop is not None and depth == stop[0]:
            if target == stop[1]:
                fr.prev = fr.blk
                fr.blk = target
                fr.ip = 0
                return "back"
            if target not in stop[2]:
                fr.prev = fr.blk
                fr.blk = target
                fr.ip = 0
                return "exit"
        src = fr.blk
        fr.prev = src
        fr.blk = target
        fr.ip = 0
        loops = fr.f.loops
        if loops and target in loops:
            L = loops[target]
            info = fr.loops.get(target)
            if src in L and info is not None:
                n = info[0] + 1
                if n > self.opts.get("max_unroll", 400):
                    raise Unsupported("loop unrolling limit in " + fr.f.name)
                fr.loops = dict(fr.loops)
                fr.loops[target] = (n, None, info[2], info[3])
            else:
                fr.loops = dict(fr.loops)
                fr.loops[target] = (0, None, False, 0)
            snap = st.clone(self)
            i2 = fr.loops[target]
            fr.loops[target] = (i2[0], snap, i2[2], i2[3])
        return None

    def exiting(self, fr, a, b):
        """innermost loop of which this branch is an exiting branch -> header or None"""
        best = None
        for h, L in fr.f.loops.items():
            if fr.blk in L and (a in L) != (b in L):
                if h in fr.loops and (best is None or len(L) < len(fr.f.loops[best])):
                    best = h
        return best

    def step(self, st, stop, work):
        m = self.m
        stats = self.stats
        while True:
            fr = st.frames[-1]
            code = fr.code[fr.blk]
            ins = code[fr.ip]
            fr.ip += 1
            stats.instrs += 1
            if stats.instrs > self.max_instr:
                raise Unsupported("instruction budget exhausted")
            op = ins[0]
            regs = fr.regs
            if op == "load":
                p = self.ev(st, fr, ins[3])
                t = ins[2]
                k = t.k
                if k == "int":
                    if t.n == 1:
                        v = self.load(st, p, 1)
                        v = self.cast(st, "trunc", int_ty(8), v, int_ty(1))
                    else:
                        v = self.load(st, p, (t.n + 7) >> 3)
                elif k == "ptr":
                    v = self.load(st, p, 8)
                    if isinstance(v, int):
                        v = Ptr(0, v)
                elif k == "float":
                    v = self.load(st, p, t.n >> 3)
                else:
                    v = self.load_agg(st, p, t)
                regs[ins[1]] = v
            elif op == "store":
                t = ins[2]
                v = self.ev(st, fr, ins[3])
                p = self.ev(st, fr, ins[4])
                k = t.k
                if k == "int":
                    if t.n == 1:
                        v = self.cast(st, "zext", t, v, int_ty(8))
                        self.store(st, p, 1, v)
                    else:
                        self.store(st, p, (t.n + 7) >> 3, v)
                elif k == "ptr":
                    self.store(st, p, 8, v)
                elif k == "float":
                    self.store(st, p, t.n >> 3, v)
                else:
                    self.store_agg(st, p, t, v)
            elif op == "alloca":
                n = self.ev(st, fr, ins[3])
                if not isinstance(n, int):
                    raise Unsupported("dynamic alloca")
                oid = self.new_obj(st, m.sizeof(ins[2]) * n, "stack", ins[1])
                fr.allocas.append(oid)
                regs[ins[1]] = Ptr(oid, 0)
            elif op == "gep":
                b = self.ev(st, fr, ins[3])
                if isinstance(b, Mix) or b is POISON:
                    b = self.ival(st, b, 64)
                regs[ins[1]] = self.gep(st, ins[2], b, [(it, self.ev(st, fr, iv)) for it, iv in ins[4]])
            elif op == "call" or op == "invoke":
                r = self.call(st, fr, ins, work)
                if r is not None:
                    return r
            elif op == "jmp":
                r = self.jump(st, fr, ins[2], stop)
                if r:
                    return r
            elif op == "br":
                c = self.ev(st, fr, ins[2])
                c = self.ival(st, c, 1)
                d = self.branch(st, c)
                h = self.exiting(fr, ins[3], ins[4]) if fr.f.loops else None
                if stop is not None and len(st.frames) == stop[0] and fr.blk in stop[2] and (h is None or stop[1] in fr.f.loops[h]):
                    h = None
                    if self.exit_loop is not None and self.exit_loop[0] == stop[0] and (ins[3] in stop[2]) != (ins[4] in stop[2]) and isinstance(c, z3.ExprRef):
                        self.note_exit(c, stop[0])
                if d is not None:
                    if h is not None and not self.opts.get("unroll") and isinstance(c, z3.ExprRef) and fr.blk == h and (ins[3] if d else ins[4]) in fr.f.loops[h]:
                        # the first test is settled by the path condition, later ones need not be: summarise from here
                        i = fr.loops.get(h)
                        if i is not None and i[0] == 0 and i[1] is not None and not i[2] and h not in self.bounded_loops.get(fr.f.name, ()):
                            if self.loop_summary(st, fr, h, i[1], work, stop) is True:
                                return "gone"
                    r = self.jump(st, fr, ins[3] if d else ins[4], stop)
                    if r:
                        return r
                else:
                    if isinstance(c, z3.BitVecRef):
                        c = c == 1
                    if h is not None and not self.opts.get("unroll"):
                        i = fr.loops[h]
                        first_in_header = fr.blk == h and i[0] == 0
                        bl = self.bounded_loops.get(fr.f.name, ())
                        if not i[2] and (first_in_header or i[0] >= 1) and h not in bl:
                            r = self.loop_summary(st, fr, h, i[1], work, stop)
                            if r is True:
                                return "gone"
                            if r == "concrete":
                                fr.loops = dict(fr.loops)
                                fr.loops[h] = i = (i[0], i[1], True, i[3])
                            else:
                                bl = self.bounded_loops.setdefault(fr.f.name, set())
                                bl.add(h)
                                self.stats.unrolled_bounded += 1
                        if not i[2] and h in bl:
                            if i[0] >= self.opts.get("bound", 2):
                                # bounded stand-in: force the exit side
                                ex_true = ins[3] not in fr.f.loops[h]
                                self.assume(st, c if ex_true else z3.Not(c))
                                st.notes = st.notes + (("bounded-loop", fr.f.name, h),)
                                r = self.jump(st, fr, ins[3] if ex_true else ins[4], stop)
                                if r:
                                    return r
                                continue
                    o = st.clone(self)
                    fo = o.frames[-1]
                    self.assume(o, z3.Not(c))
                    self.note_decided(o, c, False)
                    self.assume(st, c)
                    self.note_decided(st, c, True)
                    # continue with st on true; queue o on false (as a pending jump)
                    r2 = self.jump(o, fo, ins[4], stop)
                    if r2:
                        self._queue_done(work, o, r2, stop)
                    else:
                        work.append(o)
                    r = self.jump(st, fr, ins[3], stop)
                    if r:
                        return r
            elif op == "ret":
                v = None if ins[2] is None else self.ev(st, fr, ins[3])
                for a in fr.allocas:
                    st.mem.pop(a, None)
                st.frames.pop()
                if fr.cbind is not None:
                    fr.cbind(st, v)
                if not st.frames:
                    st.result = v
                    return "term"
                up = st.frames[-1]
                if fr.dst is not None:
                    up.regs[fr.dst] = v
                if fr.cont is not None:
                    # returning from an invoke: jump to normal dest
                    r = self.jump(st, up, fr.cont, stop)
                    if r:
                        return r
                if stop is not None and len(st.frames) < stop[0]:
                    return "exit"
            elif op == "icmp":
                regs[ins[1]] = self.icmp(st, ins[2], ins[3], self.ev(st, fr, ins[4]), self.ev(st, fr, ins[5]))
            elif op == "bin":
                regs[ins[1]] = self.binop(st, ins[2], ins[3].n, self.ev(st, fr, ins[4]), self.ev(st, fr, ins[5]), ins[6])
            elif op == "cast":
                regs[ins[1]] = self.cast(st, ins[2], ins[3], self.ev(st, fr, ins[4]), ins[5])
            elif op == "phi":
                # evaluate the whole phi group in parallel
                vals = []
                j = fr.ip - 1
                while code[j][0] == "phi":
                    x = code[j]
                    for v, l in x[3]:
                        if l == fr.prev:
                            vals.append((x[1], self.ev(st, fr, v)))
                            break
                    else:
                        raise Unsupported("phi")
                    j += 1
                for d, v in vals:
                    regs[d] = v
                fr.ip = j
            elif op == "select":
                c = self.ival(st, self.ev(st, fr, ins[3]), 1)
                d = self.branch(st, c)
                a, b = self.ev(st, fr, ins[4]), self.ev(st, fr, ins[5])
                if d is None:
                    if isinstance(c, z3.BitVecRef):
                        c = c == 1
                    if ins[2].k == "int" and is_int_val(a) and is_int_val(b):
                        if ins[2].n == 1:
                            A = z3.BoolVal(bool(a)) if isinstance(a, int) else a
                            B = z3.BoolVal(bool(b)) if isinstance(b, int) else b
                            regs[ins[1]] = z3.If(c, A, B)
                        else:
                            regs[ins[1]] = z3.If(c, bvof(a, ins[2].n), bvof(b, ins[2].n))
                    else:
                        o = st.clone(self)
                        self.assume(o, z3.Not(c))
                        self.assume(st, c)
                        o.frames[-1].regs[ins[1]] = b
                        work.append(o)
                        regs[ins[1]] = a
                else:
                    regs[ins[1]] = a if d else b
            elif op == "switch":
                v = self.ival(st, self.ev(st, fr, ins[3]), ins[2].n)
                if isinstance(v, int):
                    tgt = ins[4]
                    for cv, l in ins[5]:
                        if cv == v:
                            tgt = l
                            break
                    r = self.jump(st, fr, tgt, stop)
                    if r:
                        return r
                else:
                    x = bvof(v, ins[2].n)
                    rest = st
                    opts = []
                    for cv, l in ins[5]:
                        c = x == z3.BitVecVal(cv, ins[2].n)
                        opts.append((c, l))
                    opts.append((z3.And(*[z3.Not(c) for c, _ in opts]), ins[4]))
                    feas = [(c, l) for c, l in opts if self.decide(st, c) is not False]
                    if not feas:
                        raise PathEnd("infeasible")
                    for c, l in feas[1:]:
                        o = st.clone(self)
                        self.assume(o, c)
                        r2 = self.jump(o, o.frames[-1], l, stop)
                        if r2:
                            self._queue_done(work, o, r2, stop)
                        else:
                            work.append(o)
                    self.assume(st, feas[0][0])
                    r = self.jump(st, fr, feas[0][1], stop)
                    if r:
                        return r
            elif op == "extractvalue":
                v = self.ev(st, fr, ins[3])
                if v is UNDEF:
                    regs[ins[1]] = UNDEF
                else:
                    for i in ins[4]:
                        v = v[i]
                    regs[ins[1]] = v
            elif op == "insertvalue":
                v = self.ev(st, fr, ins[3])
                x = self.ev(st, fr, ins[5])
                regs[ins[1]] = self.insertv(ins[2], v, x, ins[6])
            elif op == "unreachable":
                self.fail(st, "unreachable", "control reaches an unreachable point")
            else:
                raise Unsupported("instruction " + str(ins[2] if op == "unsup" else op))

    def _queue_done(self, work, o, sig, stop):
        # a fork whose very first transfer hits the stop: deliver through a tiny wrapper
        o.status = sig
        work.append(o)

    def insertv(self, t, v, x, idx):
        r = self.m.resolve(t)
        n = len(r.el) if r.k == "struct" else r.n
        if v is UNDEF:
            v = tuple([UNDEF] * n)
        l = list(v)
        if len(idx) == 1:
            l[idx[0]] = x
        else:
            et = r.el[idx[0]] if r.k == "struct" else r.el
            l[idx[0]] = self.insertv(et, l[idx[0]], x, idx[1:])
        return tuple(l)

    def load_agg(self, st, p, t):
        r = self.m.resolve(t)
        if r.k == "struct":
            offs = self.m.offsets(t)
            return tuple(self._lt(st, Ptr(p.o, lin_add(p.f, o) if not isinstance(p.f, int) else p.f + o), e) for o, e in zip(offs, r.el))
        if r.k == "arr":
            es = self.m.sizeof(r.el)
            return tuple(self._lt(st, Ptr(p.o, lin_add(p.f, i * es)), r.el) for i in range(r.n))
        raise Unsupported("load " + r.k)

    def _lt(self, st, p, t):
        r = self.m.resolve(t)
        if r.k in ("struct", "arr"):
            return self.load_agg(st, p, t)
        return self.load(st, p, self.m.sizeof(t))

    def store_agg(self, st, p, t, v):
        r = self.m.resolve(t)
        if v is UNDEF:
            return
        if r.k == "struct":
            for o, e, x in zip(self.m.offsets(t), r.el, v):
                self._stt(st, Ptr(p.o, lin_add(p.f, o)), e, x)
        elif r.k == "arr":
            es = self.m.sizeof(r.el)
            for i, x in enumerate(v):
                self._stt(st, Ptr(p.o, lin_add(p.f, i * es)), r.el, x)
        else:
            raise Unsupported("store " + r.k)

    def _stt(self, st, p, t, v):
        r = self.m.resolve(t)
        if r.k in ("struct", "arr"):
            self.store_agg(st, p, t, v)
        else:
            self.store(st, p, self.m.sizeof(t), v)

    def call(self, st, fr, ins, work):
        cal = ins[3]
        if cal[0] == "g":
            name = cal[1]
        else:
            v = self.ev(st, fr, cal)
            if isinstance(v, FnPtr):
                name = v.name
            else:
                self.fail(st, "memory", "call through an invalid function pointer")
        args = [self.ev(st, fr, a[1]) for a in ins[4]]
        return self.invoke(st, fr, name, args, ins, work)

    def invoke(self, st, fr, name, args, ins, work):
        cont = ins[5] if ins[0] == "invoke" else None
        f = self.m.funcs.get(name)
        h = self.externs.get(name)
        if h is None and f is None:
            for pfx, hh in self.extern_prefix:
                if name.startswith(pfx):
                    h = hh
                    break
            if h is None:
                raise Unsupported("external function " + name)
        if h is not None:
            r = h(self, st, fr, args, ins, work)
            if r is GONE:
                return "gone"
            if r is SPLIT:
                if cont is not None:
                    raise Unsupported("forking external in invoke")
                return None
            if ins[1] is not None:
                fr.regs[ins[1]] = r
            if cont is not None:
                j = self.jump(st, fr, cont, None)
            return None
        c = self.contracts.get(name)
        if c is not None:
            self.stats.contract_uses[c.name] = self.stats.contract_uses.get(c.name, 0) + 1
            return c.apply(self, st, fr, args, ins, work)
        if f.code is None:
            self.m.parse_func(f)
        self.stats.funcs.add(name)
        if len(st.frames) > 200:
            raise Unsupported("recursion depth")
        nf = Frame(f)
        for i, (nm, a) in enumerate(zip(f.params, args)):
            if i < len(ins[4]) and ins[4][i][2]:
                # byval: callee gets its own copy
                from ir import P
                t = P(self.m, ins[4][i][2]).type()
                n = self.m.sizeof(t)
                oid = self.new_obj(st, n, "stack", nm)
                nf.allocas.append(oid)
                self.memcpy(st, Ptr(oid, 0), a, n, "byval copy")
                a = Ptr(oid, 0)
            nf.regs[nm] = a
        nf.dst = ins[1]
        nf.cont = cont
        st.frames.append(nf)
        return None

    def start(self, st, fname, args):
        f = self.m.funcs[fname]
        self.m.parse_func(f)
        fr = Frame(f)
        for nm, a in zip(f.params, args):
            fr.regs[nm] = a
        st.frames.append(fr)

    # loop handling lives in loops.py
    def loop_summary(self, st, fr, h, snap, work, stop):
        from loops import summarize
        return summarize(self, st, fr, h, snap, work, stop)


class _Split:
    pass


SPLIT = _Split()
GONE = _Split()


def math_ceil_div(a, b):
    return -((-a) // b)


def const_fn(v):
    def fn(ex, st, j):
        return v
    fn.const = v
    return fn


def table_fn(vals):
    def fn(ex, st, j):
        if isinstance(j, int):
            v = vals[j] if 0 <= j < len(vals) else None
            return Mix(1, [(0, 1, None)]) if v is None else v
        r = None
        for k in range(len(vals) - 1, -1, -1):
            if vals[k] is None:
                continue
            v = bvof(vals[k], 8)
            if r is None:
                r = v
            else:
                c = ex.lcmp(st, "eq", j, k)
                r = r if c is False else z3.If(z3.BoolVal(c) if isinstance(c, bool) else c, v, r)
        return Mix(1, [(0, 1, None)]) if r is None else z3.simplify(r)
    return fn


def alias_fn(layers, off):
    def fn(ex, st, j):
        return ex.region_load(st, layers, lin_add(off, j), 1)
    return fn

"""Concrete side: build the harness natively, run the real code on concrete inputs, judge it with the same spec.

Used (a) to replay the verifier's counterexamples, (b) to search for a failing input when a counterexample does not
replay, (c) as the bounded stand-in for a harness that is outside the verifier's reach."""
import os
import random
import re
import subprocess
import time
import z3
import schema as S
import compare as C
import execu as X
import verify as VV
from spec import *
from sym import *

RT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "rt", "runtime.cpp")
GXX = "/usr/bin/g++-14"
CLANG = "/usr/bin/clang++-18"


class Env:
    """concrete inputs of one run"""

    def __init__(self, inp=b"", inlen=None, cap=1 << 40, sym=None, hv=None):
        self.inp = bytes(inp)
        self.inlen = len(self.inp) if inlen is None else inlen
        self.cap = cap
        self.sym = dict(sym or {})
        self.hv = {k: bytes(v) for k, v in (hv or {}).items()}

    def inb(self, p):
        return self.inp[p] if 0 <= p < len(self.inp) else 0

    def hvb(self, tag, k):
        b = self.hv.get(tag, b"")
        return b[k] if k < len(b) else 0

    def text(self, name, harness):
        l = [f"case {name}", f"harness {harness}", f"inlen {self.inlen}", f"cap {self.cap}"]
        if self.inp:
            l.append("in " + self.inp.hex())
        l += [f"sym {t} {v}" for t, v in sorted(self.sym.items())]
        l += [f"hv {t} {v.hex()}" for t, v in sorted(self.hv.items()) if v]
        return "\n".join(l + ["end", ""])


class Outcome:
    def __init__(self):
        self.events, self.status, self.detail = [], None, ""
        self.pos = self.after = self.outlen = self.ok = self.out_after = 0
        self.out = b""
        self.max_alloc = 0


def harness_name(h):
    return "h_%s_%s_%s" % tuple(h)


def build(rec, variants, header, work, san="asan"):
    """-> (path, error text)"""
    src = os.path.join(work, f"{rec.name}_n.cpp")
    exe = os.path.join(work, f"{rec.name}_{san}")
    if os.path.exists(exe):
        return exe, None
    open(src, "w").write(S.Gen(rec).source(variants))
    obj = os.path.join(work, f"{rec.name}_{san}.o")
    if san == "msan":
        cc = [CLANG, "-std=c++23", "-D__cpp_concepts=202002L", "-Wno-builtin-macro-redefined", "-O1", "-g1", "-fsanitize=memory", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
    else:
        cc = [GXX, "-std=c++23", "-O1", "-g1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
    r = subprocess.run(cc + [f'-DS2S_HEADER="{header}"', "-c", src, "-o", obj], capture_output=True, text=True, timeout=600)
    if r.returncode:
        return None, r.stderr
    r = subprocess.run(cc + [RT, obj, "-o", exe, "-rdynamic", "-ldl"], capture_output=True, text=True, timeout=600)
    if r.returncode:
        return None, r.stderr
    return exe, None


def run(exe, cases, work, timeout=120):
    """cases: list of (name, harness, Env) -> {name: Outcome}"""
    res = {}
    todo = list(cases)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=1")
    rounds = 0
    while todo and rounds < 12:
        rounds += 1
        ci, co = exe + ".in", exe + ".out"
        with open(ci, "w") as f:
            for n, h, e in todo:
                f.write(e.text(n, harness_name(h)))
        if os.path.exists(co):
            os.remove(co)
        try:
            r = subprocess.run([exe, ci, co], capture_output=True, env=env, timeout=timeout)
            err = r.stderr.decode("latin1")
            rc = r.returncode
        except subprocess.TimeoutExpired:
            err, rc = "timeout", -1
        got = parse(open(co).read() if os.path.exists(co) else "")
        if not got and rc:
            break
        last = None
        for n, o in got:
            res[n] = o
            last = n
        if last is not None and res[last].status is None:
            res[last].status = "timeout" if err == "timeout" else "crash"
            res[last].detail = err[:3000]
        done = {n for n, _ in got}
        todo = [c for c in todo if c[0] not in done]
        if rc == 0:
            break
    return res


def parse(text):
    out = []
    o = None
    for l in text.split("\n"):
        w = l.split(" ")
        k = w[0]
        if k == "case":
            o = Outcome()
            out.append((l[5:], o))
        elif o is None:
            continue
        elif k == "obs" and len(w) == 3:
            o.events.append(("obs", int(w[1]), int(w[2])))
        elif k == "buf" and len(w) >= 5:
            o.events.append(("buf", int(w[1]), int(w[2]), int(w[3]), ("raw", None if w[4] == "toolong" else bytes.fromhex(w[4]))))
        elif k == "mark":
            o.events.append(("mark", int(w[1]), int(w[2]), int(w[3]), int(w[4])))
        elif k == "fin":
            o.pos, o.after, o.outlen, o.ok, o.out_after = map(int, w[1:6])
            o.out = None if w[6] == "toolong" else bytes.fromhex(w[6])
        elif k in ("done", "assume", "badalloc", "throw"):
            o.status, o.max_alloc, o.detail = k, int(w[1]), " ".join(w[2:])
        elif k == "noharness":
            o.status = "noharness"
    return out


class Judge:
    """the spec, run concretely"""

    def __init__(self, mod, rec, offs):
        self.rec, self.offs = rec, offs
        self.ex = X.Exec(mod, {})
        self.st = self.ex.initial()
        self.limit = VV.alloc_limit(rec)

    def ctx(self, env):
        return CCtx(self.ex, self.st, env, self.offs)

    def judge(self, h, env, o):
        """-> list of Failure (empty: conforms), or None when the run says nothing"""
        kind, en, _ = h
        F = C.Failure
        if o is None or o.status in (None, "noharness", "assume", "badalloc"):
            if o is not None and o.status == "badalloc" and kind in ("read", "life", "rw") and o.max_alloc > self.limit:
                return [F("allocation above the field's ceiling", {"C10"}, None, "allocation of %d bytes" % o.max_alloc)]
            return None
        if o.status == "crash":
            return [F("memory error: " + first_error(o.detail), {"C16"}, None, o.detail)]
        if o.status == "timeout":
            return [F("the cast does not return", {"C16"}, None)]
        if o.status == "throw":
            return [F("the cast throws " + o.detail, {"C16"}, None)]
        if any(e[0] == "buf" and e[4][1] is None for e in o.events) or o.out is None:
            return None
        rep = C.Report(None, None)
        fails = []
        ctx = self.ctx(env)
        ev = o.events
        try:
            if kind == "read":
                m = [e for e in ev if e[0] == "mark"]
                C.check_read(rep, self.rec, en, ctx, ev, o.pos, o.after)
                if o.max_alloc > self.limit:
                    fails.append(F("allocation above the field's ceiling", {"C10"}, None, "allocation of %d bytes" % o.max_alloc))
            elif kind == "write":
                C.check_write(rep, self.rec, en, ctx, ev, o.outlen, o.ok, o.out_after, lambda c, off, n: int.from_bytes(o.out[off:off + n].ljust(n, b"\0"), "little") if off + n <= len(o.out) else None)
            elif kind == "wr":
                VV.check_wr(rep, self.rec, en, ctx, ev, o.pos, o.outlen)
            elif kind == "rw":
                rw(rep, ctx, ev, env, o)
            elif kind == "life":
                return []
        except Stop:
            return None
        return fails + rep.fails


def rw(rep, ctx, ev, env, o):
    i, err = C.status_of(ev)
    P = {"C04"}
    m0 = next(e for e in ev if e[0] == "mark" and e[1] == 0)
    m1 = next(e for e in ev if e[0] == "mark" and e[1] == 1)
    if err is not None:
        if err[0] == BUF and m1[4] == 0:
            return
        return rep.bad(ctx, f"a struct read from a stream is written back (got {C.rname(err[0])} at {err[1]})", P)
    inp = bytes(env.inb(p) for p in range(m0[2]))
    rep.ob(ctx, inp == o.out, "bytes written back equal the bytes consumed", P)


def first_error(text):
    m = re.search(r"(ERROR: [^\n]*|runtime error: [^\n]*|WARNING: MemorySanitizer[^\n]*)", text)
    return re.sub(r"0x[0-9a-f]+|==\d+==", "", m.group(1))[:160] if m else "abnormal end"


# ------------------------------------------------------------------------------------------------ counterexamples
def tags(rec):
    """[(tag, field, kind)] in construction order"""
    out = []
    n = 10000

    def go(f):
        nonlocal n
        n += 1
        out.append((n, f))
        if f.kind == "rec":
            for g in f.rec.fields:
                go(g)
        elif f.kind in ("arrrec", "svec"):
            for _ in range(f.n if f.kind == "arrrec" else f.most):
                for g in f.rec.fields:
                    go(g)
        elif f.kind == "opt":
            go(f.base)
        elif f.kind == "union":
            for a in f.alts:
                go(a)
    for f in rec.fields:
        go(f)
    return out


def concretise(rec, kind, pc, offs, timeout_ms=20000, diverse=False):
    """small model of a failing path condition -> list of Env"""
    if diverse and kind not in ("write", "wr"):
        # the condition may also cover inputs on which nothing is wrong: look further than the smallest one
        out = concretise(rec, kind, pc, offs, timeout_ms)
        for p in range(8):
            out += concretise(rec, kind, list(pc) + [X.INF(z3.BitVecVal(p, 64)) != 0], offs, 3000)[:1]
        return out
    tl = tags(rec)
    counts = [z3.BitVec("sym%d" % t, 64) for t, f in tl if f.kind in ("vec", "vecrec", "svec")]
    BV = lambda x: z3.BitVecVal(x, 64)
    envs = []
    for inl, cnt in ((128, 6), (700, 70), (9000, 600), (1 << 18, 1 << 16), (1 << 25, 1 << 24)):
        s = z3.Solver()
        s.set("timeout", timeout_ms)
        s.add(*[B(c) for c in pc])
        s.add(z3.ULE(X.INLEN, BV(inl)))
        if kind in ("write", "wr"):
            s.add(*[z3.ULE(c, BV(cnt)) for c in counts])
        if s.check() != z3.sat:
            continue
        if not envs and kind not in ("write", "wr"):
            small_input(s, min(inl, 48), 8 if timeout_ms > 3000 else 2)
        m = s.model()

        def ev(t):
            return m.eval(t, model_completion=True).as_long()
        sym, hv = {}, {}
        ln = min(ev(X.INLEN), 1 << 25)
        fi = m[X.INF] if X.INF in [d for d in m.decls()] else None
        inp = fun_bytes(fi, ln)
        if kind in ("write", "wr"):
            for t, f in tl:
                if f.kind in ("int", "vec", "vecrec", "svec", "opt", "union"):
                    bits = 64 if f.kind in ("vec", "vecrec", "svec") else f.t.bits if f.kind == "int" else 8
                    sym[t] = ev(z3.BitVec("sym%d" % t, bits))
                n = 0
                if f.kind == "arr":
                    n = f.n * f.t.bytes
                elif f.kind == "vec":
                    n = sym[t] * (f.an * f.t.bytes if isinstance(f, S.VecArr) else f.elsize)
                elif f.kind == "vecrec":
                    n = sym[t] * offs["sizeof:" + f.rec.name]
                if n:
                    import externs
                    fn = externs.havoc_fn(t)
                    hv[t] = fun_bytes(m[fn] if fn in [d for d in m.decls()] else None, min(n, 1 << 25))
        e = Env(inp, ln, ev(X.OUTCAP), sym, hv)
        e.cap = min(e.cap, 1 << 60)
        envs.append(e)
        # the same with input continuing after the end the path needed
        if len(envs) >= 2:
            break
    return envs


def small_input(s, n, budget=8):
    """prefer zero, then small, input bytes: lengths come out small"""
    t0 = time.time()
    s.set("timeout", 1000)
    for p in range(n):
        b = X.INF(z3.BitVecVal(p, 64))
        for part in [b] + [z3.Extract(k, k, b) for k in range(7, -1, -1)]:
            if time.time() - t0 > budget:
                break
            s.push()
            s.add(part == 0)
            if s.check() == z3.sat:
                if part is b:
                    break
                continue
            s.pop()
    s.set("timeout", 20000)
    s.check()


def fun_bytes(fi, n):
    """function interpretation -> bytes 0..n-1"""
    if fi is None:
        return bytes(n)
    els = 0
    try:
        v = z3.simplify(fi.else_value())
        els = v.as_long() if z3.is_bv_value(v) else None
    except Exception:
        els = 0
    if els is None:
        # not a table: evaluate through substitution
        v = fi.else_value()
        x = z3.Var(0, z3.BitVecSort(64))
        b = bytearray()
        for k in range(min(n, 4096)):
            r = z3.simplify(z3.substitute_vars(v, z3.BitVecVal(k, 64)))
            b.append(r.as_long() if z3.is_bv_value(r) else 0)
        b += bytes(n - len(b))
    else:
        b = bytearray([els]) * n
    for k in range(fi.num_entries()):
        e = fi.entry(k)
        p = e.arg_value(0).as_long()
        if p < n:
            b[p] = e.value().as_long()
    return bytes(b)


# ------------------------------------------------------------------------------------------------ generated cases
class Pool:
    """values that matter to a schema: the integers its text mentions, and their neighbours"""

    def __init__(self, rec, rng):
        self.rng = rng
        text = " ".join(f.cpp() for r in S.records_of(rec) for f in r.fields)
        vals = {0, 1, 2, 3, 5, 255, 256, 65535}
        for m in re.finditer(r"0x([0-9a-fA-F]+)|(?<![\w.])(\d+)", text):
            v = int(m.group(1), 16) if m.group(1) else int(m.group(2))
            vals |= {v - 1, v, v + 1, -v}
        self.vals = sorted(vals)

    def int(self, t, w=None):
        r = self.rng.random()
        bits = 8 * (w or t.bytes)
        if r < .6:
            v = self.rng.choice(self.vals)
        elif r < .7:
            v = self.rng.choice([(1 << bits) - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1, (1 << bits) - 2])
        else:
            v = self.rng.getrandbits(bits)
        return v & ((1 << (8 * t.bytes)) - 1)

    def count(self, f):
        r = self.rng.random()
        if f.kind == "svec":
            return self.rng.randrange(f.most + 1)
        lim = S.DEFAULT_MAX if f.bound is None else f.bound
        if r < .85:
            return self.rng.choice([0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17])
        if r < .95 and lim <= 1 << 16:
            return max(0, lim // max(1, getattr(f, "elsize", 4)) + self.rng.choice([-1, 0, 1]))
        return self.rng.choice([100, 255, 256, 300])


class GenReader(Reader):
    """writes the stream while reading it: every field gets an interesting value"""

    def __init__(self, ctx, en, pool, buf):
        super().__init__(ctx, en)
        self.pool, self.buf = pool, buf
        self.stack = []
        self.keep, self.limit, self.good = 0, 1 << 16, False

    def put(self, p, bs):
        if p > self.limit:
            return
        if p < self.keep:
            # bytes that are there already stay
            bs = bytes(self.buf[p:self.keep]) + bytes(bs[self.keep - p:])
        if len(self.buf) < p + len(bs):
            self.buf.extend(bytes(p + len(bs) - len(self.buf)))
        self.buf[p:p + len(bs)] = bytes(bs)

    def record(self, rec):
        self.stack.append(rec)
        try:
            return super().record(rec)
        finally:
            self.stack.pop()

    def field(self, f, env):
        rec, rng, c = self.stack[-1], self.pool.rng, self.c
        if f.kind == "int":
            v = self.pool.int(f.t, f.w)
            if f.id:
                lp = [p for _, p in len_producers(rec, f.id)] + [p.base if k is None else p.alts[k] for _, p, k in cond_producers(rec, f.id)]
                dp = disc_producers(rec, f.id)
                if lp and rng.random() < .9:
                    v = self.pool.count(rng.choice(lp))
                elif dp and rng.random() < .9:
                    v = rng.choice(dp[0][1].sel[-1])
            if f.cons is not None:
                if is_frozen(f) and (self.good or rng.random() < .85):
                    v = f.cons.frozen
                else:
                    for _ in range(200 if self.good else 8):
                        m = (1 << (8 * f.w)) - 1
                        if f.cons.py(c.o, V(f.t, v & m)) or not self.good and rng.random() < .1:
                            break
                        v = self.pool.int(f.t, f.w)
            bs = [(v >> (8 * k)) & 255 for k in range(f.w)]
            self.put(c.pos, bs[::-1] if self.be else bs)
        elif f.kind == "arr":
            n = f.n * f.t.bytes
            bs = bytearray(rng.getrandbits(8) for _ in range(n))
            if is_frozen(f) and (self.good or rng.random() < .8):
                bs = bytearray(b for x in f.cons.frozen for b in (x.to_bytes(f.t.bytes, "big" if self.be else "little")))
                if not self.good and rng.random() < .15:
                    bs[rng.randrange(n)] ^= 1 << rng.randrange(8)
            elif f.cons is not None and rng.random() < .8:
                for _ in range(30):
                    it = [scalar(f.t, (bs[i * f.t.bytes:(i + 1) * f.t.bytes][::-1] if self.be else bs[i * f.t.bytes:(i + 1) * f.t.bytes])) for i in range(f.n)]
                    if f.cons.py(c.o, VArr(it)):
                        break
                    bs = bytearray(b for _ in range(f.n) for b in self.pool.int(f.t).to_bytes(f.t.bytes, "big" if self.be else "little"))
            self.put(c.pos, bs)
        elif f.kind == "vec":
            try:
                n = self.count(f, env)
                if n < 5000 or self.good and n < 1 << 22:
                    self.put(c.pos, rng.randbytes(n * (f.an if isinstance(f, S.VecArr) else 1) * f.t.bytes))
            except TypeError:
                pass
        return super().field(f, env)


def gen_read(judge, en, rng, n):
    rec = judge.rec
    out = []
    for _ in range(n):
        buf = bytearray()
        env = Env(b"", 1 << 30)
        env.inb = lambda p: buf[p] if p < len(buf) else 0
        ctx = judge.ctx(env)
        try:
            GenReader(ctx, en, Pool(rec, rng), buf).record(rec)
        except (Err, Stop):
            pass
        used = min(max(len(buf), 1), 1 << 16)
        r = rng.random()
        if r < .3 and used > 0:
            ln = rng.randrange(used)
            if rng.random() < .4:
                ln = max(0, used - rng.randrange(1, 4))
        elif r < .7:
            ln = len(buf)
        else:
            ln = len(buf) + rng.randrange(1, 9)
        b = bytes(buf) + bytes(rng.getrandbits(8) for _ in range(16))
        out.append(Env(b[:ln], ln, rng.choice([1 << 40, 1 << 40, rng.randrange(0, ln + 2)])))
    return out


def complete(judge, en, env, rng, seen):
    """yields inputs that start like env's and go on so that the schema is satisfied"""
    cut, p = [], 0
    for f in judge.rec.fields:
        # boundaries of the leading fields
        if f.kind not in ("int", "arr"):
            break
        p += f.w if f.kind == "int" else f.n * f.t.bytes
        cut.append(p)
    for keep in sorted({k for k in cut + [env.inlen] if 0 < k <= min(env.inlen, 1 << 16)}, reverse=True)[:6]:
        if env.inp[:keep] in seen:
            continue
        seen.add(env.inp[:keep])
        buf = bytearray(env.inp[:keep])
        e = Env(b"", 1 << 30)
        e.inb = lambda p, buf=buf: buf[p] if p < len(buf) else 0
        g = GenReader(judge.ctx(e), en, Pool(judge.rec, rng), buf)
        g.keep, g.limit, g.good = keep, 1 << 23, True
        try:
            g.record(judge.rec)
            if g.c.pos == len(buf):
                yield Env(bytes(buf))
        except (Err, Stop):
            pass


def gen_write(judge, en, rng, n, ok_cap=False):
    rec = judge.rec
    out, seen = [], {}
    pool = Pool(rec, rng)
    tries = 0
    tl = tags(rec)
    while len(out) < n and tries < 12 * n:
        tries += 1
        sym, hv = {}, {}
        shared = rng.choice([0, 1, 2, 3, 5, 8])
        for t, f in tl:
            if f.kind == "int":
                sym[t] = pool.int(f.t, f.w if rng.random() < .9 else None)
                if rng.random() < .3:
                    sym[t] = shared
                if f.cons is not None and rng.random() < .85:
                    for _ in range(12):
                        if f.cons.py(judge.ctx(Env()).o, V(f.t, sym[t])):
                            break
                        sym[t] = pool.int(f.t, f.w)
            elif f.kind == "arr":
                b = f.t.bytes
                hv[t] = bytes(rng.getrandbits(8) for _ in range(f.n * b))
                if f.cons is not None and rng.random() < .85:
                    for _ in range(20):
                        it = [scalar(f.t, hv[t][i * b:(i + 1) * b]) for i in range(f.n)]
                        if f.cons.py(judge.ctx(Env()).o, VArr(it)):
                            break
                        hv[t] = b"".join(pool.int(f.t).to_bytes(b, "little") for _ in range(f.n))
            elif f.kind == "svec":
                sym[t] = rng.randrange(f.most + 1)
            elif f.kind in ("vec", "vecrec"):
                sym[t] = shared if rng.random() < .7 else pool.count(f)
                el = judge.offs["sizeof:" + f.rec.name] if f.kind == "vecrec" else (f.an * f.t.bytes if isinstance(f, S.VecArr) else f.elsize)
                if f.kind == "vecrec":
                    hv[t] = recs(f.rec, judge.offs, sym[t], el, pool, judge)
                else:
                    hv[t] = bytes(rng.getrandbits(8) for _ in range(sym[t] * el))
            elif f.kind == "opt":
                sym[t] = rng.getrandbits(1)
            elif f.kind == "union":
                sym[t] = rng.randrange(len(f.alts))
        e = Env(b"", 0, 1 << 40, sym, hv)
        ctx = judge.ctx(e)
        try:
            Writer(ctx, en).record(rec, Builder(ctx).record(rec))
            k = "ok"
        except Err as x:
            k = (x.reason, x.id, x.clause)
        except Stop:
            continue
        lim = n // 2 if k == "ok" else max(2, n // 10)
        if seen.get(k, 0) >= lim:
            continue
        seen[k] = seen.get(k, 0) + 1
        if not ok_cap and k == "ok" and rng.random() < .35 and isinstance(ctx.pos, int):
            e.cap = rng.randrange(0, ctx.pos + 1)
        out.append(e)
    return out


def recs(rec, offs, n, size, pool, judge):
    b = bytearray(n * size)

    def leaves(r):
        for f in r.fields:
            if f.kind == "rec":
                yield from leaves(f.rec)
            elif f.kind == "arrrec":
                for _ in range(f.n):
                    yield from leaves(f.rec)
            else:
                yield f
    for j in range(n):
        for f, o in zip(leaves(rec), offs[rec.name]):
            for q in range(f.n if f.kind == "arr" else 1):
                v = pool.int(f.t, f.w if f.kind == "int" else None)
                if f.cons is not None and f.kind == "int" and pool.rng.random() < .97:
                    for _ in range(12):
                        if f.cons.py(judge.ctx(Env()).o, V(f.t, v)):
                            break
                        v = pool.int(f.t, f.w)
                p = j * size + o + q * f.t.bytes
                b[p:p + f.t.bytes] = v.to_bytes(f.t.bytes, "little")
    return bytes(b)


def generate(judge, h, seed, n):
    rng = random.Random("%s/%s/%s" % (seed, judge.rec.name, h))
    if h[0] in ("read", "rw", "life"):
        return gen_read(judge, h[1], rng, n)
    return gen_write(judge, h[1], rng, n, h[0] == "wr")

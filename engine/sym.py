"""Symbolic values, linear 64-bit terms, and the object memory model."""
import bisect
import z3

M64 = (1 << 64) - 1


class Unsupported(Exception):
    """Outside the verifier's reach (never a verdict)."""


def s64(x):
    x &= M64
    return x - (1 << 64) if x >> 63 else x


class Lin:
    """c + sum coeff*atom  (mod 2^64); atoms are z3 BV64 terms."""
    __slots__ = ("c", "t", "_bv")

    def __init__(self, c, t):
        self.c = c
        self.t = t
        self._bv = None

    def __repr__(self):
        return "Lin(%d%s)" % (self.c, "".join(" + %d*%s" % (k, a) for k, a in self.t.values()))

    def bv(self):
        if self._bv is None:
            r = None
            for k, a in self.t.values():
                x = a
                if k != 1:
                    x = a * z3.BitVecVal(k, 64)
                r = x if r is None else r + x
            if self.c or r is None:
                r = z3.BitVecVal(self.c, 64) if r is None else r + z3.BitVecVal(self.c, 64)
            self._bv = r
        return self._bv


def lin_of(v):
    """int / BV64 / Lin -> Lin"""
    if isinstance(v, Lin):
        return v
    if isinstance(v, int):
        return Lin(s64(v), {})
    return lin_from_bv(v)


def lin_from_bv(e):
    if not isinstance(e, z3.ExprRef):
        raise Unsupported("arithmetic on a loop temporary")
    k = e.decl().kind()
    if k == z3.Z3_OP_BNUM:
        return Lin(s64(e.as_long()), {})
    if k == z3.Z3_OP_BADD:
        r = None
        for ch in e.children():
            x = lin_from_bv(ch)
            r = x if r is None else lin_add(r, x)
        return lin_of(r)
    if k == z3.Z3_OP_BMUL and e.num_args() == 2:
        a, b = e.children()
        if z3.is_bv_value(a):
            return lin_of(lin_scale(lin_from_bv(b), a.as_long()))
        if z3.is_bv_value(b):
            return lin_of(lin_scale(lin_from_bv(a), b.as_long()))
    if k == z3.Z3_OP_BSHL:
        a, b = e.children()
        if z3.is_bv_value(b) and b.as_long() < 64:
            return lin_of(lin_scale(lin_from_bv(a), 1 << b.as_long()))
    return Lin(0, {e.get_id(): (1, e)})


def lin_norm(l):
    if not l.t:
        return l.c & M64
    return l


def lin_add(a, b, kb=1):
    """a + kb*b -> int or Lin"""
    if isinstance(a, int):
        a = lin_of(a)
    if isinstance(b, int):
        b = lin_of(b)
    if not isinstance(a, Lin):
        a = lin_from_bv(a)
    if not isinstance(b, Lin):
        b = lin_from_bv(b)
    t = dict(a.t)
    for key, (k, at) in b.t.items():
        k *= kb
        if key in t:
            n = s64(t[key][0] + k)
            if n:
                t[key] = (n, at)
            else:
                del t[key]
        else:
            k = s64(k)
            if k:
                t[key] = (k, at)
    return lin_norm(Lin(s64(a.c + kb * b.c), t))


def lin_sub(a, b):
    return lin_add(a, b, -1)


def lin_scale(a, k):
    if isinstance(a, int):
        return (a * k) & M64
    a = lin_of(a)
    k = s64(k)
    t = {}
    for key, (c, at) in a.t.items():
        n = s64(c * k)
        if n:
            t[key] = (n, at)
    return lin_norm(Lin(s64(a.c * k), t))


def bvof(v, w):
    """any integer value -> z3 BV of width w"""
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, Lin):
        return v.bv()
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


class Ptr:
    __slots__ = ("o", "f")   # object id, offset (int or Lin)

    def __init__(self, o, f):
        self.o, self.f = o, f

    def __repr__(self):
        return f"Ptr({self.o},{self.f})"


NULL = Ptr(0, 0)


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, n):
        self.name = n


class Mix:
    """value loaded from partially initialised / pointer-mixed bytes: cells as loaded"""
    __slots__ = ("n", "cells")

    def __init__(self, n, cells):
        self.n, self.cells = n, cells

    def __repr__(self):
        return f"Mix({self.n},{self.cells})"


class _Poison:
    def __repr__(self):
        return "POISON"


POISON = _Poison()


class _Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = _Undef()


class Frag:
    """some bytes of a pointer representation"""
    __slots__ = ("v", "size", "k", "n")

    def __init__(self, v, size, k, n):
        self.v, self.size, self.k, self.n = v, size, k, n


def is_int_val(v):
    return isinstance(v, (int, Lin, z3.BitVecRef, z3.BoolRef))


_simp = z3.simplify


def extract_bytes(v, size, k, n):
    """bytes [k,k+n) of a size-byte value (little endian)"""
    if k == 0 and n == size:
        return v
    if isinstance(v, int):
        return (v >> (8 * k)) & ((1 << (8 * n)) - 1)
    if v is POISON:
        return POISON
    if isinstance(v, (Ptr, FnPtr)):
        return Frag(v, size, k, n)
    if isinstance(v, Frag):
        return v.v if v.k + k == 0 and n == v.size else Frag(v.v, v.size, v.k + k, n)
    if isinstance(v, Lin):
        v = v.bv()
    if isinstance(v, z3.BoolRef):
        v = bvof(v, 8 * size)
    return _simp(z3.Extract(8 * (k + n) - 1, 8 * k, v))


def concat_cells(parts):
    """parts: list of (size,val) low..high, all integer valued -> value"""
    if all(isinstance(v, int) for _, v in parts):
        r = 0
        sh = 0
        for s, v in parts:
            r |= v << sh
            sh += 8 * s
        return r
    if len(parts) == 1:
        return parts[0][1]
    return _simp(z3.Concat(*[bvof(v, 8 * s) for s, v in reversed(parts)]))


class Cells:
    """concretely addressed byte store: sorted start offsets -> (size,value)"""
    __slots__ = ("d", "starts")

    def __init__(self, d=None, starts=None):
        self.d = {} if d is None else d
        self.starts = [] if starts is None else starts

    def copy(self):
        return Cells(dict(self.d), list(self.starts))

    def _split_at(self, o):
        """make sure no cell straddles offset o"""
        st = self.starts
        i = bisect.bisect_left(st, o) - 1
        if i < 0:
            return
        s = st[i]
        sz, v = self.d[s]
        if s + sz > o:
            k = o - s
            self.d[s] = (k, extract_bytes(v, sz, 0, k))
            self.d[o] = (sz - k, extract_bytes(v, sz, k, sz - k))
            st.insert(i + 1, o)

    def clear(self, o, n):
        if not self.starts or n == 0:
            return
        self._split_at(o)
        self._split_at(o + n)
        st = self.starts
        i = bisect.bisect_left(st, o)
        j = bisect.bisect_left(st, o + n)
        for s in st[i:j]:
            del self.d[s]
        del st[i:j]

    def store(self, o, n, v):
        c = self.d.get(o)
        if c is not None and c[0] == n:
            self.d[o] = (n, v)
            return
        self.clear(o, n)
        bisect.insort(self.starts, o)
        self.d[o] = (n, v)

    def get(self, o, n):
        """list of (rel, size, val|None) covering [0,n)"""
        st = self.starts
        out = []
        i = bisect.bisect_right(st, o) - 1
        pos = o
        end = o + n
        if i >= 0:
            s = st[i]
            sz, v = self.d[s]
            if s + sz > o:
                k = o - s
                m = min(sz - k, n)
                out.append((0, m, extract_bytes(v, sz, k, m)))
                pos = o + m
        i += 1
        L = len(st)
        while pos < end:
            if i < L and st[i] < end:
                s = st[i]
                if s > pos:
                    out.append((pos - o, s - pos, None))
                sz, v = self.d[s]
                m = min(sz, end - s)
                out.append((s - o, m, extract_bytes(v, sz, 0, m)))
                pos = s + m
                i += 1
            else:
                out.append((pos - o, end - pos, None))
                pos = end
        return out

    def raw(self, o, n):
        """like get but skips holes (for memcpy)"""
        return [(r, s, v) for r, s, v in self.get(o, n) if v is not None]


class Layer:
    """covers [lo, lo+stride*count); element j holds parts [(k0,size,fn(j))]"""
    __slots__ = ("lo", "stride", "count", "parts")

    def __init__(self, lo, stride, count, parts):
        self.lo, self.stride, self.count, self.parts = lo, stride, count, parts

    def __repr__(self):
        return f"Layer({self.lo},{self.stride},{self.count},{[(a,b) for a,b,_ in self.parts]})"


class Obj:
    __slots__ = ("id", "size", "kind", "cells", "layers", "alive", "epoch", "name", "ro")

    def __init__(self, id, size, kind, name=None):
        self.id, self.size, self.kind, self.name = id, size, kind, name
        self.cells = Cells()
        self.layers = None      # None: cell mode;  tuple: region mode
        self.alive = True
        self.epoch = -1
        self.ro = False

    def copy(self):
        o = Obj.__new__(Obj)
        o.id, o.size, o.kind, o.name, o.ro = self.id, self.size, self.kind, self.name, self.ro
        o.cells = self.cells.copy() if self.layers is None else self.cells
        o.layers = self.layers
        o.alive = self.alive
        return o

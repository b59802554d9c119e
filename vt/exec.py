"""Symbolic executor for the LLVM IR that rustc emits for /repo.

States carry a path condition, a call stack and a byte-granular memory.  Two
exploration modes:
  merge  states that reach the same program point are joined with ite-terms
         (no solver involved until the end),
  split  every symbolic branch is decided by the solver (path enumeration).
Outcomes: ret / panic / ub / limit, each with its path condition.
"""
import heapq
import re
from . import term as T
from . import ll
from .ll import Unsupported, size_of, align_of, field_off, parse_fn


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return "Ptr(%d,%s)" % (self.obj, T.show(self.off, 2))


def same(a, b):
    if a is b:
        return True
    ta = type(a)
    if ta is not type(b):
        return False
    if ta is Ptr:
        return a.obj == b.obj and a.off is b.off
    if ta is tuple:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


class Alt(Exception):
    """result of a call that forks: [(cond, kind, payload)] kind in val/panic/ub"""

    def __init__(self, alts):
        self.alts = alts


class Obj:
    __slots__ = ("cells", "tok", "ro")

    def __init__(self, cells, tok=None, ro=False):
        self.cells, self.tok, self.ro = cells, tok, ro


class Frame:
    __slots__ = ("fn", "blk", "ins", "i", "loc", "res", "path", "iters", "allocas", "fkey")

    def copy(self):
        f = Frame()
        f.fn, f.blk, f.ins, f.i, f.res, f.path = self.fn, self.blk, self.ins, self.i, self.res, self.path
        f.loc = dict(self.loc)
        f.iters = dict(self.iters) if self.iters else {}
        f.allocas = self.allocas
        f.fkey = self.fkey
        return f


class State:
    __slots__ = ("fr", "mem", "pc", "tok", "last")

    def fork(self):
        s = State()
        s.fr = [f.copy() for f in self.fr]
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.last = self.last
        s.tok = object()
        self.tok = object()
        return s


class Outcome:
    __slots__ = ("kind", "info", "pc", "mem", "ret", "where")

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.info)


class NoMerge(Exception):
    pass


class Limit(Exception):
    pass


def demangle(s):
    if s.startswith("@"):
        s = s[1:]
    if not s.startswith("_ZN"):
        return s
    i = 3
    out = []
    n = len(s)
    while i < n and s[i].isdigit():
        j = i
        while s[j].isdigit():
            j += 1
        k = int(s[i:j])
        out.append(s[j:j + k])
        i = j + k
    if out and re.fullmatch(r"h[0-9a-f]{16}", out[-1]):
        out.pop()
    r = "::".join(out)
    for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$RF$", "&"), ("$BP$", "*"), ("$C$", ","), ("$u20$", " "),
                 ("$LP$", "("), ("$RP$", ")"), ("$u7b$", "{"), ("$u7d$", "}"), ("$u5b$", "["), ("$u5d$", "]"),
                 ("$u27$", "'"), ("$u3b$", ";"), ("$u2b$", "+"), ("$u22$", '"'), ("..", "::")):
        r = r.replace(a, b)
    return re.sub(r"(^|::|<|&| )_(<|&)", r"\1\2", r)


UBP = ("core::panicking::panic_nounwind", "core::panicking::panic_misaligned", "core::panicking::panic_null_pointer",
       "core::panicking::panic_invalid_enum", "core::panicking::panic_cannot_unwind", "core::panicking::panic_in_cleanup")
PANICS = ("core::panicking::", "core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed",
          "core::slice::index::", "core::str::slice_error_fail", "core::slice::copy_from_slice_impl::len_mismatch_fail",
          "core::slice::<impl [T]>::copy_from_slice::len_mismatch_fail", "alloc::alloc::handle_alloc_error",
          "alloc::raw_vec::handle_error", "core::cell::panic", "core::slice::copy_from_slice", "core::num::int_log10",
          "core::num::from_ascii_radix_panic", "core::num::from_str_radix_panic", "core::char::")


class Machine:
    def __init__(self, mods, hooks=None, mode="merge", oracle=None, unroll=400, check_after=2, refuse64=True,
                 max_states=20000, max_steps=20000000):
        self.mods = mods
        self.sym = {}
        for m in mods:
            for n, f in m.fns.items():
                self.sym.setdefault(n, f)
        self.hooks = hooks or {}
        self.mode = mode
        self.oracle = oracle
        self.unroll = unroll
        self.check_after = check_after
        self.refuse64 = refuse64
        self.max_states = max_states
        self.max_steps = max_steps
        self.ids = {}
        self.base = [0]
        self.osize = [0]
        self.oname = ["null"]
        self.next_addr = 0x10000
        self.gobj = {}
        self.fnobj = {}
        self.inted = set()
        self.objfn = {}
        self.nundef = 0
        self.called = set()
        self.steps = 0
        self.outcomes = []
        self.dem = {}
        self.hook_cache = {}
        self.fuid = {}
        self.nforks = 0
        self.reach = None

    # ------------------------------------------------------------ objects
    def new_obj(self, key, size, align=16):
        i = self.ids.get(key)
        if i is None:
            i = len(self.base)
            self.ids[key] = i
            a = (self.next_addr + 63) // 64 * 64
            self.base.append(a)
            self.osize.append(size)
            self.oname.append(key)
            self.next_addr = a + size + 64
        return i

    def undef(self, w):
        self.nundef += 1
        return T.var("undef!%d" % self.nundef, w)

    def global_ptr(self, st, mod, name):
        key = (id(mod), name) if name in mod.globals else None
        if key is None:
            for m in self.mods:
                if name in m.globals and m.global_init(name) is not None:
                    key = (id(m), name)
                    mod = m
                    break
        if key is not None:
            o = self.gobj.get(key)
            if o is not None:
                if o not in st.mem:
                    st.mem[o] = self.gdata[o]
                return Ptr(o, Z64)
            gi = mod.global_init(name)
            if gi is None:
                for m in self.mods:
                    if m is not mod and name in m.globals and m.global_init(name) is not None:
                        return self.global_ptr(st, m, name)
                raise Unsupported("external global " + name)
            if gi[0] == "alias":
                return self.const_val(st, mod, ll.PTR, gi[1])
            t, v, al, ro = gi
            n = size_of(t)
            o = self.new_obj(("g", key), n, al)
            self.gobj[key] = o
            cells = [None] * n
            ob = Obj(cells, None, ro)
            self.gdata[o] = ob
            st.mem[o] = ob
            self.fill(st, mod, cells, 0, t, v)
            return Ptr(o, Z64)
        # function
        o = self.fnobj.get(name)
        if o is None:
            o = self.new_obj(("f", name), 1)
            self.fnobj[name] = o
            self.objfn[o] = name
        return Ptr(o, Z64)

    gdata = None

    def fill(self, st, mod, cells, off, t, v):
        k = v[0]
        if k == "undef":
            return
        if k == "zero":
            z = T.const(0, 8)
            for i in range(size_of(t)):
                cells[off + i] = (z, 0, 1)
            return
        if k == "str":
            for i, b in enumerate(v[1]):
                cells[off + i] = (T.const(b, 8), 0, 1)
            return
        if k == "agg":
            if t[0] == "st":
                for i, (et, ev) in enumerate(v[1]):
                    self.fill(st, mod, cells, off + field_off(t, i), et, ev)
            else:
                sz = size_of(t[2])
                for i, (et, ev) in enumerate(v[1]):
                    self.fill(st, mod, cells, off + i * sz, et, ev)
            return
        if k == "splat":
            sz = size_of(t[2])
            for i in range(t[1]):
                self.fill(st, mod, cells, off + i * sz, v[1], v[2])
            return
        val = self.const_val(st, mod, t, v)
        n = size_of(t)
        if type(val) is Ptr:
            for i in range(8):
                cells[off + i] = (val, i, 8)
        else:
            val = T.zext(val, 8 * n)
            for i in range(n):
                cells[off + i] = (val, i, n)

    # ------------------------------------------------------------ values
    def const_val(self, st, mod, t, v):
        k = v[0]
        if k == "c":
            return T.const(v[1], t[1])
        if k == "null":
            return Ptr(0, Z64)
        if k == "g":
            return self.global_ptr(st, mod, v[1])
        if k == "undef":
            return self.undef_val(t)
        if k == "zero":
            return self.zero_val(t)
        if k == "agg":
            return tuple(self.const_val(st, mod, et, ev) for et, ev in v[1])
        if k == "str":
            return tuple(T.const(b, 8) for b in v[1])
        if k == "splat":
            x = self.const_val(st, mod, v[1], v[2])
            return (x,) * t[1]
        if k == "cegep":
            p = self.const_val(st, mod, ll.PTR, v[2])
            return self.gep(st, None, p, v[1], [(it, self.const_val(st, mod, it, iv)) for it, iv in v[3]])
        if k == "cecast":
            _, op, t1, x, t2 = v
            return self.cast(op, t1, self.const_val(st, mod, t1, x), t2)
        if k == "cebin":
            _, op, t1, a, b = v
            return self.binop(op, t1, self.const_val(st, mod, t1, a), self.const_val(st, mod, t1, b))
        raise Unsupported("const %r" % (v,))

    def undef_val(self, t):
        if t[0] in ("i", "f"):
            return self.undef(t[1])
        if t[0] == "ptr":
            return Ptr(0, self.undef(64))
        if t[0] == "st":
            return tuple(self.undef_val(x) for x in t[1])
        if t[0] in ("arr", "vec"):
            return tuple(self.undef_val(t[2]) for _ in range(t[1]))
        return None

    def zero_val(self, t):
        if t[0] in ("i", "f"):
            return T.const(0, t[1])
        if t[0] == "ptr":
            return Ptr(0, Z64)
        if t[0] == "st":
            return tuple(self.zero_val(x) for x in t[1])
        return tuple(self.zero_val(t[2]) for _ in range(t[1]))

    def val(self, st, fr, t, v):
        k = v[0]
        if k == "l":
            return fr.loc[v[1]]
        if k == "c":
            return T.const(v[1], t[1])
        return self.const_val(st, fr.fn.mod, t, v)

    def addr(self, p):
        if p.obj == 0:
            return p.off
        self.inted.add(p.obj)
        return T.add(p.off, T.const(self.base[p.obj], 64))

    def to_ptr(self, x):
        if x.op == "c":
            a = x.v
            if a >= 0x10000:
                for i in range(1, len(self.base)):
                    if self.base[i] <= a <= self.base[i] + self.osize[i]:
                        return Ptr(i, T.const(a - self.base[i], 64))
            return Ptr(0, x)
        if x.op == "add" and x.a[1].op == "c":
            p = self.to_ptr(x.a[1])
            if p.obj:
                return Ptr(p.obj, T.add(p.off, x.a[0]))
        return Ptr(0, x)

    # ------------------------------------------------------------ memory
    def ub(self, st, cond, why):
        """record that `cond` (may be None for always) leads to undefined behaviour"""
        pc = st.pc if cond is None else st.pc + (cond,)
        if cond is not None and cond is T.FALSE:
            return
        self.record(st, "ub", why, pc)

    def record(self, st, kind, info, pc, ret=None):
        o = Outcome()
        o.kind, o.info, o.pc, o.mem, o.ret = kind, info, pc, st.mem, ret
        o.where = self.backtrace(st)
        self.outcomes.append(o)

    def backtrace(self, st):
        return " < ".join(self.dname(f.fn.name) for f in reversed(st.fr[-5:]))

    def dname(self, n):
        d = self.dem.get(n)
        if d is None:
            d = self.dem[n] = demangle(n)
        return d

    def deref(self, st, p, n, write=False):
        """-> (obj, [(cond, offset)]) ; raises Dead on certain UB"""
        if n == 0:
            return None, []
        ob = st.mem.get(p.obj)
        if ob is None or p.obj == 0 or p.obj in self.objfn:
            self.ub(st, None, "invalid pointer dereference %r" % (self.oname[p.obj],))
            raise Dead()
        size = len(ob.cells)
        off = p.off
        if off.op == "c":
            if off.v + n > size:
                self.ub(st, None, "out of bounds access: offset %d size %d object %d" % (T.sval(off), n, size))
                raise Dead()
            if write and ob.ro:
                self.ub(st, None, "write to constant")
                raise Dead()
            return ob, [(None, off.v)]
        ok = T.ule(off, T.const(size - n, 64)) if n <= size else T.FALSE
        if ok is not T.TRUE:
            self.ub(st, T.bnot(ok), "out of bounds access with symbolic offset, object %d" % size)
            if ok is T.FALSE:
                raise Dead()
        lo, hi = off.lb, min(off.ub, size - n)
        kz = off.kz
        cand = [o for o in range(lo, hi + 1) if not (o & kz)]
        if self.oracle is not None and len(cand) > 1:
            cand = self.oracle.candidates(st.pc, off, cand)
        if len(cand) > 1100:
            raise Unsupported("symbolic offset with %d candidates" % len(cand))
        return ob, [(T.eq(off, T.const(o, 64)), o) for o in cand]

    def load_cells(self, ob, off, n):
        return ob.cells[off:off + n]

    def cells_to_int(self, cs, w):
        n = len(cs)
        c0 = cs[0]
        if c0 is not None and c0[1] == 0 and c0[2] == n and type(c0[0]) is not Ptr:
            v = c0[0]
            for j in range(1, n):
                c = cs[j]
                if c is None or c[0] is not v or c[1] != j:
                    break
            else:
                return v if v.w == w else T.trunc(v, w)
        out = []
        j = 0
        while j < n:
            c = cs[j]
            if c is None:
                out.append(self.undef(8))
                j += 1
                continue
            v, k, m = c
            r = 1
            while j + r < n and cs[j + r] is not None and cs[j + r][0] is v and cs[j + r][1] == k + r:
                r += 1
            if type(v) is Ptr:
                v = self.addr(v)
            out.append(T.extract(8 * (k + r) - 1, 8 * k, v))
            j += r
        v = T.concat(*reversed(out))
        return T.trunc(v, w)

    def cells_to_ptr(self, cs):
        c0 = cs[0]
        if c0 is not None and type(c0[0]) is Ptr and c0[1] == 0 and \
                all(c is not None and c[0] is c0[0] and c[1] == j for j, c in enumerate(cs)):
            return c0[0]
        if all(c is None for c in cs):
            return Ptr(0, self.undef(64))
        return self.to_ptr(self.cells_to_int(cs, 64))

    def load(self, st, t, p):
        k = t[0]
        if k in ("i", "f"):
            n = (t[1] + 7) // 8
            ob, cand = self.deref(st, p, n)
            r = None
            for c, o in reversed(cand):
                v = self.cells_to_int(ob.cells[o:o + n], t[1])
                r = v if r is None or c is None else T.ite(c, v, r)
            if r is None:
                raise Dead()
            return under(st.pc, r)
        if k == "ptr":
            ob, cand = self.deref(st, p, 8)
            if len(cand) == 1:
                return self.cells_to_ptr(ob.cells[cand[0][1]:cand[0][1] + 8])
            alts = [(c, "val", self.cells_to_ptr(ob.cells[o:o + 8])) for c, o in cand]
            if all(same(alts[0][2], x[2]) for x in alts):
                return alts[0][2]
            raise Alt(alts)
        if k == "st":
            return tuple(self.load(st, x, Ptr(p.obj, T.add(p.off, T.const(field_off(t, i), 64)))) for i, x in enumerate(t[1]))
        if k in ("arr", "vec"):
            s = size_of(t[2])
            return tuple(self.load(st, t[2], Ptr(p.obj, T.add(p.off, T.const(i * s, 64)))) for i in range(t[1]))
        raise Unsupported("load %r" % (t,))

    def own(self, st, oid):
        ob = st.mem[oid]
        if ob.tok is not st.tok:
            ob = Obj(list(ob.cells), st.tok, ob.ro)
            st.mem[oid] = ob
        return ob

    def store_cells(self, st, p, new):
        n = len(new)
        if n == 0:
            return
        ob, cand = self.deref(st, p, n, True)
        ob = self.own(st, p.obj)
        if len(cand) == 1 and cand[0][0] is None:
            o = cand[0][1]
            ob.cells[o:o + n] = new
            return
        newv = None
        if all(c is not None and type(c[0]) is not Ptr for c in new):
            newv = self.cells_to_int(new, 8 * n)
        for c, o in cand:
            old = ob.cells[o:o + n]
            if newv is None or any(x is not None and type(x[0]) is Ptr for x in old):
                if len(cand) == 1:
                    ob.cells[o:o + n] = new
                    continue
                raise Unsupported("symbolic-offset store of pointers")
            ov = self.cells_to_int(old, 8 * n)
            v = T.ite(c, newv, ov)
            ob.cells[o:o + n] = [(v, i, n) for i in range(n)]

    def store(self, st, t, v, p):
        k = t[0]
        if k in ("i", "f"):
            n = (t[1] + 7) // 8
            v = T.zext(v, 8 * n)
            self.store_cells(st, p, [(v, i, n) for i in range(n)])
        elif k == "ptr":
            self.store_cells(st, p, [(v, i, 8) for i in range(8)])
        elif k == "st":
            for i, x in enumerate(t[1]):
                self.store(st, x, v[i], Ptr(p.obj, T.add(p.off, T.const(field_off(t, i), 64))))
        elif k in ("arr", "vec"):
            s = size_of(t[2])
            for i in range(t[1]):
                self.store(st, t[2], v[i], Ptr(p.obj, T.add(p.off, T.const(i * s, 64))))
        else:
            raise Unsupported("store %r" % (t,))

    def memcpy(self, st, d, s, n):
        if n.op != "c":
            lo, hi = n.lb, n.ub
            if self.oracle is not None:
                c = self.oracle.candidates(st.pc, n, list(range(lo, min(hi, lo + 600) + 1)))
                if len(c) == 1:
                    n = T.const(c[0], 64)
                else:
                    raise Resplit([(T.eq(n, T.const(x, 64)), ) for x in c], n, c)
            else:
                raise Unsupported("memcpy of symbolic length")
        if n.v == 0:
            return
        ob, cand = self.deref(st, s, n.v)
        if len(cand) == 1:
            o = cand[0][1]
            self.store_cells(st, d, ob.cells[o:o + n.v])
            return
        r = None
        for c, o in reversed(cand):
            v = self.cells_to_int(ob.cells[o:o + n.v], 8 * n.v)
            r = v if r is None else T.ite(c, v, r)
        self.store_cells(st, d, [(r, i, n.v) for i in range(n.v)])

    def gep(self, st, fr, p, bt, idx):
        off = p.off
        t = bt
        first = True
        for it, iv in idx:
            if iv.w < 64:
                iv = T.sext(iv, 64)
            if first:
                off = T.add(off, T.mul(iv, T.const(size_of(t), 64)))
                first = False
            elif t[0] == "st":
                i = iv.v
                off = T.add(off, T.const(field_off(t, i), 64))
                t = t[1][i]
            else:
                t = t[2]
                off = T.add(off, T.mul(iv, T.const(size_of(t), 64)))
        return Ptr(p.obj, off)

    # ------------------------------------------------------------ arithmetic
    def binop(self, op, t, a, b, fl=(), st=None):
        if t[0] == "vec":
            return tuple(self.binop(op, t[2], x, y, fl, st) for x, y in zip(a, b))
        if type(a) is Ptr:
            a = self.addr(a)
        if type(b) is Ptr:
            b = self.addr(b)
        w = t[1]
        if op == "add":
            r = T.add(a, b)
            if fl and st is not None:
                bad = T.FALSE
                if "nuw" in fl:
                    bad = T.bor(bad, T.bit(T.add(T.zext(a, w + 1), T.zext(b, w + 1)), w))
                if "nsw" in fl:
                    bad = T.bor(bad, sadd_ovf(a, b, r))
                if bad is not T.FALSE:
                    r = T.ite(bad, self.undef(w), r)
            return r
        if op == "sub":
            r = T.sub(a, b)
            if fl and st is not None:
                bad = T.FALSE
                if "nuw" in fl:
                    bad = T.bor(bad, T.ult(a, b))
                if "nsw" in fl:
                    bad = T.bor(bad, ssub_ovf(a, b, r))
                if bad is not T.FALSE:
                    r = T.ite(bad, self.undef(w), r)
            return r
        if op == "mul":
            r = T.mul(a, b)
            if fl and st is not None and (a.op == "c" or b.op == "c" or w <= 64):
                bad = T.FALSE
                if "nuw" in fl:
                    bad = T.bor(bad, T.ne(T.extract(2 * w - 1, w, T.mul(T.zext(a, 2 * w), T.zext(b, 2 * w))), T.const(0, w)))
                if "nsw" in fl:
                    p = T.mul(T.sext(a, 2 * w), T.sext(b, 2 * w))
                    bad = T.bor(bad, T.ne(T.sext(T.trunc(p, w), 2 * w), p))
                if bad is not T.FALSE:
                    r = T.ite(bad, self.undef(w), r)
            return r
        if op in ("udiv", "urem", "sdiv", "srem"):
            z = T.eq(b, T.const(0, w))
            if st is not None and z is not T.FALSE:
                self.ub(st, z, op + " by zero")
                if z is T.TRUE:
                    raise Dead()
            if op == "udiv":
                return T.udiv(a, b)
            if op == "urem":
                return T.urem(a, b)
            if st is not None:
                ov = T.band(T.eq(a, T.const(1 << (w - 1), w)), T.eq(b, T.const(-1, w)))
                if ov is not T.FALSE:
                    self.ub(st, ov, op + " overflow")
            return T.sdiv(a, b) if op == "sdiv" else T.srem(a, b)
        if op == "and":
            return T.band(a, b)
        if op == "or":
            return T.bor(a, b)
        if op == "xor":
            return T.bxor(a, b)
        if op in ("shl", "lshr", "ashr"):
            r = {"shl": T.shl, "lshr": T.lshr, "ashr": T.ashr}[op](a, b)
            ok = T.ult(b, T.const(w, w)) if w.bit_length() <= w else T.TRUE
            if ok is not T.TRUE:
                r = T.ite(ok, r, self.undef(w))
            return r
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            return T.uf(op + str(w), w, a, b)
        raise Unsupported("binop " + op)

    def cast(self, op, t, v, t2):
        if t[0] == "vec":
            return tuple(self.cast(op, t[2], x, t2[2]) for x in v)
        if op == "zext":
            return T.zext(v, t2[1])
        if op == "sext":
            return T.sext(v, t2[1])
        if op == "trunc":
            return T.trunc(v, t2[1])
        if op == "ptrtoint":
            x = self.addr(v)
            return T.trunc(x, t2[1]) if t2[1] <= 64 else T.zext(x, t2[1])
        if op == "inttoptr":
            return self.to_ptr(T.zext(v, 64))
        if op == "bitcast":
            return v
        if op in ("uitofp", "sitofp"):
            return int_to_fp(v, t2[1], op == "sitofp")
        if op == "fpext":
            return fp_ext(v) if (t[1], t2[1]) == (32, 64) else T.uf("fpext%d_%d" % (t[1], t2[1]), t2[1], v)
        if op == "fptrunc":
            return T.uf("fptrunc%d_%d" % (t[1], t2[1]), t2[1], v)
        if op in ("fptoui", "fptosi"):
            r, bad = fp_to_int(v, t[1], t2[1], op == "fptosi")
            return T.ite(bad, self.undef(t2[1]), r)
        raise Unsupported("cast " + op)

    def icmp(self, pred, t, a, b):
        if t[0] == "vec":
            return tuple(self.icmp(pred, t[2], x, y) for x, y in zip(a, b))
        if type(a) is Ptr or type(b) is Ptr:
            if type(a) is Ptr and type(b) is Ptr and a.obj == b.obj:
                a, b = a.off, b.off
            else:
                # an object never sits at the null address
                for x, y in ((a, b), (b, a)):
                    if type(x) is Ptr and type(y) is Ptr and x.obj and y.obj == 0 and y.off.op == "c" and y.off.v == 0 \
                            and pred in ("eq", "ne"):
                        return T.const(pred == "ne", 1)
                a = self.addr(a) if type(a) is Ptr else a
                b = self.addr(b) if type(b) is Ptr else b
        if pred == "eq":
            return T.eq(a, b)
        if pred == "ne":
            return T.ne(a, b)
        if pred == "ult":
            return T.ult(a, b)
        if pred == "ule":
            return T.ule(a, b)
        if pred == "ugt":
            return T.ult(b, a)
        if pred == "uge":
            return T.ule(b, a)
        if pred == "slt":
            return T.slt(a, b)
        if pred == "sle":
            return T.sle(a, b)
        if pred == "sgt":
            return T.slt(b, a)
        return T.sle(b, a)

    # ------------------------------------------------------------ exploration
    def start(self, fn, args, mem, pc=()):
        f = self.sym[fn]
        st = State()
        st.tok = object()
        st.mem = mem
        st.pc = tuple(pc)
        st.last = None
        st.fr = []
        self.push(st, f, args, None, ("root",))
        return st

    def push(self, st, f, args, res, path):
        parse_fn(f)
        fr = Frame()
        fr.fn, fr.blk, fr.i, fr.res, fr.path = f, f.entry, 0, res, path
        fr.ins = f.blocks[f.entry]
        fr.loc = {}
        fr.iters = {}
        fr.allocas = []
        fr.fkey = None
        for (n, t), v in zip(f.params, args):
            fr.loc[n] = v
        st.fr.append(fr)
        self.called.add(f.name)
        if len(st.fr) > 200:
            raise Unsupported("recursion too deep")

    def key(self, st):
        out = []
        for fr in st.fr:
            f = fr.fn
            u = self.fuid.setdefault(f.name, len(self.fuid))
            pos = f.rpo
            for h in f.loops[fr.blk]:
                out.append(pos[h])
                out.append(fr.iters.get(h, 0))
            out.append(pos[fr.blk])
            out.append(fr.i)
            out.append(u)
        return tuple(out)

    def run(self, fn, args, mem, pc=()):
        if self.gdata is None:
            self.gdata = {}
        st = self.start(fn, args, mem, pc)
        return self.explore([st])

    def explore(self, states):
        heap = []
        buckets = {}
        seq = [0]

        def put(s):
            k = self.key(s)
            b = buckets.get(k)
            if b is None:
                buckets[k] = [s]
                heapq.heappush(heap, k)
                return
            if self.mode == "merge":
                for i, o in enumerate(b):
                    m = self.try_merge(o, s)
                    if m is not None:
                        b[i] = m
                        return
            b.append(s)

        for s in states:
            put(s)
        n = 0
        while heap:
            k = heap[0]
            b = buckets[k]
            s = b.pop()
            if not b:
                del buckets[k]
                heapq.heappop(heap)
            n += 1
            if n > self.max_states:
                raise Unsupported("too many state slices")
            for x in self.slice(s):
                put(x)
        self.nslices = n
        return self.outcomes

    def slice(self, st):
        """run until a branch; return successor states"""
        while True:
            fr = st.fr[-1]
            ins = fr.ins[fr.i]
            op = ins[0]
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported("too many steps")
            try:
                h = DISPATCH.get(op)
                if h is None:
                    raise Unsupported("instruction %r" % (ins,))
                r = h(self, st, fr, ins)
            except Dead:
                return []
            except Alt as a:
                return self.do_alts(st, fr, ins, a.alts)
            except Resplit as rs:
                out = []
                for (c,) in rs.conds:
                    s = st.fork()
                    s.pc = s.pc + (c,)
                    s2 = self.concretise(s, rs.term, c)
                    out.append(s2)
                return out
            if r is None:
                fr.i += 1
                continue
            if r is CONT:
                continue
            return r

    def concretise(self, s, term, c):
        # c is eq(term, const); substitute the term in the locals of the top frame
        k = None
        for x in c.a:
            if x.op == "c":
                k = x
        if k is None:
            k = T.const(1 if c is term else 0, term.w)
        m = {term.id: k}
        for f in s.fr:
            for n, v in list(f.loc.items()):
                if isinstance(v, T.T) and v is term:
                    f.loc[n] = k
        return s

    def do_alts(self, st, fr, ins, alts):
        out = []
        live = []
        for c, kind, pl in alts:
            if c is T.FALSE:
                continue
            if self.mode == "split" and c is not T.TRUE and not self.feasible(st.pc + (c,)):
                continue
            if kind == "val":
                live.append((c, pl))
            else:
                self.record(st, kind, pl, st.pc + ((c,) if c is not T.TRUE else ()))
        for j, (c, pl) in enumerate(live):
            s = st.fork() if j < len(live) - 1 else st
            if c is not T.TRUE:
                s.pc = s.pc + (c,)
            f = s.fr[-1]
            if callable(pl):
                pl = pl(s)
            if ins[1] is not None:
                f.loc[ins[1]] = pl
            if ins[0] == "invoke":
                out.append(self.goto(s, f, ins[8]))
            else:
                f.i += 1
                out.append(s)
        self.nforks += max(0, len(live) - 1)
        return [x for x in out if x is not None]

    def feasible(self, pc):
        if self.oracle is None:
            return True
        return self.oracle.feasible(pc)

    def goto(self, st, fr, target):
        """transfer to a block; evaluates phis; returns st or None if the loop bound is hit"""
        f = fr.fn
        src = fr.blk
        loops_t = f.loops[target]
        loops_s = f.loops[src]
        for h in loops_t:
            if h not in loops_s:
                fr.iters[h] = 0
        if target in loops_t and target in loops_s:
            n = fr.iters.get(target, 0) + 1
            fr.iters[target] = n
            if n > self.unroll:
                self.record(st, "limit", "loop bound %d in %s" % (self.unroll, self.dname(f.name)), st.pc)
                return None
        for h in loops_s:
            if h not in loops_t:
                fr.iters.pop(h, None)
        ins = f.blocks[target]
        i = 0
        if ins[0][0] == "phi":
            new = {}
            while ins[i][0] == "phi":
                _, res, t, inc = ins[i]
                for v, b in inc:
                    if b == src:
                        new[res] = self.val(st, fr, t, v)
                        break
                else:
                    raise Unsupported("phi")
                i += 1
            fr.loc.update(new)
        fr.blk, fr.ins, fr.i = target, ins, i
        return st

    # ------------------------------------------------------------ merging
    def try_merge(self, a, b):
        if len(a.fr) != len(b.fr):
            return None
        for x, y in zip(a.fr, b.fr):
            if x.fn is not y.fn or x.blk != y.blk or x.i != y.i or x.iters != y.iters or x.path != y.path:
                return None
        # path conditions
        n = 0
        m = min(len(a.pc), len(b.pc))
        while n < m and a.pc[n] is b.pc[n]:
            n += 1
        ra, rb = T.ands(a.pc[n:]), T.ands(b.pc[n:])
        c = ra
        try:
            locs = []
            for d, (x, y) in enumerate(zip(a.fr, b.fr)):
                live = self.live_at(x.fn, x.blk, x.i, d < len(a.fr) - 1)
                loc = {}
                for k in live:
                    p, q = x.loc.get(k), y.loc.get(k)
                    if p is None or q is None:
                        continue
                    loc[k] = p if same(p, q) else self.merge_val(c, p, q)
                locs.append(loc)
            mem = {}
            keep = None
            for k, p in a.mem.items():
                q = b.mem.get(k)
                if q is None:
                    continue
                if p is not q and self.oname[k][0] == "a":
                    if keep is None:
                        keep = self.reachable(a, b)
                    if k not in keep:
                        continue        # a local that nothing can reach any more
                if p is q or p.cells is q.cells:
                    mem[k] = p
                    continue
                mem[k] = self.merge_obj(c, p, q)
        except NoMerge:
            return None
        for k, q in b.mem.items():
            if k not in mem and k not in a.mem and k in self.gdata:
                mem[k] = q
        s = State()
        s.tok = object()
        s.mem = mem
        r = T.bor(ra, rb)
        s.pc = a.pc[:n] + ((r,) if r is not T.TRUE else ())
        s.last = None
        s.fr = []
        for f, loc in zip(a.fr, locs):
            g = f.copy()
            g.loc = loc
            s.fr.append(g)
        return s

    def reachable(self, a, b):
        seen = set()
        todo = []

        def val(v):
            if type(v) is Ptr:
                if v.obj not in seen:
                    seen.add(v.obj)
                    todo.append(v.obj)
            elif type(v) is tuple:
                for x in v:
                    val(x)
        for s in (a, b):
            for d, f in enumerate(s.fr):
                for k in self.live_at(f.fn, f.blk, f.i, d < len(s.fr) - 1):
                    if k in f.loc:
                        val(f.loc[k])
            for k in s.mem:
                if k not in seen and (self.oname[k][0] != "a" or k in self.inted):
                    seen.add(k)
                    todo.append(k)
        while todo:
            k = todo.pop()
            for s in (a, b):
                o = s.mem.get(k)
                if o is not None:
                    last = None
                    for x in o.cells:
                        if x is not None and x[0] is not last:
                            last = x[0]
                            if type(last) is Ptr:
                                val(last)
        return seen

    def merge_val(self, c, p, q):
        tp = type(p)
        if tp is not type(q):
            raise NoMerge()
        if tp is Ptr:
            if p.obj != q.obj:
                raise NoMerge()
            if p.off.op == "c" and q.off.op == "c" and self.refuse64:
                raise NoMerge()
            return Ptr(p.obj, T.ite(c, p.off, q.off))
        if tp is tuple:
            return tuple(x if same(x, y) else self.merge_val(c, x, y) for x, y in zip(p, q))
        if self.refuse64 and p.w == 64 and p.op == "c" and q.op == "c":
            raise NoMerge()
        return T.ite(c, p, q)

    def merge_obj(self, c, p, q):
        a, b = p.cells, q.cells
        n = len(a)
        out = [None] * n
        i = 0
        while i < n:
            x, y = a[i], b[i]
            if x is y or (x is not None and y is not None and x[1] == y[1] and x[2] == y[2] and same(x[0], y[0])):
                out[i] = x
                i += 1
                continue
            # widest run that is a whole value on both sides (undef counts as anything)
            wx = self.whole(a, i)
            wy = self.whole(b, i)
            if x is None and y is not None and wy:
                if all(z is None for z in a[i:i + wy]):
                    v = y[0]
                    if type(v) is Ptr:
                        w = v   # undefined on the other side: keep the pointer
                    else:
                        w = T.ite(c, self.undef(v.w), v)
                    for j in range(wy):
                        out[i + j] = (w, j, wy)
                    i += wy
                    continue
            if y is None and x is not None and wx:
                if all(z is None for z in b[i:i + wx]):
                    v = x[0]
                    w = v if type(v) is Ptr else T.ite(c, v, self.undef(v.w))
                    for j in range(wx):
                        out[i + j] = (w, j, wx)
                    i += wx
                    continue
            if wx and wx == wy:
                v = self.merge_val(c, x[0], y[0])
                for j in range(wx):
                    out[i + j] = (v, j, wx)
                i += wx
                continue
            if wx and wy:
                # different granularity: take the larger one and rebuild the other
                w = max(wx, wy)
                if i + w <= n and not any(z is not None and type(z[0]) is Ptr for z in a[i:i + w] + b[i:i + w]):
                    v = T.ite(c, self.cells_to_int(a[i:i + w], 8 * w), self.cells_to_int(b[i:i + w], 8 * w))
                    for j in range(w):
                        out[i + j] = (v, j, w)
                    i += w
                    continue
            if (x is not None and type(x[0]) is Ptr) or (y is not None and type(y[0]) is Ptr):
                if x is None or y is None:
                    out[i] = y if x is None else x
                    i += 1
                    continue
                raise NoMerge()
            u = self.undef(8) if x is None else T.extract(8 * x[1] + 7, 8 * x[1], x[0])
            v = self.undef(8) if y is None else T.extract(8 * y[1] + 7, 8 * y[1], y[0])
            out[i] = (T.ite(c, u, v), 0, 1)
            i += 1
        return Obj(out, None, p.ro)

    def whole(self, cells, i):
        x = cells[i]
        if x is None or x[1] != 0:
            return 0
        n = x[2]
        if i + n > len(cells):
            return 0
        for j in range(1, n):
            y = cells[i + j]
            if y is None or y[0] is not x[0] or y[1] != j:
                return 0
        return n

    def live_at(self, f, blk, i, incall):
        if f.live is None:
            f.live = (liveness(f), {})
        key = (blk, i, incall)
        r = f.live[1].get(key)
        if r is None:
            lo = f.live[0]
            ins = f.blocks[blk]
            out = set()
            for s in ll.succs(ins):
                out |= lo[s]
                for p in f.blocks[s]:
                    if p[0] != "phi":
                        break
                    for v, b in p[3]:
                        if b == blk and v[0] == "l":
                            out.add(v[1])
            for k in range(len(ins) - 1, i - 1 + (1 if incall else 0), -1):
                d, us = defuse(ins[k])
                out.discard(d)
                out |= us
            r = f.live[1][key] = out
        return r

    # ------------------------------------------------------------ instructions
    def i_bin(self, st, fr, x):
        _, res, op, t, a, b, fl = x
        fr.loc[res] = self.binop(op, t, self.val(st, fr, t, a), self.val(st, fr, t, b), fl, st)

    def i_cast(self, st, fr, x):
        _, res, op, t, v, t2, fl = x
        a = self.val(st, fr, t, v)
        r = self.cast(op, t, a, t2)
        if fl and op == "trunc" and t[0] == "i":
            w, n = t[1], t2[1]
            bad = T.FALSE
            if "nuw" in fl:
                bad = T.ne(T.zext(r, w), a)
            if "nsw" in fl:
                bad = T.bor(bad, T.ne(T.sext(r, w), a))
            if bad is not T.FALSE:
                r = T.ite(bad, self.undef(n), r)
        elif fl and op == "zext" and "nneg" in fl and t[0] == "i":
            bad = T.bit(a, t[1] - 1)
            if bad is not T.FALSE:
                r = T.ite(bad, self.undef(t2[1]), r)
        fr.loc[res] = r

    def i_icmp(self, st, fr, x):
        _, res, pred, t, a, b = x
        fr.loc[res] = self.icmp(pred, t, self.val(st, fr, t, a), self.val(st, fr, t, b))

    def i_fcmp(self, st, fr, x):
        _, res, pred, t, a, b = x
        fr.loc[res] = fcmp(pred, self.val(st, fr, t, a), self.val(st, fr, t, b))

    def i_load(self, st, fr, x):
        _, res, t, p = x
        fr.loc[res] = self.load(st, t, self.val(st, fr, ll.PTR, p))

    def i_store(self, st, fr, x):
        _, t, v, p = x
        self.store(st, t, self.val(st, fr, t, v), self.val(st, fr, ll.PTR, p))

    def i_alloca(self, st, fr, x):
        _, res, t, al = x
        n = size_of(t)
        o = self.new_obj(("a", fr.path, fr.fn.name, res), n, al)
        st.mem[o] = Obj([None] * n, st.tok)
        if o not in fr.allocas:
            fr.allocas = fr.allocas + [o]
        fr.loc[res] = Ptr(o, Z64)

    def i_gep(self, st, fr, x):
        _, res, bt, base, idx, pt = x
        p = self.val(st, fr, pt, base)
        fr.loc[res] = self.gep(st, fr, p, bt, [(t, self.val(st, fr, t, v)) for t, v in idx])

    def i_br(self, st, fr, x):
        r = self.goto(st, fr, x[1])
        return [r] if r is not None else []

    def i_condbr(self, st, fr, x):
        c = self.val(st, fr, ll.I1, x[1])
        if c.op == "c":
            r = self.goto(st, fr, x[2] if c.v else x[3])
            return [r] if r is not None else []
        if x[2] == x[3]:
            r = self.goto(st, fr, x[2])
            return [r] if r is not None else []
        return self.fork_to(st, fr, [(c, x[2]), (T.bnot(c), x[3])])

    def fork_to(self, st, fr, alts):
        check = self.mode == "split"
        if not check and self.oracle is not None:
            # inside a loop: ask the solver once the loop has gone round a few times
            for h in fr.fn.loops[fr.blk]:
                if fr.iters.get(h, 0) >= self.check_after:
                    check = True
        if check:
            ok = []
            for j, (c, b) in enumerate(alts):
                if not ok and j == len(alts) - 1:
                    ok.append((c, b))     # the path itself is feasible
                elif self.feasible(st.pc + (c,)):
                    ok.append((c, b))
            alts = ok
        elif self.mode == "merge":
            # drop a branch that contradicts the path condition syntactically
            pcs = st.pc
            alts = [(c, b) for c, b in alts if not any(T.bnot(c) is q for q in pcs)]
        out = []
        for j, (c, b) in enumerate(alts):
            s = st.fork() if j < len(alts) - 1 else st
            if len(alts) > 1 or not check:
                s.pc = s.pc + (c,)
            r = self.goto(s, s.fr[-1], b)
            if r is not None:
                out.append(r)
        self.nforks += max(0, len(out) - 1)
        return out

    def i_switch(self, st, fr, x):
        _, t, v, d, cs = x
        a = self.val(st, fr, t, v)
        if a.op == "c":
            b = d
            for k, l in cs:
                if (k & ((1 << a.w) - 1)) == a.v:
                    b = l
                    break
            r = self.goto(st, fr, b)
            return [r] if r is not None else []
        by = {}
        rest = T.TRUE
        for k, l in cs:
            e = T.eq(a, T.const(k, a.w))
            by[l] = T.bor(by.get(l, T.FALSE), e)
            rest = T.band(rest, T.bnot(e))
        by[d] = T.bor(by.get(d, T.FALSE), rest)
        alts = [(c, l) for l, c in by.items() if c is not T.FALSE]
        if len(alts) == 1:
            r = self.goto(st, fr, alts[0][1])
            return [r] if r is not None else []
        return self.fork_to(st, fr, alts)

    def i_ret(self, st, fr, x):
        v = None if x[1] is None else self.val(st, fr, x[1], x[2])
        for o in fr.allocas:
            st.mem.pop(o, None)
        st.fr.pop()
        if not st.fr:
            st.fr.append(fr)
            self.record(st, "ret", None, st.pc, v)
            return []
        up = st.fr[-1]
        ci = up.ins[up.i]
        if ci[1] is not None:
            up.loc[ci[1]] = v
        if ci[0] == "invoke":
            r = self.goto(st, up, ci[8])
            return [r] if r is not None else []
        up.i += 1
        return CONT

    def i_unreachable(self, st, fr, x):
        self.record(st, "ub", "unreachable executed", st.pc)
        return []

    def i_select(self, st, fr, x):
        _, res, ct, c, t, a, b = x
        cv = self.val(st, fr, ct, c)
        av, bv = self.val(st, fr, t, a), self.val(st, fr, t, b)
        if ct[0] == "vec":
            fr.loc[res] = tuple(T.ite(p, q, r) for p, q, r in zip(cv, av, bv))
            return
        fr.loc[res] = self.select(cv, av, bv)

    def select(self, c, a, b):
        if c.op == "c":
            return a if c.v else b
        if same(a, b):
            return a
        if type(a) is tuple:
            return tuple(self.select(c, x, y) for x, y in zip(a, b))
        if type(a) is Ptr:
            if a.obj == b.obj:
                return Ptr(a.obj, T.ite(c, a.off, b.off))
            raise Alt([(c, "val", a), (T.bnot(c), "val", b)])
        return T.ite(c, a, b)

    def i_extractvalue(self, st, fr, x):
        _, res, t, v, ix = x
        a = self.val(st, fr, t, v)
        for i in ix:
            a = a[i]
        fr.loc[res] = a

    def i_insertvalue(self, st, fr, x):
        _, res, t, v, t2, e, ix = x
        a = self.val(st, fr, t, v)
        ev = self.val(st, fr, t2, e)

        def ins(a, ix):
            if not ix:
                return ev
            l = list(a)
            l[ix[0]] = ins(l[ix[0]], ix[1:])
            return tuple(l)
        fr.loc[res] = ins(a, ix)

    def i_freeze(self, st, fr, x):
        fr.loc[x[1]] = self.val(st, fr, x[2], x[3])

    def i_fneg(self, st, fr, x):
        v = self.val(st, fr, x[2], x[3])
        fr.loc[x[1]] = T.bxor(v, T.const(1 << (v.w - 1), v.w))

    def i_extractelement(self, st, fr, x):
        _, res, t, v, it, i = x
        a = self.val(st, fr, t, v)
        k = self.val(st, fr, it, i)
        if k.op != "c":
            raise Unsupported("extractelement")
        fr.loc[res] = a[k.v]

    def i_insertelement(self, st, fr, x):
        _, res, t, v, et, e, it, i = x
        a = list(self.val(st, fr, t, v))
        k = self.val(st, fr, it, i)
        if k.op != "c":
            raise Unsupported("insertelement")
        a[k.v] = self.val(st, fr, et, e)
        fr.loc[res] = tuple(a)

    def i_shufflevector(self, st, fr, x):
        _, res, t, a, b, mt, mk = x
        av = self.val(st, fr, t, a)
        bv = self.val(st, fr, t, b)
        n = t[1]
        out = []
        if mk[0] == "zero":
            ms = [0] * mt[1]
        elif mk[0] == "undef":
            ms = [None] * mt[1]
        else:
            ms = [None if e[1][0] == "undef" else e[1][1] for e in mk[1]]
        for m in ms:
            out.append(self.undef_val(t[2]) if m is None else (av[m] if m < n else bv[m - n]))
        fr.loc[res] = tuple(out)

    def i_nop(self, st, fr, x):
        return None

    def i_call(self, st, fr, x):
        op, res, t, callee, args, at = x[:6]
        if callee[0] == "g":
            name = callee[1]
        else:
            p = self.val(st, fr, ll.PTR, callee)
            name = self.objfn.get(p.obj) if type(p) is Ptr else None
            if name is None:
                self.ub(st, None, "call through invalid function pointer")
                raise Dead()
        if name.startswith("@llvm."):
            r = self.intrinsic(st, fr, name, t, args, at)
            if res is not None:
                if "range" in at and type(r) is not tuple:
                    lo, hi = at["range"]
                    m = (1 << r.w) - 1
                    lo &= m
                    hi &= m
                    if lo < hi:
                        ok = T.band(T.ule(T.const(lo, r.w), r), T.ult(r, T.const(hi, r.w)))
                    else:
                        ok = T.bor(T.ule(T.const(lo, r.w), r), T.ult(r, T.const(hi, r.w)))
                    if ok is not T.TRUE:
                        r = T.ite(ok, r, self.undef(r.w))
                fr.loc[res] = r
            if op == "invoke":
                q = self.goto(st, fr, x[8])
                return [q] if q is not None else []
            return None
        av = [self.val(st, fr, ty, v) for ty, v in args]
        h = self.find_hook(name)
        if type(h) is Redirect:
            self.called.add("stub:" + self.dname(name))
            name = h.find(self, fr)
        elif h is not None:
            self.called.add("stub:" + self.dname(name))
            r = h(self, st, av, t)
            if r is not FALLTHROUGH:
                if res is not None:
                    fr.loc[res] = r
                if op == "invoke":
                    q = self.goto(st, fr, x[8])
                    return [q] if q is not None else []
                return None
        f = fr.fn.mod.fns.get(name) or self.sym.get(name)
        if f is None:
            d = self.dname(name)
            if d.startswith(UBP):
                self.record(st, "ub", d, st.pc)
                return []
            if d.startswith(PANICS):
                self.record(st, "panic", d, st.pc)
                return []
            raise Unsupported("external function " + d)
        path = (fr.path, fr.fn.name, fr.blk, fr.i, tuple(sorted(fr.iters.items())))
        path = self.ids.setdefault(("path", path), ("p", len(self.ids)))
        self.push(st, f, av, res, path)
        return CONT

    def find_hook(self, name):
        r = self.hook_cache.get(name, 0)
        if r != 0:
            return r
        d = self.dname(name)
        r = None
        for k, h in EXTERN.items():
            if d == k:
                r = h
        for k, h in self.hooks.items():
            if (hasattr(k, "search") and k.search(d)) or k == d:
                r = h
        self.hook_cache[name] = r
        return r

    # ------------------------------------------------------------ llvm intrinsics
    def intrinsic(self, st, fr, name, t, args, at):
        n = name[6:]
        if n.startswith("is.constant."):
            return T.FALSE
        if n.startswith(("lifetime.", "dbg.", "experimental.noalias", "invariant.", "donothing", "prefetch")):
            return None
        av = [self.val(st, fr, ty, v) if ty[0] != "meta" else None for ty, v in args]
        if n.startswith(("memcpy.", "memmove.")):
            self.memcpy(st, av[0], av[1], av[2])
            return None
        if n.startswith("memset."):
            ln = av[2]
            if ln.op != "c":
                raise Unsupported("memset of symbolic length")
            self.store_cells(st, av[0], [(av[1], 0, 1)] * ln.v)
            return None
        if n.startswith("assume"):
            c = av[0]
            if c is T.TRUE:
                return None
            self.ub(st, T.bnot(c), "assume violated")
            return None
        if n.startswith("expect."):
            return av[0]
        if n.startswith("trap"):
            self.record(st, "ub", "trap", st.pc)
            raise Dead()
        if t[0] == "vec" and n.split(".")[0] not in ("vector",):
            sub = []
            for i in range(t[1]):
                sub.append(self.intr_scalar(n, t[2], [a[i] if type(a) is tuple else a for a in av], args))
            return tuple(sub)
        return self.intr_scalar(n, t, av, args)

    def intr_scalar(self, n, t, av, args):
        a = av[0]
        if n.startswith("vector.reduce."):
            op = n.split(".")[2]
            r = a[0]
            for y in a[1:]:
                r = {"add": T.add, "or": T.bor, "and": T.band, "xor": T.bxor, "mul": T.mul}[op](r, y)
            return r
        w = a.w if not isinstance(a, Ptr) else 64
        b = av[1] if len(av) > 1 else None
        h = n.split(".")[0]
        if ".with.overflow." in n:
            if h == "uadd":
                s = T.add(T.zext(a, w + 1), T.zext(b, w + 1))
                return (T.trunc(s, w), T.bit(s, w))
            if h == "usub":
                return (T.sub(a, b), T.ult(a, b))
            if h == "umul":
                p = T.mul(T.zext(a, 2 * w), T.zext(b, 2 * w))
                return (T.trunc(p, w), T.ne(T.extract(2 * w - 1, w, p), T.const(0, w)))
            if h == "sadd":
                r = T.add(a, b)
                return (r, sadd_ovf(a, b, r))
            if h == "ssub":
                r = T.sub(a, b)
                return (r, ssub_ovf(a, b, r))
            if h == "smul":
                p = T.mul(T.sext(a, 2 * w), T.sext(b, 2 * w))
                r = T.trunc(p, w)
                return (r, T.ne(T.extract(2 * w - 1, w - 1, p), T.sext(T.bit(r, w - 1), w + 1)))
        if h == "ctlz" or h == "cttz":
            r = T.ctlz(a) if h == "ctlz" else T.cttz(a)
            if b is T.TRUE:
                z = T.eq(a, T.const(0, w))
                if z is not T.FALSE:
                    r = T.ite(z, self.undef(w), r)
            return r
        if h == "ctpop":
            return T.ctpop(a)
        if h == "bswap":
            return T.bswap(a)
        if h == "bitreverse":
            return T.bitreverse(a)
        if h in ("fshl", "fshr"):
            c = av[2]
            if w & (w - 1):
                raise Unsupported(n)
            k = T.band(c, T.const(w - 1, w))
            x = T.concat(a, b)
            k2 = T.zext(k, 2 * w)
            if h == "fshl":
                return T.extract(2 * w - 1, w, T.shl(x, k2))
            return T.trunc(T.lshr(x, k2), w)
        if h == "umin":
            return T.ite(T.ult(a, b), a, b)
        if h == "umax":
            return T.ite(T.ult(a, b), b, a)
        if h == "smin":
            return T.ite(T.slt(a, b), a, b)
        if h == "smax":
            return T.ite(T.slt(a, b), b, a)
        if h == "abs":
            return T.ite(T.bit(a, w - 1), T.neg(a), a)
        if h == "uadd" and ".sat." in n:
            s = T.add(T.zext(a, w + 1), T.zext(b, w + 1))
            return T.ite(T.bit(s, w), T.const(-1, w), T.trunc(s, w))
        if h == "usub" and ".sat." in n:
            return T.ite(T.ult(a, b), T.const(0, w), T.sub(a, b))
        if h == "ucmp" or h == "scmp":
            f = T.ult if h == "ucmp" else T.slt
            return T.ite(f(a, b), T.const(-1, t[1]), T.zext(T.ne(a, b), t[1]))
        if h in ("fptoui", "fptosi") and ".sat." in n:
            return fp_to_int_sat(a, a.w, t[1], h == "fptosi")
        if h == "fabs":
            return T.band(a, T.const((1 << (w - 1)) - 1, w))
        if h in ("trunc", "floor", "ceil", "rint", "round", "nearbyint", "roundeven", "sqrt", "exp2", "fma", "fmuladd"):
            return T.uf("f%s%d" % (h, w), w, *av)
        if h == "copysign":
            return T.concat(T.bit(b, w - 1), T.trunc(a, w - 1))
        raise Unsupported("intrinsic " + n)


class Dead(Exception):
    pass


class Resplit(Exception):
    def __init__(self, conds, term, cand):
        self.conds, self.term, self.cand = conds, term, cand


CONT = object()
FALLTHROUGH = object()


class Redirect:
    """stand-in written in Rust in the harness: the call goes to the function of that name"""

    def __init__(self, to):
        self.to = to

    def find(self, m, fr):
        for fs in (fr.fn.mod.fns, m.sym):
            for n in fs:
                if n[1:] == self.to or n[1:].strip('"') == self.to:
                    return n
        raise Unsupported("no stand-in " + self.to)


def under(pc, r):
    """r where the conditions of pc hold: drop alternatives that pc excludes"""
    if r.op == "concat":
        ps = T.parts(r)
        qs = [under(pc, x) if x.op == "ite" else x for x in ps]
        return r if all(x is y for x, y in zip(ps, qs)) else T.concat(*qs)
    if r.op != "ite":
        return r
    known = set()
    todo = list(pc)
    while todo:
        c = todo.pop()
        known.add(c.id)
        if c.op == "and" and c.w == 1:
            todo += c.a
    while r.op == "ite":
        c, a, b = r.a
        if c.id in known:
            r = a
        elif T.bnot(c).id in known:
            r = b
        else:
            break
    return r
Z64 = T.const(0, 64)

DISPATCH = {n[2:]: getattr(Machine, n) for n in dir(Machine) if n.startswith("i_")}
DISPATCH["invoke"] = Machine.i_call


def sadd_ovf(a, b, r):
    w = a.w
    x, y, z = T.bit(a, w - 1), T.bit(b, w - 1), T.bit(r, w - 1)
    return T.band(T.bnot(T.bxor(x, y)), T.bxor(x, z))


def ssub_ovf(a, b, r):
    w = a.w
    x, y, z = T.bit(a, w - 1), T.bit(b, w - 1), T.bit(r, w - 1)
    return T.band(T.bxor(x, y), T.bxor(x, z))


# ---------------------------------------------------------------- liveness
def _uses(v, out):
    if v[0] == "l":
        out.add(v[1])
    elif v[0] == "agg":
        for _, e in v[1]:
            _uses(e, out)


def defuse(x):
    us = set()
    op = x[0]
    d = x[1] if op not in ("store", "br", "condbr", "switch", "ret", "unreachable", "nop", "unreachable_eh") else None
    if op == "bin":
        _uses(x[4], us)
        _uses(x[5], us)
    elif op == "cast":
        _uses(x[4], us)
    elif op in ("icmp", "fcmp"):
        _uses(x[4], us)
        _uses(x[5], us)
    elif op == "load":
        _uses(x[3], us)
    elif op == "store":
        _uses(x[2], us)
        _uses(x[3], us)
    elif op == "gep":
        _uses(x[3], us)
        for _, v in x[4]:
            _uses(v, us)
    elif op == "condbr":
        _uses(x[1], us)
    elif op == "switch":
        _uses(x[2], us)
    elif op == "ret":
        if x[2]:
            _uses(x[2], us)
    elif op in ("call", "invoke"):
        _uses(x[3], us)
        for _, v in x[4]:
            _uses(v, us)
    elif op == "select":
        for i in (3, 5, 6):
            _uses(x[i], us)
    elif op == "extractvalue":
        _uses(x[3], us)
    elif op == "insertvalue":
        _uses(x[3], us)
        _uses(x[5], us)
    elif op in ("freeze", "fneg"):
        _uses(x[3], us)
    elif op == "extractelement":
        _uses(x[3], us)
        _uses(x[5], us)
    elif op == "insertelement":
        for i in (3, 5, 7):
            _uses(x[i], us)
    elif op == "shufflevector":
        _uses(x[3], us)
        _uses(x[4], us)
    return d, us


def liveness(f):
    gen, kill = {}, {}
    for b, ins in f.blocks.items():
        g, k = set(), set()
        for x in ins:
            if x[0] == "phi":
                k.add(x[1])
                continue
            d, us = defuse(x)
            g |= us - k
            if d:
                k.add(d)
        gen[b], kill[b] = g, k
    live = {b: set() for b in f.blocks}
    ch = True
    order = sorted([b for b in f.blocks], key=lambda b: -f.rpo.get(b, 0))
    while ch:
        ch = False
        for b in order:
            out = set()
            for s in ll.succs(f.blocks[b]):
                out |= live[s]
                for p in f.blocks[s]:
                    if p[0] != "phi":
                        break
                    for v, src in p[3]:
                        if src == b and v[0] == "l":
                            out.add(v[1])
            n = gen[b] | (out - kill[b])
            if n != live[b]:
                live[b] = n
                ch = True
    return live


# ---------------------------------------------------------------- floating point on bit patterns
FMT = {16: (5, 10), 32: (8, 23), 64: (11, 52)}


def f_parts(x):
    e, m = FMT[x.w]
    return T.bit(x, x.w - 1), T.extract(x.w - 2, m, x), T.trunc(x, m)


def f_isnan(x):
    s, e, m = f_parts(x)
    return T.band(T.eq(e, T.const(-1, e.w)), T.ne(m, T.const(0, m.w)))


def fp_ext(x):
    """binary32 -> binary64 (exact)"""
    sg, e, m = f_parts(x)
    s, e, m29 = T.zext(sg, 1), T.zext(e, 11), T.concat(m, T.const(0, 29))
    lz = T.trunc(T.ctlz(m), 11)                                 # subnormal: leading one at 22-lz
    norm = T.concat(s, T.add(e, T.const(896, 11)), m29)
    sub = T.concat(s, T.sub(T.const(896, 11), lz), T.concat(T.shl(m, T.add(T.ctlz(m), T.const(1, 23))), T.const(0, 29)))
    inf = T.concat(s, T.const(-1, 11), T.ite(T.eq(m, T.const(0, 23)), m29, T.bor(m29, T.const(1 << 51, 52))))
    r = T.ite(T.eq(e, T.const(0, 11)), T.ite(T.eq(m, T.const(0, 23)), T.concat(s, T.const(0, 63)), sub), norm)
    return T.ite(T.eq(e, T.const(255, 11)), inf, r)


def fcmp(pred, a, b):
    if pred == "true":
        return T.TRUE
    if pred == "false":
        return T.FALSE
    un = T.bor(f_isnan(a), f_isnan(b))
    if pred == "uno":
        return un
    if pred == "ord":
        return T.bnot(un)
    w = a.w
    za = T.eq(T.trunc(a, w - 1), T.const(0, w - 1))
    zb = T.eq(T.trunc(b, w - 1), T.const(0, w - 1))
    bz = T.band(za, zb)
    eq = T.bor(bz, T.eq(a, b))
    sa, sb = T.bit(a, w - 1), T.bit(b, w - 1)
    # a < b on ordered values
    lt_pos = T.ult(T.trunc(a, w - 1), T.trunc(b, w - 1))
    lt_neg = T.ult(T.trunc(b, w - 1), T.trunc(a, w - 1))
    lt = T.band(T.bnot(bz), T.ite(sa, T.ite(sb, lt_neg, T.TRUE), T.ite(sb, T.FALSE, lt_pos)))
    k = pred[1:]
    if k == "eq":
        r = eq
    elif k == "ne":
        r = T.bnot(eq)
    elif k == "lt":
        r = lt
    elif k == "le":
        r = T.bor(lt, eq)
    elif k == "gt":
        r = T.band(T.bnot(lt), T.bnot(eq))
    else:
        r = T.bnot(lt)
    return T.band(r, T.bnot(un)) if pred[0] == "o" else T.bor(r, un)


def fp_to_int_sat(x, fw, w, signed):
    """saturating conversion, NaN -> 0"""
    s, e, m = f_parts(x)
    eb, mb = FMT[fw]
    bias = (1 << (eb - 1)) - 1
    sig = T.concat(T.const(1, 1), m)                    # mb+1 bits
    W = max(w, mb + 1) + 1
    big = T.zext(sig, W)
    # value = sig * 2^(e-bias-mb)
    E = T.zext(e, max(W, 16))
    emb = T.const(bias + mb, E.w)
    left = T.sub(E, emb)
    right = T.sub(emb, E)
    shl = T.shl(big, T.trunc(left, W))
    shr = T.lshr(big, T.trunc(right, W))
    ge = T.ule(emb, E)
    small = T.ult(E, T.const(bias, E.w))
    mag = T.ite(ge, shl, shr)
    nbits = w - 1 if signed else w
    # |x| >= 2^nbits  <=> e >= bias + nbits
    over = T.ule(T.const(bias + nbits, E.w), E)
    mag = T.trunc(T.ite(small, T.const(0, W), mag), w)
    nan = f_isnan(x)
    if signed:
        r = T.ite(over, T.ite(s, T.const(1 << (w - 1), w), T.const((1 << (w - 1)) - 1, w)), T.ite(s, T.neg(mag), mag))
    else:
        r = T.ite(s, T.const(0, w), T.ite(over, T.const(-1, w), mag))
    return T.ite(nan, T.const(0, w), r)


def fp_to_int(x, fw, w, signed):
    s, e, m = f_parts(x)
    eb, mb = FMT[fw]
    bias = (1 << (eb - 1)) - 1
    nbits = w - 1 if signed else w
    E = T.zext(e, 32)
    over = T.ule(T.const(bias + nbits, 32), E)
    if signed:
        ok = T.band(s, T.band(T.eq(E, T.const(bias + nbits, 32)), T.eq(m, T.const(0, mb))))
        over = T.band(over, T.bnot(ok))
    else:
        over = T.bor(over, T.band(s, T.ule(T.const(bias, 32), E)))
    return fp_to_int_sat(x, fw, w, signed), over


def int_to_fp(x, fw, signed):
    """correctly rounded (nearest-even) conversion of an integer"""
    eb, mb = FMT[fw]
    bias = (1 << (eb - 1)) - 1
    w = x.w
    sg = T.bit(x, w - 1) if signed else T.FALSE
    mag = T.ite(sg, T.neg(x), x) if signed else x
    return T.concat(sg, uint_to_fp_mag(mag, fw))


def uint_to_fp_mag(mag, fw):
    eb, mb = FMT[fw]
    bias = (1 << (eb - 1)) - 1
    W = max(mag.w, mb + 3)
    m = T.zext(mag, W)
    lz = T.ctlz(m)
    norm = T.shl(m, lz)
    top = T.extract(W - 1, W - 1 - mb, norm)              # mb+1 bits incl. hidden
    guard = T.bit(norm, W - 2 - mb)
    sticky = T.ne(T.extract(W - 3 - mb, 0, norm), T.const(0, W - 2 - mb)) if W - 2 - mb > 0 else T.FALSE
    up = T.band(guard, T.bor(sticky, T.bit(top, 0)))
    ew = eb + 1
    while (1 << ew) <= W + bias + 2:
        ew += 1
    # exponent = bias + W-1-lz ; packed = (exp << mb) + frac, rounding carries into the exponent
    exp = T.sub(T.const(bias + W - 1, ew), T.trunc(lz, ew) if lz.w >= ew else T.zext(lz, ew))
    packed = T.add(T.concat(exp, T.trunc(top, mb)), T.zext(up, ew + mb))
    inf = T.concat(T.const(-1, eb), T.const(0, mb))
    over = T.ule(T.const(((1 << eb) - 1) << mb, ew + mb), packed)
    r = T.ite(over, inf, T.trunc(packed, eb + mb))
    return T.ite(T.eq(mag, T.const(0, mag.w)), T.const(0, eb + mb), r)


import struct as _s
import math as _m


def _u2d(x):
    return _s.unpack("<d", _s.pack("<Q", x))[0]


def _d2u(x):
    return _s.unpack("<Q", _s.pack("<d", x))[0]


def _u2f(x):
    return _s.unpack("<f", _s.pack("<I", x))[0]


def _f2u(x):
    try:
        return _s.unpack("<I", _s.pack("<f", x))[0]
    except OverflowError:
        return 0x7f800000 if x > 0 else 0xff800000


def _div(a, b):
    if b == 0:
        if a != a or a == 0:
            return float("nan")
        neg = (_m.copysign(1, a) < 0) != (_m.copysign(1, b) < 0)
        return float("-inf") if neg else float("inf")
    return a / b


def _mul(a, b):
    return a * b


for _n, _f in (("fadd", lambda a, b: a + b), ("fsub", lambda a, b: a - b), ("fmul", _mul), ("fdiv", _div)):
    T.FOLD[_n + "64"] = lambda x, y, f=_f: _d2u(f(_u2d(x), _u2d(y)))
    # double arithmetic then rounding is exact for binary32 +,-,*,/
    T.FOLD[_n + "32"] = lambda x, y, f=_f: _f2u(f(_u2f(x), _u2f(y)))
T.FOLD["fpext32_64"] = lambda x: _d2u(_u2f(x))
T.FOLD["fptrunc64_32"] = lambda x: _f2u(_u2d(x))


def _int_f(f):
    def g(x):
        v = _u2d(x)
        if v != v or v in (float("inf"), float("-inf")):
            return x
        return _d2u(_m.copysign(float(f(v)), v))
    return g


for _n, _f in (("ftrunc64", _m.trunc), ("ffloor64", _m.floor), ("fceil64", _m.ceil)):
    T.FOLD[_n] = _int_f(_f)
T.FOLD["frint64"] = _int_f(round)


# ---------------------------------------------------------------- external functions
def x_memcpy(m, st, a, t):
    m.memcpy(st, a[0], a[1], a[2])
    return a[0]


def x_bcmp(m, st, a, t):
    n = a[2]
    if n.op != "c":
        raise Unsupported("memcmp of symbolic length")
    r = T.const(0, 32)
    for i in reversed(range(n.v)):
        o = T.const(i, 64)
        x = m.load(st, ll.I8, Ptr(a[0].obj, T.add(a[0].off, o)))
        y = m.load(st, ll.I8, Ptr(a[1].obj, T.add(a[1].off, o)))
        r = T.ite(T.ult(x, y), T.const(-1, 32), T.ite(T.ult(y, x), T.const(1, 32), r))
    return r


EXTERN = {"memcpy": x_memcpy, "memmove": x_memcpy, "bcmp": x_bcmp, "memcmp": x_bcmp}

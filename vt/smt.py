"""Lowering of terms to z3 / CNF and the decision procedures used for obligations."""
import os
import subprocess
import tempfile
import time
import z3
from . import term as T

RNE = z3.RNE()
RTZ = z3.RTZ()
FS = {16: z3.FPSort(5, 11), 32: z3.Float32(), 64: z3.Float64()}


class Lower:
    def __init__(self):
        self.memo = {}
        self.vars = {}

    def bv(self, e, w):
        """z3 expr of width w as BitVec (w==1 are Bools internally)"""
        if w == 1 and z3.is_bool(e):
            return z3.If(e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        return e

    def __call__(self, t):
        memo = self.memo
        r = memo.get(t.id)
        if r is not None:
            return r
        for x in T.topo([t]):
            if x.id not in memo:
                memo[x.id] = self.one(x)
        return memo[t.id]

    def one(self, t):
        op, w = t.op, t.w
        M = self.memo
        if op == "c":
            return z3.BoolVal(bool(t.v)) if w == 1 else z3.BitVecVal(t.v, w)
        if op == "v":
            n = t.v[0]
            e = z3.Bool(n) if w == 1 else z3.BitVec(n, w)
            self.vars[n] = (e, t)
            return e
        a = [M[x.id] for x in t.a]
        if op == "ite":
            return z3.If(a[0], a[1], a[2])
        if op == "eq":
            return a[0] == a[1]
        if op == "ult":
            return z3.ULT(a[0], a[1])
        if op == "slt":
            return a[0] < a[1]
        if op == "concat":
            return z3.Concat(*[self.bv(e, x.w) for e, x in zip(a, t.a)])
        if op == "extract":
            e = z3.Extract(t.v[0], t.v[1], a[0])
            return e == z3.BitVecVal(1, 1) if w == 1 else e
        if w == 1:
            if op == "and":
                return z3.And(a[0], a[1])
            if op == "or":
                return z3.Or(a[0], a[1])
            if op == "xor":
                return z3.Xor(a[0], a[1])
            if op == "not":
                return z3.Not(a[0])
            if op in ("add", "sub"):
                return z3.Xor(a[0], a[1])
            if op == "mul":
                return z3.And(a[0], a[1])
        if op == "add":
            return a[0] + a[1]
        if op == "sub":
            return a[0] - a[1]
        if op == "mul":
            return a[0] * a[1]
        if op == "udiv":
            return z3.UDiv(a[0], a[1])
        if op == "urem":
            return z3.URem(a[0], a[1])
        if op == "and":
            return a[0] & a[1]
        if op == "or":
            return a[0] | a[1]
        if op == "xor":
            return a[0] ^ a[1]
        if op == "not":
            return ~a[0]
        if op == "sext":
            return z3.SignExt(w - t.a[0].w, self.bv(a[0], t.a[0].w))
        if op == "shl":
            return a[0] << a[1]
        if op == "lshr":
            return z3.LShR(a[0], a[1])
        if op == "ashr":
            return a[0] >> a[1]
        if op in ("ctlz", "cttz", "ctpop"):
            return self(expand_count(t))
        if op == "uf":
            return self.fp(t, a)
        raise Exception("lower " + op)

    def fp(self, t, a):
        n = t.v
        args = [self.bv(e, x.w) for e, x in zip(a, t.a)]
        for p, f in (("fadd", z3.fpAdd), ("fsub", z3.fpSub), ("fmul", z3.fpMul), ("fdiv", z3.fpDiv)):
            if n.startswith(p):
                s = FS[t.w]
                return z3.fpToIEEEBV(f(RNE, z3.fpBVToFP(args[0], s), z3.fpBVToFP(args[1], s)))
        if n.startswith("fpext") or n.startswith("fptrunc"):
            return z3.fpToIEEEBV(z3.fpFPToFP(RNE, z3.fpBVToFP(args[0], FS[t.a[0].w]), FS[t.w]))
        if n.startswith("ftrunc"):
            return z3.fpToIEEEBV(z3.fpRoundToIntegral(RTZ, z3.fpBVToFP(args[0], FS[t.w])))
        if n.startswith("frint"):
            return z3.fpToIEEEBV(z3.fpRoundToIntegral(RNE, z3.fpBVToFP(args[0], FS[t.w])))
        if n.startswith("fsqrt"):
            return z3.fpToIEEEBV(z3.fpSqrt(RNE, z3.fpBVToFP(args[0], FS[t.w])))
        raise Exception("fp op " + n)


def expand_count(t):
    """ctlz/cttz/ctpop by structural expansion"""
    x = t.a[0]
    w = t.w
    if t.op == "ctpop":
        # adder tree
        parts = [T.bit(x, i) for i in range(w)]
        vals = [p for p in parts]
        k = 1
        while len(vals) > 1:
            nv = []
            for i in range(0, len(vals) - 1, 2):
                nv.append(T.add(T.zext(vals[i], k + 1), T.zext(vals[i + 1], k + 1)))
            if len(vals) % 2:
                nv.append(T.zext(vals[-1], k + 1))
            vals = nv
            k += 1
        v = vals[0]
        return T.zext(v, w) if v.w <= w else T.trunc(v, w)
    # count zeros: binary search
    lead = t.op == "ctlz"
    n = 1
    while n < w:
        n *= 2
    pad = n - w
    if pad:
        x = T.concat(x, T.const(-1, pad)) if lead else T.concat(T.const(-1, pad), x)
    bits = []
    z = T.eq(x, T.const(0, n)) if not pad else T.FALSE
    while n > 1:
        h = n // 2
        hi, lo = T.extract(n - 1, h, x), T.trunc(x, h)
        if lead:
            c = T.eq(hi, T.const(0, h))
            x = T.ite(c, lo, hi)
        else:
            c = T.eq(lo, T.const(0, h))
            x = T.ite(c, hi, lo)
        bits.append(c)
        n = h
    r = T.concat(*bits) if bits else T.const(0, 1)
    if pad:
        return T.trunc(T.zext(r, max(w, r.w)), w)
    if w == 1:
        return z
    return T.ite(z, T.const(w, w), T.zext(r, w))


STAT = {"queries": 0, "time": 0.0, "sat": 0, "unsat": 0, "unknown": 0}


class Oracle:
    """path feasibility with model caching; unknown counts as feasible"""

    def __init__(self, assume=(), timeout=3000):
        self.low = Lower()
        self.models = []
        self.timeout = timeout
        self.assume = tuple(assume)
        self.cache = {}
        self.unknown = 0

    def check(self, conds):
        s = z3.SolverFor("QF_BV") if True else z3.Solver()
        s.set("timeout", self.timeout)
        for c in conds:
            s.add(self.low(c))
        for v in T.vars_of(conds):
            if v.lb > 0:
                s.add(z3.UGE(self.low(v), z3.BitVecVal(v.lb, v.w)))
            if v.ub < (1 << v.w) - 1:
                s.add(z3.ULE(self.low(v), z3.BitVecVal(v.ub, v.w)))
        t = time.time()
        r = s.check()
        STAT["queries"] += 1
        STAT["time"] += time.time() - t
        if r == z3.sat:
            STAT["sat"] += 1
            m = s.model()
            env = {}
            for v in T.vars_of(conds):
                x = m.eval(self.low(v), model_completion=True)
                env[v.v[0]] = int(z3.is_true(x)) if z3.is_bool(x) else x.as_long()
            return env
        if r == z3.unsat:
            STAT["unsat"] += 1
            return None
        STAT["unknown"] += 1
        self.unknown += 1
        return "unknown"

    def feasible(self, pc):
        conds = [c for c in self.assume + tuple(pc) if c is not T.TRUE]
        if any(c is T.FALSE for c in conds):
            return False
        key = frozenset(c.id for c in conds)
        r = self.cache.get(key)
        if r is not None:
            return r
        for m in reversed(self.models[-12:]):
            try:
                if all(T.evals(conds, m)):
                    self.cache[key] = True
                    return True
            except KeyError:
                pass
        m = self.check(conds)
        if m == "unknown":
            self.cache[key] = True
            return True
        if m is None:
            self.cache[key] = False
            return False
        self.models.append(m)
        self.cache[key] = True
        return True

    def candidates(self, pc, term, cand):
        """restrict the possible values of term"""
        if len(cand) <= 4:
            return [c for c in cand if self.feasible(tuple(pc) + (T.eq(term, T.const(c, term.w)),))]
        conds = [c for c in self.assume + tuple(pc) if c is not T.TRUE]
        s = z3.SolverFor("QF_BV")
        s.set("timeout", self.timeout)
        allc = conds + [T.eq(term, term)]
        for c in conds:
            s.add(self.low(c))
        for v in T.vars_of(conds + [term]):
            if v.lb > 0:
                s.add(z3.UGE(self.low(v), z3.BitVecVal(v.lb, v.w)))
            if v.ub < (1 << v.w) - 1:
                s.add(z3.ULE(self.low(v), z3.BitVecVal(v.ub, v.w)))
        e = self.low(term)
        out = []
        t = time.time()
        while len(out) < 40:
            r = s.check()
            STAT["queries"] += 1
            if r == z3.unknown:
                STAT["time"] += time.time() - t
                return cand
            if r == z3.unsat:
                STAT["time"] += time.time() - t
                cs = set(cand)
                return sorted(x for x in out if x in cs)
            v = s.model().eval(e, model_completion=True).as_long()
            out.append(v)
            s.add(e != v)
        STAT["time"] += time.time() - t
        return cand


class NoOracle(Oracle):
    """only syntactic infeasibility"""

    def check(self, conds):
        return "unknown"

    def candidates(self, pc, term, cand):
        return cand


class LiaOracle(Oracle):
    """feasibility by the integer relaxation"""

    def check(self, conds):
        from . import lia
        t = time.time()
        try:
            r, e = lia.solve(conds, self.timeout / 1000, rounds=2, probe=False)
        except Exception:
            r, e = "unknown", None
        STAT["queries"] += 1
        STAT["time"] += time.time() - t
        if r == "unsat":
            return None
        return e if r == "sat" else "unknown"

    def candidates(self, pc, term, cand):
        if len(cand) > 64:
            return cand
        return [c for c in cand if self.feasible(tuple(pc) + (T.eq(term, T.const(c, term.w)),))]


# ---------------------------------------------------------------- one-shot queries
def bounds(low, vs):
    out = []
    for v in vs:
        if v.lb > 0:
            out.append(z3.UGE(low(v), z3.BitVecVal(v.lb, v.w)))
        if v.ub < (1 << v.w) - 1:
            out.append(z3.ULE(low(v), z3.BitVecVal(v.ub, v.w)))
    return out


def solve_z3(conds, timeout=60):
    """conds: list of width-1 terms. -> ('sat', env) / ('unsat', None) / ('unknown', why)"""
    low = Lower()
    has_fp = any(t.op == "uf" for t in T.topo(conds))
    s = z3.Solver() if has_fp else z3.SolverFor("QF_BV")
    s.set("timeout", int(timeout * 1000))
    for c in conds:
        s.add(low(c))
    vs = T.vars_of(conds)
    for b in bounds(low, vs):
        s.add(b)
    r = s.check()
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        m = s.model()
        env = {}
        for v in vs:
            x = m.eval(low(v), model_completion=True)
            env[v.v[0]] = int(z3.is_true(x)) if z3.is_bool(x) else x.as_long()
        return "sat", env
    return "unknown", s.reason_unknown()


def to_cnf(conds):
    """own Tseitin bit-blaster: -> (nvars, clauses, bitmap of variables)"""
    from .bitblast import Blaster
    b = Blaster()
    for c in conds:
        b.assert_true(c)
    for v in T.vars_of(conds):
        if v.lb > 0:
            b.assert_true(T.bnot(T.mk("ult", 1, (v, T.const(v.lb, v.w)))))
        if v.ub < (1 << v.w) - 1:
            b.assert_true(T.bnot(T.mk("ult", 1, (T.const(v.ub, v.w), v))))
    return b


def solve_sat(conds, timeout=60, solver="kissat"):
    b = to_cnf(conds)
    if b.unsat:
        return "unsat", None
    d = tempfile.mkdtemp(prefix="vsat")
    p = os.path.join(d, "q.cnf")
    try:
        with open(p, "w") as f:
            f.write("p cnf %d %d\n" % (b.n, len(b.clauses)))
            f.write("\n".join(" ".join(map(str, c)) + " 0" for c in b.clauses))
            f.write("\n")
        cmd = [solver, "-q", "--time=%d" % max(1, int(timeout)), p] if solver == "kissat" else [solver, p]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout + 5)
        except subprocess.TimeoutExpired:
            return "unknown", "timeout"
        if r.returncode == 20:
            return "unsat", None
        if r.returncode == 10:
            val = set()
            for l in r.stdout.decode().splitlines():
                if l.startswith("v "):
                    for x in l.split()[1:]:
                        if int(x) > 0:
                            val.add(int(x))
            env = {}
            for v, bits in b.vbits.items():
                x = 0
                for i, l in enumerate(bits):
                    if l in val:
                        x |= 1 << i
                env[v] = x
            return "sat", env
        return "unknown", "kissat rc %d" % r.returncode
    finally:
        try:
            os.unlink(p)
        except OSError:
            pass
        os.rmdir(d)


class AbsOracle(NoOracle):
    """feasibility with wide products, quotients and remainders as unknowns"""

    def check(self, conds):
        from .core import abstract
        t = time.time()
        r, e = solve_z3(abstract([c for c in conds if c is not T.TRUE]), self.timeout / 1000)
        STAT["queries"] += 1
        STAT["time"] += time.time() - t
        return None if r == "unsat" else "unknown"

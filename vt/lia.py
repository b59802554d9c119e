"""Bit-vector queries lowered to integer linear arithmetic over monomials.

Every term is represented by a polynomial over bounded non-negative integer atoms (input
variables or the pieces they are cut into, wrap quotients, quotient/remainder pairs, if-then-else
results).  Products become monomials, each monomial is one integer unknown constrained by
sound facts about multiplication only (bounds, McCormick, tangents, monotonicity, products of
defining equations).  `unsat` of that relaxation is therefore `unsat` of the query; a model is
only reported after the original bit-vector conditions evaluate to true on it."""
import time
import z3
from . import term as T
from .ll import Unsupported


TT, FF = ("c", True), ("c", False)


def le(p):
    """p <= 0"""
    return ("le", p)


def lt(p):
    return ("le", p_add(p, {(): 1}))


def ge(p):
    return ("le", p_scale(p, -1))


def gt(p):
    return lt(p_scale(p, -1))


def eq(p):
    return ("eq", p)


def AND(*xs):
    return ("and", xs)


def OR(*xs):
    return ("or", xs)


def NOT(x):
    return ("not", x)


def IMP(a, *cs):
    return ("or", (("not", a),) + cs)


def p_const(c):
    return {(): c} if c else {}


def p_add(a, b, k=1):
    if not b:
        return a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_scale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def p_mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            q = tuple(sorted(m + n))
            v = r.get(q, 0) + c * d
            if v:
                r[q] = v
            else:
                r.pop(q, None)
    return r


def p_center(a, w):
    """coefficients reduced mod 2^w into (-2^(w-1), 2^(w-1)]"""
    M = 1 << w
    r = {}
    for m, c in a.items():
        c %= M
        if c > M >> 1:
            c -= M
        if c:
            r[m] = c
    return r


class Atom:
    __slots__ = ("i", "name", "lb", "ub", "z", "r", "base", "val")

    def __init__(self, i, name, lb, ub, base):
        self.i, self.name, self.lb, self.ub, self.base = i, name, lb, ub, base
        self.z = z3.Int("i%d" % i)
        self.r = z3.Real("r%d" % i)


class Lia:
    def __init__(self, conds, maxmono=4000, tlimit=1e9):
        self.conds = conds
        self.atoms = []
        self.mono = {}          # monomial (degree>=2) -> z3 Int
        self.cons = []          # z3 constraints
        self.reps = {}
        self.rawm = {}
        self.bools = {}
        self.divs = {}
        self.pairs = []         # (X, Y) polynomials whose product was formed
        self.pairkeys = set()
        self.defs = []          # (cond or None, poly == 0, defined atoms)
        self.varpieces = {}     # var name -> list of (offset, atom)
        self.lossy = 0
        self.maxmono = maxmono
        self.rmono = {}
        self.rmemo = {}
        self.lp = z3.SimpleSolver()
        self.lp.set("timeout", 400)
        self.lpq = 0
        self.tlimit = tlimit
        self.t0 = time.time()
        self.infeasible = False
        self.build()

    # ------------------------------------------------------------ atoms
    def atom(self, name, lb, ub, base=False):
        a = Atom(len(self.atoms), name, lb, ub, base)
        self.atoms.append(a)
        p = {(a.i,): 1}
        self.nonneg(p_add(p, p_const(-lb)))
        self.nonneg(p_add(p_const(ub), p, -1))
        return a

    # facts known unconditionally also go to the rational solver used for tightening
    def nonneg(self, p):
        self.cons.append(ge(p))
        self.lp.add(self.Z(p, "r") >= 0)

    def zero(self, p):
        self.cons.append(eq(p))
        self.lp.add(self.Z(p, "r") == 0)

    def render(self, e, kind, pol=True):
        """formula -> z3 over integers ("i") or rationals ("r"), negations pushed to the comparisons"""
        key = (id(e), kind, pol)
        r = self.rmemo.get(key)
        if r is not None:
            return r[1]
        op = e[0]
        if op == "c":
            r = z3.BoolVal(e[1] == pol)
        elif op == "b":
            r = z3.Bool(e[1])
            r = r if pol else z3.Not(r)
        elif op == "le":
            r = self.Z(e[1], kind) <= 0 if pol else self.Z(e[1], kind) >= 1
        elif op == "eq":
            z = self.Z(e[1], kind)
            r = z == 0 if pol else z3.Or(z <= -1, z >= 1)
        elif op == "not":
            r = self.render(e[1], kind, not pol)
        elif op in ("and", "or"):
            xs = [self.render(x, kind, pol) for x in e[1]]
            r = z3.And(*xs) if (op == "and") == pol else z3.Or(*xs)
        elif op == "xor":
            a, na = self.render(e[1], kind), self.render(e[1], kind, False)
            b, nb = self.render(e[2], kind), self.render(e[2], kind, False)
            r = z3.Or(z3.And(a, nb), z3.And(na, b)) if pol else z3.Or(z3.And(a, b), z3.And(na, nb))
        elif op == "ite":
            c, nc = self.render(e[1], kind), self.render(e[1], kind, False)
            x, y = self.render(e[2], kind, pol), self.render(e[3], kind, pol)
            r = z3.And(z3.Or(nc, x), z3.Or(c, y))
        else:
            raise Exception(op)
        self.rmemo[key] = (e, r)
        return r

    def lpunsat(self, e):
        self.lpq += 1
        if time.time() - self.t0 > self.tlimit:
            raise Unsupported("lia: lowering time")
        self.lp.push()
        self.lp.add(e)
        r = self.lp.check()
        self.lp.pop()
        return r == z3.unsat

    def tighten(self, p, lo, hi, unit):
        """shrink lo <= p // unit <= hi using the rational relaxation"""
        if lo == hi:
            return lo, hi
        e = self.Z(p, "r")
        # common answers first
        if lo < 0 and self.lpunsat(e <= -1):
            lo = 0
        if hi > 0 and self.lpunsat(e >= unit):
            hi = 0
        n = 0
        while lo < hi and hi - lo <= 4 and n < 6:
            n += 1
            if lo < 0 and self.lpunsat(e <= unit * (lo + 1) - 1) or lo >= 0 and self.lpunsat(e <= unit * (lo + 1) - 1):
                lo += 1
                continue
            if self.lpunsat(e >= unit * hi):
                hi -= 1
                continue
            break
        if lo > hi:
            self.infeasible = True
            hi = lo
        return lo, hi

    def P(self, a):
        return {(a.i,): 1}

    def rng(self, p):
        lo = hi = 0
        for m, c in p.items():
            l = h = 1
            for i in m:
                l *= self.atoms[i].lb
                h *= self.atoms[i].ub
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        return lo, hi

    def mz(self, m, kind="i"):
        if len(m) == 1:
            a = self.atoms[m[0]]
            return a.z if kind == "i" else a.r
        z = self.mono.get(m)
        if z is None:
            if len(self.mono) >= self.maxmono:
                raise Unsupported("too many monomials")
            n = "_".join(map(str, m))
            z = self.mono[m] = z3.Int("im" + n)
            self.rmono[m] = z3.Real("rm" + n)
            self.mono_lemmas(m)
        return z if kind == "i" else self.rmono[m]

    def Z(self, p, kind="i"):
        """z3 linear expression"""
        xs = []
        c0 = 0
        V = z3.IntVal if kind == "i" else z3.RealVal
        for m, c in sorted(p.items()):
            if m == ():
                c0 = c
            elif c == 1:
                xs.append(self.mz(m, kind))
            else:
                xs.append(V(c) * self.mz(m, kind))
        if c0 or not xs:
            xs.append(V(c0))
        return xs[0] if len(xs) == 1 else z3.Sum(xs)

    def mono_lemmas(self, m):
        """x * y for x = one atom, y = the rest"""
        done = set()
        me = {m: 1}
        for k in range(len(m)):
            x = m[k]
            if x in done:
                continue
            done.add(x)
            y = m[:k] + m[k + 1:]
            ly = uy = 1
            for i in y:
                ly *= self.atoms[i].lb
                uy *= self.atoms[i].ub
            lx, ux = self.atoms[x].lb, self.atoms[x].ub
            X, Y = {(x,): 1}, {y: 1}

            def prod(a, sa, b, sb):
                # sa*(X - a) * sb*(Y - b) >= 0
                k = sa * sb
                p = p_scale(me, k)
                p = p_add(p, Y, -k * a)
                p = p_add(p, X, -k * b)
                self.nonneg(p_add(p, p_const(k * a * b)))
            prod(lx, 1, ly, 1)
            prod(ux, -1, uy, -1)
            prod(ux, -1, ly, 1)
            prod(lx, 1, uy, -1)
            if lx == 0 and ly == 0:
                self.cons.append(OR(le(X), le(Y), ge(p_add(p_add(p_add(me, X, -1), Y, -1), p_const(1)))))
            if len(m) == 2 and m[0] == m[1]:
                break

    # ------------------------------------------------------------ lowering
    def build(self):
        roots = list(self.conds)
        helpers = {}
        cuts = {}
        seen = set()
        work = list(roots)
        order = []
        # closure over helper terms
        while work:
            new = [t for t in T.topo(work) if t.id not in seen]
            work = []
            for t in new:
                seen.add(t.id)
                order.append(t)
                if t.op == "slt":
                    a, b = t.a
                    h = a.w - 1
                    ma, mb = T.bit(a, h), T.bit(b, h)
                    e = T.bor(T.band(ma, T.bnot(mb)), T.band(T.bnot(T.bxor(ma, mb)), T.ult(a, b)))
                    helpers[t.id] = e
                    work.append(e)
                elif t.op == "sext":
                    e = T.bit(t.a[0], t.a[0].w - 1)
                    helpers[t.id] = e
                    work.append(e)
                elif t.op == "extract":
                    cuts.setdefault(t.a[0].id, set()).update((t.v[1], t.v[0] + 1))
        self.cuts, self.helpers = cuts, helpers
        self.order = order
        todo = list(self.conds)
        todo.reverse()
        while todo:
            c = todo.pop()
            if c.op == "and" and c.w == 1:
                todo += [c.a[1], c.a[0]]
                continue
            self.assert_(c)

    def assert_(self, c):
        neg = False
        d = c
        if d.op == "not":
            neg, d = True, d.a[0]
        if d.op == "ult" and d.a[0].w > 1:
            p = p_add(self.rep(d.a[1]), self.rep(d.a[0]), -1)      # b - a
            self.nonneg(p_scale(p, -1) if neg else p_add(p, p_const(-1)))
            return
        if d.op == "eq" and d.a[0].w > 1:
            p = p_add(self.rep(d.a[0]), self.rep(d.a[1]), -1)
            if not neg:
                self.zero(p)
                return
            lo, hi = self.rng(p)
            if lo >= 0:
                self.nonneg(p_add(p, p_const(-1)))
                return
            if hi <= 0:
                self.nonneg(p_add(p_scale(p, -1), p_const(-1)))
                return
        self.cons.append(self.B(c))

    def pieces(self, t, name, ub, base):
        """cut atoms of t -> [(off, atom, width)]"""
        cs = sorted(set(self.cuts.get(t.id, ())) | {0, t.w})
        out = []
        for lo, hi in zip(cs, cs[1:]):
            u = (1 << (hi - lo)) - 1
            u = min(u, ub >> lo)
            l = t.lb >> lo if hi == t.w or t.ub >> hi == t.lb >> hi == 0 else 0
            out.append((lo, self.atom("%s.%d" % (name, lo), l, u, base), hi - lo))
        return out

    def rep(self, t):
        r = self.reps.get(t.id)
        if r is None:
            # iterative to limit recursion depth
            for x in T.topo([t]):
                if x.id not in self.reps and (x.w > 1 or x.op in ("extract", "v", "c")):
                    self.reps[x.id] = self.rep1(x)
            r = self.reps.get(t.id)
            if r is None:
                r = self.reps[t.id] = self.rep1(t)
        return r

    def wrap(self, t, raw, name):
        """representation of raw mod 2^w, using cuts"""
        w = t.w
        raw = p_center(raw, w)
        lo, hi = self.rng(raw)
        M = 1 << w
        kmin, kmax = self.tighten(raw, lo >> w, hi >> w, M)
        cs = self.cuts.get(t.id)
        if cs and set(cs) - {0, w}:
            if kmin == kmax:
                return self.cutup(t, p_add(raw, p_const(kmin * M), -1), name)
            k = self.intatom("k", kmax - kmin)
            r = p_add(p_add(raw, p_const(kmin * M), -1), self.P(k), -M)
            return self.cutup(t, r, name, [k.i])
        if kmin == kmax:
            r = p_add(raw, p_const(kmin * M), -1)
            if (lo >> w, hi >> w) != (kmin, kmax):
                self.nonneg(r)
                self.nonneg(p_add(p_const(M - 1), r, -1))
            return r
        k = self.intatom("k", kmax - kmin)
        r = p_add(p_add(raw, p_const(kmin * M), -1), self.P(k), -M)
        self.nonneg(p_add(r, p_const(-t.lb)))
        self.nonneg(p_add(p_const(t.ub), r, -1))
        return r

    def intatom(self, name, ub):
        k = self.atom(name, 0, ub)
        p = self.P(k)
        if ub <= 8:
            self.cons.append(OR(*[eq(p_add(p, p_const(-j))) for j in range(ub + 1)]))
        else:
            self.cons.append(OR(le(p), ge(p_add(p, p_const(-1)))))
        return k

    def cutup(self, t, r, name, extra=()):
        """value polynomial r of t, cut at the positions extracts need"""
        w = t.w
        cs = sorted(set(self.cuts.get(t.id, ())) | {0, w})
        # drop cuts above the provable magnitude
        lo, hi = self.rng(r)
        e = self.Z(r, "r")
        top = len(cs) - 1
        while top > 1:
            if hi < 1 << cs[top - 1] or self.lpunsat(e >= (1 << cs[top - 1])):
                top -= 1
            else:
                break
        live = list(zip(cs[:top], cs[1:top] + [cs[top]]))
        out = []
        if len(live) == 1:
            out.append((0, r, live[0][1]))
            self.nonneg(r)
            self.nonneg(p_add(p_const((1 << cs[1]) - 1), r, -1))
        else:
            body = {}
            da = list(extra)
            for l, h in live:
                ub = min((1 << (h - l)) - 1, t.ub >> l)
                a = self.atom("%s.%d" % (name, l), 0, ub)
                if l:
                    self.cons.append(OR(le(self.P(a)), ge(p_add(self.P(a), p_const(-1)))))
                out.append((l, self.P(a), h - l))
                body = p_add(body, self.P(a), 1 << l)
                da.append(a.i)
            eqp = p_add(r, body, -1)
            self.zero(eqp)
            self.defs.append((None, eqp, da))
            r = body
        for l, h in zip(cs[top:], cs[top + 1:]):
            out.append((l, {}, h - l))
        self.pc[t.id] = out
        return r

    pc = None

    def rep1(self, t):
        if self.pc is None:
            self.pc = {}
        op, w = t.op, t.w
        if op == "c":
            return p_const(t.v)
        if op == "v":
            ps = self.pieces(t, t.v[0], t.ub, True)
            self.pc[t.id] = [(o, self.P(a), n) for o, a, n in ps]
            self.varpieces[t.v[0]] = [(o, a) for o, a, _ in ps]
            r = {}
            for off, a, n in ps:
                r = p_add(r, self.P(a), 1 << off)
            if len(ps) > 1 and (t.lb or t.ub != (1 << w) - 1):
                self.nonneg(p_add(r, p_const(-t.lb)))
                self.nonneg(p_add(p_const(t.ub), r, -1))
            return r
        if op == "extract":
            x = t.a[0]
            self.rep(x)
            hi, lo = t.v
            ps = self.pc.get(x.id)
            if ps is None:
                return self.P(self.opaque(t))
            r = {}
            for off, a, n in ps:
                if off >= lo and off + n - 1 <= hi:
                    r = p_add(r, a, 1 << (off - lo))
            return r
        if w == 1:
            if op == "not" and t.a[0].op in ("extract", "v"):
                return p_add(p_const(1), self.rep(t.a[0]), -1)
            b = self.B(t)
            a = self.atom("b", 0, 1)
            p = self.P(a)
            self.cons.append(("ite", b, eq(p_add(p, p_const(-1))), eq(p)))
            return self.P(a)
        if op == "concat":
            r = {}
            off = w
            for p in t.a:
                off -= p.w
                r = p_add(r, self.rep(p), 1 << off)
            return r
        if op == "add":
            return self.wrap(t, p_add(self.rep(t.a[0]), self.rep(t.a[1])), "add")
        if op == "sub":
            return self.wrap(t, p_add(self.rep(t.a[0]), self.rep(t.a[1]), -1), "sub")
        if op == "not":
            return self.wrap(t, p_add(p_const((1 << w) - 1), self.rep(t.a[0]), -1), "not")
        if op == "mul":
            x, y = p_center(self.rep(t.a[0]), w), p_center(self.rep(t.a[1]), w)
            if len(x) * len(y) > 600:
                raise Unsupported("product of large polynomials")
            self.pair(x, y)
            return self.wrap(t, p_mul(x, y), "mul")
        if op in ("udiv", "urem"):
            return self.div(t)
        if op == "ite":
            c = self.B(t.a[0])
            x, y = self.rep(t.a[1]), self.rep(t.a[2])
            e = self.atom("ite", t.lb, t.ub)
            ex, ey = p_add(self.P(e), x, -1), p_add(self.P(e), y, -1)
            self.cons.append(("ite", c, eq(ex), eq(ey)))
            self.defs.append((c, ex, [e.i]))
            self.defs.append((NOT(c), ey, [e.i]))
            return self.P(e)
        if op == "sext":
            x = t.a[0]
            m = self.rep(self.helpers[t.id])
            return p_add(self.rep(x), m, (1 << w) - (1 << x.w))
        if op in ("or", "xor", "and"):
            a, b = t.a
            if op != "and" and (a.kz | b.kz) == (1 << w) - 1:
                return p_add(self.rep(a), self.rep(b))
            e = self.opaque(t)
            A, Bb = self.rep(a), self.rep(b)
            if op == "and":
                self.nonneg(p_add(A, self.P(e), -1))
                self.nonneg(p_add(Bb, self.P(e), -1))
            else:
                self.nonneg(p_add(p_add(A, Bb), self.P(e), -1))
                if op == "or":
                    self.nonneg(p_add(self.P(e), A, -1))
                    self.nonneg(p_add(self.P(e), Bb, -1))
            return self.P(e)
        e = self.opaque(t)
        return self.P(e)

    def opaque(self, t):
        self.lossy += 1
        if self.cuts.get(t.id) and t.op != "extract":
            raise Unsupported("lia: cut of " + t.op)
        return self.atom("o_" + t.op, t.lb, t.ub)

    def div(self, t):
        a, b = t.a
        key = (a.id, b.id)
        d = self.divs.get(key)
        if d is None:
            x, y = self.rep(a), self.rep(b)
            q = next((s for s in self.order if s.op == "udiv" and s.a[0] is a and s.a[1] is b), None)
            r = next((s for s in self.order if s.op == "urem" and s.a[0] is a and s.a[1] is b), None)
            qub = a.ub // max(b.lb, 1) if b.lb else (1 << a.w) - 1
            if q is None:
                Q = self.P(self.atom("q", a.lb // max(b.ub, 1), qub))
            else:
                at = self.atom("q", q.lb, min(q.ub, qub))
                Q = self.P(at)
            self.pair(Q, y)
            R = p_add(x, p_mul(Q, y), -1)
            rub = min(a.ub, b.ub - 1) if b.lb else a.ub
            self.nonneg(R)
            self.nonneg(p_add(p_const(rub), R, -1))
            self.zero_div(b, y, Q, R, (1 << a.w) - 1)
            if q is not None and set(self.cuts.get(q.id, ())) - {0, q.w}:
                Q = self.cutup(q, Q, "q")
            if r is not None and set(self.cuts.get(r.id, ())) - {0, r.w}:
                R = self.cutup(r, R, "r")
            d = self.divs[key] = (Q, R)
        return d[0] if t.op == "udiv" else d[1]

    def zero_div(self, b, y, Q, R, ones):
        small = p_add(p_add(y, R, -1), p_const(-1))
        if b.lb > 0 or self.lpunsat(self.Z(y, "r") <= 0):
            self.nonneg(small)
        else:
            self.cons.append(("ite", le(y), eq(p_add(Q, p_const(-ones))), ge(small)))

    def pair(self, x, y):
        def nc(p):
            return any(m for m in p)
        if nc(x) and nc(y):
            k = (tuple(sorted(x.items())), tuple(sorted(y.items())))
            if k not in self.pairkeys and (k[1], k[0]) not in self.pairkeys:
                self.pairkeys.add(k)
                self.pairs.append((x, y))

    def B(self, t):
        r = self.bools.get(t.id)
        if r is not None:
            return r
        for x in T.topo([t]):
            if x.w == 1 and x.id not in self.bools:
                self.bools[x.id] = self.B1(x)
        return self.bools[t.id]

    def B1(self, t):
        op = t.op
        if op == "c":
            return TT if t.v else FF
        if op in ("v", "extract"):
            return gt(self.rep(t))
        a = t.a
        if op == "not":
            return NOT(self.B(a[0]))
        if op == "and":
            return AND(self.B(a[0]), self.B(a[1]))
        if op == "or":
            return OR(self.B(a[0]), self.B(a[1]))
        if op in ("xor", "add", "sub"):
            return ("xor", self.B(a[0]), self.B(a[1]))
        if op == "ite":
            return ("ite", self.B(a[0]), self.B(a[1]), self.B(a[2]))
        if op == "eq":
            if a[0].w == 1:
                return NOT(("xor", self.B(a[0]), self.B(a[1])))
            d = p_add(self.rep(a[0]), self.rep(a[1]), -1)
            lo, hi = self.rng(d)
            if lo > 0 or hi < 0:
                return FF
            if lo == 0:
                return le(d)
            if hi == 0:
                return ge(d)
            return eq(d)
        if op == "ult":
            if a[0].w == 1:
                return AND(NOT(self.B(a[0])), self.B(a[1]))
            d = p_add(self.rep(a[0]), self.rep(a[1]), -1)
            lo, hi = self.rng(d)
            if hi < 0:
                return TT
            if lo >= 0:
                return FF
            return lt(d)
        if op == "slt":
            return self.B(self.helpers[t.id])
        self.lossy += 1
        return ("b", "ob%d" % t.id)

    # ------------------------------------------------------------ lemmas
    def rlt(self):
        """products of defining equations with the partners of the atoms they define"""
        part = {}
        for m in list(self.mono):
            if len(m) == 2:
                part.setdefault(m[0], set()).add(m[1])
                part.setdefault(m[1], set()).add(m[0])
        out = []
        for c, e, da in self.defs:
            ps = set()
            for i in da:
                ps |= part.get(i, set())
            for y in ps:
                pr = p_mul(e, {(y,): 1})
                if any(len(m) > 2 for m in pr) or len(pr) > 80:
                    continue
                out.append(eq(pr) if c is None else IMP(c, eq(pr)))
        return out


class Solver:
    """one z3 solver fed from L.cons"""

    def __init__(self, L, kind):
        self.L, self.kind, self.n = L, kind, 0
        self.s = z3.SimpleSolver()
        self.s.set("random_seed", 1)

    def flush(self):
        while self.n < len(self.L.cons):
            e = self.L.cons[self.n]
            self.n += 1
            self.s.add(self.L.render(e, self.kind))

    def check(self, tl):
        self.flush()
        self.flush()
        self.s.set("timeout", max(1, int(tl * 1000)))
        return self.s.check()

    def model(self):
        md = self.s.model()
        L = self.L

        def iv(z):
            v = md.eval(z, model_completion=True)
            if self.kind == "i":
                return v.as_long()
            n, d = v.numerator_as_long(), v.denominator_as_long()
            return n // d
        if self.kind == "i":
            return [iv(a.z) for a in L.atoms], {m: iv(z) for m, z in L.mono.items()}
        return [iv(a.r) for a in L.atoms], {m: iv(z) for m, z in L.rmono.items()}


def solve(conds, tl, rlt=False, rounds=400, probe=True, log=None):
    t0 = time.time()
    conds = [c for c in conds if c is not T.TRUE]
    L = Lia(conds, tlimit=tl)
    if log:
        log("lowered %.1fs lp %d infeasible %s" % (time.time() - t0, L.lpq, L.infeasible))
    if L.infeasible:
        return "unsat", None
    SR, SI = Solver(L, "r"), Solver(L, "i")
    lem = set()
    rdone = False
    nextint = 0
    intgap = 1
    stuck = 0
    if rlt:
        L.cons += L.rlt()
        rdone = True

    def envof(vals):
        return {n: sum(vals[a.i] << o for o, a in ps) for n, ps in L.varpieces.items()}
    for rnd in range(rounds):
        left = tl - (time.time() - t0)
        if left < 0.2:
            return "unknown", "lia time (round %d)" % rnd
        r = SR.check(left)
        if log:
            log("round %d R %s %.1fs atoms %d mono %d cons %d" % (rnd, r, time.time() - t0, len(L.atoms), len(L.mono), len(L.cons)))
        if r == z3.unsat:
            return "unsat", None
        models = []
        if r == z3.sat:
            models.append(SR.model())
            env = envof(models[0][0])
            if all(T.evals(conds, env)):
                return "sat", env
        if rnd >= nextint:
            nextint = rnd + intgap
            intgap = min(intgap * 2, 8)
            left = tl - (time.time() - t0)
            r = SI.check(min(left, 1 + left / 6))
            if log:
                log("   int %s %.1fs" % (r, time.time() - t0))
            if r == z3.unsat:
                return "unsat", None
            if r == z3.sat:
                mi = SI.model()
                env = envof(mi[0])
                if all(T.evals(conds, env)):
                    return "sat", env
                models.append(mi)
                if probe and L.mono:
                    r2, env2 = pin(L, SI.s, mi[0], conds, min(left / 4, 5))
                    if r2 == "sat":
                        return "sat", env2
        n0 = len(L.cons)
        for vals, mono in models:
            refine(L, vals, mono, lem)
        if len(L.cons) == n0:
            stuck += 1
            if not rdone:
                rdone = True
                L.cons += L.rlt()
                continue
            nextint = rnd
            if stuck > 3:
                return "unknown", "lia: no refinement (%d lossy)" % L.lossy
        if rnd == 10 and not rdone:
            rdone = True
            L.cons += L.rlt()
    return "unknown", "lia: rounds"


def refine(L, vals, mono, lem):
    """facts about products that the model violates"""
    out = L.cons

    def val(p):
        """linearised value; None if a monomial is new"""
        r = 0
        for m, c in p.items():
            if len(m) > 1:
                v = mono.get(m)
                if v is None:
                    return None
            else:
                v = vals[m[0]] if m else 1
            r += c * v
        return r

    def tangents(X, Y, key):
        PXY = p_mul(X, Y)
        for m in PXY:
            if len(m) > 1:
                L.mz(m)
        x0, y0, p0 = val(X), val(Y), val(PXY)
        if p0 is None or x0 is None or y0 is None or p0 == x0 * y0:
            return
        xs, ys = {x0}, {y0}
        if x0 > 2:
            xs.add(1 << (x0.bit_length() - 1))
        if y0 > 2:
            ys.add(1 << (y0.bit_length() - 1))
        for a in xs:
            for b in ys:
                k = (key, a, b)
                if k in lem:
                    continue
                lem.add(k)
                # D = X*Y - (a*Y + b*X - a*b)
                D = p_add(p_add(p_add(PXY, Y, -a), X, -b), p_const(a * b))
                Xa, Yb = p_add(X, p_const(-a)), p_add(Y, p_const(-b))
                out.append(OR(NOT(ge(Xa)), NOT(ge(Yb)), ge(D)))
                out.append(OR(NOT(le(Xa)), NOT(le(Yb)), ge(D)))
                out.append(OR(NOT(le(Xa)), NOT(ge(Yb)), le(D)))
                out.append(OR(NOT(ge(Xa)), NOT(le(Yb)), le(D)))
    for j, (X, Y) in enumerate(L.pairs):
        tangents(X, Y, ("p", j))
    for m in list(mono):
        if len(m) == 2:
            tangents({(m[0],): 1}, {(m[1],): 1}, m)
    prods = []
    for X, Y in L.pairs:
        prods.append((X, Y))
        prods.append((Y, X))
    for i1 in range(len(prods)):
        A, Z1 = prods[i1]
        for i2 in range(i1 + 1, len(prods)):
            Bp, Z2 = prods[i2]
            k = ("mono", i1, i2)
            if k in lem or Z1 != Z2 or L.rng(Z1)[0] < 0:
                continue
            D = p_add(A, Bp, -1)                 # A - B
            PD = p_mul(D, Z1)
            d, p, z = val(D), val(PD), val(Z1)
            if p is None or d is None:
                continue
            if (d <= 0 and p > 0) or (d >= 1 and p < z) or (d >= 0 and p < 0) or (d <= -1 and p > -z):
                lem.add(k)
                out.append(OR(NOT(le(D)), le(PD)))
                out.append(OR(NOT(ge(D)), ge(PD)))
                out.append(OR(le(D), ge(p_add(PD, Z1, -1))))
                out.append(OR(ge(D), le(p_add(PD, Z1))))


def pin(L, s, vals, conds, tl):
    """fix a vertex cover of the product graph to model values: what is left is exactly linear"""
    edges = [m for m in L.mono if len(m) == 2]
    left = list(edges)
    cover = []
    while left:
        cnt = {}
        for m in left:
            for i in set(m):
                cnt[i] = cnt.get(i, 0) + 1
        i = max(cnt, key=lambda i: (L.atoms[i].base, cnt[i], -i))
        cover.append(i)
        left = [m for m in left if i not in m]
    s.push()
    try:
        for i in cover:
            s.add(L.atoms[i].z == vals[i])
        for m in edges:
            i, j = m if m[0] in cover else (m[1], m[0])
            s.add(L.mono[m] == z3.IntVal(vals[i]) * L.atoms[j].z)
        s.set("timeout", int(tl * 1000))
        if s.check() != z3.sat:
            return "unknown", None
        md = s.model()
        env = {n: sum(md.eval(a.z, model_completion=True).as_long() << o for o, a in ps) for n, ps in L.varpieces.items()}
        if all(T.evals(conds, env)):
            return "sat", env
        return "unknown", None
    finally:
        s.pop()

"""Cut points.

A hint names a specification-level quantity (a slice of an input, a quotient digit, a remainder).
Sub-terms of the encoding that agree with it on samples are proved equal to it by the solver and
replaced by a fresh variable; the remaining query then only knows the facts stated about that
variable.  Every replacement is justified by an `unsat` answer under the precondition, so the
hints are only guidance: wrong ones are never used."""
import time
from . import term as T
from .ll import Unsupported

MEMO = {}
FAILS = set()


def leaves(t, pc=(), limit=64):
    """if-then-else leaves of t with their path conditions"""
    out = []
    stack = [(t, tuple(pc))]
    while stack:
        x, p = stack.pop()
        if x.op == "ite" and len(out) + len(stack) < limit:
            stack.append((x.a[1], p + (x.a[0],)))
            stack.append((x.a[2], p + (T.bnot(x.a[0]),)))
        else:
            out.append((x, p))
    return out


class Name:
    """variable `name` := term; facts(var) hold under the precondition (proved)"""

    def __init__(self, name, term, slices=None, facts=None, ub=None, lb=0, maxsize=10**9, inv=None, largest=False):
        self.largest = largest   # one replacement per target, later terms first
        self.maxsize = maxsize
        self.inv = inv           # input variable that is a slice of this quantity: (var, high, low)
        self.var = T.var(name, term.w, ub, lb)
        self.t = term
        w = term.w
        self.targets = [T.extract(h, l, self.var) for h, l in (slices or [(w - 1, 0)])]
        self.facts_fn = facts
        self.lbub = (lb, ub)

    def defs(self):
        return [(self.var, self.t)]

    def obligations(self):
        out = []
        if self.facts_fn:
            out += list(self.facts_fn(self.t))
        lb, ub = self.lbub
        if lb:
            out.append(T.bnot(T.ult(self.t, T.const(lb, self.t.w))))
        if ub is not None:
            out.append(T.ule(self.t, T.const(ub, self.t.w)))
        return out

    def facts(self):
        return list(self.facts_fn(self.var)) if self.facts_fn else []

    def bad(self, c, leaf):
        """conditions whose conjunction refutes leaf == c (definition unfolded)"""
        d = T.subst([c], {self.var.id: self.t})[0]
        W = max(d.w, leaf.w)
        return [(T.ne(T.zext(leaf, W), T.zext(d, W)),)]


class Div:
    """variables q, r := X / Y, X % Y, for Y non-zero under the facts; X, Y over variables named so far"""

    def __init__(self, qn, rn, X, Y, qw=None, qslices=None, rw=None, bools=True, maxsize=10**9):
        self.maxsize = maxsize
        w = max(X.w, Y.w)
        self.bools = bools
        self.X, self.Y = T.zext(X, w), T.zext(Y, w)
        self.qw = qw or w
        self.rw = rw or Y.w
        self.q = T.var(qn, self.qw)
        self.r = T.var(rn, self.rw)
        self.targets = [self.q] + [T.extract(h, l, self.q) for h, l in (qslices or [])] + [self.r]

    def defs(self):
        return [(self.q, T.trunc(T.udiv(self.X, self.Y), self.qw)), (self.r, T.trunc(T.urem(self.X, self.Y), self.rw))]

    def obligations(self):
        # the quotient fits its variable (the remainder does by construction), the divisor is not zero
        out = [T.ne(self.Y, T.const(0, self.Y.w))]
        if self.qw < self.X.w:
            W = self.X.w + 1
            n = max(W, self.Y.w + self.qw + 1)
            out.append(T.ult(T.zext(self.X, n), T.shl_c(T.zext(self.Y, n), self.qw)))
        return out

    def facts(self):
        W = max(self.X.w, self.qw + self.Y.w) + 1
        return [T.eq(T.zext(self.X, W), T.add(T.mul(T.zext(self.q, W), T.zext(self.Y, W)), T.zext(self.r, W))),
                T.ult(T.zext(self.r, self.Y.w) if self.r.w < self.Y.w else self.r, self.Y) if self.r.w <= self.Y.w else
                T.ult(self.r, T.zext(self.Y, self.r.w))]

    def bad(self, c, leaf):
        X, Y = self.X, self.Y
        if c is self.q:
            W = max(X.w + 8, leaf.w + Y.w + 1)
            p = T.mul(T.zext(leaf, W), T.zext(Y, W))
            lo = T.ult(T.zext(X, W), p)                               # t*Y > X
            hi = T.bnot(T.ult(T.sub(T.zext(X, W), p), T.zext(Y, W)))  # X - t*Y >= Y when there is no borrow
            return [(lo,), (T.bnot(lo), hi)]
        W = max(c.w, leaf.w)
        return [(T.ne(T.zext(leaf, W), T.zext(c, W)),)]


class Expr:
    """an expression over variables named so far (no new variable)"""

    def __init__(self, term, slices=None, maxsize=10**9):
        self.t, self.maxsize = term, maxsize
        self.targets = [T.extract(h, l, term) for h, l in (slices or [(term.w - 1, 0)])]

    def defs(self):
        return []

    def obligations(self):
        return []

    def facts(self):
        return []

    def bad(self, c, leaf):
        W = max(c.w, leaf.w)
        return [(T.ne(T.zext(leaf, W), T.zext(c, W)),)]


class Again:
    """look for an already named quantity once more"""

    def __init__(self, h, maxsize=10**9, bools=True):
        self.h, self.maxsize, self.bools = h, maxsize, bools


class Retire:
    """variables that are no longer needed: each is proved equal to an expression over the others and
    replaced; facts mentioning them are dropped"""

    def __init__(self, *pairs):
        self.pairs = pairs


def strip(t):
    """drop leading zero padding"""
    while t.op == "concat" and t.a[0].op == "c" and t.a[0].v == 0:
        t = T.concat(*t.a[1:])
    if t.op == "extract" and t.v[1] == 0 and t.a[0].ub >> t.w == 0:
        return strip(t.a[0])
    return t


class Sweep:
    def __init__(self, roots, pre, envs, solve, tl=120, log=None, tries=60, qtl=5):
        self.roots, self.pre, self.solve, self.log, self.tries = roots, pre, solve, log, tries
        self.envs = [dict(e) for e in envs]
        self.groups = []         # (ids of the variables a hint names, facts about them)
        self.defs = []           # (var, term)
        self.pool = []
        self.cuts = 0
        self.end = time.time() + tl
        self.failed = []
        self.nq = 0
        self.qtl = qtl
        self.booldone = set()

    def unfold(self, t):
        """replace named variables by their definitions"""
        for v, d in reversed(self.defs):
            t = T.subst([t], {v.id: d})[0]
        return t

    def known(self, conds):
        """facts about the named variables that conds reach"""
        have = set(x.id for x in T.vars_of(conds))
        out = []
        for ids, facts in reversed(self.groups):
            if ids & have:
                out = facts + out
                have |= set(x.id for x in T.vars_of(facts))
        return out

    def ask(self, conds, tl=None):
        if any(c is T.FALSE for c in conds):
            return "unsat", None
        key = frozenset(c.id for c in conds)
        r = MEMO.get(key)
        if r is not None:
            return r, None
        self.nq += 1
        try:
            r, e = self.solve(conds, tl or self.qtl)
        except Unsupported as ex:
            r, e = "unknown", str(ex)
        if r != "sat":
            MEMO[key] = r
        return r, e

    def query(self, conds, tl=None):
        """-> unsat / sat(env over inputs) / unknown"""
        conds = [c for c in conds if c is not T.TRUE]
        if any(c is T.FALSE for c in conds):
            return "unsat", None
        names = set(v.id for v, _ in self.defs)
        vs = set(x.id for x in T.vars_of(conds))
        if vs <= names:
            # facts about just these variables first, then everything they reach
            near = [f for _, g in self.groups for f in g if set(x.id for x in T.vars_of([f])) <= vs]
            far = self.known(conds)
            for fs in [near] + ([far] if len(far) > len(near) else []):
                key = ("a",) + tuple(sorted(c.id for c in conds + fs))
                r = MEMO.get(key)
                if r is None:
                    self.nq += 1
                    try:
                        r = self.solve(fs + conds, tl or self.qtl)[0]
                    except Unsupported:
                        r = "unknown"
                    MEMO[key] = r
                if r == "unsat":
                    return r, None
            alt = self.inline(far + conds)
            if alt is not None:
                r = self.ask(alt, tl)[0]
                if r == "unsat":
                    return r, None
        divs = set(v.id for v, d in self.defs if hasdiv(d))
        if vs & names and not divs and not vs <= names:
            if self.ask(self.known(conds) + conds, tl)[0] == "unsat":
                return "unsat", None
        if vs & divs and not vs <= names:
            mid = self.levels(conds)[1]
            if self.ask(mid, tl)[0] == "unsat":
                return "unsat", None
        full = [self.pre] + [self.unfold(c) for c in conds]
        if any(c is T.FALSE for c in full):
            return "unsat", None
        return self.ask(full, tl)

    def inline(self, conds):
        """use equalities between a name and an expression over other names as definitions"""
        m = {}
        for c in conds:
            if c.op != "eq":
                continue
            for v, e in (c.a, c.a[::-1]):
                if v.op == "v" and e.op not in ("c", "v") and v.id not in m and len(T.topo([e])) <= 4 and \
                        not any(x.id in m or x is v for x in T.vars_of([e])):
                    m[v.id] = e
                    break
        if not m:
            return None
        out = [c for c in T.subst(conds, m) if c is not T.TRUE]
        return [T.FALSE] if any(c is T.FALSE for c in out) else out

    def bools(self):
        """conditions that are constant on the samples, proved constant"""
        done = self.booldone
        while time.time() < self.end:
            allt = T.topo(self.roots)
            sigs = [T.evals(allt, e) for e in self.envs]
            used = set(x.a[0].id for x in allt if x.op == "ite")
            used |= set(y.id for x in allt if x.op == "mul" for y in map(strip, x.a) if y.op == "ite")
            cand = [x for j, x in enumerate(allt) if x.id in used and x.op not in ("c", "v") and x.id not in done
                    and len(set(s[j] for s in sigs)) == 1]
            if not cand:
                return
            pos = {x.id: j for j, x in enumerate(allt)}
            x = min(cand, key=lambda x: len(T.topo([x])))
            done.add(x.id)
            v = sigs[0][pos[x.id]]
            shape = (x.op, x.w, len(T.topo([x])), v)
            if shape in FAILS:
                continue
            t1 = time.time()
            r, e = self.query([(T.bnot(x) if v else x) if x.w == 1 else T.ne(x, T.const(v, x.w))], 1.5)
            if self.log:
                self.log("condition %s size %d is %s: %s %.1fs" % (x.op, len(T.topo([x])), v, r, time.time() - t1))
            if r == "unsat":
                self.roots = T.subst(self.roots, {x.id: (T.TRUE if v else T.FALSE) if x.w == 1 else T.const(v, x.w)})
                self.cuts += 1
            elif r == "sat":
                self.learn(e)
            else:
                FAILS.add(shape)

    def learn(self, e):
        self.pool.append(dict(e))
        e2 = dict(e)
        for v, t in self.defs:
            e2[v.v[0]] = T.evalc(t, e2)
        self.envs.append(e2)

    def hint(self, h):
        if isinstance(h, Again):
            h.h.maxsize = h.maxsize
            h.h.stop, h.h.tl = 10**9, None
            self.match(h.h)
            if h.bools:
                self.bools()
            return True
        if isinstance(h, Retire):
            for v, x in h.pairs:
                if self.query([T.ne(v, x)])[0] == "unsat":
                    self.roots = T.subst(self.roots, {v.id: x})
            gone = set(v.id for v, _ in h.pairs) - set(x.id for x in T.vars_of(self.roots))
            for k, (ids, fs) in enumerate(self.groups):
                fs[:] = [f for f in fs if not gone & set(x.id for x in T.vars_of([f]))]
            if self.log:
                self.log("retired %d of %d" % (len(gone), len(h.pairs)))
            return True
        for c in h.obligations():
            r, e = self.query([T.bnot(c)])
            if r != "unsat":
                if self.log:
                    self.log("hint rejected (%s): %s" % (r, T.show(c, 5)[:200]))
                self.failed.append("hint rejected")
                return False
        for v, t in h.defs():
            for e in self.envs:
                e[v.v[0]] = T.evalc(t, e)
        self.defs += h.defs()
        self.groups.append((set(v.id for v, _ in h.defs()), h.facts()))
        if isinstance(h, Name):
            self.literal(h)
        self.match(h)
        if getattr(h, "inv", None):
            v, a, b = h.inv
            x = T.extract(a, b, h.var)
            if T.subst([x], {h.var.id: h.t})[0] is v:
                self.roots = T.subst(self.roots, {v.id: x})
        if getattr(h, "bools", False):
            self.bools()
        return True

    def literal(self, h):
        """syntactic occurrences of a slice inside larger concatenations"""
        for c in h.targets:
            d = T.subst([c], {h.var.id: h.t})[0]
            ps = list(d.a) if d.op == "concat" else [d]
            n = len(ps)
            if n < 2:
                continue
            while True:
                m = {}
                for x in T.topo(self.roots):
                    if x.op != "concat" or len(x.a) <= n or x is d:
                        continue
                    a = list(x.a)
                    for k in range(len(a) - n + 1):
                        if all(p is q for p, q in zip(a[k:k + n], ps)):
                            m[x.id] = T.concat(*(a[:k] + [c] + a[k + n:]))
                            break
                if not m:
                    break
                self.roots = T.subst(self.roots, m)

    def match(self, h):
        stop, tl = getattr(h, "stop", 10**9), getattr(h, "tl", None)   # give up after `stop` unknown answers
        for c in h.targets:
            tried = set()
            unk = 0
            while len(tried) < self.tries and time.time() < self.end and unk < stop:
                allt = T.topo(self.roots)
                sigs = [T.evals(allt + [c], e) for e in self.envs]
                want = [s[-1] for s in sigs]
                if len(set(want)) < 2:
                    break
                sc = strip(c)
                m = [x for j, x in enumerate(allt) if x.w > 1 and x.op not in ("c", "v") and x is not c and x.id not in tried
                     and all(s[j] == v for s, v in zip(sigs, want)) and strip(x) is not sc]
                if not m:
                    break
                size = {x.id: len(T.topo([x])) for x in m}
                x = min(m, key=lambda x: (len(T.topo([strip(x)])), -min(x.w, c.w), x.w))
                if getattr(h, "largest", False):
                    x = max(m, key=lambda x: size[x.id])
                if size[x.id] > h.maxsize:
                    break
                shape = (T.show(c, 3), x.op, x.w, size[x.id])
                if shape in FAILS:
                    tried.add(x.id)
                    continue
                tried.add(x.id)
                t1 = time.time()
                r, e = "unsat", None
                q = 0
                for leaf, pc in leaves(x):
                    for bad in h.bad(c, leaf):
                        q += 1
                        r, e = self.query(list(pc) + list(bad), tl)
                        if r != "unsat":
                            break
                    if r != "unsat":
                        break
                if self.log:
                    self.log("%s: %s %s size %d (%d matches, %d samples): %s %d queries %.1fs" % (
                        T.show(c, 2)[:30], x.op, x.w, size[x.id], len(m), len(want), r, q, time.time() - t1))
                if r == "sat":
                    self.learn(e)
                elif r == "unsat":
                    if size[x.id] <= 12 and c.w > 1 and isinstance(h, Div):
                        # an equality between names is worth keeping
                        W = max(c.w, x.w)
                        f = T.eq(T.zext(x, W), T.zext(c, W))
                        if set(v.id for v in T.vars_of([f])) <= set(v.id for v, _ in self.defs):
                            self.groups[-1][1].append(f)
                    rep = T.zext(c, x.w) if c.w <= x.w else T.trunc(c, x.w)
                    m = {x.id: rep}
                    for t in h.targets:
                        if t.op == "extract" and t.a[0] is c and x.w > t.v[0]:
                            y = T.extract(t.v[0], t.v[1], x)
                            if y.op not in ("c", "v"):
                                m.setdefault(y.id, t)
                    self.roots = T.subst(self.roots, m)
                    self.cuts += 1
                    if getattr(h, "largest", False):
                        break
                else:
                    unk += 1
                    if not tl:
                        FAILS.add(shape)
                    self.failed.append("%s ~ %s" % (T.show(c, 2)[:30], x.op))

    def levels(self, conds):
        """what remains to be refuted for one claim, most abstract first"""
        fs = self.known(conds)
        # names of plain expressions are spelled out, quotients and remainders only keep their facts
        mid = [f for _, g in self.groups for f in g] + conds
        for v, d in reversed(self.defs):
            if not hasdiv(d):
                mid = T.subst(mid, {v.id: d})
        return [fs + conds, [self.pre] + [c for c in mid if c is not T.TRUE]]


def hasdiv(t):
    return any(x.op in ("udiv", "urem") for x in T.topo([t]))

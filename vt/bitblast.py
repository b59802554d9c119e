"""Tseitin bit-blasting of terms (no floating point)."""
from . import term as T
from .smt import expand_count


class Blaster:
    def __init__(self):
        self.n = 1
        self.clauses = [(1,)]      # literal 1 is true
        self.memo = {}
        self.gates = {}
        self.vbits = {}
        self.unsat = False

    def new(self):
        self.n += 1
        return self.n

    def AND(self, a, b):
        if a == 1:
            return b
        if b == 1:
            return a
        if a == -1 or b == -1 or a == -b:
            return -1
        if a == b:
            return a
        k = ("a", a, b) if a < b else ("a", b, a)
        r = self.gates.get(k)
        if r is None:
            r = self.new()
            self.clauses += [(-r, a), (-r, b), (r, -a, -b)]
            self.gates[k] = r
        return r

    def OR(self, a, b):
        return -self.AND(-a, -b)

    def XOR(self, a, b):
        if a == 1:
            return -b
        if a == -1:
            return b
        if b == 1:
            return -a
        if b == -1:
            return a
        if a == b:
            return -1
        if a == -b:
            return 1
        s = 1
        if a < 0:
            a, s = -a, -s
        if b < 0:
            b, s = -b, -s
        if a > b:
            a, b = b, a
        k = ("x", a, b)
        r = self.gates.get(k)
        if r is None:
            r = self.new()
            self.clauses += [(-r, a, b), (-r, -a, -b), (r, -a, b), (r, a, -b)]
            self.gates[k] = r
        return r * s

    def MUX(self, c, a, b):
        if c == 1:
            return a
        if c == -1:
            return b
        if a == b:
            return a
        if a == 1:
            return self.OR(c, b)
        if a == -1:
            return self.AND(-c, b)
        if b == 1:
            return self.OR(-c, a)
        if b == -1:
            return self.AND(c, a)
        if a == -b:
            return -self.XOR(c, a)
        if c < 0:
            c, a, b = -c, b, a
        k = ("m", c, a, b)
        r = self.gates.get(k)
        if r is None:
            r = self.new()
            self.clauses += [(-r, -c, a), (r, -c, -a), (-r, c, b), (r, c, -b), (-r, a, b), (r, -a, -b)]
            self.gates[k] = r
        return r

    def MAJ(self, a, b, c):
        for x, y, z in ((a, b, c), (b, c, a), (a, c, b)):
            if x == 1:
                return self.OR(y, z)
            if x == -1:
                return self.AND(y, z)
            if x == y:
                return x
            if x == -y:
                return z
        k = ("j",) + tuple(sorted((a, b, c)))
        r = self.gates.get(k)
        if r is None:
            r = self.new()
            self.clauses += [(-r, a, b), (-r, b, c), (-r, a, c), (r, -a, -b), (r, -b, -c), (r, -a, -c)]
            self.gates[k] = r
        return r

    def adder(self, a, b, c):
        out = []
        for x, y in zip(a, b):
            out.append(self.XOR(self.XOR(x, y), c))
            c = self.MAJ(x, y, c)
        return out, c

    def ultb(self, a, b):
        r = -1
        for x, y in zip(a, b):
            # from LSB: r = (x<y) or (x==y and r)
            r = self.MAJ(-x, y, r)
        return r

    def mulb(self, a, b):
        w = len(a)
        acc = [-1] * w
        if sum(1 for x in a if abs(x) == 1) > sum(1 for x in b if abs(x) == 1):
            a, b = b, a
        for i, y in enumerate(b):
            if y == -1:
                continue
            row = [-1] * i + [self.AND(x, y) for x in a[:w - i]]
            acc, _ = self.adder(acc, row, -1)
        return acc

    def divb(self, a, b):
        w = len(a)
        z = -1
        for y in b:
            z = self.OR(z, y)
        r = [-1] * w
        q = [-1] * w
        for i in reversed(range(w)):
            top = r[-1]
            r = [a[i]] + r[:-1]
            lt = self.ultb(r, b)
            ge = self.OR(top, -lt)
            d, _ = self.adder(r, [-y for y in b], 1)
            r = [self.MUX(ge, x, y) for x, y in zip(d, r)]
            q[i] = ge
        q = [self.OR(-z, x) for x in q]
        r = [self.MUX(z, x, y) for x, y in zip(r, a)]
        return q, r

    def __call__(self, t):
        m = self.memo
        for x in T.topo([t]):
            if x.id not in m:
                m[x.id] = self.one(x)
        return m[t.id]

    def one(self, t):
        """bits LSB first"""
        op, w = t.op, t.w
        if op == "c":
            return [1 if t.v >> i & 1 else -1 for i in range(w)]
        if op == "v":
            b = self.vbits.get(t.v[0])
            if b is None:
                b = self.vbits[t.v[0]] = [self.new() for _ in range(w)]
            return list(b)
        A = [self.memo[x.id] for x in t.a]
        if op == "concat":
            out = []
            for x in reversed(A):
                out += x
            return out
        if op == "extract":
            return A[0][t.v[1]:t.v[0] + 1]
        if op == "sext":
            return A[0] + [A[0][-1]] * (w - len(A[0]))
        if op == "not":
            return [-x for x in A[0]]
        if op in ("and", "or", "xor"):
            f = {"and": self.AND, "or": self.OR, "xor": self.XOR}[op]
            return [f(x, y) for x, y in zip(*A)]
        if op == "ite":
            c = A[0][0]
            return [self.MUX(c, x, y) for x, y in zip(A[1], A[2])]
        if op == "eq":
            r = 1
            for x, y in zip(*A):
                r = self.AND(r, -self.XOR(x, y))
            return [r]
        if op == "ult":
            return [self.ultb(*A)]
        if op == "slt":
            a, b = A
            return [self.ultb(a[:-1] + [-a[-1]], b[:-1] + [-b[-1]])]
        if op == "add":
            return self.adder(A[0], A[1], -1)[0]
        if op == "sub":
            return self.adder(A[0], [-y for y in A[1]], 1)[0]
        if op == "mul":
            return self.mulb(*A)
        if op == "udiv":
            return self.divb(*A)[0]
        if op == "urem":
            return self.divb(*A)[1]
        if op in ("shl", "lshr", "ashr"):
            a, s = A
            fill = a[-1] if op == "ashr" else -1
            k = 0
            cur = a
            while (1 << k) < w and k < len(s):
                d = 1 << k
                if op == "shl":
                    sh = [-1] * d + cur[:-d]
                else:
                    sh = cur[d:] + [fill] * d
                cur = [self.MUX(s[k], x, y) for x, y in zip(sh, cur)]
                k += 1
            # amount >= w
            if (1 << k) == w:
                big = -1
                for x in s[k:]:
                    big = self.OR(big, x)
            else:
                big = -self.ultb(s, [1 if w >> i & 1 else -1 for i in range(len(s))]) if len(s) >= w.bit_length() else -1
            return [self.MUX(big, fill, x) for x in cur]
        if op in ("ctlz", "cttz", "ctpop"):
            return list(self(expand_count(t)))
        raise Exception("blast " + op)

    def assert_true(self, t):
        l = self(t)[0]
        if l == 1:
            return
        if l == -1:
            self.unsat = True
        self.clauses.append((l,))

"""Powers of one symbolic base.

@pow(b, k), @uov(b, k), @iov(b, k) stand for b^k mod 2^256 and for "b^k is not representable" (as U256 / I256).
Products of powers are powers of the summed exponent; whether a product of two exact powers overflows is whether
the power of the summed exponent overflows.  The concrete meaning of every symbol is registered in term.FOLD, so
models are re-checked and replayed against the real definition."""
from . import term as T, exec as X
from .contracts import I256, ptrs, rx

KW = 40
LIM = 1 << 4200      # magnitude beyond every bound, keeps concrete evaluation cheap


def sgn(b):
    return b - (1 << 256) if b >> 255 else b


def exact(b, k):
    """b**k, or something beyond every bound with the right sign"""
    if b in (0, 1):
        return b if k else 1
    if b == -1:
        return -1 if k & 1 else 1
    if k > 256:
        return -LIM if b < 0 and k & 1 else LIM
    return b ** k


def uov(b, k):
    return int(exact(b, k) >> 256 != 0)


def iov(b, k):
    return int(not -(1 << 255) <= exact(sgn(b), k) < 1 << 255)


T.FOLD["@pow"] = lambda b, k: pow(b, k, 1 << 256)
T.FOLD["@uov"] = uov
T.FOLD["@iov"] = iov
T.FOLD["@umulov"] = lambda b, i, j: int(pow(b, i, 1 << 256) * pow(b, j, 1 << 256) >> 256 != 0)
T.FOLD["@imulov"] = lambda b, i, j: int(not -(1 << 255) <= sgn(pow(b, i, 1 << 256)) * sgn(pow(b, j, 1 << 256)) < 1 << 255)


def pw(b, k):
    return T.uf("@pow", 256, b, k)


def ov(p, b, k):
    return T.uf("@%sov" % p, 1, b, k)


def as_pow(t, b, memo, depth=0):
    """-> (exponent, condition under which t is defined) or None"""
    r = memo.get(t.id, 0)
    if r != 0:
        return r
    r = None
    if t is b:
        r = T.const(1, KW), T.TRUE
    elif t.op == "c":
        r = (T.const(0, KW), T.TRUE) if t.v == 1 else None
    elif t.op == "v" and t.v[0].startswith("undef!"):
        r = None, T.FALSE
    elif t.op == "uf" and t.v == "@pow" and t.a[0] is b:
        r = t.a[1], T.TRUE
    elif depth < 400:
        c = None
        if t.op == "ite":
            c, p, q = t.a
        elif t.op == "concat":
            ps = T.parts(t)
            c = next((x.a[0] for x in ps if x.op == "ite"), None)
            if c is not None:
                p, q = [T.concat(*[x.a[s] if x.op == "ite" and x.a[0] is c else x for x in ps]) for s in (1, 2)]
            elif all(x.op == "v" and x.v[0].startswith("undef!") for x in ps):
                r = None, T.FALSE
        if c is not None:
            p, q = as_pow(p, b, memo, depth + 1), as_pow(q, b, memo, depth + 1)
            if p is not None and q is not None:
                k = p[0] if q[0] is None else q[0] if p[0] is None else T.ite(c, p[0], q[0])
                r = k, T.ite(c, p[1], q[1])
    memo[t.id] = r
    return r


def hooks(b, real=None):
    """stand-ins for the product kernels on powers of b"""
    memo = {}

    def mul(na, res):
        def f(m, st, a, t):
            if len(a) != na or not ptrs(*a):
                return X.FALLTHROUGH
            x, y = [as_pow(m.load(st, I256, p), b, memo) for p in a[na - 2:]]
            if x is None or y is None or x[0] is None or y[0] is None or (res and t[0] != "i"):
                return X.FALLTHROUGH
            ok = T.band(x[1], y[1])
            u = (lambda v: v) if ok is T.TRUE else (lambda v: T.ite(ok, v, m.undef(v.w)))
            m.store(st, I256, u(pw(b, T.add(x[0], y[0]))), a[0])
            if res:
                return T.zext(u(T.uf("@%smulov" % res, 1, b, x[0], y[0])), t[1])
        return f
    return {rx("mul2"): mul(2, None), rx("mul3"): mul(3, None), rx("umulc"): mul(3, "u"), rx("imulc"): mul(3, "i")}


def prep(inp, conds, light=None):
    """replace the symbols by unknowns with their laws"""
    apps = [x for x in T.topo(conds) if x.op == "uf" and x.v[0] == "@"]
    extra = []
    for x in apps:
        if x.v.endswith("mulov"):
            b, i, j = x.a
            extra += [ov(x.v[1], b, i), ov(x.v[1], b, j), ov(x.v[1], b, T.add(i, j))]
    apps = T.topo(list(conds) + extra)
    apps = [x for x in apps if x.op == "uf" and x.v[0] == "@"]
    sub = {x.id: T.var("@%d" % x.id, x.w) for x in apps}
    g = lambda x: sub[x.id] if x.id in sub else x
    facts = []
    pos, cnt = {}, {}
    for x in apps:
        pos[x.id] = cnt[x.v] = cnt.get(x.v, 0) + 1
    for x in apps:
        v = sub[x.id]
        if x.v.endswith("mulov"):
            b, i, j = x.a
            p = x.v[1]
            ok = T.bnot(T.bor(g(ov(p, b, i)), g(ov(p, b, j))))
            facts.append(T.bor(T.bnot(ok), T.eq(v, g(ov(p, b, T.add(i, j))))))
        elif x.v.endswith("ov"):
            facts.append(T.bor(T.bnot(v), T.ult(T.const(1, KW), x.a[1])))
    for n, y in enumerate(apps):
        if y.v == "@pow":
            facts.append(T.bor(T.ne(y.a[1], T.const(0, KW)), T.eq(sub[y.id], T.const(1, 256))))
            facts.append(T.bor(T.ne(y.a[1], T.const(1, KW)), T.eq(sub[y.id], y.a[0])))
        for x in apps[:n]:
            if x.v != y.v or x.a[0] is not y.a[0] or x.v.endswith("mulov"):
                continue
            if light is not None and light is not x.a[1] and light is not y.a[1] and pos[y.id] - pos[x.id] > 6:
                continue
            p, q = x.a[1], y.a[1]
            if x.v == "@pow":
                facts.append(T.bor(T.ne(p, q), T.eq(sub[x.id], sub[y.id])))
            else:       # monotone: |b| >= 2, otherwise no power overflows
                facts.append(T.bor(T.bnot(T.band(T.ule(p, q), sub[x.id])), sub[y.id]))
                facts.append(T.bor(T.bnot(T.band(T.ule(q, p), sub[y.id])), sub[x.id]))
    return T.subst(list(conds) + facts, sub)

"""C21 Sum and Product: folds of the crate's own + and *, owned and borrowed items."""
from vt.spec import *
from vt import contracts, term as T
from props.c19 import sem

BOUNDS = "all element values; sequences of length 0..4 (quick) or 0..8 for Sum (thorough), Product 0..4"
ASSUMPTIONS = ["Product uses the contracts of the multiplication kernels (decided by C02)"]


def obligations(tier):
    out = []
    for p, sg, ty, A, R, o in (("u", 0, "U256", "i.w", "@w0", "w0"), ("i", 1, "I256", "i.x", "@x0", "x0")):
        el = lambda i, sg=sg: i.x if sg else i.w
        for m, op, unit in (("sum", "add", 0), ("product", "mul", 1)):
            for n in range(0, 5 if tier == "quick" or m == "product" else 9):
                def spec(i, n=n, op=op, unit=unit, sg=sg, o=o, el=el):
                    acc, bad = C(unit, 256), T.FALSE
                    for k in range(n):
                        acc, pan = sem(op, sg, acc, el(i)[k % 4], i.dbg)
                        bad = T.bor(bad, pan)
                    return {o: acc, "panic": bad}
                arr = "[%s]" % ", ".join("%s[%d]" % (A, k % 4) for k in range(n))
                K = dict(cfgs=ALL, contracts=contracts.MUL if m == "product" else None, feas="none", unroll=20,
                         solvers=("abs:40", "lia:40") if m == "product" else ("sat:60",), tlimit=120)
                out.append(Obl(H("%s_%s_%d_ref" % (p, m, n), "let v: [%s; %d] = %s; %s = v.iter().%s();" % (ty, n, arr, R, m)), spec, **K))
                out.append(Obl(H("%s_%s_%d_val" % (p, m, n), "let v: [%s; %d] = %s; %s = v.iter().copied().%s();" % (ty, n, arr, R, m)), spec, **K))
    return out

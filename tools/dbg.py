#!/usr/bin/env python3-vt
"""developer aid: run one obligation's encoding and expose its claims: dbg.load(pid, regex, cfg)"""
import importlib, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import core, build, ll, smt, term as T, exec as X


def load(pid, rx, cfg, tier="quick", limit=None):
    mod = importlib.import_module("props." + pid.lower())
    obls = [o for o in mod.obligations(tier) if re.search(rx, o.name)]
    hs = sorted(set(o.h.name for o in obls))
    b = build.Build(pid.lower() + "-dbg", core.gen_rs(hs), getattr(mod, "EXTRA", ""))
    mods = [ll.Module(open(f).read(), os.path.basename(f)) for f in b.ir(cfg)]
    o = obls[0]
    return o, mods


def claims(o, mods, cfg, hooks=None):
    inp = core.Inp(o, cfg)
    pre = o.pre(inp) if o.pre else T.TRUE
    spec = o.spec(inp)
    panic = spec.get("panic", T.FALSE)
    slots = core.field_slots(spec)
    rel = spec.get("_rel")
    oracle = core.make_oracle(o, pre)
    m = X.Machine(mods, hooks=hooks or (o.hooks(inp) if callable(o.hooks) else o.hooks), mode=o.mode, oracle=oracle, unroll=o.unroll,
                  refuse64=o.refuse64, check_after=o.check_after)
    io = m.new_obj(("in",), core.SIZE)
    oo = m.new_obj(("out",), core.SIZE)
    mem = {io: X.Obj(inp.cells(), None, True), oo: X.Obj([(T.const(0, 8), 0, 1)] * core.SIZE)}
    outs = m.run("@vh_" + o.h.name, [X.Ptr(io, X.Z64), X.Ptr(oo, X.Z64)], mem)
    res = []
    for oc in outs:
        pc = T.ands(oc.pc)
        if oc.kind == "ret":
            cells = oc.mem[oo].cells
            diff = [panic]
            for n, off, nb, t in slots:
                v = m.cells_to_int(cells[off:off + nb], 8 * nb)
                if v is not t:
                    diff.append(T.ne(v, t))
            if rel:
                diff.append(T.bnot(rel.term(m, cells)))
            res.append(("result", [pre, pc, T.ors(diff)], oc))
        else:
            res.append((oc.kind + " " + str(oc.info), [pre, pc] + ([T.bnot(panic)] if oc.kind == "panic" else []), oc))
    return m, inp, res

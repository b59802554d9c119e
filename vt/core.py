"""Obligations, their discharge, native replay, evidence."""
import ctypes
import hashlib
import io
import json
import os
import pickle
import random
import re
import select
import signal
import sys
import time
import traceback
from . import term as T
from . import exec as X
from . import ll, smt, build
from .ll import Unsupported

VERIF = build.VERIF
NS = 320
LAY_W, LAY_X, LAY_N, LAY_LEN, LAY_S = 0, 128, 256, 384, 392
SIZE = 720


class H:
    """harness entry: a Rust snippet.  $a..$d U256 inputs, $x..$t I256 inputs, $n0..$n7 u128 inputs,
    @w0 @x0 @n0 outputs, $len, $s input string bytes"""
    all = {}

    def __init__(self, name, rust):
        self.name, self.rust = name, rust
        assert name not in H.all or H.all[name].rust == rust, name
        H.all[name] = self


def expand(s):
    def r(m):
        k = m.group(1)
        if k in "abcd":
            return "i.w[%d]" % "abcd".index(k)
        if k in "xyzt":
            return "i.x[%d]" % "xyzt".index(k)
        return m.group(0)
    s = re.sub(r"\$n(\d)", r"i.n[\1]", s)
    s = re.sub(r"\$str", "unsafe { core::str::from_utf8_unchecked(&i.s[..i.len]) }", s)
    s = re.sub(r"\$len", "i.len", s)
    s = re.sub(r"\$s\b", "i.s", s)
    s = re.sub(r"\$([a-dx-zt])\b", r, s)
    s = re.sub(r"@w(\d)", r"o.w[\1]", s)
    s = re.sub(r"@x(\d)", r"o.x[\1]", s)
    s = re.sub(r"@n(\d)", r"o.n[\1]", s)
    s = re.sub(r"@len", "o.len", s)
    s = re.sub(r"@s\b", "o.s", s)
    return s


class Obl:
    def __init__(self, h, spec, name=None, binds=None, pre=None, cfgs=("nd", "nr"), mode="merge", hooks=None,
                 solvers=("sat:20", "z3:30", "sat:200"), tlimit=240, split=None, unroll=400, tier="quick", samples=3, cost=1,
                 refuse64=True, note=None, gen=None, soft=False, fields=None, prep=None, satfirst=0, nenv=64, check_after=2, feas_ms=3000,
                 outlen=None, tactic=None, feas="z3", hints=None, group=None, contracts=None):
        self.contracts = contracts   # stand-ins for kernels (vt/contracts.py); retried without them when that fails
        self.hints = hints
        self.group = group       # obligations of one group run one after the other in one worker
        self.feas = feas
        self.h, self.spec = h, spec
        self.name = name or h.name
        self.binds, self.pre, self.cfgs, self.mode, self.hooks = binds or {}, pre, cfgs, mode, hooks
        self.solvers, self.tlimit, self.split, self.unroll, self.tier = solvers, tlimit, split, unroll, tier
        self.samples, self.cost, self.refuse64, self.note, self.gen = samples, cost, refuse64, note, gen
        self.soft = soft
        self.fields = fields
        self.prep = prep
        self.satfirst, self.nenv = satfirst, nenv
        self.check_after = check_after
        self.feas_ms = feas_ms
        self.tactic = tactic


class Inp:
    """symbolic inputs of one obligation"""

    def __init__(self, obl, cfg):
        b = obl.binds() if callable(obl.binds) else obl.binds
        self.cfg = cfg
        self.dbg = build.CFGS[cfg][1]
        self.llvm = build.CFGS[cfg][0]
        self.w = [b.get("w%d" % k) if b.get("w%d" % k) is not None else T.var("w%d" % k, 256) for k in range(4)]
        self.x = [b.get("x%d" % k) if b.get("x%d" % k) is not None else T.var("x%d" % k, 256) for k in range(4)]
        self.n = [b.get("n%d" % k) if b.get("n%d" % k) is not None else T.var("n%d" % k, 128) for k in range(8)]
        self.n = [T.const(v, 128) if isinstance(v, int) else v for v in self.n]
        self.w = [T.const(v, 256) if isinstance(v, int) else v for v in self.w]
        self.x = [T.const(v, 256) if isinstance(v, int) else v for v in self.x]
        self.len = b.get("len", 0)
        s = b.get("s", [])
        self.s = [T.const(c, 8) if isinstance(c, int) else c for c in s]
        if "len" not in b:
            self.len = len(self.s)
        self.a, self.b, self.c, self.d = self.w
        self.xx, self.y, self.z, self.t = self.x

    def cells(self):
        cells = [(T.const(0, 8), 0, 1)] * SIZE

        def put(off, v, n):
            for i in range(n):
                cells[off + i] = (v, i, n)
        for k in range(4):
            put(LAY_W + 32 * k, self.w[k], 32)
            put(LAY_X + 32 * k, self.x[k], 32)
        for k in range(8):
            put(LAY_N + 16 * k, self.n[k], 16)
        put(LAY_LEN, T.const(self.len, 64), 8)
        for k, c in enumerate(self.s):
            put(LAY_S + k, c, 1)
        return cells

    def flat(self):
        return self.w + self.x + self.n + self.s

    def bytes(self, env):
        vals = T.evals(self.flat(), env)
        b = bytearray(SIZE)
        k = 0
        for j in range(4):
            b[LAY_W + 32 * j:LAY_W + 32 * j + 32] = vals[k].to_bytes(32, "little")
            k += 1
        for j in range(4):
            b[LAY_X + 32 * j:LAY_X + 32 * j + 32] = vals[k].to_bytes(32, "little")
            k += 1
        for j in range(8):
            b[LAY_N + 16 * j:LAY_N + 16 * j + 16] = vals[k].to_bytes(16, "little")
            k += 1
        b[LAY_LEN:LAY_LEN + 8] = self.len.to_bytes(8, "little")
        for j in range(len(self.s)):
            b[LAY_S + j] = vals[k]
            k += 1
        return bytes(b)


def field_slots(spec):
    """-> list of (name, offset, nbytes, term)"""
    out = []
    for k, v in spec.items():
        if k == "panic" or k.startswith("_"):
            continue
        if k == "s":
            for j, c in enumerate(v):
                if c is not None:
                    out.append(("s%d" % j, LAY_S + j, 1, c))
            continue
        if isinstance(v, int):
            v = T.const(v, 256 if k[0] in "wx" else 128 if k[0] == "n" else 64)
        if k == "len":
            out.append((k, LAY_LEN, 8, T.zext(v, 64)))
        elif k[0] == "w":
            out.append((k, LAY_W + 32 * int(k[1:]), 32, v))
        elif k[0] == "x":
            out.append((k, LAY_X + 32 * int(k[1:]), 32, v))
        elif k[0] == "n":
            out.append((k, LAY_N + 16 * int(k[1:]), 16, T.zext(v, 128)))
        else:
            raise Exception("field " + k)
    return out


class Rel:
    """relational part of a specification: fn(outputs by name) -> bool term that must hold on return"""

    def __init__(self, names, fn):
        self.fn = fn
        self.slots = []
        for k in names:
            j = int(k[1:]) if k[1:].isdigit() else 0
            off, nb = {"w": (LAY_W + 32 * j, 32), "x": (LAY_X + 32 * j, 32), "n": (LAY_N + 16 * j, 16),
                       "l": (LAY_LEN, 8), "s": (LAY_S + j, 1)}[k[0]]
            self.slots.append((k, off, nb))

    def term(self, m, cells):
        return self.fn({k: m.cells_to_int(cells[o:o + n], 8 * n) for k, o, n in self.slots})

    def conc(self, out):
        return self.fn({k: T.const(int.from_bytes(out[o:o + n], "little"), 8 * n) for k, o, n in self.slots})


# ---------------------------------------------------------------- native execution
_libs = {}


def native_raw(so, idx, data):
    """run in a forked child; -> (rc, out bytes) ; rc 0 ok, 1 panic, 'crash:<sig>' """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open("/dev/null", os.O_WRONLY)
            os.dup2(dn, 2)
            os.dup2(dn, 1)
            signal.alarm(20)
            lib = ctypes.CDLL(so)
            i = ctypes.create_string_buffer(SIZE + 64)
            o = ctypes.create_string_buffer(SIZE + 64)
            ai = (ctypes.addressof(i) + 63) // 64 * 64
            ao = (ctypes.addressof(o) + 63) // 64 * 64
            ctypes.memmove(ai, data, SIZE)
            f = lib.vh_call
            f.argtypes = [ctypes.c_size_t, ctypes.c_void_p, ctypes.c_void_p]
            f.restype = ctypes.c_int
            rc = f(idx, ai, ao)
            os.write(w, bytes([rc & 255]) + ctypes.string_at(ao, SIZE))
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        buf += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if len(buf) < SIZE + 1:
        return "crash:%d" % (os.WTERMSIG(st) if os.WIFSIGNALED(st) else -1), b""
    return buf[0], buf[1:]


# ---------------------------------------------------------------- one obligation
class Ctx:
    """what a worker needs"""

    def __init__(self, prop, mods, libs, hs, seed):
        self.prop, self.mods, self.libs, self.seed = prop, mods, libs, seed
        self.hidx = {h: k for k, h in enumerate(hs)}


SPECIAL = [0, 1, 2, 3, 5, 7, 9, 10, 16, 63, 64, 65, 127, 128, 129, 191, 192, 255, 256, 257]


def rand_val(R, w):
    k = R.randrange(9)
    m = (1 << w) - 1
    if k == 0:
        return R.getrandbits(w)
    if k == 1:
        return R.getrandbits(R.randint(1, w))
    if k == 2:
        return R.choice([0, 1, m, m - 1, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1])
    if k == 3:
        return (1 << R.randrange(w)) - R.choice([0, 1]) & m
    if k == 4:
        return m ^ R.getrandbits(R.randint(1, w))
    if k == 5:
        return R.choice(SPECIAL) & m
    if k == 6:
        x = 0
        for j in range(0, w, 32):
            x |= R.choice([0, 0xffffffff, R.getrandbits(32), 1, 0x80000000]) << j
        return x & m
    if k == 7:
        x = 0
        for j in range(0, w, 64):
            x |= R.choice([0, (1 << 64) - 1, R.getrandbits(64), 1, 1 << 63, (1 << 63) - 1]) << j
        return x & m
    return (R.getrandbits(w) >> R.randrange(w)) << R.randrange(w) & m


def rand_env(R, vs):
    e = {}
    for v in vs:
        n, lb, ub = v.v[0], v.lb, v.ub
        x = rand_val(R, v.w)
        if not lb <= x <= ub:
            x = R.choice([lb, ub, R.randint(lb, ub), R.randint(lb, ub)])
        e[n] = x
    return e


def concrete_spec(spec_terms, env):
    """evaluate the spec under env: -> (panic, {slot: bytes})"""
    panic, slots = spec_terms[:2]
    vals = T.evals([panic] + [s[3] for s in slots], env)
    return bool(vals[0]), [(s[0], s[1], s[2], v) for s, v in zip(slots, vals[1:])]


def judge(spec_terms, env, rc, out):
    """None if the native result satisfies the spec, else a description"""
    panic, slots = concrete_spec(spec_terms, env)
    if rc == 1:
        return None if panic else "panicked, but the specification defines a result"
    if rc != 0:
        return "process died (%s)" % rc
    if panic:
        return "returned, but the specification requires a panic"
    bad = []
    if len(spec_terms) > 2 and spec_terms[2] is not None:
        rel = spec_terms[2]
        if not T.evalc(rel.conc(out), env):
            bad.append("relation violated: " + ", ".join("%s=%#x" % (k, int.from_bytes(out[o:o + n], "little")) for k, o, n in rel.slots))
    for n, off, nb, v in slots:
        g = int.from_bytes(out[off:off + nb], "little")
        if g != v:
            bad.append("%s: got %#x expected %#x" % (n, g, v))
    return "; ".join(bad[:6]) if bad else None


def make_oracle(obl, pre):
    a = (pre,) if pre is not T.TRUE else ()
    if obl.feas == "none":
        return smt.NoOracle(a)
    if obl.feas == "abs":
        return smt.AbsOracle(a, obl.feas_ms)
    if obl.feas == "lia":
        return smt.LiaOracle(a, obl.feas_ms)
    return smt.Oracle(a, timeout=obl.feas_ms)


def run_obl(ctx, obl, cfg, budget):
    """executes in a worker process; returns a result dict"""
    if not obl.contracts:
        return run_obl1(ctx, obl, cfg, budget, obl.hooks)
    t0 = time.time()
    res = run_obl1(ctx, obl, cfg, budget * .6, obl.contracts)
    if res["status"] in ("proved", "violated", "undecided"):
        return res
    r2 = run_obl1(ctx, obl, cfg, max(5, budget - (time.time() - t0)), obl.hooks)
    for k in ("queries", "solver_s", "steps", "states"):
        r2[k] += res[k]
    if r2["status"] != "error":
        r2["note"] += " (with stand-ins: %s %s)" % (res["status"], res["note"][:300])
    return r2


def run_obl1(ctx, obl, cfg, budget, hooks):
    t0 = time.time()
    res = {"name": obl.name, "cfg": cfg, "status": "undecided", "queries": 0, "solver_s": 0.0, "traces": 0,
           "states": 0, "steps": 0, "fns": [], "note": "", "cex": None, "witness": False, "how": []}
    T._refresh_consts()
    smt.STAT.update(queries=0, time=0.0)
    inp = Inp(obl, cfg)
    pre = obl.pre(inp) if obl.pre else T.TRUE
    spec = obl.spec(inp)
    panic = spec.get("panic", T.FALSE)
    slots = field_slots(spec)
    rel = spec.get("_rel")
    spec_terms = (panic, slots, rel)
    R = random.Random("%s/%s/%d" % (obl.name, cfg, ctx.seed))
    so = ctx.libs.get(cfg)
    hidx = ctx.hidx[obl.h.name]
    ivars = T.vars_of(inp.flat())

    def native(env):
        return native_raw(so, hidx, inp.bytes(env))

    # --- encode
    oracle = make_oracle(obl, pre)
    m = X.Machine(ctx.mods[cfg], hooks=hooks(inp) if callable(hooks) else hooks, mode=obl.mode, oracle=oracle,
                  unroll=obl.unroll, refuse64=obl.refuse64, check_after=obl.check_after)
    m.gdata = {}
    io = m.new_obj(("in",), SIZE)
    oo = m.new_obj(("out",), SIZE)
    mem = {io: X.Obj(inp.cells(), None, True), oo: X.Obj([(T.const(0, 8), 0, 1)] * SIZE)}
    entry = "@vh_" + obl.h.name
    try:
        outs = m.run(entry, [X.Ptr(io, X.Z64), X.Ptr(oo, X.Z64)], mem)
        err = None
    except Unsupported as e:
        err = "unsupported: %s" % e
    except RecursionError as e:
        err = "recursion"
    res["states"] = getattr(m, "nslices", 0) + len(m.outcomes)
    res["steps"] = m.steps
    res["fns"] = sorted(set(m.dname(f) if not f.startswith("stub:") else f for f in m.called))
    res["exec_s"] = time.time() - t0
    if err:
        res["note"] = err
        res["queries"] = smt.STAT["queries"]
        res["solver_s"] = smt.STAT["time"]
        return res

    # --- claims: (description, condition that must be unsatisfiable)
    bads = []
    retpc = []
    outvals = []
    for o in outs:
        pc = T.ands(o.pc)
        if pc is T.FALSE:
            continue
        if o.kind == "ret":
            vals = []
            cells = o.mem[oo].cells
            diff = [panic]
            for n, off, nb, t in slots:
                v = m.cells_to_int(cells[off:off + nb], 8 * nb)
                vals.append(v)
                if v is not t:
                    diff.append(T.ne(v, t))
            if rel is not None:
                diff.append(T.bnot(rel.term(m, cells)))
                vals += [m.cells_to_int(cells[f:f + n], 8 * n) for _, f, n in rel.slots]
            retpc.append(pc)
            outvals.append((o, pc, vals))
            if obl.split == "fields":
                for d in diff:
                    if d is not T.FALSE:
                        bads.append(("result", T.band(pc, d), pc, d))
            else:
                d = T.ors(diff)
                if d is not T.FALSE:
                    bads.append(("result", T.band(pc, d), pc, d))
        elif o.kind == "panic":
            outvals.append((o, pc, None))
            d = T.bnot(panic)
            if d is not T.FALSE:
                bads.append(("panic " + o.info, T.band(pc, d), pc, d))
        else:
            outvals.append((o, pc, None))
            bads.append((o.kind + " " + str(o.info) + " in " + o.where, pc, pc, T.TRUE))
    bads = [b for b in bads if b[1] is not T.FALSE]

    # --- translator validation + vacuity witness
    def predict(env):
        allv = [x[1] for x in outvals]
        vs = T.evals(allv, env)
        hit = [x for x, v in zip(outvals, vs) if v]
        return hit

    def validate(env):
        """compare encoding with the native build on env"""
        hit = predict(env)
        rc, out = native(env)
        if not hit:
            return "no outcome of the encoding is enabled", rc, out
        ks = set(h[0].kind for h in hit)
        if "ub" in ks or "limit" in ks:
            return None, rc, out
        if len(hit) != 1:
            return "several outcomes enabled: %s" % [h[0].kind for h in hit], rc, out
        o, pc, vals = hit[0]
        if o.kind == "panic":
            return (None if rc == 1 else "encoding panics (%s), native rc=%s" % (o.info, rc)), rc, out
        if rc != 0:
            return "encoding returns, native rc=%s" % rc, rc, out
        und = [v for v in T.vars_of(vals) if v.v[0].startswith("undef!")]
        if und:
            return None, rc, out
        for (n, off, nb), v in zip([q[:3] for q in slots] + (rel.slots if rel else []), T.evals(vals, env)):
            g = int.from_bytes(out[off:off + nb], "little")
            if g != v:
                return "field %s: encoding %#x native %#x" % (n, v, g), rc, out
        return None, rc, out

    def fail(env, how, what):
        rc, out = native(env)
        why = judge(spec_terms, env, rc, out)
        if why is None:
            return False
        vals = T.evals(inp.flat(), env)
        res["cex"] = {"how": how, "claim": what, "native": why, "rc": rc,
                      "input": inp.bytes(env).hex(), "out": out.hex(), "harness": obl.h.name, "rust": obl.h.rust,
                      "vars": {k: hex(v) for k, v in env.items() if not k.startswith("undef!")}}
        res["status"] = "violated"
        return True

    pre_pc = T.ands([pre])
    tried = 0
    seeds = []
    gen_env = obl.gen
    if gen_env:
        rng = {v.v[0]: (v.lb, v.ub) for v in ivars}
        gen_env = lambda R: {k: v for k, v in obl.gen(R).items() if k in rng and rng[k][0] <= v <= rng[k][1]}
    for k in range(60):
        if res["traces"] >= obl.samples:
            break
        env = rand_env(R, ivars)
        if gen_env:
            env.update(gen_env(R))
        if not T.evalc(pre_pc, env):
            continue
        seeds.append(env)
        bad, rc, out = validate(env)
        if bad:
            # the encoding and the real code disagree: never trust this obligation
            if judge(spec_terms, env, rc, out) is not None:
                if fail(env, "validation", "encoding/native mismatch: " + bad):
                    return res
            res["status"] = "error"
            res["note"] = "translator validation failed: %s on %s" % (bad, {k: hex(v) for k, v in env.items()})
            return res
        res["traces"] += 1
        if rc == 0:
            res["witness"] = True
    if so is not None and not res["witness"] and retpc:
        for k in range(200):
            env = rand_env(R, ivars)
            for v in ivars:
                if R.random() < .8 and v.lb == 0:
                    env[v.v[0]] = R.getrandbits(R.choice((4, 16, max(1, v.w // 2), max(1, v.w // 3)))) % (v.ub + 1)
            if gen_env and k % 2:
                env.update(gen_env(R))
            if T.evalc(pre_pc, env) and any(T.evals(retpc, env)):
                break
        else:
            env = None
        if env:
            bad, rc, out = validate(env)
            res["witness"] = not bad and rc == 0
    if so is not None and not res["witness"] and retpc:
        r, env = solve_any([pre_pc, T.ors(retpc)], ("z3:20",), res)
        if r == "sat":
            bad, rc, out = validate(env)
            if bad and judge(spec_terms, env, rc, out) is None:
                res["status"] = "error"
                res["note"] = "translator validation failed on witness: " + bad
                return res
            res["witness"] = rc == 0
            res["traces"] += 1
    if not retpc and not outvals:
        res["note"] = "vacuous: no outcome"
        return res
    if not res["witness"] and panic is not T.TRUE and not obl.soft:
        res["note"] += " no returning witness"

    # --- cheap candidate models (each one is confirmed by the solver below and replayed)
    nrand = 60
    vs_b = [b[1] for b in bads]
    if bads:
        for k in range(nrand):
            env = seeds[k] if k < len(seeds) else rand_env(R, ivars)
            if gen_env and k >= len(seeds):
                env.update(gen_env(R))
            vals = T.evals([pre_pc] + vs_b, env)
            if vals[0] and any(vals[1:]):
                j = [q for q, v in enumerate(vals[1:]) if v][0]
                pin = [T.eq(v, T.const(env[v.v[0]], v.w)) for v in T.vars_of([pre_pc, vs_b[j]]) if v.v[0] in env]
                cs = [pre_pc, vs_b[j]] + pin
                if any(x.op == "uf" and x.v[0] == "@" for x in T.topo(cs)):      # defined by evaluation only
                    cs = T.subst(cs, {v.id: T.const(env[v.v[0]], v.w) for v in T.vars_of(cs) if v.v[0] in env})
                r, env2 = ("sat", {}) if all(c is T.TRUE for c in cs) else solve_any(cs, ("z3:20",), res)
                if r == "sat" and fail(dict(env, **env2), "model", bads[j][0]):
                    return res
    # --- decide
    undecided = []
    nonrep = []
    todo = sorted(range(len(bads)), key=lambda j: len(T.topo([bads[j][1]])))
    if obl.hints and bads:
        todo, hit = cut_points(obl, inp, pre_pc, bads, todo, seeds, R, ivars, gen_env, res, t0 + budget)
        for env in hit:
            vals = T.evals([pre_pc] + vs_b, env)
            bad = [j for j, v in enumerate(vals[1:]) if v]
            if vals[0] and bad and fail(env, "model", bads[bad[0]][0]):
                return res
    for j in todo:
        what, cond, pc, d = bads[j]
        for prep in obl.prep or [lambda inp, cs: cs]:
            conds = prep(inp, [pre_pc, pc, d])
            r, env = solve_any(conds, obl.solvers, res, t0 + budget)
            if r == "unsat":
                break
        if r == "unsat":
            continue
        if r == "sat":
            full = {v.v[0]: v.lb for v in ivars}
            full.update(env)
            if fail(full, "model", what):
                return res
            nonrep.append(what)
            res["note"] += " non-reproducing model for %s: %s;" % (what, {k: hex(v) for k, v in full.items()
                                                                       if k in [q.v[0] for q in T.vars_of(conds)]})
            continue
        undecided.append((what, env))
    if nonrep:
        res["status"] = "nonrep"
    elif undecided:
        res["status"] = "undecided"
        res["note"] += " undecided: %s" % undecided[:3]
    else:
        res["status"] = "proved"
    res["claims"] = len(bads)
    res["queries"] += smt.STAT["queries"]
    res["solver_s"] += smt.STAT["time"]
    return res


def cut_points(obl, inp, pre, bads, todo, seeds, R, ivars, gen_env, res, deadline):
    """decide claims through named intermediate quantities -> (claims left, candidate models)"""
    from . import lia, sweep
    log = print if os.environ.get("VT_LOG") else None

    def solve(conds, tl):
        t = time.time()
        try:
            if not any(x.op in ("mul", "udiv", "urem", "uf") for x in T.topo(conds)):
                r = smt.solve_sat(conds, max(0.5, min(tl, deadline - time.time())))
                if r[0] != "unknown":
                    return r
            elif obl.satfirst and not any(x.op in ("udiv", "urem", "uf") or x.op == "mul" and all(y.op != "c" for y in x.a) for x in T.topo(conds)):
                r = smt.solve_sat(conds, max(0.5, min(obl.satfirst, deadline - time.time())))
                if r[0] != "unknown":
                    return r
            return lia.solve(conds, max(0.5, min(tl, deadline - time.time())), rlt=True)
        finally:
            res["queries"] += 1
            res["solver_s"] += time.time() - t

    envs = list(seeds)
    for k in range(600):
        if len(envs) >= obl.nenv:
            break
        env = rand_env(R, ivars)
        if gen_env:
            env.update(gen_env(R))
        if T.evalc(pre, env):
            envs.append(env)
    flat = [c for j in todo for c in bads[j][2:4]]
    sw = sweep.Sweep(flat, pre, envs[:obl.nenv], solve, tl=max(5, (deadline - time.time()) * .7), log=log)
    for h in obl.hints(inp):
        if time.time() > sw.end:
            break
        sw.hint(h)
    left, hits = [], list(sw.pool)
    for k, j in enumerate(todo):
        pc, d = sw.roots[2 * k:2 * k + 2]
        ok = False
        if pc is T.FALSE or d is T.FALSE:
            ok = True
        for cs in ([] if ok else sw.levels([d]) + ([] if pc is T.TRUE else sw.levels([pc, d]))):
            r, e = sw.ask([c for c in cs if c is not T.TRUE], 5) if not any(c is T.FALSE for c in cs) else ("unsat", None)
            if r == "unsat":
                ok = True
                break
            if r == "sat":
                env = {v.v[0]: v.lb for v in ivars}
                env.update({n: v for n, v in e.items() if n in env})
                hits.append(env)
        if not ok:
            left.append(j)
            if log:
                log("left: %s" % bads[j][0])
    res["how"].append("cuts %d queries %d left %d" % (sw.cuts, sw.nq, len(left)))
    res["cuts"] = sw.cuts
    return left, hits


def abstract(conds, allmul=False):
    """wide products, quotients and remainders become unknowns with their basic bounds"""
    sub, facts, seen = {}, [], []
    depth, rank = {}, {}
    for x in T.topo(conds):
        if allmul:
            depth[x.id] = max([depth[y.id] for y in x.a], default=0)
        if x.op in ("udiv", "urem") or (x.op == "mul" and x.w > 64 and (allmul or all(y.op != "c" for y in x.a))):
            v = T.var("abs!%d" % x.id, x.w, x.ub, x.lb)
            if allmul and any(y.op == "c" for y in x.a):      # multiples: paired by constant and nesting
                sub[x.id] = v
                depth[x.id] += 1
                c, = [y.v for y in x.a if y.op == "c"][:1]
                p, = [y for y in x.a if y.op != "c"][:1]
                for q, u in rank.setdefault((c, depth[x.id]), [])[-4:]:
                    if v.w == u.w:
                        facts.append(T.bor(T.ne(p, q), T.eq(v, u)))
                    elif p.ub * c >> v.w == 0 and q.ub * c >> u.w == 0:
                        w = max(v.w, u.w)
                        facts.append(T.bor(T.ne(T.zext(p, w), T.zext(q, w)), T.eq(T.zext(v, w), T.zext(u, w))))
                rank[c, depth[x.id]].append((p, v))
                continue
            if x.op != "mul":
                n, d = x.a
                nz = T.ne(d, T.const(0, d.w))
                small = T.ult(n, d)
                facts.append(T.ule(v, n) if x.op == "urem" else T.bor(T.bnot(nz), T.ule(v, n)))
                facts.append(T.bor(T.bnot(small), T.eq(v, n if x.op == "urem" else T.const(0, x.w))))
                one = T.eq(d, T.const(1, d.w))
                if x.op == "urem":
                    facts.append(T.bor(T.bnot(nz), T.ult(v, d)))
                    facts.append(T.bor(T.bnot(one), T.eq(v, T.const(0, d.w))))
                else:
                    facts.append(T.bor(T.bnot(one), T.eq(v, n)))
                    facts.append(T.bor(T.bnot(T.ult(T.const(1, d.w), d)), T.ule(v, T.lshr_c(n, 1))))
            for y in seen[-12:]:      # equal arguments give equal results
                if y.op == x.op and y.w == x.w:
                    (p, q), (r, s) = x.a, y.a
                    same = T.band(T.eq(p, r), T.eq(q, s))
                    if x.op == "mul":
                        same = T.bor(same, T.band(T.eq(p, s), T.eq(q, r)))
                    facts.append(T.bor(T.bnot(same), T.eq(v, sub[y.id])))
            seen.append(x)
            sub[x.id] = v
    return T.subst(list(conds) + facts, sub)


def solve_any(conds, solvers, res, deadline=None):
    conds = [c for c in conds if c is not T.TRUE]
    if any(c is T.FALSE for c in conds):
        return "unsat", None
    why = []
    for s in solvers:
        k, _, tl = s.partition(":")
        tl = float(tl or 60)
        if deadline is not None:
            tl = min(tl, deadline - time.time())
            if tl < 0.5:
                why.append("budget")
                break
        t = time.time()
        try:
            if k == "z3":
                r, e = smt.solve_z3(conds, tl)
            elif k == "sat":
                if any(x.op == "uf" for x in T.topo(conds)):
                    continue
                r, e = smt.solve_sat(conds, tl)
            elif k == "lia":
                from . import lia
                r, e = lia.solve(conds, tl)
            elif k in ("abs", "absm"):
                r, e = smt.solve_sat(abstract(conds, k == "absm"), tl)
                if r == "sat":
                    full = {v.v[0]: v.lb for v in T.vars_of(conds)}
                    full.update({n: v for n, v in e.items() if n in full})
                    r, e = ("sat", full) if all(T.evals(conds, full)) else ("unknown", "abstraction too coarse")
            else:
                raise Exception("solver " + k)
        except Unsupported as ex:
            r, e = "unknown", str(ex)
        res["queries"] += 1
        res["solver_s"] += time.time() - t
        res["how"].append("%s %s %.1fs" % (k, r, time.time() - t))
        if r in ("sat", "unsat"):
            return r, e
        why.append("%s: %s" % (k, e))
    return "unknown", "; ".join(map(str, why))


# ---------------------------------------------------------------- scheduling
def parallel(tasks, fn, nproc, on_done=None, total_deadline=None):
    """tasks: list of (arg, timeout). fn(arg) yields picklable results. Each task has its own process group.
    -> per task (reason, results); reason is "ok" when fn came to its end"""
    results = [None] * len(tasks)
    running = {}
    nxt = 0
    while nxt < len(tasks) or running:
        while nxt < len(tasks) and len(running) < nproc:
            if total_deadline and time.time() > total_deadline:
                results[nxt] = ("not started: total budget used", [])
                nxt += 1
                continue
            arg, tl = tasks[nxt]
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    os.setsid()
                    with os.fdopen(w, "wb") as f:
                        try:
                            for out in fn(arg):
                                pickle.dump(("res", out), f)
                                f.flush()
                            out = ("end", "ok")
                        except MemoryError:
                            out = ("end", "error: memory")
                        except BaseException:
                            out = ("end", "error: " + traceback.format_exc()[-3000:])
                        pickle.dump(out, f)
                finally:
                    os._exit(0)
            os.close(w)
            end = time.time() + tl
            if total_deadline:
                end = min(end, total_deadline)
            running[r] = (pid, nxt, end, bytearray())
            nxt += 1
        rs, _, _ = select.select(list(running), [], [], 0.2)
        for r in rs:
            pid, k, end, buf = running[r]
            c = os.read(r, 1 << 20)
            if c:
                buf += c
                continue
            os.close(r)
            del running[r]
            os.waitpid(pid, 0)
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            results[k] = frames(buf, "error: worker died")
            if on_done:
                on_done(k, results[k])
        now = time.time()
        for r in list(running):
            pid, k, end, buf = running[r]
            if now > end:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                while True:
                    c = os.read(r, 1 << 20)
                    if not c:
                        break
                    buf += c
                os.close(r)
                del running[r]
                results[k] = frames(buf, "time limit")
                if on_done:
                    on_done(k, results[k])
    return results


def frames(buf, why):
    f = io.BytesIO(bytes(buf))
    out = []
    while True:
        try:
            k, v = pickle.load(f)
        except Exception:
            return why, out
        if k == "end":
            return v, out
        out.append(v)


def gen_rs(hs):
    out = []
    for n in hs:
        h = H.all[n]
        out.append("#[no_mangle]\n#[inline(never)]\npub fn vh_%s(i: &In, o: &mut Out) {\n    %s\n}\n" % (n, expand(h.rust)))
    out.append("pub static TABLE: &[fn(&In, &mut Out)] = &[%s];\n" % ", ".join("vh_" + n for n in hs))
    return "\n".join(out)

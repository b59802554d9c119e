#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [--only REGEX] [-v]"""
import argparse
import importlib
import json
import os
import re
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vt import core, build, ll, term as T   # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--cfg")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    pid = a.prop
    mod = importlib.import_module("props." + pid.lower())
    obls = [o for o in mod.obligations(a.tier)]
    if a.only:
        obls = [o for o in obls if re.search(a.only, o.name)]
    cfgs = sorted(set(c for o in obls for c in o.cfgs if not a.cfg or c == a.cfg))
    hs = sorted(set(o.h.name for o in obls))
    gen = core.gen_rs(hs)
    extra = getattr(mod, "EXTRA", "")
    try:
        b = build.Build(pid.lower() + ("-x" if a.only else ""), gen, extra).all(cfgs)
    except build.BuildError as e:
        print("ERROR: build failed\n%s" % e)
        sys.exit(3)
    mods = {c: [ll.Module(open(f).read(), os.path.basename(f)) for f in b.irs[c]] for c in cfgs}
    ctx = core.Ctx(pid, mods, b.libs, hs, seed)
    tb = time.time() - t0
    limit = getattr(mod, "BUDGET", {"quick": 420, "thorough": 3000})[a.tier]
    tasks = [(o, c) for o in obls for c in o.cfgs if c in cfgs]
    tasks.sort(key=lambda oc: -oc[0].cost)
    deadline = t0 + limit
    groups, where = [], {}
    for k, (o, c) in enumerate(tasks):
        g = (o.group, c)
        if o.group is None or g not in where:
            where[g] = len(groups)
            groups.append([])
        groups[where[g]].append(k)

    def one(ks):
        for k in ks:
            o, c = tasks[k]
            r = core.run_obl(ctx, o, c, o.tlimit)
            yield k, r
            if r["status"] == "violated":
                break

    def done(g, r):
        if a.v:
            for k, d in r[1]:
                o, c = tasks[k]
                print("%-40s %s %-9s exec %.1fs solver %.1fs q%d steps %d tr%d %s %s" % (
                    o.name, c, d["status"], d.get("exec_s", 0), d["solver_s"], d["queries"], d["steps"], d["traces"],
                    d["how"][-3:], d["note"][:1500]), flush=True)
            if r[0] != "ok":
                print("%-40s %s" % (tasks[groups[g][len(r[1]) if len(r[1]) < len(groups[g]) else -1]][0].name, r[0]), flush=True)

    gr = core.parallel([(ks, sum(tasks[k][0].tlimit for k in ks) + 15) for ks in groups], one, a.j, done, deadline)
    rs = [None] * len(tasks)
    for ks, (why, got) in zip(groups, gr):
        for k, d in got:
            rs[k] = ("ok", d)
        for k in ks:
            if rs[k] is None:
                rs[k] = ("error", why) if why.startswith("error") else ("timeout", "after a violation" if why == "ok" else why)
    known = []
    kf = os.path.join(core.VERIF, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k["property"] == pid]
    viol, und, errs, prov = [], [], [], []
    for (o, c), r in zip(tasks, rs):
        if r[0] == "ok":
            d = r[1]
            if d["status"] == "violated":
                viol.append((o, c, d))
            elif d["status"] == "proved":
                prov.append((o, c, d))
            elif d["status"] == "error":
                errs.append((o, c, d["note"]))
            else:
                und.append((o, c, d["note"]))
        elif r[0] == "timeout":
            und.append((o, c, r[1]))
        else:
            errs.append((o, c, r[1]))
    fresh = []
    for o, c, d in viol:
        k = [k for k in known if re.fullmatch(k["obligation"], o.name) and mod_known(mod, k, d)]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (pid, k[0]["what"]))
        else:
            fresh.append((o, c, d))
    rdir = os.path.join(core.VERIF, ".build", "replay")
    os.makedirs(rdir, exist_ok=True)
    for o, c, d in fresh:
        p = os.path.join(rdir, "%s-%s-%s.json" % (pid, re.sub(r"\W", "_", o.name), c))
        with open(p, "w") as f:
            json.dump({"property": pid, "obligation": o.name, "config": c, "cex": d["cex"]}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  obligation %s config %s: %s" % (o.name, c, d["cex"]["native"][:400]))
        print("  claim: %s ; inputs %s" % (d["cex"]["claim"][:200], json.dumps(d["cex"]["vars"])[:600]))
    for o, c, n in und:
        print("INCONCLUSIVE %s %s: %s" % (o.name, c, n[:300]))
    for o, c, n in errs:
        print("ERROR %s %s: %s" % (o.name, c, n[-1500:]))
    okr = [r[1] for r in rs if r[0] == "ok"]
    fns = sorted(set(f for d in okr for f in d["fns"]))
    ev = {"property": pid, "tier": a.tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": sum(d["states"] for d in okr),
              "transitions": sum(d["steps"] for d in okr),
              "traces_validated_against_impl": sum(d["traces"] for d in okr),
              "samples": [{"obligation": o.name, "config": c, "harness": o.h.rust[:200], "decided_by": d["how"][-2:],
                           "exec_s": round(d.get("exec_s", 0), 2), "solver_s": round(d["solver_s"], 2)}
                          for o, c, d in (prov[:4] + prov[-2:])],
              "obligations": len(tasks), "discharged": len(prov), "violated": len(viol),
              "undecided": ["%s[%s]: %s" % (o.name, c, n[:160]) for o, c, n in und],
              "errors": ["%s[%s]" % (o.name, c) for o, c, n in errs],
              "queries": sum(d["queries"] for d in okr),
              "solver_s": round(sum(d["solver_s"] for d in okr), 1),
              "claims": sum(d.get("claims", 0) for d in okr),
              "witnessed": sum(1 for d in okr if d["witness"]),
              "configurations": {c: "llvm-intrinsics=%s debug=%s" % build.CFGS[c] for c in cfgs},
              "functions_encoded": fns,
              "bounds": getattr(mod, "BOUNDS", ""),
              "build_s": round(tb, 1)},
          "assumptions": getattr(mod, "ASSUMPTIONS", []) + sorted(set(o.note for o in obls if o.note)),
          "wall_s": round(time.time() - t0, 1), "violations": len(fresh)}
    if not a.only:
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(core.VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d obligations, %d proved, %d violated, %d undecided, %d errors; %d queries, solver %.1fs, build %.1fs, wall %.1fs" % (
        pid, a.tier, len(tasks), len(prov), len(viol), len(und), len(errs), ev["coverage"]["queries"],
        ev["coverage"]["solver_s"], tb, time.time() - t0))
    if fresh:
        sys.exit(1)
    if not prov and not viol:
        sys.exit(3)
    sys.exit(0)


def mod_known(mod, k, d):
    f = getattr(mod, "known_match", None)
    if f:
        return f(k, d)
    return all(d["cex"]["vars"].get(n) == v for n, v in k.get("input", {}).items())


if __name__ == "__main__":
    main()

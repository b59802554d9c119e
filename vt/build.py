"""Build the harness crate against /repo's current tree: LLVM IR for the encoder and
shared libraries for native replay.  Everything is keyed by a hash of the sources, so a
cached build is only reused for byte-identical inputs."""
import hashlib
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
OUT = os.path.join(VERIF, ".build")
TOOLCHAIN = "1.90.0"

# configuration -> (llvm feature, debug assertions / overflow checks)
CFGS = {"nd": (False, True), "nr": (False, False), "ld": (True, True), "lr": (True, False)}


def env():
    e = dict(os.environ)
    for l in subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE).stdout.split(b"\0"):
        if b"=" in l:
            k, v = l.decode(errors="replace").split("=", 1)
            if k in ("PATH", "CLANG", "CC", "RUSTUP_TOOLCHAIN", "CARGO_HOME", "RUSTUP_HOME", "CARGO_NET_OFFLINE"):
                e[k] = v
    e.setdefault("RUSTUP_TOOLCHAIN", TOOLCHAIN)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTC_BOOTSTRAP"] = "1"
    e["CARGO_INCREMENTAL"] = "0"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def tree_hash(extra=b""):
    h = hashlib.sha256()
    files = []
    for base in (REPO, os.path.join(VERIF, "harness_tpl")):
        for d, ds, fs in os.walk(base):
            ds[:] = [x for x in ds if x not in ("target", ".git", ".build")]
            for f in fs:
                files.append(os.path.join(d, f))
    for f in sorted(files):
        try:
            with open(f, "rb") as fh:
                data = fh.read()
        except OSError:
            continue
        h.update(f.encode() + b"\0" + hashlib.sha256(data).digest())
    with open(__file__, "rb") as fh:
        h.update(hashlib.sha256(fh.read()).digest())
    h.update(extra)
    return h.hexdigest()[:24]


class BuildError(Exception):
    pass


def _run(cmd, e, cwd, log):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    with open(log, "wb") as f:
        f.write(r.stdout)
    if r.returncode:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))


class Build:
    def __init__(self, tag, gen, extra):
        """gen: text of gen.rs; extra: text of extra.rs"""
        self.key = tree_hash((gen + "\0" + extra).encode())
        self.dir = os.path.join(OUT, tag + "-" + self.key)
        self.crate = os.path.join(self.dir, "crate")
        self.tag = tag
        if not os.path.isdir(self.crate):
            # drop older builds of the same check
            os.makedirs(OUT, exist_ok=True)
            for d in os.listdir(OUT):
                if d.startswith(tag + "-") and d != os.path.basename(self.dir):
                    shutil.rmtree(os.path.join(OUT, d), ignore_errors=True)
            tmp = self.crate + ".tmp%d" % os.getpid()
            os.makedirs(os.path.join(tmp, "src"), exist_ok=True)
            with open(os.path.join(VERIF, "harness_tpl", "Cargo.toml")) as f:
                s = f.read().replace("/repo", REPO)
            with open(os.path.join(tmp, "Cargo.toml"), "w") as f:
                f.write(s)
            lock = os.path.join(VERIF, "harness_tpl", "Cargo.lock")
            if os.path.exists(lock):
                shutil.copy(lock, os.path.join(tmp, "Cargo.lock"))
            shutil.copy(os.path.join(VERIF, "harness_tpl", "src", "lib.rs"), os.path.join(tmp, "src", "lib.rs"))
            with open(os.path.join(tmp, "src", "gen.rs"), "w") as f:
                f.write(gen)
            with open(os.path.join(tmp, "src", "extra.rs"), "w") as f:
                f.write(extra)
            try:
                os.rename(tmp, self.crate)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)

    def ir(self, cfg):
        """-> list of .ll paths"""
        llvm, dbg = CFGS[cfg]
        d = os.path.join(self.dir, "ir-" + cfg)
        done = os.path.join(d, "done")
        if not os.path.exists(done):
            e = env()
            fl = "--emit=llvm-ir -C codegen-units=1 -C no-prepopulate-passes -C debuginfo=0 -Zshare-generics=no " \
                 "-Zinline-mir=no -C panic=abort -C opt-level=0"
            if not dbg:
                fl += " -C debug-assertions=no -C overflow-checks=no"
            e["RUSTFLAGS"] = fl
            e["CARGO_TARGET_DIR"] = d
            cmd = ["cargo", "rustc", "--offline", "--lib", "--crate-type", "rlib", "--target", "x86_64-unknown-linux-gnu"]
            if llvm:
                cmd += ["--features", "llvm"]
            _run(cmd, e, self.crate, self.dir + "/log-ir-" + cfg)
            open(done, "w").close()
        dep = os.path.join(d, "x86_64-unknown-linux-gnu", "debug", "deps")
        out = []
        for f in sorted(os.listdir(dep)):
            if f.endswith(".ll") and f.split("-")[0] in ("vharness", "ethnum", "serde", "serde_core", "ethnum_intrinsics"):
                out.append(os.path.join(dep, f))
        if llvm:
            b = os.path.join(d, "x86_64-unknown-linux-gnu", "debug", "build")
            for f in sorted(os.listdir(b)):
                p = os.path.join(b, f, "out", "intrinsics.ll")
                if os.path.exists(p):
                    out.append(p)
        return out

    def lib(self, cfg):
        """native shared library with the real profile"""
        llvm, dbg = CFGS[cfg]
        d = os.path.join(self.dir, "so-" + cfg)
        so = os.path.join(d, "debug" if dbg else "release", "libvharness.so")
        done = os.path.join(d, "done")
        if not os.path.exists(done):
            e = env()
            e["CARGO_TARGET_DIR"] = d
            e["RUSTFLAGS"] = "-C debuginfo=0"
            cmd = ["cargo", "rustc", "--offline", "--lib", "--crate-type", "cdylib"]
            if not dbg:
                cmd.append("--release")
            if llvm:
                cmd += ["--features", "llvm"]
            _run(cmd, e, self.crate, self.dir + "/log-so-" + cfg)
            open(done, "w").close()
        return so

    def all(self, cfgs, libs=None):
        libs = cfgs if libs is None else libs
        with ThreadPoolExecutor(8) as ex:
            a = [ex.submit(self.ir, c) for c in cfgs]
            b = [ex.submit(self.lib, c) for c in libs]
            self.irs = {c: f.result() for c, f in zip(cfgs, a)}
            self.libs = {c: f.result() for c, f in zip(libs, b)}
        return self

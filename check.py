#!/usr/bin/env python3
"""Decide one property of /repo by static analysis of its current source.

usage: check.py <property id> [--tier quick|thorough]
Builds the MIR driver when needed, dumps the type-checked program of /repo's working
tree (nothing of it is executed), applies the property's rule, writes evidence/<id>.json.
Exit 0: held on everything analysed.  Exit 1: VIOLATION line.
"""
import argparse
import fcntl
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import warnings

warnings.filterwarnings("ignore", category=DeprecationWarning)
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, os.path.join(HERE, "rules"))
sys.path.insert(0, HERE)


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], env=env(), text=True).strip()


LIMIT = 780     # seconds after which a check says what it could not decide
MEMORY = 5 << 30    # address space of one worker
SOON = 100      # the same once a violation is established


def known_findings():
    return {(f["property"], f["key"]): f for f in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]}


def unlisted(pid, v, kn=None):
    """not a recorded finding: a finding names the construct and, where it is a value, the exact wrong provenance"""
    f = (kn or known_findings()).get((pid, v["key"]))
    return f is None or f.get("got", v.get("got")) != v.get("got")


# builds for other targets: 32-bit x86, and targets on which the CPUID instruction cannot be assumed to exist
TARGETS = {"i686": "i686-unknown-linux-gnu", "aarch64": "aarch64-unknown-linux-gnu", "i586": "i586-unknown-linux-gnu", "sgx": "x86_64-fortanix-unknown-sgx"}


class BuildError(Exception):
    """a build failed; own: in the library's own code"""

    def __init__(self, what, own=False):
        super().__init__(what)
        self.own = own


def driver():
    """build (once) the rustc driver that dumps type-checked MIR"""
    out = os.path.join(HERE, ".build", "driver")
    os.makedirs(out, exist_ok=True)
    e = env()
    e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
    with open(os.path.join(HERE, ".build", "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(
            ["cargo", "+nightly", "build", "--offline", "--target-dir", out],
            cwd=os.path.join(HERE, "driver"), env=e, capture_output=True, text=True,
        )
    if r.returncode:
        raise BuildError("driver build failed:\n" + r.stderr[-3000:])
    return os.path.join(out, "debug", "mirdump"), e


class Ctx:
    def __init__(self, pid, tier, tmp):
        self.pid, self.tier, self.tmp = pid, tier, tmp
        self.thorough = tier == "thorough"
        self.viol = []
        self.known = []
        self.ob = 0
        self.ok = 0
        self.samples = []
        self.notes = []
        self.cover = {}
        self.assumptions = []
        self.explanation = ""
        self.config = ""    # the build a rule looks at when it does not say: "" 64-bit default, "i686" 32-bit
        self._dumps = {}
        self._models = {}
        self._keys = set()
        self._drv = None
        self._rmeta = None
        self.t0 = time.time()
        self.stopped = False

    # ---- program
    def dump_path(self, feat="", binary=None):
        """dump of the library with these features, or of one of its programs"""
        key = feat if binary is None else "bin_" + binary
        p = self._dumps.get(key)
        if p:
            return p
        pre = os.environ.get("VERIF_DUMP_DIR")  # development aid only, never set by the registered commands
        if pre:
            p = os.path.join(pre, "dump%s.json" % ("_" + key if key else ""))
            if os.path.exists(p):
                self._dumps[key] = p
                return p
        if self._drv is None:
            self._drv = driver()
        drv, e = self._drv
        e = dict(e)
        if feat in TARGETS:
            p = self._dumps[key] = self.dump_target(drv, e, feat)
            return p
        tgt = os.path.join(self.tmp, "t%s_%d" % (key, os.getpid()))  # a forked worker may build its own
        p = os.path.join(self.tmp, "dump%s_%d.json" % (key, os.getpid()))
        e["MIRDUMP_OUT"] = p
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        cmd = ["cargo", "+nightly", "check", "--offline", "--target-dir", tgt]
        if binary is None:
            cmd += ["--lib"]
        else:
            cmd += ["--bin", binary]
            e.update(MIRDUMP_CRATE=binary, MIRDUMP_TYPE="bin", MIRDUMP_DEEP="core")
        if feat == "nodebug":
            cmd += ["--config", "profile.dev.debug-assertions=false", "--config", "profile.dev.overflow-checks=true"]
        elif feat:
            cmd += ["--features", feat]
        r = subprocess.run(cmd, cwd=REPO, env=e, capture_output=True, text=True)
        if r.returncode or not os.path.exists(p):
            raise BuildError("dumping %s failed (%s):\n%s" % (REPO, " ".join(cmd), r.stderr[-4000:]), "could not compile `raw-cpuid`" in r.stderr)
        shutil.rmtree(tgt, ignore_errors=True)
        self._dumps[key] = p
        return p

    def dump_target(self, drv, e, name):
        """dump of the library type-checked for another target, against the language's own core source for that target"""
        out = os.path.join(self.tmp, "dump_%s.json" % name)
        lib = os.path.join(self.tmp, name)
        os.makedirs(lib, exist_ok=True)
        src = os.path.join(sysroot(), "lib", "rustlib", "src", "rust", "library", "core", "src", "lib.rs")
        meta = subprocess.run(["cargo", "metadata", "--format-version", "1", "--offline"], cwd=REPO, env=env(), capture_output=True, text=True)
        if meta.returncode:
            raise BuildError("cargo metadata failed:\n" + meta.stderr[-2000:])
        pkg = {p["name"]: p for p in json.loads(meta.stdout)["packages"]}

        def target(n):
            return [(os.path.relpath(t["src_path"], REPO), pkg[n]["edition"]) for t in pkg[n]["targets"] if "lib" in t["kind"]][0]

        flags = ["--target", TARGETS[name], "--crate-type", "lib", "--emit=metadata", "-Zalways-encode-mir", "-Ldependency=" + lib, "-L", lib, "--cap-lints", "allow"]
        be = dict(e, RUSTC_BOOTSTRAP="1")
        stub = os.path.join(lib, "stub.rs")
        with open(stub, "w") as f:
            f.write("#![feature(compiler_builtins)]\n#![compiler_builtins]\n#![no_builtins]\n#![no_std]\n")
        steps = [
            ("core", [src, "--edition", "2024", "-Zforce-unstable-if-unmarked"]),
            ("compiler_builtins", [stub, "--edition", "2024", "-Zforce-unstable-if-unmarked"]),     # intrinsics for code generation, of which there is none
            ("bitflags", [target("bitflags")[0], "--edition", target("bitflags")[1]]),
            ("raw_cpuid", [target("raw-cpuid")[0], "--edition", target("raw-cpuid")[1], "--extern", "bitflags=" + os.path.join(lib, "libbitflags.rmeta")]),
        ]
        for n, extra in steps:
            cmd = ["rustc"] + ([] if n == "raw_cpuid" else ["+nightly"]) + ["--crate-name", n, "--out-dir", lib] + flags + extra
            if n == "raw_cpuid":
                cmd = [drv] + cmd
            r = subprocess.run(cmd, cwd=REPO, env=dict(be, MIRDUMP_OUT=out) if n == "raw_cpuid" else be, capture_output=True, text=True)
            if r.returncode:
                shutil.rmtree(lib, ignore_errors=True)
                raise BuildError("checking %s for %s failed:\n%s" % (n, TARGETS[name], r.stderr[-3000:]), n == "raw_cpuid")
        shutil.rmtree(lib, ignore_errors=True)
        return out

    def metadata(self):
        """the resolved manifest (no build)"""
        r = subprocess.run(["cargo", "metadata", "--format-version", "1", "--offline", "--no-deps"], cwd=REPO, env=env(), capture_output=True, text=True)
        if r.returncode:
            raise BuildError("cargo metadata failed:\n" + r.stderr[-2000:])
        return json.loads(r.stdout)

    def rmeta(self):
        """(metadata file of the library, directory of its dependencies), for client crates"""
        if self._rmeta is None:
            tgt = os.path.join(self.tmp, "client")
            e = env()
            e["RUSTFLAGS"] = "-Zalways-encode-mir"
            cmd = ["cargo", "+nightly", "check", "--lib", "--offline", "--target-dir", tgt]
            r = subprocess.run(cmd, cwd=REPO, env=e, capture_output=True, text=True)
            fs = [os.path.join(d, f) for d, _, ns in os.walk(tgt) if "incremental" not in d for f in ns if f.endswith(".rmeta")]
            lib = [f for f in fs if os.path.basename(f).startswith("libraw_cpuid-")]
            if r.returncode or not lib:
                raise BuildError("checking %s failed:\n%s" % (REPO, r.stderr[-4000:]))
            self._rmeta = (lib[0], sorted({os.path.dirname(f) for f in fs}))
        return self._rmeta

    def rustc(self, name, src, extra=(), drv=None, e=None):
        """type-check one client source file against the library; nothing is linked or run"""
        lib, deps = self.rmeta()
        f = os.path.join(self.tmp, name + ".rs")
        with open(f, "w") as h:
            h.write(src)
        cmd = ([drv] if drv else []) + ["rustc"] + ([] if drv else ["+nightly"])
        cmd += ["--crate-name", name, "--crate-type", "lib", "--edition", "2021", "--emit=metadata", "--extern", "raw_cpuid=" + lib,
                "--out-dir", os.path.join(self.tmp, "out_" + name), f] + ["-Ldependency=" + d for d in deps] + list(extra)
        return subprocess.run(cmd, cwd=self.tmp, env=e or env(), capture_output=True, text=True)

    def client(self, name, src):
        """Prog of a client crate"""
        from absint import Prog
        if self._drv is None:
            self._drv = driver()
        drv, e = self._drv
        e = dict(e)
        e["MIRDUMP_CRATE"] = name
        e["MIRDUMP_OUT"] = os.path.join(self.tmp, name + ".json")
        r = self.rustc(name, src, drv=drv, e=e)
        if r.returncode or not os.path.exists(e["MIRDUMP_OUT"]):
            raise BuildError("client crate %s does not build:\n%s" % (name, r.stderr[-3000:]))
        return Prog(e["MIRDUMP_OUT"])

    def prog(self, feat=""):
        from absint import Prog
        feat = feat or self.config
        k = ("p", feat)
        if k not in self._models:
            self._models[k] = Prog(self.dump_path(feat))
        return self._models[k]

    def model(self, feat="", **kw):
        from model import Model
        feat = feat or self.config
        k = (feat, tuple(sorted(kw.items(), key=str)))
        if k not in self._models:
            self._models[k] = Model(self.prog(feat), **kw)
        return self._models[k]

    # ---- parallel work
    def pmap(self, items, work, procs=6):
        """work(ctx, item) for every item in forked children; their verdicts are merged in item order"""
        import pickle
        import resource
        import select
        items = list(items)
        res = [None] * len(items)
        found = bool([v for v in self.viol if unlisted(self.pid, v)])
        todo = list(enumerate(items))[::-1]
        live = {}
        sys.stdout.flush()
        sys.stderr.flush()
        while todo or live:
            while todo and len(live) < procs:
                i, x = todo.pop()
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    out = None
                    t0 = time.time()
                    try:
                        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
                        self.viol, self.ob, self.ok, self.samples, self.notes, self.cover, self._keys = [], 0, 0, [], [], {}, set()
                        self.decide(work, self, x)
                        out = (self.viol, self.ob, self.ok, self.samples, self.notes, self.cover)
                        if os.environ.get("VERIF_TIMING"):
                            import bdd
                            print("%6.1fs %s nodes %s memo %s" % (time.time() - t0, x, bdd.PEAK[0], bdd.PEAK[1]), file=sys.stderr, flush=True)
                        out = pickle.dumps(json.loads(json.dumps(out, default=str)))
                    except BaseException:
                        out = pickle.dumps(traceback.format_exc())
                    try:
                        with os.fdopen(w, "wb") as f:
                            f.write(out)
                    finally:
                        os._exit(0)
                os.close(w)
                live[r] = (i, pid, [])
            el = time.time() - self.t0
            if el > (LIMIT if not found else SOON):
                # a violation is already established, or the time is used up: give up the rest
                for i, pid, _ in live.values():
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                if not found:
                    self.bad("time", "not decided within %d s (%d of %d units of work left)" % (LIMIT, len(live) + len(todo), len(items)))
                for k, x in enumerate(res):
                    if x is None:
                        res[k] = ([], 0, 0, [], ["not analysed (stopped early): %s" % (items[k],)], {})
                self.stopped = True
                break
            for r in select.select(list(live), [], [], 1.0)[0]:
                i, pid, buf = live[r]
                b = os.read(r, 1 << 20)
                if b:
                    buf.append(b)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del live[r]
                res[i] = pickle.loads(b"".join(buf)) if buf else "worker for %r died" % (items[i],)
                if not isinstance(res[i], str) and any(unlisted(self.pid, v) for v in res[i][0]):
                    found = True
        for x in res:
            if isinstance(x, str):
                raise RuntimeError(x)
            viol, ob, ok, samples, notes, cover = x
            for v in viol:
                if (v["key"], v.get("got")) in self._keys:
                    continue
                self._keys.add((v["key"], v.get("got")))
                self.viol.append(v)
            self.ob += ob
            self.ok += ok
            for t in samples:
                self.sample(t)
            for t in notes:
                self.note(t)
            for k, n in cover.items():
                self.cover[k] = max(self.cover.get(k, 0), n) if k.startswith("max_") else self.cover.get(k, 0) + n

    # ---- verdicts
    def decide(self, rule, *args):
        """a rule that meets code it cannot analyse has not established its property: that is reported, not passed over"""
        from model import Missing
        from absint import Unsupported, NoBound, Blowup
        try:
            rule(*args)
        except Missing as m:
            self.bad("missing-anchor", str(m))
        except (Unsupported, NoBound, Blowup, RecursionError, MemoryError) as e:
            self.bad("unanalysable", "the code is beyond what the analysis can follow: %s: %s" % (type(e).__name__, e))

    def snapshot(self):
        return (list(self.viol), self.ob, self.ok, list(self.samples), dict(self.cover), set(self._keys))

    def restore(self, s):
        self.viol, self.ob, self.ok, self.samples, self.cover, self._keys = s

    def good(self, n=1):
        self.ob += n
        self.ok += n

    def sample(self, s, cap=40):
        if len(self.samples) < cap:
            self.samples.append(s)

    def bad(self, key, msg, **det):
        """one violated obligation; key names the construct (no line numbers)"""
        self.ob += 1
        if (key, det.get("got")) in self._keys:
            return
        self._keys.add((key, det.get("got")))
        self.viol.append(dict(key=key, what=msg, **det))

    def note(self, s):
        if len(self.notes) < 200:
            self.notes.append(s)

    def count(self, name, n=1):
        self.cover[name] = self.cover.get(name, 0) + n

    def floor(self, name, n):
        """fail closed when fewer instances than confirmed by hand were analysed"""
        if self.cover.get(name, 0) < n and not self.stopped:
            self.bad("floor:" + name, "only %d %s analysed, at least %d expected: the rule lost its subject" % (self.cover.get(name, 0), name, n))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--setup", action="store_true", help="build the MIR driver and exit")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    if a.setup:
        print("driver: %s" % driver()[0])
        return
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vcpuid.")
    code = 2
    box = {}

    def work():
        try:
            ctx = Ctx(a.pid, tier, tmp)
            box["ctx"] = ctx
            import registry
            mod, fn = registry.RULES[a.pid]
            ctx.decide(getattr(importlib.import_module(mod), fn), ctx)
            box["done"] = True
        except BuildError as e:
            print("CHECK ERROR: %s" % e, file=sys.stderr)
        except Exception:
            traceback.print_exc()

    try:
        threading.stack_size(1024 * 1024 * 1024)
        t = threading.Thread(target=work)
        t.start()
        t.join()
        if box.get("done"):
            code = report(box["ctx"], t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def report(ctx, t0):
    kn = known_findings()
    real = []
    for v in ctx.viol:
        if not unlisted(ctx.pid, v, kn):
            ctx.known.append(v)
            print("KNOWN-FINDING: property=%s %s" % (ctx.pid, kn[(ctx.pid, v["key"])]["what"]))
        else:
            real.append(v)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    cov = dict(
        explanation=ctx.explanation,
        obligations=ctx.ob,
        discharged=ctx.ok,
        known_findings=len(ctx.known),
        samples=ctx.samples,
    )
    cov.update(ctx.cover)
    if ctx.notes:
        cov["notes"] = ctx.notes
    ev = dict(
        property=ctx.pid,
        tier=ctx.tier,
        seed=int(os.environ.get("VERIF_SEED", "1") or 1),
        level="other",
        coverage=cov,
        assumptions=ctx.assumptions,
        wall_s=round(time.time() - t0, 2),
        violations=len(real),
    )
    with open(os.path.join(HERE, "evidence", ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if not real:
        print("%s held: %d obligations, %d discharged, %d known findings (%.1fs)" % (ctx.pid, ctx.ob, ctx.ok, len(ctx.known), time.time() - t0))
        return 0
    rp = os.path.join(HERE, "evidence", ctx.pid + ".violation.json")
    with open(rp, "w") as f:
        json.dump(real, f, indent=1, default=str)
    for v in real[:30]:
        print("  - [%s] %s%s" % (v["key"], v["what"], (" at " + v["at"]) if v.get("at") else ""))
    print("VIOLATION property=%s replay=%s" % (ctx.pid, rp))
    return 1


if __name__ == "__main__":
    main()

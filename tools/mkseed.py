#!/usr/bin/env python3
"""Development aid: turns /tmp/seeds/<id>.py (EDITS, DEMO, PROPERTY, NEEDS, BREAKS) into seeded/<id>/ after
confirming in a scratch copy of /repo that it builds, passes the tests and that its demo tells the two apart.
No check uses this."""
import json, os, shutil, subprocess, sys
H = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
S = "/tmp/seedrepo"
PRE = r'''#![allow(unused_imports, dead_code)]
use raw_cpuid::*;
use std::collections::HashMap;
/// a CPUID source that answers from a table and zero elsewhere
fn mk(t: &[(u32, u32, [u32; 4])]) -> CpuId<impl CpuIdReader + Clone> {
    let m: HashMap<(u32, u32), [u32; 4]> = t.iter().map(|x| ((x.0, x.1), x.2)).collect();
    CpuId::with_cpuid_reader(move |a: u32, c: u32| {
        let r = m.get(&(a, c)).copied().unwrap_or([0; 4]);
        CpuIdResult { eax: r[0], ebx: r[1], ecx: r[2], edx: r[3] }
    })
}
const INTEL: [u32; 3] = [0x756e6547, 0x6c65746e, 0x49656e69];
const AMD: [u32; 3] = [0x68747541, 0x444d4163, 0x69746e65];
const HYGON: [u32; 3] = [0x6f677948, 0x656e6975, 0x6e65476e];
/// leaf 0 / 0x8000_0000 rows
fn base(v: [u32; 3], max: u32, xmax: u32) -> Vec<(u32, u32, [u32; 4])> {
    vec![(0, 0, [max, v[0], v[1], v[2]]), (0x8000_0000, 0, [xmax, v[0], v[1], v[2]])]
}
'''
SH = '''#!/bin/bash
# builds and runs demo.rs against the crate in the current directory (/repo); exit 0 when the property holds
set -u
export HOME=/root RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
raw-cpuid = { path = "$repo"%s }
T
cd "$w" && cargo %s --offline --quiet
'''
def sh(cmd, cwd=S, **kw):
    e = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, **kw)
def main(i):
    g = {}
    exec(open("/tmp/seeds/%s.py" % i).read(), g)
    if not os.path.isdir(S):
        sh("cp -a /repo %s" % S, "/")
    sh("git fetch -q /repo HEAD && git checkout -q -f --detach FETCH_HEAD && git checkout -q -- .")
    assert sh("git rev-parse HEAD").stdout == sh("git rev-parse HEAD", "/repo").stdout
    D = os.path.join(H, "seeded", i)
    os.makedirs(D, exist_ok=True)
    open(D + "/demo.rs", "w").write((PRE if g.get("PRELUDE", True) else "") + g["DEMO"])
    open(D + "/demo.sh", "w").write(g.get("SH") or (SH % (', features = [%s]' % ", ".join('"%s"' % f for f in g["FEATURES"]) if g.get("FEATURES") else "", g.get("CARGO", "run"))))
    os.chmod(D + "/demo.sh", 0o755)
    json.dump(dict(property=g["PROPERTY"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(D + "/meta.json", "w"), indent=1)
    r = sh("bash %s/demo.sh" % D)
    if r.returncode: return print(i, "DEMO FAILS ON CLEAN", r.stderr[-1500:], r.stdout[-500:])
    for f, a, b in g["EDITS"]:
        p = os.path.join(S, f)
        s = open(p).read()
        if s.count(a) != 1: sh("git checkout -q -- ."); return print(i, "EDIT matches", s.count(a), a[:60])
        open(p, "w").write(s.replace(a, b))
    open(D + "/patch.diff", "w").write(sh("git diff").stdout)
    r = sh("cargo build --all-features --offline && cargo test --workspace --all-features --no-fail-fast --offline 2>&1 | grep '^test result'")
    t = r.stdout
    n = sum(int(l.split(" passed")[0].split()[-1]) for l in t.splitlines())
    fl = sum(int(l.split(" failed")[0].split()[-1]) for l in t.splitlines())
    if r.returncode or fl: sh("git checkout -q -- ."); return print(i, "BUILD/TESTS", r.stderr[-1500:], t)
    r = sh("bash %s/demo.sh" % D)
    sh("git checkout -q -- .")
    print(i, "OK" if r.returncode else "DEMO PASSES WITH BUG", n, r.stderr.strip().splitlines()[-3:] if r.stderr else r.stdout[-200:])
for i in sys.argv[1:]: main(i)

#!/usr/bin/env python3
"""Development aid: the engine against pairs of functions that agree on all inputs (idioms/*.rs). No check uses this."""
import glob, os, sys, tempfile, shutil, time
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path[:0] = [H, os.path.join(H, "engine"), os.path.join(H, "rules")]
import check, same
from model import Model
from absint import St
import subprocess
want = sys.argv[1:]
D = os.path.join(H, "tools", "idioms")
bad = n = 0
for f in sorted(glob.glob(D + "/*.rs")):
    tmp = tempfile.mkdtemp()
    drv, e = check.driver()
    out = os.path.join(tmp, "d.json")
    e = dict(e, MIRDUMP_CRATE="idioms", MIRDUMP_OUT=out)
    r = subprocess.run([drv, "rustc", "--crate-name", "idioms", "--crate-type", "lib", "--edition", "2021", "--emit=metadata", "--out-dir", tmp, "-Coverflow-checks=on", "-Cdebug-assertions=on", f], env=e, capture_output=True, text=True)
    if r.returncode: sys.exit(r.stderr[-3000:])
    from absint import Prog
    p = Prog(out)
    roots = {r["name"]: r for r in p.roots if r["pub"]}
    for k, ra in sorted(roots.items()):
        if not k.endswith("_a"): continue
        rb = roots[k[:-1] + "b"]
        if want and k[:-2] not in want: continue
        n += 1
        t = time.time()
        m = Model(p, order=os.environ.get("ORDER", "bitwise"))
        st = St({}, 1)
        args = [m.it.sym(x, ("arg", i)) for i, x in enumerate(ra["ins"])]
        oa, ob = m.run(ra, args, st), m.run(rb, args, st)
        msg = []
        for nm, o in (("a", oa), ("b", ob)):
            if o.err: msg.append("%s: %s" % (nm, o.err))
            elif o.st.pc != 1: msg.append("%s: returns only when %s" % (nm, m.describe(o.st.pc)))
        if not msg:
            try:
                d = same.diff(m, 1, oa.val, oa.st.c, ob.val, ob.st.c)
                if d: msg.append("differ: %s" % m.describe(d))
            except Exception as x:
                msg.append("diff: %r" % x)
        if msg or time.time() - t > 3:
            bad += bool(msg)
            print("%-14s %4.1fs %s" % (k[:-2], time.time() - t, " | ".join(msg)[:400]))
    shutil.rmtree(tmp)
print(n, "pairs", bad, "bad")

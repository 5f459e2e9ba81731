"""development aid: dump the program once into a directory (VERIF_DUMP_DIR) instead of per check run"""
import sys, os, shutil, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check
out = sys.argv[1]
feats = sys.argv[2:] or [""]
os.makedirs(out, exist_ok=True)
tmp = tempfile.mkdtemp()
c = check.Ctx("X", "quick", tmp)
for f in feats:
    f = "" if f == "-" else f
    shutil.copy(c.dump_path(f), os.path.join(out, "dump%s.json" % ("_" + f if f else "")))
shutil.rmtree(tmp)

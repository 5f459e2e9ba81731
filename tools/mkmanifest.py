"""regenerates MANIFEST.json from the rule registry and the texts below"""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry

TRUST = ("Sound for the type-checked MIR (debug profile, x86_64, default features unless said otherwise) under: the engine's transfer "
         "functions and the summaries of core library functions in engine/natives.py; the documented table in spec/leaves.spec, transcribed "
         "from the Intel SDM / AMD APM by hand. Anything the engine cannot derive is reported, not assumed.")
T = {
 "C01": ("bit-provenance dataflow over MIR (canonical Boolean functions) against a documented leaf table", "Each numeric query of the basic leaves equals its documented field for all register contents. " + TRUST),
 "C02": ("bit-provenance dataflow over MIR against a documented leaf table", "Each flag query equals its one documented bit for all register contents. " + TRUST),
 "C03": ("bit-provenance dataflow over MIR against a documented leaf table", "Each numeric query of the extended leaves equals its documented field for all register contents; 4 known findings (u8 truncation). " + TRUST),
 "C04": ("bit-provenance dataflow over MIR against a documented leaf table", "Each extended flag equals its documented bit, and-ed with the vendor class where AMD-only. " + TRUST),
 "C05": ("guard dataflow: exact condition of Some versus documented support condition", "For every limit, vendor string and feature bit. " + TRUST),
 "C06": ("effect analysis: every CPUID read site with its path condition and leaf/sub-leaf values", "Every read site reachable from a query is shown to be documented and guarded by its support condition. " + TRUST),
 "C08": ("symbolic unrolling of iterator state machines plus an inductive step from an arbitrary cursor", "Exact for the unrolled prefix; the inductive step extends it to every position (cursor < 2^32-1) when the state is a single cursor. " + TRUST),
 "C17": ("bit-provenance dataflow over MIR against documented formulas", "Equality of canonical forms of formula and code for all representable results. " + TRUST),
}
try:
    from texts import T2
    T.update(T2)
except ImportError:
    pass
NA = {
 "C90": "Agreement with physical silicon is a fact about hardware, not about this source; no static argument over the repository can reach it.",
 "C91": "Whether leaves read at different moments describe one core depends on the scheduler and the hardware; the library performs no pinning, so the source holds nothing that decides it.",
 "C92": "Terminal layout is computed at run time by the external termimad crate from the actual terminal width; not decidable from this source.",
}
checks = []
for pid in sorted(registry.RULES):
    if pid not in T:
        continue
    t, n = T[pid]
    checks.append(dict(property=pid, quick_cmd="python3 check.py %s" % pid, thorough_cmd="python3 check.py %s --tier thorough" % pid,
                       evidence_file="evidence/%s.json" % pid, technique=t, level="other", level_note=n))
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
have = {c["property"] for c in checks}
na = [dict(property=i, reason=NA.get(i, "not claimed yet: its rule is still being built")) for i in ids if i not in have]
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
               notes="All checks are static: they dump the type-checked MIR of /repo's working tree with a rustc driver and decide on that dump."),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

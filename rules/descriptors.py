"""What the Intel SDM (CPUID leaf 2, table of descriptors) says each descriptor number means, and how much of it a
description states: what it describes, at which level, and its sizes, ways, line sizes and entry counts.  Wording and order
are free."""
import os
import re

SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "descriptors.spec")
WORDS = ("instruction", "data", "trace", "utlb", "dtlb", "prefetch", "shared", "fully")
TOKEN = re.compile(r"(\d+(?:\.\d+)?)[ -]*(way|byte|lines?|entr|st\b|nd\b|rd\b|k|m|g)|" + "|".join(WORDS))
SPARE = {"fully", "shared"}  # stated by words of free choice


def facts(text):
    out = []
    for m in TOKEN.finditer(text.lower()):
        out.append(m.group(1) + {"lines": "line"}.get(m.group(2), m.group(2)) if m.group(1) else m.group(0))
    return sorted(f for f in out if f not in SPARE)


def load():
    """number -> (types, facts that must be stated, facts that may be)"""
    out = {}
    with open(SPEC) as f:
        for l in f:
            l = l.split("#")[0].strip()
            if l:
                n, ty, *fs = l.split()
                may = [x[1:-1] for x in fs if x[0] == "["]
                must = facts(" ".join(x for x in fs if x[0] != "["))
                out[int(n, 16)] = (ty.split("|"), must, may)
    return out


def states(fs, must, may):
    """do the facts fs of a description state the documented ones, and nothing else"""
    rest = list(fs)
    for x in must:
        if x not in rest:
            return "does not state %s" % x
        rest.remove(x)
    for x in may:
        if x in rest:
            rest.remove(x)
    return "states %s" % ", ".join(rest) if rest else None

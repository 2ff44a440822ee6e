"""Writes MANIFEST.json from the rule registry."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(30000)
from kpsa import rules
from kpsa.lib import RULES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C35": "Equality of a table-driven block cipher with the Twofish standard for every key and block is a statement about computed values; no structural rule over the source decides it without executing the code or handing it to a solver.",
 "C36": "Character-for-character preservation depends on lxml/libxml2's native parser and serialiser (for example carriage returns and control characters), which is not part of this source tree.",
}
GEN = "static analysis: abstract interpretation of the source (gated value terms, XPath normal form, effect summaries) compared with the specified behaviour"
NOTE = ("Sound up to the modelled semantics of Python, lxml, construct and the standard library; a construct the analyser cannot model is reported as undecided in the evidence, not as a violation. ")
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(line)
    p = d["id"]
    if p in RULES and p not in NA:
        checks.append({"property": p, "quick_cmd": "python3 -m kpsa.check " + p,
                       "thorough_cmd": "python3 -m kpsa.check %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": rules.TECH.get(p, GEN), "level": "other",
                       "level_note": NOTE + rules.NOTES.get(p, "")})
    else:
        na.append({"property": p, "reason": NA.get(p, "Not claimed: its rules are not built yet.")})
json.dump({"version": 1, "setup_cmd": "python3 -c \"import ast, sys; assert sys.version_info >= (3, 10)\"",
           "checks": checks, "not_applicable": na,
           "notes": "All checks are pure static analysis with the system python3 and its standard library; no code of /repo is imported or run."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

"""Writes DESIGN.md from the rules' own descriptions."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rules = {}
for f in sorted(glob.glob(V + "/kpsa/r_*.py")):
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "rule":
                    for a in d.args:
                        rules.setdefault(a.value, []).append((os.path.basename(f), n.name, " ".join((ast.get_docstring(n) or "").split())))
out = [open(V + "/tools/design_head.md").read()]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    if p["id"] not in rules:
        continue
    out.append("### %s %s\n\nQuantifies over: %s.\n" % (p["id"], p["title"], p["quantifier"]["text"]))
    for f, n, d in rules[p["id"]]:
        out.append("* `%s:%s` %s" % (f, n, d))
    out.append("")
tail = open(V + "/tools/design_tail.md").read()
fx = []
for l in open(V + "/known_findings.txt"):
    if l.startswith("fixed:"):
        _, pid, commit, what = l.strip().split(" ", 3)
        fx.append("* %s %s: %s" % (pid.split("=")[1], commit, what))
sd = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    sd.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"], m["property"]))
out.append(tail.replace("@FIXED@", "\n".join(fx)).replace("@SEEDED@", "\n".join(sd)))
open(V + "/DESIGN.md", "w").write("\n".join(out))

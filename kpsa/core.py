"""Rule infrastructure: obligations, verdicts, evidence, reports."""
import json
import os
import sys
import time

from .terms import *
from .engine import Engine, AnalysisError, Result
from .eqv import equiv, definite, implies, unver
from . import xp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Check:
    def __init__(self, pid, eng, tier="quick"):
        self.pid, self.eng, self.tier = pid, eng, tier
        self.obs = []          # (rule, obligation, verdict, where, detail)
        self.rules = {}

    # ------------------------------------------------------------ verdicts
    def rec(self, rule, what, verdict, where="", detail="", key=None):
        self.obs.append({"rule": rule, "obligation": what, "verdict": verdict, "where": where, "detail": detail,
                         "key": key or (rule + ":" + what)})

    def ok(self, rule, what, detail=""):
        self.rec(rule, what, "holds", "", detail)

    def bad(self, rule, what, where="", detail="", key=None):
        self.rec(rule, what, "violated", where, detail, key)

    def maybe(self, rule, what, detail=""):
        self.rec(rule, what, "undecided", "", detail)

    def verdict(self, rule, what, v, where="", detail="", key=None):
        if v is True:
            self.ok(rule, what)
        elif v is False:
            self.bad(rule, what, where, detail, key)
        else:
            self.maybe(rule, what, detail)
        return v

    # ------------------------------------------------------------ comparing terms
    def same(self, rule, what, actual, expected, where="", facts=None, leaf=None, key=None, strict=False):
        a = actual if strict else unver(actual)
        r, d = equiv(a, expected, facts, leaf)
        if r is False and free_ix(a) - free_ix(expected):
            r = None        # the position at which a search loop stopped
        det = ""
        if r is False:
            f, x, y = d
            cond = ", ".join("%s%s" % ("" if v else "not ", pretty(k)) for k, v in f.items() if isinstance(k, T))
            det = "computes %s where the property needs %s%s" % (
                pretty(x)[:600], pretty(y)[:600], (" (when %s)" % cond[:500]) if cond else "")
        elif r is None:
            det = "not comparable: %s" % pretty(a)[:300]
        return self.verdict(rule, what, r, where, det, key)

    def need(self, rule, what, cond, where="", detail="", key=None):
        return self.verdict(rule, what, cond, where, detail, key)


def free_ix(t):
    """Loop positions that are used outside the loop."""
    out, binders = set(), set()
    for x in subterms(t):
        if x.op == "ix":
            out.add(x.a[0])
        elif x.op in ("comp", "fold", "for", "sorted", "dictcomp"):
            binders.add(x.a[0])
            binders |= {y.a[0] for y in x.a if isinstance(y, T) and y.op == "for"}
    return {x for x in out if x not in binders}


def where_fn(eng, cls, name):
    """file:line of a method for reports."""
    try:
        t = eng.method(cls, name)
    except AnalysisError:
        return "%s.%s" % (cls, name)
    if t.op == "prop":
        t = t.a[0]
    if t.op == "fn":
        clo = eng.base.closures[t.a[0]]
        return "%s:%s %s" % (clo.mod.replace(".", "/") + ".py", clo.node.lineno, clo.qual)
    return "%s.%s" % (cls, name)


# -------------------------------------------------------------------- effects of a call
def effects(res, kinds=("mut", "store", "listmut", "globalmut", "setglobal", "delattr"), ver=False):
    """{effect leaf: condition} of a summary; conditional data is split into its cases."""
    out = {}
    for e in res.ev(*kinds):
        for data, cond in cases(e.data if ver else unver(e.data)):
            k = (e.kind, data, tuple(unver(x) for x in e.loops))
            cnd = conj(unver(e.cond), cond)
            if cnd is FALSE:
                continue
            out[k] = disj(out[k], cnd) if k in out else cnd
    return out


def cases(t, limit=32):
    """Split a term over the ites that gate its top structure."""
    res = []

    def first_ite(x):
        if x.op == "ite":
            return x
        if x.op in ("mut", "tuple", "elem", "E"):
            for y in children(x):
                r = first_ite(y)
                if r is not None:
                    return r
        return None

    def go(t, cond):
        if len(res) > limit:
            res.append((t, cond))
            return
        i = first_ite(t)
        if i is None:
            res.append((t, cond))
            return
        for v in (True, False):
            f = {}
            cc = conj(cond, i.a[0] if v else neg(i.a[0]))
            if cc is FALSE:
                continue
            add_fact(f, i.a[0], v)
            go(simp(t, f), cc)
    go(t, TRUE)
    return res


def eff_str(k):
    kind, data, loops = k
    return "%s %s%s" % (kind, pretty(data)[:400], " for each %s" % pretty(loops)[:200] if loops else "")


# -------------------------------------------------------------------- running a property
def load_known():
    """Committed findings: pid -> {key: text}."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:"):
                rest = line[len("KNOWN-FINDING:"):].strip()
                parts = rest.split(" ", 2)
                pid = parts[0].partition("=")[2]
                key = parts[1].partition("=")[2]
                out.setdefault(pid, {})[key] = parts[2]
    return out


def run(pid, rules, title, explanation, tier):
    t0 = time.time()
    sys.setrecursionlimit(30000)
    try:
        eng = Engine()
        ck = Check(pid, eng, tier)
        for fn in rules:
            n = len(ck.obs)
            try:
                fn(ck)
            except AnalysisError:
                raise
            except RecursionError as e:
                ck.maybe(fn.__name__, "analysis", "recursion limit")
            except Exception as e:
                if os.environ.get("KPSA_DEBUG"):
                    raise
                ck.maybe(fn.__name__, "analysis", "%s: %s" % (type(e).__name__, e))
            ck.rules[fn.__name__] = {"rule": " ".join((fn.__doc__ or "").split()), "obligations": len(ck.obs) - n}
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (pid, e))
        return 2
    except SyntaxError as e:
        print("ANALYSIS-ERROR property=%s cannot parse: %s" % (pid, e))
        return 2
    known = load_known().get(pid, {})
    bad, kn = [], []
    for o in ck.obs:
        if o["verdict"] == "violated":
            (kn if o["key"] in known else bad).append(o)
    held = sum(o["verdict"] == "holds" for o in ck.obs)
    und = [o for o in ck.obs if o["verdict"] == "undecided"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": explanation,
            "obligations": len(ck.obs), "obligations_held": held, "obligations_undecided": len(und),
            "obligations_violated": len(bad), "known_findings": len(kn),
            "summaries_computed": eng.runs, "effects_examined": eng.nevents,
            "functions_analysed": sorted(eng.functions)[:400], "functions_analysed_count": len(eng.functions),
            "rules": ck.rules,
            "undecided": [{"rule": o["rule"], "obligation": o["obligation"], "why": o["detail"][:200]} for o in und][:50],
            "checked": [o["rule"] + ": " + o["obligation"] for o in ck.obs][:600],
        },
        "wall_s": round(time.time() - t0, 3),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s %s: %d obligations, %d hold, %d undecided, %d violated, %d known (%.2fs)" % (
        pid, title, len(ck.obs), held, len(und), len(bad), len(kn), time.time() - t0))
    if os.environ.get("KPSA_VERBOSE"):
        for o in ck.obs:
            print("  [%s] %s: %s %s %s" % (o["verdict"], o["rule"], o["obligation"], o["where"], o["detail"][:1500]))
    for o in kn:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[o["key"]]))
    if bad:
        rp = os.path.join(VERIF, "evidence", pid + ".violation.txt")
        with open(rp, "w") as fh:
            for o in bad:
                fh.write("rule: %s\nobligation: %s\nwhere: %s\n%s\n\n" % (
                    ck.rules.get(o["rule"], {}).get("rule") or o["rule"], o["obligation"], o["where"], o["detail"]))
        for o in bad[:20]:
            print("  %s: %s at %s: %s" % (o["rule"], o["obligation"], o["where"], o["detail"][:700]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0

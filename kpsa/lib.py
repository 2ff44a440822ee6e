"""Shared vocabulary of the rules: queries, scenarios, field writes."""
from .terms import *
from .core import Check, where_fn
from .engine import Engine, AnalysisError
from .eqv import equiv, definite, implies, unver, ungi
from .interp import mkq, ROOT
from .net import Net, eff_str
from . import terms as tm

RULES = {}


def rule(*pids):
    def d(f):
        for p in pids:
            RULES.setdefault(p, []).append(f)
        return f
    return d


# -------------------------------------------------------------------- queries
def child(tag, *preds):
    return ("child", tag, tuple(preds))


def keyed(tag, K):
    """child::tag[Key = K]"""
    return child(tag, ("has", (child("Key", ("teq", c(K) if isinstance(K, str) else K)),)))


def q(base, *steps, mode="first"):
    out = []
    for x in steps:
        if isinstance(x, str):
            out += [child(y) for y in x.split("/")]
        else:
            out.append(x)
    return mkq(base, tuple(out), mode)


def meta(name):
    return mkq(ROOT, (("root", "", ()),) + tuple(child(y) for y in ("KeePassFile", "Meta") + tuple(name.split("/"))), "first")


def rootgroup():
    return mkq(ROOT, (("root", "", ()),) + tuple(child(y) for y in ("KeePassFile", "Root", "Group")), "first")


def text(e):
    return mk(".", e, "text")


def F(*pairs):
    return tm.facts(*pairs)


def missing(x):
    return (isnone(x), True)


def exists(x):
    return (isnone(x), False)


def stored(x):
    """The element's text is there and not empty (a stored time or flag is never the empty string)."""
    return [exists(text(x)), (truthy(text(x)), True)]


def elem_of(o):
    return o.a[1]


KDBX3, KDBX4 = (3, 1), (4, 0)
VERSIONS = (KDBX3, KDBX4)
UTC = ext("datetime.timezone.utc")
NOW = mk("now")


# -------------------------------------------------------------------- element terms
def kids(e, f=None):
    """Children of a newly built element under facts; None when not determined."""
    out = []
    if e.op != "elem":
        return None
    for x in e.a[2]:
        if x.op == "gi":
            g = truthy(simp(x.a[0], f or {}))
            d = decide(g, f or {}) if g.op != "c" else bool(cv(g))
            if d is None:
                return None
            if d:
                out.append(x.a[1])
        elif x.op == "star":
            return None
        else:
            out.append(x)
    return out


def tag(e):
    return cv(e.a[0]) if e.op == "elem" and e.a[0].op == "c" else None


def attrs(e):
    return {cv(k) if k.op == "c" else k: v for k, v in e.a[1]}


def cases_of(t, f=None):
    """(facts, leaf) pairs of a conditional term."""
    out = []

    def go(t, f, n):
        t = ungi(simp(t, f), f)
        from .eqv import cond_atom
        at = None
        for x in subterms(t):
            if x.op in ("ite", "gi"):
                at = cond_atom(t)
                break
        if at is None or n > 12 or len(out) > 256:
            out.append((f, t))
            return
        for v in (True, False):
            g = dict(f)
            add_fact(g, at, v)
            go(t, g, n + 1)
    go(t, dict(f or {}), 0)
    return out


# -------------------------------------------------------------------- field writes
class Write:
    """What a setter does to one field in one scenario: list of (cond, value, protection)."""

    def __init__(self):
        self.bad, self.unsure, self.writes = [], [], []


KEEP = s("<unchanged>")


def field_write(net, owner, target, value_of_new, value_elem, present):
    """target: the term of the field's element; value_of_new(elem) -> (value, prot) or None if the new element is
    not this field's; value_elem: element carrying the value when the field exists."""
    w = Write()
    D = A = S = FALSE
    A_ = []
    for k, cnd in net.eff.items():
        kind = k[0]
        if kind == "detach" and (k[1] is target) and not k[-1]:
            D = disj(D, cnd)
            continue
        if kind == "attach" and k[1] is owner and not k[-1]:
            r = value_of_new(k[2])
            if r is not None:
                A = disj(A, cnd)
                A_.append((cnd,) + r)
                continue
        if kind == "text" and k[1] is value_elem and not k[-1]:
            S = disj(S, cnd)
            w.writes.append([cnd, k[2], KEEP])
            continue
        if kind == "attr" and k[1] is value_elem and is_c(k[2], "Protected") and not k[-1]:
            w.writes.append([cnd, None, k[3]])
            continue
        if kind == "delattr" and k[1] is value_elem and is_c(k[2], "Protected"):
            w.writes.append([cnd, None, NONE])
            continue
        (w.bad if all(definite(x) for x in k if isinstance(x, T)) else w.unsure).append("also changes: " + eff_str(k))
    for cnd, v, p in A_:
        w.writes.append([cnd, v, p])
    f = net.facts

    def chk(a, b, msg):
        r, d = equiv(a, b, f)
        if r is False:
            w.bad.append(msg)
        elif r is None:
            w.unsure.append(msg)
    if present:
        chk(D, A, "the old element and the new one do not replace each other: removed when %s, added when %s" % (
            pretty(D)[:200], pretty(A)[:200]))
        chk(conj(A, S), FALSE, "the field is written twice")
        chk(disj(A, S), TRUE, "the value is not stored (stored only when %s)" % pretty(disj(A, S))[:300])
    else:
        chk(A, TRUE, "the value is not stored when the field does not exist yet (stored only when %s)" % pretty(A)[:300])
        if S is not FALSE:
            chk(S, FALSE, "writes to a missing element")
    return w


def string_new(K):
    K = c(K) if isinstance(K, str) else K

    def f(e):
        if tag(e) != "String":
            return None
        ks = kids(e)
        if ks is None or e.a[1]:
            return None
        d = {tag(x): x for x in ks}
        if set(d) != {"Key", "Value"} or len(ks) != 2:
            return None
        if unstr_(text_of(d["Key"])) is not unstr_(K) or d["Key"].a[1]:
            return None
        at = attrs(d["Value"])
        if set(at) - {"Protected"} or d["Value"].a[2]:
            return None
        return text_of(d["Value"]), at.get("Protected", NONE)
    return f


def text_of(e):
    return e.a[3]


def unstr_(t):
    return t.a[0] if t.op == "str" else t


def sub_new(t):
    def f(e):
        if tag(e) != t or e.a[1] or e.a[2]:
            return None
        return text_of(e), NONE
    return f


def report(ck, rule, what, w, where):
    if w.bad:
        ck.bad(rule, what, where, "; ".join(w.bad)[:1200])
        return False
    if w.unsure:
        ck.maybe(rule, what, "; ".join(w.unsure)[:400])
        return None
    return True


def no_raise(ck, rule, what, net, where):
    """The call does not raise in this scenario."""
    r = net.raising()
    if r is FALSE:
        return True
    v, d = equiv(r, FALSE, net.facts)
    if v is False:
        ck.bad(rule, what, where, "raises %s when %s" % (
            "/".join(map(str, net.raises)), pretty(simp(r, net.facts))[:400]))
    elif v is None:
        ck.maybe(rule, what, "may raise: " + pretty(r)[:200])
    return v


def same_effect(kk, expected, seen, facts):
    """The expected effect this one is another spelling of."""
    if kk in expected:
        return kk
    for ek in expected:
        if ek in seen or len(ek) != len(kk) or ek[0] != kk[0]:
            continue
        for a, b in zip(kk, ek):
            if a is b or a == b:
                continue
            if not (isinstance(a, T) and isinstance(b, T) and equiv(a, b, facts)[0] is True):
                break
        else:
            return ek
    return kk


def only(ck, rule, what, net, expected, where, extra_ok=None):
    """The net effects are exactly `expected` (dict effect-without-loops -> condition)."""
    seen = set()
    res = True
    for k, cnd in net.eff.items():
        kk = k[:-1] if not k[-1] else k
        kk = same_effect(kk, expected, seen, net.facts)
        if extra_ok and extra_ok(k):
            continue
        if kk in expected:
            seen.add(kk)
            r, d = equiv(cnd, expected[kk], net.facts)
            if r is not True:
                res = r if res is True else res
                if r is False:
                    ck.bad(rule, what, net.where.get(k, where), "%s happens when %s, needed when %s" % (
                        eff_str(k), pretty(cnd)[:300], pretty(expected[kk])[:300]))
                else:
                    ck.maybe(rule, what, eff_str(k))
            continue
        r, _ = equiv(cnd, FALSE, net.facts)
        if r is True:
            continue
        if all(definite(x) for x in k if isinstance(x, T)) and definite(cnd):
            res = False
            ck.bad(rule, what, net.where.get(k, where), "unexpected effect: %s when %s" % (eff_str(k), pretty(cnd)[:300]))
        else:
            res = None if res is True else res
            ck.maybe(rule, what, "unclassified effect: " + eff_str(k))
    for kk, cnd in expected.items():
        if kk in seen:
            continue
        r, _ = equiv(cnd, FALSE, net.facts)
        if r is True:
            continue
        # an effect the analysis could not classify may be the missing one
        if res is None or net.unknowns:
            ck.maybe(rule, what, "missing effect " + " ".join(pretty(x) for x in kk if isinstance(x, T))[:200])
            res = None if res is True else res
        else:
            ck.bad(rule, what, where, "missing effect: %s when %s" % (
                " ".join(pretty(x)[:300] if isinstance(x, T) else str(x) for x in kk), pretty(cnd)[:300]))
            res = False
    if res is True:
        ck.ok(rule, what)
    return res


def qx(base, path, mode="first"):
    """Expected query given as XPath text."""
    from . import xp
    return mkq(base, xp.parse(c(path) if isinstance(path, str) else path), mode)

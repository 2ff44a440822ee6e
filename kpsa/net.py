"""Net effect of a call on the document, canonicalised.

Every way of spelling an edit (remove through the parent, replace, a move by
append, attribute dictionary or set(), assignment of .text) is reduced to one
vocabulary:

  detach X            X leaves the tree
  attach P X pos      new element X becomes a child of P
  move P X pos        existing element X becomes a child of P
  text X v / attr X k v / delattr X k
  field O name v      attribute of a Python object
  raw ...             anything else, kept verbatim
"""
from .terms import *
from .core import cases, effects
from .eqv import unver, equiv, implies, definite, ungi


CLASSNAMES = {}
ROLES = set()            # attributes of the database object with a meaning (file, credentials, parsed database)
VIEW = {"_element", "_kp"}


def bookkeeping(d):
    """An assignment to a private attribute of the library's own objects: it changes nothing in the database. Whether what
    is kept there is read back later is C13's question."""
    if d.op == "tuple" and len(d.a) >= 2 and isinstance(d.a[1], T) and d.a[1].op == "c":
        o, nm = d.a[0], cv(d.a[1])
        if o is s("kp"):
            return nm not in ROLES
        if o.op == "wrap":
            return nm not in VIEW
        return o.op == "cls"
    return False


class Net:
    def __init__(self, res, facts=None, noexc=True):
        self.res = res
        self.facts = dict(facts or {})
        self.unknowns = res.unknowns
        if noexc:
            ts = [res.value] + [e.data for e in res.events] + [g[0] for e in res.events for g in e.guards]
            for t in ts:
                for x in subterms(t):
                    if x.op == "exc":
                        self.facts[x] = False
        self.eff = {}          # effect tuple -> condition
        self.where = {}
        self.loops = {}
        self.value = simp(unver(res.value), self.facts)
        for e in res.ev("mut", "store", "listmut", "globalmut", "setglobal", "delattr"):
            for data, cond in cases(unver(e.data)):
                cnd = simp(conj(unver(e.cond), cond), self.facts)
                if cnd is FALSE:
                    continue
                data = simp(data, self.facts)
                if any(x.op == "gi" for x in subterms(data)):
                    fc = dict(self.facts)
                    add_fact(fc, cnd, True)
                    data = ungi(data, fc)
                if e.kind in ("store", "delattr") and bookkeeping(data):
                    continue
                loops = tuple(simp(unver(x), self.facts) for x in e.loops)
                for k in canon(e.kind, data):
                    k = k + (loops,)
                    self.eff[k] = disj(self.eff[k], cnd) if k in self.eff else cnd
                    self.where.setdefault(k, e.where())
        self.settle()
        self.raises = {}
        for e in res.ev("raise"):
            cnd = simp(unver(e.cond), self.facts)
            if cnd is FALSE or e.caught:
                continue
            nm = excname(unver(e.data))
            self.raises[nm] = disj(self.raises[nm], cnd) if nm in self.raises else cnd
            self.where.setdefault(("raise", nm), e.where())

    def settle(self):
        """Detaching an element that is then attached elsewhere is one move."""
        for k in list(self.eff):
            if k[0] == "move":
                for d in list(self.eff):
                    if d[0] == "detach" and d[1] is k[2] and d[-1] == k[-1] and \
                            self.eff[d] is self.eff[k]:
                        del self.eff[d]

    def of(self, *kinds):
        return {k: v for k, v in self.eff.items() if k[0] in kinds}

    def cond(self, pred):
        return disj(*[v for k, v in self.eff.items() if pred(k)]) if any(pred(k) for k in self.eff) else FALSE

    def raising(self):
        return disj(*self.raises.values()) if self.raises else FALSE

    def show(self):
        return "; ".join("%s if %s" % (eff_str(k), pretty(v)[:150]) for k, v in self.eff.items()) or "no effect"


def excname(t):
    if t.op == "exn":
        return str(t.a[0]).partition("@")[0]
    if t.op == "call" and t.a[0].op == "x":
        return t.a[0].a[0].rpartition(".")[2]
    if t.op == "x":
        return t.a[0].rpartition(".")[2]
    if t.op == "obj":
        return str(t.a[0]).partition("@")[0]
    if t.op in ("newexc", "exc", "inst", "new"):
        return str(t.a[0]).partition("@")[0]
    if t.op == "cls":
        return CLASSNAMES.get(t.a[0], str(t.a[0]))
    return show(t)[:60]


def fresh(x):
    return x.op in ("elem", "copy", "E", "star", "gi")


def canon(kind, data):
    if kind == "store" and data.op == "tuple":
        X, name, v = data.a
        nm = cv(name) if name.op == "c" else show(name)
        if nm == "text":
            return [("text", X, v)]
        return [("field", X, nm, v)]
    if data.op == "mut":
        op, P, args = data.a[0], data.a[1], data.a[2]
        if op == "remove" and len(args) == 1:
            return [detach(P, args[0])]
        if op == "append" and len(args) == 1 and kind == "mut" and (fresh(args[0]) or elemlike(args[0])):
            return [("attach" if fresh(args[0]) else "move", P, args[0], c("end"))]
        if op == "insert" and len(args) == 2 and kind == "mut" and (fresh(args[1]) or elemlike(args[1])):
            return [("attach" if fresh(args[1]) else "move", P, args[1], args[0])]
        if op == "extend" and len(args) == 1 and args[0].op in ("list", "tuple") and not any(
                x.op in ("star", "gi") for x in args[0].a):
            return [("attach" if fresh(x) else "move", P, x, c("end")) for x in args[0].a]
        if op == "replace" and len(args) == 2:
            return [detach(P, args[0]), ("attach" if fresh(args[1]) else "move", P, args[1], c("at old"))]
        if op == "set" and len(args) == 2:
            return [("attr", P, args[0], args[1])]
        if op in ("attrib.pop",):
            return [("delattr", P, args[0])]
        if op in ("unsetattr", "attrib.del", "delattrib"):
            return [("delattr", P, args[0])]
    return [("raw", kind, data)]


def elemlike(x):
    from .interp import is_elem
    return x.op == "q" or (x.op == "s" and x.a[0].endswith(".elem")) or is_elem(x)


def detach(P, X):
    if P.op == "q" and P.a[0] is X and P.a[1] == (("ancestor", "Group", (("pos", "1"),)),):
        return ("detach", X)
    if P.op == "q" and P.a[2] == "first" and X.op == "iv" and X.a[0].op == "q" and X.a[0].a[0] is P and \
            len(X.a[0].a[1]) == 1 and X.a[0].a[1][0][0] == "child":
        return ("detach", X)
    if P.op == "q" and P.a[0] is X and P.a[1] == (("parent", "node()", ()),):
        return ("detach", X)
    if X.op == "q":
        if X.a[0] is P and len(X.a[1]) == 1 and X.a[1][0][0] == "child":
            return ("detach", X)
        if P.op == "q" and X.a[0] is P.a[0] and X.a[1][:len(P.a[1])] == P.a[1] and len(X.a[1]) == len(P.a[1]) + 1 \
                and X.a[1][-1][0] == "child" and P.a[2] == "first":
            return ("detach", X)
    if X.op == "iv":
        q = X.a[0]
        if q.op == "q" and q.a[0] is P and len(q.a[1]) == 1 and q.a[1][0][0] == "child":
            return ("detach", X)
        if q.op == "q" and P.op == "q" and q.a[0] is P.a[0] and q.a[1][:-1] == P.a[1] and q.a[1][-1][0] == "child":
            return ("detach", X)
    return ("remove", P, X)


def eff_str(k):
    return " ".join(pretty(x)[:300] if isinstance(x, T) else str(x) for x in k[:-1]) + (
        " for each %s" % pretty(k[-1])[:200] if k[-1] else "")

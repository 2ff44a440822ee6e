"""C15 search criteria, C16 values are data, C17 search scope.

The search methods are analysed down to the XPath query they hand to lxml.
The query is brought into a normal form (xp.py) and compared with the query
the property asks for, for every criterion, pair of criteria and option.
"""
from .lib import *
from .r_time import rewrite
from . import xp

VER = (4, 0)
STRINGS = {"title": "Title", "username": "UserName", "password": "Password", "url": "URL", "notes": "Notes", "otp": "otp"}
CLASS = {"find_entries": "Entry", "find_groups": "Group", "find_attachments": "Attachment"}
TAGS = {"find_entries": "Entry", "find_groups": "Group", "find_attachments": "Binary"}
NAMES = {"find_entries": "entries", "find_groups": "groups", "find_attachments": "attachments"}
SCOPE = {"find_entries": "group", "find_groups": "group", "find_attachments": "element"}


def val(n, ty="str"):
    return mk("nn", s(n + "#" + ty))


def lit(x):
    return x


class Crit:
    """One criterion: the keyword argument and the predicate it stands for ('$a', '$f' are filled in)."""

    def __init__(self, kw, arg, pred, rpred, vars_):
        self.kw, self.arg, self.pred, self.rpred, self.vars = kw, arg, pred, rpred, vars_


def str_crit(kw, where, n):
    a = val(n)
    return Crit(kw, a, where % ".=$%s" % n, where % "re:test(., $%s, $flags)" % n, {n: a})


def criteria(kind):
    out = []
    if kind == "find_entries":
        for kw, key in STRINGS.items():
            out.append(str_crit(kw, "String[Key[.='" + key + "']][Value[%s]]", kw))
        u = mk("nn", s("u"))
        b = mk("b64", mk(".", u, "bytes"))
        out.append(Crit("uuid", u, "UUID[.=$uuid]", "UUID[.=$uuid]", {"uuid": b}))
        t1, t2 = val("tag1"), val("tag2")
        out.append(Crit("tags", mk("list", t1, t2), "Tags[contains(., $tag1)][contains(., $tag2)]",
                        "Tags[contains(., $tag1)][contains(., $tag2)]", {"tag1": t1, "tag2": t2}))
        ts = {"tag%d" % i: val("tag%d" % i) for i in range(1, 13)}
        q_ = "Tags" + "".join("[contains(., $%s)]" % n for n in ts)
        out.append(Crit("tags", mk("list", *ts.values()), q_, q_, ts))
        k, v, k2, v2 = val("key"), val("value"), val("key2"), val("value2")
        out.append(Crit("string", mk("dict", ((k, v), (k2, v2))),
                        "String[Key[.=$key]][Value[.=$value]] and String[Key[.=$key2]][Value[.=$value2]]",
                        "String[Key[.=$key]][Value[re:test(., $value, $flags)]] and "
                        "String[Key[.=$key2]][Value[re:test(., $value2, $flags)]]",
                        {"key": k, "value": v, "key2": k2, "value2": v2}))
        out.append(str_crit("autotype_sequence", "AutoType/DefaultSequence[%s]", "seq"))
        out.append(str_crit("autotype_window", "AutoType/Association/Window[%s]", "win"))
        for b in (True, False):
            out.append(Crit("autotype_enabled", c(b), "AutoType/Enabled[.='%s']" % b,
                            "AutoType/Enabled[re:test(., '%s', $flags)]" % b, {}))
    elif kind == "find_groups":
        out.append(str_crit("name", "Name[%s]", "name"))
        out.append(str_crit("notes", "Notes[%s]", "notes"))
        u = mk("nn", s("u"))
        b = mk("b64", mk(".", u, "bytes"))
        out.append(Crit("uuid", u, "UUID[.=$uuid]", "UUID[.=$uuid]", {"uuid": b}))
    else:
        out.append(str_crit("filename", "Key[%s]", "filename"))
        i = val("id", "int")
        out.append(Crit("id", i, "Value[@Ref=$id]", "Value[re:test(@Ref, $id, $flags)]", {"id": i}))
    return out


# -------------------------------------------------------------------- canonical queries
NOHIST = ("not", (("has", (("ancestor", "History", ()),)),))
KNOWNP = {"teq", "seq", "aeq", "acmp", "tcmp", "scmp", "re:test", "contains", "starts-with", "has", "hasattr", "not",
          "pos"}
AXES = {"child", "desc1", "root", "self", "parent", "ancestor", "attr", "desc", "ancestor-or-self", "following",
        "following-sibling", "preceding-sibling", "preceding"}


def nonempty(v):
    if not isinstance(v, T):
        return False
    v = unstr(v)
    if v.op == "c":
        return str(v.a[1]) != ""
    return v.op in ("b64", "int", "len", "ix") or is_bool(v) or (v.op == "nn" and v.a[0].a[0].endswith("#int"))


def unlit(v):
    """the value itself; marks which do not change what is compared are dropped."""
    return unstr(v) if isinstance(v, T) else v


def rawflags(v):
    """A flag argument: only the letters i (ignore case) and g have a meaning."""
    if isinstance(v, T):
        v = unstr(v)
        if v.op == "rawlit":
            return rawflags(v.a[0])
        if v.op == "c":
            return c("i" if isinstance(v.a[1], str) and "i" in v.a[1] else "")
        if v.op == "ite":
            return ite(v.a[0], rawflags(v.a[1]), rawflags(v.a[2]))
    return v


def cpred(p, tag=None):
    k = p[0]
    if k == "teq" and (nonempty(p[1]) or tag == "Key"):
        return ("seq", unlit(p[1]))
    if k in ("teq", "seq"):
        return (k, unlit(p[1]))
    if k == "aeq":
        return (k, p[1], unlit(p[2]))
    if k == "re:test":
        pat, rest = unlit(p[2][0]), p[2][1:]
        if isinstance(pat, T) and is_c(pat, ".*", ""):
            return None
        fl = rawflags(rest[0]) if rest else c("")
        return (k, p[1] if isinstance(p[1], tuple) else "self", (pat, fl))
    if k in ("contains", "starts-with"):
        return (k, p[1] if isinstance(p[1], tuple) else "self", tuple(unlit(x) for x in p[2]))
    if k == "has":
        return ("has", cpath(p[1], inner=True))
    if k == "not":
        inner = tuple(x for x in (cpred(x) for x in p[1]))
        if None in inner:
            return ("unk", "not always true")
        if inner == (("has", (("parent", "History", ()),)),) and tag == "Entry":
            return NOHIST
        return ("not", inner)
    if k == "or":
        return ("or", tuple(tuple(cpred(x) for x in alt) for alt in p[1]))
    return p


def cpath(path, inner=False):
    out = []
    for st in path:
        a, t = st[0], st[1]
        if a == "union":
            return path
        ps = [x for x in (cpred(x, t) for x in st[2]) if x is not None]
        ps = [x for x in ps if not (t == "Group" and x == NOHIST)]
        # an element that is compared exists; Tags[a] and Tags[b] of the single Tags child are one test
        out.append((a, t, tuple(sorted(set(ps), key=tm.show))))
    # /KeePassFile/Root//X is //X, //Group/Entry are the entries outside of histories
    if [x[:2] for x in out[:3]] == [("root", ""), ("child", "KeePassFile"), ("child", "Root")] and len(out) > 3 \
            and out[3][0] == "desc1":
        out[1:3] = []
    i = 0
    while i + 1 < len(out):
        (a, t, p), (a2, t2, p2) = out[i], out[i + 1]
        if a == "desc1" and a2 == "child" and t == "Group" and t2 == "Entry" and not p and i == 1 and out[0][0] == "root":
            out[i:i + 2] = [("desc1", t2, tuple(sorted(set(p2 + (NOHIST,)), key=tm.show)))]
            continue
        if a == "desc1" and a2 == "child" and t == "Entry" and t2 == "Binary" and set(p) <= {NOHIST}:
            out[i:i + 2] = [("desc1", t2, tuple(sorted(set(p2 + p + (("has", (child("Key"),)),)), key=tm.show)))]
            continue
        i += 1
    return tuple(out)


def merge_single(path):
    """Tags[a] and Tags[b]: an entry has one Tags child, the two tests are one."""
    out = []
    for a, t, ps in path:
        rest, tags = [], []
        for p in ps:
            if p[0] == "has" and len(p[1]) == 1 and p[1][0][:2] == ("child", "Tags"):
                tags += p[1][0][2]
            else:
                rest.append(p)
        if tags:
            rest.append(("has", (("child", "Tags", tuple(sorted(set(tags), key=tm.show))),)))
        out.append((a, t, tuple(sorted(set(rest), key=tm.show))))
    return tuple(out)


ATTACHED = tuple(xp.parse(c("//Binary[%s]" % x))[-1][2][0] for x in (
    "parent::Entry", "not(parent::Binaries)", "not(ancestor::Binaries)", "not(ancestor::Meta)", "ancestor::Root", "Value"))


def keyed_only(path):
    """Binary[Key[..]]: comparing Key with anything implies it exists; what has a Key is an attachment, and only these
    are below entries and groups."""
    out = []
    hk = ("has", (child("Key"),))
    for a, t, ps in path:
        if t == "Binary":
            ps = tuple(hk if p in ATTACHED else p for p in ps)
            ps = tuple(p for i, p in enumerate(ps) if p != hk or hk not in ps[:i])
        below = t == "Binary" and (path[0][0] != "root" or a == "child")
        if hk in ps and (below or any(p != hk and p[0] == "has" and p[1][0][:2] in (("child", "Key"), ("child", "Value"))
                                      for p in ps)):
            ps = tuple(p for p in ps if p != hk)
        out.append((a, t, ps))
    return tuple(out)


def canonq(nf):
    return keyed_only(merge_single(cpath(nf)))


def canon(t):
    def f(x):
        if x.op == "q":
            return mk("q", x.a[0], canonq(x.a[1]), *x.a[2:])
        if x.op == "truthy" and x.a[0].op == "q" and len(x.a[0].a) > 2 and x.a[0].a[2] == "all":
            return neg(isnone(mk("q", x.a[0].a[0], x.a[0].a[1], "first")))
        return x
    return rewrite(t, f)


def fuzzy(t):
    """why a query could not be understood completely (None: it was)."""
    def pred(p):
        if p[0] == "or":
            return None
        if p[0] not in KNOWNP:
            return "predicate " + tm.show(p)[:120]
        for x in holes(p[1:] if p[0] != "has" else ()):
            if True:
                return "query text computed from " + pretty(x)[:120]
        if p[0] in ("not",):
            return next(filter(None, map(pred, p[1])), None)
        if p[0] == "has":
            return path(p[1])
        return None

    def path(nf):
        for a, tst, ps in nf:
            if a not in AXES:
                return "path step " + str(a)
            for p in ps:
                r = pred(p)
                if r:
                    return r
        return None
    for x in subterms(t):
        if x.op == "badq":
            return "malformed or not understood query " + pretty(x)[:160]
        if x.op == "q":
            r = path(x.a[1])
            if r:
                return r
    return None


def literals(t):
    """(value, raw) of everything compared in the queries of t."""
    out = []

    def walk(x):
        if isinstance(x, tuple):
            for y in x:
                walk(y)
        elif isinstance(x, T):
            out.append(x)
    for x in subterms(t):
        if x.op == "q":
            walk(x.a[1])
    return out


# -------------------------------------------------------------------- running a search
def payload(eng):
    return mk(".", mk(".", s("kdbx"), "body"), "payload")


class Run:
    def __init__(self, eng, name, kw, facts=(), args=()):
        ip = eng.new(VER, opaque=False)
        ip.push(isnone(payload(eng)), False)
        facts = list(facts) + [(cmp("==", val("key"), val("key2")), False)]
        for a, b in facts:
            ip.push(a, b)
        self.res = eng.kp_call(name, list(args), kw, VER, ip=ip)
        f = {}
        add_fact(f, isnone(payload(eng)), False)
        for a, b in facts:
            add_fact(f, a, b)
        self.net = Net(self.res, f)
        self.facts = self.net.facts
        self.value = self.net.value


def expected(kind, crits, regex, base, recursive, history, first, flags):
    vars_ = {"flags": flags if flags is not None else c("")}
    path = ("" if base is None else ".") + ("//" if recursive else "/") + TAGS[kind]
    if kind == "find_attachments":
        path += "[Key]"     # KDBX3 keeps the binaries themselves in Meta/Binaries/Binary
    if not history:
        path += "[not(ancestor::History)]"
    for cr in crits:
        path += "[" + (cr.rpred if regex else cr.pred) + "]"
        vars_.update(cr.vars)
    nf = xp.parse(c(path), vars_)
    return wrapped(CLASS[kind], ROOT if base is None else base, nf, first)


def wrapped(cls, base, nf, first):
    if first:
        q1 = mkq(base, nf, "first")
        return canon(ite(isnone(q1), NONE, mk("wrap", cls, q1)))
    qa = mkq(base, nf, "all")
    return canon(mk("comp", qa, TRUE, mk("wrap", cls, mk("iv", qa))))


def norm_result(t):
    """[f(x) for x in Q][0] if any: spelled like the first-match form; canonical queries."""
    def f(x):
        # a list comprehension without a condition over a query result
        if x.op == "at" and x.a[0].op == "comp" and len(x.a) > 1 and is_c(x.a[1], 0):
            qq, cond, body = x.a[0].a[:3]
            if cond is TRUE and qq.op == "q":
                return subst(body, {mk("iv", qq): mk("q", qq.a[0], qq.a[1], "first")})
        return x
    return canon(rewrite(canon(rewrite(t, f)), noneid))


def noneid(x):
    """None if x is None else x"""
    if x.op == "ite" and x.a[1] is NONE and x.a[0] is isnone(x.a[2]):
        return x.a[2]
    if x.op == "ite" and x.a[2] is NONE and x.a[0] is neg(isnone(x.a[1])):
        return x.a[1]
    return x


def judge(ck, rule_, what, run, exp, w):
    """Compare a search result with the expected one."""
    act = norm_result(run.value)
    act = simp(act, run.facts)
    r = no_raise(ck, rule_, what, strict_raises(run), w)
    if r is False:
        return False
    fz = fuzzy(act)
    v, d = equiv(act, exp, run.facts)
    if v is True:
        ck.ok(rule_, what)
        return True
    det = "searches %s where the property needs %s" % (query_text(act), query_text(exp))
    if v is False and fz is None and shape(act):
        ck.bad(rule_, what, w, det)
        return False
    for x in subterms(act):
        if x.op == "call" and x.a[0].op == "x" and x.a[0].a[0] in ("builtins.dict.fromkeys", "builtins.set", "builtins.frozenset") and x.a[1] \
                and x.a[1][0].op == "comp" and x.a[1][0].a[2].op == "wrap" and x.a[1][0].a[2].a[0] in ("Entry", "Group"):
            ck.bad(rule_, what, w, "drops objects that are equal (same UUID, as an entry and its history items)")
            return False
    ck.maybe(rule_, what, (fz or "result not comparable") + ": " + pretty(act)[:200])
    return None


def shape(t):
    """Only constructs whose meaning is modelled: conditions, query results, wrapped elements."""
    for x in subterms(t):
        if x.op == "comp" and x.a[1] is not TRUE:
            return False
        if x.op in ("unk", "unknown", "call", "catcomp", "bot"):
            return False
    return True


def strict_raises(run):
    n = run.net
    # an attachment that is not below an entry cannot be cast: depends on the document
    n.raises = {k: simp(v, run.facts) for k, v in n.raises.items() if not has_op(v, "iv")
                and not any(x.op == "." and x.a[1] == "tag" for x in subterms(v))}
    return n


def query_text(t):
    qs = [x for x in subterms(t) if x.op == "q"]
    qs = [x for x in qs if x.a[2] == "all"] or qs
    return pretty(qs[0])[:500] if qs else pretty(t)[:500]


def where(ck, kind):
    return where_fn(ck.eng, "PyKeePass", kind)


# -------------------------------------------------------------------- C15
@rule("C15")
def one_criterion(ck):
    """For every search keyword, with and without regex and flags: the XPath normal form of the query the search evaluates (symbolic value) equals the normal form of 'elements of that kind whose named field equals (or matches) the value', and nothing else filters it."""
    for kind in CLASS:
        for cr in criteria(kind):
            nm = cr.kw if cr.kw != "autotype_enabled" else "%s=%s" % (cr.kw, cv(cr.arg))
            for regex in (False, True):
                for flags in ((None,) if not regex else (None, s("flags#str"))):
                    kw = {cr.kw: cr.arg}
                    if regex:
                        kw["regex"] = TRUE
                    if flags is not None:
                        kw["flags"] = mk("nn", flags)
                    run = Run(ck.eng, kind, kw)
                    exp = expected(kind, [cr], regex, None, True, False, False, mk("nn", flags) if flags is not None else None)
                    what = "%s(%s%s%s) compares exactly that field" % (
                        kind, nm, ", regex" if regex else "", ", flags" if flags is not None else "")
                    if cr.arg.op == "nn" and fuzzy(norm_result(run.value)) is not None:
                        # a value that is treated differently when it is empty
                        for b in (True, False):
                            judge(ck, "criterion", what + (", given text" if b else ", empty text"),
                                  Run(ck.eng, kind, kw, [(truthy(cr.arg), b)]), exp, where(ck, kind))
                        continue
                    judge(ck, "criterion", what, run, exp, where(ck, kind))


@rule("C15")
def combined_criteria(ck):
    """For every ordered pair of keywords (and all together): the query's predicates are the conjunction of the two single predicates, in any order, neither lost nor widened."""
    for kind in CLASS:
        cs = criteria(kind)
        for i, a in enumerate(cs):
            for b in cs:
                if a.kw == b.kw:
                    continue
                run = Run(ck.eng, kind, {a.kw: a.arg, b.kw: b.arg})
                judge(ck, "conjunction", "%s(%s, %s) requires both" % (kind, a.kw, b.kw), run,
                      expected(kind, [a, b], False, None, True, False, False, None), where(ck, kind))
        one = list({x.kw: x for x in cs}.values())
        for regex in (False, True):
            for order in (one, one[::-1]):
                kw = {x.kw: x.arg for x in order}
                fl = None
                if regex:
                    fl = mk("nn", s("flags#str"))
                    kw.update(regex=TRUE, flags=fl)
                run = Run(ck.eng, kind, kw)
                judge(ck, "conjunction", "%s(all criteria%s%s) requires all" % (
                    kind, ", regex" if regex else "", ", reversed" if order is not one else ""), run,
                    expected(kind, order, regex, None, True, False, False, fl), where(ck, kind))


@rule("C15")
def none_is_ignored(ck):
    """A keyword given as None leaves the query of the remaining keywords unchanged."""
    for kind in CLASS:
        cs = list({x.kw: x for x in criteria(kind)}.values())
        for regex in (False, True):
            for i, a in enumerate(cs):
                b = cs[(i + 1) % len(cs)]
                for pos in (0, 1):
                    items = [(a.kw, NONE), (b.kw, b.arg)]
                    kw = dict(items if pos == 0 else items[::-1])
                    if regex:
                        kw["regex"] = TRUE
                    run = Run(ck.eng, kind, kw)
                    judge(ck, "None", "%s(%s=None, %s%s%s) ignores the None" % (
                        kind, a.kw, b.kw, ", regex" if regex else "", ", last" if pos else ""), run,
                        expected(kind, [b], regex, None, True, False, False, None), where(ck, kind))


@rule("C15")
def unknown_keyword(ck):
    """A keyword the search does not know raises instead of being ignored."""
    for kind in CLASS:
        known = {x.kw for x in criteria(kind)}
        others = {x.kw for k in CLASS for x in criteria(k)} - known
        for nm in ["no_such_field"] + sorted(others):
            if kind == "find_attachments" and nm == "group":
                continue
            for v in (val("x"), NONE):
                if v is NONE and nm in ("string", "uuid", "tags"):
                    continue
                if kind != "find_entries" and nm in ("string", "tags", "uuid"):
                    v = {"string": mk("dict", ((val("k"), val("v")),)), "tags": mk("list", val("t")),
                         "uuid": mk("nn", s("u"))}[nm] if v is not NONE else v
                for regex in (False, True):
                    kw = {nm: v}
                    if regex:
                        kw["regex"] = TRUE
                    run = Run(ck.eng, kind, kw)
                    what = "%s(%s=%s%s) is rejected" % (kind, nm, "None" if v is NONE else "..", ", regex" if regex else "")
                    rz = run.net.raising()
                    r, d = equiv(rz, TRUE, run.facts)
                    if run.value.op == "bot" or any(x.op == "badq" and has_op(x, "bot") for x in subterms(run.value)):
                        r = True        # the lookup of the keyword fails
                    elif r is False and not shape(run.value):
                        r = None
                    if r is True:
                        ck.ok("unknown keyword", what)
                    elif r is False:
                        ck.bad("unknown keyword", what, where(ck, kind), "accepted: " + query_text(norm_result(run.value)))
                    else:
                        ck.maybe("unknown keyword", what, pretty(rz)[:200])


# -------------------------------------------------------------------- C17
DEEP = ("descendant", "descendant-or-self", "desc", "desc1")


@rule("C17")
def scopes(ck):
    """For every combination of start element, recursion, history and first: axis, depth, history filter and selection (first in document order or whole list) of the query are the requested ones and results are wrapped in the class of their tag."""
    flagsets = [(h, f) for h in (False, True) for f in (False, True)]
    for kind in CLASS:
        cs = [x for x in criteria(kind) if x.kw in ("title", "name", "filename", "uuid", "id")]
        bases = [(None, True)]
        own = {"find_entries": ("Group",), "find_groups": ("Group",), "find_attachments": ("Entry", "Group")}[kind]
        for b in own:
            bases += [(b, True), (b, False)]
        for b, rec in bases:
            for h, fst in flagsets:
                for crs in ([], cs[:1], cs):
                    for regex in ((False,) if not crs else (False, True)):
                        o = ck.eng.obj(b, "g") if b else None
                        e = mk("s", "g.elem") if False else (elem_of(o) if o is not None else None)
                        kw = {}
                        facts = []
                        if o is not None:
                            kw[SCOPE[kind]] = o
                            facts.append((isnone(e), False))
                        if not rec:
                            kw["recursive"] = FALSE
                        if h:
                            kw["history"] = TRUE
                        if fst:
                            kw["first"] = TRUE
                        if regex:
                            kw["regex"] = TRUE
                        for x in crs:
                            kw[x.kw] = x.arg
                        run = Run(ck.eng, kind, kw, facts)
                        if kind == "find_attachments" and not crs:
                            if not any(x.op in ("comp", "wrap") for x in subterms(run.value)):
                                pass
                        judge(ck, "scope", "%s(%s)" % (kind, ", ".join(
                            [x.kw for x in crs] + (["regex"] if regex else []) + (["in a " + b] if b else []) +
                            ([] if rec else ["not recursive"]) + (["history"] if h else []) + (["first"] if fst else []))),
                            run, expected(kind, crs, regex, e, rec, h, fst, None), where(ck, kind))
        for crs in ([], cs[:1]):
            kw = {x.kw: x.arg for x in crs}
            kw["recursive"] = FALSE
            run = Run(ck.eng, kind, kw)
            qs = [x for x in subterms(unver(run.value)) if x.op == "q"]
            deep = [x for x in qs if isinstance(x.a[1], tuple) and x.a[1] and x.a[1][-1][0] in DEEP]
            what = "%s(%s) without a start element does not descend" % (kind, ", ".join([x.kw for x in crs] + ["not recursive"]))
            if deep:
                ck.bad("scope", what, where(ck, kind), "looks at all levels: " + query_text(deep[0])[:200])
            elif qs:
                ck.ok("scope", what)
            else:
                ck.maybe("scope", what, pretty(run.value)[:200])
        # options given explicitly with their default value change nothing
        run = Run(ck.eng, kind, {"recursive": TRUE, "history": FALSE, "first": FALSE, "regex": FALSE, "path": NONE,
                                 SCOPE[kind]: NONE, "flags": NONE})
        judge(ck, "scope", "%s(defaults given explicitly)" % kind, run,
              expected(kind, [], False, None, True, False, False, None), where(ck, kind))


@rule("C17")
def paths(ck):
    """Paths of 0 to 3 elements, plain and regex: the query descends from the root group one child level per element, each compared with its own element; the last one selects the entry or group."""
    for kind in ("find_groups", "find_entries"):
        for n in range(0, 4):
            if kind == "find_entries" and n == 0:
                continue
            for regex in (False, True):
                for extra in ({}, {"first": FALSE}, {"first": TRUE}, {"history": TRUE}, {"recursive": FALSE}):
                    if regex and extra:
                        continue
                    for con in ("list", "tuple"):
                        if con == "tuple" and (extra or not n):
                            continue
                        parts = [val("p%d" % i) for i in range(n)]
                        facts = [(truthy(x), True) for x in parts]
                        kw = {"path": mk(con, *parts)}
                        fl = None
                        if regex:
                            fl = mk("nn", s("flags#str"))
                            kw.update(regex=TRUE, flags=fl)
                        kw.update(extra)
                        run = Run(ck.eng, kind, kw, facts)
                        path = "/KeePassFile/Root/Group"
                        vs = {"flags": fl if fl is not None else c("")}
                        for i, x in enumerate(parts):
                            vs["p%d" % i] = x
                            m = ("re:test(., $p%d, $flags)" if regex else ".=$p%d") % i
                            if i == n - 1 and kind == "find_entries":
                                path += "/Entry[String[Key[.='Title']][Value[%s]]]" % m
                            else:
                                path += "/Group[Name[%s]]" % m
                        exp = wrapped(CLASS[kind], ROOT, xp.parse(c(path), vs), True)
                        judge(ck, "path", "%s(path of %d elements%s%s%s)" % (
                            kind, n, ", regex" if regex else "", ", tuple" if con == "tuple" else "",
                            "".join(", %s=%s" % (k, pretty(v)) for k, v in extra.items())),
                            run, exp, where(ck, kind))
        # an empty name is a name
        for parts in ([c(""), val("p1")], [val("p0"), c(""), val("p2")]) + (([val("p0"), c("")],) if kind == "find_entries" else ()):
            vs = {"p%d" % i: x for i, x in enumerate(parts)}
            path = "/KeePassFile/Root/Group"
            for i, x in enumerate(parts):
                if i == len(parts) - 1 and kind == "find_entries":
                    path += "/Entry[String[Key[.='Title']][Value[.=$p%d]]]" % i
                else:
                    path += "/Group[Name[.=$p%d]]" % i
            run = Run(ck.eng, kind, {"path": mk("list", *parts)}, [(truthy(x), True) for x in parts if x.op != "c"])
            judge(ck, "path", "%s(path %s with an empty name)" % (kind, "/".join("p" if x.op != "c" else "" for x in parts)), run,
                  wrapped(CLASS[kind], ROOT, xp.parse(c(path), vs), True), where(ck, kind))
    run = Run(ck.eng, "find_groups", {"path": c("")})
    judge(ck, "path", "find_groups(path='') is the root group", run,
          wrapped("Group", ROOT, xp.parse(c("/KeePassFile/Root/Group")), True), where(ck, "find_groups"))


@rule("C17")
def listings(ck):
    """entries, groups and attachments are the complete recursive lists without history."""
    for nm, cls, path in (("entries", "Entry", "//Entry[not(ancestor::History)]"), ("groups", "Group", "//Group"),
                          ("attachments", "Attachment", "//Binary[Key][not(ancestor::History)]")):
        run = Run(ck.eng, nm, {})
        judge(ck, "listing", "kp.%s is the complete list" % nm, run, wrapped(cls, ROOT, xp.parse(c(path)), False),
              where(ck, nm))
    run = Run(ck.eng, "root_group", {})
    judge(ck, "listing", "kp.root_group is the top group", run,
          wrapped("Group", ROOT, xp.parse(c("/KeePassFile/Root/Group")), True), where(ck, "root_group"))


@rule("C17")
def raw_queries(ck):
    """PyKeePass.xpath: evaluated at the given element or the whole document, first match or all, cast by tag."""
    if not ck.eng.has_method("PyKeePass", "xpath"):
        return
    g = ck.eng.obj("Group", "g")
    e = elem_of(g)
    for base in (None, e):
        for first in (False, True):
            for path, cls in (("Entry", "Entry"), ("Group", "Group"), ("Times/Expires", None), ("String/Value", None)):
                for cast in ((False, True) if cls else (False,)):
                    pre = ("//" if base is None else ".//")
                    kw = {}
                    facts = []
                    if base is not None:
                        kw["tree"] = base
                        facts.append((isnone(base), False))
                    if first:
                        kw["first"] = TRUE
                    if cast:
                        kw["cast"] = TRUE
                    run = Run(ck.eng, "xpath", kw, facts, args=[c(pre + path)])
                    nf = xp.parse(c(pre + path))
                    b = ROOT if base is None else base
                    if cast:
                        exp = wrapped(cls, b, nf, first)
                    elif first:
                        exp = canon(mkq(b, nf, "first"))
                    else:
                        exp = canon(mkq(b, nf, "all"))
                    act = norm_result(run.value)
                    if not cast and not first and act.op == "comp" and act.a[1] is TRUE and act.a[2] is mk("iv", act.a[0]):
                        act = act.a[0]
                    run.value = act
                    judge(ck, "raw query", "xpath(%s%s%s%s)" % (pre + path, ", at an element" if base is not None else "",
                          ", first" if first else "", ", cast" if cast else ""), run, exp, where(ck, "xpath"))
    for path in ("//Times/Expires", "//String/Value", "/KeePassFile/Meta/DatabaseName"):
        run = Run(ck.eng, "xpath", {"cast": TRUE}, [], args=[c(path)])
        what = "xpath(%s, cast) hands out no object" % path
        w = [x for x in subterms(run.value) if x.op == "wrap"]
        if w:
            ck.bad("raw query", what, where(ck, "xpath"), "an element that is no %s is handed out as one" % w[0].a[0])
        else:
            ck.ok("raw query", what)


# -------------------------------------------------------------------- C16
def injected(t):
    """value terms which are part of the query text without being quoted safely."""
    bad = []
    for x in subterms(t):
        if x.op == "rawlit":
            inner = unstr(x.a[0])
            for y in subterms(inner):
                if y.op in ("nn", "s") and not (y.op == "s" and y.a[0].startswith(("flags", "u"))):
                    if not (y.op == "nn" and y.a[0].op == "s" and y.a[0].a[0].startswith("flags")):
                        bad.append(("the value is put between quotes without escaping", x))
                        break
        if x.op == "badq":
            bad.append(("the query text is malformed", x))
    return bad


def safe(ck, rule_, what, run, w, values, extra=()):
    """No value of the scenario reaches query syntax."""
    ts = [run.value] + [e.data for e in run.res.events if e.kind in ("query", "mut")]
    ts = [unver(x) for x in ts] + list(extra)
    bad, unsure = [], []
    for t in ts:
        for x in subterms(t):
            if x.op == "rawlit" and any(contains(x, v) for v in values):
                bad.append("put between quotes without escaping: " + pretty(x)[:200])
            if x.op == "badq" and any(contains(x, v) for v in values):
                (bad if raw_use(x, values) else unsure).append("query text " + pretty(x)[:200])
            if x.op == "q":
                for y in holes(x.a[1]):
                    if any(contains(y, v) for v in values):
                        wt = witness(y, values)
                        if wt:
                            bad.append("query text: " + wt)
                            continue
                        (bad if raw_use(y, values) else unsure).append("query syntax computed from " + pretty(y)[:200])
    if bad:
        ck.bad(rule_, what, w, "; ".join(sorted(set(bad)))[:800])
    elif unsure:
        ck.maybe(rule_, what, unsure[0])
    else:
        ck.ok(rule_, what)


WITNESS = ("plain", "", '"', "'", "a\"b", "a'b", "\"'", "a\"b'c", "'\"", '\\"', "\\'", "\\", 'a\\"b', "{}", "{0}", "{flags}", "%s", "a]b", "//x", "&quot;",
           "&amp;", "&", "<", " a ", "a\nb", "a\tb", "concat(", '","', "', '", "$x", "\u00e9", "\u20ac", "A", "a" * 300, 'x" or "1"="1', "x' or '1'='1", '""', "''", '"a"', "'a'")


def witness(t, values):
    """For query text that is a pure string function of one value: a string for which it is no literal of that string."""
    vs = [v for v in values if contains(t, v)]
    if len(vs) != 1:
        return None
    import re

    def go(t, w):
        if t is vs[0]:
            return w
        if t.op in ("hole", "str"):
            return go(t.a[0], w)
        if t.op == "c":
            return cv(t)
        if t.op == "cat":
            return "".join(go(x, w) for x in t.a)
        if t.op == "join":
            return go(t.a[0], w).join(go(t.a[1], w))
        if t.op == "ite":
            return go(t.a[1] if go(t.a[0], w) else t.a[2], w)
        if t.op == "cmp" and t.a[0] in ("in", "=="):
            a, b = go(t.a[1], w), go(t.a[2], w)
            return a in b if t.a[0] == "in" else a == b
        if t.op == "not":
            return not go(t.a[0], w)
        if t.op == "and":
            return all(go(x, w) for x in t.a)
        if t.op == "or":
            return any(go(x, w) for x in t.a)
        if t.op == "m" and t.a[0] in ("replace", "split", "strip", "lstrip", "rstrip", "lower", "upper", "startswith", "endswith", "rsplit",
                                      "partition", "casefold", "removesuffix", "removeprefix", "count", "find", "title"):
            return getattr(go(t.a[1], w), t.a[0])(*[go(x, w) for x in t.a[2:]])
        if t.op == "sl" and len(t.a) == 4:
            x = [go(x, w) for x in t.a]
            return x[0][x[1]:x[2]:x[3]]
        raise KeyError(t.op)

    def literal(q_):
        lit = r"(\"[^\"]*\"|'[^']*')"
        q_ = q_.strip()
        if re.fullmatch(lit, q_):
            return q_[1:-1]
        if re.fullmatch(r"concat\(\s*%s(\s*,\s*%s)+\s*\)" % (lit, lit), q_):
            return "".join(x[1:-1] for x in re.findall(lit, q_[7:-1]))
        return None
    known = False
    for w in WITNESS:
        try:
            r = go(t, w)
        except (KeyError, TypeError, ValueError, AttributeError, IndexError):
            return None
        if not isinstance(r, str):
            return None
        v = literal(r)
        if v is None and not known:
            return None         # another kind of query text
        known = True
        if v != w:
            return "%r becomes %s" % (w, r)
    return None


def raw_use(t, values):
    """A value itself is a part of a concatenation that forms query text."""
    for x in subterms(t):
        if x.op == "cat":
            for y in x.a:
                if unstr(y) in values and not quoted_in(x, y):
                    return True
    return False


def quoted_in(x, y):
    return xp.literal_of(x) is not None


def holes(nf):
    out = []

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "unk" and isinstance(x[1], T):
                out.append(x[1])
                return
            for y in x:
                walk(y)
        elif isinstance(x, T):
            if x.op == "hole":
                out.append(x)
    walk(nf)
    return out


@rule("C16")
def search_values(ck):
    """Every place the caller's string enters a query is inside a quoted literal produced by the quoting function (proved for both quote kinds and their mixture) or an XPath variable; no other part of the query text depends on it."""
    for kind in CLASS:
        for cr in criteria(kind):
            vs = [v for v in cr.vars.values() if v.op == "nn" and v.a[0].a[0].endswith("#str")]
            if not vs:
                continue
            for regex in (False, True):
                kw = {cr.kw: cr.arg}
                if regex:
                    kw["regex"] = TRUE
                run = Run(ck.eng, kind, kw)
                what = "%s(%s%s) takes any string" % (kind, cr.kw, ", regex" if regex else "")
                safe(ck, "quoting", what, run, where(ck, kind), vs)
                exact_literal(ck, "literal", "%s(%s%s) compares with the given string itself" % (
                    kind, cr.kw, ", regex" if regex else ""), run, where(ck, kind), vs)


def exact_literal(ck, rule_, what, run, w, values):
    """Every value occurs in the query as it was given, not changed by escaping."""
    act = norm_result(run.value)
    fz = fuzzy(act)
    lits = set()
    for x in literals(act):
        lits.add(unstr(x))
        if x.op == "rawlit":
            lits.add(unstr(x.a[0]))
    missing_ = [v for v in values if v not in lits]
    if not missing_:
        ck.ok(rule_, what)
    elif fz is None and any(x.op == "q" for x in subterms(act)):
        der = [x for x in lits if any(contains(x, v) for v in missing_)]
        ck.bad(rule_, what, w, "the value is not compared as given%s" % (
            ": compared with " + pretty(der[0])[:200] if der else ""))
    else:
        ck.maybe(rule_, what, fz or "no query found")


@rule("C16")
def path_elements(ck):
    """The same for path elements."""
    for kind in ("find_groups", "find_entries"):
        for regex in (False, True):
            parts = [val("p%d" % i) for i in range(3)]
            kw = {"path": mk("list", *parts)}
            if regex:
                kw["regex"] = TRUE
            run = Run(ck.eng, kind, kw, [(truthy(x), True) for x in parts])
            what = "%s(path%s) takes any string" % (kind, ", regex" if regex else "")
            safe(ck, "quoting", what, run, where(ck, kind), parts)
            exact_literal(ck, "literal", "%s(path%s) compares with the given strings" % (kind, ", regex" if regex else ""),
                          run, where(ck, kind), parts)


@rule("C16")
def custom_field_names(ck):
    """The same for the key of the custom-property methods and ElementPath look-ups."""
    k, v = val("key"), val("value")
    for cls in ("Entry",):
        for nm, args in (("get_custom_property", [k]), ("set_custom_property", [k, v]), ("delete_custom_property", [k]),
                         ("is_custom_property_protected", [k])):
            if not ck.eng.has_method(cls, nm):
                continue
            o = ck.eng.obj(cls, "e")
            e = elem_of(o)
            for opaque in (True, False):
                ip = ck.eng.new(VER, opaque=opaque)
                ip.push(isnone(e), False)
                ip.push(isnone(payload(ck.eng)), False)
                res = ck.eng.o_call(o, nm, args, {}, VER, ip=ip)

                class R:
                    pass
                r = R()
                r.res, r.value = res, unver(res.value)
                extra = [unver(ev.data) for ev in res.events if isinstance(ev.data, T)] + [unver(ev.cond) for ev in res.events]
                safe(ck, "quoting", "Entry.%s takes any field name%s" % (nm, "" if opaque else " (query level)"), r,
                     where_fn(ck.eng, cls, nm), [k], extra)
                ts = [r.value] + extra
                qs = {x for t in ts for x in subterms(t) if x.op == "q" and x.a[0] is e}
                what = "Entry.%s looks for the given name itself%s" % (nm, "" if opaque else " (query level)")
                if not qs:
                    ck.maybe("literal", what, "no query on the entry found")
                    continue
                fz = next((f for f in map(fuzzy, qs) if f), None)
                named = [x for x in qs if any(unstr(y) is k or (y.op == "rawlit" and unstr(y.a[0]) is k)
                                              for y in literals(x))]
                if named:
                    ck.ok("literal", what)
                elif fz is None:
                    der = [y for x in qs for y in literals(x) if contains(y, k)]
                    if der:
                        ck.bad("literal", what, where_fn(ck.eng, cls, nm), "looks for " + pretty(der[0])[:200])
                    else:
                        ck.maybe("literal", what, "name not part of a query")
                else:
                    ck.maybe("literal", what, fz)


# -------------------------------------------------------------------- C32
BY = [("groups", "name"), ("groups", "path"), ("groups", "uuid"), ("groups", "notes")] + [
    ("entries", x) for x in ("title", "username", "password", "url", "notes", "path", "uuid", "string")]


def by_arg(x):
    if x == "uuid":
        return mk("nn", s("u")), []
    if x == "path":
        ps = [val("p0"), val("p1")]
        return mk("list", *ps), [(truthy(p), True) for p in ps]
    if x == "string":
        return mk("dict", ((val("key"), val("value")), (val("key2"), val("value2")))), []
    return val(x), []


@rule("C32")
def convenience(ck):
    """Each find_*_by_* method is followed with symbolic arguments, given by position and by keyword; the one call of the general search it makes has exactly the criterion of its name and the caller's options, and the default of every option is the general search's default."""
    E_ = ck.eng
    for kind, x in BY:
        nm = "find_%s_by_%s" % (kind, x)
        gen = "find_" + kind
        if not E_.has_method("PyKeePass", nm):
            ck.bad("available", nm, "pykeepass/deprecated.py", "the method no longer exists")
            continue
        w = where_fn(E_, "PyKeePass", nm)
        has_hist = not (kind == "groups" and x in ("name", "path"))
        g = E_.obj("Group", "g")
        fl = mk("nn", s("flags#str"))
        opts = {"regex": TRUE, "flags": fl, "group": g, "history": TRUE, "first": TRUE}
        order = [o for o in ("regex", "flags", "group", "history", "first") if has_hist or o != "history"]
        arg, facts = by_arg(x)
        facts = facts + [(isnone(elem_of(g)), False)]
        sets = [[]] + [[o] for o in order] + [[o for o in order if o != d] for d in order] + [order]
        seen = []
        for st in sets:
            if st in seen:
                continue
            seen.append(st)
            exp = Run(E_, gen, dict({x: arg}, **{o: opts[o] for o in st}), facts)
            act = Run(E_, nm, {o: opts[o] for o in st}, facts, args=[arg])
            compare(ck, "%s(%s)" % (nm, ", ".join(["value"] + st)), act, exp, w)
        # positional use
        for k in range(1, len(order) + 1):
            exp = Run(E_, gen, dict({x: arg}, **{o: opts[o] for o in order[:k]}), facts)
            act = Run(E_, nm, {}, facts, args=[arg] + [opts[o] for o in order[:k]])
            compare(ck, "%s(%s) by position" % (nm, ", ".join(["value"] + order[:k])), act, exp, w)
        for o, v in (("regex", FALSE), ("flags", NONE), ("group", NONE), ("history", FALSE), ("first", FALSE)):
            if o in order:
                exp = Run(E_, gen, {x: arg, o: v}, facts)
                act = Run(E_, nm, {o: v}, facts, args=[arg])
                compare(ck, "%s(value, %s=%s)" % (nm, o, pretty(v)), act, exp, w)


def compare(ck, what, act, exp, w):
    a, e = norm_result(act.value), norm_result(exp.value)
    r, d = equiv(a, e, act.facts)
    ra, re_ = act.net.raising(), exp.net.raising()
    r2, d2 = equiv(ra, re_, act.facts)
    if r is True and r2 is True:
        ck.ok("same search", what)
    elif r is True and r2 is False:
        ck.bad("same search", what, w, "fails %s where the general search fails %s" % (pretty(ra)[:200], pretty(re_)[:200]))
    elif r is False and shape(a) and fuzzy(a) is None:
        ck.bad("same search", what, w, "searches %s, the general search %s" % (query_text(a), query_text(e)))
    elif a.op == "bot" and e.op != "bot":
        ck.bad("same search", what, w, "always fails: %s" % ", ".join(map(str, act.net.raises)))
    else:
        ck.maybe("same search", what, pretty(a)[:200])

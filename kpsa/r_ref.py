"""C25 field references.

The resolver is followed with constant reference strings (every pair of
wanted and searched field, nested, repeated, empty, unresolvable, malformed
and circular references) over a document whose searches stay symbolic: a
result depends on which search was asked for and which field of its result
was read.
"""
import re
from .lib import *
from .net import excname
from .r_find import VER
from .r_time import rewrite

LETTER = {"T": ("title", "Title"), "U": ("username", "UserName"), "P": ("password", "Password"), "A": ("url", "URL"),
          "N": ("notes", "Notes"), "I": ("uuid", None)}
HEX = "46C9B1FFBD4ABC4BBB260C6190BAD20C"


def api(letter, value):
    v = mk("uuidhex", c(value)) if letter == "I" else c(value)
    return mk("api", "find_entries", tuple(sorted({"first": TRUE, LETTER[letter][0]: v}.items())))


def same_api(a, b):
    """the same search; identifiers compare by value."""
    if a is b:
        return True
    if a.op != "api" or a.a[0] != b.a[0] or [k for k, _ in a.a[1]] != [k for k, _ in b.a[1]]:
        return False
    for (k, x), (_, y) in zip(a.a[1], b.a[1]):
        if x is y:
            continue
        if x.op == "uuidhex" and y.op == "uuidhex" and is_c(x.a[0]) and is_c(y.a[0]) \
                and cv(x.a[0]).replace("-", "").lower() == cv(y.a[0]).replace("-", "").lower():
            continue
        return False
    return True


def key_of(nf):
    """Key of String[Key=K]/Value"""
    for st in nf:
        for p in st[2]:
            if p[0] == "has":
                for s2 in p[1]:
                    for p2 in s2[2]:
                        if s2[1] == "Key" and p2[0] in ("teq", "seq") and isinstance(p2[1], T) and is_c(p2[1]):
                            return cv(p2[1])
    return None


ASKABLE = {"first", "history", "regex"} | {a for a, _ in LETTER.values()}


class World:
    """Results of searches: {(letter, value): {field: text} or None}"""

    def __init__(self, found):
        self.found = [(api(k[0], k[1]), v) for k, v in found.items()]
        self.asked = []

    def entry(self, t):
        for a, v in self.found:
            if same_api(t, a):
                return v
        return "?"

    def over(self, t):
        if t.op == "." and t.a[1] == "text" and t.a[0].op == "q" and t.a[0].a[0].op == "api":
            v = self.entry(t.a[0].a[0])
            nf = t.a[0].a[1]
            if not isinstance(v, dict):
                return c("<text of an entry that was not referenced>")
            if nf and nf[-1][1] == "UUID":
                return None
            k = key_of(nf)
            if k is None:
                return None
            x = v.get(k, "<%s>" % k)
            return NONE if x is None or x is False else c(x)
        if (t.op == "." and t.a[1] == "hex" and t.a[0].op == "uuid") or (t.op == "str" and t.a[0].op == "uuid"):
            for x in subterms(t):
                if x.op == "api":
                    v = self.entry(x)
                    h = (v["hex"] if isinstance(v, dict) else "0" * 32).lower()
                    if t.op == "str":
                        h = "-".join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))
                    return c(h)
        return None

    def settle(self, t):
        """The rest of the document: everything else that is looked for exists."""
        known = {a for a, _ in self.found}
        f = {}
        for x in subterms(t):
            if x.op == "api" and x not in known and set(k for k, _ in x.a[1]) <= ASKABLE:
                add_fact(f, isnone(x), False)
            if x.op == "q" and x.a[2] == "first":
                add_fact(f, isnone(x), False)
        t = rewrite(simp(rewrite(t, lambda x: self.over(x) or x), f), lambda x: self.over(x) or x)
        ps = [(self.over(mk("str", x)) or x) if x.op == "uuid" else x for x in (t.a if t.op == "cat" else (t,))]
        return cat(*ps) if t.op == "cat" else ps[0]


def resolve(eng, value, found, call=None, maxrec=8):
    w = World(found)
    ip = eng.exact(VER, opaque=True)
    ip.maxrec = maxrec
    ip.over_fn = w.over
    for a, v in w.found:
        ip.push(isnone(a), v is None)
        if v is not None:
            for L, (attr, K) in LETTER.items():
                if K is None:
                    ip.push(isnone(q(a, "UUID")), False)
                    continue
                absent = v.get(K, "") is False
                for steps in ((keyed("String", K), child("Value")), (keyed("String", K),)):
                    ip.push(isnone(q(a, *steps)), absent)
    res = (call or (lambda ip: eng.kp_call("deref", [c(value)], {}, VER, ip=ip)))(ip)
    return w, res


def outcome(res):
    return simp(unver(res.value), {})


def text_of_term(t):
    """constant text or None"""
    t = unstr_(t)
    if t.op == "c":
        return t
    if t.op == "m" and t.a[0] in ("upper", "lower") and is_c(t.a[1]) and isinstance(cv(t.a[1]), str):
        return c(getattr(cv(t.a[1]), t.a[0])())
    if t.op == "cat":
        ps = [text_of_term(x) for x in t.a]
        if all(p is not None and isinstance(cv(p), str) for p in ps):
            return c("".join(cv(p) for p in ps))
    return None


def expect(ck, rule_, what, value, found, want, w, call=None):
    world, res = resolve(ck.eng, value, found, call)
    raised = [e for e in res.events if e.kind == "raise" and not e.caught]
    t = world.settle(outcome(res))
    k = text_of_term(t)
    if raised and (t.op == "bot" or k is None):
        ck.bad(rule_, what, raised[0].where() or w, "resolving %r raises %s" % (value, excname(raised[0].data)))
        return
    if has_op(t, "rec"):
        ck.bad(rule_, what, w, "resolving %r does not end: the reference is followed again and again" % value)
        return
    if k is None:
        ck.maybe(rule_, what, pretty(t)[:300])
        return
    got = cv(k)
    if callable(want):
        ck.need(rule_, what, bool(want(got)), w, "%r resolves to %r" % (value, got))
    else:
        ck.need(rule_, what, got == want and type(got) is type(want), w, "%r resolves to %r, expected %r" % (value, got, want))


def entry(name, **kw):
    d = {K: "%s of %s" % (a, name) for a, K in LETTER.values() if K}
    d["hex"] = ("%032X" % (int(HEX, 16) ^ sum(map(ord, name))))
    d.update(kw)
    return d


def want_of(e, L):
    return e["hex"] if L == "I" else e[LETTER[L][1]]


@rule("C25")
def every_pair(ck):
    """All 36 pairs of wanted and searched field: the text the resolver builds, over a symbolic document whose searches are uninterpreted, is the wanted field of the entry found by the searched field; embedded text is kept; no match gives None."""
    w = where_fn(ck.eng, "PyKeePass", "deref")
    for W in LETTER:
        for S in LETTER:
            v = HEX if S == "I" else "foo"
            e = entry("foo")
            ref = "{REF:%s@%s:%s}" % (W, S, v)
            expect(ck, "resolution", "%s yields %s of the entry found by %s" % (ref, LETTER[W][0], LETTER[S][0]),
                   ref, {(S, v): e}, want_of(e, W), w)
            expect(ck, "text around", "%s inside text" % ref, "pre %s post" % ref, {(S, v): e},
                   "pre %s post" % want_of(e, W), w)
            expect(ck, "unresolvable", "%s without a matching entry yields None" % ref, "x" + ref, {(S, v): None}, None, w)


@rule("C25")
def odd_strings(ck):
    """Strings without a reference come back unchanged; the searched value is the text between the colon and the brace; a malformed identifier gives None."""
    w = where_fn(ck.eng, "PyKeePass", "deref")
    for v in ("", "plain text", "{REF:}", "{REF:X@T:foo}", "{ref:P@T:foo}", "REF:P@T:foo", "{S:custom}", "{REF:P@T:}",
              "{REF:P@T:foo", "{REF:PT:foo}"):
        expect(ck, "no reference", "%r is returned unchanged" % v, v, {}, v, w)
    e = entry("foo")
    for v in ("a b", "a/b@c", 'say "hi"', "it's", "x:y", "{x", "ünï", "a\\b", "50%", "(x)*", "foo  "):
        ref = "{REF:U@T:%s}" % v
        expect(ck, "search value", "%s searches for the text itself" % ref, "<" + ref + ">", {("T", v): e},
               "<" + e["UserName"] + ">", w)
    for v in (HEX.lower(), "zz", HEX[:-1], HEX + "0", "not a uuid"):
        if v == HEX.lower():
            expect(ck, "identifier", "lower case identifier", "{REF:U@I:%s}" % v, {("I", HEX): e}, e["UserName"], w)
        else:
            expect(ck, "identifier", "malformed identifier %r yields None" % v, "{REF:U@I:%s}" % v, {}, None, w)
    # None is no reference
    for v in (None,):
        expect(ck, "no reference", "None is returned unchanged", v, {}, None, w)


@rule("C25")
def several(ck):
    """Several, adjacent and repeated references in one string."""
    w = where_fn(ck.eng, "PyKeePass", "deref")
    a, b = entry("a"), entry("b")
    ra, rb = "{REF:P@T:a}", "{REF:U@N:b}"
    fa = {("T", "a"): a, ("N", "b"): b}
    expect(ck, "several references", "two references", ra + " and " + rb, fa, a["Password"] + " and " + b["UserName"], w)
    expect(ck, "several references", "adjacent references", rb + ra, fa, b["UserName"] + a["Password"], w)
    expect(ck, "several references", "the same reference twice", ra + "-" + ra, fa, a["Password"] + "-" + a["Password"], w)
    expect(ck, "several references", "two fields of one entry", "{REF:P@T:a}{REF:U@T:a}", fa, a["Password"] + a["UserName"], w)
    expect(ck, "several references", "one of two unresolvable", ra + rb, {("T", "a"): a, ("N", "b"): None}, None, w)
    expect(ck, "several references", "first of two unresolvable", ra + rb, {("T", "a"): None, ("N", "b"): b}, None, w)


@rule("C25")
def nested(ck):
    """References inside the referenced text, up to three levels, are resolved; an unresolvable one gives None."""
    w = where_fn(ck.eng, "PyKeePass", "deref")
    for L in "TUPAN":
        K = LETTER[L][1]
        inner = entry("inner")
        outer = entry("outer", **{K: "x{REF:U@I:%s}y" % HEX})
        expect(ck, "nested", "a reference inside the %s is resolved" % LETTER[L][0], "<{REF:%s@T:o}>" % L,
               {("T", "o"): outer, ("I", HEX): inner}, "<x" + inner["UserName"] + "y>", w)
        expect(ck, "nested", "an unresolvable reference inside the %s yields None" % LETTER[L][0], "<{REF:%s@T:o}>" % L,
               {("T", "o"): outer, ("I", HEX): None}, None, w)
    m = entry("mid", UserName="{REF:T@U:deep}")
    d = entry("deep")
    o = entry("outer", Password="{REF:U@T:mid}!")
    expect(ck, "nested", "three levels", "{REF:P@T:o}", {("T", "o"): o, ("T", "mid"): m, ("U", "deep"): d}, d["Title"] + "!", w)
    # the referenced text may mention the wanted text of another reference
    a = entry("a", Password="p", UserName="{REF:P@T:a}{REF:P@T:a}")
    expect(ck, "nested", "a reference to a reference to the same entry", "{REF:U@T:a}", {("T", "a"): a}, "pp", w)
    a = entry("a", UserName="{REF:P@T:b}")
    b = entry("b", Password="pw")
    expect(ck, "nested", "the same reference directly and nested", "{REF:U@T:a}{REF:P@T:b}", {("T", "a"): a, ("T", "b"): b},
           "pwpw", w)


ODD = ("  spaced \t", "a\\1b", "\\g<0>", "C:\\new\\x", "%s {0} {x} }{", "ünï", "line\nbreak\n", "UPPER lower", "$1 & <x>", "0",
       "{REF:X@T:foo}", "{REF:", "None", "False", "{S:custom}", "{TITLE}")


@rule("C25")
def odd_values(ck):
    """The referenced text is taken over as it is."""
    w = where_fn(ck.eng, "PyKeePass", "deref")
    for v in ODD:
        for L in "TUPAN":
            expect(ck, "value", "a reference to the %s %r" % (LETTER[L][0], v), "<{REF:%s@I:%s}>" % (L, HEX),
                   {("I", HEX): entry("e", **{LETTER[L][1]: v})}, "<" + v + ">", w)
        expect(ck, "value", "text %r around a reference" % v, v + "{REF:U@T:a}" + v, {("T", "a"): entry("a")},
               v + "username of a" + v, w)
    # the same reference, directly and inside the text of another one
    b = entry("b")
    for x, y in (("U", "P"), ("P", "U"), ("N", "A"), ("T", "N")):
        a = entry("a", **{LETTER[x][1]: "({REF:%s@T:b})" % y})
        for v in ("{REF:%s@T:a}/{REF:%s@T:b}", "{REF:%s@T:b}/{REF:%s@T:a}"):
            first = v.index("a}") < v.index("b}")
            val = b[LETTER[y][1]]
            expect(ck, "nested", "siblings " + v % ((x, y) if first else (y, x)), v % ((x, y) if first else (y, x)),
                   {("T", "a"): a, ("T", "b"): b}, "(%s)/%s" % (val, val) if first else "%s/(%s)" % (val, val), w)


@rule("C25")
def empty_and_circular(ck):
    """A reference to an empty, blank or missing field gives the empty text; self-references and circles of two and three entries end (the recursion carries a growing set of visited references)."""
    w = where_fn(ck.eng, "PyKeePass", "deref")
    for L in "TUPAN":
        K = LETTER[L][1]
        for nm, v in (("empty", None), ("missing", False), ("blank", "")):
            expect(ck, "empty field", "a reference to a %s %s" % (nm, LETTER[L][0]), "<{REF:%s@I:%s}>" % (L, HEX),
                   {("I", HEX): entry("e", **{K: v})}, "<>", w)
        ref = "{REF:%s@I:%s}" % (L, HEX)
        expect(ck, "circular", "%s refers to itself" % LETTER[L][0], ref, {("I", HEX): entry("e", **{K: ref})},
               lambda got: True, w)
    a = entry("a", Password="{REF:P@T:b}")
    b = entry("b", Password="{REF:P@T:a}")
    expect(ck, "circular", "two passwords refer to each other", "{REF:P@T:a}", {("T", "a"): a, ("T", "b"): b},
           lambda got: True, w)
    b2 = entry("b", Password="{REF:P@T:c}")
    c2 = entry("c", Password="x{REF:P@T:a}y")
    expect(ck, "circular", "three passwords in a circle", "{REF:P@T:a}", {("T", "a"): a, ("T", "b"): b2, ("T", "c"): c2},
           lambda got: True, w)


@rule("C25")
def creating(ck):
    """Entry.ref(attribute) is the reference with that attribute's letter and the entry's own identifier."""
    E_ = ck.eng
    for L, (attr, K) in LETTER.items():
        o = E_.obj("Entry", "e")
        e = elem_of(o)
        res = E_.o_call(o, "ref", [c(attr)], {}, VER, facts=[(isnone(e), False), (isnone(q(e, "UUID")), False)])
        n = Net(res)
        t = n.value

        def undo(x):
            # the case of the digits does not matter
            if isinstance(x, T) and x.op == "m" and x.a[0] in ("upper", "lower"):
                return undo(x.a[1])
            return x
        t = cat(*[undo(x) for x in t.a]) if t.op == "cat" else t
        u = mk("uuid", mk("unb64", text(q(e, "UUID"))))
        exp = cat(c("{REF:%s@I:" % L), mk(".", u, "hex"), c("}"))
        ck.same("creation", "Entry.ref(%r)" % attr, simp(t, n.facts), exp, where_fn(E_, "Entry", "ref"), n.facts)
    for attr in ("otp", "tags", "icon", "ctime"):
        # nothing else can be referenced, so no reference to another field may come back
        o = E_.obj("Entry", "e")
        res = E_.o_call(o, "ref", [c(attr)], {}, VER, facts=[(isnone(elem_of(o)), False), (isnone(q(elem_of(o), "UUID")), False)])
        n = Net(res, {}, noexc=False)
        t = simp(n.value, n.facts)
        head = cv(t.a[0]) if t.op == "cat" and t.a[0].op == "c" else None
        if isinstance(head, str) and re.match(r"{REF:[TUPANI]@", head) and all(v is not TRUE for v in n.raises.values()):
            ck.bad("creation", "Entry.ref(%r) names no other field" % attr, where_fn(E_, "Entry", "ref"), "gives a reference to another field: " + pretty(t)[:120])
        else:
            ck.ok("creation", "Entry.ref(%r) names no other field" % attr)


@rule("C25")
def entry_deref(ck):
    """Entry.deref(attribute) resolves the references in that attribute of that entry."""
    E_ = ck.eng
    w = where_fn(E_, "Entry", "deref")
    for L, (attr, K) in LETTER.items():
        if K is None:
            continue
        o = E_.obj("Entry", "self")
        e = elem_of(o)
        tgt = entry("target")

        def call(ip, attr=attr, K=K, e=e, o=o):
            inner = ip.over_fn

            def over(t):
                if t.op == "." and t.a[1] == "text" and t.a[0].op == "q" and t.a[0].a[0] is e:
                    k = key_of(t.a[0].a[1])
                    if k is not None:
                        return c("[{REF:U@I:%s}]" % HEX if k == K else "text of another field")
                return inner(t)
            ip.over_fn = over
            ip.push(isnone(e), False)
            for k2 in [x for _, x in LETTER.values() if x]:
                ip.push(isnone(q(e, keyed("String", k2), child("Value"))), False)
                ip.push(isnone(q(e, keyed("String", k2))), False)
            return E_.o_call(o, "deref", [c(attr)], {}, VER, ip=ip)
        expect(ck, "entry", "Entry.deref(%r) resolves the references in that field" % attr, "its " + attr,
               {("I", HEX): tgt}, "[" + tgt["UserName"] + "]", w, call)
        # a field the entry does not have
        sc = [missing(q(e, keyed("String", K), child("Value"))), missing(q(e, keyed("String", K)))]
        n = Net(E_.o_call(o, "deref", [c(attr)], {}, VER, sc), F(*sc))
        v = simp(n.value, n.facts)
        what = "Entry.deref(%r) of a missing field is None" % attr
        if v is NONE:
            ck.ok("entry", what)
        elif v.op == "c":
            ck.bad("entry", what, w, "is %s" % pretty(v))
        else:
            ck.maybe("entry", what, pretty(v)[:200])

"""C18 history, C19 recycle bin, C20 structure edits, C21 binaries."""
from .lib import *
from .r_fields import obj, refusals, codec, check_new, flat, touches_fresh


def rooted(x):
    """The document element a term is reached from."""
    while True:
        if x.op == "q":
            x = x.a[0]
        elif x.op in ("iv", ".", "[]", "nn"):
            x = x.a[0]
        else:
            return x


# operations of the library that change the database, called on something whose class the analysis lost
UNSEEN = {"delete", "append", "remove", "insert", "clear", "extend", "replace", "save_history", "delete_history", "reindex", "touch",
          "set_custom_property", "delete_custom_property", "add_attachment", "delete_attachment"}


def judge(ck, rule_, what, net, classify, w, need=()):
    """Classify every effect: classify(effect) -> name (expected), None (unknown) or False (wrong)."""
    got = {}
    res = True
    for k, cnd in net.eff.items():
        r, _ = equiv(cnd, FALSE, net.facts)
        if r is True:
            continue
        cl = classify(k)
        if isinstance(cl, tuple):
            cl, cnd = cl
        if cl is False or (cl is None and all(definite(x) for x in k if isinstance(x, T)) and definite(cnd)):
            ck.bad(rule_, what, net.where.get(k, w), "unexpected effect: %s when %s" % (eff_str(k), pretty(cnd)[:200]))
            res = False
        elif cl is None:
            ck.maybe(rule_, what, "unclassified: " + eff_str(k))
            res = None if res is True else res
        else:
            got[cl] = disj(got[cl], cnd) if cl in got else cnd
    for e in net.res.ev("call"):
        d = unver(e.data)
        if d.op == "m" and d.a[0] in UNSEEN and res is True and equiv(unver(e.cond), FALSE, net.facts)[0] is not True:
            ck.maybe(rule_, what, "effects of " + pretty(d)[:100])
            res = None
    for nm in need:
        r, _ = equiv(got.get(nm, FALSE), TRUE, net.facts)
        if r is True:
            continue
        if r is None or res is None or net.unknowns:
            ck.maybe(rule_, what, "%s not established" % nm)
            res = None if res is True else res
        else:
            ck.bad(rule_, what, w, "%s does not happen%s; effects: %s" % (
                nm, " unless " + pretty(simp(got[nm], net.facts))[:200] if nm in got else "", net.show()[:400]))
            res = False
    if res is True:
        ck.ok(rule_, what)
    return res


# ------------------------------------------------------------------ C20
@rule("C20")
def deletions(ck):
    """Deleting an entry, group or attachment has exactly one effect: that element is detached."""
    E_ = ck.eng
    for cls in ("Entry", "Group", "HistoryEntry", "Attachment"):
        o = obj(ck, cls)
        n = Net(E_.o_call(o, "delete", [], (), KDBX4))
        judge(ck, "deletions", cls + ".delete", n, lambda k: "detaching the element" if k[:2] == ("detach", elem_of(o)) and not k[-1] else None,
              where_fn(E_, cls, "delete"), ["detaching the element"])
    for m, o in (("delete_entry", obj(ck, "Entry")), ("delete_group", obj(ck, "Group"))):
        n = Net(E_.kp_call(m, [o], (), KDBX4))
        judge(ck, "deletions", "PyKeePass." + m, n, lambda k: "detaching the element" if k[:2] == ("detach", elem_of(o)) and not k[-1] else None,
              where_fn(E_, "PyKeePass", m), ["detaching the element"])
    e, a = obj(ck, "Entry"), obj(ck, "Attachment")
    n = Net(E_.o_call(e, "delete_attachment", [a], (), KDBX4))
    judge(ck, "deletions", "Entry.delete_attachment", n, lambda k: "detaching the element" if k[:2] == ("detach", elem_of(a)) and not k[-1] else None,
          where_fn(E_, "Entry", "delete_attachment"), ["detaching the element"])


@rule("C20")
def moves(ck):
    """Moving re-parents the very element it was given: one effect, the same element becomes a child of the
    destination."""
    E_ = ck.eng
    d = E_.obj("Group", "destination")
    for m, o in (("move_entry", obj(ck, "Entry")), ("move_group", obj(ck, "Group"))):
        n = Net(E_.kp_call(m, [o, d], (), KDBX4))
        judge(ck, "moves", "PyKeePass." + m, n, mover(o, d), where_fn(E_, "PyKeePass", m), ["moving the element to the destination"])
    for cls in ("Entry", "Group"):
        o = obj(ck, cls)
        n = Net(E_.o_call(d, "append", [o], (), KDBX4))
        judge(ck, "moves", "Group.append(%s)" % cls, n, mover(o, d), where_fn(E_, "Group", "append"), ["moving the element to the destination"])
    o1, o2 = E_.obj("Entry", "one"), E_.obj("Entry", "two")
    ip = E_.new(KDBX4)
    l = ip.newref(("list", (o1, o2)))
    n = Net(E_.o_call(d, "append", [l], (), KDBX4, ip=ip))
    judge(ck, "moves", "Group.append([one, two])", n,
          lambda k: {elem_of(o1): "one", elem_of(o2): "two"}.get(k[2]) if k[0] == "move" and k[1] is elem_of(d) and not k[-1] else None,
          where_fn(E_, "Group", "append"), ["one", "two"])
    order = [k[2] for k in n.eff if k[0] == "move" and is_c(k[3], "end")]
    if len(order) == 2:
        ck.need("moves", "Group.append keeps the order of the list", order == [elem_of(o1), elem_of(o2)], where_fn(E_, "Group", "append"))


def mover(o, d):
    def f(k):
        if k[0] == "move" and k[1] is elem_of(d) and k[2] is elem_of(o) and not k[-1]:
            return "moving the element to the destination"
        return None
    return f


def norm_index(t):
    """list(group).index(x) as group.index(x)."""
    m = {}
    for x in subterms(t):
        if x.op == "m" and x.a[0] == "index" and x.a[1].op == "q" and x.a[1].a[2] == "all" and x.a[1].a[1] == (("child", "*", ()),):
            m[x] = mk("m", "index", x.a[1].a[0], *x.a[2:])
    return subst(t, m) if m else t


@rule("C20")
def reindexing(ck):
    """reindex puts the same entry back into its own group at the position of the group's first entry plus the index;
    index reports the distance from the group's first entry."""
    E_ = ck.eng
    e = obj(ck, "Entry")
    G = qx(elem_of(e), "(ancestor::Group)[last()]")
    P = mkq(elem_of(e), (("parent", "node()", ()),), "first")
    sc = [exists(G), exists(P), exists(q(G, "Entry"))]
    f = F(*sc)
    n = Net(E_.o_call(e, "reindex", [s("index#int")], (), KDBX4, sc), f)
    w = where_fn(E_, "Entry", "reindex")

    def cl(k):
        if k[0] in ("move", "attach") and k[1] in (G, P) and k[2] is elem_of(e) and not k[-1]:
            return "reinserting the entry"
        if k[0] == "detach" and k[1] is elem_of(e) and not k[-1]:
            return "taking the entry out"
        if k[0] == "remove" and k[1] in (G, P) and k[2] is elem_of(e) and not k[-1]:
            return "taking the entry out"
        return None
    if judge(ck, "reindexing", "Entry.reindex keeps the entry in its group", n, cl, w, ["reinserting the entry"]) is True:
        first = mk("m", "index", G, q(G, "Entry"))
        for k in n.eff:
            if k[0] == "move":
                ck.same("reindexing", "Entry.reindex position", subst(norm_index(k[3]), {P: G}), arith("+", s("index#int"), first), w, f)
    n = Net(E_.o_get(e, "index", KDBX4, sc), f)
    ck.same("reindexing", "Entry.index", subst(norm_index(n.value), {P: G}),
            arith("-", mk("m", "index", G, elem_of(e)), mk("m", "index", G, q(G, "Entry"))),
            where_fn(E_, "Entry", "index"), f)


@rule("C20")
def additions(ck):
    """add_entry and add_group attach exactly one new element to the destination and return the object wrapping it; an
    entry is refused exactly when one with the same title and user name is directly in the destination and creation
    is not forced; a refusal has no effect."""
    E_ = ck.eng
    d = E_.obj("Group", "destination")
    t, u, p = s("title#str"), s("username#str"), s("password#str")
    dup = mk("api", "find_entries", tuple(sorted({"title": t, "username": u, "first": TRUE, "group": d, "recursive": FALSE}.items())))
    w = where_fn(E_, "PyKeePass", "add_entry")
    for ver in VERSIONS:
        for what, kw, exp in (("add_entry", {}, neg(isnone(dup))), ("add_entry(force_creation=False)", {"force_creation": FALSE}, neg(isnone(dup))),
                              ("add_entry(force_creation=True)", {"force_creation": TRUE}, FALSE)):
            res = E_.kp_call("add_entry", [d, t, u, p], kw, ver)
            n = Net(res)
            what = "%s KDBX%d" % (what, ver[0])
            r = n.raising()
            if exp is not FALSE and not any(x.op == "api" for x in subterms(r)) and r is not FALSE and not r is TRUE:
                ck.maybe("additions", what + " refusal", "refusal condition not in terms of a search: " + pretty(r)[:200])
            else:
                ck.same("additions", what + " refuses exactly duplicates", r, exp, w, n.facts)
            judge(ck, "additions", what + " effect", Net(res, dict(n.facts, **{}) if exp is FALSE else F(missing(dup))),
                  lambda k: "attaching the new entry" if k[0] == "attach" and k[1] is elem_of(d) and tag(k[2]) == "Entry" and not k[-1] else None,
                  w, ["attaching the new entry"])
            refusals(ck, "additions", what + " refusal has no effect", res, w)
            n2 = Net(res, F(missing(dup)))
            at = [k for k in n2.eff if k[0] == "attach"]
            if len(at) == 1 and n2.value.op == "wrap":
                ck.need("additions", what + " returns the new entry", n2.value.a[0] == "Entry" and n2.value.a[1] is at[0][2] or None if not definite(n2.value) else
                        (n2.value.a[0] == "Entry" and n2.value.a[1] is at[0][2]), w, "returns %s" % pretty(n2.value)[:200])
            elif len(at) > 1:
                ck.bad("additions", what, w, "%d elements attached" % len(at))
            elif definite(n2.value) and len(at) == 1:
                ck.bad("additions", what + " returns the new entry", w, "returns %s" % pretty(n2.value)[:200])
        nm = s("name#str")
        w2 = where_fn(E_, "PyKeePass", "add_group")
        for kw in ({}, {"icon": s("icon#str")}, {"notes": s("notes#str")}):
            res = E_.kp_call("add_group", [d, nm], kw, ver)
            what = "add_group(%s) KDBX%d" % (", ".join(kw), ver[0])
            n = Net(res)
            no_raise(ck, "additions", what, n, w2)
            judge(ck, "additions", what + " effect", n,
                  lambda k: "attaching the new group" if k[0] == "attach" and k[1] is elem_of(d) and tag(k[2]) == "Group" and not k[-1] else None,
                  w2, ["attaching the new group"])
            for f, v in cases_of(n.value):
                at = [simp(k[2], f) for k in n.eff if k[0] == "attach" and decide(n.eff[k], f) is not False]
                if v.op == "wrap" and at:
                    ck.need("additions", what + " returns the new group", v.a[0] == "Group" and any(ungi(v.a[1], f) is ungi(x, f) for x in at), w2,
                            "returns %s" % pretty(v)[:200])
                elif definite(v):
                    ck.bad("additions", what + " returns the new group", w2, "returns %s" % pretty(v)[:200])


# ------------------------------------------------------------------ C18
def uncopy(t, e):
    """Conditions about the copy, before it was edited, are conditions about the original."""
    m = {}
    for x in subterms(t):
        if x.op == "q" and x.a[0].op == "copy" and x.a[0].a[0] is e:
            m[x] = mkq(e, x.a[1], x.a[2])
    return subst(t, m) if m else t


@rule("C18")
def history_saving(ck):
    """save_history attaches, at the end of the History element (created when missing), one deep copy of the entry
    from which the nested History was removed, and changes nothing of the live entry."""
    E_ = ck.eng
    for cls in ("Entry", "HistoryEntry"):
        o = obj(ck, cls)
        e = elem_of(o)
        H = q(e, "History")
        w = where_fn(E_, cls, "save_history")
        res = E_.o_call(o, "save_history", [], (), KDBX4)
        for nm, f in (("no history yet", F(missing(H))), ("history exists", F(exists(H)))):
            n = Net(res)
            n.eff = {k: simp(uncopy(v, e), f) for k, v in n.eff.items()}
            n.facts.update(f)
            what = "%s.save_history (%s)" % (cls, nm)

            def is_copy(x):
                return x.op == "copy" and x.a[0] is e

            def cl(k):
                if k[0] == "detach" and k[-1] and k[1].op == "iv" and k[1].a[0].op == "q" and is_copy(k[1].a[0].a[0]) and \
                        k[1].a[0].a[1] == (child("History"),):
                    return "removing the nested history from the copy"
                if k[-1]:
                    return None
                if k[0] == "detach" and k[1].op == "q" and is_copy(k[1].a[0]) and k[1].a[1] == (child("History"),):
                    return "removing the nested history from the copy"
                if k[0] in ("detach", "text", "attr", "delattr", "field") and rooted(k[1]).op == "copy":
                    return False
                if k[0] in ("attach", "move") and k[1] is H and is_copy(k[2]) and nm == "history exists":
                    return "appending the copy to the history" if is_c(k[3], "end") else False
                if k[0] == "attach" and k[1] is e and tag(k[2]) == "History" and nm != "history exists":
                    ks = kids(k[2])
                    if ks is not None and len(ks) == 1 and is_copy(ks[0]):
                        return "creating the history with the copy"
                    return False if ks is not None else None
                if k[0] == "attach" and k[1] is e and tag(k[2]) == "History":
                    return False
                if k[0] == "attach" and k[1].op == "elem" and tag(k[1]) == "History":
                    return "filling the new history element"
                if k[0] in ("move",) and k[2] is e:
                    return False
                return None
            need = ["appending the copy to the history", "removing the nested history from the copy"] if nm == "history exists" else \
                ["creating the history with the copy"]
            judge(ck, "history_saving", what, n, cl, w, need)
            # order: the nested history leaves the copy before or after attaching, never the live one
        n = Net(res)
        no_raise(ck, "history_saving", cls + ".save_history", n, w)


@rule("C18")
def history_deleting(ck):
    """delete_history(item) detaches that item only; delete_history(all=True) detaches the whole History element; the
    history property lists the items of the entry's own History in document order as HistoryEntry objects."""
    E_ = ck.eng
    h = obj(ck, "HistoryEntry")
    o = obj(ck, "Entry")
    e = elem_of(o)
    H = q(e, "History")
    f = F(exists(H))
    w = where_fn(E_, "Entry", "delete_history")
    for what, args, kw in (("delete_history(item)", [h], {}), ("delete_history(history_entry=item)", [], {"history_entry": h}),
                           ("delete_history(item, all=False)", [h], {"all": FALSE})):
        n = Net(E_.o_call(o, "delete_history", args, kw, KDBX4, [exists(H)]), f)
        judge(ck, "history_deleting", "Entry." + what, n,
              lambda k: "removing the item" if (k[0] == "remove" and k[1] is H and k[2] is elem_of(h) or k[:2] == ("detach", elem_of(h))) and not k[-1] else None,
              w, ["removing the item"])
    for what, args, kw in (("delete_history(all=True)", [], {"all": TRUE}), ("delete_history(None, True)", [NONE, TRUE], {})):
        res = E_.o_call(o, "delete_history", args, kw, KDBX4, [exists(H)])
        n = Net(res, f)

        def cl(k):
            if k[0] == "detach" and k[1] is H and not k[-1]:
                return "removing the history"
            if k[0] == "detach" and k[1].op == "iv" and k[1].a[0] in (q(e, "History/*", mode="all"), q(e, "History/Entry", mode="all")) and \
                    len(k[-1]) == 1 and k[-1][0].a[0] is k[1].a[0]:
                return "removing the history"
            if k[0] == "raw" and k[2].op == "mut" and k[2].a[0] == "clear" and k[2].a[1] is H:
                return "removing the history"
            return None
        live = [ev for ev in res.ev("liveiter") if unver(ev.data) is H]
        if live and any(k[0] == "detach" and k[1].op == "iv" and k[-1] for k in n.eff) and not any(k[0] == "detach" and k[1] is H for k in n.eff):
            ck.bad("history_deleting", "Entry." + what, live[0].where(), "removes items from the history while walking over it, which leaves every other one in place")
        elif n.eff and all(k[-1] and not cl(k) for k in n.eff):
            ck.maybe("history_deleting", "Entry." + what, n.show()[:200])
        else:
            judge(ck, "history_deleting", "Entry." + what, n, cl, w, ["removing the history"])
    w = where_fn(E_, "Entry", "history")
    X = q(e, "History/Entry", mode="all")
    n = Net(E_.o_get(o, "history", KDBX4, [exists(H)]), f)
    ck.same("history_deleting", "Entry.history lists the items in order", n.value,
            mk("comp", X, TRUE, mk("wrap", "HistoryEntry", mk("iv", X))), w, f)
    f = F(missing(H))
    n = Net(E_.o_get(o, "history", KDBX4, [missing(H)]), f)
    v = n.value
    if v.op == "comp" and v.a[0].op == "q" and v.a[0].a[0] is e and v.a[0].a[1][:1] == (child("History"),):
        ck.ok("history_deleting", "Entry.history is empty without History")
    else:
        ck.same("history_deleting", "Entry.history is empty without History", v, mk("list"), w, f)


@rule("C18")
def history_flag(ck):
    """is_a_history_entry is true exactly for entries whose parent is a History element."""
    E_ = ck.eng
    o = obj(ck, "Entry")
    P = mkq(elem_of(o), (("parent", "node()", ()),), "first")
    sc = [exists(P)]
    n = Net(E_.o_get(o, "is_a_history_entry", KDBX4, sc), F(*sc))
    ck.same("history_flag", "Entry.is_a_history_entry", n.value, cmp("==", mk(".", P, "tag"), c("History")),
            where_fn(E_, "Entry", "is_a_history_entry"), n.facts)


# ------------------------------------------------------------------ C19
def bin_api():
    return mk("api", "find_groups", (("first", TRUE), ("uuid", mk("uuid", mk("unb64", text(meta("RecycleBinUUID")))))))


ROOTAPI = mk("api", "find_groups", (("path", c("")),))


def selfmatch(t):
    """Whether an element matches its own identifier: resolves b64(unb64(x)) round trips and self matches."""
    for _ in range(3):
        m = {}
        for x in subterms(t):
            if x.op == "b64" and x.a[0].op == "unb64":
                m[x] = x.a[0].a[0]
            if x.op == "." and x.a[1] == "bytes" and x.a[0].op == "uuid":
                m[x] = x.a[0].a[0]
        t2 = subst(t, m) if m else t
        m = {}
        for x in subterms(t2):
            if x.op == "isnone" and x.a[0].op == "q" and len(x.a[0].a[1]) == 1:
                st = x.a[0].a[1][0]
                B = x.a[0].a[0]
                if st[0] == "self" and st[2] == (("has", (child("UUID", ("teq", text(q(B, "UUID")))),)),):
                    m[x] = FALSE
        t2 = subst(t2, m) if m else t2
        if t2 is t:
            return t
        t = t2
    return t


@rule("C19")
def trashing(ck):
    """With an existing bin, trashing has one effect: the same element moves under it; without one, a new group is
    attached to the root group, its identifier is stored as RecycleBinUUID and the element moves under it. Trashing
    the root group or the bin itself raises UnableToSendToRecycleBin on every path, and nothing else is refused."""
    E_ = ck.eng
    B = bin_api()
    M = meta("RecycleBinUUID")
    for ver in VERSIONS:
        for meth, o in (("trash_entry", obj(ck, "Entry")), ("trash_group", obj(ck, "Group"))):
            w = where_fn(E_, "PyKeePass", meth)
            e = elem_of(o)
            U = q(e, "UUID")
            base = [exists(ROOTAPI), exists(M), exists(U), exists(text(U))]
            tagv = "KDBX%d" % ver[0]
            res = E_.kp_call(meth, [o], (), ver, base)
            # what can refuse
            n = Net(res, F(*base))
            f = dict(n.facts)
            bu = text(q(B, "UUID"))
            for x in subterms(n.raising()):
                if is_bool(x) and x.op == "cmp" and x.a[0] == "==" and {x.a[1], x.a[2]} == {o, mk("wrap", "Group", ROOTAPI)}:
                    f[x] = False
                if x.op == "isnone" and x.a[0].op == "q" and x.a[0].a[0] is B and x.a[0].a[1][:1] and x.a[0].a[1][0][0] == "self" \
                        and contains(x, text(U)):
                    f[x] = True
                if x.op == "cmp" and x.a[0] == "==" and contains(x, text(U)) and (contains(x, B) or contains(x, ROOTAPI)):
                    f[x] = False
                if x.op == "cmp" and x.a[0] == "==" and {x.a[1], x.a[2]} == {o, mk("wrap", "Group", B)}:
                    f[x] = False
            r, d = equiv(simp(n.raising(), f), FALSE, f)
            ck.verdict("trashing", "%s %s refuses nothing but the root group and the bin" % (meth, tagv), r, w,
                       "raises %s also when %s" % ("/".join(map(str, n.raises)), pretty(simp(n.raising(), f))[:300]))
            refusals(ck, "trashing", "%s %s refusal has no effect" % (meth, tagv), res, w)
            # existing bin
            f1 = dict(f)
            add_fact(f1, isnone(B), False)
            n1 = Net(res, f1)
            judge(ck, "trashing", "%s %s with a bin" % (meth, tagv), n1,
                  lambda k: "moving the element to the bin" if k[0] == "move" and k[1] is B and k[2] is e and not k[-1] else None,
                  w, ["moving the element to the bin"])
            f2 = dict(f)
            add_fact(f2, isnone(B), True)
            n2 = Net(res, f2)
            bins = [k[2] for k in n2.eff if k[0] == "attach" and k[1] is ROOTAPI]

            def cl(k):
                if k[-1]:
                    return None
                if k[0] == "attach" and k[1] is ROOTAPI and tag(k[2]) == "Group":
                    return "creating the bin under the root group"
                if k[0] == "text" and k[1] is M:
                    for b in bins:
                        us = [x for x in kids(b, f2) or [] if tag(x) == "UUID"]
                        if us and text_of(us[0]) is k[2]:
                            return "registering the bin"
                    return False if definite(k[2]) else None
                if k[0] in ("move", "attach") and k[2] is e:
                    if any(k[1] is b for b in bins):
                        return "moving the element to the new bin"
                    if k[1].op == "elem" and tag(k[1]) == "Group":
                        return "moving the element to the new bin"
                    return False
                return None
            judge(ck, "trashing", "%s %s without a bin" % (meth, tagv), n2, cl, w,
                  ["creating the bin under the root group", "registering the bin", "moving the element to the new bin"])
        # refusals
        w = where_fn(E_, "PyKeePass", "trash_group")
        for what, A, fs in (("the root group", ROOTAPI, []), ("the bin itself", B, [exists(B)])):
            o = mk("wrap", "Group", A)
            sc = [exists(ROOTAPI), exists(M), exists(q(A, "UUID"))] + fs
            n = Net(E_.kp_call("trash_group", [o], (), ver, sc), F(*sc))
            r = selfmatch(simp(n.raises.get("UnableToSendToRecycleBin", FALSE), n.facts))
            v, _ = equiv(r, TRUE, n.facts)
            ck.verdict("trashing", "trash_group refuses %s KDBX%d" % (what, ver[0]), v, w,
                       "%s is refused only when %s" % (what, pretty(r)[:300]))


@rule("C19")
def bin_lookup(ck):
    """recyclebin_group is the group whose identifier is stored as RecycleBinUUID; root_group is the group at the empty
    path."""
    E_ = ck.eng
    M = meta("RecycleBinUUID")
    sc = [exists(M)]
    n = Net(E_.kp_get("recyclebin_group", KDBX4, sc), F(*sc))
    B = bin_api()
    ck.same("bin_lookup", "PyKeePass.recyclebin_group", n.value, ite(isnone(B), NONE, mk("wrap", "Group", B)),
            where_fn(E_, "PyKeePass", "recyclebin_group"), n.facts)
    n = Net(E_.kp_get("root_group", KDBX4))
    rg = qx(ROOT, "/KeePassFile/Root/Group")
    if contains(n.value, rg):
        ck.same("bin_lookup", "PyKeePass.root_group", n.value, ite(isnone(rg), NONE, mk("wrap", "Group", rg)), where_fn(E_, "PyKeePass", "root_group"))
    else:
        ck.same("bin_lookup", "PyKeePass.root_group", n.value, ite(isnone(ROOTAPI), NONE, mk("wrap", "Group", ROOTAPI)),
                where_fn(E_, "PyKeePass", "root_group"))


@rule("C19")
def emptying(ck):
    """empty_group detaches every Entry and Group child of the given group and nothing else, without iterating over
    the children it removes."""
    E_ = ck.eng
    g = obj(ck, "Group")
    e = elem_of(g)
    w = where_fn(E_, "PyKeePass", "empty_group")
    res = E_.kp_call("empty_group", [g], (), KDBX4)
    n = Net(res)
    cover = {"Entry": FALSE, "Group": FALSE}
    ok = True
    for k, cnd in n.eff.items():
        done = False
        if k[0] == "detach":
            X = k[1]
            if X.op == "iv":
                X = X.a[0]
            if X.op == "q" and X.a[0] is e and len(X.a[1]) == 1 and X.a[1][0][0] == "child" and not X.a[1][0][2]:
                t = X.a[1][0][1]
                if t in cover and k[-1]:
                    A = q(e, t, mode="all")
                    # the loop runs as long as / for every such child
                    c2 = subst(cnd, {truthy(A): TRUE})
                    cover[t] = disj(cover[t], c2)
                    done = True
                elif t == "*" and k[1].op == "iv":
                    for tt in cover:
                        cover[tt] = disj(cover[tt], subst_tag(cnd, k[1], tt))
                    other = subst_tag(cnd, k[1], "Name")
                    r, _ = equiv(other, FALSE)
                    if r is False:
                        ck.bad("emptying", "PyKeePass.empty_group", n.where.get(k, w), "removes other children of the group too: " + eff_str(k))
                        ok = False
                    done = True
                elif t in cover and not k[-1]:
                    ck.bad("emptying", "PyKeePass.empty_group removes every %s" % t, n.where.get(k, w), "only one %s is removed: %s" % (t, eff_str(k)))
                    ok, done = False, True
        if not done:
            if all(definite(x) for x in k if isinstance(x, T)):
                ck.bad("emptying", "PyKeePass.empty_group", n.where.get(k, w), "unexpected effect: " + eff_str(k))
            else:
                ck.maybe("emptying", "PyKeePass.empty_group", eff_str(k))
            ok = False
    if ok:
        for t, cnd in cover.items():
            r, _ = equiv(cnd, TRUE)
            if r is False and n.unknowns:
                r = None
            ck.verdict("emptying", "PyKeePass.empty_group removes every " + t, r, w, "children %s are removed only when %s" % (t, pretty(cnd)[:200]))
    for ev in res.ev("liveiter"):
        for k in n.eff:
            if k[0] == "detach" and k[1].op == "iv" and k[1].a[0].op == "q" and k[1].a[0].a[0] is ev.data and \
                    k[1].a[0].a[1] == (child("*"),):
                ck.bad("emptying", "PyKeePass.empty_group visits every child", ev.where(),
                       "children are removed while the group element itself is being iterated, so some are skipped")


def subst_tag(cnd, iv, t):
    m = {}
    for x in subterms(cnd):
        if x.op == "." and x.a[1] == "tag" and x.a[0] is iv:
            m[x] = c(t)
    r = subst(cnd, m) if m else cnd
    A = iv.a[0]
    return subst(r, {truthy(A): TRUE})


# ------------------------------------------------------------------ C21
def inner_bins():
    return mk(".", mk(".", mk(".", mk(".", s("kdbx"), "body"), "payload"), "inner_header"), "binary")


PAYLOAD = mk(".", mk(".", s("kdbx"), "body"), "payload")


@rule("C21")
def adding_binaries(ck):
    """add_binary stores exactly the given bytes at the end of the store (with the flag byte or base64/gzip form the
    reader undoes) and returns the number of binaries there were before."""
    E_ = ck.eng
    d = s("data#bytes")
    w = where_fn(E_, "PyKeePass", "add_binary")
    L = inner_bins()
    sc = [exists(PAYLOAD)]
    for what, kw, flag in (("protected=True", {"protected": TRUE}, b"\x01"), ("protected=False", {"protected": FALSE}, b"\x00"), ("default", {}, b"\x01")):
        n = Net(E_.kp_call("add_binary", [d], kw, KDBX4, sc), F(*sc))
        what = "add_binary(%s) KDBX4" % what

        def cl(k):
            if k[0] == "raw" and k[2].op == "mut" and k[2].a[0] == "append" and k[2].a[1] is L and not k[-1]:
                x = k[2].a[2][0]
                dd = container(x)
                if dd is None:
                    return None
                r, _ = equiv(dd.get("data", NONE), cat(c(flag), d))
                if r is False or not is_c(dd.get("type", NONE), "binary"):
                    return False
                return "appending the data" if r else None
            return None
        judge(ck, "adding_binaries", what, n, cl, w, ["appending the data"])
        ck.same("adding_binaries", what + " returns the position", n.value, mk("len", L), w, n.facts)
        no_raise(ck, "adding_binaries", what, n, w)
    n = Net(E_.kp_get("binaries", KDBX4, sc), F(*sc))
    ck.same("adding_binaries", "binaries KDBX4 lists the data without the flag byte, in order", n.value,
            mk("comp", L, TRUE, mk("sl", mk(".", mk("iv", L), "data"), c(1), NONE, NONE)), where_fn(E_, "PyKeePass", "binaries"), n.facts)
    # KDBX3
    Bs = meta("Binaries")
    X = mkq(ROOT, Bs.a[1] + (child("Binary"),), "all")
    sc = [exists(PAYLOAD), exists(Bs)]
    for comp in (True, False, None):
        kw = {} if comp is None else {"compressed": c(comp)}
        n = Net(E_.kp_call("add_binary", [d], kw, KDBX3, sc), F(*sc))
        what = "add_binary(%s) KDBX3" % ("default" if comp is None else "compressed=%s" % comp)

        def cl3(k):
            if k[0] == "attach" and k[1] is Bs and tag(k[2]) == "Binary" and not k[-1]:
                at = attrs(k[2])
                flag = at.get("Compressed", c("False"))
                if is_c(at.get("ID", NONE)) or not equiv(at.get("ID", NONE), mk("str", mk("len", X)))[0]:
                    return False if definite(at.get("ID", NONE)) else None
                tx = text_of(k[2])
                if is_c(flag, "True"):
                    return "appending the data" if gzipped(tx, d) else (False if definite(tx) else None)
                return "appending the data" if tx is mk("b64", d) else (False if definite(tx) else None)
            return None
        judge(ck, "adding_binaries", what, n, cl3, w, ["appending the data"])
        ck.same("adding_binaries", what + " returns the position", n.value, mk("len", X), w, n.facts)
    n = Net(E_.kp_get("binaries", KDBX3, sc), F(*sc))
    v = n.value
    w = where_fn(E_, "PyKeePass", "binaries")
    iv = mk("iv", X)
    idx = mk("int", mk("xattr", iv, c("ID")))
    body = None
    if v.op == "comp" and v.a[0] is X and v.a[1] is TRUE:
        it = v.a[2]
        if it.op == "ins":
            # list.insert() beyond the end appends: right only when the identifiers are stored in ascending order
            ck.bad("adding_binaries", "binaries KDBX3 are positioned by their stored ID", w,
                   "inserted at their identifier in document order, so stored identifiers 2, 1, 0 end at other positions: " + pretty(it.a[0])[:200])
            body = it.a[1]
        else:
            # document order instead of the identifier
            ck.bad("adding_binaries", "binaries KDBX3 are positioned by their stored ID", w, "listed in document order: " + pretty(v)[:200])
    elif v.op == "comp" and v.a[0].op == "sorted" and v.a[0].a[0] is X:
        ck.same("adding_binaries", "binaries KDBX3 are positioned by their stored ID", v.a[0].a[1], idx, w)
        if v.a[0].a[2] is not FALSE:
            ck.verdict("adding_binaries", "binaries KDBX3 in ascending order", False if is_c(v.a[0].a[2], True) else None, w, "listed by descending identifier")
        body = subst(v.a[2], {mk("iv", v.a[0]): iv})
        if body.op == "ins":
            ck.same("adding_binaries", "binaries KDBX3 are inserted at their stored ID", body.a[0], idx, w)
            body = body.a[1]
    else:
        ck.maybe("adding_binaries", "binaries KDBX3", pretty(v)[:200])
    if body is not None:
        tx = text(iv)
        raw = mk("unb64", tx)
        at = mk("xattr", iv, c("Compressed"))
        for nm, f in (("empty", F(missing(tx))), ("compressed", F(exists(tx), (truthy(tx), True), (cmp("==", at, c("True")), True), exists(at))),
                      ("plain", F(exists(tx), (truthy(tx), True), (cmp("==", at, c("True")), False)))):
            b = simp(body, f)
            if nm == "compressed":
                r = b.op == "call" and b.a[0] is ext("zlib.decompress") and b.a[1][0] is raw and gz_in(b)
                ck.need("adding_binaries", "binaries KDBX3 decompress gzip data", r if r or definite(b) else None, w, "computes " + pretty(b)[:200])
            else:
                ck.same("adding_binaries", "binaries KDBX3 %s data" % nm, b, c(b"") if nm == "empty" else raw, w, f)


def container(x):
    if x.op == "container":
        return {k: v for k, v in x.a[0]}
    if x.op == "dict":
        return {cv(k): v for k, v in x.a[0] if k.op == "c"}
    return None


def const_int(t):
    """Integer value of a term over the zlib constants."""
    import zlib
    if t.op == "c":
        return cv(t)
    if t.op == "x" and t.a[0].startswith("zlib."):
        return getattr(zlib, t.a[0][5:], None)
    if t.op == "op" and t.a[0] in ("|", "+"):
        a, b = const_int(t.a[1]), const_int(t.a[2])
        if a is None or b is None:
            return None
        return a | b if t.a[0] == "|" else a + b
    if t.op == "neg":
        a = const_int(t.a[0])
        return None if a is None else -a
    return None


def gzipped(t, d):
    """t = b64(gzip(d)) with one compressor, data then flush."""
    if t.op != "b64":
        return False
    t = t.a[0]
    if t.op == "call" and t.a[0] is ext("gzip.compress"):
        return t.a[1][0] is d
    parts = t.a if t.op == "cat" else (t.a[1:] if t.op == "op" and t.a[0] == "+" else ())
    if len(parts) != 2 or parts[0].op != "cpiece" or parts[1].op != "cflush" or parts[0].a[1] is not d:
        return False
    o = parts[0].a[0]
    if o is not parts[1].a[0]:
        return False
    kw = dict(o.a[2])
    wb = o.a[1][2] if len(o.a[1]) > 2 else kw.get("wbits")
    v = const_int(wb) if wb is not None else None
    return v is not None and 25 <= v <= 31


def gz_in(t):
    wb = t.a[1][1] if len(t.a[1]) > 1 else dict(t.a[2]).get("wbits")
    v = const_int(wb) if wb is not None else None
    return v is not None and (25 <= v <= 31 or 40 <= v <= 47)


@rule("C21")
def attachment_data(ck):
    """An attachment's data is the element of the list of binaries at its own reference, and an unknown reference
    raises BinaryError; add_attachment writes exactly that reference and file name."""
    E_ = ck.eng
    a = obj(ck, "Attachment")
    V = q(elem_of(a), "Value")
    for ver in VERSIONS:
        sc = [exists(PAYLOAD), exists(V)]
        for attr in ("binary", "data"):
            w = where_fn(E_, "Attachment", attr)
            res = E_.o_get(a, attr, ver, sc)
            n = Net(res, F(*sc))
            ip = E_.new(ver)
            bins = Net(E_.kp_get("binaries", ver, sc), F(*sc)).value
            exp = unver(ip.freeze(ip.item(bins, mk("int", mk("xattr", V, c("Ref"))))))
            ck.same("attachment_data", "Attachment.%s KDBX%d" % (attr, ver[0]), n.value, exp, w, n.facts)
            n0 = Net(res, F(*sc), noexc=False)
            cond = n0.raises.get("BinaryError", FALSE)
            has = any(x.op == "exc" and "IndexError" in show(x) or x.op == "exc" and "LookupError" in show(x) for x in subterms(cond)) or \
                any(x.op == "cmp" and x.a[0] in ("<", "<=") for x in subterms(cond))
            if has:
                ck.ok("attachment_data", "Attachment.%s KDBX%d unknown id raises BinaryError" % (attr, ver[0]))
            elif cond is FALSE and not res.unknowns:
                ck.bad("attachment_data", "Attachment.%s KDBX%d unknown id raises BinaryError" % (attr, ver[0]), w,
                       "no path raises BinaryError")
            else:
                ck.maybe("attachment_data", "Attachment.%s unknown id" % attr, pretty(cond)[:200])
    for cls in ("Entry", "HistoryEntry"):
        o = obj(ck, cls)
        i, f = s("id#int"), s("filename#str")
        res = E_.o_call(o, "add_attachment", [i, f], (), KDBX4)
        n = Net(res)
        w = where_fn(E_, cls, "add_attachment")

        def cl(k):
            if k[0] == "attach" and k[1] is elem_of(o) and tag(k[2]) == "Binary" and not k[-1]:
                ks = {tag(x): x for x in kids(k[2]) or []}
                if set(ks) == {"Key", "Value"} and text_of(ks["Key"]) is f and attrs(ks["Value"]) == {"Ref": mk("str", i)} and not ks["Value"].a[2]:
                    return "attaching the reference"
                return False
            return None
        judge(ck, "attachment_data", cls + ".add_attachment", n, cl, w, ["attaching the reference"])
        at = [k for k in n.eff if k[0] == "attach"]
        if len(at) == 1:
            ck.same("attachment_data", cls + ".add_attachment returns it", n.value, mk("wrap", "Attachment", at[0][2]), w)
    o = obj(ck, "Entry")
    w = where_fn(E_, "Entry", "attachments")
    n = Net(E_.o_get(o, "attachments", KDBX4))
    v = n.value
    okq = q(elem_of(o), "Binary", mode="all")
    if v.op == "comp" and v.a[0].op == "api":
        kw = dict(v.a[0].a[1])
        good = v.a[0].a[0] == "find_attachments" and kw.get("element") is o and is_c(kw.get("recursive", NONE), False) and \
            "history" not in kw and (("filename" not in kw) or (is_c(kw["filename"], ".*", "") and is_c(kw.get("regex", NONE), True))) and \
            not set(kw) - {"element", "recursive", "filename", "regex"}
        ck.need("attachment_data", "Entry.attachments lists the entry's own attachments", good, w, pretty(v)[:200])
    elif v.op == "comp" and v.a[0] is okq:
        ck.ok("attachment_data", "Entry.attachments lists the entry's own attachments")
    else:
        ck.maybe("attachment_data", "Entry.attachments", pretty(v)[:200])


@rule("C21")
def deleting_binaries(ck):
    """delete_binary removes the one addressed binary, detaches every attachment with that reference including those in
    history, lowers every greater reference and (KDBX3) stored identifier by one, in that order; an unknown or
    negative identifier raises BinaryError before any effect."""
    E_ = ck.eng
    i = s("id#int")
    w = where_fn(E_, "PyKeePass", "delete_binary")
    L = inner_bins()
    Bs = meta("Binaries")
    X = mkq(ROOT, Bs.a[1] + (child("Binary"),), "all")
    for ver in VERSIONS:
        sc = [exists(PAYLOAD), exists(Bs), (cmp("<", i, c(0)), False)]
        res = E_.kp_call("delete_binary", [i], (), ver, sc)
        n = Net(res, F(*sc))
        T_ = "KDBX%d" % ver[0]

        def classify(k):
            loops = k[-1]
            if k[0] == "raw" and k[2].op == "mut" and k[2].a[1] is L and not loops:
                if k[2].a[0] == "pop" and k[2].a[2] == (i,):
                    return "removing the binary" if ver is KDBX4 else False
                if k[2].a[0] == "delitem" and k[2].a[2][:1] == (i,):
                    return "removing the binary" if ver is KDBX4 else False
                return False
            if k[0] == "detach" and ver is KDBX3 and not loops:
                x = k[1]
                if x.op in ("[]", "pop") and x.a[0].op == "sorted" and x.a[0].a[0] is X and x.a[1] is i:
                    ks = x.a[0].a[1]
                    return "removing the binary" if ks is mk("int", mk("xattr", mk("iv", X), c("ID"))) and is_c(x.a[0].a[2], False) else False
                if x.op in ("[]", "pop") and x.a[0] is X:
                    return False        # document order, not the identifier
                if x.op == "q" and x.a[1][:-1] == Bs.a[1] and idmatch(x.a[1][-1], i):
                    return "removing the binary"
            if k[0] == "detach" and loops and len(loops) == 1:
                return one_by_one(k[1], n.eff[k], i, "==", "removing the attachments that refer to it") or refs(k[1], loops[0], i)
            if k[0] == "attr" and is_c(k[2], "Ref") and loops and len(loops) == 1:
                if k[1].op == "q" and k[1].a[1] == (child("Value"),) and equiv(k[3], mk("str", arith("-", mk("int", mk("xattr", k[1], c("Ref"))), c(1))))[0] is True:
                    r = one_by_one(k[1].a[0], n.eff[k], i, ">", "lowering greater references")
                    if r:
                        return r
                return lowered(k, loops[0], i)
            if k[0] == "attr" and is_c(k[2], "ID") and ver is KDBX3 and loops:
                return renumber(k, loops[0], i, X)
            return None
        need = ["removing the binary", "removing the attachments that refer to it", "lowering greater references"]
        if ver is KDBX3:
            need.append("renumbering the stored identifiers")
        # conditions of loop bodies may mention the loop element
        judge(ck, "deleting_binaries", "delete_binary " + T_, n, classify, w, need)
        order = []
        for k in n.eff:
            cl = classify(k)
            cl = cl[0] if isinstance(cl, tuple) else cl
            if cl in need:
                order.append(cl)
        if "removing the attachments that refer to it" in order and "lowering greater references" in order:
            evs = {}
            for e in res.events:
                if e.kind == "mut" and e.loops:
                    op = e.data.a[0] if e.data.op == "mut" else ""
                    evs.setdefault("det" if op == "remove" else ("low" if op == "set" and is_c(e.data.a[2][0], "Ref") else "x"), e)
            if "det" in evs and "low" in evs and evs["det"].loops == evs["low"].loops:
                ck.ok("deleting_binaries", "delete_binary %s detaches before it lowers" % T_)      # one or the other for every attachment
            elif "det" in evs and "low" in evs:
                ck.need("deleting_binaries", "delete_binary %s detaches before it lowers" % T_, evs["det"].n < evs["low"].n,
                        evs["low"].where(), "references are lowered first, so attachments of the next binary are detached")
        n0 = Net(E_.kp_call("delete_binary", [i], (), ver, sc), F(*sc), noexc=False)
        be = n0.raises.get("BinaryError", FALSE)
        others = {k: v for k, v in n0.raises.items() if k not in ("BinaryError",)}
        if any(x.op == "exc" for x in subterms(be)) or any(x.op == "cmp" and contains(x, mk("len", L)) or x.op == "cmp" and contains(x, mk("len", X)) for x in subterms(be)) \
                or any(x.op == "isnone" for x in subterms(be)):
            ck.ok("deleting_binaries", "delete_binary %s raises BinaryError for an unknown id" % T_)
        elif be is FALSE and not n0.unknowns:
            ck.bad("deleting_binaries", "delete_binary %s raises BinaryError for an unknown id" % T_, w, "no path raises BinaryError")
        else:
            ck.maybe("deleting_binaries", "delete_binary %s unknown id" % T_, pretty(be)[:200])
        refusals(ck, "deleting_binaries", "delete_binary %s refuses before any effect" % T_, res, w)
        sc = [exists(PAYLOAD), exists(Bs), (cmp("<", i, c(0)), True)]
        res = E_.kp_call("delete_binary", [i], (), ver, sc)
        n = Net(res, F(*sc), noexc=False)
        v, _ = equiv(n.raises.get("BinaryError", FALSE), TRUE, n.facts)
        if v is False and any(x.op == "exc" for x in subterms(n.raising())):
            pass
        ck.verdict("deleting_binaries", "delete_binary %s refuses a negative id" % T_, v, w, "a negative id is accepted")


def idmatch(st, i):
    return st[0] == "child" and st[1] == "Binary" and contains(mk("x_", *[p for p in st[2]]), i)


def one_by_one(x, cnd, i, op, name):
    """A change to one item of a loop over every attachment, made exactly when the item's reference is as asked:
    (name, what else the change depends on)."""
    if x.op != "iv" or x.a[0].op != "api" or x.a[0].a[0] != "find_attachments":
        return None
    kw = dict(x.a[0].a[1])
    every = is_c(kw.pop("filename", c(".*")), ".*") and (is_c(kw.pop("regex", FALSE), True) or "filename" not in dict(x.a[0].a[1]))
    if not every or not is_c(kw.pop("history", FALSE), True) or not is_c(kw.pop("recursive", TRUE), True) or any(v is not NONE for v in kw.values()):
        return None
    ref = mk("int", mk("xattr", mkq(x, (child("Value"),), "first"), c("Ref")))
    rest = {}
    for rel in "<=>":
        m = {cmp("==", ref, i): c(rel == "="), cmp("<", i, ref): c(rel == ">"), cmp("<", ref, i): c(rel == "<")}
        rest[rel] = simp(subst(cnd, m), {})
    at = "=" if op == "==" else op
    if any(equiv(v, FALSE)[0] is not True for r, v in rest.items() if r != at) or contains(rest[at], ref):
        return None
    return name, rest[at]


def refs(x, loop, i):
    if loop.op != "for" and not (isinstance(loop, T)):
        return None
    src = loop.a[0] if loop.a else None
    if x.op == "iv" and x.a[0] is src and src.op == "api":
        kw = dict(src.a[1])
        if src.a[0] != "find_attachments" or set(kw) - {"id", "history", "recursive", "element", "regex", "flags"}:
            return False
        if kw.get("id") is not i or not is_c(kw.get("history", FALSE), True) or "element" in kw:
            return False
        if not is_c(kw.get("recursive", TRUE), True) or not is_c(kw.get("regex", FALSE), False):
            return False
        return "removing the attachments that refer to it"
    if x.op == "iv" and x.a[0] is src and src.op == "q":
        return refq(src, i, "removing the attachments that refer to it", "==")
    return None


def refq(src, i, name, op):
    """An XPath over all attachments with a reference test."""
    p = src.a[1]
    if not (p and p[0][0] == "root") and src.a[0] is not ROOT:
        return None
    t = show(mk("x_", *[y for st in p for y in st[2]]))
    hist = "ancestor" in t and "History" in t
    if hist or any(r is False for r in shapes(p)):
        return False
    if unfiltered([y for st in p for y in st[2] if "acmp" not in show(mk("x_", y)) and "aeq" not in show(mk("x_", y))]) is False:
        return False
    return None


SHAPES = [["KeePassFile", "Root"] + ["Group"] * n + ["Entry"] + h + ["Binary", "Value"] for n in (1, 2, 4) for h in ([], ["History", "Entry"])]


def shapes(p):
    """For each place an attachment can have in the document: can the path arrive there?  (True, False, None)"""
    for chain in SHAPES:
        at, ok = {-1}, True
        for axis, name, _ in p:
            m = lambda j: 0 <= j < len(chain) and name in ("*", "node()", chain[j])
            if axis == "root":
                at = {-1}
            elif axis == "child":
                at = {j + 1 for j in at if m(j + 1)}
            elif axis == "desc1":
                at = {k for j in at for k in range(j + 1, len(chain)) if m(k)}
            elif axis == "parent":
                at = {j - 1 for j in at if m(j - 1)}
            else:
                ok = False
                break
        yield None if not ok else bool(at & {len(chain) - 1, len(chain) - 2})


def lowered(k, loop, i):
    src = loop.a[0]
    e = k[1]
    if src.op == "q" and src.a[2] == "all" and e.op == "q" and e.a[0] is mk("iv", src) and e.a[1] == (child("Value"),):
        V = e
    elif src.op == "q" and e is mk("iv", src):
        V = e
    elif src.op == "api" and e.op == "q" and e.a[0] is mk("iv", src) and e.a[1] == (child("Value"),):
        V = e
    else:
        return None
    old = mk("int", mk("xattr", V, c("Ref")))
    r, _ = equiv(k[3], mk("str", arith("-", old, c(1))))
    if r is not True:
        return False if r is False else None
    if src.op == "api":
        kw = dict(src.a[1])
        return None if is_c(kw.get("history", FALSE), True) else False
    # the selecting predicate
    p = src.a[1]
    if p[0][0] != "root":
        return None
    names = [st[1] for st in p]
    if "Binary" not in names:
        return None
    if any(r is False for r in shapes(p)):
        return False
    t = show(mk("x_", *[y for st in p for y in st[2]]))
    if "History" in t:
        return False
    preds = [y for st in p for y in st[2]]
    ok = gt_pred(preds, i)
    if ok is True:
        ok = unfiltered(preds)
    if ok is True:
        return "lowering greater references"
    return ok


def unfiltered(preds):
    """Do the predicates besides the reference test hold for every attachment?"""
    out = True
    for p in preds:
        if p[0] == "acmp" or p[:2] == ("hasattr", "Ref") or p == ("has", (("child", "Key", ()),)):
            continue
        if p[0] == "has" and len(p[1]) == 1 and p[1][0][:2] == ("child", "Value"):
            r = unfiltered(p[1][0][2])
        elif p[0] == "has":
            r = False if any(st[1] == "text()" or st[2] for st in p[1]) else None
        else:
            r = False if p[0] in ("scmp", "teq", "seq", "hasattr", "contains", "not", "re:test") else None
        if r is False:
            return False
        out = out if r else None
    return out


def gt_pred(preds, i):
    """Does the predicate say @Ref > i?  True, False (another comparison with i) or None."""
    found = []

    def go(x):
        if isinstance(x, tuple):
            if len(x) >= 4 and x[0] == "acmp":
                found.append(x)
                return
            for y in x:
                go(y)
        elif isinstance(x, T):
            pass
    go(tuple(preds))
    if len(found) != 1:
        return None
    _, op, at, val = found[0][:4]
    if at != "Ref":
        return False
    v = val.a[0] if val.op in ("rawlit", "str", "hole") else val
    while v.op in ("str", "hole"):
        v = v.a[0]
    if op == ">" and v is i:
        return True
    if op == ">=" and v is arith("+", i, c(1)):
        return True
    return False if definite(v) else None


def renumber(k, loop, i, X):
    src = loop.a[0]
    if src.op == "without" and src.a[0].op == "sorted" and src.a[0].a[0] is X and src.a[1] is i and k[1] is mk("iv", src):
        want = mk("str", mk("ix", src))
        r, _ = equiv(k[3], want)
        return "renumbering the stored identifiers" if r else (False if r is False else None)
    if src.op == "q" and k[1] is mk("iv", src):
        old = mk("int", mk("xattr", k[1], c("ID")))
        r, _ = equiv(k[3], mk("str", arith("-", old, c(1))))
        if r is True:
            return "renumbering the stored identifiers"
    return None

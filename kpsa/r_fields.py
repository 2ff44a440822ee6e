"""C14 fields, C11 protection, C30 failed edits, C26 custom properties, C27 new elements."""
from .lib import *
from . import net as net_

STRINGS = {"title": "Title", "username": "UserName", "password": "Password", "url": "URL", "notes": "Notes",
           "otp": "otp"}
SUBS = {("Entry", "icon"): "IconID", ("Entry", "tags"): "Tags", ("Entry", "uuid"): "UUID",
        ("Group", "icon"): "IconID", ("Group", "uuid"): "UUID", ("Group", "name"): "Name", ("Group", "notes"): "Notes"}
TIMES = {"expiry_time": "ExpiryTime", "ctime": "CreationTime", "atime": "LastAccessTime",
         "mtime": "LastModificationTime"}
METAS = {"database_name": "DatabaseName", "database_description": "DatabaseDescription",
         "default_username": "DefaultUserName"}
KINDS = ("Entry", "Group", "HistoryEntry")


def obj(ck, cls):
    return ck.eng.obj(cls, {"Entry": "entry", "Group": "group", "HistoryEntry": "hist", "Attachment": "attachment"}[cls])


def string_field(o, K):
    S_ = q(elem_of(o), keyed("String", K))
    V = q(elem_of(o), keyed("String", K), "Value")
    return S_, V


def str_scen(o, K):
    S_, V = string_field(o, K)
    return {"absent": [missing(S_), missing(V)], "present": [exists(S_), exists(V)]}


# ------------------------------------------------------------------ string fields
def get_string(ck, rule_, cls, attr, getter, K, note=""):
    o = obj(ck, cls)
    S_, V = string_field(o, K)
    w = where_fn(ck.eng, cls, attr)
    for nm, sc in str_scen(o, K).items():
        n = Net(getter(o, sc), F(*sc))
        what = "%s.%s%s reads String[%s] (%s)" % (cls, attr, note, K if isinstance(K, str) else "key", nm)
        no_raise(ck, rule_, what, n, w)
        ck.same(rule_, what, n.value, text(V) if nm == "present" else NONE, w, n.facts)


def set_string(ck, rule_, cls, attr, setter, K, v, prot=None, note="", facts=()):
    """prot(present, V) -> expected protection term, or None if not checked here."""
    o = obj(ck, cls)
    S_, V = string_field(o, K)
    w = where_fn(ck.eng, cls, attr)
    for nm, sc in str_scen(o, K).items():
        sc = list(sc) + [x for x in facts if nm == "present" or not contains(x[0], V)]
        n = Net(setter(o, v, sc), F(*sc))
        what = "%s.%s%s (%s)" % (cls, attr, note, nm)
        no_raise(ck, rule_, what, n, w)
        wr = field_write(n, elem_of(o), S_, string_new(K), V, nm == "present")
        if prot is None:
            if report(ck, rule_, what, wr, w) is True:
                for cnd, val, p in wr.writes:
                    if val is not None:
                        ck.same(rule_, what, ite(cnd, val, v), v, w, n.facts)
        else:
            protection(ck, rule_, what, wr, n, prot(nm == "present", V), V, w)


def protection(ck, rule_, what, wr, n, expected, V, w):
    if wr.unsure:
        ck.maybe(rule_, what, "; ".join(wr.unsure)[:300])
        return
    old = mk("xattr", V, c("Protected"))
    # final mark: attribute effects win over the unchanged mark, new elements carry their own
    final = old
    for cnd, val, p in wr.writes:
        if val is not None:
            final = ite(cnd, old if p is KEEP else p, final)
    for cnd, val, p in wr.writes:
        if val is None:
            final = ite(cnd, p, final)
    ck.same(rule_, what, final, expected, w, n.facts)


@rule("C14")
def string_fields(ck):
    """Under 'field exists' and 'field missing', the getter's summary equals the text of the Value of the String whose
    Key is the attribute's KeePass name, and the setter's net effect is one write of the assigned value to that
    String and nothing else."""
    v = s("value#str")
    for cls in ("Entry", "HistoryEntry"):
        for attr, K in STRINGS.items():
            get_string(ck, "string_fields", cls, attr, lambda o, sc: ck.eng.o_get(o, attr, KDBX4, sc), K)
            set_string(ck, "string_fields", cls, attr, lambda o, v, sc: ck.eng.o_set(o, attr, v, KDBX4, sc), K, v)
        for K in (s("key#str"),):
            fs = [(cmp("==", K, c(r)), False) for r in RESERVED]
            get_string(ck, "string_fields", cls, "get_custom_property",
                       lambda o, sc: ck.eng.o_call(o, "get_custom_property", [K], (), KDBX4, sc + fs), K)
            set_string(ck, "string_fields", cls, "set_custom_property",
                       lambda o, v, sc: ck.eng.o_call(o, "set_custom_property", [K, v], (), KDBX4, sc), K, v, facts=fs)


RESERVED = ["Title", "UserName", "Password", "URL", "Tags", "IconID", "Times", "History", "Notes", "otp"]


# ------------------------------------------------------------------ direct subelements
def sub_value(attr, v):
    if attr == "uuid":
        return mk("b64", mk(".", v, "bytes"))
    return v


@rule("C14")
def subelements(ck):
    """The same for attributes kept in a direct child element (UUID, IconID, Tags, Name, Notes)."""
    for (cls, attr), t in SUBS.items():
        for cls_ in ((cls, "HistoryEntry") if cls == "Entry" else (cls,)):
            o = obj(ck, cls_)
            X = q(elem_of(o), t)
            w = where_fn(ck.eng, cls_, attr)
            tx = text(X)
            exp = {"uuid": mk("uuid", mk("unb64", tx)), "tags": None}.get(attr, tx)
            for nm, sc in (("absent", [missing(X)]), ("present", [exists(X)])):
                what = "%s.%s reads %s (%s)" % (cls_, attr, t, nm)
                if attr == "uuid":
                    if nm == "absent":
                        continue
                    sc2 = sc + [(truthy(tx), True)]
                    n = Net(ck.eng.o_get(o, attr, KDBX4, sc2), F(*sc2))
                    ck.same("subelements", what, n.value, exp, w, n.facts)
                elif attr == "tags":
                    empty = mk("list")
                    full = mk("m", "split", mk("m", "replace", tx, c(","), c(";")), c(";"))
                    n = Net(ck.eng.o_get(o, attr, KDBX4, sc), F(*sc))
                    e2 = empty if nm == "absent" else ite(truthy(tx), full, empty)
                    ck.same("subelements", what, n.value, e2, w, n.facts)
                else:
                    n = Net(ck.eng.o_get(o, attr, KDBX4, sc), F(*sc))
                    ck.same("subelements", what, n.value, tx if nm == "present" else NONE, w, n.facts)
                no_raise(ck, "subelements", what, n, w)
                vals = [s("value#str")] if attr != "uuid" else [s("value#UUID")]
                if attr == "tags":
                    vals.append(s("value#list"))
                for v in vals:
                    n = Net(ck.eng.o_set(o, attr, v, KDBX4, sc), F(*sc))
                    what = "%s.%s = %s writes %s (%s)" % (cls_, attr, v.a[0], t, nm)
                    no_raise(ck, "subelements", what, n, w)
                    wr = field_write(n, elem_of(o), X, sub_new(t), X, nm == "present")
                    if report(ck, "subelements", what, wr, w) is True:
                        ev = sub_value(attr, v)
                        if symtype(v) == "list":
                            ev = mk("join", c(";"), v)
                        for cnd, val, p in wr.writes:
                            if val is not None:
                                ck.same("subelements", what, ite(cnd, val, ev), ev, w, n.facts)


# ------------------------------------------------------------------ text of elements that every element has
def text_slot(ck, rule_, what, getn, setn, X, get_exp, set_exp, w, facts):
    if getn is not None:
        no_raise(ck, rule_, what + " read", getn, w)
        ck.same(rule_, what + " read", getn.value, get_exp, w, getn.facts)
    if setn is not None:
        no_raise(ck, rule_, what + " write", setn, w)
        writes(ck, rule_, what + " write", setn, X, set_exp, w)


def writes(ck, rule_, what, n, X, v, w):
    """All effects are one store of v as the text of X."""
    cond, ok = FALSE, True
    for k, cnd in n.eff.items():
        if k[0] == "text" and k[1] is X and not k[-1]:
            cond = disj(cond, cnd)
            ck.same(rule_, what, ite(cnd, k[2], v), v, n.where.get(k, w), n.facts)
            continue
        r, _ = equiv(cnd, FALSE, n.facts)
        if r is True:
            continue
        if all(definite(x) for x in k if isinstance(x, T)):
            ck.bad(rule_, what, n.where.get(k, w), "also changes: " + eff_str(k))
        else:
            ck.maybe(rule_, what, eff_str(k))
            ok = None
    if n.unknowns:
        ok = None
    r, _ = equiv(cond, TRUE, n.facts)
    if r is False and ok is True:
        ck.bad(rule_, what, w, "the value is not stored in %s (stored only when %s)" % (pretty(X), pretty(cond)[:200]))
    elif r is True:
        ck.ok(rule_, what)


@rule("C14")
def fixed_slots(ck):
    """Attributes kept as the text of an element every entry, group, attachment or database has: getter and setter
    use that element and no other."""
    E_ = ck.eng
    for cls in KINDS:
        o = obj(ck, cls)
        e = elem_of(o)
        T_ = q(e, "Times")
        X = q(e, "Times/Expires")
        w = where_fn(E_, cls, "expires")
        sc = [exists(T_), exists(X), exists(text(X))]
        b = s("value#bool")
        text_slot(ck, "fixed_slots", cls + ".expires", Net(E_.o_get(o, "expires", KDBX4, sc), F(*sc)),
                  Net(E_.o_set(o, "expires", b, KDBX4, sc), F(*sc)), X, cmp("==", text(X), c("True")),
                  ite(b, c("True"), c("False")), w, sc)
        for attr, t in TIMES.items():
            X = q(e, "Times/" + t)
            sc = [exists(T_), exists(X), *stored(X)]
            v = s("value#datetime")
            for ver in VERSIONS:
                enc, dec = codec(ck, ver)
                text_slot(ck, "fixed_slots", "%s.%s KDBX%d" % (cls, attr, ver[0]),
                          Net(E_.o_get(o, attr, ver, sc), F(*sc)),
                          Net(E_.o_set(o, attr, v, ver, sc), F(*sc)), X,
                          dec(text(X)), enc(v), where_fn(E_, cls, attr), sc)
                sc0 = [exists(T_), exists(X), (isnone(text(X)), True)]
                writes(ck, "fixed_slots", "%s.%s KDBX%d written where it is empty" % (cls, attr, ver[0]),
                       Net(E_.o_set(o, attr, v, ver, sc0), F(*sc0)), X, enc(v), where_fn(E_, cls, attr))
    for cls in ("Entry", "HistoryEntry"):
        o = obj(ck, cls)
        e = elem_of(o)
        for attr, p in (("autotype_enabled", "AutoType/Enabled"), ("autotype_sequence", "AutoType/DefaultSequence"),
                        ("autotype_window", "AutoType/Association/Window")):
            X = q(e, p)
            w = where_fn(E_, cls, attr)
            sc = [exists(X)] + ([exists(text(X))] if attr == "autotype_enabled" else [])
            v = s("value#bool") if attr == "autotype_enabled" else s("value#str")
            if attr == "autotype_enabled":
                ge, se = cmp("==", text(X), c("True")), ite(v, c("True"), c("False"))
            else:
                ge, se = ite(cmp("==", text(X), c("")), NONE, text(X)), v
            text_slot(ck, "fixed_slots", cls + "." + attr, Net(E_.o_get(o, attr, KDBX4, sc), F(*sc)),
                      Net(E_.o_set(o, attr, v, KDBX4, sc), F(*sc)), X, ge, se, w, sc)
            n = Net(E_.o_set(o, attr, NONE, KDBX4, sc), F(*sc))
            only(ck, "fixed_slots", "%s.%s assigned None" % (cls, attr), n, {("text", X, NONE): TRUE}, w)
            if attr != "autotype_enabled":
                # an element created before the field existed
                sc = [missing(X)]
                ck.same("fixed_slots", "%s.%s read where there is none" % (cls, attr),
                        Net(E_.o_get(o, attr, KDBX4, sc), F(*sc)).value, NONE, w, F(*sc))
    for attr, t in METAS.items():
        X = meta(t)
        sc = [exists(X)]
        v = s("value#str")
        text_slot(ck, "fixed_slots", "PyKeePass." + attr, Net(E_.kp_get(attr, KDBX4, sc), F(*sc)),
                  Net(E_.kp_set(attr, v, KDBX4, sc), F(*sc)), X, text(X), v, where_fn(E_, "PyKeePass", attr), sc)
    a = obj(ck, "Attachment")
    X = q(elem_of(a), "Key")
    V = q(elem_of(a), "Value")
    sc = [exists(X), exists(V)]
    v = s("value#str")
    text_slot(ck, "fixed_slots", "Attachment.filename", Net(E_.o_get(a, "filename", KDBX4, sc), F(*sc)),
              Net(E_.o_set(a, "filename", v, KDBX4, sc), F(*sc)), X, text(X), v, where_fn(E_, "Attachment", "filename"), sc)
    i = s("value#int")
    w = where_fn(E_, "Attachment", "id")
    ck.same("fixed_slots", "Attachment.id read", Net(E_.o_get(a, "id", KDBX4, sc), F(*sc)).value,
            mk("int", mk("xattr", V, c("Ref"))), w, F(*sc))
    only(ck, "fixed_slots", "Attachment.id write", Net(E_.o_set(a, "id", i, KDBX4, sc), F(*sc)),
         {("attr", V, c("Ref"), mk("str", i)): TRUE}, w)


def codec(ck, ver):
    """The database's own time encoding, as functions on terms, taken from the public creation-time attribute (its
    correctness is property C22)."""
    m = ck.__dict__.setdefault("_codec", {})
    if ver not in m:
        E_ = ck.eng
        o = E_.obj("Group", "codec")
        for a, tag in (("ctime", "CreationTime"), ("mtime", "LastModificationTime"), ("atime", "LastAccessTime"),
                       ("expiry_time", "ExpiryTime")):
            X = q(elem_of(o), "Times/" + tag)
            sc = [exists(q(elem_of(o), "Times")), exists(X), *stored(X)]
            n = Net(E_.o_set(o, a, s("value#datetime"), ver, sc), F(*sc))
            enc = [k[2] for k in n.eff if k[0] == "text"]
            dec = Net(E_.o_get(o, a, ver, sc), F(*sc)).value
            if len(enc) == 1 and contains(enc[0], s("value#datetime")) and contains(dec, text(X)):
                break
        else:
            raise AnalysisError("no time attribute stores one text")
        m[ver] = (lambda v: subst(enc[0], {s("value#datetime"): v}), lambda t: subst(dec, {text(X): t}))
    return m[ver]


@rule("C14", "C17")
def relations(ck):
    """group/parentgroup, entries, subgroups, history, attachments, entry, root_group, tree and version read the
    structural relation they are named after."""
    E_ = ck.eng
    for cls in KINDS:
        o = obj(ck, cls)
        e = elem_of(o)
        P = qx(e, "(ancestor::Group)[last()]")
        for attr in ("group", "parentgroup"):
            for nm, sc, exp in (("has parent", [exists(P)], mk("wrap", "Group", P)), ("orphan", [missing(P)], NONE)):
                n = Net(E_.o_get(o, attr, KDBX4, sc), F(*sc))
                ck.same("relations", "%s.%s (%s)" % (cls, attr, nm), n.value, exp, where_fn(E_, cls, attr), n.facts)
    g = obj(ck, "Group")
    for attr, t, k in (("entries", "Entry", "Entry"), ("subgroups", "Group", "Group")):
        X = q(elem_of(g), t, mode="all")
        n = Net(E_.o_get(g, attr, KDBX4))
        ck.same("relations", "Group." + attr, n.value, mk("comp", X, TRUE, mk("wrap", k, mk("iv", X))), where_fn(E_, "Group", attr))
    a = obj(ck, "Attachment")
    P = mkq(elem_of(a), (("parent", "node()", ()),), "first")
    sc = [exists(P)]
    n = Net(E_.o_get(a, "entry", KDBX4, sc), F(*sc))
    ck.same("relations", "Attachment.entry", n.value, mk("wrap", "Entry", P), where_fn(E_, "Attachment", "entry"), n.facts)


@rule("C17")
def path_attribute(ck):
    """path of an entry or group that lies one to three groups below the root group: the names of the groups in between, from
    the top down, then its own title or name; the loop is executed on the symbolic elements of that chain."""
    E_ = ck.eng
    R = "path_attribute"

    def own(cls, e):
        if cls == "Group":
            return q(e, "Name")
        return string_field(mk("wrap", "Entry", e), "Title")[1]

    def isroot(g, v):
        return (cmp("==", mk(".", mkq(g, (("parent", "node()", ()),), "first"), "tag"), c("Root")), v)
    for cls in KINDS:
        o = obj(ck, cls)
        e = elem_of(o)
        for depth in (0, 1, 2, 3, 6):
            for named in (True, False, "alike"):
                if named == "alike" and depth < 2:
                    continue
                chain, sc, x = [], [], e
                for i in range(depth + 1 if cls != "Group" else depth):
                    P = qx(x, "(ancestor::Group)[last()]")
                    sc.append(exists(P))
                    chain.append(P)
                    x = P
                if cls == "Group":
                    sc.append(isroot(e, depth == 0))
                for i, P in enumerate(chain):
                    last = i == len(chain) - 1
                    sc += [isroot(P, last), exists(q(P, "Name")), (truthy(text(q(P, "Name"))), True)]
                sc.append(missing(qx(x, "(ancestor::Group)[last()]")))
                V = own(cls, e)
                sc += [exists(V), (truthy(text(V)), True)] if named else [missing(V)]
                if named == "alike":
                    names = [text(q(P, "Name")) for P in chain[:-1]] + [text(V)]
                    sc += [(cmp("==", a, b), True) for i, a in enumerate(names) for b in names if a is not b]
                exp = [text(q(P, "Name")) for P in reversed(chain[:-1])] + [text(V) if named else NONE]
                if cls == "Group" and depth == 0:
                    exp = []
                ip = E_.new(KDBX4)
                ip.unroll = 12
                n = Net(E_.o_get(o, "path", KDBX4, sc, ip=ip), F(*sc))
                what = "%s.path, %d groups below the root group%s" % (cls, depth, "" if named is True else ", groups of the same name" if named else ", unnamed")
                v = n.value
                if v.op in ("list", "tuple") and not any(x.op in ("fold", "star", "gi", "ite", "mu", "call", "m") for x in subterms(v)):
                    ck.same(R, what, mk("list", *v.a), mk("list", *exp), where_fn(E_, cls, "path"), n.facts)
                elif v is NONE or v.op == "c":
                    ck.bad(R, what, where_fn(E_, cls, "path"), "is %s" % pretty(v))
                else:
                    ck.maybe(R, what, pretty(v)[:200])
    for cls in ("Entry", "HistoryEntry"):
        o = obj(ck, cls)
        sc = [missing(qx(elem_of(o), "(ancestor::Group)[last()]"))]
        n = Net(E_.o_get(o, "path", KDBX4, sc), F(*sc))
        ck.same(R, "%s.path outside any group" % cls, n.value, NONE, where_fn(E_, cls, "path"), n.facts)


# ------------------------------------------------------------------ C11 protection marks
@rule("C11")
def protection_marks(ck):
    """Final protection mark of a string field after a write, per scenario: new password and OTP fields are marked
    'True'; other attributes keep the mark the field has; an explicit protection argument is stored as given."""
    v = s("value#str")
    E_ = ck.eng
    for cls in ("Entry", "HistoryEntry"):
        for attr, K in STRINGS.items():
            o = obj(ck, cls)
            S_, V = string_field(o, K)
            secret = attr in ("password", "otp")
            set_string(ck, "protection_marks", cls, attr, lambda o, v, sc: E_.o_set(o, attr, v, KDBX4, sc), K, v,
                       prot=lambda present, V: mk("xattr", V, c("Protected")) if present else (
                           c("True") if secret else NONE),
                       note=" =", facts=[(truthy(text(V)), True)] if secret else [])
        K = s("key#str")
        fs = [(cmp("==", K, c(r)), False) for r in RESERVED]
        p = s("protect#bool")
        for note, args, kw, exp in (
                ("(key, value, protect)", [K, v, p], {}, ite(p, c("True"), c("False"))),
                ("(key, value, protect=protect)", [K, v], {"protect": p}, ite(p, c("True"), c("False"))),
                ("(key, value)", [K, v], {}, c("False")),
                ("(key, value, None)", [K, v, NONE], {}, None)):
            set_string(ck, "protection_marks", cls, "set_custom_property",
                       lambda o, v, sc: E_.o_call(o, "set_custom_property", args, kw, KDBX4, sc), K, v,
                       prot=lambda present, V: exp if exp is not None else (
                           mk("xattr", V, c("Protected")) if present else NONE),
                       note=note, facts=fs)
        o = obj(ck, cls)
        S_, V = string_field(o, K)
        for nm, sc in str_scen(o, K).items():
            n = Net(E_.o_call(o, "is_custom_property_protected", [K], (), KDBX4, sc + fs), F(*(sc + fs)))
            at = mk("xattr", V, c("Protected"))
            ck.same("protection_marks", "%s.is_custom_property_protected (%s)" % (cls, nm), n.value,
                    conj(neg(isnone(at)), cmp("==", at, c("True"))) if nm == "present" else FALSE,
                    where_fn(E_, cls, "is_custom_property_protected"), n.facts)


@rule("C11")
def new_entry_marks(ck):
    """Password and OTP of a newly built entry carry Protected='True'; no other new field claims or loses a mark."""
    for what, el, f, w in new_entries(ck):
        fl = flat(el, f)
        if fl is None:
            ck.maybe("new_entry_marks", what, "children not determined")
            continue
        for K in ("Password", "otp"):
            vals = fl.get("String:" + K)
            if vals:
                ck.same("new_entry_marks", "%s: %s is protected" % (what, K), vals[0][1], c("True"), w, f)
    g = obj(ck, "Group")
    p = s("password#str")
    fc = [(truthy(p), False)]
    n = Net(ck.eng.kp_call("add_entry", [g, s("title#str"), s("username#str"), p], {"force_creation": TRUE}, KDBX4, fc), F(*fc))
    for k in n.eff:
        if k[0] == "attach":
            fl = flat(simp(k[2], n.facts), n.facts)
            vals = (fl or {}).get("String:Password")
            if vals:
                ck.same("new_entry_marks", "add_entry(empty password) is protected", vals[0][1], c("True"), where_fn(ck.eng, "PyKeePass", "add_entry"), n.facts)
            else:
                ck.maybe("new_entry_marks", "add_entry(empty password)", "password field not determined")


def changing(ck):
    """(name, summary) of every changing operation that is not about string fields."""
    from .r_pure import members
    E_ = ck.eng
    h, g = E_.obj("HistoryEntry", "h"), E_.obj("Group", "g")
    v, dt, i = s("value#str"), s("value#datetime"), s("value#int")
    jobs = [("Entry", n, a, k) for n, a, k in (
        ("save_history", [], {}), ("delete_history", [h], {}), ("delete_history", [], {"all": TRUE}), ("reindex", [i], {}),
        ("touch", [TRUE], {}), ("add_attachment", [i, v], {}), ("delete_attachment", [E_.obj("Attachment", "a")], {}),
        ("delete_custom_property", [v], {}), ("delete", [], {}))]
    jobs += [("Group", n, a, k) for n, a, k in (("append", [E_.obj("Entry", "e")], {}), ("touch", [TRUE], {}), ("delete", [], {}))]
    jobs += [("Attachment", "delete", [], {})]
    jobs += [("PyKeePass", n, a, {}) for n, a in (
        ("move_entry", [E_.obj("Entry", "e"), g]), ("trash_entry", [E_.obj("Entry", "e")]), ("trash_group", [g]), ("empty_group", [g]),
        ("move_group", [g, E_.obj("Group", "d")]), ("delete_binary", [i]), ("add_binary", [s("value#bytes")]),
        ("delete_entry", [E_.obj("Entry", "e")]), ("delete_group", [g]), ("add_group", [g, v]))]
    for cls in ("Entry", "Group"):
        for k, m in members(E_, cls).items():
            if isinstance(m, T) and m.op == "prop" and not k.startswith("_") and not (cls == "Entry" and k in STRINGS) and k != "history":
                jobs.append((cls, k, None, dt if k in ("expiry_time", "ctime", "atime", "mtime") else v))
    for cls, nm, args, kw in jobs:
        try:
            if cls == "PyKeePass":
                res = E_.kp_call(nm, args, kw, KDBX4)
            elif args is None:
                res = E_.o_set(E_.obj(cls, "x"), nm, kw, KDBX4)
            else:
                res = E_.o_call(E_.obj(cls, "x"), nm, args, kw, KDBX4)
        except AnalysisError:
            continue        # read only
        yield cls, nm, Net(res, {})


@rule("C11")
def marks_elsewhere(ck):
    """No operation other than storing a string field or a custom property sets or drops the protection mark of an
    element of the document (changing operations of entries, groups, attachments and the database)."""
    from .r_pure import owner
    for cls, nm, n in changing(ck):
        hit = next((k for k in n.eff if k[0] in ("attr", "delattr") and is_c(k[2], "Protected") and owner(k[1]) == "doc"
                    and n.eff[k] is not FALSE), None)
        what = "%s.%s keeps every protection mark" % (cls, nm)
        if hit:
            ck.bad("marks_elsewhere", what, n.where[hit], "changes a mark: " + eff_str(hit)[:200])
        else:
            ck.ok("marks_elsewhere", what)


@rule("C21")
def binaries_elsewhere(ck):
    """Only adding and deleting a binary change the list of binaries; no other operation renumbers references."""
    from .r_struct import inner_bins
    L = inner_bins()
    for cls, nm, n in changing(ck):
        if nm in ("add_binary", "delete_binary"):
            continue
        hit = None
        for k, cnd in n.eff.items():
            if cnd is FALSE:
                continue
            if k[0] == "raw" and k[2].op == "mut" and show(k[2].a[1]) == show(L):
                hit = k
            if k[0] in ("attr", "delattr") and is_c(k[2], "Ref", "ID") and not (cls == "Attachment"):
                hit = k
        what = "%s.%s keeps the binaries and references" % (cls, nm)
        if hit:
            ck.bad("binaries_elsewhere", what, n.where[hit], "changes them: " + eff_str(hit)[:200])
        else:
            ck.ok("binaries_elsewhere", what)


# ------------------------------------------------------------------ new elements
ENTRY_ARGS = ["title", "username", "password", "url", "notes", "otp", "tags", "icon", "autotype_sequence",
              "autotype_window"]


def flat(el, f):
    """{field: [(value, protection)]} of a built entry or group element."""
    ks = kids(el, f)
    if ks is None:
        return None
    out = {}

    def add(k, v, p=NONE):
        out.setdefault(k, []).append((v, p))
    for x in ks:
        if x.op != "elem":
            return None
        t = tag(x)
        if t == "String":
            sk = kids(x, f)
            d = {tag(y): y for y in sk or []}
            if "Key" not in d or "Value" not in d or text_of(d["Key"]).op != "c":
                return None
            add("String:" + cv(text_of(d["Key"])), text_of(d["Value"]), attrs(d["Value"]).get("Protected", NONE))
            continue
        sub = kids(x, f)
        if sub is None:
            return None
        if sub:
            for y in sub:
                z = kids(y, f)
                if z:
                    for u in z:
                        add("%s/%s/%s" % (t, tag(y), tag(u)), text_of(u))
                else:
                    add("%s/%s" % (t, tag(y)), text_of(y))
        else:
            add(t, text_of(x))
    return out


def new_entries(ck, ver=KDBX4):
    """(description, built element, facts, where) of an entry with every optional argument given."""
    E_ = ck.eng
    S = {a: s(a + "#str") for a in ENTRY_ARGS}
    S["tags"] = s("tags#list")
    S["expiry_time"] = s("expiry#datetime")
    f = [(truthy(v), True) for v in S.values()]
    ip = E_.new(ver)
    for cnd, v in f:
        ip.push(cnd, v)
    kw = dict(S, expires=s("expires#bool"), autotype_enabled=s("auto#bool"), kp=ip.kpref)
    r = E_.finish(ip, ip.instantiate(E_.cls("Entry"), [], list(kw.items()), None))
    out = []
    v = simp(unver(r.value), F(*f))
    if v.op == "wrap":
        out.append(("Entry(...)", v.a[1], F(*f), where_fn(E_, "Entry", "__init__")))
    g = obj(ck, "Group")
    kw = {k: v for k, v in S.items() if k not in ("autotype_sequence", "autotype_window", "title", "username", "password")}
    n = Net(E_.kp_call("add_entry", [g, S["title"], S["username"], S["password"]], dict(kw, force_creation=TRUE), ver, f), F(*f))
    for k in n.eff:
        if k[0] == "attach":
            out.append(("add_entry(...)", k[2], F(*f), where_fn(E_, "PyKeePass", "add_entry")))
    return out


TIMEFIELDS = ("CreationTime", "LastModificationTime", "LastAccessTime", "ExpiryTime", "Expires", "UsageCount",
              "LocationChanged")


def caller_test(el, f):
    """An undecided condition of a new element's children that compares a text given by the caller with constants."""
    from .eqv import atom_of
    for x in subterms(el):
        if x.op == "gi":
            g = truthy(simp(x.a[0], f or {}))
            a = atom_of(g) if g.op != "c" and decide(g, f or {}) is None else None
            if a is None:
                continue
            if a.op == "cmp" and a.a[0] in ("in", "==") and any(y.op == "s" and y.a[0].endswith("#str") for y in a.a[1:]) and all(
                    (y.op == "s" and y.a[0].endswith("#str")) or y.op == "c" or (y.op in ("tuple", "list", "set") and all(z.op == "c" for z in y.a)) for y in a.a[1:]):
                return a
            return None
    return None


def check_new(ck, rule_, what, el, f, w, ver, expected, only_times=False, depth=0):
    fl = flat(el, f)
    if fl is None:
        a = caller_test(el, f)
        if a is None or depth > 2:
            ck.maybe(rule_, what, "children not determined")
            return
        for b in (True, False):
            g = dict(f)
            add_fact(g, a, b)
            check_new(ck, rule_, "%s, %s %s" % (what, pretty(a)[:80], "holds" if b else "does not hold"), el, g, w, ver, expected, only_times, depth + 1)
        return
    enc, dec = codec(ck, ver)
    base = {"UUID": mk("b64", mk(".", mk("freshuuid"), "bytes")), "Times/UsageCount": c("0")}
    for t in ("CreationTime", "LastModificationTime", "LastAccessTime", "LocationChanged"):
        base["Times/" + t] = enc(NOW)
    base.update(expected)
    if only_times:
        base = {k: v for k, v in base.items() if k.endswith("Time") or k == "Times/LocationChanged"}
        fl = {k: v for k, v in fl.items() if k in base}
    for k, v in base.items():
        got = fl.pop(k, [])
        if len(got) != 1:
            if len(got) == 0 and v is None:
                continue
            ck.bad(rule_, "%s: %s" % (what, k), w, "%d elements for %s in the new element" % (len(got), k))
            continue
        if v is None:
            continue
        if k == "UUID":
            g = got[0][0]
            okk = g.op == "b64" and any(x.op in ("freshuuid",) for x in subterms(g))
            if okk:
                ck.ok(rule_, "%s: UUID fresh" % what)
                continue
        ck.same(rule_, "%s: %s" % (what, k), got[0][0], v, w, f)
    for k, v in fl.items():
        if len(v) > 1:
            ck.bad(rule_, "%s: %s" % (what, k), w, "%d elements for %s" % (len(v), k))


@rule("C27", "C14")
def new_elements(ck):
    """A built entry or group contains exactly one element per field: a fresh identifier, the seven time fields with
    the current UTC time and the given expiry, and every constructor argument unaltered in its own field."""
    for what, el, f, w, ver, exp in built(ck):
        check_new(ck, "new_elements", what, el, f, w, ver, exp)


@rule("C22")
def new_times(ck):
    """The times of a built entry or group: the current moment in UTC, and the given expiry at its instant."""
    for what, el, f, w, ver, exp in built(ck):
        check_new(ck, "new_times", what, el, f, w, ver, {k: v for k, v in exp.items() if k == "Times/ExpiryTime"}, only_times=True)


def built(ck):
    """Everything that builds an entry or group: (what, element, facts, where, version, expected fields)."""
    E_ = ck.eng
    for ver in VERSIONS:
        enc, dec = codec(ck, ver)
        exp0 = {"String:" + K: s(a + "#str") for a, K in STRINGS.items()}
        exp0.update({"IconID": s("icon#str"), "Times/ExpiryTime": enc(mk("utc", s("expiry#datetime"))),
                     "Tags": mk("join", c(";"), s("tags#list"))})
        for what, el, f, w in new_entries(ck, ver):
            exp = dict(exp0)
            if what.startswith("Entry"):
                exp["Times/Expires"] = ite(s("expires#bool"), c("True"), c("False"))
                exp["AutoType/Enabled"] = ite(s("auto#bool"), c("True"), c("False"))
                exp["AutoType/DefaultSequence"] = s("autotype_sequence#str")
                exp["AutoType/Association/Window"] = s("autotype_window#str")
            else:
                exp["Times/Expires"] = c("True")
                exp["AutoType/Enabled"] = c("True")
                exp["AutoType/DefaultSequence"] = None
            yield ("%s KDBX%d" % (what, ver[0]), el, f, w, ver, exp)
        # minimal entry: no expiry
        g = obj(ck, "Group")
        t, u, p = s("title#str"), s("username#str"), s("password#str")
        for note, f in (("", []), (", empty title", [(truthy(t), False)]), (", empty user name", [(truthy(u), False)]),
                        (", empty password", [(truthy(p), False)])):
            n = Net(E_.kp_call("add_entry", [g, t, u, p], {"force_creation": TRUE}, ver, f), F(*f))
            for k in n.eff:
                if k[0] != "attach":
                    continue
                yield ("add_entry(title, username, password%s) KDBX%d" % (note, ver[0]), k[2], n.facts,
                          where_fn(E_, "PyKeePass", "add_entry"), ver,
                          {"String:Title": t, "String:UserName": u, "String:Password": p, "Times/Expires": c("False"),
                           "Times/ExpiryTime": enc(NOW), "AutoType/Enabled": c("True")})
        # groups
        nm, ic, no = s("name#str"), s("icon#str"), s("notes#str")
        f = [(truthy(x), True) for x in (nm, ic, no)]
        n = Net(E_.kp_call("add_group", [g, nm], {"icon": ic, "notes": no}, ver, f), F(*f))
        got = [k for k in n.eff if k[0] == "attach"]
        for k in got:
            yield ("add_group KDBX%d" % ver[0], k[2], n.facts, where_fn(E_, "PyKeePass", "add_group"), ver,
                      {"Name": nm, "IconID": ic, "Notes": no, "Times/Expires": c("False"), "Times/ExpiryTime": enc(NOW)})
        ip = E_.new(ver)
        f = f + [(truthy(s("expiry#datetime")), True)]
        for cnd, v in f:
            ip.push(cnd, v)
        r = E_.finish(ip, ip.instantiate(E_.cls("Group"), [], [("name", nm), ("icon", ic), ("notes", no), ("kp", ip.kpref),
                      ("expires", s("expires#bool")), ("expiry_time", s("expiry#datetime"))], None))
        v = simp(unver(r.value), F(*f))
        if v.op == "wrap":
            yield ("Group(...) KDBX%d" % ver[0], v.a[1], F(*f), where_fn(E_, "Group", "__init__"), ver,
                      {"Name": nm, "IconID": ic, "Notes": no, "Times/Expires": ite(s("expires#bool"), c("True"), c("False")),
                       "Times/ExpiryTime": enc(mk("utc", s("expiry#datetime")))})


def unhash(t):
    """hash(x) == hash(y) as x == y."""
    m = {}
    for x in subterms(t):
        if x.op == "cmp" and x.a[0] == "==" and x.a[1].op == "hash" and x.a[2].op == "hash":
            a, b = x.a[1].a[0], x.a[2].a[0]
            if a.op == "tuple" and b.op == "tuple" and len(a.a) != len(b.a):
                m[x] = FALSE
            else:
                a = a.a[0] if a.op == "tuple" and len(a.a) == 1 else a
                b = b.a[0] if b.op == "tuple" and len(b.a) == 1 else b
                m[x] = cmp("==", a, b)
    return subst(t, m) if m else t


@rule("C27")
def identity(ck):
    """Equality of two elements is equality of their identifiers (for history items also of their modification
    times), and the hash reads nothing else."""
    E_ = ck.eng

    def parts(o):
        U = q(elem_of(o), "UUID")
        M = q(elem_of(o), "Times/LastModificationTime")
        return U, M, [exists(U), (truthy(text(U)), True), exists(q(elem_of(o), "Times")), exists(M), *stored(M)]
    for ca, cb in (("Entry", "Entry"), ("Group", "Group"), ("HistoryEntry", "HistoryEntry"), ("Entry", "HistoryEntry"),
                   ("Entry", "Group")):
        a, b = E_.obj(ca, "a"), E_.obj(cb, "b")
        ua, ma, fa = parts(a)
        ub, mb, fb = parts(b)
        sc = fa + fb
        n = Net(E_.o_call(a, "__eq__", [b], (), KDBX4, sc), F(*sc))
        enc, dec = codec(ck, KDBX4)
        exp = cmp("==", mk("uuid", mk("unb64", text(ua))), mk("uuid", mk("unb64", text(ub))))
        if ca == "HistoryEntry" and cb == "HistoryEntry":
            exp = conj(exp, cmp("==", dec(text(ma)), dec(text(mb))))
        if (ca, cb) == ("Entry", "HistoryEntry"):
            exp = FALSE
        ck.same("identity", "%s == %s" % (ca, cb), unhash(n.value), exp, where_fn(E_, ca, "__eq__"), n.facts)
    for ca in KINDS:
        a = E_.obj(ca, "a")
        ua, ma, fa = parts(a)
        n = Net(E_.o_call(a, "__hash__", [], (), KDBX4, fa), F(*fa))
        reads = {x for x in subterms(n.value) if x.op == "." and x.a[1] == "text"}
        allow = {text(ua)} | ({text(ma)} if ca == "HistoryEntry" else set())
        if not definite(n.value) and n.value.op != "hash":
            ck.maybe("identity", ca + ".__hash__")
        else:
            ck.need("identity", ca + ".__hash__ reads only identity fields", reads <= allow and text(ua) in reads,
                    where_fn(E_, ca, "__hash__"), "hash is computed from " + ", ".join(sorted(map(pretty, reads))))


# ------------------------------------------------------------------ C26 custom properties
@rule("C26")
def custom_properties(ck):
    """The set of keys refused by get, set, query and delete equals the set of fields with their own attribute; the
    listing keeps exactly the other keys; deletion detaches the String with that key only."""
    E_ = ck.eng
    v = s("value#str")
    for cls in ("Entry", "HistoryEntry"):
        o = obj(ck, cls)
        for meth, args in (("get_custom_property", []), ("set_custom_property", [v]),
                           ("is_custom_property_protected", []), ("delete_custom_property", [])):
            w = where_fn(E_, cls, meth)
            for K in RESERVED:
                n = Net(E_.o_call(o, meth, [c(K)] + args, (), KDBX4))
                r, _ = equiv(n.raising(), TRUE, n.facts)
                ck.verdict("custom_properties", "%s.%s refuses %s" % (cls, meth, K), r, w,
                           "the built-in field %s is accepted (refused only when %s)" % (K, pretty(n.raising())[:200]))
                if r is True and n.eff:
                    only(ck, "custom_properties", "%s.%s refuses %s without effect" % (cls, meth, K), n, {}, w)
        K = s("key#str")
        S_, V = string_field(o, K)
        fs = [(cmp("==", K, c(r)), False) for r in RESERVED]
        set_string(ck, "custom_properties", cls, "set_custom_property",
                   lambda o, v, sc: E_.o_call(o, "set_custom_property", [K, v], (), KDBX4, sc), K, v, facts=fs)
        get_string(ck, "custom_properties", cls, "get_custom_property",
                   lambda o, sc: E_.o_call(o, "get_custom_property", [K], (), KDBX4, sc + fs), K)
        # deletion
        sc = fs + [exists(S_), exists(V)]
        w = where_fn(E_, cls, "delete_custom_property")
        n = Net(E_.o_call(o, "delete_custom_property", [K], (), KDBX4, sc), F(*sc))
        X = q(elem_of(o), "String", mode="all")
        iv = mk("iv", X)
        mine = cmp("==", text(mkq(iv, (child("Key"),), "first")), K)
        own = [k for k in n.eff if k[0] == "detach" and (k[1] is S_ or k[1] is iv and equiv(disj(neg(n.eff[k]), mine), TRUE, n.facts)[0] is True)]
        extra = [k for k in n.eff if k not in own]
        for k in extra:
            if all(definite(x) for x in k if isinstance(x, T)):
                ck.bad("custom_properties", cls + ".delete_custom_property", n.where.get(k, w), "also changes " + eff_str(k))
            else:
                ck.maybe("custom_properties", cls + ".delete_custom_property", eff_str(k))
        d = n.cond(lambda k: k in own)
        if not extra:
            r, _ = equiv(disj(d, n.raising()), TRUE, n.facts)
            ck.verdict("custom_properties", cls + ".delete_custom_property removes the field or raises", r, w,
                       "nothing happens when " + pretty(neg(disj(d, n.raising())))[:300])
            if d is FALSE and not n.unknowns:
                ck.bad("custom_properties", cls + ".delete_custom_property removes the named field", w, "never removes it: " + n.show()[:300])
        # listing
        w = where_fn(E_, cls, "custom_properties")
        X = q(elem_of(o), "String", mode="all")
        iv = mk("iv", X)
        key = text(mkq(iv, (child("Key"),), "first"))
        n = Net(E_.o_get(o, "custom_properties", KDBX4))
        t = n.value
        if not (t.op == "dict" and len(t.a[0]) == 1 and t.a[0][0][0].op == "star" and t.a[0][0][0].a[0].op == "comp"):
            ck.maybe("custom_properties", cls + ".custom_properties", "shape: " + pretty(t)[:200])
            continue
        k0, val = t.a[0][0]
        comp = k0.a[0]
        src, cond, item = comp.a
        ck.same("custom_properties", cls + ".custom_properties lists the entry's own strings", src, X, w)
        ck.same("custom_properties", cls + ".custom_properties keys", item, key, w)
        want = conj(*[neg(cmp("==", key, c(r))) for r in RESERVED])
        ck.same("custom_properties", cls + ".custom_properties excludes exactly the built-in fields", cond, want, w)
        VV = q(elem_of(o), keyed("String", key), "Value")
        V2 = mkq(iv, (child("Value"),), "first")
        f = F(exists(VV), exists(V2))
        val = subst(simp(val, f), {text(V2): text(VV)})
        ck.same("custom_properties", cls + ".custom_properties values", val, text(VV), w, f)


# ------------------------------------------------------------------ C30 failed edits
def setters(ck):
    """(what, run(ip) -> result, where) of every operation that stores a value of the caller"""
    E_ = ck.eng
    bad = s("value")          # a value of any type
    for cls in ("Entry", "Group", "HistoryEntry"):
        o = obj(ck, cls)
        names = (list(STRINGS) if cls != "Group" else []) + [a for (k, a) in SUBS if k == ("Group" if cls == "Group" else "Entry")]
        names += ["expires", "expiry_time", "ctime", "atime", "mtime"]
        if cls != "Group":
            names += ["autotype_enabled", "autotype_sequence", "autotype_window"]
        for a in dict.fromkeys(names):
            yield "%s.%s = value" % (cls, a), lambda ip=None, o=o, a=a: E_.o_set(o, a, bad, KDBX4, ip=ip), where_fn(E_, cls, a)
        if cls != "Group":
            for p in ((), (s("protect"),)):
                yield "%s.set_custom_property(key, value%s)" % (cls, ", protect" if p else ""), \
                    lambda ip=None, o=o, p=p: E_.o_call(o, "set_custom_property", [s("key"), bad] + list(p), (), KDBX4, ip=ip), \
                    where_fn(E_, cls, "set_custom_property")
    a = obj(ck, "Attachment")
    for x in ("id", "filename"):
        yield "Attachment.%s = value" % x, lambda ip=None, x=x: E_.o_set(a, x, bad, KDBX4, ip=ip), where_fn(E_, "Attachment", x)
    for x in list(METAS) + ["credchange_date", "credchange_required_days", "credchange_recommended_days"]:
        yield "PyKeePass.%s = value" % x, lambda ip=None, x=x: E_.kp_set(x, bad, KDBX4, ip=ip), where_fn(E_, "PyKeePass", x)


def risky(e):
    """A step that rejects a value it cannot store."""
    if e.kind == "build":
        return mentions(e.data, "value") or mentions(e.data, "key")
    if e.kind == "store" and e.data.op == "tuple" and is_c(e.data.a[1], "text"):
        return mentions(e.data.a[2], "value")
    if e.kind == "mut" and e.data.op == "mut" and e.data.a[0] == "set":
        return any(mentions(x, "value") for x in e.data.a[2][1:])
    return False


def swallowed(ck, what, run, evs, w):
    """The rejection leaves the operation: each rejecting step is made to raise in turn."""
    E_ = ck.eng
    R = "failing_values"
    for i in range(len([e for e in evs if risky(e)])):
        for exc in ("ValueError", "TypeError"):
            cnt = [0]

            def at(ev):
                if not risky(ev):
                    return False
                cnt[0] += 1
                return cnt[0] - 1 == i
            ip = E_.exact(KDBX4, at, exc)
            ip.fault_kinds = ("build", "store", "mut")
            res = run(ip)
            if not ip.faulted:
                continue
            ev = ip.faulted[0]
            out = [r for r in res.ev("raise") if not r.caught and r.n > ev.n]
            late = [m for m in res.events if m.kind in ("mut", "store", "delattr") and m.n > ev.n and not touches_fresh(m.data)
                    and compatible(conj(unver(m.cond), unver(ev.cond)))]
            if not out and not ip.st.dead and ev.trys:
                ck.bad(R, what + " rejection reaches the caller", ev.where(), "a %s raised here is swallowed" % exc)
                return
            if late and ev.trys:
                ck.bad(R, what + " rejection changes nothing", late[0].where(), "after the value was rejected: " + pretty(late[0].data)[:150])
                return
    ck.ok(R, what + " rejection reaches the caller")


def mentions(t, name):
    return any(x is s(name) for x in subterms(t))


@rule("C30")
def failing_values(ck):
    """In the ordered effects of every setter, the step that can reject the caller's value (building an element from
    it, storing it as text) precedes every effect that removes or changes what was there."""
    for what, run, w in setters(ck):
        res = run()
        evs = [e for e in res.events if e.kind in ("mut", "store", "build", "delattr")]
        first = None
        ok = True
        for e in evs:
            if risky(e) and first is not None:
                both = conj(unver(first.cond), unver(e.cond))
                if compatible(both):
                    ok = False
                    ck.bad("failing_values", what, e.where(),
                           "the value can be rejected here after %s already happened at %s" % (
                               pretty(first.data)[:200], first.where()))
                    break
            if e.kind in ("mut", "store", "delattr") and first is None and not touches_fresh(e.data):
                first = e
        if ok:
            ck.ok("failing_values", what)
            swallowed(ck, what, run, evs, w)


def touches_fresh(d):
    if d.op == "mut":
        return d.a[1].op in ("elem", "copy")
    if d.op == "tuple":
        return d.a[0].op in ("elem", "copy") or net_.bookkeeping(d)
    return False


def compatible(cond):
    if cond is FALSE:
        return False
    r, _ = equiv(cond, FALSE)
    return r is not True


def refusals(ck, rule_, what, res, w, allow=()):
    """No effect precedes a raise on the same path."""
    ok = True
    muts = [e for e in res.events if e.kind in ("mut", "store", "listmut", "delattr", "globalmut") and not touches_fresh(e.data)]
    outs = [e for e in res.events if e.kind == "return" and e.loops]

    def over(m, r):
        """A change in a loop whose every path leaves the function before the raise is reached."""
        for x in outs:
            if m.n < x.n < r.n and m.loops == x.loops and m.func == x.func and m.stack == x.stack and equiv(disj(neg(m.cond), x.cond), TRUE)[0] is True:
                return True
        return False
    for r in res.ev("raise"):
        for m in muts:
            if m.n < r.n and not over(m, r) and compatible(conj(unver(m.cond), unver(r.cond))):
                ok = False
                ck.bad(rule_, what, r.where(), "raises after %s (at %s)" % (pretty(m.data)[:200], m.where()))
                break
        if not ok:
            break
    if ok:
        ck.ok(rule_, what)


@rule("C30")
def refused_operations(ck):
    """For every refusing operation no effect precedes a raise on the same path."""
    E_ = ck.eng
    e, g, h = obj(ck, "Entry"), obj(ck, "Group"), obj(ck, "HistoryEntry")
    for what, res, w in refusing(ck):
        refusals(ck, "refused_operations", what, res, w)


def refusing(ck):
    E_ = ck.eng
    e, g, h = obj(ck, "Entry"), obj(ck, "Group"), obj(ck, "HistoryEntry")
    k, v = s("key#str"), s("value#str")
    for cls in ("Entry", "HistoryEntry"):
        o = obj(ck, cls)
        for m, a in (("set_custom_property", [k, v]), ("get_custom_property", [k]), ("delete_custom_property", [k]),
                     ("delete_history", [h]), ("save_history", [])):
            yield "%s.%s" % (cls, m), E_.o_call(o, m, a, (), KDBX4), where_fn(E_, cls, m)
    for ver in VERSIONS:
        for m, a in (("trash_entry", [e]), ("trash_group", [g]), ("delete_binary", [s("id#int")]),
                     ("add_binary", [s("data#bytes")]), ("add_entry", [g, s("t#str"), s("u#str"), s("p#str")]),
                     ("move_entry", [e, g]), ("move_group", [g, g]), ("delete_entry", [e]), ("delete_group", [g])):
            yield "PyKeePass.%s KDBX%d" % (m, ver[0]), E_.kp_call(m, a, (), ver), where_fn(E_, "PyKeePass", m)

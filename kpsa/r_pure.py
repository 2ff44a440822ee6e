"""C12 reads change nothing, C13 live views, C31 opening touches only the given files.

Effect analysis: every read operation (all property getters found in the
source, the searches, references, exports, comparisons and saving) is
summarised and its effects on anything but fresh local objects are listed.
"""
from .lib import *
from .core import effects, cases
from .net import excname
from . import r_io, r_fmt

VERS = ((3, 1), (4, 0))
CLASSES = ("PyKeePass", "Entry", "HistoryEntry", "Group", "Attachment")
NAMEOF = {"Entry": "entry", "HistoryEntry": "hist", "Group": "group", "Attachment": "att"}
METHODS = {
    "PyKeePass": [
        ("xml", []), ("dump_xml", [s("out")]), ("find_entries", []), ("find_groups", []), ("find_attachments", []),
        ("deref", [mk("nn", s("v#str"))]), ("__str__", []), ("__repr__", []),
        ("xpath", [c("//Entry")]),
    ],
    "Entry": [("get_custom_property", [mk("nn", s("key#str"))]), ("is_custom_property_protected", [mk("nn", s("key#str"))]),
              ("ref", [c("password")])] + [("deref", [c(x)]) for x in ("title", "username", "password", "url", "notes")] + [ ("__str__", []), ("__repr__", []), ("__hash__", []),
              ("__eq__", ["obj"]), ("__ne__", ["obj"]), ("dump_xml", [])],
    "Group": [("__str__", []), ("__repr__", []), ("__hash__", []), ("__eq__", ["obj"]), ("__ne__", ["obj"]), ("dump_xml", [])],
    "Attachment": [("__str__", []), ("__repr__", []), ("__hash__", []), ("__eq__", ["obj"])],
}
METHODS["HistoryEntry"] = METHODS["Entry"]
SEARCHES = [
    ("find_entries", {"title": mk("nn", s("t#str")), "first": TRUE}),
    ("find_entries", {"uuid": mk("nn", s("u")), "history": TRUE}),
    ("find_entries", {"tags": mk("list", mk("nn", s("t#str")))}),
    ("find_entries", {"string": s("strings")}),
    ("find_entries", {"path": s("path")}),
    ("find_entries", {"title": mk("nn", s("t#str")), "regex": TRUE, "flags": mk("nn", s("flags#str"))}),
    ("find_entries", {"group": "Group", "recursive": FALSE}),
    ("find_groups", {"name": mk("nn", s("t#str"))}),
    ("find_groups", {"path": s("path")}),
    ("find_attachments", {"id": mk("nn", s("i#int")), "history": TRUE}),
    ("find_attachments", {"element": "Entry", "filename": mk("nn", s("t#str"))}),
]


def members(eng, cls):
    out = {}
    for cid in eng.base.mro(eng.cls(cls)):
        for k, v in eng.base.classes[cid].ns.items():
            out.setdefault(k, v)
    return out


def reads(ck, prep=None, vers=VERS):
    """(name, where, result) of every read operation"""
    E_ = ck.eng
    for cls in CLASSES:
        mem = members(E_, cls)
        jobs = [(k, None, {}) for k, v in mem.items() if isinstance(v, T) and v.op == "prop"]
        jobs += [(k, a, {}) for k, a in METHODS[cls] if k in mem]
        if cls == "PyKeePass":
            jobs += [(k, [], kw) for k, kw in SEARCHES if k in mem]
            jobs += [(k, [mk("nn", s("v#str"))], {}) for k in mem if k.startswith(("find_entries_by", "find_groups_by"))]
        for nm, args, kw in jobs:
            for ver in vers:
                for opaque in (True, False):
                    ip = E_.new(ver, opaque=opaque)
                    if prep:
                        prep(ip)
                    kw2 = {k: E_.obj(v, "g") if isinstance(v, str) else v for k, v in kw.items()}
                    if cls == "PyKeePass":
                        r = E_.kp_get(nm, ver, ip=ip) if args is None else E_.kp_call(nm, args, kw2, ver, ip=ip)
                    else:
                        o = E_.obj(cls, NAMEOF[cls])
                        if args is None:
                            r = E_.o_get(o, nm, ver, ip=ip)
                        else:
                            a = [E_.obj(cls, "other") if x == "obj" else x for x in args]
                            r = E_.o_call(o, nm, a, kw2, ver, ip=ip)
                    yield ("%s.%s%s (KDBX%s%s)" % (cls, nm, "(%s)" % ", ".join(kw) if kw else "", ver[0] if ver else "",
                                                   "" if opaque else ", searches expanded"), where_fn(E_, cls, nm), r)


# -------------------------------------------------------------------- C12 effects
CALLER = ("password", "keyfile", "transformed_key", "decrypt")     # fields of the construct context given by the caller
PICK = {"xpath", "find", "findall", "iterfind", "iter", "iterchildren", "iterdescendants", "getchildren", "getroot",
        "getparent", "getnext", "getprevious", "getroottree", "iterancestors", "itersiblings", "get", "values", "items",
        "keys", "setdefault", "pop", "popitem", "__getitem__", "__getattr__", "search", "search_all"}
FRESH = ("copy", "elem", "E", "list", "dict", "set", "tuple", "container", "c", "obj", "bytesio", "str", "cat", "b64", "sorted",
         "new", "newexc")


def owner(t):
    """Whose object is this: "doc" (document, header, binaries), "fresh", "other" (caller's or the library's own), None."""
    while True:
        if t.op == "s":
            n = t.a[0]
            if n == "kdbx" or n.endswith((".elem", ".tree")):
                return "doc"
            return "other"
        if t.op == "root":
            return "fresh" if t.a else "doc"
        if t.op == "hv" or t.op == "dd":
            return "doc"
        if t.op in FRESH:
            return "fresh"
        if t.op == "wrap":
            return "view"
        if t.op == "." or (t.op == "[]" and t.a[1].op == "c"):
            b = t.a[0]
            k = t.a[1] if t.op == "." else cv(t.a[1])
            if isctx(b):
                return None if k.startswith("_") else "other" if k in CALLER else "doc"
            t = b
            continue
        if t.op in ("q", "iv", "nn", "ver", "[]", "comp", "pop", "reversed", "sl", "scopy", "dictvalues", "dictitems", "dictkeys",
                    "enum", "attrib"):
            t = t.a[0] if t.op != "comp" else t.a[2]
            continue
        if t.op == "m" and t.a[0] in PICK:
            t = t.a[1]
            continue
        if t.op == "call" and t.a[0].op == "x":
            n = t.a[0].a[0].rpartition(".")[2]
            if n in ("list", "tuple", "sorted", "reversed", "iter", "filter", "next", "getattr") and t.a[1]:
                if n in ("list", "tuple", "sorted", "filter"):
                    return "fresh"
                t = t.a[1][0]
                continue
            return None
        if t.op == "api":
            return "fresh"
        return None


def splits(t, n=8):
    """(term, condition) over the conditionals on the way to the object a term denotes."""
    x = t
    while x.op in ("q", "iv", "nn", "ver", "[]", "pop", "reversed", "sl", "scopy", "dictvalues", "dictitems", "dictkeys",
                   "enum", "attrib", ".", "root"):
        if not x.a or not isinstance(x.a[0], T):
            return [(t, TRUE)]
        x = x.a[0]
    if x.op != "ite" or n == 0:
        return [(t, TRUE)]
    out = []
    for y, g in ((x.a[1], x.a[0]), (x.a[2], neg(x.a[0]))):
        if g is FALSE:
            continue
        out += [(z, conj(g, h)) for z, h in splits(subst(t, {x: y}), n - 1)]
    return out


def isctx(t):
    while t.op == "." and t.a[1] in ("_", "_root"):
        t = t.a[0]
    return t.op == "s" and t.a[0].endswith("#ctx")


EXTMUT = {"lxml.etree.indent", "lxml.etree.strip_elements", "lxml.etree.strip_tags", "lxml.etree.strip_attributes",
          "lxml.etree.cleanup_namespaces", "lxml.objectify.deannotate", "lxml.objectify.annotate", "lxml.etree.SubElement",
          "random.shuffle", "builtins.setattr", "builtins.delattr", "heapq.heapify", "bisect.insort", "operator.setitem",
          "operator.delitem", "builtins.list.sort", "builtins.dict.pop", "builtins.dict.update", "lxml.ElementInclude.include",
          "xml.etree.ElementTree.indent"}
METMUT = {"_setroot", "xinclude", "makeelement_", "__setitem__", "__delitem__", "__setattr__", "__delattr__", "move_to_end",
          "appendleft", "popleft", "add", "discard"}
BENIGN = {"seek", "close", "flush", "read"}
CONTENT = {"text", "tail", "tag"}


def alterations(ck, res, kdbxfield=None):
    """(description, where, certain) of everything in the document that a summary may change."""
    out = []
    for e in res.ev("mut", "store", "listmut", "globalmut", "setglobal", "delattr", "call") + getattr(res.ip, "first", []):
        for data, cond in cases(unver(e.data)):
            cnd = conj(unver(e.cond), cond)
            if cnd is FALSE:
                continue
            tgt, what = None, ""
            if e.kind == "call":
                if data.op == "call" and data.a[0].op == "x" and data.a[0].a[0] in EXTMUT and data.a[1]:
                    tgt, what = data.a[1][0], data.a[0].a[0]
                elif data.op == "m" and data.a[0] in METMUT:
                    tgt, what = data.a[1], data.a[0]
            elif data.op == "mut":
                if data.a[0] in BENIGN:
                    continue
                tgt, what = data.a[1], data.a[0]
                if e.kind == "listmut" and data.a[1].op in ("q", "api", "comp", "sorted", "list", "tuple"):
                    continue        # the list a search returned
            elif data.op == "tuple" and len(data.a) >= 2 and e.kind in ("store", "delattr"):
                tgt = data.a[0]
                nm = data.a[1]
                what = "assignment to " + (str(cv(nm)) if nm.op == "c" else show(nm)[:40])
                if tgt is s("kp"):
                    if kdbxfield and is_c(nm, kdbxfield):
                        out.append(("the parsed database is replaced", e, sure(cnd)))
                    continue
            elif e.kind in ("globalmut", "setglobal"):
                continue
            if tgt is None:
                continue
            for tg, cn in splits(tgt):
                cn = conj(cnd, cn)
                if cn is FALSE:
                    continue
                o = owner(tg)
                if o == "doc":
                    out.append(("%s on %s" % (what, pretty(tg)[:200]), e, sure(cn) and definite(tg)))
                elif o is None and any(isdoc(x) for x in subterms(tg)):
                    out.append(("%s on %s" % (what, pretty(tg)[:200]), e, False))
    return out


def sure(cnd):
    """some path reaches the effect (external calls are free to answer)"""
    return not any(x.op in UNSURE for x in subterms(cnd))


UNSURE = {"unknown", "badq", "havoc", "hole", "cyc"}


def isdoc(x):
    return x is s("kdbx") or x is ROOT or (x.op == "s" and x.a[0].endswith((".elem", ".tree")))


def pure(ck, R, what, res, where, kdbxfield=None):
    al = alterations(ck, res, kdbxfield)
    sure = [a for a in al if a[2]]
    if sure:
        d, e, _ = sure[0]
        ck.bad(R, what, e.where(), "changes the database: " + d)
        return False
    if al:
        ck.maybe(R, what, al[0][0])
        return None
    ck.ok(R, what)
    return True


WRITEOPS = {"rename", "copy", "unlink", "write", "truncate", "tempfile"}


def written(res):
    """(operation, certain) of the file system changes of a summary"""
    out = []
    for o in r_io.ops(res):
        if simp(unver(o.cond), {}) is FALSE:
            continue
        if o.kind in WRITEOPS:
            out.append((o, sure(unver(o.cond))))
        elif o.kind == "open":
            m = o.kw.get("mode")
            if m is None:
                out.append((o, False))
            elif any(x in m for x in "wax+"):
                out.append((o, sure(unver(o.cond))))
        elif o.kind == "streamwrite":
            w = o.args[0]
            while w.op in ("nn", "ver"):
                w = w.a[0]
            if w.op == "call" and w.a[0].op == "x" and w.a[0].a[0] in ("io.BytesIO", "io.StringIO") or w.op in ("bytesio", "obj"):
                continue
            if w.op == "call" or w.op == "m":
                continue                # the open() it came from is reported
            out.append((o, False))
    return out


def no_files(ck, R, what, res, where, allowed=None):
    ws = [w for w in written(res) if not (allowed and allowed(w[0]))]
    sure = [w for w in ws if w[1]]
    if sure:
        o = sure[0][0]
        ck.bad(R, what, o.where(), "writes to the file system: %s %s" % (o.kind, pretty(unver(o.ev.data))[:200]))
        return False
    if ws:
        ck.maybe(R, what, "may write: " + pretty(unver(ws[0][0].ev.data))[:120])
        return None
    ck.ok(R, what)
    return True


@rule("C12")
def reading(ck):
    """No read operation (every property getter found in the source, the searches, references, XML export, text forms and
    comparison), run over a symbolic database, has an effect on an element of the document, the header, the binaries or the
    parsed structure; none but dump_xml opens, writes, renames or removes a file, and dump_xml writes its argument only."""
    kf = ck.eng.field("kdbx")
    for nm, where, r in reads(ck):
        pure(ck, "reading", nm + " changes nothing", r, where, kf)
        al = None
        if ".dump_xml" in nm:
            def al(o):
                return o.kind in ("open", "write", "streamwrite") and (o.args[0] is None or any(
                    x is s("out") for x in subterms(unver(o.args[0]))) or o.kind == "streamwrite")
        no_files(ck, "reading", nm + " writes no file", r, where, al)


@rule("C12")
def saving(ck):
    """save(), and every function and adapter of the file format that serialising calls, change neither the parsed database
    nor the document handed to them (a deep copy may be changed)."""
    R = "saving"
    E_ = ck.eng
    kf = E_.field("kdbx")
    w = where_fn(E_, "PyKeePass", "save")
    for ver in VERS:
        for kind in ("given", "own"):
            args, facts, d = r_io.dest_scen(kind)
            res = E_.abstract(E_.kp_call("save", args, (), ver, facts, ip=E_.exact(ver)))
            pure(ck, R, "save(%s) KDBX%d" % ("path" if kind == "given" else "", ver[0]), res, w, kf)
        res = E_.abstract(E_.kp_call("save", [mk("nn", s("$stream"))], (), ver))
        pure(ck, R, "save(stream) KDBX%d" % ver[0], res, w, kf)
    seen = set()
    for ver in (3, 4):
        for nm, kw in r_fmt.scen(ver):
            f = r_fmt.fmt(ck, ver, **kw)
            if f is None or f.b is None:
                ck.maybe(R, "serialising KDBX%d, %s" % (ver, nm), "format not walked")
                continue
            for fn, arg, r in f.results[f.nparse:]:
                label = fnlabel(E_, fn)
                k = (label, ver, arg)
                if k in seen:
                    continue
                seen.add(k)
                pure(ck, R, "KDBX%d %s of %s" % (ver, label, pretty(arg)[:60] if arg is not None else ""), r, label)
                no_files(ck, R, "KDBX%d %s of %s writes no file" % (ver, label, pretty(arg)[:60] if arg is not None else ""), r, label)
    # dictionaries: the container handed over is the parsed one
    for cid in adapters(E_):
        ci = E_.base.classes[cid]
        fn = E_.base.lookup(cid, "_encode")
        if not fn or fn[0].op != "fn" or any(E_.base.lookup(k, "_encode")[0] is fn[0] and (
                E_.base.classes[k].name + "._encode") in {x[0] for x in seen} for k in adapters(E_)):
            continue
        ip = E_.new()
        ip.nref += 1
        fl = {"subcon": s("$subcon"), "key": mk("nn", s("$key#str")), "lump": mk("list", c("binary"))}
        ip.base_heap[ip.nref] = ("inst", cid, tuple(sorted(fl.items())))
        arg = mk(".", s("kdbx"), "part")
        try:
            r = E_.call(ip, mk("bound", fn[0], mk("ref", ip.nref)), [arg, s("ctx#ctx"), s("$path#str")])
        except Exception as x:
            ck.maybe(R, ci.name + "._encode", "%s: %s" % (type(x).__name__, x))
            continue
        pure(ck, R, "%s._encode of any part of the database" % ci.name, r, ci.name + "._encode")


def adapters(E_):
    """classes of the package with an _encode method"""
    out = []
    for cid, ci in enumerate(E_.base.classes):
        f = E_.base.lookup(cid, "_encode")
        if f and f[0].op == "fn":
            out.append(cid)
    return out


def fnlabel(E_, fn):
    if fn.op == "named":
        return fn.a[0]
    if fn.op == "fn":
        clo = E_.base.closures[fn.a[0]]
        return "%s:%s" % (clo.mod.rpartition(".")[2], clo.qual)
    return pretty(fn)[:60]


@rule("C12")
def opening_reads(ck):
    """Opening a database (read(), reload() and everything the format calls while parsing) performs no writing file
    operation."""
    R = "opening_reads"
    for what, res in opening(ck):
        no_files(ck, R, what, res, what)


def opening(ck):
    """(name, summary) of everything that runs when a database is opened"""
    E_ = ck.eng
    for ver in VERS:
        for stream in (False, True):
            fn = mk("nn", s("$filename"))
            ip = E_.exact(ver)
            facts = [(truthy(fn), True)]
            yield "read(%s) KDBX%d" % ("stream" if stream else "path", ver[0]), E_.abstract(E_.kp_call("read", [fn], {
                k: mk("nn", s("$" + k)) for k in ("password", "keyfile", "transformed_key")}, ver, facts, ip=ip))
        yield "reload() KDBX%d" % ver[0], E_.abstract(E_.kp_call("reload", [], {}, ver))
    seen = set()
    for ver in (3, 4):
        for nm, kw in r_fmt.scen(ver):
            f = r_fmt.fmt(ck, ver, **kw)
            if f is None:
                ck.maybe("opening", "parsing KDBX%d, %s" % (ver, nm), "format not walked")
                continue
            for fn, arg, r in f.results[:f.nparse]:
                k = (fnlabel(E_, fn), ver, arg)
                if k not in seen:
                    seen.add(k)
                    yield "parsing KDBX%d: %s of %s" % (ver, k[0], pretty(arg)[:60] if arg is not None else ""), r


# -------------------------------------------------------------------- C31
CODE = ("pickle.", "cPickle.", "marshal.", "shelve.", "dill.", "yaml.", "subprocess.", "os.system", "os.popen", "os.exec", "os.spawn",
        "os.posix_spawn", "builtins.eval", "builtins.exec", "builtins.compile", "runpy.", "code.", "jsonpickle.", "pty.", "ctypes.")
NETWORK = ("urllib.", "socket.", "http.", "requests.", "ftplib.", "smtplib.", "telnetlib.", "asyncio.open_connection", "webbrowser.",
           "xmlrpc.", "httpx.", "aiohttp.", "ssl.")
HARMLESSNET = ("urllib.parse.", "http.HTTPStatus", "yaml.safe_load", "yaml.safe_dump", "pickle.dumps", "marshal.dumps", "yaml.dump")
DOCLOAD = ("lxml.etree.XSLT", "lxml.etree.DTD", "lxml.etree.XInclude", "lxml.ElementInclude.", "lxml.etree.XMLSchema",
           "lxml.etree.RelaxNG", "lxml.etree.Schematron", "xml.etree.ElementInclude.", "lxml.isoschematron.")
PARSERS = ("lxml.etree.XMLParser", "lxml.etree.XMLPullParser", "lxml.etree.ETCompatXMLParser", "lxml.etree.iterparse",
           "lxml.objectify.makeparser")
UNSAFE = ("load_dtd", "dtd_validation", "attribute_defaults")
READERS = {"read_bytes", "read_text"}


def callterms(res):
    """(term, where) of every call that occurs in a summary"""
    seen = {}
    for e in res.events:
        for t in [e.data] + [g[0] for g in e.guards]:
            for x in subterms(unver(t)):
                if x.op in ("call", "m", "x"):
                    seen.setdefault(x, e.where())
    for x in subterms(unver(res.value)):
        if x.op in ("call", "m", "x"):
            seen.setdefault(x, "")
    return seen.items()


def samefile(t):
    """the caller's argument that a path names, "package" for bundled files, "const", "other" or None"""
    while True:
        t2 = r_io.unpath(t)
        if t2.op == "call" and t2.a[0].op == "x" and t2.a[0].a[0] in ("os.path.realpath", "os.fsencode", "os.fsdecode") and len(t2.a[1]) == 1:
            t2 = t2.a[1][0]
        elif t2.op == "m" and t2.a[0] == "resolve":
            t2 = t2.a[1]
        elif t2.op in ("nn", "ver"):
            t2 = t2.a[0]
        if t2 is t:
            break
        t = t2
    if t.op == "ite":
        if t.a[0].op == "truthy" and any(x.op == "modfile" for x in subterms(t.a[0])):
            return samefile(t.a[1])
        ks = {samefile(x) for x in t.a[1:] if x.op not in ("bot", "unbound")}
        return "given" if ks <= {"given", "package"} else "other" if ks & {"const", "other"} else None
    if t.op == "s" and t.a[0].lstrip("$").replace("kp.", "") in ("filename", "keyfile", "dest", "kf"):
        return "given"
    if t.op == "." and t.a[1] in ("keyfile",) and isctx(t.a[0]):
        return "given"
    if any(x.op == "modfile" for x in subterms(t)):
        return "package"
    if t.op == "c":
        return "const"
    if any(x.op == "call" and x.a[0].op == "x" and x.a[0].a[0].startswith("tempfile.") for x in subterms(t)):
        return None
    if definite(t) or any(isdoc(x) or x.op in ("q", "raw", "hv") or (x.op == "m" and x.a[0] == "read") or (
            x.op == "call" and x.a[0].op == "x" and x.a[0].a[0].startswith("lxml.etree.")) for x in subterms(t)):
        return "other"
    return None


def opened(res):
    """(path, event) of every file a summary opens for reading"""
    for o in r_io.ops(res):
        if simp(unver(o.cond), {}) is FALSE:
            continue
        if o.kind == "open" and o.args[0] is not None and "w" not in (m := str(o.kw.get("mode"))) and "x" not in m:
            yield unver(o.args[0]), o.ev
        elif o.kind == "par" and o.kw.get("meth") == "parse_file" and o.args:
            yield unver(o.args[0]), o.ev
    for e in res.ev("call"):
        t = unver(e.data)
        if t.op == "m" and t.a[0] in READERS:
            yield t.a[1], e
        if t.op == "m" and t.a[0] == "parse_file" and len(t.a) > 2 and t.a[1] is not s("KDBX"):
            yield t.a[2], e


def const_true(t):
    if t.op == "c":
        return bool(cv(t))
    return None


@rule("C31")
def nothing_else(ck):
    """In the summaries of read(), reload(), create_database() and of every function and adapter the format calls while
    parsing (including reading the key file): every file opened is the caller's database or key file (or the bundled
    template when creating); no XML parser is built with entity resolution beyond internal entities, DTD loading or
    validation; no XInclude, XSLT or schema processing; no evaluation, unpickling, process or network call."""
    R = "nothing_else"
    E_ = ck.eng
    runs = list(opening(ck)) + list(creations(ck))
    for what, res in runs:
        verdict = True
        why = ""
        for path, e in opened(res):
            k = samefile(path)
            if k == "given" or k == "package":
                continue
            if path.op == "call" and path.a[0].op == "x" and path.a[0].a[0].startswith("io."):
                continue
            if k in ("const", "other"):
                ck.bad(R, what + " opens only the given files", e.where(), "opens " + pretty(path)[:200])
                verdict = False
            else:
                verdict, why = None if verdict else verdict, "opens " + pretty(path)[:100]
        for t, where in callterms(res):
            if t.op == "m":
                if t.a[0] in ("xinclude", "xslt") and isxmlish(t.a[1]):
                    ck.bad(R, what, where, "%s() follows references in the file" % t.a[0])
                    verdict = False
                continue
            n = t.a[0] if t.op == "x" else t.a[0].a[0] if t.a[0].op == "x" else ""
            if n.startswith(HARMLESSNET):
                continue
            if n.startswith(CODE + NETWORK + DOCLOAD) and t.op == "call":
                ck.bad(R, what, where, "calls %s" % n)
                verdict = False
            if n in PARSERS and t.op == "call":
                kw = dict(t.a[2]) if len(t.a) > 2 else {}
                for k, v in kw.items():
                    b = const_true(v)
                    if k == "resolve_entities" and not is_c(v, "internal"):
                        if b:
                            ck.bad(R, what, where, "the XML parser resolves external entities")
                            verdict = False
                        elif b is None:
                            verdict, why = None if verdict else verdict, "resolve_entities=" + pretty(v)[:60]
                    if k in UNSAFE:
                        if b:
                            ck.bad(R, what, where, "the XML parser loads DTDs (%s)" % k)
                            verdict = False
                        elif b is None:
                            verdict, why = None if verdict else verdict, k + "=" + pretty(v)[:60]
            if n in ("lxml.etree.parse", "lxml.etree.iterparse") and t.op == "call" and t.a[1]:
                src = t.a[1][0]
                k = samefile(src)
                if src.op in ("bytesio", "m") or k == "given" or src.op == "call":
                    continue
                if k in ("const", "other") and src.op in ("c", "cat", "str"):
                    ck.bad(R, what, where, "parses " + pretty(src)[:120])
                    verdict = False
        if verdict is True:
            ck.ok(R, what)
        elif verdict is None:
            ck.maybe(R, what, why)


def isxmlish(t):
    return any(x.op in ("root", "q") or (x.op == "call" and x.a[0].op == "x" and "etree" in x.a[0].a[0]) or isdoc(x) for x in subterms(t))


def creations(ck):
    E_ = ck.eng
    f = E_.glob("pykeepass.pykeepass", "create_database")
    for stream in (False, True):
        d = s("dest")
        ip = E_.exact()
        for cnd, val in r_io.isstream(d, stream):
            ip.push(cnd, val)
        res = E_.abstract(E_.call(ip, f, [d], {"password": s("pw"), "keyfile": s("kf"), "transformed_key": s("tk")}))
        yield "create_database(%s)" % ("stream" if stream else "path"), res


@rule("C31")
def module_defaults(ck):
    """No module of the package replaces lxml's default parser or registers a resolver, and no function that opening reaches
    imports a module whose name comes from a file."""
    import ast
    R = "module_defaults"
    for mod, tree in sorted(sources(ck)):
        bad = None
        for n in ast.walk(tree):
            if isinstance(n, ast.Call):
                name = dotted(n.func)
                if name and name.rpartition(".")[2] == "set_default_parser":
                    for kw in n.args[:1]:
                        if isinstance(kw, ast.Call) and any(k.arg in UNSAFE + ("resolve_entities",) and isinstance(
                                k.value, ast.Constant) and k.value.value is True for k in kw.keywords):
                            bad = (n.lineno, "replaces the default XML parser by one that loads external content")
        if bad:
            ck.bad(R, mod, "%s:%d" % (mod, bad[0]), bad[1])
        else:
            ck.ok(R, mod)


def dotted(n):
    import ast
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return b and b + "." + n.attr
    return None


def sources(ck):
    import ast
    import os
    repo = ck.eng.base.repo
    for dp, dn, fn in os.walk(os.path.join(repo, "pykeepass")):
        for x in fn:
            if x.endswith(".py"):
                p = os.path.join(dp, x)
                yield os.path.relpath(p, repo), ast.parse(open(p).read())


# -------------------------------------------------------------------- C13
STALE = "STALE."


def content(t):
    """the term reads the document, header or binaries"""
    return any(isdoc(x) or x.op in ("q", "api", "hv", "getroot") for x in subterms(t))


def header_only(t):
    """the term reads nothing but the header, which no operation edits"""
    hd = mk(".", s("kdbx"), "header")
    u = subst(t, {hd: s("$header")})
    return not content(u)


def keyed_pure(k, v):
    """a memo entry that is a function of its key alone"""
    ks = [k] + list(k.a if k.op == "tuple" else ())
    m = {x: s("$k%d" % i) for i, x in enumerate(ks) if x.op != "c"}
    u = subst(v, m)
    if content(u):
        return False
    # contents of an object that is the key are not determined by its identity
    for x in subterms(u):
        if x.op in (".", "[]", "m", "find") and any(y.op == "s" and y.a[0].startswith("$k") and isdoc_key(ks, y) for y in subterms(x)):
            return False
    return True


def isdoc_key(ks, y):
    k = ks[int(y.a[0][2:])]
    return not (k.op in ("str", "cat", "c") or (k.op == "." and k.a[1] in ("text", "tag", "tail")) or (k.op == "s" and "#str" in k.a[0]))


def places(ck, res, out, who):
    """places that outlive the call and get content of the database: {place: (value, where, operation)}"""
    E_ = ck.eng
    for e in res.ev("store", "mut", "listmut", "globalmut", "setglobal", "memo"):
        d = unver(e.data)
        if unver(e.cond) is FALSE:
            continue
        pl = v = None
        if e.kind == "store" and d.op == "tuple" and len(d.a) == 3 and d.a[1].op == "c":
            tgt, v = d.a[0], d.a[2]
            if tgt is s("kp"):
                pl = ("kp", cv(d.a[1]))
            elif tgt.op == "wrap":
                pl = ("wrapper", cv(d.a[1]))
            elif tgt.op == "cls":
                pl = ("class", tgt.a[0], cv(d.a[1]))
        elif e.kind == "setglobal":
            pl, v = ("global", cv(d.a[0]), cv(d.a[1])), d.a[2]
        elif e.kind in ("globalmut", "memo") and getattr(e, "ref", None) is not None:
            pl, v = ("cell", e.ref.a[0]), d
            if len(d.a) == 3 and keyed_pure(d.a[1], d.a[2]):
                continue
        elif d.op == "mut":
            b = d.a[1]
            f = instfield(b)
            if f:
                pl, v = f, mk("tuple", *[x for x in d.a[2] if isinstance(x, T)])
                if d.a[0] in ("setitem", "__setitem__", "setdefault") and len(v.a) == 2 and keyed_pure(v.a[0], v.a[1]):
                    continue
        if pl is None or pl in out or not content(v):
            continue
        if pl[0] == "kp" and pl[1] in {E_.field("kdbx")}:
            continue
        out[pl] = (v, e.where(), who)


def instfield(b):
    """the instance attribute of the database or a wrapper that holds this object"""
    while b.op in ("nn", "ver", "[]"):
        b = b.a[0]
    if b.op == "s" and b.a[0].startswith("kp.f."):
        return ("kp", b.a[0][5:])
    if b.op == "." and (b.a[0] is s("kp") or b.a[0].op == "wrap"):
        return ("kp" if b.a[0] is s("kp") else "wrapper", b.a[1])
    if b.op == "s" and b.a[0].startswith(STALE):
        return tuple(b.a[0][len(STALE):].split(".", 1))
    return None


def stale_prep(ck, pls):
    """prepares an interpreter in which these places hold something remembered from earlier"""
    def prep(ip):
        for pl in pls:
            sym = s(STALE + ".".join(map(str, pl)))
            if pl[0] == "kp":
                n = ip.kpref.a[0]
                cell = ip.base_heap[n]
                f = dict(cell[2])
                f[pl[1]] = sym
                ip.base_heap[n] = (cell[0], cell[1], tuple(sorted(f.items())))
            elif pl[0] == "wrapper":
                ip.wrap_over = dict(ip.wrap_over, **{pl[1]: sym})
            elif pl[0] == "global":
                ip.modenv = dict(ip.modenv)
                ip.modenv[pl[1]] = dict(ip.modenv[pl[1]], **{pl[2]: sym})
            elif pl[0] == "class":
                import copy
                ip.classes = list(ip.classes)
                ci = copy.copy(ip.classes[pl[1]])
                ci.ns = dict(ci.ns, **{pl[2]: sym})
                ip.classes[pl[1]] = ci
            elif pl[0] == "cell":
                cell = ip.base_heap.get(pl[1])
                if cell is None:
                    continue
                if cell[0] == "dict":
                    ip.base_heap[pl[1]] = ("dict", ((mk("star", sym), sym),))
                elif cell[0] in ("list", "set"):
                    ip.base_heap[pl[1]] = (cell[0], (mk("star", sym),)) + tuple(cell[2:])
    return prep


def edits(ck):
    """(name, summary) of the operations that change the database"""
    E_ = ck.eng
    V = mk("nn", s("v#str"))
    ent, grp, grp2, att, hist = E_.obj("Entry", "entry"), E_.obj("Group", "group"), E_.obj("Group", "dest"), E_.obj("Attachment", "att"), E_.obj("HistoryEntry", "hist")
    jobs = []
    for cls, o in (("PyKeePass", None), ("Entry", ent), ("Group", grp), ("Attachment", att)):
        for k, v in members(E_, cls).items():
            if isinstance(v, T) and v.op == "prop" and v.a[1] is not NONE and k not in ("history", "password", "keyfile") + (
                    ("credchange_date",) if cls == "PyKeePass" else ()):
                jobs.append((cls, o, k, "set", [V]))
    jobs += [("PyKeePass", None, n, "call", a) for n, a in (
        ("add_entry", [grp, V, V, V]), ("add_group", [grp, V]), ("delete_entry", [ent]), ("delete_group", [grp]), ("move_entry", [ent, grp]),
        ("move_group", [grp, grp2]), ("trash_entry", [ent]), ("trash_group", [grp]), ("empty_group", [grp]),
        ("add_binary", [mk("nn", s("data#bytes"))]), ("delete_binary", [mk("nn", s("i#int"))]))]
    jobs += [("Entry", ent, n, "call", a) for n, a in (
        ("set_custom_property", [V, V]), ("delete_custom_property", [V]), ("add_attachment", [mk("nn", s("i#int")), V]), ("delete_attachment", [att]),
        ("save_history", []), ("delete_history", [hist]), ("delete", []), ("move", [grp]), ("reindex", [mk("nn", s("i#int"))]), ("touch", []))]
    jobs += [("Group", grp, n, "call", a) for n, a in (("append", [ent]), ("delete", []), ("move", [grp2]), ("reindex", [mk("nn", s("i#int"))]), ("touch", []))]
    jobs += [("Attachment", att, "delete", "call", [])]
    for cls, o, nm, how, a in jobs:
        if not E_.has_method(cls, nm):
            continue
        try:
            if how == "set":
                r = E_.kp_set(nm, a[0], KDBX4) if o is None else E_.o_set(o, nm, a[0], KDBX4)
            else:
                r = E_.kp_call(nm, a, {}, KDBX4) if o is None else E_.o_call(o, nm, a, {}, KDBX4)
        except AnalysisError:
            continue
        yield "%s.%s" % (cls, nm), r


def resets(ck, res, pl):
    """the operation also renews the place"""
    for e in res.events:
        d = unver(e.data)
        if e.kind == "store" and d.op == "tuple" and len(d.a) == 3 and pl[0] in ("kp", "wrapper", "class") and is_c(d.a[1], pl[-1]):
            return True
        if e.kind == "delattr" and d.op == "tuple" and is_c(d.a[1], pl[-1]):
            return True
        if e.kind == "setglobal" and pl[0] == "global" and is_c(d.a[1], pl[2]):
            return True
        if e.kind in ("globalmut", "memo") and getattr(e, "ref", None) is not None and pl == ("cell", e.ref.a[0]):
            return True
        if d.op == "mut" and instfield(d.a[1]) == pl:
            return True
    return False


def root_only(v):
    """the root element itself (it changes with a reload only)"""
    r = rootgroup()
    return v is mk("wrap", "Group", r) or v is r or (v.op == "ite" and all(x is NONE or root_only(x) for x in v.a[1:]))


@rule("C13")
def live(ck):
    """Pass 1 collects every place that outlives a read operation (instance attributes of the database and of entry, group and
    attachment objects, class attributes, module variables, default arguments, memo tables) and receives content of the
    database there. Pass 2 runs every read operation with such places holding remembered values: the result must not depend
    on them, unless every operation that edits the database (and opening) renews the place, or the memo entry is a function
    of its key."""
    R = "live"
    E_ = ck.eng
    pls = {}
    memo = {}
    names = []
    for nm, where, r in reads(ck, None, (None,) + VERS):
        names.append(nm)
        places(ck, r, pls, nm)
        for e in r.ev("cached"):
            memo.setdefault((cv(e.data.a[0]), cv(e.data.a[1])), []).append((nm, e.where()))
    # content copied when the object is made
    rd = opened_again(E_)
    for k, t in E_.derived.items():
        if resets(ck, rd, ("kp", k)) and (engine_attr_path(t) or header_only(t)):
            continue
        if content(t):
            pls.setdefault(("kp", k), (t, "PyKeePass.__init__", "opening"))
    el, kp = mk("nn", s("$element")), mk("nn", s("$kp"))
    for cls in CLASSES[1:]:
        cid = E_.cls(cls)
        E_.base.wrap_fields(cid)
        for k, t in E_.base.wrapextra.get(cid, {}).items():
            if any(x is el or x is kp for x in subterms(t)) and not handle(t, el, kp):
                pls.setdefault(("wrapper", k), (t, cls + ".__init__", "creating the object"))
    # memoised functions: their own result must not read the database
    for (mod, qual), users in sorted(memo.items()):
        v = cached_value(ck, mod, qual)
        if v is None:
            ck.maybe(R, "memoised %s" % qual, "not summarised")
        elif reads_state(v):
            ck.bad(R, "memoised %s" % qual, users[0][1], "%s returns a remembered result of %s, which reads the database" % (users[0][0], qual))
        else:
            ck.ok(R, "memoised %s" % qual)
    if not pls:
        for nm in names:
            ck.ok(R, nm)
        return
    used = {}
    for nm, where, r in reads(ck, stale_prep(ck, pls)):
        hit = False
        for x in subterms(unver(r.value)):
            if x.op == "s" and x.a[0].startswith(STALE):
                used.setdefault(x.a[0], (nm, where))
                hit = True
        if not hit:
            ck.ok(R, nm)
    for pl, (v, at, who) in sorted(pls.items(), key=str):
        sym = STALE + ".".join(map(str, pl))
        if sym not in used:
            ck.ok(R, "%s is never returned" % (pl,))
            continue
        nm, where = used[sym]
        what = "%s holds content remembered by %s" % (place_str(E_, pl), who)
        if pl[0] == "wrapper":
            ck.bad(R, what, at, "%s returns it even after the database was edited" % nm)
            continue
        fresh_open = resets(ck, rd, pl)
        if not fresh_open:
            ck.bad(R, what, at, "%s returns it even after read() or reload()" % nm)
            continue
        if header_only(v) or root_only(v):
            ck.ok(R, what + " (renewed by read())")
            continue
        kf = E_.field("kdbx")
        miss = [n for n, r in edits(ck) if any(a[2] for a in alterations(ck, r, kf)) and not resets(ck, r, pl)]
        if miss:
            ck.bad(R, what, at, "%s returns it even after %s" % (nm, ", ".join(miss[:5])))
        else:
            ck.ok(R, what + " (renewed by every edit)")


def opened_again(E_):
    fn = mk("nn", s("$filename"))
    return E_.abstract(E_.kp_call("read", [fn], {"password": s("$pw")}, KDBX4, [(truthy(fn), True)], ip=E_.exact(KDBX4)))


def handle(t, el, kp):
    """another name for the element or the database, or something fixed"""
    while t.op in (".", "nn") or (t.op == "m" and t.a[0] in ("getroottree",)):
        if t is el or t is kp:
            return True
        if t.op == "." and t.a[1] in ("text", "tag", "tail", "attrib"):
            return t.a[1] == "tag" or t.a[1] == "attrib"
        t = t.a[0] if t.op != "m" else t.a[1]
    return t is el or t is kp


def engine_attr_path(t):
    from .engine import attr_path
    return attr_path(t)


def place_str(E_, pl):
    if pl[0] == "cell":
        return "a shared container"
    if pl[0] == "class":
        return "class attribute %s.%s" % (E_.base.classes[pl[1]].name, pl[2])
    return "%s %s" % ({"kp": "database attribute", "wrapper": "object attribute", "global": "module variable"}[pl[0]], ".".join(map(str, pl[1:])))


def cached_value(ck, mod, qual):
    """result of a memoised function on symbolic arguments"""
    E_ = ck.eng
    for i, clo in (E_.base.closures.items() if isinstance(E_.base.closures, dict) else enumerate(E_.base.closures)):
        if clo is not None and clo.mod == mod and clo.qual == qual and clo.cached:
            a = clo.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            vals = []
            ip = E_.new(KDBX4, opaque=False)
            for j, nm in enumerate(names):
                if j == 0 and clo.cls is not None and clo.kind is None:
                    vals.append(ip.kpref if clo.cls.name == "PyKeePass" else ip.wrapref(E_.obj(clo.cls.name, "self")) if clo.cls.name in CLASSES else mk("nn", s("$self")))
                else:
                    vals.append(mk("nn", s("$a.%s" % nm)))
            try:
                r = E_.call(ip, mk("fn", i), vals[:len(names) - len(a.defaults)] or vals)
            except Exception:
                return None
            return unver(r.value)
    return None


def reads_state(v):
    """the value looks into the database or into an object given as argument"""
    if content(v) or any(x is s("kp") or (x.op == "s" and x.a[0].startswith("kp.")) for x in subterms(v)):
        return True
    for x in subterms(v):
        if x.op == "." and x.a[1] in ("text", "tail", "attrib"):
            return True
        if x.op == "m" and x.a[0] in ("xpath", "find", "findall", "iterfind", "iter", "findtext") and x.a[1].op == "nn":
            return True
    return False

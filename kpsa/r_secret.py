"""C24 secrets do not leak into logs, messages, representations or plain files.

Flow analysis over summaries: every argument of a logging, printing or warning call, every argument of an exception that
leaves an operation, the value of every __str__/__repr__, and every value written to a file is searched for terms that
yield a secret.  Terms that only tell something about a value (length, comparison, type, existence, an element handle, an
authentication code, a ciphertext) stop the search.
"""
import re

from .lib import *
from .core import cases
from . import r_io, r_fmt, r_pure
from .terms import children

SEC = mk("nn", s("SECRET#str"))
OPEN = ("Title", "UserName", "URL", "Notes")
STOP = {"cmp", "isnone", "truthy", "not", "and", "or", "len", "hasattr", "isinst", "exists", "typeof", "missing", "q", "iv", "wrap", "root",
        "elem", "E", "api", "cls", "fn", "bound", "x", "c", "xattr", "hmac", "encrypt", "cipher", "uuid", "freshuuid", "now", "date",
        "utc", "secs", "exn", "exc", "reraise", "regex", "match", "logger", "rootof", "parentof", "tree0", "parsexml", "hole", "etag", "hash",
        "hv", "dd", "mod", "modfile", "copy", "pos", "opos", "unbound", "bot", "attrib", "ancestors", "random", "named", "obj", "partial",
        "unknown", "range", "ix", "span", "excval", "containerof"}
CERTAIN = {"cat", "str", "list", "tuple", "dict", "set", "join", "repr", "fmt", "star", "nn", "ver", "sl", "[]", "enc", "dec", "hex", "unhex",
           "b64", "unb64", "sha256", "sha512", "sorted", "reversed", "scopy", "kw", "bytesio", "first", "gunzip", "inflate", "unpad",
           "decrypt", "catcomp", "iterated", "locals", "havoc"}
TELLS = {"builtins.len", "builtins.type", "builtins.id", "builtins.hash", "builtins.bool", "builtins.isinstance", "builtins.hasattr",
         "builtins.callable", "builtins.any", "builtins.all", "lxml.etree.parse", "lxml.etree.fromstring", "lxml.etree.XML", "lxml.etree.ElementTree",
         "lxml.objectify.fromstring", "hmac.new", "hmac.compare_digest", "logging.getLogger", "lxml.etree.XMLParser", "lxml.etree.XPath",
         "os.path.getsize", "os.stat", "os.path.exists", "lxml.etree.QName", "pathlib.Path", "builtins.open", "re.compile", "re.match", "re.search",
         "re.fullmatch", "sys.getsizeof", "time.time", "datetime.datetime.now"}
SHOWS = {"builtins.str", "builtins.repr", "builtins.ascii", "builtins.format", "builtins.bytes", "builtins.list", "builtins.tuple", "builtins.dict",
         "builtins.sorted", "builtins.reversed", "builtins.iter", "pprint.pformat", "json.dumps", "base64.b64encode", "base64.b64decode",
         "binascii.hexlify", "binascii.unhexlify", "zlib.decompress", "zlib.compress", "gzip.compress", "gzip.decompress",
         "textwrap.shorten", "textwrap.indent", "textwrap.dedent", "Cryptodome.Util.Padding.unpad", "Cryptodome.Util.Padding.pad"}
MTELLS = {"getpath", "getelementpath", "count", "startswith", "endswith", "index", "isdigit", "isalnum", "isspace", "keys", "encrypt", "verify",
          "exists", "is_file", "stat", "getroottree", "getroot", "xpath", "iterfind", "iter", "getchildren", "getparent", "iterancestors",
          "__len__", "__contains__", "__eq__", "bit_length", "match", "fullmatch", "search", "isoformat"}
MSHOWS = {"encode", "decode", "strip", "lstrip", "rstrip", "lower", "upper", "title", "hex", "split", "join", "format", "replace", "digest", "hexdigest",
          "decrypt", "read", "readline", "ljust", "rjust", "center", "zfill", "partition", "rsplit", "splitlines", "casefold", "getvalue",
          "removeprefix", "removesuffix", "itertext", "findtext", "get", "values", "items", "pop", "copy", "read_bytes", "read_text", "swapcase",
          "expandtabs", "capitalize", "tobytes", "isoformat", "tostring", "setdefault", "__getitem__", "__str__", "__repr__"}
HEADEROK = ("xml", "sha256", "hmac_hash", "cred_check", "header", "offset1", "offset2", "length")


def ctx_path(t):
    """(names) of an attribute path from a format context, else None"""
    p = []
    while t.op == "." or (t.op == "[]" and t.a[1].op == "c" and isinstance(cv(t.a[1]), str)):
        p.append(t.a[1] if t.op == "." else cv(t.a[1]))
        t = t.a[0]
    return tuple(reversed(p)) if r_pure.isctx(t) else None


def kdbx_path(t):
    p = []
    while t.op == "." or (t.op == "[]" and t.a[1].op == "c" and isinstance(cv(t.a[1]), str)):
        p.append(t.a[1] if t.op == "." else cv(t.a[1]))
        t = t.a[0]
    return tuple(reversed(p)) if t is s("kdbx") or wholeparse(t) else None


def wholeparse(t):
    return t.op == "m" and t.a[0] in ("parse_file", "parse_stream") and len(t.a) > 1 and t.a[1] is s("KDBX")


def payload_raw(t):
    """a piece of the decrypted payload"""
    x = t.a[0] if t.a else None
    while isinstance(x, tuple) and x:
        if x[0] == "payload":
            return True
        x = x[0]
    return x == "payload"


def doctext(e):
    """Is the text of this element a secret: True, False, None."""
    while e.op in ("nn", "ver", "iv", "[]", "first"):
        e = e.a[0]
    if e.op == "ite":
        v = {doctext(x) for x in e.a[1:] if x is not NONE}
        return True if True in v else None if None in v else False
    if e.op != "q" or not e.a[1]:
        return None if e.op not in ("s",) else False
    st = [x for x in e.a[1] if isinstance(x, tuple)]
    if not st:
        return None
    last = st[-1]
    axis, name = last[0], last[1] if len(last) > 1 else None
    if axis in ("child", "desc", "desc1", "descendant", "descendant-or-self", "root::"):
        if name == "Value":
            if any(isinstance(pp, tuple) and pp and pp[0] in ("aeq", "attr") and "Protected" in show(pp) for pp in (last[2] if len(last) > 2 else ())):
                return True
            if len(st) > 1 and st[-2][1:2] == ("String",):
                ks = [x for x in subterms(mk("tuple", st[-2])) if x.op == "c" and isinstance(cv(x), str)]
                if ks and all(cv(x) in OPEN for x in ks):
                    return False
                return True
            return True if len(st) > 1 and st[-2][1:2] == ("*",) or len(st) == 1 else False
        if name in ("*", "node()", None):
            return None
        return False
    return None


def leaf(t, ver):
    """why this term is a secret in itself, False when it is certainly none, None to look inside"""
    if t is SEC or (t.op == "s" and t is SEC.a[0]):
        return "the secret given by the caller"
    if t.op == "s":
        n = t.a[0].partition("#")[0].lstrip("$")
        if n in ("kp.password", "password", "pw"):
            return "the master password"
        if n in ("kp.transformed_key", "transformed_key", "tk") or n.startswith("K:"):
            return "a derived key"
        if n == "kdbx":
            return "the whole parsed database"
        return False
    if t.op == "." and t.a[0].op == "excval" and t.a[1] in ("object", "doc"):
        return "the text whose conversion failed"
    if t.op == "[]" and t.a[0].op == "." and t.a[0].a[0].op == "excval" and t.a[0].a[1] == "args" and is_c(t.a[1], 1) and any(
            "Unicode" in str(x) for x in t.a[0].a[0].a[1]):
        return "the text whose conversion failed"
    if t.op == "raw":
        return "the decrypted payload" if payload_raw(t) else False
    p = kdbx_path(t)
    if p is not None:
        if not p:
            return "the whole parsed database"
        if "header" in p or p[-1] in HEADEROK:
            return False
        if "transformed_key" in p or "master_key" in p or any("key" in x for x in p):
            return "a derived key"
        if "binary" in p or "binaries" in p:
            return False
        return "the parsed database (with its keys)" if p[-1] in ("body", "payload", "inner_header") else False
    p = ctx_path(t)
    if p is not None:
        if not p or p[-1] == "_" or p[-1] == "_root":
            return "the whole parsing context (with its keys)"
        if p[-1] == "password":
            return "the master password"
        if "header" in p:
            return False
        if "key" in p[-1] and p[-1] != "keyfile":
            return "a derived key"
        if ver == 3 and "block_data" in p:
            return "the decrypted payload"
        if p[-1] in ("body", "payload"):
            return "decrypted data"
        return False
    if t.op == "items":
        return "the decrypted payload" if ver == 3 else False
    if t.op == ".":
        if t.a[1] == "text":
            if keyfile(t.a[0]):
                return False if "Version" in show(t.a[0]) else "the key file's content"
            r = doctext(t.a[0])
            return "a protected entry value" if r else False if r is False else None
        if t.a[1] in ("tag", "tail", "attrib", "nsmap", "prefix", "sourceline", "docinfo", "block_data", "id", "type", "length", "computed"):
            return False
        return None
    if t.op == "instdict":
        if any(x is s("kp") or x.op == "ref" for x in subterms(t)):
            return "the attributes of the database object (with its password)"
        return False
    if t.op == "decrypt" or (t.op == "m" and t.a[0] == "decrypt"):
        return "decrypted data"
    if t.op == "m" and t.a[0] in ("read", "read_bytes") and keyfile(t.a[1]):
        return "the key file's content"
    if t.op == "call" and t.a[0].op == "x":
        n = t.a[0].a[0]
        if n in ("lxml.etree.tostring", "lxml.etree.tounicode", "lxml.etree.dump", "lxml.objectify.dump"):
            return "the decrypted document" if t.a[1] and docpart(t.a[1][0]) else None
        if n.startswith(("argon2.",)):
            return "a derived key"
    if t.op in ("ser", "ddout", "argon2"):
        return "a derived key" if t.op == "argon2" else "the decrypted document"
    return None


def docpart(t):
    """an element or tree that may hold entries"""
    while t.op in ("nn", "ver", "copy", "iv"):
        t = t.a[0]
    if t.op == "q":
        st = t.a[1]
        last = st[-1] if st else None
        return not (last and last[1:2] in (("Name",), ("UUID",), ("Meta",), ("Times",), ("Key",), ("Tags",), ("Window",), ("DeletedObjects",)))
    if t.op in ("call", "m"):
        return any(x.op in ("root", "q") or payloadish(x) for x in subterms(t)) or keyfile(t)
    return t.op in ("root", "elem", "E") or (t.op == "s" and (t.a[0].endswith((".elem", ".tree")) or t.a[0] == "doc.tree")) or (
        t.op == "." and (kdbx_path(t) or ("",))[-1] == "xml")


def payloadish(x):
    return x.op == "raw" and payload_raw(x) or x.op == "s" and x.a[0] in ("doc.tree", "kdbx")


def keyfile(t):
    """reads from the key file"""
    return any((x.op == "s" and x.a[0].partition("#")[0].lstrip("$") in ("kp.keyfile", "keyfile", "kf")) or
               (x.op == "." and x.a[1] == "keyfile" and ctx_path(x) is not None) for x in subterms(t))


class Flow:
    """secrets a term yields"""

    def __init__(self, ver):
        self.ver = ver
        self.memo = {}

    def of(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = frozenset()
        r = frozenset(self.compute(t))
        self.memo[t] = r
        return r

    def compute(self, t):
        why = leaf(t, self.ver)
        if why:
            return {(why, True)}
        if why is False:
            return ()
        if t.op in STOP:
            return ()
        if t.op == "ite":
            return self.of(t.a[1]) | self.of(t.a[2])
        if t.op == "." and t.a[1] in ("text",):
            return self.weak(self.of(t.a[0]))
        if t.op in ("comp", "mapv"):
            return self.parts(t, sure=True)
        if t.op == "call" and t.a[0].op == "x":
            n = t.a[0].a[0]
            inner = self.parts(t)
            if not inner or n in TELLS:
                return ()
            if n in ("re.sub", "re.subn"):
                return self.cleaned(t, inner)
            if n in SHOWS or n.startswith(("hashlib.", "base64.", "binascii.", "codecs.")) or n.endswith("Error") or n.endswith(
                    "Exception") or n.endswith("Warning"):
                return inner
            return self.weak(inner)
        if t.op == "m":
            n = t.a[0]
            if n in MTELLS:
                return ()
            inner = self.parts(t)
            if n == "sub":
                return self.cleaned(t, inner)
            return inner if n in MSHOWS else self.weak(inner)
        if t.op == "fold":
            return self.parts(t, sure=True)
        if t.op == "op":
            return self.parts(t, sure=t.a[0] in ("+", "%", "*"))
        inner = self.parts(t)
        return inner if t.op in CERTAIN or t.op in ("new", "call") else self.weak(inner)

    def parts(self, t, sure=True):
        out = set()
        for x in children(t):
            if t.op == "fold" and x.op in ("while", "for"):
                continue
            out |= self.of(x)
        return frozenset(out) if sure else self.weak(out)

    def weak(self, xs):
        return frozenset((w, False) for w, _ in xs)

    def cleaned(self, t, inner):
        """re.sub with constant pattern and replacement: try it on every shape of secret"""
        if not inner:
            return ()
        a = list(t.a[1]) + [v for _, v in (t.a[2] if len(t.a) > 2 else ())] if t.op == "call" else None
        if a is None:
            rx = t.a[1]
            if rx.op == "call" and rx.a[0] is mk("x", "re.compile") and rx.a[1]:
                a = [rx.a[1][0]] + [x for x in t.a[2:] if x.op != "kw"]
                if len(rx.a[1]) > 1:
                    return self.weak(inner)
            elif rx.op == "regex" and rx.a and isinstance(rx.a[0], T):
                a = [rx.a[0]] + [x for x in t.a[2:] if x.op != "kw"]
            else:
                return self.weak(inner)
        if len(a) != 3 or a[0].op != "c" or a[1].op != "c":
            return self.weak(inner)
        left = False
        for w in ("Zq7Zq8", 'Zq7"Zq8', "Zq7'Zq8", "Zq7\"Zq8'Zq9", "Zq7\nZq8", "Zq7]Zq8", "Zq7\\\"Zq8", " Zq7 "):
            txt = concrete(a[2], w)
            if txt is None:
                return self.weak(inner)
            try:
                got = re.sub(cv(a[0]), cv(a[1]), txt)
            except Exception:
                return self.weak(inner)
            if any(m in got for m in ("Zq7", "Zq8", "Zq9")):
                left = True
        return inner if left else ()


def concrete(t, w):
    """the text of a string term for one value of the secret, None when it cannot be written down"""
    if t is SEC or t is SEC.a[0]:
        return w
    if t.op == "c":
        return str(cv(t))
    if t.op in ("str", "nn", "ver"):
        return concrete(t.a[0], w)
    if t.op == "cat":
        xs = [concrete(x, w) for x in t.a]
        return None if None in xs else "".join(xs)
    if t.op == "join" and t.a[0].op == "c":
        y = t.a[1]
        if y.op == "m" and y.a[0] == "split" and len(y.a) == 3 and y.a[2].op == "c":
            b = concrete(y.a[1], w)
            return None if b is None else cv(t.a[0]).join(b.split(cv(y.a[2])))
        return None
    if t.op == "m" and t.a[0] == "replace" and len(t.a) == 4 and t.a[2].op == "c" and t.a[3].op == "c":
        b = concrete(t.a[1], w)
        return None if b is None else b.replace(cv(t.a[2]), cv(t.a[3]))
    if t.op == "ite":
        d = decided(t.a[0], w)
        if d is None:
            a, b = concrete(t.a[1], w), concrete(t.a[2], w)
            return None if a is None or b is None else a + " " + b
        return concrete(t.a[1] if d else t.a[2], w)
    if leaf(t, None):
        return None
    if t.op in STOP or t.op == "s":
        return "x"
    return None


def decided(cnd, w):
    if cnd.op == "not":
        d = decided(cnd.a[0], w)
        return None if d is None else not d
    if cnd.op == "cmp" and cnd.a[0] == "in":
        a, b = concrete(cnd.a[1], w), concrete(cnd.a[2], w)
        return None if a is None or b is None else a in b
    return None


# ------------------------------------------------------------------ operations
def operations(ck):
    if getattr(ck.eng, "_secret_ops", None) is None:
        ck.eng._secret_ops = list(operations_(ck))
    return ck.eng._secret_ops


def operations_(ck):
    """(name, summary, version, isrepr) of everything a caller can run, secrets marked"""
    E_ = ck.eng
    for nm, where, r in r_pure.reads(ck):
        base = nm.split(" ")[0]
        yield nm, r, None, base.endswith(("__str__", "__repr__", "__format__")), base.endswith(".dump_xml")
    for nm, r in r_pure.edits(ck):
        yield nm, r, None, False, False
    for nm, r in r_pure.opening(ck):
        yield nm, r, 3 if "KDBX3" in nm else 4, False, False
    for nm, r in r_pure.creations(ck):
        yield nm, r, None, False, False
    for ver in (3, 4):
        seen = set()
        for nm, kw in r_fmt.scen(ver):
            f = r_fmt.fmt(ck, ver, **kw)
            if f is None:
                ck.maybe("flows", "writing KDBX%d, %s" % (ver, nm), "format not walked")
                continue
            for fn, arg, r in f.results[f.nparse:]:
                k = (r_pure.fnlabel(E_, fn), arg)
                if k not in seen:
                    seen.add(k)
                    yield "writing KDBX%d: %s of %s" % (ver, k[0], pretty(arg)[:60] if arg is not None else ""), r, ver, False, False
    V = mk("nn", s("v#str"))
    ent, grp = E_.obj("Entry", "entry"), E_.obj("Group", "group")
    jobs = [("find_entries", [], {k: SEC}, x) for k in ("password", "otp") for x in ({}, {"first": TRUE}, {"regex": TRUE}, {
        "regex": TRUE, "flags": mk("nn", s("flags#str"))}, {"history": TRUE}, {"title": V, "username": V}, {"group": grp, "recursive": FALSE})]
    jobs += [("find_entries", [], {"string": mk("dict", ((V, SEC),))}, x) for x in ({}, {"first": TRUE}, {"regex": TRUE})]
    jobs += [("find_entries", [], {"string": mk("dict", ((c("PIN"), SEC),))}, {})]
    jobs += [("find_entries", [], {"password": SEC, "nosuchfield": V}, {})]
    jobs += [("find_entries_by_password", [SEC], {}, {}), ("find_entries_by_string", [mk("dict", ((V, SEC),))], {}, {})]
    jobs += [("add_entry", [grp, V, V, SEC], {}, x) for x in ({}, {"otp": SEC}, {"force_creation": TRUE}, {"url": V, "notes": V, "tags": mk("list", V)})]
    jobs += [("deref", [mk("cat", c("{REF:P@P:"), SEC, c("}"))], {}, {})]
    for nm, a, k1, k2 in jobs:
        if not E_.has_method("PyKeePass", nm):
            continue
        for ver in r_pure.VERS:
            for opaque in (False, True):
                ip = E_.new(ver, opaque=opaque)
                kw = {**k1, **k2}
                r = E_.kp_call(nm, a, kw, ver, ip=ip)
                yield "%s(%s) KDBX%d%s" % (nm, ", ".join(list(kw) or ["..."]), ver[0], "" if opaque else ", searches expanded"), r, None, False, False
    for ver in r_pure.VERS:
        for nm in ("password", "otp"):
            if E_.has_method("Entry", nm):
                yield "Entry.%s = secret KDBX%d" % (nm, ver[0]), E_.o_set(ent, nm, SEC, ver), None, False, False
        for a in ([V, SEC], [V, SEC, TRUE], [c("Password"), SEC], [c("otp"), SEC]):
            yield "set_custom_property(%s) KDBX%d" % (pretty(a[0]), ver[0]), E_.o_call(ent, "set_custom_property", a, {}, ver), None, False, False
        for nm in ("password", "keyfile"):
            yield "PyKeePass.%s = secret KDBX%d" % (nm, ver[0]), E_.kp_set(nm, SEC if nm == "password" else s("$keyfile"), ver), None, False, False
        for stream in (False, True):
            fn = mk("nn", s("$filename"))
            ip = E_.exact(ver)
            for cnd, val in r_io.isstream(fn, stream):
                ip.push(cnd, val)
            yield "save(%s) KDBX%d" % ("stream" if stream else "path", ver[0]), E_.abstract(E_.kp_call(
                "save", [fn], {"transformed_key": mk("nn", s("$transformed_key"))}, ver, ip=ip)), None, False, False
            ip = E_.exact(ver, fault=lambda ev: ev.kind == "call" and any(x.op == "m" and str(x.a[0]).startswith("build") for x in subterms(ev.data)))
            for cnd, val in r_io.isstream(fn, stream):
                ip.push(cnd, val)
            yield "save(%s) that fails KDBX%d" % ("stream" if stream else "path", ver[0]), E_.abstract(E_.kp_call(
                "save", [fn], {"transformed_key": mk("nn", s("$transformed_key"))}, ver, ip=ip)), None, False, False
            ip = E_.exact(ver)
            for cnd, val in r_io.isstream(fn, stream):
                ip.push(cnd, val)
            yield "PyKeePass(%s) KDBX%d" % ("stream" if stream else "path", ver[0]), E_.abstract(E_.call(ip, mk("cls", E_.cls("PyKeePass")), [fn], {
                k: mk("nn", s("$" + k)) for k in ("password", "keyfile", "transformed_key")})), None, False, False


PRINTERS = ("sys.stdout", "sys.stderr", "sys.__stdout__", "sys.__stderr__")


def sinks(res):
    """(kind, terms, event) of the places a summary makes text visible"""
    for e in list(res.events) + list(res.ip.first_out):
        d = unver(e.data)
        if simp(unver(e.cond), {}) is FALSE:
            continue
        if e.kind in ("log", "print"):
            yield "log record" if e.kind == "log" and not is_c(d.a[0], "warn") else "warning" if e.kind == "log" else "printed line", [d], e
        elif e.kind == "message":
            yield "exception message", [d], e
        elif e.kind == "raise":
            if getattr(e, "caught", False) or d.op in ("reraise", "exc", "excval", "exn", "cls", "x"):
                continue
            yield "exception message", [d], e
        elif e.kind == "call":
            if d.op == "m" and d.a[0] in ("write", "writelines") and any(x.op == "x" and x.a[0] in PRINTERS for x in subterms(d.a[1])):
                yield "printed line", list(d.a[2:]), e
            elif d.op == "call" and d.a[0].op == "x" and d.a[0].a[0] in tuple(p + m for p in PRINTERS for m in (".write", ".writelines")):
                yield "printed line", list(d.a[1]), e
            elif d.op == "call" and d.a[0].op == "x" and d.a[0].a[0] in ("pprint.pprint", "pprint.pp", "sys.exit", "syslog.syslog", "os.write",
                                                                        "traceback.print_stack", "lxml.etree.dump", "lxml.objectify.dump"):
                yield "printed line", list(d.a[1]), e


def stored(res):
    """(terms, event) of the values a summary writes to files, the serialiser aside"""
    for o in r_io.ops(res):
        d = unver(o.ev.data)
        if o.kind in ("write", "streamwrite"):
            w = unver(o.args[0]) if o.args[0] is not None else None
            if o.kind == "streamwrite" and w is not None and (w.op in ("bytesio", "obj") or (
                    w.op == "call" and w.a[0].op == "x" and w.a[0].a[0] in ("io.BytesIO", "io.StringIO")) or any(
                    x.op == "x" and x.a[0] in PRINTERS for x in subterms(w))):
                continue
            yield [w] + [unver(x) for x in o.args[1:]], o.ev, w
    for e in res.ev("call"):
        d = unver(e.data)
        if d.op == "call" and d.a[0].op == "x" and d.a[0].a[0] in ("pickle.dump", "json.dump", "marshal.dump", "shutil.copyfileobj"):
            yield list(d.a[1]), e, None


@rule("C24")
def flows(ck):
    """For every operation and every function the format calls, with every secret marked (master password, precomputed and derived
    keys, key file content, decrypted payload, text of a String value other than title, user name, URL and notes, a password or
    custom value given by the caller): no argument of a logging, printing or warning call and no argument of an exception leaving the
    operation yields a secret, nor does __str__ or __repr__; the one filter in use (a constant regular expression over the query
    text) is applied to every shape of quoted value."""
    R = "flows"
    seen = {}
    for nm, res, ver, isrepr, export in operations(ck):
        fl = Flow(ver)
        n = 0
        worst = True
        for kind, ts, e in sinks(res):
            n += 1
            found = set()
            for t in ts:
                found |= fl.of(t)
            if any(c_ for _, c_ in found):
                worst = False
                if (e.where(), kind) not in seen:
                    seen[(e.where(), kind)] = 1
                    ck.bad(R, "%s: %s" % (nm, kind), e.where(), "%s shows %s: %s" % (kind, ", ".join(sorted(w for w, c_ in found if c_)), pretty(unver(e.data))[:160]))
            elif found and worst:
                worst = None
                ck.maybe(R, "%s: %s" % (nm, kind), "may show %s: %s" % (", ".join(sorted(w for w, _ in found)), pretty(unver(e.data))[:160]))
        if isrepr:
            found = fl.of(unver(res.value))
            n += 1
            if any(c_ for _, c_ in found):
                worst = False
                ck.bad(R, nm + " shows no secret", nm, "the text form shows %s" % ", ".join(sorted(w for w, c_ in found if c_)))
            elif found and worst:
                worst = None
                ck.maybe(R, nm, "may show " + ", ".join(sorted(w for w, _ in found)))
        if worst:
            ck.ok(R, "%s: %d places" % (nm, n))


@rule("C24")
def plain_files(ck):
    """Apart from dump_xml, no operation writes a value to a file or stream that yields a secret or serialises part of the document:
    the only writer is the serialiser's own build call."""
    R = "plain_files"
    for nm, res, ver, isrepr, export in operations(ck):
        if export:
            continue
        fl = Flow(ver)
        worst = True
        for ts, e, w in stored(res):
            found = set()
            for t in ts[1:] if w is not None else ts:
                found |= fl.of(t)
            if w is not None and (docpart(w) or (w.op == "call" and w.a[0].op == "x" and "etree" in w.a[0].a[0])):
                found.add(("the decrypted document", True))
            if any(c_ for _, c_ in found):
                worst = False
                ck.bad(R, nm, e.where(), "writes %s to a file: %s" % (", ".join(sorted(x for x, _ in found)), pretty(unver(e.data))[:160]))
            elif found:
                worst = None
                ck.maybe(R, nm, pretty(unver(e.data))[:120])
        if worst:
            ck.ok(R, nm)

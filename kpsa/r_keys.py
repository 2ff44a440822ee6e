"""Credentials and errors: C04 error translation, C06 key derivation, C07 key files, C28 opening without decryption."""
import ast
from .lib import *
from .fmt import fnorm, FormatError
from .net import excname
from .r_fmt import fmt, scen, usable, find_check, sides, header, blockrec, loc, HERE, SEED, IDX, reported, noexc_, early
from .r_io import isstream, ops, creds, cred_same, dest_scen, fields_in, kpfields

SIG1, SIG2 = mk("raw", "file", 0, 0, 4), mk("raw", "file", 0, 4, 4)


# ------------------------------------------------------------------ C04
def raised(ip):
    """Names of the exceptions leaving the analysed call."""
    return [(excname(e.data) if e.data.op != "fault" else e.data.a[0], e.where()) for e, _ in ip.exits if not e.caught]


def translate(ck, exc, path, name="read", stream=False, kw=()):
    """What read() raises when the parser raises exc at this place."""
    E_ = ck.eng
    d = s("other")
    ip = E_.exact(KDBX4, lambda ev: ev.kind == "call" and is_parse(ev, E_), exc)
    if path is not None:
        ip.overrides[mk(".", mk("fault", exc), "path")] = c(path)
    E_.kp_call(name, [d] if name == "read" else [], dict(kw), KDBX4, isstream(d, stream) + isstream(s("kp.filename"), stream), ip=ip)
    return ip


def is_parse(ev, E_):
    t = ev.data
    return t.op in ("m", "call") and any(x in ("parse", "parse_file", "parse_stream") for x in (
        t.a[0] if t.op == "m" else None, t.a[0].a[1] if t.op == "call" and t.a[0].op == "." else None)) or "parse_" in show(t)[-400:]


def expect_raise(ck, rule, what, exc, path, want, ver):
    for stream in (False, True):
        w2 = "%s (%s)" % (what, "stream" if stream else "path")
        ip = translate(ck, exc, path, stream=stream)
        if not ip.faulted:
            ck.maybe(rule, w2, "parser call not found")
            continue
        if not ip.st.dead:
            ck.bad(rule, w2, ip.faulted[0].where(), "%s at '%s' does not reach the caller: read() returns" % (exc, path))
            continue
        got = raised(ip)
        if not got:
            ck.maybe(rule, w2, "no exit recorded")
            continue
        bad = [g for g in got if g[0].rpartition(".")[2] != want.rpartition(".")[2]]
        if not bad:
            ck.ok(rule, w2)
        elif all(kind_known(g[0]) for g in bad):
            ck.bad(rule, w2, bad[0][1], "a failure at '%s' raises %s, documented is %s" % (path, bad[0][0], want))
        else:
            ck.maybe(rule, w2, "raises " + bad[0][0])


def kind_known(n):
    return n.replace(".", "").replace("_", "").replace("$", "").isalnum()


@rule("C04")
def error_translation(ck):
    """For every comparison made while parsing (both versions), the exception the parser raises at exactly that place in
    the declaration is followed through PyKeePass.read's handlers and must leave as the documented class; every other
    exception, or one from another place, leaves unchanged."""
    R = "error_translation"
    seen = set()
    for ver in (3, 4):
        f = fmt(ck, ver)
        if not usable(ck, R, "KDBX%d" % ver, f):
            continue
        H = header(f)
        checks = [e for e in f.evs if e.kind == "check"]
        e0, D, key = blockrec(f)
        item = D.a[0][0] if D is not None else None
        pay = next((x.stream for x in f.evs if x.kind == "reparse"), None)
        want = {}
        kinds = set()
        for e in checks:
            t = fnorm(e.test)
            if contains(t, SIG1) or contains(t, SIG2):
                k = "signature"
            elif ver == 4 and H is not None and H.op == "span" and contains(t, mk("raw", "file", H.a[3], 0, 32)):
                k = "header hash"
            elif ver == 4 and H is not None and H.op == "span" and contains(t, mk("raw", "file", H.a[3], 32, 32)):
                k = "header HMAC"
            elif item is not None and any(x.op == "raw" and x.a[0] == item for x in subterms(t)):
                k = "block"
            elif ver == 3 and pay is not None and contains(t, mk("raw", pay, 0, 0, 32)):
                k = "start bytes"
            else:
                k = None
            kinds.add(k)
            err = {"signature": "HeaderChecksumError", "header hash": "HeaderChecksumError", "header HMAC": "CredentialsError",
                   "start bytes": "CredentialsError", "block": "PayloadChecksumError", None: None}[k]
            path = "(parsing)" + "".join(" -> " + str(p) for p in e.path)
            if err is None:
                continue
            if (e.exc, path, err) in seen:
                continue
            seen.add((e.exc, path, err))
            expect_raise(ck, R, "KDBX%d %s at '%s'" % (ver, k, path), e.exc, path, err, ver)
            # both classes of one place are distinct errors
            want[path] = err
        need = {"signature", "header hash", "header HMAC", "block"} if ver == 4 else {"signature", "start bytes", "block"}
        for k in need - kinds:
            ck.maybe(R, "KDBX%d %s" % (ver, k), "no such comparison found")
    # anything else propagates
    for exc, path in (("construct.ChecksumError", "(parsing) -> $elsewhere"), ("construct.CheckError", "(parsing) -> $elsewhere"),
                      ("construct.StreamError", "(parsing) -> header"), ("construct.StreamError", "(parsing) -> body -> payload"),
                      ("construct.ConstructError", None), ("construct.MappingError", "(parsing) -> body"),
                      ("lxml.etree.XMLSyntaxError", None), ("zlib.error", None), ("ValueError", None),
                      ("KeyError", None), ("OSError", None), ("FileNotFoundError", None),
                      ("AssertionError", None), ("Exception", None), ("$Fault", None)):
        for stream in (False, True):
            what = "%s%s propagates (%s)" % (exc, " at '%s'" % path if path else "", "stream" if stream else "path")
            ip = translate(ck, exc, path, stream=stream)
            if not ip.faulted:
                ck.maybe(R, what, "parser call not found")
            elif not ip.st.dead:
                ck.bad(R, what, ip.faulted[0].where(), "the failure is swallowed: read() returns normally")
            else:
                got = raised(ip)
                doc = [g for g in got if g[0].rpartition(".")[2] in ("CredentialsError", "HeaderChecksumError", "PayloadChecksumError")]
                # a failure that is no verification failure must not be reported as one
                if doc and exc in ("construct.ChecksumError", "construct.CheckError"):
                    ck.ok(R, what)      # a verification failure elsewhere
                elif doc:
                    ck.bad(R, what, doc[0][1], "%s is turned into %s" % (exc, doc[0][0]))
                else:
                    ck.ok(R, what)


SWALLOW = {"construct.Optional", "construct.Select", "construct.GreedyRange"}


@rule("C04")
def nothing_swallowed(ck):
    """No step of the parse continues after a failure: an adapter's handler either re-raises or covers only the removal
    of the padding (whose failure shows up in the stream start comparison), the XML parser does not recover from errors,
    and the declaration has no alternative that hides a failing part."""
    R = "nothing_swallowed"
    kd = ck.eng.kdbx()
    bad = sorted({x.a[0] for x in subterms(kd) if x.op == "x" and x.a[0] in SWALLOW})
    ck.verdict(R, "no optional parts", not bad, "pykeepass/kdbx_parsing", "the file structure uses %s, which hides a failing part" % ", ".join(bad))
    for ver in (3, 4):
        for nm, kw in scen(ver, full=False):
            f = fmt(ck, ver, **kw)
            if not usable(ck, R, "KDBX%d %s" % (ver, nm), f):
                continue
            first = next((i for i, e in enumerate(f.evs) if e.kind == "decode"), None)
            for i, e in enumerate(f.evs):
                if e.kind not in ("decode", "reparse"):
                    continue
                what = "KDBX%d %s, %s" % (ver, nm, e.adapter)
                v = f.R(unver(e.res.value))
                ats = [x for x in subterms(v) if x.op == "exc"]
                val = fnorm(noexc_(v))
                if e.kind == "decode" and val.op == "unpad":
                    # wrong credentials make the padding wrong: that must not surface as another error
                    if ver == 3:
                        caught = [a for a in ats if any(n in ("ValueError", "ValueError", "Exception", "Exception", "BaseException", "*")
                                                        for hs in a.a[1] for n in (hs or ("*",)))]
                        ck.verdict(R, what + ": wrong padding is left to the stream start comparison", bool(caught), loc(ver, e),
                                   "an unpadding failure (wrong credentials) leaves as ValueError instead of CredentialsError")
                    ok = True
                    for a in ats:
                        t = fnorm(simp(v, {a: True}))
                        leaves = [x for _, x in cases_of(t)]
                        inner = val.a[0] if isinstance(val.a[0], T) else val.a[-1]
                        for x in leaves:
                            if x.op == "bot" or x.op == "havoc" or x in (inner, val):
                                continue
                            ok = None if not definite(x) else False
                    ck.verdict(R, what + ": unpadding", ok, loc(ver, e), "after a failed unpadding the payload becomes something else")
                    continue
                inc = [x for x in subterms(val) if x.op == "m" and x.a[0] == "decompress" and x.a[1].op == "call"
                       and x.a[1].a[0].op == "x" and x.a[1].a[0].a[0].endswith("decompressobj")] if e.kind == "decode" else []
                if inc and not any(y.op == "." and y.a[1] == "eof" for o in e.res.events if o.kind == "raise" for y in subterms(o.cond)) \
                        and not any(y.op == "." and y.a[1] == "eof" for y in subterms(e.res.value)):
                    ck.bad(R, what, loc(ver, e), "incremental decompression accepts a truncated payload without an error")
                    continue
                if not ats:
                    ck.ok(R, what)
                    continue
                for a in ats:
                    t = simp(v, {a: True})
                    if t.op == "bot":
                        ck.ok(R, what)
                    else:
                        ck.bad(R, what, loc(ver, e), "a failure here is caught and parsing goes on with %s" % pretty(fnorm(t))[:200])
            for x in (y for e in f.evs if e.kind == "decode" for y in subterms(fnorm(e.value)) if y.op == "parsexml"):
                r = next((z for z in x.a[1] if str(z).startswith("recover=")), None)
                ck.verdict(R, "KDBX%d %s: XML errors" % (ver, nm), r is None, HERE[ver],
                           "the XML parser recovers from malformed documents")


@rule("C04", "C28")
def requested_as_given(ck):
    """The constructor and read() hand file, credentials and the decrypt flag to the parser unchanged; decryption is on
    by default."""
    R = "requested_as_given"
    E_ = ck.eng
    d = s("other")
    for name in ("read", "__init__"):
        for stream in (False, True):
            for dec in (None, TRUE, FALSE):
                kw = {"password": s("pw"), "keyfile": s("kf"), "transformed_key": s("tk")}
                if dec is not None:
                    kw["decrypt"] = dec
                facts = isstream(d, stream)
                ip = E_.exact(KDBX4)
                res = E_.abstract(E_.kp_call(name, [d], kw, KDBX4, facts, ip=ip))
                F_ = F(*facts)
                par = [o for o in ops(res) if o.kind == "par" and simp(o.cond, F_) is not FALSE]
                what = "%s(%s%s)" % (name, "stream" if stream else "path", "" if dec is None else ", decrypt=%s" % cv(dec))
                if not par:
                    ck.maybe(R, what, "no parser call recognised")
                    continue
                for o in par:
                    cred_same(ck, R, what, o, {"password": s("pw"), "keyfile": s("kf"), "transformed_key": s("tk"),
                                               "decrypt": TRUE if dec is None else dec}, F_)


# ------------------------------------------------------------------ C06
PW, KF, TK = s("pw#str"), s("$keyfile"), s("$tk#bytes")


def composite_of(v, ver, kdf):
    """The composite key inside a transformed key of the expected form, or None."""
    if kdf == "aeskdf":
        if v.op == "sha256" and v.a[0].op == "fold":
            return v.a[0].a[1]
    elif v.op == "argon2":
        return v.a[0]
    return None


def transformed(ver, kdf, comp):
    if kdf == "aeskdf":
        S, R_ = (mk("hv", "hdr", 5), mk("hv", "hdr", 6)) if ver == 3 else (mk("hv", "hdr.11", "S"), mk("hv", "hdr.11", "R"))
        return mk("sha256", mk("fold", mk("for", mk("range", c(0), R_, c(1))), comp, mk("encrypt", "AES", "ECB", S, NONE, mk("mu"))))
    k = lambda n: mk("hv", "hdr.11", n)
    return mk("argon2", comp, k("S"), k("I"), mk("op", "//", k("M"), c(1024)), k("P"), c(32),
              ext("argon2.low_level.Type.ID" if kdf == "argon2id" else "argon2.low_level.Type.D"), k("V"))


def unfold(t):
    """Loops as comparable terms: previous value, number of rounds, start, step."""
    m = {x: mk("iterated", x.a[0].a[0], x.a[1], subst(x.a[2], {y: s("$previous#bytes") for y in subterms(x.a[2]) if y.op == "mu"}))
         for x in subterms(t) if x.op == "fold" and len(x.a) == 3 and x.a[0].op == "for" and x.a[0].a[0].op == "range"}
    return subst(t, m) if m else t


def tkvalue(f):
    """(transformed key value, master key value) with computed names replaced by what they stand for."""
    def full(t, n=0):
        m = {y: fnorm(v) for y, v in f.keys.items() if contains(t, y)}
        return full(fnorm(subst(t, m)), n + 1) if m and n < 5 else t
    mast = []
    for y, v in f.keys.items():
        n = fnorm(v)
        if n.op == "sha256" and contains(n, SEED):
            mast.append((y, full(n)))
    return mast


@rule("C06")
def key_derivation(ck):
    """For each KDF, each presence of password, key file and precomputed key, the computed values of the declaration are
    compared with the documented derivation as terms over the header fields and credentials."""
    R = "key_derivation"
    kfpart = {}
    for ver, kdf in ((3, "aeskdf"), (4, "aeskdf"), (4, "argon2"), (4, "argon2id")):
        kw = {} if ver == 3 else {"kdf": kdf}
        for pl, pw in (("no password", NONE), ("a password", mk("nn", PW)), ("an empty password", c(""))):
            for kl, kf in (("no key file", NONE), ("a key file", mk("nn", KF))):
                for tl, tk in (("", NONE), (" and a precomputed key", TK)):
                    if tk is not NONE and (pw.op == "c" and cv(pw) == ""):
                        continue
                    what = "KDBX%d %s with %s, %s%s" % (ver, kdf, pl, kl, tl)
                    f = fmt(ck, ver, args={"password": pw, "keyfile": kf, "transformed_key": tk}, **kw)
                    if not usable(ck, R, what, f):
                        continue
                    ms = tkvalue(f)
                    if not ms:
                        allv = [fnorm(v) for v in f.keys.values()]
                        ck.maybe(R, what, "no master key recognised: " + "; ".join(pretty(v)[:80] for v in allv))
                        continue
                    for y, mv in ms:
                        parts = mv.a[0]
                        w = "%s %s" % (HERE[ver], y.a[0])
                        if tk is not NONE:
                            ck.same(R, what + ": " + y.a[0], ccontent(unfold(unnn(mv))), mk("sha256", cat(SEED, TK)), w)
                            continue
                        if not (parts.op == "cat" and len(parts.a) == 2 and parts.a[0] is SEED):
                            ck.verdict(R, what + ": master key", False if definite(mv) else None, w,
                                       "the master key is %s" % pretty(mv)[:300])
                            continue
                        tv = parts.a[1]
                        comp = composite_of(tv, ver, kdf)
                        pwh = None if pw is NONE else mk("sha256", mk("enc", PW)) if pw.op == "nn" else mk("sha256", c(b""))
                        if kf is NONE:
                            want = mk("sha256", pwh if pwh is not None else c(b""))
                            want = fnorm(want)
                            ck.same(R, what + ": transformed key", unfold(unnn(tv)), unfold(transformed(ver, kdf, want)), w)
                            continue
                        # with a key file: the rest as above, the composite ends with the key file's key
                        if comp is None or comp.op not in ("sha256",):
                            ck.verdict(R, what + ": transformed key", False if definite(tv) else None, w, "is %s" % pretty(tv)[:300])
                            continue
                        ck.same(R, what + ": transformed key", unfold(subst(unnn(tv), {unnn(comp): s("$composite")})), unfold(transformed(ver, kdf, s("$composite"))), w)
                        k = unnn(comp.a[0])
                        if pwh is None:
                            kfpart[(ver, kdf)] = k
                            ck.verdict(R, what + ": composite key", keypart(k), w, "the key file contributes %s" % pretty(k)[:200])
                        else:
                            kp = kfpart.get((ver, kdf))
                            want = fnorm(cat(fnorm(pwh), s("$key#bytes"))) if kp is not None else None
                            if kp is not None:
                                k = fnorm(subst(k, {kp: s("$key#bytes")}))
                            if want is None:
                                ck.maybe(R, what + ": composite key", "")
                            else:
                                ck.same(R, what + ": composite key", k, want, w)


def ccontent(t):
    """The key file's content by name."""
    m = {x: s("$content#bytes") for x in subterms(t) if x.op == "m" and x.a[0] in ("read", "read_bytes") and any(y is KF for y in subterms(x))}
    return subst(t, m) if m else t


def unnn(t):
    m = {x: x.a[0] for x in subterms(t) if x.op == "nn"}
    return subst(t, m) if m else t


def keypart(k):
    """The key file's contribution depends on the key file (its rules are C07)."""
    if not any(x is KF for x in subterms(k)):
        return False if definite(k) else None
    return True


@rule("C06")
def same_derivation(ck):
    """Opening and saving evaluate the same computed values; saving passes the object's credentials, and the transformed
    key offered to the caller is the one the file's keys are made of."""
    R = "same_derivation"
    for ver in (3, 4):
        for nm, kw in scen(ver, full=False):
            f = fmt(ck, ver, **kw)
            if not usable(ck, R, "KDBX%d %s" % (ver, nm), f):
                continue
            if f.b is None:
                ck.maybe(R, "KDBX%d %s" % (ver, nm), getattr(f, "why", ""))
                continue
            extra = [y for y in f.keys if y.a[0].startswith("B:")]
            pv = [fnorm(v) for y, v in f.keys.items() if not y.a[0].startswith("B:")]
            ok = True
            for y in extra:
                n = fnorm(f.keys[y])
                r = None
                for v in pv:
                    r2, _ = equiv(n, v)
                    if r2:
                        r = True
                        break
                    if r2 is False and r is None:
                        r = False
                if r is not True:
                    ok = r if ok is True else ok
            ck.verdict(R, "KDBX%d %s" % (ver, nm), ok, HERE[ver], "saving derives other keys than opening: %s" % "; ".join(
                "%s = %s" % (y.a[0], pretty(fnorm(f.keys[y]))[:200]) for y in extra))
        f = fmt(ck, ver, args={"transformed_key": NONE})
        if usable(ck, R, "KDBX%d transformed_key" % ver, f):
            ks = [n.a[0].a[1] for n in (fnorm(v) for v in f.keys.values()) if n.op == "sha256" and n.a[0].op == "cat" and n.a[0].a[0] is SEED and len(n.a[0].a) == 2]
            got = fnorm(reported(ck, f, "transformed_key", ver))
            if ks:
                ck.verdict(R, "KDBX%d transformed_key attribute" % ver, True if got in ks else (False if definite(got) else None),
                           where_fn(ck.eng, "PyKeePass", "transformed_key"), "the attribute is %s, the file's keys use %s" % (pretty(got)[:200], pretty(ks[0])[:200]))


@rule("C06")
def remembered_keys(ck):
    """A memoised function (functools.cache, lru_cache, cached_property) returns what it computed for equal arguments before:
    none may read a file or a stream, directly or through the functions it calls, because the key file's content is not
    among its arguments. The same for a table outside the function that is filled by the arguments alone."""
    R = "remembered_keys"
    cl = ck.eng.base.closures
    cl = [x for x in (cl.values() if isinstance(cl, dict) else cl) if x is not None]
    byname = {}
    for x in cl:
        byname.setdefault(x.node.name if hasattr(x.node, "name") else None, []).append(x)
    n = 0

    def reads_file(x, node):
        """a call in the node that reads a file, directly or through the package's functions"""
        seen, todo = set(), [(x, node)]
        while todo:
            y, node = todo.pop()
            if id(node) in seen:
                continue
            seen.add(id(node))
            for z in ast.walk(node):
                if not isinstance(z, ast.Call):
                    continue
                f = z.func
                nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
                if nm in ("open", "read", "read_bytes", "read_text", "readinto", "readlines") and nm not in byname:
                    return (y, z)
                todo += [(v, v.node) for v in byname.get(nm, [])]
        return None

    for x in cl:
        if not isinstance(x.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        a = x.node.args
        params = {z.arg for z in a.posonlyargs + a.args + a.kwonlyargs}
        local = params | {z.id for z in ast.walk(x.node) if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store)}
        for z in ast.walk(x.node):
            # table[arguments] = result of reading a file, in a table that outlives the call
            if not isinstance(z, ast.Assign):
                continue
            for t in z.targets:
                if not isinstance(t, ast.Subscript):
                    continue
                tab = t.value
                outlives = isinstance(tab, ast.Name) and tab.id not in local
                keyvars = [k for k in ast.walk(t.slice) if not isinstance(k, (ast.Tuple, ast.Load, ast.Constant))]
                key = keyvars
                for _ in range(3):
                    new = []
                    for k in key:
                        d = [y.value for y in ast.walk(x.node) if isinstance(y, ast.Assign) and isinstance(k, ast.Name) and k.id not in params
                             and any(isinstance(u, ast.Name) and u.id == k.id for u in y.targets)]
                        new += [v for y in d for v in ast.walk(y) if not isinstance(v, (ast.Tuple, ast.Load, ast.Constant))] or [k]
                    key = new
                if not outlives or not key or not all(isinstance(k, ast.Name) and k.id in params for k in key):
                    continue
                n += 1
                vals = [z.value]
                if isinstance(z.value, ast.Name):
                    vals = [y.value for y in ast.walk(x.node) if isinstance(y, ast.Assign) and any(
                        isinstance(u, ast.Name) and u.id == z.value.id for u in y.targets)]
                hit = next((h for h in (reads_file(x, v) for v in vals) if h), None)
                ck.verdict(R, "%s remembers nothing read from a file" % x.qual, hit is None, "%s:%d in %s" % (x.mod, z.lineno, x.qual),
                           "" if hit is None else "keeps in %s what it read at %s:%d, by the arguments alone: the file's content may have changed" %
                           (ast.unparse(tab), hit[0].mod, hit[1].lineno))
    for x in cl:
        if not x.cached:
            continue
        n += 1
        hit = reads_file(x, x.node)
        w = "%s:%d in %s" % (x.mod, x.node.lineno, x.qual)
        ck.verdict(R, "memoised %s reads no file" % x.qual, hit is None, w,
                   "" if hit is None else "the remembered result depends on a file read at %s:%d, whose content may have changed" %
                   (hit[0].mod, hit[1].lineno))
    if not n:
        ck.ok(R, "no function is memoised (%d functions)" % len(cl))


@rule("C06")
def credentials_passed(ck):
    """read() and save() give the parser and serialiser exactly the credentials named by the caller or held by the object."""
    R = "credentials_passed"
    requested_as_given(ck)
    from .r_io import saving_credentials
    saving_credentials(ck)


# ------------------------------------------------------------------ C07
XMLNAMES = ("lxml.etree.fromstring", "lxml.etree.parse", "lxml.etree.XML", "lxml.etree.ElementTree.parse")
HEXNAMES = ("codecs.decode", "builtins.bytes.fromhex", "builtins.bytearray.fromhex", "binascii.unhexlify", "binascii.a2b_hex", "builtins.int")
KEY = s("keyfile")


def contents():
    """Terms that denote the whole content of the key file."""
    rb = ("rb", "br")
    out = {True: [mk("m", "read", KEY)], False: []}
    for m in rb:
        for kw in ((), (("mode", c(m)),)):
            a = (KEY,) if kw else (KEY, c(m))
            out[False].append(mk("m", "read", mk("call", ext("builtins.open"), a, kw)))
    out[False].append(mk("m", "read_bytes", mk("call", ext("pathlib.Path"), (KEY,), ())))
    return out


class KeyRun:
    pass


def keyrun(ck, stream, hexok, xml, version=None, length=None, data=True, pw=NONE, facts=(), exc="lxml.etree.XMLSyntaxError", hexexc="binascii.Error"):
    """compute_key_composite followed in one scenario."""
    E_ = ck.eng
    try:
        f = E_.glob("pykeepass.kdbx_parsing.common", "compute_key_composite")
    except (AnalysisError, KeyError):
        return None
    if f is None or f.op != "fn":
        return None
    ip = E_.exact()
    D = contents()[stream]

    def about(args):
        return any(any(x is d or x is KEY for d in D for x in subterms(a)) for a in args)

    def fe(name, args, kw):
        if name in XMLNAMES and not xml and about(args):
            return exc
        if name in HEXNAMES and not xml and not hexok and about(args):
            return hexexc
        return None
    ip.fault_ext = fe
    for d in D:
        if length is not None:
            ip.overrides[mk("len", d)] = c(length)
        ip.push(mk("isnone", d), False)
    for a, b in [(mk("hasattr", KEY, "read"), stream), (truthy(KEY), True), (mk("isnone", KEY), False),
                 (mk("hasattr", KEY, "seekable"), True), (mk("hasattr", KEY, "seek"), True),
                 (truthy(mk("m", "seekable", KEY)), True)] + list(facts):
        ip.push(a, b)
    r = KeyRun()
    r.ip = ip
    r.version = version
    if xml:
        # the document's fields, however it is reached
        def hook(ip_, b, name):
            e = qend(b)
            if e == ("Meta", "Version") and name == "text":
                if version is None:
                    ip_.do_raise(mk("exn", "AttributeError"), None)
                    return BOT
                return c(version)
            if e == ("Key", "Data") and name in ("text", "attrib", "get") and not data:
                ip_.do_raise(mk("exn", "AttributeError"), None)
                return BOT
            return None
        ip.attr_hooks = list(ip.attr_hooks or ()) + [hook]

        def over(t):
            if t.op == "." and t.a[1] == "text" and qend(t.a[0]) == ("Meta", "Version"):
                return NONE if version is None else c(version)
            return None
        ip.over_fn = over
    res = E_.call(ip, f, [], {"password": pw, "keyfile": KEY})
    r.res, r.value, r.dead = res, fnorm(unver(res.value)), ip.st.dead
    r.raised = raised(ip)
    return r


def qend(t):
    """Tags of the last two steps of a query."""
    if t.op != "q":
        return None
    return tuple(st[1] for st in t.a[1] if st[0] in ("child", "desc"))[-2:]


def keyval(t, D, length):
    """Value of the composite in a scenario, with the content named $content and its length known."""
    m = {}
    for d in D:
        if length is not None:
            m[mk("len", d)] = c(length)
    t = simp(subst(t, m), {}) if m else t
    t = subst(t, {d: s("$content#bytes") for d in D})
    return fnorm(t)


CONTENT = s("$content#bytes")


def unstrip(t):
    """unhex(..., ws) skips white space anyway."""
    m = {}
    for x in subterms(t):
        if x.op == "unhex" and x.a[1] == "ws" and x.a[0].op == "m" and x.a[0].a[0] in ("strip", "rstrip", "lstrip") and len(x.a[0].a) == 2:
            m[x] = mk("unhex", x.a[0].a[1], "ws")
    return subst(t, m) if m else t


def softatoms(t):
    """Conditions on the content that the scenario may decide in a way this rule does not see."""
    for x in subterms(t):
        if x.op == "ite":
            for y in subterms(x.a[0]):
                if y.op in ("comp", "match", "any", "all", "exc") or (y.op == "call" and y.a[0].op == "x" and y.a[0].a[0].startswith("re.")) or (
                        y.op == "m" and y.a[0] in ("match", "fullmatch", "search", "isxdigit", "translate", "issubset", "issuperset")):
                    return True
    return False


def expect_key(ck, R, what, r, D, length, want, w):
    if r.dead:
        ck.bad(R, what, w, "opening fails with %s" % ", ".join(x[0] for x in r.raised) if r.raised else "opening fails")
        return
    v = unstrip(keyval(r.value, D, length))
    rr, d = equiv(v, want)
    if rr is False and softatoms(v):
        rr = None
    if rr is False:
        ck.bad(R, what, w, "the composite key is %s, the key file rules need %s" % (pretty(d[1])[:300], pretty(d[2])[:300]))
    else:
        ck.verdict(R, what, rr, w, pretty(v)[:200])


def field_of(doc, *path):
    return q(doc, "/".join(path))


@rule("C07")
def key_files(ck):
    """compute_key_composite followed for a key file given as path or stream, in each class of content: XML of each
    version, XML that is no key file, no XML (each parser failure), of length 32, 64 or any other, hexadecimal or not;
    the resulting composite as a term over the untouched content must be the one of the key file rules."""
    R = "key_files"
    w = "pykeepass/kdbx_parsing/common.py compute_key_composite"
    cs = contents()
    plain = {}

    def fallback(length, hexok):
        if length == 32:
            return CONTENT
        if length == 64 and hexok:
            return mk("unhex", CONTENT, "strict")
        return mk("sha256", CONTENT)

    for stream in (True, False):
        D = cs[stream]
        st = "stream" if stream else "path"
        r = keyrun(ck, stream, True, True, "1.0")
        if r is None:
            ck.maybe(R, st, "compute_key_composite not found")
            continue
        # the content is read whole and unmodified
        used = [d for d in D if contains(r.res.value, d)]
        if not used:
            reads = {x for x in subterms(r.value) if x.op == "m" and x.a[0] in ("read", "read_bytes", "read_text", "getvalue", "readline")}
            ok = None
            for x in reads:
                if x.a[0] in ("readline", "read_text") or (x.a[0] == "read" and len(x.a) > 2):
                    ok = False
                if x.a[1].op == "call" and is_x(x.a[1].a[0], "builtins.open"):
                    md = dict(x.a[1].a[2]).get("mode", x.a[1].a[1][1] if len(x.a[1].a[1]) > 1 else c("r"))
                    if is_c(md) and "b" not in cv(md):
                        ok = False
            ck.verdict(R, st + ": whole content", ok, w, "the key file is read as %s" % ", ".join(pretty(x)[:100] for x in reads))
            continue
        docs = {x.a[0] for x in subterms(r.value) if x.op == "q" and qend(x) == ("Key", "Data")}
        for ver in ("1.0", "1.00", "1.01", "2.0", "2.00", "2.01"):
            r = keyrun(ck, stream, True, True, ver)
            what = "%s: XML version %s" % (st, ver)
            dat = [x for x in subterms(r.value) if x.op == "q" and qend(x) == ("Key", "Data")]
            docs = {d for x in dat for d in subterms(x.a[0]) if d.op == "parsexml"}
            if not dat or len(docs) != 1:
                if r.dead:
                    ck.bad(R, what, w, "opening fails: %s" % r.raised)
                elif definite(unstrip(keyval(r.value, D, None))):
                    ck.bad(R, what, w, "the XML key data is not used: %s" % pretty(r.value)[:200])
                else:
                    ck.maybe(R, what, pretty(r.value)[:200])
                continue
            if not any(next(iter(docs)).a[0] is d for d in D):
                ck.maybe(R, what + ": parsed content", pretty(next(iter(docs)))[:200])
            T_ = mk(".", dat[0], "text")
            want = mk("unb64", T_) if ver.startswith("1") else mk("unhex", T_, "ws")
            v = unstrip(r.value)
            rr, d = equiv(v, mk("sha256", want))
            if rr is False and softatoms(v):
                rr = None
            ck.verdict(R, what, rr, w, "the composite key is %s, the key file rules need %s" % (pretty(v)[:300], pretty(mk("sha256", want))[:300]))
            if ver.startswith("2"):
                hash_rejected(ck, R, what, r, dat[0], w)
        for ver, lab in (("3.0", "XML of another version"), ("1.5", "XML of version 1.5"), ("2.5", "XML of version 2.5"), ("10.0", "XML of version 10.0"),
                         ("", "XML with an empty version"), (None, "XML that is no key file")):
            for L in (32, 64, 500):
                r = keyrun(ck, stream, True, True, ver)
                expect_key(ck, R, "%s: %s, %d bytes" % (st, lab, L), r, D, L, mk("sha256", fallback(L, True)), w)
        r = keyrun(ck, stream, True, True, "1.0", data=False)
        expect_key(ck, R, "%s: XML without key data, 500 bytes" % st, r, D, 500, mk("sha256", mk("sha256", CONTENT)), w)
        for exc in ("lxml.etree.XMLSyntaxError", "UnicodeDecodeError"):
            for hexok in (True, False):
                for he in (("binascii.Error",) if hexok else ("binascii.Error", "ValueError")):
                    for L in (0, 1, 16, 31, 32, 33, 63, 64, 65, 66, 128, 500):
                        r = keyrun(ck, stream, hexok, False, exc=exc, hexexc=he)
                        expect_key(ck, R, "%s: no XML (%s), %d bytes, %s" % (st, exc.rpartition(".")[2], L, "hexadecimal" if hexok else "not hexadecimal (%s)" % he.rpartition(".")[2]),
                                   r, D, L, mk("sha256", fallback(L, hexok)), w)
        # password and key file together
        r = keyrun(ck, stream, False, False, pw=mk("nn", s("pw#str")))
        if not r.dead:
            expect_key_pw(ck, R, st, r, D, w)
        # a stream is rewound first
        if stream:
            rewound(ck, R, w)


def expect_key_pw(ck, R, st, r, D, w):
    v = unnn(keyval(r.value, D, 500))
    ck.same(R, st + ": password then key file", v, mk("sha256", cat(mk("sha256", mk("enc", s("pw#str"))), mk("sha256", CONTENT))), w)


def is_x(t, name):
    return t.op == "x" and t.a[0] == name


def rewound(ck, R, w):
    """Each use reads the stream from its beginning."""
    for xml in (True, False):
        r = keyrun(ck, True, True, xml, "1.0")
        what = "stream: read from its beginning" + (" (XML)" if xml else "")
        pos, ok = None, None
        fc = dict(r.ip.facts)
        for e in r.res.events:
            cond = simp(unver(e.cond), fc)
            if e.kind == "mut" and e.data.op == "mut" and e.data.a[0] == "seek" and e.data.a[1] is KEY:
                a = e.data.a[2]
                if a and all(is_c(x, 0) for x in a):
                    pos = 0 if cond is TRUE else (0 if pos == 0 else "?")
                else:
                    pos = "moved"
            if e.kind in ("call", "mut") and e.data.op == "m" and e.data.a[1] is KEY and e.data.a[0].startswith("read"):
                if e.data.a[0] == "readable":
                    continue
                ok = True if pos == 0 else (None if pos == "?" else False)
                if ok is not True:
                    break
                pos = "read"
        ck.verdict(R, what, ok, w, "the stream is read from wherever an earlier use left it")


def hash_rejected(ck, R, what, r, data, w):
    """A version 2 key whose stored hash differs is rejected."""
    key = mk("unhex", mk(".", data, "text"), "ws")
    H = mk("xattr", data, c("Hash"))
    out = None
    seen = []
    for e in r.res.events:
        if e.kind != "raise" or e.caught:
            continue
        for x in subterms(fnorm(unstrip(fnorm(unver(e.cond))))):
            if (x.op == "cmp" and x.a[0] in ("==", "in") or x.op == "m" and x.a[0] in ("startswith", "endswith", "find", "count")) \
                    and any(y is H or (y.op == "xattr" and y.a[0] is data) for y in subterms(x)):
                seen.append(x)
    for x in seen:
        sd = x.a[1:3]
        for a, b in (sd, sd[::-1]):
            if a.op == "sl" and a.a[0] is mk("sha256", key) and b.op == "unhex":
                lo, hi = a.a[1], a.a[2]
                if (lo is NONE or is_c(lo, 0)) and is_c(hi, 4):
                    # and the mismatch is what raises
                    out = True
    if out is None:
        if not seen and not any(e.kind == "raise" and not e.caught for e in r.res.events):
            out = False
        elif seen and all(definite(subst(x, {data: s("$data")})) for x in seen):
            out = False
    else:
        for e in r.res.events:
            if e.kind == "raise" and not e.caught:
                cnd = unstrip(fnorm(unver(e.cond)))
                for x in seen:
                    t = simp(cnd, {x: True})
                    if t is not FALSE and simp(cnd, {x: False}) is FALSE:
                        out = False
        if out is True:
            fc = dict(r.ip.facts)
            total = disj(*[simp(unstrip(fnorm(unver(e.cond))), fc) for e in r.res.events if e.kind == "raise" and not e.caught])
            for x in seen:
                t = simp(total, {x: False})
                if t is not TRUE and any(contains(y, data) for y in subterms(t)):
                    ck.verdict(R, what + ": every mismatching hash is rejected", False if definite(subst(t, {data: s("$data")})) else None, w,
                               "a mismatching hash is rejected only when %s" % pretty(t)[:300])
                    return
    ck.verdict(R, what + ": mismatching hash is rejected", out, w, "the stored hash is %s" % (
        "compared as " + pretty(seen[0])[:300] if seen else "never compared"))


# ------------------------------------------------------------------ C28
CONTENT_GET = ("payload", "tree", "root_group", "recyclebin_group", "groups", "entries", "attachments", "binaries", "database_name",
               "database_description", "default_username", "credchange_date", "credchange_required_days", "credchange_recommended_days",
               "credchange_required", "credchange_recommended")
CONTENT_CALL = (("xml", (), {}), ("find_entries", (), {}), ("find_entries", (), {"title": s("t")}), ("find_groups", (), {}), ("find_groups", (), {"name": s("t")}),
                ("find_attachments", (), {}), ("find_entries", (), {"first": TRUE}), ("xpath", (c("//Entry"),), {}), ("add_binary", (s("data#bytes"),), {}))


@rule("C28")
def header_only(ck):
    """With decrypt false the declaration computes no payload: no payload transformation or second parse happens, the
    payload's value is None, the comparisons made need no key, and the header attributes are still the header's values."""
    R = "header_only"
    for ver in (3, 4):
        f = fmt(ck, ver, decrypt=FALSE, args={"decrypt": FALSE})
        if not usable(ck, R, "KDBX%d" % ver, f):
            continue
        w = HERE[ver]
        dec = [e for e in f.evs if e.kind in ("decode", "reparse") and simp(e.cond, {}) is not FALSE]
        ck.verdict(R, "KDBX%d: the payload is not transformed" % ver, not dec, loc(ver, dec[0]) if dec else w,
                   "%s is applied although decryption is off" % (dec[0].adapter if dec else ""))
        body = f.attr(f.value, "body", mk(".", f.value, "body"))
        pl = f.attr(body, "payload", mk(".", body, "payload"))
        ck.verdict(R, "KDBX%d: no payload value" % ver, True if pl is NONE else (False if definite(pl) or pl in f.recs else None), w,
                   "the payload is %s" % pretty(pl)[:200])
        for e in f.evs:
            if e.kind != "check":
                continue
            t = fnorm(e.test)
            needs = any(x.op == "s" and str(x.a[0]).startswith("K:") for x in subterms(t)) or any(
                x.op == "s" and str(x.a[0]).startswith(("$password", "$keyfile", "$transformed_key")) for x in subterms(t))
            ck.verdict(R, "KDBX%d: %s needs no key" % (ver, " -> ".join(e.path)), not needs, loc(ver, e), "the comparison depends on the credentials")
        # what needs no key is verified all the same
        keys = [e for e in f.evs if e.kind == "computed" and fnorm(e.value).op in ("sha256", "argon2")]
        ck.verdict(R, "KDBX%d: no key is derived" % ver, True if not [e for e in keys if contains(fnorm(e.value), s("$password"))] else None, w)
        g = fmt(ck, ver)
        if isinstance(g, FormatError):
            continue
        H = header(g)
        if ver == 4 and H is not None and H.op == "span":
            chk = find_check(f, mk("raw", "file", H.a[3], 0, 32))
            ck.verdict(R, "KDBX4: header hash verified", bool(chk) and equiv(chk[0][2], mk("sha256", H))[0], w,
                       "the header hash is not verified when decryption is off")
        sig = [e for e in f.evs if e.kind == "check" and contains(fnorm(e.test), SIG1) and simp(e.cond, {}) is TRUE]
        ck.verdict(R, "KDBX%d: signature verified" % ver, bool(sig), w, "the signature is not verified when decryption is off")
        for prop in ("version", "encryption_algorithm", "kdf_algorithm", "database_salt"):
            a, b = reported(ck, f, prop, ver), reported(ck, g, prop, ver)
            r, d = equiv(fnorm(a), fnorm(b))
            ck.verdict(R, "KDBX%d: %s" % (ver, prop), r, where_fn(ck.eng, "PyKeePass", prop), "without decryption it is %s, with it %s" % (pretty(a)[:150], pretty(b)[:150]))


@rule("C28")
def contents_guarded(ck):
    """With an absent payload every member that reaches the contents ends in an exception on all paths."""
    R = "contents_guarded"
    E_ = ck.eng
    B = mk(".", s("kdbx"), "body")
    for ver in VERSIONS:
        for name, args, kw in tuple((n, None, None) for n in CONTENT_GET) + CONTENT_CALL:
            what = "KDBX%d: %s%s" % (ver[0], name, "" if args is None else "(%s)" % ", ".join(sorted(kw)))
            w = where_fn(E_, "PyKeePass", name)
            ip = E_.new(ver, opaque=False)
            ip.overrides[mk(".", B, "payload")] = NONE
            try:
                r = E_.kp_get(name, ver, ip=ip) if args is None else E_.kp_call(name, args, kw, ver, ip=ip)
            except AnalysisError as e:
                ck.maybe(R, what, str(e))
                continue
            if ip.st.dead or r.value.op == "bot":
                ck.ok(R, what)
                continue
            v = unver(r.value)
            # undecided when an unmodelled construct may raise
            ck.verdict(R, what, False if definite(v) else None, w, "returns %s although nothing was decrypted" % pretty(v)[:200])


@rule("C28")
def verified_before_content(ck):
    """With decryption on, no part of the payload is interpreted before the comparison that depends on the credentials."""
    R = "verified_before_content"
    for ver in (3, 4):
        for nm, kw in scen(ver, full=False):
            f = fmt(ck, ver, **kw)
            if not usable(ck, R, "KDBX%d %s" % (ver, nm), f):
                continue
            H = header(f)
            if ver == 4:
                if H is None or H.op != "span":
                    ck.maybe(R, "KDBX4 " + nm, "header not recognised")
                    continue
                read = mk("raw", "file", H.a[3], 32, 32)
                use = early(f, "decode", "reparse")
            else:
                ri = early(f, "reparse")
                if ri == len(f.evs):
                    ck.maybe(R, "KDBX3 " + nm, "no second parse")
                    continue
                read = mk("raw", f.evs[ri].stream, 0, 0, 32)
                use = ri + 1 + next((i for i, e in enumerate(f.evs[ri + 1:]) if e.kind in ("decode", "reparse")), len(f.evs) - ri)
            got = find_check(f, read)
            if not got:
                ok = False if all(definite(fnorm(e.test)) for e in f.evs if e.kind == "check") else None
            else:
                ok = got[0][0] < use and simp(got[0][1].cond, {}) is TRUE
            ck.verdict(R, "KDBX%d %s" % (ver, nm), ok, HERE[ver], "the payload is used before the credentials were verified")

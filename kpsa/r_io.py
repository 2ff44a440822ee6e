"""C01 atomic save, C05 failed open, C23 credentials, C29 creation."""
from .lib import *
from . import net as net_
from .r_fields import obj, codec

# ------------------------------------------------------------------ file operations
EXTOPS = {
    "shutil.move": "rename", "os.rename": "rename", "os.replace": "rename", "os.renames": "rename",
    "shutil.copy": "copy", "shutil.copy2": "copy", "shutil.copyfile": "copy", "shutil.copyfileobj": "copy",
    "os.link": "copy", "os.symlink": "copy",
    "os.remove": "unlink", "os.unlink": "unlink", "shutil.rmtree": "unlink",
    "builtins.open": "open", "io.open": "open", "os.open": "open", "codecs.open": "open",
}
METOPS = {"rename": "rename", "replace": "rename", "unlink": "unlink", "write_bytes": "write", "write_text": "write",
          "open": "open", "touch": "write", "truncate": "truncate", "write": "streamwrite", "writelines": "streamwrite"}
HARMLESS = {"os.fsync", "os.stat", "os.path.exists", "os.path.isfile", "os.chmod", "shutil.copymode", "shutil.copystat",
            "os.path.samefile", "os.makedirs"}


class Op:
    def __init__(self, kind, ev, args, **kw):
        self.kind, self.ev, self.args = kind, ev, args
        self.kw = kw
        self.cond = ev.cond

    def where(self):
        return self.ev.where()


def kwof(t):
    """kwargs of a method-call term."""
    if t.a and isinstance(t.a[-1], T) and t.a[-1].op == "kw":
        return dict(t.a[-1].a[0])
    return {}


def plain(t):
    return [x for x in t.a[1:] if not (isinstance(x, T) and x.op == "kw")]


def openmode(args, kw, meth=False):
    m = kw.get("mode")
    if m is None and len(args) > (0 if meth else 1):
        m = args[0 if meth else 1]
    if m is None:
        return "r"
    return cv(m) if m.op == "c" else None


def fileop(e):
    """The file operation of an event, if any."""
    t = e.data
    if e.kind == "call" and t.op == "call" and t.a[0].op == "x":
        name = t.a[0].a[0]
        k = EXTOPS.get(name)
        kw = dict(t.a[2]) if len(t.a) > 2 else {}
        args = list(t.a[1])
        if name in ("shutil.move", "os.rename", "os.replace", "shutil.copy", "shutil.copyfile", "shutil.copy2"):
            args += [kw[x] for x in ("src", "dst") if x in kw]
        if k == "open":
            path = args[0] if args else kw.get("file")
            return Op("open", e, [path], mode=openmode(args, kw), term=t)
        if k == "unlink":
            return Op(k, e, args[:1], tolerant=False)
        if k:
            return Op(k, e, args)
        if name.startswith("tempfile."):
            return Op("tempfile", e, args, kw=kw)
        return None
    if e.kind == "call" and t.op == "m":
        name, o, args, kw = t.a[0], t.a[1], plain(t)[1:], kwof(t)
        if o is s("KDBX") and name.startswith(("build", "parse")):
            return Op("ser" if name.startswith("build") else "par", e, args, meth=name, kw=kw)
        k = METOPS.get(name)
        if k in ("rename", "copy"):
            return Op(k, e, [o] + args)
        if k == "unlink":
            return Op(k, e, [o], tolerant=kw.get("missing_ok") is TRUE)
        if k == "open":
            return Op(k, e, [o], mode=openmode(args, kw, True), term=t)
        if k:
            return Op(k, e, [o] + args)
        return None
    if e.kind in ("listmut", "mut") and t.op == "mut":
        name, o, args = t.a[0], t.a[1], list(t.a[2])
        kw = dict(args[-1].a[0]) if args and isinstance(args[-1], T) and args[-1].op == "kw" else {}
        if name == "unlink":
            return Op("unlink", e, [o], tolerant=kw.get("missing_ok") is TRUE)
        if name in ("rename", "replace") and len(args) == 1:
            return Op("rename", e, [o] + args)
        if name in ("write", "writelines", "write_bytes", "write_text", "truncate", "touch"):
            return Op(METOPS[name], e, [o] + args)
    return None


def ops(res):
    out = []
    for e in res.events:
        o = fileop(e)
        if o is not None:
            out.append(o)
    return out


# ------------------------------------------------------------------ path normal form
def unpath(t):
    """Strip conversions that keep the file a path names."""
    while True:
        if t.op == "call" and t.a[0].op == "x" and t.a[0].a[0] in (
                "pathlib.Path", "pathlib.PurePath", "os.fspath", "os.path.abspath", "os.path.normpath") and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.op == "str":
            t = t.a[0]
        elif t.op == "nn":
            t = t.a[0]
        elif t.op == "." and t.a[1] == "name" and t.a[0].op == "call" and t.a[0].a[0].op == "x" and \
                t.a[0].a[0].a[0].startswith("tempfile."):
            return t
        elif t.op == "m" and t.a[0] in ("absolute", "__fspath__", "as_posix"):
            t = t.a[1]
        else:
            return t


def nameof(t):
    """(path, suffix) when t is the file name of path plus a constant."""
    if t.op == "str":
        return nameof(t.a[0])
    if t.op == "." and t.a[1] == "name":
        return pathnf(t.a[0])
    if t.op == "call" and t.a[0].op == "x" and t.a[0].a[0] == "os.path.basename":
        return pathnf(t.a[1][0])
    if t.op == "cat" and len(t.a) >= 2 and t.a[-1].op == "c" and isinstance(cv(t.a[-1]), str):
        r = nameof(t.a[0] if len(t.a) == 2 else mk("cat", *t.a[:-1]))
        if r and r[0] == "same":
            return ("same", r[1], r[2] + cv(t.a[-1]))
    if t.op == "cat" and len(t.a) >= 2 and t.a[0].op == "c" and isinstance(cv(t.a[0]), str) and "/" not in cv(t.a[0]):
        r = nameof(t.a[1] if len(t.a) == 2 else mk("cat", *t.a[1:]))
        if r and r[0] == "same" and cv(t.a[0]):
            return ("same", r[1], cv(t.a[0]) + "*" + r[2])
    return None


def dirof(t):
    t = unpath(t)
    if t.op == "." and t.a[1] == "parent":
        return pathnf(t.a[0])
    if t.op == "call" and t.a[0].op == "x" and t.a[0].a[0] == "os.path.dirname":
        return pathnf(t.a[1][0])
    return None


def pathnf(t):
    """("same", base, suffix): the path in base's directory named base's name + suffix;
    ("suffix", base, s): base with its extension replaced; ("fixed", base, name): a fixed name next to base;
    ("temp", None|base): a name chosen by the tempfile module; None: unknown."""
    t = unpath(t)
    if t.op == "s":
        return ("same", t, "")
    if t.op == "c" and isinstance(cv(t), str):
        return ("const", t, "")
    if t.op == "cat" and t.a[-1].op == "c" and isinstance(cv(t.a[-1]), str) and "/" not in cv(t.a[-1]):
        r = pathnf(t.a[0] if len(t.a) == 2 else mk("cat", *t.a[:-1]))
        if r and r[0] == "same":
            return ("same", r[1], r[2] + cv(t.a[-1]))
        return None
    if t.op == "m" and t.a[0] == "with_name":
        b, n = pathnf(t.a[1]), nameof(t.a[2])
        if b and n and b[0] == "same" and n[0] == "same" and b[1] is n[1]:
            return n
        if b and b[0] == "same" and t.a[2].op == "c":
            return ("fixed", b[1], cv(t.a[2]))
        if b and b[0] == "same":
            if any(x.op == "s" and x is not b[1] for x in subterms(t.a[2])):
                return ("beside", b[1], "")
            w = coincide(t.a[2], b[1])
            return ("coincides", b[1], w) if w else None
        return None
    if t.op == "m" and t.a[0] == "with_suffix":
        b = pathnf(t.a[1])
        x = t.a[2]
        if b and b[0] == "same" and b[2] == "":
            if x.op == "cat" and x.a[0].op == "." and x.a[0].a[1] == "suffix" and pathnf(x.a[0].a[0]) == b and \
                    len(x.a) == 2 and x.a[1].op == "c":
                return ("same", b[1], cv(x.a[1]))
            if x.op == "c":
                return ("suffix", b[1], cv(x))
        return None
    jn = None
    if t.op == "call" and t.a[0].op == "x" and t.a[0].a[0] == "os.path.join" and len(t.a[1]) == 2:
        jn = t.a[1]
    elif t.op == "op" and t.a[0] == "/":
        jn = t.a[1:]
    elif t.op == "m" and t.a[0] == "joinpath" and len(t.a) == 3:
        jn = t.a[1:]
    if jn:
        b, n = dirof(jn[0]), nameof(jn[1])
        if b and n and b[0] == "same" and n[0] == "same" and b[1] is n[1]:
            return n
        if b and b[0] == "same" and jn[1].op == "c":
            return ("fixed", b[1], cv(jn[1]))
        dd = unpath(jn[0])
        if dd.op == "c" or (dd.op == "call" and dd.a[0].op == "x" and dd.a[0].a[0] in ("tempfile.gettempdir", "os.getcwd", "pathlib.Path.home", "pathlib.Path.cwd")):
            return ("temp", None, "")
        return None
    for x in subterms(t):
        if x.op == "call" and x.a[0].op == "x" and x.a[0].a[0].startswith("tempfile."):
            kw = dict(x.a[2]) if len(x.a) > 2 else {}
            d = kw.get("dir")
            if d is None or d is NONE:
                return ("temp", None, "")
            b = dirof(d)
            return ("temp", b[1], "") if b and b[0] == "same" else None
    return None


NAMES = ("a.tmp", "abcd.tmp", "abcdefgh.tmp", "abcdefghijkl.tmp", "db.kdbx", ".tmp", "a.kdbx.tmp", "db.kdbx.bak", "tmp", "~db.kdbx", "db.kdbx~",
         ".db.kdbx.tmp", "a.bak", "a.new", "db.new", "temp")


def coincide(t, base):
    """A file name for which the computed name is the name itself."""
    def go(t, nm):
        if t.op == "str":
            return go(t.a[0], nm)
        if t.op == "c" and (isinstance(cv(t), (str, int)) or cv(t) is None):
            return cv(t)
        if t.op == "." and t.a[1] in ("name", "stem", "suffix") and pathnf(t.a[0]) == ("same", base, ""):
            import pathlib
            return getattr(pathlib.PurePosixPath("/d/" + nm), t.a[1])
        if t.op == "call" and t.a[0].op == "x" and t.a[0].a[0] == "os.path.basename" and pathnf(t.a[1][0]) == ("same", base, ""):
            return nm
        if t.op == "cat":
            return "".join(go(x, nm) for x in t.a)
        if t.op == "sl" and len(t.a) == 4:
            x, i, j, k = [go(x, nm) if isinstance(x, T) else x for x in t.a]
            return x[i:j:k]
        if t.op == "m" and t.a[0] in ("lower", "upper", "strip", "lstrip", "rstrip", "replace", "removesuffix", "removeprefix"):
            return getattr(go(t.a[1], nm), t.a[0])(*[go(x, nm) for x in t.a[2:]])
        raise KeyError(t.op)
    for nm in NAMES:
        try:
            if go(t, nm) == nm:
                return nm
        except (KeyError, TypeError, ValueError, AttributeError):
            return None
    return None


def path_of(t):
    """Path of a stream or path term."""
    if t.op == "call" and t.a[0].op == "x" and EXTOPS.get(t.a[0].a[0]) == "open":
        return t.a[1][0] if t.a[1] else None
    if t.op == "m" and t.a[0] == "open":
        return t.a[1]
    if t.op == "nn":
        return path_of(t.a[0])
    return t


def source(t):
    """What a parse call reads from: a stream, or the path behind an open file or its content."""
    while True:
        u = path_of(t)
        if u is not None and u.op == "m" and u.a[0] in ("read_bytes", "read", "__enter__"):
            u = u.a[1]
        elif u is not None and u.op in ("bytesio", "nn", "ver"):
            u = u.a[0]
        elif u is not None:
            u = unpath(u)
        if u is None or u is t:
            return t
        t = u


def target(o):
    """(path term, 'w' or None) an operation writes to."""
    if o.kind == "ser":
        if o.kw["meth"] == "build":
            return None
        return path_of(o.args[1]) if len(o.args) > 1 else path_of(next(
            (v for k, v in o.kw["kw"].items() if k in ("filename", "stream")), NONE))
    if o.kind == "open":
        m = o.kw.get("mode")
        if m is None or set(m) & set("wax+"):
            return o.args[0]
        return None
    if o.kind in ("write", "streamwrite", "truncate"):
        return path_of(o.args[0])
    return None


def isstream(o, b):
    return [(mk("hasattr", o, "write"), b), (mk("hasattr", o, "read"), b), (truthy(o), True)]


def dest_scen(kind, stream=False):
    """(args, facts, the destination symbol)"""
    if kind == "given":
        d = s("dest")
        return [d], isstream(d, stream), d
    d = s("kp.filename")
    return [], isstream(d, stream), d


# ------------------------------------------------------------------ C01
@rule("C01")
def save_protocol(ck):
    """On every path through save() to a path: all serialised output goes to a file in the destination's directory whose
    name differs from every destination name, one rename of exactly that file to the destination follows the last
    write, and nothing else touches the destination. On the exceptional path of each external call before the rename:
    the same exception leaves save(), the temporary file is removed (tolerating that it does not exist yet) and no
    operation reaches the destination."""
    E_ = ck.eng
    w = where_fn(E_, "PyKeePass", "save")
    for kind in ("given", "own"):
        args, facts, d = dest_scen(kind)
        what = "save(%s)" % ("path" if kind == "given" else "")
        res = E_.abstract(E_.kp_call("save", args, (), KDBX4, facts, ip=E_.exact(KDBX4)))
        F_ = F(*facts)
        lst = [o for o in ops(res) if simp(o.cond, F_) is not FALSE]
        tmp = protocol(ck, what, lst, d, F_, w)
        if tmp is None:
            continue
        # one exceptional path per external operation up to the rename
        marks = []
        for o in lst:
            if o.kind == "rename" and same_path(o.args[-1], d):
                break
            marks.append(o.ev.n)
        calls = [e for e in res.events if e.kind in ("call", "listmut", "mut")]
        for n, m in enumerate(marks):
            idx = [e.n for e in calls].index(m)
            cnt = [0]

            def at(ev, idx=idx, cnt=cnt):
                cnt[0] += 1
                return cnt[0] - 1 == idx
            ip = E_.exact(KDBX4, at)
            r = E_.abstract(E_.kp_call("save", args, (), KDBX4, facts, ip=ip))
            fault_path(ck, "%s when operation %d (%s) fails" % (what, n + 1, lst[n].kind), r, ip, d, tmp, F_, w)
            # exceptions the code singles out
            named = {x for v in ip.tryinfo.values() for h in v["handlers"] for x in h} - {"Exception", "BaseException", "?"}
            for x in sorted(named):
                cnt[0] = 0
                ip = E_.exact(KDBX4, at, exc=x)
                r = E_.abstract(E_.kp_call("save", args, (), KDBX4, facts, ip=ip))
                if ip.faulted:
                    wh = "%s when operation %d (%s) fails with %s" % (what, n + 1, lst[n].kind, x)
                    after = kept(ck, wh, r, ip, d, F_, ("rename",))
                    if lst[n].kind == "ser" and not ip.st.dead:
                        again = [o for o in after if o.kind in ("rename", "copy", "ser", "write", "streamwrite")]
                        if not again and not r.unknowns:
                            ck.bad("save_protocol", wh + ": the caller learns of it", ip.faulted[0].where(), "save() returns normally although nothing was saved")


def same_path(t, d):
    nf = pathnf(t)
    return nf is not None and nf == ("same", d, "")


def touches(nf, d):
    """Can the path be the destination?  True / False / None"""
    if nf is None:
        return None
    if nf[0] == "same" and nf[1] is d:
        return nf[2] == ""
    if nf[0] == "temp":
        return False
    if nf[0] in ("suffix", "fixed", "coincides") and nf[1] is d:
        return True
    if nf[1] is not d and nf[1] is s("kp.filename") and nf[0] in ("same", "suffix", "fixed", "beside", "coincides"):
        return "elsewhere"
    if nf[0] == "const":
        return True
    return None


def protocol(ck, what, lst, d, F_, w):
    rl = "save_protocol"
    outs, tmps = [], []
    bad = None
    unsure = None
    last = -1
    for i, o in enumerate(lst):
        if o.kind == "copy":
            if touches(pathnf(path_of(o.args[-1])), d) is not False:
                bad = (o, "copies onto the destination instead of replacing it in one step")
        if o.kind == "unlink" and touches(pathnf(o.args[0]), d) is True:
            bad = (o, "removes the destination before the replacement")
        t = target(o)
        if t is None:
            continue
        nf = pathnf(t)
        tc = touches(nf, d)
        if tc is None:
            unsure = "cannot tell which file %s writes: %s" % (o.kind, pretty(t)[:200])
            continue
        if tc == "elsewhere":
            bad = (o, "writes the temporary file next to the database's own file, outside the destination's directory")
            continue
        if tc:
            why = {"coincides": "writes a path that is the destination itself when that is named %r" % (nf[2],), "same": "writes the destination itself", "suffix": "writes a path that is the destination itself when its "
                   "name already ends in %r" % (nf[2],), "fixed": "writes a fixed name %r that may be the destination" % (nf[2],),
                   "const": "writes a fixed path"}[nf[0]]
            bad = (o, why)
            continue
        if nf[0] == "temp" and nf[1] is None:
            bad = (o, "writes the temporary file outside the destination's directory")
            continue
        tmps.append(nf)
        last = i
    if bad:
        ck.bad(rl, what + " writes a separate file", bad[0].where(), bad[1])
        return None
    if unsure:
        ck.maybe(rl, what + " writes a separate file", unsure)
        return None
    if not tmps:
        ck.maybe(rl, what + " writes a separate file", "no write found")
        return None
    ck.verdict(rl, what + " writes one separate file", len(set(tmps)) == 1 or None, w)
    if not any(o.kind == "ser" for o in lst):
        ck.maybe(rl, what + " serialises", "no serialiser call found")
    ren = [(i, o) for i, o in enumerate(lst) if o.kind == "rename"]
    to_d = [(i, o) for i, o in ren if same_path(o.args[-1], d)]
    if not to_d:
        if any(pathnf(o.args[-1]) is None for _, o in ren):
            ck.maybe(rl, what + " replaces the destination", "unknown rename target")
        else:
            ck.bad(rl, what + " replaces the destination", w, "the new file never replaces the destination")
        return None
    i, o = to_d[-1]
    src = pathnf(o.args[0])
    cnd = disj(*[x.cond for _, x in to_d])
    r, _ = equiv(cnd, TRUE, F_)
    ck.verdict(rl, what + " replaces the destination", r, o.where(), "replaces it only when %s" % pretty(simp(cnd, F_))[:300])
    ck.verdict(rl, what + " replaces it after the last write", to_d[0][0] > last, o.where(),
               "the destination is replaced before the temporary file is complete")
    if src is None:
        ck.maybe(rl, what + " renames the file it wrote", pretty(o.args[0])[:200])
    else:
        ck.verdict(rl, what + " renames the file it wrote", src in tmps, o.where(), "renames another file than it wrote")
    ck.verdict(rl, what + " replaces it once", len(to_d) == 1 or None)
    # writes must be closed before the rename: an open file still holds buffered bytes
    return tmps[0]


def kept(ck, what, r, ip, d, F_, ignore=()):
    """After the injected failure no operation reaches the destination."""
    rl = "save_protocol"
    after = [o for o in ops(r) if o.ev.n > ip.faulted[0].n and simp(o.cond, F_) is not FALSE]
    hit = None
    for o in after:
        if o.kind in ignore:
            continue
        ts = [target(o)] if target(o) is not None else []
        if o.kind in ("rename", "copy"):
            ts = [path_of(o.args[-1])]
        if o.kind == "unlink":
            ts = [o.args[0]]
        for t in ts:
            if touches(pathnf(t), d) is True:
                hit = o
    if hit:
        ck.bad(rl, what + ": the destination keeps its bytes", hit.where(), "%s reaches the destination after the failure" % hit.kind)
    else:
        ck.ok(rl, what + ": the destination keeps its bytes")
    return after


def fault_path(ck, what, r, ip, d, tmp, F_, w):
    rl = "save_protocol"
    if not ip.faulted:
        ck.maybe(rl, what, "exceptional path not reached")
        return
    n0 = ip.faulted[0].n
    # the exception that leaves
    out = [e for e in r.events if e.kind == "raise" and not e.caught and simp(e.cond, F_) is not FALSE]
    if not ip.st.dead:
        ck.bad(rl, what + ": the exception reaches the caller", ip.faulted[0].where(), "save() returns normally although writing failed")
    else:
        other = [e for e in out if e.data.op != "fault"]
        if other:
            ck.bad(rl, what + ": the exception reaches the caller", other[0].where(),
                   "another exception replaces the original one: " + pretty(other[0].data)[:100])
        else:
            ck.ok(rl, what + ": the exception reaches the caller")
    after = kept(ck, what, r, ip, d, F_)
    # is there a temporary file to remove?
    before = [o for o in ops(r) if o.ev.n <= n0 and target(o) is not None and pathnf(target(o)) == tmp]
    if not before:
        ck.ok(rl, what + ": no temporary file yet")
        return
    rm = [o for o in after if o.kind == "unlink" and pathnf(o.args[0]) == tmp]
    ex = {}
    for o in rm:
        for x in subterms(o.cond):
            if (x.op == "m" and x.a[0] in ("exists", "is_file")) or (
                    x.op == "call" and x.a[0].op == "x" and x.a[0].a[0] in ("os.path.exists", "os.path.isfile", "os.path.lexists")):
                ex[x] = True
                ex[truthy(x)] = True
    if not rm:
        unk = [o for o in after if o.kind == "unlink" and pathnf(o.args[0]) is None]
        if unk or tmp[0] == "temp" or r.unknowns:
            ck.maybe(rl, what + ": the temporary file is removed", "unlink target unknown")
        else:
            ck.bad(rl, what + ": the temporary file is removed", ip.faulted[0].where(), "the temporary file is left behind")
        return
    g = dict(F_)
    g.update(ex)
    v, _ = equiv(disj(*[simp(o.cond, g) for o in rm]), TRUE, g)
    ck.verdict(rl, what + ": the temporary file is removed", v, rm[0].where(), "it is removed only when %s" % pretty(simp(rm[0].cond, g))[:200])
    tol = rm[0].kw.get("tolerant") or ex or in_try(ip, rm[0].ev)
    if not tol and len([o for o in before if o.ev.n < n0]) == 0:
        ck.bad(rl, what + ": removing tolerates a file that was never created", rm[0].where(),
               "removing the temporary file raises when it does not exist yet and replaces the original exception")
    else:
        ck.ok(rl, what + ": removing tolerates a file that was never created")


def in_try(ip, ev):
    for t in ev.trys:
        if len(t) >= 2 and t[1] == "body":
            for hs in ip.tryinfo.get(t[0], {}).get("handlers", ()):
                if set(hs) & {"FileNotFoundError", "OSError", "Exception", "BaseException", "?"}:
                    return True
    return False


# ------------------------------------------------------------------ C23
def creds(o):
    return {k: v for k, v in o.kw["kw"].items() if k in ("password", "keyfile", "transformed_key", "decrypt")}


def cred_same(ck, rl, what, o, expected, F_):
    got = creds(o)
    for k, v in expected.items():
        if k not in got:
            ck.bad(rl, "%s passes %s" % (what, k), o.where(), "the serialiser is called without " + k)
            continue
        ck.same(rl, "%s uses %s" % (what, {"password": "the current password", "keyfile": "the current key file",
                                          "transformed_key": "the given precomputed key",
                                          "decrypt": "decryption as requested"}[k]), got[k], v, o.where(), F_)


@rule("C23")
def saving_credentials(ck):
    """Every serialiser call in save(), for a path or a stream, given or remembered, receives the object's current
    password and key file, the caller's precomputed key, the whole database and the requested destination."""
    E_ = ck.eng
    w = where_fn(E_, "PyKeePass", "save")
    for kind in ("given", "own"):
        for stream in (False, True):
            for tk in (NONE, s("tk")):
                args, facts, d = dest_scen(kind, stream)
                what = "save(%s%s%s)" % ("" if kind == "own" else "stream" if stream else "path",
                                         " to the remembered stream" if kind == "own" and stream else "",
                                         ", precomputed key" if tk is not NONE else "")
                res = E_.abstract(E_.kp_call("save", args, {"transformed_key": tk} if tk is not NONE else (), KDBX4, facts,
                                             ip=E_.exact(KDBX4)))
                F_ = F(*facts)
                ser = [o for o in ops(res) if o.kind == "ser" and simp(o.cond, F_) is not FALSE]
                if not ser:
                    ck.maybe("saving_credentials", what, "no serialiser call found")
                    continue
                r, _ = equiv(disj(*[o.cond for o in ser]), TRUE, F_)
                ck.verdict("saving_credentials", what + " serialises the database", r, ser[0].where(), "only when %s" % pretty(
                    simp(disj(*[o.cond for o in ser]), F_))[:200])
                for o in ser:
                    cred_same(ck, "saving_credentials", what, o, {
                        "password": s("kp.password"), "keyfile": s("kp.keyfile"), "transformed_key": tk, "decrypt": TRUE}, F_)
                    ck.same("saving_credentials", what + " writes this database", o.args[0] if o.args else NONE, s("kdbx"), o.where(), F_)
                    if stream and len(o.args) > 1 and o.kw["meth"] == "build_stream":
                        ck.same("saving_credentials", what + " writes to the stream", o.args[1], d, o.where(), F_)
                for k, cnd in Net(res, F_).eff.items():
                    if k[0] in ("field", "text", "attach", "detach", "move", "attr"):
                        ck.bad("saving_credentials", what + " changes nothing in the object", w, eff_str(k))


@rule("C23")
def reloading(ck):
    """reload() parses the current file with the current password and key file, and afterwards the object has exactly
    these and the parsed database."""
    E_ = ck.eng
    for stream in (False, True):
        d = s("kp.filename")
        facts = isstream(d, stream)
        F_ = F(*facts)
        ip = E_.exact(KDBX4)
        res = E_.abstract(E_.kp_call("reload", [], (), KDBX4, facts, ip=ip))
        what = "reload()" + (" from a stream" if stream else "")
        par = [o for o in ops(res) if o.kind == "par" and simp(o.cond, F_) is not FALSE]
        if len(par) != 1:
            ck.maybe("reloading", what, "%d parse calls" % len(par))
            continue
        o = par[0]
        ck.same("reloading", what + " reads the current file", source(simp(o.args[0], F_)), d, o.where(), F_)
        cred_same(ck, "reloading", what, o, {"password": s("kp.password"), "keyfile": s("kp.keyfile"), "decrypt": TRUE}, F_)
        tk = simp(creds(o).get("transformed_key", NONE), F_)
        if tk is not NONE:
            ck.verdict("reloading", what + " uses no earlier key", False if definite(tk) and any(x is s("kdbx") for x in subterms(tk)) else None, o.where(),
                       "the key of the last opening takes the place of the current credentials: " + pretty(tk)[:120])
        after_read(ck, "reloading", what, ip, o, {"kp.filename": d, "kp.password": s("kp.password"), "kp.keyfile": s("kp.keyfile")}, F_, E_)


def kpfields(ip):
    return dict(ip.cell(ip.kpref)[2])


def fields_in(ip, st):
    cur = ip.st
    ip.st = st
    try:
        return kpfields(ip)
    finally:
        ip.st = cur


def exit_states(ip):
    """(where, state) of every way an exception leaves the call."""
    out = []
    for ev, st in ip.exits:
        if not ev.caught:
            out.append((ev.where(), st or ip.st))
    return out or [("", ip.st)]


def after_read(ck, rl, what, ip, o, expected, F_, E_):
    w = o.where()
    m = {E_.kdbx(): s("KDBX")}
    fl = kpfields(ip)
    for role, v in expected.items():
        try:
            got = subst(ip.freeze(fl[E_.field(role)]), m)
        except (AnalysisError, KeyError):
            ck.maybe(rl, "%s remembers the %s" % (what, role[3:]), "attribute not identified")
            continue
        ck.same(rl, "%s remembers the %s" % (what, role[3:]), simp(got, F_), v, w, F_)
    got = simp(subst(ip.freeze(fl[E_.field("kdbx")]), m), F_)
    ck.same(rl, what + " holds the parsed database", got, o.ev.data, w, F_)


@rule("C23")
def setting_credentials(ck):
    """Assigning the password or key file stores it as the credential saved with and sets the change time to the current
    UTC time; the credential attributes read what was stored; the change-interval attributes use their own metadata
    element."""
    E_ = ck.eng
    X = meta("MasterKeyChanged")
    for ver in VERSIONS:
        enc, dec = codec(ck, ver)
        for nm in ("password", "keyfile"):
            for v in (s("value"), NONE):
                n = Net(E_.kp_set(nm, v, ver, [exists(X)]), F(exists(X)))
                w = where_fn(E_, "PyKeePass", nm)
                only(ck, "setting_credentials", "assigning %s%s KDBX%d" % (nm, " None" if v is NONE else "", ver[0]), n,
                     {("field", s("kp"), E_.field("kp." + nm), v): TRUE, ("text", X, enc(NOW)): TRUE}, w)
            ck.same("setting_credentials", "reading " + nm, Net(E_.kp_get(nm, ver)).value, s("kp." + nm), where_fn(E_, "PyKeePass", nm))
        # the change time itself
        w = where_fn(E_, "PyKeePass", "credchange_date")
        v = s("value#datetime")
        sc = [exists(X), *stored(X)]
        only(ck, "setting_credentials", "assigning credchange_date KDBX%d" % ver[0],
             Net(E_.kp_set("credchange_date", v, ver, sc), F(*sc)), {("text", X, enc(v)): TRUE}, w)
        ck.same("setting_credentials", "reading credchange_date KDBX%d" % ver[0],
                Net(E_.kp_get("credchange_date", ver, sc), F(*sc)).value, dec(text(X)), w, F(*sc))
    for nm, t in (("credchange_required_days", "MasterKeyChangeForce"), ("credchange_recommended_days", "MasterKeyChangeRec")):
        Y = meta(t)
        sc = [exists(Y), *stored(Y)]
        w = where_fn(E_, "PyKeePass", nm)
        ck.same("setting_credentials", "reading " + nm, Net(E_.kp_get(nm, KDBX4, sc), F(*sc)).value, mk("int", text(Y)), w, F(*sc))
        i = s("days#int")
        only(ck, "setting_credentials", "assigning " + nm, Net(E_.kp_set(nm, i, KDBX4, sc), F(*sc)),
             {("text", Y, mk("str", i)): TRUE}, w)


# ------------------------------------------------------------------ C05
@rule("C05")
def failed_reads(ck):
    """On the exceptional path of every external call in read() and reload(), for each kind of parse failure, the object's
    attributes at the exit are the ones it had at the entry and nothing in the document was changed."""
    E_ = ck.eng
    E_.kp_fields()
    for name, kind, stream in (("read", "given", False), ("read", "given", True), ("read", "own", False), ("reload", "own", False),
                               ("reload", "own", True)):
        if kind == "given":
            d = s("other")
            args = [d]
            kw = {"password": s("pw"), "keyfile": s("kf"), "transformed_key": s("tk")}
        else:
            d, args, kw = s("kp.filename"), [], {}
        facts = isstream(d, stream)
        F_ = F(*facts)
        ip0 = E_.exact(KDBX4)
        res = E_.abstract(E_.kp_call(name, args, kw, KDBX4, facts, ip=ip0))
        calls = [e for e in res.events if e.kind in ("call", "listmut", "mut", "globalmut")]
        n = 0
        for i, ev in enumerate(calls):
            if simp(ev.cond, F_) is FALSE:
                continue
            n += 1
            for exc in ("construct.CheckError", "construct.ChecksumError", "construct.StreamError", "$Fault"):
                cnt = [0]

                def at(x, i=i, cnt=cnt):
                    cnt[0] += 1
                    return cnt[0] - 1 == i
                ip = E_.exact(KDBX4, at, exc)
                r = E_.abstract(E_.kp_call(name, args, kw, KDBX4, facts, ip=ip))
                what = "%s(%s) failing in call %d with %s" % (name, "" if not args else "stream" if stream else "path", i + 1, exc)
                if not ip.faulted:
                    ck.maybe("failed_reads", what, "path not reached")
                    continue
                w = ip.faulted[0].where()
                if not ip.st.dead:
                    ck.bad("failed_reads", what + " raises", w, "the failure is swallowed")
                    continue
                m = {E_.kdbx(): s("KDBX")}
                badf = []
                base = dict(ip.base_heap[ip.kpref.a[0]][2])
                for k, v, st in [(k, v, st) for _, st in exit_states(ip) for k, v in fields_in(ip, st).items()]:
                    if k not in net_.ROLES and not (k in base and any(x is s("kdbx") for x in subterms(base[k]))):
                        continue        # bookkeeping
                    if k not in base:
                        badf.append("sets new attribute " + k)
                        continue
                    got = simp(subst(ip.freeze_in(st, v), m), F_)
                    rr, _ = equiv(got, base[k], F_)
                    if rr is False:
                        badf.append("%s has become %s" % (k, pretty(got)[:120]))
                    elif rr is None:
                        ck.maybe("failed_reads", what, k)
                for k in Net(r, F_).eff:
                    if k[0] in ("text", "attach", "detach", "move", "attr", "delattr"):
                        badf.append("changes the document: " + eff_str(k))
                    if k[0] == "field" and k[1] is not s("kp") and mentions_kp(k[1]):
                        badf.append("changes the open database: " + eff_str(k))
                ck.verdict("failed_reads", what + " leaves the object unchanged", not badf, w, "; ".join(badf))
        if not n:
            ck.maybe("failed_reads", name, "no external call found")


def mentions_kp(t):
    return any(x is s("kdbx") for x in subterms(t))


# ------------------------------------------------------------------ C29
@rule("C29")
def creating(ck):
    """create_database() parses only the bundled template, then serialises that database once, to the given destination,
    under exactly the supplied credentials; no operation writes, renames or removes the template; the returned object
    carries the destination and credentials."""
    E_ = ck.eng
    f = E_.glob("pykeepass.pykeepass", "create_database")
    d = s("dest")
    m = {E_.kdbx(): s("KDBX")}
    for nm, dd in (("no destination", NONE), ("an empty destination", c("")), ("an empty stream", s("dest"))):
        what = "create_database() with %s leaves the template alone" % nm
        ip = E_.exact()
        facts = [] if dd.op == "c" or dd is NONE else isstream(dd, True)[:2] + [(truthy(dd), False)]
        for cnd, val in facts:
            ip.push(cnd, val)
        res = E_.abstract(E_.call(ip, f, [dd], {"password": s("pw")}))
        F_ = F(*facts)
        hit = None
        for o in ops(res):
            if simp(o.cond, F_) is FALSE:
                continue
            ts = [target(o)] if target(o) is not None else []
            if o.kind == "ser":
                ts = o.args[1:2]
            if o.kind in ("rename", "copy"):
                ts = o.args[1:2] if o.kind == "copy" else o.args[:2]
            if o.kind == "unlink":
                ts = o.args[:1]
            for t in ts:
                p = simp(path_of(t), F_)
                if hit is None and any(x.op == "modfile" for x in subterms(p)):
                    hit = o
        # a caller that names no destination gets an error or nothing; being handed the template as destination is the fault
        v = simp(res.value, F_)
        if v.op != "obj" or not any(x.op == "modfile" for x in subterms(simp(dict(v.a[1])[E_.field("kp.filename")], F_))):
            hit = None
        ck.verdict("creating", what, hit is None, hit.where() if hit else "", "%s reaches the template" % (hit.kind if hit else ""))
    for stream in (False, True):
        for label, kw in (("password, key file and precomputed key", {"password": s("pw"), "keyfile": s("kf"), "transformed_key": s("tk")}),
                          ("password only", {"password": s("pw")}), ("key file only", {"keyfile": s("kf")}),
                          ("precomputed key only", {"transformed_key": s("tk")}), ("no credentials", {})):
            what = "create_database(%s) with %s" % ("stream" if stream else "path", label)
            ip = E_.exact()
            facts = isstream(d, stream)
            for cnd, val in facts:
                ip.push(cnd, val)
            res = E_.abstract(E_.call(ip, f, [d], kw))
            F_ = F(*facts)
            for e in res.events:
                for g in e.guards:
                    for x in subterms(g[0]):
                        # the template is a plain path
                        if x.op == "hasattr" and x.a[0] is not d:
                            F_[x] = False
                        if x.op == "truthy" and any(y.op == "modfile" for y in subterms(x)):
                            F_[x] = True
            lst = [o for o in ops(res) if simp(o.cond, F_) is not FALSE]
            par = [o for o in lst if o.kind == "par"]
            ser = [o for o in lst if o.kind == "ser"]
            w = "pykeepass/pykeepass.py create_database"
            if not par or not ser:
                ck.maybe("creating", what, "%d parse and %d serialise calls" % (len(par), len(ser)))
                continue
            want = {"password": kw.get("password", NONE), "keyfile": kw.get("keyfile", NONE), "transformed_key": kw.get("transformed_key", NONE),
                    "decrypt": TRUE}
            tpl = simp(par[0].args[0], F_)
            for o in par:
                p = simp(o.args[0], F_)
                if any(x is d for x in subterms(p)):
                    # reading back what was written is harmless
                    continue
                if not any(x.op == "modfile" for x in subterms(p)):
                    ck.maybe("creating", what + " reads the bundled template", pretty(p)[:100])
                else:
                    ck.ok("creating", what + " reads the bundled template")
            for o in ser:
                cred_same(ck, "creating", what, o, want, F_)
                if len(o.args) > 1:
                    p = simp(path_of(o.args[1]), F_)
                    nf = pathnf(p)
                    if nf and nf[1] is d:
                        ck.ok("creating", what + " writes to the destination")
                    elif any(x.op == "modfile" for x in subterms(p)):
                        ck.bad("creating", what + " writes to the destination", o.where(), "writes the template")
                    else:
                        ck.maybe("creating", what + " writes to the destination", pretty(p)[:200])
                ck.verdict("creating", what + " saves the opened template", True if simp(o.args[0], F_) is simp(
                    subst(par[0].ev.data, m), F_) else None)
            for o in lst:
                ts = []
                if target(o) is not None:
                    ts = [target(o)]
                if o.kind in ("rename", "copy"):
                    ts = o.args[1:2] if o.kind == "copy" else o.args[:2]
                if o.kind == "unlink":
                    ts = o.args[:1]
                for t in ts:
                    if any(x.op == "modfile" for x in subterms(simp(path_of(t), F_))):
                        ck.bad("creating", what + " leaves the template alone", o.where(), "%s reaches the template" % o.kind)
            if not stream:
                rn = [o for o in lst if o.kind == "rename"]
                direct = [o for o in ser if len(o.args) > 1 and same_path(path_of(o.args[1]), d)]
                ok_ = direct or any(same_path(simp(o.args[-1], F_), d) for o in rn)
                ck.verdict("creating", what + " ends at the destination", True if ok_ else (
                    False if all(pathnf(simp(o.args[-1], F_)) for o in rn) else None), w, "the saved file never reaches the destination")
            v = res.value
            if v.op == "ite":
                v = simp(v, F_)
            if v.op != "obj":
                ck.maybe("creating", what + " returns the database", pretty(v)[:100])
                continue
            fl = dict(v.a[1])
            for role, val in (("kp.filename", d), ("kp.password", want["password"]), ("kp.keyfile", want["keyfile"])):
                ck.same("creating", "%s returns an object bound to its %s" % (what, role[3:]), simp(fl[E_.field(role)], F_), val, w, F_)

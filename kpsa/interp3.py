"""Models of external functions (standard library, lxml, construct, ciphers)."""
from .terms import *
from . import terms as tm
from .interp import (Interp, AnalysisError, ROOT, is_elem, is_tree, mkq, canon_list, BUILTINS, norm_exc, _bases)
from .interp2 import is_utc


def kwget(kw, *names):
    for k, v in kw:
        if k in names:
            return v
    return None


def arg(args, kw, i, *names):
    v = kwget(kw, *names)
    if v is not None:
        return v
    return args[i] if i < len(args) else None


PURE = {
    "base64", "os.path", "pathlib", "re", "zlib", "binascii", "codecs", "uuid", "datetime", "io.BytesIO", "math",
    "lxml.etree.tostring", "lxml.etree.XMLParser", "lxml.etree.fromstring", "lxml.etree.parse", "Cryptodome",
    "argon2", "construct", "operator", "itertools", "functools", "collections", "typing", "string", "copy", "struct",
    "hashlib", "hmac", "logging.getLogger", "lxml.etree.XPath", "lxml.etree.QName", "lxml.etree.ElementTree",
    "lxml.objectify", "textwrap", "contextlib.suppress", "contextlib.nullcontext", "types", "enum", "dataclasses",
    "secrets", "warnings", "numbers", "unicodedata", "abc", "dateutil", "lxml.builder",
}
PURE_BUILTINS = BUILTINS - {"open", "print", "exec", "eval", "compile", "input", "setattr", "delattr", "__import__",
                           "breakpoint", "globals", "locals", "vars"}


def is_pure(name):
    if name.startswith("builtins."):
        return name[9:] in PURE_BUILTINS or name.count(".") > 1
    parts = name.split(".")
    return any(".".join(parts[:i]) in PURE for i in range(1, len(parts) + 1))


HASHES = {"sha256": "sha256", "sha512": "sha512", "sha1": "sha1", "md5": "md5", "sha384": "sha384"}
PACK = {"Q": 8, "q": 8, "I": 4, "i": 4, "L": 4, "l": 4, "H": 2, "h": 2, "B": 1, "b": 1}


def hash_alg(t):
    if t is None:
        return None
    if t.op == "x" and t.a[0].startswith("hashlib.") and t.a[0][8:] in HASHES:
        return t.a[0][8:]
    if t.op == "x" and t.a[0].startswith("Cryptodome.Hash."):
        return t.a[0].split(".")[2].lower()
    if is_c(t) and isinstance(cv(t), str):
        return cv(t).lower().replace("-", "")
    return None


STATEFUL = {"Cryptodome.Cipher.AES.new", "Cryptodome.Cipher.ChaCha20.new", "Cryptodome.Cipher.Salsa20.new", "zlib.compressobj",
            "zlib.decompressobj", "Cryptodome.Cipher.ARC4.new"}


def ext_call(self, name, args, kw, n):
    if self.fault_ext is not None and not self.st.dead:
        x = self.fault_ext(name, tuple(self.freeze(a) for a in args), kw)
        if x is not None:
            self.do_raise(mk("fault", x), n)
            return BOT
    hook = self.call_hooks.get(name)
    if hook is not None:
        r = hook(self, args, kw, n)
        if r is not None:
            return r
    f = MODELS.get(name)
    if f is not None:
        r = f(self, args, kw, n)
        if r is not None:
            return r
    fa = tuple(self.freeze(self.lamarg(a)) for a in args)
    t = mk("call", ext(name), fa, self.kwt([(k, self.lamarg(v)) for k, v in kw]))
    if not is_pure(name):
        self.emit("call", t, n)
    elif name in STATEFUL:
        self.emit("new", t, n)
    if name in ("sys.exit",):
        self.st.dead = True
    return self.over(t)


Interp.ext_call = ext_call


def lamarg(self, a):
    return a


Interp.lamarg = lamarg
MODELS = {}


def model(*names):
    def d(f):
        for x in names:
            MODELS[x] = f
        return f
    return d


# ---------------------------------------------------------------- hashing
def _mkhash(alg):
    def f(self, args, kw, n):
        data = arg(args, kw, 0, "string", "data")
        return self.newref(("hash", alg, self.freeze(data) if data is not None else c(b"")))
    return f


for _h in HASHES:
    MODELS["hashlib." + _h] = _mkhash(_h)


@model("hashlib.new")
def _(self, args, kw, n):
    alg = hash_alg(arg(args, kw, 0, "name"))
    if alg:
        return _mkhash(alg)(self, args[1:], kw, n)


@model("hmac.new", "hmac.HMAC")
def _(self, args, kw, n):
    key = arg(args, kw, 0, "key")
    msg = arg(args, kw, 1, "msg")
    alg = hash_alg(arg(args, kw, 2, "digestmod"))
    if alg is None:
        return None
    return self.newref(("hmac", alg, self.freeze(key), self.freeze(msg) if msg is not None and msg is not NONE else c(b"")))


@model("hmac.digest")
def _(self, args, kw, n):
    alg = hash_alg(arg(args, kw, 2, "digest"))
    if alg:
        return mk("hmac", alg, self.freeze(arg(args, kw, 0, "key")), self.freeze(arg(args, kw, 1, "msg")))


@model("hmac.compare_digest", "secrets.compare_digest")
def _(self, args, kw, n):
    return cmp("==", self.freeze(args[0]), self.freeze(args[1]))


# ---------------------------------------------------------------- encoding
def _fmt_parse(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if not fmt or fmt[0] != "<":
        return None
    out = []
    num = ""
    for ch in fmt[1:]:
        if ch.isdigit():
            num += ch
            continue
        if ch == " ":
            continue
        if ch not in PACK or num:
            return None
        out.append(PACK[ch])
    return out


@model("struct.pack")
def _(self, args, kw, n):
    if args and args[0].op == "c":
        ws = _fmt_parse(cv(args[0]))
        if ws is not None and len(ws) == len(args) - 1:
            return cat(*[le(w, self.freeze(a)) for w, a in zip(ws, args[1:])])


@model("struct.unpack")
def _(self, args, kw, n):
    if args and args[0].op == "c":
        ws = _fmt_parse(cv(args[0]))
        if ws is not None and len(ws) == 1:
            return mk("tuple", mk("unle", ws[0], self.freeze(args[1])))


@model("builtins.int.from_bytes")
def _(self, args, kw, n):
    bo = arg(args, kw, 1, "byteorder")
    if bo is not None and is_c(bo, "little"):
        return mk("unle", 0, self.freeze(args[0]))


@model("builtins.int.to_bytes")
def _(self, args, kw, n):
    ln, bo = arg(args, kw, 1, "length"), arg(args, kw, 2, "byteorder")
    if ln is not None and ln.op == "c" and bo is not None and is_c(bo, "little"):
        return le(cv(ln), self.freeze(args[0]))


for _w, _nm in ((8, "Int64ul"), (4, "Int32ul"), (2, "Int16ul"), (1, "Byte"), (1, "Int8ul")):
    def _mkb(w):
        return lambda self, args, kw, n: le(w, self.freeze(args[0]))
    MODELS["construct.%s.build" % _nm] = _mkb(_w)


@model("base64.b64encode", "base64.standard_b64encode")
def _(self, args, kw, n):
    if len(args) == 1 and not kw:
        x = self.freeze(args[0])
        return mk("b64", x)


@model("base64.b64decode", "base64.standard_b64decode")
def _(self, args, kw, n):
    v = kwget(kw, "validate")
    if len(args) == 1 and (not kw or (len(kw) == 1 and v is not None)):
        x = self.freeze(args[0])
        while x.op in ("enc", "dec"):
            x = x.a[0]
        if x.op == "b64":
            return x.a[0]
        return unb64(x) if v is None or is_c(v, False) else unb64(x, "strict")


@model("binascii.a2b_base64")
def _(self, args, kw, n):
    if len(args) == 1 and not kw:
        return unb64(self.freeze(args[0]))


@model("binascii.unhexlify", "binascii.a2b_hex")
def _(self, args, kw, n):
    return unhex(self.freeze(args[0]), "strict")


@model("builtins.bytes.fromhex", "builtins.bytearray.fromhex")
def _(self, args, kw, n):
    return unhex(self.freeze(args[0]), "ws")


@model("codecs.decode")
def _(self, args, kw, n):
    enc = arg(args, kw, 1, "encoding")
    if enc is not None and is_c(enc, "hex", "hex_codec", "hex-codec"):
        return unhex(self.freeze(args[0]), "strict")


@model("uuid.UUID")
def _(self, args, kw, n):
    b = kwget(kw, "bytes")
    if b is not None:
        return mk("uuid", self.freeze(b))
    h = arg(args, kw, 0, "hex")
    if h is not None and len(args) <= 1 and is_c(h) and isinstance(cv(h), str):
        import uuid as _uuid
        try:
            return mk("uuidhex", c(_uuid.UUID(cv(h)).hex.upper()))
        except ValueError:
            self.do_raise(mk("exn", "ValueError"), n)
            return BOT
    if h is not None and len(args) <= 1:
        return mk("uuidhex", self.freeze(h))


@model("uuid.uuid1", "uuid.uuid4")
def _(self, args, kw, n):
    cs = arg(args, kw, 1, "clock_seq")
    if cs is not None and is_c(cs) and cv(cs) is not None:
        # a caller-chosen sequence number: not unique on its own
        return mk("seqduuid", *[self.freeze(x) for x in args], *[self.freeze(v) for _, v in kw])
    self.emit("fresh", ext("uuid"), n)
    self.nfresh = getattr(self, "nfresh", 0) + 1
    return mk("freshuuid")


# ---------------------------------------------------------------- time
@model("datetime.datetime.now")
def _(self, args, kw, n):
    tz = arg(args, kw, 0, "tz")
    if tz is None or tz is NONE:
        return mk("nowlocal")
    if is_utc(tz):
        return mk("now")


@model("datetime.datetime.utcnow")
def _(self, args, kw, n):
    return mk("nowutcnaive")


@model("datetime.datetime.today")
def _(self, args, kw, n):
    return mk("nowlocal")


@model("datetime.datetime.fromtimestamp")
def _(self, args, kw, n):
    a, tz = args[0] if args else NONE, arg(args, kw, 1, "tz")
    if a.op == "call" and a.a[0] is ext("time.time") and tz is not None and is_utc(tz):
        return mk("now")


@model("datetime.datetime")
def _(self, args, kw, n):
    vals = []
    for i, nm in enumerate(("year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo")):
        v = arg(args, kw, i, nm)
        vals.append(self.freeze(v) if v is not None else (NONE if nm == "tzinfo" else c(0)))
    return mk("date", *vals)


@model("datetime.timedelta")
def _(self, args, kw, n):
    if not args and len(kw) == 1 and kw[0][0] == "seconds":
        return mk("delta", self.freeze(kw[0][1]))
    if len(args) == 2 and not kw and is_c(args[0], 0):
        return mk("delta", self.freeze(args[1]))


@model("datetime.datetime.fromisoformat")
def _(self, args, kw, n):
    return mk("fromiso", self.freeze(args[0]))


# ---------------------------------------------------------------- copies, containers
@model("copy.deepcopy")
def _(self, args, kw, n):
    a = args[0]
    if a.op == "ref":
        cell = self.cell(a)
        if cell[0] in ("list", "dict", "set"):
            return self.newref(cell)
        if cell[0] == "elem":
            return mk("copy", self.freeze(a))
    return mk("copy", self.freeze(a))


@model("copy.copy")
def _(self, args, kw, n):
    a = args[0]
    if a.op == "ref" and self.cell(a)[0] in ("list", "dict", "set"):
        return self.newref(self.cell(a))
    # lxml: a shallow copy of an element copies the subtree as well
    if is_elem(a, self):
        return mk("copy", self.freeze(a))
    return mk("scopy", self.freeze(a))


@model("builtins.dict", "collections.OrderedDict", "collections.defaultdict")
def _(self, args, kw, n):
    d = {}
    for a in args:
        if a.op in ("fn", "x", "cls"):
            continue
        o = self.as_dict(a)
        if o is None:
            its = self.finite(a)
            if its is not None and all(x.op == "tuple" and len(x.a) == 2 for x in its):
                o = [(x.a[0], x.a[1]) for x in its]
            else:
                o = [(mk("star", self.freeze(a)), NONE)]
        for k, v in o:
            d[k] = v
    for k, v in kw:
        d[c(k) if k else mk("star", v)] = v
    return self.newref(("dict", tuple(d.items())))


@model("construct.Container", "construct.lib.Container")
def _(self, args, kw, n):
    d = {}
    for a in args[:1]:
        o = self.as_dict(a)
        if o is None:
            its = self.finite(a)
            if its is not None and all(x.op == "tuple" and len(x.a) == 2 for x in its):
                o = [(x.a[0], x.a[1]) for x in its]
        if o is None:
            return mk("containerof", self.freeze(a))
        for k, v in o:
            d[k] = v
    for k, v in sorted(kw, key=lambda z: z[0] or ""):
        if k is None:
            return None
        d[c(k)] = v
    return self.newref(("dict", tuple(d.items())))


@model("construct.ListContainer", "construct.lib.ListContainer")
def _(self, args, kw, n):
    if not args:
        return self.newref(("list", ()))
    return self.newref(("list", tuple(self.spread(args[0]))))


def _listlike(kind):
    def f(self, args, kw, n):
        if not args:
            return self.newref((kind, ())) if kind != "tuple" else mk("tuple")
        a = args[0]
        items = self.finite(a)
        if kind == "tuple":
            if items is not None:
                return mk("tuple", *items)
            return canon_list(self.freeze(a))
        if items is not None:
            return self.newref((kind, tuple(items)))
        if a.op == "ref" and self.cell(a)[0] in ("list", "set"):
            return self.newref((kind, self.cell(a)[1]))
        X, cond, item = self.iterate(a)
        return self.newref((kind, (mk("star", mk("comp", X, cond, item)),)))
    return f


MODELS["builtins.list"] = _listlike("list")
MODELS["builtins.set"] = _listlike("set")
MODELS["builtins.frozenset"] = _listlike("set")
MODELS["builtins.tuple"] = _listlike("tuple")


@model("builtins.iter")
def _(self, args, kw, n):
    return args[0]


@model("builtins.enumerate")
def _(self, args, kw, n):
    return mk("enum", args[0], arg(args, kw, 1, "start") or c(0))


@model("builtins.zip")
def _(self, args, kw, n):
    return mk("zip", *args)


@model("builtins.range")
def _(self, args, kw, n):
    a = [self.freeze(x) for x in args]
    if len(a) == 1:
        a = [c(0), a[0], c(1)]
    elif len(a) == 2:
        a = a + [c(1)]
    return mk("range", *a)


@model("builtins.reversed")
def _(self, args, kw, n):
    its = self.finite(args[0])
    if its is not None:
        return self.newref(("list", tuple(its[::-1])))
    return mk("reversed", self.freeze(args[0]))


def sorted_term(self, x, key, kw):
    rev = kwget(kw, "reverse")
    kt = NONE
    if key is not None and key is not NONE:
        X, cond, item = self.iterate(x)
        self.mute += 1
        kt = self.freeze(self.call(key, [item], [], None))
        self.mute -= 1
    return mk("sorted", x, kt, rev if rev is not None else FALSE)


Interp.sorted_term = sorted_term


@model("builtins.sorted")
def _(self, args, kw, n):
    x = self.freeze(args[0])
    return self.newref(("list", (mk("star", self.sorted_term(x, kwget(kw, "key"), kw)),)))


@model("builtins.map")
def _(self, args, kw, n):
    f = args[0]
    if len(args) == 2:
        ref = self.newref(("list", ()))

        def leaf(item):
            v = self.call(f, [item], [], n)
            if not self.st.dead:
                cell = self.cell(ref)
                self.setcell(ref, ("list", cell[1] + (v,)))
        from .interp import _Py
        box = {}
        self.for_loop(n, args[1], lambda it: box.__setitem__("i", it), [_Py(lambda: leaf(box["i"]))], [])
        return ref


@model("builtins.filter")
def _(self, args, kw, n):
    f = args[0]
    ref = self.newref(("list", ()))
    from .interp import _Py
    box = {}

    def leaf(item):
        cond = self.truth(self.call(f, [item], [], n)) if f is not NONE else self.truth(item)

        def add():
            cell = self.cell(ref)
            self.setcell(ref, ("list", cell[1] + (item,)))
        self.if_(cond, add, lambda: None)
    self.for_loop(n, args[1], lambda it: box.__setitem__("i", it), [_Py(lambda: leaf(box["i"]))], [])
    return ref


@model("itertools.chain")
def _(self, args, kw, n):
    out = []
    for a in args:
        out += self.spread(a)
    return self.newref(("list", tuple(out)))


@model("functools.partial")
def _(self, args, kw, n):
    return mk("partial", args[0], tuple(args[1:]), tuple((k, v) for k, v in kw))


@model("functools.reduce")
def _(self, args, kw, n):
    its = self.finite(args[1])
    if its is not None:
        acc = args[2] if len(args) > 2 else None
        for x in its:
            acc = x if acc is None else self.call(args[0], [acc, x], [], n)
        return acc if acc is not None else BOT


@model("operator.attrgetter")
def _(self, args, kw, n):
    if all(a.op == "c" for a in args):
        return mk("attrgetter", *[cv(a) for a in args])


@model("operator.itemgetter")
def _(self, args, kw, n):
    return mk("itemgetter", *args)


@model("operator.methodcaller")
def _(self, args, kw, n):
    if args[0].op == "c":
        return mk("methodcaller", cv(args[0]), tuple(args[1:]), tuple(kw))


@model("builtins.property")
def _(self, args, kw, n):
    return mk("prop", arg(args, kw, 0, "fget") or NONE, arg(args, kw, 1, "fset") or NONE, arg(args, kw, 2, "fdel") or NONE)


@model("builtins.staticmethod")
def _(self, args, kw, n):
    if args[0].op == "fn":
        self.closures[args[0].a[0]].kind = "static"
    return args[0]


@model("builtins.classmethod")
def _(self, args, kw, n):
    if args[0].op == "fn":
        self.closures[args[0].a[0]].kind = "class"
    return args[0]


# ---------------------------------------------------------------- builtins
def lenof(f):
    if f.op == "after" and f.a[1] == "append" and len(f.a[2]) == 1:
        return arith("+", lenof(f.a[0]), c(1))
    if f.op in ("sorted", "reversed") and isinstance(f.a[0], T):
        return lenof(f.a[0])
    if f.op == "q" and f.a[0].op == "ver" and f.a[2] == "all":
        base, muts = f.a[0].a
        if all(m[0] == "append" and m[1] == f.a[1][-1][1] and m[2] is TRUE for m in muts):
            return arith("+", mk("len", mkq(base, f.a[1], "all")), c(len(muts)))
    return mk("len", f)


@model("builtins.len")
def _(self, args, kw, n):
    a = args[0]
    if a.op == "c" and isinstance(cv(a), (str, bytes)):
        return c(len(cv(a)))
    its = self.finite(a)
    if its is not None and not any(x.op == "gi" for x in its):
        return c(len(its))
    if a.op == "ref" and self.cell(a)[0] == "inst":
        f = self.lookup(self.cell(a)[1], "__len__")
        if f:
            return self.call(mk("bound", f[0], a), [], [], n)
    f = self.freeze(a)
    if f.op in ("sha256", "hmac"):
        return c(32)
    if f.op == "comp" and f.a[1] is TRUE:
        f = f.a[0]
    return lenof(f)


@model("builtins.str")
def _(self, args, kw, n):
    if not args:
        return EMPTY
    if len(args) == 1 and not kw:
        a = args[0]
        if a.op == "wrap" or (a.op == "ref" and self.cell(a)[0] == "inst"):
            b = self.wrapref(a) if a.op == "wrap" else a
            for m in ("__str__", "__repr__"):
                f = self.lookup(self.cell(b)[1], m)
                if f and f[0].op == "fn":
                    return self.call(mk("bound", f[0], b), [], [], n)
        return self.strof(a)
    return mk("dec", self.freeze(args[0]))


@model("builtins.repr")
def _(self, args, kw, n):
    return mk("repr", self.freeze(args[0]))


@model("builtins.format")
def _(self, args, kw, n):
    if len(args) == 1:
        return self.strof(args[0])


@model("builtins.int")
def _(self, args, kw, n):
    if len(args) == 1 and not kw:
        a = self.freeze(args[0])
        if a.op == "c":
            try:
                return c(int(cv(a)))
            except Exception:
                return BOT
        a = unstr(a)
        if a.op in ("int", "len", "unle"):
            return a
        return mk("int", a)


@model("builtins.bool")
def _(self, args, kw, n):
    return self.truth(args[0]) if args else FALSE


@model("builtins.bytes")
def _(self, args, kw, n):
    if not args:
        return c(b"")
    a = args[0]
    if len(args) == 2:
        return mk("enc", self.freeze(a))
    if a.op == "c" and isinstance(cv(a), int) and cv(a) < 10000:
        return c(bytes(cv(a)))
    its = self.finite_list(a)
    if its is not None and all(x.op == "c" and isinstance(cv(x), int) for x in its):
        return c(bytes(cv(x) for x in its))
    return self.freeze(a)


@model("builtins.bytearray", "builtins.memoryview")
def _(self, args, kw, n):
    if not args:
        return c(b"")
    return self.freeze(args[0])


def isinstance_(self, v, k):
    if k.op == "tuple":
        return disj(*[self.isinstance_(v, x) for x in k.a])
    if k.op == "ref" and self.finite(k) is not None:
        return disj(*[self.isinstance_(v, x) for x in self.finite(k)])
    if v.op == "ite":
        return ite(v.a[0], self.isinstance_(v.a[1], k), self.isinstance_(v.a[2], k))
    cid = self.class_of(v) if v.op in ("ref", "wrap") else None
    if k.op == "cls":
        if cid is not None:
            return c(k.a[0] in self.mro(cid))
        if v.op in ("c", "tuple", "list", "dict", "ref", "elem", "cat", "q"):
            return FALSE
        return mk("isinst", self.freeze(v), self.classes[k.a[0]].name)
    if k.op == "x":
        nm = k.a[0]
        short = nm[9:] if nm.startswith("builtins.") else nm
        if v.op == "c":
            import builtins
            t = getattr(builtins, short, None)
            if isinstance(t, type):
                return c(isinstance(cv(v), t))
            return FALSE
        if v.op == "tuple":
            return c(short == "tuple")
        if v.op == "ref":
            ck = self.cell(v)[0]
            if ck in ("list", "dict", "set"):
                if short in ("list", "dict", "set", "tuple", "str", "bytes", "int"):
                    return c(short == ck)
                if short in ("collections.abc.Iterable", "typing.Iterable", "collections.abc.Sequence"):
                    return c(ck == "list" or "Iter" in short)
        if v.op in ("list", "comp", "sorted") and short in ("list", "tuple", "str", "dict"):
            return c(short == "list")
        if (v.op == "wrap" or (cid is not None and not any(b.op == "x" for j in self.mro(cid) for b in
                                                          self.classes[j].bases))) and short in (
                "list", "str", "tuple", "dict", "bytes", "int", "set", "bool"):
            return FALSE
        if v.op in ("cat", "str", "join") and short == "str":
            return TRUE
        if v.op == "s":
            h = v.a[0].rpartition("#")[2] if "#" in v.a[0] else ""
            if h:
                return c(h == short) if short in ("str", "list", "int", "bytes", "dict", "tuple", "bool") else mk("isinst", v, short)
        return mk("isinst", self.freeze(v), short)
    return mk("isinst", self.freeze(v), show(k))


Interp.isinstance_ = isinstance_


@model("builtins.isinstance")
def _(self, args, kw, n):
    return self.isinstance_(args[0], args[1])


@model("builtins.type")
def _(self, args, kw, n):
    if len(args) == 1:
        cid = self.class_of(args[0])
        if cid is not None:
            return mk("cls", cid)
        if is_elem(args[0], self):
            return ext("lxml.etree._Element")
        return mk("typeof", self.freeze(args[0]))


@model("builtins.hasattr")
def _(self, args, kw, n):
    v, nm = args
    if v.op == "ite":
        return ite(v.a[0], MODELS["builtins.hasattr"](self, [v.a[1], nm], kw, n), MODELS["builtins.hasattr"](self, [v.a[2], nm], kw, n))
    if nm.op == "c":
        if v.op == "c":
            return c(hasattr(cv(v), cv(nm)))
        cid = self.class_of(v)
        if cid is not None and v.op == "ref":
            return c(bool(self.lookup(cid, cv(nm))) or cv(nm) in dict(self.cell(v)[2]))
        if v.op == "call" and v.a[0].op == "x" and v.a[0].a[0].startswith("pathlib."):
            return FALSE if cv(nm) in ("read", "write") else TRUE
        if v.op in ("cat", "str"):
            return FALSE if cv(nm) in ("read", "write") else mk("hasattr", v, cv(nm))
        return mk("hasattr", self.freeze(v), cv(nm))


@model("builtins.getattr")
def _(self, args, kw, n):
    nm = args[1]
    if nm.op == "c":
        v = args[0]
        if v is ext("lxml.builder.E"):
            return mk("etag", cv(nm))
        if len(args) == 3:
            r = self.getattr(v, cv(nm), n)
            return r if r.op != "bot" else args[2]
        return self.getattr(v, cv(nm), n)
    if args[0] is ext("lxml.builder.E"):
        return mk("etag", self.freeze(nm))
    if nm.op == "ite":
        return ite(nm.a[0], MODELS["builtins.getattr"](self, [args[0], nm.a[1]] + list(args[2:]), kw, n),
                   MODELS["builtins.getattr"](self, [args[0], nm.a[2]] + list(args[2:]), kw, n))
    return mk("getattr", self.freeze(args[0]), self.freeze(nm))


@model("builtins.setattr")
def _(self, args, kw, n):
    if args[1].op == "c":
        self.setattr(args[0], cv(args[1]), args[2], n)
        return NONE
    self.emit("store", mk("tuple", self.freeze(args[0]), self.freeze(args[1]), self.freeze(args[2])), n)
    return NONE


@model("builtins.hash")
def _(self, args, kw, n):
    a = args[0]
    if a.op == "wrap" or (a.op == "ref" and self.cell(a)[0] == "inst"):
        b = self.wrapref(a) if a.op == "wrap" else a
        f = self.lookup(self.cell(b)[1], "__hash__")
        if f and f[0].op == "fn":
            return self.call(mk("bound", f[0], b), [], [], n)
    return mk("hash", self.freeze(a))


def _anyall(isany):
    def f(self, args, kw, n):
        its = self.finite(args[0])
        if its is not None and not any(x.op == "gi" for x in its):
            cs = [self.truth(x) for x in its]
            return disj(*cs) if isany else conj(*cs)
        X, cond, item = self.iterate(args[0])
        item = self.truth(item)
        return mk("exists", X, conj(cond, item)) if isany else neg(mk("exists", X, conj(cond, neg(item))))
    return f


MODELS["builtins.any"] = _anyall(True)
MODELS["builtins.all"] = _anyall(False)


@model("builtins.next")
def _(self, args, kw, n):
    a = args[0]
    its = self.finite(a)
    if its:
        if its[0].op != "gi":
            return its[0]
    if its == [] and len(args) > 1:
        return args[1]
    if a.op == "ref" and self.cell(a)[0] == "list" and len(self.cell(a)[1]) == 1 and self.cell(a)[1][0].op == "star":
        a = self.cell(a)[1][0].a[0]
    f = self.freeze(a)
    ex = None
    if f.op == "comp":
        X, cond, item = f.a
        if cond is TRUE:
            first = self.item(X, c(0), n)
            r = subst(item, {mk("iv", X): first})
            ex = self.truth(X)
            if item is mk("iv", X) and X.op in ("q", "api"):
                ex = None
        else:
            q = self.filter_q(X, cond)
            if q is not None:
                q1 = mkq(q.a[0], q.a[1], "first")
                r = subst(item, {mk("iv", X): q1})
                ex = neg(isnone(q1)) if r is not q1 else None
            else:
                q1 = mk("first", X, cond)
                r = subst(item, {mk("iv", X): q1})
                ex = neg(isnone(q1)) if r is not q1 else None
    elif f.op == "q":
        r = mkq(f.a[0], f.a[1], "first")
    elif f.op == "ancestors":
        r = mkq(f.a[0], (("ancestor", f.a[1], (("pos", "1"),)),), "first")
    else:
        r = mk("first", f, TRUE)
    if len(args) > 1 and ex is not None:
        return ite(self.sim(ex), r, self.freeze(args[1]))
    if len(args) > 1 and not is_c(args[1], None):
        return mk("nextor", r, self.freeze(args[1]))
    return r


def filter_q(self, X, cond):
    """q(b, */...) filtered by tag equality is a query for that tag."""
    iv = mk("iv", X)
    if X.op == "q" and cond.op == "cmp" and cond.a[0] == "==" and cond.a[1] is mk(".", iv, "tag") and is_c(cond.a[2]) \
            and X.a[1] and X.a[1][-1][0] == "child" and X.a[1][-1][1] == "*":
        st = X.a[1][-1]
        return mkq(X.a[0], X.a[1][:-1] + ((st[0], cv(cond.a[2]), st[2]),), "all")
    return None


Interp.filter_q = filter_q


@model("builtins.min", "builtins.max", "builtins.sum")
def _(self, args, kw, n):
    return None


@model("builtins.print")
def _(self, args, kw, n):
    self.emit("print", mk("call", c("print"), tuple(self.freeze(a) for a in args), ()), n)
    return NONE


@model("builtins.open", "io.open", "codecs.open")
def _(self, args, kw, n):
    mode = arg(args, kw, 1, "mode")
    t = mk("call", ext("builtins.open"), (self.freeze(args[0]), self.freeze(mode) if mode is not None else c("r")), ())
    self.emit("call", t, n)
    return t


@model("builtins.super")
def _(self, args, kw, n):
    return None


# ---------------------------------------------------------------- re
def const_match(m):
    if m is None:
        return NONE
    return mk("match", c(m.group(0)), tuple(c(x) for x in m.groups()), tuple(sorted(m.re.groupindex.items())), m.span())


def _remodel(name):
    """Matching a constant against a constant pattern is computed here."""
    def f(self, args, kw, n):
        flags = kwget(kw, "flags")
        pos = {"sub": ["pattern", "repl", "string", "count"], "split": ["pattern", "string", "maxsplit"]}.get(
            name, ["pattern", "string", "flags"])
        a = dict(zip(pos, args))
        for k, v in kw:
            a[k] = v
        if "pattern" not in a or "string" not in a:
            return None
        p, t = self.freeze(a["pattern"]), self.freeze(a["string"])
        if p.op == "regex":
            if len(p.a[0]) > 1:
                a.setdefault("flags", p.a[0][1])
            p = p.a[0][0]
        if not (p.op == "c" and t.op == "c" and isinstance(cv(p), str) and isinstance(cv(t), str)):
            return None
        fl = 0
        if "flags" in a:
            v = self.freeze(a["flags"])
            names = {"re.I": _re.I, "re.IGNORECASE": _re.I, "re.S": _re.S, "re.DOTALL": _re.S, "re.M": _re.M,
                     "re.MULTILINE": _re.M, "re.A": _re.A, "re.ASCII": _re.A}
            if v.op == "c" and isinstance(cv(v), int):
                fl = cv(v)
            elif v.op == "x" and v.a[0] in names:
                fl = names[v.a[0]]
            else:
                return None
        try:
            rx = _re.compile(cv(p), fl)
        except _re.error:
            return None
        txt = cv(t)
        if name == "findall":
            return self.newref(("list", tuple(mk("tuple", *map(c, x)) if isinstance(x, tuple) else c(x)
                                              for x in rx.findall(txt))))
        if name == "finditer":
            return self.newref(("list", tuple(const_match(m) for m in rx.finditer(txt))))
        if name in ("search", "match", "fullmatch"):
            return const_match(getattr(rx, name)(txt))
        if name == "split" and "maxsplit" not in a:
            return self.newref(("list", tuple(c(x) for x in rx.split(txt))))
        if name == "sub" and "count" not in a:
            r = a["repl"]
            if r.op == "c" and isinstance(cv(r), str):
                try:
                    return c(rx.sub(cv(r), txt))
                except (_re.error, IndexError) as e:
                    self.emit("raise", mk("call", mk("x", "re.error"), (c(str(e)),), ()), n)
                    self.st.dead = True
                    return BOT
            if r.op in ("fn", "bound", "lambda", "partial"):
                out, i = [], 0
                for m in rx.finditer(txt):
                    out.append(c(txt[i:m.start()]))
                    out.append(self.freeze(self.call(r, [const_match(m)], [], n)))
                    i = m.end()
                out.append(c(txt[i:]))
                return cat(*out)
        return None
    return f


import re as _re
for _nm in ("findall", "sub", "search", "match", "fullmatch", "finditer", "split"):
    MODELS["re." + _nm] = _remodel(_nm)


@model("re.escape")
def _(self, args, kw, n):
    v = self.freeze(args[0]) if len(args) == 1 else None
    return c(_re.escape(cv(v))) if v is not None and v.op == "c" and isinstance(cv(v), (str, bytes)) else None


@model("re.compile")
def _(self, args, kw, n):
    return mk("regex", tuple(self.freeze(a) for a in args))


_old_callmethod = Interp.callmethod


def callmethod(self, b, name, args, kw, n=None):
    if b.op == "regex" and name in ("findall", "sub", "search", "match", "fullmatch", "finditer", "split"):
        if len(b.a[0]) > 1:
            kw = list(kw) + [("flags", b.a[0][1])]
        return self.ext_call("re." + name, [b.a[0][0]] + list(args), kw, n)
    return _old_callmethod(self, b, name, args, kw, n)


Interp.callmethod = callmethod


# ---------------------------------------------------------------- lxml
@model("lxml.etree.Element")
def _(self, args, kw, n):
    attrs = {}
    at = arg(args, kw, 1, "attrib")
    if at is not None:
        for k, v in (self.as_dict(at) or ()):
            attrs[k] = v
    for k, v in kw:
        if k not in ("attrib", "nsmap"):
            attrs[c(k)] = v
    return self.newref(("elem", args[0], tuple(attrs.items()), (), NONE))


@model("lxml.etree.SubElement")
def _(self, args, kw, n):
    r = MODELS["lxml.etree.Element"](self, args[1:], kw, n)
    self.callmethod(args[0], "append", [r], [], n)
    return r


def is_docroot(t):
    return t.op == "q" and t.a[0] is ROOT and t.a[1] == (("root", "", ()), ("child", "KeePassFile", ()))


@model("lxml.etree.ElementTree", "lxml.etree._ElementTree")
def _(self, args, kw, n):
    if len(args) == 1 and not kw:
        a = self.freeze(args[0])
        tree = getattr(self, "rt", None)
        if tree is not None and is_docroot(a):
            return mk("scopy", tree)
        if tree is not None and a.op == "copy" and is_docroot(a.a[0]):
            return mk("copy", tree)
    return None


LOSSLESS = {"encoding", "xml_declaration", "standalone"}


def reparsed(t):
    """The tree that a serialised text is read back from."""
    if t.op == "call" and t.a[0] is ext("lxml.etree.tostring") and len(t.a[1]) == 1 and not (
            {k for k, _ in t.a[2]} - LOSSLESS if len(t.a) > 2 else ()):
        return t.a[1][0]
    return None


@model("lxml.etree.parse")
def _(self, args, kw, n):
    a = self.freeze(args[0]) if args else None
    if a is not None and a.op == "bytesio" and len(args) == 1 and not kw:
        x = reparsed(a.a[0])
        if x is not None and is_tree(x):
            return mk("copy", x)
    return None


@model("lxml.etree.fromstring", "lxml.etree.XML")
def _(self, args, kw, n):
    x = reparsed(self.freeze(args[0])) if len(args) == 1 and not kw else None
    if x is not None and is_elem(x, self):
        return mk("copy", x)
    if x is not None and is_tree(x):
        self.rt = x
        return mk("copy", mkq(ROOT, (("root", "", ()), ("child", "KeePassFile", ())), "first"))
    return None


@model("lxml.builder.E")
def _(self, args, kw, n):
    return self.build_elem(args[0], args[1:], kw)


@model("lxml.builder.ElementMaker")
def _(self, args, kw, n):
    return ext("lxml.builder.E")


_old_getattr = Interp.getattr


def getattr_(self, b, name, n=None):
    if b is ext("lxml.builder.E") and not name.startswith("__"):
        return mk("etag", name)
    return _old_getattr(self, b, name, n)


Interp.getattr = getattr_


@model("logging.getLogger")
def _(self, args, kw, n):
    return mk("logger")


for _lv in ("debug", "info", "warning", "error", "critical", "exception", "log", "warn"):
    def _mklog(lv):
        def f(self, args, kw, n):
            self.emit("log", mk("call", c(lv), tuple(self.freeze(a) for a in args), self.kwt(kw)), n)
            return NONE
        return f
    MODELS["logging." + _lv] = _mklog(_lv)


@model("warnings.warn")
def _(self, args, kw, n):
    self.emit("log", mk("call", c("warn"), tuple(self.freeze(a) for a in args), self.kwt(kw)), n)
    return NONE


@model("io.BytesIO")
def _(self, args, kw, n):
    return mk("bytesio", self.freeze(args[0]) if args else c(b""))


@model("gzip.compress")
def _(self, args, kw, n):
    return mk("gzip", self.freeze(args[0]))


@model("gzip.decompress")
def _(self, args, kw, n):
    return mk("gunzip", self.freeze(args[0]))


# ---------------------------------------------------------------- iteration of pure construct helpers
@model("builtins.callable")
def _(self, args, kw, n):
    if args[0].op in ("fn", "bound", "cls", "partial"):
        return TRUE


@model("os.urandom", "secrets.token_bytes", "Cryptodome.Random.get_random_bytes")
def _(self, args, kw, n):
    self.emit("fresh", ext("random"), n)
    return mk("random", self.freeze(args[0]) if args else NONE)

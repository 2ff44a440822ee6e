"""Hash-consed value terms: the abstract domain of the analysis.

A term denotes the value an expression has in terms of the analysed function's
inputs (a Herbrand / value-numbering domain with gating functions `ite`).
Terms are never executed; they are built bottom-up from the syntax tree and
normalised by the constructors below, so that syntactically different ways of
computing the same value get the same term.
"""

_TAB = {}


class T:
    __slots__ = ("op", "a", "__weakref__")

    def __repr__(self):
        return show(self)


def mk(op, *a):
    key = (op, a)
    try:
        t = _TAB.get(key)
    except TypeError:
        raise TypeError("unhashable term %r %r" % (op, a))
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _TAB[key] = t
    return t


def c(v):
    """Constant."""
    if isinstance(v, tuple):
        return mk("tuple", *[x if isinstance(x, T) else c(x) for x in v])
    return mk("c", type(v).__name__, v)


NONE = c(None)
TRUE = c(True)
FALSE = c(False)
BOT = mk("bot")
EMPTY = c("")


def is_c(t, *v):
    """Is t a constant (equal to one of v)?"""
    if t.op != "c":
        return False
    return not v or any(type(t.a[1]) is type(x) and t.a[1] == x for x in v)


def cv(t):
    return t.a[1]


def s(name):
    return mk("s", name)


def ext(name):
    return mk("x", name)


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return repr(t) if not isinstance(t, str) else t
    if depth > 14:
        return "…"
    d = depth + 1
    op, a = t.op, t.a
    if op == "c":
        return repr(a[1])
    if op in ("s", "x"):
        return str(a[0]).partition("#")[0]
    if op == ".":
        return "%s.%s" % (show(a[0], d), a[1])
    if op == "[]":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if op == "ite":
        return "(%s if %s else %s)" % (show(a[1], d), show(a[0], d), show(a[2], d))
    if op == "cmp":
        return "(%s %s %s)" % (show(a[1], d), a[0], show(a[2], d))
    if op == "op":
        return "(%s %s %s)" % (show(a[1], d), a[0], show(a[2], d))
    if op == "not":
        return "not %s" % show(a[0], d)
    if op == "call":
        return "%s(%s)" % (show(a[0], d), ", ".join(
            [show(x, d) for x in a[1]] + ["%s=%s" % (k, show(v, d)) for k, v in a[2]]))
    return "%s(%s)" % (op, ", ".join(show(x, d) for x in a))


# ---------------------------------------------------------------- traversal
def children(t):
    stack = list(t.a)
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            stack.extend(x)


def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def contains(t, u):
    return any(x is u for x in subterms(t))


def has_op(t, *ops):
    return any(x.op in ops for x in subterms(t))


def rebuild(op, a):
    """Constructor with normalisation, used when substituting."""
    if op == "ite":
        return ite(*a)
    if op == "not":
        return neg(a[0])
    if op == "and":
        return conj(*a)
    if op == "or":
        return disj(*a)
    if op == "cmp":
        return cmp(*a)
    if op == "truthy":
        return truthy(a[0])
    if op == "isnone":
        return isnone(a[0])
    if op == "cat":
        return cat(*a)
    if op == "op":
        return arith(*a)
    if op == "sl" and a[0].op == "sl" and a[0].a[2] is NONE and a[0].a[3] is NONE and a[3] is NONE and front(a[0].a[1]) \
            and all(x is NONE or x.op == "c" and type(cv(x)) is int and cv(x) >= 0 for x in a[1:3]):
        i = a[0].a[1]       # data[i:][lo:hi] is data[i + lo:i + hi]
        return mk("sl", a[0].a[0], i if a[1] is NONE else arith("+", i, a[1]), NONE if a[2] is NONE else arith("+", i, a[2]), NONE)
    return mk(op, *a)


def front(i):
    """A position known not to be negative."""
    return i.op == "iv" and i.a[0].op in ("range", "walk") and is_c(i.a[0].a[0]) and type(cv(i.a[0].a[0])) is int and cv(i.a[0].a[0]) >= 0


def subst(t, m, memo=None):
    """Replace subterms according to dict m (term -> term), renormalising."""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            na = tuple(go(y) for y in x.a)
            r = x if na == x.a else rebuild(x.op, na)
            memo[x] = r
        return r
    return go(t)


# ---------------------------------------------------------------- booleans
BOOLOPS = {"cmp", "not", "and", "or", "truthy", "isnone", "hasattr", "isinst", "exc", "test",
           "exists", "loopexit"}


def symtype(t):
    """Declared type of a scenario symbol, written name#type."""
    return t.a[0].rpartition("#")[2] if t.op == "s" and "#" in t.a[0] else None


def is_bool(t):
    return t.op in BOOLOPS or (t.op == "s" and t.a[0].endswith("#bool")) or (t.op == "c" and t.a[0] == "bool") or (
        t.op == "ite" and is_bool(t.a[1]) and is_bool(t.a[2]))


def is_str_like(t):
    return t.op in ("cat", "join", "b64", "sha256", "sha512", "hmac", "le", "enc", "dec", "str", "hex", "catcomp") or (
        t.op == "c" and isinstance(t.a[1], (str, bytes)))


def nonnull(t):
    """Is the value certainly not None?"""
    if t.op == "c":
        return t.a[1] is not None
    if t.op == "s":
        return "#" in t.a[0]
    if t.op in ("tuple", "list", "dict", "set", "cat", "elem", "wrap", "comp", "ref", "fn", "cls", "bound", "mod",
                "b64", "le", "sha256", "sha512", "hmac", "iv", "ix", "now", "E", "copy", "join", "str", "int", "len",
                "op", "x", "obj", "enc", "dec", "unb64", "unle", "catcomp", "range", "nn", "attrib", "parsed",
                "new", "hex", "date", "fromiso", "utc", "localtz", "iso", "secs", "delta"):
        return True
    if is_bool(t):
        return True
    if t.op == "ite":
        return nonnull(t.a[1]) and nonnull(t.a[2])
    if t.op == "q":
        return t.a[2] == "all"
    if t.op == "api":
        return not api_first(t)
    if t.op == "m" and t.a[0] in ("replace", "strip", "lstrip", "rstrip", "split", "lower", "upper", "encode", "decode", "join",
                                  "isoformat", "astimezone", "strftime", "format", "digest", "hexdigest", "with_name", "with_suffix"):
        return True
    if t.op == "call" and t.a[0].op == "x" and t.a[0].a[0] in (
            "pathlib.Path", "zlib.compressobj", "uuid.UUID", "uuid.uuid1", "uuid.uuid4", "datetime.datetime.now"):
        return True
    return False


def api_first(t):
    kw = dict(t.a[1])
    f = kw.get("first")
    if "path" in kw and not is_c(kw["path"], None):
        return True
    return f is not None and not is_c(f, False)


def truthy(t):
    if is_bool(t):
        return t
    if t.op == "c":
        return c(bool(t.a[1]))
    if t.op in ("tuple", "list", "set"):
        if not t.a:
            return FALSE
        if any(x.op not in ("star", "gi") for x in t.a):
            return TRUE
        if all(x.op == "gi" for x in t.a):
            return disj(*[x.a[0] for x in t.a])
        return mk("truthy", t)
    if t.op == "dict":
        return c(bool(t.a[0])) if not t.a[0] or all(k.op not in ("star", "gi") for k, _ in t.a[0]) else mk("truthy", t)
    if t.op in ("wrap", "elemobj", "fn", "cls", "bound", "obj", "now", "parsed"):
        return TRUE
    if t.op == "cat" and any(p.op == "c" and p.a[1] for p in t.a):
        return TRUE
    if t.op == "len":
        return truthy(t.a[0])
    if t.op == "ite":
        return ite(t.a[0], truthy(t.a[1]), truthy(t.a[2]))
    if t.op == "comp" and is_c(t.a[1], True):
        return truthy(t.a[0])
    if t.op == "sl" and prefix_slice(t):
        return truthy(t.a[0])
    if t.op in ("sorted", "reversed") and isinstance(t.a[0], T):
        return truthy(t.a[0])
    return mk("truthy", t)


def prefix_slice(t):
    """x[:n] with a constant n > 0: empty exactly when x is, with the same first item."""
    return (len(t.a) == 4 and t.a[1] is NONE and t.a[3] is NONE and t.a[2].op == "c" and isinstance(t.a[2].a[1], int)
            and t.a[2].a[1] > 0)


def isnone(t):
    if t.op == "c":
        return c(t.a[1] is None)
    if nonnull(t):
        return FALSE
    if t.op == "ite":
        return ite(t.a[0], isnone(t.a[1]), isnone(t.a[2]))
    return mk("isnone", t)


def neg(t):
    t = truthy(t)
    if t.op == "c":
        return c(not t.a[1])
    if t.op == "not":
        return t.a[0]
    if t.op == "and":
        return disj(*[neg(x) for x in t.a])
    if t.op == "or":
        return conj(*[neg(x) for x in t.a])
    if t.op == "ite":
        return ite(t.a[0], neg(t.a[1]), neg(t.a[2]))
    return mk("not", t)


def _order(ts):
    return sorted(ts, key=lambda x: _key(x))


_KEYS = {}


def _key(t):
    k = _KEYS.get(t)
    if k is None:
        k = show(t)
        _KEYS[t] = k
    return k


def conj(*ts):
    out = []
    for t in ts:
        t = truthy(t)
        if t.op == "and":
            out.extend(t.a)
        else:
            out.append(t)
    seen = []
    for t in out:
        if is_c(t, True) or t in seen:
            continue
        if is_c(t, False) or neg1(t) in seen:
            return FALSE
        seen.append(t)
    if not seen:
        return TRUE
    if len(seen) == 1:
        return seen[0]
    return mk("and", *_order(seen))


def neg1(t):
    return t.a[0] if t.op == "not" else mk("not", t)


def disj(*ts):
    out = []
    for t in ts:
        t = truthy(t)
        if t.op == "or":
            out.extend(t.a)
        else:
            out.append(t)
    seen = []
    for t in out:
        if is_c(t, False) or t in seen:
            continue
        if is_c(t, True) or neg1(t) in seen:
            return TRUE
        seen.append(t)
    if not seen:
        return FALSE
    if len(seen) == 1:
        return seen[0]
    return mk("or", *_order(seen))


_NEGCMP = {"!=": "==", ">=": "<", ">": "<=", "not in": "in", "is not": "is"}


def const_py(t):
    """Python value of a fully constant term, else raise."""
    if t.op == "c":
        return t.a[1]
    if t.op == "tuple":
        return tuple(const_py(x) for x in t.a)
    if t.op == "list":
        if any(x.op in ("star", "gi") for x in t.a):
            raise ValueError
        return [const_py(x) for x in t.a]
    if t.op == "set":
        return {const_py(x) for x in t.a}
    if t.op == "dict":
        return {const_py(k): const_py(v) for k, v in t.a[0]}
    raise ValueError


def from_py(v):
    if isinstance(v, tuple):
        return mk("tuple", *[from_py(x) for x in v])
    if isinstance(v, list):
        return mk("list", *[from_py(x) for x in v])
    return c(v)


def cmp(op, a, b):
    if op in ("!=", "not in", "is not"):
        return neg(cmp(_NEGCMP[op], a, b))
    if op == ">":
        return cmp("<", b, a)
    if op == ">=":
        return cmp("<=", b, a)
    try:
        va, vb = const_py(a), const_py(b)
        if op == "==":
            return c(va == vb)
        if op == "<":
            return c(va < vb)
        if op == "<=":
            return c(va <= vb)
        if op == "in":
            return c(va in vb)
        if op == "is":
            return c(va is vb or (type(va) is type(vb) and va == vb))
    except (ValueError, TypeError):
        pass
    if op in ("==", "is"):
        if is_c(b, None):
            return isnone(a)
        if is_c(a, None):
            return isnone(b)
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if is_c(x, True) and is_bool(y):
                return y
            if is_c(x, False) and is_bool(y):
                return neg(y)
            if x.op == "ite":
                r1, r2 = cmp("==", x.a[1], y), cmp("==", x.a[2], y)
                if r1.op == "c" or r2.op == "c":
                    return ite(x.a[0], r1, r2)
            # len(x) == 0
            if x.op == "len" and is_c(y, 0):
                return neg(truthy(x.a[0]))
            # type(x) == cls / x.__class__
        if op == "is" and (a.op == "c" or b.op == "c"):
            op = "=="
        if op == "==":
            if a.op == "tuple" and b.op == "tuple" and len(a.a) == len(b.a) and not any(
                    x.op == "star" for x in a.a + b.a):
                return conj(*[cmp("==", x, y) for x, y in zip(a.a, b.a)])
        if a.op == "c" or (b.op != "c" and _key(b) < _key(a)):
            a, b = b, a
        return mk("cmp", op, a, b)
    if op in ("<", "<="):
        # 0 < len(x)  /  1 <= len(x)
        if b.op == "len" and ((op == "<" and is_c(a, 0)) or (op == "<=" and is_c(a, 1))):
            return truthy(b.a[0])
        if a.op == "len" and ((op == "<=" and is_c(b, 0)) or (op == "<" and is_c(b, 1))):
            return neg(truthy(a.a[0]))
        if op == "<=":
            # a <= b  ==  not (b < a)
            return neg(mk("cmp", "<", b, a))
        return mk("cmp", "<", a, b)
    if op == "in":
        if a.op == "c" and isinstance(a.a[1], str):
            b = unstr(b)
        if b.op in ("tuple", "list", "set") and not any(x.op in ("star", "gi") for x in b.a):
            return disj(*[cmp("==", a, x) for x in b.a])
        if b.op == "dict" and not any(k.op in ("star", "gi") for k, _ in b.a[0]):
            return disj(*[_member(a, k, v) for k, v in b.a[0]])
        if b.op == "comp" and a.op == "c" and b.a[1] is not TRUE:
            f = {}
            e = cmp("==", b.a[2], a)
            if e.op == "cmp":
                add_fact(f, e, True)
                if simp(b.a[1], f) is FALSE:
                    return FALSE
        return mk("cmp", "in", a, b)
    return mk("cmp", op, a, b)


def _member(a, k, v):
    r = cmp("==", a, k)
    # an entry that exists only on some paths
    if v.op == "ite" and (v.a[1].op == "missing" or v.a[2].op == "missing"):
        r = conj(r, v.a[0] if v.a[2].op == "missing" else neg(v.a[0]))
    return r


# ---------------------------------------------------------------- gating
def ite(cnd, a, b):
    cnd = truthy(cnd)
    if cnd.op == "c":
        return a if cnd.a[1] else b
    if a is b:
        return a
    if cnd.op == "not":
        return ite(cnd.a[0], b, a)
    if a.op == "bot":
        return b
    if b.op == "bot":
        return a
    f = {}
    add_fact(f, cnd, True)
    a = simp(a, f)
    f = {}
    add_fact(f, cnd, False)
    b = simp(b, f)
    if a is b:
        return a
    if is_c(a, True) and is_c(b, False):
        return cnd
    if is_c(a, False) and is_c(b, True):
        return neg(cnd)
    if is_bool(a) and is_bool(b):
        if is_c(a, True):
            return disj(cnd, b)
        if is_c(a, False):
            return conj(neg(cnd), b)
        if is_c(b, False):
            return conj(cnd, a)
        if is_c(b, True):
            return disj(neg(cnd), a)
    # x if x is not None else None
    if cnd.op == "isnone" and is_c(a, None) and b is cnd.a[0]:
        return b
    # nested ites with a shared leaf
    if a.op == "ite" and a.a[2] is b:
        return ite(conj(cnd, a.a[0]), a.a[1], b)
    if b.op == "ite" and b.a[1] is a:
        return ite(disj(cnd, b.a[0]), a, b.a[2])
    if b.op == "ite" and b.a[2] is a:
        return ite(conj(neg(cnd), b.a[0]), b.a[1], a)
    if a.op == "ite" and a.a[1] is b:
        return ite(disj(neg(cnd), a.a[0]), b, a.a[2])
    if cnd.op == "or" and all(x.op == "not" for x in cnd.a):
        return ite(neg(cnd), b, a)
    return mk("ite", cnd, a, b)


def add_fact(f, cnd, val):
    cnd = truthy(cnd)
    if cnd.op == "not":
        return add_fact(f, cnd.a[0], not val)
    if cnd.op == "c":
        return
    if cnd.op == "and" and val:
        for x in cnd.a:
            add_fact(f, x, True)
        return
    if cnd.op == "or" and not val:
        for x in cnd.a:
            add_fact(f, x, False)
        return
    f[cnd] = val
    if cnd.op == "isnone" and not val:
        x = cnd.a[0]
        if x.op == "." and x.a[1] in ("text", "tag"):
            f[mk("isnone", x.a[0])] = False
            x = x.a[0]
        if x.op == "q":
            for i in range(1, len(x.a[1])):
                f[mk("isnone", mk("q", x.a[0], x.a[1][:i], "first"))] = False
    if cnd.op == "truthy" and val:
        f[mk("isnone", cnd.a[0])] = False
        if cnd.a[0].op == ".":
            add_fact(f, mk("isnone", cnd.a[0]), False)
    if cnd.op == "isnone" and val:
        f[mk("truthy", cnd.a[0])] = False
    if cnd.op == "cmp" and cnd.a[0] == "==" and val and cnd.a[2].op == "c":
        x = cnd.a[1]
        f[mk("isnone", x)] = False
        f[mk("truthy", x)] = bool(cnd.a[2].a[1])
        f[("eq", x)] = cnd.a[2]


def decide(cnd, f):
    """Truth value of a condition under facts f, or None."""
    if cnd.op == "c":
        return bool(cnd.a[1])
    if not f:
        return None
    r = f.get(cnd)
    if r is not None:
        return r
    if cnd.op == "not":
        r = decide(cnd.a[0], f)
        return None if r is None else not r
    if cnd.op == "and":
        rs = [decide(x, f) for x in cnd.a]
        if any(x is False for x in rs):
            return False
        return True if all(rs) else None
    if cnd.op == "or":
        rs = [decide(x, f) for x in cnd.a]
        if any(rs):
            return True
        return False if all(x is False for x in rs) else None
    if cnd.op == "isnone":
        x = cnd.a[0]
        if x.op == "q":
            for i in range(1, len(x.a[1])):
                if f.get(mk("isnone", mk("q", x.a[0], x.a[1][:i], "first"))) is True:
                    return True
    if cnd.op == "cmp" and cnd.a[0] == "==":
        e = f.get(("eq", cnd.a[1]))
        if e is not None and cnd.a[2].op == "c":
            return e is cnd.a[2]
        if cnd.a[2].op == "c" and f.get(mk("isnone", cnd.a[1])) is True:
            return False
        if cnd.a[2].op == "c" and cnd.a[2].a[1] and f.get(mk("truthy", cnd.a[1])) is False:
            return False
    if cnd.op == "ite":
        r = decide(cnd.a[0], f)
        if r is not None:
            return decide(cnd.a[1] if r else cnd.a[2], f)
    return None


def simp(t, f, memo=None):
    """Simplify a term under the facts f."""
    if not f:
        return t
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in BOOLOPS or x.op == "ite":
            if x.op == "ite":
                d = decide(x.a[0], f)
                if d is not None:
                    r = go(x.a[1] if d else x.a[2])
                    memo[x] = r
                    return r
            else:
                d = decide(x, f)
                if d is not None:
                    memo[x] = c(d)
                    return memo[x]
        if not x.a or x.op in ("c", "s", "x"):
            memo[x] = x
            return x
        na = tuple(go(y) for y in x.a)
        r = x if na == x.a else rebuild(x.op, na)
        memo[x] = r
        return r
    return go(t)


def facts(*pairs):
    f = {}
    for cnd, v in pairs:
        add_fact(f, cnd, v)
    return f


# ---------------------------------------------------------------- strings
def unstr(t):
    while t.op == "str":
        t = t.a[0]
    return t


def cat(*parts):
    out = []
    for p in parts:
        p = unstr(p)
        if p.op == "cat":
            ps = p.a
        else:
            ps = (p,)
        for q in ps:
            if q.op == "c" and isinstance(q.a[1], (str, bytes)) and len(q.a[1]) == 0:
                continue
            if (q.op == "c" and out and out[-1].op == "c" and isinstance(q.a[1], (str, bytes))
                    and type(q.a[1]) is type(out[-1].a[1])):
                out[-1] = c(out[-1].a[1] + q.a[1])
                continue
            out.append(q)
    if not out:
        for p in parts:
            if p.op == "c" and isinstance(p.a[1], bytes):
                return c(b"")
        return EMPTY
    if len(out) == 1:
        return out[0]
    return mk("cat", *out)


def arith(op, a, b):
    try:
        va, vb = const_py(a), const_py(b)
        r = {"+": lambda: va + vb, "-": lambda: va - vb, "*": lambda: va * vb, "//": lambda: va // vb,
             "%": lambda: va % vb, "**": lambda: va ** vb if abs(vb) < 200 else None, "|": lambda: va | vb,
             "&": lambda: va & vb, "^": lambda: va ^ vb, "<<": lambda: va << vb if vb < 200 else None,
             ">>": lambda: va >> vb,
             "/": lambda: va / vb}.get(op, lambda: None)()
        if r is not None and (not isinstance(r, (str, bytes, list, tuple)) or len(r) < 100000):
            return from_py(r)
    except (ValueError, TypeError, ZeroDivisionError, OverflowError):
        pass
    if op == "+":
        if a.op in ("list", "tuple") and b.op == a.op:
            return mk(a.op, *(a.a + b.a))
        if is_str_like(a) or is_str_like(b):
            return cat(a, b)
        # constants last, combine (x + 1) + 2
        if a.op == "c" and not isinstance(a.a[1], (str, bytes)) and b.op != "c":
            a, b = b, a
        if b.op == "c" and isinstance(b.a[1], int) and a.op == "op" and a.a[0] == "+" and a.a[2].op == "c":
            return arith("+", a.a[1], arith("+", a.a[2], b))
        if is_c(b, 0):
            return a
        # x - y + y
        if a.op == "op" and a.a[0] == "-" and a.a[2] is b:
            return a.a[1]
        if b.op == "op" and b.a[0] == "-" and b.a[2] is a:
            return b.a[1]
    if op == "-":
        if b.op == "c" and isinstance(b.a[1], int):
            return arith("+", a, c(-b.a[1]))
        if a is b:
            return c(0)
        # (x + y) - y
        if a.op == "op" and a.a[0] == "+" and a.a[2] is b:
            return a.a[1]
        if a.op == "op" and a.a[0] == "+" and a.a[1] is b:
            return a.a[2]
    if op in ("*", "|", "&", "^") and a.op == "c" and b.op != "c":
        a, b = b, a
    if op == ">>" and b.op == "c" and isinstance(b.a[1], int):
        return arith("//", a, c(2 ** b.a[1]))
    if op in ("+", "*") and a.op != "c" and b.op != "c" and not is_str_like(a) and _numeric(a) and _numeric(b) \
            and _key(b) < _key(a):
        a, b = b, a
    return mk("op", op, a, b)


def numeric(t):
    return _numeric(t)


def _numeric(t):
    if t.op == "s" and t.a[0].endswith("#int") or t.op == "m" and t.a[0] == "index":
        return True
    return t.op in ("op", "len", "int", "unle", "ix") and not (t.op == "op" and t.a[0] == "+" and not (
        _numeric(t.a[1]) or _numeric(t.a[2]) or t.a[2].op == "c"))


# ---------------------------------------------------------------- reports
def pretty(t, depth=0):
    """Readable rendering for reports (not injective)."""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(pretty(x, depth) for x in t) + ")"
        return repr(t) if not isinstance(t, str) else t
    if depth > 25:
        return "…"
    d = depth + 1
    op, a = t.op, t.a
    p = lambda x: pretty(x, d)
    if op == "c":
        return repr(a[1])
    if op in ("s", "x"):
        return str(a[0]).partition("#")[0]
    if op == "q":
        return "%s%s{%s}" % ("" if a[2] == "first" else "*", p(a[0]), _ppath(a[1], d))
    if op == "iv":
        return "each<%s>" % p(a[0])[:60]
    if op == "and":
        return "(" + " and ".join(map(p, a)) + ")"
    if op == "or":
        return "(" + " or ".join(map(p, a)) + ")"
    if op == "not" and a[0].op == "isnone":
        return p(a[0].a[0]) + "≠None"
    if op == "isnone":
        return p(a[0]) + "=None"
    if op == "truthy":
        return "bool:" + p(a[0])
    if op == ".":
        return "%s.%s" % (p(a[0]), a[1])
    if op == "[]":
        return "%s[%s]" % (p(a[0]), p(a[1]))
    if op == "ite":
        return "(%s if %s else %s)" % (p(a[1]), p(a[0]), p(a[2]))
    if op in ("cmp", "op"):
        return "(%s %s %s)" % (p(a[1]), a[0], p(a[2]))
    if op == "not":
        return "not %s" % p(a[0])
    if op == "cat":
        return " ++ ".join(map(p, a))
    if op == "m":
        return "%s.%s(%s)" % (p(a[1]), a[0], ", ".join(map(p, a[2:])))
    if op == "api":
        return "%s(%s)" % (a[0], ", ".join("%s=%s" % (k, p(v)) for k, v in a[1]))
    if op == "wrap":
        return "%s<%s>" % (a[0], p(a[1]))
    if op == "elem":
        return "<%s%s%s%s>" % (p(a[0]), "".join(" %s=%s" % (p(k), p(v)) for k, v in a[1]),
                               " text=" + p(a[3]) if a[3] is not NONE else "",
                               " [" + ", ".join(map(p, a[2])) + "]" if a[2] else "")
    if op == "call":
        return "%s(%s)" % (p(a[0]), ", ".join([p(x) for x in a[1]] + ["%s=%s" % (k, p(v)) for k, v in a[2]]))
    return "%s(%s)" % (op, ", ".join(p(x) for x in a))


def _ppath(path, d):
    if not isinstance(path, tuple):
        return pretty(path, d)
    out = []
    for st in path:
        if not isinstance(st, tuple) or len(st) != 3:
            out.append(pretty(st, d))
            continue
        ax, nm, pr = st
        out.append(("" if ax == "child" else str(ax) + "::") + str(nm) + "".join("[" + _ppred(x, d) + "]" for x in pr))
    return "/".join(out)


def _ppred(x, d):
    if isinstance(x, tuple) and x and x[0] == "has":
        return _ppath(x[1], d)
    if isinstance(x, tuple) and x:
        return " ".join([str(x[0])] + [pretty(y, d) for y in x[1:]])
    return pretty(x, d)


def le(w, x):
    """w little-endian bytes of the number x."""
    if x.op == "c" and isinstance(cv(x), int) and 0 <= cv(x) < 1 << 8 * w:
        return c(int(cv(x)).to_bytes(w, "little"))
    return mk("le", w, x)


def unhex(x, how):
    if x.op == "c" and isinstance(cv(x), (str, bytes)):
        try:
            s = cv(x) if isinstance(cv(x), str) else cv(x).decode("ascii")
            if how == "ws" or not any(ch.isspace() for ch in s):
                return c(bytes.fromhex(s))
        except ValueError:
            pass
    return mk("unhex", x, how)


def unb64(x, *how):
    if x.op == "c" and isinstance(cv(x), (str, bytes)) and not how:
        import base64
        try:
            return c(base64.b64decode(cv(x)))
        except ValueError:
            pass
    return mk("unb64", x, *how)

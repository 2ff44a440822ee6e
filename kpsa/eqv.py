"""Deciding whether two summaries denote the same behaviour.

Both terms are split over the atomic conditions that gate them; under every
consistent assignment the remaining terms must be identical.  The answer is
True (same), False (different) or None (not decided: a construct outside the
modelled vocabulary is involved).
"""
from .terms import *
from .norm import norm, separable

INDEFINITE = {"unknown", "badq", "mu", "fold", "rec", "havoc", "unknownfirst", "hole", "findtext", "cyc", "meth",
              "cellobj", "extsuper", "propattr", "genobj", "loopexit"}
KNOWN_METHODS = {"replace", "split", "upper", "lower", "strip", "startswith", "endswith", "index", "with_name",
                 "with_suffix", "casefold", "title", "lstrip", "rstrip", "rsplit", "getpath", "group", "get", "encode", "decode",
                 "splitlines", "partition", "rpartition", "capitalize", "swapcase", "expandtabs", "zfill", "ljust", "rjust",
                 "center", "translate", "removeprefix", "removesuffix", "isspace", "isdigit", "isalpha", "isalnum", "isdecimal",
                 "isnumeric", "isascii", "isprintable", "count", "find", "rfind", "date", "timestamp", "toordinal"}
KNOWN_EXT = ("builtins.", "zlib.", "lxml.etree.tostring", "pathlib.Path", "datetime.", "uuid.", "shutil.", "base64.",
             "hashlib.", "os.", "re.", "struct.", "codecs.", "Cryptodome.", "argon2.", "construct.", "secrets.",
             "unicodedata.", "html.", "urllib.", "textwrap.", "string.", "xml.sax.saxutils.", "locale.")


def definite(t):
    for x in subterms(t):
        if x.op in INDEFINITE:
            return False
        if x.op == "m" and x.a[0] not in KNOWN_METHODS:
            return False
        if x.op == "call":
            f = x.a[0]
            if f.op != "x" or not f.a[0].startswith(KNOWN_EXT):
                return False
    return True


def opaque(a, b):
    """The same call of an unmodelled method on both sides is one unknown value."""
    if definite(a) and definite(b):
        return a, b
    both = set(subterms(a)) & set(subterms(b))
    m = {x: s("same%d" % n) for n, x in enumerate(sorted((x for x in both if x.op in ("m", "call") and not definite(mk(x.op, *[
        y if not isinstance(y, T) or y.op == "x" else NONE for y in x.a])) and not any(y.op in INDEFINITE for y in subterms(x))), key=tkey))}
    return (subst(a, m), subst(b, m)) if m else (a, b)


def cond_atom(t, seen=None):
    """An atomic condition that gates t (ite condition or boolean structure)."""
    best = None
    for x in subterms(t):
        if x.op == "ite":
            a = atom_of(x.a[0])
        elif x.op in ("and", "or", "not"):
            a = atom_of(x)
        elif x.op == "gi":
            a = atom_of(x.a[0])
        else:
            continue
        if a is not None and not bound(a) and (best is None or rank(a) < rank(best)):
            best = a
    if best is None and is_bool(t) and t.op not in ("c",):
        best = atom_of(t)
        if best is not None and bound(best):
            best = None
    return best


def rank(a):
    s_ = tkey(a)
    return (len(s_), s_)


_RK = {}


def tkey(t):
    r = _RK.get(t)
    if r is None:
        r = show(t)
        _RK[t] = r
    return r


def bound(a):
    """Condition about a loop element: cannot be split outside its loop."""
    return False


def atom_of(t):
    while True:
        if t.op == "c":
            return None
        if t.op == "not":
            t = t.a[0]
        elif t.op in ("and", "or"):
            t = min(t.a, key=rank)
        elif t.op == "ite":
            t = t.a[0]
        else:
            return t


def ungi(t, f):
    """Resolve guarded items of child lists whose condition became known."""
    def go(x):
        if isinstance(x, tuple):
            out = []
            for y in x:
                if isinstance(y, T) and y.op == "gi":
                    g = truthy(y.a[0])
                    d = decide(g, f) if g.op != "c" else bool(cv(g))
                    if d is True:
                        out.append(go(y.a[1]))
                        continue
                    if d is False:
                        continue
                out.append(go(y))
            return tuple(out)
        if not isinstance(x, T) or not x.a:
            return x
        r = memo.get(x)
        if r is None:
            na = go(x.a)
            r = x if na == x.a else rebuild(x.op, na)
            memo[x] = r
        return r
    memo = {}
    return go(t) if any(x.op == "gi" for x in subterms(t)) else t


class Budget(Exception):
    pass


def equiv(a, b, f=None, leaf=None, budget=4000):
    """leaf(a, b, facts) may decide leaves that are not identical."""
    cnt = [budget]
    diff = []

    def go(a, b, f):
        if a is b:
            return True
        cnt[0] -= 1
        if cnt[0] < 0:
            raise Budget
        at = cond_atom(mk("pair", a, b))
        if at is None:
            if leaf is not None:
                r = leaf(a, b, f)
                if r is not None:
                    if r is False:
                        diff.append((dict(f), a, b))
                    return r
            if norm(a) is norm(b):
                return True
            a, b = opaque(a, b)
            if definite(a) and definite(b):
                if not separable(norm(a), norm(b)):
                    return None
                diff.append((dict(f), a, b))
                return False
            return None
        res = True
        for v in (True, False):
            g = dict(f)
            add_fact(g, at, v)
            if inconsistent(g):
                continue
            r = go(ungi(simp(a, g), g), ungi(simp(b, g), g), g)
            if r is False:
                return False
            if r is None:
                res = None
        return res

    try:
        f = f or {}
        r = go(norm(simp(a, f)), norm(simp(b, f)), dict(f))
    except Budget:
        return None, None
    return r, (diff[0] if diff else None)


def inconsistent(f):
    return False


def implies(a, b, f=None):
    """a => b for boolean terms: True / False / None."""
    r, d = equiv(disj(neg(a), b), TRUE, f)
    return r


def unver(t):
    """Forget the stamps of reads after writes."""
    m = {x: None for x in subterms(t) if x.op == "ver"}
    if not m:
        return t

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T) or not x.a:
            return x
        if x.op == "ver":
            return go(x.a[0])
        na = go(x.a)
        return x if na == x.a else rebuild(x.op, na)
    return go(t)

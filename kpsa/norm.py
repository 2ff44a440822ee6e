"""Algebraic normal form of time values and encodings, and a falsifier for inequalities.

norm(t)        rewrites a term into a canonical spelling of the same value.
separable(a,b) looks for a valuation of the free symbols of two terms under the standard meaning of the term
               vocabulary (datetime arithmetic, integers, encodings) which gives them different values.  Operators
               without a standard meaning are free constructors.  Two normal forms that no sampled valuation separates
               are reported as not decided instead of different.
"""
import base64
import datetime as D
import math

from .terms import *

UTC_ = ext("datetime.timezone.utc")
_NM = {}


def norm(t):
    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T) or not x.a or x.op in ("c", "s", "x"):
            return step(x) if isinstance(x, T) and x.op == "x" else x
        r = _NM.get(x)
        if r is None:
            na = tuple(go(y) for y in x.a)
            y = x if na == x.a else rebuild(x.op, na)
            r = y
            for _ in range(6):
                z = step(r)
                if z is r:
                    break
                r = z
            _NM[x] = r
        return r
    return go(t)


def strip_utc(x):
    while x.op in ("utc", "localtz"):
        x = x.a[0]
    return x


def zero(x):
    return is_c(x, 0, 0.0) or (x.op == "delta" and is_c(x.a[0], 0))


def step(x):
    op, a = x.op, x.a
    if op == "x":
        if a[0] == "datetime.datetime.min":
            return mk("date", c(1), c(1), c(1), c(0), c(0), c(0), c(0), NONE)
        return x
    if op == "." and a[1] == "min" and a[0] is ext("datetime.datetime"):
        return mk("date", c(1), c(1), c(1), c(0), c(0), c(0), c(0), NONE)
    if op == "call" and a[0].op == "x" and a[0].a[0] == "datetime.datetime.min.replace" and not a[1]:
        return mk("m", "replace", mk("date", c(1), c(1), c(1), c(0), c(0), c(0), c(0), NONE), mk("kw", a[2]))
    if op == "utc":
        y = a[0]
        if y.op == "localtz":
            return mk("utc", y.a[0])
        if y.op in ("now", "utc") or (y.op == "date" and y.a[7] is UTC_):
            return y
        if y.op == "op" and y.a[0] == "+" and y.a[1].op == "date" and y.a[1].a[7] is UTC_ and y.a[2].op == "delta":
            return y
        return x
    if op == "op":
        o, p, q_ = a
        if o == "-" and (p.op in ("utc", "localtz") or q_.op in ("utc", "localtz")):
            return mk("op", "-", strip_utc(p), strip_utc(q_))
        if o == "//" and q_.op == "delta" and is_c(q_.a[0], 1, 1.0):
            return mk("int", mk("secs", p))
        if o == "/" and q_.op == "delta" and is_c(q_.a[0], 1, 1.0):
            return mk("secs", p)
        if o == "//" and is_c(q_, 1) and p.op == "secs":
            return mk("int", p)
        if o == "+":
            for u, v in ((p, q_), (q_, p)):
                if u.op == "op" and u.a[0] == "*" and is_c(u.a[2], 86400) and u.a[1].op == "." and u.a[1].a[1] == "days" \
                        and v.op == "." and v.a[1] == "seconds" and v.a[0] is u.a[1].a[0]:
                    return mk("int", mk("secs", v.a[0]))
        return x
    if op == "m" and a[0] == "replace" and a[1].op == "date" and len(a) == 3 and a[2].op == "kw":
        kw = dict(a[2].a[0])
        names = ("year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo")
        if set(kw) <= set(names):
            return mk("date", *[kw.get(n, v) for n, v in zip(names, a[1].a)])
        return x
    if op in ("dec", "enc") and a[0].op in ("b64", "hex"):
        return a[0]
    if op == "call" and a[0].op == "x" and a[0].a[0] in ("math.floor", "math.trunc") and len(a[1]) == 1 and a[1][0].op == "secs":
        return mk("int", a[1][0])
    if op == "cmp" and a[0] == "<":
        p, q_ = a[1], a[2]
        if p.op in ("utc", "localtz") or q_.op in ("utc", "localtz"):
            return mk("cmp", "<", strip_utc(p), strip_utc(q_))
        for swap, z, y in ((False, p, q_), (True, q_, p)):
            if zero(z):
                d = y.a[0] if y.op == "secs" else y
                if d.op == "op" and d.a[0] == "-":
                    u, v = d.a[1], d.a[2]
                    return cmp("<", v, u) if not swap else cmp("<", u, v)
        return x
    if op == "cmp" and a[0] == "==" and (a[1].op in ("utc", "localtz") or a[2].op in ("utc", "localtz")):
        return cmp("==", strip_utc(a[1]), strip_utc(a[2]))
    # 'Z' is read by fromisoformat itself since Python 3.11
    if op == "fromiso" and a[0].op == "m" and a[0].a[0] == "replace" and is_c(a[0].a[2], "Z"):
        return mk("fromiso", a[0].a[1])
    return x


# ------------------------------------------------------------------------------------------------ falsifier
class Undef(Exception):
    pass


class Free(tuple):
    """A value of an operator without standard meaning."""


TZ = D.timezone
SAMPLES = [
    (D.datetime(2024, 2, 29, 23, 59, 59, 999999, TZ(D.timedelta(hours=5, minutes=30))), D.datetime(2024, 2, 29, 18, 30, 0, 0, TZ.utc)),
    (D.datetime(1999, 12, 31, 1, 2, 3, 500000, TZ.utc), D.datetime(1999, 12, 31, 1, 2, 3, 500000, TZ.utc)),
    (D.datetime(2030, 6, 1, 12, 0, 0, 0, TZ(D.timedelta(hours=-8))), D.datetime(2029, 6, 1, 12, 0, 1, 1, TZ.utc)),
    (D.datetime(2001, 1, 1, 0, 0, 0, 1, TZ.utc), D.datetime(2001, 1, 1, 0, 0, 0, 2, TZ.utc)),
    (D.datetime(2012, 3, 4, 0, 0, 0, 0, TZ.utc), D.datetime(2012, 3, 5, 0, 0, 0, 0, TZ.utc)),
    (D.datetime(2012, 3, 4, 5, 6, 7, 800000, TZ(D.timedelta(hours=1))), D.datetime(2012, 3, 4, 5, 6, 8, 200000, TZ(D.timedelta(hours=-1)))),
]
EPOCH = D.datetime(1, 1, 1, tzinfo=TZ.utc)
LEAF = {"s", "q", ".", "api", "wrap", "x", "iv", "ix", "attrib", "[]"}


def hints(t, h):
    """Kind of value each leaf must have, from the operators applied to it."""
    def go(x, k):
        if x.op in LEAF or x.op == "m":
            if x.op == "." and x.a[1] in ("days", "seconds", "microseconds"):
                go(x.a[0], "delta")
                return
            if x.op == "s" and x.a[0].endswith("#datetime"):
                k = "dt"
            if x.op == "m" and x.a[0] == "replace" and len(x.a) == 3 and x.a[2].op == "kw":
                go(x.a[1], "dt")
                return
            if k and x.op != "m":
                h.setdefault(x, k)
            if x.op != "m":
                return
        if x.op in ("utc", "iso", "localtz"):
            k = "dt"
        elif x.op == "secs":
            k = "delta"
        elif x.op == "int":
            k = "intstr"
        elif x.op in ("fromiso",):
            k = "isotext"
        elif x.op == "unb64":
            k = "b64text"
        elif x.op == "op" and x.a[0] == "-" and k == "delta":
            k = "dt"
        elif x.op == "op":
            k = k if k in ("num",) else None
        elif x.op == "cmp":
            k = None
        elif x.op in ("c", "now", "date"):
            return
        else:
            k = None
        for y in children(x):
            go(y, k)
    go(t, None)


def valuation(h, i):
    v = {}
    for n, (t, k) in enumerate(sorted(h.items(), key=lambda z: show(z[0]))):
        d = SAMPLES[(i + n) % len(SAMPLES)]
        if k == "dt":
            v[t] = d[0]
        elif k == "isotext":
            v[t] = d[0].isoformat()
        elif k == "b64text":
            v[t] = base64.b64encode(int((d[0] - EPOCH).total_seconds()).to_bytes(8, "little")).decode()
        elif k == "intstr":
            v[t] = str((1, -1, 0, 30, 365)[(i + n) % 5])
        elif k == "delta":
            v[t] = d[1] - d[0]
        elif k == "num":
            v[t] = (3, -1, 0, 7)[(i + n) % 4]
    v["now"] = SAMPLES[i % len(SAMPLES)][1]
    return v


def ev(t, v, memo):
    r = memo.get(t)
    if r is None:
        r = _ev(t, v, memo)
        memo[t] = r
    return r


def _ev(t, v, memo):
    op, a = t.op, t.a
    E = lambda x: ev(x, v, memo)

    def free():
        def g(x):
            if isinstance(x, T):
                return E(x)
            if isinstance(x, tuple):
                return Free(g(y) for y in x)
            return x
        return Free((op,) + tuple(g(x) for x in a))

    if t in v:
        return v[t]
    if op == "c":
        return Free(("const", a[0], a[1])) if isinstance(a[1], bool) is False and a[1] is None else a[1]
    if op == "now":
        return v["now"]
    if op == "x":
        return TZ.utc if a[0] == "datetime.timezone.utc" else Free(("x", a[0]))
    try:
        if op == "date":
            xs = [E(x) for x in a]
            tz = xs[7] if isinstance(xs[7], D.tzinfo) else None
            return D.datetime(*xs[:7], tzinfo=tz)
        if op == "utc":
            x = E(a[0])
            return x.astimezone(TZ.utc) if isinstance(x, D.datetime) and x.tzinfo else free()
        if op == "localtz":
            x = E(a[0])
            return x.astimezone(TZ(D.timedelta(hours=3))) if isinstance(x, D.datetime) and x.tzinfo else free()
        if op == "iso":
            x = E(a[0])
            if isinstance(x, D.datetime):
                ar, kw = [E(y) for y in a[1]], {k: E(y) for k, y in a[2]}
                if all(isinstance(y, str) for y in [*ar, *kw.values()]):
                    return x.isoformat(*ar, **kw)
            return free()
        if op == "fromiso":
            x = E(a[0])
            return D.datetime.fromisoformat(x) if isinstance(x, str) else free()
        if op == "secs":
            x = E(a[0])
            return x.total_seconds() if isinstance(x, D.timedelta) else free()
        if op == "delta":
            x = E(a[0])
            return D.timedelta(seconds=x) if isinstance(x, (int, float)) else free()
        if op == "int":
            x = E(a[0])
            return int(x) if isinstance(x, (int, float, str)) else free()
        if op == "le":
            x = E(a[1])
            return x.to_bytes(a[0], "little") if isinstance(x, int) and isinstance(a[0], int) else free()
        if op == "unle":
            x = E(a[1])
            return int.from_bytes(x, "little") if isinstance(x, bytes) and len(x) == a[0] else free()
        if op == "b64":
            x = E(a[0])
            return base64.b64encode(x).decode() if isinstance(x, bytes) else free()
        if op == "unb64":
            x = E(a[0])
            return base64.b64decode(x) if isinstance(x, (str, bytes)) else free()
        if op in ("dec", "enc"):
            x = E(a[0])
            return x.decode() if isinstance(x, bytes) and op == "dec" else x.encode() if isinstance(x, str) and op == "enc" else free()
        if op == "." and a[1] in ("days", "seconds", "microseconds", "tzinfo", "year"):
            x = E(a[0])
            return getattr(x, a[1]) if isinstance(x, (D.timedelta, D.datetime)) and hasattr(x, a[1]) else free()
        if op == "m" and a[0] == "replace" and len(a) == 3 and a[2].op == "kw":
            x = E(a[1])
            if isinstance(x, D.datetime):
                return x.replace(**{k: None if is_c(y, None) else E(y) for k, y in a[2].a[0]})
            return free()
        if op == "m" and a[0] in DTMETHODS and len(a) == 2:
            x = E(a[1])
            return getattr(x, a[0])() if isinstance(x, D.datetime) else free()
        if op == "m" and a[0] == "strftime" and len(a) == 3:
            x, f = E(a[1]), E(a[2])
            return x.strftime(f) if isinstance(x, D.datetime) else free()
        if op == "cat":
            xs = [E(x) for x in a]
            return xs[0][:0].join(xs) if xs and (all(isinstance(x, str) for x in xs) or all(isinstance(x, bytes) for x in xs)) else free()
        if op == "sl" and len(a) == 4:
            x = E(a[0])
            bs = [E(y) for y in a[1:]]
            bs = [None if isinstance(y, Free) and y[:1] == ("const",) else y for y in bs]
            if isinstance(x, (str, bytes)) and all(y is None or isinstance(y, int) for y in bs):
                return x[slice(*bs)]
            return free()
        if op == "m" and a[0] in STRMETHODS and len(a) > 1:
            xs = [E(x) for x in a[1:] if x.op != "kw"]
            if isinstance(xs[0], str) and len(xs) == len(a) - 1 and all(isinstance(x, (str, int)) for x in xs):
                r = getattr(xs[0], a[0])(*xs[1:])
                return tuple(r) if isinstance(r, list) else r
            return free()
        if op == "call" and a[0].op == "x" and a[0].a[0] in ("math.floor", "math.ceil", "math.trunc", "builtins.round", "builtins.divmod", "builtins.abs",
                                                            "builtins.max", "builtins.min", "builtins.float") and not a[2]:
            xs = [E(x) for x in a[1]]
            if all(isinstance(x, (int, float, D.timedelta, D.datetime)) for x in xs):
                n = a[0].a[0].split(".")[1]
                return (getattr(math, n) if hasattr(math, n) else getattr(__import__("builtins"), n))(*xs)
            return free()
        if op == "op":
            x, y = E(a[1]), E(a[2])
            ok = (int, float, D.timedelta, D.datetime)
            if isinstance(x, ok) and isinstance(y, ok):
                return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "//": lambda: x // y, "/": lambda: x / y,
                        "%": lambda: x % y, "<<": lambda: x << y, "|": lambda: x | y, "&": lambda: x & y, "^": lambda: x ^ y,
                        "**": lambda: x ** y if abs(y) < 100 else free()}.get(a[0], free)()
            return free()
        if op == "cmp":
            x, y = E(a[1]), E(a[2])
            ok = (int, float, D.timedelta, D.datetime, D.date, str)
            if a[0] == "==":
                return x == y
            if isinstance(x, ok) and isinstance(y, ok) and a[0] == "<":
                return x < y
            return free()
        if op == "[]" and a[1].op == "c":
            x, i = E(a[0]), a[1].a[1]
            if type(x) in (tuple, list, str, bytes) and isinstance(i, int):
                return x[i]
            return free()
        if op == "tuple":
            return tuple(E(x) for x in a)
        if op == "ite":
            g = E(a[0])
            if isinstance(g, bool):
                return E(a[1] if g else a[2])
            return free()
        if op == "not":
            x = E(a[0])
            return not x if isinstance(x, bool) else free()
        if op in ("and", "or"):
            xs = [E(x) for x in a]
            if all(isinstance(x, bool) for x in xs):
                return all(xs) if op == "and" else any(xs)
            return free()
    except (ValueError, TypeError, OverflowError, ZeroDivisionError):
        raise Undef
    return free()


STRMETHODS = {"replace", "split", "strip", "lstrip", "rstrip", "removesuffix", "removeprefix", "partition", "rpartition", "rsplit",
              "upper", "lower", "startswith", "endswith", "zfill", "ljust", "rjust", "title", "capitalize"}
DTMETHODS = {"date", "timestamp", "toordinal"}


def iso_instants(t, v):
    """(given time, instant the text denotes or None) for sampled values of v; None when the text is not determined."""
    out = []
    for d in SAMPLES:
        for x in d:
            try:
                y = ev(t, {v: x, "now": x}, {})
            except Undef:
                return None
            if not isinstance(y, str) or isinstance(y, Free):
                return None
            try:
                z = D.datetime.fromisoformat(y.replace("Z", "+00:00"))
            except ValueError:
                z = None
            if z is not None and z.tzinfo is None:
                z = z.replace(tzinfo=TZ.utc)
            out.append((x, z))
    return out


TIMEOPS = {"now", "date", "utc", "iso", "fromiso", "secs", "delta", "strftime", "op", "le", "unle"}


def separable(a, b):
    """True: some valuation separates the terms (or they are outside the interpreted vocabulary); False: none of the
    sampled ones does."""
    if not (has_op(a, *TIMEOPS) and has_op(b, *TIMEOPS)):
        return True
    h = {}
    hints(a, h)
    hints(b, h)
    seen = 0
    for i in range(24):
        v = valuation(h, i)
        memo = {}
        try:
            x, y = ev(a, v, memo), ev(b, v, memo)
        except Undef:
            continue
        seen += 1
        if x != y:
            return True
    return seen == 0

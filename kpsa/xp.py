"""XPath queries with symbolic parts -> normal form.

`a/b[p]/..` and `a[b[p]]`, `(ancestor::G)[last()]` and `ancestor::G[1]`,
`.//x` and `descendant::x` get the same normal form, so that queries are
compared by what they select and not by how they are written.
"""
import re
from .terms import *
from . import terms as tm


class XPathError(Exception):
    pass


# ------------------------------------------------------------ literals
def literal_of(t):
    """v if t is a complete, always well formed XPath string literal denoting v."""
    vals = set()
    if _lit(t, {}, vals) and len(vals) == 1:
        return vals.pop()
    return None


def _lit(t, f, vals):
    if t.op == "ite":
        fa, fb = dict(f), dict(f)
        add_fact(fa, t.a[0], True)
        add_fact(fb, t.a[0], False)
        return _lit(t.a[1], fa, vals) and _lit(t.a[2], fb, vals)
    if t.op == "c" and isinstance(t.a[1], str):
        m = re.fullmatch(r'"([^"]*)"|\'([^\']*)\'', t.a[1])
        if m:
            vals.add(c(m.group(1) if m.group(1) is not None else m.group(2)))
            return True
        return False
    if t.op != "cat":
        return False
    p = quoted_parts(t.a)
    if len(p) == 3 and is_c(p[0]) and is_c(p[2]):
        for q in ('"', "'"):
            if is_c(p[0], q) and is_c(p[2], q):
                if decide(cmp("in", c(q), p[1]), f) is False or never_contains(p[1], q):
                    vals.add(unstr(p[1]))
                    return True
            elif isinstance(cv(p[0]), str) and isinstance(cv(p[2]), str) and cv(p[0])[:1] == q and cv(p[2])[-1:] == q:
                # text added in front or behind
                inner = cat(c(cv(p[0])[1:]), p[1], c(cv(p[2])[:-1]))
                if decide(cmp("in", c(q), inner), f) is False or never_contains(inner, q):
                    vals.add(unstr(inner))
                    return True
            o = "'" if q == '"' else '"'
            if p[1].op == "join":
                # concat("a", '"', "b")
                sep, x = p[1].a
                if (x.op == "m" and x.a[0] == "split" and x.a[2:] == (c(q),) and is_c(sep)
                        and isinstance(cv(sep), str)
                        and re.fullmatch(re.escape(q) + r"\s*,\s*" + re.escape(o + q + o) + r"\s*,\s*" + re.escape(q),
                                         cv(sep))
                        and isinstance(cv(p[0]), str) and re.fullmatch(r"concat\(\s*" + re.escape(q), cv(p[0]))
                        and isinstance(cv(p[2]), str) and re.fullmatch(re.escape(q) + r"\s*(,\s*(''|\"\")\s*)?\)", cv(p[2]))):
                    if decide(cmp("in", c(q), x.a[1]), f) is True or "," in cv(p[2]):
                        vals.add(unstr(x.a[1]))
                        return True
    return False


def quoted_parts(p):
    """'concat(' + sep.join('"' + x + '"' for x in parts) + ')' as 'concat("' + '"sep"'.join(parts) + '")'."""
    if not (len(p) == 3 and p[1].op == "join" and all(is_c(x) and isinstance(cv(x), str) for x in (p[0], p[2], p[1].a[0]))):
        return p
    sep, x = p[1].a
    if x.op == "comp" and x.a[1] is TRUE and x.a[2].op == "cat" and len(x.a[2].a) == 3:
        pre, iv, post = x.a[2].a
        if unstr(iv) is mk("iv", x.a[0]) and is_c(pre) and is_c(post):
            return (c(cv(p[0]) + cv(pre)), mk("join", c(cv(post) + cv(sep) + cv(pre)), x.a[0]), c(cv(post) + cv(p[2])))
    return p


def never_contains(t, q):
    """Values which cannot contain a quote character: numbers, booleans, base64."""
    t = unstr(t)
    if t.op in ("b64", "int", "len", "ix", "op", "unle", "hex"):
        return True
    if is_bool(t):
        return True
    if t.op == "c":
        return q not in str(t.a[1])
    if t.op == "s":
        return t.a[0].endswith("#int")
    if t.op == "ite":
        return never_contains(t.a[1], q) and never_contains(t.a[2], q)
    if t.op == "cat":
        return all(never_contains(x, q) for x in t.a)
    return False


# ------------------------------------------------------------ tokens
_TOK = re.compile(r"""\s*(?:(?P<dslash>//)|(?P<ddot>\.\.)|(?P<axis>[A-Za-z-]+(?=::))|(?P<dcol>::)
  |(?P<num>\d+(?:\.\d+)?)|(?P<name>[A-Za-z_][\w.-]*(?::[A-Za-z_][\w.-]*)?)
  |(?P<var>\$[A-Za-z_]\w*)|(?P<op><=|>=|!=|[/.@\[\](),|=<>*+-]))""", re.X)


def tokens(parts, variables):
    out = []
    quote = None
    buf = []
    for p in parts:
        if p.op == "c" and isinstance(p.a[1], str):
            txt = p.a[1]
            i = 0
            while i < len(txt):
                if quote:
                    j = txt.find(quote, i)
                    if j < 0:
                        buf.append(c(txt[i:]))
                        i = len(txt)
                    else:
                        buf.append(c(txt[i:j]))
                        raw = any(b.op != "c" and not never_contains(b, quote) for b in buf)
                        lit = cat(*buf)
                        out.append(("lit", mk("rawlit", lit) if raw else lit))
                        quote = None
                        i = j + 1
                    continue
                if txt[i] in "\"'":
                    quote = txt[i]
                    buf = []
                    i += 1
                    continue
                if txt[i].isspace():
                    i += 1
                    continue
                m = _TOK.match(txt, i)
                if not m or m.end() == i:
                    raise XPathError("cannot tokenise %r" % txt[i:])
                k = m.lastgroup
                v = m.group(k)
                if k == "var":
                    if v[1:] in variables:
                        out.append(("lit", variables[v[1:]]))
                    else:
                        raise XPathError("unbound variable " + v)
                else:
                    out.append((k if k in ("num", "name", "axis") else "op", v))
                i = m.end()
        else:
            if quote:
                buf.append(p)
            else:
                v = literal_of(p)
                if v is not None:
                    out.append(("lit", v))
                else:
                    out.append(("hole", p))
    if quote:
        raise XPathError("unterminated literal")
    return out


# ------------------------------------------------------------ parser
class _P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def isop(self, v, k=0):
        x = self.peek(k)
        return x[0] == "op" and x[1] == v

    def eat(self, v):
        if not self.isop(v):
            raise XPathError("expected %r got %r" % (v, self.peek()))
        self.i += 1

    # expressions
    def expr(self):
        return self.orx()

    def orx(self):
        a = [self.andx()]
        while self.peek() == ("name", "or"):
            self.next()
            a.append(self.andx())
        return a[0] if len(a) == 1 else ("or", tuple(a))

    def andx(self):
        a = [self.cmpx()]
        while self.peek() == ("name", "and"):
            self.next()
            a.append(self.cmpx())
        return a[0] if len(a) == 1 else ("and", tuple(a))

    def cmpx(self):
        a = self.union()
        x = self.peek()
        if x[0] == "op" and x[1] in ("=", "!=", "<", ">", "<=", ">="):
            self.next()
            b = self.union()
            return ("cmp", x[1], a, b)
        return a

    def union(self):
        a = [self.add()]
        while self.isop("|"):
            self.next()
            a.append(self.add())
        return a[0] if len(a) == 1 else ("union", tuple(a))

    def add(self):
        a = self.primary()
        while self.isop("+") or self.isop("-"):
            op = self.next()[1]
            a = ("arith", op, a, self.primary())
        return a

    def primary(self):
        k, v = self.peek()
        if k == "lit":
            self.next()
            return ("lit", v)
        if k == "num":
            self.next()
            return ("num", v)
        if k == "hole":
            self.next()
            return ("hole", v)
        if self.isop("("):
            self.next()
            e = self.expr()
            self.eat(")")
            preds = self.preds()
            steps = ()
            if self.isop("/") or self.isop("//"):
                steps = self.relpath_tail()
            if not preds and not steps:
                return e
            return ("filter", e, tuple(preds), steps)
        if k == "name" and self.isop("(", 1) and v not in ("text", "node", "comment"):
            self.next()
            self.next()
            args = []
            while not self.isop(")"):
                args.append(self.expr())
                if self.isop(","):
                    self.next()
            self.eat(")")
            return ("fn", v, tuple(args))
        return ("path", self.path())

    def relpath_tail(self):
        steps = []
        while self.isop("/") or self.isop("//"):
            if self.next()[1] == "//":
                steps.append(("desc", "node()", ()))
            steps.append(self.step())
        return tuple(steps)

    def path(self):
        steps = []
        if self.isop("/"):
            self.next()
            steps.append(("root", "", ()))
            if not self._startstep():
                return tuple(steps)
            steps.append(self.step())
        elif self.isop("//"):
            self.next()
            steps.append(("root", "", ()))
            steps.append(("desc", "node()", ()))
            steps.append(self.step())
        else:
            steps.append(self.step())
        steps += list(self.relpath_tail())
        return tuple(steps)

    def _startstep(self):
        k, v = self.peek()
        return k in ("name", "axis") or (k == "op" and v in (".", "..", "@", "*"))

    def step(self):
        k, v = self.next()
        if k == "op" and v == ".":
            return ("self", "node()", self.preds())
        if k == "op" and v == "..":
            return ("parent", "node()", self.preds())
        axis = "child"
        if k == "op" and v == "@":
            axis = "attr"
            k, v = self.next()
        elif k == "axis":
            axis = {"descendant": "desc1", "attribute": "attr", "descendant-or-self": "desc"}.get(v, v)
            self.eat("::")
            k, v = self.next()
        if k == "name" or (k == "op" and v == "*"):
            test = v
            if self.isop("("):
                self.next()
                self.eat(")")
                test = v + "()"
        elif k == "hole":
            test = ("hole", v)
        else:
            raise XPathError("bad step %r" % ((k, v),))
        return (axis, test, self.preds())

    def preds(self):
        out = []
        while self.isop("["):
            self.next()
            out.append(self.expr())
            self.eat("]")
        return tuple(out)


# ------------------------------------------------------------ normal form
def has(path):
    """Existence predicate; a/b[p] and a[b[p]] are the same existence test."""
    path = tuple(path)
    while len(path) > 1 and all(st[0] in ("child", "desc1") for st in path) and not any(
            _positional(st[2]) for st in path):
        *pre, (a, t, p), last = path
        path = tuple(pre) + ((a, t, tuple(sorted(set(p + (("has", (last,)),)), key=lambda x: tm.show(x)))),)
    return ("has", path)


def nf_preds(preds):
    out = []
    for p in preds:
        out.extend(nf_pred(p))
    return tuple(sorted(set(out), key=lambda x: tm.show(x)))


def nf_pred(p):
    k = p[0]
    if k == "and":
        r = []
        for x in p[1]:
            r.extend(nf_pred(x))
        return r
    if k == "or":
        return [("or", tuple(sorted((tuple(nf_pred(x)) for x in p[1]), key=lambda x: tm.show(x))))]
    if k == "cmp":
        op, a, b = p[1:]
        if b[0] == "path" and a[0] != "path":
            a, b = b, a
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if a[0] == "path":
            v = value_of(b)
            path = a[1]
            last = path[-1]
            pre = path[:-1]
            if last[0] == "attr":
                leaf = ("aeq", last[1], v) if op == "=" else ("acmp", op, last[1], v)
            elif last[1] == "text()" and last[0] == "child":
                leaf = ("teq", v) if op == "=" else ("tcmp", op, v)
            else:
                pre = path
                leaf = ("seq", v) if op == "=" else ("scmp", op, v)
            return attach(pre, leaf)
        return [("cmp", op, nf_any(a), nf_any(b))]
    if k == "fn":
        name, args = p[1], p[2]
        if name == "not" and len(args) == 1:
            inner = nf_pred(args[0])
            return [("not", tuple(sorted(inner, key=lambda x: tm.show(x))))]
        if name == "boolean" and len(args) == 1:
            return nf_pred(args[0])
        if name in ("re:test", "contains", "starts-with"):
            a = args[0]
            rest = tuple(value_of(x) for x in args[1:])
            if a[0] == "path":
                path = a[1]
                last = path[-1]
                if last[0] == "attr":
                    return attach(path[:-1], (name, ("attr", last[1]), rest))
                if last[1] == "text()" and last[0] == "child":
                    return attach(path[:-1], (name, "text", rest))
                return attach(path, (name, "self", rest))
        return [("fn", name, tuple(nf_any(x) for x in args))]
    if k == "path":
        path = nf_path(p[1])
        if len(path) == 1 and path[0][0] == "attr":
            return [("hasattr", path[0][1])]
        return [has(path)]
    if k == "num":
        return [("pos", p[1])]
    if k == "hole":
        return [("unk", p[1])]
    return [("unk", tm.show(p))]


def nf_any(x):
    if x[0] == "path":
        return ("path", nf_path(x[1]))
    if x[0] in ("lit", "hole", "num"):
        return value_of(x)
    if x[0] == "fn":
        return ("fn", x[1], tuple(nf_any(y) for y in x[2]))
    return ("unk", tm.show(x))


def value_of(x):
    if x[0] == "lit":
        return x[1]
    if x[0] == "hole":
        return mk("hole", x[1])
    if x[0] == "num":
        return c(x[1])
    return ("e", nf_any(x))


def attach(pre, leaf):
    """leaf predicate evaluated at the node reached by the relative path pre."""
    if not pre or (len(pre) == 1 and pre[0][0] == "self" and not pre[0][2]):
        return [leaf]
    path = nf_path(pre)
    if not path:
        return [leaf]
    ax, test, preds = path[-1]
    path = path[:-1] + ((ax, test, tuple(sorted(set(preds + (leaf,)), key=lambda x: tm.show(x)))),)
    return [has(path)]


def nf_path(steps):
    out = []
    for ax, test, preds in steps:
        ps = nf_preds(preds)
        if ax == "self" and test == "node()":
            if not ps:
                continue
            if out and out[-1][0] not in ("root",):
                out[-1] = (out[-1][0], out[-1][1], tuple(sorted(set(out[-1][2] + ps), key=lambda x: tm.show(x))))
                continue
            out.append((ax, test, ps))
            continue
        if ax == "parent" and test == "node()" and out and out[-1][0] == "child":
            # x/child[..]/..  ==  x[child[..]]
            ch = out.pop()
            pred = has((ch,))
            if out and out[-1][0] not in ("root", "attr") and not _positional(ch[2]):
                a, t, p = out[-1]
                if a == "desc" and t == "node()":
                    out.append(("self", "node()", (pred,)))
                    # //x/..  : any node having a child x
                    out[-2:] = [("desc", "node()", tuple(sorted(set(p + (pred,)), key=lambda x: tm.show(x))))]
                else:
                    out[-1] = (a, t, tuple(sorted(set(p + (pred,)), key=lambda x: tm.show(x))))
            elif not out:
                out.append(("self", "node()", (pred,)))
            else:
                out.append(ch)
                out.append(("parent", "node()", ()))
            if ps:
                a, t, p = out[-1]
                out[-1] = (a, t, tuple(sorted(set(p + ps), key=lambda x: tm.show(x))))
            continue
        if ax == "parent" and test == "node()" and out and out[-1][0] == "attr":
            at = out.pop()
            pred = ("hasattr", at[1])
            if out:
                a, t, p = out[-1]
                out[-1] = (a, t, tuple(sorted(set(p + (pred,)), key=lambda x: tm.show(x))))
            else:
                out.append(("self", "node()", (pred,)))
            continue
        if ax == "child" and out and out[-1] == ("desc", "node()", ()):
            out[-1] = ("desc1", test, ps)
            continue
        out.append((ax, test, ps))
    return tuple(out)


def _positional(preds):
    return any(p[0] in ("pos", "unk") or (p[0] == "fn" and p[1] in ("last", "position")) for p in preds)


def nf_expr(e):
    if e[0] == "path":
        return nf_path(e[1])
    if e[0] == "filter":
        inner = nf_expr(e[1])
        preds = e[2]
        last = inner[-1] if inner and isinstance(inner[-1], tuple) else None
        ok = False
        if len(preds) == 1 and last is not None and last[0] in ("ancestor", "ancestor-or-self"):
            if preds[0] == ("fn", "last", ()):
                # document order: the last ancestor is the nearest one
                inner = inner[:-1] + ((last[0], last[1], last[2] + (("pos", "1"),)),)
                ok = True
        if not preds:
            ok = True
        if not ok:
            inner = inner + (("filter", "", nf_preds(preds)),)
        if e[3]:
            inner = inner + nf_path(e[3])
        return inner
    if e[0] == "union":
        return (("union", tuple(sorted((nf_expr(x) for x in e[1]), key=lambda x: tm.show(x))), ()),)
    return (("expr", nf_any(e), ()),)


def parse(q, variables=None):
    """q: query term (string).  Returns the normal form (nested tuples)."""
    parts = q.a if q.op == "cat" else (q,)
    toks = tokens(parts, variables or {})
    p = _P(toks)
    e = p.expr()
    if p.i != len(p.t):
        raise XPathError("trailing %r" % (p.t[p.i:],))
    return nf_expr(e)


def parse_find(path):
    """ElementPath (find/findall) strings."""
    return parse(path if isinstance(path, T) else c(path))


def join(base, rel):
    """normal form of rel evaluated at the nodes of base."""
    if rel and rel[0][0] == "root":
        return rel
    if not base:
        return rel
    r = list(base)
    for st in rel:
        if st[0] == "parent" and st[1] == "node()" and r and r[-1][0] == "child" and len(r) > 1 \
                and r[-2][0] not in ("root", "attr") and not _positional(r[-1][2]):
            ch = r.pop()
            a, t, p = r[-1]
            r[-1] = (a, t, tuple(sorted(set(p + (("has", (ch,)),) + st[2]), key=lambda x: tm.show(x))))
        else:
            r.append(st)
    return tuple(r)

"""Meaning of the declared file format.

The `construct` declarations of the package are data for the analysis: the walker below gives every declaration the
meaning the construct library documents for it, once for parsing (which bytes are read where, what is compared with
what, what every field's value is in terms of the bytes read and the call's arguments) and once for building (which
bytes are written).  Functions and adapters used inside the declaration are summarised by the interpreter.

Values are terms over
  raw(stream, segment, offset, size)   bytes at a fixed position, or the rest of a stream (size "*")
  hv(dict, id)                         value of the item with this numeric or textual id in a header-like map
  arg symbols $password, $keyfile, $transformed_key, $decrypt
"""
from .terms import *
from .norm import norm

INTS = {"Byte": (1, False), "Int8ul": (1, False), "Int8ub": (1, False), "Int16ul": (2, False), "Int32ul": (4, False), "Int64ul": (8, False),
        "Int8sl": (1, True), "Int16sl": (2, True), "Int32sl": (4, True), "Int64sl": (8, True), "Short": (2, "be"), "Int": (4, "be"),
        "Long": (8, "be"), "Int16ub": (2, "be"), "Int32ub": (4, "be"), "Int64ub": (8, "be"), "Int16un": (2, False), "Int32un": (4, False),
        "Int24ul": (3, False), "Int24ub": (3, "be"), "Int64un": (8, False)}


class FormatError(Exception):
    """The declaration uses something the walker has no meaning for."""


class Ev:
    def __init__(self, kind, path, cond, **kw):
        self.kind, self.path, self.cond = kind, path, cond
        self.__dict__.update(kw)


class Stream:
    def __init__(self, name):
        self.name, self.seg, self.off = name, 0, 0

    def take(self, n):
        t = mk("raw", self.name, self.seg, self.off, n)
        if n == "*":
            self.seg += 1
            self.off = 0
        else:
            self.off += n
        return t

    def gap(self):
        """Something of variable size was consumed."""
        if self.off or True:
            self.seg += 1
            self.off = 0


def xname(t):
    """construct name of a term, or None"""
    if t.op == "x" and t.a[0].startswith("construct."):
        return t.a[0].rpartition(".")[2]
    return None


def asrec(t):
    """The fields of a Container, or None."""
    if t.op == "container":
        return dict(t.a[0])
    if t.op == "dict" and all(k.op == "c" for k, _ in t.a[0]):
        return {cv(k): v for k, v in t.a[0]}
    return None


def ccall(t):
    """(name, args, kw) of a call of a construct class."""
    if t.op == "call":
        n = xname(t.a[0])
        if n:
            return n, t.a[1], dict(t.a[2])
    return None


THIS = ("construct.this", "construct.expr.this", "construct.core.this")


def isthis(n):
    for p in THIS:
        if n == p or n.startswith(p + "."):
            return p
    return None


class Format:
    def __init__(self, eng, version, decrypt=TRUE):
        self.E, self.version, self.decrypt = eng, version, decrypt
        self.recs = {}
        self.n = 0
        self.events = []
        self.cond = TRUE
        self.facts = {}
        self.mappings = {}
        self.dds = {}
        self.repeats = {}
        self.layouts = {}
        self.forced = None
        self.fixed = {}         # (label, id) -> value of a header item in this scenario
        self.keys = {}          # name given to a computed value: the value
        self.results = []       # (function or adapter, argument, summary) of everything called

    # ------------------------------------------------------------ contexts
    def new(self, parent, fields=None, index=None):
        self.n += 1
        t = s("ctx%d#ctx" % self.n)
        self.recs[t] = {"_": parent, **(fields or {})}
        if index is not None:
            self.recs[t]["_index"] = index
        elif parent is not None and "_index" in self.recs.get(parent, {}):
            self.recs[t]["_index"] = self.recs[parent]["_index"]
        return t

    def emit(self, kind, path, **kw):
        e = Ev(kind, path, self.cond, **kw)
        self.events.append(e)
        return e

    # ------------------------------------------------------------ resolving context expressions
    def R(self, t):
        memo = {}

        def go(x):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if not isinstance(x, T) or not x.a or x.op in ("c", "s", "x", "fn", "raw", "hv"):
                return x
            r = memo.get(x)
            if r is not None:
                return r
            if x.op == "call" and len(x.a[1]) == 1 and not x.a[2] and self.is_this(x.a[0]):
                r = go(self.at(x.a[0], x.a[1][0]))
            else:
                na = tuple(go(y) for y in x.a)
                y = x if na == x.a else rebuild(x.op, na)
                r = self.step(y)
            memo[x] = r
            return r
        return go(t)

    def step(self, x):
        if x.op == "." or (x.op == "[]" and is_c(x.a[1]) and isinstance(cv(x.a[1]), str)):
            k = x.a[1] if x.op == "." else cv(x.a[1])
            return self.attr(x.a[0], k, x)
        if x.op == "m" and x.a[0] == "get" and len(x.a) >= 3 and is_c(x.a[2]):
            return self.attr(x.a[1], cv(x.a[2]), x)
        if x.op == "cmp" and x.a[0] == "==":
            for a, b in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                if a.op == "mapv" and b.op == "c":
                    m = self.mappings[a]
                    if cv(b) in m:
                        return cmp("==", a.a[0], c(m[cv(b)]))
                    return FALSE
        if x.op == "truthy" and x.a[0].op == "mapv":
            return x
        if x.op == "call" and xname(x.a[0]) == "len_" and len(x.a[1]) == 1:
            return mk("len", x.a[1][0])
        if x.op == "cmp" and x.a[0] == "==" and x.a[1].op == "len" and is_c(x.a[2], 0):
            return neg(truthy(x.a[1].a[0]))
        if x.op == "nn":
            return x.a[0]
        return x

    def attr(self, b, k, x):
        if b.op == "ite":
            return ite(b.a[0], self.attr(b.a[1], k, mk(".", b.a[1], k)), self.attr(b.a[2], k, mk(".", b.a[2], k)))
        r = self.recs.get(b)
        if r is not None:
            if k in r and r[k] is not None:
                return r[k]
            return mk(".", b, k)
        d = asrec(b)
        if d is not None and k in d:
            return d[k]
        if b.op == "dd":
            return self.dd_item(b, k)
        if b.op == "stored" and (b, k) in self.recs:
            return self.recs[(b, k)]
        return mk(".", b, k) if x.op != "." else x

    def is_this(self, t):
        return any(x.op == "x" and isthis(x.a[0]) for x in subterms(t))

    def at(self, expr, ctx):
        m = {}
        for x in subterms(expr):
            if x.op == "x" and isthis(x.a[0]):
                t = ctx
                for k in x.a[0][len(isthis(x.a[0])):].split("."):
                    if k:
                        t = mk(".", t, k)
                m[x] = t
        return subst(expr, m)

    def evaluate(self, expr, ctx, *more):
        """A construct expression: constant, `this` expression or function of the context."""
        if self.is_this(expr) and expr.op not in ("fn",):
            return self.R(self.at(expr, ctx))
        if expr.op in ("fn", "bound", "cls", "obj", "ref", "partial"):
            return self.call(expr, [ctx] + list(more))
        return expr

    def interp(self):
        ip = self.E.new()
        for name in ("new",):
            try:
                cid = self.E.base.class_by_name("python_Twofish")
            except Exception:
                cid = None
            if cid is not None:
                f = self.E.base.lookup(cid, name)
                if f:
                    ip.opaque[f[0]] = twofish_model
                    g = f[0]
                    while g.op in ("classmethod", "static", "bound"):
                        g = g.a[0]
                        ip.opaque[g] = twofish_model
                ip.opaque[mk("cls", cid)] = twofish_model
        return ip

    def call(self, f, args, kw=()):
        ip = self.interp()
        r = self.E.call(ip, f, args, kw)
        self.last = r
        self.results.append((f, args[0] if args else None, r))
        return self.R(noexc(r.value))

    # ------------------------------------------------------------ adapters
    def method(self, o, name):
        cid = self.E.base.class_by_name(o.a[0])
        return cid, self.E.base.lookup(cid, name)

    def adapt(self, o, name, obj, ctx):
        cid, f = self.method(o, name)
        if not f or f[0].op != "fn":
            raise FormatError("%s has no %s" % (o.a[0], name))
        ip = self.interp()
        ip.nref += 1
        ip.base_heap[ip.nref] = ("inst", cid, tuple(o.a[1]))
        res = self.E.call(ip, mk("bound", f[0], mk("ref", ip.nref)), [obj, ctx, s("$path#str")])
        self.results.append((mk("named", o.a[0].partition("@")[0] + "." + name, f[0]), obj, res))
        return res

    # ------------------------------------------------------------ parsing
    def parse(self, t, ctx, st, path, name=None):
        """Returns (value, layout)."""
        if t.op == "named":
            return self.parse(t.a[1], ctx, st, path + ((t.a[0] if isinstance(t.a[0], str) else cv(t.a[0])),), t.a[0])
        if t.op == "op" and t.a[0] == "*":
            return self.parse(t.a[1], ctx, st, path)
        if t.op == "obj":
            return self.parse_adapter(t, ctx, st, path)
        n = xname(t)
        if n in INTS:
            size, k = INTS[n]
            r = st.take(size)
            return mk("beint" if k == "be" else "sint" if k is True else "uint", r), ("int", size, "be" if k == "be" else "s" if k else "u")
        if n == "GreedyBytes":
            return st.take("*"), ("greedy",)
        if n == "Flag":
            return mk("flag", st.take(1)), ("flag",)
        if n == "Tell":
            self.n += 1
            v = mk("pos", st.name, st.seg, st.off)
            return v, ("none",)
        if n in ("Pass", "Terminated"):
            return NONE, ("none",)
        cc = ccall(t)
        if cc is None:
            raise FormatError("no meaning for " + pretty(t)[:80])
        nm, a, kw = cc
        f = getattr(self, "p_" + nm, None)
        if f is None:
            raise FormatError("no meaning for construct.%s" % nm)
        return f(a, kw, ctx, st, path)

    def p_Struct(self, a, kw, ctx, st, path):
        c2 = self.new(ctx)
        lay = []
        for x in tuple(a) + tuple(mk("named", k, v) for k, v in kw.items()):
            v, l = self.parse(x, c2, st, path)
            if x.op == "named":
                nm = x.a[0] if isinstance(x.a[0], str) else cv(x.a[0])
                self.recs[c2][nm] = v
            if l != ("none",):
                lay.append(l)
        return c2, ("struct", flat(lay))

    def p_Bytes(self, a, kw, ctx, st, path):
        n = self.evaluate(a[0] if a else kw["length"], ctx)
        if n.op != "c":
            st.gap()
            return mk("raw", st.name, st.seg, st.off, "?"), ("bytes", n)
        return st.take(cv(n)), ("bytes", cv(n))

    def p_Padding(self, a, kw, ctx, st, path):
        v, l = self.p_Bytes(a, {"length": kw.get("length")}, ctx, st, path)
        return NONE, l

    def p_Const(self, a, kw, ctx, st, path):
        if len(a) == 1 and is_c(a[0]) and isinstance(cv(a[0]), bytes):
            v = st.take(len(cv(a[0])))
            l = ("bytes", len(cv(a[0])))
        else:
            v, l = self.parse(a[1], ctx, st, path)
        self.emit("check", path, test=cmp("==", unwrap(v), a[0]), exc="construct.ConstError")
        return a[0], l

    def p_GreedyString(self, a, kw, ctx, st, path):
        return mk("dec", st.take("*")), ("str", cv(a[0] if a else kw["encoding"]))

    def p_Check(self, a, kw, ctx, st, path):
        self.emit("check", path, test=truthy(self.evaluate(a[0], ctx)), exc="construct.CheckError")
        return NONE, ("none",)

    def p_Computed(self, a, kw, ctx, st, path):
        v = self.evaluate(a[0], ctx)
        e = self.emit("computed", path, value=v)
        if v.op in ("c", "s", "raw", "hv") or v in self.recs:
            return v, ("none",)
        y = s("K:%s#bytes" % "/".join(path))
        e.sym = y
        self.keys[y] = v
        return y, ("none",)

    def p_Checksum(self, a, kw, ctx, st, path):
        field, hf, bf = a[:3]
        v, l = self.parse(field, ctx, st, path)
        want = self.evaluate(hf, self.evaluate(bf, ctx)) if hf.op != "fn" else self.call(hf, [self.evaluate(bf, ctx)])
        self.emit("check", path, test=cmp("==", v, want), read=v, want=want, exc="construct.ChecksumError")
        return v, l

    def p_Rebuild(self, a, kw, ctx, st, path):
        return self.parse(a[0] if a else kw["subcon"], ctx, st, path)

    p_Default = p_Hex = p_HexDump = p_Rebuild

    def p_Optional(self, a, kw, ctx, st, path):
        """Whatever is refused inside is not refused outside."""
        n0 = len(self.events)
        v, l = self.parse(a[0] if a else kw["subcon"], ctx, st, path)
        self.events[n0:] = [e for e in self.events[n0:] if e.kind != "check"]
        self.n += 1
        st.gap()
        return ite(s("present%d#bool" % self.n), v, NONE), ("opt", l)

    def p_OneOf(self, a, kw, ctx, st, path):
        v, l = self.parse(a[0] if a else kw["subcon"], ctx, st, path)
        vs = a[1] if len(a) > 1 else kw["valids"]
        self.emit("check", path, test=cmp("in", unwrap(v), vs), exc="construct.ValidationError")
        return v, l

    def p_ExprValidator(self, a, kw, ctx, st, path):
        v, l = self.parse(a[0] if a else kw["subcon"], ctx, st, path)
        t = self.call(a[1] if len(a) > 1 else kw["validator"], [v, ctx])
        self.emit("check", path, test=truthy(t), exc="construct.ValidationError")
        return v, l

    def p_FocusedSeq(self, a, kw, ctx, st, path):
        nm = cv(a[0])
        v, l = self.p_Struct(a[1:], kw, ctx, st, path)
        return self.recs[v].get(nm, NONE), l

    def p_BytesInteger(self, a, kw, ctx, st, path):
        n = a[0] if a else kw["length"]
        sg = a[1] if len(a) > 1 else kw.get("signed", FALSE)
        sw = a[2] if len(a) > 2 else kw.get("swapped", FALSE)
        if n.op != "c" or sg.op != "c" or sw.op != "c" or (cv(sg) and not cv(sw)):
            raise FormatError("BytesInteger")
        r = st.take(cv(n))
        k = "be" if not cv(sw) else "s" if cv(sg) else "u"
        return mk({"be": "beint", "s": "sint", "u": "uint"}[k], r), ("int", cv(n), k)

    def p_Pointer(self, a, kw, ctx, st, path):
        off = self.evaluate(a[0], ctx)
        if off.op != "pos" or off.a[0] != st.name:
            raise FormatError("pointer to " + pretty(off)[:60])
        s2 = Stream(st.name)
        s2.seg, s2.off = off.a[1], off.a[2]
        v, l = self.parse(a[1], ctx, s2, path)
        return v, ("none",)

    def p_Peek(self, a, kw, ctx, st, path):
        s2 = Stream(st.name)
        s2.seg, s2.off = st.seg, st.off
        v, l = self.parse(a[0], ctx, s2, path)
        return v, ("none",)

    def p_RawCopy(self, a, kw, ctx, st, path):
        s0 = (st.seg, st.off)
        v, l = self.parse(a[0], ctx, st, path)
        c2 = self.new(None, {"value": v, "data": mk("span", st.name, s0[0], s0[1], st.seg, st.off)})
        return c2, l

    def p_If(self, a, kw, ctx, st, path):
        g = truthy(self.evaluate(a[0], ctx))
        return self.branch(g, a[1], ext("construct.Pass"), ctx, st, path)

    def p_IfThenElse(self, a, kw, ctx, st, path):
        g = truthy(self.evaluate(a[0], ctx))
        return self.branch(g, a[1], a[2], ctx, st, path)

    def branch(self, g, x, y, ctx, st, path):
        g = simp(g, self.facts)
        if g.op == "c":
            return self.parse(x if cv(g) else y, ctx, st, path)
        seg, off = st.seg, st.off
        old, oldf = self.cond, self.facts
        self.cond = conj(old, g)
        self.facts = dict(oldf)
        add_fact(self.facts, g, True)
        v1, l1 = self.parse(x, ctx, st, path)
        e1 = (st.seg, st.off)
        st.seg, st.off = seg, off
        self.cond = conj(old, neg(g))
        self.facts = dict(oldf)
        add_fact(self.facts, g, False)
        v2, l2 = self.parse(y, ctx, st, path)
        if (st.seg, st.off) != e1:
            st.seg, st.off = max(st.seg, e1[0]) + 1, 0
        self.cond, self.facts = old, oldf
        return ite(g, v1, v2), (l1 if l1 == l2 else ("if", g, l1, l2))

    def p_Switch(self, a, kw, ctx, st, path):
        key = simp(self.evaluate(a[0], ctx), self.facts)
        cases = a[1] if len(a) > 1 else kw["cases"]
        dflt = a[2] if len(a) > 2 else kw.get("default", ext("construct.Pass"))
        if cases.op != "dict":
            raise FormatError("switch over " + pretty(cases)[:60])
        alts = list(cases.a[0])
        if key.op == "c":
            for k, v in alts:
                if k is key:
                    return self.parse(v, ctx, st, path)
            return self.parse(dflt, ctx, st, path)
        m = self.mappings.get(key)
        lay = []
        ends = set()
        seg, off = st.seg, st.off
        old, oldf = self.cond, self.facts
        val = None
        rest = []
        conds = []
        for k, x in alts:
            if m is not None and cv(k) not in m:
                continue          # a case that is never selected
            g = simp(self.R(cmp("==", key, k)), oldf)
            if g is FALSE:
                continue
            if g is TRUE:
                return self.parse(x, ctx, st, path)
            rk = c(m[cv(k)]) if m is not None else k
            st.seg, st.off = seg, off
            self.cond = conj(old, g)
            self.facts = dict(oldf)
            add_fact(self.facts, g, True)
            v, l = self.parse(x, ctx, st, path)
            lay.append((rk, l))
            ends.add((st.seg, st.off))
            rest.append((g, v))
            conds.append(g)
        st.seg, st.off = seg, off
        self.cond = conj(old, *[neg(g) for g in conds])
        self.facts = dict(oldf)
        for g in conds:
            add_fact(self.facts, g, False)
        val, dl = self.parse(dflt, ctx, st, path)
        ends.add((st.seg, st.off))
        if len(ends) > 1:
            st.seg, st.off = max(ends)[0] + 1, 0
        self.cond, self.facts = old, oldf
        for g, v in reversed(rest):
            val = ite(g, v, val)
        sel = unwrap(key.a[0]) if m is not None else unwrap(key)
        return val, ("switch", sel, tuple(sorted(lay, key=lambda z: show(z[0]))), dl)

    def p_Mapping(self, a, kw, ctx, st, path):
        v, l = self.parse(a[0], ctx, st, path)
        m = {cv(k): cv(x) for k, x in a[1].a[0]}
        if self.forced is not None and self.forced[0] == st.name and self.forced[1] in m:
            return c(self.forced[1]), ("map", l, ())
        t = mk("mapv", unwrap(v), tuple(sorted(m.items(), key=repr)))
        self.mappings[t] = m
        return t, ("map", l, tuple(sorted(m.items(), key=lambda z: repr(z[1]))))

    p_Enum = p_Mapping

    def p_Prefixed(self, a, kw, ctx, st, path):
        _, ll = self.parse(a[0], ctx, st, path)
        sub = Stream((st.name, st.seg, st.off, "pref"))
        v, l = self.parse(a[1], ctx, sub, path)
        st.gap()
        return v, ("pref", ll, l)

    def p_RepeatUntil(self, a, kw, ctx, st, path):
        st.gap()
        self.n += 1
        sub = Stream((st.name, st.seg, "item"))
        idx = s("i#int")
        old = self.recs[ctx].get("_index")
        self.recs[ctx]["_index"] = idx
        n0 = len(self.events)
        v, l = self.parse(a[1], ctx, sub, path)
        if old is None:
            self.recs[ctx].pop("_index", None)
        else:
            self.recs[ctx]["_index"] = old
        for e in self.events[n0:]:
            e.repeat = True
        lst = mk("items", v)
        end = a[0]
        endt = self.call(end, [v, lst, ctx]) if end.op == "fn" else self.evaluate(end, v)
        st.gap()
        self.repeats[lst] = (v, truthy(endt), l)
        self.emit("repeat", path, item=v, until=truthy(endt), layout=l)
        return lst, ("repeat", truthy(endt), l)

    def p_BitsSwapped(self, a, kw, ctx, st, path):
        cc = ccall(a[0])
        if cc and cc[0] == "BitStruct":
            pos = 0
            c2 = self.new(ctx)
            for x in cc[1]:
                nm = None
                if x.op == "named":
                    nm, x = (x.a[0] if isinstance(x.a[0], str) else cv(x.a[0])), x.a[1]
                n = xname(x)
                y = ccall(x)
                if n in ("Flag", "Bit"):
                    w = 1
                elif n == "Nibble":
                    w = 4
                elif n == "Octet":
                    w = 8
                elif y and y[0] in ("Padding", "BitsInteger") and is_c(y[1][0]):
                    w = cv(y[1][0])
                else:
                    raise FormatError("bits " + pretty(x)[:60])
                if nm:
                    self.recs[c2][nm] = mk("bit", st.name, pos, w)
                pos += w
            if pos % 8:
                raise FormatError("bit field of %d bits" % pos)
            st.take(pos // 8)
            return c2, ("bits", pos // 8, tuple((n, self.recs[c2][n].a[1:]) for n in sorted(self.recs[c2]) if self.recs[c2][n] is not None and n != "_" and self.recs[c2][n].op == "bit"))
        raise FormatError("BitsSwapped")

    # ------------------------------------------------------------ adapters
    def parse_adapter(self, o, ctx, st, path):
        fl = dict(o.a[1])
        sub = fl.get("subcon")
        if sub is None:
            raise FormatError("adapter %s without subcon" % o.a[0])
        v, l = self.parse(sub, ctx, st, path)
        # maps of items
        key = next((cv(x) for k, x in fl.items() if is_c(x) and isinstance(cv(x), str) and v.op == "items" and
                    self.recs.get(v.a[0], {}).get(cv(x)) is not None), None)
        if key is not None:
            rec = self.recs[v.a[0]]
            t = mk("dd", ddlabel(st), key)
            self.dds[t] = (ccall(sub)[1][1], key, self.mappings.get(rec[key]), o, ctx)
            self.emit("dict", path, dd=t, adapter=o)
            return t, ("dict", l)
        res = self.adapt(o, "_decode", v, ctx)
        val = self.R(noexc(res.value))
        e = self.emit("decode", path, adapter=o.a[0], res=res, input=v, value=val, obj=o, ctx=ctx)
        m = reparse(val)
        if m is not None:
            # Reparsed: a new parse with the context as arguments
            sub2, data, kctx = m
            top = self.new(None)
            if kctx is not None:
                for k, x in self.recs[kctx].items():
                    self.recs[top][k] = x
            e.kind = "reparse"
            st2 = Stream(("payload", len([x for x in self.events if x.kind == "reparse"])))
            e.stream = st2.name
            v2, l2 = self.parse(sub2, top, st2, ())
            for x in self.events[self.events.index(e) + 1:]:
                x.path = x.path if hasattr(x, "_done") else x.path
                x.inner = True
            return v2, ("transform", "reparse", l, l2)
        return val, ("transform", o.a[0], l)

    def dd_item(self, dd, k):
        """The item with this key: its declaration read again with the id fixed."""
        item, key, m, o, ctx = self.dds[dd]
        i = m.get(k, k) if m is not None else k
        t = mk("it", dd.a[0], i)
        if t not in self.recs:
            ev, self.events, old, oldc, oldf = self.events, [], self.forced, self.cond, self.facts
            st = Stream(("it", dd.a[0], i))
            self.forced = (st.name, k) if m is not None else None
            self.facts = dict(oldf)
            try:
                v, l = self.parse(item, ctx, st, ())
            finally:
                self.events, self.forced, self.cond, self.facts = ev, old, oldc, oldf
            rec = {}
            for f, x in self.recs[v].items():
                if f in ("_", "_index") or x is None:
                    continue
                rec[f] = self.canon(x, dd.a[0], i)
            self.recs[t] = rec
        return t

    def canon(self, x, lbl, i):
        hv = mk("hv", lbl, i)
        fx = self.fixed.get((lbl, i))
        if fx is not None:
            if x.op == "mapv":
                for k, v in x.a[1]:
                    if v == fx:
                        return c(k)
                return mk("rejected", lbl, i)
            if x.op == "bit" and isinstance(fx, int):
                return c(bool((fx >> x.a[1]) & ((1 << x.a[2]) - 1)))
            if x.op in ("ite", "uint", "sint", "beint", "flag", "dec", "raw") :
                return c(fx)
        if x in self.recs:
            r = self.recs[x]
            n = mk("sub", lbl, i)
            self.recs[n] = {k: (self.canon(y, lbl, i) if isinstance(y, T) and y.op != "dd" else y) for k, y in r.items() if k not in ("_", "_index") and y is not None}
            return n
        if x.op == "mapv":
            t = mk("mapv", hv, x.a[1])
            self.mappings[t] = self.mappings[x]
            return t
        if x.op == "bit":
            return mk("bit", hv, x.a[1], x.a[2])
        if x.op == "ite":
            return hv
        if x.op in ("uint", "sint", "beint", "flag", "dec", "raw"):
            return hv
        return x


def root(n):
    while isinstance(n, tuple) and n and isinstance(n[0], tuple):
        n = n[0]
    if isinstance(n, tuple) and isinstance(n[0], str) and n[0] in ("it", "payload"):
        return n
    if isinstance(n, tuple):
        return n[0]
    return n


def ddlabel(st):
    r = root(st.name)
    if isinstance(r, tuple) and r[0] == "it":
        return "%s.%s" % (r[1], r[2])
    if isinstance(r, tuple):
        return "inner"
    depth = 0
    n = st.name
    while isinstance(n, tuple):
        depth += "item" in n[1:]
        n = n[0]
    return "hdr" if depth == 0 else "hdr.sub"


def unwrap(t):
    return t


def flat(ls):
    out = []
    for l in ls:
        if l[0] == "struct":
            out.extend(l[1])
        elif l[0] == "none":
            continue
        else:
            out.append(l)
    return tuple(out)


def noexc(t):
    """The value when no handled exception occurs."""
    f = {x: False for x in subterms(t) if x.op == "exc"}
    return simp(t, f)


def reparse(t):
    if t.op == "m" and t.a[0] in ("parse", "build") and len(t.a) >= 3:
        kw = None
        for x in t.a[3:]:
            if x.op == "kw":
                for k, v in x.a[0]:
                    if k == "**":
                        kw = v
        return t.a[1], t.a[2], kw
    return None


def twofish_model(ip, clo, args, kw, n):
    env, bad = ip.bind(clo, args, kw, n) if clo is not None else ({}, None)
    names = ("key", "mode", "IV")
    t = mk("call", ext("twofish.new"), tuple(ip.freeze(env.get(k, NONE)) for k in names), ())
    ip.emit("new", t, n)
    return t


# -------------------------------------------------------------------- building
class Out:
    """Bytes written so far, as terms."""

    def __init__(self, name):
        self.name, self.parts = name, []

    def put(self, t, size=None):
        self.parts.append((t, size))

    def bytes(self):
        return cat(*[p for p, _ in self.parts]) if self.parts else c(b"")


class Builder:
    """Meaning of building, over the values a parse produced."""

    def __init__(self, f):
        self.f = f
        self.events = []
        self.each = {}

    def emit(self, kind, path, **kw):
        e = Ev(kind, path, self.f.cond, **kw)
        self.events.append(e)
        return e

    def get(self, obj, k):
        return self.f.R(self.f.attr(obj, k, mk(".", obj, k)))

    def has(self, obj, k):
        r = self.f.recs.get(obj)
        if r is not None:
            return r.get(k) is not None
        d = asrec(obj)
        if d is not None:
            return k in d
        return None

    def build(self, t, obj, ctx, out, path):
        f = self.f
        if t.op == "named":
            return self.build(t.a[1], obj, ctx, out, path + ((t.a[0] if isinstance(t.a[0], str) else cv(t.a[0])),))
        if t.op == "op" and t.a[0] == "*":
            return self.build(t.a[1], obj, ctx, out, path)
        if t.op == "obj":
            return self.adapter(t, obj, ctx, out, path)
        n = xname(t)
        if n in INTS:
            size, k = INTS[n]
            out.put(mk("be" if k == "be" else "les" if k is True else "le", size, obj), size)
            return obj
        if n == "GreedyBytes":
            out.put(obj)
            return obj
        if n == "Flag":
            out.put(mk("flagbyte", obj), 1)
            return obj
        if n == "Tell":
            return mk("opos", out.name, len(out.parts))
        if n in ("Pass", "Terminated"):
            return NONE
        cc = ccall(t)
        if cc is None:
            raise FormatError("no meaning for " + pretty(t)[:80])
        nm, a, kw = cc
        g = getattr(self, "b_" + nm, None)
        if g is None:
            raise FormatError("no meaning for building construct.%s" % nm)
        return g(a, kw, obj, ctx, out, path)

    def b_Struct(self, a, kw, obj, ctx, out, path):
        f = self.f
        c2 = f.new(ctx)
        subs = tuple(a) + tuple(mk("named", k, v) for k, v in kw.items())
        names = [nm_(x) for x in subs if x.op == "named"]
        old = f.recs.get(obj, {})
        for k in set(names) | set(x for x in old if x not in ("_", "_index")):
            f.recs[c2][k] = mk("stale", "/".join(path), k)
        for x in subs:
            nm = nm_(x) if x.op == "named" else None
            o = self.get(obj, nm) if nm else NONE
            if nm:
                f.recs[c2][nm] = o if o in f.recs else mk("stale", "/".join(path), nm)
            r = self.build(x, o, c2, out, path)
            if nm:
                f.recs[c2][nm] = r
        return c2

    def b_Bytes(self, a, kw, obj, ctx, out, path):
        n = self.f.evaluate(a[0] if a else kw["length"], ctx)
        out.put(obj, cv(n) if n.op == "c" else None)
        return obj

    def b_Padding(self, a, kw, obj, ctx, out, path):
        n = self.f.evaluate(a[0] if a else kw["length"], ctx)
        if n.op != "c":
            raise FormatError("padding of " + pretty(n)[:40])
        pat = a[1] if len(a) > 1 else kw.get("pattern", c(b"\0"))
        out.put(c(cv(pat) * cv(n)), cv(n))
        self.emit("filler", path, pattern=cv(pat))
        return NONE

    def b_Const(self, a, kw, obj, ctx, out, path):
        if len(a) == 1:
            out.put(a[0], len(cv(a[0])))
            return a[0]
        return self.build(a[1], a[0], ctx, out, path)

    def b_GreedyString(self, a, kw, obj, ctx, out, path):
        out.put(mk("enc", obj))
        return obj

    def b_Check(self, a, kw, obj, ctx, out, path):
        self.emit("check", path, test=truthy(self.f.evaluate(a[0], ctx)))
        return NONE

    def b_Computed(self, a, kw, obj, ctx, out, path):
        f = self.f
        v = f.evaluate(a[0], ctx)
        e = self.emit("computed", path, value=v)
        if v.op in ("c", "s", "raw", "hv") or v in f.recs:
            return v
        for y, k in f.keys.items():
            if k is v:
                e.sym = y
                return y
        y = s("B:%s#bytes" % "/".join(path))
        e.sym = y
        f.keys[y] = v
        return y

    def b_Checksum(self, a, kw, obj, ctx, out, path):
        f = self.f
        field, hf, bf = a[:3]
        x = f.evaluate(bf, ctx)
        want = f.evaluate(hf, x) if hf.op != "fn" else f.call(hf, [x])
        self.build(field, want, ctx, out, path)
        self.emit("checksum", path, value=want)
        return want

    def b_Rebuild(self, a, kw, obj, ctx, out, path):
        fn = a[1] if len(a) > 1 else kw["func"]
        v = self.f.evaluate(fn, ctx) if fn.op != "fn" else self.f.call(fn, [ctx])
        self.build(a[0] if a else kw["subcon"], v, ctx, out, path)
        return v

    def b_Default(self, a, kw, obj, ctx, out, path):
        d = a[1] if len(a) > 1 else kw["value"]
        d = self.f.evaluate(d, ctx)
        v = simp(ite(cmp("is", obj, NONE), d, obj), self.f.facts)
        self.build(a[0] if a else kw["subcon"], v, ctx, out, path)
        return v

    def b_Hex(self, a, kw, obj, ctx, out, path):
        return self.build(a[0] if a else kw["subcon"], obj, ctx, out, path)

    b_HexDump = b_OneOf = b_ExprValidator = b_Hex

    def b_Optional(self, a, kw, obj, ctx, out, path):
        return self.build(a[0] if a else kw["subcon"], obj, ctx, out, path)

    def b_FocusedSeq(self, a, kw, obj, ctx, out, path):
        nm = cv(a[0])
        o = self.f.new(None, {nm: obj})
        r = self.b_Struct(a[1:], kw, o, ctx, out, path)
        return self.f.recs[r].get(nm, NONE)

    def b_BytesInteger(self, a, kw, obj, ctx, out, path):
        n = a[0] if a else kw["length"]
        sg = a[1] if len(a) > 1 else kw.get("signed", FALSE)
        sw = a[2] if len(a) > 2 else kw.get("swapped", FALSE)
        if n.op != "c" or sg.op != "c" or sw.op != "c" or (cv(sg) and not cv(sw)):
            raise FormatError("BytesInteger")
        out.put(mk("be" if not cv(sw) else "les" if cv(sg) else "le", cv(n), obj), cv(n))
        return obj

    def b_Pointer(self, a, kw, obj, ctx, out, path):
        off = self.f.evaluate(a[0], ctx)
        if off.op != "opos" or off.a[0] != out.name:
            raise FormatError("pointer to " + pretty(off)[:60])
        o2 = Out(out.name)
        r = self.build(a[1], obj, ctx, o2, path)
        i = off.a[1]
        need = sum(n for _, n in o2.parts) if all(n is not None for _, n in o2.parts) else None
        have = out.parts[i][1] if i < len(out.parts) else None
        if need is None or need != have:
            raise FormatError("pointer overwrites %s bytes with %s" % (have, need))
        out.parts[i:i + 1] = [(o2.bytes(), need)]
        return r

    def b_Peek(self, a, kw, obj, ctx, out, path):
        return obj

    def b_RawCopy(self, a, kw, obj, ctx, out, path):
        h = self.has(obj, "data")
        if h:
            d = self.get(obj, "data")
            out.put(d)
            self.emit("verbatim", path, value=d)
            return obj
        if h is None:
            raise FormatError("RawCopy of " + pretty(obj)[:60])
        o2 = Out(out.name)
        v = self.build(a[0], self.get(obj, "value"), ctx, o2, path)
        out.parts += o2.parts
        return self.f.new(None, {"value": v, "data": o2.bytes()})

    def b_If(self, a, kw, obj, ctx, out, path):
        return self.branch(truthy(self.f.evaluate(a[0], ctx)), a[1], ext("construct.Pass"), obj, ctx, out, path)

    def b_IfThenElse(self, a, kw, obj, ctx, out, path):
        return self.branch(truthy(self.f.evaluate(a[0], ctx)), a[1], a[2], obj, ctx, out, path)

    def branch(self, g, x, y, obj, ctx, out, path):
        f = self.f
        g = simp(f.R(g), f.facts)
        if g.op == "c":
            return self.build(x if cv(g) else y, obj, ctx, out, path)
        if g.op == "stale" or has_op(g, "stale"):
            self.emit("stale", path, value=g)
        old, oldf = f.cond, f.facts
        res = []
        for z, val in ((x, True), (y, False)):
            f.cond = conj(old, g if val else neg(g))
            f.facts = dict(oldf)
            add_fact(f.facts, g, val)
            o2 = Out(out.name)
            n = len(out.parts)
            r = self.build(z, obj, ctx, o2, path)
            res.append((o2, r))
        f.cond, f.facts = old, oldf
        (o1, r1), (o2, r2) = res
        if not o1.parts and not o2.parts:
            return ite(g, r1, r2)
        n1, n2 = [sum(n for _, n in o.parts) if all(n is not None for _, n in o.parts) else None for o in (o1, o2)]
        out.put(ite(g, o1.bytes(), o2.bytes()), n1 if n1 == n2 else None)
        return ite(g, r1, r2)

    def b_Switch(self, a, kw, obj, ctx, out, path):
        f = self.f
        key = simp(f.evaluate(a[0], ctx), f.facts)
        cases = a[1] if len(a) > 1 else kw["cases"]
        dflt = a[2] if len(a) > 2 else kw.get("default", ext("construct.Pass"))
        if cases.op != "dict":
            raise FormatError("switch over " + pretty(cases)[:60])
        for k, x in cases.a[0]:
            g = k is key if key.op == "c" else None
            if g is None:
                g = simp(f.R(cmp("==", key, k)), f.facts)
                g = cv(g) if g.op == "c" else None
            if g is None:
                raise FormatError("switch on " + pretty(key)[:60])
            if g:
                return self.build(x, obj, ctx, out, path)
        return self.build(dflt, obj, ctx, out, path)

    def b_Mapping(self, a, kw, obj, ctx, out, path):
        m = {cv(k): cv(x) for k, x in a[1].a[0]}
        if obj.op == "c":
            if cv(obj) not in m:
                raise FormatError("not in the map: %r" % (cv(obj),))
            v = c(m[cv(obj)])
        elif obj.op == "mapv" and dict(obj.a[1]) == m:
            v = obj.a[0]
        else:
            v = mk("unmap", obj, tuple(sorted(m.items(), key=repr)))
        self.build(a[0], v, ctx, out, path)
        return obj

    b_Enum = b_Mapping

    def b_Prefixed(self, a, kw, obj, ctx, out, path):
        o2 = Out((out.name, "pref", len(out.parts)))
        r = self.build(a[1], obj, ctx, o2, path)
        d = o2.bytes()
        self.build(a[0], mk("len", d), ctx, out, path)
        out.put(d)
        return r

    def b_RepeatUntil(self, a, kw, obj, ctx, out, path):
        f = self.f
        y = s("L%d" % len(self.each))
        self.each[y] = obj
        it = mk("item", y)
        old = f.recs[ctx].get("_index")
        f.recs[ctx]["_index"] = s("i#int")
        o2 = Out((out.name, "each", len(out.parts)))
        n0 = len(self.events)
        r = self.build(a[1], it, ctx, o2, path)
        if old is None:
            f.recs[ctx].pop("_index", None)
        else:
            f.recs[ctx]["_index"] = old
        end = a[0]
        endt = truthy(f.call(end, [it, mk("items", it), ctx]) if end.op == "fn" else f.evaluate(end, it))
        t = mk("eachout", y, o2.bytes(), endt)
        self.emit("repeat", path, list=obj, item=it, bytes=o2.bytes(), until=endt)
        out.put(t)
        return obj

    def b_BitsSwapped(self, a, kw, obj, ctx, out, path):
        out.put(mk("bits", obj))
        return obj

    def adapter(self, o, obj, ctx, out, path):
        f = self.f
        fl = dict(o.a[1])
        sub = fl.get("subcon")
        if obj.op == "dd":
            out.put(mk("ddout", obj.a[0]))
            self.emit("dict", path, dd=obj, adapter=o, sub=sub)
            return obj
        res = f.adapt(o, "_encode", obj, ctx)
        val = f.R(noexc(res.value))
        e = self.emit("encode", path, adapter=o.a[0], res=res, input=obj, value=val, obj=o, ctx=ctx)
        m = reparse(val)
        if m is not None:
            sub2, data, kctx = m
            top = f.new(None)
            if kctx is not None:
                for k, x in f.recs[kctx].items():
                    f.recs[top][k] = x
            e.kind = "rebuild"
            o2 = Out(("payload", len(self.events)))
            self.build(sub2, data, top, o2, ())
            val = o2.bytes()
        self.build(sub, val, ctx, out, path)
        return obj


def nm_(x):
    return x.a[0] if isinstance(x.a[0], str) else cv(x.a[0])


TREE = s("doc.tree")
MAJOR = mk("uint", mk("raw", "file", 0, 10, 2))


def parsing(eng, version, decrypt=TRUE, fixed=None, args=None):
    """The meaning of opening a file of this major version (and these header values)."""
    f = Format(eng, version, decrypt)
    f.fixed = fixed or {}
    f.args = {"password": s("$password"), "keyfile": s("$keyfile"), "transformed_key": s("$transformed_key"), "decrypt": decrypt, **(args or {})}
    top = f.new(None, f.args)
    add_fact(f.facts, cmp("==", MAJOR, c(version)), True)
    f.value, f.layout = f.parse(eng.kdbx(), top, Stream("file"), ())
    return f


def building(f):
    """The meaning of saving what the parse f produced, with the document replaced by TREE."""
    b = Builder(f)
    top = f.new(None, f.args)
    body = f.attr(f.value, "body", mk(".", f.value, "body"))
    pl = f.attr(body, "payload", mk(".", body, "payload"))
    if pl in f.recs:
        f.recs[pl]["xml"] = TREE
    out = Out("file")
    b.build(f.E.kdbx(), f.value, top, out, ())
    b.out = out.bytes()
    return b


# -------------------------------------------------------------------- normal form of byte transformations
CIPHERS = {"Cryptodome.Cipher.AES.new": ("AES", ("key", "mode", "iv")), "twofish.new": ("Twofish", ("key", "mode", "iv")),
           "Cryptodome.Cipher.ChaCha20.new": ("ChaCha20", ("key", "nonce")), "Cryptodome.Cipher.Salsa20.new": ("Salsa20", ("key", "nonce"))}
MODES = {"Cryptodome.Cipher.AES.MODE_CBC": "CBC", "Cryptodome.Cipher.AES.MODE_ECB": "ECB"}
MODEN = {1: "ECB", 2: "CBC"}


def sig(a, kw, names):
    """Arguments by name."""
    d = dict(zip(names, a))
    for k, v in kw:
        d[k] = v
    return d


def cipher(t):
    """(algorithm, mode, key, iv) of a cipher object or None."""
    if t.op != "call" or t.a[0].op != "x" or t.a[0].a[0] not in CIPHERS:
        return None
    alg, names = CIPHERS[t.a[0].a[0]]
    d = sig(t.a[1], t.a[2], names)
    d = {("iv" if k == "IV" else k): v for k, v in d.items()}
    m = d.get("mode")
    mode = None
    if m is not None:
        mode = MODES.get(m.a[0]) if m.op == "x" else MODEN.get(cv(m)) if m.op == "c" else None
        if mode is None:
            return None
    if set(d) - {"key", "mode", "iv", "nonce"}:
        return None
    return alg, mode or "", d.get("key", NONE), d.get("iv") or d.get("nonce") or NONE


BYTES_OPS = {"raw", "span", "hv", "sha256", "sha512", "hmac", "cat", "le", "enc", "unb64", "unhex", "encrypt", "decrypt", "pad", "unpad",
             "gzip", "gunzip", "ser", "catcomp", "cpiece", "cflush", "cflushpart", "ddout", "eachout"}


def byteslike(t):
    return t.op in BYTES_OPS or (t.op == "c" and isinstance(cv(t), bytes)) or (t.op == "s" and t.a[0].endswith("#bytes"))


_FN = {}


def fnorm(t):
    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T) or not x.a or x.op in ("c", "s", "x", "raw", "span", "hv"):
            return x
        r = _FN.get(x)
        if r is None:
            na = tuple(go(y) for y in x.a)
            r = fstep(x if na == x.a else rebuild(x.op, na))
            _FN[x] = r
        return r
    return norm(go(t))


def fstep(x):
    op, a = x.op, x.a
    if op == "enc" and is_c(a[0]) and isinstance(cv(a[0]), str):
        return c(cv(a[0]).encode("utf-8"))
    if op == "op" and a[0] == "+" and (byteslike(a[1]) or byteslike(a[2])):
        x = cat(a[1], a[2])
        op, a = x.op, x.a
    if op == "cat":
        # the pieces of one compressor: compress(data) ++ flush()
        out = []
        for p in a:
            if p.op == "cflush" and out and out[-1].op == "cpiece" and out[-1].a[0] is p.a[0]:
                z = gz(p.a[0], out[-1].a[1])
                if z is not None:
                    out[-1] = z
                    continue
            out.append(p)
        return cat(*out)
    if op == "m" and a[0] in ("encrypt", "decrypt") and len(a) == 3:
        cc = cipher(a[1])
        if cc is not None:
            return mk(a[0], *cc, a[2])
    if op == "m" and a[0] == "decompress" and len(a) == 4 and a[1].op == "call" and a[1].a[0] is ext("zlib.decompressobj") \
            and a[3].op == "c" and cv(a[3]):
        # at most that many bytes come out
        w = sig(a[1].a[1], a[1].a[2], ("wbits", "zdict")).get("wbits", c(15))
        if w.op == "c":
            return mk("sl", mk("gunzip", a[2]) if cv(w) in (31, 47) else mk("inflate", w, a[2]), NONE, a[3], NONE)
    if op == "call" and a[0].op == "x":
        n = a[0].a[0]
        if n in ("Cryptodome.Util.Padding.pad", "Cryptodome.Util.Padding.unpad"):
            d = sig(a[1], a[2], ("data_to_pad" if n.endswith(".pad") else "padded_data", "block_size", "style"))
            data = d.get("data_to_pad") or d.get("padded_data")
            if is_c(d.get("style", c("pkcs7")), "pkcs7") and data is not None and d.get("block_size", NONE).op == "c":
                return mk("pad" if n.endswith(".pad") else "unpad", d["block_size"], data)
        if n == "zlib.decompress":
            d = sig(a[1], a[2], ("data", "wbits", "bufsize"))
            w = d.get("wbits", c(15))
            if w.op == "c":
                return mk("gunzip", d["data"]) if 25 <= cv(w) == 31 or cv(w) == 47 else mk("inflate", w, d["data"])
        if n == "gzip.decompress" and len(a[1]) == 1:
            return mk("gunzip", a[1][0])
        if n == "gzip.compress" and a[1]:
            return mk("gzip", a[1][0])
        if n == "zlib.compress" and a[1]:
            d = sig(a[1], a[2], ("data", "level", "wbits"))
            w = d.get("wbits", c(15))
            if w.op == "c":
                return mk("gzip", d["data"]) if cv(w) == 31 else mk("deflate", w, d["data"])
        if n == "lxml.etree.tostring" and len(a[1]) == 1:
            kw = dict(a[2])
            if not set(kw) - {"encoding", "xml_declaration", "pretty_print", "standalone"} and is_c(kw.get("pretty_print", FALSE), False) \
                    and kw.get("encoding", c("utf-8")).op == "c" and str(cv(kw.get("encoding", c("utf-8")))).lower() in ("utf-8", "utf8", "ascii", "us-ascii", "none"):
                return mk("ser", a[1][0])
        if n == "lxml.etree.parse" and a[1] and a[1][0].op == "bytesio":
            p = a[1][1] if len(a[1]) > 1 else dict(a[2]).get("parser", NONE)
            return mk("parsexml", a[1][0].a[0], parser_flags(p))
        if n in ("lxml.etree.fromstring", "lxml.etree.XML") and a[1]:
            p = a[1][1] if len(a[1]) > 1 else dict(a[2]).get("parser", NONE)
            return mk("rootof", mk("parsexml", a[1][0], parser_flags(p)))
        if n == "lxml.etree.ElementTree" and len(a[1]) == 1 and a[1][0].op == "rootof":
            return a[1][0].a[0]
        if n == "argon2.low_level.hash_secret_raw":
            d = sig(a[1], a[2], ("secret", "salt", "time_cost", "memory_cost", "parallelism", "hash_len", "type", "version"))
            d.setdefault("version", c(19))
            return mk("argon2", *[d.get(k, NONE) for k in ("secret", "salt", "time_cost", "memory_cost", "parallelism", "hash_len", "type", "version")])
    if op == "fold" and len(a) == 3 and is_c(a[1], b"") and a[0].op == "for":
        X = a[0].a[0]
        z = a[2]
        if z.op == "op" and z.a[0] == "+" and z.a[1].op == "mu" and not has_op(z.a[2], "mu", "fold"):
            return mk("catcomp", X, TRUE, z.a[2])
        if z.op == "cat" and z.a[0].op == "mu" and not any(has_op(y, "mu", "fold") for y in z.a[1:]):
            return mk("catcomp", X, TRUE, cat(*z.a[1:]))
    if op == "call" and a[0].op == "x" and a[0].a[0].startswith(("zlib.", "gzip.", "Cryptodome.", "argon2.")) and a[0].a[0] not in CIPHERS \
            and a[0].a[0] not in ("zlib.compressobj", "zlib.decompressobj"):
        return mk("unknown", a[0].a[0], a[1], a[2])
    if op == "sl" and len(a) == 4:
        lo = NONE if is_c(a[1], 0) else a[1]
        st = NONE if is_c(a[3], 1) else a[3]
        if lo is not a[1] or st is not a[3]:
            return mk("sl", a[0], lo, a[2], st)
    if op == "m" and a[0] == "getroottree" and len(a) == 2 and a[1].op == "rootof":
        return a[1].a[0]
    return x


def gz(comp, data):
    if comp.op == "call" and comp.a[0] is ext("zlib.compressobj"):
        d = sig(comp.a[1], comp.a[2], ("level", "method", "wbits", "memLevel", "strategy", "zdict"))
        w = d.get("wbits", c(15))
        if w.op == "c" and "zdict" not in d:
            return mk("gzip", data) if cv(w) == 31 else mk("deflate", w, data)
    return None


# parser options that change neither which documents are accepted nor their content
NEUTRAL = {"remove_blank_text", "huge_tree", "resolve_entities", "no_network", "load_dtd", "strip_cdata", "encoding", "collect_ids", "compact"}


def parser_flags(p):
    if p is NONE:
        return ()
    if p.op == "call" and p.a[0] is ext("lxml.etree.XMLParser"):
        return tuple(sorted(("%s=%s" % (k, show(v)) for k, v in p.a[2] if k not in NEUTRAL and not is_c(v, False)), key=str))
    return (show(p)[:100],)

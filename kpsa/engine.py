"""Scenario layer: loads the package once and summarises API calls."""
from .terms import *
from . import interp, interp2, interp3
from .interp import Interp, AnalysisError, State, API_CLASS, ROOT, is_elem, mkq
from . import xp


class Result:
    """Summary of one call: value, effects, exits."""

    def __init__(self, ip, value, events):
        self.ip, self.value, self.events = ip, value, events
        self.unknowns = list(ip.unknowns)

    def ev(self, *kinds):
        return [e for e in self.events if e.kind in kinds]

    def returns(self):
        return [(e.cond, e.data) for e in self.events if e.kind == "return"]


OPAQUE_FIND = ("find_entries", "find_groups", "find_attachments")


class Engine:
    def __init__(self, repo=None):
        self.base = Interp(repo).load_all()
        self.runs = 0
        self.nevents = 0
        self.functions = set()
        self._kp = None
        from . import net
        for cid, ci in enumerate(self.base.classes):
            net.CLASSNAMES[cid] = ci.name
        if self.base.unknowns:
            pass

    # ---------------------------------------------------------------- anchors
    def cls(self, name):
        return self.base.class_by_name(name)

    def has_method(self, cls, name):
        return self.base.lookup(self.cls(cls), name) is not None

    def method(self, cls, name):
        f = self.base.lookup(self.cls(cls), name)
        if f is None:
            raise AnalysisError("%s.%s not found" % (cls, name))
        return f[0]

    def glob(self, mod, name):
        env = self.base.load(mod)
        if name not in env:
            raise AnalysisError("%s.%s not found" % (mod, name))
        return env[name]

    # ---------------------------------------------------------------- fresh interpreter for one scenario
    def new(self, version=None, opaque=True, extra_opaque=()):
        ip = self.base.sub()
        self.runs += 1
        ip.base_heap = {**self.base.base_heap, **self.base.defcells}
        ip.nref = max(ip.nref, 1 + max(self.base.defcells, default=0))
        ip.wrapcache = {}
        ip.analysed = self.functions
        fields = self.kp_fields()
        ip.nref += 1
        cid = self.cls("PyKeePass")
        ip.base_heap[ip.nref] = ("inst", cid, tuple(sorted(fields.items())))
        r = mk("ref", ip.nref)
        ip.names[ip.nref] = s("kp")
        ip.shared[ip.nref] = s("kp")
        ip.shared["kp"] = r
        ip.kpref = r
        if version:
            hv = mk(".", mk(".", s("kdbx"), "header"), "value")
            ip.overrides[mk(".", hv, "major_version")] = c(version[0])
            ip.overrides[mk(".", hv, "minor_version")] = c(version[1])
            f2 = {k: subst(v, ip.overrides) if v.op not in ("s",) else v for k, v in fields.items()}
            ip.base_heap[ip.nref] = ("inst", cid, tuple(sorted(f2.items())))
        if opaque:
            for nm in OPAQUE_FIND:
                f = self.method("PyKeePass", nm)
                ip.opaque[f] = find_model(nm)
            for nm in ("xpath", "_xpath"):
                if self.has_method("PyKeePass", nm):
                    f = self.method("PyKeePass", nm)
                    if f.op == "fn":
                        ip.opaque[f] = xpath_model
        for f in extra_opaque:
            ip.opaque[f[0]] = f[1]
        return ip

    def kp_fields(self):
        """Instance attributes a constructed PyKeePass has, by role."""
        if self._kp is not None:
            return self._kp
        cid = self.cls("PyKeePass")
        ip = self.base.sub()
        ip.base_heap = dict(self.base.base_heap)
        syms = {k: mk("nn", s("$" + k)) for k in ("filename", "password", "keyfile", "transformed_key", "decrypt")}
        # filename is a true value that is not a stream
        ip.push(truthy(syms["filename"]), True)
        r = ip.instantiate(cid, [], list(syms.items()), None)
        fields, late = {}, {}
        self.derived = {}
        if r.op == "ref":
            for k, v in ip.cell(r)[2]:
                role = [nm for nm, t in syms.items() if v is t]
                if role:
                    fields[k] = s("kp." + role[0])
                elif parsed_value(ip.freeze(v)):
                    fields[k] = s("kdbx")
                elif v is NONE:
                    fields[k] = NONE        # filled later, if at all (C13 looks at what is)
                else:
                    fields[k] = s("kp.f." + k)
                    late[k] = ip.freeze(v)
            whole = {ip.freeze(v) for k, v in ip.cell(r)[2] if fields.get(k) is s("kdbx")}
            for x in list(whole):
                todo = [x]
                while todo:
                    y = todo.pop()
                    if y.op == "ite":
                        todo += y.a[1:]
                    elif is_parse(y):
                        whole.add(y)
            for k, v in late.items():
                # another name for a part of the parsed database
                if any(contains(v, x) for x in whole):
                    t = subst(v, {x: s("kdbx") for x in whole})
                    if attr_path(t) or header_value(t):
                        fields[k] = t
                    self.derived[k] = t
        if s("kdbx") not in fields.values():
            raise AnalysisError("PyKeePass.__init__ does not store the parsed database (fields: %s)" % {
                k: show(v) for k, v in fields.items()})
        self._kp = fields
        from . import net
        for nm in ("Entry", "HistoryEntry", "Group", "Attachment"):
            wi = self.base.wrap_fields(self.cls(nm))
            net.VIEW.update(x for x in wi or () if x)
        net.ROLES = {k for k, v in fields.items() if v.op == "s" and not v.a[0].startswith("kp.f.")}
        return fields

    def field(self, role):
        """Name of the PyKeePass instance attribute with this role."""
        for k, v in self.kp_fields().items():
            if v is s(role):
                return k
        raise AnalysisError("PyKeePass has no attribute for " + role)

    # ---------------------------------------------------------------- exceptional paths
    def exact(self, version=None, fault=None, exc="$Fault", **opt):
        """An interpreter that follows one exceptional path: `fault(event)` selects the external call that raises
        `exc`; no other call raises."""
        ip = self.new(version, **opt)
        ip.exact = True
        ip.faulted = []
        if fault is not None:
            def f(ev):
                if not ip.faulted and fault(ev):
                    ip.faulted.append(ev)
                    return mk("fault", exc)
                return None
            ip.fault = f
        return ip

    def kdbx(self):
        """The frozen term of the top-level file structure."""
        if not hasattr(self, "_kdbx"):
            self._kdbx = self.base.sub().freeze(self.glob("pykeepass.kdbx_parsing", "KDBX"))
        return self._kdbx

    def abstract(self, res):
        """Replace the file structure's definition by one symbol."""
        m = {self.kdbx(): s("KDBX")}
        res.value = subst(res.value, m)
        for e in res.events:
            e.data = subst(e.data, m)
            e.raw = None
            e.guards = tuple((subst(g[0], m), g[1]) for g in e.guards)
        return res

    # ---------------------------------------------------------------- running
    def finish(self, ip, v):
        v = BOT if ip.st.dead else ip.freeze(v)
        self.nevents += len(ip.events)
        if not ip.st.dead:
            for e in ip.events:
                if e.raw is not None:
                    try:
                        e.data = ip.freeze(e.raw)
                    except KeyError:
                        pass
        return Result(ip, v, ip.events)

    def call(self, ip, f, args=(), kw=()):
        v = ip.call(f, list(args), list(kw.items() if isinstance(kw, dict) else kw), None)
        return self.finish(ip, v)

    def kp_call(self, name, args=(), kw=(), version=None, facts=(), ip=None, **opt):
        ip = ip or self.new(version, **opt)
        for cnd, val in facts:
            ip.push(cnd, val)
        f = self.method("PyKeePass", name)
        if f.op == "prop":
            return self.call(ip, f.a[0], [ip.kpref])
        return self.call(ip, mk("bound", f, ip.kpref) if f.op == "fn" else f, args, kw)

    def kp_get(self, name, version=None, facts=(), ip=None, **opt):
        ip = ip or self.new(version, **opt)
        for cnd, val in facts:
            ip.push(cnd, val)
        f = self.method("PyKeePass", name)
        if f.op == "prop":
            return self.call(ip, f.a[0], [ip.kpref])
        v = ip.getattr(ip.kpref, name)
        return self.finish(ip, v)

    def kp_set(self, name, value, version=None, facts=(), ip=None, **opt):
        ip = ip or self.new(version, **opt)
        for cnd, val in facts:
            ip.push(cnd, val)
        ip.setattr(ip.kpref, name, value, None)
        return self.finish(ip, NONE)

    def obj(self, cls, name):
        interp2.ELEMTAG[name + ".elem"] = {"HistoryEntry": "Entry", "Attachment": "Binary"}.get(cls, cls)
        return mk("wrap", cls, s(name + ".elem"))

    def o_get(self, o, name, version=None, facts=(), ip=None, **opt):
        ip = ip or self.new(version, **opt)
        for cnd, val in facts:
            ip.push(cnd, val)
        f = self.method(o.a[0], name)
        if f.op == "prop":
            return self.call(ip, f.a[0], [ip.wrapref(o)])
        return self.finish(ip, ip.getattr(o, name))

    def o_set(self, o, name, value, version=None, facts=(), ip=None, **opt):
        ip = ip or self.new(version, **opt)
        for cnd, val in facts:
            ip.push(cnd, val)
        f = self.method(o.a[0], name)
        if f.op == "prop":
            if f.a[1] is NONE:
                raise AnalysisError("%s.%s has no setter" % (o.a[0], name))
            return self.call(ip, f.a[1], [ip.wrapref(o), value])
        ip.setattr(o, name, value, None)
        return self.finish(ip, NONE)

    def o_call(self, o, name, args=(), kw=(), version=None, facts=(), ip=None, **opt):
        ip = ip or self.new(version, **opt)
        for cnd, val in facts:
            ip.push(cnd, val)
        f = self.method(o.a[0], name)
        return self.call(ip, mk("bound", f, ip.wrapref(o)), args, kw)


# -------------------------------------------------------------------- models of the search API
def is_parse(x):
    return (x.op == "m" and x.a[0] in ("parse_file", "parse_stream", "parse")) or (
        x.op == "call" and "parse" in show(x.a[0])) or x.op == "parsed"


def parsed_value(t):
    """the parsed database itself: a parse result, whichever branch it came from"""
    if t.op == "ite":
        rest = [x for x in t.a[1:] if x.op not in ("unbound", "bot", "missing")]   # left unset on a path: C04, C05
        return bool(rest) and all(parsed_value(x) for x in rest)
    if t.op in ("nn", "ver"):
        return parsed_value(t.a[0])
    return is_parse(t)


def attr_path(t):
    while t.op == ".":
        t = t.a[0]
    return t is s("kdbx")


def header_value(t):
    """computed from the header alone, which no operation edits"""
    u = subst(t, {mk(".", s("kdbx"), "header"): s("$header")})
    return u is not t and not any(x.op in ("s", "q", "root", "api", "unknown") and x is not s("$header") for x in subterms(u))


def find_model(name):
    cls = API_CLASS[name]

    def m(ip, clo, args, kw, n):
        env, bad = ip.bind(clo, args, kw, n)
        a = clo.node.args
        out = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        for k, v in env.items():
            if a.kwarg and k == a.kwarg.arg:
                for kk, vv in ip.cell(v)[1]:
                    if kk.op == "c":
                        out[cv(kk)] = vv
                    else:
                        out["**"] = kk.a[0]
            elif names and k == names[0]:
                continue
            elif a.vararg and k == a.vararg.arg:
                continue
            else:
                out[k] = v
        drop = {"recursive": TRUE}
        res = {}
        for k, v in out.items():
            v = ip.freeze(v)
            if v is NONE or v.op == "unbound":
                continue
            if k in ("first", "history", "regex") and v is FALSE:
                continue
            if k == "recursive" and v is TRUE:
                continue
            if k == "path" and v.op in ("c", "tuple", "list", "dict") and truthy(v) is FALSE:
                v = EMPTY
            res[k] = v
        if "path" in res:
            res.pop("first", None)
        t = mk("api", name, tuple(sorted(res.items(), key=lambda z: z[0])))
        ip.emit("find", t, n)
        first = res.get("first")
        if "path" in res:
            first = TRUE
        if first is None:
            return mk("comp", t, TRUE, mk("wrap", cls, mk("iv", t)))
        if first is TRUE:
            return ite(ip.sim(isnone(t)), NONE, mk("wrap", cls, t))
        return mk("unknownfirst", t)
    return m


TAGCLASS = {"Entry": "Entry", "Group": "Group", "Binary": "Attachment"}


def xpath_model(ip, clo, args, kw, n):
    env, bad = ip.bind(clo, args, kw, n)
    names = [x.arg for x in clo.node.args.posonlyargs + clo.node.args.args]
    q = env.get(names[1])
    tree = env.get("tree", NONE)
    first = ip.sim(ip.truth(env.get("first", FALSE)))
    cast = ip.sim(ip.truth(env.get("cast", FALSE)))
    ft = ip.freeze(tree)

    def one(base):
        if base is NONE:
            base = ROOT
        if base.op == "ite":
            return ite(base.a[0], one(base.a[1]), one(base.a[2]))
        fr = cv(first) if first.op == "c" else None
        r = ip.query(base, q, "first" if fr else "all", {})
        ip.emit("query", r, n)
        return wrapq(r)

    def wrapq(r):
        if r.op == "ite":
            return ite(r.a[0], wrapq(r.a[1]), wrapq(r.a[2]))
        if r.op != "q" or cast is FALSE:
            return r
        last = [st for st in r.a[1] if st[0] not in ("self",)]
        tag = last[-1][1] if last else None
        k = TAGCLASS.get(tag)
        if k is None and r.a[1] and r.a[1][-1][0] == "self":
            k = None
        if k is None:
            k = "?"
        if r.a[2] == "first":
            return ite(ip.sim(isnone(r)), NONE, mk("wrap", k, r))
        return mk("comp", r, TRUE, mk("wrap", k, mk("iv", r)))
    if first.op != "c":
        return ip.unknown("xpath first", n)
    return one(ft)

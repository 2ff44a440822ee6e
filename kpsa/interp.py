"""Abstract interpreter over the syntax trees of /repo/pykeepass.

Nothing of the analysed package is imported or executed: modules are parsed
with `ast` and every function is evaluated over the term domain of terms.py.
Branches are joined with gating terms, loops are summarised as comprehensions
or folds, calls to functions of the package are inlined, everything that
touches an object which existed before the call is recorded as an event with
the conditions under which it happens.
"""
import ast
import os

from .terms import *
from . import terms as tm
from . import xp

REPO = os.environ.get("KPSA_REPO", "/repo")
MAXDEPTH = 60
UNROLL = 300


class AnalysisError(Exception):
    """The analysed tree lacks something the rules are anchored on."""


class Closure:
    def __init__(self, node, mod, frame, cls, name):
        self.node, self.mod, self.frame, self.cls, self.name = node, mod, frame, cls, name
        self.kind = None
        self.cm = False
        self.cached = False

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name


class ClassInfo:
    def __init__(self, name, mod, bases, node):
        self.name, self.mod, self.bases, self.node = name, mod, bases, node
        self.ns = {}


class Event:
    __slots__ = ("kind", "data", "guards", "loops", "trys", "node", "func", "mod", "stack", "n", "raw", "caught", "ref")

    def __init__(self, kind, data, guards, loops, trys, node, func, mod, stack, n):
        self.kind, self.data, self.guards, self.loops, self.trys = kind, data, guards, loops, trys
        self.node, self.func, self.mod, self.stack, self.n = node, func, mod, stack, n
        self.raw = None
        self.caught = False

    @property
    def cond(self):
        return conj(*[g[0] if g[1] else neg(g[0]) for g in self.guards])

    def where(self):
        return "%s:%s in %s" % (self.mod, getattr(self.node, "lineno", "?"), self.func)

    def __repr__(self):
        return "<%s %s  if %s%s%s @%s>" % (
            self.kind, tm.show(self.data), tm.show(self.cond),
            " loops=" + tm.show(self.loops) if self.loops else "",
            " trys=" + repr(self.trys) if self.trys else "", self.where())


class State:
    __slots__ = ("frames", "heap", "dead")

    def __init__(self):
        self.frames, self.heap, self.dead = {}, {}, False

    def copy(self):
        n = State()
        n.frames = {k: dict(v) for k, v in self.frames.items()}
        n.heap = dict(self.heap)
        n.dead = self.dead
        return n


class Frame:
    def __init__(self, fid, clo, mark):
        self.fid, self.clo, self.mark = fid, clo, mark
        self.returns = []
        self.raises = []
        self.yields = None
        self.yield_hook = None
        self.loops = []
        self.keep = False
        self.selfval = None
        self.globals = set()
        self.nonlocals = set()


class Loop:
    def __init__(self, mark):
        self.mark = mark
        self.breaks = []
        self.continues = []


class Interp:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.pkg = "pykeepass"
        self.modules = {}
        self.modenv = {}
        self.loading = set()
        self.closures = []
        self.classes = []
        self.classid = {}
        self.base_heap = {}
        self.nref = 0
        self.nfid = 0
        self.ntry = 0
        self.st = State()
        self.events = []
        self.first = []          # effects of the first round of while loops
        self.first_out = []      # log records, messages of the first round of loops
        self.pc = []
        self.fstack = [{}]
        self.loops = []
        self.trys = []
        self.stack = []
        self.raise_sinks = []
        self.exact = False       # exceptions happen only where a fault is injected or raised explicitly
        self.fault_ext = None    # (name, args, kw) -> exception name or None
        self.fault_kinds = ("call", "listmut", "mut", "globalmut")
        self.fault = None        # event -> exception term or None
        self.handling = []
        self.exits = []
        self.shared = {}
        self.names = {}
        self.overrides = {}
        self.wrapextra = {}
        self.defaults, self.defcells = {}, {}
        self.wrap_over = {}      # instance attributes of wrapper objects that are symbolic
        self.maxrec = 0          # recursive calls that are followed
        self.over_fn = None      # term -> replacement or None
        self.attr_hooks = []
        self.call_hooks = {}
        self.opaque = {}
        self.unknowns = []
        self.mute = 0
        self.wrapcache = {}
        self.wrapinfo = {}
        self.tryinfo = {}
        self.analysed = set()
        self.notes = []
        self.nevent = 0
        self.depth_cut = 0

    # ------------------------------------------------------------ modules
    def modpath(self, mod):
        p = os.path.join(self.repo, *mod.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        return p + ".py"

    def has_mod(self, mod):
        return mod.split(".")[0] == self.pkg and os.path.exists(self.modpath(mod))

    def load(self, mod):
        if mod in self.modenv:
            return self.modenv[mod]
        path = self.modpath(mod)
        try:
            src = open(path, encoding="utf-8").read()
        except OSError as e:
            raise AnalysisError("cannot read %s: %s" % (path, e))
        tree = ast.parse(src, path)
        self.modules[mod] = tree
        env = {"__name__": c(mod), "__file__": mk("modfile", mod)}
        self.modenv[mod] = env
        saved = (self.st, self.events, self.pc, self.fstack, self.loops, self.trys, self.stack, self.raise_sinks)
        self.st = State()
        self.events, self.pc, self.fstack, self.loops, self.trys, self.stack, self.raise_sinks = \
            [], [], [{}], [], [], [], []
        clo = Closure(tree, mod, None, None, "<module>")
        fr = Frame(("mod", mod), clo, 0)
        self.stack.append(fr)
        self.st.frames[fr.fid] = env
        self.cur_mod = mod
        self.block([n for n in tree.body if not isinstance(n, ast.Assert)])
        env2 = self.st.frames.get(fr.fid, env)
        if env2 is not env:
            env.clear()
            env.update(env2)
        self.base_heap.update(self.st.heap)
        (self.st, self.events, self.pc, self.fstack, self.loops, self.trys, self.stack, self.raise_sinks) = saved
        return env

    def load_all(self):
        for d, _, fs in os.walk(os.path.join(self.repo, self.pkg)):
            for f in sorted(fs):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(d, f), self.repo)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[:-9]
                    if rel.endswith("pytwofish"):
                        # only parsed: the block cipher itself is not analysed
                        self.modules[rel] = ast.parse(open(os.path.join(d, f), encoding="utf-8").read())
                        continue
                    self.load(rel)
        return self

    # ------------------------------------------------------------ small helpers
    def unknown(self, why, node=None):
        self.unknowns.append((why, node))
        return mk("unknown", why, getattr(node, "lineno", 0))

    def newref(self, cell):
        if cell[0] == "set":
            cell = ("set", tuple(dict.fromkeys(cell[1]))) + tuple(cell[2:])
        self.nref += 1
        self.st.heap[self.nref] = cell
        return mk("ref", self.nref)

    def cell(self, r):
        n = r.a[0]
        x = self.st.heap.get(n)
        return x if x is not None else self.base_heap[n]

    def setcell(self, r, cell):
        self.st.heap[r.a[0]] = cell

    @property
    def facts(self):
        return self.fstack[-1]

    def push(self, cond, val, kind="branch"):
        self.pc.append((cond, val, kind))
        f = dict(self.facts)
        add_fact(f, cond, val)
        self.fstack.append(f)

    def pop_to(self, n):
        k = len(self.pc) - n
        if k > 0:
            del self.pc[n:]
            del self.fstack[-k:]

    def emit(self, kind, data, node):
        if self.mute or (self.exact and self.st.dead and kind != "raise"):
            return
        self.nevent += 1
        fr = self.stack[-1] if self.stack else None
        ev = Event(kind, data, tuple((g[0], g[1]) for g in self.pc), tuple(self.loops), tuple(self.trys), node,
                   fr.clo.qual if fr else "?", fr.clo.mod if fr else "?",
                   tuple(f.clo.qual for f in self.stack), self.nevent)
        self.events.append(ev)
        if self.fault is not None and kind in self.fault_kinds:
            x = self.fault(ev)
            if x is not None:
                self.do_raise(x, node)

    def globalmut(self, b, data, n):
        k = self.nevent
        # filling a container that is empty when the program starts is a memo: it matters only where it is read back
        cell = self.base_heap.get(b.a[0])
        memo = cell is not None and cell[0] in ("dict", "list", "set") and not cell[1]
        self.emit("memo" if memo else "globalmut", data, n)
        if self.nevent > k:
            self.events[-1].ref = b

    def sim(self, t):
        return simp(t, self.facts)

    # ------------------------------------------------------------ freezing
    def freeze(self, t, seen=()):
        def go(x):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if not isinstance(x, T):
                return x
            if x.op == "ref":
                return self.freeze_ref(x, seen)
            if x in memo:
                return memo[x]
            if not x.a:
                return x
            na = tuple(go(y) for y in x.a)
            r = x if na == x.a else rebuild(x.op, na)
            memo[x] = r
            return r
        memo = {}
        return go(t)

    def freeze_ref(self, r, seen=()):
        n = r.a[0]
        if n in self.names:
            return self.names[n]
        if n in seen:
            return mk("cyc")
        seen = seen + (n,)
        cell = self.cell(r)
        k = cell[0]
        fz = lambda x: self.freeze(x, seen)
        if k in ("list", "set", "tuple"):
            items = tuple(fz(x) for x in cell[1])
            if k == "list" and len(items) == 1 and items[0].op == "star":
                return canon_list(items[0].a[0])
            return mk(k, *items)
        if k == "dict":
            items = tuple((fz(a), fz(b)) for a, b in cell[1])
            return mk("dict", items)
        if k == "elem":
            return mk("elem", fz(cell[1]), tuple(sorted(((fz(a), fz(b)) for a, b in cell[2]), key=lambda z: show(z[0]))),
                      tuple(fz(x) for x in cell[3]), fz(cell[4]))
        if k == "inst":
            cls = self.classes[cell[1]]
            f = dict(cell[2])
            wi = self.wrap_fields(cell[1])
            if wi and wi[0] in f:
                if wi[1] and f.get(wi[1]) is NONE:
                    return mk("detached", cls.name, fz(f[wi[0]]))      # a wrapper that knows no database
                return mk("wrap", cls.name, fz(f[wi[0]]))
            nm = cls.name if sum(k.name == cls.name for k in self.classes) == 1 else "%s@%d" % (cls.name, self.classes.index(cls))
            return mk("obj", nm, tuple((a, fz(b)) for a, b in sorted(f.items())))
        if k == "hash":
            return mk("hashobj", cell[1], fz(cell[2]))
        if k == "hmac":
            return mk("hmacobj", cell[1], fz(cell[2]), fz(cell[3]))
        return mk("cellobj", k, tuple(fz(x) if isinstance(x, T) else str(x) for x in cell[1:]))

    # ------------------------------------------------------------ classes
    def mro(self, cid):
        out = [cid]
        for b in self.classes[cid].bases:
            if b.op == "cls":
                for x in self.mro(b.a[0]):
                    if x in out:
                        out.remove(x)
                    out.append(x)
        return out

    def lookup(self, cid, name, after=None):
        """Class attribute through the MRO -> (term, defining class id) or None."""
        m = self.mro(cid)
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else []
        for x in m:
            if name in self.st.frames.get(("clsattr", x), ()):
                return self.sim(self.st.frames[("clsattr", x)][name]), x
            if name in self.classes[x].ns:
                return self.classes[x].ns[name], x
        return None

    def class_by_name(self, name):
        if "@" in name:
            return int(name.partition("@")[2])
        for i, k in enumerate(self.classes):
            if k.name == name and k.mod.count("kdbx_parsing") == 0:
                return i
        for i, k in enumerate(self.classes):
            if k.name == name:
                return i
        raise AnalysisError("class %s not found in the package" % name)

    def wrap_fields(self, cid):
        """(element field, kp field) of a wrapper class, from its constructor."""
        if cid in self.wrapinfo:
            return self.wrapinfo[cid]
        self.wrapinfo[cid] = None
        init = self.lookup(cid, "__init__")
        if not init or init[0].op != "fn":
            return None
        node = self.closures[init[0].a[0]].node
        names = [a.arg for a in node.args.args + node.args.kwonlyargs]
        if "element" not in names or "kp" not in names:
            return None
        sub = self.sub()
        e, k = mk("nn", s("$element")), mk("nn", s("$kp"))
        r = sub.instantiate(cid, [], [("element", e), ("kp", k)], None)
        if r.op != "ref":
            return None
        f = dict(sub.cell(r)[2])
        ef = [a for a, b in f.items() if b is e]
        kf = [a for a, b in f.items() if b is k]
        if len(ef) == 1 and len(kf) <= 1:
            self.wrapinfo[cid] = (ef[0], kf[0] if kf else None)
            self.wrapextra[cid] = {a: sub.freeze(b) for a, b in f.items() if b is not e and b is not k}
        return self.wrapinfo[cid]

    def sub(self):
        """A fresh interpreter sharing the loaded program."""
        n = Interp.__new__(Interp)
        n.__dict__.update(self.__dict__)
        n.st = State()
        n.events, n.pc, n.fstack, n.loops, n.trys, n.stack, n.raise_sinks = [], [], [{}], [], [], [], []
        n.unknowns, n.first, n.first_out = [], [], []
        n.shared = dict(self.shared)
        n.names = dict(self.names)
        n.overrides = dict(self.overrides)
        n.attr_hooks = list(self.attr_hooks)
        n.call_hooks = dict(self.call_hooks)
        n.opaque = dict(self.opaque)
        n.wrapcache = {}
        n.tryinfo = dict(self.tryinfo)
        n.handling = []
        n.exits = []
        n.mute = 0
        n.notes = []
        n.base_heap = self.base_heap
        return n

    def wrapref(self, t):
        """Instance cell for a wrapper term wrap(cls, element)."""
        r = self.wrapcache.get(t)
        if r is not None and (r.a[0] in self.st.heap or r.a[0] in self.base_heap):
            return r
        cid = self.class_by_name(t.a[0])
        wi = self.wrap_fields(cid)
        self.nref += 1
        f = []
        if wi:
            f.append((wi[0], t.a[1]))
            if wi[1]:
                f.append((wi[1], self.kp()))
            m = {mk("nn", s("$element")): t.a[1], mk("nn", s("$kp")): self.kp()}
            f.extend((a, subst(b, m)) for a, b in self.wrapextra.get(cid, {}).items() if a not in self.wrap_over)
        f.extend(self.wrap_over.items())
        cell = ("inst", cid, tuple(sorted(f)))
        # visible in every state
        self.base_heap[self.nref] = cell
        r = mk("ref", self.nref)
        self.names[self.nref] = t
        self.shared[self.nref] = t
        self.wrapcache[t] = r
        return r

    def kp(self):
        r = self.shared.get("kp")
        return r if r is not None else s("kp")

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for st in stmts:
            if self.st.dead:
                return
            self.stmt(st)

    def stmt(self, n):
        m = getattr(self, "x_" + type(n).__name__, None)
        if m is None:
            self.unknown("statement " + type(n).__name__, n)
            return
        m(n)

    def x_Expr(self, n):
        self.ev(n.value)

    def x_Pass(self, n):
        pass

    def x_Global(self, n):
        self.stack[-1].globals |= set(n.names)

    def x_Nonlocal(self, n):
        self.stack[-1].nonlocals |= set(n.names)

    def x_Import(self, n):
        for a in n.names:
            top = a.name.split(".")[0]
            if self.has_mod(a.name):
                self.load(a.name)
                self.setname(a.asname or top, mk("mod", a.name if a.asname else top))
            else:
                self.setname(a.asname or top, ext(a.name if a.asname else top))

    def x_ImportFrom(self, n):
        mod = self.stack[-1].clo.mod
        if n.level:
            base = mod.split(".")
            if not self.modpath(mod).endswith("__init__.py"):
                base = base[:-1]
            base = base[:len(base) - (n.level - 1)] if n.level > 1 else base
            target = ".".join(base + ([n.module] if n.module else []))
        else:
            target = n.module
        for a in n.names:
            nm = a.asname or a.name
            if target.split(".")[0] == self.pkg:
                if self.has_mod(target + "." + a.name) and not (self.has_mod(target) and a.name in self.load(target)
                                                               and self.load(target)[a.name].op != "mod"):
                    self.load(target + "." + a.name)
                    self.setname(nm, mk("mod", target + "." + a.name))
                else:
                    env = self.load(target)
                    if a.name == "*":
                        for k, v in list(env.items()):
                            if not k.startswith("_"):
                                self.setname(k, v)
                    elif a.name in env:
                        self.setname(nm, env[a.name])
                    else:
                        self.setname(nm, self.unknown("import %s from %s" % (a.name, target), n))
            else:
                self.setname(nm, ext(target + "." + a.name))

    def x_FunctionDef(self, n):
        fr = self.stack[-1]
        fr.keep = True
        clo = Closure(n, fr.clo.mod, fr.fid, getattr(self, "defcls", None), n.name)
        self.closures.append(clo)
        t = mk("fn", len(self.closures) - 1)
        for d in reversed(n.decorator_list):
            t = self.decorate(d, t, clo, n)
        self.setname(n.name, t)

    x_AsyncFunctionDef = x_FunctionDef

    def decorate(self, d, t, clo, n):
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
            base = self.ev(d.value)
            if base.op == "prop":
                g, st, de = base.a
                return mk("prop", t if d.attr == "getter" else g, t if d.attr == "setter" else st,
                          t if d.attr == "deleter" else de)
        dt = self.ev(d.func) if isinstance(d, ast.Call) else self.ev(d)
        name = dt.a[0] if dt.op == "x" else ""
        if name == "builtins.property":
            return mk("prop", t, NONE, NONE)
        if name == "builtins.staticmethod":
            clo.kind = "static"
            return t
        if name == "builtins.classmethod":
            clo.kind = "class"
            return t
        if name == "functools.cached_property":
            clo.cached = True
            return mk("prop", t, NONE, NONE)
        if name in ("functools.lru_cache", "functools.cache"):
            clo.cached = True
            return t
        if name == "contextlib.contextmanager":
            clo.cm = True
            return t
        if name in ("functools.wraps", "typing.overload", "typing.no_type_check", "abc.abstractmethod"):
            return t
        if dt.op in ("fn", "bound"):
            if isinstance(d, ast.Call):
                dt = self.ev(d)
            return self.call(dt, [t], [], n)
        if name:
            self.notes.append("decorator %s ignored on %s" % (name, n.name))
            return t
        return self.call(dt, [t], [], n)

    def x_ClassDef(self, n):
        fr = self.stack[-1]
        bases = [self.ev(b) for b in n.bases]
        info = ClassInfo(n.name, fr.clo.mod, bases, n)
        self.classes.append(info)
        cid = len(self.classes) - 1
        prev = getattr(self, "defcls", None)
        self.defcls = info
        clo = Closure(n, fr.clo.mod, fr.fid, None, "<class %s>" % n.name)
        self.nfid += 1
        cf = Frame(("class", self.nfid), clo, len(self.pc))
        cf.encl = fr.fid
        if not hasattr(self, 'enclmap'):
            self.enclmap = {}
        self.enclmap[cf.fid] = fr.fid
        self.stack.append(cf)
        self.st.frames[cf.fid] = {}
        fr.keep = True
        self.block(n.body)
        info.ns = self.st.frames.pop(cf.fid)
        self.stack.pop()
        self.defcls = prev
        t = mk("cls", cid)
        for d in n.decorator_list:
            dt = self.ev(d.func if isinstance(d, ast.Call) else d)
            if dt.op == "x" and dt.a[0] == "dataclasses.dataclass":
                info.ns["__dataclass__"] = TRUE
        self.setname(n.name, t)

    def x_Return(self, n):
        v = self.ev(n.value) if n.value is not None else NONE
        if self.st.dead:
            return
        fr = self.stack[-1]
        cond = self.way(fr)
        if self.loops_in_frame(fr):
            cond = conj(cond, mk("loopexit", tuple(self.loops_in_frame(fr))))
        fr.returns.append((cond, v, self.st.copy(), n))
        if len(self.stack) == 1 or getattr(fr, "top", False):
            self.emit("return", v, n)
        self.st.dead = True

    def loops_in_frame(self, fr):
        return self.loops[fr.loopmark:] if hasattr(fr, "loopmark") else []

    def x_Raise(self, n):
        e = self.ev(n.exc) if n.exc is not None else (self.handling[-1] if self.exact and self.handling else mk("reraise"))
        if n.cause is not None:
            self.ev(n.cause)
        if self.st.dead:
            return
        self.do_raise(self.freeze(e), n)

    def do_raise(self, e, n):
        self.emit("raise", e, n)
        name = exc_name(e)
        for i in range(len(self.raise_sinks) - 1, -1, -1):
            sink = self.raise_sinks[i]
            if sink["depth"] is not None and name is not None and sink["catches"](name, self):
                cond = conj(*[g[0] if g[1] else neg(g[0]) for g in self.pc[sink["mark"]:]])
                lp = self.loops[sink["loops"]:]
                if lp:
                    cond = conj(cond, mk("loopexit", tuple(lp)))
                sink["raised"].append((cond, name, self.st.copy()))
                sink.setdefault("terms", []).append(e)
                for x in reversed(self.events):
                    if x.kind == "raise":
                        x.caught = True
                        break
                for fr in self.stack[sink["depth"]:]:
                    fr.raises.append((conj(*[g[0] if g[1] else neg(g[0]) for g in self.pc[fr.mark:]]),
                                      bool(self.loops_in_frame(fr))))
                self.st.dead = True
                return
        for fr in self.stack:
            fr.raises.append((conj(*[g[0] if g[1] else neg(g[0]) for g in self.pc[fr.mark:]]),
                              bool(self.loops_in_frame(fr))))
        if self.exact:
            fin = any(getattr(self.tryinfo.get(t[0], {}).get("node"), "finalbody", None) for t in self.trys)
            self.exits.append((self.events[-1], None if fin else self.st.copy()))
        self.st.dead = True

    def x_Assert(self, n):
        cond = self.truth(self.ev(n.test))
        d = decide(self.sim(cond), self.facts)
        if d is True:
            return
        if d is False:
            if n.msg is not None:
                self.emit("message", self.freeze(self.ev(n.msg)), n)
            self.emit("raise", mk("exn", "AssertionError"), n)
            self.st.dead = True
            return
        node = n

        def fail():
            if node.msg is not None:
                self.emit("message", self.freeze(self.ev(node.msg)), node)
            self.do_raise(mk("exn", "AssertionError"), node)
        self.if_(cond, lambda: None, fail, assertion=True)

    def x_If(self, n):
        cond = self.truth(self.ev(n.test))
        if self.st.dead:
            return
        self.if_(cond, lambda: self.block(n.body), lambda: self.block(n.orelse))

    def if_(self, cond, then, other, assertion=False):
        cond = self.sim(cond)
        d = decide(cond, self.facts)
        if d is True:
            return then()
        if d is False:
            return other()
        mark = len(self.pc)
        st0 = self.st
        self.st = st0.copy()
        self.push(cond, True)
        then()
        ra = conj(*[g[0] if g[1] else neg(g[0]) for g in self.pc[mark + 1:]])
        self.pop_to(mark)
        sa = self.st
        self.st = st0
        self.push(cond, False)
        other()
        rb = conj(*[g[0] if g[1] else neg(g[0]) for g in self.pc[mark + 1:]])
        self.pop_to(mark)
        sb = self.st
        if sa.dead and sb.dead:
            self.st = sb
            return
        if sa.dead:
            self.st = sb
            self.push(cond, False, "exit")
            if rb is not TRUE:
                self.push(rb, True, "exit")
            return
        if sb.dead:
            self.st = sa
            self.push(cond, True, "assert" if assertion else "exit")
            if ra is not TRUE:
                self.push(ra, True, "exit")
            return
        self.st = self.merge(cond, sa, sb)
        if ra is not TRUE or rb is not TRUE:
            self.push(ite(cond, ra, rb), True, "exit")

    def merge(self, cond, a, b):
        """State that is a when cond holds and b otherwise."""
        if a.dead:
            return b
        if b.dead:
            return a
        r = State()
        for fid in set(a.frames) | set(b.frames):
            ea, eb = a.frames.get(fid), b.frames.get(fid)
            if fid[0] in ("glob", "clsattr"):
                base = self.modenv[fid[1]] if fid[0] == "glob" else self.classes[fid[1]].ns
                ea, eb = dict(ea or {}), dict(eb or {})
                for k in set(ea) | set(eb):
                    ea.setdefault(k, base.get(k, mk("missing")))
                    eb.setdefault(k, base.get(k, mk("missing")))
            if ea is None or eb is None:
                r.frames[fid] = dict(ea if eb is None else eb)
                continue
            env = {}
            for k in list(ea) + [x for x in eb if x not in ea]:
                va, vb = ea.get(k), eb.get(k)
                if va is vb:
                    env[k] = va
                elif va is None:
                    env[k] = ite(cond, BOT, vb) if k.startswith("$") else vb
                elif vb is None:
                    env[k] = va
                else:
                    env[k] = self.ite_ref(cond, va, vb)
            r.frames[fid] = env
        for k in set(a.heap) | set(b.heap):
            ca = a.heap.get(k, self.base_heap.get(k))
            cb = b.heap.get(k, self.base_heap.get(k))
            if ca is cb or ca == cb:
                r.heap[k] = ca
            elif ca is None or cb is None:
                r.heap[k] = ca if cb is None else cb
            else:
                r.heap[k] = self.merge_cell(cond, ca, cb)
        return r

    def ite_ref(self, cond, a, b):
        return ite(cond, a, b)

    def merge_cell(self, cond, a, b):
        if a[0] != b[0]:
            return ("opaque", mk("havoc", "cell"))
        k = a[0]
        if k in ("list", "set"):
            i = 0
            while i < len(a[1]) and i < len(b[1]) and a[1][i] is b[1][i]:
                i += 1
            ra, rb = a[1][i:], b[1][i:]
            if len(ra) == len(rb):
                # same number of new items: gate item-wise
                suffix = tuple(ite(cond, x, y) for x, y in zip(ra, rb))
            else:
                # common tail
                j = 0
                while j < len(ra) and j < len(rb) and ra[-1 - j] is rb[-1 - j]:
                    j += 1
                tail = ra[len(ra) - j:]
                ra, rb = ra[:len(ra) - j], rb[:len(rb) - j]
                suffix = tuple(mk("gi", cond, x) for x in ra) + tuple(mk("gi", neg(cond), x) for x in rb) + tail
            return (k, a[1][:i] + suffix)
        if k == "dict":
            da, db = dict(a[1]), dict(b[1])
            keys = [x for x, _ in a[1]] + [x for x, _ in b[1] if x not in da]
            miss = mk("missing")
            return ("dict", tuple((x, ite(cond, da.get(x, miss), db.get(x, miss))) for x in keys))
        if k == "inst":
            da, db = dict(a[2]), dict(b[2])
            keys = sorted(set(da) | set(db))
            miss = mk("missing")
            return ("inst", a[1], tuple((x, ite(cond, da.get(x, miss), db.get(x, miss))) for x in keys))
        if k == "elem":
            ch = self.merge_cell(cond, ("list", a[3]), ("list", b[3]))[1]
            at = self.merge_cell(cond, ("dict", a[2]), ("dict", b[2]))[1]
            return ("elem", a[1], at, ch, ite(cond, a[4], b[4]))
        return tuple(ite(cond, x, y) if isinstance(x, T) and isinstance(y, T) else x for x, y in zip(a, b))

    # -------- assignment
    def x_Assign(self, n):
        v = self.ev(n.value)
        for t in n.targets:
            self.assign(t, v)

    def x_AnnAssign(self, n):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value))

    def x_AugAssign(self, n):
        op = BINOPS.get(type(n.op), "?")
        load = _as_load(n.target)
        cur = self.ev(load)
        v = self.ev(n.value)
        if cur.op == "ref" and op == "+":
            cell = self.cell(cur)
            if cell[0] == "list":
                self.setcell(cur, ("list", cell[1] + tuple(self.spread(v))))
                return
        self.assign(n.target, self.binop(op, cur, v))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setname(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            items = self.finite(v)
            if items is not None and not star and len(items) == len(t.elts):
                for x, y in zip(t.elts, items):
                    self.assign(x, y)
            elif items is not None and star and len(items) >= len(t.elts) - 1:
                k = star[0]
                after = len(t.elts) - k - 1
                for x, y in zip(t.elts[:k], items[:k]):
                    self.assign(x, y)
                mid = items[k:len(items) - after]
                self.assign(t.elts[k].value, self.newref(("list", tuple(mid))))
                for x, y in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(x, y)
            else:
                for i, x in enumerate(t.elts):
                    if isinstance(x, ast.Starred):
                        self.assign(x.value, self.item(v, mk("slice", c(i), c(i + 1 - len(t.elts)) if i + 1 < len(t.elts) else NONE, NONE)))
                    elif star and i > star[0]:
                        self.assign(x, self.item(v, c(i - len(t.elts))))
                    else:
                        self.assign(x, self.item(v, c(i)))
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            self.setitem(b, self.ev(t.slice), v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            self.unknown("assignment target", t)

    def x_Delete(self, n):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.st.frames[self.stack[-1].fid].pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value)
                self.delfield(b, t.attr, n)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value)
                i = self.ev(t.slice)
                self.delitem(b, i, n)

    def delfield(self, b, name, n):
        self.emit("delattr", mk("tuple", self.freeze(b), c(name)), n)
        if b.op == "ref" and self.cell(b)[0] == "inst" and name in dict(self.cell(b)[2]):
            self.setattr(b, name, mk("missing"), n)

    def delitem(self, b, i, n):
        if b.op == "instdict" and i.op == "c" and isinstance(cv(i), str):
            self.delfield(b.a[0], cv(i), n)
            return
        if b.op == "ref":
            cell = self.cell(b)
            if cell[0] == "dict":
                self.setcell(b, ("dict", tuple((k, v) for k, v in cell[1] if k is not i)))
                return
            if cell[0] == "list" and is_c(i) and all(x.op not in ("star", "gi") for x in cell[1]):
                l = list(cell[1])
                try:
                    del l[cv(i)]
                except (IndexError, TypeError):
                    pass
                self.setcell(b, ("list", tuple(l)))
                return
        if b.op == "attrib":
            self.emit("mut", mk("mut", "delattrib", self.freeze(b.a[0]), (self.freeze(i),)), n)
            return
        self.emit("mut", mk("mut", "delitem", self.freeze(b), (self.freeze(i),)), n)

    def setname(self, name, v):
        fr = self.stack[-1]
        if name in fr.globals:
            if fr.clo.mod in self.modenv:
                self.st.frames.setdefault(("glob", fr.clo.mod), {})[name] = v
                self.emit("setglobal", mk("tuple", c(fr.clo.mod), c(name), self.freeze(v)), fr.clo.node)
            return
        if name in fr.nonlocals:
            fid = fr.clo.frame
            while fid is not None:
                env = self.st.frames.get(fid)
                if env is not None and name in env:
                    env[name] = v
                    return
                fid = self.encl(fid)
        self.st.frames[fr.fid][name] = v

    def encl(self, fid):
        return self.enclmap.get(fid) if hasattr(self, "enclmap") else None

    # -------- loops
    def x_For(self, n):
        it = self.ev(n.iter)
        if it.op != "ref" and is_elem(it, self):
            self.emit("liveiter", self.freeze(it), n)
        self.for_loop(n, it, lambda item: self.assign(n.target, item), n.body, n.orelse)

    x_AsyncFor = x_For

    def for_loop(self, n, it, bind, body, orelse, depth=0):
        if it.op == "ite" and depth < 2 and not orelse and any(x.op in ("comp", "q", "api", "list", "tuple", "ref") for x in it.a[1:]):
            self.if_(self.sim(it.a[0]), lambda: self.for_loop(n, it.a[1], bind, body, orelse, depth + 1),
                     lambda: self.for_loop(n, it.a[2], bind, body, orelse, depth + 1))
            return
        items = self.finite(it)
        if items is not None and len(items) <= UNROLL:
            lp = Loop(len(self.pc))
            self.stack[-1].loops.append(lp)
            mark = len(self.pc)
            for x in items:
                if self.st.dead:
                    break
                lp.continues = []
                m2 = len(self.pc)
                if x.op == "gi":
                    self.if_(x.a[0], lambda x=x: (bind(x.a[1]), self.block(body)), lambda: None)
                else:
                    bind(x)
                    self.block(body)
                self.join_exits(lp.continues, m2)
            if not self.st.dead:
                self.block(orelse)
            self.stack[-1].loops.pop()
            self.join_exits(lp.breaks, mark)
            return
        seg = self.cell(it)[1] if it.op == "ref" and self.cell(it)[0] == "list" else it.a if it.op in ("list", "tuple") else ()
        if 1 < len(seg) <= 4 and any(x.op == "star" for x in seg) and not orelse and depth < 3 and not has_break(body):
            # one run of items after the other
            for x in tuple(seg):
                if self.st.dead:
                    break
                self.for_loop(n, x.a[0] if x.op == "star" else mk("list", x), bind, body, orelse, depth + 1)
            return
        X, cond, item = self.iterate(it)
        self.sym_loop(n, ("for", X), cond, lambda: bind(item), body, orelse)

    def join_exits(self, exits, mark):
        """Merge states that left by break/continue back in."""
        if not exits:
            return
        live = self.st
        for cond, st in reversed(exits):
            if live.dead:
                live = st
            else:
                live = self.merge(cond, st, live)
        # facts gained since mark may no longer hold
        self.pop_to(mark)
        self.st = live
        self.st.dead = False

    def x_While(self, n):
        if getattr(self, "unroll", 0):
            # the scenario decides the condition: execute the iterations one after the other
            lp = Loop(len(self.pc))
            self.stack[-1].loops.append(lp)
            mark = len(self.pc)
            open_ = True
            for _ in range(self.unroll):
                if self.st.dead:
                    open_ = False
                    break
                wc = self.sim(self.truth(self.ev(n.test)))
                if wc is FALSE:
                    open_ = False
                    self.block(n.orelse)
                if wc is not TRUE:
                    break
                lp.continues = []
                m2 = len(self.pc)
                self.block(n.body)
                self.join_exits(lp.continues, m2)
            self.stack[-1].loops.pop()
            if open_ and not self.st.dead:
                self.sym_loop(n, ("while", n.test), TRUE, lambda: None, n.body, n.orelse)
            self.join_exits(lp.breaks, mark)
            return
        self.sym_loop(n, ("while", n.test), TRUE, lambda: None, n.body, n.orelse)

    def x_Break(self, n):
        self.emit("break", NONE, n)
        self._exit("breaks")

    def x_Continue(self, n):
        self._exit("continues")

    def _exit(self, which):
        lp = self.stack[-1].loops[-1]
        cond = conj(*[g[0] if g[1] else neg(g[0]) for g in self.pc[lp.mark:]])
        getattr(lp, which).append((cond, self.st.copy()))
        self.st.dead = True

    def sym_loop(self, n, head, cond, bind, body, orelse):
        fr = self.stack[-1]
        st0 = self.st.copy()
        kind = head[0]
        nev, nun = len(self.events), len(self.unknowns)
        nret, nrai = len(fr.returns), [len(f.raises) for f in self.stack]
        nsink = [len(x["raised"]) for x in self.raise_sinks]

        def once(env_over, cell_over, record):
            self.st = st0.copy()
            for (fid, k), v in env_over.items():
                self.st.frames[fid][k] = v
            for k, v in cell_over.items():
                self.st.heap[k] = v
            mark = len(self.pc)
            lp = Loop(mark)
            fr.loops.append(lp)
            wc = None
            if kind == "while":
                self.loops.append(mk("while", TRUE))
                wc = self.sim(self.truth(self.ev(head[1])))
                self.loops[-1] = mk("while", self.freeze(wc))
                if wc is not TRUE:
                    self.push(wc, True, "loop")
                lp.mark = len(self.pc)
            else:
                self.loops.append(mk("for", self.freeze(head[1])))
                if cond is not TRUE:
                    self.push(cond, True, "loop")
                lp.mark = len(self.pc)
                bind()
            m2 = len(self.pc)
            self.block(body)
            end = self.st
            self.join_exits(lp.continues, m2)
            end = self.st
            self.pop_to(mark)
            self.loops.pop()
            fr.loops.pop()
            return end, lp, wc

        def rollback():
            del self.events[nev:]
            del self.unknowns[nun:]
            del fr.returns[nret:]
            for f, k in zip(self.stack, nrai):
                del f.raises[k:]
            for x, k in zip(self.raise_sinks, nsink):
                del x["raised"][k:]

        end, lp, wc = once({}, {}, False)
        # what does one iteration change?
        ends = [] if end.dead else [end]
        ends += [b for _, b in lp.breaks]
        env_over, cell_over, modes = {}, {}, {}
        for e in ends:
            for fid, env in e.frames.items():
                env0 = st0.frames.get(fid)
                if env0 is None:
                    continue
                for k, v in env.items():
                    if k in env0 and env0[k] is not v:
                        env_over[(fid, k)] = mk("mu", k)
            for k, cell in e.heap.items():
                c0 = st0.heap.get(k, self.base_heap.get(k))
                if c0 is None or c0 == cell:
                    continue
                if c0[0] in ("list", "set") and cell[0] == c0[0] and cell[1][:len(c0[1])] == c0[1] and modes.get(k) != "mu":
                    modes[k] = "delta"
                    cell_over[k] = (c0[0], ())
                elif c0[0] == "dict" and cell[0] == "dict" and cell[1][:len(c0[1])] == c0[1] and modes.get(k) != "mu":
                    modes[k] = "delta"
                    cell_over[k] = ("dict", ())
                elif c0[0] == "elem" and cell[0] == "elem" and cell[3][:len(c0[3])] == c0[3] \
                        and cell[2] == c0[2] and cell[4] is c0[4] and modes.get(k) != "mu":
                    modes[k] = "delta"
                    cell_over[k] = (c0[0], c0[1], c0[2], (), c0[4])
                elif c0[0] == "inst":
                    modes[k] = "mu"
                    d0, d1 = dict(c0[2]), dict(cell[2])
                    prev = dict(cell_over[k][2]) if k in cell_over else dict(d0)
                    for f in set(d0) | set(d1):
                        if d0.get(f) is not d1.get(f):
                            prev[f] = mk("mu", "%s.%s" % (self.names.get(k, k), f))
                    cell_over[k] = ("inst", c0[1], tuple(sorted(prev.items())))
                else:
                    modes[k] = "mu"
                    cell_over[k] = mu_cell(c0)
        if kind == "while":
            self.first += [e for e in self.events[nev:] if e.kind in ("mut", "store", "listmut", "delattr")]
        if env_over or cell_over:
            self.first_out += [e for e in self.events[nev:] if e.kind in ("log", "print", "message", "raise")]
        rollback()
        end, lp, wc = once(env_over, cell_over, True)
        X = mk("for", self.freeze(head[1])) if kind == "for" else mk("while", self.freeze(wc))
        # counting while loops are for loops over a range
        self.st = st0
        rng = None
        if kind == "while" and not end.dead:
            rng = self.counting(wc, env_over, st0, end)
            if rng:
                R, ren = rng
                X = mk("for", R)
                for e in self.events[nev:]:
                    e.loops = tuple(X if l is mk("while", self.freeze(wc)) else subst(l, ren) for l in e.loops)
                    e.data = subst(e.data, ren) if isinstance(e.data, T) else e.data
                    e.guards = tuple((subst(g, ren), v) for g, v in e.guards if self.freeze(g) is not self.freeze(wc))
        ren = rng[1] if rng else {}
        Xi = X.a[0]

        def fold(init, upd, name):
            upd = subst(self.freeze_in(end, upd), ren) if ren else upd
            mu = mk("mu", name)
            if upd.op == "cat" and upd.a[0] is mu and not any(contains(x, mu) for x in upd.a[1:]):
                return cat(init, mk("catcomp", Xi, cond, cat(*upd.a[1:])))
            if upd is mu:
                return init
            # optional accumulation
            if upd.op == "ite" and kind == "for":
                for a, b, cc in ((upd.a[1], upd.a[2], upd.a[0]), (upd.a[2], upd.a[1], neg(upd.a[0]))):
                    if b is mu and a.op == "cat" and a.a[0] is mu and not any(contains(x, mu) for x in a.a[1:]):
                        return cat(init, mk("catcomp", Xi, conj(cond, cc), cat(*a.a[1:])))
            return mk("fold", X, init, subst(upd, {mu: mk("mu", "")}))
        if end.dead and not lp.breaks:
            # body always leaves: after the loop only the zero-iteration state remains
            pass
        else:
            src = end if not end.dead else lp.breaks[-1][1]
            for (fid, k), mu in env_over.items():
                self.st.frames[fid][k] = fold(st0.frames[fid][k], src.frames[fid].get(k, mu), k)
            # names first bound in the loop
            for fid, env in src.frames.items():
                if fid in self.st.frames:
                    for k, v in env.items():
                        if k not in self.st.frames[fid]:
                            self.st.frames[fid][k] = mk("fold", X, BOT, v) if v.op not in ("fn", "cls", "mod", "x") else v
            for k in cell_over:
                c0 = st0.heap.get(k, self.base_heap.get(k))
                c1 = src.heap.get(k)
                if modes[k] == "delta":
                    g = lambda x: (subst(x, ren) if ren else x)
                    if c0[0] in ("list", "set"):
                        its = [self.comp_item(Xi, cond, g(self.freeze_in(src, x))) for x in c1[1]]
                        its = merge_comps(its)
                        self.st.heap[k] = (c0[0], c0[1] + tuple(mk("star", y) for y in its))
                    elif c0[0] == "elem":
                        its = [self.comp_item(Xi, cond, g(self.freeze_in(src, x))) for x in c1[3]]
                        self.st.heap[k] = (c0[0], c0[1], c0[2], c0[3] + tuple(mk("star", y) for y in its), c0[4])
                    else:
                        its = tuple((mk("star", self.comp_item(Xi, cond, g(a))), g(self.freeze_in(src, b))) for a, b in c1[1])
                        self.st.heap[k] = ("dict", c0[1] + its)
                elif c0[0] == "inst":
                    d0, d1 = dict(c0[2]), dict(c1[2])
                    out = {}
                    for f in set(d0) | set(d1):
                        v = d1.get(f, d0.get(f))
                        out[f] = v if v is d0.get(f) else mk("fold", X, d0.get(f, BOT), v)
                    self.st.heap[k] = ("inst", c0[1], tuple(sorted(out.items())))
                else:
                    self.st.heap[k] = fold_cell(X, c0, c1)
            # cells created inside remain readable
            for k, v in src.heap.items():
                if k not in self.st.heap:
                    self.st.heap[k] = v
        if kind == "while" and not lp.breaks and wc is not None and wc.op == "c" and wc.a[1]:
            self.st.dead = True
        if not self.st.dead:
            self.block(orelse)

    def freeze_in(self, st, t):
        cur = self.st
        self.st = st
        try:
            return self.freeze(t)
        finally:
            self.st = cur

    def comp_item(self, X, cond, item):
        if item.op == "gi":
            return mk("comp", X, conj(cond, item.a[0]), item.a[1])
        if item.op == "star":
            return mk("flat", X, cond, item.a[0])
        return mk("comp", X, cond, item)

    def walking(self, wc, env_over, st0, end):
        """A loop whose condition depends on one number that grows by a constant."""
        if wc is None or wc.op == "c":
            return None
        keys = [(k, v) for k, v in env_over.items() if contains(wc, v)]
        if len(keys) != 1 or keys[0][1].op != "mu":
            return None
        (fid, name), mu = keys[0]
        upd = end.frames[fid].get(name)
        init = self.freeze(st0.frames[fid][name])
        if init.op == "c" and type(cv(init)) is int and upd is not None and upd.op == "op" and upd.a[0] == "+" \
                and upd.a[1] is mu and upd.a[2].op == "c":
            R = mk("walk", init, upd.a[2], self.freeze(subst(wc, {mu: s("$at#int")})))
            return R, {mu: mk("iv", R)}
        # a number counted down to a constant
        if upd is not None and upd.op == "op" and (upd.a[0] == "-" and is_c(upd.a[2], 1) or upd.a[0] == "+" and is_c(upd.a[2], -1)) \
                and upd.a[1] is mu:
            lo = None
            if wc is truthy(mu) or wc is neg(cmp("==", mu, c(0))):
                lo = 0
            elif wc.op == "cmp" and wc.a[0] == "<" and wc.a[2] is mu and is_c(wc.a[1]) and type(cv(wc.a[1])) is int:
                lo = cv(wc.a[1])
            elif wc.op == "not" and wc.a[0].op == "cmp" and wc.a[0].a[0] == "<" and wc.a[0].a[1] is mu and is_c(wc.a[0].a[2]) \
                    and type(cv(wc.a[0].a[2])) is int:
                lo = cv(wc.a[0].a[2]) - 1
            if lo is not None:
                R = mk("range", c(lo), init, c(1))
                return R, {mu: arith("-", init, mk("iv", R)) if lo == 0 else mk("down", init, mk("iv", R))}
        # data consumed from the front in pieces of one size
        if upd is not None and upd.op == "sl" and upd.a[0] is mu and upd.a[2] is NONE and upd.a[3] is NONE and is_c(upd.a[1]) \
                and type(cv(upd.a[1])) is int and cv(upd.a[1]) > 0:
            R = None
            if wc in (truthy(mu), cmp("<", c(0), mk("len", mu)), neg(cmp("==", mk("len", mu), c(0))), truthy(mk("len", mu)), neg(cmp("==", mu, c(b"")))):
                R = mk("range", c(0), mk("len", init), upd.a[1])
            elif wc.op == "cmp" and wc.a[0] == "<" and wc.a[2] is mk("len", mu) and is_c(wc.a[1]) and cv(wc.a[1]) >= 0:
                R = mk("walk", c(0), upd.a[1], cmp("<", wc.a[1], arith("-", mk("len", init), s("$at#int"))))
            elif wc.op == "not" and wc.a[0].op == "cmp" and wc.a[0].a[0] == "<" and wc.a[0].a[1] is mk("len", mu) and is_c(wc.a[0].a[2]) and cv(wc.a[0].a[2]) > 0:
                R = mk("walk", c(0), upd.a[1], neg(cmp("<", arith("-", mk("len", init), s("$at#int")), wc.a[0].a[2])))
            if R is not None:
                return R, {mu: mk("sl", init, mk("iv", R), NONE, NONE)}
        return None

    def counting(self, wc, env_over, st0, end):
        if wc is None or wc.op != "cmp" or wc.a[0] != "<" or wc.a[1].op != "mu":
            return self.walking(wc, env_over, st0, end)
        mu, bound = wc.a[1], wc.a[2]
        if mu.op != "mu":
            return None
        key = [k for k, v in env_over.items() if v is mu]
        if len(key) != 1 or any(contains(bound, v) for v in env_over.values()):
            return None
        fid, name = key[0]
        upd = end.frames[fid].get(name)
        init = st0.frames[fid][name]
        if upd is not None and upd.op == "op" and upd.a[0] == "+" and upd.a[1] is mu and upd.a[2].op == "c":
            R = mk("range", self.freeze(init), self.freeze(bound), upd.a[2])
            return R, {mu: mk("iv", R)}
        return None

    # -------- try / with
    def x_Try(self, n):
        handlers = []
        for h in n.handlers:
            if h.type is None:
                names = ("BaseException",)
            else:
                t = self.ev(h.type)
                names = exc_names(t, self)
            handlers.append((names, h))
        self.do_try(n, lambda: self.block(n.body),
                    [(names, (lambda h=h: self.block(h.body)), h.name, h) for names, h in handlers],
                    lambda: self.block(n.orelse), lambda: self.block(n.finalbody) if n.finalbody else None)

    x_TryStar = x_Try

    def do_try(self, n, body, handlers, orelse, final):
        self.ntry += 1
        tid = self.ntry
        hnames = tuple(h[0] for h in handlers)
        self.tryinfo[tid] = {"handlers": hnames, "node": n, "loops": len(self.loops)}
        exc = FALSE if self.exact else mk("exc", tid, hnames)
        off = 0 if self.exact else 1
        mark = len(self.pc)
        st0 = self.st.copy()
        sink = None
        if handlers:
            allnames = [x for h in hnames for x in h]
            sink = {"depth": len(self.stack), "mark": mark + off, "raised": [], "loops": len(self.loops),
                    "catches": lambda name, i: any(exc_match(name, x, i) for x in allnames)}
            self.raise_sinks.append(sink)
            if not self.exact:
                self.push(exc, False, "try")
        self.trys.append((tid, "body"))
        body()
        self.trys.pop()
        if sink:
            self.raise_sinks.pop()
        if not self.st.dead:
            self.trys.append((tid, "else"))
            orelse()
            self.trys.pop()
        rest = [(g[0], g[1], g[2]) for g in self.pc[mark + (off if handlers else 0):]]
        self.pop_to(mark)
        out = self.st
        bodyst = out
        alts = []
        for i, (names, hb, asname, node) in enumerate(handlers):
            caught = [(cc, st) for cc, nm, st in (sink["raised"] if sink else []) if
                      any(exc_match(nm, x, self) for x in names)
                      and not any(exc_match(nm, x, self) for h in handlers[:i] for x in h[0])]
            if self.exact:
                if not caught:
                    continue
                self.st = caught[-1][1]
                for cc, x in reversed(caught[:-1]):
                    self.st = self.merge(cc, x, self.st)
                self.st.dead = False
                xt = [e for e, (cc, nm, st_) in zip(sink["terms"], sink["raised"]) if (cc, st_) in [(a, b) for a, b in caught]]
                self.handling.append(xt[-1])
            else:
                self.st = self.handler_state(st0, bodyst, tid, caught)
            if exc is FALSE:
                sel = FALSE
            else:
                sel = exc if len(handlers) == 1 else conj(exc, mk("exc", tid, (names,)))
            if caught:
                sel = disj(sel, *[cc for cc, _ in caught])
            self.push(sel, True, "handler")
            self.trys.append((tid, "handler", names))
            if asname:
                self.setname(asname, self.handling[-1] if self.exact else mk("excval", tid, names))
            hb()
            if self.exact:
                self.handling.pop()
            self.trys.pop()
            hrest = self.pc[mark + 1:]
            self.pop_to(mark)
            alts.append((sel, self.st))
        st = out
        for sel, h in reversed(alts):
            if h.dead:
                continue
            if st.dead:
                st = h
            else:
                st = self.merge(sel, h, st)
        self.st = st
        if not st.dead:
            for g in rest:
                if all(h.dead for _, h in alts):
                    self.push(g[0], g[1], "exit")
            for sel, h in alts:
                if h.dead:
                    self.push(sel, False, "exit")
        if final:
            dead = self.st.dead
            if dead:
                self.st = self.st.copy()
                self.st.dead = False
            self.trys.append((tid, "finally"))
            final()
            self.trys.pop()
            if dead:
                self.st.dead = True

    def handler_state(self, st0, body, tid, caught):
        st = st0.copy()
        for fid, env in body.frames.items():
            if fid not in st.frames:
                continue
            for k, v in env.items():
                v0 = st.frames[fid].get(k)
                if v0 is not v:
                    cs = {x.frames.get(fid, {}).get(k) for _, x in caught}
                    st.frames[fid][k] = mk("havoc", tid, k, v0 if v0 is not None else BOT, v)
        for k, v in body.heap.items():
            if k not in st.heap:
                st.heap[k] = v
        return st

    def x_With(self, n):
        self.with_items(n, list(n.items))

    x_AsyncWith = x_With

    def with_items(self, n, items):
        if not items:
            self.block(n.body)
            return
        it = items[0]
        v = self.ev(it.context_expr)
        if v.op == "cm":
            fn, args, kw, selfv = v.a
            hookfr = self.stack[-1]

            def at_yield(val):
                # the with body runs in the frame of the with statement
                cur = self.stack
                self.stack = cur + [hookfr]
                hookfr_mark = hookfr.mark
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, val)
                self.with_items(n, items[1:])
                self.stack = cur
                return NONE
            self.call_fn(fn, list(args), list(kw), n, hook=at_yield)
            return
        if v.op == "call" and v.a[0].op == "x" and v.a[0].a[0] == "contextlib.suppress":
            names = tuple(x for a in v.a[1] for x in exc_names(a, self))
            self.do_try(n, lambda: self.with_items(n, items[1:]), [(names, lambda: None, None, n)], lambda: None, None)
            return
        ent = v
        if v.op == "ref" and self.cell(v)[0] == "inst":
            m = self.lookup(self.cell(v)[1], "__enter__")
            if m:
                ent = self.call(self.getattr(v, "__enter__", n), [], [], n)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, ent)
        self.trys.append((id(n), "with", self.freeze(v)))
        self.with_items(n, items[1:])
        self.trys.pop()
        if not self.st.dead:
            self.emit("close", self.freeze(v), n)
        if v.op == "ref" and self.cell(v)[0] == "inst" and self.lookup(self.cell(v)[1], "__exit__") and not self.st.dead:
            self.call(self.getattr(v, "__exit__", n), [NONE, NONE, NONE], [], n)

    def x_Match(self, n):
        subj = self.ev(n.subject)

        def go(cases):
            if not cases:
                return
            cs = cases[0]
            cond, binds = self.pattern(cs.pattern, subj)
            for k, v in binds:
                self.setname(k, v)
            if cs.guard is not None:
                cond = conj(cond, self.truth(self.ev(cs.guard)))
            self.if_(cond, lambda: self.block(cs.body), lambda: go(cases[1:]))
        go(n.cases)

    def pattern(self, p, v):
        if isinstance(p, ast.MatchValue):
            return cmp("==", v, self.ev(p.value)), []
        if isinstance(p, ast.MatchSingleton):
            return cmp("is", v, c(p.value)), []
        if isinstance(p, ast.MatchOr):
            cs = [self.pattern(x, v) for x in p.patterns]
            return disj(*[x[0] for x in cs]), [b for x in cs for b in x[1]]
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return TRUE, [(p.name, v)] if p.name else []
            cc, b = self.pattern(p.pattern, v)
            return cc, b + ([(p.name, v)] if p.name else [])
        if isinstance(p, ast.MatchSequence):
            cs, bs = [], []
            for i, x in enumerate(p.patterns):
                cc, b = self.pattern(x, self.item(v, c(i)))
                cs.append(cc)
                bs += b
            return conj(*cs), bs
        if isinstance(p, ast.MatchClass):
            return self.isinstance_(v, self.ev(p.cls)), []
        return self.unknown("pattern", p), []

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        if self.st.dead:
            return BOT
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return self.unknown("expression " + type(n).__name__, n)
        return m(n)

    def e_Constant(self, n):
        return c(n.value) if not isinstance(n.value, complex) else self.unknown("complex", n)

    def e_Name(self, n):
        return self.name(n.id, n)

    def name(self, nm, n=None):
        fr = self.stack[-1]
        env = self.st.frames.get(fr.fid)
        if env is not None and nm in env:
            v = env[nm]
            return self.after(v) if v.op == "." else self.sim(v)
        fid = fr.clo.frame if not isinstance(fr.clo.node, ast.ClassDef) else fr.clo.frame
        guard = 0
        while fid is not None and guard < 50:
            guard += 1
            env = self.st.frames.get(fid)
            if fid[0] == "mod" and nm in self.st.frames.get(("glob", fid[1]), ()):
                return self.sim(self.st.frames[("glob", fid[1])][nm])
            if env is None and fid[0] == "mod":
                env = self.modenv.get(fid[1])
            if env is None:
                env = self.keptenv.get(fid) if hasattr(self, "keptenv") else None
            if env is not None and nm in env and fid[0] != "class":
                return env[nm]
            fid = self.encl(fid)
        if nm in self.st.frames.get(("glob", fr.clo.mod), ()):
            return self.sim(self.st.frames[("glob", fr.clo.mod)][nm])
        env = self.modenv.get(fr.clo.mod)
        if env is not None and nm in env:
            return env[nm]
        if nm in BUILTINS:
            return ext("builtins." + nm)
        if nm == "__class__":
            for f in reversed(self.stack):
                if f.clo.cls:
                    return mk("cls", self.classes.index(f.clo.cls))
        return self.unknown("name " + nm, n)

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v)
        return v

    def e_Attribute(self, n):
        return self.getattr(self.ev(n.value), n.attr, n)

    def e_Subscript(self, n):
        b = self.ev(n.value)
        return self.item(b, self.ev(n.slice), n)

    def e_Slice(self, n):
        g = lambda x: self.ev(x) if x is not None else NONE
        return mk("slice", g(n.lower), g(n.upper), g(n.step))

    def e_Starred(self, n):
        return mk("star", self.ev(n.value))

    def _items(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.spread(self.ev(e.value)))
            else:
                out.append(self.ev(e))
        return out

    def spread(self, v):
        items = self.finite(v)
        if items is not None:
            return items
        if v.op == "ref" and self.cell(v)[0] == "list":
            return list(self.cell(v)[1])
        return [mk("star", self.freeze(v))]

    def e_Tuple(self, n):
        return mk("tuple", *self._items(n.elts))

    def e_List(self, n):
        return self.newref(("list", tuple(self._items(n.elts))))

    def e_Set(self, n):
        return self.newref(("set", tuple(self._items(n.elts))))

    def e_Dict(self, n):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.ev(v)
                dd = self.as_dict(d)
                if dd is not None:
                    items += list(dd)
                else:
                    items.append((mk("star", self.freeze(d)), NONE))
            else:
                items.append((self.ev(k), self.ev(v)))
        out = {}
        for k, v in items:
            out[k] = v
        return self.newref(("dict", tuple(out.items())))

    def as_dict(self, d):
        if d.op == "ref" and self.cell(d)[0] == "dict":
            return self.cell(d)[1]
        if d.op == "dict":
            return d.a[0]
        if d.op == "container":
            return tuple((c(k), v) for k, v in d.a[0])
        return None

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(c(v.value))
            else:
                x = self.ev(v.value)
                if v.conversion == ord("r"):
                    parts.append(mk("repr", self.freeze(x)))
                elif v.format_spec is not None:
                    spec = self.ev(v.format_spec)
                    if is_c(spec, "") or is_c(spec, "d") and numeric(x):
                        parts.append(self.strof(x))
                    else:
                        parts.append(mk("fmt", self.freeze(x), spec))
                else:
                    parts.append(self.strof(x))
        return cat(*parts)

    def strof(self, x):
        x = self.freeze(x) if x.op == "ref" else x
        if x.op == "c":
            if isinstance(x.a[1], str):
                return x
            return c(str(x.a[1]))
        if x.op == "wrap" or x.op == "obj":
            return mk("str", x)
        if symtype(x) == "str":
            return x
        if x.op != "ite" and is_bool(x):
            return ite(x, c("True"), c("False"))
        if x.op == "ite":
            return ite(x.a[0], self.strof(x.a[1]), self.strof(x.a[2]))
        return x if x.op in ("cat", "str", "join", "b64") else mk("str", x)

    def e_FormattedValue(self, n):
        return self.strof(self.ev(n.value))

    def e_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        return self.binop(BINOPS.get(type(n.op), "?"), a, b, n)

    def binop(self, op, a, b, n=None):
        if op == "%" and a.op == "c" and isinstance(a.a[1], (str, bytes)):
            r = self.percent(cv(a), b)
            if r is not None:
                return r
        if op == "+":
            la, lb = self.finite_list(a), self.finite_list(b)
            if la is not None and lb is not None:
                if a.op == "tuple" and b.op == "tuple":
                    return mk("tuple", *(la + lb))
                return self.newref(("list", tuple(la + lb)))
            if (a.op == "ref" and self.cell(a)[0] == "list") or (b.op == "ref" and self.cell(b)[0] == "list"):
                return self.newref(("list", tuple(self.spread(a)) + tuple(self.spread(b))))
        if op == "*":
            la = self.finite_list(a)
            if la is not None and b.op == "c" and isinstance(cv(b), int) and cv(b) < 100:
                return self.newref(("list", tuple(la * cv(b)))) if a.op == "ref" else mk("tuple", *(la * cv(b)))
        if op == "|":
            da, db = self.as_dict(a), self.as_dict(b)
            if da is not None and db is not None:
                d = dict(da)
                d.update(dict(db))
                return self.newref(("dict", tuple(d.items())))
        if op == "/" and a.op == "c" and isinstance(a.a[1], str):
            return mk("named", cv(a), self.freeze(b))
        if a.op == "ite" and (a.a[1].op in ("ref", "c", "tuple") or a.a[2].op in ("ref", "c", "tuple")) and op in "+-":
            return ite(a.a[0], self.binop(op, a.a[1], b), self.binop(op, a.a[2], b))
        a2, b2 = (self.freeze(a) if a.op == "ref" else a), (self.freeze(b) if b.op == "ref" else b)
        return arith(op, a2, b2)

    def finite_list(self, t):
        if t.op == "tuple" and not any(x.op in ("star", "gi") for x in t.a):
            return list(t.a)
        if t.op == "ref" and self.cell(t)[0] == "list" and not any(x.op in ("star", "gi") for x in self.cell(t)[1]):
            return list(self.cell(t)[1])
        if t.op == "list" and not any(x.op in ("star", "gi") for x in t.a):
            return list(t.a)
        return None

    def percent(self, fmt, b):
        import re
        args = self.finite(b) if b.op == "tuple" else [b]
        parts, i, k = [], 0, 0
        enc = (lambda x: x) if isinstance(fmt, str) else (lambda x: x.encode("latin1"))
        s_ = fmt if isinstance(fmt, str) else fmt.decode("latin1")
        for m in re.finditer(r"%(?:\((\w+)\))?([#0\- +]?\d*(?:\.\d+)?)([sdirxX%])", s_):
            parts.append(c(enc(s_[i:m.start()])))
            i = m.end()
            if m.group(3) == "%":
                parts.append(c(enc("%")))
                continue
            if m.group(1):
                d = self.as_dict(b)
                v = dict(d).get(c(m.group(1))) if d else None
                if v is None:
                    return None
            else:
                if args is None or k >= len(args):
                    return None
                v = args[k]
                k += 1
            v = self.freeze(v)
            if m.group(2) or m.group(3) in "rxX":
                parts.append(mk("fmt", v, c(m.group(2) + m.group(3))))
            else:
                parts.append(self.strof(v))
        parts.append(c(enc(s_[i:])))
        return cat(*parts)

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            return neg(self.truth(v))
        if v.op == "c" and not isinstance(cv(v), (str, bytes)) and cv(v) is not None:
            return c(-cv(v) if isinstance(n.op, ast.USub) else ~cv(v) if isinstance(n.op, ast.Invert) else +cv(v))
        return mk("un", type(n.op).__name__, v)

    def e_BoolOp(self, n):
        return self.boolop(n.values, isinstance(n.op, ast.And))

    def boolop(self, values, isand):
        v = self.ev(values[0])
        if len(values) == 1:
            return v
        cond = self.sim(self.truth(v))
        d = decide(cond, self.facts)
        if d is not None:
            if d == isand:
                return self.boolop(values[1:], isand)
            return v
        box = []
        mark = len(self.pc)
        st0 = self.st
        self.st = st0.copy()
        self.push(cond, isand)
        r = self.boolop(values[1:], isand)
        extra = conj(*[g[0] if g[1] else neg(g[0]) for g in self.pc[mark + 1:]])
        self.pop_to(mark)
        sa = self.st
        if sa.dead:
            self.st = st0
            self.push(cond, not isand, "exit")
            return v
        self.st = self.merge(cond if isand else neg(cond), sa, st0)
        if extra is not TRUE:
            self.push(ite(cond, extra, TRUE) if isand else ite(cond, TRUE, extra), True, "exit")
        if is_bool(v) and is_bool(r):
            return conj(v, r) if isand else disj(v, r)
        if isand:
            return ite(cond, r, v)
        return ite(cond, v, r)

    def truth(self, v):
        if v.op == "ref":
            cell = self.cell(v)
            if cell[0] == "inst":
                cid = cell[1]
                for m in ("__bool__", "__len__"):
                    f = self.lookup(cid, m)
                    if f:
                        return self.truth(self.call(self.getattr(v, m, None), [], [], None))
                return TRUE
            if cell[0] in ("list", "set"):
                if not cell[1]:
                    return FALSE
                return truthy(self.freeze(v))
            if cell[0] == "dict":
                return truthy(self.freeze(v))
            return TRUE
        if v.op == "ite":
            return ite(v.a[0], self.truth(v.a[1]), self.truth(v.a[2]))
        if v.op == "wrap":
            try:
                cid = self.class_by_name(v.a[0])
            except AnalysisError:
                return TRUE
            for m in ("__bool__", "__len__"):
                if self.lookup(cid, m):
                    return self.truth(self.call(self.getattr(v, m, None), [], [], None))
            return TRUE
        if v.op == "q" and v.a[2] == "all":
            return neg(isnone(mk("q", v.a[0], v.a[1], "first")))
        if v.op == "comp" and v.a[1] is TRUE:
            return self.truth(v.a[0])
        if v.op == "api" and not api_first(v):
            return neg(isnone(api_as_first(v)))
        if v.op == "q" and v.a[2] == "first":
            # an lxml element without children is false
            return mk("truthy", v)
        return truthy(v)

    def e_Compare(self, n):
        left = self.ev(n.left)
        res = []
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r)
            res.append(self.compare(CMPOPS[type(op)], left, right, n))
            left = right
        return conj(*res) if len(res) > 1 else res[0]

    def compare(self, op, a, b, n=None):
        if op in ("in", "not in"):
            r = self.contains_(a, b, n)
            return r if op == "in" else neg(r)
        if op in ("is", "is not", "==", "!="):
            for x, y in ((a, b), (b, a)):
                if is_c(y, None):
                    if x.op == "ref":
                        r = FALSE
                    elif x.op == "ite" and has_op(x, "ref", "wrap"):
                        r = ite(x.a[0], self.compare("is", x.a[1], NONE), self.compare("is", x.a[2], NONE))
                    else:
                        r = isnone(x)
                    return r if op in ("is", "==") else neg(r)
                # type(x) is C
        if op in ("<", "<=", ">", ">=") or op in ("==", "!="):
            ta, tb = self.freeze(a), self.freeze(b)
            # tuple comparison with constants, element-wise
            if ta.op == "tuple" and tb.op == "tuple" and len(ta.a) == len(tb.a) == 2 and op in ("<", "<=", ">", ">="):
                if all(x.op == "c" for x in ta.a + tb.a):
                    return cmp(op, ta, tb)
                eq0 = cmp("==", ta.a[0], tb.a[0])
                st = {"<": "<", "<=": "<", ">": ">", ">=": ">"}[op]
                return disj(cmp(st, ta.a[0], tb.a[0]), conj(eq0, cmp(op, ta.a[1], tb.a[1])))
            return cmp(op, ta, tb)
        return cmp(op, self.freeze(a), self.freeze(b))

    def contains_(self, a, b, n=None):
        fa = self.freeze(a)
        d = self.as_dict(b)
        if d is not None:
            return cmp("in", fa, mk("dict", tuple(d)))
        if b.op == "dictkeys":
            return self.contains_(a, b.a[0], n)
        if b.op == "attrib":
            return neg(isnone(mk("xattr", b.a[0], fa)))
        fb = self.freeze(b)
        if fb.op == "comp" and fb.a[2] is mk("iv", fb.a[0]):
            # membership in a filtered list
            return conj(cmp("in", fa, fb.a[0]), subst(fb.a[1], {mk("iv", fb.a[0]): fa}))
        if fb.op == "comp" and fb.a[2].op == "mapiv":
            pass
        if fb.op == "ite":
            return ite(fb.a[0], cmp("in", fa, fb.a[1]), cmp("in", fa, fb.a[2]))
        return cmp("in", fa, fb)

    def e_IfExp(self, n):
        cond = self.truth(self.ev(n.test))
        box = {}
        if self.st.dead:
            return BOT

        def a():
            box["a"] = self.ev(n.body)

        def b():
            box["b"] = self.ev(n.orelse)
        cond = self.sim(cond)
        self.if_(cond, a, b)
        if "a" not in box:
            return box["b"]
        if "b" not in box:
            return box["a"]
        return ite(cond, box["a"], box["b"])

    def e_Lambda(self, n):
        fr = self.stack[-1]
        fr.keep = True
        clo = Closure(n, fr.clo.mod, fr.fid, fr.clo.cls, "<lambda>")
        self.closures.append(clo)
        return mk("fn", len(self.closures) - 1)

    def e_ListComp(self, n):
        return self.comp(n, "list")

    def e_SetComp(self, n):
        return self.comp(n, "set")

    def e_GeneratorExp(self, n):
        return self.comp(n, "list")

    def e_DictComp(self, n):
        return self.comp(n, "dict")

    def comp(self, n, kind):
        """Comprehensions are loops that append to a fresh container."""
        ref = self.newref((kind, ()))
        fr = self.stack[-1]
        env = self.st.frames[fr.fid]
        saved = dict(env)

        def leaf():
            if kind == "dict":
                k, v = self.ev(n.key), self.ev(n.value)
                if not self.st.dead:
                    self.setitem(ref, k, v, n)
            else:
                v = self.ev(n.elt)
                if not self.st.dead:
                    cell = self.cell(ref)
                    self.setcell(ref, (kind, cell[1] + (v,)))

        def gen(gs):
            if not gs:
                return leaf()
            g = gs[0]

            def conds(cs):
                if not cs:
                    return gen(gs[1:])
                cond = self.truth(self.ev(cs[0]))
                self.if_(cond, lambda: conds(cs[1:]), lambda: None)
            it = self.ev(g.iter)
            body = _Py(lambda: conds(g.ifs))
            self.for_loop(n, it, lambda item: self.assign(g.target, item), [body], [])
        gen(n.generators)
        if not self.st.dead:
            cur = self.st.frames[fr.fid]
            for k in list(cur):
                if k not in saved:
                    # comprehension variables are local (walrus targets stay)
                    if not any(isinstance(x, ast.NamedExpr) and isinstance(x.target, ast.Name) and x.target.id == k
                               for x in ast.walk(n)):
                        del cur[k]
                elif k in _targets(n):
                    cur[k] = saved[k]
        return ref

    def x__Py(self, n):
        n.f()

    def e_Yield(self, n):
        v = self.ev(n.value) if n.value is not None else NONE
        for fr in reversed(self.stack):
            if fr.yield_hook is not None:
                h = fr.yield_hook
                return h(v)
            break
        fr = self.stack[-1]
        if fr.yields is not None:
            cell = self.cell(fr.yields)
            self.setcell(fr.yields, ("list", cell[1] + (v,)))
        return NONE

    def e_YieldFrom(self, n):
        v = self.ev(n.value)
        fr = self.stack[-1]
        if fr.yields is not None:
            cell = self.cell(fr.yields)
            self.setcell(fr.yields, ("list", cell[1] + tuple(self.spread(v))))
        return NONE

    def e_Await(self, n):
        return self.ev(n.value)

    # ------------------------------------------------------------ iteration
    def finite(self, t):
        """Items of a container whose length is known, else None."""
        if t.op in ("tuple", "list", "set"):
            return list(t.a) if not any(x.op == "star" for x in t.a) else None
        if t.op == "ref":
            cell = self.cell(t)
            if cell[0] in ("list", "set"):
                return list(cell[1]) if not any(x.op == "star" for x in cell[1]) else None
            if cell[0] == "dict":
                if any(k.op == "star" for k, _ in cell[1]):
                    return None
                return [k if v.op != "ite" or "missing" not in (v.a[1].op, v.a[2].op) else
                        mk("gi", v.a[0] if v.a[2].op == "missing" else neg(v.a[0]), k) for k, v in cell[1]]
            return None
        if t.op == "container":
            return [c(k) for k, _ in t.a[0]]
        if t.op == "dict":
            return [k for k, _ in t.a[0]] if not any(k.op == "star" for k, _ in t.a[0]) else None
        if t.op == "dictitems":
            d = self.as_dict(t.a[0])
            if d is None or any(k.op == "star" for k, _ in d):
                return None
            out = []
            for k, v in d:
                if v.op == "ite" and "missing" in (v.a[1].op, v.a[2].op):
                    cnd = v.a[0] if v.a[2].op == "missing" else neg(v.a[0])
                    out.append(mk("gi", cnd, mk("tuple", k, v.a[1] if v.a[2].op == "missing" else v.a[2])))
                else:
                    out.append(mk("tuple", k, v))
            return out
        if t.op == "dictkeys":
            return self.finite(t.a[0])
        if t.op == "dictvalues":
            d = self.as_dict(t.a[0])
            return None if d is None or any(k.op == "star" for k, _ in d) else [v for _, v in d]
        if t.op == "range":
            if all(x.op == "c" for x in t.a):
                r = range(*[cv(x) for x in t.a])
                return [c(i) for i in r] if len(r) <= UNROLL else None
            return None
        if t.op == "enum":
            it = self.finite(t.a[0])
            if it is None or any(x.op == "gi" for x in it):
                return None
            return [mk("tuple", arith("+", c(i), t.a[1]), x) for i, x in enumerate(it)]
        if t.op == "zip":
            its = [self.finite(x) for x in t.a]
            if any(x is None for x in its):
                return None
            return [mk("tuple", *z) for z in zip(*its)]
        if t.op == "reversed":
            it = self.finite(t.a[0])
            return None if it is None else it[::-1]
        if t.op == "c" and isinstance(cv(t), str) and len(cv(t)) <= 64:
            return [c(x) for x in cv(t)]
        if t.op == "ite" and False:
            pass
        return None

    def iterate(self, t):
        """(iterable, condition, item) of a symbolic iteration."""
        if t.op == "ref":
            cell = self.cell(t)
            if cell[0] in ("list", "set") and len(cell[1]) == 1 and cell[1][0].op == "star":
                return self.iterate(cell[1][0].a[0])
            t = self.freeze(t)
        if t.op == "star":
            return self.iterate(t.a[0])
        if t.op == "comp":
            return t.a[0], t.a[1], t.a[2]
        if t.op == "enum":
            X, cond, item = self.iterate(t.a[0])
            return X, cond, mk("tuple", arith("+", mk("ix", X), t.a[1]), item)
        if t.op == "zip":
            xs = [self.iterate(x) for x in t.a]
            return xs[0][0], conj(*[x[1] for x in xs]), mk("tuple", *[x[2] for x in xs])
        if t.op == "dictitems":
            b = self.freeze(t.a[0])
            k = mk("iv", b)
            return b, TRUE, mk("tuple", k, mk("[]", b, k))
        if t.op == "dictkeys":
            b = self.freeze(t.a[0])
            return b, TRUE, mk("iv", b)
        if t.op == "dictvalues":
            b = self.freeze(t.a[0])
            return b, TRUE, mk("[]", b, mk("iv", b))
        if t.op == "ite" and t.a[2].op in ("list", "tuple", "c", "dict") and not t.a[2].a[-1:] and False:
            pass
        if t.op == "api":
            cls = API_CLASS.get(t.a[0])
            return t, TRUE, mk("wrap", cls, mk("iv", t))
        if is_elem(t, self):
            q = mkq(t, (("child", "*", ()),), "all")
            return q, TRUE, mk("iv", q)
        t = self.freeze(t)
        return t, TRUE, mk("iv", t)


def has_break(body):
    """Does a statement of the loop body leave the loop itself?"""
    for s_ in body:
        if isinstance(s_, ast.Break):
            return True
        if isinstance(s_, (ast.For, ast.AsyncFor, ast.While)):
            if has_break(s_.orelse):
                return True
            continue
        if isinstance(s_, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        for f in ("body", "orelse", "finalbody"):
            if has_break(getattr(s_, f, None) or []):
                return True
        for h in getattr(s_, "handlers", None) or getattr(s_, "cases", None) or []:
            if has_break(h.body):
                return True
    return False


class _Py(ast.stmt):
    _fields = ()

    def __init__(self, f):
        self.f = f
        self.lineno = 0


def _targets(n):
    out = set()
    for g in n.generators:
        for x in ast.walk(g.target):
            if isinstance(x, ast.Name):
                out.add(x.id)
    return out


def _as_load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


def mu_cell(c0):
    if c0[0] in ("list", "set"):
        return (c0[0], (mk("star", mk("mu", "cell")),))
    if c0[0] == "dict":
        return ("dict", ((mk("star", mk("mu", "cell")), NONE),))
    return tuple(mk("mu", "cell%d" % i) if isinstance(x, T) else x for i, x in enumerate(c0))


def fold_cell(X, c0, c1):
    if c0[0] in ("list", "set"):
        return (c0[0], (mk("star", mk("fold", X, mk("list", *c0[1]), mk("list", *(c1[1] if c1 else ())))),))
    if c0[0] == "dict":
        return ("dict", ((mk("star", mk("fold", X, mk("dict", c0[1]), mk("dict", c1[1] if c1 else ()))), NONE),))
    if c1 is None:
        return c0
    return tuple(mk("fold", X, x, y) if isinstance(x, T) and isinstance(y, T) and x is not y else x
                 for x, y in zip(c0, c1))


def merge_comps(its):
    return its


def canon_list(t):
    """list(comp over X of the item itself) is X."""
    if t.op == "comp" and t.a[1] is TRUE and t.a[2] is mk("iv", t.a[0]):
        return t.a[0]
    return t


API_CLASS = {"find_entries": "Entry", "find_groups": "Group", "find_attachments": "Attachment"}


def api_as_first(t):
    kw = dict(t.a[1])
    kw["first"] = TRUE
    return mk("api", t.a[0], tuple(sorted(kw.items(), key=lambda z: z[0])))


def is_elem(t, ip=None):
    if t.op == "ref" and ip is not None:
        return ip.cell(t)[0] == "elem"
    if t.op == "q":
        return t.a[2] == "first"
    if t.op in ("E", "elem"):
        return True
    if t.op == "iv":
        return is_elem_list(t.a[0])
    if t.op == "copy":
        return is_elem(t.a[0], ip) or is_tree(t.a[0])
    if t.op == "s":
        return t.a[0].endswith(".elem")
    if t.op == "nn":
        return is_elem(t.a[0], ip)
    if t.op == "api":
        return api_first(t)
    if t.op == "[]":
        return is_elem_list(t.a[0]) and t.a[1].op != "slice"
    if t.op == "call" and t.a[0].op == "x" and t.a[0].a[0] in ("lxml.etree.fromstring", "lxml.etree.XML",
                                                              "lxml.objectify.fromstring"):
        return True
    if t.op == "getroot":
        return True
    if t.op == "ite":
        xs = [x for x in t.a[1:] if not is_c(x, None)]
        return bool(xs) and all(is_elem(x, ip) for x in xs)
    if t.op in ("fold", "havoc", "pop"):
        xs = [x for x in t.a if isinstance(x, T) and x.op not in ("for", "while", "bot", "mu")]
        return bool(xs) and all(is_elem(x, ip) for x in xs)
    return False


def is_elem_list(t):
    if t.op in ("q", "api"):
        return True
    if t.op in ("sorted", "without", "sl", "reversed"):
        return isinstance(t.a[0], T) and is_elem_list(t.a[0])
    if t.op == "comp":
        return t.a[2].op == "iv" and is_elem_list(t.a[2].a[0])
    return False


def is_tree(t):
    """The database's element tree."""
    return (t.op == "." and t.a[1] == "xml") or (t.op == "s" and t.a[0].endswith(".tree")) or (
        t.op == "call" and t.a[0].op == "x" and t.a[0].a[0] == "lxml.etree.parse") or (
        t.op in ("copy", "scopy") and is_tree(t.a[0]))


ROOT = mk("root")


def root_of(t):
    """Root of a tree: a copy of the document is another document."""
    if t.op == "scopy":         # another tree object over the same nodes
        return root_of(t.a[0])
    if t.op == "call" and any(x.op == "call" and x.a[0] is ext("lxml.etree.tostring") for x in subterms(t)):
        return mk("root", t)    # read back from the text of another document
    return mk("root", t) if t.op == "copy" else ROOT


def mkq(base, path, mode):
    """Elements selected by the normal form path at base."""
    if path and path[0][0] == "root":
        b = base
        while b.op in ("q", "iv") and b.a:
            b = b.a[0]
        base = b if b.op == "root" else ROOT
    if base.op == "q" and base.a[2] == "first" and all(st[0] in ("child", "self") for st in path) and \
            all(st[0] in ("child", "root", "self", "parent") for st in base.a[1]):
        path = xp.join(base.a[1], path)
        base = base.a[0]
    return mk("q", base, path, mode)


BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.MatMult: "@"}
CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
          ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
import builtins as _b
BUILTINS = set(dir(_b))

# exception hierarchy of the standard library and lxml, for matching handlers
EXC_BASES = {"binascii.Error": "ValueError", "UnicodeDecodeError": "UnicodeError", "UnicodeEncodeError": "UnicodeError",
             "UnicodeError": "ValueError",
             "struct.error": "Exception", "lxml.etree.XMLSyntaxError": "lxml.etree.ParseError",
             "lxml.etree.ParseError": "SyntaxError", "construct.ChecksumError": "construct.ConstructError",
             "construct.CheckError": "construct.ConstructError", "construct.ConstructError": "Exception"}


def _bases(name, ip):
    out = [name]
    cur = name
    for _ in range(10):
        if cur in EXC_BASES:
            cur = EXC_BASES[cur]
        elif hasattr(_b, cur) and isinstance(getattr(_b, cur), type):
            cls = getattr(_b, cur)
            out += [x.__name__ for x in cls.__mro__ if x is not object]
            break
        else:
            found = None
            if ip is not None:
                for i, k in enumerate(ip.classes):
                    if k.name == cur:
                        for b in k.bases:
                            if b.op == "cls":
                                found = ip.classes[b.a[0]].name
                            elif b.op == "x":
                                found = norm_exc(b.a[0])
            if found is None:
                out.append("Exception")
                out.append("BaseException")
                break
            cur = found
        out.append(cur)
    if "BaseException" not in out:
        out.append("BaseException")
    return out


def norm_exc(dotted):
    if dotted.startswith("builtins."):
        return {"IOError": "OSError", "EnvironmentError": "OSError"}.get(dotted[9:], dotted[9:])
    if dotted.startswith("construct.core."):
        return "construct." + dotted[len("construct.core."):]
    return dotted


def exc_name(e):
    """Class name of a raised exception term."""
    if e.op in ("exn", "fault"):
        return e.a[0]
    if e.op == "x":
        return norm_exc(e.a[0])
    if e.op == "cls":
        return None
    if e.op == "clsname":
        return e.a[0]
    if e.op == "call" and e.a[0].op == "x":
        return norm_exc(e.a[0].a[0])
    if e.op == "obj":
        return e.a[0].partition("@")[0]
    if e.op == "new":
        return e.a[0]
    if e.op == "excval":
        return None
    return None


def exc_names(t, ip):
    if t.op == "tuple":
        return tuple(x for y in t.a for x in exc_names(y, ip))
    if t.op == "ref":
        return tuple(x for y in (ip.finite(t) or []) for x in exc_names(y, ip))
    if t.op == "x":
        return (norm_exc(t.a[0]),)
    if t.op == "cls":
        return (ip.classes[t.a[0]].name,)
    return ("?",)


def exc_match(name, handler, ip):
    return handler == "?" or handler in _bases(name, ip)

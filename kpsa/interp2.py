"""Attribute access, calls and models of the external functions used."""
import ast
import string

from .terms import *
from . import terms as tm
from . import xp
from .interp import (Interp, Frame, Closure, AnalysisError, MAXDEPTH, ROOT, root_of, API_CLASS, is_elem, is_tree, mkq,
                     canon_list, norm_exc, _bases, api_as_first, exc_names)


def _m(f):
    setattr(Interp, f.__name__.rstrip("_") if f.__name__ in ("getattr_", "setattr_") else f.__name__, f)
    return f


# ------------------------------------------------------------ attributes
@_m
def getattr_(self, b, name, n=None):
    if b.op in ("bot",):
        return BOT
    if self.attr_hooks:
        for h in self.attr_hooks:
            r = h(self, b, name)
            if r is not None:
                return r
    if b.op == "ite":
        box = {}

        def f(k, t):
            box[k] = self.getattr(t, name, n)
        cond = self.sim(b.a[0])
        self.if_(cond, lambda: f("a", b.a[1]), lambda: f("b", b.a[2]))
        if "a" not in box:
            return box.get("b", BOT)
        if "b" not in box:
            return box["a"]
        return ite(cond, box["a"], box["b"])
    if b.op == "c":
        if cv(b) is None:
            self.emit("noneattr", c(name), n)
            if self.exact and not self.st.dead:
                self.do_raise(mk("exn", "AttributeError"), n)
            return BOT
        return mk("meth", b, name)
    if b.op == "wrap":
        return self.getattr(self.wrapref(b), name, n)
    if b.op == "ref":
        return self.getattr_ref(b, name, n)
    if b.op == "mod":
        env = self.load(b.a[0])
        if name in self.st.frames.get(("glob", b.a[0]), ()):
            return self.sim(self.st.frames[("glob", b.a[0])][name])
        if name in env:
            return env[name]
        if self.has_mod(b.a[0] + "." + name):
            self.load(b.a[0] + "." + name)
            return mk("mod", b.a[0] + "." + name)
        return self.unknown("module attribute %s.%s" % (b.a[0], name), n)
    if b.op == "cls":
        f = self.lookup(b.a[0], name)
        if f:
            t, owner = f
            if t.op == "fn" and self.closures[t.a[0]].kind == "class":
                return mk("bound", t, b)
            return t
        if name in ("__name__", "__qualname__"):
            return c(self.classes[b.a[0]].name)
        return mk(".", b, name)
    if b.op == "super":
        selfv, owner = b.a
        cid = self.class_of(selfv)
        f = self.lookup(cid, name, after=owner) if cid is not None else None
        if f:
            t = f[0]
            if t.op == "fn":
                return mk("bound", t, selfv)
            if t.op == "prop":
                return self.call(mk("bound", t.a[0], selfv), [], [], n)
            return t
        return mk("extsuper", selfv, name)
    if b.op == "x":
        full = b.a[0] + "." + name
        full = ALIASES.get(full, full)
        if full in EXT_CONST:
            return c(EXT_CONST[full])
        o = self.overrides.get(ext(full))
        return o if o is not None else ext(full)
    if b.op == "etag":
        return mk("meth", b, name)
    if b.op == "prop":
        return mk("propattr", b, name)
    if b.op == "container":
        for k, v in b.a[0]:
            if k == name:
                return v
    if (b.op == "dict" or b.op == "ref" and self.cell(b)[0] == "dict") and not hasattr(dict, name):
        for k, v in (b.a[0] if b.op == "dict" else self.cell(b)[1]):
            if is_c(k, name):
                return v
    if b.op == "obj":
        for k, v in b.a[1]:
            if k == name:
                return v
        try:
            cid = self.class_by_name(b.a[0])
            f = self.lookup(cid, name)
            if f and f[0].op == "fn":
                self.nref += 1
                self.st.heap[self.nref] = ("inst", cid, tuple(b.a[1]))
                return mk("bound", f[0], mk("ref", self.nref))
        except AnalysisError:
            pass
    if is_elem(b, self):
        if name == "text":
            r = self.stored(b, name)
            return r if r is not None else self.over(mk(".", b, "text"))
        if name == "attrib":
            return mk("attrib", b)
        if name == "tag":
            tg = tag_of(strip_nn(self.freeze(b)))
            if tg is not None:
                return c(tg)
        return self.over(mk(".", b, name))
    if b.op == "uuid" and name == "bytes":
        return b.a[0]
    if b.op in ("uuid", "uuidhex") and name in ("hex", "bytes", "int"):
        return mk(".", b, name)
    if b.op == "uuidhex" and name == "hex":
        return mk(".", b, "hex")
    if b.op == "fn" and name == "__name__":
        return c(self.closures[b.a[0]].name)
    t = mk(".", b, name)
    r = self.stored(b, name)
    if r is not None:
        return r
    return self.after(self.over(t))


@_m
def over(self, t):
    r = self.overrides.get(t)
    if r is None and self.over_fn is not None:
        r = self.over_fn(t)
    return r if r is not None else self.sim(t)


@_m
def class_of(self, t):
    if t.op == "ref" and self.cell(t)[0] == "inst":
        return self.cell(t)[1]
    if t.op == "wrap":
        return self.class_by_name(t.a[0])
    if t.op == "cls":
        return t.a[0]
    return None


@_m
def getattr_ref(self, b, name, n):
    cell = self.cell(b)
    if cell[0] == "inst":
        cid = cell[1]
        f = self.lookup(cid, name)
        if f and f[0].op == "prop":
            if f[0].a[0] is NONE:
                return BOT
            return self.call(mk("bound", f[0].a[0], b), [], [], n)
        fields = dict(cell[2])
        if name in fields:
            v = fields[name]
            if v.op == "missing":
                return BOT
            if v.op == "ite" and "missing" in (v.a[1].op, v.a[2].op):
                v = v.a[1] if v.a[2].op == "missing" else v.a[2]
            return self.over(v)
        if f:
            t = f[0]
            if t.op == "fn":
                k = self.closures[t.a[0]].kind
                if k == "static":
                    return t
                if k == "class":
                    return mk("bound", t, mk("cls", cid))
                return mk("bound", t, b)
            return t
        if name == "__class__":
            return mk("cls", cid)
        if name == "__dict__":
            return mk("instdict", b)
        g = self.lookup(cid, "__getattr__")
        if g and g[0].op == "fn":
            return self.call(mk("bound", g[0], b), [c(name)], [], n)
        return self.over(mk(".", self.freeze(b), name))
    if cell[0] == "elem":
        if name == "text":
            return cell[4]
        if name == "tag":
            return cell[1]
        if name == "attrib":
            return mk("attrib", b)
    return mk("meth", b, name)


@_m
def setattr_(self, b, name, v, n=None):
    if b.op == "ite":
        cond = self.sim(b.a[0])
        self.if_(cond, lambda: self.setattr(b.a[1], name, v, n), lambda: self.setattr(b.a[2], name, v, n))
        return
    if b.op == "bot" or is_c(b, None):
        return
    if b.op == "wrap":
        b = self.wrapref(b)
    if b.op == "ref":
        cell = self.cell(b)
        if cell[0] == "inst":
            cid = cell[1]
            f = self.lookup(cid, name)
            if f and f[0].op == "prop":
                if f[0].a[1] is NONE:
                    self.do_raise(mk("exn", "AttributeError"), n)
                    return
                self.call(mk("bound", f[0].a[1], b), [v], [], n)
                return
            fields = dict(cell[2])
            old = fields.get(name)
            fields[name] = v
            self.setcell(b, ("inst", cid, tuple(sorted(fields.items()))))
            if b.a[0] in self.shared:
                self.emit("store", mk("tuple", self.freeze(b), c(name), self.freeze(v)), n)
            return
        if cell[0] == "elem":
            if name == "text":
                self.setcell(b, ("elem", cell[1], cell[2], cell[3], v))
            elif name == "tag":
                self.setcell(b, ("elem", v, cell[2], cell[3], cell[4]))
            return
    if b.op == "cls":
        if self.in_module_load():
            self.classes[b.a[0]].ns[name] = v
        else:
            self.st.frames.setdefault(("clsattr", b.a[0]), {})[name] = v
        self.emit("store", mk("tuple", b, c(name), self.freeze(v)), n)
        return
    fv = self.freeze(v)
    self.emit("store", mk("tuple", self.freeze(b), c(name), fv), n)


# ------------------------------------------------------------ items
@_m
def item(self, b, i, n=None):
    if b.op == "bot" or is_c(b, None):
        return BOT
    if b.op == "ite":
        cond = self.sim(b.a[0])
        return ite(cond, self.item(b.a[1], i, n), self.item(b.a[2], i, n))
    if i.op == "ite" and self.as_dict(b) is not None:
        return ite(self.sim(i.a[0]), self.item(b, i.a[1], n), self.item(b, i.a[2], n))
    d = self.as_dict(b)
    if d is not None:
        fi = self.freeze(i)
        return self.dict_get(b, d, fi, BOT)
    if b.op == "attrib":
        return self.over(mk("xattr", b.a[0], self.freeze(i)))
    if b.op == "container" and i.op == "c":
        return self.getattr(b, cv(i), n)
    if b.op == "match" and i.op == "c":
        return self.match_group(b, cv(i))
    if b.op == "ref" and self.cell(b)[0] == "inst":
        f = self.lookup(self.cell(b)[1], "__getitem__")
        if f:
            return self.call(mk("bound", f[0], b), [i], [], n)
    if i.op == "slice":
        return self.slice(b, i)
    items = self.finite(b)
    if items is not None and i.op == "c" and isinstance(cv(i), int) and not any(x.op == "gi" for x in items):
        if b.op == "c":
            pass
        elif b.op not in ("dictitems", "dictkeys", "dictvalues"):
            try:
                return items[cv(i)]
            except IndexError:
                return BOT
    if items and i.op == "c" and cv(i) == 0 and any(x.op == "gi" for x in items) and not any(x.op == "star" for x in items):
        out = BOT
        for x in reversed(items):
            out = ite(x.a[0], x.a[1], out) if x.op == "gi" else x
        return out
    if b.op == "c" and i.op == "c":
        try:
            return c(cv(b)[cv(i)])
        except Exception:
            return BOT
    fb = self.freeze(b)
    fi = self.freeze(i)
    if fb.op == "q" and is_c(fi, 0):
        return mkq(fb.a[0], fb.a[1], "first")
    if fb.op == "api" and is_c(fi, 0):
        return api_as_first(fb)
    if fb.op == "sl" and is_c(fi, 0) and prefix_slice(fb):
        return self.item(fb.a[0], fi, n)
    if fb.op == "comp" and fb.a[1] is TRUE:
        first = self.item(fb.a[0], fi, n)
        return subst(fb.a[2], {mk("iv", fb.a[0]): first, mk("ix", fb.a[0]): fi})
    if fb.op == "m" and fb.a[0] == "unpack" and is_c(fi, 0):
        return mk("unle", fb.a[1], fb.a[2])
    if fb.op == "ite":
        return ite(fb.a[0], self.item(fb.a[1], fi, n), self.item(fb.a[2], fi, n))
    return self.over(mk("[]", fb, fi))


@_m
def dict_get(self, b, d, key, default):
    if any(k.op == "star" for k, _ in d):
        for k, v in d:
            if k is key:
                return v
        return self.over(mk("[]", self.freeze(b), key))
    if key.op == "c" or key.op == "tuple":
        for k, v in d:
            if k is key or (k.op == "c" and key.op == "c" and cv(k) == cv(key) and type(cv(k)) == type(cv(key))):
                if v.op == "ite" and "missing" in (v.a[1].op, v.a[2].op):
                    return ite(v.a[0], default if v.a[1].op == "missing" else v.a[1],
                               default if v.a[2].op == "missing" else v.a[2])
                return v if v.op != "missing" else default
        if all(k.op in ("c", "tuple") for k, _ in d):
            return default
    out = default
    for k, v in reversed(d):
        if v.op == "missing":
            continue
        if v.op == "ite" and "missing" in (v.a[1].op, v.a[2].op):
            v = v.a[1] if v.a[2].op == "missing" else v.a[2]
        out = ite(self.sim(cmp("==", key, self.freeze(k))), v, out) if out.op != "bot" else v
    if not d:
        return default
    return out


@_m
def slice(self, b, i):
    lo, hi, st = i.a
    if b.op == "c" and all(x.op == "c" for x in i.a):
        try:
            return c(cv(b)[cv(lo):cv(hi):cv(st)])
        except Exception:
            pass
    l = self.finite_list(b)
    if l is not None and all(x.op == "c" for x in i.a):
        r = l[cv(lo):cv(hi):cv(st)]
        return mk("tuple", *r) if b.op == "tuple" else self.newref(("list", tuple(r)))
    fb = self.freeze(b)
    if is_c(lo, 0):
        lo = NONE
    if is_c(st, 1):
        st = NONE
    if lo is NONE and hi is NONE:
        if st is NONE:
            return fb
        if is_c(st, -1):
            return mk("reversed", fb)
    if fb.op == "q" and fb.a[2] == "all" and lo is NONE and is_c(hi, 1) and st is NONE:
        return self.newref(("list", (mk("gi", neg(isnone(mkq(fb.a[0], fb.a[1], "first"))), mkq(fb.a[0], fb.a[1], "first")),)))
    return mk("sl", fb, self.freeze(lo), self.freeze(hi), st)


@_m
def setitem(self, b, i, v, n=None):
    if b.op == "ite":
        cond = self.sim(b.a[0])
        self.if_(cond, lambda: self.setitem(b.a[1], i, v, n), lambda: self.setitem(b.a[2], i, v, n))
        return
    if b.op == "ref":
        cell = self.cell(b)
        fi = self.freeze(i)
        if b.a[0] in self.base_heap and b.a[0] not in self.st.heap and not self.in_module_load():
            self.globalmut(b, mk("tuple", self.freeze(b), fi, self.freeze(v)), n)
        if cell[0] == "dict":
            d = dict(cell[1])
            d[fi] = v
            self.setcell(b, ("dict", tuple(d.items())))
            return
        if cell[0] == "list":
            l = list(cell[1])
            if fi.op == "c" and isinstance(cv(fi), int) and not any(x.op in ("star", "gi") for x in l) and -len(l) <= cv(fi) < len(l):
                l[cv(fi)] = v
                self.setcell(b, ("list", tuple(l)))
                return
            self.setcell(b, ("list", (mk("star", mk("upd", self.freeze(b), fi, self.freeze(v))),)))
            return
    if b.op == "instdict":
        if i.op == "c":
            self.setattr(b.a[0], cv(i), v, n)
            return
    if b.op == "attrib":
        e = b.a[0]
        if e.op == "ref":
            cell = self.cell(e)
            d = dict(cell[2])
            d[self.freeze(i)] = v
            self.setcell(e, ("elem", cell[1], tuple(d.items()), cell[3], cell[4]))
            return
        self.emit("mut", mk("mut", "set", self.freeze(e), (self.freeze(i), self.freeze(v))), n)
        return
    self.emit("mut", mk("mut", "setitem", self.freeze(b), (self.freeze(i), self.freeze(v))), n)


@_m
def in_module_load(self):
    return bool(self.stack) and self.stack[0].fid[0] == "mod"


# ------------------------------------------------------------ calls
def e_Call(self, n):
    f = n.func
    if isinstance(f, ast.Name) and f.id == "super" and self.name_is_builtin("super"):
        if not n.args:
            for fr in reversed(self.stack):
                if fr.clo.cls is not None and fr.selfval is not None:
                    return mk("super", fr.selfval, self.classes.index(fr.clo.cls))
        else:
            k = self.ev(n.args[0])
            sv = self.ev(n.args[1]) if len(n.args) > 1 else self.stack[-1].selfval
            return mk("super", sv, k.a[0])
    if isinstance(f, ast.Name) and f.id in ("locals", "globals", "vars", "eval", "exec") and self.name_is_builtin(f.id):
        args = [self.ev(a) for a in n.args]
        self.emit("call", mk("call", ext("builtins." + f.id), tuple(self.freeze(a) for a in args), ()), n)
        if f.id in ("locals", "vars") and not args:
            env = self.st.frames.get(self.stack[-1].fid) or {}
            return mk("locals", mk("dict", tuple((c(k), self.freeze(v)) for k, v in env.items() if isinstance(k, str) and isinstance(v, T))))
        if f.id == "vars" and len(args) == 1:
            return mk("instdict", args[0])
        return self.unknown(f.id, n)
    fn = self.ev(f)
    if self.st.dead:
        return BOT
    args, kw = self.callargs(n)
    if self.st.dead:
        return BOT
    return self.call_kw(fn, args, kw, n)


Interp.e_Call = e_Call


@_m
def dict_choice(self, x):
    if x.op == "ite":
        return all(self.dict_choice(y) for y in x.a[1:])
    d = self.as_dict(x)
    return d is not None and all(k.op == "c" for k, _ in d)


@_m
def call_kw(self, fn, args, kw, n, depth=0):
    """A call whose keyword arguments may be absent: one call for each case."""
    for i, (k, v) in enumerate(kw):
        if v.op == "missing":
            return self.call_kw(fn, args, kw[:i] + kw[i + 1:], n, depth)
        if k == "**" and v.op != "ite":
            dd = self.as_dict(v)
            return self.call_kw(fn, args, kw[:i] + [(cv(a), b) for a, b in dd] + kw[i + 1:], n, depth)
        if v.op == "ite" and (k == "**" or any(x.op == "missing" for x in subterms(v))):
            cond = self.sim(v.a[0])
            alts = [kw[:i] + [(k, x)] + kw[i + 1:] for x in v.a[1:]]
            if depth >= 4 and k != "**":
                return self.call_kw(fn, args, alts[0] if v.a[1].op != "missing" else alts[1], n, depth)
            if is_c(cond):
                return self.call_kw(fn, args, alts[0] if cv(cond) else alts[1], n, depth)
            box = {}

            def g(j):
                box[j] = self.call_kw(fn, args, alts[j], n, depth + 1)
            self.if_(cond, lambda: g(0), lambda: g(1))
            if 0 not in box:
                return box.get(1, BOT)
            if 1 not in box:
                return box[0]
            return ite(cond, box[0], box[1])
    return self.call(fn, args, kw, n)


@_m
def name_is_builtin(self, nm):
    t = self.name(nm)
    return t.op == "x" and t.a[0] == "builtins." + nm


@_m
def callargs(self, n):
    args, kw = [], []
    for a in n.args:
        if isinstance(a, ast.Starred):
            args.extend(self.spread(self.ev(a.value)))
        else:
            args.append(self.ev(a))
    for k in n.keywords:
        if k.arg is None:
            d = self.ev(k.value)
            dd = self.as_dict(d)
            if dd is None and d.op == "ite" and all(self.dict_choice(x) for x in d.a[1:]):
                kw.append(("**", d))
            elif dd is not None and all(kk.op == "c" for kk, _ in dd):
                for kk, v in dd:
                    kw.append((cv(kk), v))
            else:
                kw.append((None, self.freeze(d)))
        else:
            kw.append((k.arg, self.ev(k.value)))
    return args, kw


@_m
def call(self, f, args, kw, n=None):
    if f.op == "bot" or self.st.dead:
        return BOT
    if f.op == "ite":
        box = {}

        def g(k, t):
            box[k] = self.call(t, args, kw, n)
        cond = self.sim(f.a[0])
        self.if_(cond, lambda: g("a", f.a[1]), lambda: g("b", f.a[2]))
        if "a" not in box:
            return box.get("b", BOT)
        if "b" not in box:
            return box["a"]
        return ite(cond, box["a"], box["b"])
    if f.op == "fn":
        return self.call_fn(f, args, kw, n)
    if f.op == "bound":
        return self.call_fn(f.a[0], [f.a[1]] + list(args), kw, n, selfval=f.a[1])
    if f.op == "cls":
        return self.instantiate(f.a[0], args, kw, n)
    if f.op == "x":
        return self.ext_call(f.a[0], args, kw, n)
    if f.op in ("meth", "."):
        return self.callmethod(f.a[0], f.a[1], args, kw, n)
    if f.op == "partial":
        return self.call(f.a[0], list(f.a[1]) + list(args), list(f.a[2]) + list(kw), n)
    if f.op == "etag":
        return self.build_elem(c(f.a[0]) if isinstance(f.a[0], str) else f.a[0], args, kw)
    if f.op == "extsuper":
        selfv, name = f.a
        if name == "__init__" and selfv.op == "ref" and args:
            cell = self.cell(selfv)
            fields = dict(cell[2])
            fields["subcon"] = args[0]
            self.setcell(selfv, ("inst", cell[1], tuple(sorted(fields.items()))))
        elif name in ("__str__", "__repr__", "__hash__", "__eq__"):
            return mk("super" + name, self.freeze(selfv))
        return NONE
    if f.op == "attrgetter":
        out = [self.getattr_path(args[0], p, n) for p in f.a]
        return out[0] if len(out) == 1 else mk("tuple", *out)
    if f.op == "itemgetter":
        out = [self.item(args[0], p, n) for p in f.a]
        return out[0] if len(out) == 1 else mk("tuple", *out)
    if f.op == "propattr":
        return mk("unknown", "propattr", 0)
    if f.op == "ref" and self.cell(f)[0] == "inst":
        g = self.lookup(self.cell(f)[1], "__call__")
        if g:
            return self.call(mk("bound", g[0], f), args, kw, n)
    if f.op == "obj":
        cid = self.class_by_name(f.a[0])
        g = self.lookup(cid, "__call__")
        if g:
            self.nref += 1
            self.st.heap[self.nref] = ("inst", cid, tuple(f.a[1]))
            return self.call(mk("bound", g[0], mk("ref", self.nref)), args, kw, n)
    if f.op == "methodcaller":
        return self.callmethod(args[0], f.a[0], list(f.a[1]), list(f.a[2]), n)
    t = mk("call", self.freeze(f), tuple(self.freeze(a) for a in args), self.kwt(kw))
    self.emit("call", t, n)
    return t


@_m
def getattr_path(self, t, path, n=None):
    for p in path.split("."):
        t = self.getattr(t, p, n)
    return t


@_m
def kwt(self, kw):
    return tuple(sorted(((k if k is not None else "**", self.freeze(v)) for k, v in kw), key=lambda z: z[0]))


@_m
def bind(self, clo, args, kw, n):
    """Parameter name -> term, following the signature."""
    a = clo.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    env = {}
    args = list(args)
    star = next((i for i, x in enumerate(args) if x.op == "star"), None)
    if star is not None:
        rest = args[star:]
        args = args[:star]
        base = rest[0].a[0]
        for k, p in enumerate(pos[len(args):]):
            if not any(kk == p for kk, _ in kw):
                args.append(self.item(base, c(k), n))
    extra = []
    for i, v in enumerate(args):
        if i < len(pos):
            env[pos[i]] = v
        else:
            extra.append(v)
    kwnames = set(pos) | {x.arg for x in a.kwonlyargs}
    kwextra = []
    for k, v in kw:
        if k is None:
            kwextra.append((mk("star", v), NONE))
        elif k in kwnames and k not in {x.arg for x in a.posonlyargs}:
            env[k] = v
        else:
            kwextra.append((c(k), v))
    nd = len(a.defaults)
    for p, d in zip(pos[len(pos) - nd:], a.defaults):
        if p not in env:
            env[p] = self.default(clo, p, d)
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg not in env and d is not None:
            env[x.arg] = self.default(clo, x.arg, d)
    if a.vararg:
        env[a.vararg.arg] = mk("tuple", *extra)
    if a.kwarg:
        d = {}
        for k, v in kwextra:
            d[k] = v
        env[a.kwarg.arg] = self.newref(("dict", tuple(d.items())))
    for p in pos + [x.arg for x in a.kwonlyargs]:
        if p not in env:
            env[p] = mk("unbound", p)
    env_bad = bool(extra and not a.vararg) or bool([k for k, _ in kwextra if k.op == "c"] and not a.kwarg)
    return env, env_bad


@_m
def default(self, clo, p, d):
    """Default values are evaluated once; a mutable one is a global object."""
    key = ("default", id(clo.node), p)
    if key in self.defaults:
        v = self.defaults[key]
        if v.op == "ref" and v.a[0] not in self.base_heap:
            self.base_heap[v.a[0]] = self.defcells[v.a[0]]
        return v
    if isinstance(d, ast.Constant):
        return c(d.value)
    fr = Frame(("tmp", id(d)), Closure(d, clo.mod, clo.frame, clo.cls, clo.name + " default"), len(self.pc))
    self.stack.append(fr)
    self.st.frames[fr.fid] = {}
    v = self.ev(d)
    self.stack.pop()
    self.st.frames.pop(fr.fid, None)
    if v.op == "ref":
        self.base_heap[v.a[0]] = self.defcells[v.a[0]] = self.st.heap.pop(v.a[0])
    self.defaults[key] = v
    return v


@_m
def call_fn(self, f, args, kw, n=None, selfval=None, hook=None):
    clo = self.closures[f.a[0]]
    if clo.cm and hook is None:
        return mk("cm", f, tuple(args), tuple(kw), NONE)
    if f in self.opaque and self.stack and not self.in_module_load():
        r = self.opaque[f](self, clo, args, kw, n)
        if r is not None:
            return r
    if len(self.stack) > MAXDEPTH:
        self.depth_cut += 1
        return self.unknown("inlining depth", n)
    if sum(1 for x in self.stack if x.clo.node is clo.node) >= 1 + (1 if hook else 0) + self.maxrec:
        env, _ = self.bind(clo, args, kw, n)
        t = mk("rec", clo.qual, tuple(sorted(((k, self.freeze(v)) for k, v in env.items()), key=lambda z: z[0])))
        self.emit("call", t, n)
        return t
    env, bad = self.bind(clo, args, kw, n)
    if bad:
        self.emit("raise", mk("exn", "TypeError"), n)
        self.notes.append("argument mismatch calling %s" % clo.qual)
        self.st.dead = True
        return BOT
    unb = [k for k, v in env.items() if v.op == "unbound"]
    if unb:
        self.notes.append("missing argument %s calling %s" % (unb, clo.qual))
    if not hasattr(self, "enclmap"):
        self.enclmap = {}
    self.nfid += 1
    fr = Frame(("f", self.nfid), clo, len(self.pc))
    fr.loopmark = len(self.loops)
    fr.selfval = selfval if selfval is not None else (args[0] if clo.cls is not None and args and clo.kind != "static" else None)
    self.enclmap[fr.fid] = clo.frame
    fr.yield_hook = hook
    body = clo.node.body if isinstance(clo.node.body, list) else None
    gen = body is not None and hook is None and _has_yield(clo.node)
    if gen:
        fr.yields = self.newref(("list", ()))
    if not self.mute:
        self.analysed.add((clo.mod, clo.qual))
    if clo.cached and not self.mute:
        self.emit("cached", mk("tuple", c(clo.mod), c(clo.qual)), clo.node)
    if not self.stack:
        fr.top = True
    self.stack.append(fr)
    self.st.frames[fr.fid] = env
    if body is None:
        v = self.ev(clo.node.body)
        if not self.st.dead:
            fr.returns.append((self.way(fr), v, self.st.copy(), clo.node))
            if getattr(fr, "top", False):
                self.emit("return", v, clo.node)
    else:
        self.block(body)
        if not self.st.dead:
            v = NONE
            fr.returns.append((self.way(fr), v, self.st.copy(), clo.node))
            if getattr(fr, "top", False):
                self.emit("return", v, clo.node)
    self.stack.pop()
    self.pop_to(fr.mark)
    rets = fr.returns
    if not rets:
        self.st.dead = True
        return BOT
    cond, val, st, _ = rets[-1]
    for cond_i, v_i, st_i, _ in reversed(rets[:-1]):
        val = ite(cond_i, v_i, val)
        st = self.merge(cond_i, st_i, st)
    self.st = st
    self.st.dead = False
    if fr.keep:
        if not hasattr(self, "keptenv"):
            self.keptenv = {}
        self.keptenv[fr.fid] = dict(self.st.frames.get(fr.fid, env))
    self.st.frames.pop(fr.fid, None)
    for cnd, inloop in fr.raises:
        if not inloop and cnd is not TRUE:
            self.push(neg(cnd), True, "called")
    if gen:
        return fr.yields
    return self.sim(val)


def _has_yield(node):
    for x in node.body:
        for y in _walk_nofunc(x):
            if isinstance(y, (ast.Yield, ast.YieldFrom)):
                return True
    return False


def _walk_nofunc(n):
    yield n
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
        return
    for ch in ast.iter_child_nodes(n):
        yield from _walk_nofunc(ch)


@_m
def way(self, fr):
    """How this point of the function is reached; that calls on the way did not raise goes without saying."""
    return conj(*[g[0] if g[1] else neg(g[0]) for g in self.pc[fr.mark:] if g[2] != "called"])


@_m
def instantiate(self, cid, args, kw, n):
    cls = self.classes[cid]
    hook = self.call_hooks.get(("class", cls.name))
    if hook:
        r = hook(self, args, kw, n)
        if r is not None:
            return r
    init = self.lookup(cid, "__init__")
    isexc = any(b in ("Exception", "BaseException") for b in _bases(cls.name, self)[1:]) and self.exc_class(cid)
    if isexc and (not init or init[0].op != "fn"):
        return mk("new", cls.name, tuple(self.freeze(a) for a in args))
    r = self.newref(("inst", cid, ()))
    if init and init[0].op == "fn":
        self.call_fn(init[0], [r] + list(args), kw, n, selfval=r)
        if self.st.dead:
            return BOT
    elif self.lookup(cid, "__dataclass__"):
        fields = []
        names = [x.target.id for x in cls.node.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
        d = dict(zip(names, args))
        d.update({k: v for k, v in kw if k})
        for x in names:
            if x not in d and x in cls.ns:
                d[x] = cls.ns[x]
        self.setcell(r, ("inst", cid, tuple(sorted(d.items()))))
    elif args:
        self.setcell(r, ("inst", cid, (("subcon", args[0]),)))
    if isexc:
        return mk("new", cls.name, tuple(self.freeze(a) for a in args))
    return r


@_m
def exc_class(self, cid):
    for x in self.mro(cid):
        for b in self.classes[x].bases:
            if b.op == "x" and norm_exc(b.a[0]) in ("Exception", "BaseException", "ValueError", "KeyError", "IOError",
                                                   "OSError", "RuntimeError", "AttributeError", "TypeError"):
                return True
    return False


# ------------------------------------------------------------ element builder
@_m
def build_elem(self, tag, args, kw):
    attrs, children, text = {}, [], NONE
    texts = []

    def add(a):
        nonlocal text
        if a.op == "star":
            children.append(a)
            return
        if a.op == "ref":
            cell = self.cell(a)
            if cell[0] == "elem":
                children.append(a)
                return
            if cell[0] == "dict":
                for k, v in cell[1]:
                    attrs[k] = v
                return
        if a.op == "etag":
            children.append(self.build_elem(c(a.a[0]) if isinstance(a.a[0], str) else a.a[0], [], []))
            return
        if is_elem(a, self):
            children.append(a)
            return
        if a.op == "elem":
            children.append(a)
            return
        if a.op == "ite" and (self._elemish(a.a[1]) or self._elemish(a.a[2])):
            children.append(a)
            return
        texts.append(a)
    for a in args:
        add(a)
    for k, v in kw:
        if k is None:
            attrs[mk("star", v)] = NONE
        else:
            attrs[c(k)] = v
    if texts:
        text = texts[0] if len(texts) == 1 else cat(*texts)
    r = self.newref(("elem", tag, tuple(attrs.items()), tuple(children), text))
    self.emit("build", mk("tuple", tag, self.freeze(text)), None)
    return r


@_m
def _elemish(self, t):
    return (t.op == "ref" and self.cell(t)[0] == "elem") or t.op == "elem"


# ------------------------------------------------------------ methods of values
MUTATORS = {"append", "insert", "extend", "remove", "clear", "set", "replace", "addnext", "addprevious", "pop",
            "update", "setdefault", "sort", "reverse", "popitem", "write", "unlink", "rename", "touch", "write_bytes",
            "write_text", "seek", "truncate", "close"}
STRFOLD = {"replace", "split", "rsplit", "startswith", "endswith", "upper", "lower", "strip", "lstrip", "rstrip",
           "partition", "rpartition", "count", "find", "title", "removesuffix", "removeprefix", "encode", "decode",
           "isdigit", "splitlines", "hex", "capitalize", "index", "zfill", "casefold", "swapcase", "ljust", "rjust",
           "isalnum", "islower", "isupper"}
UTF8 = ("utf-8", "utf8", "UTF-8", "ascii", "utf_8", "U8")


@_m
def callmethod(self, b, name, args, kw, n=None):
    if b.op == "bot":
        return BOT
    if b.op == "instdict" and name == "pop" and args and args[0].op == "c" and isinstance(cv(args[0]), str):
        v = self.getattr(b.a[0], cv(args[0]), n)
        self.delfield(b.a[0], cv(args[0]), n)
        return v
    if b.op == "instdict" and name == "update" and not args:
        for k, v in (kw.items() if isinstance(kw, dict) else kw):
            self.setattr(b.a[0], k, v, n)
        return NONE
    if b.op == "ite":
        return self.call(self.getattr(b, name, n), args, kw, n)
    if b.op == "c" and isinstance(cv(b), (str, bytes)):
        r = self.const_str_method(b, name, args, kw, n)
        if r is not None:
            return r
    if b.op in ("cat", "str", "join", "catcomp") and name == "join":
        return self.join(b, args[0])
    if b.op == "ref":
        return self.ref_method(b, name, args, kw, n)
    if b.op == "wrap":
        return self.call(self.getattr(b, name, n), args, kw, n)
    if b.op in ("dict",):
        d = b.a[0]
        r = self.dict_method(b, d, name, args, kw, n)
        if r is not None:
            return r
    if b.op == "attrib":
        if name == "get":
            x = mk("xattr", b.a[0], self.freeze(args[0]))
            return self.xattr_default(x, args[1:] or [v for k, v in kw if k == "default"])
        if name in ("pop", "update", "setdefault", "clear"):
            self.emit("mut", mk("mut", "attrib." + name, self.freeze(b.a[0]), tuple(self.freeze(a) for a in args)), n)
            return NONE
        return mk("m", name, self.freeze(b), *[self.freeze(a) for a in args])
    if b.op == "logger" or (b.op == "call" and b.a[0].op == "x" and b.a[0].a[0] == "logging.getLogger"):
        if name in ("isEnabledFor", "getEffectiveLevel", "hasHandlers", "getChild"):
            return mk("logger") if name == "getChild" else mk("m", name, mk("logger"), *[self.freeze(a) for a in args])
        self.emit("log", mk("call", c(name), tuple(self.freeze(a) for a in args), self.kwt(kw)), n)
        return NONE
    if b.op == "match":
        r = self.match_method(b, name, args)
        if r is not None:
            return r
    if is_elem(b, self) or is_tree(b):
        r = self.elem_method(b, name, args, kw, n)
        if r is not None:
            return r
    fa = [self.freeze(a) for a in args]
    fb = self.freeze(b)
    if name == "xpath":
        return self.query(fb if not is_tree(fb) else root_of(fb), fa[0] if fa else dict(kw).get("_path", NONE), "all",
                          {k: v for k, v in kw if k})
    if name == "get" and fb.op == "iv" or name == "get" and fb.op == "x":
        pass
    if name in ("encode", "decode") and all(is_c(x, *UTF8) for x in fa[:1] + [v for k, v in kw if k == "encoding"]) \
            and all(is_c(v, "strict") for v in fa[1:] + [v for k, v in kw if k == "errors"]) and len(fa) <= 2:
        if name == "encode":
            return fb.a[0] if fb.op == "dec" else (fb if fb.op == "b64" else mk("enc", fb))
        return fb.a[0] if fb.op == "enc" else (fb if fb.op == "b64" else mk("dec", fb))
    if name == "join":
        return self.join(b, args[0])
    if name == "digest" and fb.op in ("hashobj", "hmacobj") and not fa:
        return mk(fb.a[0], fb.a[1]) if fb.op == "hashobj" else mk("hmac", *fb.a)
    if name == "hexdigest" and fb.op in ("hashobj",):
        return mk("hex", mk(fb.a[0], fb.a[1]))
    if name == "to_bytes":
        kwd = dict(kw)
        ln = fa[0] if fa else kwd.get("length")
        bo = fa[1] if len(fa) > 1 else kwd.get("byteorder")
        if ln is not None and is_c(ln) and bo is not None and is_c(bo, "little"):
            return le(cv(ln), fb)
    if name == "replace" and fb.op in ("nowutcnaive", "date", "nowlocal", "now") and not fa:
        kwd = dict(kw)
        if set(kwd) == {"tzinfo"}:
            if fb.op == "nowutcnaive" and is_utc(kwd["tzinfo"]):
                return mk("now")
            if fb.op == "date":
                return mk("date", *(fb.a[:7] + (self.freeze(kwd["tzinfo"]),)))
    if name == "replace" and not fa and kw and {k for k, _ in kw} <= DTFIELDS:
        return mk("m", "replace", fb, mk("kw", self.kwt(kw)))
    if name == "astimezone":
        tz = fa[0] if fa else dict(kw).get("tz")
        if tz is not None and is_utc(tz):
            if fb.op in ("now", "nowlocal"):
                return mk("now")
            if fb.op == "utc":
                return fb
            return mk("utc", fb)
        if tz is None or is_c(tz, None):
            return mk("localtz", mk("now") if fb.op == "nowlocal" else fb)
    if name == "isoformat":
        return mk("iso", fb, tuple(fa), self.kwt(kw))
    if name == "total_seconds":
        return mk("secs", fb)
    if fb.op == "range" or fb.op == "dictitems":
        return mk("m", name, fb, *fa)
    if name in ("items", "keys", "values") and not fa:
        return mk({"items": "dictitems", "keys": "dictkeys", "values": "dictvalues"}[name], b if b.op == "ref" else fb)
    if name == "hex" and not fa:
        return mk("hex", fb)
    if name == "compress" and fb.op == "call" and fb.a[0] is ext("zlib.compressobj"):
        return mk("cpiece", fb, fa[0])
    if name == "flush" and fb.op == "call" and fb.a[0] is ext("zlib.compressobj"):
        mode = fa[0] if fa else dict(kw).get("mode")
        if mode is None or mode is ext("zlib.Z_FINISH") or is_c(mode, 4):
            return mk("cflush", fb)
        return mk("cflushpart", fb, mode)       # what is compressed does not end here
    if name == "replace" and len(fa) == 3 and not kw and is_c(fb) and isinstance(cv(fb), str) and is_c(fa[0]) \
            and isinstance(cv(fa[0]), str) and cv(fa[0]) and is_c(fa[2]) and type(cv(fa[2])) is int:
        out = []
        for i, x in enumerate(cv(fb).split(cv(fa[0]), cv(fa[2]))):
            out += ([fa[1]] if i else []) + [c(x)]
        return cat(*out)
    if name == "replace" and len(fa) == 2 and not kw and is_c(fb) and isinstance(cv(fb), str) and is_c(fa[0]) \
            and isinstance(cv(fa[0]), str) and cv(fa[0]):
        out = []
        for i, x in enumerate(cv(fb).split(cv(fa[0]))):
            out += ([fa[1]] if i else []) + [c(x)]
        return cat(*out)
    if name in MUTATORS and not is_str_like(fb) and not (name == "replace" and len(fa) == 2 and is_str_val(fb, fa)):
        kind = "mut"
        if fb.op in ("q", "comp", "sorted", "list", "tuple", "m") or (fb.op == "api"):
            kind = "listmut"
        self.emit(kind, mk("mut", name, fb, tuple(fa) + tuple(v for _, v in self.kwt(kw)) if not kw else tuple(fa) + (mk("kw", self.kwt(kw)),)), n)
        if name == "pop":
            return mk("pop", fb, *fa)
        if name in ("append", "insert", "extend", "remove", "clear", "sort", "reverse"):
            return NONE
        return mk("m", name, fb, *fa)
    if fb.op == "x":
        return self.ext_call(fb.a[0] + "." + name, args, kw, n)
    t = mk("m", name, fb, *fa) if not kw else mk("m", name, fb, *(fa + [mk("kw", self.kwt(kw))]))
    if name not in PURE_METHODS:
        self.emit("call", t, n)
    return self.over(t)


DTFIELDS = {"year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo", "fold"}
PURE_METHODS = {"encode", "decode", "replace", "split", "strip", "startswith", "endswith", "upper", "lower", "get",
                "find", "findall", "with_suffix", "with_name", "join", "format", "bytes", "hex", "index", "count",
                "rstrip", "lstrip", "isoformat", "getpath", "joinpath", "resolve", "exists", "absolute", "rsplit",
                "partition", "rpartition", "copy", "astimezone", "total_seconds", "with_stem", "removesuffix",
                "removeprefix", "getroottree", "as_posix", "expanduser", "splitlines", "is_dir", "is_file", "title"}


def is_str_val(b, fa):
    return all(is_str_like(x) or x.op in ("s", "iv", "str", "[]", ".", "call", "m", "fold", "mu", "rec", "ite") for x in fa) \
        and not (b.op in ("s",) and b.a[0].endswith(".elem"))


def is_utc(t):
    return t is ext("datetime.timezone.utc") or t is ext("datetime.UTC") or (
        t.op == "call" and t.a[0].op == "x" and t.a[0].a[0] == "dateutil.tz.tzutc")


@_m
def xattr_default(self, x, dflt):
    x = self.over(x)
    if not dflt or is_c(dflt[0], None):
        return x
    return ite(isnone(x), dflt[0], x)


@_m
def join(self, sep, it):
    items = self.finite(it)
    if it.op == "ref" and self.cell(it)[0] == "list":
        items = list(self.cell(it)[1])
    if items is not None and not any(x.op in ("gi",) for x in items):
        out = []
        emptysep = sep.op == "c" and len(cv(sep)) == 0
        if not any(x.op == "star" for x in items):
            for k, x in enumerate(items):
                if k:
                    out.append(sep)
                out.append(self.freeze(x))
            return cat(*out) if out else (c(b"") if sep.op == "c" and isinstance(cv(sep), bytes) else EMPTY)
        if emptysep:
            for x in items:
                if x.op == "star":
                    y = self.freeze(x.a[0])
                    if y.op == "comp":
                        out.append(mk("catcomp", y.a[0], y.a[1], y.a[2]))
                    else:
                        out.append(mk("catcomp", y, TRUE, mk("iv", y)))
                else:
                    out.append(self.freeze(x))
            return cat(*out)
    f = self.freeze(it)
    if f.op == "comp" and sep.op == "c" and len(cv(sep)) == 0:
        return mk("catcomp", f.a[0], f.a[1], f.a[2])
    if sep.op == "c" and len(cv(sep)) == 0 and f.op not in ("list", "tuple"):
        return mk("catcomp", f, TRUE, mk("iv", f))
    return mk("join", sep, f)


@_m
def const_str_method(self, b, name, args, kw, n):
    v = cv(b)
    if name == "format" and isinstance(v, str):
        return self.format(v, args, kw)
    if name == "format_map" and isinstance(v, str):
        d = self.as_dict(args[0])
        if d is not None:
            return self.format(v, [], [(cv(k), x) for k, x in d if k.op == "c"])
    if name == "join":
        return self.join(b, args[0])
    if name in STRFOLD and not kw:
        try:
            vals = [const_py(self.freeze(a)) for a in args]
            r = getattr(v, name)(*vals)
            if isinstance(r, list):
                return self.newref(("list", tuple(c(x) for x in r)))
            return from_py(r)
        except Exception:
            return None
    return None


@_m
def format(self, fmt, args, kw):
    out, auto = [], 0
    kwd = {k: v for k, v in kw if k}
    try:
        pieces = list(string.Formatter().parse(fmt))
    except ValueError:
        return self.unknown("format string")
    for lit, field, spec, conv in pieces:
        if lit:
            out.append(c(lit))
        if field is None:
            continue
        first, rest = _split_field(field)
        if first == "":
            k = auto
            auto += 1
        elif first.isdigit():
            k = int(first)
        else:
            k = None
        if k is not None:
            if k < len(args) and not any(a.op == "star" for a in args[:k + 1]):
                v = args[k]
            elif any(a.op == "star" for a in args):
                v = mk("[]", args[0].a[0] if args[0].op == "star" else mk("tuple", *args), c(k))
            else:
                self.notes.append("format index out of range")
                return BOT
        else:
            if first not in kwd:
                return BOT
            v = kwd[first]
        for kind, x in rest:
            v = self.getattr(v, x) if kind == "." else self.item(v, c(x))
        if conv == "r":
            out.append(mk("repr", self.freeze(v)))
        elif spec and not (spec == "d" and numeric(v)):
            out.append(mk("fmt", self.freeze(v), c(spec)))
        else:
            out.append(self.strof(v))
    return cat(*out)


def _split_field(field):
    import re
    m = re.match(r"[^.\[]*", field)
    rest = []
    for mm in re.finditer(r"\.(\w+)|\[([^\]]*)\]", field[m.end():]):
        rest.append((".", mm.group(1)) if mm.group(1) is not None else
                    ("[", int(mm.group(2)) if mm.group(2).isdigit() else mm.group(2)))
    return m.group(0), rest


@_m
def dict_method(self, b, d, name, args, kw, n):
    if name == "get":
        key = self.freeze(args[0])
        return self.dict_get(b, d, key, args[1] if len(args) > 1 else NONE)
    if name == "items":
        return mk("dictitems", b)
    if name == "keys":
        return mk("dictkeys", b)
    if name == "values":
        return mk("dictvalues", b)
    if name == "copy":
        return self.newref(("dict", tuple(d)))
    if b.op != "ref":
        return None
    if b.a[0] in self.base_heap and b.a[0] not in self.st.heap and name in ("pop", "setdefault", "update", "clear") \
            and not self.in_module_load():
        self.globalmut(b, mk("tuple", self.freeze(b), c(name)), n)
    if name == "pop":
        key = self.freeze(args[0])
        v = self.dict_get(b, d, key, args[1] if len(args) > 1 else BOT)
        self.setcell(b, ("dict", tuple((k, x) for k, x in d if k is not key)))
        return v
    if name == "setdefault":
        key = self.freeze(args[0])
        dd = dict(d)
        if key in dd:
            return dd[key]
        dd[key] = args[1] if len(args) > 1 else NONE
        self.setcell(b, ("dict", tuple(dd.items())))
        return dd[key]
    if name == "update":
        dd = dict(d)
        for a in args:
            o = self.as_dict(a)
            if o is None:
                its = self.finite(a)
                o = [(x.a[0], x.a[1]) for x in its] if its is not None and all(
                    x.op == "tuple" and len(x.a) == 2 for x in its) else [(mk("star", self.freeze(a)), NONE)]
            for k, v in o:
                dd[k] = v
        for k, v in kw:
            dd[c(k) if k else mk("star", v)] = v
        self.setcell(b, ("dict", tuple(dd.items())))
        return NONE
    if name == "clear":
        self.setcell(b, ("dict", ()))
        return NONE
    return None


@_m
def ref_method(self, b, name, args, kw, n):
    cell = self.cell(b)
    k = cell[0]
    if k == "inst":
        return self.call(self.getattr(b, name, n), args, kw, n)
    if k == "dict":
        r = self.dict_method(b, cell[1], name, args, kw, n)
        if r is not None:
            return r
    if k in ("list", "set"):
        items = list(cell[1])
        if b.a[0] in self.base_heap and b.a[0] not in self.st.heap and name in (
                "append", "add", "insert", "extend", "pop", "remove", "clear", "update", "sort", "reverse", "discard") \
                and not self.in_module_load():
            self.globalmut(b, mk("tuple", self.freeze(b), c(name)), n)
        if name in ("append", "add"):
            self.setcell(b, (k, cell[1] + (args[0],)))
            return NONE
        if name in ("extend", "update"):
            self.setcell(b, (k, cell[1] + tuple(self.spread(args[0]))))
            return NONE
        if name == "insert":
            if is_c(args[0], 0):
                self.setcell(b, (k, (args[1],) + cell[1]))
            elif not any(x.op in ("star", "gi") for x in items) and args[0].op == "c":
                items.insert(cv(args[0]), args[1])
                self.setcell(b, (k, tuple(items)))
            else:
                self.setcell(b, (k, cell[1] + (mk("ins", self.freeze(args[0]), self.freeze(args[1])),)))
            return NONE
        if name == "pop":
            if not any(x.op in ("star", "gi") for x in items) and (not args or args[0].op == "c"):
                try:
                    v = items.pop(cv(args[0]) if args else -1)
                    self.setcell(b, (k, tuple(items)))
                    return v
                except IndexError:
                    return BOT
            f = self.freeze(b)
            i = self.freeze(args[0]) if args else c(-1)
            self.setcell(b, (k, (mk("star", mk("without", f, i)),)))
            return mk("[]", f, i)
        if name == "copy":
            return self.newref((k, cell[1]))
        if name == "clear":
            self.setcell(b, (k, ()))
            return NONE
        if name == "sort":
            key = next((v for kk, v in kw if kk == "key"), None)
            self.setcell(b, (k, (mk("star", self.sorted_term(self.freeze(b), key, kw)),)))
            return NONE
        if name == "reverse":
            self.setcell(b, (k, tuple(items[::-1]) if not any(x.op == "star" for x in items) else
                             (mk("star", mk("reversed", self.freeze(b))),)))
            return NONE
        if name == "remove":
            self.setcell(b, (k, tuple(x for x in items if x is not args[0]) if args[0] in items else
                             (mk("star", mk("remove", self.freeze(b), self.freeze(args[0]))),)))
            return NONE
        if name in ("index", "count"):
            return mk("m", name, self.freeze(b), *[self.freeze(a) for a in args])
        return mk("m", name, self.freeze(b), *[self.freeze(a) for a in args])
    if k == "elem":
        return self.elem_cell_method(b, cell, name, args, kw, n)
    if k == "hash":
        if name == "update":
            self.setcell(b, ("hash", cell[1], cat(cell[2], self.freeze(args[0]))))
            return NONE
        if name == "digest":
            return mk(cell[1], cell[2])
        if name == "hexdigest":
            return mk("hex", mk(cell[1], cell[2]))
        if name == "copy":
            return self.newref(cell)
    if k == "hmac":
        if name == "update":
            self.setcell(b, ("hmac", cell[1], cell[2], cat(cell[3], self.freeze(args[0]))))
            return NONE
        if name == "digest":
            return mk("hmac", cell[1], cell[2], cell[3])
        if name == "hexdigest":
            return mk("hex", mk("hmac", cell[1], cell[2], cell[3]))
    t = mk("m", name, self.freeze(b), *[self.freeze(a) for a in args])
    self.emit("call", t, n)
    return t


@_m
def extend_elem(self, b, args, n):
    """Adding several children is adding each in turn."""
    if len(args) != 1:
        return False
    a = args[0]
    if a.op == "ite":
        self.if_(self.sim(a.a[0]), lambda: self.callmethod(b, "extend", [a.a[1]], [], n), lambda: self.callmethod(b, "extend", [a.a[2]], [], n))
        return True
    items = self.finite(a)
    if items is not None and len(items) <= 8:
        for x in items:
            if x.op == "gi":
                self.if_(x.a[0], lambda x=x: self.callmethod(b, "append", [x.a[1]], [], n), lambda: None)
            else:
                self.callmethod(b, "append", [x], [], n)
        return True
    fa = self.freeze(a)
    if fa.op == "comp" and b.op != "ref":
        self.loops.append(mk("for", fa.a[0]))
        mark = len(self.pc)
        if fa.a[1] is not TRUE:
            self.push(fa.a[1], True, "loop")
        self.callmethod(b, "append", [fa.a[2]], [], n)
        self.pop_to(mark)
        self.loops.pop()
        return True
    return False


@_m
def elem_cell_method(self, b, cell, name, args, kw, n):
    tag, attrs, ch, text = cell[1:]
    if name == "extend" and self.extend_elem(b, args, n):
        return NONE
    if name in ("append", "insert", "extend"):
        # an element that is already part of a tree moves
        for a in (args[-1:] if name != "extend" else self.spread(args[0])):
            if a.op != "ref" and a.op != "copy" and is_elem(a, self):
                self.emit("mut", mk("mut", name, self.freeze(b), (self.freeze(a),)), n)
    if name == "append":
        self.setcell(b, ("elem", tag, attrs, ch + (args[0],), text))
        return NONE
    if name == "extend":
        self.setcell(b, ("elem", tag, attrs, ch + tuple(self.spread(args[0])), text))
        return NONE
    if name == "insert":
        if args[0].op == "c":
            l = list(ch)
            l.insert(cv(args[0]), args[1])
            self.setcell(b, ("elem", tag, attrs, tuple(l), text))
        else:
            self.setcell(b, ("elem", tag, attrs, ch + (args[1],), text))
        return NONE
    if name == "remove":
        self.setcell(b, ("elem", tag, attrs, tuple(x for x in ch if x is not args[0]), text))
        return NONE
    if name == "set":
        d = dict(attrs)
        d[self.freeze(args[0])] = args[1]
        self.setcell(b, ("elem", tag, tuple(d.items()), ch, text))
        return NONE
    if name == "get":
        d = dict(attrs)
        return d.get(self.freeze(args[0]), args[1] if len(args) > 1 else NONE)
    if name in ("find", "findall", "xpath"):
        if name == "find" and args and args[0].op == "c":
            for x in ch:
                if x.op == "ref" and self.cell(x)[0] == "elem" and self.cell(x)[1] is args[0]:
                    return x
            if all(x.op == "ref" for x in ch) and "/" not in cv(args[0]) and not any(x.op in ("star", "gi") for x in ch):
                return NONE
    if name in ("getchildren",):
        return self.newref(("list", ch))
    return self.elem_method(self.freeze(b), name, args, kw, n)


@_m
def elem_method(self, b, name, args, kw, n):
    fb = self.freeze(b)
    fa = [self.freeze(a) for a in args]
    base = fb
    tree = is_tree(fb)
    if tree:
        base = root_of(fb)
    kwd = {k: v for k, v in kw if k}
    if name in ("find", "findall", "iterfind"):
        path = fa[0] if fa else kwd.get("path")
        if path is None:
            return None
        mode = "first" if name == "find" else "all"
        if tree:
            path = cat(c("/KeePassFile/"), path) if not (path.op == "c" and str(cv(path)).startswith((".", "/"))) else path
            if path.op == "c" and cv(path).startswith("./"):
                path = c("/KeePassFile" + cv(path)[1:])
            if path.op == "c" and cv(path).startswith(".//"):
                path = c(cv(path)[1:])
        return self.query(base, path, mode, {})
    if name == "xpath":
        q = fa[0] if fa else kwd.get("_path", NONE)
        return self.query(base, q, "all", kwd)
    if name == "findtext":
        path = fa[0]
        f = self.elem_method(b, "find", args[:1], [], n)
        tx = self.getattr(f, "text", n)
        return ite(self.sim(isnone(f)), fa[1] if len(fa) > 1 else kwd.get("default", NONE),
                   ite(self.sim(isnone(tx)), c(""), tx))
    if name == "getroot" and tree:
        self.rt = fb
        return mkq(root_of(fb), (("root", "", ()), ("child", "KeePassFile", ())), "first")
    if name == "getroottree":
        return mk(".", mk("tree0"), "xml")
    if name == "getparent":
        return mkq(fb, (("parent", "node()", ()),), "first")
    if name in ("getchildren",):
        return self.vq(fb, (("child", "*", ()),), "all")
    if name in ("iterchildren",):
        tags = fa + [v for k, v in kw if k == "tag"]
        return self.vq(fb, (("child", cv(tags[0]) if tags and tags[0].op == "c" else "*", ()),), "all")
    if name in ("iter", "iterdescendants"):
        tags = fa
        return self.vq(base, ((("root", "", ()),) if tree else ()) + (("desc1", cv(tags[0]) if tags and tags[0].op == "c" else "*", ()),), "all")
    if name == "iterancestors":
        tags = fa
        # nearest first
        return mk("ancestors", fb, cv(tags[0]) if tags and tags[0].op == "c" else "*")
    if name == "get" and not tree:
        return self.xattr_default(mk("xattr", fb, fa[0]), args[1:] or [v for k, v in kw if k == "default"])
    if name == "keys":
        return mk("dictkeys", mk("attrib", fb))
    if name == "items":
        return mk("dictitems", mk("attrib", fb))
    if name == "extend" and self.extend_elem(b, args, n):
        return NONE
    if name in ("append", "insert", "extend", "remove", "clear", "set", "replace", "addnext", "addprevious", "write"):
        self.emit("mut", mk("mut", name, fb, tuple(fa)), n)
        if not self.mute and any(a.op in ("ref", "ite") for a in args):
            self.events[-1].raw = mk("mut", name, fb, tuple(args))
        return NONE
    if name == "getpath":
        return mk("m", "getpath", fb, *fa)
    if name == "index":
        return mk("m", "index", fb, *fa)
    return None


@_m
def query(self, base, q, mode, kwd):
    """Elements selected by an XPath / ElementPath query term."""
    if base.op == "ite":
        return ite(base.a[0], self.query(base.a[1], q, mode, kwd), self.query(base.a[2], q, mode, kwd))
    if is_c(base, None):
        base = ROOT
    var = {k: self.freeze(v) for k, v in kwd.items() if k not in ("namespaces", "extensions", "smart_strings", "tag")}
    q = self.freeze(q)
    if q.op == "bot":
        return BOT
    try:
        path = xp.parse(q, var)
        return self.vq(base, path, mode)
    except xp.XPathError as e:
        # a query that is put together conditionally
        alt = _first_ite(q)
        if alt is not None:
            cond = alt.a[0]
            qa, qb = subst(q, {alt: alt.a[1]}), subst(q, {alt: alt.a[2]})
            f1, f2 = {}, {}
            add_fact(f1, cond, True)
            add_fact(f2, cond, False)
            return ite(cond, self.query(base, simp(qa, f1), mode, kwd), self.query(base, simp(qb, f2), mode, kwd))
        self.notes.append("query %s: %s" % (show(q), e))
        return mk("badq", base, q, mode)


def _first_ite(q):
    parts = q.a if q.op == "cat" else (q,)
    for p in parts:
        if p.op == "ite" and xp.literal_of(p) is None:
            return p
    return None


# ------------------------------------------------------------ regex matches in scenarios
@_m
def match_group(self, m, k):
    whole, groups, names = m.a[:3]
    if k == 0:
        return whole
    if isinstance(k, str):
        d = dict(names)
        if k in d:
            return groups[d[k] - 1]
        return BOT
    return groups[k - 1] if k - 1 < len(groups) else BOT


@_m
def match_method(self, m, name, args):
    if name == "group":
        if not args:
            return m.a[0]
        r = [self.match_group(m, cv(a)) if a.op == "c" else mk("m", "group", m, a) for a in args]
        return r[0] if len(r) == 1 else mk("tuple", *r)
    if name == "groups":
        return mk("tuple", *m.a[1])
    if name == "groupdict":
        return self.newref(("dict", tuple((c(k), m.a[1][i - 1]) for k, i in m.a[2])))
    if name in ("start", "end", "span"):
        if len(m.a) > 3 and (not args or is_c(args[0], 0)):
            lo, hi = m.a[3]
            return {"start": c(lo), "end": c(hi), "span": mk("tuple", c(lo), c(hi))}[name]
        return mk("m", name, m)
    if name == "expand":
        return mk("m", name, m)
    return None


# values of constants of the standard library
EXT_CONST = {"zlib.MAX_WBITS": 15, "zlib.DEFLATED": 8, "zlib.DEF_MEM_LEVEL": 8, "zlib.Z_DEFAULT_STRATEGY": 0, "zlib.Z_DEFAULT_COMPRESSION": -1,
             "zlib.Z_BEST_COMPRESSION": 9, "zlib.Z_BEST_SPEED": 1, "zlib.DEF_BUF_SIZE": 16384}
ALIASES = {"datetime.datetime.datetime": "datetime.datetime", "construct.core.Container": "construct.Container"}


# ------------------------------------------------------------ reads after writes
ELEMTAG = {}
STRUCT_MUT = {"append", "insert", "extend", "remove", "clear", "replace", "addnext", "addprevious"}
NESTED = {"Group", "Entry", "History", "Root", "Meta", "Binaries", "String", "Times"}


def tag_of(t):
    """Tag of an element term, None if unknown."""
    if t.op == "elem":
        return cv(t.a[0]) if t.a[0].op == "c" else None
    if t.op == "q":
        for st in reversed(t.a[1]):
            if st[0] == "self":
                continue
            if st[0] == "parent" or st[1] in ("*", "node()"):
                return None
            return st[1]
        return None
    if t.op == "s":
        return ELEMTAG.get(t.a[0])
    if t.op in ("copy", "iv", "nn", "pop", "[]", "sorted", "comp", "ver", "sl", "reversed"):
        return tag_of(t.a[0])
    if t.op == "api":
        return {"find_entries": "Entry", "find_groups": "Group", "find_attachments": "Binary"}.get(t.a[0])
    if t.op == "ite":
        x, y = tag_of(t.a[1]), tag_of(t.a[2])
        return x if x == y else None
    return None


def strip_nn(t):
    while t.op in ("nn", "ver"):
        t = t.a[0]
    return t


@_m
def live_events(self, *kinds):
    """Recorded effects that lie on the current path."""
    for e in self.events:
        if e.kind not in kinds:
            continue
        if any(decide(truthy(g[0]), self.facts) is (not g[1]) for g in e.guards):
            continue
        yield e


@_m
def vq(self, base, path, mode):
    """Query in the current state: the base is stamped with the earlier structural changes that may affect it."""
    st = []
    for e in self.live_events("mut"):
        if e.data.op != "mut" or e.data.a[0] not in STRUCT_MUT:
            continue
        parent, args = strip_nn(e.data.a[1]), [strip_nn(x) for x in e.data.a[2]]
        if e.data.a[0] in ("insert", "replace"):
            args = args[-1:]
        if e.data.a[0] in ("addnext", "addprevious"):
            parent = mk("parentof", parent)
        for a in args or [parent]:
            if affects(e.data.a[0], parent, a, strip_nn(base), path):
                st.append((e.data.a[0], tag_of(a) or "?", conj(*[g[0] if g[1] else neg(g[0]) for g in e.guards
                                                                if decide(truthy(g[0]), self.facts) is None])))
                break
    if st and not self.mute:
        return mk("q", mk("ver", base, tuple(st)), path, mode) if base.op != "ver" else mk("q", base, path, mode)
    return mkq(base, path, mode)


def affects(kind, parent, a, base, path):
    tag = None if kind == "clear" else tag_of(a)
    ptag = tag_of(parent)
    if base.op == "copy" or any(x.op == "copy" for x in subterms(parent)):
        return any(x is parent for x in subterms(base)) and base.op == "copy" and _aff(tag, ptag, parent, base, path)
    return _aff(tag, ptag, parent, base, path)


def _aff(tag, ptag, parent, base, path):
    prev = tag_of(base)
    first = True
    for ax, name, preds in path:
        if ax in ("child", "desc", "desc1", "descendant", "descendant-or-self"):
            hit = tag is None or name in (tag, "*", "node()")
            if ax != "child":
                if hit or tag in NESTED:
                    return True
            elif hit:
                if first:
                    if parent is base:
                        return True
                elif ptag is None or prev is None or ptag == prev or prev in ("*", "node()"):
                    if tag is not None or ptag is not None:
                        return True
            prev = name
            first = False
            for p in preds:
                if isinstance(p, tuple) and p and p[0] == "has" and isinstance(p[1], tuple):
                    if any(s2[0] == "child" and s2[1] == tag for s2 in p[1] if isinstance(s2, tuple) and len(s2) == 3) \
                            and (ptag is None or ptag == name):
                        return True
        elif ax == "root":
            prev, first = "", False
        elif ax in ("ancestor", "parent", "self"):
            prev = None if name in ("*", "node()") else name
            first = False
    return False


@_m
def stored(self, b, name):
    """Value written earlier on this path to the same attribute of the same object."""
    r = None
    fb = None
    for e in self.live_events("store"):
        d = e.data
        if d.op != "tuple" or len(d.a) != 3 or not is_c(d.a[1], name):
            continue
        if fb is None:
            fb = self.freeze(b)
        if d.a[0] is fb:
            g = conj(*[g[0] if g[1] else neg(g[0]) for g in e.guards])
            g = self.sim(g)
            if e.loops and tuple(e.loops) != tuple(self.loops)[:len(e.loops)]:
                continue
            r = ite(g, d.a[2], r if r is not None else mk(".", fb, name))
    return r


@_m
def after(self, t):
    """An opaque container read after it has been changed on this path."""
    if t.op != ".":
        return t
    base = t
    for e in self.live_events("mut", "listmut"):
        if e.data.op == "mut" and e.data.a[1] is base and e.data.a[0] != "seek":
            t = mk("after", t, e.data.a[0], e.data.a[2])
    return t

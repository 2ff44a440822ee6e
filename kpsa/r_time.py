"""C22 time encoding, C33 expiry and credential age."""
from .lib import *
from .norm import norm, iso_instants
from .r_fields import obj, codec, TIMES

ALLVERS = ((3, 0), (3, 1), (4, 0), (4, 1))
EPOCH = mk("date", c(1), c(1), c(1), c(0), c(0), c(0), c(0), UTC)


def instants(t):
    return norm(t)


def rewrite(t, f):
    memo = {}

    def go(x):
        if isinstance(x, T):
            if x in memo:
                return memo[x]
            a = tuple(go(y) for y in x.a)
            y = x if all(p is q for p, q in zip(a, x.a)) else mk(x.op, *a)
            r = f(y)
            memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return go(t)


def iso_expected(txt):
    d = mk("fromiso", txt)
    return ite(isnone(mk(".", d, "tzinfo")), mk("m", "replace", d, mk("kw", (("tzinfo", UTC),))), mk("utc", d))


def exc_atoms(t):
    return [x for x in subterms(t) if x.op == "exc"]


@rule("C22")
def time_codec(ck):
    """For every time attribute and both format versions, the stored text is the version's encoding of exactly the
    assigned instant, and reading decodes exactly that text back to UTC; a KDBX4 text that is not base64 or not eight
    bytes is read as ISO 8601."""
    E_ = ck.eng
    v = s("value#datetime")
    want4 = mk("b64", mk("le", 8, mk("int", mk("secs", mk("op", "-", v, EPOCH)))))
    for ver in ALLVERS:
        slots = []
        for cls in ("Entry", "Group"):
            o = obj(ck, cls)
            for attr, t in TIMES.items():
                X = q(elem_of(o), "Times/" + t)
                sc = [exists(q(elem_of(o), "Times")), exists(X), *stored(X)]
                slots.append(("%s.%s" % (cls, attr), X, sc, lambda a=attr, o=o, sc=sc: E_.o_set(o, a, v, ver, sc),
                              lambda a=attr, o=o, sc=sc: E_.o_get(o, a, ver, sc), where_fn(E_, cls, attr)))
        X = meta("MasterKeyChanged")
        sc = [exists(X), *stored(X)]
        slots.append(("PyKeePass.credchange_date", X, sc, lambda: E_.kp_set("credchange_date", v, ver, sc),
                      lambda: E_.kp_get("credchange_date", ver, sc), where_fn(E_, "PyKeePass", "credchange_date")))
        for name, X, sc, put, get, w in slots:
            F_ = F(*sc)
            what = "%s KDBX %d.%d" % (name, ver[0], ver[1])
            n = Net(put(), F_)
            st = [k[2] for k in n.eff if k[0] == "text" and k[1] is X]
            wd = where_enc(E_, w)
            if len(st) != 1:
                ck.maybe("time_codec", what + " stored", "%d stores" % len(st))
            else:
                enc = instants(st[0])
                if ver >= (4, 0):
                    ck.same("time_codec", what + " stored", enc, want4, wd, F_)
                else:
                    iso3(ck, what + " stored", enc, v, wd, F_)
            r = get()
            val = instants(simp(unver(r.value), F_))
            txt = text(X)
            if ver >= (4, 0):
                ats = exc_atoms(val)
                ok_ = F(*sc)
                bad_ = F(*sc)
                for a in ats:
                    ok_[a] = False
                    bad_[a] = True
                ck.same("time_codec", what + " read", simp(val, ok_), mk("op", "+", EPOCH, mk("delta", mk("unle", 8, mk("unb64", txt)))), w, ok_)
                names = {x for a in ats for h in a.a[1] for x in (h if isinstance(h, tuple) else (h,))}
                names = {str(x) for x in flatten(names)}
                gen = {"Exception", "BaseException", "?"}
                miss = []
                if not names & (gen | {"binascii.Error", "ValueError"}):
                    miss.append("binascii.Error")
                if not names & (gen | {"struct.error"}):
                    miss.append("struct.error")
                if not ats:
                    if r.unknowns or any(x.op in ("unknown", "havoc") for x in subterms(val)):
                        ck.maybe("time_codec", what + " read when textual", "no exception handling recognised")
                    else:
                        ck.bad("time_codec", what + " read when textual", w, "a textual time is not handled: decoding it raises")
                elif miss:
                    ck.bad("time_codec", what + " read when textual", w, "%s raised for a textual time is not handled" % " and ".join(miss))
                else:
                    ck.same("time_codec", what + " read when textual", simp(val, bad_), iso_expected(txt), w, bad_)
            else:
                ck.same("time_codec", what + " read", val, iso_expected(txt), w, F_)


def where_enc(E_, w):
    return w


def flatten(x):
    if isinstance(x, (tuple, list, set, frozenset)):
        for y in x:
            yield from flatten(y)
    else:
        yield x


ISO_OK = (("timespec", "seconds"), ("timespec", "auto"), ("timespec", "milliseconds"), ("timespec", "microseconds"))


def iso3(ck, what, enc, v, w, F_):
    """Accepts any ISO 8601 text of the same instant: isoformat() of the value or of the value in UTC."""
    if enc.op == "iso":
        base = enc.a[0]
        utc = False
        while base.op == "utc":
            base = base.a[0]
            utc = True
        opts = {}
        for x in enc.a[1]:
            opts.setdefault("sep", x)
        for k, x in enc.a[2]:
            opts[k] = x
        bad = []
        if base is not v:
            r, _ = equiv(base, v, F_)
            if r is not True:
                if r is False:
                    bad.append("encodes %s instead of the given time" % pretty(base)[:100])
                else:
                    ck.maybe("time_codec", what, pretty(base)[:100])
                    return
        ts = opts.get("timespec")
        if ts is not None and not (ts.op == "c" and cv(ts) in ("seconds", "auto", "milliseconds", "microseconds")):
            bad.append("drops the seconds (timespec %s)" % pretty(ts))
        if opts.get("sep") is not None and not is_c(opts["sep"], "T"):
            bad.append("uses another separator")
        ck.verdict("time_codec", what, not bad, w, "; ".join(bad))
        return
    sf = [x for x in subterms(enc) if x.op == "m" and x.a[0] == "strftime"]
    if enc.op == "m" and enc.a[0] == "strftime":
        fmt = cv(enc.a[2]) if enc.a[2].op == "c" else None
        b = enc.a[1]
        inutc = b.op == "utc"
        while b.op == "utc":
            b = b.a[0]
        if b is v and fmt in ("%Y-%m-%dT%H:%M:%SZ", "%Y-%m-%dT%H:%M:%S+00:00", "%Y-%m-%dT%H:%M:%S"):
            ck.verdict("time_codec", what, inutc, w, "the offset of a time outside UTC is dropped: %s" % fmt)
            return
    if enc.op == "m" and enc.a[0] == "replace" and enc.a[1].op == "iso":
        # isoformat().replace('+00:00', 'Z')
        if is_c(enc.a[2], "+00:00") and is_c(enc.a[3], "Z"):
            iso3(ck, what, enc.a[1], v, w, F_)
            return
    # any other text: does it denote another instant for some time?
    for x, z in iso_instants(enc, v) or ():
        if z is None or abs((z - x).total_seconds()) >= 1:
            ck.bad("time_codec", what, w, "%s is stored as a text that denotes %s: %s" % (x.isoformat(), z, pretty(enc)[:150]))
            return
    ck.maybe("time_codec", what, pretty(enc)[:200])


def now_bad(t):
    """Uses of the clock that are not the current UTC time."""
    for x in subterms(t):
        if x.op == "call" and x.a[0].op == "x" and x.a[0].a[0] in (
                "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today",
                "time.time", "time.localtime", "time.gmtime"):
            yield x
        if x.op in ("nowlocal", "utcnow"):
            yield x


@rule("C22")
def current_times(ck):
    """Every operation that stamps the current time stores the encoding of the current UTC time."""
    E_ = ck.eng
    for ver in VERSIONS:
        enc, _ = codec(ck, ver)
        want = instants(enc(NOW))
        items = []
        for cls in ("Entry", "Group"):
            o = obj(ck, cls)
            T_ = q(elem_of(o), "Times")
            A, Mo = q(elem_of(o), "Times/LastAccessTime"), q(elem_of(o), "Times/LastModificationTime")
            sc = [exists(T_), exists(A), exists(Mo)]
            items.append((cls + ".touch(modify)", E_.o_call(o, "touch", [], {"modify": TRUE}, ver, sc), F(*sc), where_fn(E_, cls, "touch")))
        X = meta("MasterKeyChanged")
        for nm in ("password", "keyfile"):
            items.append(("assigning " + nm, E_.kp_set(nm, s("value"), ver, [exists(X)]), F(exists(X)), where_fn(E_, "PyKeePass", nm)))
        for name, res, F_, w in items:
            n = Net(res, F_)
            ks = [k for k in n.eff if k[0] == "text"]
            if not ks:
                ck.maybe("current_times", "%s KDBX%d" % (name, ver[0]), "no time stored")
            for k in ks:
                ck.same("current_times", "%s KDBX%d" % (name, ver[0]), instants(k[2]), want, w, F_)


# ------------------------------------------------------------------ C33
@rule("C33")
def expiry(ck):
    """expired is exactly: expiry switched on and the stored expiry time strictly before the current UTC time."""
    E_ = ck.eng
    for cls in ("Entry", "Group", "HistoryEntry"):
        o = obj(ck, cls)
        e = elem_of(o)
        T_, X, Y = q(e, "Times"), q(e, "Times/Expires"), q(e, "Times/ExpiryTime")
        sc = [exists(T_), exists(X), exists(Y), *stored(X), *stored(Y)]
        w = where_fn(E_, cls, "expired")
        for ver in VERSIONS:
            _, dec = codec(ck, ver)
            on = cmp("==", text(X), c("True"))
            for flag in (True, False):
                f2 = sc + [(on, flag)]
                n = Net(E_.o_get(o, "expired", ver, f2), F(*f2))
                want = cmp("<", simp(unver(dec(text(Y))), n.facts), NOW) if flag else FALSE
                ck.same("expiry", "%s.expired with expiry switched %s KDBX%d" % (cls, "on" if flag else "off", ver[0]),
                        noutc(n.value), noutc(want), w, n.facts)
                n2 = E_.o_get(o, "expired", ver, f2)
                ck.verdict("expiry", "%s.expired changes nothing" % cls, not Net(n2, F(*f2)).eff or None)


def noutc(t):
    return norm(t)


@rule("C33")
def credential_age(ck):
    """credchange_required/recommended are exactly: change time known, interval not -1, and more whole days passed since
    the change time than that interval."""
    E_ = ck.eng
    X = meta("MasterKeyChanged")
    for nm, t in (("credchange_required", "MasterKeyChangeForce"), ("credchange_recommended", "MasterKeyChangeRec")):
        Y = meta(t)
        w = where_fn(E_, "PyKeePass", nm)
        for ver in VERSIONS:
            _, dec = codec(ck, ver)
            sc = [exists(X), exists(Y), *stored(X), *stored(Y)]
            n = Net(E_.kp_get(nm, ver, sc), F(*sc))
            days = mk(".", mk("op", "-", NOW, simp(unver(dec(text(X))), n.facts)), "days")
            i = mk("int", text(Y))
            want = conj(neg(cmp("==", i, c(-1))), cmp("<", i, days))
            ck.same("credential_age", "%s KDBX%d" % (nm, ver[0]), noutc(n.value), noutc(want), w, n.facts)
            sc2 = [missing(X), exists(Y), *stored(Y)]
            n = Net(E_.kp_get(nm, ver, sc2), F(*sc2))
            ck.same("credential_age", "%s without change time KDBX%d" % (nm, ver[0]), n.value, FALSE, w, n.facts)


@rule("C33")
def touching(ck):
    """touch() stores the current UTC time as access time, and as modification time only on request; nothing else."""
    E_ = ck.eng
    for cls in ("Entry", "Group", "HistoryEntry"):
        o = obj(ck, cls)
        T_ = q(elem_of(o), "Times")
        A, Mo = q(elem_of(o), "Times/LastAccessTime"), q(elem_of(o), "Times/LastModificationTime")
        sc = [exists(T_), exists(A), exists(Mo)]
        w = where_fn(E_, cls, "touch")
        for ver in VERSIONS:
            enc, _ = codec(ck, ver)
            st = ("text", A, enc(NOW))
            sm = ("text", Mo, enc(NOW))
            only(ck, "touching", "%s.touch() KDBX%d" % (cls, ver[0]), Net(E_.o_call(o, "touch", [], (), ver, sc), F(*sc)), {st: TRUE}, w)
            only(ck, "touching", "%s.touch(modify=True) KDBX%d" % (cls, ver[0]), Net(E_.o_call(o, "touch", [], {"modify": TRUE}, ver, sc), F(*sc)),
                 {st: TRUE, sm: TRUE}, w)
            m = s("modify#bool")
            only(ck, "touching", "%s.touch(modify) KDBX%d" % (cls, ver[0]), Net(E_.o_call(o, "touch", [m], (), ver, sc), F(*sc)),
                 {st: TRUE, sm: m}, w)

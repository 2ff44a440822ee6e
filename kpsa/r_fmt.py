"""The file format: C02, C03 verification, C08 inverse transformations, C09 layout, C10 protected values."""
from .lib import *
from .fmt import parsing, asrec, building, fnorm, FormatError, TREE, cipher as cipher_of, byteslike
from .net import excname
from .r_time import rewrite

AES, TWO, CHA = (b'1\xc1\xf2\xe6\xbfqCP\xbeX\x05!j\xfcZ\xff', b'\xadh\xf2\x9fWoK\xb9\xa3j\xd4z\xf9e4l',
                 b'\xd6\x03\x8a+\x8boL\xb5\xa5$3\x9a1\xdb\xb5\x9a')
CIPHER = {"aes256": AES, "twofish": TWO, "chacha20": CHA}
ALG = {"aes256": ("AES", "CBC", 16), "twofish": ("Twofish", "CBC", 16), "chacha20": ("ChaCha20", "", None)}
KDF = {"argon2": b'\xefcm\xdf\x8c)DK\x91\xf7\xa9\xa4\x03\xe3\n\x0c', "argon2id": b'\x9e)\x8b\x19V\xdbGs\xb2=\xfc>\xc6\xf0\xa1\xe6',
       "aeskdf": b'\xc9\xd9\xf3\x9ab\x8aD`\xbft\r\x08\xc1\x8aO\xea'}
STREAM = {"none": 0, "salsa20": 2, "chacha20": 3}
HERE = {3: "pykeepass/kdbx_parsing/kdbx3.py", 4: "pykeepass/kdbx_parsing/kdbx4.py"}

SEED, IV = mk("hv", "hdr", 4), mk("hv", "hdr", 7)
IDX = s("i#int")


def fixed(ver, cipher="aes256", comp=1, stream="chacha20", kdf="aeskdf"):
    fx = {("hdr", 2): CIPHER[cipher], ("hdr", 3): comp}
    if ver == 3:
        fx[("hdr", 10)] = STREAM[stream]
    else:
        fx[("inner", 1)] = STREAM[stream]
        fx[("hdr.11", "$UUID")] = KDF.get(kdf, b"\0" * 16)
    return fx


def scen(ver, full=True):
    for ci in CIPHER:
        for comp in (1, 0):
            for st in (STREAM if full else ("chacha20",)):
                yield "%s, %s, inner stream %s" % (ci, "compressed" if comp else "not compressed", st), dict(cipher=ci, comp=comp, stream=st)


_MEMO = {}


def fmt(ck, ver, decrypt=TRUE, args=None, **kw):
    """(parse, build) of a scenario; None when the declaration is outside the walker's vocabulary."""
    key = (id(ck.eng), ver, decrypt, tuple(sorted(kw.items())), tuple(sorted(args.items(), key=str)) if args else None)
    if key not in _MEMO:
        try:
            f = parsing(ck.eng, ver, decrypt, fixed(ver, **kw), args)
            f.b = None
            f.evs = list(f.events)
            f.nparse = len(f.results)
            if decrypt is TRUE:
                try:
                    f.b = building(f)
                except FormatError as e:
                    f.b, f.why = None, str(e)
        except FormatError as e:
            f = e
        _MEMO[key] = (ck.eng, f)
    return _MEMO[key][1]


def loc(ver, e):
    return "%s %s" % (HERE[ver], " -> ".join(e.path) if e is not None else "")


def header(f):
    """The bytes of the outer header."""
    h = f.recs.get(f.value, {}).get("header")
    d = f.recs.get(h, {}).get("data") if h is not None else None
    if d is None:
        for e in f.evs:
            if e.kind == "check":
                for x in subterms(e.test):
                    if x.op == "span":
                        return x
    return d


def keysyms(f):
    return [y for y in f.keys]


def tkey_sym(f, e=None):
    """Names of the computed values that stand for the transformed key: the ones master keys are made of."""
    out = []
    for y, v in f.keys.items():
        n = fnorm(v)
        if n.op == "sha256" and n.a[0].op == "cat" and n.a[0].a[0] is SEED and len(n.a[0].a) == 2:
            out.append((y, n.a[0].a[1]))
    return out


def sides(t):
    """Operands of an equality test, the bytes read first."""
    t = fnorm(t)
    if t.op == "cmp" and t.a[0] == "==":
        a, b = t.a[1], t.a[2]
        if b.op in ("raw", "uint") and a.op not in ("raw", "uint"):
            a, b = b, a
        return a, b
    return None


def early(f, *kinds):
    """Index of the first event of these kinds."""
    for i, e in enumerate(f.evs):
        if e.kind in kinds:
            return i
    return len(f.evs)


def find_check(f, read, after=0):
    """Checks comparing what was read at this place."""
    out = []
    for i, e in enumerate(f.evs):
        if e.kind != "check" or i < after:
            continue
        sd = sides(e.test)
        if sd and sd[0] is read:
            out.append((i, e, sd[1]))
    return out


def expect_check(ck, rule, what, f, ver, read, want, before, facts=None):
    """Somewhere before event number `before` the bytes `read` are compared with `want`, whatever the file says."""
    fc = facts or {}
    got = find_check(f, read)
    if not got:
        tests = [e for e in f.evs if e.kind == "check"]
        if any(not definite(fnorm(e.test)) or contains(fnorm(e.test), read) for e in tests):
            ck.maybe(rule, what, "the comparison is not recognised")
        else:
            ck.bad(rule, what, HERE[ver], "nothing compares %s" % pretty(read))
        return
    res = None
    for i, e, w in got:
        cond = simp(e.cond, fc)
        if cond is FALSE:
            continue
        w = simp(w, fc)
        r, d = equiv(w, want, fc)
        if r is True:
            if cond is not TRUE:
                r2, _ = equiv(cond, TRUE, fc)
                if r2 is False:
                    ck.bad(rule, what, loc(ver, e), "compared only when %s" % pretty(cond)[:300])
                    return
                if r2 is None:
                    ck.maybe(rule, what, "compared when " + pretty(cond)[:200])
                    return
            if i > before:
                ck.bad(rule, what, loc(ver, e), "data covered by this check is used before the comparison (by %s)" % " -> ".join(f.evs[before].path))
                return
            ck.ok(rule, what)
            return
        if r is False:
            res = (e, w)
        elif res is None:
            res = (e, None)
    if res is None:
        ck.bad(rule, what, HERE[ver], "no comparison applies")
    elif res[1] is None:
        ck.maybe(rule, what, "the expected value is not recognised")
    else:
        ck.bad(rule, what, loc(ver, res[0]), "compared with %s, the format needs %s" % (pretty(res[1])[:500], pretty(want)[:500]))


def usable(ck, rule, what, f):
    if isinstance(f, FormatError):
        ck.maybe(rule, what, str(f))
        return False
    return True


def blockrec(f):
    """(repeat event, data bytes of the block) of the payload block list."""
    for e in f.evs:
        if e.kind == "repeat" and not any(p == "dynamic_header" for p in e.path):
            r = f.recs.get(e.item, {})
            for k, v in r.items():
                if isinstance(v, T) and v.op == "raw" and v.a[3] == "*" and k not in ("_", "_index"):
                    return e, v, k
    return None, None, None


def hmackey(i8, tk):
    return mk("sha512", cat(i8, mk("sha512", cat(SEED, tk, c(b"\x01")))))


def blockmac(tk, D):
    i8 = mk("le", 8, IDX)
    return mk("hmac", "sha256", hmackey(i8, tk), cat(i8, mk("le", 4, mk("len", D)), D))


def hdrmac(tk, H):
    return mk("hmac", "sha256", hmackey(c(b"\xff" * 8), tk), H)


def until_ok(ck, rule, what, f, ver, e, D, test):
    r, d = equiv(fnorm(test), fnorm(neg(truthy(D))), None)
    ck.verdict(rule, what, r, loc(ver, e), "the block list ends when %s instead of at the first empty block" % pretty(test)[:300])


def tk_of(ck, rule, what, f):
    """The transformed key in this scenario."""
    ks = tkey_sym(f)
    if not ks:
        ck.maybe(rule, what, "no master key of the expected form")
        return None
    return ks[0][1]


def parts_of(f):
    if f.b is None:
        return None
    o = fnorm(f.b.out)
    return list(o.a) if o.op == "cat" else [o]


@rule("C02")
def kdbx4_verification(ck):
    """In every KDBX4 scenario (cipher, compression) the declaration read as a parser compares: the 32 bytes after the
    header with SHA-256 of exactly the header bytes, the next 32 with the header HMAC, and the 32 bytes of every block
    with its HMAC; all unconditionally and before any byte of the payload is transformed.  Read as a writer it emits
    the same values at the same places."""
    R = "kdbx4_verification"
    for nm, kw in scen(4, full=ck.tier == "thorough"):
        f = fmt(ck, 4, **kw)
        if not usable(ck, R, nm, f):
            continue
        H = header(f)
        if H is None or H.op != "span":
            ck.maybe(R, nm + ": header", "header bytes not recognised")
            continue
        if H.a[1:3] != (0, 0):
            ck.bad(R, nm + ": header bytes", loc(4, None), "the verified header does not begin at the start of the file")
        S = H.a[3]
        tk = tk_of(ck, R, nm + ": key", f)
        if tk is None:
            continue
        dec = early(f, "decode", "reparse")
        # position right after the header
        if H.a[4] != 0:
            ck.bad(R, nm + ": header bytes", loc(4, None), "the verified header ends inside a field")
        expect_check(ck, R, nm + ": header hash", f, 4, mk("raw", "file", S, 0, 32), mk("sha256", H), dec)
        expect_check(ck, R, nm + ": header HMAC", f, 4, mk("raw", "file", S, 32, 32), hdrmac(tk, H), dec)
        e, D, key = blockrec(f)
        if e is None:
            ck.maybe(R, nm + ": blocks", "no block list recognised")
            continue
        b0 = next((x for x in D.a[0] if isinstance(x, tuple)), None)
        item = D.a[0][0]
        expect_check(ck, R, nm + ": block HMAC", f, 4, mk("raw", item, 0, 0, 32), blockmac(tk, D), dec)
        until_ok(ck, R, nm + ": end of blocks", f, 4, e, D, e.until)
        used(ck, R, nm + ": bytes used", f, 4, key, e)
        # writing
        P = parts_of(f)
        if P is None:
            ck.maybe(R, nm + ": written", getattr(f, "why", ""))
            continue
        if len(P) < 4 or P[0] is not H:
            ck.maybe(R, nm + ": written", "written bytes not recognised")
            continue
        ck.same(R, nm + ": written header hash", P[1], mk("sha256", H), HERE[4])
        ck.same(R, nm + ": written header HMAC", P[2], hdrmac(tk, H), HERE[4])
        ea = P[3]
        if ea.op != "eachout" or len(P) != 4:
            ck.maybe(R, nm + ": written blocks", "block list not recognised")
            continue
        D2 = item_data(ea)
        if D2 is None:
            ck.maybe(R, nm + ": written blocks", "block data not recognised")
            continue
        tp = ea.a[1]
        ps = list(tp.a) if tp.op == "cat" else [tp]
        ck.same(R, nm + ": written block HMAC", ps[0], blockmac(tk, D2), HERE[4])
        until_ok(ck, R, nm + ": end of written blocks", f, 4, e, D2, ea.a[2])


def item_data(ea):
    """The data field of the written block."""
    ds = {x for x in subterms(ea.a[1]) if x.op == "." and x.a[0].op == "item"}
    return next(iter(ds)) if len(ds) == 1 else None


def used(ck, rule, what, f, ver, key, e):
    """The payload is exactly the data of the verified blocks."""
    d = next((x for x in f.evs if x.kind == "decode" and fnorm(x.value).op in ("catcomp", "join") and x.path == e.path), None)
    v = fnorm(d.value) if d is not None else None
    if v is None:
        ck.maybe(rule, what, "joining not recognised")
        return
    lst = mk("items", e.item)
    ok = v.op == "catcomp" and v.a[0] is lst and v.a[1] is TRUE and v.a[2] is mk(".", mk("iv", lst), key)
    if ok:
        ck.ok(rule, what)
    elif v.op == "catcomp" and definite(v):
        ck.bad(rule, what, loc(ver, d), "the payload is %s, not the concatenated data of the verified blocks" % pretty(v)[:300])
    else:
        ck.maybe(rule, what, pretty(v)[:200])


@rule("C03")
def kdbx3_verification(ck):
    """In every KDBX3 scenario the first comparison after decryption is the one of the first 32 bytes with the
    header's stream start bytes; each block's index and hash are compared (zero hash for the terminating empty
    block) before the blocks are joined; the writer emits these values at the same places."""
    R = "kdbx3_verification"
    for nm, kw in scen(3, full=ck.tier == "thorough"):
        f = fmt(ck, 3, **kw)
        if not usable(ck, R, nm, f):
            continue
        START = mk("hv", "hdr", 9)
        ri = early(f, "reparse")
        if ri == len(f.evs):
            ck.maybe(R, nm, "no second parsing step")
            continue
        pay = f.evs[ri].stream
        rest = [e for e in f.evs[ri + 1:]]
        nxt = ri + 1 + next((i for i, e in enumerate(rest) if e.kind in ("decode", "repeat", "reparse")), len(rest))
        expect_check(ck, R, nm + ": stream start bytes", f, 3, mk("raw", pay, 0, 0, 32), START, nxt)
        e, D, key = blockrec(f)
        if e is None:
            ck.maybe(R, nm + ": blocks", "no block list recognised")
            continue
        item = D.a[0][0]
        join = ri + 1 + next((i for i, x in enumerate(rest) if x.kind in ("decode", "reparse")), len(rest))
        expect_check(ck, R, nm + ": block index", f, 3, mk("uint", mk("raw", item, 0, 0, 4)), IDX, join)
        expect_check(ck, R, nm + ": block hash", f, 3, mk("raw", item, 0, 4, 32), mk("sha256", D), join, facts=F((truthy(D), True)))
        expect_check(ck, R, nm + ": hash of the empty block", f, 3, mk("raw", item, 0, 4, 32), c(b"\0" * 32), join, facts=F((truthy(D), False)))
        # no check of the payload precedes the one of the stream start bytes
        chk = [i for i, x in enumerate(f.evs) if x.kind == "check" and i > ri]
        fst = find_check(f, mk("raw", pay, 0, 0, 32))
        if chk and fst and fst[0][0] != chk[0]:
            ck.bad(R, nm + ": stream start bytes first", loc(3, f.evs[chk[0]]), "other payload data is interpreted before the stream start bytes are compared")
        until_ok(ck, R, nm + ": end of blocks", f, 3, e, D, e.until)
        used(ck, R, nm + ": bytes used", f, 3, key, e)
        # writing
        w = payload_written(f, 3)
        if w is None:
            ck.maybe(R, nm + ": written", getattr(f, "why", "") or "written payload not recognised")
            continue
        ps = list(w.a) if w.op == "cat" else [w]
        if len(ps) != 2 or ps[1].op != "eachout":
            # anything in front of the blocks
            ck.maybe(R, nm + ": written", "written payload not recognised: " + pretty(w)[:120])
            continue
        ck.same(R, nm + ": written stream start bytes", ps[0], START, HERE[3])
        ea = ps[1]
        D2 = item_data(ea)
        if D2 is None:
            ck.maybe(R, nm + ": written blocks", "block data not recognised")
            continue
        want = cat(mk("le", 4, IDX), ite(truthy(D2), mk("sha256", D2), c(b"\0" * 32)), mk("le", 4, mk("len", D2)), D2)
        ck.same(R, nm + ": written block", ea.a[1], want, HERE[3])
        until_ok(ck, R, nm + ": end of written blocks", f, 3, e, D2, ea.a[2])


def payload_written(f, ver):
    """Plain bytes the writer gives to the cipher."""
    P = parts_of(f)
    if P is None:
        return None
    x = P[-1]
    if ver == 4:
        if x.op != "eachout":
            return None
        x = joined(f, x)
        if x is None:
            return None
    if x.op != "encrypt":
        return None
    x = x.a[4]
    return x.a[1] if x.op == "pad" else x


def joined(f, ea):
    """DATA when the written block list is DATA cut into pieces of one size followed by an empty block."""
    L = f.b.each.get(ea.a[0])
    if L is None:
        return None
    L = fnorm(L)
    if L.op == "comp" and L.a[1] is TRUE and L.a[0].op == "list":
        # one item for every item of a list that is itself put together
        IV, out = mk("iv", L.a[0]), []
        for x in L.a[0].a:
            if x.op != "star":
                out.append(subst(L.a[2], {IV: x}))
            elif x.a[0].op == "comp":
                out.append(mk("star", mk("comp", x.a[0].a[0], x.a[0].a[1], subst(L.a[2], {IV: x.a[0].a[2]}))))
            else:
                return None
        L = mk("list", *out)
    if L.op != "list":
        return None
    it = list(L.a)
    fld = item_data(ea)
    if fld is None:
        return None
    key = fld.a[1]

    def fieldof(x):
        d = asrec(x)
        return d.get(key) if d is not None else None
    if len(it) == 1 and it[0].op == "star" and it[0].a[0].op == "comp" and definite(it[0]):
        return mk("badchunks", "no empty block at the end")
    D, ok = cutting(it, fieldof)
    if D is not None and not ok:
        return mk("badchunks", D)
    if len(it) != 2 or it[0].op != "star" or not is_c(fieldof(it[1]) or NONE, b""):
        return None
    cm = it[0].a[0]
    if cm.op != "comp" or cm.a[1] is not TRUE or cm.a[0].op != "range":
        return None
    lo, hi, stp = cm.a[0].a
    d = fieldof(cm.a[2])
    if d is None or d.op != "sl" or not is_c(lo, 0) and lo is not NONE:
        return None
    iv = mk("iv", cm.a[0])
    if hi is mk("len", d.a[0]) and d.a[1] is iv and d.a[2] is arith("+", iv, stp) and stp.op == "c" and 0 < cv(stp) < 2 ** 31 and d.a[3] is NONE:
        return d.a[0]
    return None


class NotNumber(Exception):
    pass


def number(t, m):
    v = subst(t, m)
    if v.op != "c" or not isinstance(cv(v), (int, type(None))):
        raise NotNumber()
    return cv(v)


def pieces(items, fieldof, n):
    """The pieces [lo, hi) of data of n bytes the list is made of; the data."""
    D, out = None, []
    AT = s("$at#int")

    def piece(d, m):
        nonlocal D
        if d is None:
            raise NotNumber()
        if d.op == "c":
            out.append((0, 0) if cv(d) == b"" else (-1, -1))
            return
        if d.op != "sl" or d.a[3] is not NONE:
            raise NotNumber()
        D = d.a[0] if D is None else D
        if d.a[0] is not D:
            raise NotNumber()
        m = dict(m)
        m[mk("len", D)] = c(n)
        lo, hi, _ = slice(number(d.a[1], m), number(d.a[2], m)).indices(n)
        out.append((lo, max(lo, hi)))

    for x in items:
        if x.op == "star" and x.a[0].op == "comp":
            X, cond, y = x.a[0].a
            d = fieldof(y)
            if d is None or d.op != "sl":
                raise NotNumber()
            m = {mk("len", d.a[0]): c(n)}
            iv = mk("iv", X)
            if X.op == "range":
                r = [number(z, m) for z in X.a]
                its = range(r[0] or 0, r[1], r[2] if r[2] is not None else 1)
                if len(its) > 64:
                    raise NotNumber()
            elif X.op == "walk":
                i, its = cv(X.a[0]), []
                while number(X.a[2], {**m, AT: c(i)}):
                    its.append(i)
                    i += cv(X.a[1])
                    if len(its) > 64:
                        raise NotNumber()
            else:
                raise NotNumber()
            for i in its:
                mi = {**m, iv: c(i)}
                if number(cond, mi):
                    piece(d, mi)
        elif x.op == "gi":
            d = fieldof(x.a[1])
            if D is None or not number(x.a[0], {mk("len", D): c(n)}):
                if D is None:
                    raise NotNumber()
                continue
            piece(d, {})
        else:
            piece(fieldof(x), {})
    return D, out


def cutting(items, fieldof):
    """Arithmetic of the cutting, for sizes around the multiples of the constants it uses.
    (a counterexample, False), or (None, None) when it cannot be computed, or (None, True)."""
    consts = {cv(y) for x in items for y in subterms(x) if y.op == "c" and type(cv(y)) is int and 2 ** 10 <= cv(y) < 2 ** 31}
    for k in sorted(consts)[:4]:
        for n in sorted({m * k + o for m in (0, 1, 2, 3) for o in (-17, -16, -15, -1, 0, 1, 15, 16, 17)}):
            if n < 0:
                continue
            try:
                D, ps = pieces(items, fieldof, n)
            except (NotNumber, ValueError, TypeError):
                return None, None
            at, bad = 0, ""
            for j, (lo, hi) in enumerate(ps):
                last = j == len(ps) - 1
                if hi == lo and not last and at < n:
                    bad = "an empty block, which ends the list, comes before byte %d" % at
                elif hi > lo and lo != at:
                    bad = "byte %d is followed by byte %d" % (at, lo)
                if bad:
                    break
                at = max(at, hi)
            if not bad and at != n:
                bad = "%d bytes are kept" % at
            if not bad and (not ps or ps[-1][0] != ps[-1][1]):
                bad = "no empty block ends the list"
            if bad:
                return "%d bytes of data: %s" % (n, bad), False
    return None, True


# ------------------------------------------------------------------ inverse transformations
def cancel(t):
    """decode(encode(x)) = x for the transformations of the payload."""
    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T) or not x.a or x.op in ("c", "s", "x", "raw", "span", "hv"):
            return x
        na = tuple(go(y) for y in x.a)
        x = x if na == x.a else rebuild(x.op, na)
        if x.op == "gunzip" and x.a[0].op == "gzip":
            return x.a[0].a[0]
        if x.op == "inflate" and x.a[1].op == "deflate" and x.a[0] is x.a[1].a[0]:
            return x.a[1].a[1]
        if x.op == "inflate" and x.a[1].op == "gzip" and is_c(x.a[0], 31, 47):
            return x.a[1].a[0]
        if x.op == "unpad" and x.a[1].op == "pad" and x.a[0] is x.a[1].a[0]:
            return x.a[1].a[1]
        if x.op == "decrypt" and x.a[4].op == "encrypt" and x.a[:4] == x.a[4].a[:4]:
            return x.a[4].a[4]
        if x.op == "parsexml" and x.a[0].op == "ser" and x.a[1] == ():
            return x.a[0].a[0]
        return x
    return go(t)


BLOCKS = s("BLOCKS#bytes")


def read_chain(f, ver):
    """(what the second parsing step gets, what the XML parser gets) with BLOCKS for the concatenated blocks."""
    m = {}
    for e in f.evs:
        if e.kind == "decode" and fnorm(e.value).op == "catcomp" and fnorm(e.value).a[0].op == "items":
            m[fnorm(e.value)] = BLOCKS
    rp = next((e for e in f.evs if e.kind == "reparse"), None)
    inp = subst(fnorm(rp.input), m) if rp is not None else None
    xml = next((e for e in f.evs if e.kind == "decode" and fnorm(e.value).op == "parsexml" and fnorm(e.input).op != "parsexml"), None)
    return inp, subst(fnorm(xml.value), m) if xml is not None else None, rp


def ser_of(f, stream):
    """The document as serialised."""
    return mk("ser", mk("copy", TREE)) if stream != "none" else mk("ser", TREE)


@rule("C08")
def inverse_chain(ck):
    """For every version, cipher, compression flag and inner stream: the bytes the declaration writes, read back by
    the declaration, cancel to the serialised document (gunzip/gzip, unpad/pad, decrypt/encrypt with the same cipher,
    mode, key and IV, concatenation/cutting into pieces of one size followed by an empty block)."""
    R = "inverse_chain"
    for ver in (3, 4):
        for nm, kw in scen(ver):
            nm = "KDBX%d %s" % (ver, nm)
            f = fmt(ck, ver, **kw)
            if not usable(ck, R, nm, f):
                continue
            inp, xml, rp = read_chain(f, ver)
            P = parts_of(f)
            if inp is None or xml is None or P is None:
                ck.maybe(R, nm, "chain not recognised " + getattr(f, "why", ""))
                continue
            last = P[-1]
            SER = ser_of(f, kw["stream"])
            if ver == 4:
                if last.op != "eachout":
                    ck.maybe(R, nm, "written blocks not recognised")
                    continue
                data = joined(f, last)
                if data is None:
                    ck.maybe(R, nm + ": blocks", "cutting not recognised")
                    continue
                if data.op == "badchunks":
                    ck.bad(R, nm + ": blocks", "pykeepass/kdbx_parsing/common.py", "the pieces do not make up the data: %s" % data.a[0])
                    continue
                back = cancel(subst(inp, {BLOCKS: data}))
                ck.same(R, nm + ": payload", back, cat(mk("ddout", "inner"), SER), HERE[4])
                # the document is everything after the inner header
                want = mk("parsexml", mk("raw", rp.stream, 2, 0, "*"), ())
                ck.same(R, nm + ": document", xml, want, HERE[4])
            else:
                back = cancel(subst(inp, {mk("raw", "file", 2, 0, "*"): last}))
                ps = list(back.a) if back.op == "cat" else [back]
                ea = ps[-1]
                if ea.op != "eachout" or len(ps) != 2:
                    if definite(back) and not has_op(back, "eachout") or has_op(back, "decrypt", "unpad", "gunzip"):
                        ck.bad(R, nm + ": payload", HERE[3], "what is written is not what is read back: %s" % pretty(back)[:400])
                    else:
                        ck.maybe(R, nm + ": payload", "written payload not recognised")
                    continue
                data = joined(f, ea)
                if data is None:
                    ck.maybe(R, nm + ": blocks", "cutting not recognised")
                    continue
                if data.op == "badchunks":
                    ck.bad(R, nm + ": blocks", "pykeepass/kdbx_parsing/common.py", "the pieces do not make up the data: %s" % data.a[0])
                    continue
                ck.same(R, nm + ": document", cancel(subst(xml, {BLOCKS: data})), SER.a[0], HERE[3])


def xor2(a, b):
    return mk("xor", tuple(sorted((a, b), key=id)))


def _flat(t):
    if t.op == "cat":
        return [y for x in t.a for y in _flat(x)]
    if t.op == "op" and t.a[0] == "+":
        return _flat(t.a[1]) + _flat(t.a[2])
    return [] if is_c(t, b"") else [t]


def _chain(ck, ip, data, iv, way):
    """What chaining the block cipher over `data` gives: a list of terms."""
    book = mk("call", ext("block.new"), (c(KEY32),), ())
    call = lambda name, x: ip.call(ip.getattr(book, name, None), [x], [], None)
    out, prev = [], c(iv)
    for i in range(0, len(data), 16):
        b = c(data[i:i + 16])
        if way == "encrypt":
            prev = call("encrypt", xor2(b, prev))
            out.append(prev)
        else:
            out.append(xor2(prev, call("decrypt", b)))
            prev = b
    return out


KEY32 = bytes(range(200, 232))


@rule("C08")
def twofish_chaining(ck):
    """The bundled Twofish in CBC mode, over data of 1, 2, 3, 17 and 280 blocks with the block cipher itself left
    uninterpreted: block i of the ciphertext is E(block i xor the previous ciphertext block), the first one xor the IV;
    decryption is the inverse."""
    R = "twofish_chaining"
    E_ = ck.eng
    try:
        cid = E_.base.class_by_name("python_Twofish")
    except AnalysisError:
        ck.maybe(R, "Twofish", "cipher class not found")
        return
    iv = bytes(range(100, 116))
    for n in (1, 2, 3, 17, 280):
        data = bytes(range(3, 19)) if n == 1 else bytes((i * 7 + i // 16) % 256 for i in range(16 * n))
        for way in ("encrypt", "decrypt"):
            what = "Twofish CBC %s of %d block%s" % (way, n, "s" if n > 1 else "")
            ip = E_.new()
            ip.call_hooks[("class", "Twofish")] = lambda ip, args, kw, n: mk("call", ext("block.new"), tuple(
                ip.freeze(a) for a in args), ())
            cls = mk("cls", cid)
            o = E_.call(ip, ip.getattr(cls, "new", None), [c(KEY32), ip.getattr(cls, "MODE_CBC", None), c(iv)]).value
            v = E_.call(ip, ip.getattr(o, way, None), [c(data)]).value

            def x(t):
                if t.op == "call" and show(t.a[0]).endswith("strxor") and len(t.a[1]) == 2:
                    return xor2(*t.a[1])
                return t
            got = [rewrite(t, x) for t in _flat(v)]
            want = _chain(ck, ip, data, iv, way)
            w = "pykeepass/kdbx_parsing/twofish.py"
            if got == want:
                ck.ok(R, what, "%d blocks chained" % n)
            elif all(y.op in ("c", "m", "call", "x", "xor", "attr") for t in got for y in subterms(t)):
                i = next((i for i, (a, b) in enumerate(zip(got, want)) if a is not b), min(len(got), len(want)))
                ck.bad(R, what, w, "block %d is not chained as CBC (%d blocks given, %d produced): %s" % (
                    i, n, len(got), pretty(got[i])[:300] if i < len(got) else "missing"))
            else:
                ck.maybe(R, what, "chaining not recognised")


# ------------------------------------------------------------------ maps of items
def items_of(keyname, ids):
    out = []
    for n, i in enumerate(ids):
        out.append(mk("container", ((keyname, c(i)), ("data", s("d%d#bytes" % n)))))
    return out


@rule("C08")
def item_maps(ck):
    """The header, KDF-parameter and inner-header maps: turning the list of items read into the map and the map
    back into a list gives every item of the input, the repeated ones (binaries) all and in their order, and the end
    marker last."""
    R = "item_maps"
    seen = set()
    for ver in (3, 4):
        f = fmt(ck, ver)
        if not usable(ck, R, "KDBX%d" % ver, f):
            continue
        for e in f.evs:
            if e.kind != "dict":
                continue
            o, dd = e.adapter, e.dd
            item, key, m, _, ctx = f.dds[dd]
            nm = "KDBX%d %s map" % (ver, dd.a[0])
            if nm in seen:
                continue
            seen.add(nm)
            fl = dict(o.a[1])
            lumped = [k for k, v in fl.items() if v.op in ("list", "tuple") and v.a]
            lump = [cv(x) for k in lumped for x in fl[k].a if x.op == "c"]
            if dd.a[0] == "inner":
                names = {v: k for k, v in (m or {}).items()}
                if any(i not in names for i in (0, 1, 2, 3)):
                    ck.bad(R, nm, HERE[ver], "an inner header item number is not recognised: %s" % sorted(m or {}, key=str))
                    continue
                runs = [[names[3], names[1], names[3], names[2], names[3], names[0]], [names[1], names[2], names[0]],
                        [names[1], names[2], names[3], names[3], names[0]]]
                repeat = names[3]
                end = names[0]
            elif m:
                names = {v: k for k, v in m.items()}
                if 0 not in names:
                    ck.bad(R, nm, HERE[ver], "no end marker")
                    continue
                runs = [[names[i] for i in sorted(names) if i] + [names[0]], [names[i] for i in sorted(names, reverse=True) if i] + [names[0]]]
                repeat = None
                end = names[0]
            else:
                runs = [["$UUID", "S", "I", "M", "P", "V"], ["$UUID", "R", "S"]]
                repeat = end = None
            for n, ids in enumerate(runs):
                what = "%s, items %s" % (nm, " ".join(ids))
                its = items_of(key, ids)
                try:
                    r1 = f.adapt(o, "_decode", mk("list", *its), s("ctx#ctx"))
                    d = f.R(noexc_(r1.value))
                    r2 = f.adapt(o, "_encode", d, s("ctx#ctx"))
                    back = f.R(noexc_(r2.value))
                except Exception as x:
                    ck.maybe(R, what, "%s: %s" % (type(x).__name__, x))
                    continue
                raised = [x for r in (r1, r2) for x in r.ev("raise") if x.cond is TRUE]
                got = listof(back)
                if got is None and d.op in ("container", "dict") and definite(d) and definite(back):
                    # items kept or dropped depending on their content
                    for fc, leaf in cases_of(back):
                        g2 = listof(leaf)
                        if g2 is not None and not all(any(x is y for y in g2) for x in its) and len(g2) < len(its):
                            got = g2
                            break
                if raised:
                    ck.bad(R, what, raised[0].where(), "raises %s" % excname(raised[0].data))
                    continue
                if got is None or d.op not in ("container", "dict"):
                    ck.maybe(R, what, "not evaluated: %s -> %s" % (pretty(d)[:120], pretty(back)[:120]))
                    continue
                missing = [x for x in its if x not in got]
                extra = [x for x in got if x not in its]
                w = where_fn(ck.eng, o.a[0].partition("@")[0], "_encode")
                if missing or extra or len(got) != len(its):
                    ck.bad(R, what, w, "written back: %s" % " ".join(itname(x, key) for x in got))
                    continue
                rep = [x for x in its if is_c(dict(x.a[0])[key], repeat)] if repeat else []
                if rep and [x for x in got if x in rep] != rep:
                    ck.bad(R, what, w, "the repeated items are written back in another order")
                    continue
                if end is not None and got[-1] is not its[-1]:
                    ck.bad(R, what, w, "the end marker is not the last item written")
                    continue
                # what is looked up by name is the item of that name
                wrong = [i for i, x in zip(ids, its) if i not in lump and i != repeat and lookup(d, i) is not x]
                if wrong:
                    ck.bad(R, what, where_fn(ck.eng, o.a[0].partition("@")[0], "_decode"), "looking up %r does not give its item" % wrong[0])
                    continue
                if rep:
                    l = lookup(d, repeat)
                    if l is None or listof(l) != rep:
                        if l is not None and listof(l) is None:
                            ck.maybe(R, what, "binaries not evaluated")
                        else:
                            ck.bad(R, what, where_fn(ck.eng, o.a[0].partition("@")[0], "_decode"), "the binaries are not all available in their order")
                        continue
                ck.ok(R, what)


def itname(x, key):
    d = asrec(x)
    if d is not None:
        return show(d.get(key, c("?")))
    return pretty(x)[:40]


def lookup(d, k):
    if d.op == "container":
        return dict(d.a[0]).get(k)
    if d.op == "dict":
        for a, b in d.a[0]:
            if is_c(a, k):
                return b
    return None


def listof(t):
    if t.op in ("list", "tuple"):
        out = []
        for x in t.a:
            if x.op == "star":
                y = listof(x.a[0])
                if y is None:
                    return None
                out += y
            elif x.op == "gi":
                return None
            else:
                out.append(x)
        return out
    if t.op == "call" and t.a[0].op == "x" and t.a[0].a[0].endswith("ListContainer") and len(t.a[1]) == 1:
        return listof(t.a[1][0])
    return None


def noexc_(t):
    from .fmt import noexc
    return noexc(t)


@rule("C08")
def one_to_one_maps(ck):
    """Every identifier mapping of the format is one-to-one, so that what was read is what is written."""
    R = "one_to_one_maps"
    for ver in (3, 4):
        f = fmt(ck, ver)
        if not usable(ck, R, "KDBX%d" % ver, f):
            continue
        for t, m in f.mappings.items():
            dup = [v for v in m.values() if list(m.values()).count(v) > 1]
            what = "KDBX%d mapping %s" % (ver, " ".join(sorted(map(str, m)))[:100])
            ck.need(R, what, not dup, HERE[ver], "two names for %r" % (dup[:1],))


# ------------------------------------------------------------------ protected values
def stream_cipher(ver, name):
    key = mk("hv", "hdr", 8) if ver == 3 else mk("hv", "inner", 2)
    if name == "salsa20":
        return ("Salsa20", "", mk("sha256", key), c(b"\xE8\x30\x09\x4B\x97\x20\x5D\x2A"))
    h = mk("sha512", key)
    return ("ChaCha20", "", mk("sl", h, NONE, c(32), NONE), mk("sl", h, c(32), c(44), NONE))


PROT = (("root", "", ()), ("desc1", "Value", (("aeq", "Protected", c("True")),)))
ALLV = (("root", "", ()), ("desc1", "Value", ()))


def xml_safe(pat):
    """The pattern removes no character XML allows: True / False / None."""
    try:
        import re._parser as sp
    except ImportError:
        import sre_parse as sp
    try:
        p = sp.parse(pat)
    except Exception:
        return None
    items = list(p)
    while len(items) == 1 and str(items[0][0]) in ("MAX_REPEAT", "SUBPATTERN"):
        items = list(items[0][1][-1])
    if len(items) != 1 or str(items[0][0]) != "IN":
        return None
    neg_ = False
    rng = []
    for op, av in items[0][1]:
        op = str(op)
        if op == "NEGATE":
            neg_ = True
        elif op == "RANGE":
            rng.append(av)
        elif op == "LITERAL":
            rng.append((av, av))
        else:
            return None
    ok = [(0x9, 0xA), (0xD, 0xD), (0x20, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0x10FFFF)]
    if neg_:
        def covered(lo, hi):
            x = lo
            while x <= hi:
                m = [b for a, b in rng if a <= x <= b]
                if not m:
                    return False
                x = max(m) + 1
            return True
        return all(covered(a, b) for a, b in ok)
    return not any(a <= y and x <= b for a, b in rng for x, y in ok)


def stream_side(ck, R, nm, f, ver, e, stream, enc):
    """One direction of the protected-value transformation."""
    res = e.res
    C = stream_cipher(ver, stream)
    docroot = mk("root", mk("copy", TREE)) if enc else mk("root")
    names = "encrypt" if enc else "decrypt"

    def N(t):
        return fnorm(f.R(unver(t)))
    if res.unknowns:
        ck.maybe(R, nm, "not fully analysed: %s" % res.unknowns[0][0])
        return
    muts = [v for v in res.events if v.kind in ("store", "mut", "listmut", "delattr")]
    news = [v for v in res.events if v.kind == "new"]
    calls = [v for v in res.events if v.kind == "call" and v.data.op == "m" and v.data.a[0] in ("encrypt", "decrypt")]
    seeks = [v for v in res.events if v.kind == "call" and v.data.op == "m" and v.data.a[0] == "seek"]
    if seeks:
        ck.bad(R, nm + ": key stream", seeks[0].where(), "the key stream position is changed")
    stores = [v for v in muts if v.kind == "store" and v.data.op == "tuple" and is_c(v.data.a[1], "text")]
    other = [v for v in muts if v not in stores]
    if other:
        ck.bad(R, nm + ": effects", other[0].where(), "also changes %s" % pretty(other[0].data)[:200])
    # what is stored when a value cannot be decrypted
    for v in list(stores):
        cn = f.R(unver(v.cond))
        ex = {x: False for x in subterms(cn) if x.op == "exc"}
        if ex and simp(cn, ex) is FALSE:
            stores.remove(v)
            nv = N(v.data.a[2])
            if nv is not mk(".", unver(v.data.a[0]), "text") and definite(nv):
                ck.bad(R, nm + ": undecodable values", v.where(), "a value that cannot be decrypted is replaced by %s" % pretty(nv)[:100])
    if len(stores) != 1:
        if not stores:
            ck.bad(R, nm, loc(ver, e), "no value is transformed")
        else:
            ck.maybe(R, nm, "several stores")
        return
    st = stores[0]
    loops = [unver(x) for x in st.loops]
    if len(loops) != 1 or loops[0].op != "for":
        ck.maybe(R, nm, "loop not recognised: " + pretty(loops)[:100])
        return
    Q = f.R(loops[0].a[0])
    el, val = unver(st.data.a[0]), N(st.data.a[2])
    fc = {}
    if Q.op == "q" and Q.a[0] is docroot and Q.a[1] == PROT and Q.a[2] == "all":
        sel = TRUE
    elif Q.op == "q" and Q.a[0] is docroot and Q.a[1] == ALLV and Q.a[2] == "all":
        sel = None
    elif Q.op == "q" and definite(Q):
        ck.bad(R, nm + ": values", st.where(), "transforms %s, not every protected value of the %s in document order" % (
            pretty(Q)[:200], "copied document" if enc else "document"))
        return
    elif Q.op in ("reversed", "sorted") and definite(Q):
        ck.bad(R, nm + ": order", st.where(), "values are not taken in document order: %s" % pretty(Q)[:150])
        return
    else:
        ck.maybe(R, nm, "values: " + pretty(Q)[:150])
        return
    iv = mk("iv", Q)
    if el is not iv:
        ck.maybe(R, nm, "element " + pretty(el)[:100])
        return
    txt = text(iv)
    cond = f.R(unver(st.cond))
    noex = {x: False for x in subterms(cond) if x.op == "exc"}
    P = mk("attr", iv, c("Protected"))
    base = dict(noex)
    protconds = [x for x in subterms(cond) if x.op == "cmp" and any(is_c(y, "True") for y in x.a[1:])]
    if sel is None:
        if len(protconds) != 1 or not contains(protconds[0], iv):
            ck.maybe(R, nm, "selection " + pretty(cond)[:150])
            return
        g = dict(noex)
        add_fact(g, protconds[0], False)
        r = simp(cond, g)
        if r is not FALSE:
            ck.verdict(R, nm + ": values", False if definite(r) else None, st.where(), "values not marked protected are transformed too")
            return
        add_fact(base, protconds[0], True)
    g = dict(base)
    add_fact(g, isnone(txt), False)
    add_fact(g, truthy(txt), True)
    r = simp(cond, g)
    r, d = equiv(r, TRUE, g)
    ck.verdict(R, nm + ": every non-empty value", r, st.where(), "a protected value is transformed only when %s" % pretty(cond)[:300])
    g = dict(base)
    add_fact(g, isnone(txt), True)
    add_fact(g, truthy(txt), False)
    r, d = equiv(simp(cond, g), FALSE, g)
    ck.verdict(R, nm + ": empty values are skipped", r, st.where(), "an empty value is transformed")
    # the cipher
    if len(news) != 1:
        ck.verdict(R, nm + ": one cipher", False if len(news) > 1 and all(cipher_of(fnorm(f.R(v.data))) for v in news) else None, loc(ver, e), "%d ciphers" % len(news))
        return
    nw = news[0]
    if nw.loops:
        ck.bad(R, nm + ": one key stream", nw.where(), "the key stream is started again for every value")
        return
    cc = cipher_of(N(nw.data))
    if cc is None:
        ck.maybe(R, nm + ": cipher", pretty(nw.data)[:100])
        return
    ck.same(R, nm + ": cipher", mk("cipher", *cc), mk("cipher", *C), nw.where())
    uses = [v for v in calls]
    if len(uses) != 1:
        ck.verdict(R, nm + ": key stream", False if uses else None, loc(ver, e), "%d uses of the key stream per value" % len(uses))
        return
    if uses[0].data.a[0] != names:
        pass          # a stream cipher: both directions are the same operation
    data = mk("enc", txt) if enc else mk("unb64", txt)
    x = fnorm(f.R(unver(uses[0].data)))
    ck.same(R, nm + ": bytes given to the cipher", x.a[4] if x.op in ("encrypt", "decrypt") else x, data, uses[0].where())
    out = mk(uses[0].data.a[0], *cc, data)
    if enc:
        v = val.a[0] if val.op == "dec" else val
        ck.same(R, nm + ": stored value", v, mk("b64", out), st.where())
        ck.same(R, nm + ": result", f.R(unver(res.value)), mk("copy", TREE), loc(ver, e))
    else:
        v = val
        for _ in range(3):
            if v.op == "call" and v.a[0] is ext("re.sub") and len(v.a[1]) >= 3 and is_c(v.a[1][1], ""):
                pt = v.a[1][0]
                ok = xml_safe(cv(pt)) if pt.op == "c" else None
                ck.verdict(R, nm + ": characters kept", ok, st.where(), "removes characters a value may contain: %s" % show(pt)[:120])
                v = v.a[1][2]
        if v.op == "m" and v.a[0] == "decode" and v.a[1] is out and len(v.a) > 3 and is_c(v.a[3], "ignore", "replace", "backslashreplace",
                                                                                           "surrogateescape", "xmlcharrefreplace"):
            ck.bad(R, nm + ": stored value", st.where(), "an undecodable value is altered instead of being left alone: %s" % pretty(v)[:200])
        elif has_op(v, "call", "m"):
            ck.maybe(R, nm + ": stored value", pretty(v)[:150])
        else:
            ck.same(R, nm + ": stored value", v, mk("dec", out), st.where())
        # one undecodable value does not stop the others
        tids = [t[0] for t in st.trys if t[1] == "body"]
        ok = None
        for t in tids:
            info = res.ip.tryinfo[t]
            caught = [h for hs in info["handlers"] for h in (hs if isinstance(hs, tuple) else (hs,))]
            from .interp import exc_match
            miss = [w for w in ("UnicodeDecodeError", "binascii.Error") if not any(exc_match(w, h, res.ip) for h in caught)]
            import ast
            loops_in = any(isinstance(y, (ast.For, ast.While)) for x in getattr(info["node"], "body", []) for y in ast.walk(x))
            if not loops_in and not miss:
                ok = True
            elif miss:
                ok, why = False, "%s is not handled" % miss[0]
            else:
                ok, why = False, "the error handler is outside the loop over the values"
        if not tids:
            ok, why = False, "an undecodable value stops the others"
        bad = [v for v in res.ev("raise") if any(x.op == "exc" for x in subterms(v.cond))]
        if bad:
            ok, why = False, "an undecodable value raises"
        brk = [v for v in res.ev("break") if v.cond is not FALSE]
        if brk and ok is not False:
            ok, why = (False, "the loop over the values ends at an undecodable value") if any(x.op == "exc" for x in subterms(brk[0].cond)) else (None, "")
        ck.verdict(R, nm + ": one bad value", ok, st.where(), why if ok is False else "")


@rule("C10")
def protected_values(ck):
    """For both versions and each inner stream cipher, the summary of the transformation applied on opening and on
    saving: one key stream (created once, from the header's key), applied to every non-empty element Value with
    Protected=True of the whole document (on saving: of a copy) in document order."""
    R = "protected_values"
    for ver in (3, 4):
        for stream in ("salsa20", "chacha20"):
            f = fmt(ck, ver, stream=stream)
            nm = "KDBX%d %s" % (ver, stream)
            if not usable(ck, R, nm, f):
                continue
            dec = [e for e in f.evs if e.kind == "decode" and fnorm(e.input).op == "parsexml"]
            if not dec:
                ck.bad(R, nm + ": opening", HERE[ver], "protected values are not decrypted")
            for e in dec:
                stream_side(ck, R, nm + ": opening", f, ver, e, stream, False)
            if f.b is None:
                ck.maybe(R, nm + ": saving", f.why)
                continue
            enc = [e for e in f.b.events if e.kind == "encode" and e.input is TREE]
            if not enc or fnorm(enc[0].value).op == "ser":
                ck.bad(R, nm + ": saving", HERE[ver], "protected values are written unencrypted")
                continue
            stream_side(ck, R, nm + ": saving", f, ver, enc[0], stream, True)
        f = fmt(ck, ver, stream="none")
        if usable(ck, R, "KDBX%d none" % ver, f):
            dec = [e for e in f.evs if e.kind == "decode" and fnorm(e.input).op == "parsexml"]
            ck.need(R, "KDBX%d none: opening" % ver, not dec, HERE[ver], "values are transformed although the header selects no stream cipher")
            if f.b is not None:
                enc = [e for e in f.b.events if e.kind == "encode" and e.input is TREE]
                ck.need(R, "KDBX%d none: saving" % ver, bool(enc) and fnorm(enc[0].value).op == "ser", HERE[ver], "values are transformed although the header selects no stream cipher")


# ------------------------------------------------------------------ layout
U1, U2, U4, U8 = [("int", n, "u") for n in (1, 2, 4, 8)]
I4, I8 = ("int", 4, "s"), ("int", 8, "s")
G = ("greedy",)
UTF8 = ("str", "utf-8")


def MAP(lay, *ids):
    return ("map", lay, tuple(ids))


CIPHERMAP = MAP(G, AES, TWO, CHA)
STREAMMAP = MAP(U4, 0, 1, 2, 3)
FLAGS = ("bits", 4, 0)
SPEC = {
    "hdr3": ("dict", ("repeat", "id0", ("struct", (MAP(U1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10), ("pref", U2, (
        "switch", {2: CIPHERMAP, 3: FLAGS, 6: U8, 10: STREAMMAP}, G)))))),
    "variant": ("struct", (("bytes", 2), ("dict", ("repeat", "next0", ("struct", (U1, ("pref", U4, UTF8), ("pref", U4, (
        "switch", {0x04: U4, 0x05: U8, 0x08: ("flag",), 0x0C: I4, 0x0D: I8, 0x42: G, 0x18: UTF8}, None)))))), ("bytes", 1))),
    "inner": ("dict", ("repeat", "id0", ("struct", (MAP(U1, 0, 1, 2, 3), ("pref", U4, ("switch", {1: STREAMMAP}, G)))))),
    "block3": ("struct", (U4, ("bytes", 32), ("pref", U4, G))),
    "block4": ("struct", (("bytes", 32), ("pref", U4, G))),
}
SPEC["hdr4"] = ("dict", ("repeat", "id0", ("struct", (MAP(U1, 0, 1, 2, 3, 4, 7, 11, 12), ("pref", U4, (
    "switch", {2: CIPHERMAP, 3: FLAGS, 11: SPEC["variant"]}, G))))))
SPEC["head3"] = ("struct", (("bytes", 4), ("bytes", 4), U2, U2, SPEC["hdr3"]))
SPEC["head4"] = ("struct", (("bytes", 4), ("bytes", 4), U2, U2, SPEC["hdr4"]))


def hexs(x):
    return x.hex() if isinstance(x, bytes) else str(x)


def match(a, b, where, out):
    """Compare a layout with the format's; out collects (verdict, text)."""
    if b is None:
        return
    if a[0] != b[0]:
        prim = ("int", "bytes", "greedy", "str", "flag", "bits", "map")
        out.append((False if a[0] in prim and b[0] in prim else None, "%s: is %s, the format has %s" % (where, lname(a), lname(b))))
        return
    k = a[0]
    if k == "int":
        if a[1:] != b[1:]:
            out.append((False, "%s: is %s, the format has %s" % (where, lname(a), lname(b))))
    elif k == "bytes":
        if a[1] != b[1]:
            out.append((False if isinstance(a[1], int) else None, "%s: is %s, the format has %s" % (where, lname(a), lname(b))))
    elif k == "str":
        if a[1].lower().replace("_", "-") not in ("utf-8", "utf8"):
            out.append((False, "%s: text is encoded in %s" % (where, a[1])))
    elif k == "bits":
        pos = [x for x in a[2]]
        if a[1] != b[1] or not any(p[1][:2] == (0, 1) for p in pos):
            out.append((False, "%s: the compression flag is not bit 0 of a %d-byte field" % (where, b[1])))
    elif k == "map":
        match(a[1], b[1], where + " identifier", out)
        ids = [v for _, v in a[2]]
        for i in b[2]:
            if i not in ids:
                out.append((False, "%s: identifier %s of the format is not recognised" % (where, hexs(i))))
    elif k == "pref":
        match(a[1], b[1], where + " length", out)
        match(a[2], b[2], where, out)
    elif k == "struct":
        if len(a[1]) != len(b[1]):
            out.append((None, "%s: %d fields, the format has %d" % (where, len(a[1]), len(b[1]))))
            if all(x[0] in ("int", "bytes", "greedy", "pref") for x in a[1]):
                out.append((False, "%s: fields are %s, the format has %s" % (where, ", ".join(map(lname, a[1])), ", ".join(map(lname, b[1])))))
            return
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            match(x, y, "%s field %d" % (where, i + 1), out)
    elif k == "dict":
        match(a[1], b[1], where, out)
    elif k == "repeat":
        match(a[2], b[2], where + " item", out)
        t = fnorm(a[1])
        want = {"id0": 0}.get(b[1])
        if b[1] == "id0":
            z = t.a[1:] if t.op == "cmp" and t.a[0] == "==" else ()
            if not any(is_c(x) for x in z):
                out.append((None, "%s: end of list %s" % (where, pretty(t)[:100])))
            elif not any(is_c(x, 0) for x in z):
                out.append((False, "%s: the list ends when %s, the format ends it with item 0" % (where, pretty(t)[:100])))
    elif k == "switch":
        cases = {cv(x): l for x, l in a[2]}
        for i, l in b[1].items():
            if i not in cases:
                # the default may be the same
                if a[3] != l:
                    out.append((False, "%s: items with identifier %s are read as %s, the format has %s" % (where, hexs(i), lname(a[3]), lname(l))))
                continue
            match(cases[i], l, "%s %s" % (where, hexs(i)), out)
        if b[2] is not None:
            for i, l in cases.items():
                if i not in b[1] and l != b[2]:
                    out.append((None, "%s: item %s" % (where, hexs(i))))
            if a[3] != b[2]:
                out.append((False if a[3][0] in ("none", "int", "bytes", "str") else None, "%s: other items are read as %s" % (where, lname(a[3]))))


def lname(l):
    k = l[0]
    if k == "int":
        return "%d-byte %s%s integer" % (l[1], "big-endian " if l[2] == "be" else "", "signed" if l[2] == "s" else "unsigned")
    if k == "bytes":
        return "%s bytes" % (l[1],)
    if k == "pref":
        return "length-prefixed (%s) %s" % (lname(l[1]), lname(l[2]))
    return {"greedy": "all remaining bytes", "str": "text", "flag": "flag", "none": "nothing"}.get(k, k)


def find_lay(l, kind, pred):
    """First part of a layout satisfying pred."""
    if isinstance(l, tuple):
        if l and l[0] == kind and pred(l):
            return l
        for x in l:
            r = find_lay(x, kind, pred)
            if r is not None:
                return r
    return None


def judge(ck, R, what, out, where):
    bad = [m for v, m in out if v is False]
    und = [m for v, m in out if v is None]
    if bad:
        ck.bad(R, what, where, "; ".join(bad)[:900])
    elif und:
        ck.maybe(R, what, "; ".join(und)[:300])
    else:
        ck.ok(R, what)


_GEN = {}


def general(ck, ver):
    """The declaration read for every file of this version."""
    k = (id(ck.eng), ver)
    if k not in _GEN:
        try:
            f = parsing(ck.eng, ver)
            f.evs = f.events
        except FormatError as e:
            f = e
        _GEN[k] = (ck.eng, f)
    return _GEN[k][1]


@rule("C09")
def layout(ck):
    """The declared layout, field by field, against the published one: field order and sizes, length widths and byte
    order, item numbers, identifiers and value types, block framing, the file signature and version fields."""
    R = "layout"
    for ver in (3, 4):
        f = general(ck, ver)
        nm = "KDBX%d" % ver
        if not usable(ck, R, nm, f):
            continue
        lay = f.layout
        if lay[0] == "struct" and len(lay[1]) >= 6:
            out = []
            match(("struct", lay[1][:5]), SPEC["head%d" % ver], "header", out)
            judge(ck, R, nm + " header", out, HERE[ver])
            tail = lay[1][5:]
        else:
            ck.maybe(R, nm + " header", "layout " + str(lay[0]))
            continue
        sg = [e for e in f.evs if e.kind == "check" and any(x.op == "raw" and x.a[0] == "file" and x.a[1] == 0 for x in subterms(e.test))]
        want = conj(cmp("==", mk("raw", "file", 0, 0, 4), c(b"\x03\xd9\xa2\x9a")), cmp("==", mk("raw", "file", 0, 4, 4), c(b"\x67\xFB\x4B\xB5")))
        if not sg:
            ck.bad(R, nm + " signature", "pykeepass/kdbx_parsing/kdbx.py", "the file signature is not checked")
        else:
            t = conj(*[e.test for e in sg])
            r, d = equiv(t, want)
            if r is False and equiv(subst(t, {mk("raw", "file", 0, 0, 8): cat(mk("raw", "file", 0, 0, 4), mk("raw", "file", 0, 4, 4))}), want)[0] is not False:
                r = None
            ck.verdict(R, nm + " signature", r, "pykeepass/kdbx_parsing/kdbx.py", "accepts files when %s" % pretty(t)[:300])
        # body
        body = [x[0] for x in tail]
        if ver == 4:
            if [x for x in tail[:2]] != [("bytes", 32), ("bytes", 32)] or len(tail) != 3:
                ck.verdict(R, nm + " body", False if all(x[0] == "bytes" for x in tail[:2]) else None, HERE[4],
                           "after the header come %s, the format has hash, HMAC and payload" % ", ".join(map(lname, tail)))
            else:
                ck.ok(R, nm + " body")
        tr = find_lay(tail, "transform", lambda l: l[1] == "reparse")
        if tr is None:
            ck.maybe(R, nm + " payload", "no second parsing step")
            continue
        blk = find_lay(tail, "repeat", lambda l: l[2][0] == "struct" and any(x[0] == "pref" for x in l[2][1]) and not any(x[0] == "map" for x in l[2][1]))
        if blk is None:
            ck.maybe(R, nm + " blocks", "no block list")
        else:
            out = []
            match(blk[2], SPEC["block%d" % ver], "block", out)
            judge(ck, R, nm + " blocks", out, HERE[ver])
        # bytes the writer fills in by itself
        fs = fmt(ck, ver)
        if getattr(fs, "b", None) is not None:
            for e in fs.events:
                if e.kind == "filler":
                    ck.need(R, "%s filler at %s" % (nm, " -> ".join(map(str, e.path)) or "top"), e.pattern is None or not any(e.pattern), HERE[ver],
                            "%r is written where the format has zero bytes" % (e.pattern,))
        inner = tr[3]
        out = []
        if inner[0] == "struct" and len(inner[1]) == 2:
            match(inner[1][0], SPEC["inner"] if ver == 4 else ("bytes", 32), "payload start", out)
        else:
            out.append((None, "payload " + str(inner[0])))
        judge(ck, R, nm + " payload", out, HERE[ver])


@rule("C09")
def algorithms(ck):
    """For every cipher identifier of the format: reader and writer use that algorithm with the master key and the
    header's IV, the writer keeps the header bytes in front, and the names, version and salt reported to the caller
    are those of the header."""
    R = "algorithms"
    E = ck.eng
    kd = s("kdbx")
    for ver in (3, 4):
        for ci in CIPHER:
            for comp in (0, 1):
                nm = "KDBX%d %s%s" % (ver, ci, "" if comp else " not compressed")
                f = fmt(ck, ver, cipher=ci, comp=comp)
                if not usable(ck, R, nm, f):
                    continue
                inp, xml, rp = read_chain(f, ver)
                mks = tkey_sym(f)
                if inp is None or not mks:
                    ck.maybe(R, nm, "chain not recognised")
                    continue
                alg, mode, pad = ALG[ci]
                src = BLOCKS if ver == 4 else mk("raw", "file", 2, 0, "*")
                want = mk("decrypt", alg, mode, mks[0][0], IV, src)
                if pad:
                    want = mk("unpad", c(pad), want)
                if ver == 4 and comp:
                    want = mk("gunzip", want)
                ck.same(R, nm + ": reading", inp, want, HERE[ver])
                P = parts_of(f)
                if P is None:
                    ck.maybe(R, nm + ": writing", f.why)
                    continue
                ck.need(R, nm + ": header first", True if P[0] is header(f) else None, HERE[ver], "written: " + pretty(P[0])[:100])
                last = P[-1]
                if ver == 4:
                    D2 = item_data(last) if last.op == "eachout" else None
                    if D2 is None:
                        ck.maybe(R, nm + ": written blocks", "not recognised")
                        continue
                    tp = last.a[1]
                    ps = list(tp.a) if tp.op == "cat" else [tp]
                    ck.same(R, nm + ": written block", cat(*ps[1:]), cat(mk("le", 4, mk("len", D2)), D2), HERE[4])
                    last = joined(f, last)
                if last is None:
                    ck.maybe(R, nm + ": writing", "not recognised")
                    continue
                if last.op == "encrypt":
                    d = last.a[4]
                    ck.same(R, nm + ": writing", mk("cipher", *last.a[:4]), mk("cipher", alg, mode, mks[0][0], IV), HERE[ver])
                    if pad:
                        ck.need(R, nm + ": padding", True if d.op == "pad" and is_c(d.a[0], pad) else False if definite(d) else None, HERE[ver], pretty(d)[:100])
                else:
                    ck.verdict(R, nm + ": writing", False if definite(last) else None, HERE[ver], "not encrypted: " + pretty(last)[:200])


@rule("C09", "C28")
def reported_header(ck):
    """Version, cipher, KDF and salt reported by an object opened without decryption are those of the header, for each cipher and KDF."""
    R = "reported_header"
    E = ck.eng
    for ver in (3, 4):
        # what is reported
        for kdf in (KDF if ver == 4 else ("aeskdf",)):
            for ci in CIPHER:
                nm = "KDBX%d %s %s" % (ver, ci, kdf)
                f = fmt(ck, ver, decrypt=FALSE, cipher=ci, kdf=kdf)
                if not usable(ck, R, nm, f):
                    continue
                for prop, want in (("version", mk("tuple", c(ver), s("$minor#int"))), ("encryption_algorithm", c(ci)), ("kdf_algorithm", c(kdf)),
                                   ("database_salt", mk("hv", "hdr", 5) if ver == 3 else mk("hv", "hdr.11", "S"))):
                    if not E.has_method("PyKeePass", prop):
                        continue
                    v = reported(ck, f, prop, ver)
                    ck.same(R, "%s: %s" % (nm, prop), v, want, where_fn(E, "PyKeePass", prop))


    # an identifier that is none of the format's is not reported as one of them
    if E.has_method("PyKeePass", "kdf_algorithm"):
        f = fmt(ck, 4, decrypt=FALSE, kdf="unknown")
        if usable(ck, R, "KDBX4 unknown KDF", f):
            v = reported(ck, f, "kdf_algorithm", 4)
            ck.verdict(R, "KDBX4 unknown KDF: kdf_algorithm", not (isinstance(cv(v), str) and cv(v) in KDF) if is_c(v) else None,
                       where_fn(E, "PyKeePass", "kdf_algorithm"), "a key derivation the format does not define is reported as %s" % pretty(v)[:60])


MINOR = mk("uint", mk("raw", "file", 0, 8, 2))


def reported(ck, f, prop, ver):
    """Value of a header property in terms of the file."""
    r = ck.eng.kp_get(prop)
    v = f.R(subst(noexc_(unver(r.value)), {ck.eng.kdbxsym() if hasattr(ck.eng, "kdbxsym") else KD(r): f.value}))
    v = subst(v, {mk("uint", mk("raw", "file", 0, 10, 2)): c(ver), MINOR: s("$minor#int")})
    fc = F((cmp("<", s("$minor#int"), c(0)), False))
    return simp(f.R(v), fc)


def KD(r):
    for x in subterms(r.value):
        if x.op == "s" and x.a[0].startswith("kdbx"):
            return x
    return s("kdbx")

"""C34 fresh seeds on every save."""
from .lib import *
from . import r_fmt, r_io, r_pure

SEEDS = {3: ("master_seed", "encryption_iv", "protected_stream_key", "stream_start_bytes"),
         4: ("master_seed", "encryption_iv", "protected_stream_key")}
ALLSEEDS = set(SEEDS[3])
SECURE = {"os.urandom", "secrets.token_bytes", "secrets.randbits", "Cryptodome.Random.get_random_bytes", "Cryptodome.Random.new",
          "Crypto.Random.get_random_bytes", "random.SystemRandom", "secrets.SystemRandom"}
WEAK = {"random.randbytes", "random.getrandbits", "random.random", "random.randint", "random.seed", "random.Random", "random.choice",
        "random.choices", "random.randrange", "time.time", "time.time_ns", "uuid.uuid1"}


def seed_of(t):
    """name of the header item a term addresses"""
    for x in subterms(t):
        if x.op == "." and x.a[1] in ALLSEEDS:
            return x.a[1]
        if x.op == "[]" and is_c(x.a[1]) and cv(x.a[1]) in ALLSEEDS:
            return cv(x.a[1])
    return None


def draws(res):
    """(seed, value, event) of every assignment to a seed"""
    for e in res.ev("store", "mut"):
        d = unver(e.data)
        if e.kind == "store" and d.op == "tuple" and len(d.a) >= 3:
            n = seed_of(d.a[0]) or (cv(d.a[1]) if is_c(d.a[1]) and cv(d.a[1]) in ALLSEEDS else None)
            if n:
                yield n, d.a[-1], e
        elif d.op == "mut" and d.a[0] in ("setitem", "set", "update", "__setitem__") and isinstance(d.a[1], T):
            xs = d.a[2] if isinstance(d.a[2], tuple) else ()
            n = seed_of(d.a[1]) or next((cv(x) for x in xs if isinstance(x, T) and is_c(x) and isinstance(cv(x), str) and cv(x) in ALLSEEDS), None)
            if n and xs:
                yield n, xs[-1], e


def source(v):
    """True: from a secure generator; False: certainly not; None: unknown"""
    names = {x.a[0].a[0] for x in subterms(v) if x.op == "call" and x.a[0].op == "x"}
    meths = {x.a[0] for x in subterms(v) if x.op == "m"}
    if any(x.op == "random" for x in subterms(v)) or names & SECURE or ("read" in meths and any("Random" in n for n in names)):
        return True
    if names & WEAK or not any(x.op in ("call", "m", "unknown", "havoc", "mu", "fold", "s") for x in subterms(v)):
        return False
    return None


def summaries(ck, ver):
    """what runs in a save of that version"""
    E_ = ck.eng
    V = (4, 0) if ver == 4 else (3, 1)
    for stream in (False, True):
        fn = s("dest")
        ip = E_.exact(V)
        for cnd, val in r_io.isstream(fn, stream):
            ip.push(cnd, val)
        yield "save(%s)" % ("stream" if stream else "path"), E_.kp_call("save", [fn], {}, V, ip=ip), stream
    for nm, kw in r_fmt.scen(ver):
        f = r_fmt.fmt(ck, ver, **kw)
        if f is None:
            continue
        for fn, arg, r in f.results[f.nparse:]:
            yield "writing %s: %s" % (nm, r_pure.fnlabel(E_, fn)), r, None


@rule("C34")
def fresh_seeds(ck):
    """In the summary of save() and of every function the serialiser calls, each seed of the header (master seed, initialisation
    vector, inner stream key, KDBX3 stream start bytes) is assigned a value drawn from a secure generator before the header is
    written."""
    R = "fresh_seeds"
    w = where_fn(ck.eng, "PyKeePass", "save")
    for ver in (3, 4):
        drawn = {}
        for nm, res, stream in summaries(ck, ver):
            for n, v, e in draws(res):
                drawn.setdefault(n, set()).add(stream)
        for n in SEEDS[ver]:
            what = "KDBX%d %s is redrawn on every save" % (ver, n)
            ok = None in drawn.get(n, ()) or drawn.get(n, set()) >= {False, True}
            ck.verdict(R, what, ok, w, "the value read from the file is written back by every save", key="seed-%s-kdbx%d" % (n, ver))


@rule("C34")
def secure_source(ck):
    """Wherever the package assigns a seed of the header, the assigned value comes from the operating system's secure generator,
    never from a constant, the clock or the random module."""
    R = "secure_source"
    E_ = ck.eng
    jobs = [(nm, r) for ver in (3, 4) for nm, r, _ in summaries(ck, ver)]
    jobs += list(r_pure.creations(ck)) + list(r_pure.opening(ck)) + [(nm, r) for nm, r in r_pure.edits(ck)]
    seen = set()
    for nm, res in jobs:
        for n, v, e in draws(res):
            k = (n, v, e.where())
            if k in seen:
                continue
            seen.add(k)
            ck.verdict(R, "%s: %s" % (nm, n), source(v), e.where(), "%s is set to %s" % (n, pretty(v)[:200]))
    ck.ok(R, "%d summaries searched for assignments to a seed" % len(jobs))

"""python3 -m kpsa.sweep [ids]: all properties with one engine, verdicts only (development aid, writes no evidence)."""
import os
import sys
import threading

from . import core
from .lib import RULES
from . import rules
from .engine import Engine


def main(ids):
    eng = Engine()
    known = core.load_known()
    for pid in ids or sorted(RULES):
        ck = core.Check(pid, eng)
        for fn in RULES[pid]:
            try:
                fn(ck)
            except Exception as e:
                ck.maybe(fn.__name__, "analysis", "%s: %s" % (type(e).__name__, e))
        bad = [o for o in ck.obs if o["verdict"] == "violated" and o["key"] not in known.get(pid, {})]
        und = [o for o in ck.obs if o["verdict"] == "undecided"]
        st = "BAD" if bad else "ok"
        print("%s %s n=%d und=%d%s" % (pid, st, len(ck.obs), len(und), "".join(
            "\n     %s: %s at %s: %s" % (o["rule"], o["obligation"], o["where"], o["detail"][:300]) for o in bad[:3])))
        if os.environ.get("KPSA_UND"):
            for o in und[:6]:
                print("     ? %s: %s: %s" % (o["rule"], o["obligation"], o["detail"][:200]))


if __name__ == "__main__":
    sys.setrecursionlimit(30000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main, args=(sys.argv[1:],))
    t.start()
    t.join()

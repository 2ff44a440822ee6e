"""python3 -m kpsa.check <property id> [--tier quick|thorough]"""
import json
import os
import sys

from . import core
from .lib import RULES
from . import rules


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    title = pid
    for line in open(os.path.join(core.VERIF, "properties.jsonl")):
        d = json.loads(line)
        if d["id"] == pid:
            title = d["title"]
    if pid not in RULES:
        print("no rules for " + pid)
        return 2
    return core.run(pid, RULES[pid], title, rules.EXPLAIN.get(pid, rules.DEFAULT), tier)


if __name__ == "__main__":
    sys.setrecursionlimit(30000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(main(sys.argv[1:])))
    t.start()
    t.join()
    sys.exit(out[0] if out else 2)

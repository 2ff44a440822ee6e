"""Builds /verif/seeded/<id>/ from tools/bugs.py: python3 tools/plant.py [--notest] [--keep] [ids...]
Each bug is confirmed in a scratch copy: stable tests pass, demo passes without and fails with the change."""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bugs
import bugs2  # noqa: F401
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", TZ="UTC", LANG="C.UTF-8", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
for k in ("KPSA_VERBOSE", "KPSA_REPO"):
    ENV.pop(k, None)
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **kw.pop("env", {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600, **kw)


def one(b, notest):
    tmp = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    try:
        r = os.path.join(tmp, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        sd = os.path.join(tmp, "demo")
        os.makedirs(sd)
        open(os.path.join(sd, "demo.sh"), "w").write(
            '#!/bin/bash\n# cwd: the repository; exit 0 when the property holds\n'
            'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" TZ=UTC\n'
            'exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        open(os.path.join(sd, "demo.py"), "w").write(bugs.PRE + b["demo"])
        pre = sh(["bash", sd + "/demo.sh"], r)
        if pre.returncode:
            return "demo fails on the unchanged tree: " + pre.stdout[-400:]
        for f, old, new in b["edits"]:
            p = os.path.join(r, "pykeepass", f)
            t = open(p).read()
            if t.count(old) != 1:
                return "edit text occurs %d times in %s: %r" % (t.count(old), f, old[:60])
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=r, stdout=subprocess.PIPE, text=True).stdout
        post = sh(["bash", sd + "/demo.sh"], r)
        if post.returncode == 0:
            return "demo passes with the change"
        if not notest:
            t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "-o", "python_files=test*.py", "tests"], r)
            if t.returncode:
                return "tests fail: " + "\n".join(t.stdout.splitlines()[-6:])
        ck = sh(["/usr/bin/python3", "-m", "kpsa.check", b["property"]], V, env={"KPSA_REPO": r})
        caught = "CAUGHT" if ck.returncode == 1 and "VIOLATION property=" + b["property"] in ck.stdout else "missed rc=%d" % ck.returncode
        out = os.path.join(V, "seeded", b["id"])
        if notest != "check":
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(sd, out, ignore=shutil.ignore_patterns("__pycache__"))
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        return caught + " | " + post.stdout.strip().splitlines()[-1][:110] if post.stdout.strip() else caught
    except subprocess.TimeoutExpired:
        return "timeout"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    notest = "check" if "--check" in sys.argv else "--notest" in sys.argv
    todo = [b for b in bugs.BUGS if not args or b["id"] in args or b["property"] in args]
    with ThreadPoolExecutor(7) as ex:
        for b, res in zip(todo, ex.map(lambda b: one(b, notest), todo)):
            print("%-10s %s %s" % (b["id"], b["property"], res), flush=True)

"""python3 tools/variants.py [--ref|--mut] [names]: runs all checks on scratch copies with
 - refactorings (behaviour kept): every check must stay quiet;
 - mutations (a property broken, no demonstration): the named check should report.
Scratch copies live under /tmp and are removed."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def run(v, keep=False, test=False):
    d = tempfile.mkdtemp(prefix="var_", dir="/tmp")
    try:
        shutil.copytree("/repo/pykeepass", d + "/pykeepass", ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new in v["edits"]:
            p = os.path.join(d, "pykeepass", f)
            t = open(p).read()
            if t.count(old) != 1:
                return v["name"], "EDIT text occurs %d times in %s: %r" % (t.count(old), f, old[:70]), ""
            open(p, "w").write(t.replace(old, new))
        if test:
            shutil.copytree("/repo/tests", d + "/tests")
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "-o", "python_files=test*.py", "tests"],
                               cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", TZ="UTC", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1"))
            if r.returncode:
                return v["name"], "TESTS FAIL " + r.stdout.splitlines()[-3], ""
        env = dict(os.environ, KPSA_REPO=d)
        ids = [v["prop"]] if v.get("prop") else []
        r = subprocess.run(["/usr/bin/python3", "-m", "kpsa.sweep"] + ids, cwd=V, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True)
        return v["name"], None if r.returncode == 0 and not r.stderr else r.stderr[-800:], r.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    import varlist
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    todo = [v for v in varlist.ALL if (not args or v["name"] in args or v.get("prop") in args)
            and not ("--ref" in sys.argv and v.get("prop")) and not ("--mut" in sys.argv and not v.get("prop"))]
    base = {}
    nb = 0
    with ThreadPoolExecutor(8) as ex:
        for v, (nm, err, out) in zip(todo, ex.map(lambda v: run(v, test="--test" in sys.argv), todo)):
            lines = out.splitlines()
            if err:
                print("%-28s ERROR %s" % (nm, err))
            elif v.get("prop"):
                ok = any(l.startswith(v["prop"] + " BAD") for l in lines)
                nb += not ok
                if not ok or "-v" in sys.argv:
                    print("%-28s %s %s" % (nm, v["prop"], "caught" if ok else "MISSED"), *(lines[1:2] if ok else [l for l in lines if "und" in l][:1]))
                    for l in lines:
                        if l.strip().startswith("?"):
                            print("    " + l[:250])
            else:
                bad = [i for i, l in enumerate(lines) if " BAD " in l]
                und = [(l.split()[0], l.split("und=")[1]) for l in lines if "und=" in l and not l.strip().endswith("und=0")]
                nb += bool(bad)
                if bad or "-v" in sys.argv or und:
                    print("%-28s %s und=%s" % (nm, "ALARM" if bad else "quiet", und))
                    for i in bad:
                        print("   ", *[l[:400] for l in lines[i:i + 3]], sep="\n    ")
    print(len(todo), "variants,", nb, "problems")


if __name__ == "__main__":
    main()

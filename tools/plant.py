#!/opt/venv/bin/python
"""Author and confirm planted bugs (tools/bugs.py) as seeded/<id>/.

plant.py make [ID...]     write seeded/<id>/ from the specs (against /repo's HEAD)
plant.py confirm [ID...]  in a scratch copy: applies, tests pass, demo 0 without and nonzero with
plant.py catch [ID...]    run the property's quick check against the patched scratch copy
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
PY = "/opt/venv/bin/python"

PRELUDE = '''import os, sys, tempfile, subprocess
from ctypeslib import clang2py
def gen(src, *args, name="in.c"):
    """text of the module generated for a C source by the command line tool"""
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, name)
        with open(p, "w") as f:
            f.write(src)
        o = os.path.join(d, "out.py")
        rc = clang2py.main(list(args) + ["-o", o, p])
        if rc:
            sys.exit("not translated: %r" % rc)
        with open(o) as f:
            return f.read()
def load(text):
    ns = {"__name__": "demo_module"}
    exec(compile(text, "generated", "exec"), ns)
    return ns
def mod(src, *args, **kw):
    return load(gen(src, *args, **kw))
def same(got, want, what=""):
    if got != want:
        sys.exit("%s: got %r, expected %r" % (what, got, want))
'''
SH = '''#!/bin/bash
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def copy():
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    r = os.path.join(d, "repo")
    subprocess.run(["cp", "-a", "/repo", r], check=True)
    subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
    return d, r


def make(bug):
    d, r = copy()
    try:
        for f, old, new in bug["edits"]:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit("%s: %r occurs %d times in %s" % (bug["id"], old, s.count(old), f))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True, check=True).stdout
    finally:
        shutil.rmtree(d)
    o = os.path.join(SEEDED, bug["id"])
    os.makedirs(o, exist_ok=True)
    with open(os.path.join(o, "patch.diff"), "w") as f:
        f.write(diff)
    with open(os.path.join(o, "demo.sh"), "w") as f:
        f.write(SH)
    os.chmod(os.path.join(o, "demo.sh"), 0o755)
    with open(os.path.join(o, "demo.py"), "w") as f:
        f.write(PRELUDE + bug["demo"].strip("\n") + "\n")
    with open(os.path.join(o, "meta.json"), "w") as f:
        json.dump(dict(property=bug["property"], needs=bug["needs"], what_it_breaks=bug["breaks"]), f, indent=1)
        f.write("\n")


def run(cmd, cwd, timeout=900, **env):
    e = dict(os.environ, **env)
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def confirm(bid):
    o = os.path.join(SEEDED, bid)
    d, r = copy()
    msg = []
    try:
        demo = ["bash", os.path.join(o, "demo.sh")]
        q = run(demo, r)
        msg.append("demo clean %d" % q.returncode + (" " + (q.stdout + q.stderr)[-300:] if q.returncode else ""))
        subprocess.run(["git", "-C", r, "apply", os.path.join(o, "patch.diff")], check=True)
        q = run(demo, r)
        msg.append("demo patched %d: %s" % (q.returncode, (q.stdout + q.stderr).strip().split("\n")[-1][:200]))
        ok = msg[0] == "demo clean 0" and q.returncode != 0
        x = os.path.join(d, "j.xml")
        run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-n0" if False else "-q",
             "-o", "junit_family=xunit2", "--junitxml=" + x, "test"], r, PYTHONPATH=r, PYTHONHASHSEED="0",
            PYTHONDONTWRITEBYTECODE="1", LD_LIBRARY_PATH=r + "/test/data", PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin")
        run(["python3", "/opt/vp/results.py", d + "/o.json", "junit:" + x], r)
        b, g = json.load(open("/opt/vp/BASELINE.json")), json.load(open(d + "/o.json"))
        bad = [t for t in b["stable"] if t not in g["passed"]]
        msg.append("tests %d bad %s" % (len(g["passed"]), bad[:4]))
        ok = ok and not bad
    finally:
        shutil.rmtree(d)
    print(bid, "OK" if ok else "BAD", *msg, sep=" | ", flush=True)


def catch(bid):
    o = os.path.join(SEEDED, bid)
    pid = json.load(open(os.path.join(o, "meta.json")))["property"]
    d, r = copy()
    try:
        subprocess.run(["git", "-C", r, "apply", os.path.join(o, "patch.diff")], check=True)
        q = run([PY, "run.py", pid], VERIF, VERIF_REPO=r)
        last = [l for l in q.stdout.strip().split("\n") if l][-2:]
    finally:
        shutil.rmtree(d)
    res = os.path.join(VERIF, "tools", "caught.json")
    known = json.load(open(res)) if os.path.exists(res) else {}
    known[bid] = "- caught" if q.returncode == 1 else "- MISSED"
    with open(res, "w") as f:
        json.dump(known, f, indent=1, sort_keys=True)
        f.write("\n")
    print(bid, pid, "CAUGHT" if q.returncode == 1 else "MISSED rc=%d" % q.returncode, *[l[:200] for l in last],
          sep=" | ", flush=True)


def main():
    sys.path.insert(0, os.path.join(VERIF, "tools"))
    import bugs
    what, ids = sys.argv[1], sys.argv[2:]
    for b in bugs.BUGS:
        if ids and b["id"] not in ids and b["property"] not in ids:
            continue
        if what == "make":
            make(b)
        elif what == "confirm":
            confirm(b["id"])
        elif what == "catch":
            catch(b["id"])
        elif what == "all":
            make(b)
            confirm(b["id"])
            catch(b["id"])


if __name__ == "__main__":
    main()

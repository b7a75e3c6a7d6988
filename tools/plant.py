#!/usr/bin/env python3
"""Plants a bug in a scratch copy of /repo and keeps it under /verif/seeded once it counts.

usage: plant.py FILE [ID...]   where FILE defines BUGS = [dict(id, prop, subs=[(file, old, new)], demo, needs, breaks)].
Nothing here is used by a check."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "6779916"
DEMO = '#!/bin/bash\n# exit 0 if the behaviour is right, nonzero otherwise; cwd is the repository\n' \
       'HERE=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PROJ_NETWORK=OFF\n' \
       'T=$(mktemp -d); trap \'rm -r "$T"\' EXIT\nexport REPO="$PWD"; cd "$T" && timeout 250 /opt/venv-pypy/bin/python -W ignore "$HERE/demo.py"\n'


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def blame_ok(f, old):
    """every line removed comes from the original repository"""
    b = sh("git -C /repo blame -s -l %s" % f).stdout.splitlines()
    return b


def plant(b):
    out = []
    say = lambda *a: out.append(" ".join(str(x) for x in a))
    d = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    s = os.path.join(d, "s")
    try:
        sh("cp -a /repo/. %s/repo" % d)
        r = os.path.join(d, "repo")
        os.makedirs(s)
        open(s + "/demo.sh", "w").write(DEMO)
        open(s + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        p = sh("bash %s/demo.sh" % s, cwd=r)
        if p.returncode:
            say("DEMO FAILS UNPATCHED", p.stdout[-500:], p.stderr[-700:])
            return b, False, out
        for f, o, n in b["subs"]:
            q = os.path.join(r, f)
            t = open(q).read()
            if t.count(o) != 1:
                say("NOT UNIQUE", t.count(o), repr(o))
                return b, False, out
            open(q, "w").write(t.replace(o, n))
        diff = sh("git diff --no-ext-diff", cwd=r).stdout
        open(s + "/patch.diff", "w").write(diff)
        # removed lines by origin
        mine = orig = 0
        f = None
        blame = {}
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                f = l[6:]
                blame[f] = sh("git blame -s -l HEAD -- %s" % f, cwd=r).stdout.splitlines()
            m = re.match(r"@@ -(\d+)", l)
            if m:
                i = int(m.group(1)) - 1
                continue
            if f and not l.startswith(("---", "+++", "diff", "index")):
                if l.startswith("-"):
                    if blame[f][i].startswith("^" + BASE):
                        orig += 1
                    else:
                        mine += 1
                if not l.startswith("+"):
                    i += 1
        say("removed lines: %d original, %d added by fixes" % (orig, mine))
        if mine or not orig:
            say("BLAME")
            if not b.get("force"):
                return b, False, out
        sh("sed 's#/repo#%s#g' /opt/vp/build.sh > %s/build.sh; sed 's#/repo#%s#g; s#/opt/vp/build.sh#%s/build.sh#' /opt/vp/test.sh > %s/test.sh" % (r, d, r, d, d))
        p = sh("bash %s/build.sh" % d)
        if p.returncode:
            say("BUILD", p.stdout[-500:], p.stderr[-1500:])
            return b, False, out
        p = sh("bash %s/demo.sh" % s, cwd=r)
        if p.returncode == 0:
            say("DEMO PASSES PATCHED")
            return b, False, out
        say("demo:", (p.stdout + p.stderr).strip().splitlines()[-1:])
        p = sh("bash %s/test.sh %s/o.json" % (d, d))
        st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        o = json.load(open(d + "/o.json"))
        miss = sorted(st - set(o.get("passed", o.get("pass", []))))
        if miss:
            say("TESTS FAIL", miss[:6])
            return b, False, out
        t = os.path.join(V, "seeded", b["id"])
        if os.path.isdir(t):
            shutil.rmtree(t)
        shutil.copytree(s, t)
        os.chmod(t + "/demo.sh", 0o755)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(t + "/meta.json", "w"), indent=1)
        e = dict(os.environ, KARTA_REPO=r, VERIF_SEED="1", VERIF_TIER="quick")
        for c in [b["prop"]] + b.get("also", []):
            p = subprocess.run([sys.executable, V + "/check.py", c], capture_output=True, text=True, env=e)
            ok = p.returncode == 1 and "VIOLATION property=" + c in p.stdout
            ls = [l for l in p.stdout.splitlines() if not l.startswith("VIOLATION")]
            say(c, "CAUGHT" if ok else "MISSED rc=%d" % p.returncode, "|", " || ".join(l[:160] for l in ls[1:3]), p.stderr[-300:])
        return b, True, out
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    todo = [b for b in ns["BUGS"] if not sys.argv[2:] or b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for b, ok, out in ex.map(plant, todo):
            print("##", b["id"], b["prop"], "COUNTS" if ok else "REJECTED")
            for l in out:
                print("    ", l)
            sys.stdout.flush()

#!/usr/bin/env python3
"""Creates and tries planted bugs.
  seed.py make ID PROPERTY < spec     spec: python dict(edits=[(file, old, new)], demo=<C++>, needs=, breaks=, flags=, libs=)
  seed.py try ID [CHECK...]           apply in a scratch copy, build, test, demo on both trees, run checks
"""
import json, os, shutil, subprocess, sys, tempfile
BASE = "c26abd4"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds in this demonstration
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 %(opt)s -w -ftemplate-depth=10000 -DNDEBUG -DBLASBOOSTER_CORE_FAILURE_TO_EXCEPTION %(flags)s -I"$PWD/include" -I"$here/stubs" "$here/demo.cpp" %(srcs)s -o "$t/demo" %(libs)s || exit 2
cd "$t" && timeout 60 ./demo
'''
def make(i, prop, d):
    out = os.path.join(V, "seeded", i)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    w = tempfile.mkdtemp(prefix="seed-")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r"])
    try:
        for f, a, b in d["edits"]:
            p = os.path.join(w, "r", f)
            s = open(p).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    for f, a, b in d["edits"]:      # changed lines must be lines of the original repository
        src = open("/repo/" + f).read()
        first = src[:src.index(a)].count("\n") + 1
        blame = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "-L", "%d,%d" % (first, first + a.rstrip("\n").count("\n")), BASE + "..HEAD", "--", f], text=True)
        for l in blame.splitlines():
            text = l.split(") ", 1)[-1]
            if l[0] != "^" and text not in b.split("\n"):
                print("not an original line:", f, text)
    open(os.path.join(out, "demo.cpp"), "w").write(d["demo"])
    srcs = " ".join('"$here/../../%s"' % s if False else '"$r/%s"' % s for s in d.get("srcs", []))
    sh = DEMO % dict(opt=d.get("opt", "-O0"), flags=d.get("flags", ""), libs=d.get("libs", ""), srcs=srcs)
    sh = sh.replace("g++ -std", 'r="$PWD"\ng++ -std', 1)
    open(os.path.join(out, "demo.sh"), "w").write(sh)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    if d.get("stubs", True):
        shutil.copytree(os.path.join(V, "stubs"), os.path.join(out, "stubs"))
    json.dump({"property": prop, "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)

def attempt(i, checks):
    out = os.path.join(V, "seeded", i)
    prop = json.load(open(out + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="seed-")
    r = w + "/r"
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", r])
        d0 = subprocess.run(["bash", out + "/demo.sh"], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        subprocess.check_call(["git", "-C", r, "apply", out + "/patch.diff"])
        d1 = subprocess.run(["bash", out + "/demo.sh"], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(i, prop, "demo clean rc=%d patched rc=%d" % (d0.returncode, d1.returncode), (d0.stdout[-300:] if d0.returncode else "") , (d1.stdout[-200:] if d1.returncode == 2 else ""))
        if "--nobuild" not in checks:
            for s in ("build.sh", "test.sh"):
                t = open("/opt/vp/" + s).read().replace("/repo", r).replace("/opt/vp/build.sh", w + "/build.sh")
                open(w + "/" + s, "w").write(t)
            b = subprocess.run(["bash", w + "/test.sh", w + "/out.json"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print("  tests passed:", len(json.load(open(w + "/out.json"))["passed"]))
        for c in [c for c in checks if c[0] == "C"] or [prop]:
            x = subprocess.run(["python3", V + "/check.py", c], env=dict(os.environ, VERIF_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print("  check", c, "rc=%d" % x.returncode, "CAUGHT" if x.returncode == 1 and "VIOLATION property=%s " % c in x.stdout else "missed", x.stdout[-300:].replace("\n", " | "))
    finally:
        shutil.rmtree(w, ignore_errors=True)

if sys.argv[1] == "make":
    make(sys.argv[2], sys.argv[3], eval(sys.stdin.read()))
else:
    attempt(sys.argv[2], sys.argv[3:])

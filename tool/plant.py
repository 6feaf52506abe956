#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tool/seeds/*.py and confirms each planted bug in a scratch copy of /repo:
   builds, stable tests pass, demo passes without and fails with the change, and whether the property's check reports it.
   usage: plant.py [-n (no confirm)] [-c (only run the check)] [id ...]"""
import glob, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/plant_wt"
DEMO = """#!/bin/bash
# compiles demo.cpp against the built tree in the current directory and runs it: 0 = the property holds
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -r "$T"' EXIT
g++ -std=c++17 -g -O0 -w -I"$D" -I$R/trajopt_common/include -I$R/trajopt_sco/include -I$R/trajopt_ifopt/include \\
  -I$R/trajopt_optimizers/trajopt_sqp/include -I$R/trajopt/include -isystem /usr/include/eigen3 -isystem /usr/include/jsoncpp \\
  "$D/demo.cpp" -o "$T/demo" -ffunction-sections -Wl,--gc-sections -L$R/_build \\
  -ltrajopt_sqp -ltrajopt_ifopt -ltrajopt_sco -ltrajopt -ltrajopt_common -lconsole_bridge -ljsoncpp -lpthread || exit 2
cd "$T"
timeout 120 ./demo
"""
HEAD = """#include <bits/stdc++.h>
%s
static int bad = 0;
#define EXPECT(c) do { if (!(c)) { std::printf("line %%d: %%s\\n", __LINE__, #c); bad = 1; } } while (0)
#define NEAR(a, b) EXPECT(std::fabs((a) - (b)) < 1e-6)
"""


def seeds():
    out = {}
    for f in sorted(glob.glob(os.path.join(V, "tool", "seeds", "*.py"))):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        for s in ns["SEEDS"]:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def in_copy(cmd):
    """run with the scratch copy in the place of /repo, in a mount namespace of its own"""
    return sh("unshare -m sh -c 'mount --bind %s /repo && cd /repo && %s'" % (WT, cmd))


def main():
    args = sys.argv[1:]
    noconf = "-n" in args
    conly = "-c" in args
    S = seeds()
    ids = [a for a in args if not a.startswith("-")] or list(S)
    if not os.path.exists(WT):
        sh("cp -a /repo %s" % WT)
    sh("git -C %s fetch -q /repo && git -C %s reset -q --hard FETCH_HEAD" % (WT, WT))
    for i in ids:
        s = S[i]
        d = os.path.join(V, "seeded", i)
        os.makedirs(d, exist_ok=True)
        sh("git -C %s checkout -q -- ." % WT)
        for f, old, new in s["edits"]:
            p = os.path.join(WT, f)
            t = open(p).read()
            if t.count(old) != 1:
                print("%s: edit text occurs %d times in %s" % (i, t.count(old), f))
                break
            open(p, "w").write(t.replace(old, new))
        else:
            diff = sh("git -C %s diff" % WT).stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.sh"), "w").write(s.get("sh") or DEMO)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            if "demo" in s:
                open(os.path.join(d, "demo.cpp"), "w").write(HEAD % s.get("pre", "") + s["demo"])
            for n, c in s.get("files", {}).items():
                open(os.path.join(d, n), "w").write(c)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            res = []
            if not noconf and not conly:
                r = in_copy("bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.log 2>&1; bash %s/demo.sh > /tmp/plant.demo 2>&1" % d)
                rc = r.returncode
                try:
                    t = json.load(open("/tmp/plant.json"))
                    base = json.load(open("/opt/vp/BASELINE.json"))
                    base = base.get("stable") or base.get("passed") or base
                    npass = len(t["passed"])
                except Exception:
                    npass = -1
                r0 = sh("bash %s/demo.sh" % d, cwd="/repo")
                res.append("tests %d passed" % npass)
                res.append("demo clean=%d patched=%d" % (r0.returncode, rc))
                good = npass >= 35 and r0.returncode == 0 and rc not in (0, 2)
                if not good:
                    res.append("** NOT CONFIRMED **\n" + r0.stdout[-600:] + r0.stderr[-600:] + open("/tmp/plant.demo").read()[-800:] + open("/tmp/plant.log").read()[-500:] * (npass < 35))
            chk = os.path.join(V, "checks", s["property"] + ".py")
            if os.path.exists(chk):
                r = sh("VP_REPO=%s VP_EVID=/tmp/plant_evid python3 %s --tier quick" % (WT, chk))
                vio = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % s["property"])]
                why = [l for l in r.stdout.splitlines() if l.startswith(s["property"] + ": ")]
                res.append("CAUGHT" if r.returncode == 1 and vio else "MISSED rc=%d" % r.returncode)
                if vio and why:
                    res.append(why[0][:160])
            else:
                res.append("no check")
            print(i, "|", " | ".join(res), flush=True)
    sh("git -C %s checkout -q -- ." % WT)


main()

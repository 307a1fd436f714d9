#!/usr/bin/env python3
"""Adds one planted bug to seeded/ after confirming it in a scratch copy.

A bug is described by a python file defining: id, prop, needs, breaks, edits = [(file, old, new)],
demo = C++ text of the body of main (include common headers; return nonzero when broken).
usage: seed.py FILE...   (development tool; no check uses it)
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedw/repo"
HEAD = r'''#include "DotnetTypes.h"
#include "DotNetLibrarySupport.h"
#include "PlatformSupport.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <time.h>
#include <unistd.h>
#include <sys/wait.h>
#include <string>
using namespace DotnetLibrary;
#define CHECK(x) do { if (!(x)) { printf("wrong: %s\n", #x); bad = 1; } } while (0)
#define THROWS(x) do { bool t = false; try { x; } catch (Exception*) { t = true; } if (!t) { printf("not rejected: %s\n", #x); bad = 1; } } while (0)
static int bad = 0;
static std::wstring W(String* s) { return s ? std::wstring(s->get_Buffer(), s->get_Length()) : L"(null)"; }
'''
SH = r'''#!/bin/bash
# run in the repository after its build: exit 0 when the property holds for this input
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -w -O0 -IPlatformSupport -IDotNetLibrarySupport -IDotNetLibrary/include "$d/demo.cpp" -L_build -lDotNetLibrarySupport -lDotNetLibrary -lPlatformSupport -Wl,-rpath,"$PWD/_build" -o "$t/demo" || exit 2
cd "$t" && timeout 60 ./demo
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def reset():
    if not os.path.isdir(W):
        os.makedirs(os.path.dirname(W), exist_ok=True)
        sh("cp -a /repo " + W)
    sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD" % (W, W))


def build():
    # the scratch copy's own build directory
    b = os.path.join(W, "_b")
    r = sh("cmake -S %s -B %s -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_PROJECT_TOP_LEVEL_INCLUDES=/opt/vp/cmake/skip-integration.cmake >/dev/null && ninja -C %s" % (W, b, b))
    return r.returncode == 0, r.stdout[-1500:] + r.stderr[-500:]


def one(path):
    d = {}
    exec(open(path).read(), d)
    return add(d)


def add(d):
    reset()
    blame_ok = False
    for f, old, new in d["edits"]:
        p = os.path.join(W, f)
        s = open(p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if s.count(old) != 1:
            return print(d["id"], "EDIT matches", s.count(old), "times:", old[:60])
        open(p, "w", newline="").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", W, "diff"])
    # at least one changed line belongs to the original repository
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
    own = sh("git -C /repo log --format=%H").stdout.split()
    for f, _, _ in d["edits"]:
        cur, ln, rem = None, 0, []
        for l in subprocess.check_output(["git", "-C", W, "diff", "-U0", f]).decode(errors="replace").split("\n"):
            if l.startswith("@@"):
                ln = int(l.split()[1][1:].split(",")[0])
            elif l.startswith("-") and not l.startswith("---"):
                rem.append(ln)
                ln += 1
        for n in rem:
            h = sh("git -C /repo blame -l -s -L %d,%d HEAD -- %s" % (n, n, f)).stdout.split()[0].lstrip("^")
            if base.startswith(h) or h.startswith(base[:30]):
                blame_ok = True
    if not blame_ok and not os.environ.get("TRY"):   # TRY=1: only see whether the check catches it
        return print(d["id"], "changes no original line")
    out = os.path.join("/tmp/seedw", d["id"])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(os.path.join(out, "demo.cpp"), "w").write(HEAD + "int main() {\n" + d["demo"] + "\n\treturn bad;\n}\n" if "int main" not in d["demo"] else HEAD + d["demo"])
    open(os.path.join(out, "demo.sh"), "w").write(SH)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    r = sh("bash %s/demo.sh" % out, cwd="/repo")
    if r.returncode != 0:
        return print(d["id"], "demo fails on the clean tree", r.returncode, r.stdout, r.stderr[-1500:])
    ok, txt = build()
    if not ok:
        return print(d["id"], "does not build", txt)
    # run the tests of the copy through the official script's way of counting: use ctest binaries
    exe = os.path.join(W, "_b", "DotNetLibraryTests")
    dst = "DateTimeTests.IsDaylightSavingTimeTest"
    t = sh("cd %s/_b && TZ=UTC0 timeout 100 %s --gtest_filter=-%s && TZ=EST5EDT,M3.2.0,M11.1.0 timeout 100 %s --gtest_filter=%s" % (W, exe, dst, exe, dst))
    if t.returncode != 0:
        return print(d["id"], "tests fail or not found", t.stdout[-600:])
    sh("rm -rf %s/_build && ln -s _b %s/_build" % (W, W))
    r = sh("bash %s/demo.sh" % out, cwd=W)
    if r.returncode == 0:
        return print(d["id"], "demo passes with the bug")
    if r.returncode == 2:
        return print(d["id"], "demo does not compile with the bug", r.stderr[-500:])
    dst = os.path.join(V, "seeded" if blame_ok else "../tmp/seedw/tried", d["id"])
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(out, dst)
    open(os.path.join(dst, "patch.diff"), "wb").write(diff)
    json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
    e = dict(os.environ, VERIF_REPO=W)
    res = {}
    for p in [d["prop"]] + d.get("also", []):
        c = subprocess.run([sys.executable, os.path.join(V, "check.py"), p], env=e, capture_output=True, text=True)
        res[p] = "caught" if c.returncode == 1 and "VIOLATION property=" + p in c.stdout else "MISSED (rc %d)" % c.returncode
    print(d["id"], "kept;", res)
    return res


if __name__ == "__main__":
    for f in sys.argv[1:]:
        one(f)
    sh("rm -rf " + W)

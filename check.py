#!/usr/bin/env python3
"""Builds one property's harness from the repository's current working tree and runs it.

usage: check.py <ID> [--replay FILE] [--only SUBPROP] [--scale X] [--no-fuzz]
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
LIBDIRS = ["PlatformSupport", "DotNetLibrarySupport", "DotNetLibrary/include", "DotNetLibrary/src", "DotNetLibrary"]
INC = ["-I" + os.path.join(REPO, d) for d in LIBDIRS] + ["-I" + os.path.join(VERIF, "engine")]
# -ftrivial-auto-var-init=pattern makes a read of an uninitialised local deterministic garbage.
CXX = ["g++", "-g1", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address", "-fno-sized-deallocation", "-ftrivial-auto-var-init=pattern",
       "-fwrapv", "-fno-builtin-remainder", "-w", "-pthread"]
CLANG = ["clang++", "-g1", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,fuzzer-no-link", "-fno-sized-deallocation",
         "-ftrivial-auto-var-init=pattern", "-fwrapv", "-w", "-DPBT_FUZZ", "-pthread"]
JOBS = max(2, min(16, os.cpu_count() or 8))


def lib_sources():
    res = []
    for d in LIBDIRS:
        p = os.path.join(REPO, d)
        if os.path.isdir(p):
            res += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith((".cpp", ".cc", ".cxx"))]
    return [s for s in res if os.path.basename(s) not in ("dllmain.cpp", "pch.cpp")]


def digest(extra):
    h = hashlib.sha256(extra.encode())
    for top in ("PlatformSupport", "DotNetLibrarySupport", "DotNetLibrary"):
        for root, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".h", ".hpp", ".cpp", ".cc", ".cxx", ".inl", ".hxx")):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, REPO).encode() + b"\0")
                    with open(p, "rb") as fp:
                        h.update(fp.read())
    return h.hexdigest()[:20]


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        sys.stdout.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), r.stdout[-6000:]))
        raise SystemExit(2)


def filehash(paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:12]


def build(pid, fuzz=False):
    cxx = CLANG if fuzz else CXX
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        d = os.path.join(BUILD, ("fuzz-" if fuzz else "lib-") + digest(" ".join(cxx) + REPO))
        os.makedirs(d, exist_ok=True)
        os.utime(d)
        # keep the disk small: only the most recently used builds stay
        old = sorted((x for x in os.listdir(BUILD) if x.startswith(("lib-", "fuzz-"))), key=lambda x: os.path.getmtime(os.path.join(BUILD, x)))
        for x in old[:-6]:
            shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
        jobs = []
        objs = []
        for s in lib_sources():
            o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o")
            objs.append(o)
            if not os.path.exists(o):
                jobs.append((cxx + ["-std=gnu++11"] + INC + ["-c", s, "-o", o + ".tmp"], o))
        eng = [os.path.join(VERIF, "engine", f) for f in sorted(os.listdir(os.path.join(VERIF, "engine")))]
        eh = filehash([e for e in eng if e.endswith(("pbt.cpp", "pbt.h"))])
        eo = os.path.join(d, "pbt-%s.o" % eh)
        if not os.path.exists(eo):
            jobs.append((cxx + ["-std=gnu++17"] + INC + ["-c", os.path.join(VERIF, "engine", "pbt.cpp"), "-o", eo + ".tmp"], eo))
        src = os.path.join(VERIF, "props", pid + ".cpp")
        ph = filehash([src] + [e for e in eng if e.endswith(".h")])
        po = os.path.join(d, "%s-%s.o" % (pid, ph))
        if not os.path.exists(po):
            jobs.append((cxx + ["-std=gnu++17"] + INC + ["-c", src, "-o", po + ".tmp"], po))

        def run(j):
            sh(j[0])
            os.rename(j[1] + ".tmp", j[1])
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(run, jobs))
        exe = os.path.join(d, "%s-%s-%s" % (pid, ph, eh))
        if not os.path.exists(exe):
            link = list(cxx)
            if fuzz:
                link = [("-fsanitize=address,fuzzer" if a.startswith("-fsanitize=") else a) for a in link]
            sh(link + [po, eo] + objs + ["-o", exe + ".tmp"])
            os.rename(exe + ".tmp", exe)
    return exe


def known(pid):
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3).strip()
    return res


def env(reuse=False):
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "TMPDIR")}
    e["LC_ALL"] = "C"
    e["TZ"] = "UTC"
    if reuse:
        e["ASAN_OPTIONS"] = REUSE
    return e


# With this, released memory is handed out again at once, so an answer remembered by address shows.
REUSE = "quarantine_size_mb=0:thread_local_quarantine_size_kb=0"


def fuzz_campaign(pid, seed, seconds, scratch):
    """Coverage-guided search over the same sub-properties; returns replay texts of failures."""
    exe = build(pid, fuzz=True)
    found = []
    procs = []
    for k in range(JOBS):
        w = os.path.join(scratch, "fuzz%d" % k)
        os.makedirs(os.path.join(w, "corpus"))
        e = env()
        e["PBT_FUZZ_OUT"] = os.path.join(w, "fail.txt")
        log = open(os.path.join(w, "log"), "w")
        procs.append((w, subprocess.Popen([exe, "-seed=%d" % (seed * 1000 + k + 1), "-max_total_time=%d" % seconds, "-max_len=600", "-len_control=0",
                                           "-timeout=60", "-rss_limit_mb=3000", "-print_final_stats=1", "-use_value_profile=%d" % (k % 2),
                                           "-artifact_prefix=" + w + "/crash-", os.path.join(w, "corpus")],
                                          cwd=w, env=e, stdout=log, stderr=subprocess.STDOUT)))
    units, cov = 0, 0
    for w, p in procs:
        p.wait()
        txt = open(os.path.join(w, "log"), errors="replace").read()
        for m in re.finditer(r"stat::number_of_executed_units:\s*(\d+)", txt):
            units += int(m.group(1))
        for m in re.finditer(r"cov: (\d+)", txt):
            cov = max(cov, int(m.group(1)))
        f = os.path.join(w, "fail.txt")
        arts = [os.path.join(w, x) for x in os.listdir(w) if x.startswith("crash-") and not os.path.basename(x).startswith("crash-oom")]
        if os.path.exists(f):
            found.append(("text", open(f).read()))
        elif arts:
            found.append(("bytes", arts[0]))
    return found, units, cov


def main():
    args = sys.argv[1:]
    pid = args[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    scale, only, replay, fuzzsec = None, None, None, 120
    i = 1
    while i < len(args):
        if args[i] == "--replay":
            replay = args[i + 1]
        elif args[i] == "--only":
            only = args[i + 1]
        elif args[i] == "--scale":
            scale = float(args[i + 1])
        elif args[i] == "--fuzz-seconds":
            fuzzsec = int(args[i + 1])
        elif args[i] == "--thorough":
            tier = "thorough"
            i -= 1
        i += 2
    t0 = time.time()
    exe = build(pid)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        if replay:
            reuse = os.path.exists(replay) and "\nmemory reused at once\n" in open(replay, errors="replace").read()
            r = subprocess.run([exe, "--scratch", scratch, "--replay", replay], env=env(reuse))
            return r.returncode
        if scale is None:
            scale = 1.0 if tier == "quick" else 12.0
        res = os.path.join(scratch, "res.json")
        cmd = [exe, "--scratch", scratch, "--out", res, "--seed", str(seed), "--scale", str(scale), "--jobs", str(JOBS)]
        if only:
            cmd += ["--only", only]
        r = subprocess.run(cmd, env=env(), cwd=scratch)
        if r.returncode not in (0, 1) or not os.path.exists(res):
            print("ERROR: harness ended with %d" % r.returncode)
            return 2
        data = json.load(open(res))
        failures = data["failures"]
        extra = {}
        if not failures:
            # a smaller second pass with other cases and without ASan's quarantine of released memory
            res2 = os.path.join(scratch, "res2.json")
            cmd2 = [res2 if a == res else str(scale * 0.15) if a == str(scale) and cmd[k - 1] == "--scale" else str(seed + 7919) if cmd[k - 1] == "--seed" else a for k, a in enumerate(cmd)]
            r = subprocess.run(cmd2, env=env(True), cwd=scratch)
            if r.returncode not in (0, 1) or not os.path.exists(res2):
                print("ERROR: harness ended with %d" % r.returncode)
                return 2
            d2 = json.load(open(res2))
            for f in d2["failures"]:
                f["reuse"] = True
            failures = d2["failures"]
            data["unstable"] = data["unstable"] + d2["unstable"]
            data["search_s"] = round(data["search_s"] + d2["search_s"], 2)
            extra["immediate_reuse_pass"] = {"evaluations": d2["evaluations"], "distinct_nontrivial": d2["distinct_nontrivial"]}
        targets = [l for l in subprocess.run([exe, "--list"], env=env(), capture_output=True, text=True).stdout.split("\n") if l and not l.endswith(" fork")]
        if tier == "thorough" and not failures and not only and fuzzsec > 0 and targets:
            found, units, cov = fuzz_campaign(pid, seed, fuzzsec, scratch)
            extra.update({"libfuzzer_units": units, "libfuzzer_edges": cov})
            for n, (kind, val) in enumerate(found[:3]):
                rp = os.path.join(scratch, "fz%d" % n)
                o = os.path.join(scratch, "fz%d.json" % n)
                if kind == "text":
                    open(rp, "w").write(val)
                    c2 = ["--confirm", rp]
                else:
                    c2 = ["--confirm-bytes", val]
                subprocess.run([exe, "--scratch", scratch, "--out", o] + c2, env=env(), cwd=scratch)
                if os.path.exists(o):
                    failures += json.load(open(o))["failures"]
        os.makedirs(OUT, exist_ok=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        viol = []
        kn = known(pid)
        for f in data["findings"]:
            if f["fails"]:
                if f["key"] in kn:
                    print("KNOWN-FINDING: property=%s key=%s %s" % (pid, f["key"], kn[f["key"]]))
                else:
                    rp = os.path.join(OUT, "%s-%s.txt" % (pid, f["key"]))
                    with open(rp, "w") as fp:
                        fp.write("property %s\nfixed input %s\n%s\n" % (pid, f["key"], f["text"]))
                    viol.append((rp, f["text"]))
        for f in failures:
            rp = os.path.join(OUT, "%s-%s.replay" % (pid, f["subprop"]))
            with open(rp, "w") as fp:
                fp.write("property %s\nsubprop %s\nchoices%s\nseed %d case %s\n%s--- case\n%s\n--- failure\n%s\n--- rerun: python3 check.py %s --replay %s\n" %
                         (pid, f["subprop"], f["choices"], seed, f["case"], "memory reused at once\n" if f.get("reuse") else "", f["notes"], f["msg"], pid, rp))
            viol.append((rp, f["subprop"] + ": " + f["msg"]))
        wall = time.time() - t0
        cov = {"evaluations": data["evaluations"], "distinct_nontrivial": data["distinct_nontrivial"], "rule": data["rule"], "samples": data["samples"] or ["(none: failing run)"],
               "subproperties": data["subprops"], "search_seconds": data["search_s"]}
        cov.update(extra)
        if data["unstable"]:
            cov["not_reproduced"] = data["unstable"]
            for u in data["unstable"]:
                print("NOTE: a failure did not reproduce three times and is not reported: " + u)
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": ["library sources of the working tree compiled with g++ -O1, AddressSanitizer, -fwrapv and pattern-initialised locals; C locale",
                              "sampled, not exhaustive, unless a sub-property says otherwise"],
              "wall_s": round(wall, 2), "violations": len(viol)}
        if not only:
            with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fp:
                json.dump(ev, fp, indent=1)
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, search %.1fs, wall %.1fs, %d MB" % (pid, tier, seed, data["evaluations"], data["distinct_nontrivial"], data["search_s"], wall, data["peak_mb"]))
        for rp, msg in viol:
            print(msg)
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1 if viol else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())

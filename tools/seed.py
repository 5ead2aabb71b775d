#!/usr/bin/env python3
"""Makes and tries planted bugs (seeded/<id>/).

seed.py make FILE.py    a spec: ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++), SOURCES, INC, LIBS
seed.py try ID [PID...] applies it to /repo, builds, tests, runs the demo and the check(s), undoes it
"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
sys.dont_write_bytecode = True
import registry

DEMO_SH = r"""#!/bin/bash
# exit 0: the property holds; non-zero: it does not. Run in the repository.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
S=()
for f in @SOURCES@; do [ -f "$R/$f" ] && S+=("$R/$f"); done
g++ -std=c++17 -O1 -w -pthread -DBOOST_ALLOW_DEPRECATED_HEADERS -I"$D" @INC@ -isystem "$D/shim" -isystem /usr/include/eigen3 \
  "$D/demo.cpp" "${S[@]}" @EXTRA@ -o "$T/demo" @LIBS@ || exit 2
cd "$T" && timeout 120 ./demo
"""


def spec_of(path):
    d = {"SOURCES": [], "INC": [], "LIBS": [], "EXTRA": ""}
    for k in dir(registry):
        if k.isupper():
            d.setdefault(k, getattr(registry, k))
    d["INC"] = []
    exec(open(path).read(), d)
    return d


def rel(x):
    return x.replace("{repo}/", "")


def make(path):
    d = spec_of(path)
    out = "%s/seeded/%s" % (V, d["ID"])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    tmp = tempfile.mkdtemp()
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", tmp + "/w", "HEAD"], check=True)
        w = tmp + "/w"
        for f, old, new in d["EDITS"]:
            t = open(w + "/" + f).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(w + "/" + f, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": d["PROPERTY"], "needs": " ".join(d["NEEDS"].split()), "what_it_breaks": " ".join(d["BREAKS"].split())}, open(out + "/meta.json", "w"), indent=1)
        if "DEMO_SH_TEXT" in d:
            sh = d["DEMO_SH_TEXT"]
            for name, text in d.get("FILES", {}).items():
                open(out + "/" + name, "w").write(text)
        else:
            open(out + "/demo.cpp", "w").write(d["DEMO"].lstrip())
            import glob
            src = []
            for s in d["SOURCES"]:
                s = rel(s)
                src += [os.path.relpath(x, "/repo") for x in sorted(glob.glob("/repo/" + s, recursive=True))] if "*" in s else [s]
            inc = [rel(x) for x in d["INC"]]
            sh = (DEMO_SH.replace("@SOURCES@", " ".join(src)).replace("@INC@", " ".join('-I"$R/%s"' % i for i in inc))
                  .replace("@LIBS@", " ".join(d["LIBS"])).replace("@EXTRA@", d["EXTRA"]))
            # the stand-in headers that the demo needs
            dirs = [V + "/shim/include", V + "/build/gen"]
            base = ["g++", "-std=c++17", "-DBOOST_ALLOW_DEPRECATED_HEADERS", "-M"] + ["-I/repo/" + i for i in inc] + ["-isystem" + x for x in dirs] + ["-isystem/usr/include/eigen3"]
            for s in [out + "/demo.cpp"] + ["/repo/" + x for x in src]:
                if not os.path.exists(s):
                    continue
                r = subprocess.run(base + [s], stdout=subprocess.PIPE, text=True)
                for h in re.split(r"[\s\\]+", r.stdout):
                    for x in dirs:
                        if h.startswith(x + "/"):
                            to = out + "/shim/" + os.path.relpath(h, x)
                            os.makedirs(os.path.dirname(to), exist_ok=True)
                            shutil.copy(h, to)
        open(out + "/demo.sh", "w").write(sh)
        os.chmod(out + "/demo.sh", 0o755)
        for where, want in (("/repo", 0), (w, 1)):
            r = subprocess.run(["bash", out + "/demo.sh"], cwd=where, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            ok = (r.returncode == 0) == (want == 0) and r.returncode != 2
            print("demo %s: rc %d %s %s" % ("unchanged" if want == 0 else "patched", r.returncode, "ok" if ok else "WRONG", r.stdout[-1500:]))
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", tmp + "/w"])
        shutil.rmtree(tmp, ignore_errors=True)


def attempt(sid, pids, tests=True):
    d = "%s/seeded/%s" % (V, sid)
    pids = pids or [json.load(open(d + "/meta.json"))["property"]]
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "-uno"], stdout=subprocess.PIPE).stdout, "/repo is not clean"
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        if tests:
            base = json.load(open("/opt/vp/BASELINE.json"))
            subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/seedtest.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            got = json.load(open("/tmp/seedtest.json"))
            want = base.get("stable", base.get("passed", base)) if isinstance(base, dict) else base
            lost = [t for t in want if t not in got["passed"]]
            print(sid, "tests:", "all pass" if not lost else "LOST %s" % lost[:5])
        r = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(sid, "demo rc", r.returncode, r.stdout[-300:].strip().replace("\n", " | "))
        for pid in pids:
            r = subprocess.run(["python3", V + "/tools/check.py", "run", pid], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print(sid, pid, "CAUGHT" if r.returncode == 1 and "VIOLATION property=%s" % pid in r.stdout else "MISSED (rc %d)" % r.returncode)
            print("   ", "\n    ".join(r.stdout.strip().split("\n")[-6:])[:1200])
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])


if sys.argv[1] == "make":
    for p in sys.argv[2:]:
        make(p)
elif sys.argv[1] == "try":
    attempt(sys.argv[2], sys.argv[3:])

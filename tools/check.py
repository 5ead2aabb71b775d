#!/usr/bin/env python3
"""Builds and runs one property's check against the working tree of /repo.

usage: check.py run PID            (tier and seed from VERIF_TIER / VERIF_SEED)
       check.py replay PID FILE    (re-runs one replay file; exit 1 if it still fails)
       check.py build [PID ...]
       check.py setup
       check.py ninja
"""
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.dont_write_bytecode = True
import registry  # noqa: E402

ENV = dict(os.environ, LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1")
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:detect_odr_violation=0:handle_abort=0:symbolize=1:detect_stack_use_after_return=0"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
ENV["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + ENV.get("PATH", "")


def esc(p):
    return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def expand(path):
    path = path.replace("{repo}", REPO).replace("{verif}", VERIF).replace("{build}", BUILD)
    return path


def sources_of(spec):
    out = []
    for s in spec.get("sources", []):
        s = expand(s)
        if "*" in s:
            import glob
            out += sorted(glob.glob(s, recursive=True))
        else:
            out.append(s)
    skip = [expand(x) for x in spec.get("skip", [])]
    out = [s for s in out if s not in skip]
    if spec.get("unity"):
        out = unite(out, spec["unity"], spec.get("force", {}))
    return out


SPLIT = set()  # united files that do not compile as one


def forced(src, force):
    for prefix, header in force.items():
        if src.startswith(expand(prefix)):
            return expand(header)
    return None


def unite(sources, prefixes, force):
    """Joins the sources of one directory (in groups) into files that include them: the headers are read once per group."""
    out, groups = [], {}
    for s in sources:
        for prefix, n in prefixes:
            if s.startswith(expand(prefix)):
                groups.setdefault((prefix, n), []).append(s)
                break
        else:
            out.append(s)
    for (prefix, n), files in groups.items():
        files = sorted(files)
        for i in range(n):
            part = files[i::n]
            if not part:
                continue
            path = "%s/unity/%s_%d.cpp" % (BUILD, hashlib.sha1((prefix + str(n) + (forced(part[0], force) or "")).encode()).hexdigest()[:8], i)
            head = forced(part[0], force)
            write_if_changed(path, ('#include "%s"\n' % head if head else "") + "".join('#include "%s"\n' % f for f in part))
            out += part if path in SPLIT else [path]
    return out


def flags_of(spec, src):
    f = list(registry.COMMON_FLAGS)
    f += registry.SAN[spec.get("san", "asan")]
    f += spec.get("flags", [])
    own = src.startswith(VERIF) and not src.startswith(BUILD)
    f += ["-w"] if not own else registry.OWN_WARN
    if spec.get("shim"):
        f.append("-include " + VERIF + "/shim/include/shim_std.hpp")
    if forced(src, spec.get("force", {})):
        f.append("-include " + forced(src, spec["force"]))
    for i in spec.get("inc", []):
        f.append("-I" + expand(i))
    for i in spec.get("sysinc", []):
        f.append("-isystem" + expand(i))
    return " ".join(f)


def generate_ninja():
    os.makedirs(BUILD, exist_ok=True)
    out = ["ninja_required_version = 1.5", "builddir = %s" % BUILD]
    out.append("rule cxx\n  command = %s $flags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $in" % registry.CXX)
    out.append("rule link\n  command = %s $lflags -o $out $in $libs\n  description = LINK $out" % registry.CXX)
    out.append("rule genmsg\n  command = python3 %s/tools/genmsg.py %s/gen %s && touch $out\n  description = MSG" % (VERIF, BUILD, REPO))
    proto = os.path.join(REPO, "simulation/simulation_interface/proto")
    names = sorted(x[:-6] for x in os.listdir(proto) if x.endswith(".proto"))
    pout = os.path.join(BUILD, "proto/simulation_interface")
    out.append("rule protoc\n  command = mkdir -p %s && protoc --cpp_out=%s -I%s $in\n  description = PROTO" % (pout, pout, proto))
    pccs = [os.path.join(pout, n + ".pb.cc") for n in names]
    phs = [os.path.join(pout, n + ".pb.h") for n in names]
    out.append("build %s: protoc %s" % (" ".join(map(esc, pccs + phs)), " ".join(esc(os.path.join(proto, n + ".proto")) for n in names)))
    msgs = []
    for d, _, files in os.walk(REPO):
        if "/_build" in d or "/.git" in d:
            continue
        msgs += [os.path.join(d, x) for x in files if x.endswith((".msg", ".srv"))]
    out.append("build %s/gen.stamp: genmsg | %s" % (BUILD, " ".join(map(esc, sorted(msgs) + [VERIF + "/tools/genmsg.py", VERIF + "/shim/msgs.txt"]))))
    done = {}
    for pid, spec in sorted(registry.CHECKS.items()):
        if spec.get("kind", "cpp") != "cpp":
            continue
        objs = []
        srcs = [VERIF + "/lib/vf.cpp"] + sources_of(spec)
        order = []
        if spec.get("shim"):
            order.append(BUILD + "/gen.stamp")
        if spec.get("proto"):
            order += phs
            srcs = srcs + pccs
        for src in srcs:
            if not os.path.exists(src) and not src.startswith(BUILD):
                if src.startswith(REPO):
                    continue  # removed from the tree: the link decides
                raise SystemExit("missing source " + src)
            fl = flags_of(spec if src != VERIF + "/lib/vf.cpp" else {"san": spec.get("san", "asan")}, src)
            h = hashlib.sha1((fl + "|" + src).encode()).hexdigest()[:12]
            obj = "%s/obj/%s_%s.o" % (BUILD, os.path.basename(src), h)
            if obj not in done:
                done[obj] = 1
                out.append("build %s: cxx %s%s\n  flags = %s" % (esc(obj), esc(src), (" || " + " ".join(map(esc, order))) if order and src != VERIF + "/lib/vf.cpp" else "", fl.replace("$", "$$")))
            objs.append(obj)
        exe = "%s/bin/%s" % (BUILD, pid)
        out.append("build %s: link %s\n  lflags = %s\n  libs = %s" % (
            esc(exe), " ".join(map(esc, objs)), " ".join(registry.SAN[spec.get("san", "asan")] + spec.get("lflags", [])),
            " ".join(spec.get("libs", []))))
        out.append("build %s: phony %s" % (pid, esc(exe)))
    write_if_changed(BUILD + "/build.ninja", "\n".join(out) + "\n")


def ninja(targets, again=True):
    generate_ninja()
    for jobs in ([], ["-j", "2"]):  # once more with less memory if a compiler was ended
        r = subprocess.run(["ninja", "-f", BUILD + "/build.ninja", "-k", "0"] + jobs + targets, env=ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not r.returncode or "Killed" not in r.stdout:
            break
    if r.returncode and again:
        for obj in re.findall(r"^FAILED: (\S+)", r.stdout, re.M):
            m = re.search(r"^build %s: cxx (\S+)" % re.escape(obj), open(BUILD + "/build.ninja").read(), re.M)
            if m and "/unity/" in m.group(1):
                SPLIT.add(m.group(1))
        if SPLIT:
            return ninja(targets, False)
    if r.returncode:
        errors = [l for l in r.stdout.splitlines() if "error" in l]
        print("\n".join(errors[:8]))
        print(r.stdout[-4000:])
    return r.returncode == 0


def known_findings(pid):
    """(key, text) of this property's unrepaired findings, from known_findings.txt"""
    out = []
    path = VERIF + "/known_findings.txt"
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def read_current(path, props):
    data = open(path, "rb").read()
    if len(data) < 16:
        return None
    prop, n = struct.unpack_from("<QQ", data)
    n = min(n, (len(data) - 16) // 8)
    return props[prop], list(struct.unpack_from("<%dQ" % n, data, 16))


def run_cpp(pid, spec, tier, seed, work):
    exe = "%s/bin/%s" % (BUILD, pid)
    shards = spec.get("shards", 8)
    budget = spec.get("time", {}).get(tier, 90 if tier == "quick" else 1500)
    # some code derives file names from the program's name
    argv0 = "vf_%s_%d" % (pid, os.getpid()) if spec.get("unique_argv0") else exe
    base = [exe, "--property", pid, "--cpu-limit", str(spec.get("cpu_limit", 10))]
    env = dict(ENV, **{k: expand(v) for k, v in spec.get("env", {}).items()})
    procs = []
    for i in range(shards):
        d = "%s/s%d" % (work, i)
        os.makedirs(d)
        cmd = base + ["--seed", str(seed), "--tier", tier, "--shard", str(i), "--shards", str(shards),
                      "--time", str(budget), "--out", d + "/out.json", "--hashes", d + "/hashes",
                      "--current", d + "/current", "--fail", d + "/fail"]
        scale = spec.get("scale", {}).get(tier, 4 if tier == "quick" else 1) * float(os.environ.get("VERIF_SCALE", "1"))
        cmd += ["--scale", str(scale)]
        if os.environ.get("VERIF_ONLY"):
            cmd += ["--only", os.environ["VERIF_ONLY"]]
        log = open(d + "/log", "w")
        procs.append((i, d, subprocess.Popen([argv0 + ("_%d" % i if argv0 != exe else "")] + cmd[1:], executable=exe, cwd=d, env=env, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)))
    deadline = time.time() + budget + 200
    bad = []
    for i, d, p in procs:
        try:
            rc = p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            rc = p.wait()
        if rc != 0:
            bad.append((i, d, rc))
    if argv0 != exe:
        import atexit, glob
        atexit.register(lambda: [os.remove(f) for f in glob.glob("/tmp/%s*" % argv0) + glob.glob("/tmp/%s_status.json" % pid)])
    names = spec["_names"] = prop_names(exe, env)
    result = {"props": {}, "hashes": set(), "out_of_time": False, "failures": []}
    for i, d, p in procs:
        try:
            j = json.load(open(d + "/out.json"))
        except (OSError, ValueError):
            continue
        result["out_of_time"] |= j["out_of_time"]
        for q in j["props"]:
            t = result["props"].setdefault(q["name"], {"planned": 0, "evaluated": 0, "discarded": 0, "nontrivial": 0, "labels": {}, "excluded": {}, "samples": []})
            for k in ("planned", "evaluated", "discarded", "nontrivial"):
                t[k] += q[k]
            for kind in ("labels", "excluded"):
                for k, v in q[kind].items():
                    t[kind][k] = t[kind].get(k, 0) + v
            t["samples"] += q["samples"]
        data = open(d + "/hashes", "rb").read()
        result["hashes"].update(struct.unpack("<%dQ" % (len(data) // 8), data[: len(data) // 8 * 8]))
    # each failing shard: reproduce in isolation, shrink, report the simplest
    tried, t_shrink = 0, time.time()
    for i, d, rc in bad:
        if os.path.exists(d + "/fail"):
            case = d + "/fail"
        elif os.path.exists(d + "/current"):
            cur = read_current(d + "/current", names)
            if not cur:
                continue
            case = d + "/crash"
            with open(case, "w") as f:
                f.write(cur[0] + "\n" + " ".join(map(str, cur[1])) + "\n")
        else:
            print(open(d + "/log").read()[-3000:])
            continue
        if result["failures"] and (tried >= 3 or time.time() - t_shrink > 60):
            continue
        tried += 1
        out = d + "/shrunk.json"
        r = subprocess.run([argv0] + base[1:] + ["--shrink", case, "--out", out, "--shrink-seconds", "25" if tier == "quick" else "60"],
                           executable=exe, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode == 1 and os.path.exists(out):
            result["failures"].append(json.load(open(out)))
        else:
            print("note: a failure of shard %d (rc %s) did not reproduce in isolation: %s" % (i, rc, r.stdout[-500:]))
            print(open(d + "/log", errors="replace").read()[-2500:])
            result["unreproduced"] = True
    return result


def prop_names(exe, env):
    # the registration order of the harness, kept beside it by --only of nothing
    r = subprocess.run([exe, "--list", "1"], env=env, stdout=subprocess.PIPE, text=True)
    return r.stdout.split("\n")[:-1]


def write_evidence(pid, spec, tier, seed, result, wall):
    props = result["props"]
    samples = []
    for q in props.values():
        samples += q["samples"][:2]
    if not samples:
        for q in props.values():
            samples += q.get("samples", [])
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(q["evaluated"] for q in props.values()),
            "distinct_nontrivial": len(result["hashes"]),
            "rule": spec["rule"],
            "samples": samples[:24] or ["(no sample was kept)"],
            "per_check": {n: {k: v for k, v in q.items() if k != "samples" and v not in ({},)} for n, q in props.items()},
            "stopped_by_time_budget": result["out_of_time"],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(result["failures"]),
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (VERIF, pid), "w") as f:
        json.dump(ev, f, indent=1)


def main_run(pid):
    t0 = time.time()
    spec = registry.CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    kind = spec.get("kind", "cpp")
    if kind == "cpp" and not ninja([pid]):
        print("%s: the check could not be built" % pid)
        return 2
    t1 = time.time()
    work = "%s/run/%s" % (BUILD, pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    if kind == "cpp":
        result = run_cpp(pid, spec, tier, seed, work)
    else:
        import pyrun
        result = pyrun.run(pid, spec, tier, seed, work, REPO, VERIF)
    rc = 0
    # known findings: say which of the listed ones still show
    listed = known_findings(pid)
    if listed and kind == "cpp":
        r = subprocess.run(["%s/bin/%s" % (BUILD, pid), "--findings", "1"], cwd=work, stdout=subprocess.PIPE, text=True,
                           env=dict(ENV, **{k: expand(v) for k, v in spec.get("env", {}).items()}))
        shown = dict(l.split()[1:3] for l in r.stdout.splitlines() if l.startswith("FINDING "))
        for key, text in listed:
            if shown.get(key) == "1":
                print("KNOWN-FINDING: property=%s key=%s %s" % (pid, key, text))
    write_evidence(pid, spec, tier, seed, result, time.time() - t0)
    total = sum(q["evaluated"] for q in result["props"].values())
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, build %.0f s, run %.0f s%s" % (
        pid, tier, seed, total, len(result["hashes"]), t1 - t0, time.time() - t1,
        ", stopped by the time budget" if result["out_of_time"] else ""))
    if os.environ.get("VERIF_STATS"):
        for n, q in result["props"].items():
            print("   ", n, {k: v for k, v in q.items() if k != "samples"})
    if result["failures"]:
        best = min(result["failures"], key=lambda f: len(json.dumps(f.get("choices", f.get("args", "")))))
        os.makedirs(VERIF + "/evidence/replay", exist_ok=True)
        path = "%s/evidence/replay/%s.json" % (VERIF, pid)
        with open(path, "w") as f:
            json.dump(best, f, indent=1)
        print("  check: %s\n  what: %s\n  case: %s" % (best.get("prop"), best.get("message", "")[:1500], best.get("case", "")[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    elif result.get("unreproduced"):
        print("%s: a failure that does not reproduce is not reported as a violation" % pid)
        rc = 0
    elif total == 0:
        print("%s: nothing was evaluated" % pid)
        rc = 2
    shutil.rmtree(work, ignore_errors=True)
    return rc


def main_replay(pid, path):
    spec = registry.CHECKS[pid]
    case = json.load(open(path))
    if spec.get("kind", "cpp") == "cpp":
        if not ninja([pid]):
            return 2
        tmp = BUILD + "/replay_case"
        with open(tmp, "w") as f:
            f.write(case["prop"] + "\n" + " ".join(map(str, case["choices"])) + "\n")
        env = dict(ENV, **{k: expand(v) for k, v in spec.get("env", {}).items()})
        return subprocess.run(["%s/bin/%s" % (BUILD, pid), "--property", pid, "--replay", tmp], env=env).returncode
    import pyrun
    return pyrun.replay(pid, spec, case, REPO, VERIF)


def main():
    cmd = sys.argv[1]
    if cmd == "run":
        sys.exit(main_run(sys.argv[2]))
    if cmd == "replay":
        sys.exit(main_replay(sys.argv[2], sys.argv[3]))
    if cmd == "build":
        ids = sys.argv[2:] or [p for p, s in registry.CHECKS.items() if s.get("kind", "cpp") == "cpp"]
        sys.exit(0 if ninja(ids) else 1)
    if cmd == "setup":
        # the checks build themselves; this only shows early that the framework works here
        generate_ninja()
        sys.exit(0 if ninja(["G01"]) else 1)
    if cmd == "ninja":
        generate_ninja()
        sys.exit(0)
    sys.exit(__doc__)


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""Runs the check of one property: builds its harness from /repo's working tree,
explores, writes evidence/<id>.json. Exit 0: held; 1: VIOLATION; 2: no answer.

  bin/check.py C05 [--tier quick|thorough] [--replay out/C05-....json] [--keep]
"""
import concurrent.futures, glob, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TRAJOPT_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "bin"))
import specs  # noqa: E402

CXX = {"g++": ["g++"], "clang++": ["clang++"]}
COMMON = ["-std=c++20", "-g1", "-Wno-attributes", "-D_GLIBCXX_ASSERTIONS",
          "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + VERIF + "/env/sleipnir",
          "-I" + VERIF + "/env", "-I" + VERIF]
SAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


def sh(cmd, log, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    with open(log, "w") as f:
        f.write(" ".join(cmd) + "\n" + p.stdout)
    return p.returncode, p.stdout


def build(pid, h, bdir):
    """Compiles one harness; returns the executable or None."""
    os.makedirs(bdir, exist_ok=True)
    # (the library's objects come first: inline functions are taken from them)
    srcs = []
    for s in h.get("lib", []):
        if s == "*":
            found = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
            srcs += [f for f in found if not f.endswith("RustFFI.cpp")]
        else:
            srcs.append(os.path.join(REPO, "src", s))
    srcs += [os.path.join(VERIF, s) for s in h["src"]]
    gen = h.get("gen")
    inc = []
    if gen:
        try:
            r = gen(REPO, VERIF, bdir)
        except Exception as e:
            sys.stderr.write("cannot generate: %s\n" % e)
            return None
        if r is not None:
            inc = ["-I" + os.path.join(bdir, "gen")] + ["-I" + os.path.join(VERIF, d) for d in h.get("inc", [])]
            srcs += r
    cxx = h.get("cxx", "g++")
    jobs = []
    for i, s in enumerate(srcs):
        o = os.path.join(bdir, "%02d_%s.o" % (i, os.path.basename(s)))
        fl = list(h.get("flags", SAN))
        if h.get("plain") and os.path.relpath(s, VERIF) in h["plain"]:
            fl = h["plain_flags"]
        jobs.append(([cxx] + COMMON + inc + fl + ["-c", s, "-o", o], o, s))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: sh(j[0], j[1] + ".log"), jobs))
    redefine = h.get("redefine", [])
    if redefine:
        for j in jobs:
            if h.get("plain") and os.path.relpath(j[2], VERIF) in h["plain"]:
                continue
            subprocess.run(["objcopy"] + sum([["--redefine-sym", r] for r in redefine], []) + [j[1]])
    for (rc, out), j in zip(res, jobs):
        if rc != 0:
            sys.stderr.write("cannot compile %s:\n%s\n" % (j[2], out[-6000:]))
            return None
    exe = os.path.join(bdir, "harness")
    rc, out = sh([cxx] + h.get("linkflags", h.get("flags", SAN)) + [j[1] for j in jobs] + ["-o", exe] + [f.replace("{bdir}", bdir) for f in h.get("ldflags", ["-lpthread"])],
                 exe + ".log")
    if rc != 0 and not h.get("lib") and not gen:
        return build(pid, {**h, "lib": ["*"]}, bdir)  # (header-only parts may move to sources)
    if rc != 0:
        sys.stderr.write("cannot link:\n%s\n" % out[-6000:])
        return None
    return exe


def probe_fails(spec):
    """Uses of the library that must compile; the first that does not, if the harness does not either."""
    def compiles(src):
        return subprocess.run(["g++"] + COMMON + ["-fsyntax-only", os.path.join(VERIF, src)], stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, text=True)
    if "probes" not in spec or compiles(spec["probe_base"]).returncode != 0:
        return None
    for src, says in spec["probes"]:
        r = compiles(src)
        if r.returncode != 0:
            return src, says, r.stdout
    return None


def known_keys(pid):
    keys = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+)\s+(.*)", line)
            if m and m.group(1) == pid:
                keys[m.group(2)] = m.group(3).strip()
    return keys


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    only = None
    for i, a in enumerate(args):
        if a == "--tier":
            tier = args[i + 1]
        if a == "--replay":
            replay = args[i + 1]
        if a == "--only":
            only = args[i + 1]
    spec = specs.SPECS[pid]
    t0 = time.time()
    bdir = os.path.join(VERIF, "build", pid)
    if not replay or not os.path.isdir(bdir):
        shutil.rmtree(bdir, ignore_errors=True)
    outdir = os.path.join(VERIF, "out")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(bdir, exist_ok=True)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=0:allocator_may_return_null=0:detect_stack_use_after_return=1:quarantine_size_mb=16"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
    harnesses = spec["harnesses"]
    if replay:
        r = json.load(open(replay))
        if "probe" in r:
            f = probe_fails(spec)
            print(f[1] + "\n" + f[2][-3000:] if f else "compiles")
            return 1 if f else 0
        h = harnesses[r["harness"]]
        exe = build(pid, h, os.path.join(bdir, "h%d" % r["harness"]))
        if exe is None:
            return 2
        if "replay_cmd" in h:
            return subprocess.call(h["replay_cmd"](exe, r), env=env)
        return subprocess.call([exe, "--tier", r.get("tier", tier), "--dir", bdir, "--replay",
                                r["model"] + ":" + ",".join(map(str, r["path"]))], env=env)
    results = []
    fails = []
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        exes = list(ex.map(lambda ih: build(pid, ih[1], os.path.join(bdir, "h%d" % ih[0])), enumerate(harnesses)))
    budget_total = float(os.environ.get("VERIF_BUDGET", 840 if tier == "quick" else 3300))
    for i, (h, exe) in enumerate(zip(harnesses, exes)):
        if exe is None:
            f = probe_fails(spec)
            if f:
                path = os.path.join(outdir, "%s-compile.json" % pid)
                json.dump(dict(property=pid, probe=f[0], message=f[1], trace=f[2][-3000:]), open(path, "w"), indent=1)
                print("  " + f[1])
                print("VIOLATION property=%s replay=%s" % (pid, path))
                return 1
            print("no answer: the harness of %s does not compile against this tree" % pid)
            return 2
        d = os.path.join(bdir, "h%d" % i, "run")
        os.makedirs(d, exist_ok=True)
        stats = os.path.join(d, "stats.json")
        if os.path.exists(stats):
            os.unlink(stats)
        left = max(20.0, min(h.get("budget", {}).get(tier, 420 if tier == "quick" else 1800),
                             budget_total - (time.time() - t0)))
        cmd = [exe, "--tier", tier, "--dir", d, "--stats", stats, "--budget", "%d" % left]
        if only:
            cmd += ["--only", only]
        p = subprocess.run(cmd, env=env)
        if not os.path.exists(stats):
            print("no answer: harness %d of %s ended with status %s" % (i, pid, p.returncode))
            return 2
        for r in json.load(open(stats)):
            r["harness"] = i
            if r["executions"] == 0 and not r["violation"]:
                print("no answer: nothing was explored in %s of %s" % (r["model"], pid))
                return 2
            results.append(r)
            if r["violation"]:
                fails.append((i, r))
        if fails:
            break
    keys = known_keys(pid)
    violations = 0
    for i, r in fails:
        v = r["violation"]
        v.update(property=pid, harness=i, tier=tier)
        path = os.path.join(outdir, "%s-%s.json" % (pid, re.sub(r"\W+", "-", r["model"])))
        json.dump(v, open(path, "w"), indent=1)
        violations += 1
        print("  " + v["message"])
        for line in v["trace"].splitlines()[-25:]:
            print("    | " + line)
        print("VIOLATION property=%s replay=%s" % (pid, path))
    seen = set()
    for r in results:
        for k, kv in r["knowns"].items():
            msg = kv["message"]
            if k in keys:
                if k not in seen:
                    print("KNOWN-FINDING: property=%s %s" % (pid, keys[k]))
                seen.add(k)
            else:
                path = os.path.join(outdir, "%s-%s.json" % (pid, re.sub(r"\W+", "-", k)))
                json.dump(dict(property=pid, harness=r["harness"], tier=tier, model=r["model"], path=kv["path"], message=msg,
                               key=k), open(path, "w"), indent=1)
                violations += 1
                print("  " + msg)
                print("VIOLATION property=%s replay=%s" % (pid, path))
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
              coverage=dict(
                  states=sum(r["states"] for r in results) or sum(r["executions"] for r in results),
                  transitions=sum(r["transitions"] for r in results),
                  traces_validated_against_impl=sum(r["executions"] for r in results),
                  exhaustive=all(r["exhaustive"] for r in results),
                  samples=[s for r in results for s in r["samples"][:1]][:8],
                  models=[{k: r[k] for k in ("model", "executions", "transitions", "states", "exhaustive", "wall_s",
                                             "counters")} for r in results],
                  rule=spec["rule"]),
              assumptions=spec.get("assumptions", specs.ASSUME), wall_s=round(time.time() - t0, 2), violations=violations)
    if not results:
        return 2
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if "--keep" not in args and not violations:
        shutil.rmtree(bdir, ignore_errors=True)
    print("%s %s: %s (%.1f s)" % (pid, tier, "VIOLATED" if violations else "held", time.time() - t0))
    return 1 if violations else 0


sys.exit(main())

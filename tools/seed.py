#!/usr/bin/env python3
"""tools/seed.py [--check] [NAME...]: writes /verif/seeded/NAME from tools/seeds/bugs.py and confirms it: the patch applies, builds and
passes the existing tests, and the demonstration fails with it and passes without it. --check also runs the property's check on a changed copy."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools/seeds")
from bugs import BUGS

INCS = """#include "demo.hpp"
%s
using namespace demo;  // NOLINT
"""
SH = """#!/bin/bash
# %s
# Exit 0 if the property holds in the tree in the current directory.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
%stimeout 250 g++ -std=c++20 -O1 -pthread -Iinclude -Isrc -I"$here" -I"$here/env" %s"$here/demo.cpp" %s -o "$tmp/demo"
echo built
timeout 40 "$tmp/demo"
"""
LIB = "src/SwerveTrajectoryGenerator.cpp src/path/SwervePathBuilder.cpp src/util/Cancellation.cpp"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def write(name, b):
    # (a change to `expected`, a file without a known extension, does not count as one to a source file)
    out = V + ("/extra_seeds/" if any(f.endswith("/expected") for f, _, _ in b["edits"]) else "/seeded/") + name
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    work = "/tmp/seed_" + name
    shutil.rmtree(work, ignore_errors=True)
    sh("git -C /repo worktree prune; git clone -q /repo %s" % work)
    for f, old, new in b["edits"]:
        p = work + "/" + f
        s = open(p).read()
        assert s.count(old) == 1, (name, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    open(out + "/patch.diff", "w").write(sh("git diff", cwd=work).stdout)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    kind = b["kind"]
    pre = flags = ""
    srcs = " ".join(b.get("srcs", []))
    if kind == "plain":
        demo = b["demo"].lstrip("\n")
    else:
        demo = INCS % "\n".join('#include "trajopt/constraint/%s.hpp"' % i for i in b.get("inc", [])) + b["demo"]
        srcs = (LIB + " " + srcs).strip()
        shutil.copytree(V + "/env/sleipnir/sleipnir", out + "/env/sleipnir")
        shutil.copy(V + "/tools/seeds/demo.hpp", out)
    if kind in ("ffi", "rust", "serde"):
        shutil.copytree(V + "/env/cxx/rust", out + "/env/rust")
        shutil.copy(V + "/bin/minicxx.py", out)
        pre = 'python3 -c "import sys; sys.path.insert(0, \'$here\'); sys.dont_write_bytecode = True; import minicxx; minicxx.generate(\'$PWD\', \'$tmp/gen\')"\n'
        flags = '-I"$tmp/gen" '
        srcs += " src/RustFFI.cpp"
    if kind == "serde":
        shutil.copy(V + "/env/rs/cxx.rs", out)
        open(out + "/shim.rs", "w").write(b["shim"].lstrip("\n"))
        pre = pre.replace("minicxx.generate('$PWD', '$tmp/gen')", "minicxx.generate('$PWD', '$tmp/gen', serde=True)").replace("\'$tmp/gen\')", "\'$tmp/gen\', serde=True)")
        pre += ('mkdir -p "$tmp/shim" "$tmp/lib" "$tmp/cxx"\n'
                'crate() { printf \'[package]\\nname = "%s"\\nversion = "0.1.0"\\nedition = "2021"\\n[lib]\\npath = "%s"\\n%b\' "$2" "$3" "$4" > "$tmp/$1/Cargo.toml"; }\n'
                'deps=\'serde = { version = "1", features = ["derive"] }\\nserde_json = { version = "1", features = ["float_roundtrip"] }\\n\'\n'
                'crate cxx cxx "$here/cxx.rs" ""\n'
                'crate lib trajoptlib "$tmp/gen/lib.rs" "[dependencies]\\ncxx = { path = \\"../cxx\\" }\\n$deps"\n'
                'crate shim shim "$here/shim.rs" "crate-type = [\\"staticlib\\"]\\n[dependencies]\\ntrajoptlib = { path = \\"../lib\\" }\\n$deps[profile.dev]\\npanic = \\"abort\\"\\n"\n'
                'cargo=$(command -v cargo || echo /root/.cargo/bin/cargo)\n'
                '(cd "$tmp/shim" && CARGO_TARGET_DIR="$tmp/target" RUSTFLAGS=--cap-lints=allow "$cargo" build --offline --quiet)\n')
        srcs += ' "$tmp/gen/glue.cpp" "$tmp/target/debug/libshim.a" -lpthread -ldl'
    if kind == "rust":
        shutil.copy(V + "/env/rs/cxx.rs", out)
        open(out + "/shim.rs", "w").write(b["shim"].lstrip("\n"))
        pre += ('rustc=$(command -v rustc || echo /root/.cargo/bin/rustc)\n'
                'rs() { "$rustc" --edition 2021 --cap-lints allow -Cpanic=abort -Copt-level=1 -L "$tmp/gen" --out-dir "$tmp/gen" "$@"; }\n'
                'rs --crate-type rlib --crate-name cxx "$here/cxx.rs"\n'
                'rs --crate-type rlib --crate-name trajoptlib "$tmp/gen/lib.rs" --extern cxx="$tmp/gen/libcxx.rlib"\n'
                'rs --crate-type staticlib --crate-name shim "$here/shim.rs" --extern trajoptlib="$tmp/gen/libtrajoptlib.rlib"\n')
        srcs += ' "$tmp/gen/glue.cpp" "$tmp/gen/libshim.a" -ldl'
    open(out + "/demo.cpp", "w").write(demo.rstrip("\n") + "\n")
    open(out + "/demo.sh", "w").write(SH % (b["breaks"], pre, flags, srcs))
    os.chmod(out + "/demo.sh", 0o755)
    shutil.rmtree(work)
    return out


def confirm(name, b, out, check):
    demo = "/tmp/demo_" + name
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(out, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    res = []
    try:
        assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo is not clean"
        c = sh("bash %s/demo.sh" % demo, cwd="/repo")
        res.append("clean demo %d" % c.returncode)
        ok = c.returncode == 0
        a = sh("git -C /repo apply %s/patch.diff" % out)
        try:
            ok &= a.returncode == 0
            t = sh("bash /opt/vp/test.sh /tmp/seed_out.json", cwd="/repo")
            r = json.load(open("/tmp/seed_out.json"))
            res.append("tests %d/%d" % (len(r["passed"]), len(r["passed"]) + len(r["failed"])))
            ok &= len(r["passed"]) == 2 and not r["failed"]
            d = sh("bash %s/demo.sh" % demo, cwd="/repo")
            res.append("patched demo %d (%s)" % (d.returncode, d.stdout.strip().split("\n")[-1][:100]))
            ok &= d.returncode != 0 and "built" in d.stdout
            if check:
                for prop in [b["prop"]] + (check if isinstance(check, list) else []):
                    k = sh("TRAJOPT_REPO=/repo python3 bin/check.py %s" % prop, cwd=V)
                    v = [l for l in k.stdout.split("\n") if l.startswith("VIOLATION property=" + prop)]
                    res.append("%s exit %d%s" % (prop, k.returncode, " CAUGHT" if k.returncode == 1 and v else " MISSED"))
        finally:
            sh("git -C /repo checkout -- .")
    finally:
        shutil.rmtree(demo, ignore_errors=True)
    if c.returncode:
        print(c.stdout[-1500:])
    print("OK " if ok else "BAD", name, "; ".join(res), flush=True)


args = sys.argv[1:]
check = "--check" in args
names = [a for a in args if not a.startswith("--")] or list(BUGS)
for n in names:
    confirm(n, BUGS[n], write(n, BUGS[n]), check)

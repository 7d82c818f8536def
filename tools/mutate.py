#!/usr/bin/env python3
"""Mutation campaign: tools/mutate.py OUT FILE PROPERTIES... [--from N] [--max N]
Applies one small change after another to FILE (in a copy of /repo), runs the checks of PROPERTIES (from a copy of
/verif) and records the changes none of them reports."""
import os, re, shutil, subprocess, sys, json, time

out, file, props = sys.argv[1], sys.argv[2], [a for a in sys.argv[3:] if re.match(r"C\d\d$", a)]
opt = {a: int(sys.argv[i + 1]) for i, a in enumerate(sys.argv) if a.startswith("--")}
W = "/tmp/mutw.%d" % os.getpid()
os.makedirs(W)
subprocess.run("git -C /repo archive HEAD include src Cargo.toml | tar x -C %s" % W, shell=True, check=True)
os.makedirs(W + "/v")
subprocess.run("cd /verif && git archive HEAD | tar x -C %s/v" % W, shell=True, check=True)
src = open(os.path.join(W, file)).read()

RULES = [
    (r"(?<![<>=!+\-*/&|])<(?![<=])(?= )", ["<="]), (r"<=(?!>)", ["<"]), (r"(?<=\s)>(?=\s)", [">="]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
    (r"(?<=\s)\+(?=\s)", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]), (r"(?<=\s)\*(?=\s)", ["/", "+"]), (r"(?<=\s)/(?=\s)", ["*"]),
    (r"&&(?= )", ["||"]), (r"\|\|", ["&&"]), (r"(?<=[(\s])!(?=[\w(_])", [""]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"std::move\(([^()]+)\)", [r"\1"]), (r"std::forward<[^<>]+>\(([^()]+)\)", [r"\1", r"std::move(\1)"]),
    (r"\bbegin\(\)", ["end()"]), (r"\bfront\(\)", ["back()"]), (r"\bback\(\)", ["front()"]), (r"\bsin\b", ["cos"]), (r"\bcos\b", ["sin"]),
    (r"\bX\(\)", ["Y()"]), (r"\bY\(\)", ["X()"]), (r"(?<=[\w\])]) - 1\b", [""]), (r"(?<=[\w\])]) \+ 1\b", [""]), (r"(?<![\w.])0\.0\b", ["1.0"]),
    (r"(?<![\w.])1\b(?!\.)", ["0", "2"]), (r"(?<![\w.])0\b(?!\.)", ["1"]), (r"(?<![\w.])2\b(?!\.)", ["1"]), (r"\bfrom", ["to"]), (r"\bif \(", ["if (false && ", "if (true || "]),
    (r"\+=", ["="]), (r"\bx\b", ["y"]), (r"\by\b", ["x"]), (r"\bvx\b", ["vy"]), (r"\bax\b", ["ay"]), (r"\bcosθ|thetacos", ["thetasin"]), (r"thetasin", ["thetacos"]),
    (r"\+\+", ["--"]), (r"const&(?=\s*\w*\s*[,)])", [""]), (r"\bconst auto&", ["auto"]), (r"\bauto&", ["auto"]), (r" const noexcept", [" noexcept"]),
    (r"\?\s", ["&& false ? "]), (r"value_\b", ["error_"]), (r"has_value_ = (true|false);", [";"]),
]


def mutants():
    # (not in comments, preprocessor lines, or strings)
    dead = [(m.start(), m.end()) for m in re.finditer(r"//[^\n]*|/\*.*?\*/|^\s*#[^\n]*|\"(?:\\.|[^\"\n])*\"", src, re.S | re.M)]
    live = lambda a: not any(s <= a < e for s, e in dead)
    seen = set()
    for pat, reps in RULES:
        for m in re.finditer(pat, src):
            if not live(m.start()):
                continue
            for r in reps:
                new = src[:m.start()] + m.expand(r) + src[m.end():]
                if new != src and new not in seen:
                    seen.add(new)
                    yield m.start(), m.group(), m.expand(r), new
    # statements left out
    for m in re.finditer(r"^[ \t]+[\w:.\->\[\]()*&]+[^;{}\n]*;\n", src, re.M):
        if live(m.start() + len(m.group()) - 2) and not re.match(r"\s*(using|return|typedef|static_assert|template|friend|requires)\b", m.group()):
            yield m.start(), m.group().strip(), "", src[:m.start()] + src[m.end():]


def line(pos):
    return src.count("\n", 0, pos) + 1


ms = sorted(mutants(), key=lambda m: m[0])
step = opt.get("--step", 1)
total = len(ms)
ms = ms[opt.get("--from", 0)::step]
if "--max" in opt:
    ms = ms[:opt["--max"]]
log = open(out, "a")
print(len(ms), "of", total, "mutants of", file, flush=True)
env = dict(os.environ, TRAJOPT_REPO=W)
killed = skipped = 0
for k, (pos, old, new, text) in enumerate(ms):
    open(os.path.join(W, file), "w").write(text)
    res = "SURVIVED"
    for p in props:
        r = subprocess.run(["python3", W + "/v/bin/check.py", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 1:
            res = "killed by " + p
            break
        if r.returncode == 2 and "cannot" in r.stdout:
            res = "does not compile"
            break
        if r.returncode == 2:
            res = "NO ANSWER " + p + " " + r.stdout[-300:].replace("\n", "|")
            break
    log.write("%s %s:%d: %r -> %r  [%s]\n" % (res, file, line(pos), old[:60], new[:60], src.split("\n")[line(pos) - 1].strip()[:90]))
    log.flush()
shutil.rmtree(W)

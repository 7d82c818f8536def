"""What each check builds and explores."""
ASSUME = [
    "the stand-in for the Sleipnir solver (env/sleipnir) has the real library's interface and expression semantics; "
    "what the real solver computes is the environment's free choice",
]
TECHNIQUE = ("stateless explicit-state model checking of the real code: exhaustive choice-tree DFS over a bounded space of "
             "histories and states, with a reference-model oracle")
NOTE = ("exhaustive within the bounds named in DESIGN.md on the real code compiled from /repo; trusts the solver stand-in "
        "(env/sleipnir), the reference predicate written from the documentation, and the compiler")
PROBLEM = ["*"]


def harness(*src, lib=PROBLEM, **kw):
    return dict(src=list(src), lib=lib, **kw)


# Threads under the controlled scheduler (mc/sched): the code under test and the thread bodies are compiled with
# -fsanitize=thread instrumentation, whose runtime is mc/sched.cpp; the scheduler and the driver are not.
PLAIN = ["-O1", "-fno-omit-frame-pointer"]


def scheduled(driver, *bodies, lib=PROBLEM, **kw):
    return dict(src=[driver, "mc/sched.cpp"] + list(bodies), lib=lib, flags=PLAIN + ["-fsanitize=thread"], linkflags=PLAIN,
                plain=[driver, "mc/sched.cpp"], plain_flags=PLAIN,
                redefine=["%s=mcs_%s" % (f, f) for f in ("memcpy", "memmove", "memset", "memcmp")], **kw)


def bridge(repo, verif, bdir):
    """The generated C++ header of the foreign-function interface, and the interface itself."""
    import minicxx
    minicxx.generate(repo, bdir + "/gen")
    return [repo + "/src/RustFFI.cpp"]


def rust_bridge(native):
    """The Rust crate on the stand-in of cxx, with the native side `native` (none: the interface itself)."""
    def gen(repo, verif, bdir):
        import minicxx, os, shutil, subprocess
        g = bdir + "/gen"
        minicxx.generate(repo, g)
        rustc = shutil.which("rustc") or "/root/.cargo/bin/rustc"
        for cmd in (["--crate-type", "rlib", "--crate-name", "cxx", verif + "/env/rs/cxx.rs"],
                    ["--crate-type", "rlib", "--crate-name", "trajoptlib", g + "/lib.rs", "--extern", "cxx=%s/libcxx.rlib" % g],
                    ["--crate-type", "staticlib", "--crate-name", "shim", verif + "/checks/rust_shim.rs", "--extern",
                     "trajoptlib=%s/libtrajoptlib.rlib" % g]):
            r = subprocess.run([rustc, "--edition", "2021", "--cap-lints", "warn", "-Cpanic=abort", "-Copt-level=1", "-L", g, "--out-dir", g] + cmd,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise BuildFailed("rustc: " + r.stdout[-4000:])
        return [g + "/glue.cpp"] + ([] if native else [repo + "/src/RustFFI.cpp"])
    return gen


def serde_bridge(repo, verif, bdir):
    """The Rust crate with its serde derives, built by cargo from the local cache, and a user of them."""
    import minicxx, os, shutil, subprocess
    g = bdir + "/gen"
    minicxx.generate(repo, g, serde=True)
    for name, kind, src, deps in (("cxx", "", verif + "/env/rs/cxx.rs", ""),
                                  ("trajoptlib", "", g + "/lib.rs", 'cxx = { path = "../cxx" }\n'),
                                  ("shim", 'crate-type = ["staticlib"]\n', verif + "/checks/serde_shim.rs", 'trajoptlib = { path = "../trajoptlib" }\nbincode = "1"\n')):
        os.makedirs("%s/%s" % (g, name), exist_ok=True)
        open("%s/%s/Cargo.toml" % (g, name), "w").write(
            '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n[lib]\npath = "%s"\n%s[dependencies]\n%s%s' % (
                name, src, kind, deps, "" if name == "cxx" else 'serde = { version = "1", features = ["derive"] }\nserde_json = { version = "1", features = ["float_roundtrip"] }\n') +
            ('[profile.dev]\nopt-level = 1\ndebug = false\npanic = "abort"\nincremental = false\n' if name == "shim" else ""))
    cargo = shutil.which("cargo") or "/root/.cargo/bin/cargo"
    env = dict(os.environ, CARGO_TARGET_DIR=g + "/target", RUSTFLAGS="--cap-lints=allow")
    r = subprocess.run([cargo, "build", "--offline", "--quiet"], cwd=g + "/shim", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildFailed("cargo: " + r.stdout[-4000:])
    shutil.copy(g + "/target/debug/libshim.a", g + "/libshim.a")
    return [g + "/glue.cpp", repo + "/src/RustFFI.cpp"]


class BuildFailed(Exception):
    pass


SPECS = {}


def spec(pid, rule, *harnesses, **kw):
    SPECS[pid] = dict(rule=rule, harnesses=list(harnesses), **kw)


spec("C05", "every trajectory of a lattice (controls, initial state, headings, steps) x every deviation of one or two "
     "coordinates: admitted by the recorded problem iff physical",
     harness("checks/C05.cpp"))

spec("C06", "every module x sample x heading x direction x fraction of the limit (inside, on, outside): admitted iff "
     "every wheel is within its own limits", harness("checks/C06.cpp"))

spec("C07", "every segment layout x module layout x module order: objective at every time-step lattice point, every time "
     "step just inside/outside the limit, and every other variable's influence on the objective",
     harness("checks/C07.cpp"))

spec("C03", "every constraint type x parameter set x binding x lattice of robot states (with both sides of every boundary), "
     "every magnitude of parameters, directions and features along and nearly along the axes, and every ordered pair of types on one "
     "waypoint", harness("checks/C03.cpp"))


spec("C16", "every list of interval counts (short lists over small counts; large counts; long lists) with every index pair, "
     "indices beyond the end, and every history of queries over lists changed in place",
     harness("checks/C16.cpp", lib=[]), assumptions=[])
spec("C17", "every pair of endpoints of a lattice (all representations of angles within tens of turns) with every sample "
     "count, and every history of calls", harness("checks/C17.cpp", lib=[]), assumptions=[])
spec("C15", "every sample count x module count x time-step sequence over an alphabet, every field x value, every heading "
     "direction, and every sample list", harness("checks/C15.cpp", lib=[]), assumptions=[])
spec("C19", "every history of operations (all constructors, assignments, emplacements, swaps, writes, moves out) on two "
     "objects from every pair of initial contents, for each type pair, against a value/error model; all comparisons after "
     "every step", harness("checks/C19.cpp", "checks/C19_part1.cpp", "checks/C19_part2.cpp", "checks/C19_part3.cpp", lib=[]),
     assumptions=[], probe_base="checks/probes/C19_base.cpp",
     probes=[("checks/probes/C19_converting.cpp", "a result cannot be converted to a result whose value has no default constructor")])
spec("C20", "every history of operations on two objects from every pair of initial contents, for each pair of element types "
     "by which of their operations can throw, with an exception injected at every operation of an element in turn: "
     "it reaches the caller, and every object keeps a valid state that was its own",
     harness("checks/C20.cpp", "checks/C20_part1.cpp", "checks/C20_part2.cpp", "checks/C20_part3.cpp", lib=[]), assumptions=[])
spec("C21", "every accessor and chaining function x result type of the user's function (value, other type, void, reference, "
     "result, throwing) x value category x content x type pair; every chain of calls up to the bound",
     harness("checks/C21.cpp", "checks/C21_part1.cpp", "checks/C21_part2.cpp", "checks/C21_part3.cpp", lib=[]), assumptions=[])

spec("C13", "every interleaving (up to a preemption bound) of the programs of two and three threads that generate and cancel, "
     "directly or through the foreign-function interface, every history of one thread with a request at every point, and generations "
     "within generations: every iteration's decision to stop against the global order of events", scheduled("checks/C13.cpp", "checks/C13_ops.cpp", gen=bridge, inc=["env/cxx"]))
spec("C12", "every sequence of times of solver iterations over an alphabet with both sides of 1/60 s, numbers of callbacks, one "
     "generator run once or again, two generators one after or within the other or run by a callback, every special handle: which "
     "iterations report, what and to whom",
     dict(src=["checks/C12.cpp"], lib=PROBLEM, flags=PLAIN))

spec("C14", "every interleaving (up to a preemption bound) of threads that build, construct and generate paths of several kinds "
     "(from C++ or through the foreign-function interface) or use the solver-free parts, with a happens-before race detector and each outcome compared with the same program run "
     "alone; every history of copying, moving, changing and destroying builders and generators",
     scheduled("checks/C14.cpp", "checks/C14_ops.cpp", gen=bridge, inc=["env/cxx"]), harness("checks/C14_objects.cpp"))
spec("C04", "every set of bumpers x set of obstacles (1 to 6 corners) x form: poses on a lattice and on both sides of the boundary "
     "of the clear region along rays, at several places and sizes; special shapes (up to 300 corners, short edges, slivers) corner to corner "
     "and edge to corner; poses at the boundary at one sample of a span only; every span of every layout with the robot inside the obstacle at exactly one sample",
     harness("checks/C04.cpp"))
spec("C02", "every layout x constraint type x waypoint or span (and pairs of requests): for every sample a trajectory that "
     "misses the constraint at exactly that sample is admitted iff the sample is not covered", harness("checks/C02.cpp", flags=PLAIN))
spec("C01", "every history of builder calls over the whole interface (depth 3, 4 thorough), deeper histories of the calls that "
     "create waypoints, every constraint type on every waypoint and span, equal requests, every list of modules and of interval "
     "counts, and long histories, against a list model",
     harness("checks/C01.cpp"))
spec("C08", "one segment of every interval count through every sequence of guess points of a lattice; every layout of up to three "
     "segments x number of points in each; moves and turns of every size, none included; every history of the calls that set guesses: each sample of the guess against linear "
     "interpolation of position and of the shorter turn", harness("checks/C08.cpp"))
spec("C09", "every pair and triple of guesses of a lattice x interval counts x robots, every layout with intermediate points: each "
     "decision variable's value at the solver's start, whatever is asked of the path, against the guess's finite differences", harness("checks/C09.cpp"))
spec("C10", "every layout x module count x number of iterations x values of the final iterate x kind of success; every history of "
     "running, failing, copying and moving one generator; every request x final values at or near what it asks for: each field of the result against the solver's variable of that role",
     harness("checks/C10.cpp"))
spec("C24", "every robot x layout; every constraint (usual and zero parameters, every magnitude) x placement x guesses, singular ones included; every "
     "shape of bumper x obstacle x guesses; any number of guess points; every sequence of requests; in company of everything else: each constraint and the "
     "objective at the solver's start, under address and undefined-behaviour sanitizers", harness("checks/C24.cpp"))
spec("C27", "every robot x layout; every constraint (usual and zero parameters, every magnitude) x placement x guesses; every point of the robot exactly on "
     "every special place of a constraint or obstacle x heading; every obstacle and bumper; guess points; every sequence of requests; in company: "
     "the derivatives of every step of every constraint and of the objective at the solver's start", harness("checks/C27.cpp", flags=PLAIN))
spec("C18", "every operation on every pair of objects of a lattice x kinds of numbers (plain, variable, mixed), every conversion, "
     "equality constraints at equal and unequal operands, every chain of operations up to the bound, against complex arithmetic",
     harness("checks/C18.cpp", lib=[]), probe_base="checks/probes/C18_base.cpp",
     probes=[("checks/probes/C18_conversions.cpp", "objects of numbers cannot be converted to objects of solver variables"),
             ("checks/probes/C18_mixed.cpp", "an operation is not available for a mix of numbers and solver variables")])
spec("C22", "every call of the foreign-function interface x lattice of its arguments and special numbers; every sequence of two calls (longer ones of the "
     "calls that accumulate) with generations in between; every outcome of the solver, cancellation at every point: problem, "
     "reports, results and errors against the same calls in C++",
     harness("checks/C22.cpp", gen=bridge, inc=["env/cxx"], flags=PLAIN))
RUST = dict(inc=["env/cxx"], flags=PLAIN, ldflags=["{bdir}/gen/libshim.a", "-lpthread", "-ldl"])
spec("C23", "every call of the Rust interface x lattice of its arguments (every special value of a number), every result of a generation, "
     "every history of three calls on two builders, against a native side that records; single calls, long histories and outcomes from "
     "Rust to the problem given to the solver against the same calls in C++",
     harness("checks/C23.cpp", gen=rust_bridge(True), **{**RUST, "lib": []}),
     harness("checks/C23_e2e.cpp", gen=rust_bridge(False), **RUST),
     assumptions=ASSUME + ["the stand-in for the cxx crate (bin/minicxx.py, env/cxx, env/rs) carries arguments as the crate does; derives of "
                           "serde are left out"])
spec("C28", "every field of every structure x every finite special value, lists of every length; every order of the fields (of some with many), every "
     "spelling of a number; every set of missing fields, every field given as something else; NaN and infinities through a binary "
     "format; copies: text, values read back and copies against the fields' names and exact values",
     harness("checks/C28.cpp", gen=serde_bridge, **RUST),
     assumptions=ASSUME + ["serde, serde_json and bincode (from the local crate cache) and the stand-in for the cxx crate, which passes derives and attributes of "
                           "serde on as the crate does"])
spec("C11", "every exit condition of the solver x number of iterations x callbacks x cancellation before, at every point of and after the run; "
     "every kind of path x exit condition x final values x up to 6000 iterations; every sequence of three such runs (and of exceptions) by one generator, by generators of one builder and through the "
     "foreign-function interface: result and text against the solver's report",
     harness("checks/C11.cpp", gen=bridge, inc=["env/cxx"], flags=PLAIN))

spec("C26", "every history of generations by two generators, copies, new generators and the foreign-function interface x diagnostics asked, not "
     "asked or left out x outcome; every layout x number of modules x kind of path; odd requests x outcome x final values: number of runs, settings, problem and output of each",
     harness("checks/C26.cpp", gen=bridge, inc=["env/cxx"], flags=PLAIN))

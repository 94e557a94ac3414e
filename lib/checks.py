"""What each property's check runs."""
import os
import shutil

from runner import REPO, NoAnswer

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = {}
ASSUMPTIONS = [
    "blst/blstrs field, group and pairing primitives and the Rust, JVM, Node and Go runtimes are trusted",
    "everything observed is a sample of executions: absence of violations is evidence, not proof",
]


def built(c, crate, features, name):
    """A program of a harness crate with these features. All builds share what they can; the program is kept under a name of its own."""
    with c.build_lock:
        t = c.cargo(crate, features=features)
        d = os.path.join(t, "kept")
        os.makedirs(d, exist_ok=True)
        exe = os.path.join(d, "-".join((name,) + tuple(features)))
        shutil.copy2(os.path.join(t, "release", name), exe + ".new")
        os.replace(exe + ".new", exe)
    return exe


def core_bin(c, features=("mt",), name="h_core"):
    return built(c, "core", features, name)


def core(c, frac=1.0, features=("mt",), args=()):
    c.harness("main", core_bin(c, features), c.prop, c.budget * frac, args=args)


def p02(c):
    mt = core_bin(c)
    one = ["taskset", "-c", "0"] if c.sh(["taskset", "-c", "0", "true"])[0] == 0 else []
    runs = {}

    def run(name, part, exe, *args, **kw):
        runs[name] = c.harness(part, exe() if callable(exe) else exe, "P02", c.budget, args=args, **kw)

    c.parallel([
        lambda: run("main", "main", mt),
        lambda: run("singlethreaded build", "singlethreaded", lambda: core_bin(c, ("st",)), "--mode", "widths"),
        lambda: run("default build", "default", lambda: core_bin(c, ("none",)), "--mode", "digests"),
        lambda: run("multithreaded build on one CPU", "one-cpu", mt, "--mode", "digests", prefix=one),
        lambda: run("multithreaded build, RAYON_NUM_THREADS=3", "env-threads", mt, "--mode", "digests", env={"RAYON_NUM_THREADS": "3"}),
    ], 3)
    runs = sorted(runs.items(), key=lambda x: x[0] != "main")
    if c.only:
        return
    ref = None
    for name, d in runs:
        if d is None or "digests" not in d.get("notes", {}):
            continue
        g = d["notes"]["digests"]
        if ref is None:
            ref = g
            continue
        for x, y in zip(ref, g):
            c.count("digest equal across builds: " + name)
            if x != y:
                c.violation("builds", {"what": "%s gives '%s', the multithreaded build '%s'" % (name, y, x)})
                break
    for n in c.notes.values():
        if isinstance(n, dict):
            n.pop("digests", None)


def tsan(c):
    if c.only and c.only.get("part") not in (None, "tsan"):
        return
    t = c.cargo("core", features=("mt",), target="tsan", nightly=True, rustflags="-Zsanitizer=thread",
                extra=["-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"])
    log = os.path.join(c.work, "tsan.log")
    for f in os.listdir(c.work):
        if f.startswith("tsan.log"):
            os.unlink(os.path.join(c.work, f))
    out = os.path.join(c.work, "tsan.json")
    if os.path.exists(out):
        os.unlink(out)
    c.log("running tsan")
    rc, o, e = c.sh([os.path.join(t, "x86_64-unknown-linux-gnu", "release", "h_core"), "P09", "--mode", "tsan", "--seed", str(c.seed),
                     "--tier", c.tier, "--budget", "%d" % c.budget, "--out", out],
                    env={"TSAN_OPTIONS": "exitcode=66 halt_on_error=0 history_size=4 enable_adaptive_delay=1 adaptive_delay_aggressiveness=200 "
                              "adaptive_delay_sync_atomic_sample_rate=10 log_path=" + log}, timeout=c.budget + 400)
    reps = []
    for f in sorted(os.listdir(c.work)):
        if f.startswith("tsan.log"):
            reps.append(open(os.path.join(c.work, f), errors="replace").read())
    text = "\n".join(reps)
    n = text.count("WARNING: ThreadSanitizer")
    c.notes["tsan reports"] = n
    if n:
        c.violation("tsan", {"what": "ThreadSanitizer: %d reports" % n, "report": text[:6000]})
    if rc == 66:
        rc = 0 if os.path.exists(out) else 66
    c.judge("tsan", rc, o, e, out)


def p09(c):
    exe = core_bin(c)

    def single():
        # without a pool the overlapping calls run on the callers' own threads
        c.harness("singlethreaded", core_bin(c, ("st",)), "P09", c.budget * 0.35, args=["--mode", "lockstep"])

    c.parallel([lambda: c.harness("main", exe, "P09", c.budget), lambda: (single(), tsan(c))], 2)
    if c.only and c.only.get("part") not in (None, "nested-depth"):
        return
    # calls made from the tasks of an outer pool, many of them queued
    c.log("running nested-depth")
    for n, threads in ((60, "ok"), (1500, "deep")):
        rc, o, e = c.sh([exe, "P09", "--depth", str(n)], timeout=300)
        c.count("calls queued on an outer one-thread rayon pool", n, 1)
        if rc != 0:
            if "overflowed its stack" in e and n == 1500:
                c.violation("nested-depth", {"key": "nested-depth-overflow", "what":
                            "%d calls queued on an outer one-thread rayon pool overflow its stack" % n, "output": e[-1500:]})
            else:
                c.violation("nested-depth", {"what": "%d calls queued on an outer one-thread rayon pool: exit %s" % (n, rc), "output": e[-3000:]})


def p10(c):
    leak = core_bin(c, name="h_leak")
    st = core_bin(c, ("st",), "h_leak")
    mode = lambda m: lambda: c.harness(m, leak, "P10", c.budget, args=["--mode", m])
    c.parallel([
        mode("threads"), mode("contexts"), mode("calls"), mode("fresh-inputs"), mode("first-use"),
        lambda: c.harness("env-threads", leak, "P10", c.budget, args=["--default-threads", "3"], env={"RAYON_NUM_THREADS": "3"}),
        lambda: c.harness("singlethreaded", st, "P10", c.budget),
    ], 4)


def kern_bin(c, features=("st",)):
    return built(c, "kern", features, "h_kern")


ASAN_IGNORE = os.path.join(VERIF, "harness", "asan", "ignore.txt")


def asan_build(c, crate, features, target, name):
    """Rust under AddressSanitizer with blst's C code instrumented as well."""
    t = c.cargo(crate, features=features, target=target, nightly=True, rustflags="-Zsanitizer=address",
                extra=["--target", "x86_64-unknown-linux-gnu"],
                env={"CC": "clang", "CFLAGS": "-fsanitize=address -g -fsanitize-ignorelist=" + ASAN_IGNORE})
    return os.path.join(t, "x86_64-unknown-linux-gnu", "release", name)


def run_asan(c, part, exe, sub, budget, args=()):
    """Runs a workload built by asan_build; a report is a violation."""
    if c.only and c.only.get("part") not in (None, part):
        return
    out = os.path.join(c.work, part + ".json")
    if os.path.exists(out):
        os.unlink(out)
    cmd = [exe, sub, "--seed", str(c.seed), "--tier", c.tier, "--budget", "%.1f" % budget, "--out", out] + list(args)
    if c.only and c.only.get("section"):
        cmd += ["--case", "%s:%s" % (c.only["section"], c.only["case"])]
    c.log("running " + part)
    rc, o, e = c.sh(cmd, env={"ASAN_OPTIONS": "exitcode=66:detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1"}, timeout=budget + 300)
    if rc == 66 or "ERROR: AddressSanitizer" in e:
        i = max(0, e.find("ERROR: AddressSanitizer"))
        c.violation(part, {"what": "AddressSanitizer: " + e[i:i + 200].split("\n")[0], "report": e[i:i + 6000]})
        return
    c.judge(part, rc, o, e, out)


def kern(c):
    c.harness("main", kern_bin(c), c.prop, c.budget)


def p17(c):
    exe = kern_bin(c)
    c.parallel([
        lambda: c.harness("main", exe, "P17", c.budget),
        lambda: run_asan(c, "asan", asan_build(c, "kern", ("st",), "asan-kern", "h_kern"), "P17", c.budget, ["--mode", "small"]),
    ], 2)


def p20(c):
    st = kern_bin(c)
    c.parallel([
        lambda: c.harness("multithreaded", kern_bin(c, ("mt",)), "P20", c.budget * 0.7),
        lambda: c.harness("main", st, "P20", c.budget),
    ], 2)


def cabi(c):
    c.ws()
    return built(c, "cabi", (), "h_cabi")


def corpus(c, exe, cases, sizes):
    d = os.path.join(c.work, "corpus-%d" % sizes)
    c.must([exe, "CORPUS", "--dir", d, "--cases", str(cases), "--sizes", str(sizes), "--seed", str(c.seed), "--out", os.path.join(c.work, "x.json")])
    n = len(set(l.split(" ", 1)[1].split(" # ")[0] for l in open(os.path.join(d, "index.txt"))))
    return d, n


def miri_c(c, leaks):
    """The real C functions under Miri, with a stand-in for the core library."""
    if c.only and c.only.get("part") not in (None, "miri"):
        return
    h = os.path.join(VERIF, "harness", "miri")
    m = os.path.join(c.work, "miri")
    if os.path.isdir(m):
        shutil.rmtree(m)
    os.makedirs(os.path.join(m, "c"))
    shutil.copytree(os.path.join(REPO, "bindings", "c", "src"), os.path.join(m, "c", "src"))
    shutil.copytree(os.path.join(h, "src"), os.path.join(m, "src"))
    dep = "rust_eth_kzg = { path = \"%s\" }\n" % os.path.join(h, "stub")
    with open(os.path.join(m, "Cargo.toml"), "w") as f:
        f.write("[package]\nname = \"miri_c\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[workspace]\n[dependencies]\n"
                "c_eth_kzg = { path = \"c\" }\n" + dep)
    with open(os.path.join(m, "c", "Cargo.toml"), "w") as f:
        f.write("[package]\nname = \"c_eth_kzg\"\nversion = \"0.5.2\"\nedition = \"2021\"\n[dependencies]\n" + dep)
    env = {"CARGO_TARGET_DIR": os.path.join(c.work, "miri-target"), "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": "",
           "MIRIFLAGS": "-Zmiri-tree-borrows -Zmiri-seed=%d" % c.seed}
    rc, o, e = c.sh(["cargo", "+nightly", "miri", "run", "--offline"], cwd=m, env=env, timeout=500)
    calls = sum(l.startswith("call ") for l in o.splitlines())
    c.log("miri: exit %s after %d calls" % (rc, calls))
    if not calls and "Running" not in e:
        # the stand-in does not offer what this version of the bindings uses
        c.notes["miri"] = "not run: " + e[-1500:]
        return
    c.count("miri/calls interpreted", calls)
    if "Undefined Behavior" in e or "error: unsupported" in e and False:
        i = e.find("Undefined Behavior")
        if not leaks:
            c.violation("miri", {"what": "Miri: " + e[i:i + 300].split("\n")[0], "report": e[max(0, i - 100):i + 4000]})
    elif "memory leaked" in e:
        i = e.find("memory leaked")
        if leaks:
            c.violation("miri", {"what": "Miri: memory leaked by the C functions", "report": e[max(0, i - 100):i + 4000]})
    elif "panicked at" in e:
        i = e.find("panicked at")
        if leaks:
            c.violation("miri", {"what": "called under Miri: " + e[i:i + 400], "report": e[i:i + 3000]})
    elif rc != 0:
        raise NoAnswer("miri: exit %s\n%s" % (rc, e[-3000:]))


def p11(c):
    exe = cabi(c)
    c.parallel([
        lambda: c.harness("main", exe, "P11", c.budget),
        lambda: miri_c(c, False),
        lambda: run_asan(c, "asan", asan_build(c, "cabi", (), "asan-cabi", "h_cabi"), "P11", c.budget, ["--mode", "heap"]),
    ], 3)


def p12(c):
    exe = cabi(c)
    c.parallel([
        lambda: c.harness("main", exe, "P12", c.budget),
        lambda: c.harness("life", exe, "LIFE", c.budget * 0.7),
        lambda: (miri_c(c, True), c_program(c, exe)),
    ], 3)


def c_program(c, exe):
    """A C program, compiled against the generated header, replays recorded requests."""
    if c.only and c.only.get("part") not in (None, "c-program"):
        return
    lib, inc = c.ws_build(["c_eth_kzg"])
    drv = os.path.join(c.work, "cdriver")
    rc, o, e = c.sh(["gcc", "-g", "-Wall", "-Werror=incompatible-pointer-types", "-Werror=int-conversion", "-Werror=implicit-function-declaration",
                     "-fsanitize=address,undefined", "-I", inc, os.path.join(VERIF, "harness", "cdriver", "driver.c"),
                     os.path.join(lib, "libc_eth_kzg.a"), "-lm", "-lpthread", "-ldl", "-o", drv])
    if rc != 0:
        raise NoAnswer("the C program does not compile\n" + e[-3000:])
    d, n = corpus(c, exe, 2400 if c.thorough else 320, 0)
    c.distinct += n
    c.driver("c-program", [drv, d, "x"], env={"ASAN_OPTIONS": "detect_leaks=0"}, timeout=c.budget + 300)


def jdk(c, classes):
    """Compiles the binding's sources with the monitoring program."""
    src = os.path.join(REPO, "bindings", "java", "java_code", "src", "main", "java")
    files = [os.path.join(r, f) for r, _, fs in os.walk(src) for f in fs if f.endswith(".java")]
    if os.path.isdir(classes):
        shutil.rmtree(classes)
    os.makedirs(classes)
    rc, o, e = c.sh(["javac", "-nowarn", "-d", classes] + files + [os.path.join(VERIF, "harness", "java", "Driver.java"),
                                                             os.path.join(VERIF, "harness", "java", "Exhausted.java")])
    if rc != 0:
        raise NoAnswer("javac failed\n" + (o + e)[-3000:])


def p13(c):
    exe = cabi(c)
    lib, _ = c.ws_build(["java_eth_kzg"])
    jdk(c, os.path.join(c.work, "classes"))
    d, n = corpus(c, exe, 2000 if c.thorough else 240, 1)
    c.distinct += n
    c.driver("java", ["java", "-Xcheck:jni", "-Xmx1g", "-XX:+UseSerialGC", "-XX:-CreateCoredumpOnCrash", "-XX:ErrorFile=" + os.path.join(c.work, "hs_err"),
                      "-Djava.library.path=" + lib, "-Djava.io.tmpdir=" + c.work, "-cp", os.path.join(c.work, "classes"),
                      "Driver", d, c.tier, str(c.seed)], cwd=c.work, timeout=c.budget + 400)
    c.driver("full-heap", ["java", "-Xcheck:jni", "-Xmx24m", "-XX:+UseSerialGC", "-XX:-CreateCoredumpOnCrash", "-XX:ErrorFile=" + os.path.join(c.work, "hs_err"),
                           "-Djava.library.path=" + lib, "-Djava.io.tmpdir=" + c.work, "-cp", os.path.join(c.work, "classes"),
                           "Exhausted", c.tier, str(c.seed)], cwd=c.work, timeout=c.budget + 200)


def p14(c):
    exe = cabi(c)
    lib, _ = c.ws_build(["node-eth-kzg"])
    b = os.path.join(c.work, "node")
    if os.path.isdir(b):
        shutil.rmtree(b)
    os.makedirs(b)
    shutil.copy(os.path.join(REPO, "bindings", "node", "index.js"), b)
    shutil.copy(os.path.join(lib, "libnode_eth_kzg.so"), os.path.join(b, "node-eth-kzg.linux-x64-gnu.node"))
    d, n = corpus(c, exe, 4000 if c.thorough else 400, 1)
    c.distinct += n
    for part in ("corpus", "hostile", "garbage", "memory", "dflt"):
        c.driver(part, ["node", "--expose-gc", os.path.join(VERIF, "harness", "node", "driver.js"), b, d, c.tier, str(c.seed), part],
                 cwd=c.work, timeout=c.budget + 200)


def p15(c):
    exe = cabi(c)
    lib, inc = c.ws_build(["c_eth_kzg"])
    h = os.path.join(VERIF, "harness", "go")
    g = os.path.join(c.work, "go")
    if os.path.isdir(g):
        shutil.rmtree(g)
    src = os.path.join(REPO, "bindings", "golang")
    env = {"GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOTOOLCHAIN": "local", "CGO_ENABLED": "1", "GOCACHE": os.path.join(c.work, "gocache")}
    for part in ("real", "watch"):
        m = os.path.join(g, part)
        os.makedirs(os.path.join(m, "kzg", "build", "x86_64-unknown-linux-gnu"))
        for f in os.listdir(src):
            if f.endswith(".go") and not f.endswith("_test.go") or f == "go.mod":
                shutil.copy(os.path.join(src, f), os.path.join(m, "kzg"))
        mod = [l.split()[1] for l in open(os.path.join(src, "go.mod")) if l.startswith("module")][0]
        build = os.path.join(m, "kzg", "build")
        shutil.copy(os.path.join(inc, "c_eth_kzg.h"), build)
        a = os.path.join(build, "x86_64-unknown-linux-gnu", "libc_eth_kzg.a")
        if part == "real":
            shutil.copy(os.path.join(lib, "libc_eth_kzg.a"), a)
        else:
            o = os.path.join(c.work, "stub.o")
            c.must(["gcc", "-g", "-O1", "-Wall", "-I", inc, "-c", os.path.join(h, "stub.c"), "-o", o])
            c.must(["ar", "rcs", a, o])
        shutil.copy(os.path.join(h, part, "main.go"), m)
        os.symlink(build, os.path.join(m, "build"))  # the binding names the library relative to where the program is linked
        with open(os.path.join(m, "go.mod"), "w") as f:
            f.write("module driver\n\ngo 1.20\n\nrequire %s v0.0.0\n\nreplace %s => ./kzg\n" % (mod, mod))
        for race in (False, True) if part == "watch" else (False,):
            out = os.path.join(m, "driver-race" if race else "driver")
            rc, o, e = c.sh(["go", "build"] + (["-race"] if race else []) + ["-o", out, "."], cwd=m, env=env, timeout=400)
            if rc != 0:
                raise NoAnswer("go build failed\n" + (o + e)[-3000:])
    d, n = corpus(c, exe, 4000 if c.thorough else 600, 0)
    c.distinct += n
    w = os.path.join(g, "watch")
    secs = str(int(c.budget * 0.3) or 1)
    c.driver("watched-library", [os.path.join(w, "driver"), secs], cwd=w, timeout=c.budget + 200)
    c.driver("watched-library-race", [os.path.join(w, "driver-race"), secs], cwd=w, timeout=c.budget + 200)
    c.driver("real-library", [os.path.join(g, "real", "driver"), d, c.tier, str(c.seed)], cwd=g, timeout=c.budget + 400)


CHECKS = {
    "P01": ("a case is one blob (17 structural families) on one of 4 known-secret contexts or the built-in setup; "
            "distinct by blob content and call", core, 60, 1500),
    "P02": ("an evaluation is one request answered under one configuration and compared with the baseline configuration; "
            "distinct by (configuration, request)", p02, 60, 900),
    "P03": ("an evaluation is one recovery request of genuine cells whose 128 cells and proofs are compared with the reference; "
            "distinct by (blob, erasure pattern, order)", core, 40, 1500),
    "P04": ("an evaluation is one defective or exactly-64 recovery request whose outcome is judged against the specification; "
            "distinct by request content", core, 60, 1800),
    "P05": ("an evaluation is one batch of genuine tuples; distinct by batch content", core, 60, 1500),
    "P06": ("an evaluation is one batch whose verdict is compared with the conjunction of per-tuple truths known from the "
            "setup's secret; distinct by batch content", core, 60, 1800),
    "P07": ("an evaluation is one comparison of batching weights of two requests, or one adaptively forged batch; "
            "distinct by request", lambda c: core(c, features=("st",)), 60, 1500),
    "P08": ("an evaluation is one call on hostile bytes whose result class is compared with the specification; "
            "distinct by (operation, position, kind of encoding, bytes)", core, 60, 1800),
    "P09": ("an evaluation is one call whose result is compared with the reference outcome of its arguments; distinct by "
            "(previous call, this call, overlapping or not)", p09, 80, 1200),
    "P10": ("an evaluation is one reading of live heap bytes or of the process's threads after a step; distinct by (step, configuration)",
            p10, 60, 900),
    "P11": ("an evaluation is one call of a C function on watched buffers; distinct by (request, buffer layout)", p11, 40, 900),
    "P12": ("an evaluation is one call of a C function whose outcome is compared with the core library's, one message watched, or "
            "one reading of live bytes; distinct by request", p12, 40, 900),
    "P13": ("an evaluation is one call of a LibEthKZG method whose outcome is compared with the core library's, or one reading of "
            "resident memory; distinct by request", p13, 60, 900),
    "P14": ("an evaluation is one method call, synchronous or asynchronous, whose outcome is compared with the core library's; "
            "distinct by request", p14, 60, 900),
    "P15": ("an evaluation is one call, context or message watched, or one outcome compared with the core library's; distinct by request",
            p15, 40, 900),
    "P16": ("an evaluation is one setup offered to the loader, one commitment or verdict under a supplied setup, or one combined "
            "consistency check of the built-in points; distinct by (defect, position, document)", core, 70, 1200),
    "P17": ("an evaluation is one result of a group or field kernel compared with arithmetic on discrete logarithms; distinct by "
            "(routine, size, width, result)", p17, 90, 1500),
    "P18": ("an evaluation is one transform or polynomial operation compared with its definition; distinct by (operation, size, operands)",
            kern, 60, 1200),
    "P19": ("an evaluation is one encoding or decoding judged against the definition of the code; distinct by (code, erasures, word)",
            kern, 60, 1200),
    "P20": ("an evaluation is one commitment, opening, verification or reassembly for one choice of parameters, compared with the "
            "known-secret reference; distinct by (parameters, configuration, request)", p20, 60, 1500),
}

TECH = {
    "P01": ("output monitor against a known-secret reference",
            "every output byte is predicted; sampled blobs; blst primitives trusted"),
    "P02": ("differential output monitor across configurations and builds",
            "widths 1-12 (14 thorough), threads 1-33, three feature builds; requests aimed at table digit boundaries"),
    "P03": ("output monitor against a known-secret reference", "sampled erasure patterns (structured and random), all sizes and orders"),
    "P04": ("outcome monitor against a codeword-membership oracle", "sampled corruptions aimed at every request field and position class"),
    "P05": ("verdict monitor with tuples of known truth", "tuples made from the setup secret, any index and batch shape"),
    "P06": ("verdict monitor with adversarially correlated false tuples of known truth", "sampled; batches up to several hundred tuples"),
    "P07": ("monitor of the recorded batching weights plus adaptive forgers", "needs the verif_hooks recorder for the weights; forgers work without it"),
    "P08": ("outcome monitor over hostile encodings, panic hook, hang watchdog", "boundary values and every position class; sampled bytes"),
    "P09": ("online linearizability-style monitor (pure-function oracle) of concurrent calls, ThreadSanitizer, deadlock watchdog",
            "sampled schedules; TSan sees the Rust code, blst's assembly is uninstrumented"),
    "P10": ("counting allocator and thread census", "leaks of at least 8 bytes per call or 16 KiB per context"),
    "P11": ("guard pages, read-only inputs and canaries around every buffer, Miri, AddressSanitizer",
            "Miri runs the real C-interface sources over a stand-in core library (Tree Borrows); ASan with blst's C code instrumented"),
    "P12": ("differential outcome monitor against the core library, message-ownership and live-byte monitors, corpus replay by a C program",
            "the core library's answer is the reference; leaks of at least 8 bytes per call or 16 KiB per context"),
    "P13": ("outcome monitor over recorded core-library answers, -Xcheck:jni, argument and native-memory monitors, lifecycle races",
            "one JVM (17) with the serial collector; sampled requests and schedules"),
    "P14": ("outcome monitor over recorded core-library answers, argument and native-memory monitors, forced garbage collection",
            "Node 22; sampled requests and schedules"),
    "P15": ("outcome monitor over recorded core-library answers; context and message lifetime monitor in a stand-in native library, "
            "with forced garbage collection; Go race detector", "sampled schedules and collection points"),
    "P16": ("acceptance monitor over defective setups, output monitor on setups with known discrete logarithms, pairing checks",
            "every kind of defect, sampled positions (boundaries always); the 65 + 8192 built-in points in random combinations"),
    "P17": ("output monitor over known discrete logarithms, AddressSanitizer on the Rust and blst C code", "lengths to 400 and widths to 15 (19 thorough)"),
    "P18": ("output monitor against definitional evaluation", "domains to 2^12; group transforms to 2^7"),
    "P19": ("outcome monitor against the definition of the code", "small codes exhaustively over erasure patterns, larger sampled"),
    "P20": ("output and verdict monitor against a known-secret reference", "polynomial lengths 2 to 256 (1024 thorough), extension 1 to 8"),
}
NOT_APPLICABLE = {
    "P21": "the C# and Nim code cannot be executed: there is no .NET SDK/runtime and no Nim compiler in the sandbox, "
           "and runtime monitoring needs executions",
}
HOOK_COMMITS = ["dda9cb9523e66f3c4ec5bdaaf285ca9046c4c06b"]

"""Common part of all checks: building against /repo, running the monitored
workloads, turning what the monitors saw into a verdict and evidence."""
import argparse, concurrent.futures, hashlib, json, os, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
HOOKS = "--cfg verif_hooks"

CRASH = {signal.SIGSEGV: "SIGSEGV", signal.SIGBUS: "SIGBUS", signal.SIGILL: "SIGILL",
         signal.SIGFPE: "SIGFPE", signal.SIGABRT: "SIGABRT", signal.SIGTRAP: "SIGTRAP"}


class NoAnswer(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed, budget, only=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.only = only          # None or dict(part=, section=, case=)
        self.thorough = tier == "thorough"
        self.budget = budget
        self.t0 = time.time()
        self.evals = 0
        self.distinct = 0
        self.classes = {}
        self.samples = []
        self.violations = []
        self.notes = {}
        self.parts = []
        self.assumptions = []
        self.lock, self.build_lock = threading.RLock(), threading.RLock()
        os.makedirs(BUILD, exist_ok=True)
        self.work = os.path.join(BUILD, "work-" + prop)
        os.makedirs(self.work, exist_ok=True)

    def elapsed(self):
        return time.time() - self.t0

    def log(self, s):
        print("[%s %6.1fs] %s" % (self.prop, self.elapsed(), s), file=sys.stderr, flush=True)

    # -- commands ---------------------------------------------------------
    def sh(self, cmd, env=None, cwd=None, timeout=800, out=None, stdin=None):
        """Runs a command in its own process group; returns (rc, stdout, stderr).
        rc is None when it ran out of time."""
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.Popen(cmd, cwd=cwd or VERIF, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             stdin=subprocess.DEVNULL, start_new_session=True, text=True, errors="replace")
        try:
            o, er = p.communicate(timeout=timeout)
            return p.returncode, o, er
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            o, er = p.communicate()
            return None, o, er

    def must(self, cmd, **kw):
        rc, o, e = self.sh(cmd, **kw)
        if rc != 0:
            raise NoAnswer("command failed (%s): %s\n%s\n%s" % (rc, " ".join(cmd), o[-3000:], e[-6000:]))
        return o

    def cargo(self, crate, features=(), target="target", hooks=True, nightly=False, rustflags="", extra=(),
              env=None, profile="release", timeout=800):
        """Builds a harness crate against /repo's working tree."""
        e = {"CARGO_TARGET_DIR": os.path.join(BUILD, target), "CARGO_NET_OFFLINE": "true"}
        e["RUSTFLAGS"] = ((HOOKS + " ") if hooks else "") + rustflags
        e.update(env or {})
        cmd = ["cargo"] + (["+nightly"] if nightly else []) + ["build", "--offline"]
        if profile == "release":
            cmd.append("--release")
        if features:
            cmd += ["--no-default-features", "--features", ",".join(features)]
        cmd += list(extra)
        t = time.time()
        self.must(cmd, cwd=os.path.join(VERIF, "harness", crate), env=e, timeout=timeout)
        self.log("built %s in %.0fs" % (crate, time.time() - t))
        return os.path.join(BUILD, target)

    def ws(self):
        """An overlay of /repo's cargo workspace that resolves offline: the same
        files, without the members whose dependencies cannot be fetched."""
        root = os.path.join(BUILD, "ws")

        def link(src, dst, skip=()):
            os.makedirs(dst, exist_ok=True)
            have = set(os.listdir(src)) - set(skip)
            for n in os.listdir(dst):
                q = os.path.join(dst, n)
                if os.path.islink(q) and n not in have:
                    os.unlink(q)
            for n in have:
                q, t = os.path.join(dst, n), os.path.join(src, n)
                if os.path.islink(q):
                    if os.readlink(q) == t:
                        continue
                    os.unlink(q)
                elif os.path.isdir(q):
                    shutil.rmtree(q)
                elif os.path.exists(q):
                    os.unlink(q)
                os.symlink(t, q)

        link(REPO, root, (".git", "target", "Cargo.toml", "Cargo.lock", "bindings"))
        b = os.path.join(REPO, "bindings")
        link(b, os.path.join(root, "bindings"), ("c", "java"))
        link(os.path.join(b, "c"), os.path.join(root, "bindings", "c"), ("build", "target"))
        link(os.path.join(b, "java"), os.path.join(root, "bindings", "java"), ("rust_code", "java_code"))
        # the build script leaves class files next to the sources
        jc = os.path.join(root, "bindings", "java", "java_code")
        if os.path.isdir(jc):
            shutil.rmtree(jc)
        shutil.copytree(os.path.join(b, "java", "java_code", "src", "main"), os.path.join(jc, "src", "main"),
                        ignore=shutil.ignore_patterns("*.class"))
        link(os.path.join(b, "java", "rust_code"), os.path.join(root, "bindings", "java", "rust_code"),
             ("ethereum_cryptography_LibEthKZG.h", "target"))
        toml = open(os.path.join(REPO, "Cargo.toml")).read()
        toml = "".join(l for l in toml.splitlines(True) if '"bindings/nim/rust_code"' not in l)
        for name, text in (("Cargo.toml", toml), ("Cargo.lock", open(os.path.join(VERIF, "harness", "ws", "Cargo.lock")).read())):
            p = os.path.join(root, name)
            if not os.path.exists(p) or open(p).read() != text:
                with open(p, "w") as f:
                    f.write(text)
        # the header is written next to the sources by the build script
        hdr = os.path.join(root, "bindings", "c", "build", "c_eth_kzg.h")
        newest = max(os.path.getmtime(os.path.join(d, f)) for d, _, fs in os.walk(os.path.join(b, "c", "src")) for f in fs)
        if os.path.exists(hdr) and os.path.getmtime(hdr) < newest:
            os.unlink(hdr)
        return root

    def ws_build(self, packages, target="target-ws"):
        """Builds packages of the overlay workspace in release mode."""
        root = self.ws()
        hdr = os.path.join(root, "bindings", "c", "build", "c_eth_kzg.h")
        e = {"CARGO_TARGET_DIR": os.path.join(BUILD, target), "CARGO_NET_OFFLINE": "true", "CARGO_PROFILE_RELEASE_LTO": "off",
             "CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS": "true", "RUSTFLAGS": HOOKS}
        t = time.time()
        if not os.path.exists(hdr):
            self.sh(["cargo", "clean", "--offline", "--release", "-p", "c_eth_kzg"], cwd=root, env=e)
        cmd = ["cargo", "build", "--release", "--offline"]
        for p in packages:
            cmd += ["-p", p]
        self.must(cmd, cwd=root, env=e, timeout=800)
        self.log("built %s in %.0fs" % (" ".join(packages), time.time() - t))
        return os.path.join(BUILD, target, "release"), os.path.dirname(hdr)

    def parallel(self, jobs, workers):
        """Runs parts of a check at the same time; all of them, then the first error."""
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            fs = [ex.submit(j) for j in jobs]
        for f in fs:
            f.result()

    # -- verdicts ---------------------------------------------------------
    def violation(self, part, what, **detail):
        v = {"part": part, "what": what}
        v.update(detail)
        self.violations.append(v)
        self.log("broken property in %s: %s" % (part, json.dumps(what)[:1500]))

    def count(self, cls, n=1, distinct=None):
        self.evals += n
        self.distinct += n if distinct is None else distinct
        self.classes[cls] = self.classes.get(cls, 0) + n

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s)

    def harness(self, part, exe, sub, budget, args=(), env=None, grace=240, prefix=(), crash_is_violation=True):
        """Runs one monitored workload that reports through a JSON file."""
        if self.only and self.only.get("part") not in (None, part):
            return None
        out = os.path.join(self.work, part + ".json")
        for f in (out, out + ".hang"):
            if os.path.exists(f):
                os.unlink(f)
        cmd = list(prefix) + [exe, sub, "--seed", str(self.seed), "--tier", self.tier, "--budget", "%.1f" % budget,
                              "--out", out] + list(args)
        if self.only and self.only.get("section"):
            cmd += ["--case", "%s:%s" % (self.only["section"], self.only["case"])]
        self.log("running %s" % part)
        rc, o, e = self.sh(cmd, env=env, timeout=budget + grace)
        return self.judge(part, rc, o, e, out, crash_is_violation)

    def driver(self, part, cmd, env=None, cwd=None, timeout=400, crash_is_violation=True):
        """Runs a program in another language that reports through lines
        `COUNT <class> <n>`, `DISTINCT <n>`, `NOTE <text>`, `BAD <what>` and `DONE`."""
        if self.only and self.only.get("part") not in (None, part):
            return None
        self.log("running " + part)
        t = time.time()
        rc, o, e = self.sh(cmd, env=env, cwd=cwd, timeout=timeout)
        with self.lock:
            return self._judge_driver(part, rc, o, e, time.time() - t, crash_is_violation)

    def _judge_driver(self, part, rc, o, e, wall, crash_is_violation):
        tail = (o[-3000:] + "\n" + e[-6000:]).strip()
        lines = o.splitlines()
        bad = [l[4:] for l in lines if l.startswith("BAD ")]
        for b in bad[:3]:
            self.violation(part, {"what": b})
        total = 0
        for l in lines:
            if l.startswith("COUNT "):
                cls, _, n = l[6:].rpartition(" ")
                total += int(n)
                self.count(part + "/" + cls, int(n), 0)
            elif l.startswith("NOTE "):
                self.notes.setdefault(part, []).append(l[5:])
            elif l.startswith("DISTINCT "):
                self.distinct += int(l[9:])
        self.parts.append({"part": part, "evaluations": total, "wall_s": round(wall, 1)})
        if "ERROR: AddressSanitizer" in e or "runtime error:" in e:
            i = max(e.find("ERROR: AddressSanitizer"), e.find("runtime error:"))
            self.violation(part, {"what": "sanitizer report", "report": e[max(0, i - 300):i + 5000]})
            return lines
        if rc is None:
            self.violation(part, {"what": "the program did not come to an end", "output": tail}) if bad else None
            if not bad:
                raise NoAnswer("%s ran out of time\n%s" % (part, tail))
            return lines
        sig = -rc if rc < 0 else rc - 128 if rc > 128 else 0
        if sig and CRASH.get(sig) and crash_is_violation:
            self.violation(part, {"what": "the process crashed with %s" % CRASH[sig], "output": tail})
            return lines
        if "DONE" not in lines and not bad:
            raise NoAnswer("%s: exit %s without a result\n%s" % (part, rc, tail))
        return lines

    def judge(self, *a):
        with self.lock:
            return self._judge(*a)

    def _judge(self, part, rc, o, e, out, crash_is_violation=True):
        tail = (o[-2000:] + "\n" + e[-6000:]).strip()
        if rc is None:
            raise NoAnswer("%s ran out of time\n%s" % (part, tail))
        if rc == 97:
            h = json.load(open(out + ".hang")) if os.path.exists(out + ".hang") else {"hang": tail}
            self.violation(part, h)
            return None
        if rc < 0 or rc >= 128:
            sig = -rc if rc < 0 else rc - 128
            name = CRASH.get(sig)
            if name and crash_is_violation:
                self.violation(part, "the process running the library crashed with %s" % name, output=tail)
                return None
            raise NoAnswer("%s ended by signal %s\n%s" % (part, sig, tail))
        if rc not in (0, 1) or not os.path.exists(out):
            raise NoAnswer("%s: exit %s\n%s" % (part, rc, tail))
        d = json.load(open(out))
        if not d.get("complete"):
            raise NoAnswer("%s: incomplete result\n%s" % (part, tail))
        self.evals += d["evaluations"]
        self.distinct += d["distinct_nontrivial"]
        for k, v in d["classes"].items():
            k = part + "/" + k if part != "main" else k
            self.classes[k] = self.classes.get(k, 0) + v
        for s in d["samples"]:
            if isinstance(s, dict):
                s = dict(s)
                s["part"] = part
            self.sample(s)
        if d.get("notes"):
            self.notes[part] = d["notes"]
        self.parts.append({"part": part, "cases": d.get("cases"), "evaluations": d["evaluations"], "wall_s": d["wall_s"]})
        for v in d["violations"]:
            v = dict(v)
            w = v.pop("what", v)
            self.violation(part, w, **v)
        return d


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("KNOWN-FINDING: property=%s " % prop) and " key=" in l:
                rest = l.split(" key=", 1)[1]
                key, _, desc = rest.partition(" ")
                out.append((key, desc))
    return out


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    only = None
    if a.replay:
        r = json.load(open(a.replay))
        a.seed, a.tier = r["seed"], r["tier"]
        v = r["violation"]
        only = {"part": v.get("part"), "section": v.get("section"), "case": v.get("case")}
    import checks
    rule, fn, qb, tb = checks.CHECKS[a.prop]
    budget = a.budget or (tb if a.tier == "thorough" else qb)
    c = Ctx(a.prop, a.tier, a.seed, budget, only)
    err = None
    try:
        fn(c)
    except NoAnswer as e:
        err = str(e)
    fresh, known = [], known_findings(a.prop)
    hit = set()
    for v in c.violations:
        w = v["what"]
        key = w.get("key") if isinstance(w, dict) else None
        m = [d for k, d in known if key is not None and k == key]
        if m:
            hit.add((key, m[0]))
        else:
            fresh.append(v)
    for k, d in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, d))
    ev = {
        "property": a.prop, "tier": c.tier, "seed": c.seed, "level": checks.LEVEL.get(a.prop, "exploration"),
        "coverage": {"evaluations": c.evals, "distinct_nontrivial": c.distinct, "rule": rule,
                     "samples": c.samples, "classes": c.classes, "parts": c.parts, "observed": c.notes},
        "assumptions": checks.ASSUMPTIONS + c.assumptions,
        "wall_s": round(c.elapsed(), 1), "violations": len(fresh),
    }
    if err:
        ev["coverage"]["error"] = err[-4000:]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", a.prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + ".tmp", p)
    if fresh:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for i, v in enumerate(fresh):
            body = {"property": a.prop, "seed": c.seed, "tier": c.tier, "violation": v,
                    "how": "python3 run.py %s --replay <this file> (run in /verif)" % a.prop}
            text = json.dumps(body, indent=1, default=str)
            rp = "replays/%s-%s.json" % (a.prop, hashlib.sha256(text.encode()).hexdigest()[:12])
            with open(os.path.join(VERIF, rp), "w") as f:
                f.write(text)
            if i < 5:
                print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        sys.stdout.flush()
        return 1
    if err:
        print("NO ANSWER: " + err[-3000:], file=sys.stderr)
        return 2
    print("%s: held on %d evaluations (%d distinct non-trivial) in %.0fs" % (a.prop, c.evals, c.distinct, c.elapsed()))
    return 0

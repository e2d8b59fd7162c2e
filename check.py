#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]

Decides one property.  The oracle is always the TLA+ specification in spec/:
 1. TLC explores the property's specification exhaustively for small constants (invariants, action properties, laws);
 2. TLC simulates the specification and prints behaviours, which become scripts;
 3. the conformance harness (harness/*.cc) is built against /repo's working tree, replays the scripts and runs
    seeded random drivers, and records every call with its arguments, results and resulting state;
 4. TLC validates each recorded trace against the trace specification: every line must be a step it allows.
Exit 0: everything was accepted.  Exit 1 and a VIOLATION line: some recorded execution is not a behaviour of the
specification (the trace prefix is kept and named).  Exit 2: the check itself could not give an answer.
"""
import sys, os, re, json, time, subprocess, hashlib, shutil, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TOON_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, VERIF)
from areas import AREAS, KNOWN_FILE   # noqa: E402

NCPU = max(2, min(8, os.cpu_count() or 2))

def log(*a):
    print(*a, flush=True)

class CheckError(Exception):
    pass

class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.area = AREAS[pid]
        self.work = os.path.join(VERIF, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.violations = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], events_validated=0,
                        events_by_op={}, model_checks=[], generated_behaviours=0, builds=[])
        self.t0 = time.time()

    # ---- TLC -------------------------------------------------------------------------------------------
    def tlc(self, module, cfg, extra=(), env=None, workers="1", heap="1500m", timeout=300, tag=""):
        md = os.path.join(self.work, "md", tag or module)
        os.makedirs(md, exist_ok=True)
        gc = "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC"
        cmd = ["java", gc, "-Xmx" + heap, "-Xss16m", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-workers", workers,
               "-metadir", md, "-config", cfg] + list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            out, rc = p.stdout.decode("utf8", "replace"), p.returncode
        except subprocess.TimeoutExpired as x:
            out, rc = (x.stdout or b"").decode("utf8", "replace"), -1
        shutil.rmtree(md, ignore_errors=True)
        return rc, out

    def model_check(self, spec):
        module, cfg = spec["module"], spec.get("cfg_" + self.tier, spec.get("cfg", spec["module"] + ".cfg"))
        t = time.time()
        rc, out = self.tlc(module, cfg, workers=str(spec.get("workers", 4)), heap="5g", timeout=spec.get("timeout", 300 if self.tier == "quick" else 3000), tag="mc" + cfg)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        if rc != 0 or not m or "No error has been found" not in out:
            raise CheckError("model check of %s with %s did not pass (rc %d)\n%s" % (module, cfg, rc, out[-3000:]))
        self.cov["states"] += int(m.group(2))
        self.cov["transitions"] += int(m.group(1))
        self.cov["model_checks"].append(dict(module=module, cfg=cfg, distinct_states=int(m.group(2)), states_generated=int(m.group(1)), wall_s=round(time.time() - t, 1)))

    def generate(self, g):
        """Behaviours of the specification, by TLC simulation, as a script file."""
        num = g["num"] if self.tier == "quick" else g["num"] * g.get("thorough_factor", 8)
        rc, out = self.tlc(g["module"], g.get("cfg", g["module"] + ".cfg"), extra=["-simulate", "num=%d" % num, "-depth", str(g["depth"]), "-seed", str(self.seed + 11)],
                           timeout=600, tag="gen" + g["name"])
        behs = []
        for line in out.splitlines():
            if line.startswith('"BEH '):
                behs.append(json.loads(json.loads(line)[4:]))
        if rc != 0 or not behs:
            raise CheckError("generation from %s failed (rc %d)\n%s" % (g["module"], rc, out[-3000:]))
        path = os.path.join(self.work, g["name"] + ".script")
        with open(path, "w") as f:
            for b in behs:
                f.write("B\n")
                for step in b:
                    f.write(" ".join(str(int(x) if isinstance(x, bool) else x) for x in step) + "\n")
        self.cov["generated_behaviours"] += len(behs)
        g["path"] = path
        if len(self.cov["samples"]) < 2:
            self.cov["samples"].append(dict(generated_behaviour=behs[0][:8]))

    # ---- building ----------------------------------------------------------------------------------------
    def compile(self, name, b):
        src = os.path.join(HARN, b["src"])
        parts = b.get("parts", 0)
        cxx = b.get("cxx", "g++")
        flags = ["-std=" + b.get("std", "c++14")] + b.get("opt", ["-O0"]) + ["-w"] + b.get("flags", []) + ["-I" + REPO, "-I" + HARN]
        bdir = os.path.join(VERIF, "work", "build")
        os.makedirs(bdir, exist_ok=True)

        def one(part):
            d = ["-DPART=%d" % part] if part else []
            pp = subprocess.run([cxx] + flags + d + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            key = hashlib.sha256(pp.stdout + repr((cxx, flags, d)).encode()).hexdigest()[:24]
            obj = os.path.join(bdir, key + ".o")
            if pp.returncode == 0 and os.path.exists(obj):
                return obj, None
            tmp = obj + ".%d.%d" % (os.getpid(), part)
            p = subprocess.run([cxx] + flags + d + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode != 0:
                return None, p.stdout.decode("utf8", "replace")
            os.replace(tmp, obj)
            return obj, None

        plist = list(range(1, parts + 1)) if parts else [0]
        futs = [self.cpool.submit(one, p) for p in plist]
        res = [f.result() for f in futs]
        for obj, err in res:
            if obj is None:
                # does TooN itself still compile?  (a broken toolchain or tree is not a violation)
                t = subprocess.run([cxx] + flags + ["-x", "c++", "-fsyntax-only", "-"], input=b"#include <TooN/TooN.h>\nint main(){ TooN::Vector<3> v = TooN::Zeros; return v.size(); }\n",
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if t.returncode != 0:
                    raise CheckError("TooN/TooN.h does not compile\n" + t.stdout.decode("utf8", "replace")[:3000])
                path = os.path.join(self.work, "compile-%s.txt" % name)
                open(path, "w").write(err)
                self.violate("public API use in harness/%s no longer compiles: %s" % (b["src"], "; ".join(l for l in err.splitlines() if "error" in l)[:600]), path)
                return None
        exe = os.path.join(self.work, name + ".exe")
        p = subprocess.run([cxx] + b.get("opt", ["-O0"]) + [o for o, _ in res] + ["-o", exe] + b.get("libs", ["-llapack", "-lblas"]) + [f for f in b.get("flags", []) if f.startswith("-fsanitize")],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise CheckError("link failed\n" + p.stdout.decode("utf8", "replace")[-3000:])
        self.cov["builds"].append("%s: %s %s" % (name, cxx, " ".join(flags[:-2])))
        return exe

    # ---- running and validating -------------------------------------------------------------------------
    def record(self, job):
        cmd = [job["exe"], "--mode", job["mode"], "--out", job["trace"], "--seed", str(job["seed"]), "--n", str(job["n"]),
               "--shard", str(job["shard"]), "--shards", str(job["shards"])]
        if job.get("script"):
            cmd += ["--script", job["script"]]
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=%d:exitcode=66:abort_on_error=0:allocator_may_return_null=1" % (1 if job.get("leaks") else 0)
        env["OPENBLAS_NUM_THREADS"] = "1"
        if os.path.exists(job["trace"]):
            os.remove(job["trace"])
        crash, err = None, b""
        try:
            p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=job["timeout"], env=env, cwd=self.work)
            err = p.stderr
            if p.returncode != 0:
                crash = "exit status %d" % p.returncode if p.returncode > 0 else "signal %d" % -p.returncode
                if p.returncode == 3:
                    raise CheckError("harness could not write its trace: " + err.decode("utf8", "replace"))
        except subprocess.TimeoutExpired:
            crash = "no answer in %d s" % job["timeout"]
        job["crash"] = crash
        if crash:
            data = open(job["trace"], "rb").read() if os.path.exists(job["trace"]) else b""
            data = data[:data.rfind(b"\n") + 1]
            data += (json.dumps({"op": "Crash", "how": crash, "stderr": err.decode("utf8", "replace")[-600:]}) + "\n").encode()
            open(job["trace"], "wb").write(data)
        job["cmd"] = " ".join(cmd)

    def validate(self, job):
        """(accepted, index of the first line that no step of the specification explains, tlc output)"""
        n = sum(1 for _ in open(job["trace"], "rb"))
        if n == 0:
            raise CheckError("empty trace from " + job["cmd"])
        rc, out = self.tlc(job["spec"], job["spec"] + ".cfg", env={"TRACE": job["trace"]}, heap="3g", timeout=800, tag="tr" + os.path.basename(job["trace"]))
        job["lines"] = n
        m = re.search(r"(\d+) states generated, (\d+) distinct", out)
        if m and os.environ.get("VERIF_RATIO"):
            print("ratio %s %s %.2f" % (job["spec"], os.path.basename(job["trace"]), int(m.group(1)) / float(n)))
        if rc == 0 and "No error has been found" in out:
            return True, None, out
        m = re.search(r"REJECTED line (\d+) of (\d+)", out)
        if m:
            return False, int(m.group(1)), out
        if rc == -1 or "OutOfMemory" in out or "Parsing or semantic analysis failed" in out or "Java heap" in out or "StackOverflow" in out:
            raise CheckError("TLC failed on %s (rc %d)\n%s" % (job["trace"], rc, out[-3000:]))
        # an invariant, an action property or an assertion failed, or the recorded data are outside the domain of the specification
        ls = re.findall(r"/\\ l = (\d+)", out)
        if ls and ("Error:" in out):
            k = int(ls[-1])
            if re.search(r"Invariant \w+ is violated|Action property .* is violated|is violated", out):
                return False, max(1, k - 1), out
            return False, min(k, n), out
        raise CheckError("TLC failed on %s (rc %d)\n%s" % (job["trace"], rc, out[-3000:]))

    def violate(self, what, path):
        self.violations.append((what, path))

    def one_trace(self, job):
        self.record(job)
        ok, line, out = self.validate(job)
        if not ok:
            # repeat: a rejection counts only if it is repeatable
            if job["crash"]:
                self.record(job)
            ok2, line2, out2 = self.validate(job)
            if ok2:
                raise CheckError("rejection of %s did not repeat" % job["trace"])
            line = line2
            rep = os.path.join(VERIF, "work", "replays")
            os.makedirs(rep, exist_ok=True)
            lines = open(job["trace"], "r", errors="replace").read().splitlines()
            base = os.path.join(rep, "%s-%s" % (self.pid, os.path.basename(job["trace"])))
            with open(base, "w") as f:
                f.write("\n".join(lines[:line]) + "\n")
            with open(base + ".txt", "w") as f:
                f.write("harness: %s\ntrace spec: %s\nfirst line not explained: %d\n%s\n\nTLC:\n%s\n" % (job["cmd"], job["spec"], line, lines[line - 1][:4000], out2[-4000:]))
            self.violate("line %d: %s" % (line, lines[line - 1][:500]), base)
        return job

    def run(self):
        self.cpool = ThreadPoolExecutor(NCPU)
        pool = ThreadPoolExecutor(NCPU)
        a = self.area
        try:
            mcf = [pool.submit(self.model_check, s) for s in a.get("mc", [])]
            genf = [pool.submit(self.generate, g) for g in a.get("gen", [])]
            bpool = ThreadPoolExecutor(4)
            exef = {name: bpool.submit(self.compile, name, b) for name, b in a["builds"].items() if self.tier in b.get("tiers", ["quick", "thorough"])}
            exes = {k: f.result() for k, f in exef.items()}
            for f in genf:
                f.result()
            jobs = []
            for r in a["runs"]:
                if r["build"] not in exes or exes[r["build"]] is None:
                    continue
                if self.tier not in r.get("tiers", ["quick", "thorough"]):
                    continue
                shards = r.get("shards", 1)
                n = r.get("n", 1)
                rounds = 1
                if self.tier == "thorough":
                    n = r.get("n_thorough", n)
                    rounds = r.get("rounds_thorough", 4 if r["mode"] != "script" and not r.get("once") else 1)
                g = [g for g in a.get("gen", []) if g["name"] == r.get("gen")]
                for rd in range(rounds):
                    for s in range(shards):
                        jobs.append(dict(exe=exes[r["build"]], mode=r["mode"], seed=self.seed + 1000 * rd, n=n, shard=s, shards=shards, spec=r.get("spec", a.get("trace")),
                                         script=g[0]["path"] if g else None, leaks=r.get("leaks", False), timeout=r.get("timeout", 150 if self.tier == "quick" else 600),
                                         trace=os.path.join(self.work, "%s-%s-%d-%d.ndjson" % (r["build"], r.get("tag", r["mode"] + (r.get("gen") or "")), rd, s))))
            for f in mcf:
                f.result()
            for f in [pool.submit(self.one_trace, j) for j in jobs]:
                j = f.result()
                self.cov["traces_validated_against_impl"] += 1
                self.cov["events_validated"] += j["lines"]
                self.cov["states"] += j["lines"]
                self.cov["transitions"] += j["lines"]
                ops = self.cov["events_by_op"]
                for i, l in enumerate(open(j["trace"], errors="replace")):
                    m = re.match(r'\{"op":"([^"]*)"(?:,"f":"([^"]*)")?', l)
                    k = (m.group(1) + ("." + m.group(2) if m.group(2) else "")) if m else "?"
                    ops[k] = ops.get(k, 0) + 1
                    if len(self.cov["samples"]) < 4 and i == 5:
                        self.cov["samples"].append(dict(trace=os.path.basename(j["trace"]), line=l.strip()[:600]))
                os.remove(j["trace"])
        finally:
            pool.shutdown(wait=False, cancel_futures=True)
        self.finish()

    def finish(self):
        known = []
        if os.path.exists(KNOWN_FILE):
            for l in open(KNOWN_FILE):
                m = re.match(r"known: property=(\S+) probe=(\S+) (.*)", l)
                if m and m.group(1) == self.pid:
                    known.append((m.group(2), m.group(3)))
        new = []
        for what, path in self.violations:
            hit = [k for k in known if '"probe":"%s"' % k[0] in what]
            if hit:
                log("KNOWN-FINDING: property=%s %s" % (self.pid, hit[0][1]))
            else:
                new.append((what, path))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=self.cov,
                  assumptions=self.area.get("assumptions", ["the harness records calls and results faithfully (public API only)", "integer or dyadic data are exact in floating point", "TLC and the CommunityModules evaluate the specification correctly"]),
                  wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what, path in new:
            log("rejected: " + what)
            log("VIOLATION property=%s replay=%s" % (self.pid, path))
        log("%s %s: %d model states, %d traces, %d events, %.1f s" % (self.pid, self.tier, self.cov["states"], self.cov["traces_validated_against_impl"], self.cov["events_validated"], time.time() - self.t0))
        sys.exit(1 if new else 0)

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        sys.exit("usage: check.py <property> [quick|thorough]")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = Check(pid, tier, seed)
    try:
        c.run()
    except CheckError as e:
        log("CHECK ERROR: %s" % e)
        if c.violations:
            c.finish()
        sys.exit(2)

if __name__ == "__main__":
    main()

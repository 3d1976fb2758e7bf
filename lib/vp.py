"""Machinery shared by the checks: building the harness, running jobs on it, running TLC, reporting."""
import hashlib
import longlists
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
SPEC = os.path.join(VERIF, "spec")
CARGO = "/root/.cargo/bin/cargo"


class CheckError(Exception):
    pass


def build_env(target):
    e = dict(os.environ)
    e.update(PATH="/root/.cargo/bin:" + e.get("PATH", ""), RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=target)
    e.pop("RUSTFLAGS", None)
    return e


class Run:
    """One run of one check."""
    def __init__(self, pid):
        self.id, self.t0 = pid, time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.work = os.path.join(VERIF, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(os.path.join(self.work, "replay"), exist_ok=True)
        self.violations, self.known, self.samples = [], [], []
        self.states = self.transitions = self.traces = self.evals = 0
        self.notes = {}
        self.findings = load_findings()
        self.bin = None

    # ------------------------------------------------------------ harness
    def build(self, cat, name="main"):
        """Generates and builds the harness for the given catalogue from /repo's working tree."""
        import docs
        import rustgen
        self.cat = cat
        docs.aliases(cat)
        gen = os.path.join(HARNESS, "src", "gen")
        os.makedirs(gen, exist_ok=True)
        put(os.path.join(gen, "types.rs"), rustgen.gen_module(cat))
        put(os.path.join(gen, "dispatch.rs"), rustgen.gen_dispatch(cat))
        target = os.path.join(HARNESS, "target")
        toml = os.path.join(HARNESS, "Cargo.toml")
        t0 = time.time()
        p = subprocess.run([CARGO, "build", "--offline", "--manifest-path", toml], env=build_env(target), cwd=HARNESS, capture_output=True, text=True, errors="replace")
        self.notes["harness_build_s"] = round(time.time() - t0, 1)
        if p.returncode != 0:
            lib = subprocess.run([CARGO, "build", "--offline", "--manifest-path", toml, "-p", "yaserde", "-p", "yaserde_derive"], env=build_env(target), cwd=HARNESS, capture_output=True, text=True, errors="replace")
            if lib.returncode != 0:
                raise CheckError("/repo does not build:\n" + lib.stderr[-3000:])
            return p.stderr
        self.bin = os.path.join(self.work, "vharness")
        shutil.copy2(os.path.join(target, "debug", "vharness"), self.bin)
        put(os.path.join(self.work, "types.json"), json.dumps(cat.to_spec()))
        return None

    def jobs(self, jobs, workers=8, timeout=8):
        """Runs jobs, returns their results in order. A job that kills or hangs the process gets st = abort / hang."""
        for i, j in enumerate(jobs):
            j["id"] = i
        if not jobs:
            return []
        if any("pump" in j for j in jobs):
            timeout = 25
        out = [None] * len(jobs)
        n = min(workers, max(1, len(jobs) // 20))
        queues = [list(range(k, len(jobs), n)) for k in range(n)]
        procs = []
        for k, q in enumerate(queues):
            procs.append(Worker(self.bin, jobs, q, os.path.join(self.work, "jobs%d" % k), timeout))
        while any(not p.done for p in procs):
            for p in procs:
                p.poll(out)
            time.sleep(.01)
        self.evals += len(jobs)
        return out

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=8, timeout=None, extra=(), heap="6g", simulate=False):
        """Runs TLC, returns (output, states, transitions, ok)."""
        timeout = timeout or (7200 if self.thorough else 800)
        e = dict(os.environ)
        e["VP_TYPES"] = os.path.join(self.work, "types.json")
        e.update(env or {})
        meta = os.path.join(self.work, "tlc-%s-%d" % (module, len(os.listdir(self.work))))
        cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + self.work, "-Xmx" + heap, "-Xss256m", "-Dtlc2.tool.impl.Tool.cdot=true", "-cp",
               "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-noGenerateSpecTE", "-config", cfg or module + ".cfg"] + list(extra) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC did not finish on %s in %d s" % (module, timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.states += dist
        self.transitions += gen
        return p.stdout, dist, gen, p.returncode

    def validate(self, module, lines, describe, cfg=None, expect_states=None, env=None):
        """Has TLC judge recorded lines; returns the mismatching line numbers with what was expected."""
        if not lines:
            return []
        path = os.path.join(self.work, "trace-%s-%d.ndjson" % (module, self.traces))
        for i, l in enumerate(lines):
            l["id"] = i
        with open(path, "w") as f:
            for l in lines:
                f.write(json.dumps(l) + "\n")
        ev = {"VP_TRACE": path}
        ev.update(env or {})
        out, dist, _, rc = self.tlc(module, cfg, ev)
        if rc != 0 or dist != (expect_states if expect_states is not None else len(lines)):
            raise CheckError("TLC failed on %s (%d states for %d lines, exit %d):\n%s" % (module, dist, len(lines), rc, out[-4000:]))
        self.traces += len(lines)
        bad = []
        for m in re.finditer(r'<<"MISMATCH", (\d+), "((?:[^"\\]|\\.)*)">>', out.replace("\n", " ")):
            bad.append((int(m.group(1)), unquote(m.group(2))))
        os.remove(path) if not bad else None
        return bad

    # ------------------------------------------------------------ reporting
    def violation(self, what, replay):
        """replay: a JSON value that lets the failure be run again."""
        for f in self.findings:
            if f["property"] == self.id and f["match"] and matches(f["match"], replay):
                line = "KNOWN-FINDING: property=%s %s" % (self.id, f["what"])
                if line not in self.known:
                    self.known.append(line)
                    print(line)
                return
        if len(self.violations) < 20:
            path = os.path.join(self.work, "replay", "%d.json" % len(self.violations))
            put(path, json.dumps({"what": what, "replay": replay}, ensure_ascii=False, indent=1))
            print("VIOLATION property=%s replay=%s" % (self.id, os.path.relpath(path, VERIF)))
            print("  " + what[:4000])
            sys.stdout.flush()
        self.violations.append(what)

    def sample(self, x):
        if len(self.samples) < 12:
            self.samples.append(x)

    def finish(self, level="model_checking", assumptions=()):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "evaluations": self.evals, "samples": self.samples or ["none"]}
        cov.update(self.notes)
        ev = {"property": self.id, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed, "level": level,
              "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        put(os.path.join(VERIF, "evidence", self.id + ".json"), json.dumps(ev, indent=1, ensure_ascii=False))
        print("%s: %s, %d states, %d traces, %d executions, %.1f s" % (self.id, "VIOLATED" if self.violations else "held", self.states, self.traces, self.evals, time.time() - self.t0))
        return 1 if self.violations else 0


# ------------------------------------------------------------------ long data
# The character MARK stands for a long run in what yaserde is given: the run takes its place in the job, and gives it back in the
# result. The specification sees the short form only, so length never costs it anything.
MARK, UNIT = "\u00ff", "\u0177"
STRETCHED = {"de", "ser", "rt", "norm", "cursor", "emit", "events"}
LENGTHS = [7, 33, 33, 130, 130, 300, 300, 1100, 5000, 70000]


def stretched(j):
    """The job as it is run, and the run each mark of it became (0: none)."""
    if "pump" in j:
        return dict(j, v=longlists.many(j["v"], *j["pump"])), 0
    if j.get("op") not in STRETCHED or "limit" in j or "fail" in j:
        return j, 0
    src = {k: j[k] for k in ("x", "xb", "v", "ops") if k in j}
    text = json.dumps(src, ensure_ascii=False)
    if MARK not in text and "c3bf" not in text:
        return j, 0
    h = hashlib.sha1((j.get("xb") or (j["x"].encode().hex() if "x" in j else text)).encode()).digest()
    if h[1] < 16:
        return j, 0
    n = LENGTHS[h[0] % len(LENGTHS)]
    if n > 1000 and text.count(MARK) + text.count("c3bf") > 12:
        n = 300
    run = UNIT * n
    out = dict(j, **json.loads(text.replace(MARK, run)))
    if "xb" in j:
        out["xb"] = bytes.fromhex(j["xb"]).replace(MARK.encode(), run.encode()).hex()
    return out, n


class Worker:
    def __init__(self, binary, jobs, queue, base, timeout):
        self.bin, self.jobs, self.q, self.base, self.timeout = binary, jobs, queue, base, timeout
        self.done = not queue
        if not self.done:
            self.start()

    def start(self):
        self.inp, self.outp = self.base + ".in", self.base + ".out"
        self.runs = {}
        with open(self.inp, "w") as f:
            for i in self.q:
                if i % 11 < 4:
                    self.jobs[i]["log"] = True
                j, n = stretched(self.jobs[i])
                if n:
                    self.runs[i] = (UNIT * n).encode()
                    self.jobs[i]["stretch"] = n
                f.write(json.dumps(j) + "\n")
        env = {"PATH": "/usr/bin:/bin", "JOB_TIMEOUT": str(self.timeout), "JOB_FLUSH": "1"}

        def lim():
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        self.p = subprocess.Popen([self.bin], stdin=open(self.inp), stdout=open(self.outp, "w"), stderr=subprocess.DEVNULL, env=env, preexec_fn=lim)

    def poll(self, out):
        if self.done or self.p.poll() is None:
            return
        got = set()
        with open(self.outp, "rb") as f:
            for line in f:
                try:
                    r = json.loads(line)
                    if r["id"] in self.runs:
                        r = json.loads(line.replace(self.runs[r["id"]], MARK.encode()))
                except ValueError:
                    continue
                out[r["id"]] = r
                got.add(r["id"])
        rest = [i for i in self.q if i not in got]
        rc = self.p.returncode
        if rest and rc == 0:
            raise CheckError("the harness lost jobs")
        if rest and rc != 3:
            # the process died while running this job
            out[rest[0]] = {"id": rest[0], "st": "abort", "e": "process ended with %d" % rc}
            rest = rest[1:]
        self.deaths = getattr(self, "deaths", 0) + (rc != 0)
        if self.deaths > (6 if rc == 3 else 25):
            for i in rest:
                out[i] = {"id": i, "st": "notrun"}
            rest = []
        if rest:
            self.q = rest
            self.start()
        else:
            self.done = True
            for f in (self.inp, self.outp):
                os.remove(f)


def put(path, s):
    """Writes only when the content differs, so that cargo sees unchanged files as unchanged."""
    try:
        with open(path) as f:
            if f.read() == s:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(s)


def unquote(s):
    """The JSON inside a string TLC printed."""
    s = s.replace('\\"', '"').replace("\\\\", "\\")
    try:
        return json.loads(s)
    except ValueError:
        return s


def matches(pat, x):
    """Whether the replay x is the listed finding: every key of the pattern is there with an equal value."""
    return isinstance(x, dict) and all(k in x and x[k] == v for k, v in pat.items())


def load_findings():
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("status") == "known":
                    out.append(d)
    return out


def check_harness(jobs, results):
    """A job the harness itself could not run is an error of the check, not of yaserde."""
    for j, r in zip(jobs, results):
        if r is None or (r["st"] == "panic" and str(r.get("e", "")).startswith("HARNESS")):
            raise CheckError("harness could not run %s: %s" % (json.dumps(j)[:400], r))


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()


def sany():
    """Parses every module of the specification; returns what is wrong with them."""
    bad = []
    for m in sorted(os.listdir(SPEC)):
        if m.endswith(".tla"):
            p = subprocess.run(["java", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tla2sany.SANY", m],
                               cwd=SPEC, capture_output=True, text=True, errors="replace")
            if p.returncode != 0 or "*** Errors" in p.stdout:
                bad.append(m + "\n" + p.stdout[-2000:])
    return "\n".join(bad)

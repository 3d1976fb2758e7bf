#!/usr/bin/env python3
"""Mutation testing of the checks: small systematic edits of /repo's sources, those that still build and pass the
existing tests are put before the checks.  Works on copies bound over /repo and /verif in mount namespaces of its own.
   mutate.py list OUT.json          the candidate edits
   mutate.py work LIST K N OUT      worker K of N: results appended to OUT (run by `mutate.py run`)
   mutate.py run LIST N OUT [all]   N workers; `all`: run every check on a mutant instead of stopping at the first that catches it
No check runs this."""
import glob, json, os, re, subprocess, sys, time, hashlib
ORDER = "S01 D03 R01 D02 D07 D08 D05 D06 D12 S03 S04 S06 S02 S07 D04 D13 D11 D09 D10 R02 S05 C01 D01".split()
FIRST = {"yaserde/src/de/": "D10 D11 D12", "yaserde/src/ser/": "S06 S04 S05", "yaserde/src/lib.rs": "D04 D13 S06", "yaserde/src/primitives.rs": "D13 D12", "yaserde_derive/src/de/expand_enum.rs": "D07 D12 D10", "yaserde_derive/src/de/": "D03 D08 D06", "yaserde_derive/src/ser/expand_enum": "S01 S07 R01", "yaserde_derive/src/ser/": "S01 S03 S07 R01"}
def order(f):
    for k, v in FIRST.items():
        if f.startswith(k):
            return v.split() + [p for p in ORDER if p not in v.split()]
    return ORDER
ENV = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1", RUSTC_WRAPPER="")

def candidates(root="/repo"):
    out = []
    files = sorted(glob.glob(root + "/yaserde/src/**/*.rs", recursive=True) + glob.glob(root + "/yaserde_derive/src/**/*.rs", recursive=True))
    for f in files:
        rel = os.path.relpath(f, root)
        lines = open(f).read().split("\n")
        intest = False
        for i, l in enumerate(lines):
            s = l.strip()
            if "#[cfg(test)]" in s:
                intest = True
            if intest or not s or s.startswith(("//", "#[", "use ", "pub mod", "mod ", "///", "extern")) or "debug!" in s or "log::" in s or "trace!" in s:
                continue
            def add(new, op):
                if new != l:
                    out.append({"file": rel, "line": i + 1, "old": l, "new": new, "op": op})
            if s.endswith(";") and not s.startswith(("let ", "return", "}", ")", "type ", "const ", ".")) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
                add("", "delete")
                if "next_event" in s or ".peek" in s or "self.writer" in s or "writer.write" in s or "push" in s:
                    add(l + " " + s, "twice")
            if s.startswith(".") and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
                add(";" if s.endswith(";") else "", "unchain")
            m = re.match(r"^(\s*(?:\} else )?if )(?!let )(.*) \{$", l)
            if m:
                add("%s!(%s) {" % m.groups(), "negate")
                add("%strue || (%s) {" % m.groups(), "always")
                add("%sfalse && (%s) {" % m.groups(), "never")
            for a, b in (("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("true", "false"), ("false", "true"), (".is_some()", ".is_none()"), (".is_none()", ".is_some()"), ("+= 1", "+= 2"), ("-= 1", "-= 2"), (" > ", " >= "), (" < ", " <= "),
                         (".trim()", ""), ("?;", ".ok();"), (".first()", ".last()"), (".last()", ".first()"), ("Some(_)", "None"), ("unwrap_or(", "unwrap_or_default(); ("), ("is_attribute", "is_flatten"),
                         ("default_namespace", "prefix"), ("1", "0"), ("0", "1"), (".rev()", ""), (".skip(1)", ""), (".filter(", ".skip_while("), ("any(", "all("), ("all(", "any("), ("\"true\"", "\"1\""), ("_ =>", "_ if false =>")):
                if a == b:
                    continue
                for m in re.finditer(re.escape(a), l):
                    k = m.start()
                    if a in ("1", "0", "true", "false") and (l[k - 1:k].isalnum() or l[k + len(a):k + len(a) + 1].isalnum() or l[k - 1:k] in ("_", '"') and a in "10"):
                        continue
                    if a == "||" and re.search(r"\(\|\||= \|\|", l[max(0, k - 2):k + 2]):
                        continue
                    add(l[:k] + b + l[k + len(a):], "%s -> %s" % (a, b))
            # an arm of a match on one line
            if re.match(r"^\s*[A-Z]\w*(::\w+)+.* => .*,$", l) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
                add("", "arm")
            if re.match(r'^\s*"\w+" => .*,$', l):
                add("", "arm")
    return out

def sh(cmd, cwd=None, timeout=1200):
    p = subprocess.Popen(cmd, cwd=cwd, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    class R: returncode, stdout, stderr = 124, "", "timeout"
    try:
        R.returncode = p.wait(timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
    return R

def work(lst, k, n, out, every):
    todo = json.load(open(lst))
    done = set()
    for f in glob.glob(out + ".*"):
        for x in open(f):
            done.add(json.loads(x)["n"])
    log = open("%s.%d" % (out, k), "a")
    for c, m in enumerate(todo):
        if c % n != k or m.get("n", c) in done:
            continue
        nn = m.get("n", c)
        f = "/repo/" + m["file"]
        src = open(f).read()
        lines = src.split("\n")
        assert lines[m["line"] - 1] == m["old"], m
        lines[m["line"] - 1] = m["new"]
        r = {"n": nn, "file": m["file"], "line": m["line"], "op": m["op"], "old": m["old"].strip(), "new": m["new"].strip()}
        t0 = time.time()
        try:
            open(f, "w").write("\n".join(lines))
            b = sh(["cargo", "build", "--workspace", "--all-features", "--offline", "-q"], "/repo", 200)
            if b.returncode:
                r["res"] = "build"
            else:
                t = sh(["cargo", "test", "--workspace", "--all-features", "--offline", "-q", "--no-fail-fast"], "/repo", 200)
                if t.returncode:
                    r["res"] = "tests"
                else:
                    r["res"], r["by"] = "SURVIVES", []
                    for p in (m.get("checks") or order(m["file"])):
                        c = subprocess.run([sys.executable, "/verif/run.py", "check", p], cwd="/verif", env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True, errors="replace")
                        if c.returncode == 1 and "VIOLATION property=" + p in c.stdout:
                            r["by"].append(p)
                            r["res"] = "caught"
                            if not every:
                                break
                        elif c.returncode != 0:
                            r.setdefault("odd", []).append([p, c.returncode, c.stdout[-300:]])
        finally:
            open(f, "w").write(src)
        r["t"] = round(time.time() - t0)
        log.write(json.dumps(r) + "\n"); log.flush()

if sys.argv[1] == "list":
    c = candidates()
    json.dump(c, open(sys.argv[2], "w"), indent=0)
    print(len(c))
elif sys.argv[1] == "work":
    work(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5], len(sys.argv) > 6)
else:
    lst, n, out = sys.argv[2], int(sys.argv[3]), sys.argv[4]
    ps = []
    for k in range(n):
        w = "/tmp/mut/w%d" % k
        subprocess.run(["rm", "-rf", w]); os.makedirs(w)
        subprocess.run(["cp", "-a", "/repo", w + "/repo"]); subprocess.run(["cp", "-a", "/verif", w + "/verif"])
        subprocess.run(["git", "-C", w + "/repo", "checkout", "-q", "--", "."])
        ps.append(subprocess.Popen(["unshare", "-m", "bash", "-c", "mount --make-rprivate / && mount --bind %s/repo /repo && mount --bind %s/verif /verif && exec %s /verif/tools/mutate.py work %s %d %d %s %s" % (w, w, sys.executable, lst, k, n, out, " ".join(sys.argv[5:]))]))
    for p in ps:
        p.wait()

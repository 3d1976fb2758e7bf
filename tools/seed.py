#!/usr/bin/env python3
"""Plants bugs: for each entry of a Python file (BUGS = [dict(id, property, file, edits=[(old, new)], needs, breaks, main)])
applies it in a scratch copy of /repo, builds, runs the tests and the demonstration with and without it, and keeps it in seeded/.
   seed.py plant FILE [id ...]      seed.py catch [id ...]   (applies each kept bug to /repo, runs its property's check, undoes it)
No check runs this."""
import importlib.util, json, os, re, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork/repo"
ENV = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="")
DEMO = '''#!/bin/bash
# Builds main.rs against the yaserde of the current directory (a checkout of the repository) and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
yaserde = { path = "$repo/yaserde", features = ["derive"] }
yaserde_derive = { path = "$repo/yaserde_derive" }
xml-rs = "0.8.3"
log = "0.4"
[workspace]
EOF
cd "$t" || exit 1
CARGO_TARGET_DIR="$t/target" cargo build --offline -q || { echo "demo does not build"; exit 1; }
timeout 20 "$t/target/debug/demo"
'''
def sh(cmd, cwd=None, env=ENV, timeout=1200):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        class R: returncode, stdout, stderr = 124, "", "timeout"
        return R
def fresh():
    if not os.path.isdir(W):
        sh(["cp", "-a", "/repo", W])
    sh(["git", "fetch", "-q", "/repo", "HEAD"], W); sh(["git", "checkout", "-qf", "FETCH_HEAD"], W); sh(["git", "checkout", "-q", "--", "."], W)
def base_lines(path):
    out = sh(["git", "blame", "-s", "-l", "HEAD", "--", path], W).stdout.splitlines()
    return out
def plant(b):
    fresh()
    d = os.path.join(VERIF, "seeded", b["id"])
    files = {}
    for e in b["edits"]:
        f, old, new = e if len(e) == 3 else (b["file"],) + tuple(e)
        p = os.path.join(W, f); s = open(p).read()
        if s.count(old) != 1:
            return "edit matches %d times: %s" % (s.count(old), old[:80])
        open(p, "w").write(s.replace(old, new))
    diff = sh(["git", "diff"], W).stdout
    # removed lines must be the original repository's
    root = sh(["git", "rev-list", "--max-parents=0", "HEAD"], W).stdout.strip()
    for f in set(re.findall(r"^\+\+\+ b/(.*)$", diff, re.M)):
        bl = sh(["git", "blame", "-s", "-l", "HEAD", "--", f], W).stdout.splitlines()
        cur = None
        for line in sh(["git", "diff", "-U0", "--", f], W).stdout.splitlines():
            m = re.match(r"@@ -(\d+)", line)
            if m: cur = int(m.group(1)); continue
            if cur and line.startswith("-") and not line.startswith("---"):
                if not re.match(r"\^?" + root[:30], bl[cur - 1]):
                    return "line %d of %s is not the original repository's: %s" % (cur, f, line)
                cur += 1
    r = sh(["cargo", "test", "--workspace", "--all-features", "--offline"], W)
    n = sum(int(x) for x in re.findall(r"test result: \w+\. (\d+) passed", r.stdout))
    if r.returncode != 0 or n < 95:
        return "tests: exit %d, %d passed\n%s" % (r.returncode, n, (r.stdout + r.stderr)[-200:])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "main.rs"), "w").write(b["main"])
    open(os.path.join(d, "demo.sh"), "w").write(DEMO); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    r1 = sh(["bash", os.path.join(d, "demo.sh")], W)
    sh(["git", "checkout", "-q", "--", "."], W)
    r0 = sh(["bash", os.path.join(d, "demo.sh")], W)
    if r0.returncode != 0 or r1.returncode == 0 or "does not build" in r0.stdout:
        if not (r0.returncode == 0 and r1.returncode != 0): shutil.rmtree(d)
        return "demo: clean %d, planted %d\n%s\n%s" % (r0.returncode, r1.returncode, (r0.stdout + r0.stderr)[-1500:], (r1.stdout + r1.stderr)[-1500:])
    return ""
def catch(i, prop=None):
    d = os.path.join(VERIF, "seeded", i)
    p = prop or json.load(open(os.path.join(d, "meta.json")))["property"]
    a = sh(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")])
    if a.returncode: return "does not apply: " + a.stderr
    try:
        r = sh([sys.executable, "run.py", "check", p], VERIF, env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
    finally:
        sh(["git", "-C", "/repo", "checkout", "--", "."])
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
    return "%s: exit %d, %s  %s" % (p, r.returncode, "CAUGHT (%d)" % len(v) if v and r.returncode == 1 else "MISSED", " ".join(r.stdout.splitlines()[-1:])[-150:] + ("" if r.returncode in (0, 1) else r.stdout[-600:]))
if sys.argv[1] == "plant":
    sp = importlib.util.spec_from_file_location("bugs", sys.argv[2]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    for b in m.BUGS:
        if len(sys.argv) > 3 and b["id"] not in sys.argv[3:]: continue
        e = plant(b)
        print(b["id"], "KEPT" if not e else "REFUSED " + e, flush=True)
else:
    ids = sys.argv[2:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    for i in ids:
        i, _, prop = i.partition(":")
        print(i, catch(i, prop or None), flush=True)

#!/usr/bin/env python3
"""writes /verif/seeded/<id>/ from tools/seeds.py; --test ID..: builds a scratch copy, runs the stable tests and the demo with and without the change"""
import json, os, shutil, subprocess, sys, textwrap
V = "/verif"; LIB = V + "/tools/seedlib"
ns = {}
exec(open(V + "/tools/seeds.py").read(), ns)
SEEDS = ns["SEEDS"]
BASE = subprocess.run("git -C /repo log --format=%H | tail -1", shell=True, stdout=subprocess.PIPE, text=True).stdout.strip()
W = "/tmp/seedw"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(id):
    s = SEEDS[id]
    d = V + "/seeded/" + id
    os.makedirs(d, exist_ok=True)
    sh("git -C %s checkout -q -- ." % W)
    for f, old, new in s["edits"]:
        p = W + "/" + f
        t = open(p).read()
        n = t.count(old)
        k = s.get("count", 1)
        assert n >= 1 and (n == k), (id, f, old, n)
        open(p, "w").write(t.replace(old, new))
    diff = sh("git -C %s diff" % W).stdout
    open(d + "/patch.diff", "w").write(diff)
    # originality
    import re
    cur = None
    bad = []
    for l in diff.splitlines():
        if l.startswith("--- a/"): cur = l[6:]
        m = re.match(r"@@ -(\d+)", l)
        if m: ln = int(m.group(1)); continue
        if l.startswith("---") or l.startswith("+++") or l.startswith("diff") or l.startswith("index"): continue
        if l.startswith("-"):
            b = sh("git -C /repo blame -s -l -L %d,%d HEAD -- %s" % (ln, ln, cur)).stdout
            if not b.lstrip("^").startswith(BASE[:30]) and l[1:].strip(): bad.append((cur, ln, l))
            ln += 1
        elif l.startswith(" "): ln += 1
    if bad: print(id, "NOT ORIGINAL", bad)
    shutil.copy(LIB + "/demo.sh", d); os.chmod(d + "/demo.sh", 0o755)
    for f in ("common.rs", "sig.rs", "Cargo.toml.in"): shutil.copy(LIB + "/" + f, d)
    body = s["demo"]
    mods = "mod common;\nmod sig;\n"
    if "rec::" in body:
        shutil.copy(LIB + "/rec.rs", d); mods += "mod rec;\n"
    open(d + "/main.rs", "w").write("//! demonstration for %s\n#![allow(unused_imports, dead_code)]\n%suse common::*;\n\n#[tokio::main]\nasync fn main() {\n%s\n}\n" % (id, mods, textwrap.indent(textwrap.dedent(body).strip("\n"), "    ")))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
def test(id):
    d = V + "/seeded/" + id
    sh("git -C %s checkout -q -- ." % W)
    env = dict(os.environ, CARGO_TARGET_DIR=W + "/dt")
    # demo without rebuilding dependencies each time: share a target dir
    def demo():
        t = "/tmp/seedd"
        sh("rm -rf /tmp/seedd; mkdir -p /tmp/seedd/src /tmp/seedd/run/a/b/c; cp %s/*.rs /tmp/seedd/src; sed 's|@REPO@|%s|' %s/Cargo.toml.in > /tmp/seedd/Cargo.toml; cp %s/Cargo.lock /tmp/seedd/" % (d, W, d, W))
        b = sh("cd /tmp/seedd && CARGO_INCREMENTAL=0 RUSTFLAGS='--cap-lints warn' CARGO_TARGET_DIR=/tmp/seedt cargo build --offline -q")
        if b.returncode: return "BUILD " + b.stdout[-1500:], 99
        r = sh("cd /tmp/seedd/run/a/b/c && TZ=America/New_York timeout 200 /tmp/seedt/debug/demo")
        return r.stdout, r.returncode
    o0, r0 = demo()
    a = sh("git -C %s apply %s/patch.diff" % (W, d))
    assert a.returncode == 0, a.stdout
    o1, r1 = demo()
    t = sh("cd %s && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTFLAGS='--cap-lints warn' cargo test --workspace --all-features --offline -- --test-threads=1 2>&1 | grep -E '^test .*FAILED|^error' | sort" % W)
    sh("git -C %s checkout -q -- ." % W)
    good = r0 == 0 and r1 != 0 and r1 != 99 and not t.stdout.strip()
    print("%s %s clean=%d patched=%d tests=[%s] %s" % ("GOOD" if good else "BAD ", id, r0, r1, t.stdout.strip()[:300], "" if good else "\n--clean--\n" + o0[-1500:] + "\n--patched--\n" + o1[-1500:]), flush=True)
    if good: print("      ", [l for l in o1.splitlines() if "FAILED" in l or "panick" in l][:1])
if not os.path.isdir(W): sh("git clone -q /repo " + W)
sh("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (W, W))
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or list(SEEDS)
for i in ids: make(i)
if "--test" in sys.argv:
    for i in ids: test(i)

#!/usr/bin/env python3
"""Behaviour-preserving edits: none may be reported. usage: refac.py [--build] [names]
Works in the clone /tmp/rc (at /repo's HEAD); says ok / UNDECIDED / ALARM per edit."""
import subprocess, sys, os, re
RC = "/tmp/rc"
R = []
def rf(name, unit, *edits): R.append((name, unit, edits))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), os.environ.get("LIST", "refacs.py"))).read())
def main():
    a = sys.argv[1:]; build = "--build" in a; names = [x for x in a if not x.startswith("-")]
    for name, unit, edits in R:
        if names and not any(re.fullmatch(n, name) for n in names): continue
        subprocess.run(["git", "-C", RC, "checkout", "-q", "--", "."])
        bad = None
        for f, o, n in edits:
            p = f"{RC}/src/{f}"; s = open(p).read()
            cnt = s.count(o)
            if cnt < 1: bad = "NOMATCH " + o[:60]; break
            open(p, "w").write(s.replace(o, n))
        if bad: print(name, bad); continue
        if build:
            r = subprocess.run(["cargo", "check", "--offline", "-q"], cwd=RC, capture_output=True, text=True, env={**os.environ, "CARGO_TARGET_DIR": "/tmp/seedt", "RUSTFLAGS": "--cap-lints allow"})
            if r.returncode: print(name, "DOES NOT BUILD"); print(r.stderr[:600]); continue
        for u in unit.split():
            r = subprocess.run(["/tmp/vv", u], capture_output=True, text=True, env={**os.environ, "REPO": RC, "N": "400"})
            o = r.stdout
            m = re.search(r"(\d+) verified, (\d+) errors", o)
            if m and m.group(2) == "0": print(name, u, "ok")
            elif m:
                fails = re.findall(r"^error: (.*?)\n\s+--> (\S+?):(\d+)", o, re.M)
                f = subprocess.run(["/tmp/vv", u, "--rlimit", "60"], capture_output=True, text=True, env={**os.environ, "REPO": RC, "N": "400", "XF": "--flat"}).stdout
                m = re.search(r"(\d+) verified, (\d+) errors", f)
                print(name, u, "ok (flat)" if m and m.group(2) == "0" else "ALARM")
                print("   ", fails[:4])
                if m: print("   ", re.findall(r"^error: (.*?)\n\s+--> (\S+?):(\d+)", f, re.M)[:4])
            else: print(name, u, "UNDECIDED", (re.findall(r"^error.*\n.*\n.*\n.*", o, re.M) or [o[-300:]])[0][:300])
        sys.stdout.flush()
    subprocess.run(["git", "-C", RC, "checkout", "-q", "--", "."])
main()

#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property on /repo's current tree.

1. extracts the functions under contract from /repo/src and lets Verus discharge their obligations,
2. runs the executable contracts (/verif/replay) against the compiled code,
3. writes evidence/<ID>.json and prints VIOLATION / KNOWN-FINDING lines. See DESIGN.md, "Decision".
"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CONFIG = json.load(open(os.path.join(VERIF, "bin", "config.json")))
T0 = time.time()


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"
    except OSError as e:
        return 127, "", str(e)


def cargo_build(crate):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS"):
        env.pop(k, None)
    d = os.path.join(VERIF, crate)
    if crate == "replay":
        lock = os.path.join(REPO, "Cargo.lock")
        if os.path.exists(lock) and REPO == "/repo":
            mine = os.path.join(d, "Cargo.lock")
            if not os.path.exists(mine):
                shutil.copy(lock, mine)
    rc, out, err = run(["cargo", "build", "--offline"], cwd=d, env=env, timeout=600)
    return rc == 0, err[-6000:]


# ---------------------------------------------------------------- deductive part
def strip_comments(s):
    return re.sub(r"//[^\n]*", "", s)


def verify_unit(unit, work, probe=False):
    """-> dict(status=ok|failed|undecided, ...); a failure counts only if it persists under other solver seeds and more resources"""
    r = verify_once(unit, work, probe)
    if probe:
        return r
    if r["status"] == "ok" or not r["failures"]:
        return r
    with cf.ThreadPoolExecutor(3) as ex:
        others = [ex.submit(verify_once, unit, work, False, n, n == 3) for n in (1, 2, 3)]
    for n, s in enumerate((f.result() for f in others), 1):
        # n = 3: loops see everything known before them, as a fact an invariant does not repeat may be all that is missing
        if s["status"] == "ok" and n < 3:
            s["retries"] = n
            return s
        if s["status"] != "ok" and not s["failures"]:
            continue
        bad = {f["function"] for f in s["failures"]}
        hard = {f["function"] for f in s["failures"] if f["kind"] == "proof"}
        kept = []
        for f in r["failures"]:
            if f["function"] and f["function"] not in bad:
                r.setdefault("second_try", []).append(f["function"])
                continue
            # what another run did not reproduce stays undecided
            kept.append(f if f["kind"] == "rlimit" or f["function"] in hard or n == 3 else dict(f, kind="rlimit"))
        total = r["verified"] + r["errors"]
        r["failures"], r["errors"] = kept, len({f["function"] for f in kept})
        r["verified"] = total - r["errors"]
    if not r["failures"]:
        r["status"], r["reason"] = "ok", ""
    elif not any(f["kind"] == "proof" for f in r["failures"]):
        r["status"] = "undecided"
        r["reason"] = "no failure persists under other solver seeds: " + "; ".join(f["function"] + " " + f["obligation"] for f in r["failures"][:4])
    return r


def verify_once(unit, work, probe=False, retry=0, flat=False):
    r = {"unit": unit, "status": "undecided", "reason": "", "functions": [], "failures": [], "verified": 0, "errors": 0, "seconds": 0.0, "smt_ms": 0}
    vc = os.path.join(VERIF, "contracts", unit + ".vc")
    tag = unit + ("_probe" if probe else "") + ("_%d" % retry if retry else "")
    rs = os.path.join(work, tag + ".rs")
    cmd = [os.path.join(VERIF, "extract/target/debug/extract"), REPO, vc, rs] + (["--probe"] if probe else []) + (["--flat"] if flat else [])
    rc, out, err = run(cmd, timeout=60)
    try:
        j = json.loads(out)
    except ValueError:
        r["reason"] = "extractor failed: " + (err or out)[-800:]
        return r
    if rc != 0 or "error" in j:
        r["reason"] = "extraction: %s: %s" % (j.get("error"), j.get("message"))
        return r
    r["functions"] = j["functions"]
    r["text"] = rs
    t = time.time()
    ucfg = CONFIG["units"].get(unit, {})
    cmd = ["verus", rs, "--triggers-mode", "silent", "--output-json", "--time", "--error-format=json", "--multiple-errors", "0" if probe else "8",
           "--rlimit", str(4 if probe else ucfg.get("rlimit", 30) * (2 if flat else 1 + 2 * retry)), "--num-threads", "4"]
    if retry and not flat:
        cmd += ["--smt-option", "smt.random_seed=%d" % (7 * retry)]
    r["cmd"] = " ".join(cmd)
    rc, out, err = run(cmd, timeout=ucfg.get("timeout", 300), cwd=work)
    r["seconds"] = round(time.time() - t, 2)
    if rc == 124:
        r["reason"] = "verus timed out"
        return r
    i = out.find("{")
    try:
        o = json.loads(out[i:])
        vr = o["verification-results"]
    except (ValueError, KeyError):
        vr = None
    msgs = []
    for line in err.splitlines():
        if line.startswith("{"):
            try:
                msgs.append(json.loads(line))
            except ValueError:
                pass
    errs = [m for m in msgs if m.get("level") == "error" and not m["message"].startswith("aborting due")]
    if vr is None or vr.get("encountered-vir-error") or "verified" not in vr:
        r["reason"] = "verus rejects the text: " + "; ".join((m.get("rendered") or m["message"])[:600] for m in errs[:3]) if errs else "verus gave no result: " + err[-500:]
        return r
    r["verified"], r["errors"] = vr["verified"], vr["errors"]
    try:
        r["smt_ms"] = o["times-ms"]["smt"]["total"]
    except (KeyError, TypeError):
        pass
    lines = open(rs).read().split("\n")
    marks = []  # (line, function) as written by the extractor
    for n, l in enumerate(lines, 1):
        m = re.match(r"\s*// @fn (\S+) (\S+)", l)
        if m:
            marks.append((n, m.group(1)))
        elif re.match(r"\s*// @endfn", l):
            marks.append((n, ""))
    def owner(n):
        f = ""
        for ln, name in marks:
            if ln <= n:
                f = name
            else:
                break
        return f
    kinds = []
    for m in errs:
        text = m["message"]
        spans = m.get("spans", [])
        prim = [s for s in spans if s.get("is_primary")] or spans
        fn = ""
        for s in prim + spans:
            fn = fn or owner(s["line_start"])
        kind = "rlimit" if re.search(r"rlimit|resource limit|timed? ?out", text, re.I) else ("proof" if re.search(
            r"postcondition|precondition|assert|invariant|decreases|overflow|underflow|division|index|recommendation|bounds|unable to prove|cannot prove|might|termination|ensures|reach", text, re.I) else "other")
        kinds.append(kind)
        r["failures"].append({"function": fn, "kind": kind, "obligation": text, "output": (m.get("rendered") or text)[:3000]})
    if any(k == "other" for k in kinds):
        r["reason"] = "verus rejects the text: " + "; ".join(f["output"][:600] for f in r["failures"] if f["kind"] == "other")
        r["failures"] = []
        return r
    if vr["errors"] == 0 and vr["verified"] > 0 and rc == 0:
        r["status"] = "ok"
        return r
    if any(k == "proof" for k in kinds):
        r["status"] = "failed"
    else:
        r["reason"] = "the solver gave up: " + "; ".join(f["obligation"] for f in r["failures"][:4])
    return r


def scan_trust(path):
    """assumptions left in a generated file, by mechanical scan"""
    res = []
    src = open(path).read().split("\n")
    for n, l in enumerate(src):
        s = l.strip()
        if s.startswith("//"):
            continue
        for pat in (r"\bassume\s*\(", r"\badmit\s*\(", r"external_body", r"assume_specification", r"\baxiom\b", r"external_type_specification", r"uninterp\b", r"external_fn_specification"):
            if re.search(pat, s):
                k = n
                txt = s
                while k + 1 < len(src) and len(txt) < 160 and not re.search(r"[;{]\s*$", txt):
                    k += 1
                    txt += " " + src[k].strip()
                res.append(re.sub(r"\s+", " ", txt)[:200])
                break
    return res


# ---------------------------------------------------------------- executable contracts
def replay(pid, tier, seed, budget, known):
    work = tempfile.mkdtemp(prefix="s3replay-")
    try:
        root = os.path.join(work, "a", "b", "c", "d", "e")
        os.makedirs(root)
        exe = os.path.join(work, "replay")
        shutil.copy(os.path.join(VERIF, "replay/target/debug/replay"), exe)
        os.chmod(exe, 0o755)
        os.chmod(work, 0o755)
        for dp, dn, fn in os.walk(os.path.join(work, "a")):
            os.chown(dp, 65534, 65534)
        outf = os.path.join(root, "..", "out.json")
        env = {"PATH": "/usr/bin:/bin", "TZ": "America/New_York", "HOME": root, "RUST_BACKTRACE": "0"}
        cmd = [exe, pid, "--seed", str(seed), "--tier", tier, "--scratch", root, "--budget", str(budget), "--out", os.path.abspath(outf)]
        if known:
            cmd += ["--known", ",".join(known)]
        rc, out, err = run(cmd, timeout=budget + 120, cwd=root, env=env, user=65534, group=65534, extra_groups=[])
        if rc != 0:
            return None, "harness exit %d: %s" % (rc, err[-1500:])
        return json.load(open(outf)), ""
    except (OSError, ValueError) as e:
        return None, str(e)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def known_findings(pid):
    res = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = CONFIG["properties"][pid]
    units = cfg.get("units", {})
    known = known_findings(pid)
    work = tempfile.mkdtemp(prefix="s3verus-")
    violations = []
    undecided = []
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            fb = ex.submit(cargo_build, "replay")
            if units:
                ok, err = cargo_build("extract")
                if not ok:
                    log("extractor does not build:", err)
                    sys.exit(2)
            fu = {u: ex.submit(verify_unit, u, work) for u in units}
            fp = {u: ex.submit(verify_unit, u, work, True) for u in units}
            built, berr = fb.result()
            rep, rerr = None, ""
            if built:
                rep, rerr = replay(pid, tier, seed, cfg.get("budget", 60) if tier == "quick" else cfg.get("thorough_budget", 500), list(known))
            else:
                rerr = "harness does not build against /repo: " + berr[-1500:]
            ures = {u: f.result() for u, f in fu.items()}
            pres = {u: f.result() for u, f in fp.items()}
        trust, fns, obligations, discharged, smt, secs, clauses = [], [], 0, 0, 0, 0.0, 0
        failed = []
        for u, r in ures.items():
            want = units[u]
            shapes = CONFIG["units"].get(u, {}).get("shapes", {})
            secs += r["seconds"]
            smt += r["smt_ms"]
            if r.get("text"):
                trust += [t for t in scan_trust(r["text"]) if t not in trust]
            for f in r["functions"]:
                fns.append("%s (%s:%d)%s" % (f["path"], f["file"], f["line"], " normalised: " + "; ".join(f["notes"]) if f["notes"] else ""))
            if r["status"] == "undecided":
                undecided.append("%s: %s" % (u, r["reason"]))
                continue
            obligations += r["verified"] + r["errors"]
            discharged += r["verified"]
            # vacuity: with assert(false) at the start of every function under contract each of them must be rejected
            p = pres[u]
            bad = {f["function"] for f in p["failures"]}
            names = [f["name"] for f in r["functions"]]
            vac = [n for n in names if n not in bad] if p["status"] == "failed" else names
            if vac and p["status"] != "failed":
                undecided.append("%s: vacuity probe gave no answer (%s)" % (u, p["reason"] or p["status"]))
            elif vac:
                undecided.append("%s: the contract of %s can be discharged vacuously" % (u, ", ".join(vac)))
            if r["status"] == "failed":
                for f in r["failures"]:
                    fn = f["function"]
                    if f["kind"] == "rlimit":
                        undecided.append("%s: %s: solver gave up" % (u, fn))
                        continue
                    if want != "*" and fn not in want and fn != "":
                        undecided.append("%s: obligation of %s failed (not part of this property): %s" % (u, fn, f["obligation"]))
                        continue
                    shape = next(([x["loops"], x["closures"]] for x in r["functions"] if x["name"] == fn), None)
                    if fn == "" or (fn in shapes and shape != shapes[fn]):
                        undecided.append("%s: obligation in %s not re-established (the function's loops or closures were restructured): %s" % (u, fn, f["obligation"]))
                        continue
                    f["unit"] = u
                    failed.append(f)
        if rep is None:
            undecided.append("executable contract not run: " + rerr)
        # an obligation failed: search longer for an input
        new = []
        deep = None
        if rep is not None:
            new = [f for f in rep["failures"] if f["key"] not in known]
        if failed and not new and rep is not None:
            deep, _ = replay(pid, "thorough", seed + 1000, 240, list(known))
            if deep:
                new = [f for f in deep["failures"] if f["key"] not in known]
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        if new or failed:
            path = os.path.join(rdir, pid + ".txt")
            with open(path, "w") as o:
                o.write("property %s seed %d tier %s\n" % (pid, seed, tier))
                if new:
                    o.write("rerun: %s/replay/target/debug/replay %s --seed %d --tier %s --scratch DIR --out FILE\n\n" % (VERIF, pid, seed, tier))
                for f in new:
                    o.write("== failing input: %s: %s\n%s\n\n" % (f["key"], f["what"], f["detail"]))
                for f in failed:
                    o.write("== failed obligation: %s %s: %s\n%s\n\n" % (f["unit"], f["function"], f["obligation"], f["output"]))
            line = "VIOLATION property=%s replay=%s" % (pid, path)
            if not new:
                line += " no-failing-input-found"
            violations.append(line)
        found_known = {}
        for f in (rep or {}).get("failures", []):
            if f["key"] in known:
                found_known[f["key"]] = f["what"]
        for k in found_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
        cov = {
            "rule": cfg["rule"],
            "evaluations": rep["evaluations"] if rep else 0,
            "distinct_nontrivial": rep["distinct"] if rep else 0,
            "samples": rep["samples"] if rep else ["the executable contract did not run: " + rerr[:300]],
            "classes": rep["classes"] if rep else {},
            "executable_contract_label": "bounded (random inputs within the stated budget); never counted as proved",
        }
        if units:
            cov.update({
                "obligations": obligations, "discharged": discharged,
                "checker_cmd": "; ".join(r.get("cmd", "") for r in ures.values()),
                "back_end": "Verus 0.2026.09.13 / Z3 (bundled)", "smt_ms": smt, "verus_seconds": round(secs, 2),
                "functions_under_contract": fns, "trusted_base": trust + cfg.get("trusted", []) + ["the extractor's normalisation rules (DESIGN.md, Extraction)", "Verus, vstd's specifications of std, Z3, rustc"],
                "unit_status": {u: r["status"] for u, r in ures.items()},
                "vacuity_probe": {u: r["status"] for u, r in pres.items()},
                "failed_obligations": [{k: f[k] for k in ("unit", "function", "obligation")} for f in failed],
            })
        cov["undecided"] = undecided
        level = cfg["level"]
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - T0, 2),
            "assumptions": cfg.get("assumptions", []), "violations": len(violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as o:
            json.dump(ev, o, indent=1)
        for u in undecided:
            print("UNDECIDED property=%s %s" % (pid, u.replace("\n", " ")[:700]))
        print("%s: %d obligations, %d discharged; %d bounded evaluations; %.1f s" % (pid, obligations, discharged, cov["evaluations"], time.time() - T0))
        for v in violations:
            print(v)
        sys.stdout.flush()
        sys.exit(1 if violations else 0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main()

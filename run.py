#!/usr/bin/env python3
"""Runs the check of one property: expand /repo -> extract (vx) -> Verus -> falsifier -> evidence.

usage: run.py <property-id>            (environment: VERIF_SEED, VERIF_TIER, REPO)
exit 0: held on everything explored; exit 1: VIOLATION line printed.
"""
import json, os, re, subprocess, sys, time, threading, shutil, hashlib
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
sys.path.insert(0, V)
from checks import CHECKS  # noqa
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, ".build" if REPO == "/repo" else ".build_" + hashlib.md5(REPO.encode()).hexdigest()[:8]))
T0 = time.time()


ASSUMED_RE = re.compile(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*(\S[^(]*?)\s*\]\s*\(|#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([a-z]+\))?\s+)?((?:broadcast |proof |exec |uninterp |open |closed )*(?:fn|struct)\s+\w+)|(broadcast\s+axiom\s+fn\s+\w+|\baxiom\s+fn\s+\w+)|\b(assume\(|admit\(\))")


def assumed_items(path):
    """every contract the verifier took without proof in a generated file"""
    return sorted({" ".join(next(g for g in m.groups() if g).split()) for m in ASSUMED_RE.finditer(open(path).read())})


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e.pop("RUSTFLAGS", None)
    e["TMPDIR"] = BUILD
    for k in ("VERIF_SEED", "VERIF_TIER"):
        e.pop(k, None)
    return e


def cargo_env():
    """the settings of the repository's own build, so that its prebuilt dependencies are reused"""
    e = env()
    e["RUSTUP_TOOLCHAIN"] = "1.87"
    e["CARGO_INCREMENTAL"] = "1"
    e["CARGO_PROFILE_DEV_DEBUG"] = "line-tables-only"
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "tgt")
    return e


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **k)


class Broken(Exception):
    pass


# ---------------------------------------------------------------- builds
def prepare():
    os.makedirs(BUILD, exist_ok=True)
    tgt = os.path.join(BUILD, "tgt")
    src = os.path.join(REPO, "target")
    if not os.path.isdir(os.path.join(src, "debug", "deps")):
        src = "/repo/target"
    if not os.path.isdir(tgt) and os.path.isdir(os.path.join(src, "debug", "deps")):
        os.makedirs(os.path.join(tgt, "debug"))
        for d in ("deps", "build", ".fingerprint"):
            sh(["cp", "-a", os.path.join(src, "debug", d), os.path.join(tgt, "debug", d)])
        log("dependencies copied from", src)


def build_vx(res):
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "vx")
    e["RUSTUP_TOOLCHAIN"] = "1.87"
    r = sh(["cargo", "build", "--offline", "-q"], cwd=os.path.join(V, "vx"), env=e)
    res["vx"] = os.path.join(BUILD, "vx", "debug", "vx")
    if r.returncode != 0:
        res["vx_err"] = r.stderr[-4000:]
    log("vx built")


def expand(res):
    e = cargo_env()
    e["RUSTC_BOOTSTRAP"] = "1"
    out = os.path.join(BUILD, "exp.rs")
    r = sh(["cargo", "rustc", "--offline", "-q", "-p", "carcara", "--lib", "--", "-Zunpretty=expanded"], cwd=REPO, env=e)
    if r.returncode != 0 or len(r.stdout) < 10000:
        res["exp_err"] = r.stderr[-4000:]
        return
    with open(out, "w") as f:
        f.write(r.stdout)
    res["exp"] = out
    log("source expanded")


def build_harness(res):
    h = os.path.join(V, "harness")
    if REPO != "/repo":
        g = os.path.join(BUILD, "harness")
        os.makedirs(g, exist_ok=True)
        for f in os.listdir(h):
            if f != "target":
                p = os.path.join(h, f)
                (shutil.copytree(p, os.path.join(g, f), dirs_exist_ok=True) if os.path.isdir(p) else shutil.copy2(p, g))
        c = open(os.path.join(g, "Cargo.toml")).read().replace("/repo/", REPO + "/")
        open(os.path.join(g, "Cargo.toml"), "w").write(c)
        h = g
    r = sh(["cargo", "build", "--offline", "-q"], cwd=h, env=cargo_env())
    if r.returncode != 0:
        res["h_err"] = r.stderr[-6000:]
        return
    res["h"] = os.path.join(BUILD, "tgt", "debug", "vharness")
    log("harness built")


def build_cli(res):
    env = dict(cargo_env(), CARGO_TARGET_DIR=os.path.join(BUILD, "tgt-cli"))
    r = sh(["cargo", "build", "--offline", "-q", "-p", "carcara-cli"], cwd=REPO, env=env)
    if r.returncode != 0:
        res["h_err"] = r.stderr[-6000:]
        return
    res["cli"] = os.path.join(BUILD, "tgt-cli", "debug", "carcara")
    log("command line tool built")


# ---------------------------------------------------------------- deductive part
MARK = re.compile(r"^// VXFN (\S+) <- (\S+)")


def fn_at(lines, ln):
    for i in range(min(ln, len(lines)) - 1, -1, -1):
        m = MARK.match(lines[i])
        if m:
            return m.group(1)
        if lines[i].startswith("// VXRAW"):
            return None
    return None


def fn_text(lines, ln):
    a = ln - 1
    while a > 0 and not MARK.match(lines[a]):
        a -= 1
    b = ln
    while b < len(lines) and not MARK.match(lines[b]) and not lines[b].startswith("// VXRAW"):
        b += 1
    return "\n".join(lines[a:b])


def diagnostics(stderr):
    """list of (kind, message, line in out.rs)"""
    out = []
    cur = None
    for l in stderr.splitlines():
        m = re.match(r"(error(?:\[E\d+\])?|warning|note): (.*)", l)
        if m:
            cur = [m.group(1), m.group(2), None] if m.group(1).startswith("error") else None
            if cur:
                out.append(cur)
            continue
        m = re.match(r"\s*--> .*?:(\d+):\d+", l)
        if m and cur is not None and cur[2] is None:
            cur[2] = int(m.group(1))
    return [tuple(x) for x in out if not x[1].startswith(("aborting due to", "could not compile"))]


PROOF_ERR = re.compile(
    r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
    r"possible arithmetic|decreases not satisfied|unreachable|possible division by zero|"
    r"loop invariant|requires not satisfied|recommendation not met|cannot show|possible bit shift|index out of bounds|"
    r"constructed value may fail|could not prove termination|assert_by|split|obligation"
)
LIMIT_ERR = re.compile(r"rlimit|Resource limit|timeout|timed out|canceled")


def run_unit(unit, res, tier):
    """returns a dict describing what the verifier decided for the unit"""
    d = os.path.join(BUILD, "v", unit)
    os.makedirs(d, exist_ok=True)
    out, rep = os.path.join(d, "out.rs"), os.path.join(d, "rep.json")
    r = {"unit": unit, "verified": 0, "failed": {}, "undecided": {}, "functions": [], "wall": 0.0, "smt_ms": 0, "probes": 0, "probe_bad": []}
    ext = {}
    t0 = time.time()
    for attempt in range(8):
        cmd = [res["vx"], res["exp"], os.path.join(V, "units", unit + ".vu"), out, rep]
        if ext:
            cmd += ["--external", ",".join(sorted(ext))]
        p = sh(cmd)
        if p.returncode != 0:
            r["undecided"]["*"] = "extraction failed: " + p.stderr[-400:]
            r["wall"] = time.time() - t0
            return r
        rp = json.load(open(rep))
        vargs = ["/usr/local/bin/verus", out, "--output-json", "--time", "--num-threads", str(res.get("vthreads", 6)), "--multiple-errors", "2"]
        e = env()
        e.pop("RUSTUP_TOOLCHAIN", None)
        try:
            p = sh(vargs, cwd=d, env=e, timeout=400 if tier == "quick" else 1500)
        except subprocess.TimeoutExpired:
            r["undecided"]["*"] = "verifier time limit"
            r["wall"] = time.time() - t0
            return r
        lines = open(out).read().split("\n")
        diags = diagnostics(p.stderr)
        try:
            js = json.loads(p.stdout[p.stdout.index("{"):])
        except ValueError:
            js = {}
        vr = js.get("verification-results", {})
        compiled = "verified" in vr and not vr.get("encountered-vir-error") and not any(k != "error" for k, _, _ in diags)
        if compiled:
            break
        # not accepted by the verifier's front end: functions named by the diagnostics become bounded stand-ins
        new = {}
        for k, m, ln in diags:
            f = fn_at(lines, ln) if ln else None
            if f and f not in ext:
                new[f] = "front end: " + m[:160]
        if not new:
            r["undecided"]["*"] = "front end: " + "; ".join(m for _, m, _ in diags[:3])[:600]
            r["wall"] = time.time() - t0
            return r
        ext.update(new)
    else:
        r["undecided"]["*"] = "front end: too many rejected functions"
        return r
    r["verified"] = vr.get("verified", 0)
    r["errors"] = vr.get("errors", 0)
    r["smt_ms"] = js.get("times-ms", {}).get("smt", {}).get("total", 0)
    r["version"] = js.get("verus", {}).get("version", "")
    r["rewrites"] = rp["rewrites"]
    r["auto_helpers"] = rp["auto_helpers"]
    r["functions"] = rp["functions"]
    r["trusted"] = [f for f, l, s in rp["functions"] if s == "trusted"]
    r["assumed"] = assumed_items(out)
    r["missing"] = rp["missing"]
    for m in rp["missing"]:
        r["undecided"][m] = "not found in the source"
    for a, b in rp["unsupported"]:
        r["undecided"][a] = "extraction: " + b
    for f, why in ext.items():
        r["undecided"][f] = why
    shape = rp.get("shape", {})
    base = {}
    sp = os.path.join(V, "units", unit + ".shape.json")
    if os.path.exists(sp):
        base = json.load(open(sp))
    if os.environ.get("VX_SAVE_SHAPE"):
        json.dump({"fns": shape, "helpers": rp["auto_helpers"]}, open(sp, "w"), indent=0, sort_keys=True)
        base = json.load(open(sp))
    new_helpers = [h.split("::")[-1] for h in rp["auto_helpers"] if h not in base.get("helpers", [])]
    base = base.get("fns", {})
    probes_seen = set()
    for k, m, ln in diags:
        f = fn_at(lines, ln) if ln else None
        src = lines[ln - 1].strip() if ln else ""
        if f is None:
            pr = probe_at(lines, ln) if ln else None
            if pr:
                probes_seen.add(pr)
                continue
            if LIMIT_ERR.search(m):
                r["undecided"]["(lemma)"] = m[:160]
                continue
            r["undecided"]["(lemma)"] = m[:160] + " @ " + src[:100]
            continue
        if LIMIT_ERR.search(m):
            r["undecided"][f] = m[:160]
        elif f in r["undecided"]:
            pass
        elif shape.get(f) != base.get(f):
            r["undecided"][f] = "proof annotations no longer fit the changed shape of the function (%s)" % m[:80]
        elif any(re.search(r"\b%s\s*\(" % re.escape(h), fn_text(lines, ln)) for h in new_helpers):
            r["undecided"][f] = "calls a helper that has no contract yet (%s)" % m[:80]
        else:
            r["failed"].setdefault(f, []).append("%s: %s" % (m[:160], src[:200]))
    allp = [m.group(1) for l in lines for m in [re.match(r".*fn (vx_probe_\w+)", l)] if m]
    r["probes"] = len(allp)
    r["probe_bad"] = [x for x in allp if x not in probes_seen]
    # a failure below a helper that lost its proof is not blamed on the caller
    r["stderr"] = p.stderr[-20000:] if r["failed"] else ""
    r["wall"] = time.time() - t0
    return r


def probe_at(lines, ln):
    for i in range(ln - 1, max(-1, ln - 12), -1):
        m = re.match(r".*fn (vx_probe_\w+)", lines[i])
        if m:
            return m.group(1)
    return None


# ---------------------------------------------------------------- falsifier (bounded)
def run_driver(d, res, secs, seed, only=None):
    """d: dict(cmd=[...], secs weight); returns the merged JSON of the driver's runs"""
    total = {"runs": 0, "accepted": 0, "distinct_accepted": 0, "panics": 0, "stuck": 0, "crashes": 0, "rules": {}, "samples": [], "found": []}
    t0 = time.time()
    k = 0
    while True:
        left = secs - (time.time() - t0)
        if left < 2 or k > 6:
            break
        o = os.path.join(BUILD, "found_%d_%d" % (os.getpid(), threading.get_ident()))
        if os.path.exists(o):
            os.remove(o)
        rules = d.get("rules", "")
        if only:
            rr = [x for x in rules.split(",") if x in only]
            rules = ",".join(rr or [rules])
        cmd = [res["h"], d["driver"], "--corpus", os.path.join(V, "corpus"), "--secs", "%.1f" % left, "--seed", str(seed + 77 * k), "--threads", "8", "--out", o]
        if d.get("files"):
            cmd += ["--files", d["files"]]
        if rules:
            cmd += ["--rules", rules]
        cmd += d.get("extra", [])
        if d.get("cli"):
            cmd += ["--cli", res["cli"]]
        pre = "ulimit -v 24000000; ulimit -c 0; exec "
        try:
            p = sh(["bash", "-c", pre + " ".join("'%s'" % c for c in cmd)], env=env(), timeout=left + 30, cwd=BUILD)
            js = json.loads(p.stdout)
        except (subprocess.TimeoutExpired, ValueError):
            js = None
        if js is None:
            total["crashes"] += 1
            if os.path.exists(o):
                for l in open(o):
                    try:
                        total["found"].append(json.loads(l))
                    except ValueError:
                        pass
        else:
            for f in ("runs", "accepted", "distinct_accepted", "panics", "stuck"):
                total[f] += js.get(f, 0)
            for r, v in js.get("rules", {}).items():
                e = total["rules"].setdefault(r, [0, 0])
                e[0] += v[0]
                e[1] += v[1]
            total["samples"] += js.get("samples", [])[:3]
            total["found"] += js.get("found", [])
        if os.path.exists(o):
            os.remove(o)
        if js is not None or total["found"]:
            break
        k += 1
    total["driver"] = d["driver"]
    return total


def known_findings(pid):
    out = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main():
    pid = sys.argv[1]
    c = CHECKS[pid]
    tier = TIER
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(V, "replay"), exist_ok=True)
    prepare()
    res = {}
    th = threading.Thread(target=build_vx, args=(res,))
    th.start()
    expand(res)
    build_harness(res)
    if any(d.get("cli") for d in c["drivers"]) and "h_err" not in res:
        build_cli(res)
    th.join()
    if "h_err" in res or "vx_err" in res:
        print(res.get("h_err", "") + res.get("vx_err", ""), file=sys.stderr)
        sys.exit(2)
    if "exp_err" in res:
        print("cannot expand /repo's source:\n" + res["exp_err"], file=sys.stderr)
        sys.exit(2)
    units = c["units"]
    fsecs = c.get("secs", 25) * (1 if tier == "quick" else 12)
    results = {}
    res["vthreads"] = max(2, 6 // max(1, min(3, len(units))))

    sem = threading.Semaphore(3)

    def do(u):
        with sem:
            results[u] = run_unit(u, res, tier)
            log("unit", u, "verified", results[u]["verified"], "failed", list(results[u]["failed"]), "undecided", results[u]["undecided"])

    ths = [threading.Thread(target=do, args=(u,)) for u in units]
    for t in ths:
        t.start()
    drv = []
    wsum = sum(d.get("w", 1) for d in c["drivers"])
    for d in c["drivers"]:
        drv.append(run_driver(d, res, max(4, fsecs * d.get("w", 1) / wsum), SEED))
        x = drv[-1]
        log("driver", d["driver"], {k: x[k] for k in ("runs", "accepted", "panics", "stuck", "crashes")}, "found", [f["rule"] for f in x["found"]])
    for t in ths:
        t.join()
    failed = {(u, f): m for u, r in results.items() for f, m in r["failed"].items()}
    undec = {(u, f): m for u, r in results.items() for f, m in r["undecided"].items()}
    found = [f for x in drv for f in x["found"]]
    # a failed or undecided obligation: look longer for a failing input before reporting
    if (failed or undec) and not found:
        names = [f for (_, f) in list(failed) + list(undec)]
        for d in c["drivers"]:
            x = run_driver(d, res, (75 if failed else 30) / len(c["drivers"]), SEED + 1000, None)
            drv.append(x)
            found += x["found"]
            if found:
                break
        log("extra search for", names, "found", [f["rule"] for f in found])
    knowns = known_findings(pid)
    viol = []
    hit = {}
    for f in found:
        k = next((k for k in knowns if f.get("key", f["rule"]) == k[0]), None)
        if k:
            hit[k[0]] = True
            continue
        viol.append(f)
    rpath = None
    lines = []
    if viol or failed:
        rpath = os.path.join(V, "replay", "%s.json" % pid)
        with open(rpath, "w") as h:
            json.dump({
                "property": pid,
                "failing_inputs": viol,
                "how_to_replay": "the 'defs' and 'proof' of a failing input are an SMT-LIB problem prelude and an Alethe proof: "
                "`carcara check` accepts the named step, yet in the listed model its premises are true and its conclusion is false",
                "failed_obligations": [{"unit": u, "function": f, "obligations": m} for (u, f), m in failed.items()],
                "verifier_output": {u: r["stderr"] for u, r in results.items() if r.get("stderr")},
                "repo": REPO, "seed": SEED,
            }, h, indent=1)
        if viol:
            lines.append("VIOLATION property=%s replay=%s" % (pid, rpath))
        else:
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rpath))
    for k, what in knowns:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    bad_probes = [x for r in results.values() for x in r["probe_bad"]]
    fns = []
    for u, r in results.items():
        for path, label, status in r["functions"]:
            st = status
            if label in r["undecided"] or path in r["undecided"]:
                st = "bounded only"
            elif label in r["failed"]:
                st = "FAILED"
            fns.append((path, st))
    obligations = sum(r["verified"] + r.get("errors", 0) - len([1 for _ in range(r["probes"] - len(r["probe_bad"]))]) for r in results.values())
    discharged = sum(r["verified"] for r in results.values())
    ev = {
        "property": pid, "tier": tier, "seed": SEED, "level": c.get("level", "proof"),
        "coverage": {
            "obligations": obligations,
            "discharged": discharged,
            "checker_cmd": "vx <macro-expanded /repo source> units/<unit>.vu out.rs && verus out.rs (units: %s)" % ", ".join(units),
            "trusted_base": c.get("trusted", []) + ["assumed contracts in units/core.rs, units/num.rs and sem.rs (rug numbers, vstd models of Vec/String/Rc, term pool add/sort)",
                                                   "vx's rewrites (listed under rewrites; see DESIGN.md)", "Verus 0.2026.09.13 and its Z3", "trusted functions: " + (", ".join(sorted({t for r in results.values() for t in r.get("trusted", [])})) or "none")],
            "back_end": "Verus (Z3)",
            "functions_under_contract": sorted({p for p, s in fns if s == "contract"}),
            "functions_bounded_only": sorted({p for p, s in fns if s in ("bounded only", "unsupported", "external")} | set(c.get("bounded", []))),
            "undecided": {"%s/%s" % k: m for k, m in undec.items()},
            "solver_ms": sum(r["smt_ms"] for r in results.values()),
            "verifier_wall_s": round(sum(r["wall"] for r in results.values()), 1),
            "vacuity_probes": sum(r["probes"] for r in results.values()),
            "vacuity_probes_that_wrongly_verified": bad_probes,
            "rewrites": {u: r.get("rewrites", {}) for u, r in results.items()},
            "falsifier": [{k: x[k] for k in ("driver", "runs", "accepted", "distinct_accepted", "panics", "stuck", "crashes")} | {"rules": x["rules"]} for x in drv],
            "samples": [s for x in drv for s in x["samples"]][:3],
        },
        "assumptions": c.get("assumptions", []) + [
            "machine arithmetic: usize/u8/u64 operations are checked for overflow by the verifier where they occur; a panic counts as non-acceptance, not as a violation",
            "unchecked Rust: the parser, clap, logging, threads and everything outside the functions listed under functions_under_contract",
        ] + ["assumed: " + a for a in sorted({a for r in results.values() for a in r.get("assumed", [])})] + [
            "bounded: the falsifier's random inputs are a search for failing inputs, never counted as proof",
        ],
        "wall_s": round(time.time() - T0, 1),
        "violations": len(viol) + len(failed),
    }
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as h:
        json.dump(ev, h, indent=1)
    if bad_probes:
        print("vacuous contracts: %s" % bad_probes, file=sys.stderr)
        sys.exit(2)
    for l in lines:
        print(l, flush=True)
    log("done: obligations", obligations, "discharged", discharged)
    sys.exit(1 if lines else 0)


main()

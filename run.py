#!/usr/bin/env python3
"""Driver of the property checks.

  run.py <ID>            decide one property (VERIF_SEED, VERIF_TIER from the environment)
  run.py --replay FILE   re-run one saved case
  run.py --setup         build every harness binary once

Exit 0: held on everything explored. Exit 1 + "VIOLATION property=.. replay=..":
broken. Exit 3: the check could not decide (build failure, time-out, ...).
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
EVID = os.path.join(HERE, "evidence")
sys.path.insert(0, HERE)
from checks import CHECKS, QUICK_SCALE  # noqa: E402

BUDGET = {"quick": 780, "thorough": 3300}


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    goroot = "/opt/veriftools/go1.27.3"
    e["GOROOT"] = goroot
    e["GOPATH"] = "/root/go"
    e["GOMODCACHE"] = "/root/go/pkg/mod"
    e["GOCACHE"] = "/root/.cache/go-build"
    e["PATH"] = goroot + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["GOTOOLCHAIN"] = "local"
    e["GOPROXY"] = "off"
    e["GOSUMDB"] = "off"
    e["GOWORK"] = "off"
    e["GOFLAGS"] = "-mod=readonly -buildvcs=false"
    for k in ("GOOS", "GOARCH", "CGO_ENABLED", "GODEBUG", "GOMAXPROCS", "GOGC", "GOEXPERIMENT"):
        e.pop(k, None)
    return e


def die(msg):
    print("CHECK-ERROR:", msg)
    sys.exit(3)


def build(pkg, race, out):
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if race:
        cmd.append("-race")
    cmd.append("./" + pkg)
    for attempt in (1, 2):
        p = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0 and os.path.exists(out):
            return
        time.sleep(1)
    die("build of %s failed:\n%s" % (pkg, p.stdout[-4000:]))


INFRA = re.compile(r"out of memory|cannot allocate memory|newosproc|failed to reserve|"
                   r"too many open files|no space left on device|test timed out|VERIF-INFRA|"
                   r"address already in use|can't assign requested address|verif: case")


def run_bin(binp, id_, outdir, e, timeout):
    os.makedirs(outdir, exist_ok=True)
    e = dict(e)
    e["VERIF_OUT"] = outdir
    e["GORACE"] = "halt_on_error=1 exitcode=66 atexit_sleep_ms=0"
    e["GOTRACEBACK"] = "all"
    log = os.path.join(outdir, "log.txt")
    with open(log, "w") as f:
        try:
            p = subprocess.Popen([binp, "-test.run", "^Test%s$" % id_, "-test.timeout", "0", "-test.v"],
                                 cwd=outdir, env=e, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
    text = open(log, errors="replace").read()
    return rc, text


def newest(files):
    files = sorted(files, key=os.path.getmtime)
    return files[-1] if files else None


def known_findings(id_):
    """[(key, text)] of the findings recorded (not repaired) for this property."""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == id_:
                out.append((m.group(2), m.group(3)))
    return out


def decide(rc, text, outdir):
    """-> (kind, message, replay) with kind ok | violation | hang | error"""
    reports = [json.load(open(f)) for f in glob.glob(os.path.join(outdir, "report-*.json"))]
    for r in reports:
        if r["failed"]:
            return "violation", "%s/%s: %s" % (r["property"], r["sub"], r["error"]), r["replay"]
    cur = newest(glob.glob(os.path.join(outdir, "current-*.json")))
    if rc == 0:
        bad = [r for r in reports if r.get("infra_error")]
        if bad or not reports:
            return "error", "no usable report: %s" % (bad or text[-2000:]), None
        return "ok", "", None
    if rc == "timeout":
        return "error", "the time budget ran out (inconclusive)", None
    if rc == 77:
        return "hang", text[:6000], cur
    if rc == 66 or "WARNING: DATA RACE" in text:
        i = text.find("WARNING: DATA RACE")
        return "violation", "data race\n" + text[i:i + 5000], cur
    if isinstance(rc, int) and rc < 0:
        return "error", "killed by signal %d\n%s" % (-rc, text[-1500:]), None
    if INFRA.search(text):
        return "error", text[-3000:], None
    m = re.search(r"^(panic: |fatal error: |unexpected fault|SIGSEGV).*", text, re.M)
    if m and cur:
        return "violation", "the process crashed\n" + text[m.start():m.start() + 5000], cur
    return "error", "unexplained failure rc=%r\n%s" % (rc, text[-4000:]), None


def check(id_):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    cfg = CHECKS[id_]
    os.makedirs(EVID, exist_ok=True)
    for f in glob.glob(os.path.join(EVID, "replay-%s-*" % id_)) + glob.glob(os.path.join(EVID, id_ + ".json")):
        os.remove(f)
    work = tempfile.mkdtemp(prefix="verif-%s-" % id_)
    rc = 3
    try:
        rc = check_in(id_, cfg, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check_in(id_, cfg, tier, seed, work, t0):
    binp = os.path.join(work, "bin.test")
    build(cfg["pkg"], cfg.get("race", False), binp)
    t_build = time.time() - t0
    kf = known_findings(id_)
    shards = cfg.get("shards", {}).get(tier, 3 if tier == "quick" else 8)
    e = env()
    e["VERIF_TIER"] = tier
    e["VERIF_KNOWN"] = ",".join(k for k, _ in kf)
    e["VERIF_REGRESS"] = os.path.join(HERE, "regress")
    e.pop("VERIF_REPLAY", None)
    if tier == "quick" and "VERIF_SCALE" not in e:
        e["VERIF_SCALE"] = str(QUICK_SCALE.get(id_, 1))
    deadline = t0 + BUDGET[tier]

    def shard(i):
        se = dict(e)
        se["VERIF_SEED"] = str((seed * 1000003 + i * 7919) & 0x7fffffffffff)
        if i:
            se.pop("VERIF_REGRESS", None)
        od = os.path.join(work, "shard%d" % i)
        r, text = run_bin(binp, id_, od, se, max(30, deadline - time.time()))
        return i, od, se, r, text

    with ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(shard, range(shards)))

    outcome, msg, replay = "ok", "", None
    errors = []
    for n, (i, od, se, r, text) in enumerate(res):
        kind, m, rp = decide(r, text, od)
        if kind == "hang":
            # a stuck case: decide by running it alone, twice the patience overall
            saved = os.path.join(work, "hang.json")
            if rp and os.path.exists(rp):
                shutil.copy(rp, saved)
                he = dict(se)
                he["VERIF_REPLAY"] = saved
                he["VERIF_REPLAY_N"] = "20"
                r2, t2 = run_bin(binp, id_, od + "-hang", he, 200)
                if r2 == 77:
                    kind, m, rp = "violation", "the case never finishes\n" + m, saved
                elif "VERIF-REPLAY-FAILED" in t2:
                    kind, m, rp = "violation", t2[-3000:], saved
                else:
                    # net/http itself loses an HTTP/2 answer once in a blue
                    # moon: all over again; a second time it is not chance
                    first = m
                    shutil.rmtree(od, ignore_errors=True)
                    i, od, se, r, text = res[n] = shard(i)
                    kind, m, rp = decide(r, text, od)
                    if kind == "hang":
                        kind, m = "violation", "cases get stuck again and again\n" + m
                    elif kind == "error":
                        m += "\nafter a case was stuck once\n" + first
            else:
                kind = "error"
        if kind == "violation" and outcome != "violation":
            outcome, msg, replay = kind, m, rp
        elif kind == "error":
            errors.append("shard %d: %s" % (i, m))
    if outcome != "violation" and errors:
        die("\n".join(errors)[:8000])

    # evidence
    evals = nontriv = regress = 0
    classes, known, rules, samples, hashes, subs = {}, {}, [], [], set(), {}
    for i, od, se, r, text in res:
        for f in sorted(glob.glob(os.path.join(od, "report-*.json"))):
            rep = json.load(open(f))
            sub = rep["sub"]
            evals += rep["evaluations"]
            nontriv += rep["nontrivial"]
            regress += rep["saved_cases_replayed"]
            s = subs.setdefault(sub, {"evaluations": 0, "nontrivial": 0, "classes": {}})
            s["evaluations"] += rep["evaluations"]
            s["nontrivial"] += rep["nontrivial"]
            for k, n in rep["classes"].items():
                s["classes"][k] = s["classes"].get(k, 0) + n
            for k, n in rep["known"].items():
                known[k] = known.get(k, 0) + n
            rule = "%s: %s" % (sub, rep["rule"])
            if rule not in rules:
                rules.append(rule)
            if i == 0:
                for smp in rep["samples"] or []:
                    samples.append({"sub": sub, "case": smp})
            hf = os.path.join(od, "hashes-%s-%s.bin" % (rep["property"], sub))
            if os.path.exists(hf):
                b = open(hf, "rb").read()
                for j in range(0, len(b), 12):
                    hashes.add((sub, b[j:j + 12]))
    ev = {
        "property": id_, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(hashes),
            "nontrivial": nontriv,
            "rule": " | ".join(rules),
            "samples": samples[:8],
            "per_subcheck": subs,
            "saved_cases_replayed": regress,
            "known_findings_seen": known,
            "processes": shards,
            "race_detector": bool(cfg.get("race", False)),
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if outcome == "violation" else 0,
    }
    if not ev["coverage"]["samples"] and outcome == "ok":
        ev["coverage"]["samples"] = ["(no sample small enough)"]
    with open(os.path.join(EVID, id_ + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k, text in kf:
        print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (id_, text, known.get(k, 0)))
    if outcome == "violation":
        dst = os.path.join(EVID, "replay-%s-1.json" % id_)
        if replay and os.path.exists(replay):
            shutil.copy(replay, dst)
        else:
            json.dump({"property": id_, "sub": "", "error": msg[:4000], "case": None}, open(dst, "w"))
        print(msg[:6000])
        print("VIOLATION property=%s replay=%s" % (id_, dst))
        return 1
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d build=%.1fs wall=%.1fs"
          % (id_, tier, seed, evals, len(hashes), t_build, time.time() - t0))
    return 0


def replay(path):
    rf = json.load(open(path))
    id_ = rf["property"]
    cfg = CHECKS[id_]
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        binp = os.path.join(work, "bin.test")
        build(cfg["pkg"], cfg.get("race", False), binp)
        e = env()
        e["VERIF_REPLAY"] = os.path.abspath(path)
        e["VERIF_REPLAY_N"] = os.environ.get("VERIF_REPLAY_N", "20" if cfg.get("race") else "1")
        e["VERIF_KNOWN"] = ",".join(k for k, _ in known_findings(id_))
        rc, text = run_bin(binp, id_, os.path.join(work, "o"), e, 600)
        print(text[-8000:])
        if rc == 0:
            sys.exit(0 if "VERIF-REPLAY-PASSED" in text else 3)
        if rc in (66, 77) or "VERIF-REPLAY-FAILED" in text or re.search(r"^(panic: |fatal error: )", text, re.M):
            print("VIOLATION property=%s replay=%s" % (id_, path))
            sys.exit(1)
        sys.exit(3)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    work = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        for pkg, race in sorted({(c["pkg"], c.get("race", False)) for c in CHECKS.values()}):
            t = time.time()
            build(pkg, race, os.path.join(work, "x.test"))
            print("built %s race=%s in %.1fs" % (pkg, race, time.time() - t))
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        replay(sys.argv[2])
    elif len(sys.argv) == 2 and sys.argv[1] == "--setup":
        setup()
    elif len(sys.argv) == 2 and sys.argv[1] in CHECKS:
        check(sys.argv[1])
    else:
        print(__doc__)
        sys.exit(2)

#!/usr/bin/env python3
"""check.py <ID>: run the check of a property (tier from VERIF_TIER or --tier).
check.py replay <file>...: run recorded cases again.

Exit 0: held on everything explored; 1: VIOLATION printed; 2: error of the check.
"""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
NCPU = os.cpu_count() or 4
sys.path.insert(0, HERE)


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"), HOME="/root")
    for k in list(e):
        if k.startswith("KIT_") or k.startswith("RAPID_") or k in ("GODEBUG", "GOMAXPROCS", "GOGC"):
            del e[k]
    return e


def package_of(prop):
    for line in open(os.path.join(HERE, "harness", "PACKAGES")):
        f = line.split()
        if f and f[0] == prop:
            return f[1], "race" in f[2:]
    die("unknown property " + prop)


def build(pkg, race, tmp, fuzz=False):
    """Builds the check binary of a package from the current tree of REPO."""
    # go.mod is copied, so that no go command ever rewrites the committed one
    mod = os.path.join(tmp, "go.mod")
    s = open(os.path.join(HERE, "harness", "go.mod")).read()
    s = s.replace("=> /repo", "=> " + REPO)
    open(mod, "w").write(s)
    shutil.copy(os.path.join(HERE, "harness", "go.sum"), os.path.join(tmp, "go.sum"))
    out = os.path.join(tmp, "fuzz.bin" if fuzz else "check.bin")
    cmd = ["go", "test", "-c", "-vet=off", "-modfile", mod, "-o", out]
    if race:
        cmd.append("-race")
    if fuzz:
        cmd.append("-fuzz=FuzzCheck")
    cmd.append("./" + pkg)
    p = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=goenv(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        die("build failed:\n" + p.stdout[-4000:])
    return out


def kit(binary, mode, prop, out, extra=None, args=(), procs=0, **kw):
    e = goenv()
    e.update(KIT_MODE=mode, KIT_PROP=prop, KIT_OUT=out)
    if procs:
        e["GOMAXPROCS"] = str(procs)
    e.update(extra or {})
    return subprocess.Popen([binary, "-test.run=^TestCheck$", "-test.timeout=0"] + list(args), env=e, cwd=os.path.dirname(binary),
                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True, **kw)


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def load(f):
    try:
        return json.load(open(f))
    except (OSError, ValueError):
        return None


def run_replay(binary, prop, files, tmp):
    out = os.path.join(tmp, "replay.json")
    p = kit(binary, "replay", prop, out, {"KIT_FILES": "\n".join(files)})
    try:
        _, err = p.communicate(timeout=400)
    except subprocess.TimeoutExpired:
        stop(p)
        die("replay did not end")
    r = load(out)
    if r is None:
        die("replay failed: " + err.decode(errors="replace")[-3000:])
    return r


def fuzz(prop, pkg, tmp, secs, binary):
    """Coverage-guided fuzzing: returns (case, fail) or None, and what it did."""
    b = build(pkg, False, tmp, fuzz=True)
    d = os.path.join(tmp, "fuzz")
    os.makedirs(d)
    e = goenv()
    e.update(KIT_MODE="fuzz", KIT_PROP=prop)
    args = [b, "-test.run=^$", "-test.fuzz=^FuzzCheck$", "-test.fuzzcachedir=" + os.path.join(d, "cache"), "-test.timeout=0",
            "-test.fuzztime=%ds" % secs, "-test.fuzzminimizetime=10x", "-test.parallel=%d" % NCPU]
    log = open(os.path.join(d, "log"), "w+")
    p = subprocess.Popen(args, env=e, cwd=d, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        p.wait(timeout=secs + 120)
    except subprocess.TimeoutExpired:
        pass
    stop(p)
    log.seek(0)
    text = log.read()
    did = {"seconds": secs, "executions": 0, "inputs_kept": 0}
    for m in re.finditer(r"execs: (\d+) .*\(total: (\d+)\)", text):
        did.update(executions=int(m[1]), inputs_kept=int(m[2]))
    for f in sorted(glob.glob(os.path.join(d, "testdata", "fuzz", "FuzzCheck", "*"))):
        # what was found counts if it fails as a case, too
        out = os.path.join(d, "case.json")
        e.update(KIT_MODE="case", KIT_OUT=out)
        try:
            subprocess.run([b, "-test.run=^FuzzCheck$/^%s$" % os.path.basename(f)], env=e, cwd=d, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=100)
        except subprocess.TimeoutExpired:
            continue
        case = load(out)
        if case is None:
            continue
        json.dump({"property": prop, "case": case}, open(out, "w"))
        for r in run_replay(binary, prop, [out], tmp):
            if r.get("fail"):
                return (case, r["fail"]), did
    return None, did


def known_findings(prop):
    f = os.path.join(HERE, "known_findings.txt")
    res = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def violation(prop, case, fail):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    import hashlib
    h = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]
    f = os.path.join(d, "%s-%s.json" % (prop, h))
    json.dump({"property": prop, "fail": fail, "case": case}, open(f, "w"), indent=1)
    print("--- %s\n%s" % (prop, fail[:3000]))
    print("VIOLATION property=%s replay=%s" % (prop, f), flush=True)


def main():
    a = sys.argv[1:]
    if not a:
        die(__doc__)
    if a[0] == "replay":
        bad = 0
        for f in a[1:]:
            doc = json.load(open(f))
            tmp = tempfile.mkdtemp(prefix="verif-")
            try:
                b = build(*package_of(doc["property"]), tmp)
                for r in run_replay(b, doc["property"], [os.path.abspath(f)], tmp):
                    print(json.dumps(r, indent=1).replace("\\n", "\n").replace("\\t", "\t"))
                    if r.get("fail"):
                        bad = 1
                        print("VIOLATION property=%s replay=%s" % (doc["property"], f))
            finally:
                shutil.rmtree(tmp)
        sys.exit(bad)
    if a[0] == "build":
        tmp = tempfile.mkdtemp(prefix="verif-")
        try:
            build(*package_of(a[1]), tmp)
        finally:
            shutil.rmtree(tmp)
        return
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    scale = float(os.environ.get("SCALE", "1"))
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = sum(ord(c) * 31 ** i for i, c in enumerate(os.environ["VERIF_SEED"])) % 2 ** 31
    t0 = time.time()
    pkg, race = package_of(prop)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    rc = 2
    try:
        rc = check(prop, pkg, race, tier, seed, scale, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def check(prop, pkg, race, tier, seed, scale, tmp, t0):
    tier_env = {"KIT_TIER": tier}
    binary = build(pkg, race, tmp)
    tb = time.time() - t0
    info_f = os.path.join(tmp, "info.json")
    kit(binary, "info", prop, info_f).communicate()
    info = load(info_f)
    if info is None:
        die("no info from the check binary")
    corpus = sorted(glob.glob(os.path.join(HERE, "corpus", prop, "*.json")))
    viol = None
    err = None
    ncorpus = 0
    if corpus:
        for r in run_replay(binary, prop, corpus, tmp):
            ncorpus += 1
            if r.get("fail"):
                viol = (json.load(open(r["file"]))["case"], r["fail"])
                break
            if r.get("err"):
                err = "corpus %s: %s" % (r["file"], r["err"])
    shards = info["shards"] or 6
    total = info["quick"] if tier == "quick" else info["deep"]
    total = max(shards, int(total * scale))
    if tier == "thorough":
        shards = max(shards, NCPU)
    stats = []
    if viol is None and err is None:
        limit = t0 + (780 if tier == "quick" else 3600)
        ps = []
        for i in range(shards):
            out = os.path.join(tmp, "shard%d.json" % i)
            s = (seed * 1000003 + i * 7919 + 12345) % (2 ** 63 - 1) or 1
            n = (total + shards - 1) // shards
            args = ["-rapid.seed=%d" % s, "-rapid.checks=%d" % n, "-rapid.nofailfile", "-rapid.shrinktime=15s"]
            # different numbers of processors: different schedules
            ps.append((out, kit(binary, "check", prop, out, tier_env, args, procs=(4, 1, 2, 8)[i % 4], )))
        failed_at = None
        while True:
            alive = [p for _, p in ps if p.poll() is None]
            if not alive:
                break
            now = time.time()
            if failed_at is None:
                for o, p in ps:
                    st = load(o) if p.poll() is not None else None
                    if st and st.get("fail"):
                        failed_at = now
            if now > limit or (failed_at is not None and now > failed_at + 1):
                for _, p in ps:
                    stop(p)
            time.sleep(0.05)
        for o, p in ps:
            e = p.stderr.read().decode(errors="replace")
            st = load(o)
            stop(p)  # its worker, if it is left
            if st is None:
                if failed_at is None:
                    err = err or "shard failed (exit %s): %s" % (p.returncode, e[-2000:])
                continue
            stats.append(st)
            if st.get("err"):
                err = err or st["err"] + "\ncase: " + json.dumps(st.get("case"))[:2000]
            if not st["done"] and failed_at is None:
                err = err or "time is up before all cases were run"
        fails = [s for s in stats if s.get("fail")]
        if fails:
            fails.sort(key=lambda s: len(json.dumps(s["case"])))
            viol = (fails[0]["case"], fails[0]["fail"])
    fuzzed = None
    if tier == "thorough" and info.get("fuzz") and not race and viol is None and err is None:
        viol, fuzzed = fuzz(prop, pkg, tmp, max(10, int(300 * scale)), binary)
    known = known_findings(prop)
    evals = sum(s["evals"] for s in stats) + ncorpus
    hashes = set()
    labels = {}
    samples = []
    for s in stats:
        hashes.update(s.get("hashes") or [])
        for k, v in (s.get("labels") or {}).items():
            labels[k] = labels.get(k, 0) + v
    for s in stats:
        for x in (s.get("samples") or []):
            if len(samples) < 6:
                samples.append(x)
    if not samples and viol:
        samples = [viol[0]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(hashes), "rule": info["rule"],
            "samples": samples, "classes": dict(sorted(labels.items())),
            "corpus_cases": ncorpus, "shards": len(stats), "race_detector": race,
        },
        "assumptions": ["the harness' models and the fake clock of testing/synctest are right",
                        "generated-input search: absence of violations is shown for the cases run only"],
        "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0,
    }
    if fuzzed:
        ev["coverage"]["coverage_guided"] = fuzzed
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    f = os.path.join(HERE, "evidence", prop + ".json")
    json.dump(ev, open(f + ".tmp", "w"), indent=1)
    os.replace(f + ".tmp", f)
    if viol:
        violation(prop, *viol)
        return 1
    if err:
        print("ERROR: " + err, flush=True)
        return 2
    for _, text in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    print("OK property=%s tier=%s cases=%d nontrivial=%d build=%.1fs wall=%.1fs" % (prop, tier, evals, len(hashes), tb, time.time() - t0))
    return 0


if __name__ == "__main__":
    main()

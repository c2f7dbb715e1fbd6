#!/usr/bin/env python3
"""check.py ID: decides one property on the present working tree of /repo.

Exit 0: the property held on everything explored; exit 1 with a VIOLATION line: it did not.
Environment: VERIF_TIER (quick|thorough), VERIF_SEED, VERIF_REPO (default /repo).
check.py ID --replay FILE runs the recorded case again.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402

ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=readonly", GOPROXY="off", CGO_ENABLED="0", GOWORK="off")
ENV.pop("GOOS", None)
ENV.pop("GOARCH", None)


def run(cmd, **kw):
    return subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_tool(scratch):
    """The instrumenting tool; built by setup_cmd, rebuilt here if it is not there."""
    src = os.path.join(VERIF, "tools", "instrument")
    tool = os.path.join(VERIF, "bin", "instrument")
    if os.path.exists(tool) and os.path.getmtime(tool) >= os.path.getmtime(os.path.join(src, "main.go")):
        return tool
    tool = os.path.join(scratch, "instrument")
    r = run(["go", "build", "-o", tool, "."], cwd=src)
    if r.returncode:
        sys.exit("cannot build the instrumenting tool:\n" + r.stdout)
    return tool


def build(pid, cfg, scratch, log):
    tool = build_tool(scratch)
    name = cfg.get("harness", pid.lower())
    hdir = os.path.join(VERIF, "harness", name)
    modes = {"full": [["-mem=true"], ["-mem=false"]], "sync": [["-mem=false"], ["-mem=true"]], "none": [["-none"]]}[cfg["mode"]]
    out = ""
    exe = os.path.join(scratch, "harness")
    for i, m in enumerate(modes):
        gen = os.path.join(scratch, "gen%d" % i)
        os.makedirs(gen)
        extra = ",".join("%s=%s" % (os.path.join(REPO, k), os.path.join(VERIF, "harness", v)) for k, v in cfg.get("extra", {}).items())
        if cfg.get("cmds"):
            m = m + ["-cmds"]
        r = run([tool, "-repo", REPO, "-out", gen, "-lib", os.path.join(VERIF, "lib"),
                 "-harness", "%s=%s" % (name, hdir), "-extra", extra] + m, cwd=REPO)
        out += r.stdout
        if r.returncode:
            continue
        if r.stdout.strip():
            log(r.stdout.strip())
        over = os.path.join(gen, "overlay.json")
        if cfg.get("test"):
            c = ["go", "test", "-c", "-vet=off", "-overlay", over, "-o", exe, cfg["test"]]
        else:
            c = ["go", "build", "-buildvcs=false", "-overlay", over, "-o", exe, "./verifrt/" + name]
        r = run(c, cwd=REPO)
        out += r.stdout
        if r.returncode == 0:
            if i:
                log("note: built with fallback mode %s" % m)
            if cfg.get("bin"):
                b = os.path.join(scratch, "wego")
                r = run(["go", "build", "-buildvcs=false", "-o", b, "."], cwd=REPO)
                os.chmod(scratch, 0o711)  # the binary runs as an unprivileged user
                if r.returncode:
                    sys.exit("cannot build wego:\n" + r.stdout)
            return exe, i > 0
    print(out[-6000:])
    print("cannot build the harness of %s against %s" % (pid, REPO))
    sys.exit(2)


def launch(exe, scratch, tag, args, test=False):
    out = os.path.join(scratch, "out-" + tag)
    d = os.path.join(scratch, "s-" + tag)
    os.makedirs(d, exist_ok=True)
    err = open(out + ".err", "w")
    env = dict(ENV, TMPDIR=d)
    p = subprocess.Popen([exe, "-out", out, "-scratch", d] + args, env=env, cwd=d, stdin=subprocess.DEVNULL, stdout=err, stderr=err, start_new_session=True)
    p.out, p.errf, p.t0 = out, out + ".err", time.time()
    return p


def finish(p, limit):
    try:
        p.wait(max(1, limit - (time.time() - p.t0)))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return None, "timed out"
    err = open(p.errf, errors="replace").read()
    if p.returncode == 0 and os.path.exists(p.out):
        return json.load(open(p.out)), err
    return None, err


CRASH = re.compile(r"^(fatal error: .*|panic: .*|runtime: .*)$", re.M)


def main():
    pid = sys.argv[1]
    cfg = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid.lower())
    code = 2
    try:
        code = decide(pid, cfg, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def decide(pid, cfg, tier, seed, scratch, t0):
    logs = []

    def log(s):
        logs.append(s)
        print(s)

    exe, degraded = build(pid, cfg, scratch, log)
    tbuild = time.time() - t0
    dl = cfg.get("deadline", {}).get(tier, 60 if tier == "quick" else 600)
    base = ["-tier", tier, "-seed", str(seed), "-deadline", str(dl)]
    if cfg.get("stall"):
        base += ["-stall", str(cfg["stall"] * (1 if tier == "quick" else 10))]
    elif tier != "quick":
        base += ["-stall", "900"]  # single cases are that much larger
    if cfg.get("bin"):
        base += ["-bin", os.path.join(scratch, "wego")]
    if "--replay" in sys.argv:
        f = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        p = launch(exe, scratch, "replay", base[:1] + [f["tier"]] + base[2:] + ["-only", str(f["index"]), "-v"])
        res, err = finish(p, dl + 300)
        print(err)
        print(json.dumps(res["violations"] if res else None, indent=1))
        return 1 if res is None or res["violations"] else 0
    n = cfg.get("shards", 8)
    ps = [launch(exe, scratch, "%d" % i, base + ["-shard", "%d/%d" % (i, n), "-claim", os.path.join(scratch, "claims"),
                                                  "-block", str(cfg.get("block", 1))]) for i in range(n)]
    results, viol, broken = [], [], []
    for i, p in enumerate(ps):
        res, err = finish(p, dl + 200)
        if res is None:
            idx = -1
            try:
                idx = int(open(p.out + ".cur").read().strip() or -1)
            except (OSError, ValueError):
                pass
            m = CRASH.search(err)
            broken.append((i, idx, m.group(1) if m else "", err))
            continue
        results.append(res)
        viol += res["violations"] or []
    # a process that died: run its last case alone; a crash of wego itself that repeats is a violation.
    notes = []
    for i, idx, head, err in broken:
        repeat, last = 0, err
        if idx >= 0 and head:
            for j in range(2):
                res, last = finish(launch(exe, scratch, "b%d-%d" % (i, j), base + ["-only", str(idx)]), dl + 100)
                if res is None and CRASH.search(last):
                    repeat += 1
        frames = [l for l in last.split("\n") if l.startswith("github.com/ynqa/wego/pkg/")]
        if repeat == 2 and frames:
            viol.append({"index": idx, "case": "case %d" % idx, "key": "crash",
                         "msg": "the process crashes: %s, in %s" % (CRASH.search(last).group(1), frames[0])})
        else:
            notes.append("process %d ended without a result (case %d): %s" % (i, idx, err[-1500:]))
    # confirm
    confirmed = []
    for v in sorted(viol, key=lambda v: v["index"])[:4]:
        same = 0
        if v["key"] in ("crash", "no-termination"):
            same = 1
        else:
            for j in range(5):
                res, _ = finish(launch(exe, scratch, "c%d-%d" % (v["index"], j), base + ["-only", str(v["index"])]), dl + 100)
                if res and any(w["key"] == v["key"] for w in res["violations"] or []):
                    same += 1
        v["confirmed"] = same
        if same:
            confirmed.append(v)
        else:
            notes.append("not reproduced, not reported: %s: %s" % (v["case"], v["msg"]))
        if len(confirmed) >= 2:
            break
    known = load_known()
    exitcode, lines = 0, []
    rdir = os.path.join(VERIF, "evidence", "replay")
    for v in confirmed:
        kf = next((k for k in known if k["property"] == pid and k["key"] == v["key"] and k.get("case") in (None, v["case"])), None)
        if kf:
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, kf["what"]))
            continue
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (pid, v["index"]))
        json.dump(dict(v, property=pid, tier=tier, seed=seed, how="python3 /verif/check.py %s --replay %s" % (pid, path)), open(path, "w"), indent=1)
        lines.append("case: %s\n  %s" % (v["case"], v["msg"]))
        for t in (v.get("trace") or [])[-30:]:
            lines.append("    " + t)
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        exitcode = 1
    tot = lambda k: sum(r[k] or 0 for r in results)
    nt, texts = {}, {}
    for r in results:
        for k, x in (r["notes"] or {}).items():
            nt[k] = nt.get(k, 0) + x
        texts.update(r["Text"] or {})
    exhaustive = bool(results) and len(results) == n and all(r["exhaustive"] for r in results) and not degraded
    cov = {
        "states": tot("states"), "transitions": tot("transitions"), "traces_validated_against_impl": tot("traces"),
        "samples": [s for r in results for s in (r["samples"] or [])][:6],
        "exhaustive": exhaustive, "cases": tot("cases"), "cases_not_run": tot("skipped"), "explorations_cut_short": tot("capped"),
        "executions_of_the_instrumented_code": tot("executions"), "pruned_as_equivalent": tot("pruned"),
        "longest_choice_sequence": max([r["max_choice_points"] for r in results] or [0]),
        "distinct_outcomes_per_process_sum": tot("distinct_outcomes"),
        "bounds": cfg["bounds"].get(tier, cfg["bounds"].get("quick")) if isinstance(cfg["bounds"], dict) else cfg["bounds"],
        "how": cfg["how"], "counted": nt, "facts": texts, "notes": notes, "processes": n, "build_s": round(tbuild, 1),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": sum(1 for l in lines if l.startswith("VIOLATION"))}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: cases %d, executions %d, states %d, transitions %d, histories checked %d, exhaustive %s, %.1f s" % (
        pid, tier, cov["cases"], cov["executions_of_the_instrumented_code"], cov["states"], cov["transitions"],
        cov["traces_validated_against_impl"], exhaustive, time.time() - t0))
    for x in notes:
        print("note:", x)
    for x in lines:
        print(x)
    if exitcode == 0 and not results:
        print("no process delivered a result")
        return 2
    return exitcode


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path)).get("known", [])


if __name__ == "__main__":
    main()

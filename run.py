#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--case CASE]

Builds the check of property ID from /repo's working tree, runs it, and reports:
exit 0 (held on everything explored), exit 1 with a VIOLATION line, exit 2 when
the check itself could not run (a build failure, say). Rewrites
evidence/ID.json. run.py is also what notices that the code under test killed
the checking process (os.Exit, a panic in a worker goroutine, a fatal runtime
error) or does not finish: the cases in flight are then re-run one by one, and
only a crash that happens again is reported."""
import argparse, concurrent.futures, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
MC = os.path.join(HERE, "mc")
REPO = "/repo"
# property -> command (under mc/cmd) and options
from checks import CHECKS  # noqa: E402

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["GOFLAGS"] = "-mod=mod -buildvcs=false"
    e["GOPROXY"] = "off"
    e["GOTOOLCHAIN"] = "local"
    e["GOWORK"] = "off"
    e["GONOSUMDB"] = "*"
    e["GONOSUMCHECK"] = "1"
    e["GOFLAGS"] = "-mod=mod -buildvcs=false"
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e["VERIF_REPO"] = REPO
    e["VERIF_HOME"] = HERE
    e.pop("GOMAXPROCS", None)
    return e

def build(tmp, target, out, race=False):
    # The module files are copied: a check leaves /verif as committed.
    cmd = ["go", "build", "-modfile", os.path.join(tmp, "go.mod"), "-o", out]
    if race:
        cmd.append("-race")
    cmd.append(target)
    r = subprocess.run(cmd, cwd=MC, env=env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout)
        log("cannot build", target)
        sys.exit(2)

def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if not LIM.get("race"):
        g = 1 << 30
        resource.setrlimit(resource.RLIMIT_AS, (24 * g, 24 * g))
    os.setsid()

LIM = {}

def run_all(shards, binary, prop, tier, outdir, name, budget, case, timeout, extra):
    """run, with the cases split over several processes; results are merged."""
    if shards <= 1 or case is not None:
        return run(binary, prop, tier, outdir, name, budget, case, timeout, extra)
    with concurrent.futures.ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(lambda i: run(binary, prop, tier, outdir, "%s.%d" % (name, i), budget,
                                       None, timeout, extra, "%d/%d" % (i, shards)), range(shards)))
    bad = [r for r in rs if r[0] != 0 or not r[1] or not r[1].get("done")]
    if bad:
        # A check that could not run comes first, then crashes and hangs.
        first = ([r for r in bad if r[0] == 77] or bad)[0]
        return first[0], None, first[2], first[3], [c for r in bad for c in r[4]]
    m = rs[0][1]
    for _, r, *_ in rs[1:]:
        for k in ("cases", "evaluations", "distinct_nontrivial", "states", "transitions", "traces",
                  "distinct_outcomes"):
            m[k] += r[k]
        m["samples"] = ((m.get("samples") or []) + (r.get("samples") or [])[:2])[:14]
        m["exhaustive"] = m["exhaustive"] and r["exhaustive"]
        m["violations"] = (m.get("violations") or []) + (r.get("violations") or [])
        for k, v in (r.get("extra") or {}).items():
            m["extra"] = m.get("extra") or {}
            m["extra"][k] = m["extra"].get(k, 0) + v
    # Shards may see the same outcome or state: the largest count is a lower bound.
    for k in ("states", "distinct_outcomes"):
        if m.get(k):
            m[k] = len(set(h for _, r, *_ in rs for h in (r.get(k + "_set") or []))) or m[k]
    return 0, m, rs[0][2], rs[0][3], []

def run(binary, prop, tier, outdir, name, budget, case=None, timeout=None, extra=None, shard=None):
    out = os.path.join(outdir, name + ".json")
    cmd = [binary, "-prop", prop, "-tier", tier, "-out", out, "-budget", str(budget)]
    if case is not None:
        cmd += ["-case", case]
    if shard is not None:
        cmd += ["-shard", shard]
    err = os.path.join(outdir, name + ".stderr")
    e = env()
    e.update(extra or {})
    with open(err, "wb") as ef:
        p = subprocess.Popen(cmd, cwd=outdir, env=e, stdout=ef, stderr=ef,
                             stdin=subprocess.DEVNULL, preexec_fn=limits)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = "timeout"
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
    tail = open(err, "rb").read()[-6000:].decode("utf-8", "replace")
    head = open(err, "rb").read()[:3000].decode("utf-8", "replace")
    inflight, hung = [], []
    jp = out + ".journal"
    if os.path.exists(jp):
        for line in open(jp, errors="replace"):
            k, _, c = line.rstrip("\n").partition(" ")
            if k == "S":
                inflight.append(c)
            elif k == "E" and c in inflight:
                inflight.remove(c)
            elif k == "H":
                hung.append(c)
    return rc, res, head, tail, (hung or inflight)

def findings(prop):
    """finding lines of KNOWN_FINDINGS.txt: finding: property=ID case=CASE match=REGEX | what"""
    fs = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    for line in open(path):
        m = re.match(r"finding: property=(\S+) case=(\S+) match=(.*?) \| (.*)$", line.strip())
        if m and m.group(1) == prop:
            fs.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return fs

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    spec = CHECKS[prop]
    budget = a.budget or (200 if tier == "quick" else 600)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        code = check(prop, tier, spec, budget, t0, tmp, a.case)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)

def check(prop, tier, spec, budget, t0, tmp, only):
    shutil.copy(os.path.join(MC, "go.mod"), os.path.join(tmp, "go.mod"))
    shutil.copy(os.path.join(MC, "go.sum"), os.path.join(tmp, "go.sum"))
    mod = open(os.path.join(tmp, "go.mod")).read().replace("./stubs/table", os.path.join(MC, "stubs/table"))
    open(os.path.join(tmp, "go.mod"), "w").write(mod)
    binary = os.path.join(tmp, "check")
    build(tmp, "./cmd/" + spec["cmd"], binary)
    extra = {}
    if spec.get("cli"):
        extra["VERIF_CLI"] = os.path.join(tmp, "gotetra")
        build(tmp, "github.com/phil-mansfield/gotetra/render/main", extra["VERIF_CLI"])
    if spec.get("race"):
        extra["VERIF_RACE_BIN"] = os.path.join(tmp, "racecheck")
        build(tmp, "./cmd/" + spec["race"], extra["VERIF_RACE_BIN"], race=True)
        LIM["race"] = True
    hard = budget + 150
    shards = spec.get("shards", 1)
    viol = []
    rc, res, head, tail, infl = run_all(shards, binary, prop, tier, tmp, "main", budget, only, hard, extra)
    log_tail = tail
    if rc == 77:
        log(head); log(tail)
        log("the check could not run")
        return 2
    if rc == 0 and res and res.get("done"):
        viol = res.get("violations") or []
        shaky = [v for v in viol if v["reproduced_of_5"] == 0]
        viol = [v for v in viol if v["reproduced_of_5"] > 0]
        if shaky and not viol:
            # Did not come back in the same process: once more from the start.
            log("unreproduced:", json.dumps(shaky)[:2000])
            rc2, res2, *_ = run_all(shards, binary, prop, tier, tmp, "again", budget, only, hard, extra)
            ids = {v["case"] for v in shaky}
            if res2:
                viol = [v for v in (res2.get("violations") or [])
                        if v["reproduced_of_5"] > 0 or v["case"] in ids]
            elif rc2 != 0:
                viol = shaky
    else:
        # The process died or hung. Which case did it?
        log(head); log(tail)
        log("checking process ended with", rc, "in flight:", infl)
        for i, c in enumerate(infl[:16]):
            rc2, res2, h2, t2, _ = run(binary, prop, tier, tmp, "c%d" % i, budget, c, 300, extra)
            if rc2 == 77:
                continue
            if rc2 != 0:
                why = "does not finish" if rc2 in (4, "timeout") else "kills the process (status %s)" % rc2
                viol.append({"case": c, "msgs": [why, (h2 or t2)[:1500]], "reproduced_of_5": 1})
            elif res2 and res2.get("violations"):
                viol += res2["violations"]
            if viol:
                break
        if not viol:
            rc2, res2, h2, t2, infl2 = run_all(shards, binary, prop, tier, tmp, "again", budget, only, hard, extra)
            if rc2 == 0 and res2:
                res, viol = res2, [v for v in res2.get("violations") or [] if v["reproduced_of_5"] > 0]
            elif rc2 == 77:
                log(t2)
                return 2
            else:
                viol.append({"case": (infl2 or infl or ["?"])[0],
                             "msgs": ["the checking process ends with status %s, twice" % rc2, (h2 or t2)[:1500]],
                             "reproduced_of_5": 1})
        if not res:
            res = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [],
                   "exhaustive": False, "cases": 0}
    # Listed findings are not alarms; anything else is.
    known, fresh = [], []
    fs = findings(prop)
    for v in viol:
        hit = None
        for case, rx, what in fs:
            if v["case"] == case and v["msgs"] and all(rx.search(m) for m in v["msgs"]):
                hit = what
        (known if hit else fresh).append((v, hit))
    for v, what in known:
        print("KNOWN-FINDING: property=%s case=%s %s" % (prop, v["case"], what))
    edir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(edir, "replay"), exist_ok=True)
    for f in os.listdir(os.path.join(edir, "replay")):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(edir, "replay", f))
    for i, (v, _) in enumerate(fresh[:5]):
        rp = os.path.join(edir, "replay", "%s-%d.json" % (prop, i))
        json.dump({"property": prop, "case": v["case"], "what": v["msgs"],
                   "reproduced_of_5": v["reproduced_of_5"],
                   "replay": "python3 %s/run.py %s --tier %s --case '%s'" % (HERE, prop, tier, v["case"])},
                  open(rp, "w"), indent=1)
        print("case %s: %s" % (v["case"], " | ".join(v["msgs"])[:1200]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    if only is None:
        evidence(prop, tier, spec, res, len(fresh), time.time() - t0, edir)
    if not fresh:
        print("%s %s: %d cases, %d evaluations, exhaustive=%s, %.1f s" % (
            prop, tier, res.get("cases", 0), res.get("evaluations", 0), res.get("exhaustive"), time.time() - t0))
    return 1 if fresh else 0

def evidence(prop, tier, spec, res, nviol, wall, edir):
    cov = {"exhaustive": bool(res.get("exhaustive")), "cases": res.get("cases", 0),
           "samples": (res.get("samples") or [])[:12], "rule": res.get("rule", "")}
    if spec["level"] == "model_checking":
        cov.update(states=res.get("states", 0), transitions=res.get("transitions", 0),
                   traces_validated_against_impl=res.get("traces", 0))
        if res.get("evaluations"):
            cov["oracle_comparisons"] = res["evaluations"]
    else:
        cov.update(evaluations=res.get("evaluations", 0),
                   distinct_nontrivial=res.get("distinct_nontrivial", 0))
    if res.get("distinct_outcomes"):
        cov["distinct_outcomes"] = res["distinct_outcomes"]
    for k, v in (res.get("extra") or {}).items():
        cov[k] = v
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": spec["level"], "coverage": cov,
          "assumptions": res.get("assumptions") or [],
          "wall_s": round(wall, 2), "violations": nviol}
    with open(os.path.join(edir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough [--keep DIR] [--scenario NAME]

Builds the instrumented copy of /repo with the property's harness, explores all
its scenarios, confirms violations by replaying them in fresh processes, and
writes evidence/PROPERTY.json.  Exit 0: nothing violated; 1: VIOLATION printed;
2: the check itself failed.
"""
import json, os, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
BUDGET = {"quick": 55.0, "thorough": 420.0}
WORKERS = 8

def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off")
    e.setdefault("HOME", "/root")
    e["GOGC"] = "1600"
    e["GOMEMLIMIT"] = "1500MiB"
    return e

def sh(cmd, timeout=None, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env(),
                         start_new_session=True, errors="replace", **kw)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return 124, out, err
    return p.returncode, out, err

def main():
    prop, tier = sys.argv[1], sys.argv[2]
    opts = sys.argv[3:]
    keep = opts[opts.index("--keep") + 1] if "--keep" in opts else None
    only = opts[opts.index("--scenario") + 1] if "--scenario" in opts else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    w = keep or tempfile.mkdtemp(prefix="vmc.", dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        return run(prop, tier, only, seed, t0, w)
    finally:
        if not keep:
            shutil.rmtree(w, ignore_errors=True)

def run(prop, tier, only, seed, t0, w):
    rc, out, err = sh([os.path.join(V, "build_mc.sh"), w], timeout=600)
    if rc != 0:
        sys.stderr.write(out + err + "\ncheck: instrumentation failed\n")
        return 2
    binf = os.path.join(w, "h.bin")
    rc, out, err = sh(["go", "build", "-o", binf, "./vh/" + prop.lower()], cwd=w, timeout=600)
    if rc != 0:
        sys.stderr.write(out + err + "\ncheck: build failed\n")
        return 2
    build_s = time.time() - t0
    known = os.path.join(V, "known_findings.json")
    rc, out, err = sh([binf, "-list", "-tier", tier], timeout=60)
    if rc != 0:
        sys.stderr.write(out + err)
        return 2
    scens = []
    for l in out.splitlines():
        n, wt = l.split("\t")
        if only is None or n == only:
            scens.append((n, float(wt)))
    budget = float(os.environ.get("VERIF_BUDGET", BUDGET[tier]))
    workers = min(WORKERS, len(scens))
    total = budget * workers
    left = list(scens)
    limits = {}
    # share the time, nobody more than the budget
    sw = sum(x for _, x in left)
    for n, x in left:
        limits[n] = max(2.0, min(budget, total * x / sw))

    def one(sc):
        n = sc[0]
        outf = os.path.join(w, "out." + n.replace("/", "_") + ".json")
        rc, out, err = sh([binf, "-run", n, "-tier", tier, "-secs", str(limits[n]), "-out", outf, "-known", known],
                          timeout=limits[n] + 150, cwd=w)
        try:
            return json.load(open(outf))
        except Exception:
            return {"scenario": n, "what": "", "executions": 0, "states": 0, "transitions": 0, "exhaustive": False,
                    "bound": -1, "samples": [], "wall": 0, "crash": True,
                    "error": "process ended with status %d: %s" % (rc, (err or out)[:1500])}

    results = []
    with ThreadPoolExecutor(workers) as ex:
        results = list(ex.map(one, sorted(scens, key=lambda s: -s[1])))
    status = 0
    nviol = 0
    notes = []
    kn = {}
    for r in results:
        for k, c in (r.get("known") or {}).items():
            kn.setdefault(k, [0, r["known_msg"][k]])[0] += c
        v = r.get("violation")
        if r.get("crash") and "fatal error: " in (r.get("error") or ""):
            # the code under test brought the process down (stack overflow, memory)
            e2 = one((r["scenario"], 1))
            if e2.get("crash") and "fatal error: " in e2["error"]:
                f = e2["error"][e2["error"].index("fatal error: "):].splitlines()[0]
                path = save(prop, {"property": prop, "scenario": r["scenario"], "tier": tier, "crash": f, "stderr": e2["error"]})
                print("%s: %s" % (r["scenario"], f))
                print("VIOLATION property=%s replay=%s" % (prop, path))
                nviol += 1
                status = 1
                continue
        if not v:
            if r.get("error"):
                notes.append("%s: %s" % (r["scenario"], r["error"].splitlines()[0] if r["error"] else ""))
            continue
        rep = {"property": prop, "scenario": r["scenario"], "violation": v}
        rf = os.path.join(w, "replay.json")
        json.dump(rep, open(rf, "w"))
        n = 1 if v["kind"] == "hang" else 5
        oks = []
        with ThreadPoolExecutor(n) as ex:
            oks = list(ex.map(lambda _: sh([binf, "-replay", rf], timeout=300, cwd=w), range(n)))
        if all(rc == 1 for rc, _, _ in oks):
            path = save(prop, rep)
            print("%s: %s: %s" % (r["scenario"], v["kind"], v["msg"]))
            if v.get("case"):
                print("  case: " + v["case"])
            for l in (v.get("trace") or [])[-25:]:
                print("    " + l)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            nviol += 1
            status = 1
        else:
            notes.append("%s: not reproducible (%s), ignored: %s: %s" % (r["scenario"], [rc for rc, _, _ in oks], v["kind"], v["msg"][:300]))
    for k, (c, msg) in sorted(kn.items()):
        print("KNOWN-FINDING: property=%s %s: %s (%d executions)" % (prop, k, msg, c))
    ex = sum(r["executions"] for r in results)
    for n in notes:
        sys.stderr.write("note: " + n + "\n")
    if status == 0 and (ex == 0 or len(notes) == len(results)):
        sys.stderr.write("check: nothing was explored\n")
        status = 2
    samples = []
    for r in results:
        for x in (r.get("samples") or [])[:4]:
            samples.append("%s: %s" % (r["scenario"], x))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r["states"] for r in results),
            "transitions": sum(r["transitions"] for r in results),
            "traces_validated_against_impl": ex,
            "samples": samples[:60],
            "exhaustive": all(r["exhaustive"] for r in results) and not notes,
            "rule": "every trace is an execution of the instrumented implementation itself (no separate model to bind): schedules up to commutation of independent operations, all environment choices, or all operation sequences within the stated bounds; states: nodes of the execution tree (schedules) or distinct states of the reference specification (sequences)",
            "scenarios": [{k: r.get(k) for k in ("scenario", "what", "kind", "executions", "cut", "states", "transitions", "outcomes", "exhaustive", "bound", "threads", "longest", "wall", "error", "known") if r.get(k) not in (None, "")} for r in results],
            "distinct_outcomes": sum(r.get("outcomes", 0) for r in results),
            "notes": notes,
            "build_s": round(build_s, 1),
        },
        "assumptions": [
            "mc runtime semantics of Go synchronisation, channels, timers and the listed environment operations (DESIGN.md, Trusted base)",
            "sequentially consistent memory; data races are reported separately where race detection is on",
            "where exhaustive is false for a scenario, only the stated deviation bound or the explored prefix is covered",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    p = os.path.join(V, "evidence", prop + ".json")
    json.dump(ev, open(p + ".tmp", "w"), indent=1)
    os.replace(p + ".tmp", p)
    print("%s %s: %d scenarios, %d executions, %d states, %d transitions, exhaustive=%s, %.1fs" % (
        prop, tier, len(results), ex, ev["coverage"]["states"], ev["coverage"]["transitions"], ev["coverage"]["exhaustive"], ev["wall_s"]))
    return status

def save(prop, d):
    os.makedirs(os.path.join(V, "evidence", "replay"), exist_ok=True)
    p = os.path.join(V, "evidence", "replay", "%s.json" % prop)
    json.dump(d, open(p, "w"), indent=1)
    return p

if __name__ == "__main__":
    sys.exit(main())

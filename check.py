#!/usr/bin/env python3
"""Runs the check of one property:  check.py C07 [--tier quick|thorough] [--replay FILE]

 1. TLC explores the area's specification exhaustively for small constants (MC_*).
 2. TLC generates scenarios (histories of public calls with arguments) from Gen_*.
 3. The driver replays them on the real code of /repo and records an ndjson trace.
 4. TLC checks that every recorded event is one the specification allows (Tr_*).
Exit 0: held on everything explored; 1: violation (line VIOLATION ...); 2: the machinery failed.
"""
import argparse, concurrent.futures as cf, fcntl, glob, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FV_REPO", "/repo")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CLASSES = os.path.join(V, "build", "classes")
PARTS = int(os.environ.get("FV_PARTS", "8"))

sys.path.insert(0, os.path.join(V, "tools"))
from areas import AREA, CHECKS  # noqa: E402


class MachineryError(Exception):
    pass


def build_classes():
    src = sorted(glob.glob(os.path.join(V, "java", "fv", "*.java")))
    os.makedirs(os.path.join(V, "build"), exist_ok=True)
    with open(os.path.join(V, "build", "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(CLASSES, "fv", "RatOps.class")
        if os.path.exists(stamp) and all(os.path.getmtime(stamp) >= os.path.getmtime(s) for s in src):
            return
        os.makedirs(CLASSES, exist_ok=True)
        r = subprocess.run(["javac", "-nowarn", "-d", CLASSES, "-cp", JARS] + src, capture_output=True, text=True)
        if r.returncode:
            raise MachineryError("javac: " + r.stderr[-2000:])


def tlc(module, cfg, meta, env=None, timeout=800, workers=1, heap="3g"):
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-Dtlc2.tool.queue.IStateQueue=MemStateQueue",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:fv.Overrides",
           "-Djava.io.tmpdir=" + meta,
           "-cp", CLASSES + ":" + JARS, "tlc2.TLC", "-noGenerateSpecTE", "-lncheck", "final", "-workers", str(workers), "-metadir", meta,
           "-config", cfg, module]
    os.makedirs(meta, exist_ok=True)
    log = os.path.join(meta, "log.txt")
    p = None
    try:
        with open(log, "w") as f:
            p = subprocess.Popen(cmd, cwd=os.path.join(V, "spec"), env=e, stdout=f, stderr=subprocess.STDOUT)
            t0 = time.time()
            errs = None
            while True:
                try:
                    rc = p.wait(timeout=2)
                    break
                except subprocess.TimeoutExpired:
                    pass
                # after an evaluation error TLC evaluates the step again to find out where it occurred; with large values that takes for ever
                if errs is None and re.search(r"^Error: ", open(log, errors="replace").read(), re.M):
                    errs = time.time()
                if errs is not None and time.time() - errs > 20:
                    p.kill(); p.wait()
                    rc = 75
                    break
                if time.time() - t0 > timeout:
                    raise MachineryError("TLC timed out on %s (%s)" % (module, cfg))
        out = open(log, errors="replace").read()
    finally:
        if p is not None and p.poll() is None:
            p.kill(); p.wait()
        shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][1].replace(",", "")), int(m[-1][0].replace(",", ""))


def mc_run(args):
    module, cfg, work, workers = args[:4]
    expect = args[4] if len(args) > 4 else None      # a deliberately wrong variant: this property must be violated
    t = time.time()
    rc, out = tlc(module + ".tla", cfg + ".cfg", os.path.join(work, "mc_" + cfg), workers=workers)
    if expect:
        if not re.search(r"(property|Invariant) %s is violated" % expect, out):
            raise MachineryError("the faulty variant %s was not refuted:\n%s" % (cfg, out[-3000:]))
    elif rc or "No error has been found" not in out:
        raise MachineryError("model checking of %s/%s failed (rc %d):\n%s" % (module, cfg, rc, out[-3000:]))
    s, tr = counts(out)
    return {"model": cfg + (" (faulty variant, refuted)" if expect else ""), "states": s, "transitions": tr, "s": round(time.time() - t, 1)}


def driver_env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=REPO, MPLBACKEND="Agg", CUDA_VISIBLE_DEVICES="-1", TF_CPP_MIN_LOG_LEVEL="3",
             OMP_NUM_THREADS="1", TF_NUM_INTRAOP_THREADS="1", TF_NUM_INTEROP_THREADS="1", PYTHONHASHSEED="0")
    return e


def shard(a):
    """generate -> drive -> validate one share of the scenarios"""
    area, pid, work, part, parts, k, seed, tier, scen = a
    res = {"part": part, "t": {}}
    t = time.time()
    if scen is None:
        scen = os.path.join(work, "scen%d.jsonl" % part)
        rc, out = tlc("Gen_%s.tla" % area["gen"], "Gen.cfg", os.path.join(work, "g%d" % part),
                      dict(SEED=seed, K=k, PROP=pid, TIER=tier, OUT=scen, PART=part, PARTS=parts))
        if rc or not os.path.exists(scen):
            raise MachineryError("scenario generation failed:\n" + out[-3000:])
    res["scen"] = scen
    res["t"]["gen"] = round(time.time() - t, 1); t = time.time()
    trace = os.path.join(work, "trace%d.ndjson" % part)
    env = driver_env()
    env["FV_TIER"] = tier
    try:
        r = subprocess.run([PY, os.path.join(V, "driver", "drive.py"), scen, trace, area["drv"]], env=env, cwd=work,
                           capture_output=True, text=True, timeout=3000 if tier == "thorough" else 500)
    except subprocess.TimeoutExpired:
        raise MachineryError("driver timed out")
    if r.returncode:
        raise MachineryError("driver failed:\n" + r.stderr[-3000:])
    res["t"]["drive"] = round(time.time() - t, 1); t = time.time()
    evs = [json.loads(x) for x in open(trace)]
    res["events"] = {}
    for e in evs:
        key = e["op"] + ("" if e.get("ok", True) else " (refused)")
        res["events"][key] = res["events"].get(key, 0) + 1
    res["scenarios"] = res["events"].get("start", 0)
    verdict = os.path.join(work, "verdict%d.json" % part)
    res["bad"] = []
    if evs:
        rc, out = tlc("Tr_%s.tla" % area["tr"], "Tr.cfg", os.path.join(work, "v%d" % part),
                      dict(PROP=pid, TRACE=trace, OUT=verdict), timeout=3000 if tier == "thorough" else 600)
        s, tr = counts(out)
        if rc == 0 and os.path.exists(verdict):
            v = json.load(open(verdict))
            res["bad"] = v["bad"]
            if v["events"] != len(evs):
                raise MachineryError("trace length mismatch")
        else:
            ls = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
            m = re.search(r"Error: (.*(?:\n.*){0,12})", out)
            if "Error:" in out and ls and int(ls[-1]) <= len(evs):
                line = max(int(x) for x in ls)
                e = evs[line - 1]
                if os.environ.get("FV_DEBUG"):
                    print(out[:200], m.group(1)[:1500] if m else "", flush=True)
                res["bad"] = [{"line": line, "sid": e["sid"], "op": e["op"], "prop": pid,
                               "clause": "no transition of the specification explains the recorded event"}]
                res["tlcerr"] = out[-4000:]
            else:
                raise MachineryError("trace validation failed (rc %d):\n%s" % (rc, out[-4000:]))
        res["states"], res["transitions"] = s, tr
    for b in res["bad"]:
        b["part"] = part
        e = evs[b["line"] - 1]
        b["detail"] = ("raised %s: %s" % (e.get("exc"), e.get("msg"))) if e.get("exc") else ""
    res["t"]["validate"] = round(time.time() - t, 1)
    return res


def short(o, depth=0):
    if isinstance(o, dict):
        return {k: short(v, depth + 1) for k, v in o.items()}
    if isinstance(o, list):
        if len(o) > 8:
            return [short(v, depth + 1) for v in o[:6]] + ["... %d entries" % len(o)]
        return [short(v, depth + 1) for v in o]
    return o


def known_findings(pid):
    p = os.path.join(V, "known-findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            if line.strip() and not line.startswith("#"):
                d = json.loads(line)
                if d.get("status") == "known" and d.get("property") == pid:
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--setup", action="store_true", help="compile the Java arithmetic")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("-k", type=int)
    ap.add_argument("--nomc", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.setup:
        build_classes()
        return
    pid = a.pid
    chk = CHECKS[pid]
    area = AREA[chk["area"]]
    seed = a.seed % 1000003
    build_classes()
    tag = pid + ("" if not os.environ.get("FV_TAG") else "." + os.environ["FV_TAG"])
    work = os.path.join(V, "build", "run", tag)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    k = a.k or chk["k"][0 if a.tier == "quick" else 1]
    mcs = [] if (a.nomc or a.replay) else [("RatCheck", "RatCheck")] + [tuple(m) for m in chk.get("mc", area["mc"])[a.tier]]
    shards = []
    if a.replay:
        shards = [(area, pid, work, 0, 1, 0, seed, a.tier, os.path.abspath(a.replay))]
    else:
        parts = max(1, min(PARTS, k))
        shards = [(area, pid, work, p, parts, k, seed, a.tier, None) for p in range(parts)]
    with cf.ThreadPoolExecutor(PARTS + 2) as ex:
        fm = [ex.submit(mc_run, (m[0], m[1], work, 2) + tuple(m[2:])) for m in mcs]
        fs = [ex.submit(shard, s) for s in shards]
        mres = [f.result() for f in fm]
        sres = [f.result() for f in fs]
    bad = [b for r in sres for b in r["bad"]]
    events = {}
    for r in sres:
        for kk, n in r["events"].items():
            events[kk] = events.get(kk, 0) + n
    nscen = sum(r["scenarios"] for r in sres)
    # a run that exercised nothing decides nothing
    need = chk.get("need", [])
    missing = [o for o in need if not any(kk == o for kk in events)]
    if missing and not bad and not a.replay:
        raise MachineryError("operations never exercised: %s" % missing)
    samples = []
    for r in sres[:2]:
        for line in list(open(r["scen"]))[:2]:
            samples.append(short(json.loads(line)))
    # known findings
    known = known_findings(pid)
    knownhit = {}
    rest = []
    for b in bad:
        for i, f in enumerate(known):
            if re.search(f["match"]["op"], b["op"]) and re.search(f["match"]["clause"], b["clause"]) and re.search(f["match"].get("detail", ""), b["detail"]):
                knownhit[i] = b
                break
        else:
            rest.append(b)
    for i, f in enumerate(known):
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    cov = {
        "states": sum(m["states"] for m in mres) + sum(r.get("states", 0) for r in sres),
        "transitions": sum(m["transitions"] for m in mres) + sum(r.get("transitions", 0) for r in sres),
        "traces_validated_against_impl": nscen,
        "samples": samples,
        "explanation": "models checked exhaustively: %s; recorded events validated: %s" % (json.dumps(mres), json.dumps(events)),
    }
    ev = {"property": pid, "tier": a.tier, "seed": a.seed, "level": "model_checking", "coverage": cov,
          "assumptions": area["assumptions"], "wall_s": round(time.time() - t0, 1), "violations": len(rest)}
    if not a.replay:
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    stages = {s: max(r["t"].get(s, 0) for r in sres) for s in ("gen", "drive", "validate")}
    print("%s %s seed=%d: %d scenarios, %d events, models %s, stages %s, %.1f s" % (
        pid, a.tier, a.seed, nscen, sum(events.values()), [(m["model"], m["states"], m["s"]) for m in mres], stages, time.time() - t0))
    if rest:
        rd = os.path.join(V, "build", "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%d.jsonl" % (tag, a.seed))
        first = {}
        for b in rest:
            first.setdefault((b["part"], b["sid"]), []).append(b)
        lines = []
        for r in sres:
            for line in open(r["scen"]):
                if line.strip() and (r["part"], json.loads(line)["id"]) in first:
                    lines.append(line)
        if not (a.replay and os.path.abspath(a.replay) == path):
            with open(path, "w") as f:
                f.writelines(lines[:20])
        seen = {}
        for b in rest:
            seen.setdefault((b["op"], b["clause"], b["detail"][:80]), []).append(b["sid"])
        for (o, c, d), sids in list(seen.items())[:12]:
            print("  %s: %s [%d scenario(s), e.g. %s] %s" % (o, c, len(set(sids)), sids[0], d))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    if not os.environ.get("FV_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except MachineryError as e:
        print("CHECK-ERROR: %s" % e)
        sys.exit(2)

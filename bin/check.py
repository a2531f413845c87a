#!/usr/bin/env python3
"""Decides one property: TLC generates histories from the specification, the driver replays them on the
library in /repo, TLC validates the recorded traces against the specification.

usage: check.py ID [--tier quick|thorough] [--replay FILE] [--setup]
"""
import sys, os, json, re, time, shutil, subprocess, tempfile, hashlib, glob
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = os.path.join(VERIF, "tla")
PY = os.environ.get("ROCK_PYTHON", "/opt/venv/bin/python")
TOOLS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(VERIF, "bin"))
from plans import plan_of


class Machinery(Exception):
    pass


# ------------------------------------------------------------------ the real-number kernel of TLC
def kernel():
    src = sorted(glob.glob(os.path.join(VERIF, "java", "*.java")))
    h = hashlib.sha256()
    for p in src:
        h.update(open(p, "rb").read())
    out = os.path.join(VERIF, ".build", h.hexdigest()[:16])
    if not os.path.exists(os.path.join(out, "RealKOverrides.class")):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = tempfile.mkdtemp(dir=os.path.dirname(out))
        p = subprocess.run(["javac", "-nowarn", "-cp", TOOLS.split(":")[0], "-d", tmp] + src, capture_output=True, text=True)
        if p.returncode:
            raise Machinery("javac: " + p.stderr[-2000:])
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def tlc(classes, module, scratch, props, workers=1, timeout=1500, cfg=None, extra=()):
    """Runs TLC; -> dict(ok, states, distinct, depth, out)"""
    meta = tempfile.mkdtemp(prefix="md", dir=scratch)
    cmd = ["java", "-Xss64m", "-Xmx2500m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4",
           "-Djava.io.tmpdir=" + meta,
           "-Dtlc2.overrides.TLCOverrides=RealKOverrides:tlc2.overrides.TLCOverrides"]
    cmd += ["-D%s=%s" % kv for kv in props.items()]
    cmd += ["-cp", classes + ":" + TOOLS, "tlc2.TLC", "-deadlock", "-nowarning", "-workers", str(workers), "-metadir", meta,
            "-config", os.path.join(TLA, (cfg or module) + ".cfg"), *extra, os.path.join(TLA, module + ".tla")]
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=meta)
        out, rc = p.stdout + p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = ((e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")) + "\nTIMEOUT", -1
    shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r"(\d+) states generated, (\d+) distinct", out)
    d = re.search(r"depth of the complete state graph search is (\d+)", out)
    return dict(ok=rc == 0 and "No error has been found" in out, rc=rc, out=out, secs=time.time() - t,
                states=int(m.group(1)) if m else 0, distinct=int(m.group(2)) if m else 0, depth=int(d.group(1)) if d else 0)


# ------------------------------------------------------------------ the library
def driver(calls, trace, scratch, pristine, timeout):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               MPLCONFIGDIR=os.path.join(scratch, "mpl"), HOME=scratch, PYTHONHASHSEED="0")
    env.pop("PYTHONPATH", None)
    os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
    work = tempfile.mkdtemp(prefix="cwd", dir=scratch)
    cmd = [PY, os.path.join(VERIF, "driver", "driver.py"), calls, trace] + (["--pristine"] if pristine else [])
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=work, env=env)
    except subprocess.TimeoutExpired:
        raise Machinery("driver did not finish in %d s" % timeout)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if p.returncode:
        raise Machinery("driver: " + (p.stderr or p.stdout)[-1500:])


def lines(path):
    return [json.loads(l) for l in open(path) if l.strip()] if os.path.exists(path) else []


# ------------------------------------------------------------------ one history: generate, replay, validate
def pipeline(classes, scratch, k, job, limit):
    d = os.path.join(scratch, "p%d" % k)
    os.makedirs(d)
    calls, trace, verdict = (os.path.join(d, n) for n in ("calls.json", "trace.json", "verdict.json"))
    res = dict(job=job, k=k, gen=None, val=None, calls=[], recs=[], verdicts={}, inv=None)
    if "calls" in job:
        with open(calls, "w") as w:
            for c in job["calls"]:
                w.write(json.dumps(c) + "\n")
    else:
        props = dict(job["props"], vout="/dev/null" if job.get("spec_only") else calls, vlawfile=os.path.join(d, "law.json"))
        g = tlc(classes, job["module"], d, props, timeout=limit, cfg=job.get("cfg"))
        res["gen"] = {x: g[x] for x in ("states", "distinct", "depth", "secs")}
        if not g["ok"]:
            # a machine may itself carry invariants of the specification: their violation is a fault of the specification
            raise Machinery("TLC (generation, %s): %s %s" % (job["module"], lines(os.path.join(d, "law.json"))[:3], g["out"][-3000:]))
    res["calls"] = lines(calls)
    if not res["calls"]:
        if job.get("spec_only"):
            return res
        raise Machinery("nothing was generated by " + job["module"])
    driver(calls, trace, d, job["mode"] == "pure", limit)
    res["recs"] = lines(trace)
    v = tlc(classes, "ConformMC", d, dict(vtrace=trace, vverdict=verdict, vmode=job["mode"], vshards=1, **job.get("judge", {})), timeout=limit)
    res["val"] = {x: v[x] for x in ("states", "distinct", "depth", "secs")}
    res["verdicts"] = {x["i"]: x["v"] for x in lines(verdict)}
    if not v["ok"]:
        # the first record without a verdict could not be interpreted as a transition at all
        rest = [r for r in res["recs"] if r["i"] not in res["verdicts"]]
        if v["rc"] == -1 or not rest or "OutOfMemory" in v["out"]:
            raise Machinery("TLC (validation): " + v["out"][-3000:])
        res["verdicts"][rest[0]["i"]] = "bad:the recorded result cannot be interpreted"
    if not job.get("keep"):
        shutil.rmtree(d, ignore_errors=True)
    return res


def explain(classes, scratch, rec):
    """The result the specification expects (for the replay file)."""
    if rec["m"] == "law":
        return None
    d = tempfile.mkdtemp(dir=scratch)
    t, e = os.path.join(d, "t.json"), os.path.join(d, "e.json")
    open(t, "w").write(json.dumps(rec) + "\n")
    tlc(classes, "Explain", d, dict(vtrace=t, vverdict=e), timeout=60)
    x = lines(e)
    return x[0]["e"] if x else None


def refs_of(v):
    if isinstance(v, dict):
        if "ref" in v:
            return {v["ref"][0]}
        return set().union(*[refs_of(x) for x in v.values()]) if v else set()
    if isinstance(v, list):
        return set().union(*[refs_of(x) for x in v]) if v else set()
    return set()


def needed(calls, i):
    """The calls a record is about: itself, what it refers to, and the earlier calls of the operations involved."""
    by = {c["i"]: c for c in calls}
    want, todo = set(), {i} | ({by[i]["s"]} if "s" in by[i] else set())
    if "s" in by[i]:
        return [c for c in calls if c.get("s") == by[i]["s"] and c["i"] <= i]
    while todo:
        j = todo.pop()
        if j in want or j not in by:
            continue
        want.add(j)
        todo |= refs_of(by[j]["a"])
    ops = {(by[j]["m"], by[j]["f"]) for j in want if by[j]["m"] != "law"}
    return [c for c in calls if c["i"] in want or (c["i"] < i and (c["m"], c["f"]) in ops)]


def known_findings(prop):
    """-> {finding: (call, text)} of the property, from the committed file"""
    out = {}
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) (F\d+) (\{.*\}) # (.*)$", l.strip())
        if m and m.group(1) == prop:
            out.setdefault(m.group(2), []).append((json.loads(m.group(3)), m.group(4)))
    return out


def short(v, n=220):
    s = json.dumps(v)
    return s if len(s) <= n else s[:n] + "..."


def main():
    argv = sys.argv[1:]
    classes = kernel()
    if "--setup" in argv:
        print("kernel", classes)
        return 0
    prop = argv[0]
    tier = argv[argv.index("--tier") + 1] if "--tier" in argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    evid = os.path.join(VERIF, "evidence")
    os.makedirs(evid, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="rock_" + prop + "_")
    limit = 780 if tier == "quick" else 6 * 3600
    try:
        known = known_findings(prop)
        if "--replay" in argv:
            rep = json.load(open(argv[argv.index("--replay") + 1]))
            jobs = [dict(calls=rep["calls"], mode=rep["mode"], name="replay")]
        else:
            jobs = plan_of(prop, tier, seed)
            if known:
                n, cs = 0, []
                for f in sorted(known):
                    for c, _ in known[f]:
                        n += 1
                        cs.append(dict(c, i=n))
                jobs.append(dict(calls=cs, mode="value", name="listed findings"))
        with ThreadPoolExecutor(8) as ex:
            futs = [ex.submit(pipeline, classes, scratch, k, j, limit) for k, j in enumerate(jobs)]
            results, errors = [], []
            for f in futs:
                try:
                    results.append(f.result())
                except Machinery as e:
                    errors.append(str(e))
        bad, seen, per, skipped, judged, distinct = [], {}, {}, 0, 0, set()
        states = trans = traces = 0
        for r in results:
            for part in (r["gen"], r["val"]):
                if part:
                    states += part["distinct"]
                    trans += max(0, part["states"] - 1)
            if r["recs"]:
                traces += 1
            by = {x["i"]: x for x in r["recs"]}
            for i in sorted(r["verdicts"]):
                v, rec = r["verdicts"][i], by[i]
                key = rec["m"] + "." + rec["f"]
                if v == "skip":
                    skipped += 1
                    continue
                judged += 1
                per[key] = per.get(key, 0) + 1
                distinct.add(hashlib.md5(json.dumps([key, rec["a"]]).encode()).hexdigest())
                if v.startswith("known:"):
                    f = v[6:]
                    if f in known:
                        seen[f] = seen.get(f, 0) + 1
                    else:
                        bad.append((r, i, "bad:" + f))
                elif v != "ok":
                    bad.append((r, i, v))
        for f in sorted(known):
            if f in seen:
                print("KNOWN-FINDING: property=%s %s %s" % (prop, f, known[f][0][1]))
        if bad:
            shutil.rmtree(os.path.join(evid, "replay", prop), ignore_errors=True)
            os.makedirs(os.path.join(evid, "replay", prop), exist_ok=True)
            done = {}
            for r, i, v in bad:
                rec = next(x for x in r["recs"] if x["i"] == i)
                key = (rec["m"], rec["f"], v.split(" ")[0])
                done[key] = done.get(key, 0) + 1
                if done[key] > 1 or len(done) > 12:
                    continue
                path = os.path.join(evid, "replay", prop, "%s_%s_%d_%d.json" % (rec["m"], rec["f"], r["k"], i))
                w = dict(property=prop, verdict=v, mode=r["job"]["mode"], step=i, record=rec,
                         calls=needed(r["calls"], i))
                if rec["m"] != "law" and r["job"]["mode"] == "value":
                    w["expected"] = explain(classes, scratch, rec)
                json.dump(w, open(path, "w"))
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print("  %s.%s: %s" % (rec["m"], rec["f"], v[4:]))
                print("  arguments " + short(rec["a"]))
                print("  observed  " + short(rec["p"] if v.startswith("bad:depends") and False else rec["o"]))
                if w.get("expected") is not None:
                    print("  expected  " + short(w["expected"]))
            print("%d records not allowed by the specification" % len(bad))
        samples = []
        for r in results[:3]:
            for rec in r["recs"][:200:67]:
                if rec["m"] != "law":
                    samples.append(dict(call="%s.%s" % (rec["m"], rec["f"]), arguments=short(rec["a"], 300), result=short(rec["o"], 200),
                                        verdict=r["verdicts"].get(rec["i"])))
        if "--replay" not in argv:
            json.dump(dict(property=prop, tier=tier, seed=seed, level="model_checking",
                           coverage=dict(states=states, transitions=trans, traces_validated_against_impl=traces, samples=samples[:9],
                                         records_judged=judged, distinct_records=len(distinct), records_skipped=skipped,
                                         per_operation=per, known_finding_records=seen,
                                         law_checked_calls=sum(r["gen"]["distinct"] for r in results if r["job"].get("spec_only")),
                                         machines=[dict(name=r["job"].get("name", ""), gen=r["gen"], validation=r["val"], calls=len(r["calls"]))
                                                   for r in results]),
                           wall_s=round(time.time() - t0, 2), violations=len(bad),
                           assumptions=["IEEE-754 double arithmetic of TLC's real kernel (java/RealKImpl.java)",
                                        "results are compared with the relative tolerance of the operation's signature (tla/Sig.tla)"]),
                      open(os.path.join(evid, prop + ".json"), "w"), indent=1)
        if bad:
            return 1
        if errors:
            print("\n".join(e[:3000] for e in errors[:3]), file=sys.stderr)
            return 2
        print("%s: %d records of %d histories allowed by the specification (%d operations, %d distinct, %.0f s)" %
              (prop, judged, traces, len(per), len(distinct), time.time() - t0))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Machinery as e:
        print("check: " + str(e), file=sys.stderr)
        sys.exit(2)

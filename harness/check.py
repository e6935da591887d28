#!/usr/bin/env python3
"""Decide one property:  check.py PID

1. model-check the property's specification modules with TLC;
2. let TLC generate behaviours of the specification (where the property has a generator);
3. run the driver: replay those behaviours and a seeded random workload on the real code in
   /repo, recording what it does;
4. let TLC validate the recorded traces against the specification;
5. report, and write the evidence.

Exit 0: held on everything explored.  Exit 1: a VIOLATION line.  Other: machinery failure.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
JAVA = os.path.join(ROOT, "java")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"
sys.path.insert(0, HERE)
from registry import PROPS  # noqa: E402

ENV = dict(
    os.environ,
    PYTHONDONTWRITEBYTECODE="1",
    PYTHONHASHSEED="0",
    MPLBACKEND="Agg",
    OMP_NUM_THREADS="1",
    OPENBLAS_NUM_THREADS="1",
    MKL_NUM_THREADS="1",
)
ENV.pop("JAVA_TOOL_OPTIONS", None)
# the code under test is /repo; a scratch copy may be named while developing
PYTHONPATH = HERE + (":" + ENV["VERIF_REPO"] + "/src" if "VERIF_REPO" in ENV else "")


class Broken(Exception):
    """the machinery failed"""


def build_java():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        srcs = sorted(os.path.join(JAVA, f) for f in os.listdir(JAVA) if f.endswith(".java"))
        h = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()
        stamp = os.path.join(BUILD, "stamp")
        if os.path.exists(stamp) and open(stamp).read() == h:
            return
        r = subprocess.run(["javac", "-nowarn", "-cp", TLA, "-d", BUILD] + srcs, capture_output=True, text=True)
        if r.returncode:
            raise Broken("javac: " + r.stderr)
        open(stamp, "w").write(h)


def tlc(module, cfg, scratch, workers=1, env=None, extra=(), timeout=850, heap="3g"):
    """run TLC, return (stdout, returncode)"""
    md = tempfile.mkdtemp(prefix="md", dir=scratch)
    cmd = [
        "java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", f"-Xmx{heap}",
        "-Djava.io.tmpdir=" + md,
        "-cp", BUILD + ":" + TLA, "-DTLA-Library=" + SPEC, "tlc2.TLC",
        "-metadir", md, "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg, *extra,
        os.path.join(SPEC, module + ".tla"),
    ]
    e = dict(ENV)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=md)
    except subprocess.TimeoutExpired as x:
        raise Broken(f"TLC {module}: timeout after {timeout}s") from x
    return r.stdout + r.stderr, r.returncode


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")
DEPTH = re.compile(r"depth of the complete state graph search is (\d+)")


def run_model(m, tier, scratch):
    cfg = os.path.join(SPEC, m["cfg"] + ".cfg")
    if tier == "thorough" and os.path.exists(os.path.join(SPEC, m["cfg"] + ".thorough.cfg")):
        cfg = os.path.join(SPEC, m["cfg"] + ".thorough.cfg")
    t0 = time.time()
    out, rc = tlc(m["module"], cfg, scratch, workers=m.get("workers", 2), extra=m.get("extra", ()),
                  timeout=3000 if tier == "thorough" else 850)
    g = STATES.search(out)
    if rc != 0 or not g:
        raise Broken(f"model {m['module']} ({os.path.basename(cfg)}) rc={rc}:\n" + errors(out))
    d = DEPTH.search(out)
    return dict(module=m["module"], cfg=os.path.basename(cfg), transitions=int(g.group(1)), states=int(g.group(2)),
                depth=int(d.group(1)) if d else None, wall_s=round(time.time() - t0, 1))


def errors(out):
    """the informative part of a failed TLC run"""
    ls = [x for x in out.splitlines() if not x.startswith(("Loading", "Parsing", "Semantic", '"@@'))]
    k = next((i for i, x in enumerate(ls) if x.startswith("Error")), max(0, len(ls) - 40))
    return "\n".join(x[:600] for x in ls[k:k + 14]) + "\n...\n" + "\n".join(x[:300] for x in ls[-30:])


def tagged(out, tag):
    for line in out.splitlines():
        if line.startswith('"@@' + tag + "|"):
            try:
                yield json.loads(line)[len(tag) + 3:]
            except json.JSONDecodeError:
                yield line[len(tag) + 4:-1].replace('\\"', '"').replace("\\\\", "\\")


def run_gen(g, tier, seed, scratch):
    cfg = os.path.join(SPEC, g["cfg"] + ".cfg")
    if tier == "thorough" and os.path.exists(os.path.join(SPEC, g["cfg"] + ".thorough.cfg")):
        cfg = os.path.join(SPEC, g["cfg"] + ".thorough.cfg")
    extra = []
    if "simulate" in g:
        num, depth = g["simulate"][tier]
        extra = ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)]
    t0 = time.time()
    out, rc = tlc(g["module"], cfg, scratch, workers=1, extra=extra)
    if rc != 0:
        raise Broken(f"generator {g['module']} rc={rc}:\n" + errors(out))
    beh, seen = [], set()
    for s in tagged(out, "BEH"):
        if s not in seen:
            seen.add(s)
            beh.append(json.loads(s))
    lim = g.get("limit", {}).get(tier)
    if lim and len(beh) > lim:
        beh = random.Random(seed).sample(beh, lim)
    if not beh:
        raise Broken(f"generator {g['module']} produced no behaviours:\n" + out[-3000:])
    m = STATES.search(out)
    return beh, dict(module=g["module"], behaviours=len(beh), states=int(m.group(2)) if m else None,
                     wall_s=round(time.time() - t0, 1))


def run_driver(p, pid, tier, seed, beh, scratch):
    out = os.path.join(scratch, "trace.json")
    cmd = [PY, os.path.join(HERE, "drivers", p["driver"] + ".py"), "--out", out, "--seed", str(seed),
           "--tier", tier, "--prop", pid, "--scratch", scratch]
    if beh is not None:
        b = os.path.join(scratch, "beh.json")
        json.dump(beh, open(b, "w"))
        cmd += ["--behaviours", b]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=dict(ENV, PYTHONPATH=PYTHONPATH, HOME=scratch),
                           timeout=2400 if tier == "thorough" else 800, cwd=scratch)
    except subprocess.TimeoutExpired as x:
        raise Broken("driver timed out") from x
    if r.returncode:
        raise Broken("driver failed:\n" + r.stdout[-2000:] + r.stderr[-6000:])
    return json.load(open(out))["cases"]


def validate(p, tag, cases, scratch, trace_mod, workers, tries=4):
    """trace validation of one shard; returns (bad list, events consumed, trace states)

    A trace on which the specification cannot take (or even evaluate) a step is not one of its
    behaviours: the case is reported, and the others are validated without it."""
    flat, owner = [], []
    for c in cases:
        for i, e in enumerate(c["events"]):
            e = dict(e)
            e.setdefault("first", i == 0)
            flat.append(e)
            owner.append((c, i))
    f = os.path.join(scratch, f"shard{tag}.json")
    json.dump(flat, open(f, "w"))
    cfg = os.path.join(SPEC, trace_mod + ".cfg")
    out, rc = tlc(trace_mod, cfg, scratch, env={"TRACE": f}, extra=["-deadlock"],
                  timeout=3000 if ENV.get("VERIF_TIER") == "thorough" else 850)
    ends = list(tagged(out, "END"))
    bad = []

    def report(l, clause, info):
        c, i = owner[l - 1]
        bad.append(dict(case=c["name"], event=i, clause=clause, info=info, meta=c.get("meta", {}), events=c["events"]))

    for b in tagged(out, "BAD"):
        l, clause, info = (b.split("|", 2) + ["", ""])[:3]
        report(int(l), clause, info)
    g = STATES.search(out)
    if rc != 0 or len(ends) != 1 or int(ends[0]) != len(flat):
        d = DEPTH.search(out)
        stuck = int(d.group(1)) if d else 0
        evaluating = rc == 0 or "The error occurred when TLC was evaluating" in out
        if ends or not g or not evaluating or not 1 <= stuck <= len(flat) or "OutOfMemory" in out:
            raise Broken(f"trace spec {trace_mod} shard {tag} rc={rc} end={ends} of {len(flat)}:\n" + errors(out))
        c, i = owner[stuck - 1]
        print(f"  not a behaviour of {trace_mod}: case {c['name']} event {i} {json.dumps(c['events'][i])[:300]}")
        report(stuck, "no-transition", "the specification has no step for " + json.dumps(c["events"][i])[:200])
        print(errors(out)[:1500], file=sys.stderr)
        rest = [x for x in cases if x is not c]
        if rest and tries > 0:
            bad = [b for b in bad if b["events"] is c["events"]]
            b2, n, ts = validate(p, tag, rest, scratch, trace_mod, workers, tries - 1)
            return bad + b2, n + i, ts + i
        return bad, stuck - 1, int(g.group(2))
    return bad, len(flat), int(g.group(2))


def load_known(pid):
    known = []
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line)
            if m and m.group(1) == pid:
                known.append((m.group(2), m.group(3)))
    return known


def main():
    pid = sys.argv[1]
    if pid == "--build":
        build_java()
        return
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    ENV["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    p = PROPS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        build_java()
        pool = cf.ThreadPoolExecutor(8)
        models = [pool.submit(run_model, m, tier, scratch) for m in p.get("models", [])]
        traces = p["traces"]  # list of dict(driver, trace, gen?)
        bad, n_events, n_cases, samples, gens, tstates = [], 0, 0, [], [], 0
        kinds = {}
        for ti, t in enumerate(traces):
            beh = None
            if "gen" in t:
                beh = []
                for g in t["gen"]:
                    b, info = run_gen(g, tier, seed, scratch)
                    beh += b
                    gens.append(info)
            cases = run_driver(t, pid, tier, seed, beh, scratch)
            for c in cases:
                if "crash" in c:
                    bad.append(dict(case="crash", event=0, clause="unexpected-error", info=c["crash"].strip().splitlines()[-1],
                                    meta={}, events=[c["crash"]]))
            cases = [c for c in cases if "crash" not in c]
            if not cases:
                if bad:
                    continue
                raise Broken("driver recorded nothing")
            n_cases += len(cases)
            k = min(t.get("shards", 6), max(1, len(cases) // 4))
            # balance by weight (number of events, or the driver's own estimate)
            order = sorted(cases, key=lambda c: -(c.get("meta", {}).get("w") or len(c["events"])))
            shards = [[] for _ in range(k)]
            load = [0] * k
            for c in order:
                j = load.index(min(load))
                shards[j].append(c)
                load[j] += c.get("meta", {}).get("w") or len(c["events"])
            futs = [pool.submit(validate, t, f"{ti}_{j}", s, scratch, t["trace"], 1) for j, s in enumerate(shards) if s]
            for f in futs:
                b, n, ts = f.result()
                bad += b
                n_events += n
                tstates += ts
            for c in cases:
                for e in c["events"]:
                    kinds[e["ev"]] = kinds.get(e["ev"], 0) + 1
            for c in cases[:: max(1, len(cases) // 3)][:3]:
                s = json.dumps({"case": c["name"], "events": c["events"]})
                samples.append(s if len(s) < 1500 else s[:1500] + "...")
        minfo = [f.result() for f in models]
    except Broken as x:
        print("MACHINERY FAILURE:", x)
        shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(2)
    shutil.rmtree(scratch, ignore_errors=True)

    known = load_known(pid)
    hits = {k: 0 for k, _ in known}
    viol = []
    for b in bad:
        for k, _ in known:
            if k == b["case"] + "/" + b["clause"] or (k.endswith("*") and (b["case"] + "/" + b["clause"]).startswith(k[:-1])):
                hits[k] += 1
                break
        else:
            viol.append(b)
    for k, text in known:
        if hits[k]:
            print(f"KNOWN-FINDING: property={pid} {k} {text}")

    states = sum(m["states"] for m in minfo) + tstates
    trans = sum(m["transitions"] for m in minfo) + n_events
    ev = dict(
        property=pid, tier=tier, seed=seed, level=p["level"],
        coverage=dict(
            states=states, transitions=trans, traces_validated_against_impl=n_cases,
            samples=samples or ["none"],
            trace_events=n_events, events_by_kind=kinds, models=minfo, generators=gens,
            violations=len(viol), known_findings={k: v for k, v in hits.items()},
        ),
        wall_s=round(time.time() - t0, 1),
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        rd = os.path.join(ROOT, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f"{pid}-{seed}-{tier}.json")
        with open(path, "w") as f:
            json.dump(viol[:50], f, indent=1)
        seen = {}
        for b in viol:
            seen.setdefault(b["clause"], b)
        for cl, b in list(seen.items())[:12]:
            n = sum(1 for v in viol if v["clause"] == cl)
            print(f"  {cl}: {n}x, first in case {b['case']} event {b['event']}: {b['info'][:300]}")
        print(f"VIOLATION property={pid} replay={path}")
        sys.exit(1)
    print(f"{pid}: held; {n_cases} traces / {n_events} events validated, models: "
          + ", ".join(f"{m['module']} {m['states']} states" for m in minfo)
          + f" [{time.time() - t0:.1f}s]")
    sys.exit(0)


if __name__ == "__main__":
    main()
